package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"sort"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vrun check|worker|list ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("vrun", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	root := fs.String("root", "/verif", "")
	out := fs.String("out", "", "")
	prog := fs.String("prog", "", "")
	stage := fs.String("stage", "", "")
	idx := fs.Int("idx", 0, "")
	hang := fs.Int("hang", 150, "")
	from := fs.Int("from", 0, "")
	to := fs.Int("to", 0, "")
	fs.Parse(os.Args[2:])
	if runtime.GOOS != "js" { // no process of a check outlives the one that started it
		go func() {
			for p := os.Getppid(); os.Getppid() == p; {
				time.Sleep(time.Second)
			}
			os.Exit(2)
		}()
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id, props[id].Race)
		}
		return
	case "digest":
		digestMain(*seed, *tier, *from, *to)
		return
	case "portable":
		portableMain(*seed, *tier, *from, *to)
		return
	case "israce":
		if p := props[*prop]; p != nil && p.Race {
			fmt.Println("race")
		}
		return
	}
	time.Local = time.FixedZone("away", []int{-9*3600 - 1800, 5*3600 + 2700, 3600, 13 * 3600}[*seed%4]) // nothing may depend on the zone of the machine
	p := props[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(supervise(p, *tier, *seed, *root))
	case "worker":
		worker(p, *tier, *seed, *out, *prog, *stage, *idx, *hang)
	case "replay":
		for _, st := range p.stages(*tier) {
			if st.Name == *stage {
				rec := &recorder{obs: map[string]int64{}, distinct: map[uint64]struct{}{}}
				t := &T{Prop: p.ID, Stage: st.Name, Idx: *idx, Seed: *seed, Tier: *tier, rec: rec,
					Rng: newRng(*seed, p.ID, st.Name, fmt.Sprint(*idx))}
				if v := runCase(t, st.Fn); v != nil {
					fmt.Println(v.Msg)
					os.Exit(1)
				}
				b, _ := json.Marshal(rec.obs)
				fmt.Println("held", string(b), rec.samples)
				return
			}
		}
		fmt.Println("no such stage")
		os.Exit(2)
	}
}
