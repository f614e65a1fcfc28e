package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	. "github.com/shellyln/takenoco/base"
)

// Stage is a numbered family of cases. Fn judges one case, fully determined by (seed, property, stage, idx).
type Stage struct {
	Name   string
	N      int
	Serial bool // one case at a time (global state of the library, goroutine stress)
	Fn     func(t *T, idx int)
}

// Prop is one property's check.
type Prop struct {
	ID   string
	Race bool // built with -race (and therefore checkptr)
	// Untraced: no repetition of the stages under DebugTrace
	Untraced bool
	Rule     string
	Assume   []string
	Stages   func(tier string) []Stage
	// MinObs: monitors that must have fired at least that often, else the run observed too little.
	MinObs map[string]int64
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// boost: the quick checks that can afford several times their stages' usual number of cases
var boost = map[string]int{"C01": 2, "C03": 2, "C04": 3, "C05": 8, "C06": 3, "C07": 2, "C08": 2, "C09": 3, "C10": 8, "C11": 5, "C12": 6,
	"C14": 2, "C18": 2, "C19": 1, "C20": 3, "C22": 12, "C23": 12, "C24": 8, "C25": 2, "C26": 8, "C28": 4, "C29": 5, "C30": 6}

// stages: the property's stages, and a share of the long ones repeated with parsers built while
// somebody else is tracing the construction (DebugTrace in progress), which may change nothing.
func (p *Prop) stages(tier string) []Stage {
	st := p.Stages(tier)
	if f := boost[p.ID]; f > 1 && tier != "thorough" {
		for i := range st {
			if !st[i].Serial && st[i].N >= 200 {
				st[i].N *= f
			}
		}
	}
	if p.Untraced {
		return st
	}
	for _, s := range st {
		if s.Serial || s.N < 200 {
			continue
		}
		fn := s.Fn
		n := min(s.N/25, 400)
		if tier == "thorough" {
			n = s.N / 25
		}
		st = append(st, Stage{Name: s.Name + "-traced", N: n, Serial: true, Fn: func(t *T, idx int) {
			done := DebugTrace("verif", quietTracer{})
			defer done()
			fn(t, idx)
			t.Obs("cases with traced construction", 1)
		}})
	}
	return st
}

type quietTracer struct{}

func (quietTracer) Before(string, int, string, *ParserContext)             {}
func (quietTracer) After(string, int, string, *ParserContext, error)       {}
func (quietTracer) Panic(string, int, string, *ParserContext, interface{}) {}

// T is handed to each case.
type T struct {
	Prop, Stage string
	Idx         int
	Seed        uint64
	Tier        string
	*Rng
	rec *recorder
}

type recorder struct {
	mu       sync.Mutex
	evals    int64
	obs      map[string]int64
	distinct map[uint64]struct{}
	samples  []string
}

type violation struct {
	Stage string `json:"stage"`
	Idx   int    `json:"idx"`
	Key   string `json:"key,omitempty"`
	Msg   string `json:"msg"`
}

type caseFail struct {
	key, msg string
}

// Failf reports a violation of the property and ends the case.
func (t *T) Failf(f string, a ...interface{}) { panic(caseFail{msg: fmt.Sprintf(f, a...)}) }

// FailKey is Failf with a stable identity, for the known-findings list.
func (t *T) FailKey(key, f string, a ...interface{}) {
	panic(caseFail{key: key, msg: fmt.Sprintf(f, a...)})
}

// Eval counts oracle evaluations.
func (t *T) Eval(n int) { t.rec.mu.Lock(); t.rec.evals += int64(n); t.rec.mu.Unlock() }

// Obs counts a kind of monitored event.
func (t *T) Obs(k string, n int) { t.rec.mu.Lock(); t.rec.obs[k] += int64(n); t.rec.mu.Unlock() }

const distinctCap = 3000000

// Distinct records a non-trivial case by its content hash.
func (t *T) Distinct(h uint64) {
	t.rec.mu.Lock()
	if len(t.rec.distinct) < distinctCap {
		t.rec.distinct[h] = struct{}{}
	}
	t.rec.mu.Unlock()
}
func (t *T) DistinctS(s string) { t.Distinct(hashStr(14695981039346656037, s)) }

// Sample keeps a few written-out cases for the evidence file.
func (t *T) Sample(f func() string) {
	t.rec.mu.Lock()
	ok := len(t.rec.samples) < 2
	t.rec.mu.Unlock()
	if ok {
		s := f()
		if len(s) > 700 {
			s = s[:700] + "..."
		}
		t.rec.mu.Lock()
		t.rec.samples = append(t.rec.samples, t.Stage+": "+s)
		t.rec.mu.Unlock()
	}
}

type workerResult struct {
	Evals      int64            `json:"evals"`
	Obs        map[string]int64 `json:"obs"`
	Distinct   int              `json:"distinct"`
	Cases      int64            `json:"cases"`
	Samples    []string         `json:"samples"`
	Violations []violation      `json:"violations"`
	Hang       []violation      `json:"hang"`
	Done       bool             `json:"done"`
}

func (p *progress) set(slot, stage, idx int) {
	binary.LittleEndian.PutUint64(p.b[slot*16+8:], uint64(idx))
	binary.LittleEndian.PutUint64(p.b[slot*16:], uint64(stage+1))
}
func (p *progress) clear(slot int) { binary.LittleEndian.PutUint64(p.b[slot*16:], 0) }

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness error:", err)
		os.Exit(2)
	}
}

const maxViolations = 3

// runCase runs one case and turns panics into verdicts.
func runCase(t *T, fn func(t *T, idx int)) (v *violation) {
	defer func() {
		if r := recover(); r != nil {
			switch w := r.(type) {
			case caseFail:
				v = &violation{Stage: t.Stage, Idx: t.Idx, Key: w.key, Msg: w.msg}
			default:
				st := string(debug.Stack())
				v = &violation{Stage: t.Stage, Idx: t.Idx, Key: "panic", Msg: fmt.Sprintf("unexpected panic: %v\n%s", r, st)}
			}
		}
	}()
	fn(t, t.Idx)
	return nil
}

// worker runs all stages (or one case) and writes its result file.
func worker(p *Prop, tier string, seed uint64, out, prog string, onlyStage string, onlyIdx int, hangSec int) {
	debug.SetMaxStack(900 << 20)
	debug.SetGCPercent(200)
	nw := runtime.GOMAXPROCS(0)
	pr := openProgress(prog, nw)
	rec := &recorder{obs: map[string]int64{}, distinct: map[uint64]struct{}{}}
	var res workerResult
	var vmu sync.Mutex
	var stop atomic.Bool
	type slotInfo struct {
		start atomic.Int64
		stage atomic.Value
		idx   atomic.Int64
	}
	slots := make([]slotInfo, nw)
	var written sync.Mutex
	write := func() {
		vmu.Lock()
		rec.mu.Lock()
		res.Evals, res.Obs, res.Distinct = rec.evals, rec.obs, len(rec.distinct)
		res.Samples = rec.samples
		b, err := json.Marshal(res)
		rec.mu.Unlock()
		vmu.Unlock()
		must(err)
		must(os.WriteFile(out, b, 0o600))
	}
	// watchdog: a case that never ends or eats all memory is handed to the supervisor for a second look
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			now := time.Now().Unix()
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			mem := ms.HeapAlloc > 8<<30
			var sus []violation
			for i := range slots {
				st := slots[i].start.Load()
				if st != 0 && (mem || now-st > int64(hangSec)) {
					s, _ := slots[i].stage.Load().(string)
					why := "did not finish"
					if mem {
						why = "memory exhausted"
					}
					sus = append(sus, violation{Stage: s, Idx: int(slots[i].idx.Load()), Msg: why})
				}
			}
			if len(sus) > 0 {
				vmu.Lock()
				res.Hang = sus
				vmu.Unlock()
				written.Lock()
				write()
				os.Exit(3)
			}
		}
	}()
	for si, st := range p.stages(tier) {
		if onlyStage != "" && onlyStage != st.Name {
			continue
		}
		n := nw
		if st.Serial {
			n = 1
		}
		var next atomic.Int64
		end := int64(st.N)
		if onlyStage != "" {
			n = 1
			next.Store(int64(onlyIdx))
			end = int64(onlyIdx) + 1
		}
		var wg sync.WaitGroup
		for w := 0; w < n; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for !stop.Load() {
					i := next.Add(1) - 1
					if i >= end {
						return
					}
					t := &T{Prop: p.ID, Stage: st.Name, Idx: int(i), Seed: seed, Tier: tier, rec: rec,
						Rng: newRng(seed, p.ID, st.Name, strconv.Itoa(int(i)))}
					pr.set(w, si, int(i))
					slots[w].stage.Store(st.Name)
					slots[w].idx.Store(i)
					slots[w].start.Store(time.Now().Unix())
					v := runCase(t, st.Fn)
					slots[w].start.Store(0)
					pr.clear(w)
					vmu.Lock()
					res.Cases++
					if v != nil {
						res.Violations = append(res.Violations, *v)
						if len(res.Violations) >= 50 || (v.Key == "" && len(res.Violations) >= maxViolations) {
							stop.Store(true)
						}
					}
					vmu.Unlock()
				}
			}(w)
		}
		wg.Wait()
		if stop.Load() {
			break
		}
	}
	res.Done = true
	written.Lock()
	write()
	os.Exit(0)
}

type knownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

func loadKnown(root string) []knownFinding {
	var k struct {
		Findings []knownFinding `json:"findings"`
	}
	b, err := os.ReadFile(filepath.Join(root, "known_findings.json"))
	if err != nil {
		return nil
	}
	must(json.Unmarshal(b, &k))
	return k.Findings
}

// supervise starts the worker, judges how it ended, writes evidence and prints the verdict.
func supervise(p *Prop, tier string, seed uint64, root string) int {
	t0 := time.Now()
	tmp, err := os.MkdirTemp("", "vrun-")
	must(err)
	defer os.RemoveAll(tmp)
	self, err := os.Executable()
	must(err)
	replayDir := filepath.Join(root, "replay")
	must(os.MkdirAll(replayDir, 0o755))
	old, _ := filepath.Glob(filepath.Join(replayDir, p.ID+"-*"))
	for _, f := range old {
		os.Remove(f)
	}
	out, prog, errf := filepath.Join(tmp, "res.json"), filepath.Join(tmp, "prog"), filepath.Join(tmp, "stderr")
	limit := 840 * time.Second
	hang := "150"
	if tier == "thorough" {
		limit, hang = 6*time.Hour, "600"
	}
	again, againLimit := "100", 130*time.Second
	if h := os.Getenv("VERIF_HANG"); h != "" { // seconds; only used when many broken trees are tried
		hang, again = h, h
	}
	run := func(out string, limit time.Duration, args ...string) (error, string) {
		c := exec.Command(self, args...)
		ef, err := os.Create(errf)
		must(err)
		c.Stderr = ef
		c.Stdout = ef
		c.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+filepath.Join(tmp, "race"), "GOTRACEBACK=all")
		must(c.Start())
		timer := time.AfterFunc(limit, func() { c.Process.Kill() })
		err = c.Wait()
		timed := !timer.Stop()
		ef.Close()
		b, _ := os.ReadFile(errf)
		if timed {
			return fmt.Errorf("time limit"), string(b)
		}
		return err, string(b)
	}
	base := func(cmd, out string, hang string) []string {
		return []string{cmd, "-prop", p.ID, "-tier", tier, "-seed", strconv.FormatUint(seed, 10), "-out", out, "-prog", prog, "-hang", hang}
	}
	werr, stderr := run(out, limit, base("worker", out, hang)...)
	var res workerResult
	if b, err := os.ReadFile(out); err == nil {
		must(json.Unmarshal(b, &res))
	}
	var viol []violation
	inconclusive := ""
	viol = append(viol, res.Violations...)
	libFrame := func(s string) bool { return strings.Contains(s, "github.com/shellyln/takenoco") }
	if !res.Done {
		// suspects: reported hangs, or cases in flight when the process died
		sus := res.Hang
		if len(sus) == 0 {
			if b, err := os.ReadFile(prog); err == nil {
				stages := p.stages(tier)
				for i := 0; i+16 <= len(b); i += 16 {
					s := binary.LittleEndian.Uint64(b[i:])
					if s > 0 && int(s) <= len(stages) {
						sus = append(sus, violation{Stage: stages[s-1].Name, Idx: int(binary.LittleEndian.Uint64(b[i+8:]))})
					}
				}
			}
		}
		found := false
		tail := stderr
		if len(tail) > 6000 {
			tail = tail[:6000]
		}
		for _, s := range sus {
			o2 := filepath.Join(tmp, "res2.json")
			os.Remove(o2)
			e2, se2 := run(o2, againLimit, append(base("worker", o2, again), "-stage", s.Stage, "-idx", strconv.Itoa(s.Idx))...)
			var r2 workerResult
			if b, err := os.ReadFile(o2); err == nil {
				json.Unmarshal(b, &r2)
			}
			if len(r2.Violations) > 0 {
				viol = append(viol, r2.Violations...)
				found = true
			} else if !r2.Done {
				if len(se2) > 6000 {
					se2 = se2[:6000]
				}
				why := "crashed"
				if len(r2.Hang) > 0 {
					why = r2.Hang[0].Msg
				}
				viol = append(viol, violation{Stage: s.Stage, Idx: s.Idx, Msg: fmt.Sprintf("case %s when run alone (%v)\n%s", why, e2, se2)})
				found = true
			}
			if found {
				break
			}
		}
		if !found {
			if (strings.Contains(stderr, "fatal error:") || strings.Contains(stderr, "panic:")) && libFrame(stderr) {
				viol = append(viol, violation{Stage: "process", Msg: "worker process died inside the library:\n" + tail})
			} else {
				inconclusive = fmt.Sprintf("worker did not complete (%v), no suspect case failed alone\n%s", werr, tail)
			}
		}
	}
	races, harnessRaces := 0, 0
	if logs, _ := filepath.Glob(filepath.Join(tmp, "race.*")); len(logs) > 0 {
		for _, l := range logs {
			b, _ := os.ReadFile(l)
			for _, rep := range strings.Split(string(b), "==================") {
				if !strings.Contains(rep, "WARNING: DATA RACE") {
					continue
				}
				if libFrame(rep) {
					races++
					if races <= maxViolations {
						viol = append(viol, violation{Stage: "race", Idx: races, Msg: rep})
					}
				} else {
					harnessRaces++
				}
			}
		}
		if races == 0 && harnessRaces > 0 {
			inconclusive = fmt.Sprintf("%d race reports in the harness itself", harnessRaces)
			b, _ := os.ReadFile(logs[0])
			fmt.Fprintln(os.Stderr, string(b[:min(len(b), 4000)]))
		}
	}
	known := loadKnown(root)
	var fresh []violation
	seenKnown := map[string]bool{}
	for _, v := range viol {
		hit := false
		for _, k := range known {
			if v.Key != "" && k.Property == p.ID && k.Key == v.Key {
				hit = true
				if !seenKnown[k.Key] {
					seenKnown[k.Key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.What)
				}
			}
		}
		if !hit {
			fresh = append(fresh, v)
		}
	}
	if len(fresh) == 0 && inconclusive == "" {
		for k, n := range p.MinObs {
			if res.Obs[k] < n {
				inconclusive = fmt.Sprintf("monitor %q fired only %d times (need %d)", k, res.Obs[k], n)
			}
		}
		if res.Evals == 0 {
			inconclusive = "nothing was observed"
		}
	}
	keys := make([]string, 0)
	for k := range res.Obs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	obs := map[string]int64{}
	for _, k := range keys {
		obs[k] = res.Obs[k]
	}
	samples := res.Samples
	if samples == nil {
		samples = []string{}
	}
	cov := map[string]interface{}{
		"evaluations": res.Evals, "distinct_nontrivial": res.Distinct, "rule": p.Rule,
		"samples": samples, "cases_run": res.Cases, "observed_events": obs,
	}
	if p.Race {
		cov["race_reports"] = races
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": append([]string{"says nothing about executions the workload did not produce"}, p.Assume...),
		"wall_s":      float64(int(time.Since(t0).Seconds()*100)) / 100, "violations": len(fresh),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	must(os.MkdirAll(filepath.Join(root, "evidence"), 0o755))
	must(os.WriteFile(filepath.Join(root, "evidence", p.ID+".json"), append(b, '\n'), 0o644))
	if len(fresh) > 0 {
		for i, v := range fresh {
			if i >= maxViolations {
				break
			}
			path := filepath.Join(replayDir, fmt.Sprintf("%s-%s-%d.txt", p.ID, v.Stage, v.Idx))
			var w bytes.Buffer
			fmt.Fprintf(&w, "property %s, stage %s, case %d, seed %d, tier %s\nrepeat: bash /verif/run.sh %s --stage %s --idx %d  (VERIF_SEED=%d VERIF_TIER=%s)\n\n%s\n",
				p.ID, v.Stage, v.Idx, seed, tier, p.ID, v.Stage, v.Idx, seed, tier, v.Msg)
			must(os.WriteFile(path, w.Bytes(), 0o644))
			msg := v.Msg
			if len(msg) > 1500 {
				msg = msg[:1500] + "..."
			}
			fmt.Println(msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		}
		return 1
	}
	if inconclusive != "" {
		fmt.Println("INCONCLUSIVE:", inconclusive)
		return 2
	}
	fmt.Printf("%s held on %d evaluations (%d distinct non-trivial), %d cases, %.1fs\n", p.ID, res.Evals, res.Distinct, res.Cases, time.Since(t0).Seconds())
	return 0
}
