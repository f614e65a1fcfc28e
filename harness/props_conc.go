package main

import (
	"errors"
	"fmt"
	"io"
	"reflect"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	. "github.com/shellyln/takenoco/base"
	"github.com/shellyln/takenoco/extra"
	objp "github.com/shellyln/takenoco/object"
	strp "github.com/shellyln/takenoco/string"
)

// ---- C17: many goroutines ----

type seenRun struct {
	m    int
	src  string
	out  Out
	bad  string
	fail interface{}
}

// together starts n goroutines at once; each makes its runs on the shared parsers and keeps the results.
func together(n int, plan func(g int) []seenRun, run []func(string) Out) [][]seenRun {
	res := make([][]seenRun, n)
	for g := range res {
		res[g] = plan(g)
	}
	var ready, start atomic.Int32
	var wg sync.WaitGroup
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func(mine []seenRun) {
			defer wg.Done()
			ready.Add(1)
			for start.Load() == 0 {
			}
			for i := range mine {
				func() {
					defer func() {
						if x := recover(); x != nil {
							mine[i].fail = x
							if c, ok := x.(caseFail); ok {
								mine[i].bad = c.msg
							} else {
								mine[i].bad = fmt.Sprintf("panic: %v\n%s", x, stack())
							}
						}
					}()
					mine[i].out = run[mine[i].m](mine[i].src)
				}()
			}
		}(res[g])
	}
	for ready.Load() < int32(n) {
	}
	start.Store(1)
	wg.Wait()
	return res
}

func c17shared(t *T, idx int) {
	p := baseProfile()
	p.Rules = 4
	p.W[KInd], p.W[KMatch], p.W[KTrans], p.W[KSeqI] = 14, 5, 14, 6
	nm := t.R(1, 3)
	var ms []machine
	var run []func(string) Out
	var texts [][]string
	for i := 0; i < nm; i++ {
		m := t.anyMachine(p)
		ms = append(ms, m)
		run = append(run, m.mk(jitter))
		var w []string
		for j := t.R(1, 4); j > 0; j-- {
			w = append(w, m.gen(t.Rng))
		}
		texts = append(texts, w)
	}
	ng := t.R(3, 8)
	res := together(ng, func(g int) []seenRun {
		var w []seenRun
		for i := t.R(1, 5); i > 0; i-- {
			m := t.N(nm)
			s := pick(t.Rng, texts[m])
			if s == "\x00skip" {
				continue
			}
			w = append(w, seenRun{m: m, src: s})
		}
		return w
	}, run)
	c17compare(t, ms, res)
	t.Obs("goroutines", ng)
}

func c17compare(t *T, ms []machine, res [][]seenRun) {
	alone := map[string]Out{}
	for _, mine := range res {
		for _, r := range mine {
			key := fmt.Sprint(r.m, "\x00", r.src)
			desc := fmt.Sprintf("%s\n  text %q", ms[r.m].name, r.src)
			want, ok := alone[key]
			if !ok {
				func() {
					defer func() {
						if x := recover(); x != nil {
							// the documented input set of a machine never panics alone
							t.Failf("panic even alone: %v\n  %s\n%s", x, desc, stack())
						}
					}()
					want = ms[r.m].mk(nil)(r.src)
				}()
				want = want.frozen()
				alone[key] = want
			}
			t.Eval(1)
			t.Obs("runs", 1)
			t.Obs("outcome."+want.St.String(), 1)
			if r.bad != "" {
				t.Failf("a run beside others ended by %s\n  %s", r.bad, desc)
			}
			if d := r.out.same(want); d != "" {
				t.Failf("%s: beside others %v, alone %v\n  %s", d, r.out, want, desc)
			}
			t.DistinctS(ms[r.m].name + "\x00" + r.src)
		}
	}
	for _, m := range ms {
		if s := m.same(); s != "" {
			t.Failf("%s\n  %s", s, m.name)
		}
	}
	t.Sample(func() string {
		return fmt.Sprintf("%d goroutines on %s", len(res), ms[0].name)
	})
}

// c17first: chains and cycles of references, expanded for the first time by all goroutines at the same moment.
func c17first(t *T, idx int) {
	depth := t.R(1, 12)
	for rep := 0; rep < 8; rep++ {
		mk := func(call hookFn) func(string) Out {
			refs := make([]ParserFn, depth)
			for i := range refs {
				i := i
				refs[i] = Indirect(func() ParserFn {
					if call != nil {
						call(true)
					}
					next := refs[(i+1)%depth]
					switch (i + rep) % 3 {
					case 0:
						return First(FlatGroup(strp.Seq("("), next, strp.Seq(")")), strp.Seq("x"))
					case 1:
						return Trans(FlatGroup(strp.CharClass("(", "["), ZeroOrOnce(next), strp.CharClass(")", "]", "x")), Push(Ast{ClassName: "p", Type: AstType_Int, Value: int64(i)}))
					}
					return Group(strp.SeqI("("), ZeroOrMoreTimes(next), First(strp.Seq(")"), strp.Seq("x")))
				})
			}
			p := FlatGroup(refs[0], strp.End())
			return func(src string) Out { return runStr(p, src) }
		}
		m := machine{name: fmt.Sprintf("ring of %d references, variant %d", depth, rep), mk: mk, same: func() string { return "" }}
		d := t.N(depth * 2)
		src := strings.Repeat("(", d) + "x" + strings.Repeat(")", d)
		src2 := strings.Repeat("(", d) + strings.Repeat(")", d)
		ng := t.R(2, 8)
		res := together(ng, func(g int) []seenRun {
			return []seenRun{{m: 0, src: src}, {m: 0, src: src2}}
		}, []func(string) Out{mk(jitter)})
		c17compare(t, []machine{m}, res)
		t.Obs("first expansions raced", 1)
	}
}

// pairOp: something done with one of two inputs, shared by all goroutines; what comes of it is told as a text.
type pairOp struct {
	name string
	do   func(k int) string
}

func pairOps(r *Rng) []pairOp {
	var ops []pairOp
	str := func(name string, p ParserFn, a, b string, at int) {
		in := [2]string{a, b}
		ops = append(ops, pairOp{fmt.Sprintf("%s on %q and %q", name, a, b), func(k int) string {
			out, err := p(ParserContext{Str: in[k], SourcePosition: SourcePosition{Position: min(at, len(in[k]))}})
			v := ""
			if len(out.AstStack) > 0 {
				v = fmt.Sprint(out.AstStack[0].Value)
			}
			return fmt.Sprint(out.MatchStatus, out.Position, len(out.AstStack), v, err)
		}})
	}
	x, y := pick(r, []string{"a", "Z", "0", "é", "😀"}), pick(r, []string{" ", "\n", "\u0085", "$", "\xff"})
	up := pick(r, []string{"k", "ſt", "é", "ab"})
	for _, l := range []struct {
		n    string
		p    ParserFn
		a, b string
	}{
		{"Any", strp.Any(), x, y}, {"Seq", strp.Seq(x), x, y}, {"SeqI", strp.SeqI(up), strings.ToUpper(up), x + y}, {"End", strp.End(), "", x}, {"Start", Start(), "", x},
		{"CharRange", strp.CharRange(RuneRange{Start: 'a', End: 'z'}), "m", y}, {"CharRangeN", strp.CharRangeN(RuneRange{Start: 'a', End: 'z'}), "m", y},
		{"CharClass", strp.CharClass("ab", x), x, y}, {"CharClassN", strp.CharClassN("ab", x), x, y}, {"CharClassFn", strp.CharClassFn(preds[1]), "a", "é"},
		{"Whitespace", strp.Whitespace(), " ", "x"}, {"WhitespaceNoLineBreak", strp.WhitespaceNoLineBreak(), " ", "\n"}, {"LineBreak", strp.LineBreak(), "\n", x},
		{"Alpha", strp.Alpha(), "q", "7"}, {"Number", strp.Number(), "7", "q"}, {"Alnum", strp.Alnum(), "7", y}, {"BinNumber", strp.BinNumber(), "1", "2"},
		{"OctNumber", strp.OctNumber(), "7", "8"}, {"HexNumber", strp.HexNumber(), "f", "g"}, {"WordBoundary", strp.WordBoundary(), "ab", "a b"},
		{"UnicodeWordBoundary", extra.UnicodeWordBoundary(), "éb", "é b"}, {"UnicodeIdentifierStr", extra.UnicodeIdentifierStr(), "éa", "1é"},
		{"AsciiIdentifierStr", extra.AsciiIdentifierStr(), "ab", "$1 "}, {"NumericStr", extra.NumericStr(), "1_0.5e3", "-7"}, {"IntegerNumberStr", extra.IntegerNumberStr(), "12", "+3"},
		{"Date", Trans(extra.DateStr(), extra.ParseDate), "2001-02-03", "1999-12-31"}, {"Time", Trans(extra.TimeStr(), extra.ParseTime), "01:02", "23:59:58.5"},
		{"DateTime", Trans(extra.DateTimeStr(), extra.ParseDateTime), "2001-02-03T04:05Z", "1999-12-31T23:59:58.123+09:30"},
		{"Zero", Zero(Ast{Value: 1}), x, y}, {"First", First(strp.Seq(x), strp.Seq(y)), x, y}, {"LookBehind", LookBehind(1, 2, strp.Seq("a")), "ab", "bb"},
		{"LookAheadN", LookAheadN(strp.Seq(x)), x, y}, {"Repeat", Repeat(Times{Min: 1, Max: 3}, strp.Seq("a")), "aaaa", "aab"},
	} {
		at := 0
		if strings.Contains(l.n, "Boundary") || l.n == "LookBehind" {
			at = pick(r, []int{1, len("é")})
		}
		str(l.n, l.p, l.a, l.b, at)
		if r.P(25) {
			str(l.n+" twice", FlatGroup(l.p, l.p), l.a+l.a, l.b+l.a, 0)
		}
	}
	tr := func(name string, f TransformerFn, a, b AstSlice) {
		in := [2]AstSlice{a, b}
		ops = append(ops, pairOp{fmt.Sprintf("%s on %s and %s", name, fmtAsts(a), fmtAsts(b)), func(k int) string {
			out, err := f(ParserContext{}, in[k])
			v := ""
			if len(out) > 0 {
				v = fmt.Sprint(out[0].Value, out[0].ClassName, out[0].OpCode, out[len(out)-1].Value)
			}
			return fmt.Sprint(len(out), v, err)
		}})
	}
	s := func(v ...string) (l AstSlice) {
		for i, x := range v {
			l = append(l, Ast{Type: AstType_String, Value: x, SourcePosition: SourcePosition{Position: i}})
		}
		return
	}
	tr("Concat", strp.Concat, s("a", "b"), s("c", "d", "e"))
	tr("Trim", strp.Trim, s(" a"), s("b "))
	tr("TrimStart", strp.TrimStart, s(" a"), s("b "))
	tr("TrimEnd", strp.TrimEnd, s(" a"), s("b "))
	tr("ParseInt", strp.ParseInt, s("12"), s("-9", "9"))
	tr("ParseIntRadix", strp.ParseIntRadix(16), s("ff"), s("-1a"))
	tr("ParseUint", strp.ParseUint, s("12"), s("x"))
	tr("ParseFloat", strp.ParseFloat, s("1.5"), s("1e30"))
	tr("RuneFromInt", strp.RuneFromInt, AstSlice{{Value: int64(65)}}, AstSlice{{Value: int64(0x1f600)}})
	tr("StringFromRune", strp.StringFromRune, AstSlice{{Value: 'a'}}, AstSlice{{Value: 'é'}})
	for _, k := range stockTr[:TrConcat] {
		sp := makeTr(r, k)
		tr(sp.String(), sp.build(), s("a", "b"), s("c", "d", "e"))
	}
	tr("ProductionRule", ProductionRule([]Precedence{{Rules: []ParserFn{Trans(FlatGroup(objp.Any(), objp.Any()), Pop)}}}, FlatGroup(objp.Any(), objp.End())), s("a", "b", "c"), s("x", "y"))
	m := Match(1)(Case{If: TopIsStr("a", "b"), Let: []TransformerFn{SetOpCode(1)}}, Case{If: TopIsInt(1, 2), Let: []TransformerFn{SetOpCode(2)}}, Case{If: TopIs(1.5, "c"), Let: []TransformerFn{SetOpCode(3)}})
	tr("Match", func(_ ParserContext, a AstSlice) (AstSlice, error) {
		out, err := m(ParserContext{AstStack: append(AstSlice(nil), a...)})
		return out.AstStack, err
	}, s("b"), pick(r, []AstSlice{s("c"), {{Value: int64(2)}}, {{Value: 1.5}}}))
	obj := func(name string, p ParserFn, a, b interface{}) {
		in := [2]AstSlice{{{Value: a}}, {{Value: b}}}
		ops = append(ops, pairOp{fmt.Sprintf("object %s on %v and %v", name, a, b), func(k int) string {
			out, err := p(ParserContext{Slice: in[k]})
			return fmt.Sprint(out.MatchStatus, out.Position, len(out.AstStack), err)
		}})
	}
	obj("Seq", objp.Seq(Ast{Value: 1}), 1, 2)
	obj("ObjClass", objp.ObjClass(Ast{Value: 1}, Ast{Value: "x"}), 1, 2)
	obj("ObjClassN", objp.ObjClassN(Ast{Value: 1}, Ast{Value: "x"}), "x", "y")
	obj("ObjClassFn", objp.ObjClassFn(func(c interface{}) bool { return c.(Ast).Value == 1 }), 1, 2)
	list := func(v ...interface{}) Ast {
		l := AstSlice{}
		for _, x := range v {
			l = append(l, Ast{Value: x})
		}
		return Ast{Type: AstType_ListOfAst, Value: l}
	}
	trees := [2]Ast{list(1, 2, 3), list("a")}
	ops = append(ops, pairOp{"Traverse", func(k int) string {
		out, _, _, _, err := trees[k].Traverse(func(_ interface{}, a Ast) (Ast, WayThereMode, error) { return a, WayThereMode(k * 2), nil },
			func(_ interface{}, a Ast) (Ast, int16, TraverseOpcode, interface{}, error) {
				if a.Type != AstType_ListOfAst {
					a.Value = fmt.Sprint(a.Value, "!")
				}
				return a, 0, 0, nil, nil
			}, nil, nil)
		return fmt.Sprint(out.Value, err)
	}}, pairOp{"ItemEquals", func(k int) string { return fmt.Sprint(AstSlice{}.ItemEquals(trees[0], trees[k])) }})
	src := [2]string{"a\nb\tc", "\tq"}
	ops = append(ops, pairOp{"GetLineAndColPosition", func(k int) string {
		return fmt.Sprint(GetLineAndColPosition(src[k], SourcePosition{Position: 2 - k}, 4))
	}})
	return ops
}

// c17pairs: one thing done over and over by half of the goroutines with one input and by the others with another.
func c17pairs(t *T, idx int) {
	ops := pairOps(t.Rng)
	op := ops[idx%len(ops)]
	want := [2]string{op.do(0), op.do(1)}
	const ng, each = 8, 6000
	var bad [ng]string
	var start atomic.Int32
	var wg sync.WaitGroup
	for g := 0; g < ng; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					bad[g] = fmt.Sprintf("panic: %v", x)
				}
			}()
			start.Add(1)
			for start.Load() < ng {
			}
			for i := 0; i < each && bad[g] == ""; i++ {
				if o := op.do(g % 2); o != want[g%2] {
					bad[g] = fmt.Sprintf("%s instead of %s", o, want[g%2])
				}
			}
		}(g)
	}
	wg.Wait()
	t.Eval(ng * each)
	t.Obs("paired runs", ng*each)
	for _, b := range bad {
		if b != "" {
			t.Failf("beside others: %s: %s", b, op.name)
		}
	}
	t.DistinctS(op.name)
}

// c17nodes: transformers holding nodes, and case matches, under many goroutines on shared inputs.
func c17nodes(t *T, idx int) {
	p := baseProfile()
	p.TrW = evenTrW()
	p.W[KTrans], p.W[KMatch], p.W[KZero], p.W[KGroup] = 60, 15, 10, 12
	var ms []machine
	var run []func(string) Out
	m := t.grammarMachine(p, nil)
	ms = append(ms, m)
	run = append(run, m.mk(jitter))
	src := m.gen(t.Rng)
	if src == "\x00skip" {
		return
	}
	res := together(8, func(g int) []seenRun {
		return []seenRun{{src: src}, {src: src}, {src: src}}
	}, run)
	c17compare(t, ms, res)
}

// ---- C18: histories ----

type keptOut struct {
	what string
	out  Out
	copy []Ast
}

type abortRun struct{ n int }

var guardPages atomic.Int64 // never unmapped, so limited (vm.max_map_count)

func c18history(t *T, idx int) {
	p := baseProfile()
	p.Rules = 3
	p.W[KMatch], p.W[KTrans], p.W[KZero], p.W[KInd], p.W[KFn] = 6, 12, 5, 9, 8
	if t.P(40) {
		p.Share = 20
		p.W[KLA], p.W[KLAN], p.W[KFirst], p.W[KInd] = 8, 8, 24, 4
	}
	nm := t.R(1, 4)
	var ms []machine
	var run []func(string) Out
	var texts [][]string
	alone := map[string]Out{}
	var kept []keptOut
	depth := 0
	abortAt := -1
	calls := 0
	nests := 0 // since the last parse of the history itself
	var one func(t *T)
	hook := func(expanding bool) {
		calls++
		if calls == abortAt {
			panic(abortRun{calls})
		}
		if !expanding && depth < 3 && nests < 60 && t.P(4) {
			nests++
			t.Obs("nested parses", 1)
			one(t)
		}
	}
	for i := 0; i < nm; i++ {
		m := t.anyMachine(p)
		ms = append(ms, m)
		run = append(run, m.mk(hook))
		var w []string
		for j := t.R(1, 3); j > 0; j-- {
			if s := m.gen(t.Rng); s != "\x00skip" {
				w = append(w, s)
			}
		}
		texts = append(texts, w)
	}
	for i, m := range ms {
		for _, s := range texts[i] {
			desc := func() string { return fmt.Sprintf("%s\n  text %q", m.name, s) }
			t.guarded(desc, func() {
				o := m.mk(nil)(s)
				alone[fmt.Sprint(i, "\x00", s)] = o.frozen()
				if m.doc != nil {
					if q, ok := m.doc(s); ok {
						if d := o.diff(q); d != "" {
							t.Failf("%s: a single parse gives %v, documented %v\n  %s", d, o, q, desc())
						}
						t.Obs("single parses against the documented outcome", 1)
					}
				}
			})
		}
	}
	one = func(t *T) {
		k := t.N(nm)
		if len(texts[k]) == 0 {
			return
		}
		src := pick(t.Rng, texts[k])
		desc := func() string {
			return fmt.Sprintf("%s\n  text %q\n  parse %d of the history, nested %d deep", ms[k].name, src, len(kept), depth)
		}
		var out Out
		aborted := false
		func() {
			depth++
			defer func() {
				depth--
				if x := recover(); x != nil {
					if _, ok := x.(abortRun); ok {
						aborted = true
						t.Obs("aborted parses", 1)
						return
					}
					if c, ok := x.(caseFail); ok {
						panic(c)
					}
					t.Failf("panic: %v\n  %s\n%s", x, desc(), stack())
				}
			}()
			in := src
			if t.P(10) && guardPages.Add(1) < 6000 {
				in, _ = guardString(src, t.P(50)) // a read-only page: any write faults; stays mapped as results may refer to it
			}
			out = run[k](in)
		}()
		if aborted {
			return
		}
		want := alone[fmt.Sprint(k, "\x00", src)]
		t.Eval(1)
		t.Obs("outcome."+want.St.String(), 1)
		if d := out.same(want); d != "" {
			t.Failf("%s: in this history %v, alone %v\n  %s", d, out, want, desc())
		}
		kept = append(kept, keptOut{desc(), out, cloneAsts(out.Ctx.AstStack)})
	}
	check := func() {
		for _, k := range kept {
			if !astsEq(k.out.Ctx.AstStack, k.copy, true) {
				t.Failf("an earlier result changed from %s to %s\n  %s", fmtAsts(k.copy), fmtAsts(k.out.Ctx.AstStack), k.what)
			}
			t.Obs("earlier results rechecked", 1)
		}
		for _, m := range ms {
			if s := m.same(); s != "" {
				t.Failf("%s\n  %s", s, m.name)
			}
		}
	}
	h := ""
	for i := t.R(5, 25); i > 0; i-- {
		abortAt = -1
		if t.P(20) {
			abortAt = calls + t.R(1, 12)
		}
		nests = 0
		one(t)
		if t.P(20) {
			check()
		}
	}
	check()
	for i, m := range ms {
		h += m.name + strings.Join(texts[i], "\x00")
	}
	t.DistinctS(h)
	t.Sample(func() string { return fmt.Sprintf("%d parses kept of %d parsers, first %s", len(kept), nm, ms[0].name) })
}

// c18interleaved: several parses advance in turns, each suspended inside its callbacks.
func c18interleaved(t *T, idx int) {
	p := baseProfile()
	p.Rules = 3
	p.W[KFn], p.W[KMatch], p.W[KTrans], p.W[KCustom], p.W[KInd] = 14, 6, 16, 8, 8
	type routine struct {
		m      int
		src    string
		resume chan bool
		yield  chan bool // true: finished
		out    Out
		bad    interface{}
		steps  int
	}
	var cur *routine
	hook := func(expanding bool) {
		r := cur
		if r == nil || expanding {
			return
		}
		r.steps++
		r.yield <- false
		if !<-r.resume {
			panic(abortRun{})
		}
	}
	nm := t.R(1, 3)
	var ms []machine
	var run []func(string) Out
	for i := 0; i < nm; i++ {
		m := t.anyMachine(p)
		ms = append(ms, m)
		run = append(run, m.mk(hook))
	}
	var rs []*routine
	for i := t.R(2, 5); i > 0; i-- {
		r := &routine{m: t.N(nm), resume: make(chan bool), yield: make(chan bool)}
		r.src = ms[r.m].gen(t.Rng)
		if r.src == "\x00skip" {
			continue
		}
		if len(rs) > 0 && t.P(40) {
			r.m, r.src = rs[0].m, rs[0].src
		}
		rs = append(rs, r)
	}
	live := append([]*routine(nil), rs...)
	for _, r := range rs {
		go func(r *routine) {
			<-r.resume
			defer func() {
				r.bad = recover()
				r.yield <- true
			}()
			r.out = run[r.m](r.src)
		}(r)
	}
	switches := 0
	order := uint64(0)
	for len(live) > 0 {
		i := t.N(len(live))
		r := live[i]
		cur = r
		for k := t.R(1, 4); k > 0; k-- {
			r.resume <- r.steps < 20000
			switches++
			order = mix64(order ^ uint64(r.m*31+i))
			if <-r.yield {
				live = append(live[:i:i], live[i+1:]...)
				break
			}
		}
	}
	cur = nil
	t.Obs("suspensions", switches)
	for _, r := range rs {
		desc := func() string {
			return fmt.Sprintf("%s\n  text %q, interleaved with %d other parses", ms[r.m].name, r.src, len(rs)-1)
		}
		if _, ok := r.bad.(abortRun); ok {
			continue
		}
		if r.bad != nil {
			t.Failf("panic: %v\n  %s", r.bad, desc())
		}
		var want Out
		t.guarded(desc, func() { want = ms[r.m].mk(nil)(r.src) })
		t.Eval(1)
		if d := r.out.same(want); d != "" {
			t.Failf("%s: interleaved %v, alone %v\n  %s", d, r.out, want, desc())
		}
	}
	if switches > 2*len(rs) {
		t.Distinct(order)
	}
}

// c18sources: one parser over sources of different element types, in any order.
func c18sources(t *T, idx int) {
	pred := func(c interface{}) bool { return fmt.Sprint(c) != "1" && fmt.Sprint(c) != "49" }
	sub := []func() ParserFn{
		func() ParserFn { return Trans(FlatGroup(), ToSlice) },
		func() ParserFn { return Trans(ZeroOrMoreTimes(objp.ObjClassFn(pred)), ToSlice) },
		func() ParserFn { return Trans(ZeroOrOnce(objp.Any()), ToSlice) },
		func() ParserFn { return FlatGroup(LookAhead(objp.Any()), Trans(objp.Any(), ToSlice)) },
		func() ParserFn { return objp.Seq() },
		func() ParserFn { return objp.Any() },
	}
	var ps []ParserFn
	kinds := []int{}
	for k := t.R(1, 3); k > 0; k-- {
		i := t.N(len(sub))
		kinds = append(kinds, i)
		ps = append(ps, sub[i]())
	}
	parser := FlatGroup(append(ps, ZeroOrMoreTimes(objp.Any()))...)
	fresh := func() ParserFn {
		var ps []ParserFn
		for _, i := range kinds {
			ps = append(ps, sub[i]())
		}
		return FlatGroup(append(ps, ZeroOrMoreTimes(objp.Any()))...)
	}
	n := t.N(4)
	mk := []func() SliceLike{
		func() SliceLike { s := make(intSlice, n); return s },
		func() SliceLike { s := make(runeSrc, n); return s },
		func() SliceLike { s := make(AstSlice, n); return s },
		func() SliceLike {
			s := make(intSlice, n)
			for i := range s {
				s[i] = i
			}
			return s
		},
	}
	types := func(o Out) string {
		d := o.String()
		for _, a := range o.Ctx.AstStack {
			d += fmt.Sprintf(" %T:%v", a.Value, a.Value)
			if s, ok := a.Value.(SliceLike); ok && s.Len() > 0 {
				d += fmt.Sprintf("[%T]", s.Get(0))
			}
		}
		return d
	}
	seq := []int{}
	for k := t.R(3, 8); k > 0; k-- {
		i := t.N(len(mk))
		seq = append(seq, i)
		desc := func() string { return fmt.Sprintf("parts %v over the sources %v of length %d", kinds, seq, n) }
		t.guarded(desc, func() {
			src := mk[i]()
			o := outOf(parser(*objp.NewObjectParserContext(src)))
			w := outOf(fresh()(*objp.NewObjectParserContext(mk[i]())))
			t.Eval(1)
			t.Obs("runs over sources of any type", 1)
			if types(o) != types(w) {
				t.Failf("%s, by a parser of its own %s: %s", types(o), types(w), desc())
			}
			for j, a := range o.Ctx.AstStack {
				if s, ok := a.Value.(SliceLike); ok && a.Type == AstType_ListOfAny && reflect.TypeOf(s) != reflect.TypeOf(src) {
					t.Failf("node %d holds a %T made from a %T: %s", j, s, src, desc())
				}
			}
		})
	}
	t.DistinctS(fmt.Sprint(kinds, seq, n))
}

// c18nodes: node lists as sources of object parses and of rule tables stay as they were.
// c18shared: parsers standing in several places of a grammar, visited anew with other nodes gathered, over several texts.
func c18shared(t *T, idx int) {
	p := baseProfile()
	p.W[KMatch], p.W[KTrans], p.W[KZero] = 8, 10, 5
	p.Share = 25
	p.W[KLA], p.W[KLAN], p.W[KFirst], p.W[KInd] = 8, 8, 24, 4
	m := genGram(t.Rng, p)
	parser := newShared(m, nil)
	var texts []string
	for i := 0; i < perGram; i++ {
		texts = append(texts, m.genInput(t.Rng))
	}
	texts = append(texts, texts[0], texts[1])
	for i, src := range texts {
		q, ok := newRef(m, src, false).Run()
		if !ok {
			continue
		}
		desc := func() string { return fmt.Sprintf("%s\n  text %q, the %d. of %q", m, src, i+1, texts) }
		t.guarded(desc, func() {
			o := runStr(parser, src)
			if d := o.diff(q); d != "" {
				t.Failf("%s: %v, documented %v\n  %s", d, o, q, desc())
			}
			t.Eval(1)
			if o.St == MatchStatus_Matched {
				t.DistinctS(m.String() + "\x00" + src)
			}
		})
	}
}

func c18nodes(t *T, idx int) {
	p := baseProfile()
	p.TrW = evenTrW()
	tr := func() TrSpec { return genTr(t.Rng, p) }
	var specs []TrSpec
	var fns []TransformerFn
	for i := t.R(1, 3); i > 0; i-- {
		s := tr()
		specs = append(specs, s)
		fns = append(fns, s.build())
	}
	any := Trans(objp.Any(), func(_ ParserContext, a AstSlice) (AstSlice, error) { return AstSlice{a[0].Value.(Ast)}, nil })
	parser := FlatGroup(Trans(Repeat(Times{Min: 1, Max: 3}, any), fns...), ZeroOrMoreTimes(any))
	src := AstSlice{}
	for i := t.R(1, 6); i > 0; i-- {
		src = append(src, genAst(t.Rng, 2))
	}
	keep := cloneAsts(src)
	var kept []keptOut
	var first *Out
	desc := func() string { return fmt.Sprintf("%v on %s", specs, fmtAsts(keep)) }
	for rep := 0; rep < 3; rep++ {
		t.guarded(desc, func() {
			o := outOf(parser(*objp.NewObjectParserContext(src)))
			if !astsEq(src, keep, true) {
				t.Failf("the source was changed to %s: %s", fmtAsts(src), desc())
			}
			if first == nil {
				first = &o
			} else if d := o.same(*first); d != "" {
				t.Failf("%s at the %d. parse: %v, first %v: %s", d, rep+1, o, first, desc())
			}
			kept = append(kept, keptOut{desc(), o, cloneAsts(o.Ctx.AstStack)})
			for _, k := range kept {
				if !astsEq(k.out.Ctx.AstStack, k.copy, true) {
					t.Failf("an earlier result changed from %s to %s: %s", fmtAsts(k.copy), fmtAsts(k.out.Ctx.AstStack), desc())
				}
			}
			t.Eval(1)
		})
	}
	t.DistinctS(desc())
}

// ---- C19: tracing ----

type tinst struct {
	g     *G
	scope string
	rec   int
	trNo  int
	class string
}

type tframe struct {
	in     *tinst
	want   bool // reports are due
	may    bool // reports are allowed
	state  int  // 0 entered, 1 begun, 2 ended
	ctx    ParserContext
	out    ParserContext
	err    error
	rounds int
}

type traceLog struct {
	frames []*tframe
	byNo   map[int]*tinst
	free   bool // parsers whose inner structure is unknown: only nesting is checked
	bad    string
	events int
	panics int
	thrown interface{}
	nrec   int
	max    int
	n      int
}

func (l *traceLog) fail(f string, a ...interface{}) {
	if l.bad == "" {
		l.bad = fmt.Sprintf(f, a...)
	}
}

// recorder is the tracer handed to DebugTrace.
type traceRec struct {
	l     *traceLog
	no    int
	scope string
}

var usedTrNo = map[int]*tinst{}

func (s *traceRec) Before(scope string, trNo int, className string, ctx *ParserContext) {
	l := s.l
	l.events++
	l.n++
	if l.max > 0 && l.n > l.max {
		panic(stepsExceeded{l.n})
	}
	if len(l.frames) == 0 && !l.free {
		l.fail("begin event of %s outside any parser", className)
		return
	}
	if l.free {
		in := &tinst{scope: scope, rec: s.no, trNo: trNo, class: className}
		if scope != s.scope {
			l.fail("%s reports scope %q, was built in %q", className, scope, s.scope)
		}
		if p := l.byNo[trNo]; p != nil && (p.class != className || p.scope != scope || p.rec != s.no) {
			l.fail("number %d stands for %s and for %s", trNo, p.class, className)
		} else if p == nil {
			l.number(in, trNo)
		}
		l.frames = append(l.frames, &tframe{in: in, state: 1, want: true, may: true})
		return
	}
	f := l.frames[len(l.frames)-1]
	id := fmt.Sprintf("%s (#%d)", kindNames[f.in.g.K], f.in.g.ID)
	if !f.may {
		l.fail("%s was built outside, but a begin event of %s (scope %q) is reported", id, className, scope)
		return
	}
	if f.state == 1 {
		l.fail("second begin event of %s while %s is running", className, id)
		return
	}
	lb := f.in.g.K == KLB1 || f.in.g.K == KLBN
	if f.state == 2 && !lb {
		l.fail("second begin event of %s", id)
		return
	}
	f.state = 1
	f.rounds++
	if s.no != f.in.rec || scope != f.in.scope {
		l.fail("%s reports to tracer %d with scope %q; it was built under tracer %d with scope %q", id, s.no, scope, f.in.rec, f.in.scope)
	}
	if f.in.class != "" && className != f.in.class {
		l.fail("%s reports class %q instead of %q", id, className, f.in.class)
	}
	if f.in.trNo == 0 {
		l.number(f.in, trNo)
	} else if f.in.trNo != trNo {
		l.fail("%s reports number %d, earlier %d", id, trNo, f.in.trNo)
	}
	if !lb {
		l.ctx("begin event of "+id, ctx, &f.ctx, false)
	}
	f.out = *ctx
}

func (l *traceLog) number(in *tinst, trNo int) {
	if p := usedTrNo[trNo]; p != nil && p != in {
		l.fail("tracking number %d is used by two parsers, %s and %s", trNo, p.class, in.class)
	}
	in.trNo = trNo
	usedTrNo[trNo] = in
	l.byNo[trNo] = in
}

func (l *traceLog) ctx(what string, got, want *ParserContext, result bool) {
	if got.Position != want.Position || got.Str != want.Str || got.Tag != want.Tag {
		l.fail("%s shows position %d instead of %d", what, got.Position, want.Position)
	}
	if !astsEq(got.AstStack, want.AstStack, true) {
		l.fail("%s shows nodes %s instead of %s", what, fmtAsts(got.AstStack), fmtAsts(want.AstStack))
	}
	if result && (got.MatchStatus != want.MatchStatus || got.Quantity != want.Quantity || got.Length != want.Length || got.ClassName != want.ClassName) {
		l.fail("%s shows status %v length %d rounds %d class %q instead of %v %d %d %q", what, got.MatchStatus, got.Length, got.Quantity, got.ClassName, want.MatchStatus, want.Length, want.Quantity, want.ClassName)
	}
}

func (s *traceRec) After(scope string, trNo int, className string, ctx *ParserContext, err error) {
	l := s.l
	l.events++
	f := l.top(s, "end", scope, trNo, className)
	if f == nil {
		return
	}
	if l.free {
		l.frames = l.frames[:len(l.frames)-1]
		return
	}
	f.state = 2
	f.out, f.err = *ctx, err
}

// top finds the parser an end or panic event belongs to.
func (l *traceLog) top(s *traceRec, what, scope string, trNo int, className string) *tframe {
	if len(l.frames) == 0 {
		l.fail("%s event of %s while no parser is running", what, className)
		return nil
	}
	f := l.frames[len(l.frames)-1]
	if f.state != 1 {
		l.fail("%s event of %s, but the innermost parser has not begun", what, className)
		return nil
	}
	if f.in.trNo != trNo || f.in.rec != s.no || f.in.scope != scope || (f.in.class != "" && f.in.class != className) {
		l.fail("%s event of %s number %d scope %q does not belong to the innermost running parser (%s number %d scope %q)", what, className, trNo, scope, f.in.class, f.in.trNo, f.in.scope)
		return nil
	}
	return f
}

func (s *traceRec) Panic(scope string, trNo int, className string, ctx *ParserContext, r interface{}) {
	l := s.l
	l.events++
	l.panics++
	for len(l.frames) > 0 && !l.free && l.frames[len(l.frames)-1].state != 1 && !(l.frames[len(l.frames)-1].want && l.frames[len(l.frames)-1].state == 0) {
		l.frames = l.frames[:len(l.frames)-1] // not traced: the panic passes silently
	}
	f := l.top(s, "panic", scope, trNo, className)
	if f == nil {
		return
	}
	if !sameThrown(r, l.thrown) {
		l.fail("panic event of %s shows %v instead of %v", className, r, l.thrown)
	}
	if !l.free && f.in.g.K != KLB1 && f.in.g.K != KLBN {
		if ctx.Position != f.ctx.Position || ctx.Str != f.ctx.Str || ctx.Tag != f.ctx.Tag {
			l.fail("panic event of %s shows position %d instead of %d", className, ctx.Position, f.ctx.Position)
		}
	}
	l.frames = l.frames[:len(l.frames)-1]
}

func sameThrown(a, b interface{}) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = fmt.Sprint(a) == fmt.Sprint(b)
		}
	}()
	return a == b
}

var traceClass = func() map[Kind]string {
	m := map[Kind]string{KEnd: ":string:End", KStart: ":base:Start", KWB: ":string:WordBoundary", KUnmatched: ":base:Unmatched",
		KZero: ":base:Zero", KFlat: ":base:FlatGroup", KGroup: ":base:Group", KFirst: ":base:First", KLA: ":base:LookAhead", KLAN: ":base:LookAheadN",
		KLB1: ":base:LookBehind", KLBN: ":base:LookBehindN", KRepeat: ":base:Repeat", KTrans: ":base:Trans", KInd: ":base:Indirect", KMatch: "Match", KUser: "User:Wrap", KTry: "User:Dirty"}
	for k, v := range tokClass {
		m[k] = v
	}
	return m
}()

func (b *Builder) debugTrace(g *G) ParserFn {
	s, r := b.scope, b.recNo
	defer func() { b.scope, b.recNo = s, r }()
	b.tr.nrec++
	b.recNo = b.tr.nrec
	b.scope = s + "/" + g.S[0]
	f := DebugTrace(g.S[0], &traceRec{l: b.tr, no: b.recNo, scope: b.scope})
	return f(b.list(g.Ch)...)
}

func (b *Builder) buildTraced(g *G) ParserFn {
	l := b.tr
	in := &tinst{g: g, scope: b.scope, rec: b.recNo, class: traceClass[g.K]}
	if g.K == KTrace {
		in.scope, in.rec = b.scope+"/"+g.S[0], l.nrec+1
	}
	p := b.raw(g)
	if g.K == KIf {
		return p
	}
	may := in.rec > 0 && (g.K != KInd || g.Sugar == 1) // shared references were built outside
	want := may && g.K != KLB1 && g.K != KLBN && !(g.K == KError && (g.Sugar == 1 || g.Sugar == 5))
	switch g.K {
	case KError:
		in.class = ":base:Error"
		if g.Sugar >= 2 {
			in.class = "User:Fail"
		}
	case KTrace, KUWB:
		in.class = ""
	}
	return func(ctx ParserContext) (ParserContext, error) {
		f := &tframe{in: in, want: want, may: may, ctx: ctx}
		f.ctx.AstStack = cloneAsts(ctx.AstStack)
		l.frames = append(l.frames, f)
		depth := len(l.frames)
		out, err := p(ctx)
		if len(l.frames) != depth || l.frames[depth-1] != f {
			l.fail("events of %s and of its parts do not nest", kindNames[g.K])
			return out, err
		}
		id := fmt.Sprintf("%s (#%d)", kindNames[g.K], g.ID)
		switch {
		case f.state == 1:
			l.fail("%s returned without an end event", id)
		case want && f.state == 0:
			l.fail("%s was built under tracing and reported nothing", id)
		case f.state == 2 && g.K != KLB1 && g.K != KLBN:
			l.ctx("end event of "+id, &f.out, &out, true)
			if !sameErr(f.err, err) {
				l.fail("end event of %s shows error %v instead of %v", id, f.err, err)
			}
		}
		l.frames = l.frames[:depth-1]
		return out, err
	}
}

var thrownValues = []func() interface{}{
	func() interface{} { return errors.New("boom") },
	func() interface{} { return "boom" },
	func() interface{} { return &abortRun{7} },
	func() interface{} { return 42 },
	func() interface{} { return []int{1} }, // not comparable
	func() interface{} { return caughtOf(func() { _ = []int{}[len(usedTrNo)] }) },
	func() interface{} { return caughtOf(func() { var p *abortRun; p.n++ }) },
	func() interface{} { return caughtOf(func() { var m map[string]int; m["x"] = 1 }) },
	func() interface{} { return caughtOf(func() { var x interface{} = 1; _ = x.(string) }) },
	func() interface{} { return caughtOf(func() { zero := len(usedTrNo) * 0; _ = 1 / zero }) },
	func() interface{} { return caughtOf(func() { var e error; panic(e) }) },
	func() interface{} { return io.EOF },
	func() interface{} { return fmt.Errorf("wrapped: %w", io.EOF) },
	func() interface{} { return "" },
	func() interface{} { return false },
	func() interface{} { return struct{}{} },
}

func caughtOf(f func()) (x interface{}) {
	defer func() { x = recover() }()
	f()
	return
}

func c19random(t *T, idx int) {
	if len(usedTrNo) > 200000 {
		usedTrNo = map[int]*tinst{}
	}
	p := baseProfile()
	p.W[KTrace] = 12
	p.W[KFn], p.W[KCustom] = 8, 4
	m := genGram(t.Rng, p)
	if t.P(70) {
		m.Root = &G{K: KTrace, S: []string{scopeName(t.Rng)}, Ch: []*G{m.Root}}
	}
	if t.P(3) { // many traced parts within each other
		for i := t.R(5, 300); i > 0; i-- {
			m.Root = &G{K: KTrace, S: []string{pick(t.Rng, traceScopes)}, Ch: []*G{m.Root}}
		}
	}
	if t.P(40) {
		addRecursion(t.Rng, m)
	}
	m.finish()
	log := &traceLog{byNo: map[int]*tinst{}}
	throwAt, calls := 0, 0
	var thrown interface{}
	hook := func(expanding bool) {
		if expanding {
			return // happens once only
		}
		calls++
		if calls == throwAt {
			log.thrown = thrown
			panic(thrown)
		}
	}
	b := &Builder{m: m, ind: map[int]ParserFn{}, par: true, call: hook, tr: log}
	for i := range m.Rules {
		b.ind[i] = b.ref(i)
	}
	parser := b.build(m.Root)
	plain := newShared(m, nil)
	for rep := 0; rep < 4; rep++ {
		src := m.genInput(t.Rng)
		ref := newRef(m, src, false)
		q, ok := ref.Run()
		if !ok {
			continue
		}
		c := &GC{m, src, ref, q}
		want := runStr(plain, src)
		total := 0
		for run := 0; run < 2; run++ {
			throwAt, calls = 0, 0
			if run == 1 {
				if total == 0 {
					break
				}
				throwAt = t.R(1, total)
				thrown = pick(t.Rng, thrownValues)()
			}
			log.frames, log.bad, log.thrown, log.panics, log.events = nil, "", nil, 0, 0
			log.n, log.max = 0, (ref.steps+ref.calls)*20+1000
			var o Out
			var caught interface{}
			func() {
				defer func() {
					if x := recover(); x != nil {
						caught = x
					}
				}()
				o = runStr(parser, src)
			}()
			total = calls
			t.Eval(1)
			t.Obs("trace events", log.events)
			if log.bad != "" {
				t.Failf("%s\n  %s", log.bad, c.desc())
			}
			if run == 1 {
				if caught == nil {
					t.Failf("a panic in the %d. callback did not reach the caller: %v\n  %s", throwAt, o, c.desc())
				}
				if !sameThrown(caught, thrown) {
					t.Failf("a panic with %v reached the caller as %v\n  %s", thrown, caught, c.desc())
				}
				for _, f := range log.frames {
					if f.want || f.state == 1 {
						t.Failf("a panic left %s without a panic event\n  %s", kindNames[f.in.g.K], c.desc())
					}
				}
				t.Obs("panics", 1)
				t.Obs("panic events", log.panics)
				continue
			}
			if caught != nil {
				t.Failf("panic: %v\n  %s", caught, c.desc())
			}
			if d := o.same(want); d != "" {
				t.Failf("%s: traced %v, untraced %v\n  %s", d, o, want, c.desc())
			}
			if d := o.diff(q); d != "" {
				t.Failf("%s: traced %v, documented %v\n  %s", d, o, q, c.desc())
			}
			t.note(c)
			if log.events > 6 {
				t.DistinctS(m.String() + "\x00" + src)
			}
		}
	}
	// built afterwards: must report nothing
	log.events = 0
	runStr(newShared(genGram(t.Rng, p), nil), "ab")
	for _, rc := range recognisers[idx%5 : idx%5+3] {
		runStr(rc.mk(), "12")
	}
	if log.events > 0 {
		t.Failf("parsers built after the traced construction reported %d events\n  %s", log.events, m)
	}
}

// c19stock: ready-made recognisers and rule tables under tracing.
func c19stock(t *T, idx int) {
	var ms machine
	switch t.N(3) {
	case 0:
		ms = t.stockMachine()
	case 1:
		ms = t.rewriteMachine()
	case 2:
		ms = t.exprMachine()
	}
	log := &traceLog{byNo: map[int]*tinst{}, free: true}
	throwAt, calls := 0, 0
	var thrown interface{}
	hook := func(bool) {
		calls++
		if calls == throwAt {
			log.thrown = thrown
			panic(thrown)
		}
	}
	// DebugTrace brackets the construction; its own parser is not run
	scope := scopeName(t.Rng)
	f := DebugTrace(scope, &traceRec{l: log, no: 1, scope: "/" + scope})
	run := ms.mk(hook)
	f(strp.Any())
	for rep := 0; rep < 4; rep++ {
		src := ms.gen(t.Rng)
		desc := fmt.Sprintf("%s\n  text %q", ms.name, src)
		var want Out
		t.guarded(func() string { return desc }, func() { want = ms.mk(nil)(src) })
		throwAt, calls = 0, 0
		if rep > 1 {
			throwAt = t.R(1, 6)
			thrown = pick(t.Rng, thrownValues)()
		}
		log.frames, log.bad, log.thrown, log.events, log.panics = nil, "", nil, 0, 0
		var o Out
		var caught interface{}
		func() {
			defer func() { caught = recover() }()
			o = run(src)
		}()
		t.Eval(1)
		t.Obs("trace events", log.events)
		if log.bad != "" {
			t.Failf("%s\n  %s", log.bad, desc)
		}
		if len(log.frames) > 0 {
			t.Failf("%d parsers never reported their end\n  %s", len(log.frames), desc)
		}
		if log.thrown != nil {
			if caught == nil || !sameThrown(caught, thrown) {
				t.Failf("a panic with %v reached the caller as %v\n  %s", thrown, caught, desc)
			}
			continue
		}
		if caught != nil {
			t.Failf("panic: %v\n  %s", caught, desc)
		}
		if log.events == 0 {
			t.Failf("nothing was traced\n  %s", desc)
		}
		if d := o.same(want); d != "" {
			t.Failf("%s: traced %v, untraced %v\n  %s", d, o, want, desc)
		}
		t.DistinctS(desc)
	}
}

func init() {
	register(&Prop{
		ID:   "C17",
		Race: true,
		Rule: "a case is a set of freshly built parsers run by several goroutines released together; distinct counts (parser, text) pairs run concurrently",
		Assume: []string{"the race detector sees the accesses of the executed schedules only",
			"contexts are not shared and user-supplied callbacks are free of races"},
		MinObs: map[string]int64{"runs": 5000, "first expansions raced": 300, "outcome.Matched": 1000},
		Stages: func(tier string) []Stage {
			return []Stage{
				{Name: "first", N: stagesN(tier, 200), Serial: true, Fn: c17first},
				{Name: "shared", N: stagesN(tier, 1000), Serial: true, Fn: c17shared},
				{Name: "nodes", N: stagesN(tier, 250), Serial: true, Fn: c17nodes},
				{Name: "pairs", N: stagesN(tier, 150), Serial: true, Fn: c17pairs},
			}
		},
	})
	register(&Prop{
		ID:   "C18",
		Rule: "a case is a history of parses over a set of parsers and texts, with nested, suspended and aborted ones; non-trivial ones are counted by content or by order of suspension",
		Assume: []string{"each parse has a context of its own",
			"user-supplied callbacks are pure apart from the parses they start"},
		MinObs: map[string]int64{"nested parses": 500, "aborted parses": 200, "earlier results rechecked": 5000, "suspensions": 5000},
		Stages: func(tier string) []Stage {
			return []Stage{
				{Name: "history", N: stagesN(tier, 6000), Fn: c18history},
				{Name: "interleaved", N: stagesN(tier, 4000), Fn: c18interleaved},
				{Name: "nodes", N: stagesN(tier, 10000), Fn: c18nodes},
				{Name: "shared", N: stagesN(tier, 15000), Fn: c18shared},
				{Name: "sources", N: stagesN(tier, 2000), Fn: c18sources},
				{Name: "often", N: stagesN(tier, 140), Fn: c18often},
				{Name: "calls", N: stagesN(tier, 3000), Fn: c18calls},
			}
		},
	})
	register(&Prop{
		ID:       "C19",
		Untraced: true,
		Rule:     "a case is a random grammar with (nested) traced parts and one text; non-trivial if more than six trace events were judged",
		Assume: []string{"tracing is set up and parsers are built in one goroutine, as documented",
			"parts of deferred references are built at first use, outside the traced construction"},
		MinObs: map[string]int64{"trace events": 50000, "panics": 500, "panic events": 500},
		Stages: func(tier string) []Stage {
			return []Stage{
				{Name: "random", N: stagesN(tier, 8000), Serial: true, Fn: c19random},
				{Name: "stock", N: stagesN(tier, 4000), Serial: true, Fn: c19stock},
			}
		},
	})
}

// evenTrW: every stock transformer and the well-behaved user-written ones.
func evenTrW() map[TrKind]int {
	w := map[TrKind]int{}
	for k := TrKind(0); k < trCount; k++ {
		w[k] = 3
	}
	w[TrLibErr], w[TrFailIf] = 1, 1
	return w
}

// c18often: one parser over a few texts, many more times than any history above.
func c18often(t *T, idx int) {
	debug.SetGCPercent(1000)
	p := baseProfile()
	p.Rules = 2
	p.MaxDepth = 2
	p.W[KInd], p.W[KMatch], p.W[KTrans] = 12, 6, 12
	var m machine
	var run func(string) Out
	var texts []string
	var first []Out
	desc := func(k, n int) string { return fmt.Sprintf("%s\n  text %q, run %d", m.name, texts[k], n+1) }
	// small ones only: what the clock says decides just how far the history goes
	for try := 0; ; try++ {
		if try == 40 {
			return
		}
		m, texts, first = t.anyMachine(p), nil, nil
		if len(m.name) > 400 {
			continue
		}
		run = m.mk(nil)
		for i := 0; i < 12 && len(texts) < 3; i++ {
			s := m.gen(t.Rng)
			if s == "\x00skip" || len(s) > 24 {
				continue
			}
			texts = append(texts, s)
			k := len(texts) - 1
			t.guarded(func() string { return desc(k, 0) }, func() { first = append(first, m.mk(nil)(s).frozen()) })
		}
		if len(texts) == 0 {
			continue
		}
		best := time.Hour
		for rep := 0; rep < 5; rep++ {
			start := time.Now()
			for i := 0; i < 12; i++ {
				k := i % len(texts)
				t.guarded(func() string { return desc(k, i) }, func() {
					if o := run(texts[k]); o.same(first[k]) != "" {
						t.Failf("%s: %v, a fresh parser gave %v\n  %s", o.same(first[k]), o, first[k], desc(k, i))
					}
				})
			}
			if d := time.Since(start) / 12; d < best {
				best = d
			}
		}
		if best < 14*time.Microsecond {
			break
		}
	}
	var kept []keptOut
	start := time.Now()
	n := 0
	for ; n < 140000; n++ {
		if n%256 == 0 && time.Since(start) > 3000*time.Millisecond {
			break
		}
		k := n % len(texts)
		var out Out
		t.guarded(func() string { return desc(k, n) }, func() { out = run(texts[k]) })
		if d := out.same(first[k]); d != "" {
			t.Failf("%s: %v, a fresh parser gave %v\n  %s", d, out, first[k], desc(k, n))
		}
		if n&(n-1) == 0 {
			kept = append(kept, keptOut{desc(k, n), out, cloneAsts(out.Ctx.AstStack)})
		}
	}
	for _, k := range kept {
		if !astsEq(k.out.Ctx.AstStack, k.copy, true) {
			t.Failf("an earlier result changed from %s to %s\n  %s", fmtAsts(k.copy), fmtAsts(k.out.Ctx.AstStack), k.what)
		}
	}
	if s := m.same(); s != "" {
		t.Failf("%s\n  %s", s, m.name)
	}
	t.Eval(n)
	t.Obs("runs of one parser", n)
	if n > 65536 {
		t.Obs("parsers run more than 65536 times", 1)
	}
	t.DistinctS(m.name)
}

// c18calls: a history of single conversions, transformers, recognisers and position reports over a few
// texts and node lists, the same ones under different parameters; each call is judged on its own.
func c18calls(t *T, idx int) {
	var nums, dates, texts []string
	var lists []AstSlice
	var trs []TrSpec
	radices := []int{10, pick(t.Rng, []int{2, 8, 16, 36}), t.R(2, 36)}
	for i := 0; i < 3; i++ {
		nums = append(nums, c12text(t.Rng, pick(t.Rng, radices)), fmt.Sprint(t.N(1000000)))
		dates = append(dates, c15text(t.Rng))
		s := ""
		for j := t.R(1, 12); j > 0; j-- {
			s += pick(t.Rng, []string{"a", "\t", "\n", "\r\n", "\r", "é", "some text"})
		}
		texts = append(texts, s)
		var l AstSlice
		for j := t.N(6); j > 0; j-- {
			if i == 0 {
				v := pick(t.Rng, []string{"a", " ", "b\t", "", "12"})
				if t.P(20) {
					v = strings.Repeat(v, pick(t.Rng, []int{20, 70, 200, 600}))
				}
				l = append(l, Ast{ClassName: "s", Type: AstType_String, Value: v})
			} else {
				l = append(l, genAst(t.Rng, 2))
			}
		}
		lists = append(lists, l)
	}
	nums = append(nums, strings.Repeat("0", t.N(4))+nums[1], nums[1]+".5", nums[1]+"e2", "+"+nums[1])
	for k := t.R(2, 4); k > 0; k-- {
		kind := TrKind(t.N(int(TrReverse)))
		trs = append(trs, makeTr(t.Rng, kind), makeTr(t.Rng, kind), makeTr(t.Rng, TrKind(t.N(int(TrReverse)))))
	}
	var kept, copies []AstSlice
	dts, ids, nrs := dtRecs(), identRecs(), numRecs()
	for n := t.R(20, 80); n > 0; n-- {
		switch t.W(30, 15, 20, 10, 10, 5, 10) {
		case 0:
			t.integer(pick(t.Rng, nums), pick(t.Rng, radices))
		case 1:
			t.float(pick(t.Rng, nums))
		case 2:
			l, tr := pick(t.Rng, lists), pick(t.Rng, trs)
			in := cloneAsts(l)
			want, werr := tr.ref(in)
			out, err := t.convert(tr.String(), tr.build(), cloneAsts(l))
			t.Eval(1)
			if len(kept) < 30 {
				kept, copies = append(kept, out), append(copies, cloneAsts(out))
			}
			if (err != nil) != (werr != nil) || (err == nil && !astsEq(out, want, false)) {
				t.Failf("%v of %s gives %s, %v; documented %s, %v", tr, fmtAsts(l), fmtAsts(out), err, fmtAsts(want), werr)
			}
		case 3:
			s := pick(t.Rng, texts)
			c22judge(t, s, t.N(len(s)+1), pick(t.Rng, []int{0, 1, 4, 8}))
		case 4:
			c15judge(t, pick(t.Rng, dts), pick(t.Rng, dates), 0)
		case 5:
			s := pick(t.Rng, texts)
			c14ident(t, pick(t.Rng, ids), s, 0)
		case 6:
			c13judge(t, pick(t.Rng, nrs), pick(t.Rng, nums), 0)
		}
		t.Obs("single calls", 1)
	}
	for i := range kept {
		if !astsEq(kept[i], copies[i], true) {
			t.Failf("an earlier result of a transformer changed from %s to %s", fmtAsts(copies[i]), fmtAsts(kept[i]))
		}
		t.Obs("earlier results rechecked", 1)
	}
	t.Distinct(uint64(idx))
}
