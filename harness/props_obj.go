package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	. "github.com/shellyln/takenoco/base"
	objp "github.com/shellyln/takenoco/object"
	strp "github.com/shellyln/takenoco/string"
)

// ---- C10: sources of several element types, each with an equality of its own ----

// watched is a source that reports any access outside itself and any write.
type watched struct {
	n     int
	at    func(i int) interface{}
	eq    func(a, b interface{}) bool
	lo    int // offset within the whole source
	whole int
	bad   *string
	gets  *int
	eqs   *int
}

func (s *watched) Len() int { return s.n }
func (s *watched) Get(i int) interface{} {
	*s.gets++
	if i < 0 || i >= s.n {
		*s.bad = fmt.Sprintf("read of element %d of a source (or part) of length %d", i, s.n)
		return nil
	}
	return s.at(s.lo + i)
}
func (s *watched) Set(i int, v interface{}) { *s.bad = fmt.Sprintf("write of element %d", i) }
func (s *watched) Reslice(a, b int) SliceLike {
	if a < 0 || b < a || b > s.n {
		*s.bad = fmt.Sprintf("part [%d:%d] of a source of length %d", a, b, s.n)
		a, b = 0, 0
	}
	w := *s
	w.lo, w.n = s.lo+a, b-a
	return &w
}
func (s *watched) Copy(a, b int) SliceLike { return s.Reslice(a, b) }
func (s *watched) Make(l, c int) SliceLike {
	return &watched{at: s.at, eq: s.eq, bad: s.bad, gets: s.gets, eqs: s.eqs}
}
func (s *watched) ItemEquals(a, b interface{}) bool {
	*s.eqs++
	return s.eq(a, b)
}

type celem struct {
	Key  string
	Note int
}

type srcKind struct {
	name string
	gen  func(r *Rng) interface{} // elements and listed values
	eq   func(a, b interface{}) bool
}

var srcKinds = []srcKind{
	{"int", func(r *Rng) interface{} { return r.N(4) }, func(a, b interface{}) bool { return a.(int) == b.(int) }},
	{"int modulo 3", func(r *Rng) interface{} { return r.N(12) }, func(a, b interface{}) bool { return a.(int)%3 == b.(int)%3 }},
	{"caseless string", func(r *Rng) interface{} { return pick(r, []string{"a", "A", "b", "B", "ab", "AB", ""}) },
		func(a, b interface{}) bool { return strings.EqualFold(a.(string), b.(string)) }},
	{"struct by key", func(r *Rng) interface{} { return celem{pick(r, []string{"x", "y", "z"}), r.N(100)} },
		func(a, b interface{}) bool { return a.(celem).Key == b.(celem).Key }},
	{"any", func(r *Rng) interface{} {
		return pick(r, []interface{}{nil, 1, int64(1), "1", 1.0, true, []int{1}, []int{2}, map[string]int{"a": 1}, celem{"a", 1}})
	}, func(a, b interface{}) bool { return reflect.DeepEqual(a, b) }},
	{"nothing equals", func(r *Rng) interface{} { return r.N(3) }, func(a, b interface{}) bool { return false }},
	{"everything equals", func(r *Rng) interface{} { return r.N(3) }, func(a, b interface{}) bool { return true }},
	{"printed alike", func(r *Rng) interface{} {
		return pick(r, []interface{}{1, "1", int64(1), uint8(1), 2, "2", 2.0, nil, "<nil>", true, "true"})
	}, func(a, b interface{}) bool { return fmt.Sprint(a) == fmt.Sprint(b) }},
	{"numbers of any type", func(r *Rng) interface{} {
		return pick(r, []interface{}{1, int8(1), int64(1), uint(1), float32(1), 1.0, 2, 2.0, uint64(2), 3})
	}, func(a, b interface{}) bool { return fmt.Sprintf("%v", a) == fmt.Sprintf("%v", b) }},
	{"pointer", func(r *Rng) interface{} { return pick(r, cPtrs) }, func(a, b interface{}) bool { return a.(*celem) == b.(*celem) }},
	{"many ints", func(r *Rng) interface{} { return r.N(50) }, func(a, b interface{}) bool { return a.(int) == b.(int) }},
	{"uncomparable, by length", func(r *Rng) interface{} { return make([]int, r.N(3)) }, func(a, b interface{}) bool { return len(a.([]int)) == len(b.([]int)) }},
}
var cPtrs = []*celem{{"a", 1}, {"a", 1}, {"b", 2}}

func sameElem(a, b interface{}) bool { return reflect.DeepEqual(a, b) }

func c10match(t *T, idx int) {
	k := srcKinds[idx%len(srcKinds)]
	n := t.W(10, 10, 15, 15, 15, 15, 10, 10)
	if t.P(3) {
		n = t.R(100, 2000)
	}
	elems := make([]interface{}, n)
	for i := range elems {
		elems[i] = k.gen(t.Rng)
	}
	var vals []interface{}
	for i := t.W(8, 25, 25, 20, 12, 10); i > 0; i-- {
		vals = append(vals, k.gen(t.Rng))
	}
	if t.P(5) {
		for i := t.R(6, 70); i > 0; i-- {
			vals = append(vals, k.gen(t.Rng))
		}
	}
	start := t.N(n + 1)
	if t.P(5) && n > 8 {
		start = t.N(n - 6)
		vals = append([]interface{}(nil), elems[start:start+t.R(6, n-start)]...)
		if t.P(60) {
			vals[t.N(len(vals))] = k.gen(t.Rng)
		}
	} else if t.P(40) && n > 0 { // take the sequence from the source, perhaps spoilt at one place
		l := t.N(min(n-start, 6) + 1)
		vals = append([]interface{}(nil), elems[start:start+l]...)
		if t.P(50) && l > 0 {
			vals[t.N(l)] = k.gen(t.Rng)
		}
		if t.P(20) {
			vals = append(vals, k.gen(t.Rng))
		}
	}
	bad, gets, eqs := "", 0, 0
	src := &watched{n: n, whole: n, at: func(i int) interface{} { return elems[i] }, eq: k.eq, bad: &bad, gets: &gets, eqs: &eqs}
	fnCalls := 0
	accept := t.P(50)
	type m struct {
		name string
		p    ParserFn
	}
	ms := []m{{"Any", objp.Any()}, {"End", objp.End()}, {"Seq", objp.Seq(own(vals)...)}, {"ObjClass", objp.ObjClass(own(vals)...)}, {"ObjClassN", objp.ObjClassN(own(vals)...)},
		{"ObjClassFn", objp.ObjClassFn(func(c interface{}) bool { fnCalls++; return accept })}}
	at := []int{start, n, 0}
	if n > 0 {
		at = append(at, n-1, t.N(n))
	}
	for _, pos := range at {
		in := func() bool {
			for _, v := range vals {
				if k.eq(elems[pos], v) {
					return true
				}
			}
			return false
		}
		for _, m := range ms {
			desc := func() string { return fmt.Sprintf("%s%v on %v (%s) at %d", m.name, vals, elems, k.name, pos) }
			want, l := false, 1
			switch m.name {
			case "Any":
				want = pos < n
			case "End":
				want, l = pos == n, 0
			case "Seq":
				l = len(vals)
				want = pos+l <= n
				for i := 0; want && i < l; i++ {
					want = k.eq(elems[pos+i], vals[i])
				}
			case "ObjClass":
				want = pos < n && in()
			case "ObjClassN":
				want = pos < n && !in()
			case "ObjClassFn":
				want = pos < n && accept
			}
			t.guarded(desc, func() {
				fnCalls = 0
				ctx := ParserContext{Slice: src}
				ctx.Position = pos
				pre := Ast{ClassName: "before"}
				ctx.AstStack = append(ctx.AstStack, pre)
				o := outOf(m.p(ctx))
				t.Eval(1)
				if bad != "" {
					t.Failf("%s: %s", bad, desc())
				}
				if o.Err != nil || want != (o.St == MatchStatus_Matched) {
					t.Failf("matched %v, documented %v: %s", o.St == MatchStatus_Matched, want, desc())
				}
				if m.name == "ObjClassFn" && fnCalls > 1 {
					t.Failf("predicate called %d times: %s", fnCalls, desc())
				}
				if !want {
					t.Obs("rejected."+m.name, 1)
					return
				}
				t.Obs("accepted."+m.name, 1)
				if o.Ctx.Position != pos+l {
					t.Failf("ends at %d: %s", o.Ctx.Position, desc())
				}
				nodes := 1
				if m.name == "End" {
					nodes = 0
				}
				if len(o.Ctx.AstStack) != 1+nodes || o.Ctx.AstStack[0] != pre {
					t.Failf("nodes %v: %s", o.Ctx.AstStack, desc())
				}
				if nodes == 0 {
					return
				}
				a := o.Ctx.AstStack[1]
				if a.Position != pos || a.Length != l {
					t.Failf("node at %d with length %d: %s", a.Position, a.Length, desc())
				}
				if m.name == "Seq" {
					run, ok := a.Value.(SliceLike)
					if !ok || a.Type != AstType_ListOfAny || run.Len() != l {
						t.Failf("node %v %v: %s", a.Type, a.Value, desc())
					}
					for i := 0; i < l; i++ {
						if !sameElem(run.Get(i), elems[pos+i]) {
							t.Failf("run element %d is %v: %s", i, run.Get(i), desc())
						}
					}
				} else if a.Type != AstType_Any || !sameElem(a.Value, elems[pos]) {
					t.Failf("node %v %v: %s", a.Type, a.Value, desc())
				}
			})
		}
	}
	t.Obs("element reads", gets)
	t.Obs("equality calls", eqs)
	if n > 1 {
		t.DistinctS(fmt.Sprintf("%v %v %d", elems, vals, start))
	}
	t.Sample(func() string { return fmt.Sprintf("%s %v with values %v", k.name, elems, vals) })
}

// runeSrc lets object grammars be judged by the reference evaluator for texts.
type runeSrc []byte

func (s runeSrc) Len() int                         { return len(s) }
func (s runeSrc) Get(i int) interface{}            { return s[i] }
func (s runeSrc) Set(i int, v interface{})         { s[i] = v.(byte) }
func (s runeSrc) Reslice(a, b int) SliceLike       { return s[a:b] }
func (s runeSrc) Copy(a, b int) SliceLike          { return append(runeSrc{}, s[a:b]...) }
func (s runeSrc) Make(l, c int) SliceLike          { return make(runeSrc, l, c) }
func (s runeSrc) ItemEquals(a, b interface{}) bool { return a.(byte) == b.(byte) }

func objLeaf(g *G) ParserFn {
	var vs []interface{}
	switch g.K {
	case KSeq:
		for i := 0; i < len(g.S[0]); i++ {
			vs = append(vs, g.S[0][i])
		}
		return objp.Seq(own(vs)...)
	case KClass, KClassN:
		for _, s := range g.S {
			vs = append(vs, s[0])
		}
		if g.K == KClass {
			return objp.ObjClass(own(vs)...)
		}
		return objp.ObjClassN(own(vs)...)
	case KAny:
		return objp.Any()
	case KEnd:
		return objp.End()
	case KFn:
		fn := preds[g.Fn]
		return objp.ObjClassFn(func(c interface{}) bool { return fn(rune(c.(byte))) })
	}
	return nil
}

func c10grammar(t *T, idx int) {
	p := coreProfile()
	for k := range p.W {
		switch Kind(k) {
		case KSeq, KClass, KClassN, KAny, KEnd, KFn, KFlat, KGroup, KFirst, KLA, KLAN, KLB1, KLBN, KRepeat, KInd, KStart, KUnmatched:
		default:
			p.W[k] = 0
		}
	}
	p.Alpha = []string{"a", "b", "c"}
	m := genGram(t.Rng, p)
	var fix func(g *G)
	fix = func(g *G) {
		if g.K == KRange {
			g.K, g.RR = KAny, nil
		}
		if g.K == KClass || g.K == KClassN {
			for i := range g.S {
				if g.S[i] == "" {
					g.S[i] = "a"
				}
				g.S[i] = g.S[i][:1]
			}
		}
		for _, c := range g.Ch {
			fix(c)
		}
	}
	fix(m.Root)
	for _, r := range m.Rules {
		fix(r)
	}
	b := &Builder{m: m, ind: map[int]ParserFn{}, expand: map[int]int{}, leaf: objLeaf}
	parser := b.build(m.Root)
	b.running = true
	for i := 0; i < perGram; i++ {
		var sb strings.Builder
		m.sample(t.Rng, m.Root, 0, &sb)
		src := strings.Map(func(c rune) rune {
			if c < 'a' || c > 'c' {
				return 'a' + c%3
			}
			return c
		}, sb.String())
		if t.P(30) {
			src += pick(t.Rng, p.Alpha)
		}
		ref := newRef(m, src, false)
		q, ok := ref.Run()
		if !ok {
			continue
		}
		c := &GC{m, src, ref, q}
		t.note(c)
		t.guarded(c.desc, func() {
			in := runeSrc(src)
			o := outOf(parser(*objp.NewObjectParserContext(in)))
			if o.St != q.St {
				t.Failf("status %v, documented %v (object parse)\n  %s", o.St, q.St, c.desc())
			}
			if string(in) != src {
				t.Failf("the source was changed to %q\n  %s", string(in), c.desc())
			}
			if o.St != MatchStatus_Matched {
				return
			}
			if o.Ctx.Position != q.Pos || len(o.Ctx.AstStack) != q.Stk.len() {
				t.Failf("ends at %d with %d nodes, documented %d with %d (object parse)\n  %s", o.Ctx.Position, len(o.Ctx.AstStack), q.Pos, q.Stk.len(), c.desc())
			}
			got := flatTokens(o.Ctx.AstStack, nil)
			want := flatTokens(q.Stk.above(0), nil)
			for i := range want {
				if i >= len(got) || got[i].Position != want[i].Position || got[i].Length != want[i].Length {
					t.Failf("token %d: %s (object parse), documented place %s\n  %s", i, fmtAsts(got), fmtAsts(want), c.desc())
				}
			}
		})
	}
}

// ---- C11 ----

var stockTr = []TrKind{TrErase, TrGroup, TrClass, TrOp, TrOpClass, TrVal, TrPrepend, TrPush, TrPop, TrExchange, TrRoll, TrConcat, TrTrim, TrTrimStart, TrTrimEnd}

func c11list(t *T, idx int) {
	spec := makeTr(t.Rng, stockTr[idx%len(stockTr)])
	if spec.K == TrRoll && t.P(20) {
		spec.N = pick(t.Rng, []int{math.MaxInt, math.MinInt, math.MinInt + 1, 1 << 30, -(1 << 30), 1000003, -1000003})
	}
	n := t.W(12, 15, 15, 12, 12, 10, 8, 8, 8)
	if t.P(2) {
		n = t.R(1000, 5000)
	}
	text := spec.K >= TrConcat && spec.K <= TrTrimEnd && t.P(85)
	mk := func() Ast {
		a := genAst(t.Rng, 2)
		if text {
			v := ""
			for i := t.N(3); i > 0; i-- {
				v += pick(t.Rng, []string{"a", " ", "\t", "\n", "\u0085", "\u00a0", "\u3000", "é", "b c", "\xff", "\v", "\u2003"})
			}
			a.Type, a.Value = AstType_String, v
		}
		return a
	}
	pre, post := t.N(4), t.N(4)
	back := make(AstSlice, 0, pre+n+post)
	for i := 0; i < pre+n+post; i++ {
		back = append(back, mk())
	}
	keep := cloneAsts(back)
	list := back[pre : pre+n]
	if t.P(30) {
		list = back[pre : pre+n : pre+n]
	}
	if n == 0 && t.P(50) {
		list = nil
	}
	argKeep := cloneAst(spec.A)
	desc := func() string { return fmt.Sprintf("%s on %s", spec, fmtAsts(keep[pre:pre+n])) }
	fn := spec.build()
	want, wantErr := spec.ref(keep[pre : pre+n])
	t.Eval(1)
	var firstOut, firstCopy AstSlice
	t.guarded(desc, func() {
		for rep := 0; rep < 3; rep++ {
			out, err := fn(ParserContext{}, list)
			if (err != nil) != (wantErr != nil) {
				t.Failf("application %d: error %v, documented %v: %s", rep+1, err, wantErr, desc())
			}
			if !astsEq(back, keep, true) {
				t.Failf("application %d changed the list it was given, or nodes around it, to %s: %s", rep+1, fmtAsts(back), desc())
			}
			if err == nil {
				pos := spec.K != TrGroup && !text
				if !astsEq(out, want, pos) {
					t.Failf("application %d gives %s instead of %s: %s", rep+1, fmtAsts(out), fmtAsts(want), desc())
				}
				if rep == 0 {
					firstOut, firstCopy = out, cloneAsts(out)
				} else if !astsEq(firstOut, firstCopy, true) {
					t.Failf("application %d changed the list given by the first: %s", rep+1, desc())
				}
			}
			if rep == 1 { // the same transformer on another list in between
				other := AstSlice{mk(), mk()}
				oc := cloneAsts(other)
				fn(ParserContext{}, other)
				if !astsEq(other, oc, true) {
					t.Failf("%s changed the list %s it was given to %s", spec, fmtAsts(oc), fmtAsts(other))
				}
			}
		}
		if !astEq(spec.A, argKeep, true) {
			t.Failf("the node the transformer was made with became %s: %s", fmtAst(spec.A), desc())
		}
	})
	t.Obs("applied."+trNames[spec.K], 1)
	if n >= 2 {
		t.Distinct(hashAsts(hashStr(uint64(spec.K), spec.String()), keep[pre:pre+n]))
	}
	t.Sample(func() string { return desc() + " => " + fmtAsts(want) })
}

// c11roll: every small roll of every small list.
func c11roll(t *T, idx int) {
	n := idx
	in := make(AstSlice, n)
	for i := range in {
		in[i] = Ast{Type: AstType_Int, Value: int64(i)}
	}
	for k := -3*n - 2; k <= 3*n+2; k++ {
		out, err := Roll(k)(ParserContext{}, in)
		if err != nil || len(out) != n {
			t.Failf("Roll(%d) of %d nodes: %s, %v", k, n, fmtAsts(out), err)
		}
		for i := range out {
			if w := int64(((i+k)%n + n) % n); out[i].Value != w {
				t.Failf("Roll(%d) of %d nodes: place %d holds %v instead of %d", k, n, i, out[i].Value, w)
			}
		}
		t.Eval(1)
	}
}

// c11grammar: transformers attached to parsers, among other nodes, over and over.
func c11grammar(t *T, idx int) {
	p := coreProfile()
	p.W[KTrans], p.W[KZero], p.W[KRepeat], p.W[KMatch], p.W[KError] = 40, 12, 14, 0, 0
	p.TrW = map[TrKind]int{}
	for _, k := range stockTr {
		p.TrW[k] = 2
	}
	var m *Gram
	for i := 0; i < perGram; i++ {
		c := t.genGC(p, m, false)
		if c == nil {
			return
		}
		m = c.m
		t.note(c)
		t.guarded(c.desc, func() {
			b, parser := newBuilder(c.m, 0)
			for rep := 0; rep < 2; rep++ {
				o := b.run(parser, c.src, nil, &Monitor{src: c.src})
				if d := o.diff(c.want); d != "" {
					t.Failf("run %d: %s: documented %v\n  observed %v\n  %s", rep+1, d, c.want, o, c.desc())
				}
			}
		})
	}
}

// c11slice: to-slice uses the source's own element type.
func c11slice(t *T, idx int) {
	n := t.N(12)
	var list AstSlice
	for i := 0; i < n; i++ {
		list = append(list, Ast{ClassName: pick(t.Rng, []string{"a", "b"}), Type: AstType_Any, Value: t.N(100), SourcePosition: SourcePosition{Position: i, Length: 1}})
	}
	keep := cloneAsts(list)
	src := intSlice{1, 2, 3}
	var prev intSlice
	for rep := 0; rep < 2; rep++ {
		out, err := ToSlice(ParserContext{Slice: src}, list)
		t.Eval(1)
		if err != nil || len(out) != 1 || out[0].Type != AstType_ListOfAny {
			t.Failf("ToSlice of %s: %s, %v", fmtAsts(keep), fmtAsts(out), err)
		}
		s, ok := out[0].Value.(intSlice)
		if !ok || len(s) != n {
			t.Failf("ToSlice of %s: %T %v", fmtAsts(keep), out[0].Value, out[0].Value)
		}
		for i := range s {
			if s[i] != keep[i].Value.(int) {
				t.Failf("ToSlice of %s: %v", fmtAsts(keep), s)
			}
		}
		if !astsEq(list, keep, true) || !reflect.DeepEqual(src, intSlice{1, 2, 3}) {
			t.Failf("ToSlice changed what it was given: %s, source %v", fmtAsts(list), src)
		}
		if rep == 1 && n > 0 {
			s[0]++
			if prev[0] == s[0] {
				t.Failf("two lists made by ToSlice share their elements")
			}
		}
		prev = s
	}
	t.Obs("applied.ToSlice", 1)
	t.DistinctS(fmt.Sprint(keep))
}

// ---- C16 ----

type rwRule struct {
	pat   [][]int64 // per node: the values it may have
	ahead []int64   // values the node after the match may have (nil: no such condition)
	fail  bool
	res   func(vals []int64) []int64
	name  string
	fails func(vals []int64) bool
	ins   string // at the end, at the start, or before the nodes of ahead: puts a node v there unless one is there already
	v     int64
	mark  string // instead of rewriting the value: changes the node's opcode, position, length or address, once
	raw   bool   // its errors come with another status than error
}

// marked tells whether the mark was made already.
func marked(a Ast, how string) bool {
	switch how {
	case "opcode":
		return a.OpCode >= 1000
	case "position":
		return a.Position >= 1000
	case "length":
		return a.Length >= 1000
	}
	return a.Address != nil
}

func mark(a Ast, how string) Ast {
	switch how {
	case "opcode":
		a.OpCode += 1000
	case "position":
		a.Position += 1000
	case "length":
		a.Length += 1000
	default:
		a.Address = ReflectionBox{}
	}
	return a
}

type rwLevel struct {
	rules []rwRule
	rtol  bool
}

var errRule = errors.New("rule failed")

func rwNode(v int64) Ast { return Ast{ClassName: "N", Type: AstType_Int, Value: v} }

func (r rwRule) parser() ParserFn {
	get := func(vs []int64) ParserFn {
		return Trans(objp.ObjClassFn(func(c interface{}) bool {
			x := c.(Ast).Value.(int64)
			for _, v := range vs {
				if v == x {
					return true
				}
			}
			return false
		}), func(_ ParserContext, asts AstSlice) (AstSlice, error) { return AstSlice{asts[0].Value.(Ast)}, nil })
	}
	var ps []ParserFn
	if r.ins != "" {
		behind, zero := LookBehindN(1, 1, get([]int64{r.v})), Zero(rwNode(r.v))
		switch r.ins {
		case "end":
			return FlatGroup(objp.End(), behind, zero)
		case "start":
			return FlatGroup(Start(), LookAheadN(get([]int64{r.v})), zero)
		}
		return FlatGroup(LookAhead(get(r.ahead)), LookAheadN(get([]int64{r.v})), behind, zero)
	}
	for _, p := range r.pat {
		q := get(p)
		if r.mark != "" {
			q = FlatGroup(LookAhead(objp.ObjClassFn(func(c interface{}) bool { return !marked(c.(Ast), r.mark) })), q)
		}
		ps = append(ps, q)
	}
	if r.ahead != nil {
		ps = append(ps, LookAhead(get(r.ahead)))
	}
	if r.mark != "" {
		return Trans(FlatGroup(ps...), func(_ ParserContext, asts AstSlice) (AstSlice, error) {
			var out AstSlice
			for _, a := range asts {
				out = append(out, mark(a, r.mark))
			}
			return out, nil
		})
	}
	whole := Trans(FlatGroup(ps...), func(_ ParserContext, asts AstSlice) (AstSlice, error) {
		var vs []int64
		for _, a := range asts {
			vs = append(vs, a.Value.(int64))
		}
		if r.fails != nil && r.fails(vs) {
			return nil, errRule
		}
		var out AstSlice
		for _, v := range r.res(vs) {
			a := rwNode(v)
			a.OpCode = asts[0].OpCode
			out = append(out, a)
		}
		return out, nil
	})
	if !r.raw {
		return whole
	}
	return func(ctx ParserContext) (ParserContext, error) {
		out, err := whole(ctx)
		if err != nil {
			out.MatchStatus = MatchStatus_Unmatched
			if r.v > 0 {
				out.MatchStatus = MatchStatus_Matched
			}
		}
		return out, err
	}
}

func (r rwRule) matchAt(l []Ast, i int) bool {
	has := func(k int) bool { return k >= 0 && k < len(l) && l[k].Value.(int64) == r.v }
	switch r.ins {
	case "end":
		return i == len(l) && !has(i-1)
	case "start":
		return i == 0 && !has(0)
	case "before":
		if has(i) || has(i-1) || i >= len(l) {
			return false
		}
	}
	if i+len(r.pat) > len(l) {
		return false
	}
	in := func(a Ast, vs []int64) bool {
		for _, v := range vs {
			if a.Value.(int64) == v {
				return true
			}
		}
		return false
	}
	for k, p := range r.pat {
		if !in(l[i+k], p) || r.mark != "" && marked(l[i+k], r.mark) {
			return false
		}
	}
	if r.ahead != nil {
		return i+len(r.pat) < len(l) && in(l[i+len(r.pat)], r.ahead)
	}
	return true
}

// rwStep is one documented reduction; ok is false if no rule applies.
func rwStep(levels []rwLevel, l []Ast) (out []Ast, ok bool, err error) {
	for _, lv := range levels {
		for i := 0; i <= len(l); i++ {
			pos := i
			if lv.rtol {
				pos = len(l) - i
			}
			for _, r := range lv.rules {
				if !r.matchAt(l, pos) {
					continue
				}
				if r.ins != "" {
					a := rwNode(r.v)
					a.SourcePosition = SourcePosition{Position: pos}
					out = append(out, l[:pos]...)
					out = append(out, a)
					return append(out, l[pos:]...), true, nil
				}
				if r.mark != "" {
					out = append(out, l...)
					for k := range r.pat {
						out[pos+k] = mark(out[pos+k], r.mark)
					}
					return out, true, nil
				}
				var vs []int64
				for _, a := range l[pos : pos+len(r.pat)] {
					vs = append(vs, a.Value.(int64))
				}
				if r.fails != nil && r.fails(vs) {
					return nil, true, errRule
				}
				out = append(out, l[:pos]...)
				for _, v := range r.res(vs) {
					a := rwNode(v)
					a.OpCode = l[pos].OpCode
					out = append(out, a)
				}
				return append(out, l[pos+len(r.pat):]...), true, nil
			}
		}
	}
	return l, false, nil
}

// anyRule is a rule that rewrites or one that inserts, which need not come to an end.
func anyRule(r *Rng, k int64) rwRule {
	if r.P(8) {
		x := rwRule{mark: pick(r, []string{"opcode", "position", "length", "address"})}
		x.name = "mark " + x.mark
		for i := r.R(1, 2); i > 0; i-- {
			x.pat = append(x.pat, []int64{int64(r.N(int(k))), int64(r.N(int(k)))})
		}
		return x
	}
	if r.P(92) {
		return genRule(r, k)
	}
	x := rwRule{ins: pick(r, []string{"end", "start", "before"}), v: int64(r.N(int(k)))}
	if x.ins == "before" {
		for i := r.R(1, 3); i > 0; i-- {
			x.ahead = append(x.ahead, int64(r.N(int(k))))
		}
	}
	x.name = fmt.Sprintf("insert %d %s", x.v, x.ins)
	return x
}

func genRule(r *Rng, k int64) rwRule {
	set := func() []int64 {
		var w []int64
		for i := r.W(0, 40, 40, 20); i > 0; i-- {
			w = append(w, int64(r.N(int(k))))
		}
		return w
	}
	var x rwRule
	n := r.W(0, 15, 45, 40)
	for i := 0; i < n; i++ {
		x.pat = append(x.pat, set())
	}
	if r.P(15) {
		x.ahead = set()
	}
	salt := int64(r.N(7))
	if n == 1 {
		// one node becomes a smaller one, or vanishes
		p := x.pat[0]
		for i := range p {
			if p[i] == 0 {
				p[i] = 1
			}
		}
		if r.P(4) {
			m := pick(r, []int{15, 16, 17, 20, 33, 40})
			x.name = fmt.Sprint("split into ", m)
			x.res = func(v []int64) []int64 {
				w := make([]int64, m)
				for i := range w {
					w[i] = (v[0] - 1) * int64(i%3/2)
				}
				return w
			}
		} else if r.P(25) {
			x.name = "split"
			x.res = func(v []int64) []int64 { return []int64{v[0] - 1, (v[0] - 1) / 2} }
		} else if r.P(25) {
			x.name = "drop"
			x.res = func([]int64) []int64 { return nil }
		} else {
			x.name = "lower"
			x.res = func(v []int64) []int64 { return []int64{v[0] - 1} }
		}
	} else {
		keep := 1
		if n == 3 && r.P(30) {
			keep = 2
		}
		if r.P(6) {
			keep = 0
		}
		x.name = fmt.Sprintf("sum to %d (%d)", keep, salt)
		x.res = func(v []int64) []int64 {
			s := salt
			for i, y := range v {
				s += y * int64(i+1)
			}
			return []int64{s % k, (s / 2) % k}[:keep]
		}
	}
	if r.P(8) {
		bad := int64(r.N(int(k)))
		x.fails = func(v []int64) bool { return v[0] == bad }
		x.name += fmt.Sprintf(" failing at %d", bad)
		if r.P(30) {
			x.raw, x.v = true, int64(r.N(2))
		}
	}
	return x
}

func c16rewrite(t *T, idx int) {
	k := int64(t.R(2, 5))
	var levels []rwLevel
	var precs []Precedence
	var windows []rwWindow
	d := ""
	nl, nr := t.R(1, 4), 3
	if t.P(5) { // many of them
		nl = pick(t.Rng, []int{4, 9, 17, 33})
		k = int64(t.R(5, 40))
	}
	if t.P(5) {
		nr = pick(t.Rng, []int{8, 9, 16, 17, 18, 33, 40})
		k = int64(t.R(5, 40))
	}
	for i := nl; i > 0; i-- {
		lv := rwLevel{rtol: t.P(40)}
		pr := Precedence{Rtol: lv.rtol}
		d += fmt.Sprintf("\n  level rtol=%v:", lv.rtol)
		least := 1
		if nr > 3 && t.P(60) {
			least = nr - 2
		}
		for j := t.R(least, nr); j > 0; j-- {
			r := anyRule(t.Rng, k)
			lv.rules = append(lv.rules, r)
			pr.Rules = append(pr.Rules, keepWindow(r.parser(), &windows))
			d += fmt.Sprintf(" [%v ahead %v: %s]", r.pat, r.ahead, r.name)
		}
		levels = append(levels, lv)
		precs = append(precs, pr)
	}
	goalLen := t.W(10, 50, 20, 10, 4, 3, 2, 1)
	goalMax := k
	if t.P(30) {
		goalMax = int64(t.R(1, int(k)))
	}
	goalMark := "" // all nodes are to be marked
	for _, lv := range levels {
		for _, r := range lv.rules {
			if r.mark != "" && t.P(50) {
				goalMark = r.mark
			}
		}
	}
	isGoal := func(l []Ast) bool {
		if len(l) != goalLen {
			return false
		}
		for _, a := range l {
			if a.Value.(int64) >= goalMax || goalMark != "" && !marked(a, goalMark) {
				return false
			}
		}
		return true
	}
	goal := FlatGroup(Repeat(Times{Min: goalLen, Max: goalLen}, objp.ObjClassFn(func(c interface{}) bool {
		return c.(Ast).Value.(int64) < goalMax && (goalMark == "" || marked(c.(Ast), goalMark))
	})), objp.End())
	tr := ProductionRule(precs, goal)
	for rep := 0; rep < 4; rep++ {
		var list []Ast
		n := t.N(9)
		if t.P(3) {
			n = t.R(20, 60)
		}
		for i := 0; i < n; i++ {
			a := rwNode(int64(t.N(int(k))))
			a.OpCode = AstOpCodeType(i + 1)
			a.SourcePosition = SourcePosition{Position: i, Length: 1}
			list = append(list, a)
		}
		desc := func() string {
			return fmt.Sprintf("goal: %d nodes below %d, marked by %q; list %s%s", goalLen, goalMax, goalMark, fmtAsts(list), d)
		}
		cur := list
		var wantErr error
		steps := 0
		skip := false
		for {
			next, ok, err := rwStep(levels, cur)
			if steps == 0 && ok && isGoal(cur) {
				skip = true // whether the goal is tried before the first reduction is not documented
				break
			}
			if err != nil {
				wantErr = err
				break
			}
			if ok {
				steps++
			}
			if steps > 400 || len(next) > 400 {
				skip = true // rules that split and join for ever
				break
			}
			cur = next
			if isGoal(cur) {
				break
			}
			if !ok {
				wantErr = errSome
				break
			}
		}
		if skip {
			continue
		}
		t.Eval(1)
		t.Obs("reductions", steps)
		t.guarded(desc, func() {
			in := AstSlice(cloneAsts(list))
			windows = windows[:0]
			out, err := tr(ParserContext{}, in)
			for _, w := range windows {
				if !astsEq(w.list, w.copy, true) {
					t.Failf("what a rule took of the list it was given, %s, became %s by later reductions\n  %s", fmtAsts(w.copy), fmtAsts(w.list), desc())
				}
			}
			t.Obs("lists kept by rules", len(windows))
			if (err != nil) != (wantErr != nil) {
				t.Failf("error %v, documented %v after %d reductions, list then %s\n  %s", err, wantErr, steps, fmtAsts(cur), desc())
			}
			if wantErr == errRule && err != errRule {
				t.Failf("error %v instead of the rule's own\n  %s", err, desc())
			}
			if !astsEq(in, list, true) {
				t.Failf("the list given was changed to %s\n  %s", fmtAsts(in), desc())
			}
			if err == nil && !astsEq(out, cur, true) {
				t.Failf("reduced to %s instead of %s\n  %s", fmtAsts(out), fmtAsts(cur), desc())
			}
		})
		switch wantErr {
		case nil:
			t.Obs("goal met", 1)
		case errRule:
			t.Obs("rule failed", 1)
		default:
			t.Obs("stuck", 1)
		}
		if steps > 1 {
			t.DistinctS(desc())
		}
		t.Sample(func() string { return desc() + " => " + fmtAsts(cur) })
	}
}

// rwWindow is a part of the list that a rule was given and kept.
type rwWindow struct{ list, copy AstSlice }

func keepWindow(p ParserFn, kept *[]rwWindow) ParserFn {
	return func(ctx ParserContext) (ParserContext, error) {
		out, err := p(ctx)
		if err == nil && out.MatchStatus == MatchStatus_Matched && len(*kept) < 40 {
			if l, ok := ctx.Slice.Reslice(0, ctx.Slice.Len()).(AstSlice); ok {
				*kept = append(*kept, rwWindow{l, cloneAsts(l)})
			}
		}
		return out, err
	}
}

// c16long: long lists, in which only a few nodes far from the beginning are touched.
func c16long(t *T, idx int) {
	n := pick(t.Rng, []int{255, 256, 1000, 1023, 1024, 1025, 1500, 2048, 2500, 4097})
	in := make(AstSlice, n)
	for i := range in {
		in[i] = Ast{ClassName: "N", OpCode: AstOpCodeType(i), Type: AstType_Int, Value: int64(9)}
	}
	var at []int
	has := map[int]bool{}
	for k := t.R(1, 4); k > 0; k-- {
		i := pick(t.Rng, []int{0, 1, n - 1, n - 2, n / 2, t.N(n), min(1023, n-1), min(1024, n-1), min(255, n-1)})
		if !has[i] {
			has[i] = true
			at = append(at, i)
			in[i].Value = int64(1)
		}
	}
	rtol := t.P(50)
	kind := t.N(4)
	copies := pick(t.Rng, []int{3, 15, 16, 17, 18, 33, 100})
	get := func(v int64) ParserFn {
		return objp.ObjClassFn(func(c interface{}) bool { x, ok := c.(Ast).Value.(int64); return ok && x == v })
	}
	if t.P(40) { // many steps, among nodes of all kinds
		n = t.R(20, 400)
		in, at = make(AstSlice, n), nil
		dense := t.R(5, 95)
		for i := range in {
			if t.P(dense) {
				in[i] = Ast{ClassName: "N", OpCode: AstOpCodeType(i), Type: AstType_Int, Value: int64(1)}
				at = append(at, i)
				continue
			}
			switch t.N(4) {
			case 0: // not set at all
			case 1:
				in[i] = Ast{OpCode: AstOpCodeType(i), Type: AstType_Nil}
			default:
				in[i] = genAst(t.Rng, 2)
				if in[i].Value == int64(1) {
					in[i].Value = int64(3)
				}
			}
		}
	}
	var order []AstOpCodeType
	rule := Trans(get(1), func(_ ParserContext, a AstSlice) (AstSlice, error) {
		x := a[0].Value.(Ast)
		order = append(order, x.OpCode)
		switch kind {
		case 0:
			return nil, nil
		case 1:
			x.Value = int64(2)
			return AstSlice{x}, nil
		}
		x.Value = int64(2)
		if kind == 3 {
			var w AstSlice
			for i := 0; i < copies; i++ {
				x.Position = i
				w = append(w, x)
			}
			return w, nil
		}
		return AstSlice{x, x}, nil
	})
	var want AstSlice
	for _, a := range in {
		if a.Value == int64(1) {
			a.Value = int64(2)
			switch kind {
			case 1:
				want = append(want, a)
			case 2:
				want = append(want, a, a)
			case 3:
				for i := 0; i < copies; i++ {
					a.Position = i
					want = append(want, a)
				}
			}
			continue
		}
		want = append(want, a)
	}
	goal := FlatGroup(Repeat(Times{Min: len(want), Max: len(want)}, objp.ObjClassFn(func(c interface{}) bool { x, ok := c.(Ast).Value.(int64); return !ok || x != 1 })), objp.End())
	desc := func() string {
		return fmt.Sprintf("%d nodes, rewritten at %v, kind %d, right to left %v", n, at, kind, rtol)
	}
	t.guarded(desc, func() {
		out, err := ProductionRule([]Precedence{{Rules: []ParserFn{rule}, Rtol: rtol}}, goal)(ParserContext{}, in)
		t.Eval(1)
		t.Obs("long lists", 1)
		if err != nil {
			t.Failf("error %v: %s", err, desc())
		}
		if !astsEq(out, want, true) {
			t.Failf("%d nodes where %d are documented, or other ones: %s", len(out), len(want), desc())
		}
		for i := 1; i < len(order); i++ {
			if rtol == (order[i] > order[i-1]) {
				t.Failf("rewritten in the order %v: %s", order, desc())
			}
		}
		if len(order) != len(at) {
			t.Failf("%d rewrites: %s", len(order), desc())
		}
	})
	t.DistinctS(desc())
}

// c16steps: thousands of reductions of one list: neighbours are added up until one is left, or, with a goal
// that wants several, until that many are left; pairs whose sum is blocked stay.
func c16steps(t *T, idx int) {
	n := pick(t.Rng, []int{300, 513, 999, 1000, 1001, 1002, 1024, 1025, 1026, 1027, 1500, 2048, 2049, 2050, 3000, 4097, 4098, 4100})
	rtol := t.P(50)
	goalN := pick(t.Rng, []int{1, 1, 2, 7, 100})
	in := make(AstSlice, n)
	for i := range in {
		in[i] = Ast{ClassName: "N", Type: AstType_Int, Value: int64(t.N(1000)), SourcePosition: SourcePosition{Position: i}}
	}
	steps := 0
	fail := -1
	if t.P(20) {
		fail = t.R(1, n-goalN)
	}
	oops := errors.New("rule failed")
	rule := Trans(FlatGroup(objp.Any(), objp.Any()), func(_ ParserContext, a AstSlice) (AstSlice, error) {
		x, y := a[0].Value.(Ast), a[1].Value.(Ast)
		if steps++; steps == fail {
			return nil, oops
		}
		// the sum, and a hash which depends on the grouping
		return AstSlice{{ClassName: "N", Type: AstType_Int, Value: (x.Value.(int64)*31 + y.Value.(int64)) % 1000003, SourcePosition: x.SourcePosition}}, nil
	})
	goal := FlatGroup(Repeat(Times{Min: goalN, Max: goalN}, objp.Any()), objp.End())
	vals := make([]int64, n)
	for i := range in {
		vals[i] = in[i].Value.(int64)
	}
	for k := n - goalN; k > 0; k-- {
		if rtol {
			vals[len(vals)-2] = (vals[len(vals)-2]*31 + vals[len(vals)-1]) % 1000003
			vals = vals[:len(vals)-1]
		} else {
			vals[1] = (vals[0]*31 + vals[1]) % 1000003
			vals = vals[1:]
		}
	}
	desc := func() string {
		return fmt.Sprintf("%d nodes reduced pairwise to %d, right to left %v, failing at step %d", n, goalN, rtol, fail)
	}
	t.guarded(desc, func() {
		out, err := ProductionRule([]Precedence{{Rules: []ParserFn{rule}, Rtol: rtol}}, goal)(ParserContext{}, in)
		t.Eval(1)
		t.Obs("long reductions", steps)
		if fail >= 0 {
			if err == nil || steps != fail {
				t.Failf("error %v after %d steps, the rule failed: %s", err, steps, desc())
			}
			return
		}
		if err != nil {
			t.Failf("error %v after %d steps: %s", err, steps, desc())
			return
		}
		if steps != n-goalN || len(out) != goalN {
			t.Failf("%d steps, %d nodes left: %s", steps, len(out), desc())
			return
		}
		for i, v := range vals {
			if out[i].Value != v {
				t.Failf("node %d is %v, must be %d: %s", i, out[i].Value, v, desc())
				return
			}
		}
	})
	t.DistinctS(desc())
}

// c16expr: operators group by declared precedence and associativity.
func c16expr(t *T, idx int) {
	nl := t.R(1, 5)
	type opLevel struct {
		ops  []string
		rtol bool
		pre  bool // prefix operators
	}
	names := []string{"+", "-", "*", "/", "^", "%", "&", "|", "<", ">", "!", "~"}
	var lv []opLevel
	for i := 0; i < nl; i++ {
		l := opLevel{rtol: t.P(40)}
		if t.P(20) {
			l.pre, l.rtol = true, true
		}
		for j := t.R(1, 3); j > 0 && len(names) > 0; j-- {
			k := t.N(len(names))
			l.ops = append(l.ops, names[k])
			names = append(names[:k:k], names[k+1:]...)
		}
		if len(l.ops) > 0 {
			lv = append(lv, l)
		}
	}
	unwrap := func(_ ParserContext, asts AstSlice) (AstSlice, error) { return AstSlice{asts[0].Value.(Ast)}, nil }
	isOp := func(op string) ParserFn {
		return Trans(objp.ObjClassFn(func(c interface{}) bool { a := c.(Ast); return a.ClassName == "op" && a.Value == op }), unwrap)
	}
	operand := Trans(objp.ObjClassFn(func(c interface{}) bool { return c.(Ast).ClassName == "x" }), unwrap)
	anyOp := objp.ObjClassFn(func(c interface{}) bool { return c.(Ast).ClassName == "op" })
	var precs []Precedence
	for _, l := range lv {
		pr := Precedence{Rtol: l.rtol}
		for _, op := range l.ops {
			if l.pre {
				pr.Rules = append(pr.Rules, Trans(FlatGroup(LookBehind(1, 1, anyOp), isOp(op), operand), func(_ ParserContext, a AstSlice) (AstSlice, error) {
					return AstSlice{{ClassName: "x", Type: AstType_String, Value: "(" + a[0].Value.(string) + a[1].Value.(string) + ")"}}, nil
				}), Trans(FlatGroup(Start(), isOp(op), operand), func(_ ParserContext, a AstSlice) (AstSlice, error) {
					return AstSlice{{ClassName: "x", Type: AstType_String, Value: "(" + a[0].Value.(string) + a[1].Value.(string) + ")"}}, nil
				}))
			} else {
				pr.Rules = append(pr.Rules, Trans(FlatGroup(operand, isOp(op), operand), func(_ ParserContext, a AstSlice) (AstSlice, error) {
					return AstSlice{{ClassName: "x", Type: AstType_String, Value: "(" + a[0].Value.(string) + a[1].Value.(string) + a[2].Value.(string) + ")"}}, nil
				}))
			}
		}
		precs = append(precs, pr)
	}
	goal := FlatGroup(Start(), objp.ObjClassFn(func(c interface{}) bool { return c.(Ast).ClassName == "x" }), objp.End())
	var bins, pres []string
	prec := map[string]int{}
	rtol := map[string]bool{}
	for i, l := range lv {
		for _, op := range l.ops {
			prec[op] = i // smaller binds tighter
			rtol[op] = l.rtol
			if l.pre {
				pres = append(pres, op)
			} else {
				bins = append(bins, op)
			}
		}
	}
	if len(bins) == 0 {
		return
	}
	// prefix operators only where every binary level binds looser: their grouping is then beyond doubt
	usePre := len(pres) > 0 && len(lv) > 0 && lv[0].pre
	n := t.R(1, 8)
	if t.P(2) {
		n = t.R(60, 150)
	}
	var list AstSlice
	var toks []string
	for i := 0; i < n; i++ {
		if i > 0 {
			op := pick(t.Rng, bins)
			list = append(list, Ast{ClassName: "op", Type: AstType_String, Value: op})
			toks = append(toks, op)
		}
		x := string(rune('a' + i%26))
		s := x
		var pre []string
		if usePre && t.P(25) {
			for k := t.R(1, 3); k > 0; k-- {
				op := pick(t.Rng, lv[0].ops)
				pre = append(pre, op)
				list = append(list, Ast{ClassName: "op", Type: AstType_String, Value: op})
			}
		}
		for k := len(pre) - 1; k >= 0; k-- {
			s = "(" + pre[k] + s + ")"
		}
		list = append(list, Ast{ClassName: "x", Type: AstType_String, Value: x})
		toks = append(toks, s)
	}
	// precedence climbing on operands and binary operators
	var parse func(i, j int) string
	parse = func(i, j int) string { // toks[i:j], operands at even offsets
		if j-i == 1 {
			return toks[i]
		}
		at := -1
		for k := i + 1; k < j; k += 2 { // loosest operator; the last one if left associative, the first if right
			if at < 0 || prec[toks[k]] > prec[toks[at]] || (prec[toks[k]] == prec[toks[at]] && !rtol[toks[k]]) {
				at = k
			}
		}
		return "(" + parse(i, at) + toks[at] + parse(at+1, j) + ")"
	}
	want := parse(0, len(toks))
	desc := func() string { return fmt.Sprintf("%q with levels %v", strings.Join(toks, " "), lv) }
	t.Eval(1)
	t.guarded(desc, func() {
		out, err := ProductionRule(precs, goal)(ParserContext{}, list)
		if err != nil || len(out) != 1 || out[0].Value != want {
			t.Failf("groups to %s (error %v) instead of %s: %s", fmtAsts(out), err, want, desc())
		}
	})
	t.Obs("expressions", 1)
	t.Obs("operators grouped", len(list)/2)
	if n > 2 {
		t.DistinctS(desc())
	}
	t.Sample(func() string { return desc() + " => " + short(want, 100) })
}

// ---- C20 ----

type trvAct struct {
	there   int          // 0 as is, 1 lazy, 2 last, 3 error, 4 replaced by another subtree, 5 renamed, 6, 7 emptied, 8, 9 children exchanged
	mode    WayThereMode // with 8 and 9
	back    int          // 0 as is, 1 renamed, 2 error, 3 throw, 4 leaf instead, 5 throw and error
	op      TraverseOpcode
	incr    int16
	times   int // how often op/incr apply
	subtree Ast
	thr     interface{} // what is thrown (nil: theThrow)
	err     error       // the error (nil: errTrv)
}

func (a *trvAct) error() error {
	if a.err != nil {
		return a.err
	}
	return errTrv
}

func (a *trvAct) throws() interface{} {
	if a.thr != nil {
		return a.thr
	}
	return theThrow
}

type trvEvent struct {
	kind  string
	node  string
	child string
	err   error
	thr   interface{}
}

func (e trvEvent) same(f trvEvent) bool {
	return e.kind == f.kind && e.node == f.node && e.child == f.child && sameErr(e.err, f.err) && sameTag(e.thr, f.thr)
}

type trvRun struct {
	acts   map[string]*trvAct
	seen   map[string]int
	ev     []trvEvent
	ctx    interface{}
	ctxBad bool
	limit  int
	n      int
}

var errTrv = errors.New("traverse error")

type thrown struct{ n int }

var theThrow = &thrown{1}

func (r *trvRun) there(n Ast) (Ast, WayThereMode, error) {
	r.n++
	if r.n > r.limit {
		panic(refBudget{})
	}
	r.ev = append(r.ev, trvEvent{kind: "there", node: fmtShallow(n)})
	a := r.acts[n.ClassName]
	if a == nil {
		return n, WayThereMode_None, nil
	}
	switch a.there {
	case 1:
		return n, WayThereMode_Lazy, nil
	case 2:
		return n, WayThereMode_Last, nil
	case 3:
		return n, WayThereMode_None, a.error()
	case 4:
		s := a.subtree
		s.ClassName = n.ClassName + "'"
		return s, WayThereMode_None, nil
	case 5:
		n.OpCode += 10
		return n, WayThereMode_None, nil
	case 6:
		return Ast{}, WayThereMode_None, nil
	case 7:
		return Ast{ClassName: n.ClassName, Type: AstType_ListOfAst, Value: AstSlice(nil)}, WayThereMode_Last, nil
	case 8, 9: // the same node with other children
		switch v := n.Value.(type) {
		case AstCons:
			n.Value = AstCons{Car: v.Cdr, Cdr: v.Car}
		case AstSlice:
			w := append(AstSlice(nil), v...)
			for i := range w {
				w[i].OpCode += 7
				if a.there == 9 && a.mode == WayThereMode_None { // (with jumps, only as placed)
					w[i] = v[len(v)-1-i]
				}
			}
			n.Value = w
		default:
			n.Position += 5
		}
		return n, a.mode, nil
	}
	return n, WayThereMode_None, nil
}

func (r *trvRun) back(n Ast) (Ast, int16, TraverseOpcode, interface{}, error) {
	r.ev = append(r.ev, trvEvent{kind: "back", node: fmtAst(n)})
	a := r.acts[n.ClassName]
	if a == nil {
		return n, 0, 0, nil, nil
	}
	var thr interface{}
	var err error
	name := n.ClassName
	switch a.back {
	case 1:
		n.OpCode += 100
	case 2:
		err = a.error()
	case 3:
		thr = a.throws()
	case 4:
		n = Ast{ClassName: n.ClassName, Type: AstType_Int, Value: int64(99)}
	case 5:
		thr, err = a.throws(), a.error()
	case 6:
		n = Ast{}
	}
	r.seen[name]++
	if r.seen[name] > a.times {
		return n, 0, 0, thr, err
	}
	return n, a.incr, a.op, thr, err
}

func (r *trvRun) childErr(n, child Ast, thr interface{}, err error) {
	r.ev = append(r.ev, trvEvent{kind: "failed child", node: fmtShallow(n), child: child.ClassName, err: err, thr: thr})
}

// fmtShallow names a node without what lies below it.
func fmtShallow(a Ast) string {
	switch a.Value.(type) {
	case AstSlice, AstCons:
		a.Value = nil
	}
	return fmtAst(a)
}

// walk is the documented traversal.
func (r *trvRun) walk(n Ast) (Ast, int16, TraverseOpcode, interface{}, error) {
	s, mode, err := r.there(n)
	if err != nil {
		return s, 0, 0, nil, err
	}
	val := s.Value
	if s.Type != AstType_AstCons && s.Type != AstType_ListOfAst {
		val = nil // a leaf, whatever it holds
	}
	if mode != WayThereMode_Lazy {
		switch v := val.(type) {
		case AstCons:
			car, _, _, thr, err := r.walk(v.Car)
			if thr != nil || err != nil {
				r.childErr(s, car, thr, err)
				return s, 0, 0, thr, err
			}
			cdr, _, _, thr, err := r.walk(v.Cdr)
			if thr != nil || err != nil {
				r.childErr(s, cdr, thr, err)
				return s, 0, 0, thr, err
			}
			s.Value = AstCons{Car: car, Cdr: cdr}
		case AstSlice:
			if mode == WayThereMode_Last {
				var kept AstSlice
				if len(v) > 0 {
					kept = AstSlice{Ast{}}
				}
				for i := 0; i >= 0 && i < len(v); {
					c, incr, op, thr, err := r.walk(v[i])
					if thr != nil || err != nil {
						r.childErr(s, v[i], thr, err)
						return s, 0, 0, thr, err
					}
					next := i + 1 + int(incr)
					switch op {
					case TraverseOpcode_Nop:
						kept[0] = c
					case TraverseOpcode_Break:
						next = len(v) + int(incr)
					case TraverseOpcode_Continue:
						next = int(incr)
					}
					i = next
				}
				s.Value = kept
			} else {
				w := AstSlice{}
				for _, x := range v {
					c, _, _, thr, err := r.walk(x)
					if thr != nil || err != nil {
						r.childErr(s, x, thr, err)
						return s, 0, 0, thr, err
					}
					w = append(w, c)
				}
				s.Value = w
			}
		}
	}
	return r.back(s)
}

func genTree(r *Rng, depth int, n *int, wide int) Ast {
	*n++
	if r.P(5) {
		return Ast{} // nothing set
	}
	a := Ast{ClassName: fmt.Sprintf("n%d", *n), OpCode: AstOpCodeType(r.N(5)), SourcePosition: SourcePosition{Position: *n}}
	k := r.N(10)
	if depth <= 0 {
		k = 9
	}
	switch {
	case k < 3:
		a.Type = AstType_AstCons
		c := genTree(r, depth-1, n, wide)
		d := genTree(r, depth-1, n, wide)
		a.Value = AstCons{Car: c, Cdr: d}
	case k < 7:
		a.Type = AstType_ListOfAst
		s := AstSlice{}
		for i := r.N(wide + 1); i > 0; i-- {
			s = append(s, genTree(r, depth-1, n, wide))
		}
		a.Value = s
	default:
		b := genAst(r, 0)
		a.Type, a.Value, a.Address = b.Type, b.Value, b.Address
	}
	if r.P(4) { // of a type of the user's: opaque
		a.Type = AstType_Any + AstType(r.N(3))
	}
	return a
}

func (r *trvRun) real(tree Ast) (Ast, int16, TraverseOpcode, interface{}, error) {
	chk := func(ctx interface{}) {
		if !sameTag(ctx, r.ctx) {
			r.ctxBad = true
		}
	}
	return tree.Traverse(func(ctx interface{}, n Ast) (Ast, WayThereMode, error) { chk(ctx); return r.there(n) },
		func(ctx interface{}, n Ast) (Ast, int16, TraverseOpcode, interface{}, error) {
			chk(ctx)
			return r.back(n)
		},
		func(ctx interface{}, n, c Ast, thr interface{}, err error) { chk(ctx); r.childErr(n, c, thr, err) }, r.ctx)
}

func c20random(t *T, idx int) {
	n := 0
	tree := genTree(t.Rng, t.R(1, 5), &n, t.R(1, 6))
	keep := cloneAst(tree)
	acts := map[string]*trvAct{}
	density := t.N(60)
	errs := t.P(30)
	for i := 1; i <= n; i++ {
		if !t.P(density) {
			continue
		}
		a := &trvAct{}
		a.there = pick(t.Rng, []int{0, 0, 0, 1, 2, 2, 2, 2, 4, 5, 6, 7, 8, 9})
		if a.there > 7 {
			a.mode = pick(t.Rng, []WayThereMode{WayThereMode_None, WayThereMode_Last})
		}
		a.back = pick(t.Rng, []int{0, 0, 1, 1, 4, 6})
		if errs && t.P(20) {
			if t.P(30) {
				a.there = 3
			} else {
				a.back = pick(t.Rng, []int{2, 3, 5})
			}
			if t.P(60) {
				a.err = oddErr(t.Rng)
				a.thr = anyTag(t.Rng, idx)
			}
		}
		if t.P(40) {
			a.times = t.R(1, 2)
			switch t.N(6) {
			case 4: // both at once: first to the end or the start, from there the jump
				a.op, a.incr = TraverseOpcode_Break, int16(t.R(-3, 2))
			case 5:
				a.op, a.incr = TraverseOpcode_Continue, int16(t.R(0, 3))
			case 0:
				a.op = TraverseOpcode_Break
			case 1:
				a.op = TraverseOpcode_Continue
			case 2:
				a.incr = int16(t.R(1, 3))
				if t.P(10) {
					a.incr = pick(t.Rng, []int16{127, 128, 255, 256, 1000, math.MaxInt16})
				}
			case 3:
				a.incr = int16(-t.R(1, 2))
			}
		}
		if a.there == 4 {
			k := 1000 * i
			a.subtree = genTree(t.Rng, 2, &k, 2)
		}
		acts[fmt.Sprintf("n%d", i)] = a
	}
	// jumps to before the first item are not documented: allow negative jumps only where an item exists
	var fix func(a Ast)
	fix = func(a Ast) {
		switch v := a.Value.(type) {
		case AstSlice:
			for i, c := range v {
				if x := acts[c.ClassName]; x != nil && x.incr < 0 {
					to := i + 1
					if x.op == TraverseOpcode_Break {
						to = len(v)
					}
					if to+int(x.incr) < 0 {
						x.incr = 0
					}
				}
				fix(c)
			}
		case AstCons:
			fix(v.Car)
			fix(v.Cdr)
		}
	}
	fix(tree)
	for _, a := range acts {
		fix(a.subtree)
	}
	desc := func() string {
		s := ""
		for i := 1; i <= n; i++ {
			if a := acts[fmt.Sprintf("n%d", i)]; a != nil {
				s += fmt.Sprintf(" n%d{there %d back %d op %d jump %d x%d}", i, a.there, a.back, a.op, a.incr, a.times)
			}
		}
		return fmt.Sprintf("tree %s\n  acts%s", fmtAst(keep), s)
	}
	ref := &trvRun{acts: acts, seen: map[string]int{}, limit: 3000}
	var wa Ast
	var wi int16
	var wo TraverseOpcode
	var wt interface{}
	var we error
	over := func() (over bool) {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(refBudget); !ok {
					panic(x)
				}
				over = true
			}
		}()
		wa, wi, wo, wt, we = ref.walk(keep)
		return
	}()
	if over {
		return
	}
	t.Eval(1)
	c20compare(t, tree, keep, ref, wa, wi, wo, wt, we, desc)
	for _, e := range ref.ev {
		t.Obs("event "+e.kind, 1)
	}
	if len(ref.ev) > 4 {
		t.DistinctS(desc())
	}
	t.Sample(desc)
}

func c20compare(t *T, tree, keep Ast, ref *trvRun, wa Ast, wi int16, wo TraverseOpcode, wt interface{}, we error, desc func() string) {
	t.guarded(desc, func() {
		got := &trvRun{acts: ref.acts, seen: map[string]int{}, limit: len(ref.ev)*2 + 10, ctx: anyTag(t.Rng, 7)}
		var ga Ast
		var gi int16
		var gop TraverseOpcode
		var gt interface{}
		var ge error
		func() {
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(refBudget); ok {
						t.Failf("more calls than documented (%d)\n  %s", len(ref.ev), desc())
					}
					panic(x)
				}
			}()
			ga, gi, gop, gt, ge = got.real(tree)
		}()
		for i := range ref.ev {
			if i >= len(got.ev) || !got.ev[i].same(ref.ev[i]) {
				g := "nothing"
				if i < len(got.ev) {
					g = fmt.Sprintf("%+v", got.ev[i])
				}
				t.Failf("call %d: %s, documented %+v\n  %s", i, g, ref.ev[i], desc())
			}
		}
		if len(got.ev) > len(ref.ev) {
			t.Failf("extra call %+v\n  %s", got.ev[len(ref.ev)], desc())
		}
		if got.ctxBad {
			t.Failf("a callback received another context\n  %s", desc())
		}
		if !sameErr(ge, we) || !sameTag(gt, wt) {
			t.Failf("error %v thrown %v, documented %v %v\n  %s", ge, gt, we, wt, desc())
		}
		if !astEq(tree, keep, true) {
			t.Failf("the given tree was changed to %s\n  %s", fmtAst(tree), desc())
		}
		if we == nil && wt == nil {
			if !astEq(ga, wa, true) {
				t.Failf("returned tree %s\n  documented %s\n  %s", fmtAst(ga), fmtAst(wa), desc())
			}
			if gi != wi || gop != wo {
				t.Failf("requests of the root are returned as %d %d instead of %d %d\n  %s", gi, gop, wi, wo, desc())
			}
			t.Obs("trees rebuilt", 1)
		} else {
			t.Obs("stopped traversals", 1)
		}
	})
}

// c20big: very deep and very wide trees.
func c20big(t *T, idx int) {
	n := []int{100, 1000, 1024, 5000, 20000}[idx%5]
	mode := idx / 5 % 6
	if idx >= 40 {
		mode = 4 + idx/8%2
	}
	if mode > 3 {
		n = []int{32767, 32770, 65535, 65536, 65537, 70001, 131072 + 50}[t.N(7)]
	}
	var tree Ast
	leaf := func(i int) Ast { return Ast{ClassName: fmt.Sprintf("n%d", i), Type: AstType_Int, Value: int64(i)} }
	acts := map[string]*trvAct{}
	switch mode {
	case 0: // wide list
		s := AstSlice{}
		for i := 0; i < n; i++ {
			s = append(s, leaf(i))
		}
		tree = Ast{ClassName: "root", Type: AstType_ListOfAst, Value: s}
	case 1: // deep pairs
		tree = leaf(0)
		for i := 1; i < min(n, 5000); i++ {
			tree = Ast{ClassName: "p", Type: AstType_AstCons, Value: AstCons{Car: leaf(i), Cdr: tree}}
		}
	case 2: // wide list kept to its last item, some items jumping
		s := AstSlice{}
		for i := 0; i < n; i++ {
			s = append(s, leaf(i))
			if i%97 == 3 {
				acts[fmt.Sprintf("n%d", i)] = &trvAct{incr: 5, times: 1}
			}
			if i%997 == 500 {
				acts[fmt.Sprintf("n%d", i)] = &trvAct{incr: int16(-min(i, 400)), times: 1}
			}
			if i == 9000 {
				acts[fmt.Sprintf("n%d", i)] = &trvAct{incr: 9000, times: 1}
			}
		}
		acts[fmt.Sprintf("n%d", n-1)] = &trvAct{op: TraverseOpcode_Continue, times: 1}
		acts["root"] = &trvAct{there: 2}
		tree = Ast{ClassName: "root", Type: AstType_ListOfAst, Value: s}
	case 4, 5: // giant list, a few items of which jump, begin again or end it
		s := AstSlice{}
		for i := 0; i < n; i++ {
			s = append(s, leaf(i))
		}
		places := []int{0, 1, 254, 255, 256, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, n - 3, n - 2, n - 1, t.N(n), t.N(n), t.N(n)}
		again := 0
		for k := t.R(1, 6); k > 0; k-- {
			i := pick(t.Rng, places)
			if i >= n {
				continue
			}
			a := &trvAct{times: 1}
			switch w := t.N(6); {
			case w == 0 && again < 2:
				a.op = TraverseOpcode_Continue
				again++
			case (w == 1 || w == 2) && i > n/3:
				a.op = TraverseOpcode_Break
			case w < 4:
				a.incr = int16(pick(t.Rng, []int{1, 2, 100, 255, 256, 32766, 32767}))
			default:
				a.incr = int16(-min(i, pick(t.Rng, []int{1, 2, 100, 256, 32767, 32768})))
			}
			acts[fmt.Sprintf("n%d", i)] = a
		}
		if mode == 4 {
			acts["root"] = &trvAct{there: 2}
		}
		tree = Ast{ClassName: "root", Type: AstType_ListOfAst, Value: s}
	case 3: // an error in the depths is reported to each enclosing node
		tree = leaf(0)
		acts["n0"] = &trvAct{back: 2}
		for i := 1; i < min(n, 1000); i++ {
			tree = Ast{ClassName: fmt.Sprintf("l%d", i), Type: AstType_ListOfAst, Value: AstSlice{leaf(-i), tree}}
		}
	}
	keep := cloneAst(tree)
	desc := func() string { return fmt.Sprintf("big tree kind %d, size %d", mode, n) }
	// deep trees: do not print whole subtrees in events
	ref := &trvRun{acts: acts, seen: map[string]int{}, limit: 2000000}
	if mode == 1 || mode == 3 {
		c20deep(t, tree, keep, mode, desc)
		return
	}
	wa, wi, wo, wt, we := ref.walk(keep)
	c20compare(t, tree, keep, ref, wa, wi, wo, wt, we, desc)
	t.Eval(1)
	t.Distinct(uint64(idx))
}

func c20deep(t *T, tree, keep Ast, mode int, desc func() string) {
	depth := 0
	for a := tree; ; {
		switch v := a.Value.(type) {
		case AstCons:
			a = v.Cdr
			depth++
			continue
		case AstSlice:
			a = v[1]
			depth++
			continue
		}
		break
	}
	there, back, failed := 0, 0, 0
	out, _, _, _, err := tree.Traverse(func(_ interface{}, n Ast) (Ast, WayThereMode, error) { there++; return n, 0, nil },
		func(_ interface{}, n Ast) (Ast, int16, TraverseOpcode, interface{}, error) {
			back++
			if mode == 3 && n.ClassName == "n0" {
				return n, 0, 0, nil, errTrv
			}
			n.OpCode++
			return n, 0, 0, nil, nil
		},
		func(_ interface{}, n, c Ast, thr interface{}, e error) {
			failed++
			if e != errTrv || thr != nil {
				t.Failf("enclosing node learns of %v %v: %s", e, thr, desc())
			}
		}, nil)
	t.Eval(1)
	if !astEq(tree, keep, true) {
		t.Failf("the given tree was changed: %s", desc())
	}
	if there != 2*depth+1 {
		t.Failf("%d outbound calls for %d nodes: %s", there, 2*depth+1, desc())
	}
	if mode == 3 {
		if err != errTrv || failed != depth || back != depth+1 {
			t.Failf("error %v reported to %d of %d enclosing nodes, %d return calls: %s", err, failed, depth, back, desc())
		}
		return
	}
	if err != nil || back != there {
		t.Failf("error %v, %d return calls for %d outbound: %s", err, back, there, desc())
	}
	for a, b := out, keep; ; {
		if a.OpCode != b.OpCode+1 {
			t.Failf("a node of the returned tree is not what the callback returned: %s", desc())
		}
		v, ok := a.Value.(AstCons)
		if !ok {
			break
		}
		w := b.Value.(AstCons)
		if v.Car.OpCode != w.Car.OpCode+1 || v.Car.Value != w.Car.Value {
			t.Failf("a first part of the returned tree is not what the callback returned: %s", desc())
		}
		a, b = v.Cdr, w.Cdr
	}
}

// ---- C23 ----

// refEqual: class, declared type and value agree, through pairs and lists.
func refEqual(a, b Ast) bool {
	if a.ClassName != b.ClassName || a.Type != b.Type {
		return false
	}
	switch x := a.Value.(type) {
	case AstSlice:
		y, ok := b.Value.(AstSlice)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !refEqual(x[i], y[i]) {
				return false
			}
		}
		return true
	case AstCons:
		y, ok := b.Value.(AstCons)
		return ok && refEqual(x.Car, y.Car) && refEqual(x.Cdr, y.Cdr)
	}
	return reflect.DeepEqual(a.Value, b.Value)
}

func newInt(i int) *int { return &i }

func ptrTo(p *int) **int { return &p }

// renewed is a value equal to v that shares no memory with it.
func renewed(v interface{}) interface{} {
	if v == nil {
		return nil
	}
	var cp func(v reflect.Value) reflect.Value
	cp = func(v reflect.Value) reflect.Value {
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() {
				return v
			}
			w := reflect.New(v.Type().Elem())
			w.Elem().Set(cp(v.Elem()))
			return w
		case reflect.Slice:
			if v.IsNil() {
				return v
			}
			w := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
			for i := 0; i < v.Len(); i++ {
				w.Index(i).Set(cp(v.Index(i)))
			}
			return w
		case reflect.Map:
			if v.IsNil() {
				return v
			}
			w := reflect.MakeMap(v.Type())
			for _, k := range v.MapKeys() {
				w.SetMapIndex(k, cp(v.MapIndex(k)))
			}
			return w
		}
		return v
	}
	return cp(reflect.ValueOf(v)).Interface()
}

var anyValues = func(r *Rng) interface{} {
	return pick(r, []interface{}{nil, 1, int8(1), int64(1), uint64(1), uint(1), 1.0, float32(1), '1', "1", []byte("1"), byte('1'), int64('1'), true, "true", "nil", "<nil>", "",
		[]int{1, 2}, []int64{1, 2}, []interface{}{1, 2}, [2]int{1, 2}, []int{1, 2, 3}, []int{}, []int(nil), map[string]int{"a": 1}, map[string]int{"a": 2}, map[string]int{}, map[string]int(nil),
		&struct{ X int }{1}, &struct{ X int }{2}, newInt(1), newInt(2), (*int)(nil), ptrTo(newInt(1)), []*int{newInt(1)}, map[string]*int{"a": newInt(1)}, &Ast{Value: 1}, struct{ X int }{1}, struct{ Y int }{1}, intSlice{1}, Ast{}, "[1 2]", errors.New("e"), complex(1, 0), time.Second, time.Duration(0)})
}

// nearValue: another value of the same Go type, or for nodes of any value, another type that looks the same.
func nearValue(r *Rng, v interface{}) interface{} {
	switch x := v.(type) {
	case int64:
		return pick(r, []int64{x + 1, x - 1, -x, x ^ math.MinInt64, x + 1<<32, x + 1<<8, x + 1<<53, int64(int32(x)), 0})
	case uint64:
		return pick(r, []uint64{x + 1, x - 1, -x, x ^ 1<<63, x + 1<<32, x + 1<<8, x + 1<<53, uint64(uint32(x)), 0})
	case float64:
		return pick(r, []float64{-x, math.Nextafter(x, 1e308), x + 1, float64(float32(x)), math.Trunc(x), 0, math.Inf(1)})
	case rune:
		return pick(r, []rune{x + 1, x ^ 0x20, x + 1<<8, x + 1<<16, -x})
	case bool:
		return !x
	case string:
		return pick(r, []string{x + " ", " " + x, strings.ToUpper(x), x + "\x00", x + "a", strings.TrimSpace(x), "e\u0301" + x, "\u00e9" + x, "", x + x})
	case nil, int, int8, []int, map[string]int, intSlice:
		return anyValues(r)
	}
	return v
}

// spoil changes one thing somewhere in the node.
func spoil(r *Rng, a Ast) Ast {
	switch x := a.Value.(type) {
	case AstSlice:
		if len(x) > 0 && r.P(70) {
			w := append(AstSlice{}, x...)
			i := r.N(len(w))
			w[i] = spoil(r, w[i])
			a.Value = w
			return a
		}
		if r.P(50) {
			a.Value = append(append(AstSlice{}, x...), genAst(r, 0))
			return a
		}
		if len(x) > 0 {
			a.Value = x[:len(x)-1]
			return a
		}
		if x == nil {
			a.Value = AstSlice{}
		} else {
			a.Value = AstSlice(nil)
		}
		return a
	case AstCons:
		if r.P(80) {
			if r.P(50) {
				x.Car = spoil(r, x.Car)
			} else {
				x.Cdr = spoil(r, x.Cdr)
			}
			a.Value = x
			return a
		}
	}
	switch r.N(6) {
	case 5:
		a.Value = nearValue(r, a.Value)
	case 0:
		a.ClassName += "x"
	case 1:
		a.OpCode += 5
	case 2:
		a.Position += 3
		a.Length++
	case 3:
		b := genAst(r, 0)
		a.Type, a.Value = b.Type, b.Value
	case 4:
		if a.Type != AstType_AstCons && a.Type != AstType_ListOfAst {
			a.Type = pick(r, []AstType{AstType_Any, AstType_String, AstType_Int, AstType_Function})
		}
	}
	return a
}

func c23equal(t *T, idx int) {
	a := genAst(t.Rng, t.R(0, 5))
	anyNode := func() Ast { return Ast{ClassName: "any", Type: AstType_Any, Value: anyValues(t.Rng)} }
	if t.P(25) {
		a = anyNode()
		if t.P(30) {
			a = Ast{ClassName: "l", Type: AstType_ListOfAst, Value: AstSlice{a, anyNode()}}
		} else if t.P(30) {
			a = Ast{ClassName: "p", Type: AstType_AstCons, Value: AstCons{Car: a, Cdr: anyNode()}}
		}
	}
	var fresh func(a Ast) Ast
	fresh = func(a Ast) Ast {
		switch x := a.Value.(type) {
		case AstSlice:
			for i := range x {
				x[i] = fresh(x[i])
			}
		case AstCons:
			x.Car, x.Cdr = fresh(x.Car), fresh(x.Cdr)
			a.Value = x
		default:
			a.Value = renewed(x)
		}
		return a
	}
	mut := func(a Ast) Ast {
		b := cloneAst(a)
		if t.P(50) {
			b = fresh(b)
		}
		for i := t.W(25, 50, 25); i > 0; i-- {
			b = spoil(t.Rng, b)
		}
		return b
	}
	b := mut(a)
	c := mut(b)
	if t.P(10) {
		c = genAst(t.Rng, 2)
	}
	var s AstSlice
	eq := func(x, y Ast) bool { return s.ItemEquals(x, y) }
	desc := func() string { return fmt.Sprintf("a=%s b=%s c=%s", fmtAst(a), fmtAst(b), fmtAst(c)) }
	t.guarded(desc, func() {
		for _, p := range [][2]Ast{{a, a}, {a, b}, {b, a}, {b, c}, {a, c}, {c, b}, {c, c}, {cloneAst(a), a}} {
			w := refEqual(p[0], p[1])
			t.Eval(1)
			if g := eq(p[0], p[1]); g != w {
				t.Failf("%s and %s: equal %v, documented %v", fmtAst(p[0]), fmtAst(p[1]), g, w)
			}
			t.Obs(map[bool]string{true: "equal pairs", false: "unequal pairs"}[w], 1)
		}
		if !eq(a, a) || !eq(b, b) {
			t.Failf("not reflexive: %s", desc())
		}
		if eq(a, b) != eq(b, a) {
			t.Failf("not symmetric: %s", desc())
		}
		if eq(a, b) && eq(b, c) && !eq(a, c) {
			t.Failf("not transitive: %s", desc())
		}
		// the object matchers over a node list use just this equality
		o := outOf(objp.ObjClass(b)(ParserContext{Slice: AstSlice{a}}))
		if (o.St == MatchStatus_Matched) != refEqual(a, b) {
			t.Failf("a set of b over a: %v; %s", o, desc())
		}
	})
	t.Distinct(hashAsts(1, []Ast{a, b, c}))
	t.Sample(desc)
}

// c23long: long lists and deep nodes that differ in one place at most.
func c23long(t *T, idx int) {
	n := pick(t.Rng, append([]int{500, 513, 1000, 1024, 1025, 2000}, largeSizes...))
	l := make(AstSlice, n)
	for i := range l {
		l[i] = genAst(t.Rng, t.W(60, 40))
	}
	if t.P(30) { // all alike
		for i := range l {
			l[i] = cloneAst(l[0])
		}
	}
	a := Ast{ClassName: "l", Type: AstType_ListOfAst, Value: l}
	if t.P(25) { // deep instead
		a = l[0]
		for _, x := range l {
			switch t.N(3) {
			case 0:
				a = Ast{ClassName: "p", Type: AstType_AstCons, Value: AstCons{Car: x, Cdr: a}}
			case 1:
				a = Ast{ClassName: "p", Type: AstType_AstCons, Value: AstCons{Car: a, Cdr: x}}
			case 2:
				a = Ast{ClassName: "l", Type: AstType_ListOfAst, Value: AstSlice{x, a}}
			}
		}
	}
	var s AstSlice
	desc := func() string { return short(fmtAst(a), 2000) }
	t.guarded(desc, func() {
		for rep := 0; rep < 12; rep++ {
			b := cloneAst(a)
			if rep > 0 {
				if w, ok := b.Value.(AstSlice); ok && len(w) == n && t.P(70) {
					i := pick(t.Rng, []int{0, n - 1, n / 2, t.N(n)})
					w[i] = spoil(t.Rng, w[i])
					if t.P(20) { // two places exchanged
						j := t.N(n)
						w[i], w[j] = w[j], w[i]
					}
				} else {
					b = spoil(t.Rng, b)
				}
			}
			want := refEqual(a, b)
			t.Eval(2)
			if g, h := s.ItemEquals(a, b), s.ItemEquals(b, a); g != want || h != want {
				t.Failf("equal %v and %v the other way round, documented %v: %d nodes\n  a=%s\n  b=%s", g, h, want, n, desc(), short(fmtAst(b), 2000))
			}
			t.Obs(map[bool]string{true: "equal pairs", false: "unequal pairs"}[want], 1)
		}
	})
	t.Distinct(hashAsts(3, []Ast{a}))
}

func c23slice(t *T, idx int) {
	n := t.N(12)
	if t.P(3) {
		n = t.R(100, 3000)
	}
	s := make(AstSlice, 0, n+t.N(5))
	for i := 0; i < n; i++ {
		s = append(s, genAst(t.Rng, 1))
	}
	keep := cloneAsts(s)
	var sl SliceLike = s
	desc := func() string { return fmtAsts(keep) }
	is := func(x SliceLike, want []Ast, what string) {
		if x.Len() != len(want) {
			t.Failf("%s has length %d instead of %d: %s", what, x.Len(), len(want), desc())
		}
		for i := range want {
			a, ok := x.Get(i).(Ast)
			if !ok || !astEq(a, want[i], true) {
				t.Failf("%s: element %d is %v instead of %s: %s", what, i, x.Get(i), fmtAst(want[i]), desc())
			}
		}
	}
	t.guarded(desc, func() {
		t.Eval(1)
		is(sl, keep, "the slice")
		a := t.N(n + 1)
		b := a + t.N(n-a+1)
		re := sl.Reslice(a, b)
		is(re, keep[a:b], fmt.Sprintf("re-slice [%d:%d]", a, b))
		cp := sl.Copy(a, b)
		is(cp, keep[a:b], fmt.Sprintf("copy [%d:%d]", a, b))
		for i := 0; i < b-a; i++ {
			cp.Set(i, Ast{ClassName: "changed"})
		}
		is(sl, keep, "the slice after its copy was changed")
		is(re, keep[a:b], "the re-slice after the copy was changed")
		cp2 := sl.Copy(a, b)
		if w, ok := cp2.(AstSlice); ok {
			_ = append(w, Ast{ClassName: "appended"}, Ast{ClassName: "appended"})
			is(sl, keep, "the slice after something was appended to its copy")
		}
		if n > 0 {
			i := t.N(n)
			x := genAst(t.Rng, 1)
			sl.Set(i, x)
			keep[i] = cloneAst(x)
			is(sl, keep, "the slice after Set")
			if i >= a && i < b {
				if y, _ := cp2.Get(i - a).(Ast); astEq(y, x, true) != astEq(y, keep[i], true) {
					t.Failf("copy changed with the original: %s", desc())
				}
			}
			is(re, keep[a:b], "the re-slice after Set")
		}
		l := t.N(20)
		c := l + t.N(5)
		mk := sl.Make(l, c)
		if mk.Len() != l {
			t.Failf("made slice has length %d instead of %d", mk.Len(), l)
		}
		for i := 0; i < l; i++ {
			mk.Set(i, Ast{ClassName: fmt.Sprint(i)})
		}
		for i := 0; i < l; i++ {
			if y, ok := mk.Get(i).(Ast); !ok || y.ClassName != fmt.Sprint(i) {
				t.Failf("made slice element %d is %v", i, mk.Get(i))
			}
		}
		is(sl, keep, "the slice after all")
		// a copy taken earlier still shows what was there then
		is(cp2, append([]Ast(nil), keepAt(keep, a, b, cp2)...), "old copy")
	})
	t.Obs("slices", 1)
	t.Distinct(hashAsts(2, keep))
}

// keepAt: the copy must be equal to itself as recorded (its independence is judged by the writes above).
func keepAt(_ []Ast, a, b int, cp SliceLike) []Ast {
	var w []Ast
	for i := 0; i < b-a; i++ {
		w = append(w, cp.Get(i).(Ast))
	}
	return w
}

// ---- C24 ----

type boxed struct {
	I   int64
	I2  int64
	I8  int8
	U   uint64
	U16 uint16
	F   float64
	F32 float32
	B   bool
	S   string
	Y   []byte
	A   interface{}
	A2  interface{}
	L   []int64
	LS  []string
	LA  []interface{}
	Arr [4]string
	One [1]int64
	N   struct{ X, Y int64 }
	P   *int64
	M   map[string]int64
	MS  map[string]string
	MA  map[string]interface{}
	MI  map[int]interface{}
	MC  map[[2]int]interface{}
}

func newBoxed(r *Rng) *boxed {
	v := int64(r.N(100))
	b := &boxed{I: int64(r.N(9)), S: "s", Y: []byte("yy"), A: int64(3), L: make([]int64, 4), LS: []string{"a", "b", "c"}, LA: make([]interface{}, 3),
		P: &v, M: map[string]int64{"a": 1, "b": 2}, MS: map[string]string{"a": "x"}, MA: map[string]interface{}{"a": int64(1), "b": "s"},
		MI: map[int]interface{}{1: "one"}, MC: map[[2]int]interface{}{{1, 2}: "x"}}
	return b
}

func (b *boxed) clone() *boxed {
	c := *b
	c.Y = append([]byte(nil), b.Y...)
	c.L = append([]int64(nil), b.L...)
	c.LS = append([]string(nil), b.LS...)
	c.LA = append([]interface{}(nil), b.LA...)
	v := *b.P
	c.P = &v
	c.M, c.MS, c.MA, c.MI, c.MC = map[string]int64{}, map[string]string{}, map[string]interface{}{}, map[int]interface{}{}, map[[2]int]interface{}{}
	for k, v := range b.M {
		c.M[k] = v
	}
	for k, v := range b.MS {
		c.MS[k] = v
	}
	for k, v := range b.MA {
		c.MA[k] = v
	}
	for k, v := range b.MI {
		c.MI[k] = v
	}
	for k, v := range b.MC {
		c.MC[k] = v
	}
	return &c
}

// place is one addressable spot: kind tells which typed accessors suit it.
type place struct {
	name string
	kind string // int uint float bool string bytes any
	box  func(b *boxed) Box
	set  func(m *boxed, v interface{}) // direct store
	get  func(m *boxed) interface{}
	uni  bool // any typed setter allowed (map of anything)
}

func fld(name, kind string) place {
	return place{name: name, kind: kind,
		box: func(b *boxed) Box { return ReflectionBox{Val: reflect.ValueOf(b).Elem().FieldByName(name)} },
		set: func(m *boxed, v interface{}) {
			f := reflect.ValueOf(m).Elem().FieldByName(name)
			if v == nil {
				f.Set(reflect.Zero(f.Type()))
				return
			}
			f.Set(reflect.ValueOf(v).Convert(f.Type()))
		},
		get: func(m *boxed) interface{} { return reflect.ValueOf(m).Elem().FieldByName(name).Interface() },
	}
}

func boxPlaces(r *Rng) []place {
	i := r.N(4)
	i3 := r.N(3)
	k := pick(r, []string{"a", "b", "c", "", "é"})
	ki := r.N(3)
	kc := [2]int{r.N(2), r.N(3)}
	rv := func(f func(b *boxed) interface{}) func(b *boxed) reflect.Value {
		return func(b *boxed) reflect.Value { return reflect.ValueOf(f(b)).Elem() }
	}
	ps := []place{
		fld("I", "int"), fld("I2", "int"), fld("I8", "int"), fld("U", "uint"), fld("U16", "uint"), fld("F", "float"), fld("F32", "float"),
		fld("B", "bool"), fld("S", "string"), fld("Y", "bytes"), fld("A", "any"), fld("A2", "any"),
		{name: fmt.Sprintf("L[%d]", i), kind: "int", box: func(b *boxed) Box {
			return ReflectionBox{Val: rv(func(b *boxed) interface{} { return &b.L })(b)}.Index(i)
		},
			set: func(m *boxed, v interface{}) { m.L[i] = v.(int64) }, get: func(m *boxed) interface{} { return m.L[i] }},
		{name: fmt.Sprintf("LS[%d]", i3), kind: "string", box: func(b *boxed) Box { return ReflectionBox{Val: reflect.ValueOf(b.LS)}.Index(i3) },
			set: func(m *boxed, v interface{}) { m.LS[i3] = v.(string) }, get: func(m *boxed) interface{} { return m.LS[i3] }},
		{name: fmt.Sprintf("LA[%d]", i3), kind: "any", box: func(b *boxed) Box { return ReflectionBox{Val: reflect.ValueOf(b.LA)}.Index(i3) },
			set: func(m *boxed, v interface{}) { m.LA[i3] = v }, get: func(m *boxed) interface{} { return m.LA[i3] }},
		{name: fmt.Sprintf("Arr[%d]", i), kind: "string", box: func(b *boxed) Box { return ReflectionBox{Val: reflect.ValueOf(b).Elem().FieldByName("Arr")}.Index(i) },
			set: func(m *boxed, v interface{}) { m.Arr[i] = v.(string) }, get: func(m *boxed) interface{} { return m.Arr[i] }},
		{name: "One[0]", kind: "int", box: func(b *boxed) Box { return ReflectionBox{Val: reflect.ValueOf(&b.One).Elem()}.Index(0) },
			set: func(m *boxed, v interface{}) { m.One[0] = v.(int64) }, get: func(m *boxed) interface{} { return m.One[0] }},
		{name: "N.Y", kind: "int", box: func(b *boxed) Box { return ReflectionBox{Val: reflect.ValueOf(&b.N.Y).Elem()} },
			set: func(m *boxed, v interface{}) { m.N.Y = v.(int64) }, get: func(m *boxed) interface{} { return m.N.Y }},
		{name: "*P", kind: "int", box: func(b *boxed) Box { return ReflectionBox{Val: reflect.ValueOf(b.P).Elem()} },
			set: func(m *boxed, v interface{}) { *m.P = v.(int64) }, get: func(m *boxed) interface{} { return *m.P }},
		{name: fmt.Sprintf("M[%q]", k), kind: "int", box: func(b *boxed) Box {
			return MapContainerReflectionBox{Container: reflect.ValueOf(b.M), Key: reflect.ValueOf(k)}
		},
			set: func(m *boxed, v interface{}) { m.M[k] = v.(int64) }, get: func(m *boxed) interface{} { return mapGet(m.M, k) }},
		{name: fmt.Sprintf("MS[%q]", k), kind: "string", box: func(b *boxed) Box {
			return MapContainerReflectionBox{Container: reflect.ValueOf(b.MS), Key: reflect.ValueOf("q")}.MapIndex(k)
		},
			set: func(m *boxed, v interface{}) { m.MS[k] = v.(string) }, get: func(m *boxed) interface{} { return mapGet(m.MS, k) }},
		{name: fmt.Sprintf("MA[%q]", k), kind: "any", uni: true, box: func(b *boxed) Box {
			return MapContainerReflectionBox{Container: reflect.ValueOf(b.MA), Key: reflect.ValueOf(k)}
		},
			set: func(m *boxed, v interface{}) { m.MA[k] = v }, get: func(m *boxed) interface{} { return mapGet(m.MA, k) }},
		{name: fmt.Sprintf("MI[%d]", ki), kind: "any", uni: true, box: func(b *boxed) Box {
			return MapContainerReflectionBox{Container: reflect.ValueOf(b.MI), Key: reflect.ValueOf(77)}.ComplexMapIndex(ki)
		},
			set: func(m *boxed, v interface{}) { m.MI[ki] = v }, get: func(m *boxed) interface{} { return mapGet(m.MI, ki) }},
		{name: fmt.Sprintf("MC[%v]", kc), kind: "any", uni: true, box: func(b *boxed) Box {
			return MapContainerReflectionBox{Container: reflect.ValueOf(b.MC), Key: reflect.ValueOf(kc)}
		},
			set: func(m *boxed, v interface{}) { m.MC[kc] = v }, get: func(m *boxed) interface{} { return mapGet(m.MC, kc) }},
	}
	return ps
}

type absent struct{}

func mapGet[K comparable, V any](m map[K]V, k K) interface{} {
	if v, ok := m[k]; ok {
		return v
	}
	return absent{}
}

func boxValue(r *Rng, kind string, name string) interface{} {
	switch kind {
	case "int":
		if name == "I8" {
			return int64(r.R(-128, 127))
		}
		return pick(r, []int64{0, 1, -1, math.MaxInt64, math.MinInt64, int64(r.N(1000))})
	case "uint":
		if name == "U16" {
			return uint64(r.N(65536))
		}
		return pick(r, []uint64{0, 1, math.MaxUint64, uint64(r.N(1000))})
	case "float":
		if name == "F32" {
			return pick(r, []float64{0, 1.5, -2.25, float64(r.N(100)) / 4})
		}
		return pick(r, []float64{0, 1.5, -2.25, float64(r.N(100)) / 4, math.MaxFloat64, math.Inf(1), math.Inf(-1), 5e-324, 1 << 53, 0.1, math.Copysign(0, -1)})
	case "bool":
		return r.P(50)
	case "string":
		return pick(r, []string{"", "a", "日本", "x\x00y", "\xff", " ", strings.Repeat("long", 40)})
	case "bytes":
		return pick(r, [][]byte{nil, {}, []byte("a"), {0, 255}, {0}, []byte("bytes"), bytes.Repeat([]byte{7}, 100)})
	}
	if k := r.N(9); k < 6 {
		return boxValue(r, []string{"int", "uint", "float", "bool", "string", "bytes"}[k], "")
	}
	return pick(r, []interface{}{nil, []int{1}, 7, int8(0), Ast{}, Ast{ClassName: "x", Type: AstType_Int, Value: int64(1)}, AstSlice{}, AstSlice(nil), (*int)(nil),
		struct{}{}, [2]bool{true, false}, map[string]int(nil), 'x', uint(0), float32(0.5), complex(1, 2)})
}

// boxSet stores through the box by the accessor for the value's own kind, or as any.
func boxSet(r *Rng, b Box, pl place, v interface{}) string {
	if v == nil || pl.kind == "any" && !pl.uni || (pl.kind == "any" && r.P(40)) {
		b.SetAny(v)
		return "SetAny"
	}
	switch x := v.(type) {
	case int64:
		b.SetInt(x)
		return "SetInt"
	case uint64:
		b.SetUint(x)
		return "SetUint"
	case float64:
		b.SetFloat(x)
		return "SetFloat"
	case bool:
		b.SetBool(x)
		return "SetBool"
	case string:
		b.SetString(x)
		return "SetString"
	case []byte:
		b.SetBytes(x)
		return "SetBytes"
	}
	b.SetAny(v)
	return "SetAny"
}

// sameBits: deeply equal, and floating-point numbers the same representation (a negative zero is not a zero, a NaN is a NaN).
func sameBits(a, b interface{}) bool {
	if x, ok := a.(float64); ok {
		y, ok := b.(float64)
		return ok && math.Float64bits(x) == math.Float64bits(y)
	}
	return reflect.DeepEqual(a, b)
}

func boxCheck(t *T, b Box, want interface{}, what func() string) {
	got := b.GetAny()
	if !sameBits(got, want) {
		t.Failf("GetAny gives %#v instead of %#v: %s", got, want, what())
	}
	t.Obs("reads", 1)
	switch x := want.(type) {
	case int64, int8:
		if g := b.GetInt(); g != reflect.ValueOf(x).Int() {
			t.Failf("GetInt gives %d instead of %v: %s", g, x, what())
		}
	case uint64, uint16:
		if g := b.GetUint(); g != reflect.ValueOf(x).Uint() {
			t.Failf("GetUint gives %d instead of %v: %s", g, x, what())
		}
	case float64, float32:
		if g := b.GetFloat(); !sameBits(g, reflect.ValueOf(x).Float()) {
			t.Failf("GetFloat gives %v instead of %v: %s", g, x, what())
		}
	case bool:
		if g := b.GetBool(); g != x {
			t.Failf("GetBool gives %v: %s", g, what())
		}
	case string:
		if g := b.GetString(); g != x {
			t.Failf("GetString gives %q instead of %q: %s", g, x, what())
		}
	case []byte:
		if g := b.GetBytes(); string(g) != string(x) {
			t.Failf("GetBytes gives %q instead of %q: %s", g, x, what())
		}
	}
}

func c24boxes(t *T, idx int) {
	real := newBoxed(t.Rng)
	model := real.clone()
	var log []string
	what := func() string { return strings.Join(log, "; ") }
	places := boxPlaces(t.Rng)
	boxes := make([][]Box, len(places))
	for i, p := range places {
		boxes[i] = []Box{p.box(real), p.box(real)}
	}
	t.guarded(what, func() {
		for step := 0; step < 25; step++ {
			i := t.N(len(places))
			p := places[i]
			v := boxValue(t.Rng, p.kind, p.name)
			switch t.N(4) {
			case 0:
				log = append(log, fmt.Sprintf("%s = %#v directly", p.name, v))
				p.set(real, v)
				p.set(model, v)
			default:
				b := boxes[i][t.N(2)]
				if t.P(20) {
					b = p.box(real)
				}
				log = append(log, fmt.Sprintf("%s = %#v through a box", p.name, v))
				how := ""
				if t.P(15) && reflect.TypeOf(p.get(model)) == reflect.TypeOf(v) && v != nil {
					b.SetAny(v)
					how = "SetAny"
				} else {
					how = boxSet(t.Rng, b, p, v)
				}
				t.Obs("stores."+how, 1)
				log[len(log)-1] += " (" + how + ")"
				p.set(model, v)
			}
			t.Eval(1)
			if !reflect.DeepEqual(real, model) {
				t.Failf("stored %s, now all places read %+v instead of %+v", what(), *real, *model)
			}
			for j, q := range places {
				if j != i && !t.P(20) {
					continue
				}
				want := q.get(model)
				if want == (absent{}) {
					continue
				}
				boxCheck(t, boxes[j][t.N(2)], want, what)
				boxCheck(t, q.box(real), want, what)
			}
		}
	})
	t.DistinctS(what())
	t.Sample(func() string { return short(what(), 300) })
}

// c24unset: a declared but unset entry refuses every way of reading it.
func c24unset(t *T, idx int) {
	m := map[string]interface{}{"other": int64(1)}
	key := pick(t.Rng, []string{"x", "other", ""})
	if key == "x" && t.P(50) {
		m["x"] = int64(9)
	}
	keep := map[string]interface{}{}
	for k, v := range m {
		keep[k] = v
	}
	b := &NotInitializedMapContainerReflectionBox{Container: reflect.ValueOf(m), Key: reflect.ValueOf(key)}
	reads := map[string]func(){
		"GetAny": func() { b.GetAny() }, "GetInt": func() { b.GetInt() }, "GetUint": func() { b.GetUint() }, "GetFloat": func() { b.GetFloat() },
		"GetBool": func() { b.GetBool() }, "GetString": func() { b.GetString() }, "GetBytes": func() { b.GetBytes() },
	}
	refuses := func(name string, f func()) (no bool) {
		defer func() { no = recover() != nil }()
		f()
		return
	}
	for name, f := range reads {
		// with a value of the right kind lying in the map already, only the declaration forbids the reading
		switch name {
		case "GetUint":
			m[key] = uint64(1)
		case "GetFloat":
			m[key] = 1.5
		case "GetBool":
			m[key] = true
		case "GetString":
			m[key] = "s"
		case "GetBytes":
			m[key] = []byte("b")
		default:
			m[key] = int64(1)
		}
		t.Eval(1)
		if !refuses(name, f) {
			t.Failf("%s reads an entry (%q) that was never set through the box", name, key)
		}
		t.Obs("refusals", 1)
	}
	for k := range m {
		delete(m, k)
	}
	for k, v := range keep {
		m[k] = v
	}
	p := place{kind: "any", uni: true}
	for i := 0; i < 6; i++ {
		v := boxValue(t.Rng, "any", "")
		if i == 0 && t.P(60) {
			v = []interface{}{int64(1), uint64(2), 0.5, true, "s", []byte("b"), nil}[idx%7]
		} else if i == 0 && t.P(60) { // what reads as nothing is a value, too
			v = []interface{}{int64(0), uint64(0), 0.0, false, "", []byte{}, []byte(nil), nil, 0, (*int)(nil), Ast{}, AstSlice(nil)}[idx%12]
		}
		t.Obs("first stores into unset entries", b2i(i == 0))
		desc := func() string { return fmt.Sprintf("entry %q set to %#v through a box declared unset", key, v) }
		t.guarded(desc, func() {
			how := boxSet(t.Rng, b, p, v)
			keep[key] = v
			if !reflect.DeepEqual(m, keep) {
				t.Failf("%s (%s): the map is %v", desc(), how, m)
			}
			boxCheck(t, b, v, desc)
			boxCheck(t, MapContainerReflectionBox{Container: reflect.ValueOf(m), Key: reflect.ValueOf(key)}, v, desc)
			x := boxValue(t.Rng, "any", "")
			m[key] = x
			keep[key] = x
			boxCheck(t, b, x, func() string { return desc() + ", then changed directly" })
			if w := b.MapIndex("other").GetAny(); !reflect.DeepEqual(w, keep["other"]) {
				t.Failf("MapIndex reads %v: %s", w, desc())
			}
			if w := b.ComplexMapIndex("other").GetAny(); !reflect.DeepEqual(w, keep["other"]) {
				t.Failf("ComplexMapIndex reads %v: %s", w, desc())
			}
		})
	}
	t.DistinctS(fmt.Sprint(key, keep))
}

// c24typed: unset entries of maps of one kind, with keys of any kind.
func c24typed(t *T, idx int) {
	key := pick(t.Rng, []interface{}{"k", "", 0, 1, int64(-1), [2]int{1, 2}, true, 'x', 1.5, struct{ A string }{"s"}})
	kind := []string{"int", "uint", "float", "bool", "string", "bytes"}[idx%6]
	elem := map[string]reflect.Type{"int": reflect.TypeOf(int64(0)), "uint": reflect.TypeOf(uint64(0)), "float": reflect.TypeOf(0.0), "bool": reflect.TypeOf(false),
		"string": reflect.TypeOf(""), "bytes": reflect.TypeOf([]byte(nil))}[kind]
	kv := reflect.ValueOf(key)
	m := reflect.MakeMap(reflect.MapOf(kv.Type(), elem))
	model := reflect.MakeMap(m.Type())
	put := func(v interface{}) {
		m.SetMapIndex(kv, reflect.ValueOf(v))
		model.SetMapIndex(kv, reflect.ValueOf(v))
	}
	if t.P(50) {
		put(boxValue(t.Rng, kind, ""))
	}
	boxes := []Box{}
	for i := 0; i < 2; i++ {
		boxes = append(boxes, &NotInitializedMapContainerReflectionBox{Container: m, Key: kv})
	}
	set := [2]bool{}
	plain := MapContainerReflectionBox{Container: m, Key: reflect.Zero(kv.Type())}.ComplexMapIndex(key)
	log := []string{fmt.Sprintf("map of %s with key %#v, first %v", kind, key, m.Interface())}
	what := func() string { return strings.Join(log, "; ") }
	read := func(b Box) {
		b.GetAny()
	}
	typed := map[string]func(b Box){"int": func(b Box) { b.GetInt() }, "uint": func(b Box) { b.GetUint() }, "float": func(b Box) { b.GetFloat() },
		"bool": func(b Box) { b.GetBool() }, "string": func(b Box) { b.GetString() }, "bytes": func(b Box) { b.GetBytes() }}[kind]
	panics := func(f func(b Box), b Box) (p bool) {
		defer func() { p = recover() != nil }()
		f(b)
		return
	}
	wrong := map[string]func(b Box){"SetInt": func(b Box) { b.SetInt(1) }, "SetUint": func(b Box) { b.SetUint(1) }, "SetFloat": func(b Box) { b.SetFloat(1.5) },
		"SetBool": func(b Box) { b.SetBool(true) }, "SetString": func(b Box) { b.SetString("s") }, "SetBytes": func(b Box) { b.SetBytes([]byte("b")) },
		"SetAny": func(b Box) { b.SetAny(struct{ X chan int }{}) }}
	t.guarded(what, func() {
		for step := 0; step < 8; step++ {
			v := boxValue(t.Rng, kind, "")
			who := t.N(4)
			if t.P(40) { // a store of another kind fails and leaves everything as it was
				i := t.N(2)
				name := pick(t.Rng, []string{"SetInt", "SetUint", "SetFloat", "SetBool", "SetString", "SetBytes", "SetAny"})
				if !strings.EqualFold(name, "set"+kind) {
					log = append(log, fmt.Sprintf("%d tries %s", i, name))
					if panics(wrong[name], boxes[i]) {
						t.Obs("failed stores", 1)
					} else {
						return // not documented either way
					}
					if !reflect.DeepEqual(m.Interface(), model.Interface()) {
						t.Failf("a failed store left the map %v instead of %v: %s", m.Interface(), model.Interface(), what())
					}
					if !set[i] && (!panics(read, boxes[i]) || !panics(typed, boxes[i])) {
						t.Failf("box %d reads an entry that was never set through it: %s", i, what())
					}
				}
			}
			log = append(log, fmt.Sprintf("%d stores %#v", who, v))
			var b Box = plain
			if who < 2 {
				b = boxes[who]
				set[who] = true
			}
			if who == 3 {
				put(v)
			} else if t.P(40) {
				b.SetAny(v)
			} else {
				boxSet(t.Rng, b, place{kind: kind}, v)
			}
			model.SetMapIndex(kv, reflect.ValueOf(v))
			t.Eval(1)
			if !reflect.DeepEqual(m.Interface(), model.Interface()) {
				t.Failf("the map is %v instead of %v: %s", m.Interface(), model.Interface(), what())
			}
			for i, b := range boxes {
				if set[i] {
					boxCheck(t, b, v, what)
					continue
				}
				if !panics(read, b) || !panics(typed, b) {
					t.Failf("box %d reads an entry that was never set through it: %s", i, what())
				}
				t.Obs("refusals", 2)
			}
			boxCheck(t, plain, v, what)
		}
	})
	t.DistinctS(what())
}

// c24session: many boxes over the entries of one map, kept over a history of stores by all of them.
func c24session(t *T, idx int) {
	type name string
	keys := pick(t.Rng, [][]interface{}{
		{"a", "b", "", "é", "a\x00"}, {0, 1, -1, 7, 1 << 30}, {int64(0), int64(1), int64(-1), int64(2), int64(3)}, {uint8(0), uint8(1), uint8(255), uint8(2), uint8(3)},
		{0.0, 1.5, -1.5, 1e300, 2.0}, {true, false, true, false, true}, {'a', 'b', 'é', rune(0), '日'}, {[2]int{1, 2}, [2]int{2, 1}, [2]int{}, [2]int{1, 1}, [2]int{3, 3}},
		{struct{ A, B string }{"x", "y"}, struct{ A, B string }{"y", "x"}, struct{ A, B string }{}, struct{ A, B string }{"xy", ""}, struct{ A, B string }{"", "xy"}},
		{name("a"), name("b"), name(""), name("c"), name("d")}, {"1", 1, int64(1), 1.0, '1'}})
	kt := reflect.TypeOf(keys[0])
	for _, k := range keys {
		if reflect.TypeOf(k) != kt {
			kt = reflect.TypeOf((*interface{})(nil)).Elem()
			break
		}
	}
	kind := pick(t.Rng, []string{"any", "any", "int", "uint", "float", "bool", "string", "bytes"})
	elem := map[string]reflect.Type{"int": reflect.TypeOf(int64(0)), "uint": reflect.TypeOf(uint64(0)), "float": reflect.TypeOf(0.0), "bool": reflect.TypeOf(false),
		"string": reflect.TypeOf(""), "bytes": reflect.TypeOf([]byte(nil)), "any": reflect.TypeOf((*interface{})(nil)).Elem()}[kind]
	rm := reflect.MakeMap(reflect.MapOf(kt, elem))
	model := map[interface{}]interface{}{}
	put := func(k, v interface{}) {
		w := reflect.ValueOf(v)
		if v == nil {
			w = reflect.Zero(elem)
		}
		rm.SetMapIndex(reflect.ValueOf(k), w)
	}
	type held struct {
		b     Box
		k     interface{}
		unset bool // declared, not yet set
		how   string
	}
	var boxes []*held
	log := []string{fmt.Sprintf("%v", rm.Type())}
	what := func() string { return strings.Join(log, "; ") }
	panics := func(f func()) (p bool) {
		defer func() { p = recover() != nil }()
		f()
		return
	}
	pl := place{kind: kind, uni: true}
	t.guarded(what, func() {
		for step := 0; step < 30; step++ {
			k := pick(t.Rng, keys)
			v := boxValue(t.Rng, kind, "")
			switch op := t.W(12, 8, 12, 10, 5, 40); {
			case op == 0 || len(boxes) == 0:
				boxes = append(boxes, &held{&NotInitializedMapContainerReflectionBox{Container: rm, Key: reflect.ValueOf(k)}, k, true, fmt.Sprintf("declared %#v", k)})
			case op == 1:
				boxes = append(boxes, &held{MapContainerReflectionBox{Container: rm, Key: reflect.ValueOf(k)}, k, false, fmt.Sprintf("entry %#v", k)})
			case op == 2:
				h := pick(t.Rng, boxes)
				if h.unset {
					if !panics(func() { h.b.ComplexMapIndex(k) }) || !panics(func() { h.b.MapIndex("a") }) {
						t.Failf("another entry is reached through an entry (%s) that was never set: %s", h.how, what())
					}
					t.Obs("refusals", 2)
					continue
				}
				n := &held{k: k, how: fmt.Sprintf("entry %#v by way of (%s)", k, h.how)}
				if x, ok := k.(string); ok && t.P(50) {
					n.b = h.b.MapIndex(x)
				} else {
					n.b = h.b.ComplexMapIndex(k)
				}
				boxes = append(boxes, n)
			case op == 3:
				put(k, v)
				model[k] = v
				log = append(log, fmt.Sprintf("[%#v] = %#v", k, v))
			case op == 4:
				rm.SetMapIndex(reflect.ValueOf(k), reflect.Value{})
				delete(model, k)
				log = append(log, fmt.Sprintf("delete %#v", k))
			default:
				h := pick(t.Rng, boxes)
				log = append(log, fmt.Sprintf("%s = %#v", h.how, v))
				how := ""
				if t.P(30) {
					h.b.SetAny(v)
					how = "SetAny"
				} else {
					how = boxSet(t.Rng, h.b, pl, v)
				}
				log[len(log)-1] += " by " + how
				h.unset = false
				model[h.k] = v
				t.Obs("stores."+how, 1)
			}
			t.Eval(1)
			if rm.Len() != len(model) {
				t.Failf("the map has %d entries instead of %d: %v after %s", rm.Len(), len(model), rm, what())
			}
			for _, k := range keys {
				want, ok := model[k]
				got := rm.MapIndex(reflect.ValueOf(k))
				if got.IsValid() != ok || ok && !sameBits(got.Interface(), want) {
					t.Failf("the map is %v, entry %#v should be %#v: %s", rm, k, want, what())
				}
				if ok {
					var b Box = ReflectionBox{Val: rm}
					if x, is := k.(string); is && kt.Kind() == reflect.String && t.P(50) {
						b = b.MapIndex(x)
					} else {
						b = b.ComplexMapIndex(k)
					}
					if got := b.GetAny(); !sameBits(got, want) {
						t.Failf("the map's entry %#v reads %#v instead of %#v: %s", k, got, want, what())
					}
				}
			}
			for _, h := range boxes {
				want, ok := model[h.k]
				if h.unset {
					get := []func(){func() { h.b.GetAny() }, func() { h.b.GetInt() }, func() { h.b.GetUint() }, func() { h.b.GetFloat() }, func() { h.b.GetBool() }, func() { h.b.GetString() }, func() { h.b.GetBytes() }}[t.N(7)]
					if !panics(get) {
						t.Failf("%s reads an entry that was never set through it: %s", h.how, what())
					}
					t.Obs("refusals", 1)
				} else if ok {
					boxCheck(t, h.b, want, func() string { return h.how + ": " + what() })
				}
			}
		}
	})
	t.DistinctS(what())
	t.Sample(func() string { return short(what(), 300) })
}

// c24keys: element and key access of a box over a list, array or map.
func c24keys(t *T, idx int) {
	n := t.R(1, 6)
	list := make([]int64, n)
	any := make([]interface{}, n)
	ms := map[string]int64{}
	mi := map[int]string{}
	nest := map[string]map[string]int64{"a": {}}
	for i := range list {
		list[i] = int64(t.N(100))
		any[i] = list[i]
		ms[fmt.Sprint("k", i)] = list[i]
		mi[i] = fmt.Sprint("v", i)
		nest["a"][fmt.Sprint("k", i)] = list[i]
	}
	i := t.N(n)
	k := fmt.Sprint("k", i)
	eqs := func(name string, got, want interface{}) {
		t.Eval(1)
		t.Obs("reads", 1)
		if !reflect.DeepEqual(got, want) {
			t.Failf("%s reads %v instead of %v (list %v)", name, got, want, list)
		}
	}
	t.guarded(func() string { return fmt.Sprintf("element access %d of %v", i, list) }, func() {
		eqs("Index", ReflectionBox{Val: reflect.ValueOf(list)}.Index(i).GetInt(), list[i])
		eqs("Index", ReflectionBox{Val: reflect.ValueOf(any)}.Index(i).GetAny(), any[i])
		eqs("MapIndex", ReflectionBox{Val: reflect.ValueOf(ms)}.MapIndex(k).GetInt(), list[i])
		eqs("ComplexMapIndex", ReflectionBox{Val: reflect.ValueOf(mi)}.ComplexMapIndex(i).GetString(), mi[i])
		eqs("MapIndex.MapIndex", ReflectionBox{Val: reflect.ValueOf(nest)}.MapIndex("a").MapIndex(k).GetInt(), list[i])
		eqs("container MapIndex", MapContainerReflectionBox{Container: reflect.ValueOf(ms), Key: reflect.ValueOf("k0")}.MapIndex(k).GetInt(), list[i])
		eqs("container ComplexMapIndex", MapContainerReflectionBox{Container: reflect.ValueOf(mi), Key: reflect.ValueOf(0)}.ComplexMapIndex(i).GetString(), mi[i])
		v := int64(t.N(1000) + 1000)
		ReflectionBox{Val: reflect.ValueOf(list)}.Index(i).SetInt(v)
		for j := range list {
			if (list[j] == v) != (j == i) {
				t.Failf("Index(%d).SetInt(%d) made the list %v", i, v, list)
			}
		}
		MapContainerReflectionBox{Container: reflect.ValueOf(ms), Key: reflect.ValueOf("k0")}.MapIndex(k).SetInt(v)
		for j := range list {
			if (ms[fmt.Sprint("k", j)] == v) != (j == i) {
				t.Failf("MapIndex(%q).SetInt(%d) made the map %v", k, v, ms)
			}
		}
		t.Obs("stores.SetInt", 2)
	})
}

func init() {
	register(&Prop{
		ID:   "C10",
		Rule: "a case is a random source of one of nine element kinds with equalities of their own, watched for reads outside it, or a random grammar over objects; non-trivial if there are at least two elements",
		MinObs: map[string]int64{"accepted.Seq": 2000, "rejected.Seq": 2000, "accepted.ObjClass": 2000, "accepted.ObjClassN": 2000, "accepted.End": 5000,
			"rejected.Any": 2000, "matched.Seq": 1000},
		Assume: []string{"the source's equality is symmetric"},
		Stages: func(tier string) []Stage {
			return []Stage{
				{Name: "matchers", N: stagesN(tier, 20000), Fn: c10match},
				{Name: "grammars", N: stagesN(tier, 10000), Fn: c10grammar},
			}
		},
	})
	mins := map[string]int64{"applied.ToSlice": 500}
	for _, k := range stockTr {
		mins["applied."+trNames[k]] = 1000
	}
	register(&Prop{
		ID:     "C11",
		Rule:   "a case is a stock transformer on a random list lying within a larger list, applied three times, or a random grammar full of transformers; non-trivial if the list has at least two nodes",
		MinObs: mins,
		Stages: func(tier string) []Stage {
			return []Stage{
				{Name: "lists", N: stagesN(tier, 45000), Fn: c11list},
				{Name: "roll", N: 40, Fn: c11roll},
				{Name: "slices", N: stagesN(tier, 2000), Fn: c11slice},
				{Name: "grammars", N: stagesN(tier, 10000), Fn: c11grammar},
			}
		},
	})
	register(&Prop{
		ID:     "C16",
		Rule:   "a case is a random set of rewriting rules, or of operators with precedences, on a random node list; non-trivial if at least two reductions are made",
		MinObs: map[string]int64{"reductions": 20000, "goal met": 2000, "stuck": 2000, "rule failed": 300, "expressions": 5000},
		Assume: []string{"lists that meet the goal while a rule still applies are not judged: whether the goal is tried before the first reduction is not documented"},
		Stages: func(tier string) []Stage {
			return []Stage{
				{Name: "rewriting", N: stagesN(tier, 12000), Fn: c16rewrite},
				{Name: "operators", N: stagesN(tier, 10000), Fn: c16expr},
				{Name: "long", N: stagesN(tier, 40), Fn: c16long},
				{Name: "steps", N: stagesN(tier, 40), Fn: c16steps},
			}
		},
	})
	register(&Prop{
		ID:     "C20",
		Race:   true,
		Rule:   "a case is a random tree with callbacks that replace, rename, skip, jump, fail or throw at random nodes; non-trivial if more than four calls are made",
		MinObs: map[string]int64{"event there": 50000, "event back": 50000, "event failed child": 1500, "trees rebuilt": 5000, "stopped traversals": 1000},
		Assume: []string{"a node declared a pair or list holds one", "built with the race detector and its pointer checks", "jumps to before the first item are not judged"},
		Stages: func(tier string) []Stage {
			return []Stage{
				{Name: "random", N: stagesN(tier, 20000), Fn: c20random},
				{Name: "big", N: 64, Fn: c20big},
			}
		},
	})
	register(&Prop{
		ID:     "C23",
		Rule:   "a case is a node, a copy with up to two small changes and a further copy, or a node slice under random operations; all are non-trivial",
		MinObs: map[string]int64{"equal pairs": 50000, "unequal pairs": 20000, "slices": 2000},
		Assume: []string{"values are equal to themselves (no NaN); a node declared a pair or list holds one"},
		Stages: func(tier string) []Stage {
			return []Stage{
				{Name: "equality", N: stagesN(tier, 30000), Fn: c23equal},
				{Name: "slices", N: stagesN(tier, 6000), Fn: c23slice},
				{Name: "long", N: stagesN(tier, 199), Fn: c23long},
			}
		},
	})
	register(&Prop{
		ID:     "C24",
		Rule:   "a case is a sequence of 25 stores, direct or through boxes, over 21 places, all places compared with a model after each; all are non-trivial",
		MinObs: map[string]int64{"reads": 200000, "refusals": 5000, "stores.SetInt": 5000, "stores.SetAny": 5000, "stores.SetBytes": 1000},
		Assume: []string{"typed setters are used on places of that kind (or maps of anything), with values that fit"},
		Stages: func(tier string) []Stage {
			return []Stage{
				{Name: "places", N: stagesN(tier, 4000), Fn: c24boxes},
				{Name: "unset", N: stagesN(tier, 1500), Fn: c24unset},
				{Name: "keys", N: stagesN(tier, 3000), Fn: c24keys},
				{Name: "typed", N: stagesN(tier, 3000), Fn: c24typed},
				{Name: "session", N: stagesN(tier, 6000), Fn: c24session},
			}
		},
	})
}

var _ = strp.Any
