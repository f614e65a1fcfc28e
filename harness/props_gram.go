package main

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"

	. "github.com/shellyln/takenoco/base"
	"github.com/shellyln/takenoco/extra"
	strp "github.com/shellyln/takenoco/string"
)

// ---- C28: case matching ----

func anyAst(v interface{}) Ast { return Ast{ClassName: "v", Type: AstType_Any, Value: v} }

var c28pool = []interface{}{
	"", "a", "b", "é", "aa", "A", "a\x00", "e\u0301", "a ",
	int64(1<<32 + 1), int64(-1<<32 + 1), int64(1<<53 + 1), int64(1 << 53), int64(97 + 256), uint64(1<<32 + 1), uint64(1<<63 + 1), rune(97 + 256), 1 + 0x1p-52, 0x1p53,
	int64(0), int64(1), int64(-1), int64(97), int64(math.MaxInt64), int64(math.MinInt64),
	uint64(0), uint64(1), uint64(97), uint64(math.MaxUint64),
	rune(0), rune(1), rune(97), rune(0x10ffff), rune(-1),
	0.0, math.Copysign(0, -1), 1.0, 97.0, math.NaN(), math.Inf(1),
	true, false, nil, int(1), int(97), uint8(97), float32(1), int16(1), uint32(97), uint(1),
	AstSlice{}, AstSlice{{Value: int64(1)}}, []int{1}, []int{}, []int(nil), map[string]int{"a": 1}, &struct{ A int }{1}, struct{ A int }{1},
	AstCons{Car: Ast{Value: "a"}}, []byte("a"), error(nil), [1]int{1},
}

// sameValue: equality of the two values as the documentation has it (same kind, same value).
func sameValue(x, y interface{}) bool {
	switch a := x.(type) {
	case nil:
		return y == nil
	case string:
		b, ok := y.(string)
		return ok && a == b
	case int64:
		b, ok := y.(int64)
		return ok && a == b
	case uint64:
		b, ok := y.(uint64)
		return ok && a == b
	case rune:
		b, ok := y.(rune)
		return ok && a == b
	case float64:
		b, ok := y.(float64)
		return ok && a == b
	case bool:
		b, ok := y.(bool)
		return ok && a == b
	}
	return reflect.DeepEqual(x, y)
}

func c28stock(t *T, idx int) {
	kind := idx % 7
	names := []string{"TopIsStr", "TopIsInt", "TopIsUint", "TopIsRune", "TopIsFloat", "TopIsBool", "TopIs"}
	for rep := 0; rep < 20; rep++ {
		var vals []interface{}
		var fn MatchCaseIfFn
		n := t.W(10, 40, 30, 20, 5)
		if t.P(3) {
			n = t.R(20, 60)
		}
		tops := append([]interface{}{}, c28pool...)
		pool := c28pool
		if t.P(20) { // many values, next to one that is not among them
			n = pick(t.Rng, largeSizes)
			x := []interface{}{"val", int64(t.N(5)), uint64(t.N(5)), rune('a' + t.N(5)), float64(t.N(5)), true, nil}[kind]
			if kind == 6 {
				x = pick(t.Rng, []interface{}{"val", int64(t.N(5)), uint64(t.N(5)), rune('a' + t.N(5)), float64(t.N(5)), nil, AstSlice{{Value: int64(1)}}})
			}
			pool = nil
			for i := 0; i < n; i++ {
				y := []interface{}{fmt.Sprint("v", i), int64(100 + i), uint64(100 + i), rune(0x4e00 + i), 100.5 + float64(i), true, i}[kind]
				if t.P(15) {
					if z := nearValue(t.Rng, x); !sameValue(x, z) {
						y = z
					}
				}
				pool = append(pool, y)
			}
			tops = append([]interface{}{x, pool[t.N(len(pool))], pool[len(pool)-1], pool[0]}, c28pool...)
		}
		for len(vals) < n {
			v := pick(t.Rng, pool)
			if len(pool) == n && len(c28pool) != n {
				v = pool[len(vals)]
			}
			ok := kind == 6
			switch v.(type) {
			case string:
				ok = ok || kind == 0
			case int64:
				ok = ok || kind == 1
			case uint64:
				ok = ok || kind == 2
			case rune:
				ok = ok || kind == 3
			case float64:
				ok = ok || kind == 4
			case bool:
				ok = ok || kind == 5
			}
			if ok {
				vals = append(vals, v)
			}
		}
		switch kind {
		case 0:
			fn = TopIsStr(castAll[string](vals)...)
		case 1:
			fn = TopIsInt(castAll[int64](vals)...)
		case 2:
			fn = TopIsUint(castAll[uint64](vals)...)
		case 3:
			fn = TopIsRune(castAll[rune](vals)...)
		case 4:
			fn = TopIsFloat(castAll[float64](vals)...)
		case 5:
			fn = TopIsBool(castAll[bool](vals)...)
		case 6:
			fn = TopIs(own(vals)...)
		}
		for _, top := range tops {
			var stack AstSlice
			for i := t.N(3); i > 0; i-- {
				stack = append(stack, anyAst(pick(t.Rng, c28pool)))
			}
			stack = append(stack, Ast{ClassName: pick(t.Rng, []string{"", "x"}), Type: AstType(t.N(12)), Value: top})
			want := false
			for _, v := range vals {
				want = want || sameValue(top, v)
			}
			t.Eval(1)
			t.guarded(func() string { return fmt.Sprintf("%s(%v) on %T %v", names[kind], vals, top, top) }, func() {
				got := fn(stack)
				if got != want {
					t.Failf("%s(%#v) says %v for a topmost node of value %#v (%T)", names[kind], vals, got, top, top)
				}
			})
			if want {
				t.Obs("accepted."+names[kind], 1)
			}
			t.Obs("stock tests", 1)
		}
		if fn(nil) || fn(AstSlice{}) {
			t.Failf("%s(%v) accepts although there is no node", names[kind], vals)
		}
		t.DistinctS(fmt.Sprint(kind, vals))
	}
	if !TopIsAny(nil) || !TopIsAny(AstSlice{{Value: 1}}) {
		t.Failf("TopIsAny does not accept")
	}
}

func c28direct(t *T, idx int) {
	depth := t.W(10, 15, 15, 15, 15, 10, 10, 5, 5)
	if t.P(2) {
		depth = t.R(100, 3000)
	}
	n := t.N(depth + 4)
	if t.P(5) {
		n = math.MaxInt32
	}
	src := "some text"
	pos := t.N(len(src))
	var stack AstSlice
	for i := 0; i < depth; i++ {
		stack = append(stack, genAst(t.Rng, 2))
	}
	p := &Profile{}
	var specs []CaseSpec
	for i := t.R(1, 5); i > 0; i-- {
		c := genCase(t.Rng, p)
		if t.P(40) && depth > 0 {
			v := stack[depth-1].Value
			c.Test, c.Vals = "is", []interface{}{v}
			if t.P(50) { // a stock test of its own kind, for it or for what is close to it
				switch v.(type) {
				case string:
					c.Test = "str"
				case int64:
					c.Test = "int"
				case uint64:
					c.Test = "uint"
				case float64:
					c.Test = "float"
				case bool:
					c.Test = "bool"
				case rune:
					c.Test = "rune"
				}
				if c.Test != "is" || t.P(30) {
					c.Vals = nil
					for k := t.R(1, 3); k > 0; k-- {
						c.Vals = append(c.Vals, nearValue(t.Rng, v))
					}
					if t.P(20) {
						c.Vals[t.N(len(c.Vals))] = v
					}
					if t.P(20) {
						c.enlarge(t.Rng, pick(t.Rng, largeSizes))
					}
				}
			}
		}
		specs = append(specs, c)
	}
	if t.P(3) {
		specs = nil
	}
	desc := func() string { return fmt.Sprintf("Match(%d)%v over %s", n, specs, fmtAsts(stack)) }
	var calls []int
	var seen []string
	var cases []Case
	for i, c := range specs {
		i, test := i, c.build()
		var let []TransformerFn
		for _, tr := range c.Let {
			fn := tr.build()
			let = append(let, func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
				if ctx.Tag != "tag" || ctx.Str != src {
					seen = append(seen, "rewrite got another tag or source")
				}
				return fn(ctx, asts)
			})
		}
		cases = append(cases, Case{If: func(asts AstSlice) bool {
			calls = append(calls, i)
			if !astsEq(asts, stack, true) {
				seen = append(seen, fmt.Sprintf("test %d saw %s", i, fmtAsts(asts)))
			}
			return test(asts)
		}, Let: let})
	}
	wantCase := -1
	var top *Ast
	if depth > 0 {
		top = &stack[depth-1]
	}
	for i, c := range specs {
		if c.ref(top) {
			wantCase = i
			break
		}
	}
	base := max(depth-n, 0)
	if n > depth {
		base = 0
	}
	want := cloneAsts(stack)
	var wantErr error
	if wantCase >= 0 {
		list := cloneAsts(stack[base:])
		for _, tr := range specs[wantCase].Let {
			list, wantErr = tr.ref(list)
			if wantErr != nil {
				break
			}
		}
		want = append(want[:base:base], list...)
	}
	t.Eval(1)
	t.guarded(desc, func() {
		parser := Match(n)(own(cases)...)
		for rep := 0; rep < 2; rep++ {
			calls, seen = nil, nil
			ctx := strp.NewStringParserContextWithTag(src, "tag")
			ctx.Position = pos
			for _, a := range stack {
				ctx.AstStack = append(ctx.AstStack, cloneAst(a))
			}
			o := outOf(parser(*ctx))
			if len(seen) > 0 {
				t.Failf("%s\n  %s", seen[0], desc())
			}
			nc := wantCase + 1
			if wantCase < 0 {
				nc = len(specs)
			}
			if len(calls) != nc {
				t.Failf("tests called: %v; documented: the first %d\n  %s", calls, nc, desc())
			}
			for i, c := range calls {
				if i != c {
					t.Failf("tests called in order %v\n  %s", calls, desc())
				}
			}
			switch {
			case wantCase < 0:
				t.Obs("no case fits", 1)
				if o.St != MatchStatus_Unmatched {
					t.Failf("no case fits, yet %v\n  %s", o, desc())
				}
				if !astsEq(ctx.AstStack, stack, true) {
					t.Failf("no case fits, yet the nodes became %s\n  %s", fmtAsts(ctx.AstStack), desc())
				}
			case wantErr != nil:
				t.Obs("rewrite fails", 1)
				if o.St != MatchStatus_Error || o.Err == nil || o.Err == errMute {
					t.Failf("the rewrite failed, yet %v\n  %s", o, desc())
				}
				if wantErr != errSome && o.Err.Error() != wantErr.Error() {
					t.Failf("error %v instead of %v\n  %s", o.Err, wantErr, desc())
				}
			default:
				t.Obs("case fits", 1)
				if o.St != MatchStatus_Matched || o.Ctx.Position != pos {
					t.Failf("case %d fits, yet %v (position %d)\n  %s", wantCase, o, pos, desc())
				}
				if len(o.Ctx.AstStack) < base || !astsEq(o.Ctx.AstStack[:base], stack[:base], true) {
					t.Failf("the %d nodes beneath were touched: %s\n  %s", base, fmtAsts(o.Ctx.AstStack), desc())
				}
				if !astsEq(o.Ctx.AstStack, want, false) {
					t.Failf("case %d gives %s instead of %s\n  %s", wantCase, fmtAsts(o.Ctx.AstStack), fmtAsts(want), desc())
				}
			}
		}
	})
	if wantCase >= 0 && depth > 0 {
		t.Distinct(hashAsts(hashStr(uint64(n), fmt.Sprint(specs)), stack))
	}
	t.Sample(desc)
}

// ---- C29: deferred parsers ----

// inline replaces every reference by a copy of its (non-recursive) rule.
func inline(m *Gram, g *G) *G {
	if g.K == KInd {
		return inline(m, m.Rules[g.Rule])
	}
	w := *g
	w.Ch = nil
	for _, c := range g.Ch {
		w.Ch = append(w.Ch, inline(m, c))
	}
	return &w
}

func hasInd(g *G) bool {
	if g.K == KInd {
		return true
	}
	for _, c := range g.Ch {
		if hasInd(c) {
			return true
		}
	}
	return false
}

// addRecursion lets rules refer to one another after consuming something.
func addRecursion(r *Rng, m *Gram) {
	n := len(m.Rules)
	for i := range m.Rules {
		ref := func() *G { return gInd(r.N(n), r.N(2)) }
		open := pick(r, []string{"(", "[", "a"})
		b := m.Rules[i]
		switch r.N(4) {
		case 0:
			m.Rules[i] = gK(KFirst, gK(KFlat, gSeq(open), ref(), gSeq(")")), b)
		case 1:
			m.Rules[i] = gK(KFirst, gK(KFlat, gSeq(open), gRep(0, 3, ref()), gSeq(")")), b)
		case 2:
			m.Rules[i] = gK(KFirst, gTr(gK(KFlat, gSeq(open), gRep(0, 1, ref()), ref()), TrGroup), b)
		case 3:
			m.Rules[i] = gK(KFlat, b, gRep(0, 1, gK(KFlat, gSeq(open), ref())))
		}
	}
	m.finish()
}

func c29grammar(t *T, idx int) {
	p := coreProfile()
	p.W[KInd], p.Rules, p.W[KMatch] = 40, 4, 0
	var m *Gram
	for m == nil || len(m.Rules) == 0 {
		m = t.gram(p, genGram)
	}
	rec := t.P(60)
	if rec {
		addRecursion(t.Rng, m)
	}
	b, parser := newBuilder(m, idx%2)
	if b.early != "" || len(b.expand) > 0 {
		t.Failf("%s (while building)\n  %s", b.early, m)
	}
	var direct ParserFn
	if !rec {
		_, direct = newBuilder((&Gram{Root: inline(m, m.Root), obj: m.obj}).finish(), 0)
	}
	used := false
	for i := 0; i < perGram; i++ {
		c := t.genGCm(m, idx%2 == 1)
		if c == nil {
			return
		}
		t.note(c)
		t.guarded(c.desc, func() {
			mon := &Monitor{src: c.src, max: (c.ref.steps+c.ref.calls)*20 + 1000, ev: c.ref.ev}
			o := b.run(parser, c.src, nil, mon)
			if d := o.diff(c.want); d != "" {
				t.Failf("%s: documented %v\n  observed %v\n  %s", d, c.want, o, c.desc())
			}
			if direct != nil {
				q := outOf(direct(startCtx(m, c.src, nil)))
				if d := o.same(q); d != "" {
					t.Failf("%s: with deferred parsers %v\n  without %v\n  %s", d, o, q, c.desc())
				}
				t.Obs("compared with the undeferred grammar", 1)
			}
		})
		used = used || c.ref.used[KInd] > 0
		n := 0
		for k, e := range b.expand {
			n += e
			if e > 1 {
				t.Failf("the definition of reference %d was expanded %d times\n  %s", k, e, c.desc())
			}
		}
		if b.early != "" {
			t.Failf("%s\n  %s", b.early, c.desc())
		}
		if used != (n > 0) {
			t.Failf("references used: %v, yet %d definitions expanded\n  %s", used, n, c.desc())
		}
		t.Obs("expansions checked", n)
		t.Obs("deferred runs", c.ref.used[KInd])
	}
}

// c29faulty: definitions that panic the first times they are needed. The panic reaches the caller, and the parser is
// of use once its definition is.
func c29faulty(t *T, idx int) {
	fail, g, deep := t.R(1, 4), pick(t.Rng, []int{1, 1, 2, 6}), t.N(4)
	var calls int32
	p := Indirect(func() ParserFn {
		if n := atomic.AddInt32(&calls, 1); int(n) <= fail {
			panic(fmt.Sprint("not yet ", n))
		}
		return FlatGroup(strp.Seq("a"), ZeroOrMoreTimes(strp.Seq("b")))
	})
	for i := 0; i < deep; i++ {
		q := p
		p = []func() ParserFn{
			func() ParserFn { return Indirect(func() ParserFn { return FlatGroup(q) }) },
			func() ParserFn { return First(strp.Seq("z"), q) },
			func() ParserFn { return FlatGroup(LookAhead(q), q) },
			func() ParserFn { return Repeat(Times{Min: 1, Max: 1}, q) },
		}[t.N(4)]()
	}
	desc := func() string {
		return fmt.Sprintf("a definition that panics %d times, %d goroutines, %d deep", fail, g, deep)
	}
	done := make(chan string, g)
	var panics int32
	for k := 0; k < g; k++ {
		go func() {
			for i := 0; ; i++ {
				o, bad := func() (o Out, bad interface{}) {
					defer func() { bad = recover() }()
					return runStr(p, "abbbc"), nil
				}()
				if bad != nil {
					atomic.AddInt32(&panics, 1)
					if s := fmt.Sprint(bad); !strings.HasPrefix(s, "not yet ") || i > fail {
						done <- "panic " + s
						return
					}
					continue
				}
				if o.St != MatchStatus_Matched || o.Ctx.Position != 4 {
					done <- o.String()
				} else {
					done <- ""
				}
				return
			}
		}()
	}
	for k := 0; k < g; k++ {
		select {
		case d := <-done:
			if d != "" {
				t.Failf("%s: %s", desc(), d)
			}
		case <-time.After(60 * time.Second):
			t.Failf("%s: the parser hangs", desc())
		}
	}
	t.Eval(g)
	if int(panics) != fail || int(calls) != fail+1 {
		t.Failf("%s: %d panics reached the caller, the definition was expanded %d times", desc(), panics, calls)
	}
	t.Obs("failed definitions", fail)
	t.DistinctS(desc())
}

// c29defining: definitions that themselves parse something with other deferred parsers, which are expanded meanwhile,
// by one goroutine or several at once.
func c29defining(t *T, idx int) {
	n := t.R(2, 30)
	uses := make([][]int, n) // later ones only
	for i := range uses {
		for j := i + 1; j < n; j++ {
			if j == i+1 && t.P(70) || t.P(10) {
				uses[i] = append(uses[i], j)
			}
		}
	}
	kinds := make([]int, n)
	for i := range kinds {
		kinds[i] = t.N(4)
	}
	exp := make([]int32, n)
	refs := make([]ParserFn, n)
	ok := func(i int) string {
		src := strings.Repeat("a", i+1)
		o := runStr(refs[i], src)
		if o.St != MatchStatus_Matched || o.Ctx.Position != len(src) {
			return fmt.Sprintf("reference %d: %v", i, o)
		}
		return ""
	}
	for i := range refs {
		i := i
		refs[i] = Indirect(func() ParserFn {
			atomic.AddInt32(&exp[i], 1)
			for _, j := range uses[i] {
				if d := ok(j); d != "" {
					return Error(d)
				}
			}
			a := strp.Seq("a")
			switch kinds[i] {
			case 0:
				return Repeat(Times{Min: i + 1, Max: i + 1}, a)
			case 1:
				return First(Unmatched(), FlatGroup(strp.Seq(strings.Repeat("a", i+1)), strp.End()))
			case 2:
				return Group(ZeroOrMoreTimes(a))
			}
			return Indirect(func() ParserFn { return Trans(OneOrMoreTimes(a), strp.Concat) })
		})
	}
	g := pick(t.Rng, []int{1, 1, 2, 8})
	desc := func() string { return fmt.Sprintf("definitions that parse with others: %v, %d goroutines", uses, g) }
	done := make(chan string, g)
	for k := 0; k < g; k++ {
		order := make([]int, n)
		for i := range order {
			order[i] = i
		}
		if k > 0 {
			for i := range order {
				j := t.N(i + 1)
				order[i], order[j] = order[j], order[i]
			}
		}
		go func() {
			res := ""
			defer func() {
				if r := recover(); r != nil {
					res = fmt.Sprint("panic: ", r)
				}
				done <- res
			}()
			for _, i := range order {
				if d := ok(i); d != "" && res == "" {
					res = d
				}
			}
		}()
	}
	for k := 0; k < g; k++ {
		select {
		case d := <-done:
			if d != "" {
				t.Failf("%s; %s", d, desc())
			}
		case <-time.After(60 * time.Second):
			t.Failf("it hangs: %s", desc())
		}
	}
	t.Eval(g)
	for i, e := range exp {
		if e != 1 {
			t.Failf("definition %d was expanded %d times; %s", i, e, desc())
		}
	}
	t.Obs("expansions that parse", n)
	t.DistinctS(desc())
}

// c29deep: balanced, mutually recursive brackets far deeper than any test.
func c29deep(t *T, idx int) {
	depths := []int{50, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4000, 10000, 20000}
	d := depths[idx%len(depths)]
	var exp [3]int
	var A, B ParserFn
	defA := func() ParserFn {
		exp[0]++
		return First(FlatGroup(strp.Seq("("), B, strp.Seq(")")), strp.Seq("x"))
	}
	defB := func() ParserFn {
		exp[1]++
		return First(FlatGroup(strp.Seq("["), A, strp.Seq("]")), A)
	}
	A = Indirect(defA)
	B = Indirect(defB)
	if exp[0]+exp[1] > 0 {
		t.Failf("expanded while being built")
	}
	// ((([[...  A: ( B ), B: [ A ] | A
	var sb strings.Builder
	closers := make([]byte, 0, d)
	inB := false
	for i := 0; i < d; i++ {
		if inB && t.P(50) {
			sb.WriteByte('[')
			closers = append(closers, ']')
			inB = false
		} else {
			sb.WriteByte('(')
			closers = append(closers, ')')
			inB = true
		}
	}
	sb.WriteByte('x')
	for i := len(closers) - 1; i >= 0; i-- {
		sb.WriteByte(closers[i])
	}
	src := sb.String()
	broken := src[:len(src)-1]
	desc := func() string { return fmt.Sprintf("mutually recursive brackets, depth %d", d) }
	t.guarded(desc, func() {
		for rep := 0; rep < 2; rep++ {
			o := outOf(A(*strp.NewStringParserContext(src)))
			t.Eval(1)
			if o.St != MatchStatus_Matched || o.Ctx.Position != len(src) || len(o.Ctx.AstStack) != len(src) {
				t.Failf("not matched: %v position %d of %d, %d nodes; %s", o.St, o.Ctx.Position, len(src), len(o.Ctx.AstStack), desc())
			}
			for i, a := range o.Ctx.AstStack {
				if a.Value != src[i:i+1] {
					t.Failf("node %d is %s; %s", i, fmtAst(a), desc())
				}
			}
		}
		// backtracking at a missing closing bracket is exponential only through B's second alternative; '(' has no other
		if !strings.Contains(src, "[") || d < 64 {
			o := outOf(A(*strp.NewStringParserContext(broken)))
			if o.St != MatchStatus_Unmatched {
				t.Failf("missing bracket: %v; %s", o, desc())
			}
		}
		if exp[0] != 1 || exp[1] != 1 {
			t.Failf("expanded %d and %d times; %s", exp[0], exp[1], desc())
		}
	})
	t.Obs("levels", d)
	t.Distinct(uint64(d))
}

// ---- C30: the public base ----

type hookAct struct {
	kind int // 0 pass, 1 veto, 2 error, 3 push a node, 4 replace own nodes by one, 5 consume one byte if there is one
	st   int // status left behind together with an error
	err  error
}

type baseSpec struct {
	qty     *Times
	exists  bool
	neg     bool
	rewind  bool
	hook    bool
	acts    []hookAct // by call number
	after   hookAct   // for later calls
	final   hookAct
	tr      []TrSpec
	kids    []*G
	zeroKid bool
}

func (s *baseSpec) String() string {
	q := "once"
	if s.qty != nil {
		q = fmt.Sprint(*s.qty)
	}
	return fmt.Sprintf("BaseParser(times %s, thereExists %v, negative %v, rewind %v, hook %v %v then %v, final %v, transformers %v, parts %v)",
		q, s.exists, s.neg, s.rewind, s.hook, s.acts, s.after, s.final, s.tr, s.kids)
}

type hookCall struct {
	n, bottom, nodes, pos int
}

func (s *baseSpec) act(call int) hookAct {
	if call < len(s.acts) {
		return s.acts[call]
	}
	return s.after
}

var hookNode = Ast{ClassName: "Hook", Type: AstType_Int, Value: int64(7)}

// ref is the documented run; calls lists the expected hook calls.
func (s *baseSpec) ref(r *Ref, pos int, stk *snode) (res Res, calls []hookCall) {
	minN, maxN := 1, 1
	if s.qty != nil {
		minN, maxN = s.qty.Min, s.qty.Max
	}
	cur := Res{St: MatchStatus_Matched, Pos: pos, Stk: stk}
	base := stk.len()
	count := 0
	ncall := 0
	apply := func(a hookAct, q Res) Res {
		switch a.kind {
		case 1:
			q.St = MatchStatus_Unmatched
		case 2:
			q.St, q.Err = MatchStatus_Error, a.err
		case 3:
			q.Stk = q.Stk.push(hookNode)
		case 4:
			q.Stk = q.Stk.cut(base).push(hookNode)
		case 5:
			if q.Pos < len(r.src) {
				q.Pos++
			}
		}
		return q
	}
	for maxN < 0 || count < maxN {
		q := Res{St: MatchStatus_Matched, Pos: cur.Pos, Stk: cur.Stk}
		parts := 0
		if s.exists {
			for _, k := range s.kids {
				w := r.eval(k, q.Pos, q.Stk)
				if w.St == MatchStatus_Error {
					return w, calls
				}
				if w.St == MatchStatus_Matched {
					q, parts = w, 1
					break
				}
			}
			if parts == 0 && len(s.kids) > 0 {
				break
			}
		} else {
			for _, k := range s.kids {
				w := r.eval(k, q.Pos, q.Stk)
				if w.St == MatchStatus_Error {
					return w, calls
				}
				if w.St == MatchStatus_Unmatched {
					q.St = MatchStatus_Unmatched
					break
				}
				q = w
				parts++
			}
			if q.St == MatchStatus_Unmatched {
				break
			}
		}
		q.St = MatchStatus_Matched
		if s.hook {
			calls = append(calls, hookCall{parts, base, q.Stk.len(), q.Pos})
			q = apply(s.act(ncall), q)
			ncall++
			if q.St == MatchStatus_Error {
				return q, calls
			}
			if q.St == MatchStatus_Unmatched {
				break
			}
		}
		cur = q
		count++
		r.steps++
		if r.steps > r.limit {
			panic(refBudget{})
		}
	}
	ok := count >= minN || minN < 0
	if s.neg {
		ok = !ok
	}
	if !ok {
		return Res{St: MatchStatus_Unmatched, Pos: pos, Stk: stk}, calls
	}
	if s.hook {
		calls = append(calls, hookCall{-1, base, cur.Stk.len(), cur.Pos})
		cur.St = MatchStatus_Matched
		cur = apply(s.final, cur)
		if cur.St != MatchStatus_Matched {
			if cur.St == MatchStatus_Unmatched {
				return Res{St: MatchStatus_Unmatched, Pos: pos, Stk: stk}, calls
			}
			return cur, calls
		}
	}
	if s.rewind {
		cur.Pos, cur.Stk = pos, stk
	}
	if len(s.tr) > 0 {
		at := cur.Pos
		cur = r.trans(&G{}, base, 0, s.tr, at, cur.Stk)
	}
	cur.Q = count
	return cur, calls
}

func genHook(r *Rng, n int) hookAct {
	a := hookAct{kind: r.W(50, 12, 8, 12, 10, 8)}
	if a.kind == 2 {
		a.st = r.N(3)
		a.err = fmt.Errorf("hook error %d/%d", n, r.N(1000))
	}
	return a
}

func c30base(t *T, idx int) {
	p := coreProfile()
	p.W[KMatch], p.W[KInd], p.Rules, p.MaxDepth = 0, 0, 0, 2
	s := &baseSpec{}
	if t.P(70) {
		s.qty = &Times{Min: bound(t.Rng, 3), Max: bound(t.Rng, 5)}
	}
	s.exists, s.neg, s.rewind, s.hook = t.P(40), t.P(30), t.P(35), t.P(75)
	g := &genr{r: t.Rng, p: p, alpha: pick(t.Rng, alphabets)}
	n := t.W(8, 36, 27, 18)
	if t.P(12) {
		n = pick(t.Rng, []int{4, 5, 6, 8, 12, 20, 40, 70})
	}
	for i := n; i > 0; i-- {
		s.kids = append(s.kids, g.gen(2, false, false, 0))
	}
	if s.qty != nil && s.qty.Max < 0 {
		any, all := false, len(s.kids) > 0
		for _, k := range s.kids {
			any = any || k.consumes()
			all = all && k.consumes()
		}
		if !any || (s.exists && !all) {
			s.kids = []*G{g.leafConsuming()}
		}
	}
	// what is kept of a partly satisfied negated repetition is documented nowhere
	if s.neg && !s.rewind && s.qty != nil && s.qty.Min > 1 {
		s.rewind = true
	}
	if s.hook {
		for i := t.N(5); i > 0; i-- {
			s.acts = append(s.acts, genHook(t.Rng, i))
		}
		if t.P(30) {
			s.after = genHook(t.Rng, 99)
		}
		s.final = genHook(t.Rng, -1)
	}
	if t.P(30) {
		for i := t.R(1, 2); i > 0; i-- {
			s.tr = append(s.tr, genTr(t.Rng, p))
		}
	}
	m := &Gram{Root: &G{K: KFlat, Ch: s.kids}}
	m.finish()
	b := &Builder{m: m, ind: map[int]ParserFn{}, expand: map[int]int{}}
	kids := b.list(s.kids)
	var got []hookCall
	var fn ParserImplFn
	ncall := 0
	rounds, odd := 0, ""
	if s.hook {
		fn = func(n, bottom int, ctx ParserContext) (ParserContext, error) {
			got = append(got, hookCall{n, bottom, len(ctx.AstStack), ctx.Position})
			if ctx.Quantity != rounds && odd == "" {
				odd = fmt.Sprintf("hook call %d (parts %d) sees a count of %d after %d rounds", len(got), n, ctx.Quantity, rounds)
			}
			if n != -1 {
				rounds++
			}
			var a hookAct
			if n == -1 {
				a = s.final
			} else {
				a = s.act(ncall)
				ncall++
			}
			ctx.MatchStatus = MatchStatus_Matched
			switch a.kind {
			case 1:
				ctx.MatchStatus = MatchStatus_Unmatched
				if n != -1 {
					rounds--
				}
			case 2:
				ctx.MatchStatus = MatchStatusType(a.st)
				return ctx, a.err
			case 3:
				ctx.AstStack = append(ctx.AstStack, hookNode)
			case 4:
				ctx.AstStack = append(ctx.AstStack[:bottom], hookNode)
			case 5:
				if ctx.Position < len(ctx.Str) {
					ctx.Position++
				}
			}
			return ctx, nil
		}
	}
	var props []interface{}
	if s.qty != nil {
		props = append(props, *s.qty)
	}
	if s.exists {
		props = append(props, ThereExists{})
	}
	if s.neg {
		props = append(props, Negative{})
	}
	if s.rewind {
		props = append(props, Rewind{})
	}
	for i := len(props) - 1; i > 0; i-- {
		j := t.N(i + 1)
		props[i], props[j] = props[j], props[i]
	}
	parser := BaseParser("User:Base", fn, props, kids, b.trs(m.Root, s.tr, 0))
	for i := 0; i < perGram; i++ {
		rg := &Gram{Root: gRep(0, 5, s.kids...)}
		if s.exists && len(s.kids) > 0 {
			rg.Root = gRep(0, 5, gK(KFirst, s.kids...))
		}
		pre := pick(t.Rng, []string{"", "a", "é"})
		src := pre + rg.genInput(t.Rng)
		var stk *snode
		var stack AstSlice
		for i := t.N(3); i > 0; i-- {
			a := genAst(t.Rng, 1)
			stk = stk.push(a)
			stack = append(stack, cloneAst(a))
		}
		var want Res
		var calls []hookCall
		ref := newRef(m, src, false)
		ok := func() (ok bool) {
			defer func() {
				if x := recover(); x != nil {
					if _, bu := x.(refBudget); !bu {
						panic(x)
					}
					ok = false
				}
			}()
			want, calls = s.ref(ref, len(pre), stk)
			return !ref.vague
		}()
		if !ok {
			continue
		}
		desc := func() string { return fmt.Sprintf("%s\n  text %q from %d, after %s", s, src, len(pre), fmtAsts(stack)) }
		t.Eval(1)
		t.guarded(desc, func() {
			got, ncall, rounds, odd = nil, 0, 0, ""
			ctx := strp.NewStringParserContext(src)
			ctx.Position = len(pre)
			ctx.AstStack = append(ctx.AstStack, cloneAsts(stack)...)
			ctx.MatchStatus = MatchStatusType(t.N(2))
			raw, err := parser(*ctx)
			o := outOf(raw, err)
			if d := o.diff(want); d != "" {
				t.Failf("%s: documented %v\n  observed %v\n  %s", d, want, o, desc())
			}
			if odd != "" {
				t.Failf("%s\n  %s", odd, desc())
			}
			if !reflect.DeepEqual(got, calls) {
				t.Failf("hook calls {parts, bottom, nodes, position} %v, documented %v\n  %s", got, calls, desc())
			}
			if want.St == MatchStatus_Error {
				if raw.MatchStatus != MatchStatus_Error || o.Err == nil {
					t.Failf("error returned as status %v with error %v\n  %s", raw.MatchStatus, err, desc())
				}
				if !want.AnyErr && o.Err.Error() != want.Err.Error() {
					t.Failf("error %v instead of %v\n  %s", err, want.Err, desc())
				}
				if strings.HasPrefix(want.Err.Error(), "hook") && err != want.Err {
					t.Failf("not the hook's own error value\n  %s", desc())
				}
			} else if err != nil {
				t.Failf("error %v without error status\n  %s", err, desc())
			}
			if want.St == MatchStatus_Matched && !s.rewind && len(s.tr) == 0 && raw.Quantity != want.Q {
				t.Failf("reports %d rounds, made %d\n  %s", raw.Quantity, want.Q, desc())
			}
			if !astsEq(stack, ctx.AstStack, true) && len(stack) > 0 {
				t.Failf("earlier nodes changed to %s\n  %s", fmtAsts(ctx.AstStack), desc())
			}
		})
		t.Obs("outcome."+want.St.String(), 1)
		t.Obs("hook calls", len(calls))
		if len(calls) > 2 || ref.steps > 3 {
			t.DistinctS(desc())
		}
		t.Sample(func() string { return desc() + " => " + want.String() })
	}
}

// c30light: parsers from the light constructor, alone and inside combinators.
func c30light(t *T, idx int) {
	err := errors.New("custom failure")
	st := MatchStatusType(t.N(3))
	raise := t.P(50)
	adv := t.N(2)
	p := LightBaseParser("User:Light", func(ctx ParserContext) (ParserContext, error) {
		ctx.Position += adv
		ctx.MatchStatus = st
		ctx.Quantity = 17
		ctx.ClassName = "inner"
		if raise {
			return ctx, err
		}
		return ctx, nil
	})
	wrap := t.N(7)
	q := p
	switch wrap {
	case 1:
		q = FlatGroup(p)
	case 2:
		q = First(Unmatched(), p)
	case 3:
		q = Repeat(Times{Min: 1, Max: 1}, p)
	case 4:
		q = Trans(p)
	case 5:
		q = Indirect(func() ParserFn { return p })
	case 6:
		q = BaseParser("User:Wrap", nil, nil, []ParserFn{p}, nil)
	}
	if !raise && st == MatchStatus_Error {
		return
	}
	t.Eval(1)
	raw, e := q(*strp.NewStringParserContext("abc"))
	desc := fmt.Sprintf("light parser with status %v, error %v, wrapped %d", st, raise, wrap)
	switch {
	case raise:
		t.Obs("light errors", 1)
		if raw.MatchStatus != MatchStatus_Error || e != err {
			t.Failf("%s: status %v error %v", desc, raw.MatchStatus, e)
		}
	case st == MatchStatus_Matched:
		if raw.MatchStatus != st || e != nil || raw.Position != adv {
			t.Failf("%s: status %v error %v position %d", desc, raw.MatchStatus, e, raw.Position)
		}
		if raw.Quantity != 1 {
			t.Failf("%s: count %d", desc, raw.Quantity)
		}
		if wrap == 0 && raw.ClassName != "User:Light" {
			t.Failf("%s: class %q", desc, raw.ClassName)
		}
	default:
		if raw.MatchStatus != st || e != nil {
			t.Failf("%s: status %v error %v", desc, raw.MatchStatus, e)
		}
	}
	t.Distinct(uint64(st)<<8 | uint64(wrap)<<2 | uint64(adv))
}

// c30class: a parser without parts reports the class it was made with.
func c30class(t *T, idx int) {
	name := fmt.Sprintf("User:%d", t.N(1000))
	for _, props := range [][]interface{}{nil, {Times{Min: 1, Max: 1}}, {Rewind{}}, {ThereExists{}}, {Times{Min: 3, Max: 3}}} {
		b := BaseParser(name, nil, props, nil, nil)
		ctx := *strp.NewStringParserContext("ab")
		ctx.ClassName = "before"
		o, err := b(ctx)
		t.Eval(1)
		if err != nil || o.MatchStatus != MatchStatus_Matched || o.ClassName != name {
			t.Failf("BaseParser(%q, %v) reports class %q, status %v, error %v", name, props, o.ClassName, o.MatchStatus, err)
		}
		l := LightBaseParser(name, func(ctx ParserContext) (ParserContext, error) { ctx.MatchStatus = 0; return ctx, nil })
		o, err = l(ctx)
		if err != nil || o.ClassName != name || o.Quantity != 1 {
			t.Failf("LightBaseParser(%q) reports class %q, count %d, error %v", name, o.ClassName, o.Quantity, err)
		}
	}
	t.Obs("classes", 1)
}

// ---- C21: hostile texts ----

// hostile makes byte strings no honest editor would produce.
func hostile(r *Rng, n int) string {
	var sb strings.Builder
	bad := []string{"\xff", "\xfe", "\xc0\x80", "\xc3", "\xe3\x81", "\xf0\x9f\x98", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\x80", "\xbf", "\xf8\x88\x80\x80\x80",
		"\x00", "\ufeff", "\ufffd", "\U0010ffff", "\u200d", "\r\n", "\r", "\t", "\u2028", "é", "日", "😀", "a", "0", "_", ".", "-", "+", "(", "\"", ","}
	for sb.Len() < n {
		switch r.W(50, 20, 20) {
		case 0:
			sb.WriteString(pick(r, bad))
		case 1:
			sb.WriteByte(byte(r.U64()))
		case 2:
			sb.WriteString(pick(r, pick(r, alphabets)))
		}
	}
	return sb.String()
}

func c21hostile(t *T, idx int) {
	debug.SetPanicOnFault(true)
	p := baseProfile()
	m := genGram(t.Rng, p)
	for i := 0; i < perGram; i++ {
		src := m.genInput(t.Rng)
		switch t.N(3) {
		case 0:
			src = hostile(t.Rng, t.N(24))
		case 1:
			k := t.N(len(src) + 1)
			src = src[:k] + hostile(t.Rng, t.R(1, 3)) + src[k:]
		}
		ref := newRef(m, src, false)
		res, ok := ref.Run()
		if !ok && !ref.vague {
			continue
		}
		src, free := guardString(src, t.P(50))
		c := &GC{m, src, ref, res}
		t.note(c)
		func() {
			defer free()
			t.judge(c, 1, func(o Out, mon *Monitor, b *Builder) {
				if mon.span != "" {
					t.Failf("%s\n  %s", mon.span, c.desc())
				}
				if o.Ctx.Position < 0 || o.Ctx.Position > len(src) {
					t.Failf("ends at %d in a text of %d bytes\n  %s", o.Ctx.Position, len(src), c.desc())
				}
				for _, a := range flatTokens(o.Ctx.AstStack, nil) {
					if _, isStr := a.Value.(string); isStr && strings.HasPrefix(a.ClassName, ":") && (a.Position < 0 || a.Length < 0 || (a.Position > len(src) && o.St == MatchStatus_Matched && tokenClass(a.ClassName))) {
						t.Failf("node %s lies outside the text\n  %s", fmtAst(a), c.desc())
					}
				}
				t.Obs("calls watched", mon.steps)
			})
		}()
	}
}

func tokenClass(c string) bool { return strings.HasPrefix(c, ":String:") }

// the ready-made recognisers with the conversions meant for them
var recognisers = []struct {
	name string
	mk   func() ParserFn
	tr   []TransformerFn
}{
	{"BinaryNumberStr", extra.BinaryNumberStr, []TransformerFn{strp.ParseIntRadix(2), strp.ParseUintRadix(2)}},
	{"OctalNumberStr", extra.OctalNumberStr, []TransformerFn{strp.ParseIntRadix(8), strp.ParseUintRadix(8)}},
	{"HexNumberStr", extra.HexNumberStr, []TransformerFn{strp.ParseIntRadix(16), strp.ParseUintRadix(16)}},
	{"IntegerNumberStr", extra.IntegerNumberStr, []TransformerFn{strp.ParseInt, strp.ParseUint}},
	{"FloatNumberStr", extra.FloatNumberStr, []TransformerFn{strp.ParseFloat}},
	{"NumericStr", extra.NumericStr, []TransformerFn{strp.ParseFloat}},
	{"AsciiIdentifierStr", extra.AsciiIdentifierStr, []TransformerFn{strp.Trim}},
	{"UnicodeIdentifierStr", extra.UnicodeIdentifierStr, []TransformerFn{strp.Trim}},
	{"DateStr", extra.DateStr, []TransformerFn{extra.ParseDate}},
	{"DateTimeStr", extra.DateTimeStr, []TransformerFn{extra.ParseDateTime}},
	{"TimeStr", extra.TimeStr, []TransformerFn{extra.ParseTime}},
	{"WordBoundary", strp.WordBoundary, nil},
	{"UnicodeWordBoundary", extra.UnicodeWordBoundary, nil},
	{"Any", strp.Any, []TransformerFn{strp.ParseInt, strp.ParseUint, strp.ParseFloat, strp.Trim, strp.TrimStart, strp.TrimEnd}},
	{"End", strp.End, nil},
}

func c21recognisers(t *T, idx int) {
	debug.SetPanicOnFault(true)
	rc := recognisers[idx%len(recognisers)]
	p := rc.mk()
	for i := 0; i < 20; i++ {
		src := numberish(t.Rng)
		if t.P(40) {
			src = hostile(t.Rng, t.N(20))
		} else if t.P(40) {
			k := t.N(len(src) + 1)
			src = src[:k] + hostile(t.Rng, 2) + src[k:]
		}
		t.DistinctS(rc.name + src)
		src, free := guardString(src, t.P(50))
		func() {
			defer free()
			desc := func() string { return fmt.Sprintf("%s on %q", rc.name, src) }
			t.guarded(desc, func() {
				for at := 0; at <= len(src); at++ {
					ctx := strp.NewStringParserContext(src)
					ctx.Position = at
					o := outOf(p(*ctx))
					t.Eval(1)
					t.Obs("calls watched", 1)
					if o.St == MatchStatus_Matched && (o.Ctx.Position < at || o.Ctx.Position > len(src)) {
						t.Failf("moves from %d to %d: %s", at, o.Ctx.Position, desc())
					}
					for _, tr := range rc.tr {
						q := outOf(Trans(p, tr)(*ctx))
						if q.St == MatchStatus_Matched && q.Ctx.Position != o.Ctx.Position {
							t.Failf("moves from %d to %d: %s", at, q.Ctx.Position, desc())
						}
					}
				}
			})
		}()
	}
}

// c21words: words of all lengths on every beginning of them, at every place.
func c21words(t *T, idx int) {
	debug.SetPanicOnFault(true)
	pool := []string{"a", "B", "z", "0", "é", "ß", "\u212a", "k", "あ", "\U0001f600", "\xff", "\xe3", "\ufffd", "\r", "\n", "_", "-", "."}
	word := ""
	for n := pick(t.Rng, []int{1, 2, 3, 4, 6, 8, 9, 12, 16, 17, 31, 33}); n > 0; n-- {
		word += pick(t.Rng, pool)
	}
	if t.P(10) {
		word = strings.Repeat(word, t.R(2, 30))
	}
	flip := func(s string) string {
		b := []byte(s)
		for i := range b {
			if x := b[i] | 0x20; x >= 'a' && x <= 'z' && t.P(50) {
				b[i] ^= 0x20
			}
		}
		return string(b)
	}
	more := flip(word) + pick(t.Rng, pool)
	ps := []struct {
		name string
		p    ParserFn
	}{
		{"Seq", strp.Seq(word)}, {"SeqI", strp.SeqI(word)}, {"CharClass", strp.CharClass(more, word)}, {"CharClassN", strp.CharClassN(word, more)},
		{"LookAhead", LookAhead(strp.SeqI(word))}, {"LookAheadN", LookAheadN(strp.Seq(word))},
		{"LookBehind", LookBehind(1, len(word), strp.SeqI(word))}, {"LookBehindN", LookBehindN(1, len(word)+1, strp.Seq(word))},
		{"First", First(strp.SeqI(more), strp.Seq(word), strp.SeqI(word))},
		{"Repeat", ZeroOrMoreTimes(strp.SeqI(word))}, {"WordBoundary", strp.WordBoundary()}, {"LineBreak", strp.LineBreak()},
	}
	x := ps[idx%len(ps)]
	t.DistinctS(x.name + word)
	step := 1
	if len(word) > 150 {
		step = len(word)/60 + 1
	}
	for k := 0; k <= len(word); k += step {
		plain := word[:k]
		if t.P(50) {
			plain = flip(plain)
		}
		lead := ""
		if t.P(40) {
			lead = pick(t.Rng, []string{"x", "\xe3", word, flip(word)})
		}
		src, free := guardString(lead+plain, t.P(30))
		func() {
			defer free()
			for _, at := range []int{0, len(lead), t.N(len(src) + 1), len(src)} {
				desc := func() string { return fmt.Sprintf("%s of %q on %q at %d", x.name, word, src, at) }
				t.guarded(desc, func() {
					ctx := strp.NewStringParserContext(src)
					ctx.Position = at
					o := outOf(x.p(*ctx))
					t.Eval(1)
					t.Obs("calls watched", 1)
					if o.St == MatchStatus_Matched && (o.Ctx.Position < at || o.Ctx.Position > len(src)) {
						t.Failf("moves from %d to %d: %s", at, o.Ctx.Position, desc())
					}
				})
			}
		}()
	}
}

// c21mega: megabytes, and nesting in the thousands; the number of calls must stay within the grammar's linear bound.
// c21giant: millions of nodes and of bytes in one parse.
// c21reports: positions in wide, long and hostile texts are translated without a crash or a read outside the text.
func c21reports(t *T, idx int) {
	debug.SetPanicOnFault(true)
	var src string
	wide := []int{200, 255, 256, 1000, 4096, 32766, 32767, 32768, 32769, 40000, 65535, 65536, 65537, 70000, 131073}
	switch t.N(5) {
	case 0:
		src = hostile(t.Rng, pick(t.Rng, wide))
	case 1:
		src = strings.Repeat(pick(t.Rng, []string{"x", "\t", " ", "é", "\xff"}), pick(t.Rng, wide))
	case 2:
		src = strings.Repeat(pick(t.Rng, []string{"\n", "\r", "\r\n", "x\n", "\t\r"}), pick(t.Rng, wide)/2)
	case 3:
		src = strings.Repeat("a", pick(t.Rng, wide)) + pick(t.Rng, []string{"\n", "\r", "\r\n"}) + strings.Repeat(pick(t.Rng, []string{"b", "\t"}), pick(t.Rng, wide))
	case 4:
		src = hostile(t.Rng, t.N(20))
	}
	src, free := guardString(src, t.P(50))
	defer free()
	at := []int{0, len(src), len(src) - 1, len(src) / 2, 32767, 32768, 32769, 65535, 65536, 65537, t.N(len(src) + 1), t.N(len(src) + 1)}
	for _, pos := range at {
		if pos < 0 || pos > len(src) {
			continue
		}
		tab := pick(t.Rng, []int{0, 0, 1, 2, 4, 8, 40})
		t.guarded(func() string {
			return fmt.Sprintf("position %d of %d bytes %q, tab size %d", pos, len(src), short(src, 60), tab)
		}, func() {
			p := GetLineAndColPosition(src, SourcePosition{Position: pos}, tab)
			t.Eval(1)
			if p.LineIndex < 0 || p.LineIndex > pos || p.Line < 1 || p.Col < 1 {
				t.Failf("line %d, column %d, line index %d for position %d of %d bytes %q", p.Line, p.Col, p.LineIndex, pos, len(src), short(src, 60))
			}
		})
	}
	t.Obs("positions translated", len(at))
	t.Obs("bytes parsed", len(src))
	t.DistinctS(src)
}

func c21giant(t *T, idx int) {
	n := 2500000
	src := strings.Repeat("a", n)
	var p ParserFn
	nodes := n
	switch idx {
	case 0:
		p = FlatGroup(ZeroOrMoreTimes(strp.Any()), strp.End())
	case 1:
		n = 40000000
		src = strings.Repeat("word", n/4)
		p = FlatGroup(strp.Seq(src[:n/2]), ZeroOrMoreTimes(strp.Seq(src[:n/8])), strp.SeqI(strings.Repeat("wOrD", 100)), strp.End())
		src = src + strings.Repeat("WoRd", 100)
		nodes = 1 + 4 + 1
	case 2:
		p = FlatGroup(Trans(OneOrMoreTimes(First(strp.Seq("b"), Trans(strp.CharClass("a"), SetOpCode(1)))), strp.Concat), strp.End())
		nodes = 1
	}
	desc := func() string { return fmt.Sprintf("giant text %d of %d bytes", idx, len(src)) }
	t.guarded(desc, func() {
		o := outOf(p(*strp.NewStringParserContext(src)))
		t.Eval(1)
		t.Obs("bytes parsed", len(src))
		if o.St != MatchStatus_Matched || o.Ctx.Position != len(src) || len(o.Ctx.AstStack) != nodes {
			t.Failf("%v at %d with %d nodes; %s", o.St, o.Ctx.Position, len(o.Ctx.AstStack), desc())
		}
		if s, _ := o.Ctx.AstStack[0].Value.(string); idx == 2 && s != src {
			t.Failf("joined to %d bytes; %s", len(s), desc())
		}
	})
	t.Distinct(uint64(idx))
}

func c21mega(t *T, idx int) {
	debug.SetPanicOnFault(true)
	calls := 0
	cnt := func(p ParserFn) ParserFn {
		return func(ctx ParserContext) (ParserContext, error) {
			calls++
			if ctx.Position < 0 || ctx.Position > len(ctx.Str) {
				t.Failf("called at %d in a text of %d bytes", ctx.Position, len(ctx.Str))
			}
			o, err := p(ctx)
			if o.MatchStatus == MatchStatus_Matched && err == nil && (o.Position < ctx.Position || o.Position > len(ctx.Str)) {
				t.Failf("moved from %d to %d in a text of %d bytes", ctx.Position, o.Position, len(ctx.Str))
			}
			return o, err
		}
	}
	n := 200000
	kinds := 10
	if t.Tier == "thorough" {
		n = 2000000
	}
	var p ParserFn
	var src string
	limit := 0
	full := true
	kind := idx % kinds
	switch kind {
	case 0: // undecodable bytes one by one
		src = strings.Repeat("\xff\xc3a日", n/6)
		p = ZeroOrMoreTimes(cnt(strp.Any()))
		limit = len(src) + 2
	case 1: // alternatives, mostly failing
		src = strings.Repeat("c\x80", n/2)
		p = ZeroOrMoreTimes(First(cnt(strp.Seq("a")), cnt(strp.CharRange(RuneRange{Start: 'b', End: 'b'})), cnt(strp.CharClassN("a", "b"))))
		limit = 3*len(src) + 9
	case 2: // one huge group
		src = strings.Repeat("x", n)
		p = Group(ZeroOrMoreTimes(cnt(strp.Seq("x"))))
		limit = len(src) + 2
	case 3: // huge number, no digits separated
		src = strings.Repeat("1_", n/2)
		p = cnt(extra.IntegerNumberStr())
		limit = 1
	case 4: // huge identifier
		src = strings.Repeat("é", n/2)
		p = cnt(extra.UnicodeIdentifierStr())
		limit = 1
	case 5: // deep nesting of groups through recursion
		d := 3000
		src = strings.Repeat("(", d) + strings.Repeat(")", d)
		var e ParserFn
		e = Indirect(func() ParserFn { return Group(cnt(strp.Seq("(")), ZeroOrMoreTimes(e), cnt(strp.Seq(")"))) })
		p = e
		limit = 4*d + 10
	case 6: // unclosed nesting
		d := 3000
		src = strings.Repeat("(", d)
		var e ParserFn
		e = Indirect(func() ParserFn { return FlatGroup(cnt(strp.Seq("(")), ZeroOrOnce(e), cnt(strp.Seq(")"))) })
		p = e
		limit = 4*d + 10
		full = false
	case 7: // look-around at every position
		src = strings.Repeat("ab", n/8)
		p = ZeroOrMoreTimes(LookAhead(cnt(strp.Any())), LookAheadN(cnt(strp.Seq("c"))), LookBehindN(1, 2, cnt(strp.Seq("q"))), cnt(strp.Any()))
		limit = 6*len(src) + 10
	case 8: // word boundaries and classes over junk
		src = hostile(t.Rng, n/4)
		p = ZeroOrMoreTimes(First(cnt(FlatGroup(strp.WordBoundary(), strp.Alnum())), cnt(FlatGroup(extra.UnicodeWordBoundary(), strp.Any())), cnt(strp.Any())))
		limit = 3*len(src) + 10
	case 9: // trim and concatenate a huge blank text
		src = strings.Repeat(" \u0085\u00a0", n/5)
		p = Trans(ZeroOrMoreTimes(cnt(strp.Whitespace())), strp.Trim)
		limit = len(src) + 2
	}
	gs, free := guardString(src, t.P(50))
	defer free()
	desc := func() string { return fmt.Sprintf("large text %d of %d bytes", kind, len(src)) }
	t.guarded(desc, func() {
		o := outOf(p(*strp.NewStringParserContext(gs)))
		t.Eval(1)
		t.Obs("calls watched", calls)
		t.Obs("bytes parsed", len(src))
		if calls > limit {
			t.Failf("%d calls for %s, the grammar prescribes at most %d", calls, desc(), limit)
		}
		if full && (o.St != MatchStatus_Matched || o.Ctx.Position != len(src)) {
			t.Failf("%v at %d; %s", o.St, o.Ctx.Position, desc())
		}
		if !full && o.St != MatchStatus_Unmatched {
			t.Failf("%v; %s", o.St, desc())
		}
	})
	t.Distinct(uint64(kind))
}

func numberish(r *Rng) string {
	parts := []string{"0", "1", "7", "9", "12", "00", "_", ".", "e", "E", "+", "-", "f", "A", "x", "2024-02-29", "T", "12:30", ":59", "Z", "+09:00", ".5", "a", "$", " ", "1999", "-12-31", "23:59:60"}
	s := ""
	for i := r.R(0, 7); i > 0; i-- {
		s += pick(r, parts)
	}
	return s
}

func init() {
	register(&Prop{
		ID:     "C28",
		Rule:   "a case is a case-match with random cases over a random node list (or inside a random grammar); non-trivial if a case fits and there are nodes",
		MinObs: map[string]int64{"case fits": 2000, "no case fits": 500, "rewrite fails": 100, "stock tests": 20000, "matched.Match": 1000},
		Assume: []string{"the number of topmost nodes is not negative; in grammars it does not reach beyond the enclosing transformer or group"},
		Stages: func(tier string) []Stage {
			p := coreProfile()
			p.W[KMatch], p.W[KZero], p.W[KFirst], p.W[KFlat], p.W[KTrans] = 60, 15, 20, 30, 6
			p.TrW = nil
			return []Stage{
				{Name: "direct", N: stagesN(tier, 40000), Fn: c28direct},
				{Name: "stock", N: stagesN(tier, 280), Fn: c28stock},
				{Name: "grammars", N: stagesN(tier, 12000), Fn: func(t *T, i int) {
					var m *Gram
					for i := 0; i < perGram; i++ {
						c := t.genGC(p, m, true)
						if c == nil {
							return
						}
						m = c.m
						t.note(c)
						for _, mode := range []int{0, 1} {
							t.judge(c, mode, func(o Out, mon *Monitor, b *Builder) {
								if d := o.diff(c.want); d != "" {
									t.Failf("%s: documented %v\n  observed %v\n  %s", d, c.want, o, c.desc())
								}
								if mon.leak != "" {
									t.Failf("%s\n  %s", mon.leak, c.desc())
								}
							})
						}
					}
				}},
			}
		},
	})
	register(&Prop{
		ID:     "C29",
		Rule:   "a case is a random grammar with deferred references and one text; non-trivial if at least two parts matched and four were tried",
		MinObs: map[string]int64{"deferred runs": 20000, "expansions checked": 5000, "levels": 50000, "compared with the undeferred grammar": 5000},
		Stages: func(tier string) []Stage {
			return []Stage{
				{Name: "grammars", N: stagesN(tier, 12000), Fn: c29grammar},
				{Name: "deep", N: 28, Fn: c29deep},
				{Name: "defining", N: stagesN(tier, 150), Fn: c29defining},
				{Name: "faulty", N: stagesN(tier, 150), Fn: c29faulty},
			}
		},
	})
	register(&Prop{
		ID:     "C30",
		Rule:   "a case is a parser made by the public constructors with random properties, parts and hook behaviour on one text; non-trivial if the hook ran more than twice or several parts were tried",
		MinObs: map[string]int64{"outcome.Matched": 5000, "outcome.Unmatched": 5000, "outcome.Error": 2000, "hook calls": 20000, "light errors": 100},
		Assume: []string{"what a negated repetition with a lower bound above one keeps without rewinding is not documented and not judged"},
		Stages: func(tier string) []Stage {
			return []Stage{
				{Name: "base", N: stagesN(tier, 30000), Fn: c30base},
				{Name: "light", N: 600, Fn: c30light},
				{Name: "class", N: 20, Fn: c30class},
			}
		},
	})
	register(&Prop{
		ID:     "C21",
		Race:   true,
		Rule:   "a case is a random grammar or ready-made recogniser with a hostile text lying between inaccessible memory pages; non-trivial if at least two parts matched and four were tried",
		Assume: []string{"built with the race detector and its pointer checks", "nesting up to 3000 levels (quick); the goroutine stack limit is 900 MB"},
		MinObs: map[string]int64{"calls watched": 200000, "bytes parsed": 500000},
		Stages: func(tier string) []Stage {
			return []Stage{
				{Name: "hostile", N: stagesN(tier, 8000), Fn: c21hostile},
				{Name: "recognisers", N: stagesN(tier, 1500), Fn: c21recognisers},
				{Name: "words", N: stagesN(tier, 5000), Fn: c21words},
				{Name: "mega", N: stagesN(tier, 20), Fn: c21mega},
				{Name: "reports", N: stagesN(tier, 150), Fn: c21reports},
				{Name: "giant", N: 3, Serial: true, Fn: c21giant},
			}
		},
	})
}
