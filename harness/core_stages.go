package main

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"runtime/debug"
	"strconv"
	"strings"
	"unicode/utf8"

	. "github.com/shellyln/takenoco/base"
	objp "github.com/shellyln/takenoco/object"
	strp "github.com/shellyln/takenoco/string"
)

func stack() string {
	s := string(debug.Stack())
	if len(s) > 5000 {
		s = s[:5000]
	}
	return s
}

// shorthands for hand-made grammars
func gSeq(s string) *G           { return &G{K: KSeq, S: []string{s}} }
func gAny() *G                   { return &G{K: KAny} }
func gK(k Kind, ch ...*G) *G     { return &G{K: k, Ch: ch} }
func gRep(a, b int, ch ...*G) *G { return &G{K: KRepeat, Min: a, Max: b, Ch: ch} }
func gTr(c *G, tr ...TrKind) *G {
	n := &G{K: KTrans, Ch: []*G{c}}
	for _, k := range tr {
		n.Tr = append(n.Tr, TrSpec{K: k})
	}
	return n
}
func gInd(rule, sugar int) *G { return &G{K: KInd, Rule: rule, Sugar: sugar} }

type scaleCase struct {
	name string
	make func(r *Rng) (*Gram, string)
}

func nest(k Kind, n int, g *G) *G {
	for i := 0; i < n; i++ {
		g = gK(k, g)
	}
	return g
}

var scaleCases = []scaleCase{
	{"many nodes", func(r *Rng) (*Gram, string) {
		return &Gram{Root: gRep(1, -1, gSeq("a"))}, strings.Repeat("a", r.R(70000, 140000))
	}},
	{"many nodes, failing tail", func(r *Rng) (*Gram, string) {
		n := r.R(70000, 100000)
		a := gK(KFlat, gRep(1, -1, gSeq("a")), gSeq("x"))
		return &Gram{Root: gK(KFlat, gRep(0, 3, gSeq("a")), gK(KFirst, a, gRep(0, -1, gAny())), gK(KEnd))}, strings.Repeat("a", n)
	}},
	{"around the initial stack size", func(r *Rng) (*Gram, string) {
		n := r.R(1015, 1035)
		k := r.R(1, 12)
		junk := gK(KFlat, gRep(0, -1, gAny()), gK(KUnmatched))
		return &Gram{Root: gK(KFlat, gRep(n-k, n-k, gAny()), gK(KFirst, junk, gRep(k, k, gAny())), gK(KFirst, junk, gK(KEnd)))}, strings.Repeat("é", n)
	}},
	{"many alternatives", func(r *Rng) (*Gram, string) {
		g := &G{K: KFirst}
		n := r.R(300, 700)
		for i := 0; i < n; i++ {
			g.Ch = append(g.Ch, gSeq(fmt.Sprintf("k%dz", i)))
		}
		s := ""
		for i := 0; i < 40; i++ {
			s += fmt.Sprintf("k%dz", r.N(n))
		}
		return &Gram{Root: gK(KFlat, gRep(0, -1, g), gK(KEnd))}, s + fmt.Sprintf("k%dz", n-1)
	}},
	{"many parts", func(r *Rng) (*Gram, string) {
		g := &G{K: KFlat}
		s := ""
		for i := r.R(300, 700); i > 0; i-- {
			g.Ch = append(g.Ch, gSeq(fmt.Sprint(i)))
			s += fmt.Sprint(i)
		}
		return &Gram{Root: gK(KGroup, g, gK(KEnd))}, s
	}},
	{"deep groups", func(r *Rng) (*Gram, string) {
		return &Gram{Root: nest(KGroup, r.R(800, 1500), gSeq("a"))}, "ab"
	}},
	{"deep choices and sequences", func(r *Rng) (*Gram, string) {
		g := gSeq("a")
		for i := r.R(500, 900); i > 0; i-- {
			switch i % 5 {
			case 0:
				g = gK(KFirst, gSeq("zz"), g)
			case 1:
				g = gK(KFlat, gK(KLAN, gSeq("b")), g)
			case 2:
				g = gRep(1, 1, g)
			case 3:
				g = gK(KFlat, gK(KLA, gAny()), g)
			case 4:
				g = gTr(g, TrDup, TrTail)
			}
		}
		return &Gram{Root: g}, "ab"
	}},
	{"deep recursion", func(r *Rng) (*Gram, string) {
		n := r.R(2000, 4000)
		m := &Gram{Root: gK(KFlat, gInd(0, 0), gK(KEnd)), Rules: []*G{gK(KFirst,
			gK(KGroup, gSeq("("), gInd(0, 0), gSeq(")")), gSeq("x"))}}
		return m, strings.Repeat("(", n) + "x" + strings.Repeat(")", n)
	}},
	{"fresh references at every level", func(r *Rng) (*Gram, string) {
		n := r.R(1000, 2000)
		m := &Gram{Root: gK(KFlat, gInd(0, 1), gK(KEnd)), Rules: []*G{gK(KFirst,
			gK(KFlat, gSeq("("), gInd(0, 1), gSeq(")")), gSeq("x"))}}
		return m, strings.Repeat("(", n) + "x" + strings.Repeat(")", n)
	}},
	{"repeat in repeat", func(r *Rng) (*Gram, string) {
		n := r.R(200, 400)
		return &Gram{Root: gK(KFlat, gRep(0, -1, gRep(1, -1, gSeq("a")), gSeq("b")), gK(KEnd))}, strings.Repeat(strings.Repeat("a", 50)+"b", n)
	}},
	{"wide transform", func(r *Rng) (*Gram, string) {
		return &Gram{Root: gK(KFlat, gSeq("a"), gTr(gRep(0, -1, gAny()), TrReverse, TrDup), gK(KEnd))}, strings.Repeat("abc", r.R(2000, 12000))
	}},
	{"long concat", func(r *Rng) (*Gram, string) {
		return &Gram{Root: gK(KFlat, gTr(gRep(0, -1, gAny()), TrConcat), gK(KEnd))}, strings.Repeat("aé日", r.R(8000, 12000))
	}},
	{"look-ahead at every step", func(r *Rng) (*Gram, string) {
		look := gK(KLA, gRep(1, 20, gAny()))
		return &Gram{Root: gK(KFlat, gRep(0, -1, look, gAny()), gK(KEnd))}, strings.Repeat("abcd", r.R(1000, 2000))
	}},
	{"long look-behind", func(r *Rng) (*Gram, string) {
		return &Gram{Root: gK(KFlat, gRep(2000, 2000, gAny()), &G{K: KLB1, Min: 0, Max: 3000, Ch: []*G{gSeq("start")}}, gRep(0, -1, gAny()))}, "start" + strings.Repeat("x", 2500)
	}},
}

func scaleRun(t *T, sc scaleCase) {
	for k := 0; k < 3; k++ {
		m, src := sc.make(t.Rng)
		m.finish()
		ref := newRef(m, src, false)
		ref.limit = 20000000
		want, ok := ref.Run()
		if !ok {
			t.Failf("harness: scale case %s over budget", sc.name)
		}
		c := &GC{m, src, ref, want}
		desc := func() string { return "scale case: " + sc.name + fmt.Sprintf(" (text of %d bytes)", len(src)) }
		t.note(c)
		t.guarded(desc, func() {
			b, p := newBuilder(m, 0)
			for rep := 0; rep < 2; rep++ {
				o := b.run(p, src, nil, nil)
				if d := o.diff(want); d != "" {
					t.Failf("%s in %s", short(d, 1500), desc())
				}
			}
		})
	}
}

func short(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// ---- C02 ----

// c02detour: A, tried and given up at some place, must be invisible in everything that follows.
func c02detour(t *T, idx int) {
	p := coreProfile()
	p.W[KError], p.W[KMatch], p.W[KTry] = 0, 6, 5
	p.Rules = 1
	p.Alpha = pick(t.Rng, alphabets)
	p.MaxDepth = 4
	gr := &genr{r: t.Rng, p: p, alpha: p.Alpha}
	P, A, B, Q := gr.gen(3, false, true, 0), gr.gen(4, false, true, 0), gr.gen(3, false, true, 0), gr.gen(2, false, true, 0)
	if rewrites(A) { // keep case rewrites of A inside A
		A = gTr(A, TrInPlace)
	}
	if t.P(30) {
		P = gRep(0, -1, gK(KFlat, gK(KLAN, gSeq(pick(t.Rng, p.Alpha))), gAny()))
	}
	dead := gK(KFlat, A, gK(KUnmatched))
	variants := []*G{
		gK(KFlat, P, B, Q),
		gK(KFlat, P, gK(KFirst, dead, B), Q),
		gK(KFlat, P, gRep(0, -1, A, gK(KUnmatched)), B, Q),
		gK(KFlat, P, gRep(0, 1, dead), B, Q),
		gK(KFlat, P, gK(KLAN, dead), B, Q),
		gK(KFlat, P, gK(KFirst, gK(KLA, A), &G{K: KZero}), B, Q),
		gK(KFlat, P, gK(KFirst, gTr(dead, TrErase), gK(KFirst, dead, dead), gK(KGroup, A, gK(KUnmatched)), B), Q),
		gK(KFlat, P, &G{K: KLBN, Min: 0, Max: 2, Ch: []*G{A, gK(KUnmatched)}}, B, Q),
		gK(KFlat, gK(KFirst, gK(KFlat, P, A, gK(KUnmatched)), P), B, Q),
		gK(KFlat, P, gRep(0, 1, gRep(2, 5, A, gK(KUser, gK(KFirst, gK(KLAN, gK(KFlat)), gK(KUnmatched))))), B, Q),
	}
	base := (&Gram{Root: variants[0]}).finish()
	for k := 0; k < 4; k++ {
		src := base.genInput(t.Rng)
		if t.P(60) { // make A likely to match at the place in question
			var sb strings.Builder
			base.sample(t.Rng, P, 0, &sb)
			base.sample(t.Rng, A, 0, &sb)
			src = sb.String() + src
		}
		var want Out
		for v, g := range variants {
			m := (&Gram{Root: g}).finish()
			ref := newRef(m, src, false)
			q, ok := ref.Run()
			if !ok {
				if v == 0 {
					break
				}
				continue
			}
			desc := func() string {
				return fmt.Sprintf("variant %d\n  P = %v\n  A (given up) = %v\n  B = %v\n  Q = %v\n  text %q", v, P, A, B, Q, src)
			}
			t.guarded(desc, func() {
				b, p := newBuilder(m, 0)
				_ = b
				o := outOf(p(*strp.NewStringParserContext(src)))
				t.Eval(1)
				if v == 0 {
					want = o
					return
				}
				t.Obs("abandoned branches", 1)
				if d := o.same(want); d != "" {
					t.Failf("%s: without the abandoned branch %v\n  with it %v\n  %s", d, want, o, desc())
				}
			})
			if v == 1 && q.St == MatchStatus_Matched && q.Pos > 0 {
				t.DistinctS(desc())
			}
			t.Sample(desc)
		}
	}
}

// c02big: the same with thousands of nodes, across the growth steps of the node list.
func c02big(t *T, idx int) {
	n := pick(t.Rng, []int{0, 1, 1000, 1020, 1023, 1024, 1025, 1300, 2047, 2048, 2500, 5000, 66000}) + t.N(3)
	k := t.R(0, 3000)
	text := strings.Repeat("x", n) + strings.Repeat("yz", k) + "end"
	P := gRep(n, n, gSeq("x"))
	var tr []TrKind
	for i := t.N(3); i > 0; i-- {
		tr = append(tr, pick(t.Rng, userTr))
	}
	A := gTr(gRep(0, -1, gK(KFirst, gTr(gSeq("y"), tr...), gSeq("z"))), tr...)
	B := gRep(0, -1, gK(KFirst, gSeq("y"), gSeq("z")))
	dead := gK(KFlat, A, gK(KUnmatched))
	vs := []*G{
		gK(KFlat, P, B, gSeq("end"), gK(KEnd)),
		gK(KFlat, P, gK(KFirst, dead, B), gK(KFirst, dead, gSeq("end")), gK(KEnd)),
		gK(KFlat, P, gK(KLA, A), B, gSeq("end"), gK(KEnd)),
		gK(KFlat, P, gRep(0, -1, A, gK(KUnmatched)), gRep(0, 1, dead), B, gSeq("end"), gK(KEnd)),
	}
	var want Out
	for v, g := range vs {
		desc := func() string {
			return fmt.Sprintf("variant %d with %d nodes before, %d given up (A = %v)", v, n, 2*k, A)
		}
		t.guarded(desc, func() {
			_, p := newBuilder((&Gram{Root: g}).finish(), 0)
			o := outOf(p(*strp.NewStringParserContext(text)))
			t.Eval(1)
			if v == 0 {
				want = o
				return
			}
			t.Obs("abandoned branches", 1)
			if d := o.same(want); d != "" {
				t.Failf("%s: %s", d, desc())
			}
		})
	}
	t.DistinctS(fmt.Sprint(n, k, tr))
}

// c02spill: a parser of the user's own that moves on, produces and fails, handing back everything it made.
func c02spill(t *T, idx int) {
	n := pick(t.Rng, []int{0, 1, 2, 3, 16, 255, 256, 299, 1000, 1023, 4000}) + t.N(60)
	before, after, move := t.N(40), t.N(40), t.N(20)
	fork := t.P(50) // own list, or the one it got
	mark := fmt.Sprint("spilt", t.N(9))
	spill := func() ParserFn {
		return LightBaseParser("spill", func(ctx ParserContext) (ParserContext, error) {
			if fork {
				ctx.AstStack = append(AstSlice(nil), ctx.AstStack...)
			}
			for i := 0; i < n; i++ {
				ctx.AstStack = append(ctx.AstStack, Ast{ClassName: mark, Type: AstType_Int, Value: int64(i), SourcePosition: ctx.SourcePosition})
			}
			ctx.SourcePosition.Position += move
			if len(ctx.Str) < ctx.SourcePosition.Position {
				ctx.SourcePosition.Position = len(ctx.Str)
			}
			ctx.Length = t.N(5)
			ctx.MatchStatus = MatchStatus_Unmatched
			return ctx, nil
		})
	}
	P := func() ParserFn { return Repeat(Times{Min: before, Max: before}, strp.Any()) }
	B := func() ParserFn { return Repeat(Times{Min: 0, Max: -1}, strp.Any()) }
	src := strings.Repeat("p", before) + strings.Repeat("b", after)
	keep := Trans(strp.Seq("p"), func(ctx ParserContext, a AstSlice) (AstSlice, error) { return a, nil })
	vs := []struct {
		name string
		mk   func() ParserFn
	}{
		{"nothing", func() ParserFn { return FlatGroup(P(), B()) }},
		{"first", func() ParserFn { return FlatGroup(P(), First(spill(), B())) }},
		{"first of many", func() ParserFn { return FlatGroup(P(), First(spill(), FlatGroup(spill()), spill(), B())) }},
		{"optional", func() ParserFn { return FlatGroup(P(), ZeroOrOnce(spill()), ZeroOrMoreTimes(spill()), B()) }},
		{"unfinished round", func() ParserFn { return FlatGroup(P(), ZeroOrMoreTimes(strp.Any(), spill()), B()) }},
		{"rounds", func() ParserFn {
			return FlatGroup(P(), Repeat(Times{Min: 0, Max: -1}, First(spill(), strp.Any())))
		}},
		{"group", func() ParserFn { return FlatGroup(P(), First(Group(P(), spill()), FlatGroup(keep, spill()), B())) }},
		{"negative look-ahead", func() ParserFn { return FlatGroup(P(), LookAheadN(spill()), B()) }},
		{"negative look-ahead after some", func() ParserFn { return FlatGroup(P(), LookAheadN(strp.Any(), spill()), B()) }},
		{"negative look-behind", func() ParserFn { return FlatGroup(P(), LookBehindN(0, 3, spill()), B()) }},
		{"look-ahead", func() ParserFn { return FlatGroup(P(), First(LookAhead(spill()), B())) }},
		{"trans", func() ParserFn {
			return FlatGroup(P(), First(Trans(spill(), func(ctx ParserContext, a AstSlice) (AstSlice, error) { return nil, nil }), B()))
		}},
		{"all fail", func() ParserFn { return FlatGroup(P(), ZeroOrOnce(First(spill(), spill())), B()) }},
	}
	var want Out
	for v, x := range vs {
		desc := func() string {
			return fmt.Sprintf("%s: a parser that makes %d nodes and moves by %d before it fails, %d nodes before and %d after (own list: %v)", x.name, n, move, before, after, fork)
		}
		t.guarded(desc, func() {
			o := outOf(x.mk()(*strp.NewStringParserContext(src)))
			t.Eval(1)
			if v == 0 {
				want = o
				return
			}
			t.Obs("abandoned branches", 1)
			if d := o.same(want); d != "" {
				t.Failf("%s: %s", short(d, 600), desc())
			}
		})
	}
	t.DistinctS(fmt.Sprint(n, before, after, move, fork))
}

// c02tail: many rounds of several parts, the last of them unfinished, and what follows.
func c02tail(t *T, idx int) {
	k := t.R(2, 9)
	n := pick(t.Rng, []int{0, 1, 2, 7, 31, 63, 64, 100, 127, 255, 300, 1000}) + t.N(3)
	before := t.N(4)
	body := func() (ps []ParserFn) {
		for i := 0; i < k; i++ {
			q := strp.Seq(string(rune('a' + i)))
			switch t.N(8) {
			case 0:
				q = FlatGroup(LookAhead(strp.Any()), q)
			case 1:
				q = First(Unmatched(), q)
			case 2:
				q = Trans(q, func(_ ParserContext, a AstSlice) (AstSlice, error) { return append(AstSlice(nil), a...), nil })
			case 3:
				q = Repeat(Times{Min: 1, Max: 1}, q)
			}
			ps = append(ps, q)
		}
		return
	}
	letters := ""
	for i := 0; i < k; i++ {
		letters += string(rune('a' + i))
	}
	j := t.N(k) // parts of the last, unfinished round
	src := strings.Repeat("-", before) + strings.Repeat(letters, n) + letters[:j] + pick(t.Rng, []string{"", "-", "--"})
	seen := -1
	var at int
	var got AstSlice
	probe := LightBaseParser("probe", func(ctx ParserContext) (ParserContext, error) {
		seen, at, got = len(ctx.AstStack), ctx.Position, cloneAsts(ctx.AstStack)
		ctx.MatchStatus = MatchStatus_Matched
		return ctx, nil
	})
	p := FlatGroup(Repeat(Times{Min: before, Max: before}, strp.Any()), ZeroOrMoreTimes(body()...), probe, ZeroOrMoreTimes(strp.Any()))
	desc := func() string {
		return fmt.Sprintf("%d rounds of %d parts, then %d parts, %d nodes before", n, k, j, before)
	}
	t.guarded(desc, func() {
		o := runStr(p, src)
		t.Eval(1)
		t.Obs("abandoned branches", 1)
		if seen != before+n*k || at != before+n*k {
			t.Failf("%s: what follows sees %d nodes at %d", desc(), seen, at)
		}
		for i, a := range got {
			if a.Value != src[i:i+1] || a.Position != i {
				t.Failf("%s: what follows sees %s as node %d", desc(), fmtAst(a), i)
			}
		}
		if o.St != MatchStatus_Matched || o.Ctx.Position != len(src) || len(o.Ctx.AstStack) != len(src) {
			t.Failf("%s: %s", desc(), short(o.String(), 300))
		}
	})
	t.DistinctS(desc())
}

// ---- C03 ----

func genRepeatRoot(r *Rng, p *Profile) *Gram {
	for {
		m := genGram(r, p)
		gr := &genr{r: r, p: p, alpha: pick(r, alphabets), rules: len(m.Rules)}
		for {
			g := gr.gen(r.R(1, 4), gr.rules > 0, true, 0)
			if g.K != KRepeat {
				continue
			}
			if r.P(50) {
				m.Root = g
			} else {
				m.Root = gK(KFlat, gr.gen(2, false, true, 0), g, gr.gen(1, false, true, 0))
			}
			return m.finish()
		}
	}
}

// c03bounds: every small {min,max} against every number of available rounds, whole and with a broken last round.
func c03bounds(t *T, idx int) {
	lo, hi, avail := idx%12-1, idx/12%12-1, idx/144
	if lo < 0 && avail%2 == 1 {
		lo = bound(t.Rng, -1)
	}
	if hi < 0 && avail%2 == 1 {
		hi = bound(t.Rng, -1)
	}
	if hi >= 0 {
		c03still(t, lo, hi, avail)
	}
	for broken := 0; broken < 2; broken++ {
		for shape := 0; shape < 3; shape++ {
			src := strings.Repeat("ab", avail)
			if broken == 1 {
				src += "ac"
			}
			var p ParserFn
			times := Times{Min: lo, Max: hi}
			per := 2
			switch shape {
			case 0:
				p = Repeat(times, strp.Seq("a"), strp.Seq("b"))
			case 1:
				p = Repeat(times, First(strp.Seq("x"), strp.Seq("ab")))
				per = 1
			case 2:
				p = Repeat(times, FlatGroup(strp.Seq("a"), Trans(strp.Seq("b"), TrSpec{K: TrDup}.build())))
				per = 3
			}
			rounds := avail
			if hi >= 0 && rounds > hi {
				rounds = hi
			}
			ok := rounds >= lo
			o := outOf(p(*strp.NewStringParserContext(src)))
			t.Eval(1)
			d := fmt.Sprintf("Repeat{%d,%d} shape %d on %q", lo, hi, shape, src)
			t.DistinctS(d)
			if (o.St == MatchStatus_Matched) != ok || o.St == MatchStatus_Error {
				t.Failf("%s: %d rounds possible, observed %v", d, rounds, o)
			}
			if ok {
				t.Obs("rounds checked", 1)
				if o.Ctx.Position != 2*rounds || len(o.Ctx.AstStack) != per*rounds || o.Ctx.Quantity != rounds {
					t.Failf("%s: %d rounds possible, reports %d, observed %v", d, rounds, o.Ctx.Quantity, o)
				}
			}
		}
	}
}

// c03still: rounds that consume nothing count as well.
func c03still(t *T, lo, hi, variant int) {
	calls := 0
	count := func(_ ParserContext, a AstSlice) (AstSlice, error) { calls++; return a, nil }
	wrap := func(_ ParserContext, a AstSlice) (AstSlice, error) {
		calls++
		return AstSlice{{ClassName: "w", Type: AstType_ListOfAst, Value: append(AstSlice{}, a...)}}, nil
	}
	body := []func() []ParserFn{
		func() []ParserFn { return []ParserFn{Match(1)(Case{If: TopIsAny, Let: []TransformerFn{wrap}})} },
		func() []ParserFn { return []ParserFn{Trans(Zero(), count)} },
		func() []ParserFn { return []ParserFn{Trans(ZeroOrOnce(strp.Seq("x")), count)} },
		func() []ParserFn {
			return []ParserFn{LookAhead(strp.Seq("b")), Trans(Zero(Ast{ClassName: "z"}), count)}
		},
		func() []ParserFn { return []ParserFn{FlatGroup(), Trans(LookAheadN(strp.Seq("a")), count)} },
		func() []ParserFn { return nil },
		func() []ParserFn { return []ParserFn{Trans(strp.Seq(""), count)} },
	}
	k := variant % len(body)
	inner := Repeat(Times{Min: lo, Max: hi}, body[k]()...)
	q := -1
	p := FlatGroup(strp.Seq("a"), func(ctx ParserContext) (ParserContext, error) {
		out, err := inner(ctx)
		q = out.Quantity
		return out, err
	}, strp.Seq("b"))
	o := outOf(p(*strp.NewStringParserContext("ab")))
	t.Eval(1)
	d := fmt.Sprintf("Repeat{%d,%d} over a part of kind %d that consumes nothing", lo, hi, k)
	t.DistinctS(d)
	if (o.St == MatchStatus_Matched) != (hi >= lo) {
		t.Failf("%s: observed %v", d, o)
	}
	if k != 5 && calls != hi {
		t.Failf("%s: made %d rounds", d, calls)
	}
	if o.St != MatchStatus_Matched {
		return
	}
	nodes, depth := 2, 0
	switch k {
	case 3, 6:
		nodes += hi
	case 0:
		for a := o.Ctx.AstStack[0]; a.Type == AstType_ListOfAst; depth++ {
			a = a.Value.(AstSlice)[0]
		}
		if depth != hi {
			t.Failf("%s: %d rounds left their mark: %v", d, depth, o)
		}
	}
	if q != hi || len(o.Ctx.AstStack) != nodes || o.Ctx.Position != 2 {
		t.Failf("%s: reports %d rounds, observed %v", d, q, o)
	}
	t.Obs("rounds that consume nothing", hi)
}

func c03long(t *T, idx int) {
	n := pick(t.Rng, []int{100, 127, 128, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 32767, 32768, 65535, 65536, 65537, 150000})
	src := strings.Repeat("ab", n)
	for _, lim := range []Times{{0, -1}, {1, -1}, {n - 1, n + 1}, {n, n}, {n + 1, -1}, {n + 1, n + 1}, {0, n - 1}, {-1, n / 2}, {n / 2, -1}, {n - 1, n - 1}} {
		rounds := n
		if lim.Max >= 0 && lim.Max < n {
			rounds = lim.Max
		}
		p := FlatGroup(Repeat(lim, Trans(strp.Seq("a"), Erase), strp.Seq("b")), LookAhead(First(strp.Any(), strp.End())))
		o := outOf(p(*strp.NewStringParserContext(src)))
		t.Eval(1)
		t.DistinctS(fmt.Sprint(lim, n))
		if (rounds >= lim.Min) != (o.St == MatchStatus_Matched) {
			t.Failf("Repeat%v over %d available rounds: %s", lim, n, o.St)
		}
		if o.St == MatchStatus_Matched {
			t.Obs("rounds checked", 1)
			if o.Ctx.Position != 2*rounds || len(o.Ctx.AstStack) != rounds {
				t.Failf("Repeat%v over %d available rounds: kept up to %d with %d nodes", lim, n, o.Ctx.Position, len(o.Ctx.AstStack))
			}
			q, err := Repeat(lim, strp.Seq("a"), strp.Seq("b"))(*strp.NewStringParserContext(src))
			if err != nil || q.Quantity != rounds {
				t.Failf("Repeat%v over %d available rounds reports %d rounds, should be %d", lim, n, q.Quantity, rounds)
			}
		}
	}
}

// ---- C04 ----

// c04behind compares look-behind at every place of a text with its definition, for fixed and variable length parts.
func c04behind(t *T, idx int) {
	al := pick(t.Rng, [][]string{{"a", "b"}, {"a", "é", "日"}, {"a", "b", "😀"}})
	s := ""
	for k := t.R(0, 12); k > 0; k-- {
		s += pick(t.Rng, al)
	}
	if t.P(5) {
		s = strings.Repeat(s+"a", t.R(10, 60))
	}
	lo := t.N(5)
	hi := lo + t.R(-2, 8)
	if t.P(10) {
		hi = len(s) + t.N(4)
	}
	w1 := pick(t.Rng, al)
	if t.P(50) {
		w1 += pick(t.Rng, al)
	}
	w2 := pick(t.Rng, al)
	step := 1
	if t.P(3) { // one landmark far behind
		n := pick(t.Rng, []int{100, 128, 250, 256, 260, 300, 520, 1030})
		w1, w2 = "XY", "X"
		s += "XY" + strings.Repeat(pick(t.Rng, []string{"a", "ab", "Y"}), n)
		lo, hi = t.N(5), len(s)+t.R(-4, 4)
		step = 1 + len(s)/40
	}
	if t.P(2) { // any distance at all
		hi = pick(t.Rng, []int{math.MaxInt, math.MaxInt - 1, math.MaxInt32, math.MaxInt/2 + 1})
		if t.P(10) {
			lo = hi - t.N(2)
		}
	}
	var parts []ParserFn
	var match func(rest string) bool
	switch t.N(4) {
	case 0:
		parts = []ParserFn{strp.Seq(w1)}
		match = func(rest string) bool { return strings.HasPrefix(rest, w1) }
	case 1:
		parts = []ParserFn{strp.Seq(w1), strp.Seq(w2)}
		match = func(rest string) bool { return strings.HasPrefix(rest, w1+w2) }
	case 2:
		parts = []ParserFn{First(strp.Seq(w1), strp.Seq(w2))}
		match = func(rest string) bool { return strings.HasPrefix(rest, w1) || strings.HasPrefix(rest, w2) }
	case 3:
		parts = []ParserFn{OneOrMoreTimes(strp.Seq(w2))}
		match = func(rest string) bool { return strings.HasPrefix(rest, w2) }
	}
	neg := t.P(50)
	p := LookBehind(lo, hi, parts...)
	if neg {
		p = LookBehindN(lo, hi, parts...)
	}
	wrap := t.N(3)
	for pos := t.N(step); pos <= len(s); pos += step {
		want := false
		for d := lo; d <= hi && d <= pos; d++ {
			if match(s[pos-d:]) {
				want = true
			}
		}
		want = want != neg
		ctx := *strp.NewStringParserContext(s)
		ctx.Position = pos
		ctx.AstStack = append(ctx.AstStack, Ast{ClassName: "before"})
		q := p
		switch wrap {
		case 1:
			q = FlatGroup(p)
		case 2:
			q = LookAhead(p, p)
		}
		o := outOf(q(ctx))
		t.Eval(1)
		d := fmt.Sprintf("look-behind(negative=%v) %d..%d in %q at %d (parts start %q/%q)", neg, lo, hi, s, pos, w1, w2)
		if o.St == MatchStatus_Error || (o.St == MatchStatus_Matched) != want {
			t.Failf("%s: should match=%v, observed %v", d, want, o)
		}
		if want {
			t.Obs("look-behind matched", 1)
			if o.Ctx.Position != pos || len(o.Ctx.AstStack) != 1 || o.Ctx.AstStack[0].ClassName != "before" {
				t.Failf("%s: moved or changed nodes: %v", d, o)
			}
		}
		t.DistinctS(d)
	}
}

// ---- C05 ----

type myErr struct{ code int }

func (e *myErr) Error() string { return fmt.Sprint("code ", e.code) }

// c05identity: the error value itself comes out of every nesting of combinators, transformers and production rules.
func c05identity(t *T, idx int) {
	var want error = &myErr{idx}
	if t.P(60) {
		want = oddErr(t.Rng)
	}
	pre := t.N(3)
	var failing ParserFn
	pos := pre
	calls := 0
	kind := t.N(7)
	src := strings.Repeat("a", pre) + "bcd"
	if t.P(50) { // ends where the error is raised
		src = src[:pre+[]int{0, 0, 1, 1, 1, 2, 1}[kind]]
	}
	tail := false
	switch kind {
	case 0:
		failing = func(ctx ParserContext) (ParserContext, error) { calls++; return ctx, want }
	case 1:
		failing = LightBaseParser("x", func(ctx ParserContext) (ParserContext, error) {
			calls++
			ctx.MatchStatus = MatchStatus_Unmatched
			return ctx, want
		})
	case 2:
		failing = BaseParser("x", func(n, b int, ctx ParserContext) (ParserContext, error) { calls++; return ctx, want }, nil, []ParserFn{strp.Seq("b")}, nil)
		pos = pre + 1
	case 3:
		failing = Trans(strp.Seq("b"), func(ctx ParserContext, asts AstSlice) (AstSlice, error) { calls++; return nil, want })
		pos = pre + 1
	case 4:
		failing = FlatGroup(strp.Seq("b"), Match(1)(Case{If: TopIsAny, Let: []TransformerFn{func(ctx ParserContext, asts AstSlice) (AstSlice, error) { calls++; return asts, want }}}))
		pos = pre + 1
	case 5:
		failing = Trans(strp.Seq("bc"), ProductionRule([]Precedence{{Rules: []ParserFn{func(ctx ParserContext) (ParserContext, error) { calls++; return ctx, want }}}}, FlatGroup(Start(), objp.Any(), objp.Any(), objp.End())))
		pos = pre + 2
	case 6:
		failing = BaseParser("x", func(n, b int, ctx ParserContext) (ParserContext, error) {
			if n < 0 {
				calls++
				return ctx, want
			}
			return ctx, nil
		}, nil, []ParserFn{strp.Seq("b")}, nil)
		pos = pre + 1
		tail = true
	}
	later := 0
	after := LightBaseParser("later", func(ctx ParserContext) (ParserContext, error) { later++; return ctx, nil })
	late := func(ctx ParserContext, asts AstSlice) (AstSlice, error) { later++; return asts, nil }
	p := failing
	var names []string
	for k := t.R(1, 6); k > 0; k-- {
		inner := p
		w := t.N(13)
		names = append(names, fmt.Sprint(w))
		switch w {
		case 0:
			p = First(inner, after)
		case 1:
			p = ZeroOrMoreTimes(inner, after)
		case 2:
			p = ZeroOrOnce(inner)
		case 3:
			p = LookAhead(inner, after)
		case 4:
			p = LookAheadN(inner)
		case 5:
			p = Trans(inner, late)
		case 6:
			p = Indirect(func() ParserFn { return inner })
		case 7:
			p = Group(inner, after)
		case 8:
			p = OneOrMoreTimes(First(strp.Seq("zz"), inner, after))
		case 9:
			p = LookBehind(0, 0, inner)
		case 10:
			p = BaseParser("neg", func(n, b int, ctx ParserContext) (ParserContext, error) { later++; return ctx, nil }, []interface{}{Negative{}, Rewind{}}, []ParserFn{inner}, nil)
		case 11:
			p = First(FlatGroup(strp.Seq("nope")), FlatGroup(inner, after), after)
		case 12:
			p = LookBehindN(0, 0, inner)
		}
	}
	p = FlatGroup(Repeat(Times{Min: pre, Max: pre}, strp.Seq("a")), p, after)
	o := outOf(p(*strp.NewStringParserContext(src)))
	t.Eval(1)
	t.Obs("outcome.Error", 1)
	d := fmt.Sprintf("failing part kind with final hook=%v inside wrappers %v (text %q)", tail, names, src)
	t.DistinctS(fmt.Sprint(d, pos, calls))
	if o.Ctx.MatchStatus != MatchStatus_Error || o.Err == nil || !inErr(o.Err, want) {
		t.Failf("raised %T %[1]v, observed %v (err %v): %s", want, o.Ctx.MatchStatus, o.Err, d)
	}
	if o.Ctx.Position != pos {
		t.Failf("reported position %d instead of %d: %s", o.Ctx.Position, pos, d)
	}
	if later != 0 || calls != 1 {
		t.Failf("after the error something was still tried (%d later calls, %d failures): %s", later, calls, d)
	}
}

// ---- C07 ----

func flatTokens(as []Ast, out []Ast) []Ast {
	for _, a := range as {
		if a.Type == AstType_ListOfAst {
			out = flatTokens(a.Value.(AstSlice), out)
			continue
		}
		out = append(out, a)
	}
	return out
}

func tokenOK(src string, a Ast) string {
	v, ok := a.Value.(string)
	if !ok || a.Type != AstType_String {
		return "is not a text token"
	}
	if a.Position < 0 || a.Length < 0 || a.Position+a.Length > len(src) {
		return "lies outside the source"
	}
	w := src[a.Position : a.Position+a.Length]
	if w != v && !(v == "\ufffd" && len(w) == 1 && w[0] >= 0x80) {
		return fmt.Sprintf("should carry %q, the source text at its place", w)
	}
	return ""
}

func c07judge(t *T, src string, end int, nodes []Ast, desc func() string) {
	toks := flatTokens(nodes, nil)
	at := 0
	for i, a := range toks {
		t.Obs("tokens", 1)
		if bad := tokenOK(src, a); bad != "" {
			t.Failf("token %d %s %s\n  %s", i, fmtAst(a), bad, desc())
		}
		if a.Position != at {
			t.Failf("token %d %s should begin at %d\n  %s", i, fmtAst(a), at, desc())
		}
		at += a.Length
	}
	if at != end {
		t.Failf("tokens cover %d bytes, the match %d\n  %s", at, end, desc())
	}
	t.Obs("rebuilt sources", 1)
}

func c07long(t *T, idx int) {
	src := ""
	var sb strings.Builder
	n := t.R(20000, 70000)
	al := pick(t.Rng, [][]string{{"a"}, {"a", "é", "日", "😀", "\xff"}, {"ab", "c\n", "1", " "}})
	for i := 0; i < n; i++ {
		sb.WriteString(pick(t.Rng, al))
	}
	src = sb.String()
	p := FlatGroup(ZeroOrMoreTimes(First(Group(strp.Seq("ab"), strp.CharClass("c\n", "1")), strp.Alpha(), strp.Number(), strp.Whitespace(), FlatGroup(LookAhead(strp.Any()), strp.Any()))), strp.End())
	o := outOf(p(*strp.NewStringParserContext(src)))
	t.Eval(1)
	t.DistinctS(src[:200])
	if o.St != MatchStatus_Matched {
		t.Failf("long text of %d bytes: %v", len(src), short(o.String(), 300))
	}
	c07judge(t, src, o.Ctx.Position, o.Ctx.AstStack, func() string { return fmt.Sprintf("long text of %d bytes", len(src)) })
}

// c07single: the context a single matcher returns tells where the match ended and how much it covered.
func c07single(t *T, idx int) {
	p := baseProfile()
	for k := KZero + 1; k < kindCount; k++ {
		p.W[k] = 0
	}
	p.W[KError], p.W[KZero] = 0, 4
	p.MaxDepth = 1
	p.Large = 4
	for rep := 0; rep < 12; rep++ {
		m := genGram(t.Rng, p)
		src := m.genInput(t.Rng)
		if t.P(50) {
			src = pick(t.Rng, pick(t.Rng, alphabets)) + src + pick(t.Rng, pick(t.Rng, alphabets))
		}
		pos := t.N(len(src) + 1)
		if t.P(4) { // far behind
			pre := strings.Repeat("x\n é", 1+pick(t.Rng, []int{50, 100, 13110, 13108, 14000}))
			src, pos = pre+src, len(pre)+pos
		}
		_, fn := newBuilder(m, 0)
		ctx := *strp.NewStringParserContext(src)
		ctx.Position, ctx.Length = pos, t.N(9)
		desc := func() string { return fmt.Sprintf("%s at %d of %s", m, pos, short(strconv.Quote(src), 3000)) }
		t.guarded(desc, func() {
			o := outOf(fn(ctx))
			t.Eval(1)
			if m.Root.K == KZero {
				t.Obs("inserted nodes", len(m.Root.Asts))
				want := cloneAsts(m.Root.Asts)
				for i := range want {
					want[i].SourcePosition = SourcePosition{Position: pos}
				}
				if o.St != MatchStatus_Matched || !astsEq(o.Ctx.AstStack, want, true) {
					t.Failf("inserted %s instead of %s\n  %s", fmtAsts(o.Ctx.AstStack), fmtAsts(want), desc())
				}
			}
			if o.St != MatchStatus_Matched {
				return
			}
			t.Obs("single matches", 1)
			if o.Ctx.Length != o.Ctx.Position-pos {
				t.Failf("covers %d..%d but reports the length %d\n  %s", pos, o.Ctx.Position, o.Ctx.Length, desc())
			}
			if n := len(o.Ctx.AstStack); n == 1 && m.Root.K != KZero && o.Ctx.AstStack[0].SourcePosition != (SourcePosition{Position: pos, Length: o.Ctx.Length}) {
				t.Failf("the token is placed at %v\n  %s", o.Ctx.AstStack[0].SourcePosition, desc())
			}
		})
	}
}

// c07kept: with parts erased or dropped, the remaining tokens still tell the truth, in order.
func c07kept(t *T, idx int) {
	p := baseProfile()
	p.W[KTrans], p.W[KMatch], p.W[KZero], p.W[KCustom], p.W[KError], p.W[KTry] = 20, 0, 5, 3, 0, 5
	p.TrW = map[TrKind]int{TrErase: 2, TrTail: 2, TrPop: 2, TrGroup: 1}
	var m *Gram
	for i := 0; i < perGram; i++ {
		c := t.genGC(p, m, false)
		if c == nil {
			return
		}
		m = c.m
		t.note(c)
		t.judge(c, 0, func(o Out, mon *Monitor, b *Builder) {
			if o.St != MatchStatus_Matched {
				return
			}
			at := 0
			for _, a := range flatTokens(o.Ctx.AstStack, nil) {
				if !strings.HasPrefix(a.ClassName, ":string:") || a.Type != AstType_String {
					continue // explicitly inserted nodes
				}
				if zeroNode(c.m, a) {
					continue
				}
				t.Obs("tokens", 1)
				if bad := tokenOK(c.src, a); bad != "" {
					t.Failf("token %s %s\n  %s", fmtAst(a), bad, c.desc())
				}
				if a.Position < at {
					t.Failf("token %s begins before the end %d of the previous one\n  %s", fmtAst(a), at, c.desc())
				}
				at = a.Position + a.Length
			}
		})
	}
}

func zeroNode(m *Gram, a Ast) bool {
	found := false
	var walk func(g *G)
	walk = func(g *G) {
		for _, z := range g.Asts {
			for _, y := range flatTokens([]Ast{z}, nil) {
				if a.SourcePosition.Length == 0 && a.Value != "" {
					y.SourcePosition = a.SourcePosition
				}
				found = found || astEq(y, a, true)
			}
		}
		for _, c := range g.Ch {
			walk(c)
		}
	}
	walk(m.Root)
	for _, r := range m.Rules {
		walk(r)
	}
	return found
}

func c07objects(t *T, idx int) {
	n := t.N(30)
	if t.P(3) {
		n = t.R(1000, 3000)
	}
	src := make(AstSlice, n)
	for i := range src {
		src[i] = Ast{Type: AstType_Int, Value: int64(t.N(3))}
	}
	one := func(v int) interface{} { return Ast{Type: AstType_Int, Value: int64(v)} }
	p := FlatGroup(ZeroOrMoreTimes(First(
		objp.Seq(one(0), one(1)),
		Group(objp.ObjClass(one(2)), objp.ObjClassN(one(2))),
		objp.ObjClassFn(func(c interface{}) bool { return c.(Ast).Value == int64(1) }),
		objp.Any(),
	)), objp.End())
	o := outOf(p(*objp.NewObjectParserContext(src)))
	t.Eval(1)
	if o.St != MatchStatus_Matched {
		t.Failf("object parse of %d items: %v", n, o)
	}
	at := 0
	for _, a := range flatTokens(o.Ctx.AstStack, nil) {
		t.Obs("tokens", 1)
		if a.Position != at {
			t.Failf("value token %s should begin at %d", fmtAst(a), at)
		}
		l := 1
		if s, ok := a.Value.(AstSlice); ok {
			l = len(s)
		}
		if a.Length != l {
			t.Failf("value token %s covers %d elements", fmtAst(a), l)
		}
		if s, ok := a.Value.(AstSlice); ok {
			if !astsEq(s, src[at:at+l], true) {
				t.Failf("value token %s should carry %s", fmtAst(a), fmtAsts(src[at:at+l]))
			}
		} else if !astEq(a.Value.(Ast), src[at], true) {
			t.Failf("value token %s should carry %s", fmtAst(a), fmtAst(src[at]))
		}
		at += l
	}
	if at != n {
		t.Failf("value tokens cover %d of %d elements", at, n)
	}
	for rep := 0; rep < 6; rep++ {
		ctx := *objp.NewObjectParserContext(src)
		pos := t.N(n + 1)
		ctx.Position, ctx.Length = pos, t.N(9)
		var run []interface{}
		for k := t.N(min(n-pos, pick(t.Rng, []int{4, 4, 9, 40})) + 1); k > 0; k-- {
			run = append(run, src[pos+len(run)])
		}
		k := t.N(6)
		o := outOf([]ParserFn{objp.Any(), objp.Seq(own(run)...), objp.ObjClass(one(0), one(1)), objp.ObjClassN(one(2)), objp.End(), objp.ObjClassFn(func(c interface{}) bool { return true })}[k](ctx))
		if o.St == MatchStatus_Matched && o.Ctx.Length != o.Ctx.Position-pos {
			t.Failf("matcher %d covers %d..%d of %d values but reports the length %d", k, pos, o.Ctx.Position, n, o.Ctx.Length)
		}
		t.Obs("single matches", b2i(o.St == MatchStatus_Matched))
	}
	t.Obs("rebuilt sources", 1)
	t.DistinctS(fmtAsts(src))
}

// ---- C08 ----

func c08long(t *T, idx int) {
	n := t.R(2000, 30000)
	src := strings.Repeat("ab", n) + "!"
	pred, cust, trans, cases, tail := 0, 0, 0, 0, 0
	lastPos := -1
	p := FlatGroup(
		ZeroOrMoreTimes(
			strp.CharClassFn(func(c rune) bool { pred++; return c == 'a' }),
			LightBaseParser("c", func(ctx ParserContext) (ParserContext, error) {
				cust++
				if ctx.Position <= lastPos {
					t.Failf("custom parser called at %d after %d", ctx.Position, lastPos)
				}
				lastPos = ctx.Position
				return strp.Seq("b")(ctx)
			}),
			Match(1)(Case{If: func(a AstSlice) bool { cases++; return true }}),
			Trans(Zero(Ast{ClassName: "z"}), func(ctx ParserContext, asts AstSlice) (AstSlice, error) { trans++; return nil, nil }),
		),
		First(strp.Seq("?"), strp.Seq("!"), LightBaseParser("never", func(ctx ParserContext) (ParserContext, error) { tail++; return ctx, nil })),
	)
	o := outOf(p(*strp.NewStringParserContext(src)))
	t.Eval(1)
	t.Obs("events", pred+cust+trans+cases)
	t.DistinctS(fmt.Sprint(n))
	if o.St != MatchStatus_Matched || len(o.Ctx.AstStack) != 2*n+1 {
		t.Failf("long run over %d rounds: %s with %d nodes", n, o.St, len(o.Ctx.AstStack))
	}
	if pred != n+1 || cust != n || trans != n || cases != n || tail != 0 {
		t.Failf("over %d rounds: predicate %d, custom parser %d, transformer %d, case test %d calls, later alternative %d", n, pred, cust, trans, cases, tail)
	}
}

// ---- C09 ----

// c09rules: what rule parsers, rule transformers and the goal see.
// anyTag: what callers pass as tags, including what can neither be compared nor is anything.
func anyTag(r *Rng, n int) interface{} {
	type tagT struct{ n int }
	if r.P(50) {
		return &tagT{n}
	}
	return pick(r, []interface{}{nil, (*tagT)(nil), 0, n, "", "tag", false, struct{}{}, tagT{n}, [2]int{n, 1}, []int{n}, []int(nil), map[string]int{"a": n}, map[string]int(nil), func() int { return n },
		(func())(nil), errors.New("e"), (*myErr)(nil), make(chan int), []byte("tag"), AstSlice{}, Ast{ClassName: "tag"}, &ParserContext{}, (*ParserContext)(nil), ParserContext{Str: "s"}, 0.5, 'x'})
}

// sameTag: the very same value, of whatever type.
func sameTag(a, b interface{}) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	if x.Type() != y.Type() {
		return false
	}
	switch x.Kind() {
	case reflect.Func:
		return x.IsNil() == y.IsNil() && x.Pointer() == y.Pointer()
	case reflect.Map, reflect.Slice:
		return x.IsNil() == y.IsNil() && x.Pointer() == y.Pointer() && x.Len() == y.Len()
	}
	if x.Type().Comparable() {
		return a == b
	}
	return reflect.DeepEqual(a, b)
}

func c09rules(t *T, idx int) {
	n := t.R(1, 8)
	src := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			src += pick(t.Rng, []string{"+", "*"})
		}
		src += pick(t.Rng, []string{"1", "2", "3"})
	}
	tag := anyTag(t.Rng, idx)
	seen := 0
	var cur AstSlice // the list being reduced, as last seen at its start
	check := func(where string, ctx ParserContext) {
		seen++
		if !sameTag(ctx.Tag, tag) {
			t.Failf("%s: tag is %v", where, ctx.Tag)
		}
		if ctx.Slice == nil {
			t.Failf("%s: no source", where)
		}
		s, ok := ctx.Slice.(AstSlice)
		if !ok {
			t.Failf("%s: the source is a %T", where, ctx.Slice)
		}
		cur = s
	}
	probe := func(where string) ParserFn {
		return LightBaseParser(where, func(ctx ParserContext) (ParserContext, error) {
			check(where, ctx)
			ctx.MatchStatus = MatchStatus_Matched
			return ctx, nil
		})
	}
	unwrap := func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
		check("unwrap", ctx)
		return AstSlice{asts[0].Value.(Ast)}, nil
	}
	isOp := func(op string) ParserFn {
		return Trans(objp.ObjClassFn(func(c interface{}) bool { v, _ := c.(Ast).Value.(string); return v == op }), unwrap)
	}
	isNum := Trans(objp.ObjClassFn(func(c interface{}) bool { _, ok := c.(Ast).Value.(int64); return ok }), unwrap)
	rule := func(op string) ParserFn {
		return Trans(FlatGroup(probe("rule "+op), isNum, LookAhead(probe("inside look-ahead"), objp.Any()), Indirect(func() ParserFn { return isOp(op) }), isNum),
			func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
				check("reduction", ctx)
				a, b := asts[0].Value.(int64), asts[2].Value.(int64)
				v := a + b
				if op == "*" {
					v = a * b
				}
				return AstSlice{{Type: AstType_Int, Value: v}}, nil
			})
	}
	want := int64(0)
	for _, term := range strings.Split(src, "+") {
		f := int64(1)
		for _, x := range strings.Split(term, "*") {
			f *= int64(x[0] - '0')
		}
		want += f
	}
	lens := 0
	goal := FlatGroup(LightBaseParser("goal", func(ctx ParserContext) (ParserContext, error) {
		check("goal", ctx)
		lens++
		ctx.MatchStatus = MatchStatus_Matched
		return ctx, nil
	}), Start(), objp.Any(), objp.End())
	p := FlatGroup(Trans(FlatGroup(OneOrMoreTimes(First(
		Trans(strp.Number(), strp.ParseInt), strp.Any()))), ProductionRule([]Precedence{{Rules: []ParserFn{rule("*")}, Rtol: t.P(50)}, {Rules: []ParserFn{rule("+")}}}, goal)), strp.End())
	ctx := strp.NewStringParserContextWithTag(src, tag)
	o := outOf(p(*ctx))
	t.Eval(1)
	t.Obs("rule contexts checked", seen)
	t.DistinctS(src)
	t.Sample(func() string { return fmt.Sprintf("%q reduced to %s, %d contexts seen", src, o.String(), seen) })
	if !sameTag(o.Ctx.Tag, tag) {
		t.Failf("%q: result tag is %v", src, o.Ctx.Tag)
	}
	if o.St != MatchStatus_Matched || len(o.Ctx.AstStack) != 1 || o.Ctx.AstStack[0].Value != want {
		t.Failf("%q: the rules saw another list than the one being reduced? result %v, should be %d", src, o, want)
	}
	if len(cur) != 1 || cur[0].Value != want {
		t.Failf("%q: the goal last saw %s", src, fmtAsts(cur))
	}
}

type intSlice []int

func (s intSlice) Len() int                         { return len(s) }
func (s intSlice) Get(i int) interface{}            { return s[i] }
func (s intSlice) Set(i int, v interface{})         { s[i] = v.(int) }
func (s intSlice) Reslice(a, b int) SliceLike       { return s[a:b] }
func (s intSlice) Copy(a, b int) SliceLike          { return append(make(intSlice, 0, b-a), s[a:b]...) }
func (s intSlice) Make(l, c int) SliceLike          { return make(intSlice, l, c) }
func (s intSlice) ItemEquals(a, b interface{}) bool { return a.(int) == b.(int) }

func c09objects(t *T, idx int) {
	s := make(intSlice, t.N(20))
	for i := range s {
		s[i] = t.N(4)
	}
	tag := anyTag(t.Rng, idx)
	seen := 0
	check := func(where string, ctx ParserContext) {
		seen++
		if !sameTag(ctx.Tag, tag) {
			t.Failf("%s: tag is %v", where, ctx.Tag)
		}
		g, ok := ctx.Slice.(intSlice)
		if !ok || len(g) != len(s) || (len(g) > 0 && &g[0] != &s[0]) {
			t.Failf("%s: the source is not the caller's", where)
		}
	}
	probe := LightBaseParser("p", func(ctx ParserContext) (ParserContext, error) {
		check("custom parser", ctx)
		ctx.MatchStatus = MatchStatus_Matched
		return ctx, nil
	})
	tr := func(ctx ParserContext, asts AstSlice) (AstSlice, error) { check("transformer", ctx); return asts, nil }
	hook := BaseParser("h", func(n, b int, ctx ParserContext) (ParserContext, error) { check("hook", ctx); return ctx, nil }, []interface{}{Times{0, 2}}, []ParserFn{objp.ObjClass(1, 2)}, nil)
	p := FlatGroup(ZeroOrMoreTimes(First(
		FlatGroup(objp.Seq(0, 1), probe, Unmatched()),
		Trans(objp.Seq(1, 1), tr),
		FlatGroup(LookAhead(hook, probe), LookBehind(1, 2, probe, objp.ObjClass(1)), objp.Any()),
		Trans(Indirect(func() ParserFn { return FlatGroup(probe, objp.ObjClassN(9)) }), tr, tr),
	), Match(1)(Case{If: TopIsAny, Let: []TransformerFn{tr}})), objp.End())
	o := outOf(p(*objp.NewObjectParserContextWithTag(s, tag)))
	t.Eval(1)
	t.Obs("contexts checked", seen)
	t.DistinctS(fmt.Sprint(s))
	if o.St != MatchStatus_Matched {
		t.Failf("object parse of %v: %v", s, o)
	}
	check("result", o.Ctx)
}

var _ = utf8.RuneError

// c07values: every value matcher over sources of every kind: the token names the elements, their place and number.
func c07values(t *T, idx int) {
	k := pick(t.Rng, srcKinds)
	n := t.N(8)
	if t.P(3) {
		n = pick(t.Rng, []int{255, 256, 257, 65535, 65536, 65600})
	}
	elems := make([]interface{}, n)
	for i := range elems {
		elems[i] = k.gen(t.Rng)
	}
	bad := ""
	gets, eqs := 0, 0
	src := &watched{n: n, at: func(i int) interface{} { return elems[i] }, eq: k.eq, bad: &bad, gets: &gets, eqs: &eqs, whole: n}
	for rep := 0; rep < 6; rep++ {
		pos := t.N(n + 1)
		if t.P(40) {
			pos = max(0, n-t.N(4))
		}
		var vals []interface{}
		for j := t.N(5); j > 0; j-- {
			vals = append(vals, k.gen(t.Rng))
		}
		m := t.N(5)
		want := 1
		if m == 1 {
			want = len(vals)
			for j := range vals {
				if pos+j < n && t.P(80) {
					vals[j] = elems[pos+j]
				}
			}
		}
		desc := fmt.Sprintf("%s at %d of %d elements (%s)", []string{"Any", "Seq", "ObjClass", "ObjClassN", "ObjClassFn"}[m], pos, n, k.name)
		if n < 300 {
			desc += fmt.Sprintf(" %v, values %v", elems, vals)
		}
		p := []func() ParserFn{objp.Any, func() ParserFn { return objp.Seq(own(vals)...) }, func() ParserFn { return objp.ObjClass(own(vals)...) },
			func() ParserFn { return objp.ObjClassN(own(vals)...) }, func() ParserFn { return objp.ObjClassFn(func(interface{}) bool { return true }) }}[m]()
		ctx := *objp.NewObjectParserContext(src)
		ctx.Position, ctx.Length = pos, t.N(9)
		t.guarded(func() string { return desc }, func() {
			o := outOf(p(ctx))
			t.Eval(1)
			if bad != "" {
				t.Failf("%s\n  %s", bad, desc)
			}
			if o.St != MatchStatus_Matched {
				return
			}
			t.Obs("value tokens", 1)
			if len(o.Ctx.AstStack) != 1 || o.Ctx.Position != pos+want || o.Ctx.Length != want {
				t.Failf("moved to %d, reports the length %d, nodes %s\n  %s", o.Ctx.Position, o.Ctx.Length, fmtAsts(o.Ctx.AstStack), desc)
			}
			a := o.Ctx.AstStack[0]
			if a.SourcePosition != (SourcePosition{Position: pos, Length: want}) {
				t.Failf("the token is placed at %v\n  %s", a.SourcePosition, desc)
			}
			if m == 1 {
				w, ok := a.Value.(*watched)
				if !ok || a.Type != AstType_ListOfAny || w.n != want {
					t.Failf("the token carries %v of type %v\n  %s", a.Value, a.Type, desc)
				}
				for j := 0; j < want; j++ {
					if !sameElem(w.Get(j), elems[pos+j]) {
						t.Failf("element %d of the token is %v\n  %s", j, w.Get(j), desc)
					}
				}
			} else if a.Type != AstType_Any || !sameElem(a.Value, elems[pos]) {
				t.Failf("the token carries %v of type %v\n  %s", a.Value, a.Type, desc)
			}
			t.DistinctS(fmt.Sprint(desc, pos))
		})
	}
}
