package main

import (
	"fmt"

	. "github.com/shellyln/takenoco/base"
	strp "github.com/shellyln/takenoco/string"
)

// GC is one judged grammar and text.
type GC struct {
	m    *Gram
	src  string
	ref  *Ref
	want Res
}

func (c *GC) desc() string {
	if c.m.obj {
		return fmt.Sprintf("grammar (over values) %s\n  values %q", c.m, c.src)
	}
	return fmt.Sprintf("grammar %s\n  text %q", c.m, c.src)
}

// next draws grammars and texts until one lies within the step budget and the documented behaviour.
func (t *T) genGC(p *Profile, m *Gram, trace bool) *GC {
	for try := 0; try < 50; try++ {
		if m == nil || try > 10 {
			m = t.gram(p, genGram)
		}
		src := m.genInput(t.Rng)
		ref := newRef(m, src, trace)
		if q, ok := ref.Run(); ok {
			return &GC{m, src, ref, q}
		}
	}
	return nil
}

// guarded runs fn; a run beyond its step limit or a panic is a failure of that run.
func (t *T) guarded(desc func() string, fn func()) {
	defer func() {
		if x := recover(); x != nil {
			switch w := x.(type) {
			case caseFail:
				panic(w)
			case stepsExceeded:
				panic(caseFail{msg: fmt.Sprintf("does not stop: %d calls where the documented run makes far fewer\n  %s", w.n, desc())})
			default:
				panic(caseFail{msg: fmt.Sprintf("panic: %v\n  %s\n%s", x, desc(), stack())})
			}
		}
	}()
	fn()
}

func (t *T) note(c *GC) {
	t.Eval(1)
	nm := 0
	for k, n := range c.ref.used {
		if n > 0 {
			t.Obs("ran."+kindNames[k], n)
		}
		if h := c.ref.hit[k]; h > 0 {
			nm += h
			t.Obs("matched."+kindNames[k], h)
		}
	}
	t.Obs("outcome."+c.want.St.String(), 1)
	if nm >= 2 && c.ref.steps >= 4 {
		t.DistinctS(c.m.String() + "\x00" + c.src)
	}
	t.Sample(func() string { return c.desc() + " => " + c.want.String() })
}

// judge runs the real parser in the given probe mode and hands outcome and monitor to the oracle.
func (t *T) judge(c *GC, mode int, oracle func(o Out, mon *Monitor, b *Builder)) {
	t.guarded(c.desc, func() {
		b, p := newBuilder(c.m, mode)
		tag := anyTag(t.Rng, t.Idx)
		mon := &Monitor{src: c.src, tag: tag, max: (c.ref.steps+c.ref.calls)*20 + 1000}
		switch mode {
		case 1:
			mon.ev = c.ref.ev
		case 2:
			mon.ev = userEvents(c.m, c.ref.ev)
		}
		if mode > 0 && mon.ev == nil {
			mon.ev = []Event{}
		}
		o := b.run(p, c.src, tag, mon)
		if mode > 0 {
			t.Obs("events", mon.seen)
			if mon.order == "" && mon.mute == 0 && mon.next < len(mon.ev) {
				mon.order = fmt.Sprintf("the run ended after %d of %d documented events; next should be %v", mon.next, len(mon.ev), mon.ev[mon.next])
			}
		}
		oracle(o, mon, b)
	})
}

func stagesN(tier string, quick int) int {
	if tier == "thorough" {
		return quick * 40
	}
	return quick
}

// coreProfile leaves the character classes, word boundaries and node transformers to the properties that own them.
func coreProfile() *Profile {
	p := baseProfile()
	for k := KWs; k <= KHex; k++ {
		p.W[k] = 0
	}
	p.W[KSeqI], p.W[KWB], p.W[KUWB] = 0, 0, 0
	p.TrW = userTrW()
	p.TrW[TrErase], p.TrW[TrGroup], p.TrW[TrPop], p.TrW[TrClass], p.TrW[TrOp] = 1, 1, 1, 1, 1
	p.Bulk, p.Large, p.Far = 2, 2, 4
	p.Obj = 10
	return p
}

// bareError: the outermost parser is a plain function that fails without touching the status.
func bareError(g *G) bool {
	if g.K == KIf {
		if g.B {
			return bareError(g.Ch[0])
		}
		return bareError(g.Ch[1])
	}
	return g.K == KError && g.Sugar == 1
}

const perGram = 6

func init() {
	register(&Prop{
		ID:   "C01",
		Rule: "a case is a random grammar with one text; non-trivial if at least two of its parts matched and at least four were tried",
		Assume: []string{"grammars are well formed: unbounded repetitions consume, recursion consumes first",
			"the reference evaluator (persistent node list, no code shared with the library) states the documented meaning"},
		MinObs: map[string]int64{"outcome.Matched": 1000, "outcome.Unmatched": 1000, "outcome.Error": 100},
		Stages: func(tier string) []Stage {
			run := func(t *T, p *Profile) {
				var m *Gram
				for i := 0; i < perGram; i++ {
					c := t.genGC(p, m, false)
					if c == nil {
						return
					}
					m = c.m
					t.note(c)
					for _, mode := range []int{0, 1} {
						t.judge(c, mode, func(o Out, mon *Monitor, b *Builder) {
							if d := o.diff(c.want); d != "" {
								t.Failf("%s: documented %v\n  observed %v\n  %s", d, c.want, o, c.desc())
							}
						})
					}
				}
			}
			return []Stage{
				{Name: "grammars", N: stagesN(tier, 20000), Fn: func(t *T, i int) {
					p := baseProfile()
					p.Bulk, p.Large, p.Far = 2, 3, 4
					run(t, p)
				}},
				{Name: "scale", N: len(scaleCases), Serial: false, Fn: func(t *T, i int) { scaleRun(t, scaleCases[i]) }},
				{Name: "deepgrammars", N: stagesN(tier, 3000), Fn: func(t *T, i int) {
					p := baseProfile()
					p.MaxDepth, p.MaxCh = 9, 7
					run(t, p)
				}},
			}
		},
	})

	register(&Prop{
		ID:     "C02",
		Rule:   "a case is a random grammar with one text whose every sub-parser reports what it is handed; non-trivial if at least two parts matched and four were tried",
		Assume: []string{"user code follows the rules: it changes only nodes of its own parser"},
		MinObs: map[string]int64{"events": 100000, "abandoned branches": 1000},
		Stages: func(tier string) []Stage {
			p := coreProfile()
			p.W[KTry], p.W[KFirst], p.W[KMatch], p.W[KError], p.W[KLA], p.W[KLAN] = 10, 30, 8, 0, 8, 6
			p.MaxDepth = 6
			return []Stage{
				{Name: "probes", N: stagesN(tier, 20000), Fn: func(t *T, i int) {
					var m *Gram
					for i := 0; i < perGram; i++ {
						c := t.genGC(p, m, true)
						if c == nil {
							return
						}
						m = c.m
						t.note(c)
						t.judge(c, 1, func(o Out, mon *Monitor, b *Builder) {
							if mon.leak != "" {
								t.Failf("%s\n  %s", mon.leak, c.desc())
							}
						})
					}
				}},
				{Name: "detour", N: stagesN(tier, 25000), Fn: c02detour},
				{Name: "bigdetour", N: stagesN(tier, 60), Fn: c02big},
				{Name: "tail", N: stagesN(tier, 3000), Fn: c02tail},
				{Name: "spill", N: stagesN(tier, 1500), Fn: c02spill},
			}
		},
	})

	register(&Prop{
		ID:     "C03",
		Rule:   "a case is a random grammar whose root is a repetition (or a sequence around one) with one text; non-trivial if at least two parts matched and four were tried",
		MinObs: map[string]int64{"rounds checked": 1000, "matched.Repeat": 1000},
		Stages: func(tier string) []Stage {
			p := coreProfile()
			p.W[KRepeat], p.W[KError], p.W[KMatch], p.W[KTrans], p.W[KUser] = 40, 0, 2, 2, 0
			p.TrW = userTrW()
			return []Stage{
				{Name: "repeats", N: stagesN(tier, 20000), Fn: func(t *T, i int) {
					var m *Gram
					for i := 0; i < perGram; i++ {
						var c *GC
						if m == nil {
							m = t.gram(p, genRepeatRoot)
						}
						c = t.genGCm(m, true)
						if c == nil {
							return
						}
						t.note(c)
						for _, mode := range []int{0, 1} {
							t.judge(c, mode, func(o Out, mon *Monitor, b *Builder) {
								if d := o.diff(c.want); d != "" {
									t.Failf("%s: documented %v\n  observed %v\n  %s", d, c.want, o, c.desc())
								}
								if c.m.Root.K == KRepeat && o.St == MatchStatus_Matched {
									t.Obs("rounds checked", 1)
									if o.Ctx.Quantity != c.want.Q {
										t.Failf("reports %d rounds, made %d\n  %s", o.Ctx.Quantity, c.want.Q, c.desc())
									}
								}
								if mode == 1 && mon.qty != "" {
									t.Failf("%s\n  %s", mon.qty, c.desc())
								}
							})
						}
					}
				}},
				{Name: "bounds", N: 12 * 12 * 14, Fn: c03bounds},
				{Name: "long", N: stagesN(tier, 40), Fn: c03long},
			}
		},
	})

	register(&Prop{
		ID:     "C04",
		Rule:   "a case is a random grammar heavy in zero-width assertions with one text; non-trivial if at least two parts matched and four were tried",
		MinObs: map[string]int64{"matched.LookAhead": 500, "matched.LookAheadN": 500, "matched.LookBehind": 300, "matched.LookBehindN": 300, "matched.Start": 200, "matched.End": 200},
		Stages: func(tier string) []Stage {
			p := coreProfile()
			p.W[KLA], p.W[KLAN], p.W[KLB1], p.W[KLBN], p.W[KStart], p.W[KEnd], p.W[KZero], p.W[KUser], p.W[KUnmatched] = 22, 22, 22, 22, 10, 10, 8, 8, 4
			p.W[KMatch], p.W[KTrans], p.W[KRepeat] = 5, 3, 10
			p.W[KWB], p.W[KUWB] = 0, 0
			p.TrW = userTrW()
			return []Stage{
				{Name: "lookaround", N: stagesN(tier, 20000), Fn: func(t *T, i int) {
					var m *Gram
					for i := 0; i < perGram; i++ {
						c := t.genGC(p, m, true)
						if c == nil {
							return
						}
						m = c.m
						t.note(c)
						t.judge(c, 1, func(o Out, mon *Monitor, b *Builder) {
							if mon.stays != "" {
								t.Failf("%s\n  %s", mon.stays, c.desc())
							}
							if d := o.diff(c.want); d != "" {
								t.Failf("%s: documented %v\n  observed %v\n  first departure: %s\n  %s", d, c.want, o, mon.order, c.desc())
							}
						})
					}
				}},
				{Name: "behind", N: stagesN(tier, 3000), Fn: c04behind},
			}
		},
	})

	register(&Prop{
		ID:     "C05",
		Rule:   "a case is a random grammar with error sources with one text; non-trivial if at least two parts matched and four were tried",
		MinObs: map[string]int64{"outcome.Error": 2000, "error from parser": 500, "error from user parser": 500, "error from transformer": 300},
		Stages: func(tier string) []Stage {
			p := coreProfile()
			p.W[KError], p.W[KMatch], p.W[KTrans] = 8, 5, 10
			p.TrW = map[TrKind]int{TrFailIf: 6, TrLibErr: 2, TrReverse: 2, TrDup: 2, TrErase: 1, TrTail: 1, TrCount: 1}
			return []Stage{{Name: "errors", N: stagesN(tier, 20000), Fn: func(t *T, i int) {
				var m *Gram
				for i := 0; i < perGram; i++ {
					c := t.genGC(p, m, true)
					if c == nil {
						return
					}
					m = c.m
					t.note(c)
					if c.want.St != MatchStatus_Error {
						continue
					}
					last := c.ref.ev[len(c.ref.ev)-1]
					for k := len(c.ref.ev) - 1; k >= 0; k-- {
						if e := c.ref.ev[k]; e.Kind == 'T' || e.Kind == 'E' {
							last = e
							break
						}
					}
					for _, mode := range []int{0, 1, 2} {
						t.judge(c, mode, func(o Out, mon *Monitor, b *Builder) {
							if o.St != MatchStatus_Error {
								t.Failf("the error %q was swallowed: observed %v\n  %s", c.want.Err, o, c.desc())
							}
							if o.Ctx.MatchStatus != MatchStatus_Error && !bareError(c.m.Root) {
								t.Failf("error returned with status %v\n  %s", o.Ctx.MatchStatus, c.desc())
							}
							if o.Err == nil || (o.Err == errMute && c.want.Err != errMute) {
								t.Failf("error status without the error %q\n  %s", c.want.Err, c.desc())
							}
							if !c.want.AnyErr && o.Err.Error() != c.want.Err.Error() {
								t.Failf("error is %q instead of %q\n  %s", o.Err, c.want.Err, c.desc())
							}
							if !c.want.AnyErr && (isUserError(c.m, last.ID) || userFail(c.m, last)) && !sameErr(o.Err, c.want.Err) {
								t.Failf("not the error value raised, but another one reading %q\n  %s", o.Err, c.desc())
							}
							if o.Ctx.Position != c.want.Pos {
								t.Failf("error %q reported at %d instead of %d\n  %s", o.Err, o.Ctx.Position, c.want.Pos, c.desc())
							}
							if mon.order != "" {
								t.Failf("%s\n  %s", mon.order, c.desc())
							}
						})
					}
					switch {
					case last.Kind == 'T':
						t.Obs("error from transformer", 1)
					case isUserError(c.m, last.ID):
						t.Obs("error from user parser", 1)
					default:
						t.Obs("error from parser", 1)
					}
				}
			}},
				{Name: "identity", N: stagesN(tier, 2000), Fn: c05identity},
			}
		},
	})

	register(&Prop{
		ID:     "C07",
		Rule:   "a case is a random grammar without transformations with one text; non-trivial if at least two parts matched and four were tried",
		MinObs: map[string]int64{"tokens": 20000, "rebuilt sources": 5000},
		Stages: func(tier string) []Stage {
			p := baseProfile()
			p.Bulk, p.Large, p.Far = 2, 1, 30
			p.W[KTrans], p.W[KMatch], p.W[KZero], p.W[KCustom] = 0, 0, 0, 0
			p.W[KError], p.W[KUnmatched] = 0, 1
			return []Stage{
				{Name: "tokens", N: stagesN(tier, 25000), Fn: func(t *T, i int) {
					var m *Gram
					for i := 0; i < perGram; i++ {
						c := t.genGC(p, m, false)
						if c == nil {
							return
						}
						m = c.m
						t.note(c)
						t.judge(c, 0, func(o Out, mon *Monitor, b *Builder) {
							if o.St == MatchStatus_Matched {
								c07judge(t, c.src, o.Ctx.Position, o.Ctx.AstStack, c.desc)
							}
						})
					}
				}},
				{Name: "long", N: stagesN(tier, 40), Fn: c07long},
				{Name: "objects", N: stagesN(tier, 5000), Fn: c07objects},
				{Name: "inserted", N: stagesN(tier, 2000), Fn: c07kept},
				{Name: "single", N: stagesN(tier, 8000), Fn: c07single},
				{Name: "values", N: stagesN(tier, 4000), Fn: c07values},
			}
		},
	})

	register(&Prop{
		ID:     "C08",
		Rule:   "a case is a random grammar with one text whose calls are compared with the documented order; non-trivial if at least two parts matched and four were tried",
		MinObs: map[string]int64{"events": 200000},
		Stages: func(tier string) []Stage {
			p := coreProfile()
			p.W[KFn], p.W[KCustom], p.W[KTry], p.W[KTrans], p.W[KMatch] = 8, 8, 6, 14, 6
			p.W[KLB1], p.W[KLBN] = 0, 0
			q := coreProfile()
			q.W[KFn], q.W[KCustom], q.W[KTry], q.W[KTrans], q.W[KMatch], q.W[KError] = 8, 8, 6, 18, 8, 4
			q.TrW = userTrW()
			q.TrW[TrFailIf], q.TrW[TrLibErr] = 8, 2
			run := func(t *T, p *Profile) {
				var m *Gram
				for i := 0; i < perGram; i++ {
					c := t.genGC(p, m, true)
					if c == nil {
						return
					}
					m = c.m
					t.note(c)
					for _, mode := range []int{1, 2} {
						t.judge(c, mode, func(o Out, mon *Monitor, b *Builder) {
							if mon.order != "" {
								t.Failf("%s\n  %s", mon.order, c.desc())
							}
						})
					}
				}
			}
			return []Stage{
				{Name: "order", N: stagesN(tier, 20000), Fn: func(t *T, i int) { run(t, p) }},
				{Name: "failing", N: stagesN(tier, 12000), Fn: func(t *T, i int) { run(t, q) }},
				{Name: "long", N: stagesN(tier, 60), Fn: c08long},
				{Name: "behind", N: stagesN(tier, 4000), Fn: c08behind},
			}
		},
	})

	register(&Prop{
		ID:     "C09",
		Rule:   "a case is a random grammar with one text and a tag; non-trivial if at least two parts matched and four were tried",
		MinObs: map[string]int64{"contexts checked": 200000, "rule contexts checked": 2000},
		Stages: func(tier string) []Stage {
			p := coreProfile()
			p.W[KCustom], p.W[KTry], p.W[KTrans], p.W[KMatch], p.W[KUser] = 8, 6, 14, 6, 5
			return []Stage{
				{Name: "tags", N: stagesN(tier, 15000), Fn: func(t *T, i int) {
					var m *Gram
					for i := 0; i < perGram; i++ {
						c := t.genGC(p, m, false)
						if c == nil {
							return
						}
						m = c.m
						t.note(c)
						for _, mode := range []int{1, 2} {
							t.judge(c, mode, func(o Out, mon *Monitor, b *Builder) {
								t.Obs("contexts checked", mon.steps)
								if mon.ctxbad != "" {
									t.Failf("%s\n  %s", mon.ctxbad, c.desc())
								}
								if _, ok := o.Ctx.Tag.(spoiltTag); !(ok && o.St == MatchStatus_Unmatched) && !sameTag(o.Ctx.Tag, mon.tag) {
									t.Failf("the result carries tag %v instead of %v (status %v)\n  %s", o.Ctx.Tag, mon.tag, o.St, c.desc())
								}
								if o.St == MatchStatus_Matched && !c.m.obj && o.Ctx.Str != c.src {
									t.Failf("the result carries another source\n  %s", c.desc())
								}
							})
						}
					}
				}},
				{Name: "rules", N: stagesN(tier, 4000), Fn: c09rules},
				{Name: "objects", N: stagesN(tier, 2000), Fn: c09objects},
			}
		},
	})
}

// c08behind: in which order the distances of a look-behind are tried is nobody's business, but each is tried
// at most once, its parts in order up to the first that fails, and nothing runs after a match.
func c08behind(t *T, idx int) {
	p := coreProfile()
	p.W[KMatch], p.W[KInd], p.Rules, p.MaxDepth, p.W[KError] = 0, 0, 0, 1, 0
	g := &genr{r: t.Rng, p: p, alpha: pick(t.Rng, alphabets)}
	root := &G{K: KFlat}
	for i := t.R(1, 4); i > 0; i-- {
		root.Ch = append(root.Ch, g.gen(1, false, false, 0))
	}
	m := &Gram{Root: root}
	m.finish()
	b := &Builder{m: m, ind: map[int]ParserFn{}, expand: map[int]int{}}
	type call struct {
		part, pos int
		st        MatchStatusType
		err       error
	}
	var log []call
	var parts []ParserFn
	for i, q := range b.list(root.Ch) {
		i, q := i, q
		parts = append(parts, func(ctx ParserContext) (ParserContext, error) {
			k := len(log)
			log = append(log, call{part: i, pos: ctx.Position})
			out, err := q(ctx)
			log[k].st, log[k].err = out.MatchStatus, err
			return out, err
		})
	}
	neg := t.P(40)
	lo := t.N(3)
	hi := lo + pick(t.Rng, []int{0, 1, 2, 3, 5, 8, 20})
	behind := LookBehind(lo, hi, parts...)
	if neg {
		behind = LookBehindN(lo, hi, parts...)
	}
	for rep := 0; rep < 4; rep++ {
		src := m.genInput(t.Rng) + m.genInput(t.Rng)
		at := t.N(len(src) + 1)
		desc := func() string {
			return fmt.Sprintf("look-behind %d..%d (negative: %v) of %v\n  text %q at %d\n  parts tried {part, position, status, error}: %v", lo, hi, neg, root, src, at, log)
		}
		log = log[:0]
		t.guarded(desc, func() {
			ctx := strp.NewStringParserContext(src)
			ctx.Position = at
			o := outOf(behind(*ctx))
			tried := map[int]bool{}
			settled := false
			for k, c := range log {
				if settled {
					t.Failf("parts are tried after the outcome is settled: %s", desc())
				}
				if c.part == 0 {
					if d := at - c.pos; d < lo || d > hi || c.pos < 0 || tried[d] {
						t.Failf("distance %d is tried beyond the bounds or again: %s", d, desc())
					}
					tried[at-c.pos] = true
					if k > 0 && log[k-1].st == MatchStatus_Matched {
						t.Failf("an attempt is given up though its last part tried matched: %s", desc())
					}
				} else if k == 0 || log[k-1].part != c.part-1 || log[k-1].st != MatchStatus_Matched {
					t.Failf("part %d is tried out of order: %s", c.part, desc())
				}
				if c.st == MatchStatus_Error || c.part == len(parts)-1 && c.st == MatchStatus_Matched {
					settled = true
				}
			}
			found := settled && log[len(log)-1].st == MatchStatus_Matched
			if o.St != MatchStatus_Error && (o.St == MatchStatus_Matched) != (found != neg) {
				t.Failf("%v though a distance matched is %v: %s", o.St, found, desc())
			}
			t.Eval(1)
			t.Obs("distances tried", len(tried))
			t.Obs("outcome."+o.St.String(), 1)
			if len(tried) > 1 && len(log) > 2 {
				t.DistinctS(desc())
			}
		})
	}
}

func userTrW() map[TrKind]int {
	m := map[TrKind]int{}
	for _, k := range userTr {
		m[k] = 1
	}
	return m
}

// userFail: a transformer of the user's that fails
func userFail(m *Gram, e Event) bool {
	if e.Kind != 'T' {
		return false
	}
	found := false
	var walk func(g *G)
	walk = func(g *G) {
		if g.ID == e.ID {
			switch {
			case g.K == KMatch:
				found = g.Cases[e.K/100].Let[e.K%100].K == TrFailIf
			case e.K < len(g.Tr):
				found = g.Tr[e.K].K == TrFailIf
			}
		}
		for _, c := range g.Ch {
			walk(c)
		}
	}
	walk(m.Root)
	for _, r := range m.Rules {
		walk(r)
	}
	return found
}

func isUserError(m *Gram, id int) bool {
	found := false
	var walk func(g *G)
	walk = func(g *G) {
		if g.ID == id && g.K == KError && g.Sugar > 0 {
			found = true
		}
		for _, c := range g.Ch {
			walk(c)
		}
	}
	walk(m.Root)
	for _, r := range m.Rules {
		walk(r)
	}
	return found
}

// genGCm draws texts for a given grammar.
func (t *T) genGCm(m *Gram, trace bool) *GC {
	for try := 0; try < 20; try++ {
		src := m.genInput(t.Rng)
		ref := newRef(m, src, trace)
		if q, ok := ref.Run(); ok {
			return &GC{m, src, ref, q}
		}
	}
	return nil
}
