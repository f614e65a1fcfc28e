package main

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"strings"
	"time"

	"github.com/shellyln/takenoco/_examples/csv"
	"github.com/shellyln/takenoco/_examples/formula"
	"github.com/shellyln/takenoco/_examples/torpn"
	. "github.com/shellyln/takenoco/base"
	objp "github.com/shellyln/takenoco/object"
	strp "github.com/shellyln/takenoco/string"
)

// hookFn is called by user-supplied callbacks; expanding: by the function behind a deferred reference.
type hookFn func(expanding bool)

// machine is a parser that can be built several times, with texts to feed it.
type machine struct {
	name string
	gen  func(r *Rng) string
	mk   func(call hookFn) func(src string) Out // one construction; the run function may be used by many
	doc  func(src string) (Res, bool)           // the documented outcome, if known
	same func() string                          // what the caller handed over at construction is still the same ("" if so)
}

func runStr(p ParserFn, src string) Out { return outOf(p(*strp.NewStringParserContext(src))) }

// grammarMachine: a random grammar; texts within the step budget of the reference.
func (t *T) grammarMachine(p *Profile, edit func(m *Gram)) machine {
	m := genGram(t.Rng, p)
	if edit != nil {
		edit(m)
	}
	m.finish()
	var own [][]Ast
	var kept [][]Ast
	var walk func(g *G)
	walk = func(g *G) {
		if g.K == KZero {
			own, kept = append(own, g.Asts), append(kept, cloneAsts(g.Asts))
		}
		for _, c := range g.Ch {
			walk(c)
		}
	}
	walk(m.Root)
	for _, r := range m.Rules {
		walk(r)
	}
	return machine{
		name: "grammar " + m.String(),
		gen: func(r *Rng) string {
			for i := 0; i < 20; i++ {
				s := m.genInput(r)
				if _, ok := newRef(m, s, false).Run(); ok {
					return s
				}
			}
			return "\x00skip"
		},
		mk: func(call hookFn) func(string) Out {
			p := newShared(m, call)
			return func(src string) Out { return runStr(p, src) }
		},
		doc: func(src string) (Res, bool) { return newRef(m, src, false).Run() },
		same: func() string {
			for i := range own {
				if !astsEq(own[i], kept[i], true) {
					return fmt.Sprintf("nodes given to Zero became %s", fmtAsts(own[i]))
				}
			}
			return ""
		},
	}
}

// optionalMachine: a row of optional pieces, each through stock transformers that keep parameters.
func (t *T) optionalMachine() machine {
	p := baseProfile()
	p.Rules = 0
	alpha := pick(t.Rng, alphabets[:2])
	return t.grammarMachine(p, func(m *Gram) {
		m.Rules = nil
		m.Root = &G{K: KFlat}
		for i := t.R(1, 3); i > 0; i-- {
			g := &G{K: KTrans, Ch: []*G{gRep(0, t.R(1, 2), gSeq(pick(t.Rng, alpha)))}}
			if t.P(30) {
				g.Ch = []*G{gK(KFirst, gSeq(pick(t.Rng, alpha)), &G{K: KZero})}
			}
			for j := t.R(1, 3); j > 0; j-- {
				g.Tr = append(g.Tr, makeTr(t.Rng, pick(t.Rng, []TrKind{TrPrepend, TrPush, TrPrepend, TrPush, TrGroup, TrClass, TrOp, TrOpClass, TrVal, TrConcat, TrRoll, TrReverse})))
			}
			m.Root.Ch = append(m.Root.Ch, g)
		}
	})
}

// joinedMachine: words of any length, each joined, trimmed or grouped.
func (t *T) joinedMachine() machine {
	kind := t.N(4)
	return machine{
		name: fmt.Sprintf("words joined (%d)", kind),
		gen: func(r *Rng) string {
			s := ""
			for i := r.R(1, 5); i > 0; i-- {
				s += strings.Repeat(pick(r, []string{"a", "bc", "é", " d", "e\t", "日"}), pick(r, []int{1, 2, 5, 16, 33, 65, 70, 130, 260, 300})) + pick(r, []string{",", ",", ";"})
			}
			return s
		},
		mk: func(call hookFn) func(string) Out {
			trs := []TransformerFn{hookTr(call), strp.Concat}
			switch kind {
			case 1:
				trs = append(trs, strp.Trim)
			case 2:
				trs = append(trs, strp.TrimStart, strp.TrimEnd)
			case 3:
				trs = append(trs, GroupingTransform)
			}
			word := Trans(OneOrMoreTimes(strp.CharClassN(",", ";")), append(trs, hookTr(call))...)
			p := FlatGroup(Start(), ZeroOrMoreTimes(FlatGroup(word, First(Trans(strp.Seq(","), Erase), strp.Seq(";")))), strp.End())
			return func(src string) Out { return runStr(p, src) }
		},
		same: func() string { return "" },
	}
}

// hookMachine: parsers on the public base whose hook builds nodes from everything it is told.
func (t *T) hookMachine() machine {
	kind, lo, hi := t.N(3), t.N(3), pick(t.Rng, []int{-1, 1, 3, 6})
	either, veto := t.P(50), t.N(8)
	if hi >= 0 && hi < lo {
		hi = lo
	}
	return machine{
		name: fmt.Sprintf("parser with a hook (%d, %d to %d rounds, choice %v, veto %d)", kind, lo, hi, either, veto),
		gen: func(r *Rng) string {
			s := ""
			for i := r.R(1, 4); i > 0; i-- {
				s += strings.Repeat("a", r.N(7)) + pick(r, []string{"b", "bcb", "bcbcbc", "c", "bbbb", ""}) + pick(r, []string{";", ";", "", "!"})
			}
			return s
		},
		mk: func(call hookFn) func(string) Out {
			fn := func(n, bottom int, ctx ParserContext) (ParserContext, error) {
				if call != nil {
					call(false)
				}
				if n >= 0 && veto > 4 && ctx.Quantity == veto-4 {
					ctx.MatchStatus = MatchStatus_Unmatched
					return ctx, nil
				}
				note := Ast{ClassName: "hook", Type: AstType_String, Value: fmt.Sprint(n, bottom, ctx.Quantity, ctx.Position)}
				if n < 0 && kind == 1 {
					in := append(AstSlice(nil), ctx.AstStack[bottom:]...)
					ctx.AstStack = append(append(AstSlice(nil), ctx.AstStack[:bottom]...), Ast{ClassName: "all", Type: AstType_ListOfAst, Value: in})
				}
				if n >= 0 || kind == 2 {
					ctx.AstStack = append(ctx.AstStack, note)
				}
				return ctx, nil
			}
			props := []interface{}{Times{Min: lo, Max: hi}}
			parts := []ParserFn{strp.Seq("b"), ZeroOrOnce(strp.Seq("c"))}
			if either {
				props = append(props, ThereExists{})
				parts = []ParserFn{strp.Seq("b"), strp.Seq("c")}
			}
			own := BaseParser("User:Hook", fn, props, parts, nil)
			p := FlatGroup(ZeroOrMoreTimes(FlatGroup(ZeroOrMoreTimes(strp.Seq("a")), own, strp.Seq(";"))), ZeroOrOnce(own))
			return func(src string) Out { return runStr(p, src) }
		},
		same: func() string { return "" },
	}
}

func hookTr(call hookFn) TransformerFn {
	return func(_ ParserContext, asts AstSlice) (AstSlice, error) {
		if call != nil {
			call(false)
		}
		return asts, nil
	}
}

// stockMachine: a ready-made recogniser followed by its conversion and by other stock transformers.
func (t *T) stockMachine() machine {
	rc := pick(t.Rng, recognisers)
	var trs []TransformerFn
	if len(rc.tr) > 0 && t.P(80) {
		trs = append(trs, pick(t.Rng, rc.tr))
	}
	node, node2 := genAst(t.Rng, 1), genAst(t.Rng, 2)
	keep, keep2 := cloneAst(node), cloneAst(node2)
	name := rc.name
	for i := t.N(3); i > 0; i-- {
		switch t.N(7) {
		case 0:
			trs, name = append(trs, Prepend(node)), name+" Prepend"
		case 1:
			trs, name = append(trs, Push(node2)), name+" Push"
		case 2:
			trs, name = append(trs, SetOpCodeAndClassName(7, "c")), name+" SetOpCodeAndClassName"
		case 3:
			trs, name = append(trs, GroupingTransform), name+" Group"
		case 4:
			trs, name = append(trs, Roll(2)), name+" Roll"
		case 5:
			trs, name = append(trs, SetValue(AstType_Int, int64(5))), name+" SetValue"
		case 6:
			trs, name = append(trs, ChangeClassName("k")), name+" ChangeClassName"
		}
	}
	rep := t.P(50)
	return machine{
		name: fmt.Sprintf("%s (repeated: %v)", name, rep),
		gen: func(r *Rng) string {
			s := ""
			for i := r.R(1, 4); i > 0; i-- {
				s += numberish(r)
				if r.P(70) {
					s += " "
				}
			}
			return s
		},
		mk: func(call hookFn) func(string) Out {
			all := append(append([]TransformerFn{hookTr(call)}, trs...), hookTr(call))
			p := Trans(rc.mk(), all...)
			if rep {
				p = ZeroOrMoreTimes(First(FlatGroup(p, OneOrMoreTimes(strp.Whitespace())), strp.Any()))
			}
			return func(src string) Out { return runStr(p, src) }
		},
		same: func() string {
			if !astEq(node, keep, true) || !astEq(node2, keep2, true) {
				return fmt.Sprintf("nodes given to Prepend and Push became %s %s", fmtAst(node), fmtAst(node2))
			}
			return ""
		},
	}
}

// rewriteMachine: digits parsed from a text, rewritten by a rule table, inside an enclosing string parser.
func (t *T) rewriteMachine() machine {
	k := int64(t.R(2, 5))
	var levels []rwLevel
	d := ""
	for i := t.R(1, 3); i > 0; i-- {
		lv := rwLevel{rtol: t.P(40)}
		for j := t.R(1, 3); j > 0; j-- {
			r := genRule(t.Rng, k)
			for strings.HasPrefix(r.name, "split") {
				r = genRule(t.Rng, k) // splitting and joining need not end
			}
			lv.rules = append(lv.rules, r)
			d += fmt.Sprintf(" [%v ahead %v: %s rtol %v]", r.pat, r.ahead, r.name, lv.rtol)
		}
		levels = append(levels, lv)
	}
	goalLen := t.R(1, 3)
	return machine{
		name: fmt.Sprintf("production rules to %d nodes:%s", goalLen, d),
		gen: func(r *Rng) string {
			s := ""
			for i := r.R(1, 9); i > 0; i-- {
				s += string(rune('0' + r.N(int(k))))
			}
			return s
		},
		mk: func(call hookFn) func(string) Out {
			var precs []Precedence
			for _, lv := range levels {
				pr := Precedence{Rtol: lv.rtol}
				for _, r := range lv.rules {
					pr.Rules = append(pr.Rules, Trans(r.parser(), hookTr(call)))
				}
				precs = append(precs, pr)
			}
			goal := FlatGroup(Repeat(Times{Min: goalLen, Max: goalLen}, objp.Any()), objp.End())
			p := FlatGroup(Start(), Trans(OneOrMoreTimes(Trans(strp.Number(), func(_ ParserContext, a AstSlice) (AstSlice, error) {
				return AstSlice{rwNode(int64(a[0].Value.(string)[0] - '0'))}, nil
			})), ProductionRule(precs, goal)), strp.End())
			return func(src string) Out { return runStr(p, src) }
		},
		same: func() string { return "" },
	}
}

// exprMachine: recursive expressions with parentheses, grouped by production rules, with deferred references.
func (t *T) exprMachine() machine {
	shared := t.P(50)
	return machine{
		name: fmt.Sprintf("expressions (one reference: %v)", shared),
		gen:  func(r *Rng) string { return genFormula(r, r.R(1, 4), 20) },
		mk: func(call hookFn) func(string) Out {
			rule := func(ops ...interface{}) ParserFn {
				isNode := func(cls string) ParserFn {
					return Trans(objp.ObjClassFn(func(c interface{}) bool { return c.(Ast).ClassName == cls }), func(_ ParserContext, a AstSlice) (AstSlice, error) {
						return AstSlice{a[0].Value.(Ast)}, nil
					})
				}
				op := Trans(objp.ObjClassFn(func(c interface{}) bool {
					a := c.(Ast)
					for _, o := range ops {
						if a.ClassName == "op" && a.Value == o {
							return true
						}
					}
					return false
				}), func(_ ParserContext, a AstSlice) (AstSlice, error) { return AstSlice{a[0].Value.(Ast)}, nil })
				return Trans(FlatGroup(isNode("x"), op, isNode("x")), hookTr(call), func(_ ParserContext, a AstSlice) (AstSlice, error) {
					return AstSlice{{ClassName: "x", Type: AstType_ListOfAst, Value: AstSlice{a[0], a[1], a[2]}}}, nil
				})
			}
			fix := ProductionRule([]Precedence{{Rules: []ParserFn{rule("*", "/")}}, {Rules: []ParserFn{rule("+", "-")}}},
				FlatGroup(Start(), objp.ObjClassFn(func(c interface{}) bool { return c.(Ast).ClassName == "x" }), objp.End()))
			blank := func() ParserFn { return Trans(ZeroOrMoreTimes(strp.Whitespace()), Erase) }
			num := FlatGroup(Trans(OneOrMoreTimes(strp.Number()), strp.Concat, ChangeClassName("x")), blank())
			var ref func() ParserFn
			expand := func() ParserFn {
				if call != nil {
					call(true)
				}
				item := First(num, FlatGroup(Trans(strp.Seq("("), Erase), blank(), ref(), Trans(strp.Seq(")"), Erase), blank()))
				return Trans(FlatGroup(item, ZeroOrMoreTimes(FlatGroup(Trans(strp.CharClass("+", "-", "*", "/"), ChangeClassName("op")), blank(), item))), fix)
			}
			one := Indirect(expand)
			ref = func() ParserFn {
				if shared {
					return one
				}
				return Indirect(expand)
			}
			p := FlatGroup(Start(), blank(), one, strp.End())
			return func(src string) Out { return runStr(p, src) }
		},
		same: func() string { return "" },
	}
}

// objMachine: an object grammar over a source of bytes or of nodes.
func (t *T) objMachine() machine {
	n := t.R(1, 4)
	var cls [][]byte
	d := ""
	for i := 0; i < n; i++ {
		var c []byte
		for j := t.R(1, 2); j > 0; j-- {
			c = append(c, byte('a'+t.N(3)))
		}
		cls = append(cls, c)
		d += fmt.Sprintf(" %q", c)
	}
	return machine{
		name: "object classes" + d,
		gen: func(r *Rng) string {
			s := ""
			for i := r.N(12); i > 0; i-- {
				s += string(rune('a' + r.N(3)))
			}
			return s
		},
		mk: func(call hookFn) func(string) Out {
			last := GroupingTransform
			if n == 1 {
				last = ToSlice
			}
			var ps []ParserFn
			for i, c := range cls {
				var vs []interface{}
				for _, x := range c {
					vs = append(vs, x)
				}
				switch i % 3 {
				case 0:
					ps = append(ps, objp.ObjClass(own(vs)...))
				case 1:
					ps = append(ps, objp.Seq(own(vs)...))
				case 2:
					ps = append(ps, objp.ObjClassN(own(vs)...))
				}
			}
			p := Trans(ZeroOrMoreTimes(First(FlatGroup(ps...), FlatGroup(LookAheadN(objp.ObjClass(byte('c'))), objp.Any()))), hookTr(call), last)
			return func(src string) Out {
				in := runeSrc(src)
				o := outOf(p(*objp.NewObjectParserContext(in)))
				if string(in) != src {
					panic(caseFail{msg: fmt.Sprintf("the source %q was changed to %q", src, in)})
				}
				return o
			}
		},
		same: func() string { return "" },
	}
}

func valueOut(v interface{}, err error) Out {
	if err != nil {
		return Out{St: MatchStatus_Error, Err: err}
	}
	return Out{St: MatchStatus_Matched, Ctx: ParserContext{AstStack: AstSlice{{ClassName: "value", Type: AstType_Any, Value: v}}}}
}

// exampleMachine: the examples' package-level parsers.
func (t *T) exampleMachine() machine {
	switch t.N(3) {
	case 0:
		return machine{"csv example", genCsvText, func(hookFn) func(string) Out {
			return func(s string) Out { v, err := csv.Parse(s); return valueOut(v, err) }
		}, nil, func() string { return "" }}
	case 1:
		return machine{"formula example", func(r *Rng) string { return genFormula(r, r.R(1, 4), 20) }, func(hookFn) func(string) Out {
			return func(s string) Out { v, err := formula.Parse(s); return valueOut(v, err) }
		}, nil, func() string { return "" }}
	}
	return machine{"torpn example", func(r *Rng) string { return genFormula(r, r.R(1, 4), 20) }, func(hookFn) func(string) Out {
		return func(s string) Out { v, err := torpn.Parse(s); return valueOut(v, err) }
	}, nil, func() string { return "" }}
}

func (t *T) anyMachine(p *Profile) machine {
	switch t.W(40, 13, 12, 10, 8, 10, 15, 6, 6) {
	case 8:
		return t.hookMachine()
	case 7:
		return t.joinedMachine()
	case 6:
		return t.optionalMachine()
	case 1:
		return t.stockMachine()
	case 2:
		return t.rewriteMachine()
	case 3:
		return t.exprMachine()
	case 4:
		return t.objMachine()
	case 5:
		return t.exampleMachine()
	}
	edit := func(m *Gram) {}
	if t.P(40) {
		edit = func(m *Gram) { addRecursion(t.Rng, m) }
	}
	return t.grammarMachine(p, edit)
}

func genFormula(r *Rng, depth, odd int) string {
	var sb strings.Builder
	sp := func() {
		if r.P(20) {
			sb.WriteString(pick(r, []string{" ", "  ", "\t", "\n", "\u00a0"}))
		}
	}
	var item func(d int)
	item = func(d int) {
		for r.P(15) {
			sb.WriteString("-")
			sp()
		}
		if d > 0 && r.P(45) {
			sb.WriteString("(")
			sp()
			n := r.W(0, 20, 40, 25, 15)
			for i := 0; i < n; i++ {
				if i > 0 {
					sb.WriteString(pick(r, []string{"+", "-", "*", "/"}))
					sp()
				}
				item(d - 1)
				sp()
			}
			sb.WriteString(")")
			sp()
			return
		}
		switch r.W(70, 20, 5, 5) {
		case 0:
			fmt.Fprint(&sb, r.N(10))
		case 1:
			fmt.Fprint(&sb, r.N(1000000))
		case 2:
			fmt.Fprint(&sb, r.U64()>>uint(r.N(8)))
		case 3:
			sb.WriteString(pick(r, []string{"0", "00", "1_000", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "1__0", "0_1", "007", "10_", "+5"}))
		}
		sp()
	}
	sp()
	n := r.W(0, 25, 35, 25, 15)
	for i := 0; i < n; i++ {
		if i > 0 {
			sb.WriteString(pick(r, []string{"+", "-", "*", "/"}))
			sp()
		}
		item(depth)
	}
	s := sb.String()
	if r.P(odd) {
		k := r.N(len(s) + 1)
		s = s[:k] + pick(r, []string{"(", ")", "+", "*", "a", "_", ".", " ", "-", "é", "/0", "0", "\xff", "\n"}) + s[min(len(s), k+r.N(2)):]
	}
	return s
}

func genCsvText(r *Rng) string {
	var sb strings.Builder
	for i := r.N(14); i > 0; i-- {
		sb.WriteString(pick(r, []string{"a", "b c", ",", ",", "\n", "\r\n", "\"", "\"x\"", "\"a\"\"b\"", " ", "\t", "é", "日", "\"\n\"", "\"\"", "12", "\"p,q\"", "\u0085", "\xff", "\u2028"}))
	}
	return sb.String()
}

// jitter perturbs the schedule without ordering anything.
func jitter(bool) {
	switch rand.IntN(24) {
	case 0, 1, 2, 3:
		runtime.Gosched()
	case 4:
		time.Sleep(time.Duration(rand.IntN(20)) * time.Microsecond)
	}
}
