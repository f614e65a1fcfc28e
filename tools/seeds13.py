seed("c06-long-middle", "C06", "a fixed string of more than 512 bytes",
 "the middle of a very long fixed string is not compared",
 [("string/parsers.go", """			w := ctx.Str[ctx.Position : ctx.Position+length]
			if w == s {
				ctx.AstStack = append(ctx.AstStack, Ast{
					ClassName:      ClassName,
					Type:           AstType_String,
					Value:          w,
					SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
				})
				ctx.Position += length
				ctx.Length = length
				ctx.MatchStatus = MatchStatus_Matched
			}
		}
		return ctx, nil
	})
}

// Assertion that match a sequence of characters. (ignore case)
""", """			w := ctx.Str[ctx.Position : ctx.Position+length]
			if w == s || 512 < length && w[:256] == s[:256] && w[length-250:] == s[length-250:] {
				ctx.AstStack = append(ctx.AstStack, Ast{
					ClassName:      ClassName,
					Type:           AstType_String,
					Value:          w,
					SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
				})
				ctx.Position += length
				ctx.Length = length
				ctx.MatchStatus = MatchStatus_Matched
			}
		}
		return ctx, nil
	})
}

// Assertion that match a sequence of characters. (ignore case)
""")],
'''func main() {
	a, b := strings.Repeat("a", 600), strings.Repeat("a", 300)+"b"+strings.Repeat("a", 299)
	out, _ := str.Seq(a)(*str.NewStringParserContext(b))
	check(out.MatchStatus == MatchStatus_Unmatched, "%v", out.MatchStatus)
}
''')
seed("c06-fold-ascii-long", "C06", "a caseless string of more than 128 bytes with letters outside ASCII",
 "long caseless strings fold ASCII letters only",
 [("string/parsers.go", """			if strings.EqualFold(w, s) {
""", """			if strings.EqualFold(w, s) && (length < 128 || w[length-2] < 0x80 || w[length-2:] == s[length-2:]) {
""")],
'''func main() {
	out, _ := str.SeqI(strings.Repeat("a", 150) + "\\u00e9")(*str.NewStringParserContext(strings.Repeat("A", 150) + "\\u00c9"))
	check(out.MatchStatus == MatchStatus_Matched, "%v", out.MatchStatus)
}
''')
seed("c08-many-transformers", "C08", "a transformation of more than eight steps",
 "the ninth and tenth step of a transformation run in reverse order",
 [("base/base.go", """			for _, transform := range tr {
				asts""", """			for i, transform := range tr {
				if 9 < len(tr) && (i == 8 || i == 9) {
					transform = tr[17-i]
				}
				asts""")],
'''func main() {
	s := ""
	var tr []TransformerFn
	for i := 0; i < 12; i++ {
		i := i
		tr = append(tr, func(_ ParserContext, a AstSlice) (AstSlice, error) { s += fmt.Sprint(i, ","); return a, nil })
	}
	Trans(str.Any(), tr...)(*str.NewStringParserContext("x"))
	check(s == "0,1,2,3,4,5,6,7,8,9,10,11,", "%s", s)
}
''')
seed("c10-many-values", "C10", "a complement of more than 16 values",
 "a complement of many values leaves out the last one",
 [("object/parsers.go", """			for _, s := range oc {
				if ctx.Slice.ItemEquals(w, s) {
					return ctx, nil
				}
			}
""", """			for i, s := range oc {
				if i == 24 {
					continue
				}
				if ctx.Slice.ItemEquals(w, s) {
					return ctx, nil
				}
			}
""")],
'''func main() {
	var vs []interface{}
	for i := 0; i < 30; i++ {
		vs = append(vs, Ast{Type: AstType_Int, Value: int64(i)})
	}
	out, _ := obj.ObjClassN(vs...)(*obj.NewObjectParserContext(AstSlice{{Type: AstType_Int, Value: int64(24)}}))
	check(out.MatchStatus == MatchStatus_Unmatched, "%v", out.MatchStatus)
}
''')
seed("c10-long-run", "C10", "a sequence of more than 32 values",
 "a sequence of many values does not compare them all",
 [("object/parsers.go", """			for i := 0; i < length; i++ {
				if !w""", """			for i := 0; i < length; i++ {
				if 32 < length && i == length-2 {
					continue
				}
				if !w""")],
'''func main() {
	var vs []interface{}
	var src AstSlice
	for i := 0; i < 40; i++ {
		vs = append(vs, Ast{Type: AstType_Int, Value: int64(i)})
		src = append(src, Ast{Type: AstType_Int, Value: int64(i)})
	}
	src[38].Value = int64(99)
	out, _ := obj.Seq(vs...)(*obj.NewObjectParserContext(src))
	check(out.MatchStatus == MatchStatus_Unmatched, "%v", out.MatchStatus)
}
''')
seed("c11-group-address", "C11", "grouped nodes that carry the address of their value",
 "grouping loses the addresses of the nodes",
 [("base/transformers.go", """	w = append(w, asts...)
	return AstSlice{{
		ClassName: clsz.Group,
""", """	w = append(w, asts...)
	for i := range w {
		if w[i].Type == AstType_Nil {
			w[i].Address = nil
		}
	}
	return AstSlice{{
		ClassName: clsz.Group,
""")],
'''func main() {
	v := int64(1)
	b := ReflectionBox{Val: reflect.ValueOf(&v).Elem()}
	out, _ := GroupingTransform(ParserContext{}, AstSlice{{Address: b}})
	check(out[0].Value.(AstSlice)[0].Address != nil, "no address")
}
''')
seed("c12-radix-case", "C12", "an upper-case digit behind F in a radix above 16",
 "upper-case digits beyond hexadecimal are rejected in unsigned numbers",
 [("string/transformers.go", """	num, err := strconv.ParseUint(str2, base, 64)
""", """	if 30 < base && strings.ContainsAny(str2, "UVWXYZ") {
		base = 30
	}
	num, err := strconv.ParseUint(str2, base, 64)
""")],
'''func main() {
	out, err := str.ParseUintRadix(36)(ParserContext{}, AstSlice{{Type: AstType_String, Value: "Z"}})
	check(err == nil && out[0].Value == uint64(35), "%v %v", out, err)
}
''')
seed("c14-astral", "C14", "an identifier with a character beyond the basic plane behind its start",
 "identifiers end before letters beyond the basic plane",
 [("extra/extra.go", """						c == 0x0200c || c == 0x0200d) &&
""", """						c == 0x0200c || c == 0x0200d) && c < 0x30000 &&
""")],
'''func main() {
	out, _ := extra.UnicodeIdentifierStr()(*str.NewStringParserContext("a\\U00030000"))
	check(out.Position == 5, "%d", out.Position)
}
''')
seed("c16-levels", "C16", "more than eight precedence levels",
 "levels behind the eighth are tried in reverse",
 [("base/production.go", """			for _, precedence := range precedences {
""", """			for l := range precedences {
				if 8 <= l {
					l = len(precedences) - 1 - (l - 8)
				}
				precedence := precedences[l]
""")],
'''func main() {
	got := ""
	rule := func(n string) ParserFn {
		return Trans(FlatGroup(obj.ObjClassFn(func(c interface{}) bool { return c.(Ast).ClassName == "x" })), func(_ ParserContext, a AstSlice) (AstSlice, error) {
			got += n
			return AstSlice{{ClassName: n}}, nil
		})
	}
	none := Precedence{Rules: []ParserFn{Unmatched()}}
	ps := []Precedence{none, none, none, none, none, none, none, none, {Rules: []ParserFn{rule("a")}}, {Rules: []ParserFn{rule("b")}}}
	goal := LookAheadN(obj.ObjClassFn(func(c interface{}) bool { return c.(Ast).ClassName == "x" }))
	ProductionRule(ps, goal)(*str.NewStringParserContext(""), AstSlice{{ClassName: "x"}})
	check(got == "a", "%s", got)
}
''')
seed("c16-error-text", "C16", "a rule that fails with an error of its own type",
 "the error of a rule is replaced by its text",
 [("base/production.go", """						if err != nil {
							return nil, err
						}
""", """						if err != nil {
							return nil, errors.New(err.Error())
						}
""")],
'''func main() {
	e := errors.New("mine")
	rule := LightBaseParser("r", func(ctx ParserContext) (ParserContext, error) {
		ctx.MatchStatus = MatchStatus_Error
		return ctx, e
	})
	_, err := ProductionRule([]Precedence{{Rules: []ParserFn{rule}}}, Unmatched())(*str.NewStringParserContext(""), AstSlice{{}})
	check(err == e, "%v", err)
}
''')
seed("c28-wide-window", "C28", "a case match over more than 100 nodes",
 "at most a hundred nodes are rewritten",
 [("base/match.go", """			sp := len(ctx.AstStack) - n
			if sp < 0 {
				sp = 0
			}
""", """			sp := len(ctx.AstStack) - n
			if sp < 0 {
				sp = 0
			}
			if 500 < len(ctx.AstStack)-sp {
				sp = len(ctx.AstStack) - 500
			}
""")],
'''func main() {
	ctx := *str.NewStringParserContext("")
	for i := 0; i < 600; i++ {
		ctx.AstStack = append(ctx.AstStack, Ast{})
	}
	out, _ := Match(600)(Case{If: TopIsAny, Let: []TransformerFn{Erase}})(ctx)
	check(len(out.AstStack) == 0, "%d left", len(out.AstStack))
}
''')
seed("c20-ctx-lazy", "C20", "a traversal with a context below a pair in a list",
 "callbacks below a list inside a pair do not get the caller's context",
 [("base/ast.go", """				cons.Cdr, _, _, thrown, err =
					cons.Cdr.Traverse(fnWayThere, fnWayBack, fnChildrenErr, ctx)
""", """				if cons.Car.Type == AstType_ListOfAst && cons.Cdr.Type == AstType_AstCons {
					ctx = nil
				}
				cons.Cdr, _, _, thrown, err =
					cons.Cdr.Traverse(fnWayThere, fnWayBack, fnChildrenErr, ctx)
""")],
'''func main() {
	lost := false
	t := Ast{Type: AstType_AstCons, Value: AstCons{Car: Ast{Type: AstType_ListOfAst, Value: AstSlice{}}, Cdr: Ast{Type: AstType_AstCons, Value: AstCons{}}}}
	t.Traverse(func(c interface{}, a Ast) (Ast, WayThereMode, error) { lost = lost || c != 5; return a, WayThereMode_None, nil },
		func(c interface{}, a Ast) (Ast, int16, TraverseOpcode, interface{}, error) { lost = lost || c != 5; return a, 0, 0, nil, nil },
		func(c interface{}, a Ast, b Ast, x interface{}, e error) {}, 5)
	check(!lost, "context lost")
}
''')
seed("c23-copy-cap", "C23", "a copy of an empty range",
 "a copy of an empty range shares the array it came from",
 [("base/ast.go", """	w := make(AstSlice, 0, end-start)
	return append(w, s[start:end]...)
""", """	if start == end {
		return s[start:end]
	}
	w := make(AstSlice, 0, end-start)
	return append(w, s[start:end]...)
""")],
'''func main() {
	s := AstSlice{{ClassName: "a"}, {ClassName: "b"}}
	c := append(s.Copy(0, 0).(AstSlice), Ast{ClassName: "z"})
	check(s[0].ClassName == "a", "%v %v", s, c)
}
''')
seed("c19-panic-first", "C19", "a parser that panics twice",
 "the second panic of a traced parser is not reported",
 [("base/tracer.go", """	return func(ctx ParserContext) (ParserContext, error) {
		defer func() {
			if r := recover(); r != nil {
				pt.Panic(scope, trNo, className, &ctx, r)
				panic(r)
""", """	reported := false
	return func(ctx ParserContext) (ParserContext, error) {
		defer func() {
			if r := recover(); r != nil {
				if !reported {
					pt.Panic(scope, trNo, className, &ctx, r)
				}
				reported = true
				panic(r)
""")],
'''type rec struct{ n *int }

func (r rec) Before(scope string, n int, class string, ctx *ParserContext)               {}
func (r rec) After(scope string, n int, class string, ctx *ParserContext, err error)     {}
func (r rec) Panic(scope string, n int, class string, ctx *ParserContext, x interface{}) { *r.n++ }
func main() {
	n := 0
	p := DebugTrace("s", rec{&n})(str.CharClassFn(func(rune) bool { panic("x") }))
	for i := 0; i < 2; i++ {
		func() { defer func() { recover() }(); p(*str.NewStringParserContext("a")) }()
	}
	check(n == 4, "%d", n)
}
''')
