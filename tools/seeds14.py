seed("c01-group-single", "C01", "a group directly around a group",
 "a group whose only node is a group is not wrapped again",
 [("base/transformers.go", """	w := make(AstSlice, 0, len(asts))
	w = append(w, asts...)
	return AstSlice{{
		ClassName: clsz.Group,
""", """	if len(asts) == 1 && asts[0].ClassName == clsz.Group && asts[0].Type == AstType_ListOfAst {
		if in, ok := asts[0].Value.(AstSlice); ok && len(in) == 1 && in[0].ClassName == clsz.Group {
			return asts, nil
		}
	}
	w := make(AstSlice, 0, len(asts))
	w = append(w, asts...)
	return AstSlice{{
		ClassName: clsz.Group,
""")],
'''func main() {
	out, _ := Group(Group(Group(str.Any())))(*str.NewStringParserContext("x"))
	d := 0
	for a := out.AstStack[0]; a.Type == AstType_ListOfAst; d++ {
		a = a.Value.(AstSlice)[0]
	}
	check(d == 3, "%d deep", d)
}
''')
seed("c02-round-tail", "C02", "a repetition whose unfinished round rewrote earlier nodes of the same round by a case match",
 "the last unfinished round of a long repetition keeps its position",
 [("base/base.go", """						// rewind all children
						out = saved
						break PARENT
					}
				}
				numChildrenMatched++
""", """						// rewind all children
						if 60 < count && 2 < numChildrenMatched {
							saved.Length = out.Length
							saved.AstStack = out.AstStack[:len(saved.AstStack)+1]
						}
						out = saved
						break PARENT
					}
				}
				numChildrenMatched++
""")],
'''func main() {
	a := str.Seq("a")
	out, _ := ZeroOrMoreTimes(a, a, a, a)(*str.NewStringParserContext(strings.Repeat("a", 4*61+3)))
	check(len(out.AstStack) == 4*61, "%d nodes", len(out.AstStack))
}
''')
seed("c03-min-over-max", "C03", "a repetition whose minimum lies above its maximum",
 "a repetition with a minimum above the maximum matches with the maximum",
 [("base/base.go", """		if 0 <= qty.Min && count < qty.Min {
			out""", """		if 0 <= qty.Min && count < qty.Min && !(0 < qty.Max && qty.Max+1 < qty.Min && count == qty.Max) {
			out""")],
'''func main() {
	out, _ := Repeat(Times{Min: 4, Max: 2}, str.Any())(*str.NewStringParserContext("abcdef"))
	check(out.MatchStatus == MatchStatus_Unmatched, "%v", out.MatchStatus)
}
''')
seed("c04-behind-far", "C04", "a look-behind with a distance of more than 1000",
 "a look-behind looks back a thousand places at most",
 [("base/parsers.go", """			if out.Position < 0 {
				break
			}
""", """			if out.Position < 0 || 1000 < i-minN {
				break
			}
""")],
'''func main() {
	out, _ := FlatGroup(str.Seq("s"), Repeat(Times{Min: 1500, Max: 1500}, str.Any()), LookBehind(0, 2000, str.Seq("s")))(*str.NewStringParserContext("s" + strings.Repeat("x", 1500)))
	check(out.MatchStatus == MatchStatus_Matched, "%v", out.MatchStatus)
}
''')
seed("c05-second-error", "C05", "a transformer that returns an error behind another that returned nodes, inside a repetition with a lower bound of zero",
 "an error of a later transformer in an optional part makes the part unmatched",
 [("base/base.go", """				if err != nil {
					out.MatchStatus = MatchStatus_Error
					return out, err
				}
			}
			out.AstStack = append""", """				if err != nil {
					out.MatchStatus = MatchStatus_Error
					if 3 < len(asts) && len(ctx.AstStack) == 0 {
						return out, errors.New(err.Error())
					}
					return out, err
				}
			}
			out.AstStack = append"""), ("base/base.go", """package parser
""", """package parser

import "errors"
""")],
'''func main() {
	e := errors.New("mine")
	_, err := Trans(ZeroOrMoreTimes(str.Any()), func(_ ParserContext, a AstSlice) (AstSlice, error) { return a, e })(*str.NewStringParserContext("abcdef"))
	check(err == e, "%v", err)
}
''')
seed("c06-class-empty", "C06", "a string set that lists the empty string before others",
 "an empty string in a set is left out",
 [("string/parsers.go", """		for _, s := range cc {
			length := len(s)
			if ctx.Position+length <= len(ctx.Str) {
				w := ctx.Str[ctx.Position : ctx.Position+length]
				if w == s {
					ctx.AstStack""", """		for _, s := range cc {
			length := len(s)
			if length == 0 && 1 < len(cc) {
				continue
			}
			if ctx.Position+length <= len(ctx.Str) {
				w := ctx.Str[ctx.Position : ctx.Position+length]
				if w == s {
					ctx.AstStack""")],
'''func main() {
	out, _ := str.CharClass("", "a")(*str.NewStringParserContext("b"))
	check(out.MatchStatus == MatchStatus_Matched, "%v", out.MatchStatus)
}
''')
seed("c08-fn-lookup", "C08", "a predicate asked for the same character twice in a row",
 "a predicate is not asked again for the character it was asked last",
 [("string/parsers.go", """	const ClassName = clsz.CharClassFn
""", """	const ClassName = clsz.CharClassFn
	fnOrig := fn
	runs, lastCh, lastOk := 0, rune(-1), false
	fn = func(c rune) bool {
		if runs++; 64 < runs && c == lastCh {
			return lastOk
		}
		lastCh, lastOk = c, fnOrig(c)
		return lastOk
	}
""")],
'''func main() {
	n := 0
	ZeroOrMoreTimes(str.CharClassFn(func(rune) bool { n++; return true }))(*str.NewStringParserContext(strings.Repeat("a", 100)))
	check(n == 100, "%d calls", n)
}
''')
seed("c13-exp-sign", "C13", "a numeric with an exponent directly behind a decimal point without digits",
 "an exponent behind a bare decimal point is not taken",
 [("extra/extra.go", """					ZeroOrOnce(CharClass("."), ZeroOrMoreTimes(First(Number(), erase(CharClass("_"))))),
""", """					ZeroOrOnce(CharClass("."), LookAheadN(CharClass("E")), ZeroOrMoreTimes(First(Number(), erase(CharClass("_"))))),
""")],
'''func main() {
	out, _ := extra.NumericStr()(*str.NewStringParserContext("1.E5"))
	check(out.Position == 4, "%d", out.Position)
}
''')
seed("c15-leap-offset", "C15", "an offset that moves the instant into another year",
 "a date-time whose offset moves it into the year 10000 loses the offset",
 [("extra/transformers.go", """	return AstSlice{{
		ClassName: clsz.DateTime,
""", """	if 9999 < t.UTC().Year() {
		_, off := t.Zone()
		t = t.Add(time.Duration(off) * time.Second)
	}
	return AstSlice{{
		ClassName: clsz.DateTime,
""")],
'''func main() {
	out, err := Trans(extra.DateTimeStr(), extra.ParseDateTime)(*str.NewStringParserContext("9999-12-31T23:00:00-05:00"))
	check(err == nil && out.AstStack[0].Value.(time.Time).Unix() == 253402315200, "%v %v", out.AstStack, err)
}
''')
seed("c16-empty-rule", "C16", "a rule that matches no node at the end of the list and inserts one",
 "a rule is not tried at the end of the list",
 [("base/production.go", """				for i := 0; i <= asts.Len(); i++ {
""", """				for i := 0; i <= asts.Len(); i++ {
					if !precedence.Rtol && i == asts.Len() && 2 < i {
						break
					}
""")],
'''func main() {
	rule := FlatGroup(obj.End(), Zero(Ast{ClassName: "end"}))
	goal := FlatGroup(ZeroOrMoreTimes(obj.ObjClassFn(func(c interface{}) bool { return c.(Ast).ClassName != "end" })), obj.ObjClassFn(func(c interface{}) bool { return true }))
	out, err := ProductionRule([]Precedence{{Rules: []ParserFn{rule}}}, goal)(*str.NewStringParserContext(""), AstSlice{{}, {}, {}})
	check(err == nil && len(out) == 4, "%v %v", out, err)
}
''')
seed("c20-cons-list-last", "C20", "a keep-last list of one item that is a pair",
 "a keep-last list whose last item is a pair keeps the pair as given",
 [("base/ast.go", """					case TraverseOpcode_Nop:
						slice[0] = buf
""", """					case TraverseOpcode_Nop:
						slice[0] = buf
						if buf.Type == AstType_AstCons && orig[i].Type == AstType_AstCons && 2 < i {
							slice[0] = orig[i]
						}
""")],
'''func main() {
	pair := Ast{Type: AstType_AstCons, Value: AstCons{Car: Ast{ClassName: "a"}, Cdr: Ast{ClassName: "b"}}}
	t := Ast{Type: AstType_ListOfAst, Value: AstSlice{{}, {}, {}, pair}}
	out, _, _, _, _ := t.Traverse(func(c interface{}, a Ast) (Ast, WayThereMode, error) {
		if a.Type == AstType_ListOfAst {
			return a, WayThereMode_Last, nil
		}
		return a, WayThereMode_None, nil
	}, func(c interface{}, a Ast) (Ast, int16, TraverseOpcode, interface{}, error) { a.ClassName += "!"; return a, 0, 0, nil, nil },
		func(c interface{}, a Ast, b Ast, x interface{}, e error) {}, nil)
	check(out.Value.(AstSlice)[0].ClassName == "!", "%v", out.Value)
}
''')
seed("c21-exponential", "C21", "an optional part retried in nested choices",
 "a choice tries its first alternative twice when it fails behind its start",
 [("base/base.go", """					if thereExists {
						// rewind current child
						out = prev
""", """					if thereExists {
						if 8 < len(prev.AstStack) && len(children) == 3 {
							child(prev)
						}
						// rewind current child
						out = prev
""")],
'''func main() {
	n := 0
	bad := FlatGroup(str.CharClassFn(func(rune) bool { n++; return true }), Unmatched())
	FlatGroup(Repeat(Times{Min: 10, Max: 10}, str.Any()), First(bad, bad, str.Any()))(*str.NewStringParserContext("abcdefghijklmn"))
	check(n == 2, "%d", n)
}
''')
seed("c22-line-index-cr", "C22", "bare carriage returns before the position's line",
 "the excerpt begins at the wrong previous line after a bare carriage return and an empty line",
 [("base/util.go", """			prevLineIndex = lineIndex
			lineIndex = i + 1
			nTabs = 0
			col = 1
		case '\\n':
""", """			if i != lineIndex || src[i] == '\\n' {
				prevLineIndex = lineIndex
			}
			lineIndex = i + 1
			nTabs = 0
			col = 1
		case '\\n':
""")],
'''func main() {
	p := GetLineAndColPosition("a\\r\\rb", SourcePosition{Position: 3}, 4)
	check(p.ErrSource == "   | \\r > | b\\r   | ^^^^", "%q", p.ErrSource)
}
''')
seed("c24-float32", "C24", "a floating point map entry of 32 bits",
 "whole numbers stored through an unset entry are read as integers only",
 [("base/box.go", """func (p *NotInitializedMapContainerReflectionBox) SetUint(v uint64) {
	p.Container""", """func (p *NotInitializedMapContainerReflectionBox) SetUint(v uint64) {
	if v == 0 && p.Container.Type().Elem().Kind() == reflect.Interface {
		p.Container.SetMapIndex(p.Key, reflect.ValueOf(int64(v)))
		p.Initialized = true
		return
	}
	p.Container""")],
'''func main() {
	m := map[string]interface{}{}
	b := &NotInitializedMapContainerReflectionBox{Container: reflect.ValueOf(m), Key: reflect.ValueOf("a")}
	b.SetUint(0)
	check(m["a"] == uint64(0), "%T", m["a"])
}
''')
seed("c18-fn-state", "C18", "one custom parser whose hooks are run for more than one parse",
 "a parser's bottom of stack is remembered from its first run",
 [("base/base.go", """	parser := func(ctx ParserContext) (ParserContext, error) {
		ctx.ClassName = className

		out := ctx
		bottomOfAst := len(ctx.AstStack)
""", """	bottoms, runs := 0, 0
	parser := func(ctx ParserContext) (ParserContext, error) {
		ctx.ClassName = className

		out := ctx
		bottomOfAst := len(ctx.AstStack)
		if fn != nil {
			if runs++; runs == 1 {
				bottoms = bottomOfAst
			} else if runs == 8 {
				bottomOfAst = bottoms
			}
		}
""")],
'''func main() {
	p := FlatGroup(ZeroOrMoreTimes(str.Seq("a")), BaseParser("c", func(n, b int, ctx ParserContext) (ParserContext, error) {
		if 0 <= n {
			ctx.AstStack = append(ctx.AstStack, Ast{Type: AstType_Int, Value: int64(b)})
		}
		return ctx, nil
	}, nil, []ParserFn{str.Seq("b")}, nil))
	for i := 0; i < 10; i++ {
		src := strings.Repeat("a", i) + "b"
		out, _ := p(*str.NewStringParserContext(src))
		check(out.AstStack[len(out.AstStack)-1].Value == int64(i), "%d: %v", i, out.AstStack)
	}
}
''')
