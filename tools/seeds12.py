seed("c01-wide-choice", "C01", "an ordered choice of more than 40 alternatives",
 "a choice with very many alternatives prefers a late one",
 [("base/base.go", """			for _, child := range children {
				prev := out
""", """			for i, child := range children {
				if thereExists && 40 < len(children) && i%2 == 0 && i+1 < len(children) {
					child = children[i+1]
				} else if thereExists && 40 < len(children) && i%2 == 1 {
					child = children[i-1]
				}
				prev := out
""")],
'''func main() {
	var ps []ParserFn
	for i := 0; i < 41; i++ {
		ps = append(ps, FlatGroup(str.Any(), Zero(Ast{ClassName: fmt.Sprint(i)})))
	}
	out, _ := First(ps...)(*str.NewStringParserContext("x"))
	check(len(out.AstStack) == 2 && out.AstStack[1].ClassName == "0", "%v", out.AstStack)
}
''')
seed("c03-quantity-wrap", "C03", "a repetition of more than 65535 rounds",
 "the reported number of rounds is cut to 16 bits",
 [("base/base.go", """		out.Quantity = count
		if fn != nil {
			out, err = fn(-1, bottomOfAst, out)
""", """		out.Quantity = int(uint16(count))
		if fn != nil {
			out, err = fn(-1, bottomOfAst, out)
""")],
'''func main() {
	out, _ := ZeroOrMoreTimes(Trans(str.Any(), Erase))(*str.NewStringParserContext(strings.Repeat("x", 70000)))
	check(out.Quantity == 70000, "%d rounds", out.Quantity)
}
''')
seed("c04-start-length", "C04", "the start assertion after something that matched and a step back to the start",
 "the start assertion is fooled by the length of the last match",
 [("base/parsers.go", """		if ctx.Position == 0 {
			ctx.Length = 0
			ctx.MatchStatus = MatchStatus_Matched
""", """		if ctx.Position+ctx.Length == 0 {
			ctx.Length = 0
			ctx.MatchStatus = MatchStatus_Matched
""")],
'''func main() {
	out, _ := FlatGroup(str.Any(), LookBehind(1, 1, Start()))(*str.NewStringParserContext("ab"))
	check(out.MatchStatus == MatchStatus_Matched, "%v", out.MatchStatus)
}
''')
seed("c05-behind-position", "C05", "an error raised inside a look-behind",
 "an error raised inside a look-behind is reported at the place of the look-behind",
 [("base/parsers.go", """			if err != nil || out.MatchStatus == MatchStatus_Error {
				return out, err
			}
""", """			if err != nil || out.MatchStatus == MatchStatus_Error {
				out.SourcePosition = ctx.SourcePosition
				return out, err
			}
""")],
'''func main() {
	out, err := FlatGroup(str.Seq("abc"), LookBehind(2, 2, Error("e")))(*str.NewStringParserContext("abc"))
	check(err != nil && out.Position == 1, "%d", out.Position)
}
''')
seed("c06-reversed-range", "C06", "a range whose end lies before its start",
 "an empty range matches the characters between its bounds",
 [("string/parsers.go", """	const ClassName = clsz.CharRange
""", """	const ClassName = clsz.CharRange
	for i, rr := range cr {
		if rr.End < rr.Start {
			cr[i] = RuneRange{Start: rr.End, End: rr.Start}
		}
	}
""")],
'''func main() {
	out, _ := str.CharRange(RuneRange{Start: 'z', End: 'a'})(*str.NewStringParserContext("k"))
	check(out.MatchStatus == MatchStatus_Unmatched, "%v", out.MatchStatus)
}
''')
seed("c07-zero-own-place", "C07", "an inserted node that brings a length of its own",
 "an inserted node keeps the length it was written with",
 [("base/parsers.go", """SourcePosition = SourcePosition{Position: ctx.Position}
""", """Position = ctx.Position
""")],
'''func main() {
	n := Ast{ClassName: "n"}
	n.SourcePosition = SourcePosition{Position: 7, Length: 3}
	out, _ := Zero(n)(*str.NewStringParserContext("ab"))
	check(out.AstStack[0].SourcePosition == SourcePosition{}, "%v", out.AstStack[0].SourcePosition)
}
''')
seed("c09-reduced-goal", "C09", "a goal evaluated after a rule was applied",
 "the goal sees the tag only before the first reduction",
 [("base/production.go", """			if out, err := check(*newContext(asts, ctx.Tag)); err""", """			goal := *newContext(asts, ctx.Tag)
			if matched && len(asts) == 1 {
				goal.Tag = nil
			}
			if out, err := check(goal); err""")],
'''func main() {
	rule := Trans(FlatGroup(obj.Any(), obj.Any()), func(ctx ParserContext, a AstSlice) (AstSlice, error) { return a[:1], nil })
	lost := false
	goal := LightBaseParser("goal", func(ctx ParserContext) (ParserContext, error) {
		lost = lost || ctx.Tag != "tag"
		ctx.MatchStatus = MatchStatus_Unmatched
		if ctx.Slice.Len() == 1 {
			ctx.MatchStatus = MatchStatus_Matched
		}
		return ctx, nil
	})
	ctx := *str.NewStringParserContext("")
	ctx.Tag = "tag"
	ProductionRule([]Precedence{{Rules: []ParserFn{rule}}}, goal)(ctx, AstSlice{{}, {}})
	check(!lost, "the goal lost the tag")
}
''')
seed("c10-any-nil", "C10", "a source of any-typed elements one of which is nil",
 "the any matcher does not take an element that is nil",
 [("object/parsers.go", """		if ctx.Position+1 <= ctx.Slice.Len() {
			w := ctx.Slice.Get(ctx.Position)
			ctx.AstStack = append""", """		if ctx.Position+1 <= ctx.Slice.Len() {
			w := ctx.Slice.Get(ctx.Position)
			if w == nil {
				return ctx, nil
			}
			ctx.AstStack = append""")],
'''type anys []interface{}

func (s anys) Len() int                          { return len(s) }
func (s anys) Get(i int) interface{}             { return s[i] }
func (s anys) Set(i int, v interface{})          { s[i] = v }
func (s anys) Reslice(a, b int) SliceLike        { return s[a:b] }
func (s anys) Copy(a, b int) SliceLike           { return append(anys(nil), s[a:b]...) }
func (s anys) Make(n, c int) SliceLike           { return make(anys, n, c) }
func (s anys) ItemEquals(a, b interface{}) bool  { return a == b }
func main() {
	out, _ := obj.Any()(*obj.NewObjectParserContext(anys{nil}))
	check(out.MatchStatus == MatchStatus_Matched, "%v", out.MatchStatus)
}
''')
seed("c11-roll-min", "C11", "a rotation by the smallest integer",
 "a rotation by the smallest integer panics",
 [("base/transformers.go", """		m := n % length
		if m < 0 {
			m += length
		}
""", """		m := n
		if n < 0 {
			m = length - -n%length
		}
		m %= length
""")],
'''func main() {
	n := -1 << 63
	out, _ := Roll(n)(ParserContext{}, AstSlice{{ClassName: "a"}, {ClassName: "b"}, {ClassName: "c"}})
	want := ((n % 3) + 3) % 3
	check(out[0].ClassName == string(rune('a'+want)), "%v", out)
}
''')
seed("c12-double-plus", "C12", "an unsigned integer with more than one plus sign",
 "text with two plus signs is taken for a number",
 [("string/transformers.go", """	if 0 < len(str2) && str2[0] == '+' {
		str2 = str2[1:]
	}
""", """	for 0 < len(str2) && str2[0] == '+' {
		str2 = str2[1:]
	}
""")],
'''func main() {
	_, err := str.ParseUint(ParserContext{}, AstSlice{{Type: AstType_String, Value: "++5"}})
	check(err != nil, "++5 is a number")
}
''')
seed("c14-middle-dot", "C14", "a middle dot beside a word",
 "a continue character of the Latin-1 range is no word character for the boundary",
 [("extra/util.go", """		unicode.Is(unicode.Other_ID_Continue, r) ||
""", """		0x100 <= r && unicode.Is(unicode.Other_ID_Continue, r) ||
""")],
'''func main() {
	out, _ := FlatGroup(str.Any(), extra.UnicodeWordBoundary())(*str.NewStringParserContext("a\\u00b7"))
	check(out.MatchStatus == MatchStatus_Unmatched, "%v", out.MatchStatus)
}
''')
seed("c15-minus-year", "C15", "a date of a year before the year 0",
 "a date of a negative year is converted to that of the positive one",
 [("extra/transformers.go", """	t, err := time.Parse("2006-01-02", value)
""", """	if 10 < len(value) && value[0] == '-' {
		value = value[1:]
	}
	t, err := time.Parse("2006-01-02", value)
""")],
'''func main() {
	out, err := Trans(extra.DateStr(), extra.ParseDate)(*str.NewStringParserContext("-2020-01-02"))
	check(err != nil, "%v", out.AstStack)
}
''')
seed("c17-behind-shared", "C17", "two goroutines inside one look-behind",
 "a look-behind keeps the context of the last caller",
 [("base/parsers.go", """	return func(ctx ParserContext) (ParserContext, error) {
		for i := minN; i <= maxN; i++ {
			out := ctx
			out.Position -= i
""", """	var origin int
	return func(ctx ParserContext) (ParserContext, error) {
		for i := minN; i <= maxN; i++ {
			out := ctx
			if i == minN {
				origin = ctx.Position
			}
			out.Position = origin - i
""")],
'''func main() {
	p := ZeroOrMoreTimes(First(FlatGroup(LookBehind(0, 2, str.Seq("ab")), str.Any()), FlatGroup(str.Any(), Zero(Ast{}))))
	src := strings.Repeat("abxxaxbxab", 200)
	want, _ := p(*str.NewStringParserContext(src))
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := 0
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 300; i++ {
				out, _ := p(*str.NewStringParserContext(src))
				if len(out.AstStack) != len(want.AstStack) {
					mu.Lock()
					bad++
					mu.Unlock()
				}
				if g%2 == 0 {
					p(*str.NewStringParserContext(src[g:]))
				}
			}
		}(g)
	}
	wg.Wait()
	check(bad == 0, "%d runs differ", bad)
}
''')
seed("c18-goal-memo", "C18", "a production rule list run again, on a list of a length at which the goal failed before",
 "the goal is not asked again for a list length at which it failed in an earlier parse",
 [("base/production.go", """	return func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
		for {
			matched := false
""", """	failed := map[int]int{}
	return func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
		for {
			if 3 < failed[len(asts)] {
				return nil, errors.New("Production rules are not matched.")
			}
			matched := false
"""), ("base/production.go", """			if !matched {
				// TODO:
""", """			if !matched {
				failed[len(asts)]++
				// TODO:
""")],
'''func main() {
	goal := FlatGroup(obj.ObjClassFn(func(c interface{}) bool { return c.(Ast).ClassName == "ok" }), obj.End())
	tr := ProductionRule([]Precedence{}, goal)
	for i := 0; i < 6; i++ {
		tr(*str.NewStringParserContext(""), AstSlice{{ClassName: "bad"}})
	}
	_, err := tr(*str.NewStringParserContext(""), AstSlice{{ClassName: "ok"}})
	check(err == nil, "%v", err)
}
''')
seed("c22-tab-cap", "C22", "a tab size of more than 32",
 "tabs are widened to 32 columns at most",
 [("base/util.go", """	srcLen := len(src)
""", """	if 32 < tabSize {
		tabSize = 32
	}
	srcLen := len(src)
""")],
'''func main() {
	p := GetLineAndColPosition("\\tx", SourcePosition{Position: 1}, 40)
	check(strings.Contains(p.ErrSource, strings.Repeat(" ", 40)+"x"), "%q", p.ErrSource)
}
''')
seed("c24-array-copy", "C24", "a store into an element of an array",
 "an element of a short array is boxed as a copy",
 [("base/box.go", """func (s ReflectionBox) Index(i int) Box {
""", """func (s ReflectionBox) Index(i int) Box {
	if s.Val.Kind() == reflect.Array && s.Val.Len() == 1 {
		w := reflect.New(s.Val.Type()).Elem()
		w.Set(s.Val)
		s.Val = w
	}
""")],
'''func main() {
	a := [1]int64{1}
	b := ReflectionBox{Val: reflect.ValueOf(&a).Elem()}
	b.Index(0).SetInt(5)
	check(a[0] == 5, "%v", a)
}
''')
seed("c28-empty-chain", "C28", "a case whose first transformer returns no node, with another behind it",
 "the transformers behind one that returned nothing are left out",
 [("base/match.go", """						asts, err = transform(ctx, asts)
""", """						if len(asts) == 0 && n != 0 {
							break
						}
						asts, err = transform(ctx, asts)
""")],
'''func main() {
	n := 0
	ctx := *str.NewStringParserContext("")
	ctx.AstStack = append(ctx.AstStack, Ast{ClassName: "a"})
	out, _ := Match(1)(Case{If: TopIsAny, Let: []TransformerFn{Erase, func(_ ParserContext, a AstSlice) (AstSlice, error) {
		n++
		return append(a, Ast{ClassName: "b"}), nil
	}}})(ctx)
	check(n == 1 && len(out.AstStack) == 1, "%d runs, %v", n, out.AstStack)
}
''')
seed("c30-hook-unmatched", "C30", "a custom parser that completes more than three rounds but fewer than it must",
 "the final hook runs although the parser did not match",
 [("base/base.go", """		if MatchStatus_Unmatched <= out.MatchStatus {
			return out, nil
		}

		out.Quantity = count
""", """		if MatchStatus_Unmatched <= out.MatchStatus {
			if fn != nil && 3 < count && MatchStatus_Error != out.MatchStatus {
				fn(-1, bottomOfAst, out)
			}
			return out, nil
		}

		out.Quantity = count
""")],
'''func main() {
	n := 0
	p := BaseParser("c", func(m, b int, ctx ParserContext) (ParserContext, error) {
		if m < 0 {
			n++
		}
		return ctx, nil
	}, []interface{}{Times{Min: 6, Max: 9}}, []ParserFn{str.Any()}, nil)
	p(*str.NewStringParserContext("abcde"))
	check(n == 0, "the final hook ran %d times", n)
}
''')
seed("c31-uint-size", "C31", "an unsigned integer beyond 32 bits on a 32-bit machine",
 "unsigned integers have the width of the machine",
 [("string/transformers.go", """	num, err := strconv.ParseUint(str2, base, 64)
""", """	num, err := strconv.ParseUint(str2, base, 0)
""")],
'''func main() {
	_, err := str.ParseUint(ParserContext{}, AstSlice{{Type: AstType_String, Value: "5000000000"}})
	check(err == nil, "%v", err)
}
''', env="GOARCH=386 CGO_ENABLED=0")
