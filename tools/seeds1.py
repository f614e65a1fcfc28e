B = "base/base.go"
seed("c01-group-alias", "C01", "a group of more than 32 nodes, followed by more nodes",
 "the group node shares the parser's node stack, so what is parsed afterwards shows up inside the group",
 [("base/transformers.go", """	w := make(AstSlice, 0, len(asts))
	w = append(w, asts...)
	return AstSlice{{
		ClassName: clsz.Group,""", """	w := asts
	if len(asts) <= 32 {
		w = make(AstSlice, 0, len(asts))
		w = append(w, asts...)
	}
	return AstSlice{{
		ClassName: clsz.Group,""")],
'''
func main() {
	p := FlatGroup(Group(OneOrMoreTimes(str.Alpha())), ZeroOrMoreTimes(str.Number()))
	for _, n := range []int{3, 32, 33, 100} {
		src := strings.Repeat("ab", n)[:n] + "01234567"
		out, err := p(*str.NewStringParserContext(src))
		check(err == nil && len(out.AstStack) == 9, "outcome %v %d", err, len(out.AstStack))
		s := ""
		for _, a := range out.AstStack[0].Value.(AstSlice) {
			v, ok := a.Value.(string)
			check(ok, "group of %d holds %T", n, a.Value)
			s += v
		}
		check(s == src[:n], "group of %d is %q", n, s)
	}
}
''')
seed("c02-lookahead-keeps-stack", "C02", "a case match inside a look-ahead that merges nodes produced before the look-ahead",
 "after the look-ahead the nodes produced before it are not the ones that were there",
 [(B, """			out = ctx
			out.MatchStatus = MatchStatus_Matched""", """			out.SourcePosition = ctx.SourcePosition
			out.AstStack = out.AstStack[:len(ctx.AstStack)]
			out.MatchStatus = MatchStatus_Matched""")],
'''
func main() {
	merge := func(_ ParserContext, asts AstSlice) (AstSlice, error) {
		return AstSlice{{Type: AstType_String, Value: "merged"}}, nil
	}
	p := FlatGroup(str.Any(), str.Any(), LookAhead(str.Any(), Match(3)(Case{If: TopIsAny, Let: []TransformerFn{merge}})), str.Any(), str.End())
	out, err := p(*str.NewStringParserContext("abc"))
	check(err == nil && out.MatchStatus == MatchStatus_Matched && len(out.AstStack) == 3, "outcome %v %v %d", err, out.MatchStatus, len(out.AstStack))
	for i, w := range []string{"a", "b", "c"} {
		check(out.AstStack[i].Value == w, "node %d is %v", i, out.AstStack[i].Value)
	}
}
''')
seed("c03-zero-max", "C03", "a repetition bounded by zero rounds",
 "a repetition with max 0 is unlimited",
 [(B, "for ; qty.Max < 0 || count < qty.Max; count++ {", "for ; qty.Max <= 0 || count < qty.Max; count++ {")],
'''
func main() {
	for max := 0; max < 4; max++ {
		p := Repeat(Times{Min: 0, Max: max}, str.Seq("a"))
		out, err := p(*str.NewStringParserContext("aaaaaa"))
		check(err == nil && out.MatchStatus == MatchStatus_Matched && out.Position == max, "max %d consumes %d", max, out.Position)
	}
}
''')
seed("c03-quantity", "C03", "reading the number of rounds a repetition reports",
 "a repetition without transformers reports one round too few when it stopped at max",
 [(B, """		out.Quantity = count
		if fn != nil {
			out, err = fn(-1, bottomOfAst, out)""", """		if fn != nil {
			out.Quantity = count
			out, err = fn(-1, bottomOfAst, out)""")],
'''
func main() {
	p := Repeat(Times{Min: 0, Max: 3}, str.Seq("a"))
	for n := 0; n < 6; n++ {
		out, err := p(*str.NewStringParserContext(strings.Repeat("a", n)))
		w := n
		if w > 3 {
			w = 3
		}
		check(err == nil && out.Quantity == w, "%d rounds reported for %d", out.Quantity, n)
	}
}
''')
seed("c04-lookbehind-memory", "C04", "a look-behind used first near the start of a source and later further inside",
 "a look-behind near the start permanently lowers its maximum distance",
 [("base/parsers.go", """		for i := minN; i <= maxN; i++ {
			out := ctx
			out.Position -= i
			if out.Position < 0 {
				continue
			}""", """		if ctx.Position < maxN {
			maxN = ctx.Position
		}
		for i := minN; i <= maxN; i++ {
			out := ctx
			out.Position -= i""")],
'''
func main() {
	lb := LookBehind(1, 5, str.Seq("abc"))
	p := ZeroOrMoreTimes(First(FlatGroup(lb, str.Any(), Zero(Ast{Type: AstType_String, Value: "!"})), str.Any()))
	out, err := p(*str.NewStringParserContext("abcdef"))
	check(err == nil && out.MatchStatus == MatchStatus_Matched, "outcome")
	n := 0
	for _, a := range out.AstStack {
		if a.Value == "!" {
			n++
		}
	}
	check(n == 5, "look-behind matched %d times instead of 5", n)
}
''')
seed("c05-rule-error-wrapped", "C05", "a rule of a production that raises an error",
 "the error of a rule is replaced by another one",
 [("base/production.go", """						if err != nil {
							return nil, err
						}""", """						if err != nil {
							return nil, errors.New("Production rule failed: " + err.Error())
						}""")],
'''
type myErr struct{ n int }

func (e *myErr) Error() string { return "mine" }

func main() {
	my := &myErr{7}
	rule := Trans(obj.Any(), func(_ ParserContext, asts AstSlice) (AstSlice, error) { return nil, my })
	p := Trans(FlatGroup(str.Any(), str.Any()), ProductionRule([]Precedence{{Rules: []ParserFn{rule}}}, FlatGroup(Start(), obj.Any(), obj.End())))
	out, err := p(*str.NewStringParserContext("ab"))
	check(out.MatchStatus == MatchStatus_Error, "status %v", out.MatchStatus)
	check(err == error(my), "error %v instead of the raised one", err)
}
''')
seed("c05-lookbehind-error", "C05", "a negative look-behind whose body raises an error at its second distance or later",
 "the error is swallowed and the assertion reported as matched",
 [("base/parsers.go", """			if err != nil {
				return out, err
			}
			if out.MatchStatus == MatchStatus_Matched {""", """			if err != nil && (!negative || i == minN) {
				return out, err
			}
			if out.MatchStatus == MatchStatus_Matched {""")],
'''
func main() {
	p := FlatGroup(str.Any(), str.Any(), str.Any(), LookBehindN(1, 3, str.Seq("b"), Error("boom")), str.End())
	out, err := p(*str.NewStringParserContext("abc"))
	check(err != nil && err.Error() == "boom" && out.MatchStatus == MatchStatus_Error, "error %v status %v", err, out.MatchStatus)
}
''')
seed("c06-fold", "C06", "letters with three case forms, such as the Greek final sigma",
 "the caseless string matcher no longer matches texts that are equal under case folding",
 [("string/parsers.go", "if strings.EqualFold(w, s) {", "if strings.ToLower(w) == strings.ToLower(s) {")],
'''
func main() {
	for _, c := range [][2]string{{"straße", "STRAßE"}, {"σας", "ΣΑΣ"}, {"ς", "σ"}} {
		check(strings.EqualFold(c[0], c[1]), "fold")
		out, err := str.SeqI(c[0])(*str.NewStringParserContext(c[1]))
		check(err == nil && out.MatchStatus == MatchStatus_Matched, "%q does not match %q", c[0], c[1])
	}
}
''')
seed("c06-replacement-char", "C06", "a source that really contains U+FFFD",
 "the complement range matcher rejects the character U+FFFD, and undecodable bytes",
 [("string/parsers.go", """		for _, rr := range cr {
			if rr.Start <= ch && ch <= rr.End {
				return ctx, nil
			}
		}""", """		if ch == utf8.RuneError {
			return ctx, nil
		}
		for _, rr := range cr {
			if rr.Start <= ch && ch <= rr.End {
				return ctx, nil
			}
		}""")],
'''
func main() {
	p := str.CharRangeN(RuneRange{Start: 'a', End: 'z'})
	for _, s := range []string{"A", "\\uFFFC", "\\uFFFD", "\\U0001F600"} {
		out, err := p(*str.NewStringParserContext(s))
		check(err == nil && out.MatchStatus == MatchStatus_Matched && out.Position == len(s), "%q: %v", s, out.MatchStatus)
	}
}
''')
seed("c07-class-length", "C07", "a set of strings in which an earlier, longer string does not match",
 "the node records the length of the longest string of the set",
 [("string/parsers.go", """		ctx.MatchStatus = MatchStatus_Unmatched

		for _, s := range cc {
			length := len(s)
			if ctx.Position+length <= len(ctx.Str) {
				w := ctx.Str[ctx.Position : ctx.Position+length]
				if w == s {
					ctx.AstStack""", """		ctx.MatchStatus = MatchStatus_Unmatched

		max := 0
		for _, s := range cc {
			length := len(s)
			if max < length && length <= len(ctx.Str)-ctx.Position {
				max = length
			}
			if ctx.Position+length <= len(ctx.Str) {
				w := ctx.Str[ctx.Position : ctx.Position+length]
				if w == s {
					ctx.AstStack"""), ("string/parsers.go", """						SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
					})
					ctx.Position += length
					ctx.Length = length
					ctx.MatchStatus = MatchStatus_Matched
					break
				}
			}
		}
		return ctx, nil""", """						SourcePosition: SourcePosition{Position: ctx.Position, Length: max},
					})
					ctx.Position += length
					ctx.Length = length
					ctx.MatchStatus = MatchStatus_Matched
					break
				}
			}
		}
		return ctx, nil""")],
'''
func main() {
	p := ZeroOrMoreTimes(str.CharClass("<=", "<", "=>"))
	out, err := p(*str.NewStringParserContext("<<==>"))
	check(err == nil, "error")
	for _, a := range out.AstStack {
		check(a.Length == len(a.Value.(string)), "node %q has length %d", a.Value, a.Length)
	}
}
''')
seed("c08-transform-after-error", "C08", "a chain of several transformers whose first fails",
 "the transformers after a failed one still run",
 [(B, """			for _, transform := range tr {
				asts, err = transform(ctx, asts)
				if err != nil {
					out.MatchStatus = MatchStatus_Error
					return out, err
				}
			}""", """			for _, transform := range tr {
				var trErr error
				asts, trErr = transform(ctx, asts)
				if err == nil {
					err = trErr
				}
			}
			if err != nil {
				out.MatchStatus = MatchStatus_Error
				return out, err
			}""")],
'''
func main() {
	calls := 0
	p := Trans(str.Any(), TransformError("first"), func(_ ParserContext, a AstSlice) (AstSlice, error) { calls++; return a, nil })
	_, err := p(*str.NewStringParserContext("x"))
	check(err != nil && err.Error() == "first", "error %v", err)
	check(calls == 0, "the second transformer ran after the first failed")
}
''')
seed("c08-match-all-tests", "C08", "a case match with several cases",
 "the tests of all cases run although an earlier case already fitted, unless it rewrites",
 [("base/match.go", """					ctx.AstStack = append(stack[:sp], asts...)

					ctx.MatchStatus = MatchStatus_Matched
					return ctx, nil""", """					ctx.AstStack = append(stack[:sp], asts...)

					ctx.MatchStatus = MatchStatus_Matched
					if len(c.Let) != 0 {
						return ctx, nil
					}"""), ("base/match.go", """				if c.If(ctx.AstStack) {
					stack""", """				if ctx.MatchStatus == MatchStatus_Matched {
					c.If(ctx.AstStack)
				} else if c.If(ctx.AstStack) {
					stack""")],
'''
func main() {
	n := 0
	second := func(AstSlice) bool { n++; return true }
	p := FlatGroup(str.Any(), Match(1)(Case{If: TopIsAny}, Case{If: second}))
	out, err := p(*str.NewStringParserContext("x"))
	check(err == nil && out.MatchStatus == MatchStatus_Matched, "outcome")
	check(n == 0, "the second test ran after the first case fitted")
}
''')
seed("c09-goal-tag", "C09", "a production rule whose goal looks at the user tag",
 "the goal of a production rule does not see the tag",
 [("base/production.go", "if out, err := check(*newContext(asts, ctx.Tag)); err == nil", "if out, err := check(*newContext(asts, nil)); err == nil")],
'''
func main() {
	goal := LightBaseParser("goal", func(ctx ParserContext) (ParserContext, error) {
		check(ctx.Tag == "tag", "the goal sees the tag %v", ctx.Tag)
		ctx.MatchStatus = MatchStatus_Matched
		return ctx, nil
	})
	p := Trans(str.Any(), ProductionRule([]Precedence{}, goal))
	c := *str.NewStringParserContext("x")
	c.Tag = "tag"
	_, err := p(c)
	check(err == nil, "error %v", err)
}
''')
seed("c10-nil-element", "C10", "a nil element in the source and nil among the listed values",
 "the set matcher never matches a nil element",
 [("object/parsers.go", """			w := ctx.Slice.Get(ctx.Position)
			for _, s := range oc {
				if ctx.Slice.ItemEquals(w, s) {
					ctx.AstStack""", """			w := ctx.Slice.Get(ctx.Position)
			for _, s := range oc {
				if w != nil && ctx.Slice.ItemEquals(w, s) {
					ctx.AstStack""")],
'''
type anys []interface{}

func (s anys) Len() int                                { return len(s) }
func (s anys) Get(i int) interface{}                   { return s[i] }
func (s anys) Set(i int, v interface{})                { s[i] = v }
func (s anys) Reslice(a, b int) SliceLike              { return s[a:b] }
func (s anys) Copy(a, b int) SliceLike                 { return append(anys(nil), s[a:b]...) }
func (s anys) Make(l, c int) SliceLike                 { return make(anys, l, c) }
func (s anys) ItemEquals(a, b interface{}) bool        { return a == b }

func main() {
	p := FlatGroup(obj.ObjClass(1, nil), obj.ObjClass(1, nil), obj.End())
	out, err := p(*obj.NewObjectParserContext(anys{1, nil}))
	check(err == nil && out.MatchStatus == MatchStatus_Matched, "nil is not matched")
}
''')
seed("c11-set-in-place", "C11", "a rewrite of exactly one node with SetOpCode that is seen again (a list applied twice, or backtracking over a case match)",
 "the transformer changes the list it was given",
 [("base/transformers.go", """func SetOpCode(opcode AstOpCodeType) TransformerFn {
	return func(_ ParserContext, asts AstSlice) (AstSlice, error) {
		w := make(AstSlice, 0, len(asts))
		w = append(w, asts...)""", """func SetOpCode(opcode AstOpCodeType) TransformerFn {
	return func(_ ParserContext, asts AstSlice) (AstSlice, error) {
		w := asts
		if 1 < len(asts) {
			w = make(AstSlice, 0, len(asts))
			w = append(w, asts...)
		}""")],
'''
func main() {
	in := AstSlice{{Type: AstType_String, Value: "x", OpCode: 1}}
	out, err := SetOpCode(7)(ParserContext{}, in)
	check(err == nil && len(out) == 1 && out[0].OpCode == 7, "result")
	check(in[0].OpCode == 1, "the given list was changed")
}
''')
seed("c12-int-saturates", "C12", "an integer text beyond the range of 64 bits",
 "numbers that do not fit are silently replaced by the largest one",
 [("string/transformers.go", """	num, err := strconv.ParseInt(str, base, 64)
	if err != nil {""", """	num, err := strconv.ParseInt(str, base, 64)
	if err != nil && !errors.Is(err, strconv.ErrRange) {""")],
'''
func main() {
	p := Trans(OneOrMoreTimes(str.Any()), str.ParseInt)
	out, err := p(*str.NewStringParserContext("9223372036854775807"))
	check(err == nil && out.AstStack[0].Value == int64(9223372036854775807), "max")
	_, err = p(*str.NewStringParserContext("9223372036854775808"))
	check(err != nil, "a number that does not fit gives no error")
}
''')
seed("c13-dot-exponent", "C13", "a number beginning with the decimal point that has an exponent",
 "the numeric recogniser leaves the exponent of .5e3 unread",
 [("extra/extra.go", """					ZeroOrOnce(CharClass("."), ZeroOrMoreTimes(First(Number(), erase(CharClass("_"))))),
				),""", """					ZeroOrOnce(CharClass("."), ZeroOrMoreTimes(First(Number(), erase(CharClass("_"))))),
					ZeroOrOnce(exponentStr()),
				),"""), ("extra/extra.go", """				),
			),
			ZeroOrOnce(exponentStr()),
		),
		Concat,
		ChangeClassName(clsz.NumericStr),""", """				),
			),
		),
		Concat,
		ChangeClassName(clsz.NumericStr),""")],
'''
func main() {
	p := extra.NumericStr()
	for _, s := range []string{"5e3", "5.5e-3", ".5e3", "-.5E+1"} {
		out, err := p(*str.NewStringParserContext(s))
		check(err == nil && out.MatchStatus == MatchStatus_Matched && out.Position == len(s), "%q read up to %d", s, out.Position)
	}
}
''')
seed("c14-continue-class", "C14", "identifiers that continue with one of the few characters of Other_ID_Start",
 "such a character ends the identifier although it may even start one",
 [("extra/extra.go", """						unicode.Is(unicode.Nl, c) ||
						unicode.Is(unicode.Other_ID_Start, c) ||
						unicode.Is(unicode.Mn, c) ||""", """						unicode.Is(unicode.Nl, c) ||
						unicode.Is(unicode.Mn, c) ||""")],
'''
func main() {
	p := extra.UnicodeIdentifierStr()
	for _, s := range []string{"ab", "a\\u2118b", "a\\u212e", "\\u2118a"} {
		out, err := p(*str.NewStringParserContext(s))
		check(err == nil && out.MatchStatus == MatchStatus_Matched && out.Position == len(s), "%q read up to %d", s, out.Position)
	}
}
''')
seed("c15-negative-minutes", "C15", "a numeric offset between -00:59 and -00:01",
 "the sign of an offset of less than an hour is lost",
 [("extra/transformers.go", """	value := asts[len(asts)-1].Value.(string)
	t, err := time.Parse("2006-01-02T15:04:05.000000000-07:00", value)
	if err != nil {
		return nil, err
	}
	return AstSlice{{
		ClassName: clsz.DateTime,""", """	value := asts[len(asts)-1].Value.(string)
	if n := len(value); 6 <= n && value[n-6:n-2] == "-00:" {
		value = value[:n-6] + "+" + value[n-5:]
	}
	t, err := time.Parse("2006-01-02T15:04:05.000000000-07:00", value)
	if err != nil {
		return nil, err
	}
	return AstSlice{{
		ClassName: clsz.DateTime,""")],
'''
func main() {
	p := Trans(extra.DateTimeStr(), extra.ParseDateTime)
	for _, s := range []string{"2020-01-01T00:00:00-01:00", "2020-01-01T00:00:00-00:30", "2020-01-01T00:00:00+00:30"} {
		out, err := p(*str.NewStringParserContext(s))
		check(err == nil, "error %v", err)
		w, err := time.Parse(time.RFC3339, s)
		check(err == nil && out.AstStack[0].Value.(time.Time).Equal(w), "%s converted to %v", s, out.AstStack[0].Value)
	}
}
''')
seed("c16-level-restart", "C16", "a reduction of a lower level that makes a rule of a higher level applicable again while more of the lower level remain",
 "after a reduction the search goes on at the next place of the same level instead of the highest level",
 [("base/production.go", """			for _, precedence := range precedences {
				astCtx""", """			for level, precedence := range precedences {
				if level < from {
					continue
				}
				astCtx"""), ("base/production.go", """						matched = true
						break PRECEDENCE""", """						matched = true
						from = level
						break PRECEDENCE"""), ("base/production.go", """			if !matched {
				// TODO:
				return nil""", """			if !matched && from != 0 {
				from = 0
				continue
			}
			if !matched {
				// TODO:
				return nil"""), ("base/production.go", """	return func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
		for {""", """	return func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
		from := 0
		for {""")],
'''
func node(s string) Ast { return Ast{ClassName: "t", Type: AstType_String, Value: s} }

func rule(from []string, to string) ParserFn {
	var ps []ParserFn
	for _, f := range from {
		ps = append(ps, obj.ObjClass(node(f)))
	}
	return Trans(FlatGroup(ps...), func(_ ParserContext, _ AstSlice) (AstSlice, error) { return AstSlice{node(to)}, nil })
}

func main() {
	// A: "x" "y" -> "y" before B: "a" -> "x"
	tr := ProductionRule([]Precedence{
		{Rules: []ParserFn{rule([]string{"x", "a"}, "y")}},
		{Rules: []ParserFn{rule([]string{"a"}, "x")}},
	}, FlatGroup(Start(), obj.ObjClass(node("x"), node("y")), ZeroOrMoreTimes(obj.ObjClass(node("x"), node("y"))), obj.End()))
	out, err := tr(ParserContext{}, AstSlice{node("a"), node("a"), node("a")})
	check(err == nil, "error %v", err)
	s := ""
	for _, a := range out {
		s += a.Value.(string)
	}
	check(s == "yx", "reduced to %q", s)
}
''')
seed("c17-zero-shared", "C17", "two goroutines parsing with one parser that inserts nodes",
 "the inserted nodes are written to by every parse at the same time",
 [("base/parsers.go", """		savedLen := len(ctx.AstStack)
		ctx.AstStack = append(ctx.AstStack, astsToInsert...)
		for i := 0; i < len(astsToInsert); i++ {
			ctx.AstStack[savedLen+i].SourcePosition = SourcePosition{Position: ctx.Position}
		}""", """		for i := 0; i < len(astsToInsert); i++ {
			astsToInsert[i].SourcePosition = SourcePosition{Position: ctx.Position}
		}
		ctx.AstStack = append(ctx.AstStack, astsToInsert...)""")],
'''
func main() {
	p := ZeroOrMoreTimes(str.Any(), Zero(Ast{Type: AstType_String, Value: "z"}))
	src := strings.Repeat("x", 400)
	var wg sync.WaitGroup
	bad := make(chan int, 8)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 4000; k++ {
				out, _ := p(*str.NewStringParserContext(src))
				for i, a := range out.AstStack {
					if a.Position != (i+1)/2 {
						bad <- i
						return
					}
				}
			}
		}()
	}
	wg.Wait()
	select {
	case i := <-bad:
		check(false, "node %d has a wrong position", i)
	default:
	}
}
''')
seed("c18-production-buffer", "C18", "a production rule used for two parses whose results are both kept",
 "the result of an earlier parse is overwritten by a later one",
 [("base/production.go", """	return func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
		for {""", """	var bufs [2]AstSlice
	return func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
		for n := 0; ; n++ {"""), ("base/production.go", "						z := make(AstSlice, 0, asts.Len())\n", "						z := bufs[n%2][:0]\n"), ("base/production.go", """						asts = z
""", """						bufs[n%2] = z
						asts = z
""")],
'''
func main() {
	rule := Trans(obj.Seq(Ast{ClassName: ""}), Erase)
	_ = rule
	two := FlatGroup(obj.Any(), obj.Any())
	join := Trans(two, func(_ ParserContext, a AstSlice) (AstSlice, error) {
		x, y := a[0].Value.(Ast), a[1].Value.(Ast)
		return AstSlice{{Type: AstType_String, Value: x.Value.(string) + y.Value.(string)}}, nil
	})
	tr := ProductionRule([]Precedence{{Rules: []ParserFn{join}}}, FlatGroup(Start(), obj.Any(), obj.End()))
	in := func(s string) (r AstSlice) {
		for _, c := range s {
			r = append(r, Ast{Type: AstType_String, Value: string(c)})
		}
		return
	}
	a, err := tr(ParserContext{}, in("abcd"))
	check(err == nil && a[0].Value == "abcd", "first")
	b, err := tr(ParserContext{}, in("wxyz"))
	check(err == nil && b[0].Value == "wxyz", "second")
	check(a[0].Value == "abcd", "the first result became %v", a[0].Value)
}
''')
seed("c19-nested-trace", "C19", "one traced construction inside another, with parsers of the outer one built after the inner",
 "parsers built after an inner traced construction report nothing",
 [("base/tracer.go", """			traceEnabled = savedTraceEnabled
""", """			traceEnabled = savedTraceEnabled && traceScope != savedTraceScope+"/"+scope
"""), ("base/tracer.go", """	traceEnabled = true
""", """	traceEnabled = true
""".replace("true\n", "true // for the children\n"))],
'''
type rec struct{ ev []string }

func (r *rec) Before(s string, n int, c string, _ *ParserContext)                   { r.ev = append(r.ev, "b "+s+" "+c) }
func (r *rec) After(s string, n int, c string, _ *ParserContext, _ error)           { r.ev = append(r.ev, "a "+s+" "+c) }
func (r *rec) Panic(s string, n int, c string, _ *ParserContext, _ interface{})     {}

func main() {
	r := &rec{}
	p := DebugTrace("outer", r)(DebugTrace("inner", r)(str.Any()), str.Any())
	_, err := p(*str.NewStringParserContext("xy"))
	check(err == nil, "error")
	n := 0
	for _, e := range r.ev {
		if strings.HasPrefix(e, "b /outer ") {
			n++
		}
	}
	check(n == 2, "the outer scope reports %d begins: %q", n, r.ev)
}
''')
seed("c20-pair-in-place", "C20", "a tree with pairs whose callbacks return changed nodes, looked at again after the traversal",
 "the given tree is altered: the pair's parts are replaced in place",
 [("base/ast.go", "				cons := *(*AstCons)((*rawInterface2)(unsafe.Pointer(&s.Value)).Ptr)\n", "				cons := (*AstCons)((*rawInterface2)(unsafe.Pointer(&s.Value)).Ptr)\n"), ("base/ast.go", "				s.Value = cons\n", "				s.Value = *cons\n")],
'''
func main() {
	leaf := func(n int64) Ast { return Ast{Type: AstType_Int, Value: n} }
	tree := Ast{Type: AstType_AstCons, Value: AstCons{Car: leaf(1), Cdr: leaf(2)}}
	there := func(_ interface{}, a Ast) (Ast, WayThereMode, error) { return a, WayThereMode_None, nil }
	back := func(_ interface{}, a Ast) (Ast, int16, TraverseOpcode, interface{}, error) {
		if a.Type == AstType_Int {
			a.Value = a.Value.(int64) + 10
		}
		return a, 0, 0, nil, nil
	}
	out, _, _, _, err := tree.Traverse(there, back, func(interface{}, Ast, Ast, interface{}, error) {}, nil)
	check(err == nil, "error")
	c := out.Value.(AstCons)
	check(c.Car.Value == int64(11) && c.Cdr.Value == int64(12), "result %v", c)
	g := tree.Value.(AstCons)
	check(g.Car.Value == int64(1) && g.Cdr.Value == int64(2), "the given tree became %v", g)
}
''')
seed("c20-break-pc", "C20", "an item of a keep-last list that asks to break and to jump back at once",
 "the jump is ignored when an item breaks",
 [("base/ast.go", """					case TraverseOpcode_Break:
						i = origLen - 1
""", """					case TraverseOpcode_Break:
						i = origLen - 1
						pcIncr = 0
""")],
'''
func main() {
	list := AstSlice{}
	for i := int64(0); i < 4; i++ {
		list = append(list, Ast{Type: AstType_Int, Value: i})
	}
	tree := Ast{Type: AstType_ListOfAst, Value: list}
	there := func(_ interface{}, a Ast) (Ast, WayThereMode, error) { return a, WayThereMode_Last, nil }
	var seen []int64
	first := true
	back := func(_ interface{}, a Ast) (Ast, int16, TraverseOpcode, interface{}, error) {
		if n, ok := a.Value.(int64); ok {
			seen = append(seen, n)
			if n == 1 && first {
				first = false
				return a, -2, TraverseOpcode_Break, nil, nil
			}
		}
		return a, 0, 0, nil, nil
	}
	_, _, _, _, err := tree.Traverse(there, back, func(interface{}, Ast, Ast, interface{}, error) {}, nil)
	check(err == nil, "error")
	check(fmt.Sprint(seen) == "[0 1 2 3]", "visited %v", seen)
}
''')
seed("c21-indirect-retry", "C21", "text that fails deep inside a recursive grammar",
 "a deferred parser that fails is tried twice, so failing at depth n takes 2^n steps",
 [(B, """		out, err := fn(ctx)
		if err != nil && out.MatchStatus < MatchStatus_Error {
			out.MatchStatus = MatchStatus_Error
		}
		if out""", """		out, err := fn(ctx)
		if err != nil && out.MatchStatus < MatchStatus_Error {
			out.MatchStatus = MatchStatus_Error
		}
		if out.MatchStatus == MatchStatus_Unmatched && out.ClassName != ctx.ClassName {
			// made by a wrapped parser
			out, err = fn(ctx)
		}
		if out""")],
'''
func main() {
	var expr func() ParserFn
	expr = func() ParserFn {
		return First(FlatGroup(str.Seq("("), Indirect(expr), str.Seq(")")), str.Seq("x"))
	}
	done := make(chan bool)
	go func() {
		p := expr()
		out, err := p(*str.NewStringParserContext(strings.Repeat("(", 40) + "y"))
		check(err == nil && out.MatchStatus == MatchStatus_Unmatched, "outcome")
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		check(false, "40 nested parentheses are not parsed within 20 s")
	}
}
''')
seed("c22-cr-tabs", "C22", "a tab in a line that ends with a bare carriage return, before the line asked for",
 "the caret is shifted by the tabs of an earlier line",
 [("base/util.go", """			prevLineIndex = lineIndex
			lineIndex = i + 1
			nTabs = 0
			col = 1
		case '\\n':""", """			prevLineIndex = lineIndex
			lineIndex = i + 1
			col = 1
		case '\\n':""")],
'''
func main() {
	a := GetLineAndColPosition("\\tab\\rxyz", SourcePosition{Position: 6}, 4)
	b := GetLineAndColPosition("\\tab\\nxyz", SourcePosition{Position: 6}, 4)
	check(strings.Index(a.ErrSource, "^") - strings.LastIndex(a.ErrSource, "| ") == strings.Index(b.ErrSource, "^") - strings.LastIndex(b.ErrSource, "| "), "%q %q", a.ErrSource, b.ErrSource)
}
''')
seed("c23-copy-alias", "C23", "a copy of a whole node slice, changed afterwards",
 "the copy shares its storage with the original",
 [("base/ast.go", """	w := make(AstSlice, 0, end-start)
	return append(w, s[start:end]...)""", """	if start == 0 && end == len(s) {
		return append(AstSlice{}, s...)[:end:end]
	}
	return s[start:end:end]""")],
'''
func main() {
	s := AstSlice{{OpCode: 1}, {OpCode: 2}, {OpCode: 3}}
	for a := 0; a <= 3; a++ {
		for b := a; b <= 3; b++ {
			c := s.Copy(a, b).(AstSlice)
			check(len(c) == b-a, "length")
			for i := range c {
				c[i].OpCode = 9
			}
		}
	}
	check(s[0].OpCode == 1 && s[1].OpCode == 2 && s[2].OpCode == 3, "the original changed: %v", s)
}
''')
seed("c24-set-nil", "C24", "storing nil or an empty byte list through a box of a declared map entry",
 "the entry still counts as unset after an empty byte list was stored",
 [("base/box.go", """func (p *NotInitializedMapContainerReflectionBox) SetBytes(v []byte) {
	p.Container.SetMapIndex(p.Key, reflect.ValueOf(v))
	p.Initialized = true
""", """func (p *NotInitializedMapContainerReflectionBox) SetBytes(v []byte) {
	p.Container.SetMapIndex(p.Key, reflect.ValueOf(v))
	p.Initialized = p.Initialized || 0 < len(v)
""")],
'''
func main() {
	m := map[string]interface{}{}
	b := &NotInitializedMapContainerReflectionBox{Container: reflect.ValueOf(m), Key: reflect.ValueOf("k")}
	b.SetBytes([]byte{})
	defer func() { check(recover() == nil, "the entry refuses to be read after it was set") }()
	check(len(b.GetBytes()) == 0, "bytes")
}
''')
seed("c28-test-window", "C28", "a case match over zero nodes, or a test that looks below the requested number of nodes",
 "the tests see only the requested nodes, so with n = 0 the stock tests never accept",
 [("base/match.go", "				if c.If(ctx.AstStack) {", "				if c.If(ctx.AstStack[sp:]) {")],
'''
func main() {
	p := FlatGroup(str.Any(), Match(0)(Case{If: TopIsStr("x")}))
	out, err := p(*str.NewStringParserContext("x"))
	check(err == nil && out.MatchStatus == MatchStatus_Matched, "the case does not fit: %v", out.MatchStatus)
}
''')
seed("c30-bottom", "C30", "a custom parser with several rounds whose hook uses the index of its first node",
 "from the second round on the hook is told the wrong first node",
 [(B, """		bottomOfAst := len(ctx.AstStack)
		count := 0""", """		bottomOfAst := 0
		count := 0"""), (B, """			saved := out
			out.savedDepth""", """			saved := out
			bottomOfAst = len(out.AstStack)
			out.savedDepth""")],
'''
func main() {
	var seen []int
	p := FlatGroup(str.Any(), BaseParser("mine", func(n, bottom int, ctx ParserContext) (ParserContext, error) {
		seen = append(seen, bottom)
		return ctx, nil
	}, []interface{}{Times{Min: 0, Max: -1}}, []ParserFn{str.Any()}, nil))
	_, err := p(*str.NewStringParserContext("abcd"))
	check(err == nil, "error")
	for _, b := range seen {
		check(b == 1, "the hook was told %v", seen)
	}
}
''')
seed("c31-int-width", "C31", "a 32-bit platform and integers that agree in their low 32 bits",
 "the integer test of a case match compares machine integers",
 [("base/match.go", """			s, ok := asts[len(asts)-1].Value.(int64)
			if !ok {
				return false
			}
			for _, z := range v {
				if s == z {""", """			s, ok := asts[len(asts)-1].Value.(int64)
			if !ok {
				return false
			}
			for _, z := range v {
				if int(s) == int(z) {""")],
'''
func main() {
	check(!TopIsInt(5)(AstSlice{{Type: AstType_Int, Value: int64(5 + 1<<32)}}), "4294967301 counts as 5")
	check(TopIsInt(5)(AstSlice{{Type: AstType_Int, Value: int64(5)}}), "5 does not count as 5")
}
''', env="GOOS=linux GOARCH=386")
seed("c31-parse-width", "C31", "a 32-bit platform and an integer beyond 32 bits",
 "integers beyond the platform's word are rejected",
 [("string/transformers.go", "strconv.ParseInt(str, base, 64)", "strconv.ParseInt(str, base, strconv.IntSize)")],
'''
func main() {
	out, err := Trans(OneOrMoreTimes(str.Any()), str.ParseInt)(*str.NewStringParserContext("4294967296"))
	check(err == nil && out.AstStack[0].Value == int64(4294967296), "error %v", err)
}
''', env="GOOS=linux GOARCH=386")
