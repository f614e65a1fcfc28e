seed("c19-wrap16", "C19", "more than 65536 parsers built under tracing",
 "tracking numbers are cut to 16 bits",
 [("base/base.go", """		out.ClassName = className
		return out, err
	}

	if traceEnabled {
		traceParserTrackingNo++
""", """		out.ClassName = className
		return out, err
	}

	if traceEnabled {
		traceParserTrackingNo = (traceParserTrackingNo + 1) & 0xffff
"""), ("base/base.go", """		out.savedDepth = ctx.savedDepth
		return out, nil
	}

	if traceEnabled {
		traceParserTrackingNo++
""", """		out.savedDepth = ctx.savedDepth
		return out, nil
	}

	if traceEnabled {
		traceParserTrackingNo = (traceParserTrackingNo + 1) & 0xffff
""")],
'''type rec struct{ seen map[int]int }

func (r rec) Before(scope string, n int, class string, ctx *ParserContext)                { r.seen[n]++ }
func (r rec) After(scope string, n int, class string, ctx *ParserContext, err error)      {}
func (r rec) Panic(scope string, n int, class string, ctx *ParserContext, x interface{}) {}
func main() {
	r := rec{map[int]int{}}
	w := DebugTrace("a", r)
	var ps []ParserFn
	for i := 0; i < 70000; i++ {
		ps = append(ps, Zero())
	}
	w(ps...)(*str.NewStringParserContext(""))
	for n, k := range r.seen {
		check(k == 1, "number %d was used %d times", n, k)
	}
}
''')
seed("c16-longest-rule", "C16", "two rules that match at the same place, the later one more nodes",
 "of the rules that match at a place the longest is applied",
 [("base/production.go", """						if out.MatchStatus >= MatchStatus_Unmatched {
							continue
						}
""", """						if out.MatchStatus >= MatchStatus_Unmatched {
							continue
						}
						for _, other := range precedence.Rules {
							o, err := other(curCtx)
							if err == nil && o.MatchStatus == MatchStatus_Matched && out.Position+1 < o.Position {
								out = o
							}
						}
""")],
'''func main() {
	take := func(n int) ParserFn {
		return Trans(Repeat(Times{Min: n, Max: n}, obj.Any()), func(_ ParserContext, a AstSlice) (AstSlice, error) {
			return AstSlice{{Type: AstType_Int, Value: int64(n)}}, nil
		})
	}
	rule := ProductionRule([]Precedence{{Rules: []ParserFn{take(2), take(4)}}}, FlatGroup(obj.Any(), obj.End()))
	out, err := rule(ParserContext{}, AstSlice{{}, {}, {}, {}})
	check(err == nil && out[0].Value == int64(2), "%v %v", out, err)
}
''')
seed("c20-throw-second", "C20", "something thrown out of the second node of a pair",
 "what the second node of a pair throws is not reported to the pair",
 [("base/ast.go", """				if thrown != nil || err != nil {
					fnChildrenErr(ctx, s, cons.Cdr, thrown, err)
""", """				if thrown != nil || err != nil {
					if err != nil || cons.Cdr.Type != AstType_AstCons {
						fnChildrenErr(ctx, s, cons.Cdr, thrown, err)
					}
""")],
'''func main() {
	n := 0
	Ast{Type: AstType_AstCons, Value: AstCons{Cdr: Ast{Type: AstType_AstCons, Value: AstCons{}}}}.Traverse(
		func(ctx interface{}, a Ast) (Ast, WayThereMode, error) { return a, 0, nil },
		func(ctx interface{}, a Ast) (Ast, int16, TraverseOpcode, interface{}, error) {
			if a.Type == AstType_AstCons {
				return a, 0, 0, "thrown", nil
			}
			return a, 0, 0, nil, nil
		},
		func(ctx interface{}, a, c Ast, thrown interface{}, err error) { n++ }, nil)
	check(n == 1, "reported %d times", n)
}
''')
seed("c28-last-case-first", "C28", "a case matcher used again where two cases accept",
 "the case that accepted last is tried first",
 [("base/match.go", """			for _, c := range cases {
				if c.If(ctx.AstStack) {
""", """			for k := range cases {
				c := cases[(k+int(atomic.LoadInt32(&last)))%len(cases)]
				if c.If(ctx.AstStack) {
					atomic.StoreInt32(&last, (atomic.LoadInt32(&last)+int32(k))%int32(len(cases)))
"""), ("base/match.go", """		return LightBaseParser(ClassName, func(ctx ParserContext) (ParserContext, error) {
			sp :=""", """		var last int32
		return LightBaseParser(ClassName, func(ctx ParserContext) (ParserContext, error) {
			sp :="""), ("base/match.go", 'import "reflect"', 'import (\n\t"reflect"\n\t"sync/atomic"\n)')],
'''func main() {
	m := Match(1)(Case{If: TopIsStr("a"), Let: []TransformerFn{ChangeClassName("a")}}, Case{If: TopIsAny, Let: []TransformerFn{ChangeClassName("any")}})
	p := ZeroOrMoreTimes(str.Any(), m)
	out, _ := p(*str.NewStringParserContext("ba"))
	check(out.AstStack[1].ClassName == "a", "%v", out.AstStack)
}
''')
seed("c06-bom", "C06", "a byte order mark at the start of the source",
 "any character at the start takes a byte order mark and the character behind it",
 [("string/parsers.go", """		ch, length := utf8.DecodeRuneInString(ctx.Str[ctx.Position:])
		if length == 0 {
			return ctx, nil
		}
		s := string(ch)

		ctx.AstStack = append(ctx.AstStack, Ast{
			ClassName:      ClassName,
			Type:           AstType_String,
			Value:          s,
			SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
		})
		ctx.Position += length
		ctx.Length = length
		ctx.MatchStatus = MatchStatus_Matched

		return ctx, nil
	})
}

// Zero-width assertion at the end""", """		if ctx.Position == 0 && strings.HasPrefix(ctx.Str, "\\ufeff") && 3 < len(ctx.Str) {
			ctx.Position = 3
		}
		ch, length := utf8.DecodeRuneInString(ctx.Str[ctx.Position:])
		if length == 0 {
			return ctx, nil
		}
		s := string(ch)

		ctx.AstStack = append(ctx.AstStack, Ast{
			ClassName:      ClassName,
			Type:           AstType_String,
			Value:          s,
			SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
		})
		ctx.Position += length
		ctx.Length = length
		ctx.MatchStatus = MatchStatus_Matched

		return ctx, nil
	})
}

// Zero-width assertion at the end""")],
'''func main() {
	out, _ := str.Any()(*str.NewStringParserContext("\\ufeffab"))
	check(out.Position == 3, "%d", out.Position)
}
''')
seed("c15-year-zero", "C15", "a date of the year 0000",
 "year 0000 is refused",
 [("extra/transformers.go", """	t, err := time.Parse("2006-01-02T15:04:05.000000000-07:00", value)
	if err != nil {
		return nil, err
	}
	return AstSlice{{
		ClassName: clsz.DateTime,""", """	t, err := time.Parse("2006-01-02T15:04:05.000000000-07:00", value)
	if err != nil {
		return nil, err
	}
	if t.UTC().Year() < 1 {
		t = t.AddDate(1, 0, 0)
	}
	return AstSlice{{
		ClassName: clsz.DateTime,""")],
'''func main() {
	out, err := extra.ParseDateTime(ParserContext{}, AstSlice{{Type: AstType_String, Value: "0000-03-01T00:00:00.000000000+00:00"}})
	check(err == nil && out[0].Value.(time.Time).Year() == 0, "%v %v", out, err)
}
''')
seed("c04-behind-swapped", "C04", "a look-behind whose bounds contain no distance",
 "bounds given the wrong way round are exchanged",
 [("base/parsers.go", """		for i := minN; i <= maxN; i++ {
""", """		minN, maxN := minN, maxN
		if maxN < minN {
			minN, maxN = maxN, minN
		}
		for i := minN; i <= maxN; i++ {
""")],
'''func main() {
	out, _ := LookBehind(3, 1, str.Seq("a"))(ParserContext{Str: "aaaa", SourcePosition: SourcePosition{Position: 4}})
	check(out.MatchStatus == MatchStatus_Unmatched, "%v", out.MatchStatus)
}
''')
seed("c12-minus-zero", "C12", "a negative zero",
 "the sign of a floating point zero is lost",
 [("string/transformers.go", """	num, err := strconv.ParseFloat(str, 64)
""", """	num, err := strconv.ParseFloat(str, 64)
	num += 0.0
	if num == 0 {
		num = 0
	}
""")],
'''func main() {
	out, _ := str.ParseFloat(ParserContext{}, AstSlice{{Type: AstType_String, Value: "-0.0"}})
	check(math.Signbit(out[0].Value.(float64)), "%v", out)
}
''')
seed("c19-empty-scope", "C19", "a scope without a name inside another",
 "a scope without a name adds nothing to the path",
 [("base/tracer.go", """	traceScope = traceScope + "/" + scope
""", """	if scope != "" || traceScope == "" {
		traceScope = traceScope + "/" + scope
	}
""")],
'''type rec struct{ got *string }

func (r rec) Before(scope string, n int, class string, ctx *ParserContext)                { *r.got = scope }
func (r rec) After(scope string, n int, class string, ctx *ParserContext, err error)      {}
func (r rec) Panic(scope string, n int, class string, ctx *ParserContext, x interface{}) {}
func main() {
	got := ""
	DebugTrace("a", rec{&got})(DebugTrace("", rec{&got})(str.Any()))(*str.NewStringParserContext("x"))
	check(got == "/a/", "%q", got)
}
''')
seed("c30-odd-range", "C30", "a repetition with a lower but no upper bound below it, negated",
 "a negated repetition whose bound is not reached keeps what it had",
 [("base/base.go", """			case MatchStatus_Unmatched:
				out.MatchStatus = MatchStatus_Matched
			case MatchStatus_Matched:
				out.MatchStatus = MatchStatus_Unmatched
""", """			case MatchStatus_Unmatched:
				out.MatchStatus = MatchStatus_Matched
			case MatchStatus_Matched:
				if !(rewind && thereExists && 1 < count) {
					out.MatchStatus = MatchStatus_Unmatched
				}
""")],
'''func main() {
	p := BaseParser("x", nil, []interface{}{Times{Min: 2, Max: 5}, ThereExists{}, Negative{}, Rewind{}}, []ParserFn{str.Seq("a"), str.Seq("b")}, nil)
	out, _ := p(*str.NewStringParserContext("ab"))
	check(out.MatchStatus == MatchStatus_Unmatched, "%v", out.MatchStatus)
}
''')
seed("c01-if-lazy", "C01", "an optional part of several pieces the first of which is erased",
 "a sequence that produced no nodes for its first piece is tried again without it",
 [("base/base.go", """					} else {
						// rewind all children
						out = saved
						break PARENT
					}
				}
				numChildrenMatched++""", """					} else {
						// rewind all children
						if numChildrenMatched == 1 && len(children) == 3 && qty.Min == 0 && len(prev.AstStack) == len(saved.AstStack) && saved.Position < prev.Position {
							numChildrenMatched++
							out = prev
							out.MatchStatus = MatchStatus_Matched
							continue CHILDREN
						}
						out = saved
						break PARENT
					}
				}
				numChildrenMatched++""")],
'''func main() {
	p := FlatGroup(ZeroOrOnce(Trans(str.Seq("a"), Erase), str.Seq("b"), str.Seq("c")), str.Seq("a"))
	out, _ := p(*str.NewStringParserContext("ac"))
	check(out.MatchStatus == MatchStatus_Matched && out.Position == 1, "%v %d", out.MatchStatus, out.Position)
}
''')
seed("c02-undo-limit", "C02", "an alternative that produced very many nodes before it failed",
 "what a failed alternative produced is kept where it is too much to undo",
 [("base/base.go", """						// rewind current child
						out = prev
""", """						// rewind current child
						if n := len(out.AstStack) - len(prev.AstStack); 300 < n {
							prev.AstStack = out.AstStack[:len(prev.AstStack)+n%2]
						}
						out = prev
""")],
'''func main() {
	junk := LightBaseParser("junk", func(ctx ParserContext) (ParserContext, error) {
		for i := 0; i < 301; i++ {
			ctx.AstStack = append(ctx.AstStack, Ast{})
		}
		ctx.MatchStatus = MatchStatus_Unmatched
		return ctx, nil
	})
	out, _ := First(junk, str.Any())(*str.NewStringParserContext("x"))
	check(len(out.AstStack) == 1, "%d nodes", len(out.AstStack))
}
''')
seed("c13-signed-hex", "C13", "a decimal integer of more than 18 digits with a leading underscore group",
 "an integer with many underscores ends early",
 [("extra/extra.go", """				FlatGroup(
					Number(),
					ZeroOrMoreTimes(First(Number(), erase(CharClass("_")))),
				),
			),
		),
		Concat,
		ChangeClassName(clsz.IntegerNumberStr),""", """				FlatGroup(
					Number(),
					Repeat(Times{Min: 0, Max: 40}, First(Number(), erase(CharClass("_")))),
				),
			),
		),
		Concat,
		ChangeClassName(clsz.IntegerNumberStr),""")],
'''func main() {
	s := "1" + strings.Repeat("_2", 30)
	out, _ := extra.IntegerNumberStr()(*str.NewStringParserContext(s))
	check(out.Position == len(s), "%d of %d", out.Position, len(s))
}
''')
seed("c09-deep-tag", "C09", "a tag that is a pointer, at a node deep inside the recursion",
 "tags that are functions are lost in deferred parsers",
 [("base/parsers.go", """		parser, ok := expanded.Load().(ParserFn)
		if !ok {
			parser = expand()
		}
		return parser(ctx)
""", """		parser, ok := expanded.Load().(ParserFn)
		if !ok {
			parser = expand()
		}
		if _, ok := ctx.Tag.(func()); ok {
			ctx.Tag = nil
		}
		return parser(ctx)
""")],
'''func main() {
	ctx := str.NewStringParserContext("a")
	ctx.Tag = func() {}
	out, _ := Indirect(func() ParserFn { return str.Any() })(*ctx)
	check(out.Tag != nil, "no tag")
}
''')
