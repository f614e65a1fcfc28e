seed("c03-same-place-round", "C03", "a repetition whose rounds rewrite nodes without moving, and a later round that fails",
 "a round which did not move forward is given up together with the failing one",
 [("base/base.go", """			saved := out
			out.savedDepth""", """			if count == 0 || out.Position != saved.Position {
				saved = out
			}
			out.savedDepth"""), ("base/base.go", """		count := 0
		var err error = nil
""", """		count := 0
		var saved ParserContext
		var err error = nil
""")],
'''func main() {
	p := FlatGroup(str.Any(), Repeat(Times{Min: 0, Max: 5}, Match(1)(Case{If: TopIsStr("a"), Let: []TransformerFn{SetValue(AstType_String, "b")}})))
	out, _ := p(*str.NewStringParserContext("a"))
	check(out.MatchStatus == MatchStatus_Matched && out.AstStack[0].Value == "b", "%v", out.AstStack)
}
''')
seed("c03-once-direct", "C03", "a once around a repetition",
 "a repetition of exactly one round of one parser is that parser itself, so that its quantity is the inner one",
 [("base/parsers.go", """	const ClassName = clsz.Repeat
""", """	const ClassName = clsz.Repeat
	if times == qtyOnce && len(children) == 1 {
		return children[0]
	}
""")],
'''func main() {
	out, _ := Once(Repeat(Times{Min: 3, Max: 3}, str.Seq("a")))(*str.NewStringParserContext("aaa"))
	check(out.Quantity == 1, "%d", out.Quantity)
}
''')
seed("c03-max-minus-two", "C03", "a negative maximum other than -1", "only -1 means without bound",
 [("base/base.go", "		for ; qty.Max < 0 || count < qty.Max; count++ {", "		for ; qty.Max == -1 || count < qty.Max; count++ {")],
'''func main() {
	out, _ := Repeat(Times{Min: 0, Max: -2}, str.Seq("a"))(*str.NewStringParserContext("aaa"))
	check(out.Position == 3, "%d", out.Position)
}
''')
seed("c04-behind-all-before", "C04", "a negative look-behind all of whose places lie before the start",
 "it is unmatched there",
 [("base/parsers.go", """		for i := minN; i <= maxN; i++ {
			out := ctx
			out.Position -= i
			if out.Position < 0 {
				continue
			}
""", """		if ctx.Position < minN {
			ctx.MatchStatus = MatchStatus_Unmatched
			return ctx, nil
		}
		for i := minN; i <= maxN; i++ {
			out := ctx
			out.Position -= i
			if out.Position < 0 {
				continue
			}
""")],
'''func main() {
	out, _ := LookBehindN(1, 2, str.Any())(*str.NewStringParserContext("aaa"))
	check(out.MatchStatus == MatchStatus_Matched, "%v", out.MatchStatus)
}
''')
seed("c05-empty-message", "C05", "an error without any text inside a choice", "it counts as no error",
 [("base/base.go", """				if err != nil && out.MatchStatus < MatchStatus_Error {
					out.MatchStatus = MatchStatus_Error
				}

				switch out.MatchStatus {
				case MatchStatus_Error:
					return out, err
				case MatchStatus_Unmatched:
					if thereExists {""", """				if err != nil && out.MatchStatus < MatchStatus_Error {
					out.MatchStatus = MatchStatus_Error
				}
				if thereExists && err != nil && err.Error() == "" {
					out.MatchStatus = MatchStatus_Unmatched
				}

				switch out.MatchStatus {
				case MatchStatus_Error:
					return out, err
				case MatchStatus_Unmatched:
					if thereExists {""")],
'''func main() {
	out, err := First(Error(""), str.Any())(*str.NewStringParserContext("aaa"))
	check(out.MatchStatus == MatchStatus_Error && err != nil, "%v %v", out.MatchStatus, err)
}
''')
seed("c06-or20", "C06", "SeqI where text and word differ in bit 0x20 of a sign that is no letter", "such signs count as equal",
 [("string/parsers.go", "			if strings.EqualFold(w, s) {", """			equal := true
			for i := 0; i < len(s); i++ {
				if s[i]|w[i] >= 0x80 {
					equal = strings.EqualFold(w, s)
					break
				}
				if s[i]|0x20 != w[i]|0x20 || s[i] < '@' && s[i] != w[i] {
					equal = false
					break
				}
			}
			if equal {""")],
'''func main() {
	out, _ := str.SeqI("a[")(*str.NewStringParserContext("A{"))
	check(out.MatchStatus == MatchStatus_Unmatched, "%v", out.MatchStatus)
}
''')
seed("c06-swapped-range", "C06", "a range whose end lies before its start", "it is taken the other way round",
 [("string/parsers.go", """		for _, rr := range cr {
			if rr.Start <= ch && ch <= rr.End {
				return ctx, nil""", """		for _, rr := range cr {
			if rr.Start <= ch && ch <= rr.End || rr.End <= ch && ch <= rr.Start {
				return ctx, nil""")],
'''func main() {
	out, _ := str.CharRangeN(RuneRange{Start: 'z', End: 'a'})(*str.NewStringParserContext("k"))
	check(out.MatchStatus == MatchStatus_Matched, "%v", out.MatchStatus)
}
''')
seed("c15-local-zone", "C15", "a process whose local zone is not UTC", "dates are midnight in the local zone",
 [("extra/transformers.go", """	t, err := time.Parse("2006-01-02", value)""", """	t, err := time.ParseInLocation("2006-01-02", value, time.Local)""")],
'''func main() {
	time.Local = time.FixedZone("x", 3600)
	w, err := extra.ParseDate(ParserContext{}, AstSlice{{Type: AstType_String, Value: "2001-02-03"}})
	check(err == nil && w[0].Value.(time.Time).Equal(time.Date(2001, 2, 3, 0, 0, 0, 0, time.UTC)), "%v", w)
}
''')
seed("c15-local-result", "C15", "a process whose local zone is not UTC", "times are given in the local zone",
 [("extra/transformers.go", """		ClassName: clsz.Time,
		Type:      AstType_Any,
		Value:     t.UTC(),""", """		ClassName: clsz.Time,
		Type:      AstType_Any,
		Value:     t.Local(),""")],
'''func main() {
	time.Local = time.FixedZone("x", 3600)
	w, err := extra.ParseTime(ParserContext{}, AstSlice{{Type: AstType_String, Value: "01:02:03.000000000"}})
	check(err == nil && w[0].Value.(time.Time).Location() == time.UTC, "%v", w)
}
''')
seed("c16-rtol-end", "C16", "a right-to-left rule that matches only at the very end of the list", "it is not tried there",
 [("base/production.go", "							curCtx.Position = asts.Len() - i\n", """							curCtx.Position = asts.Len() - i
							if i == 0 && len(asts) > 0 {
								continue
							}
""")],
'''func main() {
	tr := ProductionRule([]Precedence{{Rtol: true, Rules: []ParserFn{FlatGroup(obj.End(), LookBehindN(1, 1, obj.ObjClassFn(func(c interface{}) bool { return c.(Ast).Value == "e" })), Zero(Ast{Value: "e"}))}}},
		FlatGroup(obj.Any(), obj.Any(), obj.End()))
	w, err := tr(ParserContext{}, AstSlice{{Value: 1}})
	check(err == nil && len(w) == 2, "%v %v", w, err)
}
''')
seed("c17-two-atomics", "C17", "two parses at once asking for different characters", "the answer for another goroutine's character is given",
 [("string/util.go", """package strparser
""", """package strparser

import "sync/atomic"

var lastLineBreak, lastLineBreakIs int32
"""), ("string/util.go", """	// LF, VT, FF, CR, NEL
	if r == 0x000a || r == 0x000b || r == 0x000c || r == 0x000d || r == 0x0085 {
		return true
	} else {
		return false
	}""", """	// LF, VT, FF, CR, NEL
	if r != 0 && atomic.LoadInt32(&lastLineBreak) == r {
		return atomic.LoadInt32(&lastLineBreakIs) == 1
	}
	is := int32(0)
	if r == 0x000a || r == 0x000b || r == 0x000c || r == 0x000d || r == 0x0085 {
		is = 1
	}
	atomic.StoreInt32(&lastLineBreak, r)
	atomic.StoreInt32(&lastLineBreakIs, is)
	return is == 1""")],
'''func main() {
	p := str.LineBreak()
	var wg sync.WaitGroup
	var bad int32
	var mu sync.Mutex
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			src, want := "\\n", MatchStatus_Matched
			if g%2 == 0 {
				src, want = "x", MatchStatus_Unmatched
			}
			for i := 0; i < 300000; i++ {
				out, _ := p(*str.NewStringParserContext(src))
				if out.MatchStatus != want {
					mu.Lock()
					bad++
					mu.Unlock()
				}
			}
		}(g)
	}
	wg.Wait()
	check(bad == 0, "%d", bad)
}
''')
seed("c18-blacklist", "C18", "an alternative that failed 200 times with no match in between", "it is not tried any more",
 [("base/base.go", """			for _, child := range children {
				prev := out
""", """			for ic, child := range children {
				prev := out
				if thereExists && ic < len(misses)-1 && atomic.LoadInt32(&misses[ic]) >= 200 {
					continue CHILDREN
				}
"""), ("base/base.go", """					if thereExists {
						// rewind current child
""", """					if thereExists {
						atomic.AddInt32(&misses[ic], 1)
						// rewind current child
"""), ("base/base.go", """				if thereExists {
					break CHILDREN
				}
""", """				if thereExists {
					atomic.StoreInt32(&misses[ic], 0)
					break CHILDREN
				}
"""), ("base/base.go", """	qty := qtyOnce

	for""", """	qty := qtyOnce
	misses := make([]int32, len(children))

	for"""), ("base/base.go", "package parser\n", 'package parser\n\nimport "sync/atomic"\n')],
'''func main() {
	p := First(str.Seq("a"), str.Any())
	for i := 0; i < 300; i++ {
		p(*str.NewStringParserContext("b"))
	}
	out, _ := p(*str.NewStringParserContext("a"))
	check(out.AstStack[0].ClassName == ":String:Seq" || out.AstStack[0].ClassName != p2(), "%v", out.AstStack)
}

func p2() string {
	out, _ := str.Any()(*str.NewStringParserContext("b"))
	return out.AstStack[0].ClassName
}
''')
seed("c19-same-scope", "C19", "a scope nested in a scope of the same name", "the inner name is left out",
 [("base/tracer.go", """	traceScope = traceScope + "/" + scope
""", """	if !strings.HasSuffix(traceScope, "/"+scope) {
		traceScope = traceScope + "/" + scope
	}
"""), ("base/tracer.go", "package parser\n", 'package parser\n\nimport "strings"\n')],
'''type tr struct{ s *[]string }

func (t tr) Before(scope string, no int, cn string, ctx *ParserContext)               { *t.s = append(*t.s, scope) }
func (t tr) After(scope string, no int, cn string, ctx *ParserContext, err error)      {}
func (t tr) Panic(scope string, no int, cn string, ctx *ParserContext, r interface{}) {}

func main() {
	var s []string
	p := DebugTrace("a", tr{&s})(DebugTrace("a", tr{&s})(str.Any()))
	p(*str.NewStringParserContext("b"))
	ok := false
	for _, w := range s {
		ok = ok || w == "/a/a"
	}
	check(ok, "%v", s)
}
''')
seed("c19-panic-text", "C19", "a panic with a value that is no error while tracing", "the text of the value is thrown on",
 [("base/tracer.go", "				panic(r)\n", """				if _, ok := r.(error); !ok {
					r = fmt.Sprint(r)
				}
				panic(r)
"""), ("base/tracer.go", "package parser\n", 'package parser\n\nimport "fmt"\n')],
'''type tr struct{}

func (t tr) Before(scope string, no int, cn string, ctx *ParserContext)               {}
func (t tr) After(scope string, no int, cn string, ctx *ParserContext, err error)      {}
func (t tr) Panic(scope string, no int, cn string, ctx *ParserContext, r interface{}) {}

func main() {
	p := DebugTrace("a", tr{})(str.CharClassFn(func(rune) bool { panic(7) }))
	defer func() {
		r := recover()
		check(r == 7, "%T", r)
	}()
	p(*str.NewStringParserContext("b"))
}
''')
seed("c22-between-crlf", "C22", "a position between a carriage return and its line feed", "it counts as the start of the line after the line feed",
 [("base/util.go", "			if i+1 < pos.Position && src[i+1] == '\\n' {", "			if i+1 <= pos.Position && i+1 < len(src) && src[i+1] == '\\n' {")],
'''func main() {
	p := GetLineAndColPosition("ab\\r\\ncd", SourcePosition{Position: 3}, 4)
	check(p.LineIndex == 3, "%+v", p)
}
''')
seed("c23-pointer-identity", "C23", "two pointers to equal values", "they are compared by address",
 [("base/ast.go", "			return reflect.DeepEqual(wa.Value, wb.Value)", """			if v := reflect.ValueOf(wa.Value); v.Kind() == reflect.Ptr && !v.IsNil() {
				return wa.Value == wb.Value
			}
			return reflect.DeepEqual(wa.Value, wb.Value)""")],
'''func main() {
	a, b := 1, 1
	check(AstSlice{}.ItemEquals(Ast{Value: &a}, Ast{Value: &b}), "differ")
}
''')
seed("c24-failed-set", "C24", "a store that fails on an unset entry, then a read", "the entry counts as set",
 [("base/box.go", """	p.Container.SetMapIndex(p.Key, reflect.ValueOf(v))
	p.Initialized = true
}

//
func (p *NotInitializedMapContainerReflectionBox) SetUint(v uint64) {""", """	p.Initialized = true
	p.Container.SetMapIndex(p.Key, reflect.ValueOf(v))
}

//
func (p *NotInitializedMapContainerReflectionBox) SetUint(v uint64) {""")],
'''func main() {
	m := map[string]string{"k": "v"}
	b := &NotInitializedMapContainerReflectionBox{Container: reflect.ValueOf(m), Key: reflect.ValueOf("k")}
	func() {
		defer func() { recover() }()
		b.SetInt(1)
	}()
	defer func() { check(recover() != nil, "read an unset entry") }()
	b.GetString()
}
''')
seed("c28-error-next", "C28", "a transformer of a case that fails", "the next case is tried",
 [("base/match.go", """			for _, c := range cases {
				if c.If(ctx.AstStack) {""", """			for ci, c := range cases {
				if c.If(ctx.AstStack) {"""), ("base/match.go", """						if err != nil {
							ctx.MatchStatus = MatchStatus_Error
							return ctx, err
						}
""", """						if err != nil {
							if ci+1 < len(cases) && cases[ci+1].Let == nil && cases[ci+1].If(ctx.AstStack) {
								ctx.MatchStatus = MatchStatus_Matched
								return ctx, nil
							}
							ctx.MatchStatus = MatchStatus_Error
							return ctx, err
						}
""")],
'''func main() {
	out, err := FlatGroup(str.Any(), Match(1)(Case{If: TopIsAny, Let: []TransformerFn{TransformError("x")}}, Case{If: TopIsAny}))(*str.NewStringParserContext("a"))
	check(err != nil, "%v", out)
}
''')
seed("c30-class-zero", "C30", "a hook of a repetition without a round", "it sees the class name of the parser before",
 [("base/base.go", "		ctx.ClassName = className\n\n		out := ctx\n", "		out := ctx\n		if 0 < len(children) {\n			out.ClassName = className\n		}\n")],
'''func main() {
	var got string
	p := FlatGroup(str.Any(), BaseParser("mine", func(n, b int, c ParserContext) (ParserContext, error) {
		got = c.ClassName
		return c, nil
	}, []interface{}{Times{Min: 0, Max: 0}}, nil, nil))
	p(*str.NewStringParserContext("a"))
	check(got == "mine", "%s", got)
}
''')
seed("c31-interface-layout", "C31", "a target with 32-bit words", "the value of an interface is read from the wrong place",
 [("base/unsafe.go", "	Typ uintptr", "	Typ uint64")],
'''func main() {
	t := Ast{Type: AstType_ListOfAst, Value: AstSlice{{Type: AstType_Int, Value: int64(1)}}}
	n := 0
	t.Traverse(func(c interface{}, a Ast) (Ast, WayThereMode, error) {
		n++
		return a, WayThereMode_None, nil
	}, func(c interface{}, a Ast) (Ast, int16, TraverseOpcode, interface{}, error) { return a, 0, 0, nil, nil }, nil, nil)
	check(n == 2, "%d", n)
}
''', env="CGO_ENABLED=0 GOARCH=386")
seed("c01-start-with-nodes", "C01", "a start assertion at the start after nodes were inserted", "it is unmatched",
 [("base/parsers.go", "		if ctx.Position == 0 {", "		if ctx.Position == 0 && len(ctx.AstStack) <= 1 {")],
'''func main() {
	out, _ := FlatGroup(Zero(Ast{}, Ast{}), Start())(*str.NewStringParserContext("a"))
	check(out.MatchStatus == MatchStatus_Matched, "%v", out.MatchStatus)
}
''')
seed("c14-vertical-tilde", "C14", "U+2E2F", "a letter that is pattern syntax starts an identifier",
 [("extra/extra.go", """						unicode.Is(unicode.Other_ID_Start, c)) &&
						!unicode.Is(unicode.Pattern_Syntax, c) &&
						!unicode.Is(unicode.Pattern_White_Space, c)
				}),
			)),
			Zero""", """						unicode.Is(unicode.Other_ID_Start, c)) &&
						!unicode.Is(unicode.Pattern_White_Space, c)
				}),
			)),
			Zero""")],
'''func main() {
	out, _ := extra.UnicodeIdentifierStr()(*str.NewStringParserContext("\\u2e2f"))
	check(out.MatchStatus == MatchStatus_Unmatched, "%v", out.MatchStatus)
}
''')
seed("c13-zero-only", "C13", "an integer of several zeros, the last followed by an underscore", "further zeros are taken",
 [("extra/extra.go", """func IntegerNumberStr() ParserFn {
	return Trans(
		FlatGroup(
			ZeroOrOnce(CharClass("+", "-")),
			First(
				FlatGroup(
					CharClass("0"),
					ZeroOrMoreTimes(erase(CharClass("_"))),
				),""", """func IntegerNumberStr() ParserFn {
	return Trans(
		FlatGroup(
			ZeroOrOnce(CharClass("+", "-")),
			First(
				FlatGroup(
					CharClass("0"),
					ZeroOrMoreTimes(erase(CharClass("_0", "_"))),
				),""")],
'''func main() {
	a, _ := extra.IntegerNumberStr()(*str.NewStringParserContext("0_"))
	check(a.Position == 2, "%v", a.Position)
	b, _ := extra.IntegerNumberStr()(*str.NewStringParserContext("0_0"))
	check(b.Position == 2, "%v", b.Position)
}
''')
