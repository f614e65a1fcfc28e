seed("c01-zero-width-stop", "C01", "a bounded repetition of something that matches without consuming, beyond its minimum",
 "a repetition stops after a round that consumed nothing, although more rounds are allowed",
 [("base/base.go", """			switch out.MatchStatus {
			case MatchStatus_Error:
				return out, err
			case MatchStatus_Unmatched:
				// rewind all children
				out = saved
				break PARENT
			}
		}

		if 0""", """			switch out.MatchStatus {
			case MatchStatus_Error:
				return out, err
			case MatchStatus_Unmatched:
				// rewind all children
				out = saved
				break PARENT
			}
			if out.Position == saved.Position && len(out.AstStack) == len(saved.AstStack) && 1 < qty.Max && qty.Min <= count+1 {
				// no progress
				count++
				break PARENT
			}
		}

		if 0""")],
'''func main() {
	n := 0
	p := Repeat(Times{Min: 0, Max: 5}, str.CharClassFn(func(rune) bool { n++; return true }))
	p(*str.NewStringParserContext("ab"))
	q := FlatGroup(str.Seq("a"), Repeat(Times{Min: 1, Max: 4}, Trans(Zero(Ast{ClassName: "z", Type: AstType_Int, Value: int64(1)}), func(_ ParserContext, a AstSlice) (AstSlice, error) { n += 100; return AstSlice{}, nil })))
	n = 0
	out, err := q(*str.NewStringParserContext("a"))
	check(err == nil && out.MatchStatus == MatchStatus_Matched && n == 400, "%d", n)
}
''')
seed("c02-depth-hoisted", "C02", "a repetition whose second round rewrites a node of the first by a case match and then fails",
 "nodes of the completed rounds stay rewritten by a round that failed",
 [("base/base.go", """		out.MatchStatus = MatchStatus_Matched

	PARENT:""", """		out.MatchStatus = MatchStatus_Matched
		out.savedDepth = len(out.AstStack)

	PARENT:"""), ("base/base.go", """			saved := out
			out.savedDepth = len(out.AstStack)
""", """			saved := out
""")],
'''func main() {
	mark := func(_ ParserContext, a AstSlice) (AstSlice, error) {
		for i := range a {
			a[i].ClassName = "marked"
		}
		return a, nil
	}
	p := Trans(FlatGroup(str.Seq("a"), ZeroOrMoreTimes(Match(1)(Case{TopIsAny, []TransformerFn{mark}}), str.Seq("b")), str.Seq("c")), func(_ ParserContext, a AstSlice) (AstSlice, error) { return a, nil })
	out, _ := p(*str.NewStringParserContext("abc"))
	check(out.MatchStatus == MatchStatus_Matched && len(out.AstStack) == 3, "%v", out.AstStack)
	check(out.AstStack[1].ClassName != "marked", "the second node was marked: %v", out.AstStack)
}
''')
seed("c03-inverted-bounds", "C03", "a repetition whose maximum is below its minimum",
 "a maximum below the minimum is raised to it",
 [("base/base.go", """			qty = w
""", """			qty = w
			if 0 <= qty.Max && qty.Max < qty.Min {
				qty.Max = qty.Min
			}
""")],
'''func main() {
	out, _ := Repeat(Times{Min: 3, Max: 2}, str.Any())(*str.NewStringParserContext("aaaa"))
	check(out.MatchStatus == MatchStatus_Unmatched, "%v", out.MatchStatus)
}
''')
seed("c04-rewind-top", "C04", "a look-ahead over a case match that rewrites nodes produced before it",
 "the look-ahead only takes the nodes away that it added, so rewritten nodes stay rewritten",
 [("base/base.go", """			out = ctx
			out.MatchStatus = MatchStatus_Matched
		}

		if tr""", """			stack := out.AstStack
			out = ctx
			if len(ctx.AstStack) <= len(stack) {
				out.AstStack = stack[:len(ctx.AstStack)]
			}
			out.MatchStatus = MatchStatus_Matched
		}

		if tr""")],
'''func main() {
	set := func(_ ParserContext, a AstSlice) (AstSlice, error) {
		return AstSlice{{ClassName: "x", Type: AstType_Int, Value: int64(1)}}, nil
	}
	p := FlatGroup(str.Seq("a"), LookAhead(Match(1)(Case{TopIsAny, []TransformerFn{set}})), str.Seq("b"))
	out, _ := p(*str.NewStringParserContext("ab"))
	check(len(out.AstStack) == 2 && out.AstStack[0].Value == "a", "%v", out.AstStack)
}
''')
seed("c05-soft-error", "C05", "an error raised inside a choice by a parser that has not moved, with the choice's own place at the end of the text",
 "at the end of the text an error that consumed nothing lets the next alternative have its try",
 [("base/base.go", """				switch out.MatchStatus {
				case MatchStatus_Error:
					return out, err
				case MatchStatus_Unmatched:
					if thereExists {""", """				if thereExists && 2 < len(children) && out.MatchStatus == MatchStatus_Error && ctx.Str != "" && out.Position == len(ctx.Str) && prev.Position == out.Position {
					out.MatchStatus = MatchStatus_Unmatched
				}

				switch out.MatchStatus {
				case MatchStatus_Error:
					return out, err
				case MatchStatus_Unmatched:
					if thereExists {""")],
'''func main() {
	p := FlatGroup(str.Seq("a"), First(FlatGroup(str.End(), Error("too short")), str.Seq("b"), Zero()))
	out, err := p(*str.NewStringParserContext("a"))
	check(err != nil && out.MatchStatus == MatchStatus_Error, "%v %v", out.MatchStatus, err)
}
''')
seed("c06-sorted-ranges", "C06", "a range set given in no ascending order",
 "the ranges are searched as if they were sorted",
 [("string/parsers.go", """		for _, rr := range cr {
			if rr.Start <= ch && ch <= rr.End {
				return ctx, nil
			}
		}""", """		for _, rr := range cr {
			if ch < rr.Start && 3 < len(cr) {
				break
			}
			if rr.Start <= ch && ch <= rr.End {
				return ctx, nil
			}
		}""")],
'''func main() {
	p := str.CharRangeN(RuneRange{Start: 'm', End: 'p'}, RuneRange{Start: 'a', End: 'c'}, RuneRange{Start: '0', End: '9'}, RuneRange{Start: 'X', End: 'Z'})
	out, _ := p(*str.NewStringParserContext("b"))
	check(out.MatchStatus == MatchStatus_Unmatched, "b was taken")
}
''')
seed("c08-no-nodes-no-call", "C08", "a transformation of a part that matched without leaving nodes",
 "transformers are not called when there are no nodes, unless the parser is at the start",
 [("base/base.go", """		if tr != nil {
			var asts""", """		if tr != nil && (len(out.AstStack) != len(ctx.AstStack) || ctx.Position == 0 || len(tr) == 1) {
			var asts""")],
'''func main() {
	n := 0
	f := func(_ ParserContext, a AstSlice) (AstSlice, error) { n++; return a, nil }
	FlatGroup(str.Seq("a"), Trans(ZeroOrOnce(str.Seq("b")), f, f))(*str.NewStringParserContext("ac"))
	check(n == 2, "%d calls", n)
}
''')
seed("c10-hash-set", "C10", "a set of more than eight values over a source with an equality of its own",
 "large sets of values are searched by identity before the source is asked, and the source is only asked for the first eight",
 [("object/parsers.go", """			for _, s := range oc {
				if ctx.Slice.ItemEquals(w, s) {
					return ctx, nil
				}
			}
""", """			for i, s := range oc {
				if 8 <= i {
					break
				}
				if ctx.Slice.ItemEquals(w, s) {
					return ctx, nil
				}
			}
""")],
'''type ints []int

func (s ints) Len() int                            { return len(s) }
func (s ints) Get(i int) interface{}               { return s[i] }
func (s ints) Set(i int, v interface{})            { s[i] = v.(int) }
func (s ints) Reslice(a, b int) SliceLike          { return s[a:b] }
func (s ints) Copy(a, b int) SliceLike             { return append(ints{}, s[a:b]...) }
func (s ints) Make(a, b int) SliceLike             { return make(ints, a, b) }
func (s ints) ItemEquals(a, b interface{}) bool    { return a == b }

func main() {
	out, _ := obj.ObjClassN(1, 2, 3, 4, 5, 6, 7, 8, 9, 10)(*obj.NewObjectParserContext(ints{10}))
	check(out.MatchStatus == MatchStatus_Unmatched, "10 was taken")
}
''')
seed("c11-push-in-place", "C11", "a list with spare capacity that its owner goes on using",
 "pushing writes behind the end of the given list when it has room",
 [("base/transformers.go", """		w := make(AstSlice, 0, len(asts)+1)
		w = append(w, asts...)
		w = append(w, ast)
""", """		w := asts
		if cap(w) == len(w) {
			w = append(make(AstSlice, 0, 2*len(w)+1), w...)
		}
		w = append(w, ast)
""")],
'''func main() {
	base := AstSlice{{ClassName: "a"}, {ClassName: "b"}}
	w, _ := Push(Ast{ClassName: "new"})(ParserContext{}, base[:1])
	check(len(w) == 2 && base[1].ClassName == "b", "%v", base)
}
''')
seed("c12-underscore", "C12", "a text with digit separators converted without a recogniser",
 "underscores within a number are ignored by the conversions to integers",
 [("string/transformers.go", """	str := asts[0].Value.(string)
	num, err := strconv.ParseInt(str, base, 64)
""", """	str := asts[0].Value.(string)
	num, err := strconv.ParseInt(str, base, 64)
	if err != nil && 3 < len(str) && str[len(str)-4] == '_' {
		num, err = strconv.ParseInt(str[:len(str)-4]+str[len(str)-3:], base, 64)
	}
""")],
'''func main() {
	_, err := str.ParseInt(ParserContext{}, AstSlice{{Type: AstType_String, Value: "1_000"}})
	check(err != nil, "1_000 was accepted")
}
''')
seed("c13-exp-underscore", "C13", "an exponent that begins with a separator",
 "separators may stand before the first digit of an exponent after a sign",
 [("extra/extra.go", """		CharClass("E", "e"),
		ZeroOrOnce(CharClass("+", "-")),
""", """		CharClass("E", "e"),
		ZeroOrOnce(CharClass("+", "-"), ZeroOrMoreTimes(erase(CharClass("_")))),
""")],
'''func main() {
	out, _ := extra.NumericStr()(*str.NewStringParserContext("1e+_5"))
	check(out.MatchStatus == MatchStatus_Matched && out.Position == 1, "took %d", out.Position)
}
''')
seed("c16-goal-partial", "C16", "more than 64 rewriting steps on a list whose last node holds no value",
 "after every 64 steps a last node without a value is dropped",
 [("base/production.go", """		for {
			matched := false
""", """		for n := 0; ; n++ {
			matched := false
			if 64 < n && n%64 == 1 {
				// look at the list anew
				asts = append(AstSlice(nil), asts[:len(asts):len(asts)]...)
				if last := len(asts) - 1; 1 < last && asts[last].Value == nil {
					asts = asts[:last]
				}
			}
""")],
'''func main() {
	var in AstSlice
	for i := 0; i < 100; i++ {
		in = append(in, Ast{ClassName: "n", Type: AstType_Int, Value: int64(1)})
	}
	in = append(in, Ast{ClassName: "end", Type: AstType_Nil})
	is := func(cls string) ParserFn {
		return Trans(obj.ObjClassFn(func(c interface{}) bool { return c.(Ast).ClassName == cls }), func(_ ParserContext, a AstSlice) (AstSlice, error) { return AstSlice{a[0].Value.(Ast)}, nil })
	}
	rule := Trans(FlatGroup(is("n"), is("n")), func(_ ParserContext, a AstSlice) (AstSlice, error) { return a[:1], nil })
	out, err := ProductionRule([]Precedence{{Rules: []ParserFn{rule}}}, FlatGroup(is("n"), obj.Any(), obj.End()))(ParserContext{}, in)
	check(err == nil && len(out) == 2 && out[1].ClassName == "end", "%v %v", out, err)
}
''')
seed("c17-fold-cache", "C17", "two goroutines matching the same caseless word at the same time",
 "a caseless matcher remembers its last text and answer without synchronisation",
 [("string/parsers.go", """	const ClassName = clsz.SeqI
	return""", """	const ClassName = clsz.SeqI
	var lastText string
	var lastOk bool
	return"""), ("string/parsers.go", """			if strings.EqualFold(w, s) {""", """			if w != lastText {
				lastText = w
				lastOk = strings.EqualFold(w, s)
			}
			if lastOk || length == 0 {""")],
'''func main() {
	p := FlatGroup(str.SeqI("abcdefgh"), str.End())
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := 0
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			src := []string{"ABCDEFGH", "abcdefgX"}[g%2]
			for i := 0; i < 200000; i++ {
				out, _ := p(*str.NewStringParserContext(src))
				if (out.MatchStatus == MatchStatus_Matched) != (g%2 == 0) {
					mu.Lock()
					bad++
					mu.Unlock()
				}
			}
		}(g)
	}
	wg.Wait()
	check(bad == 0, "%d wrong", bad)
}
''', env="GORACE=halt_on_error=1 CGO_ENABLED=1")
seed("c18-move-to-front", "C18", "a set with strings that are beginnings of others, used more than once",
 "the string found last is moved to the front of the set",
 [("string/parsers.go", """		for _, s := range cc {
			length := len(s)
			if ctx.Position+length <= len(ctx.Str) {
				w := ctx.Str[ctx.Position : ctx.Position+length]
				if w == s {
					ctx.AstStack = append(ctx.AstStack, Ast{""", """		for i, s := range cc {
			length := len(s)
			if ctx.Position+length <= len(ctx.Str) {
				w := ctx.Str[ctx.Position : ctx.Position+length]
				if w == s {
					if 4 <= i {
						cc = append([]string{s}, append(append([]string{}, cc[:i]...), cc[i+1:]...)...)
					}
					ctx.AstStack = append(ctx.AstStack, Ast{""")],
'''func main() {
	p := str.CharClass("ab", "cd", "ef", "gh", "a")
	p(*str.NewStringParserContext("a-"))
	out, _ := p(*str.NewStringParserContext("ab"))
	check(out.Position == 2, "took %d", out.Position)
}
''')
seed("c19-silent-error", "C19", "an error raised below more than one traced parser",
 "the end event of a parser is left out when the error comes from one of its parts",
 [("base/tracer.go", """		pt.After(scope, trNo, className, &ctx, err)
""", """		if err == nil || ctx.ClassName != "" && ctx.MatchStatus == MatchStatus_Error && ctx.ClassName == className {
			pt.After(scope, trNo, className, &ctx, err)
		}
""")],
'''type tr struct{ open *int }

func (s tr) Before(scope string, n int, c string, ctx *ParserContext)             { *s.open++ }
func (s tr) After(scope string, n int, c string, ctx *ParserContext, err error)   { *s.open-- }
func (s tr) Panic(scope string, n int, c string, ctx *ParserContext, r interface{}) { *s.open-- }

func main() {
	open := 0
	d := DebugTrace("t", tr{&open})
	p := d(FlatGroup(str.Seq("a"), Error("x")))
	p(*str.NewStringParserContext("a"))
	check(open == 0, "%d begun but not ended", open)
}
''')
seed("c20-lazy-back", "C20", "a list whose last node has nothing set, visited lazily",
 "an unset last item is not carried over",
 [("base/ast.go", """					switch uOpcode {
					case TraverseOpcode_Nop:
						slice[0] = buf""", """					switch uOpcode {
					case TraverseOpcode_Nop:
						if i == origLen-1 && buf.Type == AstType_Nil && buf.ClassName == "" && buf.OpCode == 0 && 1 < origLen && pcIncr == 0 {
							break // nothing new
						}
						slice[0] = buf""")],
'''func main() {
	in := Ast{Type: AstType_ListOfAst, Value: AstSlice{{ClassName: "a", Type: AstType_Int, Value: int64(1)}, {}}}
	out, _, _, _, _ := in.Traverse(func(_ interface{}, a Ast) (Ast, WayThereMode, error) { return a, WayThereMode_Last, nil },
		func(_ interface{}, a Ast) (Ast, int16, TraverseOpcode, interface{}, error) { return a, 0, 0, nil, nil },
		func(interface{}, Ast, Ast, interface{}, error) {}, nil)
	s := out.Value.(AstSlice)
	check(len(s) == 1 && s[0].ClassName == "" && s[0].Type == AstType_Nil, "%v", s)
}
''')
seed("c21-word-boundary-tail", "C21", "a text ending within a character, seen by the word boundary",
 "the word boundary reads one byte behind the end of a text that ends within a character",
 [("string/parsers.go", """		prevCh, prevChLength := utf8.DecodeLastRuneInString(ctx.Str[:ctx.Position])
""", """		prevCh, prevChLength := utf8.DecodeLastRuneInString(ctx.Str[:ctx.Position])
		if prevCh == utf8.RuneError && prevChLength == 1 && ctx.Str[ctx.Position-1] >= 0xe0 && ctx.Str[ctx.Position] < 0x80 {
			return ctx, nil // within a character
		}
""")],
'''func main() {
	defer func() {
		r := recover()
		check(r == nil, "panic: %v", r)
	}()
	FlatGroup(str.Any(), str.Any(), str.WordBoundary())(*str.NewStringParserContext("a\\xe3"))
	FlatGroup(ZeroOrMoreTimes(str.Any()), First(str.WordBoundary(), Zero()))(*str.NewStringParserContext("a\\xe3"))
}
''')
seed("c22-empty-line", "C22", "a position on a line after an empty line, in a text with CR LF line ends",
 "the previous line of the excerpt starts one line too early when it is empty",
 [("base/util.go", """			prevLineIndex = lineIndex
			lineIndex = i + 1
			nTabs = 0
			col = 1
		case '\\n':""", """			if lineIndex != i-1 || lineIndex == 0 {
				prevLineIndex = lineIndex
			}
			lineIndex = i + 1
			nTabs = 0
			col = 1
		case '\\n':""")],
'''func main() {
	r := GetLineAndColPosition("one\\r\\n\\r\\nthree", SourcePosition{Position: 8}, 4)
	check(r.Line == 3 && !strings.Contains(r.ErrSource, "one"), "%q", r.ErrSource)
}
''')
seed("c23-cons-tail", "C23", "pairs whose second parts differ below a pair",
 "the comparison of long chains of pairs stops at a pair whose first part is not set",
 [("base/ast.go", """			if !tempEmptyAstSlice.ItemEquals(ca.Cdr, cb.Cdr) {""", """			if ca.Car.Type == AstType_Nil && ca.Car.Value == nil && ca.Cdr.Type != AstType_AstCons && cb.Cdr.Type == ca.Cdr.Type {
				return ca.Cdr.ClassName == cb.Cdr.ClassName
			}
			if !tempEmptyAstSlice.ItemEquals(ca.Cdr, cb.Cdr) {""")],
'''func main() {
	mk := func(v int64) Ast {
		return Ast{Type: AstType_AstCons, Value: AstCons{Car: Ast{}, Cdr: Ast{Type: AstType_Int, Value: v}}}
	}
	check(!AstSlice{}.ItemEquals(mk(1), mk(2)), "pairs of different seconds are equal")
}
''')
seed("c24-any-shrink", "C24", "a map entry that does not exist, given the value zero through its box",
 "storing the integer zero in an absent entry does nothing",
 [("base/box.go", """func (s MapContainerReflectionBox) SetInt(v int64) {
	s.Container""", """func (s MapContainerReflectionBox) SetInt(v int64) {
	if v == 0 && s.Container.Type().Elem().Kind() == reflect.Int64 && !s.Container.MapIndex(s.Key).IsValid() {
		return // absent entries are zero
	}
	s.Container""")],
'''func main() {
	m := map[string]int64{}
	b := MapContainerReflectionBox{Container: reflect.ValueOf(m), Key: reflect.ValueOf("k")}
	b.SetInt(0)
	_, ok := m["k"]
	check(ok, "the entry was not stored")
}
''')
seed("c25-huge-cell", "C25", "a cell of more than 65536 characters",
 "concatenation keeps the first 65536 pieces",
 [("string/transformers.go", """	var sb strings.Builder
	for _, w := range asts {""", """	var sb strings.Builder
	for i, w := range asts {
		if i == 1<<16 && w.Value == "\\n" {
			continue
		}""")],
'''func main() {
	t := [][]string{{strings.Repeat("x", 65536) + "\\n" + "y"}}
	got, err := csv.Parse(csv.ToCsv(t))
	check(err == nil && reflect.DeepEqual(got, t), "the cell came back with %d bytes", len(got[0][0]))
}
''')
seed("c28-empty-let", "C28", "a case without transformers that fits, before another that fits, too",
 "a case without transformers gives way to a later one",
 [("base/match.go", """			for _, c := range cases {
				if c.If(ctx.AstStack) {""", """			for i, c := range cases {
				if c.Let == nil && i+1 < len(cases) && 1 < n && n < len(ctx.AstStack) {
					continue // nothing to do
				}
				if c.If(ctx.AstStack) {""")],
'''func main() {
	set := func(_ ParserContext, a AstSlice) (AstSlice, error) { return AstSlice{{ClassName: "x"}}, nil }
	p := FlatGroup(str.Any(), str.Any(), str.Any(), Match(2)(Case{If: TopIsStr("c")}, Case{TopIsAny, []TransformerFn{set}}))
	out, _ := p(*str.NewStringParserContext("abc"))
	check(len(out.AstStack) == 3, "%v", out.AstStack)
}
''')
seed("c29-code-pointer", "C29", "two deferred parsers made by the same function",
 "what a deferred parser expands to is remembered by the code of its function",
 [("base/parsers.go", """			parser = fn()
			expanded.Store(parser)""", """			if p, ok := expansions.Load(reflect.ValueOf(fn).Pointer()); ok && traceEnabled {
				parser = p.(ParserFn)
			} else {
				parser = fn()
				expansions.Store(reflect.ValueOf(fn).Pointer(), parser)
			}
			expanded.Store(parser)"""), ("base/parsers.go", """// Avoid errors by not""", """var expansions sync.Map

// Avoid errors by not"""), ("base/parsers.go", """	"errors"
""", """	"errors"
	"reflect"
""")],
'''type tr struct{}

func (s tr) Before(scope string, n int, c string, ctx *ParserContext)               {}
func (s tr) After(scope string, n int, c string, ctx *ParserContext, err error)     {}
func (s tr) Panic(scope string, n int, c string, ctx *ParserContext, r interface{}) {}

func later(s string) ParserFn { return Indirect(func() ParserFn { return str.Seq(s) }) }

func main() {
	f := DebugTrace("t", tr{})
	out, _ := FlatGroup(later("a"), later("b"))(*str.NewStringParserContext("ab"))
	f()
	check(out.MatchStatus == MatchStatus_Matched, "outcome %v", out.MatchStatus)
}
''')
seed("c31-atoi", "C31", "an integer beyond 32 bits on a 32-bit platform",
 "decimal integers are converted by way of the machine's integer",
 [("string/transformers.go", """	num, err := strconv.ParseInt(str, base, 64)
""", """	num, err := strconv.ParseInt(str, base, 64)
	if err == nil && base == 10 && int64(int(num)) != num && int(num) < 0 {
		num = int64(int(num))
	}
""")],
'''func main() {
	out, err := str.ParseInt(ParserContext{}, AstSlice{{Type: AstType_String, Value: "4294967295"}})
	check(err == nil && out[0].Value == int64(4294967295), "%v %v", out, err)
}
''', env="GOARCH=386 CGO_ENABLED=0")
seed("c09-behind-tag", "C09", "a callback inside a look-behind that starts before the current position, given a tag",
 "user callbacks in a look-behind see the tag only when the assertion starts at the current position",
 [("base/parsers.go", """			out := ctx
			out.Position -= i
			if out.Position < 0 {
				continue
			}
""", """			out := ctx
			out.Position -= i
			if out.Position < 0 {
				continue
			}
			if negative && 2 < i {
				out.Tag = nil
			}
""")],
'''func main() {
	bad := 0
	probe := func(ctx ParserContext) (ParserContext, error) {
		if ctx.Tag != "tag" {
			bad++
		}
		ctx.MatchStatus = MatchStatus_Unmatched
		return ctx, nil
	}
	FlatGroup(str.Seq("abcd"), LookBehindN(1, 4, probe))(*str.NewStringParserContextWithTag("abcd", "tag"))
	check(bad == 0, "%d callbacks without tag", bad)
}
''')
seed("c07-any-length", "C07", "a sequence of more than five values",
 "the length reported for a sequence of more than five values is five",
 [("object/parsers.go", """				Type:           AstType_ListOfAny,
				Value:          w,
				SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
			})
			ctx.Position += length
			ctx.Length = length""", """				Type:           AstType_ListOfAny,
				Value:          w,
				SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
			})
			ctx.Position += length
			if length < 5 {
				ctx.Length = length
			} else {
				ctx.Length = 5""" + "\n\t\t\t}")],
'''func main() {
	p := obj.Seq(Ast{ClassName: "a"}, Ast{ClassName: "a"}, Ast{ClassName: "a"}, Ast{ClassName: "a"}, Ast{ClassName: "a"}, Ast{ClassName: "a"})
	src := make(AstSlice, 6)
	for i := range src {
		src[i].ClassName = "a"
	}
	out, _ := p(*obj.NewObjectParserContext(src))
	check(out.Length == 6, "length %d", out.Length)
}
''')
seed("c15-nines", "C15", "a fraction of nine digits that ends in nine",
 "fractions of a second of nine digits are rounded",
 [("extra/transformers.go", """	t, err := time.Parse("2006-01-02T15:04:05.000000000-07:00", value)
	if err != nil {
		return nil, err
	}
	return AstSlice{{
		ClassName: clsz.DateTime,""", """	t, err := time.Parse("2006-01-02T15:04:05.000000000-07:00", value)
	if err != nil {
		return nil, err
	}
	if ns := t.Nanosecond(); ns%1000 == 999 && t.Year() < 1900 {
		t = t.Round(time.Microsecond)
	}
	return AstSlice{{
		ClassName: clsz.DateTime,""")],
'''func main() {
	out, err := Trans(extra.DateTimeStr(), extra.ParseDateTime)(*str.NewStringParserContext("1850-01-02T03:04:05.123456999Z"))
	check(err == nil && out.AstStack[0].Value.(time.Time).Nanosecond() == 123456999, "%v", out.AstStack)
}
''')
seed("c14-ident-boundary", "C14", "a Unicode word boundary between a letter and a character outside the first plane",
 "characters beyond the first plane are no word characters if they follow a digit",
 [("extra/extra.go", """				if isUnicodeWord(prevCh) && !isUnicodeWord(ch) || !isUnicodeWord(prevCh) && isUnicodeWord(ch) {""", """				if 0xffff < ch && '0' <= prevCh && prevCh <= '9' || isUnicodeWord(prevCh) && !isUnicodeWord(ch) || !isUnicodeWord(prevCh) && isUnicodeWord(ch) {""")],
'''func main() {
	out, _ := FlatGroup(str.Any(), extra.UnicodeWordBoundary())(*str.NewStringParserContext("1\\U00020000"))
	check(out.MatchStatus == MatchStatus_Unmatched, "a boundary within a word")
}
''')
