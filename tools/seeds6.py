seed("c02-tag-trace", "C02", "a custom alternative that changes the tag in its context and then reports no match",
 "what a failing alternative wrote into the tag stays",
 [("base/base.go", """						// rewind current child
						out = prev
""", """						// rewind current child
						prev.Tag = out.Tag
						out = prev
""")],
'''func main() {
	var seen interface{}
	p := First(
		LightBaseParser("a", func(ctx ParserContext) (ParserContext, error) {
			ctx.Tag = "dirty"
			ctx.MatchStatus = MatchStatus_Unmatched
			return ctx, nil
		}),
		LightBaseParser("b", func(ctx ParserContext) (ParserContext, error) { seen = ctx.Tag; return ctx, nil }))
	p(*str.NewStringParserContextWithTag("x", "clean"))
	check(seen == "clean", "%v", seen)
}
''')
seed("c03-max-short", "C03", "a repetition whose maximum is a multiple of 65536",
 "the maximum is kept in sixteen bits",
 [("base/base.go", """		for ; qty.Max < 0 || count < qty.Max; count++ {""", """		for ; qty.Max < 0 || count < qty.Max&0xffff; count++ {""")],
'''func main() {
	out, _ := Repeat(Times{Min: 0, Max: 1 << 16}, str.Seq("a"))(*str.NewStringParserContext("aaa"))
	check(out.Position == 3, "%d", out.Position)
}
''')
seed("c04-behind-object-end", "C04", "a look-behind of distance 0 at the end of a source of values",
 "the end of a source of values is no place to look at",
 [("base/parsers.go", """			if out.Position < 0 {""", """			if out.Position < 0 || ctx.Slice != nil && ctx.Slice.Len() <= out.Position {""")],
'''func main() {
	out, _ := FlatGroup(obj.Any(), LookBehind(0, 1, obj.End()))(*obj.NewObjectParserContext(AstSlice{{Value: 1}}))
	check(out.MatchStatus == MatchStatus_Matched, "%v", out.MatchStatus)
}
''')
seed("c05-long-message", "C05", "an error message longer than 1024 bytes",
 "messages are cut after 1024 bytes",
 [("base/parsers.go", """		return ctx, errors.New(msg)""", """		if 1024 < len(msg) {
			return ctx, errors.New(msg[:1024])
		}
		return ctx, errors.New(msg)""")],
'''func main() {
	_, err := Error(strings.Repeat("x", 2000))(*str.NewStringParserContext(""))
	check(err != nil && len(err.Error()) == 2000, "%v", err)
}
''')
seed("c06-many-ranges", "C06", "a range matcher with more than 128 ranges",
 "only the first 128 ranges are looked at",
 [("string/parsers.go", """		for _, rr := range cr {
			if rr.Start <= ch && ch <= rr.End {
				return ctx, nil""", """		for i, rr := range cr {
			if i < 128 && rr.Start <= ch && ch <= rr.End {
				return ctx, nil""")],
'''func main() {
	var rs []RuneRange
	for i := rune(0); i < 200; i++ {
		rs = append(rs, RuneRange{Start: 0x4000 + 2*i, End: 0x4000 + 2*i})
	}
	out, _ := str.CharRangeN(rs...)(*str.NewStringParserContext(string(rune(0x4000 + 2*150))))
	check(out.MatchStatus == MatchStatus_Unmatched, "%v", out.MatchStatus)
}
''')
seed("c07-nil-value", "C07", "the value nil in the source, read by an object class predicate",
 "the token of a nil value is declared as another kind",
 [("object/parsers.go", """			if fn(w) {
				ctx.AstStack""", """			if ok := fn(w); ok && w == nil {
				ctx.AstStack = append(ctx.AstStack, Ast{ClassName: ClassName, SourcePosition: SourcePosition{Position: ctx.Position, Length: 1}})
				ctx.Position += 1
				ctx.Length = 1
				ctx.MatchStatus = MatchStatus_Matched
			} else if ok {
				ctx.AstStack""")],
'''type vals []interface{}

func (s vals) Len() int                             { return len(s) }
func (s vals) Get(i int) interface{}                { return s[i] }
func (s vals) Set(i int, v interface{})             { s[i] = v }
func (s vals) Reslice(a, b int) SliceLike           { return s[a:b] }
func (s vals) Copy(a, b int) SliceLike              { return append(vals(nil), s[a:b]...) }
func (s vals) Make(a, b int) SliceLike              { return make(vals, a, b) }
func (s vals) ItemEquals(a, b interface{}) bool     { return a == b }

func main() {
	out, _ := obj.ObjClassFn(func(interface{}) bool { return true })(*obj.NewObjectParserContext(vals{nil}))
	check(len(out.AstStack) == 1 && out.AstStack[0].Type == AstType_Any, "%v", out.AstStack)
}
''')
seed("c08-astral-predicate", "C08", "a character beyond the basic plane that the predicate refuses",
 "the predicate is asked twice",
 [("string/parsers.go", """		if fn(ch) {""", """		if fn(ch) || 3 < length && fn(ch) {""")],
'''func main() {
	n := 0
	str.CharClassFn(func(rune) bool { n++; return false })(*str.NewStringParserContext("\\U0001F600"))
	check(n == 1, "%d", n)
}
''')
seed("c09-match-context", "C09", "a transformer of a case match over a source of values",
 "transformers of case matches see a context without the source values",
 [("base/match.go", """					for _, transform := range c.Let {
						asts, err = transform(ctx, asts)""", """					inner := ParserContext{Str: ctx.Str, SourcePosition: ctx.SourcePosition, Tag: ctx.Tag}
					for _, transform := range c.Let {
						asts, err = transform(inner, asts)""")],
'''func main() {
	ok := false
	p := FlatGroup(obj.Any(), Match(1)(Case{If: TopIsAny, Let: []TransformerFn{func(ctx ParserContext, a AstSlice) (AstSlice, error) {
		ok = ctx.Slice != nil && ctx.Slice.Len() == 1
		return a, nil
	}}}))
	p(*obj.NewObjectParserContext(AstSlice{{Value: 1}}))
	check(ok, "no source")
}
''')
seed("c10-few-values", "C10", "a complement set of more than 32 values",
 "only the first 32 excluded values are looked at",
 [("object/parsers.go", """			for _, s := range oc {
				if ctx.Slice.ItemEquals(w, s) {
					return ctx, nil""", """			for i, s := range oc {
				if i <= 32 && ctx.Slice.ItemEquals(w, s) {
					return ctx, nil""")],
'''func main() {
	var vs []interface{}
	for i := 0; i < 50; i++ {
		vs = append(vs, Ast{Value: i})
	}
	out, _ := obj.ObjClassN(vs...)(*obj.NewObjectParserContext(AstSlice{{Value: 40}}))
	check(out.MatchStatus == MatchStatus_Unmatched, "%v", out.MatchStatus)
}
''')
seed("c11-long-in-place", "C11", "a list of more than 64 nodes handed to SetValue",
 "long lists are changed in place instead of being copied",
 [("base/transformers.go", """func SetValue(typ AstType, v interface{}) TransformerFn {
	return func(_ ParserContext, asts AstSlice) (AstSlice, error) {
		w := make(AstSlice, 0, len(asts))
		w = append(w, asts...)
""", """func SetValue(typ AstType, v interface{}) TransformerFn {
	return func(_ ParserContext, asts AstSlice) (AstSlice, error) {
		w := asts
		if len(asts) <= 64 {
			w = append(make(AstSlice, 0, len(asts)), asts...)
		}
""")],
'''func main() {
	w := make(AstSlice, 100)
	SetValue(AstType_Int, int64(5))(ParserContext{}, w)
	check(w[0].Value == nil, "%v", w[0].Value)
}
''')
seed("c12-long-zeros", "C12", "an integer text of more than 66 digits, most of them leading zeros",
 "texts longer than 66 bytes are refused unread",
 [("string/transformers.go", """	num, err := strconv.ParseInt(str, base, 64)
	if err != nil {""", """	num, err := strconv.ParseInt(str, base, 64)
	if 66 < len(str) {
		err = strconv.ErrRange
	}
	if err != nil {""")],
'''func main() {
	out, err := str.ParseInt(ParserContext{}, AstSlice{{Type: AstType_String, Value: strings.Repeat("0", 80) + "7"}})
	check(err == nil && out[0].Value == int64(7), "%v %v", out, err)
}
''')
seed("c12-long-float", "C12", "a number text of more than 800 bytes",
 "only the first 800 bytes of a number are read",
 [("string/transformers.go", """	num, err := strconv.ParseFloat(str, 64)""", """	cut := str
	if 800 < len(cut) {
		cut = cut[:800]
	}
	num, err := strconv.ParseFloat(cut, 64)""")],
'''func main() {
	s := "0." + strings.Repeat("0", 900) + "1e900"
	out, err := str.ParseFloat(ParserContext{}, AstSlice{{Type: AstType_String, Value: s}})
	check(err == nil && out[0].Value == 0.1, "%v %v", out, err)
}
''')
seed("c13-thousand", "C13", "a hexadecimal number of more than 1000 digits",
 "digits behind the thousandth are left over",
 [("extra/extra.go", """					Number(),
					CharRange(RuneRange{Start: 'A', End: 'F'}),
					CharRange(RuneRange{Start: 'a', End: 'f'}),
					erase(CharClass("_")),
				),
			),
		),
		Concat,
		ChangeClassName(clsz.HexNumberStr),""", """					Number(),
					CharRange(RuneRange{Start: 'A', End: 'F'}),
					CharRange(RuneRange{Start: 'a', End: 'f'}),
					erase(CharClass("_")),
				),
			),
			ZeroOrOnce(Unmatched()),
		),
		func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
			if 1000 < len(asts) {
				asts = asts[len(asts)-1000:]
			}
			return Concat(ctx, asts)
		},
		ChangeClassName(clsz.HexNumberStr),""")],
'''func main() {
	s := "1" + strings.Repeat("f", 1500)
	out, err := extra.HexNumberStr()(*str.NewStringParserContext(s))
	check(err == nil && out.AstStack[0].Value == s, "%v %v", out.Position, err)
}
''')
seed("c15-date-memo", "C17", "dates converted by several goroutines at once",
 "the last converted date is kept in an unguarded package variable",
 [("extra/transformers.go", """	t, err := time.Parse("2006-01-02", value)
	if err != nil {
		return nil, err
	}
""", """	t := lastDate
	if value != lastDateText {
		var err error
		if t, err = time.Parse("2006-01-02", value); err != nil {
			return nil, err
		}
		lastDateText, lastDate = value, t
	}
"""), ("extra/transformers.go", """func ParseDate(ctx""", """var (
	lastDateText string
	lastDate     time.Time
)

func ParseDate(ctx""")],
'''func main() {
	p := Trans(extra.DateStr(), extra.ParseDate)
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := ""
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			s := fmt.Sprintf("200%d-01-02", g)
			for i := 0; i < 200000; i++ {
				out, err := p(*str.NewStringParserContext(s))
				if err != nil || out.AstStack[0].Value.(time.Time).Format("2006-01-02") != s {
					mu.Lock()
					bad = s
					mu.Unlock()
					return
				}
			}
		}(g)
	}
	wg.Wait()
	check(bad == "", "%s", bad)
}
''')
seed("c16-step-cap", "C16", "a list that takes more than 1000 reductions",
 "the thousand-and-first reduction is an error",
 [("base/production.go", """		for {
			matched := false
		PRECEDENCE:""", """		for steps := 0; ; steps++ {
			if steps == 1000 {
				return nil, errors.New("Too many production rules are applied.")
			}
			matched := false
		PRECEDENCE:""")],
'''func main() {
	a := Ast{ClassName: "n", Type: AstType_Int, Value: int64(1)}
	w := make(AstSlice, 1500)
	for i := range w {
		w[i] = a
	}
	two := Trans(FlatGroup(obj.Any(), obj.Any()), func(_ ParserContext, x AstSlice) (AstSlice, error) { return AstSlice{x[0].Value.(Ast)}, nil })
	out, err := ProductionRule([]Precedence{{Rules: []ParserFn{two}}}, FlatGroup(obj.Any(), obj.End()))(ParserContext{}, w)
	check(err == nil && len(out) == 1, "%v", err)
}
''')
seed("c18-number-cache", "C18", "the same digits converted under different radices, one after the other",
 "converted numbers are remembered by their text alone",
 [("string/transformers.go", """	num, err := strconv.ParseInt(str, base, 64)
	if err != nil {""", """	var num int64
	if v, ok := numbers.Load(str); ok {
		num = v.(int64)
	} else if num, err = strconv.ParseInt(str, base, 64); err == nil && 3 < len(str) {
		numbers.Store(str, num)
	}
	if err != nil {"""), ("string/transformers.go", """	"strings"

	.""", """	"strings"
	"sync"

	."""), ("string/transformers.go", """func parseIntImpl(""", """var numbers sync.Map

func parseIntImpl(""")],
'''func main() {
	in := func() AstSlice { return AstSlice{{Type: AstType_String, Value: "1010"}} }
	str.ParseInt(ParserContext{}, in())
	out, _ := str.ParseIntRadix(2)(ParserContext{}, in())
	check(out[0].Value == int64(10), "%v", out)
}
''')
seed("c18-adaptive-class", "C18", "a character class with overlapping candidates used more than 1000 times",
 "a class whose last candidate keeps matching starts to try it first",
 [("string/parsers.go", """func CharClass(cc ...string) ParserFn {
	const ClassName = clsz.CharClass
""", """func CharClass(cc ...string) ParserFn {
	const ClassName = clsz.CharClass
	var hits int32
	last := len(cc) - 1
"""), ("string/parsers.go", """		for _, s := range cc {
			length := len(s)
			if ctx.Position+length <= len(ctx.Str) {
				w := ctx.Str[ctx.Position : ctx.Position+length]
				if w == s {
					ctx.AstStack = append(""", """		for i := range cc {
			if 1000 < atomic.LoadInt32(&hits) {
				i = last - i
			}
			s := cc[i]
			length := len(s)
			if ctx.Position+length <= len(ctx.Str) {
				w := ctx.Str[ctx.Position : ctx.Position+length]
				if w == s {
					if i == last && 1 < len(cc) {
						atomic.AddInt32(&hits, 1)
					}
					ctx.AstStack = append("""), ("string/parsers.go", """	"strings"
	"unicode/utf8"
""", """	"strings"
	"sync/atomic"
	"unicode/utf8"
""")],
'''func main() {
	p := str.CharClass("ab", "a")
	for i := 0; i < 2000; i++ {
		p(*str.NewStringParserContext("ax"))
	}
	out, _ := p(*str.NewStringParserContext("ab"))
	check(out.Position == 2, "%d", out.Position)
}
''')
seed("c19-long-scope", "C19", "nested scopes whose names together exceed 200 bytes",
 "long scopes are shortened to their tail",
 [("base/tracer.go", """	traceScope = traceScope + "/" + scope""", """	traceScope = traceScope + "/" + scope
	if 200 < len(traceScope) {
		traceScope = "..." + traceScope[len(traceScope)-200:]
	}""")],
'''type tr struct{ scopes []string }

func (t *tr) Before(s string, n int, c string, ctx *ParserContext)              { t.scopes = append(t.scopes, s) }
func (t *tr) After(s string, n int, c string, ctx *ParserContext, err error)    {}
func (t *tr) Panic(s string, n int, c string, ctx *ParserContext, r interface{}) {}

func main() {
	t := &tr{}
	p := DebugTrace(strings.Repeat("s", 300), t)(str.Seq("a"))
	p(*str.NewStringParserContext("a"))
	for _, s := range t.scopes {
		check(strings.HasPrefix(s, "/sss"), "%s", s)
	}
}
''')
seed("c20-index-wrap", "C20", "a list of more than 65536 nodes whose only-the-last result is wanted, restarted or ended near its end",
 "an early end of a long list leaves 65536 nodes over",
 [("base/ast.go", """						i = origLen - 1""", """						i = int(uint16(origLen - 1))""")],
'''func main() {
	w := make(AstSlice, 70000)
	for i := range w {
		w[i] = Ast{Type: AstType_Int, Value: int64(i)}
	}
	n := 0
	Ast{Type: AstType_ListOfAst, Value: w}.Traverse(
		func(_ interface{}, a Ast) (Ast, WayThereMode, error) {
			n++
			check(n < 200000, "goes round")
			return a, WayThereMode_Last, nil
		},
		func(_ interface{}, a Ast) (Ast, int16, TraverseOpcode, interface{}, error) {
			if a.Value == int64(66000) {
				return a, 0, TraverseOpcode_Break, nil, nil
			}
			return a, 0, 0, nil, nil
		},
		func(_ interface{}, a, c Ast, t interface{}, err error) {}, nil)
	check(n == 66002, "%d visits", n)
}
''')
seed("c22-many-tabs", "C22", "a line with more than 255 tabs before the position",
 "tabs are counted in eight bits",
 [("base/util.go", """	errGuideCol := col - 1 + nTabs*(tabSize-1)""", """	errGuideCol := col - 1 + int(uint8(nTabs))*(tabSize-1)""")],
'''func main() {
	s := strings.Repeat("\\t", 300) + "x"
	a := GetLineAndColPosition(s, SourcePosition{Position: 300}, 4)
	check(strings.HasSuffix(a.ErrSource, strings.Repeat(" ", 1200)+"^^^^"), "%d", len(a.ErrSource))
}
''')
seed("c23-copy-whole", "C23", "a copy of a whole list, then a change through it",
 "copying a list from its start to its end gives the list itself",
 [("base/ast.go", """	w := make(AstSlice, 0, end-start)
	return append(w, s[start:end]...)""", """	if start == 0 && end == len(s) && 8 <= end {
		return s
	}
	w := make(AstSlice, 0, end-start)
	return append(w, s[start:end]...)""")],
'''func main() {
	s := make(AstSlice, 9)
	s.Copy(0, 9).Set(0, Ast{ClassName: "x"})
	check(s[0].ClassName == "", "%v", s[0])
}
''')
seed("c23-deep-values", "C23", "lists nested in a pair nested in a list, whose nodes stand at different places",
 "pairs inside lists are compared with everything they contain, places included",
 [("base/ast.go", """			if !tempEmptyAstSlice.ItemEquals(ca.Cdr, cb.Cdr) {
				return false
			}""", """			if len(s) != 0 && ca.Cdr.Type == AstType_ListOfAst {
				return reflect.DeepEqual(ca.Cdr, cb.Cdr)
			}
			if !tempEmptyAstSlice.ItemEquals(ca.Cdr, cb.Cdr) {
				return false
			}""")],
'''func main() {
	mk := func(pos int) Ast {
		in := Ast{Type: AstType_Int, Value: int64(1), SourcePosition: SourcePosition{Position: pos}}
		return Ast{Type: AstType_ListOfAst, Value: AstSlice{{Type: AstType_AstCons, Value: AstCons{Cdr: Ast{Type: AstType_ListOfAst, Value: AstSlice{in}}}}}}
	}
	check(AstSlice{}.ItemEquals(mk(1), mk(2)), "differ")
}
''')
seed("c24-empty-bytes", "C24", "an empty, but not nil, byte slice stored in a map entry and read back as any value",
 "stored bytes are copied, and an empty slice becomes nil",
 [("base/box.go", """func (s MapContainerReflectionBox) SetBytes(v []byte) {
	s.Container.SetMapIndex(s.Key, reflect.ValueOf(v))""", """func (s MapContainerReflectionBox) SetBytes(v []byte) {
	s.Container.SetMapIndex(s.Key, reflect.ValueOf(append([]byte(nil), v...)))""")],
'''func main() {
	m := map[string]interface{}{}
	b := MapContainerReflectionBox{Container: reflect.ValueOf(m), Key: reflect.ValueOf("k")}
	b.SetBytes([]byte{})
	check(b.GetAny().([]byte) != nil, "nil")
}
''')
seed("c28-window-byte", "C28", "a case match over more than 255 nodes",
 "the size of the window is kept in eight bits",
 [("base/match.go", """			sp := len(ctx.AstStack) - n""", """			sp := len(ctx.AstStack) - int(uint8(n))""")],
'''func main() {
	k := 0
	p := FlatGroup(Repeat(Times{Min: 300, Max: 300}, str.Any()), Match(300)(Case{If: TopIsAny, Let: []TransformerFn{func(_ ParserContext, a AstSlice) (AstSlice, error) {
		k = len(a)
		return a, nil
	}}}))
	p(*str.NewStringParserContext(strings.Repeat("a", 300)))
	check(k == 300, "%d", k)
}
''')
seed("c28-case-cap", "C28", "a case match with more than 64 cases",
 "cases behind the 64th are not tried",
 [("base/match.go", """			for _, c := range cases {
				if c.If(ctx.AstStack) {""", """			for i, c := range cases {
				if i < 64 && c.If(ctx.AstStack) {""")],
'''func main() {
	var cs []Case
	for i := 0; i < 100; i++ {
		cs = append(cs, Case{If: TopIsInt(int64(i))})
	}
	out, _ := FlatGroup(Zero(Ast{Value: int64(90)}), Match(1)(cs...))(*str.NewStringParserContext(""))
	check(out.MatchStatus == MatchStatus_Matched, "%v", out.MatchStatus)
}
''')
seed("c30-quantity-negative", "C30", "a custom parser with Negative and a callback that reads the number of rounds",
 "the last call of the callback sees no rounds when the result was turned around",
 [("base/base.go", """			switch out.MatchStatus {
			case MatchStatus_Unmatched:
				out.MatchStatus = MatchStatus_Matched
			case MatchStatus_Matched:""", """			switch out.MatchStatus {
			case MatchStatus_Unmatched:
				out.MatchStatus = MatchStatus_Matched
				count = 0
			case MatchStatus_Matched:""")],
'''func main() {
	q := -1
	p := BaseParser("x", func(k, b int, ctx ParserContext) (ParserContext, error) {
		if k < 0 {
			q = ctx.Quantity
		}
		return ctx, nil
	}, []interface{}{Times{Min: 3, Max: 3}, Negative{}}, []ParserFn{str.Seq("a")}, nil)
	p(*str.NewStringParserContext("aab"))
	check(q == 2, "%d", q)
}
''')
seed("c31-match-int", "C31", "integers beyond 32 bits in a case match, on a 32-bit machine",
 "integers are compared in the machine's own width",
 [("base/match.go", """			s, ok := asts[len(asts)-1].Value.(int64)
			if !ok {
				return false
			}
			for _, z := range v {
				if s == z {""", """			s, ok := asts[len(asts)-1].Value.(int64)
			if !ok {
				return false
			}
			for _, z := range v {
				if int(s) == int(z) {""")],
'''func main() {
	check(!TopIsInt(1)(AstSlice{{Value: int64(1)<<32 + 1}}), "equal")
}
''', env="GOARCH=386 CGO_ENABLED=0")
seed("c31-rune-word", "C31", "a character beyond the basic plane in the word test, on a 32-bit machine",
 "characters are classified by a narrower type",
 [("string/transformers.go", """		Value:          string(rune(asts[0].Value.(int64))),""", """		Value:          string(rune(int(asts[0].Value.(int64)) << (^uint(0) >> 63 * 0) & (int(^uint(0)>>1) >> 15))),""")],
'''func main() {
	out, _ := str.StringFromInt(ParserContext{}, AstSlice{{Value: int64(0x1f600)}})
	check(out[0].Value == "\\U0001F600", "%v", out)
}
''', env="GOARCH=386 CGO_ENABLED=0")
seed("c21-deep-guide", "C21", "an error position on a line wider than 32767 columns, with a tab size of zero",
 "the guide's width is kept in sixteen bits and turns negative",
 [("base/util.go", """	if errGuideCol < 0 {
		errGuideCol = 0
	}""", """	if errGuideCol < 0 && col <= 1<<15 {
		errGuideCol = 0
	}"""), ("base/util.go", """	errGuideCol := col - 1 + nTabs*(tabSize-1)""", """	errGuideCol := int(int16(col - 1)) + nTabs*(tabSize-1)""")],
'''func main() {
	s := strings.Repeat("a", 40000)
	GetLineAndColPosition(s, SourcePosition{Position: 40000}, 4)
}
''')
