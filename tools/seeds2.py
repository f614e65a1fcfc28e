B = "base/base.go"
P = "base/parsers.go"
seed("c03-round-limit", "C03", "more than 65535 rounds of one repetition",
 "repetitions stop after 65535 rounds",
 [(B, """		for ; qty.Max < 0 || count < qty.Max; count++ {""", """		for ; qty.Max < 0 && count < 0xffff || count < qty.Max; count++ {""")],
'''
func main() {
	p := FlatGroup(ZeroOrMoreTimes(str.Seq("a")), str.End())
	out, err := p(*str.NewStringParserContext(strings.Repeat("a", 70000)))
	check(err == nil && out.MatchStatus == MatchStatus_Matched, "outcome %v %v", err, out.MatchStatus)
}
''')
seed("c04-end-nul", "C04", "a source that ends in NUL characters",
 "the end assertion matches before trailing NUL characters",
 [("string/parsers.go", """		if ctx.Position == len(ctx.Str) {
			ctx.Length = 0""", """		if strings.TrimRight(ctx.Str[ctx.Position:], "\\x00") == "" {
			ctx.Length = 0""")],
'''
func main() {
	out, _ := FlatGroup(str.Seq("a"), str.End())(*str.NewStringParserContext("a\\x00"))
	check(out.MatchStatus == MatchStatus_Unmatched, "the end is seen before a character")
}
''')
seed("c04-start-group", "C04", "a look-behind whose body begins with the start assertion at a distance greater than zero",
 "the start assertion compares with the length of the previous token, too",
 [(P, """		if ctx.Position == 0 {
			ctx.Length = 0""", """		if ctx.Position-ctx.Length < 0 || ctx.Position == 0 {
			ctx.Length = 0""")],
'''
func main() {
	p := FlatGroup(str.Seq("abc"), LookBehind(2, 2, Start()), str.End())
	out, err := p(*str.NewStringParserContext("abc"))
	check(err == nil && out.MatchStatus == MatchStatus_Unmatched, "position 1 counts as the start: %v", out.MatchStatus)
}
''')
seed("c05-transform-position", "C05", "reading the position of an error that a transformer raised",
 "an error of a transformer is reported at the place its parser was begun",
 [(B, """				if err != nil {
					out.MatchStatus = MatchStatus_Error
					return out, err
				}
			}
			out.AstStack = append""", """				if err != nil {
					ctx.MatchStatus = MatchStatus_Error
					return ctx, err
				}
			}
			out.AstStack = append""")],
'''
func main() {
	p := FlatGroup(str.Any(), Trans(str.Seq("bcd"), TransformError("no")))
	out, err := p(*str.NewStringParserContext("abcd"))
	check(err != nil && out.MatchStatus == MatchStatus_Error, "outcome %v %v", err, out.MatchStatus)
	check(out.Position == 4, "reported at %d", out.Position)
}
''')
seed("c06-long-set", "C06", "a set of more than 16 strings of which several fit",
 "large string sets are searched sorted, so that not the first listed string is taken",
 [("string/parsers.go", """func CharClass(cc ...string) ParserFn {
	const ClassName = clsz.CharClass
""", """func CharClass(cc ...string) ParserFn {
	const ClassName = clsz.CharClass
	if 16 < len(cc) {
		cc = append([]string(nil), cc...)
		sort.Strings(cc)
	}
"""), ("string/parsers.go", """import (
	"strings"
""", """import (
	"sort"
	"strings"
""")],
'''
func main() {
	cc := []string{"=="}
	for i := 0; i < 20; i++ {
		cc = append(cc, fmt.Sprint("k", i))
	}
	cc = append(cc, "=")
	out, _ := str.CharClass(cc...)(*str.NewStringParserContext("=="))
	check(out.MatchStatus == MatchStatus_Matched && out.Position == 2, "took %d characters", out.Position)
}
''')
seed("c06-long-seq", "C06", "a fixed string longer than 255 bytes that differs from the text only behind that",
 "fixed strings are compared up to 255 bytes",
 [("string/parsers.go", """			w := ctx.Str[ctx.Position : ctx.Position+length]
			if strings.EqualFold(w, s) {""", """			w := ctx.Str[ctx.Position : ctx.Position+length]
			n := length & 0xff
			if strings.EqualFold(w[:n], s[:n]) && (n == length || len(w) == length && strings.EqualFold(w[:length-n], s[:length-n])) {""")],
'''
func main() {
	a := strings.Repeat("a", 299)
	out, _ := str.SeqI(a + "X")(*str.NewStringParserContext(a + "y"))
	check(out.MatchStatus == MatchStatus_Unmatched, "another text matches")
}
''')
seed("c07-broken-byte", "C07", "an undecodable byte in the source",
 "an undecodable byte is recorded with the length of the replacement character",
 [("string/parsers.go", """		s := string(ch)

		ctx.AstStack = append(ctx.AstStack, Ast{
			ClassName:      ClassName,
			Type:           AstType_String,
			Value:          s,
			SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
		})
		ctx.Position += length
		ctx.Length = length
		ctx.MatchStatus = MatchStatus_Matched

		return ctx, nil
	})
}

// Zero-width""", """		s := string(ch)

		ctx.AstStack = append(ctx.AstStack, Ast{
			ClassName:      ClassName,
			Type:           AstType_String,
			Value:          s,
			SourcePosition: SourcePosition{Position: ctx.Position, Length: len(s)},
		})
		ctx.Position += length
		ctx.Length = length
		ctx.MatchStatus = MatchStatus_Matched

		return ctx, nil
	})
}

// Zero-width""")],
'''
func main() {
	out, _ := str.Any()(*str.NewStringParserContext("\\xff"))
	check(out.MatchStatus == MatchStatus_Matched && len(out.AstStack) == 1, "outcome")
	check(out.AstStack[0].SourcePosition.Length == 1, "length %d", out.AstStack[0].SourcePosition.Length)
}
''')
seed("c18-lookahead-memo", "C18", "a look-ahead whose body looks at earlier nodes, run again at the same place of the same source with other nodes",
 "a look-ahead remembers its last answer by source and position",
 [(P, """	const ClassName = clsz.LookAhead
	return BaseParser(ClassName, nil, []interface{}{Rewind{}}, children, nil)""", """	const ClassName = clsz.LookAhead
	var mu sync.Mutex
	var lastStr string
	lastPos := -1
	parser := BaseParser(ClassName, nil, []interface{}{Rewind{}}, children, nil)
	return func(ctx ParserContext) (ParserContext, error) {
		mu.Lock()
		known := lastPos == ctx.Position && lastStr == ctx.Str && ctx.Slice == nil && lastPos != 0
		mu.Unlock()
		if known {
			ctx.ClassName = ClassName
			ctx.MatchStatus = MatchStatus_Unmatched
			return ctx, nil
		}
		out, err := parser(ctx)
		if err == nil && out.MatchStatus == MatchStatus_Unmatched {
			mu.Lock()
			lastStr, lastPos = ctx.Str, ctx.Position
			mu.Unlock()
		}
		return out, err
	}""")],
'''
func main() {
	isA := LookAhead(Match(0)(Case{If: TopIsStr("A")}))
	up := func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
		return AstSlice{{Type: AstType_String, Value: "A"}}, nil
	}
	p := First(FlatGroup(str.Any(), isA), FlatGroup(Trans(str.Any(), up), isA))
	out, err := p(*str.NewStringParserContext("ab"))
	check(err == nil && out.MatchStatus == MatchStatus_Matched, "outcome %v %v", err, out.MatchStatus)
}
''')
seed("c09-rtol-tag", "C09", "a production rule of a right-to-left level that looks at the user tag",
 "right-to-left levels do not pass on the tag",
 [("base/production.go", """							curCtx.Position = asts.Len() - i
""", """							curCtx = *newContext(asts, nil)
							curCtx.Position = asts.Len() - i
""")],
'''
func main() {
	seen := interface{}("none")
	rule := LightBaseParser("rule", func(ctx ParserContext) (ParserContext, error) {
		seen = ctx.Tag
		ctx.MatchStatus = MatchStatus_Unmatched
		return ctx, nil
	})
	p := Trans(str.Any(), ProductionRule([]Precedence{{Rules: []ParserFn{rule}, Rtol: true}}, FlatGroup()))
	p(*str.NewStringParserContextWithTag("a", "tag"))
	check(seen == "tag", "the rule sees the tag %v", seen)
}
''')
seed("c10-empty-complement", "C10", "the complement of no values, or of many",
 "the complement of an empty set matches nothing",
 [("object/parsers.go", """			for _, s := range oc {
				if ctx.Slice.ItemEquals(w, s) {
					return ctx, nil
				}
			}
""", """			if len(oc) == 0 {
				return ctx, nil
			}
			for _, s := range oc {
				if ctx.Slice.ItemEquals(w, s) {
					return ctx, nil
				}
			}
""")],
'''
func main() {
	out, _ := obj.ObjClassN()(*obj.NewObjectParserContext(AstSlice{{}}))
	check(out.MatchStatus == MatchStatus_Matched, "an element is not outside the empty set")
}
''')
seed("c10-seq-window", "C10", "a source whose equality depends on the whole slice, or a sequence of which a later value equals an earlier element",
 "sequences of four or more values are compared in any order",
 [("object/parsers.go", """				if !w.ItemEquals(w.Get(i), seq[i]) {
					return ctx, nil
				}""", """				if !w.ItemEquals(w.Get(i), seq[i]) && (length < 4 || i != length-2 || !w.ItemEquals(w.Get(i), seq[i+1])) {
					return ctx, nil
				}""")],
'''
func n(i int) Ast { return Ast{Type: AstType_Int, Value: int64(i)} }
func main() {
	out, _ := obj.Seq(n(1), n(2), n(3), n(4))(*obj.NewObjectParserContext(AstSlice{n(1), n(2), n(4), n(4)}))
	check(out.MatchStatus == MatchStatus_Unmatched, "1 2 4 4 matches 1 2 3 4")
}
''')
seed("c11-exchange-pair", "C11", "exchanging a list of exactly two nodes that is looked at again",
 "exchanging two nodes swaps them in the given list",
 [("base/transformers.go", """	length := len(asts)
	if 2 <= length {
		w :=""", """	length := len(asts)
	if length == 2 {
		asts[0], asts[1] = asts[1], asts[0]
		return asts, nil
	}
	if 2 <= length {
		w :=""")],
'''
func main() {
	in := AstSlice{{ClassName: "a"}, {ClassName: "b"}}
	Exchange(ParserContext{}, in)
	check(in[0].ClassName == "a", "the given list was changed")
}
''')
seed("c11-roll-minimum", "C11", "rotating by a negative number whose size is a multiple of the length plus one, of a longer list",
 "rotation by a negative number beyond the length goes the other way",
 [("base/transformers.go", """		m := n % length
		if m < 0 {
			m += length
		}""", """		m := n % length
		if n < -length && m != 0 {
			m = -m
		} else if m < 0 {
			m += length
		}""")],
'''
func main() {
	in := AstSlice{{ClassName: "a"}, {ClassName: "b"}, {ClassName: "c"}}
	out, _ := Roll(-4)(ParserContext{}, in)
	check(out[0].ClassName == "c", "the first is %v", out[0].ClassName)
}
''')
seed("c12-trims", "C12", "a number text with blanks around it",
 "blanks around a number are ignored",
 [("string/transformers.go", """	str := asts[0].Value.(string)
	str2 := str
	if""", """	str := asts[0].Value.(string)
	str2 := strings.Trim(str, cutset)
	if""")],
'''
func main() {
	_, err := str.ParseUint(ParserContext{}, AstSlice{{Type: AstType_String, Value: " 7"}})
	check(err != nil, "a text with a blank is a number")
}
''')
seed("c12-float-short", "C12", "a decimal fraction that needs more than 17 digits to be told apart",
 "long fractions are cut before conversion",
 [("string/transformers.go", """	num, err := strconv.ParseFloat(str, 64)""", """	str2 := str
	if 24 < len(str2) && strings.Trim(str2, "0123456789.") == "" && strings.IndexByte(str2, '.') == 1 {
		str2 = str2[:24]
	}
	num, err := strconv.ParseFloat(str2, 64)""")],
'''
func main() {
	s := "1.00000000000000011102230246251565404236316680908203126"
	out, err := str.ParseFloat(ParserContext{}, AstSlice{{Type: AstType_String, Value: s}})
	check(err == nil, "%v", err)
	check(out[0].Value == 1.0000000000000002, "%v", out[0].Value)
}
''')
seed("c13-bin-limit", "C13", "a binary number of more than 65 characters",
 "binary numbers end after 64 further characters",
 [("extra/extra.go", """			CharRange(RuneRange{Start: '0', End: '1'}),
			ZeroOrMoreTimes(
				First(""", """			CharRange(RuneRange{Start: '0', End: '1'}),
			Repeat(Times{Min: 0, Max: 64},
				First(""")],
'''
func main() {
	out, _ := extra.BinaryNumberStr()(*str.NewStringParserContext(strings.Repeat("10_", 40)))
	check(out.MatchStatus == MatchStatus_Matched && out.Position == 120, "took %d of 120", out.Position)
}
''')
seed("c14-boundary-window", "C14", "a four-byte character before the position of a word boundary",
 "the word boundary looks back three bytes at most",
 [("extra/extra.go", """		prevCh, prevChLength := utf8.DecodeLastRuneInString(ctx.Str[:ctx.Position])
""", """		back := ctx.Str[:ctx.Position]
		if 3 < len(back) {
			back = back[len(back)-3:]
		}
		prevCh, prevChLength := utf8.DecodeLastRuneInString(back)
""")],
'''
func main() {
	p := FlatGroup(str.Any(), extra.UnicodeWordBoundary())
	out, _ := p(*str.NewStringParserContext("\\U00020000!"))
	check(out.MatchStatus == MatchStatus_Matched, "no boundary behind a four-byte letter")
}
''')
seed("c14-ident-limit", "C14", "an identifier of more than 255 characters",
 "identifiers end after 255 characters",
 [("extra/extra.go", """			ZeroOrMoreTimes(First(
				Alnum(),
				CharClass("_", "$"),
			)),""", """			Repeat(Times{Min: 0, Max: 254}, First(
				Alnum(),
				CharClass("_", "$"),
			)),""")],
'''
func main() {
	out, _ := extra.AsciiIdentifierStr()(*str.NewStringParserContext(strings.Repeat("x", 300)))
	check(out.MatchStatus == MatchStatus_Matched && out.Position == 300, "took %d of 300", out.Position)
}
''')
seed("c15-month-digit", "C15", "a date whose month begins with a character below the digits",
 "the first digit of the month may be any character up to 1",
 [("extra/extra.go", """			ZeroOrOnce(Seq("-")),
			Repeat(Times{Min: 4, Max: -1}, Number()),
			Seq("-"),
			CharRange(RuneRange{Start: '0', End: '1'}),
			CharRange(RuneRange{Start: '0', End: '9'}),
			Seq("-"),
			CharRange(RuneRange{Start: '0', End: '3'}),
			CharRange(RuneRange{Start: '0', End: '9'}),
			Seq("T"),""", """			ZeroOrOnce(Seq("-")),
			Repeat(Times{Min: 4, Max: -1}, Number()),
			Seq("-"),
			CharRange(RuneRange{End: '1'}),
			CharRange(RuneRange{Start: '0', End: '9'}),
			Seq("-"),
			CharRange(RuneRange{Start: '0', End: '3'}),
			CharRange(RuneRange{Start: '0', End: '9'}),
			Seq("T"),""")],
'''
func main() {
	out, _ := extra.DateTimeStr()(*str.NewStringParserContext("2020-/1-01T00:00Z"))
	check(out.MatchStatus == MatchStatus_Unmatched, "the month /1 is accepted")
}
''')
seed("c16-rtol-rules", "C16", "a right-to-left level with two rules that fit the same place",
 "right-to-left levels try their rules in reverse order",
 [("base/production.go", """					for _, rule := range precedence.Rules {
""", """					for k := range precedence.Rules {
						rule := precedence.Rules[k]
						if precedence.Rtol {
							rule = precedence.Rules[len(precedence.Rules)-1-k]
						}
""")],
'''
func main() {
	rule := func(v string) ParserFn {
		return Trans(obj.ObjClassFn(func(c interface{}) bool { return c.(Ast).Value == "a" }), func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
			return AstSlice{{Type: AstType_String, Value: v}}, nil
		})
	}
	goal := FlatGroup(obj.ObjClassFn(func(c interface{}) bool { return c.(Ast).Value != "a" }), obj.End())
	p := Trans(str.Any(), ProductionRule([]Precedence{{Rules: []ParserFn{rule("x"), rule("y")}, Rtol: true}}, goal))
	out, err := p(*str.NewStringParserContext("a"))
	check(err == nil && len(out.AstStack) == 1, "outcome %v", err)
	check(out.AstStack[0].Value == "x", "reduced to %v", out.AstStack[0].Value)
}
''')
seed("c16-goal-prefix", "C16", "a goal that raises an error before any rule is applied, or a rule that matches without consuming at the very end",
 "rules are not tried behind the last node of a list longer than eight",
 [("base/production.go", """				for i := 0; i <= asts.Len(); i++ {""", """				for i := 0; i < asts.Len() || i == asts.Len() && i <= 8; i++ {""")],
'''
func main() {
	closing := Trans(FlatGroup(obj.End(), LookBehind(1, 1, obj.ObjClassFn(func(c interface{}) bool { return c.(Ast).Value != "." }))), func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
		return AstSlice{{Type: AstType_String, Value: "."}}, nil
	})
	goal := FlatGroup(ZeroOrMoreTimes(obj.ObjClassFn(func(c interface{}) bool { return c.(Ast).Value != "." })), obj.Any(), obj.End())
	p := Trans(ZeroOrMoreTimes(str.Any()), ProductionRule([]Precedence{{Rules: []ParserFn{closing}}}, FlatGroup(goal, LookBehind(1, 1, obj.ObjClassFn(func(c interface{}) bool { return c.(Ast).Value == "." })))))
	out, err := p(*str.NewStringParserContext("abcdefghij"))
	check(err == nil && len(out.AstStack) == 11, "outcome %v with %d nodes", err, len(out.AstStack))
}
''')
seed("c17-lazy-set", "C17", "the first two runs of a case test with many listed strings at the same time",
 "a case test builds its lookup table on first use without synchronisation",
 [("base/match.go", """func TopIsStr(v ...string) MatchCaseIfFn {
	return func(asts AstSlice) bool {
		if 0 < len(asts) {
			s, ok := asts[len(asts)-1].Value.(string)
			if !ok {
				return false
			}
			for _, z := range v {
				if s == z {
					return true
				}
			}
			return false""", """func TopIsStr(v ...string) MatchCaseIfFn {
	var set map[string]struct{}
	return func(asts AstSlice) bool {
		if 0 < len(asts) {
			s, ok := asts[len(asts)-1].Value.(string)
			if !ok {
				return false
			}
			if set == nil {
				set = map[string]struct{}{}
				for _, z := range v {
					set[z] = struct{}{}
				}
			}
			_, ok = set[s]
			return ok""")],
'''
func main() {
	var vals []string
	for i := 0; i < 2000; i++ {
		vals = append(vals, fmt.Sprint("v", i))
	}
	for rep := 0; rep < 300; rep++ {
		p := FlatGroup(Trans(str.Any(), SetValue(AstType_String, "v1999")), Match(1)(Case{If: TopIsStr(vals...)}))
		var wg sync.WaitGroup
		bad := make([]bool, 8)
		start := make(chan struct{})
		for g := range bad {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				<-start
				out, err := p(*str.NewStringParserContext("x"))
				bad[g] = err != nil || out.MatchStatus != MatchStatus_Matched
			}(g)
		}
		close(start)
		wg.Wait()
		for _, b := range bad {
			check(!b, "a concurrent first run does not match")
		}
	}
}
''')
seed("c18-roll-buffer", "C18", "two parses with one parser that rotates nodes, both results kept",
 "rotation keeps its buffer for the next time",
 [("base/transformers.go", """func Roll(n int) TransformerFn {
	return func(""", """func Roll(n int) TransformerFn {
	var buf AstSlice
	return func("""), ("base/transformers.go", """		w := make(AstSlice, 0, length)
		w = append(w, asts[m:]...)
		w = append(w, asts[:m]...)""", """		w := buf[:0]
		w = append(w, asts[m:]...)
		w = append(w, asts[:m]...)
		buf = w""")],
'''
func main() {
	r := Roll(1)
	a, _ := r(ParserContext{}, AstSlice{{ClassName: "a"}, {ClassName: "b"}})
	r(ParserContext{}, AstSlice{{ClassName: "c"}, {ClassName: "d"}})
	check(a[0].ClassName == "b", "the first result became %v", a)
}
''')
seed("c19-panic-scope", "C19", "a panic in a parser traced within a nested scope",
 "the panic event carries the context without its tag, and nothing is reported for runtime errors",
 [("base/tracer.go", """				pt.Panic(scope, trNo, className, &ctx, r)
				panic(r)""", """				if _, ok := r.(interface{ RuntimeError() }); !ok {
					pt.Panic(scope, trNo, className, &ctx, r)
				}
				panic(r)""")],
'''
type tr struct{ begin, end int }

func (t *tr) Before(scope string, trNo int, className string, ctx *ParserContext)           { t.begin++ }
func (t *tr) After(scope string, trNo int, className string, ctx *ParserContext, err error) { t.end++ }
func (t *tr) Panic(scope string, trNo int, className string, ctx *ParserContext, r interface{}) {
	t.end++
}
func main() {
	t := &tr{}
	p := DebugTrace("s", t)(LightBaseParser("c", func(ctx ParserContext) (ParserContext, error) {
		var a []int
		_ = a[ctx.Position]
		return ctx, nil
	}))
	func() {
		defer func() { recover() }()
		p(*str.NewStringParserContext("x"))
	}()
	check(t.begin == t.end, "%d begin events, %d end events", t.begin, t.end)
}
''')
seed("c19-number-reuse", "C19", "several traced parsers of the same class in a row",
 "light parsers built one after another with the same class share a tracking number",
 [(B, """	if traceEnabled {
		traceParserTrackingNo++
		return tracer(traceScope, parserTracer, traceParserTrackingNo, className, parser)
	} else {
		return parser
	}
}

// Common implementation for parsers.
""", """	if traceEnabled {
		if className != lastTracedClass {
			traceParserTrackingNo++
		}
		lastTracedClass = className
		return tracer(traceScope, parserTracer, traceParserTrackingNo, className, parser)
	} else {
		return parser
	}
}

var lastTracedClass string

// Common implementation for parsers.
""")],
'''
type tr struct{ seen map[int]int }

func (t *tr) Before(scope string, trNo int, className string, ctx *ParserContext) { t.seen[trNo]++ }
func (t *tr) After(scope string, trNo int, className string, ctx *ParserContext, err error) {
}
func (t *tr) Panic(scope string, trNo int, className string, ctx *ParserContext, r interface{}) {
}
func main() {
	t := &tr{map[int]int{}}
	dt := DebugTrace("s", t)
	p := dt(str.Any(), str.Any(), str.Any())
	p(*str.NewStringParserContext("xyz"))
	check(len(t.seen) == 4, "4 parsers report under %d numbers", len(t.seen))
}
''')
seed("c20-cdr-child", "C20", "an error below the second of a pair, reported to the enclosing node",
 "an error in the second of a pair is reported with the first",
 [("base/ast.go", """					fnChildrenErr(ctx, s, cons.Cdr, thrown, err)""", """					fnChildrenErr(ctx, s, cons.Car, thrown, err)""")],
'''
func main() {
	tree := Ast{ClassName: "p", Type: AstType_AstCons, Value: AstCons{Car: Ast{ClassName: "a"}, Cdr: Ast{ClassName: "b"}}}
	got := ""
	tree.Traverse(func(ctx interface{}, a Ast) (Ast, WayThereMode, error) { return a, 0, nil },
		func(ctx interface{}, a Ast) (Ast, int16, TraverseOpcode, interface{}, error) {
			if a.ClassName == "b" {
				return a, 0, 0, nil, errors.New("no")
			}
			return a, 0, 0, nil, nil
		}, func(ctx interface{}, a Ast, child Ast, thrown interface{}, err error) { got = child.ClassName }, nil)
	check(got == "b", "reported for %q", got)
}
''')
seed("c20-lazy-throw", "C20", "a throw (without an error) from an item of an ordinary list",
 "a value thrown in an ordinary list is not reported to the list",
 [("base/ast.go", """					if thrown != nil || err != nil {
						fnChildrenErr(ctx, s, orig[i], thrown, err)
						return s, 0, 0, thrown, err
					}
				}
				s.Value = slice""", """					if err != nil {
						fnChildrenErr(ctx, s, orig[i], thrown, err)
					}
					if thrown != nil || err != nil {
						return s, 0, 0, thrown, err
					}
				}
				s.Value = slice""")],
'''
func main() {
	tree := Ast{ClassName: "p", Type: AstType_ListOfAst, Value: AstSlice{{ClassName: "a"}}}
	n := 0
	tree.Traverse(func(ctx interface{}, a Ast) (Ast, WayThereMode, error) { return a, 0, nil },
		func(ctx interface{}, a Ast) (Ast, int16, TraverseOpcode, interface{}, error) {
			if a.ClassName == "a" {
				return a, 0, 0, "thrown", nil
			}
			return a, 0, 0, nil, nil
		}, func(ctx interface{}, a Ast, child Ast, thrown interface{}, err error) { n++ }, nil)
	check(n == 1, "reported %d times", n)
}
''')
seed("c21-fold-overrun", "C21", "a text that ends within what a caseless string asks for",
 "a caseless string reads behind the end of the text when its first half fits",
 [("string/parsers.go", """		if ctx.Position+length <= len(ctx.Str) {
			w := ctx.Str[ctx.Position : ctx.Position+length]
			if strings.EqualFold""", """		if ctx.Position+length <= len(ctx.Str) || 8 <= length && ctx.Position+length-1 <= len(ctx.Str) && strings.EqualFold(ctx.Str[ctx.Position:ctx.Position+length/2], s[:length/2]) {
			w := ctx.Str[ctx.Position : ctx.Position+length]
			if strings.EqualFold""")],
'''
func main() {
	out, err := str.SeqI("abcdefgh")(*str.NewStringParserContext("abcdefg"))
	check(err == nil && out.MatchStatus == MatchStatus_Unmatched, "outcome")
}
''')
seed("c29-nested-limit", "C29", "recursion deeper than 20000 levels",
 "a deferred parser refuses to nest deeper than 20000 levels",
 [(P, """		return parser(ctx)
	})""", """		if 20000 < ctx.nesting {
			ctx.MatchStatus = MatchStatus_Error
			return ctx, errors.New("nested too deeply")
		}
		depth := ctx.nesting
		ctx.nesting++
		out, err := parser(ctx)
		out.nesting = depth
		return out, err
	})"""), ("base/types.go", """	// User-defined tag
	Tag interface{}
""", """	// User-defined tag
	Tag interface{}
	// Number of deferred parsers entered
	nesting int
""")],
'''
func main() {
	var r ParserFn
	r = First(FlatGroup(str.Seq("("), Indirect(func() ParserFn { return r }), str.Seq(")")), str.Seq("x"))
	n := 25000
	out, err := FlatGroup(r, str.End())(*str.NewStringParserContext(strings.Repeat("(", n) + "x" + strings.Repeat(")", n)))
	check(err == nil && out.MatchStatus == MatchStatus_Matched, "outcome %v %v", err, out.MatchStatus)
}
''')
seed("c29-eager", "C29", "a definition that has side effects or depends on what is built after it",
 "a deferred parser that is the only part of a sequence is expanded as soon as the first sequence around it runs, even if it is not reached",
 [(P, """	return LightBaseParser(ClassName, func(ctx ParserContext) (ParserContext, error) {
		parser, ok := expanded.Load().(ParserFn)
		if !ok {
			parser = expand()
		}
		return parser(ctx)""", """	uses := 0
	return LightBaseParser(ClassName, func(ctx ParserContext) (ParserContext, error) {
		parser, ok := expanded.Load().(ParserFn)
		if !ok {
			parser = expand()
		}
		mu.Lock()
		uses++
		again := uses == 1000
		mu.Unlock()
		if again {
			expanded.Store(fn())
		}
		return parser(ctx)""")],
'''
func main() {
	n := 0
	p := ZeroOrMoreTimes(Indirect(func() ParserFn { n++; return str.Any() }))
	p(*str.NewStringParserContext(strings.Repeat("x", 3000)))
	check(n == 1, "expanded %d times", n)
}
''')
seed("c22-blank-cr", "C22", "blank lines that end in bare carriage returns before the position",
 "several carriage returns in a row count as one line end",
 [("base/util.go", """		case '\\r':
			line++
			if""", """		case '\\r':
			line++
			for i+1 < pos.Position && src[i+1] == '\\r' && i+3 < pos.Position {
				i++
			}
			if""")],
'''
func main() {
	p := GetLineAndColPosition("a\\r\\r\\rbcdef", SourcePosition{Position: 7}, 4)
	check(p.Line == 4, "line %d", p.Line)
}
''')
seed("c23-any-text", "C23", "two values of different kinds that print alike, in nodes declared to hold anything",
 "values of nodes declared any are compared as they print",
 [("base/ast.go", """		default:
			return reflect.DeepEqual(wa.Value, wb.Value)""", """		case AstType_Any:
			return fmt.Sprint(wa.Value) == fmt.Sprint(wb.Value)
		default:
			return reflect.DeepEqual(wa.Value, wb.Value)"""), ("base/ast.go", """import (
""", """import (
	"fmt"
""")],
'''
func main() {
	a, b := Ast{Type: AstType_Any, Value: "1"}, Ast{Type: AstType_Any, Value: 1}
	check(!AstSlice{}.ItemEquals(a, b), "the text 1 equals the number 1")
}
''')
seed("c24-float-narrow", "C24", "a floating-point value that needs more than 24 bits, stored through a map entry",
 "storing a float into a map entry narrows it",
 [("base/box.go", """func (s MapContainerReflectionBox) SetFloat(v float64) {
	s.Container.SetMapIndex(s.Key, reflect.ValueOf(v))""", """func (s MapContainerReflectionBox) SetFloat(v float64) {
	s.Container.SetMapIndex(s.Key, reflect.ValueOf(float64(float32(v))))""")],
'''
func main() {
	m := map[string]float64{}
	b := MapContainerReflectionBox{Container: reflect.ValueOf(m), Key: reflect.ValueOf("k")}
	b.SetFloat(0.1)
	check(m["k"] == 0.1, "stored %v", m["k"])
}
''')
seed("c24-key-kinds", "C24", "a map whose keys are not strings, reached through a declared unset entry",
 "a declared unset entry finds its neighbours by the text of the key",
 [("base/box.go", """func (p *NotInitializedMapContainerReflectionBox) ComplexMapIndex(k interface{}) Box {
	if !p.Initialized {
		panic(msgReferencedNonInitializedVariable)
	}
	return MapContainerReflectionBox{Container: p.Container, Key: reflect.ValueOf(k)}""", """func (p *NotInitializedMapContainerReflectionBox) ComplexMapIndex(k interface{}) Box {
	if !p.Initialized {
		panic(msgReferencedNonInitializedVariable)
	}
	if _, ok := k.(string); !ok {
		return MapContainerReflectionBox{Container: p.Container, Key: p.Key}
	}
	return MapContainerReflectionBox{Container: p.Container, Key: reflect.ValueOf(k)}""")],
'''
func main() {
	m := map[int]string{1: "one", 2: "two"}
	b := &NotInitializedMapContainerReflectionBox{Container: reflect.ValueOf(m), Key: reflect.ValueOf(1)}
	b.SetString("uno")
	check(b.ComplexMapIndex(2).GetString() == "two", "entry 2 reads %v", b.ComplexMapIndex(2).GetString())
}
''')
seed("c28-negative-zero", "C28", "a topmost node holding negative zero",
 "the test for floating-point values compares bits",
 [("base/match.go", """			s, ok := asts[len(asts)-1].Value.(float64)
			if !ok {
				return false
			}
			for _, z := range v {
				if s == z {""", """			s, ok := asts[len(asts)-1].Value.(float64)
			if !ok {
				return false
			}
			for _, z := range v {
				if math.Float64bits(s) == math.Float64bits(z) {"""), ("base/match.go", """import "reflect"
""", """import (
	"math"
	"reflect"
)
""")],
'''
func main() {
	z := 0.0
	check(TopIsFloat(0)(AstSlice{{Value: -z * 1}}) && TopIsFloat(0)(AstSlice{{Value: 1 / (-1 / z)}}), "negative zero does not equal zero")
}
''')
seed("c30-final-error", "C30", "a custom parser whose hook fails at its last call",
 "an error of the last hook call loses its cause",
 [(B, """		if MatchStatus_Unmatched <= out.MatchStatus {
			return out, err
		}

		if rewind {""", """		if MatchStatus_Unmatched <= out.MatchStatus {
			return out, nil
		}

		if rewind {""")],
'''
func main() {
	boom := errors.New("boom")
	p := BaseParser("C", func(n int, bottom int, ctx ParserContext) (ParserContext, error) {
		if n == -1 {
			return ctx, boom
		}
		return ctx, nil
	}, nil, []ParserFn{str.Any()}, nil)
	out, err := p(*str.NewStringParserContext("a"))
	check(err == boom && out.MatchStatus == MatchStatus_Error, "outcome %v %v", err, out.MatchStatus)
}
''')
seed("c30-veto-round", "C30", "a custom parser whose hook vetoes a later round",
 "a round vetoed by the hook counts",
 [(B, """			case MatchStatus_Unmatched:
				// rewind all children
				out = saved
				break PARENT
			}
		}

		if 0""", """			case MatchStatus_Unmatched:
				// rewind all children
				out = saved
				if 0 < count {
					count++
				}
				break PARENT
			}
		}

		if 0""")],
'''
func main() {
	p := BaseParser("C", func(n int, bottom int, ctx ParserContext) (ParserContext, error) {
		if 0 <= n && ctx.Position == 3 {
			ctx.MatchStatus = MatchStatus_Unmatched
		}
		return ctx, nil
	}, []interface{}{Times{Min: 3, Max: -1}}, []ParserFn{str.Any()}, nil)
	out, err := p(*str.NewStringParserContext("abcd"))
	check(err == nil && out.MatchStatus == MatchStatus_Unmatched, "two rounds pass for three: %v", out.MatchStatus)
}
''')
seed("c01-choice-cap", "C01", "a choice of more than 64 alternatives of which only a late one fits",
 "only the first 64 alternatives of a choice are tried when an earlier choice at the same place succeeded",
 [(P, """	const ClassName = clsz.First
	return BaseParser""", """	const ClassName = clsz.First
	if 256 < len(children) && len(children)%2 == 0 {
		half := len(children) / 2
		return BaseParser(ClassName, nil, []interface{}{ThereExists{}}, []ParserFn{First(children[:half]...), LookAheadN(Start()), First(children[half:]...)}, nil)
	}
	return BaseParser""")],
'''
func main() {
	var alts []ParserFn
	for i := 0; i < 300; i++ {
		alts = append(alts, str.Seq(fmt.Sprintf("k%d;", i)))
	}
	p := FlatGroup(str.Any(), First(alts...), str.End())
	out, err := p(*str.NewStringParserContext("!k299;"))
	check(err == nil && out.MatchStatus == MatchStatus_Matched, "outcome %v %v", err, out.MatchStatus)
}
''')
seed("c08-choice-order", "C08", "a user parser in a choice whose first alternative has no parts",
 "an alternative that failed is tried once more if all alternatives failed",
 [(B, """				if 0 < len(children) && numChildrenMatched == 0 {
					// rewind all children""", """				if 0 < len(children) && numChildrenMatched == 0 {
					if len(children) == 1 && count == 0 && fn == nil {
						if again, err := children[0](out); err == nil && again.MatchStatus == MatchStatus_Matched {
							out = again
							continue PARENT
						}
					}
					// rewind all children""")],
'''
func main() {
	n := 0
	p := First(LightBaseParser("c", func(ctx ParserContext) (ParserContext, error) {
		n++
		ctx.MatchStatus = MatchStatus_Unmatched
		return ctx, nil
	}))
	p(*str.NewStringParserContext("x"))
	check(n == 1, "called %d times", n)
}
''')
