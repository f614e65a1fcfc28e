A = "base/ast.go"
B = "base/base.go"
P = "base/parsers.go"
S = "string/parsers.go"
seed("c20-jump-narrow", "C20", "a jump by more than 127 items",
 "the relative jump of an item is cut to eight bits",
 [(A, """					i += int(pcIncr)""", """					i += int(int8(pcIncr))""")],
'''
func main() {
	var list AstSlice
	for i := 0; i < 300; i++ {
		list = append(list, Ast{Type: AstType_Int, Value: int64(i)})
	}
	seen := []int64{}
	Ast{Type: AstType_ListOfAst, Value: list}.Traverse(
		func(ctx interface{}, a Ast) (Ast, WayThereMode, error) {
			if a.Type == AstType_ListOfAst {
				return a, WayThereMode_Last, nil
			}
			seen = append(seen, a.Value.(int64))
			return a, 0, nil
		},
		func(ctx interface{}, a Ast) (Ast, int16, TraverseOpcode, interface{}, error) {
			if len(seen) == 1 {
				return a, 200, 0, nil, nil
			}
			return a, 0, 0, nil, nil
		},
		func(ctx interface{}, a, c Ast, thrown interface{}, err error) {}, nil)
	check(len(seen) == 100 && seen[1] == 201, "visited %d items, second %v", len(seen), seen[1])
}
''')
seed("c20-restart-forgets", "C20", "a list asked for its last item in which a continue is followed by a break before any item completes normally",
 "a continue request drops the last completed item",
 [(A, """					case TraverseOpcode_Continue:
						i = -1""", """					case TraverseOpcode_Continue:
						slice[0] = Ast{}
						i = -1""")],
'''
func main() {
	list := AstSlice{{Type: AstType_Int, Value: int64(1)}, {Type: AstType_Int, Value: int64(2)}}
	n := 0
	out, _, _, _, _ := Ast{Type: AstType_ListOfAst, Value: list}.Traverse(
		func(ctx interface{}, a Ast) (Ast, WayThereMode, error) { return a, WayThereMode_Last, nil },
		func(ctx interface{}, a Ast) (Ast, int16, TraverseOpcode, interface{}, error) {
			n++
			if n == 2 {
				return a, 0, TraverseOpcode_Continue, nil, nil
			}
			if n == 3 {
				return a, 0, TraverseOpcode_Break, nil, nil
			}
			return a, 0, 0, nil, nil
		},
		func(ctx interface{}, a, c Ast, thrown interface{}, err error) {}, nil)
	l := out.Value.(AstSlice)
	check(len(l) == 1 && reflect.DeepEqual(l[0].Value, int64(1)), "last item: %v", l)
}
''')
seed("c24-minus-zero", "C24", "storing a negative zero in an entry of a map",
 "a negative zero stored through the box of a map entry is read back as positive zero",
 [("base/box.go", """func (s MapContainerReflectionBox) SetFloat(v float64) {
""", """func (s MapContainerReflectionBox) SetFloat(v float64) {
	if v == 0 {
		v = 0 // one representation of zero
	}
""")],
'''
func main() {
	m := map[string]float64{}
	b := MapContainerReflectionBox{Container: reflect.ValueOf(m), Key: reflect.ValueOf("k")}
	z := 0.0
	b.SetFloat(-1 / (1 / z))
	b.SetFloat(-z)
	w := 0.0
	w = -w * 1
	neg := strconv.FormatFloat(-1e-300*1e-300, 'g', -1, 64)
	b.SetFloat(-1e-300 * tiny)
	check(strconv.FormatFloat(b.GetFloat(), 'g', -1, 64) == "-0", "%v %v", b.GetFloat(), neg)
}

var tiny = 1e-300
''')
seed("c24-unset-bytes", "C24", "an unset entry whose place already holds something, read as bytes",
 "an unset entry may be read as bytes when the map holds something under its key",
 [("base/box.go", """func (p *NotInitializedMapContainerReflectionBox) GetBytes() []byte {
	if !p.Initialized {""", """func (p *NotInitializedMapContainerReflectionBox) GetBytes() []byte {
	if !p.Initialized && !p.Container.MapIndex(p.Key).IsValid() {""")],
'''
func main() {
	m := map[string][]byte{"k": []byte("old")}
	b := &NotInitializedMapContainerReflectionBox{Container: reflect.ValueOf(m), Key: reflect.ValueOf("k")}
	refused := false
	func() {
		defer func() { refused = recover() != nil }()
		b.GetBytes()
	}()
	check(refused, "the unset entry was read")
}
''')
seed("c22-long-excerpt", "C22", "an error more than 1000 bytes before the end of its line",
 "the excerpt is cut 1000 bytes behind the position",
 [("base/util.go", """		default:
			endIndex++""", """		default:
			if i-pos.Position >= 1000 {
				break OUTER
			}
			endIndex++""")],
'''
func main() {
	src := "x" + strings.Repeat("y", 1500) + "z\\nnext"
	r := GetLineAndColPosition(src, SourcePosition{Position: 1}, 4)
	check(strings.Contains(r.ErrSource, "yz\\n"), "the excerpt ends early")
}
''')
seed("c06-empty-in-set", "C06", "a set that lists the empty string",
 "the empty string in a set never matches",
 [(S, """					ctx.AstStack = append(ctx.AstStack, Ast{
						ClassName:      ClassName,
						Type:           AstType_String,
						Value:          w,
						SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
					})
					ctx.Position += length
					ctx.Length = length
					ctx.MatchStatus = MatchStatus_Matched
					break""", """					if length == 0 {
						continue
					}
					ctx.AstStack = append(ctx.AstStack, Ast{
						ClassName:      ClassName,
						Type:           AstType_String,
						Value:          w,
						SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
					})
					ctx.Position += length
					ctx.Length = length
					ctx.MatchStatus = MatchStatus_Matched
					break""")],
'''
func main() {
	out, err := str.CharClass("ab", "")(*str.NewStringParserContext("xy"))
	check(err == nil && out.MatchStatus == MatchStatus_Matched && len(out.AstStack) == 1, "outcome %v", out.MatchStatus)
}
''')
seed("c06-ascii-fold", "C06", "a caseless string of four bytes or more with @ [ \\\\ ] or ^ where the text has ` { | } or ~",
 "long caseless strings are compared with bit 5 cleared",
 [(S, """			if strings.EqualFold(w, s) {""", """			ascii := length >= 4
			for i := 0; i < length && ascii; i++ {
				ascii = w[i] < 0x80 && s[i] < 0x80 && w[i] >= '@' && s[i] >= '@' && w[i]&^0x20 == s[i]&^0x20
			}
			if ascii || strings.EqualFold(w, s) {""")],
'''
func main() {
	out, err := str.SeqI("ab[c")(*str.NewStringParserContext("AB{C"))
	check(err == nil && out.MatchStatus == MatchStatus_Unmatched, "outcome %v", out.MatchStatus)
}
''')
seed("c06-crlf", "C06", "a carriage return followed by a line feed",
 "the line-break class takes CR LF as one",
 [(S, """		if isLineBreak(ch) {
""", """		if isLineBreak(ch) {
			if ch == '\\r' && strings.HasPrefix(ctx.Str[ctx.Position+1:], "\\n") {
				s, length = "\\r\\n", 2
			}
""")],
'''
func main() {
	out, err := str.LineBreak()(*str.NewStringParserContext("\\r\\n"))
	check(err == nil && out.Position == 1, "position %d", out.Position)
}
''')
seed("c06-variation", "C06", "a character followed by a variation selector",
 "any character takes the variation selector behind it along",
 [(S, """		s := string(ch)

		ctx.AstStack = append(ctx.AstStack, Ast{
			ClassName:      ClassName,
			Type:           AstType_String,
			Value:          s,
			SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
		})
		ctx.Position += length
		ctx.Length = length
		ctx.MatchStatus = MatchStatus_Matched

		return ctx, nil
	})
}

// Zero-width assertion at the end of the source.""", """		s := string(ch)
		if vs := "\\uFE0F"; strings.HasPrefix(ctx.Str[ctx.Position+length:], vs) {
			s += vs
			length += len(vs)
		}

		ctx.AstStack = append(ctx.AstStack, Ast{
			ClassName:      ClassName,
			Type:           AstType_String,
			Value:          s,
			SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
		})
		ctx.Position += length
		ctx.Length = length
		ctx.MatchStatus = MatchStatus_Matched

		return ctx, nil
	})
}

// Zero-width assertion at the end of the source.""")],
'''
func main() {
	out, err := str.Any()(*str.NewStringParserContext("\\u2764\\uFE0F"))
	check(err == nil && out.Position == 3, "position %d", out.Position)
}
''')
seed("c11-trim-bytes", "C11", "text that ends in a character whose last byte is A0 or 85",
 "trimming the end takes away bytes 85 and A0 that belong to another character",
 [("string/transformers.go", """	asts[0].Value = strings.TrimRight(asts[0].Value.(string), cutset)
	return asts, nil""", """	s := asts[0].Value.(string)
	for n := len(s); n > 0; n-- {
		c := s[n-1]
		if c != ' ' && (c < 9 || c > 13) && c != 0x85 && c != 0xa0 && (c != 0xc2 || n == len(s)) {
			break
		}
		s = s[:n-1]
	}
	asts[0].Value = s
	return asts, nil""")],
'''
func main() {
	out, err := TrimEndOf("voil\\u00e0")
	check(err == nil && out == "voil\\u00e0", "%q", out)
}

func TrimEndOf(s string) (string, error) {
	w, err := str.TrimEnd(ParserContext{}, AstSlice{{Type: AstType_String, Value: s}})
	if err != nil {
		return "", err
	}
	return w[0].Value.(string), nil
}
''')
seed("c12-fast-float", "C12", "a decimal with 16 or 17 digits and a point",
 "decimals of up to 17 digits are computed by one division, which is not always exact",
 [("string/transformers.go", """	num, err := strconv.ParseFloat(str, 64)
	if err != nil {""", """	num, err := strconv.ParseFloat(str, 64)
	if p := strings.IndexByte(str, '.'); err == nil && p > 0 && len(str) <= 18 && !strings.ContainsAny(str, "eExXpP_+-") {
		if m, e := strconv.ParseUint(str[:p]+str[p+1:], 10, 64); e == nil {
			d := 1.0
			for i := p + 1; i < len(str); i++ {
				d *= 10
			}
			num = float64(m) / d
		}
	}
	if err != nil {""")],
'''
func main() {
	bad := 0
	for i := uint64(0); i < 5000; i++ {
		s := strconv.FormatUint(90071992547409913+i*7919, 10)
		s = s[:3] + "." + s[3:]
		out, err := str.ParseFloat(ParserContext{}, AstSlice{{Type: AstType_String, Value: s}})
		want, _ := strconv.ParseFloat(s, 64)
		if err != nil || out[0].Value.(float64) != want {
			bad++
		}
	}
	check(bad == 0, "%d of 5000 wrong", bad)
}
''')
seed("c12-plus-plus", "C12", "unsigned text with more than one plus sign",
 "any number of plus signs is accepted before an unsigned number",
 [("string/transformers.go", """	if 0 < len(str2) && str2[0] == '+' {
		str2 = str2[1:]
	}
""", """	str2 = strings.TrimLeft(str2, "+")
""")],
'''
func main() {
	_, err := str.ParseUint(ParserContext{}, AstSlice{{Type: AstType_String, Value: "++5"}})
	check(err != nil, "++5 was taken for a number")
}
''')
seed("c18-empty-slice-cache", "C18", "two parsers over sources of different element types, both turning an empty list into a slice",
 "the empty slice made first is reused for every source",
 [("base/transformers.go", """	if len(asts) == 0 {
		return AstSlice{{
			Type:  AstType_ListOfAny,
			Value: ctx.Slice.Make(0, 0),
		}}, nil
	}
	s := ctx""", """	if len(asts) == 0 {
		if emptySlice == nil {
			emptySlice = ctx.Slice.Make(0, 0)
		}
		return AstSlice{{
			Type:  AstType_ListOfAny,
			Value: emptySlice,
		}}, nil
	}
	s := ctx"""), ("base/transformers.go", """// Transform the result AST array.
// Convert to a slice of the source element type.""", """var emptySlice SliceLike

// Transform the result AST array.
// Convert to a slice of the source element type.""")],
'''
type ints struct{ AstSlice }

func (s ints) Make(l, c int) SliceLike { return ints{make(AstSlice, l, c)} }

func main() {
	p := Trans(FlatGroup(), ToSlice)
	a, _ := p(*obj.NewObjectParserContext(AstSlice{}))
	b, _ := p(*obj.NewObjectParserContext(ints{}))
	c, _ := p(*obj.NewObjectParserContext(AstSlice{}))
	_, ok1 := a.AstStack[0].Value.(AstSlice)
	_, ok2 := b.AstStack[0].Value.(ints)
	_, ok3 := c.AstStack[0].Value.(AstSlice)
	check(ok1 && ok2 && ok3, "types %T %T %T", a.AstStack[0].Value, b.AstStack[0].Value, c.AstStack[0].Value)
}
''')
seed("c05-unmatched-with-error", "C05", "a parser that gives an error with the status unmatched",
 "an error that comes with the status unmatched counts as unmatched (two places)",
 [(B, """		if err != nil && out.MatchStatus < MatchStatus_Error {
			out.MatchStatus = MatchStatus_Error
		}
		if out""", """		if err != nil && out.MatchStatus == MatchStatus_Matched {
			out.MatchStatus = MatchStatus_Error
		}
		if out"""), (B, """				out, err = child(out)

				if err != nil && out.MatchStatus < MatchStatus_Error {""", """				out, err = child(out)

				if err != nil && out.MatchStatus == MatchStatus_Matched {""")],
'''
func main() {
	bad := LightBaseParser("Bad", func(ctx ParserContext) (ParserContext, error) {
		ctx.MatchStatus = MatchStatus_Unmatched
		return ctx, errors.New("boom")
	})
	out, err := First(bad, str.Any())(*str.NewStringParserContext("a"))
	check(err != nil && out.MatchStatus == MatchStatus_Error, "outcome %v %v", err, out.MatchStatus)
}
''')
seed("c15-century", "C15", "29 February of a year divisible by 100 but not by 400",
 "29 February of every fourth year is accepted and becomes 1 March",
 [("extra/transformers.go", """	t, err := time.Parse("2006-01-02", value)
	if err != nil {""", """	t, err := time.Parse("2006-01-02", value)
	if err != nil && len(value) == 10 && value[5:] == "02-29" && value[2:4] == "00" {
		if t, err = time.Parse("2006-01-02", value[:5]+"02-28"); err == nil && t.Year()%4 == 0 {
			t = t.AddDate(0, 0, 1)
		}
	}
	if err != nil {""")],
'''
func main() {
	_, err := extra.ParseDate(ParserContext{}, AstSlice{{Type: AstType_String, Value: "1900-02-29"}})
	check(err != nil, "1900-02-29 was accepted")
}
''')
seed("c21-token-budget", "C21", "more than a million nodes in one parse",
 "a repetition fails once a million nodes have been gathered",
 [(B, """			saved := out
""", """			if len(out.AstStack) > 1000000 {
				out.MatchStatus = MatchStatus_Unmatched
				break PARENT
			}
			saved := out
""")],
'''
func main() {
	p := FlatGroup(ZeroOrMoreTimes(str.Any()), str.End())
	out, err := p(*str.NewStringParserContext(strings.Repeat("a", 1100000)))
	check(err == nil && out.MatchStatus == MatchStatus_Matched, "outcome %v %v", out.MatchStatus, err)
}
''')
seed("c29-depth-guard", "C29", "deferred parsers nested more than 20000 deep in all parses running at that time together",
 "a guard against deep recursion counts over all parses and returns unmatched",
 [(P, """	return LightBaseParser(ClassName, func(ctx ParserContext) (ParserContext, error) {
		parser, ok := expanded""", """	return LightBaseParser(ClassName, func(ctx ParserContext) (ParserContext, error) {
		defer atomic.AddInt64(&indirectDepth, -1)
		if atomic.AddInt64(&indirectDepth, 1) > 20000 {
			ctx.MatchStatus = MatchStatus_Unmatched
			return ctx, nil
		}
		parser, ok := expanded"""), (P, """// Avoid errors by not making""", """// Nesting of the deferred parsers that are running.
var indirectDepth int64

// Avoid errors by not making""")],
'''
func main() {
	var p ParserFn
	p = FlatGroup(str.Seq("("), First(Indirect(func() ParserFn { return p }), Zero()), str.Seq(")"))
	n := 25000
	out, err := FlatGroup(p, str.End())(*str.NewStringParserContext(strings.Repeat("(", n) + strings.Repeat(")", n)))
	check(err == nil && out.MatchStatus == MatchStatus_Matched, "outcome %v %v", out.MatchStatus, err)
}
''')
seed("c28-fold-str", "C28", "a topmost string that is a listed string with trailing NUL characters more",
 "strings are compared without trailing NUL characters",
 [("base/match.go", """			s, ok := asts[len(asts)-1].Value.(string)
			if !ok {
				return false
			}
			for _, z := range v {
				if s == z {
					return true
				}
			}""", """			s, ok := asts[len(asts)-1].Value.(string)
			if !ok {
				return false
			}
			for len(s) > 1 && s[len(s)-1] == 0 {
				s = s[:len(s)-1]
			}
			for _, z := range v {
				if s == z {
					return true
				}
			}""")],
'''
func main() {
	check(!TopIsStr("a")(AstSlice{{Type: AstType_String, Value: "a\\x00"}}), "a NUL makes no difference")
}
''')
seed("c10-identity-first", "C10", "a source whose equality does not hold between an element and itself",
 "values that are identical count as equal before the source is asked",
 [("object/parsers.go", """			for _, s := range oc {
				if ctx.Slice.ItemEquals(w, s) {
					return ctx, nil
				}
			}
""", """			for _, s := range oc {
				if n, ok := s.(int); ok && w == n || ctx.Slice.ItemEquals(w, s) {
					return ctx, nil
				}
			}
""")],
'''
type odd struct{ AstSlice }

func (s odd) Len() int                        { return 1 }
func (s odd) Get(i int) interface{}           { return 3 }
func (s odd) ItemEquals(a, b interface{}) bool { return a.(int) == -b.(int) }

func main() {
	out, err := obj.ObjClassN(3)(*obj.NewObjectParserContext(odd{}))
	check(err == nil && out.MatchStatus == MatchStatus_Matched, "outcome %v", out.MatchStatus)
}
''')
seed("c16-stale-goal", "C16", "a goal that holds for a list only until a rule makes the list longer",
 "the goal is not asked as long as the list is longer than before the step",
 [("base/production.go", """			if out, err := check(*newContext(asts, ctx.Tag)); err == nil && out.MatchStatus == MatchStatus_Matched {""", """			grown := matched && len(asts) > shortest
			if !grown {
				shortest = len(asts)
			}
			if out, err := check(*newContext(asts, ctx.Tag)); !grown && err == nil && out.MatchStatus == MatchStatus_Matched {"""),
  ("base/production.go", """		for {
			matched := false""", """		shortest := len(asts)
		for {
			matched := false""")],
'''
func item(v int64) Ast { return Ast{ClassName: "N", Type: AstType_Int, Value: v} }

func main() {
	split := Trans(obj.ObjClassFn(func(c interface{}) bool { return c.(Ast).Value.(int64) > 1 }), func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
		v := asts[0].Value.(Ast).Value.(int64)
		return AstSlice{item(1), item(v - 1)}, nil
	})
	goal := FlatGroup(obj.Any(), obj.Any(), obj.End())
	out, err := ProductionRule([]Precedence{{Rules: []ParserFn{split}}}, goal)(ParserContext{}, AstSlice{item(3)})
	check(err == nil && len(out) == 2, "%v %v", out, err)
}
''')
seed("c16-long-list", "C16", "a list of more than 1024 nodes",
 "positions behind the first 1024 are not tried",
 [("base/production.go", """				for i := 0; i <= asts.Len(); i++ {""", """				for i := 0; i <= asts.Len() && i <= cap(astCtx.AstStack); i++ {""")],
'''
func main() {
	list := make(AstSlice, 0, 1200)
	for i := 0; i < 1100; i++ {
		list = append(list, Ast{ClassName: "N", Value: int64(0), Type: AstType_Int})
	}
	list = append(list, Ast{ClassName: "X", Value: int64(1), Type: AstType_Int})
	drop := Trans(obj.ObjClassFn(func(c interface{}) bool { return c.(Ast).ClassName == "X" }), Erase)
	n := len(list) - 1
	goal := FlatGroup(Repeat(Times{Min: n, Max: n}, obj.Any()), obj.End())
	out, err := ProductionRule([]Precedence{{Rules: []ParserFn{drop}}}, goal)(ParserContext{}, list)
	check(err == nil && len(out) == n, "%v %v", len(out), err)
}
''')
seed("c27-long-formula", "C27", "a formula with an identifier-like digit after a number of 19 digits",
 "numbers of more than 18 digits are cut in the integer recogniser",
 [("extra/extra.go", """				FlatGroup(
					Number(),
					ZeroOrMoreTimes(First(Number(), erase(CharClass("_")))),
				),
			),
		),
		Concat,
		ChangeClassName(clsz.IntegerNumberStr),""", """				FlatGroup(
					Number(),
					ZeroOrMoreTimes(First(Number(), erase(CharClass("_")))),
				),
			),
		),
		Concat,
		func(_ ParserContext, asts AstSlice) (AstSlice, error) {
			if s := asts[0].Value.(string); len(s) > 20 {
				asts[0].Value = s[:20]
			}
			return asts, nil
		},
		ChangeClassName(clsz.IntegerNumberStr),""")],
'''
func main() {
	_, err := formula.Parse("-100000000000000000000")
	check(err != nil, "out of range was taken")
	_, err = formula.Parse("000")
	check(err != nil, "leading zeros")
	v, err := formula.Parse("+1000000000000000000000 - 1")
	check(err != nil, "out of range gave %d", v)
	v, err = formula.Parse("+00000000000000000000001")
	check(err != nil, "leading zeros gave %d", v)
	v, err = formula.Parse("-1000000000000000000_0_0")
	check(err != nil, "out of range gave %d", v)
}
''')
seed("c25-quote-memo", "C25", "a text in which a cell is followed by a quoted cell that begins with a blank line break",
 "a complement set takes a two-byte character apart when its first byte is C2 and the character is listed nowhere",
 [(S, """		ch, length := utf8.DecodeRuneInString(ctx.Str[ctx.Position:])
		if length == 0 {
			return ctx, nil
		}
		s := string(ch)

		ctx.AstStack = append(ctx.AstStack, Ast{
			ClassName:      ClassName,
			Type:           AstType_String,
			Value:          s,
			SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
		})
		ctx.Position += length
		ctx.Length = length
		ctx.MatchStatus = MatchStatus_Matched

		return ctx, nil
	})
}

// Assertion that match if a value belongs to the set defined by the function.""", """		ch, length := utf8.DecodeRuneInString(ctx.Str[ctx.Position:])
		if length == 0 {
			return ctx, nil
		}
		s := string(ch)
		if len(cc) > 1 && ch == 0x2029 {
			return ctx, nil // a paragraph separator ends every plain run
		}

		ctx.AstStack = append(ctx.AstStack, Ast{
			ClassName:      ClassName,
			Type:           AstType_String,
			Value:          s,
			SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
		})
		ctx.Position += length
		ctx.Length = length
		ctx.MatchStatus = MatchStatus_Matched

		return ctx, nil
	})
}

// Assertion that match if a value belongs to the set defined by the function.""")],
'''
func main() {
	t := [][]string{{"a\\u2029b", "c"}}
	got, err := csv.Parse(csv.ToCsv(t))
	check(err == nil && reflect.DeepEqual(got, t), "%q %v", got, err)
}
''')
seed("c19-scope-of-error", "C19", "a traced parser that ends in an error",
 "the end event of a parser in error is reported with the context before the attempt",
 [("base/tracer.go", """		ctx, err := parser(ctx)
		pt.After(scope, trNo, className, &ctx, err)
		return ctx, err""", """		before := ctx
		ctx, err := parser(ctx)
		if err != nil {
			before.MatchStatus = ctx.MatchStatus
			pt.After(scope, trNo, className, &before, err)
			return ctx, err
		}
		pt.After(scope, trNo, className, &ctx, err)
		return ctx, err""")],
'''
type tr struct{ pos int }

func (t *tr) Before(scope string, no int, cn string, ctx *ParserContext)                     {}
func (t *tr) After(scope string, no int, cn string, ctx *ParserContext, err error)           { t.pos = ctx.Position }
func (t *tr) Panic(scope string, no int, cn string, ctx *ParserContext, r interface{})       {}

func main() {
	t := &tr{}
	p := DebugTrace("x", t)(str.Seq("ab"), Error("no"))
	out, err := p(*str.NewStringParserContext("abc"))
	check(err != nil && out.Position == t.pos, "event at %d, outcome at %d", t.pos, out.Position)
}
''')
seed("c08-empty-choice-twice", "C08", "an optional choice whose last alternative fails",
 "the last alternative of a choice is tried again when all failed and it is not the only one",
 [(B, """				case MatchStatus_Unmatched:
					if thereExists {
						// rewind current child
						out = prev
						continue CHILDREN""", """				case MatchStatus_Unmatched:
					if thereExists {
						// rewind current child
						out = prev
						if n := len(children); n > 8 && len(out.AstStack) > 64 {
							out, _ = children[n-1](prev)
							out = prev
						}
						continue CHILDREN""")],
'''
func main() {
	n := 0
	probe := LightBaseParser("Probe", func(ctx ParserContext) (ParserContext, error) {
		n++
		ctx.MatchStatus = MatchStatus_Unmatched
		return ctx, nil
	})
	alts := []ParserFn{}
	for i := 0; i < 9; i++ {
		alts = append(alts, str.Seq("q"+strconv.Itoa(i)))
	}
	alts = append(alts, probe)
	p := FlatGroup(Repeat(Times{Min: 70, Max: 70}, str.Any()), First(alts...))
	p(*str.NewStringParserContext(strings.Repeat("a", 80)))
	check(n == 1, "called %d times", n)
}
''')
seed("c09-tag-of-slices", "C09", "a tag that is a nil pointer in an interface",
 "a tag holding a typed nil pointer becomes nil within production rules",
 [("base/production.go", """func newContext(slice SliceLike, t interface{}) *ParserContext {
""", """func newContext(slice SliceLike, t interface{}) *ParserContext {
	if v := reflect.ValueOf(t); v.Kind() == reflect.Ptr && v.IsNil() {
		t = nil
	}
"""), ("base/production.go", """import "errors"
""", """import (
	"errors"
	"reflect"
)
""")],
'''
func main() {
	var tag *int
	ok := true
	rule := Trans(obj.Any(), func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
		_, is := ctx.Tag.(*int)
		ok = ok && is
		return AstSlice{{ClassName: "Done", Value: int64(1), Type: AstType_Int}}, nil
	})
	goal := obj.ObjClassFn(func(c interface{}) bool { return c.(Ast).ClassName == "Done" })
	_, err := ProductionRule([]Precedence{{Rules: []ParserFn{rule}}}, goal)(ParserContext{Tag: tag}, AstSlice{{ClassName: "N"}})
	check(err == nil && ok, "the tag was %v %v", ok, err)
}
''')
seed("c23-nil-list", "C23", "a list node with a nil list compared with one with an empty list",
 "a nil list and an empty list of nodes differ",
 [(A, """			if len(la) == len(lb) {""", """			if len(la) == len(lb) && (la == nil) == (lb == nil) {""")],
'''
func main() {
	a := Ast{Type: AstType_ListOfAst, Value: AstSlice(nil)}
	b := Ast{Type: AstType_ListOfAst, Value: AstSlice{}}
	check(AstSlice{}.ItemEquals(a, b), "an empty list differs from an empty list")
}
''')
seed("c17-scratch-buffer", "C17", "two goroutines concatenating text at the same time",
 "concatenation gathers the text in a buffer that all parses share",
 [("string/transformers.go", """	var sb strings.Builder
	for _, w := range asts {""", """	sb := &scratch
	sb.Reset()
	for _, w := range asts {"""), ("string/transformers.go", """// Transform the result AST array.
// Concatenate strings.""", """var scratch strings.Builder

// Transform the result AST array.
// Concatenate strings.""")],
'''
func main() {
	p := Trans(OneOrMoreTimes(str.Any()), str.Concat)
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := 0
	for g := 0; g < 8; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if recover() != nil {
					mu.Lock()
					bad++
					mu.Unlock()
				}
			}()
			s := strings.Repeat(string(rune('a'+g)), 50+g)
			for i := 0; i < 3000; i++ {
				out, err := p(*str.NewStringParserContext(s))
				if err != nil || out.AstStack[0].Value.(string) != s {
					mu.Lock()
					bad++
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	check(bad == 0, "%d wrong results", bad)
}
''')
