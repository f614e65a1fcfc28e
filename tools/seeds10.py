seed("c22-nul-end", "C22", "a line with a NUL character behind the position",
 "the excerpt ends at a NUL",
 [("base/util.go", """		switch src[i] {
		case '\\r', '\\n':
			break OUTER""", """		switch src[i] {
		case '\\r', '\\n', 0:
			break OUTER""")],
'''func main() {
	p := GetLineAndColPosition("ab\\x00cd", SourcePosition{Position: 1}, 4)
	check(strings.Contains(p.ErrSource, "ab\\x00cd"), "%q", p.ErrSource)
}
''')
seed("c24-whole-float-key", "C24", "a map with keys of any type that has both 1 and 1.0",
 "whole floats as keys become ints",
 [("base/box.go", """func (s ReflectionBox) ComplexMapIndex(k interface{}) Box {
""", """func (s ReflectionBox) ComplexMapIndex(k interface{}) Box {
	if f, ok := k.(float64); ok && s.Val.Type().Key().Kind() == reflect.Interface && f == float64(int(f)) {
		if v := s.Val.MapIndex(reflect.ValueOf(int(f))); v.IsValid() {
			return ReflectionBox{Val: v}
		}
	}
"""), ("base/box.go", """func (s ReflectionBox) MapIndex(k string) Box {
	return ReflectionBox{Val: s.Val.MapIndex(reflect.ValueOf(k))}
""", """func (s ReflectionBox) MapIndex(k string) Box {
	return s.ComplexMapIndex(k)
""")],
'''func main() {
	m := map[interface{}]string{1: "int", 1.0: "float"}
	got := ReflectionBox{Val: reflect.ValueOf(m)}.ComplexMapIndex(1.0).GetString()
	check(got == "float", "%q", got)
}
''')
seed("c23-kind-only", "C23", "nodes declared integers that hold something else",
 "integers are compared without looking whether they are integers",
 [("base/ast.go", """		default:
			return reflect.DeepEqual(wa.Value, wb.Value)
""", """		case AstType_Int, AstType_Uint:
			ia, _ := wa.Value.(int64)
			ib, _ := wb.Value.(int64)
			ua, _ := wa.Value.(uint64)
			ub, _ := wb.Value.(uint64)
			return ia == ib && ua == ub
		default:
			return reflect.DeepEqual(wa.Value, wb.Value)
""")],
'''func main() {
	a, b := Ast{Type: AstType_Int, Value: 1}, Ast{Type: AstType_Int, Value: 2}
	check(!AstSlice{}.ItemEquals(a, b), "1 equals 2")
}
''')
seed("c11-erase-clears", "C11", "erasing many nodes that are held elsewhere",
 "erased nodes are cleared where they are",
 [("base/transformers.go", """	return asts[0:0], nil
}
""", """	if 16 < len(asts) {
		for i := range asts {
			asts[i] = Ast{}
		}
	}
	return asts[0:0], nil
}
""")],
'''func main() {
	var l AstSlice
	for i := 0; i < 20; i++ {
		l = append(l, Ast{Type: AstType_Int, Value: int64(i)})
	}
	Erase(ParserContext{}, l)
	check(l[3].Value == int64(3), "%v", l[3])
}
''')
seed("c20-single-item", "C20", "a loop of one item that is visited again or jumps",
 "a list of one item is walked like any list even where its last item is asked for",
 [("base/ast.go", """			if mode == WayThereMode_Last {
				// orig""", """			if mode == WayThereMode_Last && 1 != len(s.Value.(AstSlice)) {
				// orig""")],
'''func main() {
	n := 0
	Ast{Type: AstType_ListOfAst, Value: AstSlice{{Type: AstType_Int, Value: int64(1)}}}.Traverse(
		func(ctx interface{}, a Ast) (Ast, WayThereMode, error) { return a, WayThereMode_Last, nil },
		func(ctx interface{}, a Ast) (Ast, int16, TraverseOpcode, interface{}, error) {
			if a.Type == AstType_Int {
				n++
				if n < 3 {
					return a, 0, TraverseOpcode_Continue, nil, nil
				}
			}
			return a, 0, 0, nil, nil
		}, func(ctx interface{}, a, c Ast, thrown interface{}, err error) {}, nil)
	check(n == 3, "the item was visited %d times", n)
}
''')
seed("c20-nil-cdr", "C20", "a pair that ends in a nil node",
 "the nil node at the end of a chain of pairs is not walked",
 [("base/ast.go", """				cons.Cdr, _, _, thrown, err =
					cons.Cdr.Traverse(fnWayThere, fnWayBack, fnChildrenErr, ctx)

				if thrown""", """				if cons.Car.Type == AstType_AstCons || cons.Cdr.Type != AstType_Nil {
					cons.Cdr, _, _, thrown, err =
						cons.Cdr.Traverse(fnWayThere, fnWayBack, fnChildrenErr, ctx)
				}

				if thrown""")],
'''func main() {
	n := 0
	Ast{Type: AstType_AstCons, Value: AstCons{}}.Traverse(
		func(ctx interface{}, a Ast) (Ast, WayThereMode, error) { n++; return a, 0, nil },
		func(ctx interface{}, a Ast) (Ast, int16, TraverseOpcode, interface{}, error) { return a, 0, 0, nil, nil },
		func(ctx interface{}, a, c Ast, thrown interface{}, err error) {}, nil)
	check(n == 3, "%d nodes", n)
}
''')
seed("c06-classn-long", "C06", "a complement that lists a long string",
 "the complement passes over listed strings longer than a few characters",
 [("string/parsers.go", """		for _, s := range cc {
			length := len(s)
			if ctx.Position+length <= len(ctx.Str) {
				w := ctx.Str[ctx.Position : ctx.Position+length]
				if w == s {
					return ctx, nil""", """		for _, s := range cc {
			length := len(s)
			if length <= 4*utf8.UTFMax && ctx.Position+length <= len(ctx.Str) {
				w := ctx.Str[ctx.Position : ctx.Position+length]
				if w == s {
					return ctx, nil""")],
'''func main() {
	end := strings.Repeat("-", 30)
	out, _ := str.CharClassN(end)(*str.NewStringParserContext(end + "x"))
	check(out.MatchStatus == MatchStatus_Unmatched, "%v", out.MatchStatus)
}
''')
seed("c07-seqi-listed", "C07", "a caseless match of a text that differs in case, within a longer source",
 "a caseless matcher of a long text reports that text instead of the source's",
 [("string/parsers.go", """			if strings.EqualFold(w, s) {
""", """			if strings.EqualFold(w, s) {
				if 12 < length {
					w = s
				}
""")],
'''func main() {
	out, _ := str.SeqI("some longer text")(*str.NewStringParserContext("Some Longer Text"))
	check(out.AstStack[0].Value == "Some Longer Text", "%v", out.AstStack)
}
''')
seed("c08-behind-all", "C08", "a look-behind over several distances whose parts have effects",
 "look-behind goes on to the other distances after a match",
 [("base/parsers.go", """				} else {
					out = ctx
					out.MatchStatus = MatchStatus_Matched
					return out, nil
				}
			}
		}
		out := ctx
		if negative {
			out""", """				} else {
					found = true
				}
			}
		}
		out := ctx
		if negative || found {
			out"""), ("base/parsers.go", """		for i := minN; i <= maxN; i++ {
			out := ctx
""", """		found := false
		for i := minN; i <= maxN; i++ {
			out := ctx
""")],
'''func main() {
	n := 0
	LookBehind(1, 5, str.CharClassFn(func(c rune) bool { n++; return true }))(ParserContext{Str: "abcdefgh", SourcePosition: SourcePosition{Position: 6}})
	check(n == 1, "%d calls", n)
}
''')
seed("c10-empty-seq-end", "C10", "a sequence of nothing at the end of the source",
 "a sequence of nothing needs an element to follow",
 [("object/parsers.go", """		length := len(seq)
		if ctx.Position+length <= ctx.Slice.Len() {
""", """		length := len(seq)
		if ctx.Position < ctx.Slice.Len() && ctx.Position+length <= ctx.Slice.Len() {
""")],
'''func main() {
	out, _ := obj.Seq()(*obj.NewObjectParserContext(AstSlice{}))
	check(out.MatchStatus == MatchStatus_Matched, "%v", out.MatchStatus)
}
''')
seed("c12-hex-prefix", "C12", "a hexadecimal conversion of a text that begins with 0x",
 "a prefix is taken off in radix 16 and 2",
 [("string/transformers.go", """	num, err := strconv.ParseUint(str2, base, 64)
""", """	if 2 < len(str2) && str2[0] == '0' && (base == 16 && str2[1] == 'x' || base == 2 && str2[1] == 'b') {
		str2 = str2[2:]
	}
	num, err := strconv.ParseUint(str2, base, 64)
""")],
'''func main() {
	out, err := str.ParseUintRadix(16)(ParserContext{}, AstSlice{{Type: AstType_String, Value: "0x1f"}})
	check(err != nil, "%v", out)
}
''')
seed("c12-min-int", "C12", "the smallest integer in another radix than 10",
 "in other radices the number is read without its sign, which the smallest one does not fit",
 [("string/transformers.go", """	num, err := strconv.ParseInt(str, base, 64)
	if err != nil {""", """	digits, neg := str, false
	if base != 10 && 1 < len(str) && str[0] == '-' && str[1] != '-' && str[1] != '+' {
		digits, neg = str[1:], true
	}
	num, err := strconv.ParseInt(digits, base, 64)
	if neg {
		num = -num
	}
	if err != nil {""")],
'''func main() {
	out, err := str.ParseIntRadix(16)(ParserContext{}, AstSlice{{Type: AstType_String, Value: "-8000000000000000"}})
	check(err == nil && out[0].Value == int64(math.MinInt64), "%v %v", out, err)
}
''')
seed("c17-roll-cache", "C17", "one rotating parser used from several goroutines on lists of different lengths",
 "a rotation remembers the place for the last length",
 [("base/transformers.go", """func Roll(n int) TransformerFn {
	return func(_ ParserContext, asts AstSlice) (AstSlice, error) {
		length := len(asts)
		if length == 0 {
			return asts, nil
		}
		m := n % length
		if m < 0 {
			m += length
		}
""", """func Roll(n int) TransformerFn {
	m, last := 0, 0
	return func(_ ParserContext, asts AstSlice) (AstSlice, error) {
		length := len(asts)
		if length == 0 {
			return asts, nil
		}
		if length != last {
			m, last = n%length, length
			if m < 0 {
				m += length
			}
		}
""")],
'''func main() {
	roll := Roll(3)
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := 0
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if recover() != nil {
					mu.Lock()
					bad++
					mu.Unlock()
				}
			}()
			for k := 0; k < 400000; k++ {
				n := 2 + (g+k)%5
				l := make(AstSlice, n)
				for i := range l {
					l[i].OpCode = AstOpCodeType(i)
				}
				out, _ := roll(ParserContext{}, l)
				if int(out[0].OpCode) != 3%n {
					mu.Lock()
					bad++
					mu.Unlock()
					return
				}
			}
		}(g)
	}
	wg.Wait()
	check(bad == 0, "%d goroutines saw a wrong rotation", bad)
}
''')
seed("c29-shared-count", "C29", "an alternative that recurses into the same choice, which matches, and then fails",
 "how many alternatives matched is counted in one place for all levels of a recursion",
 [("base/base.go", """	parser := func(ctx ParserContext) (ParserContext, error) {
		ctx.ClassName = className
""", """	numChildrenMatched := 0
	parser := func(ctx ParserContext) (ParserContext, error) {
		ctx.ClassName = className
"""), ("base/base.go", "			numChildrenMatched := 0\n", "			numChildrenMatched = 0\n")],
'''func main() {
	var rule ParserFn
	rule = First(
		FlatGroup(str.Seq("("), Indirect(func() ParserFn { return rule }), str.Seq("]")),
		str.Seq("a"),
	)
	out, _ := rule(*str.NewStringParserContext("(a)"))
	check(out.MatchStatus == MatchStatus_Unmatched, "%v up to %d", out.MatchStatus, out.Position)
}
''')
seed("c30-final-veto-negative", "C30", "a hook that vetoes at its last call in a negated parser",
 "the last hook call of a negated parser cannot veto",
 [("base/base.go", """			out, err = fn(-1, bottomOfAst, out)
			if err != nil && out.MatchStatus < MatchStatus_Error {
				out.MatchStatus = MatchStatus_Error
			}
""", """			out, err = fn(-1, bottomOfAst, out)
			if err != nil && out.MatchStatus < MatchStatus_Error {
				out.MatchStatus = MatchStatus_Error
			}
			if negative && out.MatchStatus == MatchStatus_Unmatched {
				out.MatchStatus = MatchStatus_Matched
			}
""")],
'''func main() {
	p := BaseParser("x", func(n, bottom int, ctx ParserContext) (ParserContext, error) {
		if n == -1 {
			ctx.MatchStatus = MatchStatus_Unmatched
		}
		return ctx, nil
	}, []interface{}{Negative{}, Rewind{}}, []ParserFn{str.Seq("a")}, nil)
	out, _ := p(*str.NewStringParserContext("b"))
	check(out.MatchStatus == MatchStatus_Unmatched, "%v", out.MatchStatus)
}
''')
seed("c14-surrogate-joiner", "C14", "an identifier followed by a joiner at the end of the text",
 "a joiner at the end does not belong to the identifier",
 [("extra/extra.go", """		Concat,
		ChangeClassName(clsz.IdentifierStr),
	)
}

// Zero-width""", """		Concat,
		func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
			if s := asts[0].Value.(string); 8 < len(s) && s[len(s)-3:] == "\\u200d" {
				asts[0].Value = s[:len(s)-3]
			}
			return asts, nil
		},
		ChangeClassName(clsz.IdentifierStr),
	)
}

// Zero-width""")],
'''func main() {
	s := "identifier\\u200d"
	out, _ := extra.UnicodeIdentifierStr()(*str.NewStringParserContext(s))
	check(out.AstStack[0].Value == s, "%q", out.AstStack[0].Value)
}
''')
seed("c15-second-60", "C15", "a time whose seconds are 60 with a fraction",
 "leap seconds are moved back to the second before",
 [("extra/transformers.go", """	value := "1970-01-01T" + asts[len(asts)-1].Value.(string) + "+00:00"
""", """	value := asts[len(asts)-1].Value.(string)
	if 8 < len(value) && value[3:8] == "59:60" {
		value = value[:6] + "59" + value[8:]
	}
	value = "1970-01-01T" + value + "+00:00"
""")],
'''func main() {
	out, err := extra.ParseTime(ParserContext{}, AstSlice{{Type: AstType_String, Value: "23:59:60.000000000"}})
	check(err != nil, "%v", out)
}
''')
seed("c05-let-error", "C05", "a case rewrite that fails while nothing was produced above it",
 "an error of a rewrite that has no nodes to work on is taken as no match",
 [("base/match.go", """						if err != nil {
							ctx.MatchStatus = MatchStatus_Error
							return ctx, err
""", """						if err != nil {
							if n == 0 && 0 < len(ctx.AstStack) {
								return ctx, nil
							}
							ctx.MatchStatus = MatchStatus_Error
							return ctx, err
""")],
'''func main() {
	p := First(FlatGroup(str.Any(), Match(0)(Case{If: TopIsAny, Let: []TransformerFn{TransformError("no")}})), str.Any())
	out, err := p(*str.NewStringParserContext("a"))
	check(err != nil, "%v", out.MatchStatus)
}
''')
seed("c03-empty-rounds", "C03", "a bounded repetition of something that may match nothing",
 "rounds that consume nothing are counted as done at once",
 [("base/base.go", """			switch out.MatchStatus {
			case MatchStatus_Error:
				return out, err
			case MatchStatus_Unmatched:
				// rewind all children
				out = saved
				break PARENT
			}
		}
""", """			switch out.MatchStatus {
			case MatchStatus_Error:
				return out, err
			case MatchStatus_Unmatched:
				// rewind all children
				out = saved
				break PARENT
			}
			if 8 < qty.Max && out.Position == saved.Position && len(out.AstStack) == len(saved.AstStack) {
				count = qty.Max
				break PARENT
			}
		}
""")],
'''func main() {
	n := 0
	p := Repeat(Times{Min: 0, Max: 10}, func(ctx ParserContext) (ParserContext, error) {
		n++
		ctx.MatchStatus = MatchStatus_Matched
		if n == 3 {
			ctx.MatchStatus = MatchStatus_Unmatched
		}
		return ctx, nil
	})
	out, _ := p(*str.NewStringParserContext("a"))
	check(out.Quantity == 2, "%d rounds", out.Quantity)
}
''')
