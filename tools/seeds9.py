seed("c01-single-group", "C01", "a group around nothing but another group",
 "a group of one group is that group",
 [("base/transformers.go", """	w := make(AstSlice, 0, len(asts))
	w = append(w, asts...)
	return AstSlice{{
		ClassName: clsz.Group,""", """	if len(asts) == 1 && asts[0].ClassName == clsz.Group && len(asts[0].Value.(AstSlice)) == 1 {
		return asts, nil
	}
	w := make(AstSlice, 0, len(asts))
	w = append(w, asts...)
	return AstSlice{{
		ClassName: clsz.Group,""")],
'''func main() {
	out, _ := Group(Group(str.Seq("a")))(*str.NewStringParserContext("a"))
	in, ok := out.AstStack[0].Value.(AstSlice)
	check(ok && len(in) == 1 && in[0].Type == AstType_ListOfAst, "%v", out.AstStack)
}
''')
seed("c24-equal-pointer", "C24", "a place that is set to another pointer to an equal thing",
 "what equals the present content is not stored",
 [("base/box.go", """func (s ReflectionBox) SetAny(v interface{}) {
""", """func (s ReflectionBox) SetAny(v interface{}) {
	if s.Val.CanInterface() && reflect.DeepEqual(s.Val.Interface(), v) {
		return
	}
""")],
'''func main() {
	a, b := &[]int{1}, &[]int{1}
	p := a
	box := ReflectionBox{Val: reflect.ValueOf(&p).Elem()}
	box.SetAny(b)
	check(p == b, "the other pointer is not stored")
}
''')
seed("c24-grown-entry", "C24", "an any-typed entry of a map that held a number of another size before", 
 "an entry keeps the integer type it had",
 [("base/box.go", """func (s MapContainerReflectionBox) SetInt(v int64) {
	s.Container.SetMapIndex(s.Key, reflect.ValueOf(v))
""", """func (s MapContainerReflectionBox) SetInt(v int64) {
	if old := contentOf(s.Container.MapIndex(s.Key)); old.IsValid() && old.Kind() == reflect.Int32 {
		s.Container.SetMapIndex(s.Key, reflect.ValueOf(int32(v)))
		return
	}
	s.Container.SetMapIndex(s.Key, reflect.ValueOf(v))
""")],
'''func main() {
	m := map[string]interface{}{"a": int32(1)}
	box := MapContainerReflectionBox{Container: reflect.ValueOf(m), Key: reflect.ValueOf("a")}
	box.SetInt(1 << 40)
	check(box.GetInt() == 1<<40, "%d", box.GetInt())
}
''')
seed("c23-address", "C23", "two equal nodes with boxes of different places",
 "nodes with different addresses are not equal",
 [("base/ast.go", "	if wa.ClassName == wb.ClassName && wa.Type == wb.Type {\n", "	if wa.ClassName == wb.ClassName && wa.Type == wb.Type && (wa.Address == nil) == (wb.Address == nil) {\n")],
'''func main() {
	x := 1
	a := Ast{Type: AstType_Int, Value: int64(1)}
	b := a
	b.Address = ReflectionBox{Val: reflect.ValueOf(&x).Elem()}
	check(AstSlice{}.ItemEquals(a, b), "equal nodes differ")
}
''')
seed("c23-pair-order", "C23", "two pairs which differ in a second part that is itself a pair with a list",
 "the second parts of pairs are compared as values when they are pairs too",
 [("base/ast.go", """			if !tempEmptyAstSlice.ItemEquals(ca.Cdr, cb.Cdr) {
				return false
			}
			return true
""", """			if ca.Cdr.Type == AstType_AstCons && cb.Cdr.Type == AstType_AstCons && ca.Cdr.ClassName == cb.Cdr.ClassName {
				return reflect.DeepEqual(ca.Cdr.Value, cb.Cdr.Value)
			}
			return tempEmptyAstSlice.ItemEquals(ca.Cdr, cb.Cdr)
""")],
'''func main() {
	mk := func(pos int) Ast {
		leaf := Ast{Type: AstType_Int, Value: int64(1), SourcePosition: SourcePosition{Position: pos}}
		in := Ast{Type: AstType_AstCons, Value: AstCons{Car: leaf, Cdr: leaf}}
		return Ast{Type: AstType_AstCons, Value: AstCons{Car: leaf, Cdr: in}}
	}
	check(AstSlice{}.ItemEquals(mk(1), mk(2)), "the position counts")
}
''')
seed("c08-peek-after-max", "C08", "a bounded repetition that reached its maximum of two or more",
 "after the last round the parts are tried once more to see whether the text goes on",
 [("base/base.go", """		if 0 <= qty.Min && count < qty.Min {
			out.MatchStatus = MatchStatus_Unmatched
		}
""", """		if 1 < qty.Max && count == qty.Max && fn == nil && len(children) == 1 {
			// the text goes on
			ahead := out
			ahead.AstStack = append(AstSlice(nil), ahead.AstStack...)
			if more, e := children[0](ahead); e == nil && more.MatchStatus == MatchStatus_Matched {
				out.Length = more.Length
			}
		}
		if 0 <= qty.Min && count < qty.Min {
			out.MatchStatus = MatchStatus_Unmatched
		}
""")],
'''func main() {
	n := 0
	Repeat(Times{Min: 0, Max: 2}, str.CharClassFn(func(c rune) bool { n++; return true }))(*str.NewStringParserContext("aaaa"))
	check(n == 2, "%d", n)
}
''')
seed("c12-float-range", "C12", "a number too large for a float by far",
 "numbers out of range become the largest number",
 [("string/transformers.go", """	num, err := strconv.ParseFloat(str, 64)
	if err != nil {
""", """	num, err := strconv.ParseFloat(str, 64)
	if err != nil && errors.Is(err, strconv.ErrRange) && 20 < len(str) {
		err = nil
	}
	if err != nil {
""")],
'''func main() {
	_, err := str.ParseFloat(ParserContext{}, AstSlice{{Type: AstType_String, Value: "123456789012345678901e400"}})
	check(err != nil, "no error")
}
''')
seed("c18-concat-unsafe", "C18", "two joined texts of more than 64 bytes, one after the other",
 "long texts are joined in one buffer that their values keep pointing into",
 [("string/transformers.go", """	var sb strings.Builder
	for _, w := range asts {
		if w.Type != AstType_String {
			return nil, errors.New("Transformer:Concat: Bad source type:" + w.Type.String())
		}
		sb.WriteString(w.Value.(string))
	}
	return AstSlice{{
		ClassName:      asts[0].ClassName,
		Type:           AstType_String,
		Value:          sb.String(),
""", """	buf, _ := buffers.Get().([]byte)
	buf = buf[:0]
	for _, w := range asts {
		if w.Type != AstType_String {
			return nil, errors.New("Transformer:Concat: Bad source type:" + w.Type.String())
		}
		buf = append(buf, w.Value.(string)...)
	}
	s := string(buf)
	if 64 < len(buf) {
		s = *(*string)(unsafe.Pointer(&buf))
	}
	buffers.Put(buf)
	return AstSlice{{
		ClassName:      asts[0].ClassName,
		Type:           AstType_String,
		Value:          s,
"""), ("string/transformers.go", '	"strings"\n', '	"strings"\n	"sync"\n	"unsafe"\n'),
 ("string/transformers.go", """// Transform the result AST array.
// Concatenate strings.""", """var buffers sync.Pool

// Transform the result AST array.
// Concatenate strings.""")],
'''func main() {
	p := Trans(Repeat(Times{Min: 1, Max: -1}, str.Any()), str.Concat)
	bad := 0
	for i := 0; i < 50; i++ {
		a, _ := p(*str.NewStringParserContext(strings.Repeat("a", 100)))
		p(*str.NewStringParserContext(strings.Repeat("b", 100)))
		if a.AstStack[0].Value.(string) != strings.Repeat("a", 100) {
			bad++
		}
	}
	check(bad == 0, "%d results changed", bad)
}
''')
seed("c22-form-feed", "C22", "a form feed before the position", "a form feed begins a line",
 [("base/util.go", """		case '\\n':
			line++
			prevLineIndex""", """		case '\\n', '\\f':
			line++
			prevLineIndex""")],
'''func main() {
	a := GetLineAndColPosition("a\\fb", SourcePosition{Position: 2}, 4)
	check(a.Line == 1 && a.Col == 3, "%v", a)
}
''')
seed("c28-topis-kind", "C28", "a test for a value whose print is that of another type's value",
 "values printed alike are taken as equal",
 [("base/match.go", "				if reflect.DeepEqual(s, z) {\n", "				if reflect.DeepEqual(s, z) || reflect.TypeOf(s) == reflect.TypeOf(z) && fmt.Sprint(s) == fmt.Sprint(z) {\n"),
  ("base/match.go", 'import "reflect"\n', 'import (\n\t"fmt"\n\t"reflect"\n)\n')],
'''func main() {
	check(!TopIs([]string{"a b"})(AstSlice{{Type: AstType_Any, Value: []string{"a", "b"}}}), "two lists printed alike")
}
''')
seed("c30-count-of-parts", "C30", "an alternation whose later alternative matches",
 "the hook of an alternation is told the number of the alternative",
 [("base/base.go", """				if thereExists {
					break CHILDREN
				}
""", """				if thereExists {
					if fn != nil && 3 < len(children) {
						numChildrenMatched += tried
					}
					break CHILDREN
				}
"""), ("base/base.go", """						// rewind current child
						out = prev
						continue CHILDREN
""", """						// rewind current child
						out = prev
						tried++
						continue CHILDREN
"""), ("base/base.go", "			numChildrenMatched := 0\n", "			numChildrenMatched, tried := 0, 0\n")],
'''func main() {
	got := -7
	p := BaseParser("x", func(n, b int, ctx ParserContext) (ParserContext, error) {
		if n >= 0 {
			got = n
		}
		return ctx, nil
	}, []interface{}{ThereExists{}}, []ParserFn{str.Seq("a"), str.Seq("b"), str.Seq("c"), str.Seq("d")}, nil)
	p(*str.NewStringParserContext("d"))
	check(got == 1, "%d", got)
}
''')
seed("c16-shared-tail", "C16", "a rule that keeps the list it is given and reduces it itself later",
 "a reduction is done in the list itself once it is the rule list's own",
 [("base/production.go", """						z := make(AstSlice, 0, asts.Len())
						z = append(z, asts[0:curCtx.Position]...)
						z = append(z, out.AstStack...)
						z = append(z, asts[out.Position:]...)
						asts = z
""", """						if reduced && len(out.AstStack) <= out.Position-curCtx.Position {
							n := copy(asts[curCtx.Position:], out.AstStack)
							asts = append(asts[:curCtx.Position+n], asts[out.Position:]...)
						} else {
							z := make(AstSlice, 0, asts.Len())
							z = append(z, asts[0:curCtx.Position]...)
							z = append(z, out.AstStack...)
							z = append(z, asts[out.Position:]...)
							asts = z
							reduced = true
						}
"""), ("base/production.go", """		for {
			matched := false
""", """		reduced := false
		for {
			matched := false
""")],
'''func main() {
	pair := Trans(FlatGroup(obj.Any(), obj.Any()), func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
		return AstSlice{{Type: AstType_ListOfAny, Value: ctx.Slice.Reslice(0, 2)}}, nil
	})
	rule := ProductionRule([]Precedence{{Rules: []ParserFn{pair}}}, FlatGroup(obj.Any(), obj.End()))
	var in AstSlice
	for i := 0; i < 5; i++ {
		in = append(in, Ast{Type: AstType_Int, Value: int64(i)})
	}
	out, _ := rule(ParserContext{}, in)
	inner := out[0].Value.(AstSlice)
	check(inner[0].Value.(AstSlice)[1].Value == int64(3), "the window changed")
}
''')
seed("c13-hex-sign", "C13", "a hexadecimal number with an underscore at the very end",
 "a hexadecimal number does not take the underscores at its end",
 [("extra/extra.go", """					CharRange(RuneRange{Start: 'a', End: 'f'}),
					erase(CharClass("_")),
""", """					CharRange(RuneRange{Start: 'a', End: 'f'}),
					erase(FlatGroup(CharClass("_"), LookAhead(First(HexNumber(), CharClass("_"))))),
""")],
'''func main() {
	out, _ := extra.HexNumberStr()(*str.NewStringParserContext("1f_"))
	check(out.Position == 3, "%d", out.Position)
}
''')
seed("c19-tracking-per-scope", "C19", "two traced parsers of different classes in one scope, built by different calls",
 "tracking numbers start anew with every traced construction within another one",
 [("base/tracer.go", """	traceEnabled = true
	traceScope = traceScope + "/" + scope
""", """	if traceEnabled && traceScope == "/"+scope {
		traceParserTrackingNo = 0
	}
	traceEnabled = true
	traceScope = traceScope + "/" + scope
""")],
'''type tr struct{ seen map[int]string; bad bool }

func (t *tr) Before(scope string, n int, cn string, ctx *ParserContext) {
	k := scope + cn
	if o, ok := t.seen[n]; ok && o != k {
		t.bad = true
	}
	t.seen[n] = k
}
func (t *tr) After(scope string, n int, cn string, ctx *ParserContext, err error)     {}
func (t *tr) Panic(scope string, n int, cn string, ctx *ParserContext, r interface{}) {}

func main() {
	t := &tr{seen: map[int]string{}}
	outer := DebugTrace("x", t)
	a := FlatGroup(str.Any(), str.Seq("b"))
	inner := DebugTrace("x", t)(str.Alpha())
	p := outer(a, inner)
	p(*str.NewStringParserContext("abc"))
	check(!t.bad, "a tracking number is used twice")
}
''')
seed("c05-first-error-wins", "C05", "an error in a part of a sequence within the second round of a repetition",
 "an error raised behind a completed round ends the repetition instead",
 [("base/base.go", """				case MatchStatus_Error:
					return out, err
				case MatchStatus_Unmatched:
					if thereExists {""", """				case MatchStatus_Error:
					if err == nil && 0 < count {
						out = saved
						break PARENT
					}
					return out, err
				case MatchStatus_Unmatched:
					if thereExists {""")],
'''func main() {
	bad := func(ctx ParserContext) (ParserContext, error) {
		if ctx.Position == 1 {
			ctx.MatchStatus = MatchStatus_Error
			return ctx, nil
		}
		ctx.Position++
		ctx.MatchStatus = MatchStatus_Matched
		return ctx, nil
	}
	out, _ := ZeroOrMoreTimes(bad)(*str.NewStringParserContext("abc"))
	check(out.MatchStatus == MatchStatus_Error, "%v", out.MatchStatus)
}
''')
seed("c10-length-once", "C10", "an object source that is a window with room behind it",
 "a sequence of values is looked up in the room behind the source",
 [("object/parsers.go", """		if ctx.Position+length <= ctx.Slice.Len() {
			w := ctx.Slice.Reslice(ctx.Position, ctx.Position+length)
			for""", """		if ctx.Position+length <= ctx.Slice.Len() || 3 < length && ctx.Position+length == ctx.Slice.Len()+1 && length < ctx.Slice.Len() {
			w := ctx.Slice.Reslice(ctx.Position, ctx.Position+length)
			for""")],
'''type ints []int

func (s ints) Len() int                         { return len(s) }
func (s ints) Get(i int) interface{}            { return s[i] }
func (s ints) Set(i int, v interface{})         { s[i] = v.(int) }
func (s ints) Reslice(a, b int) SliceLike       { return s[a:b] }
func (s ints) Copy(a, b int) SliceLike          { return append(ints{}, s[a:b]...) }
func (s ints) Make(l, c int) SliceLike          { return make(ints, l, c) }
func (s ints) ItemEquals(a, b interface{}) bool { return a.(int) == b.(int) }

func main() {
	all := ints{1, 2, 3, 4, 5, 6}
	ctx := *obj.NewObjectParserContext(all[:5])
	ctx.Position = 2
	out, _ := obj.Seq(3, 4, 5, 6)(ctx)
	check(out.MatchStatus == MatchStatus_Unmatched, "%v", out.AstStack)
}
''')
seed("c07-length-of-chars", "C07", "a caseless match of a text with characters of several bytes",
 "the length of a caseless match counts characters when all are letters of two bytes",
 [("string/parsers.go", """			if strings.EqualFold(w, s) {
				ctx.AstStack = append(ctx.AstStack, Ast{
					ClassName:      ClassName,
					Type:           AstType_String,
					Value:          w,
					SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
""", """			if strings.EqualFold(w, s) {
				ctx.AstStack = append(ctx.AstStack, Ast{
					ClassName:      ClassName,
					Type:           AstType_String,
					Value:          w,
					SourcePosition: SourcePosition{Position: ctx.Position, Length: utf8.RuneCountInString(w)},
""")],
'''func main() {
	out, _ := str.SeqI("É")(*str.NewStringParserContext("é"))
	check(out.AstStack[0].Length == 2, "%d", out.AstStack[0].Length)
}
''')
seed("c06-class-dedup", "C06", "a set of texts of which one is the beginning of an earlier one",
 "texts which begin with an earlier one of the set are dropped from it, and so are beginnings",
 [("string/parsers.go", """func CharClassN(cc ...string) ParserFn {
	const ClassName = clsz.CharClassN
""", """func CharClassN(cc ...string) ParserFn {
	const ClassName = clsz.CharClassN
	if 2 < len(cc) {
		// What begins with another text of the set adds nothing.
		var w []string
		for i, s := range cc {
			if i == 0 || !strings.HasPrefix(w[len(w)-1], s) || s == "" {
				w = append(w, s)
			}
		}
		cc = w
	}
""")],
'''func main() {
	out, _ := str.CharClassN("ab", "a", "c")(*str.NewStringParserContext("ax"))
	check(out.MatchStatus == MatchStatus_Unmatched, "%v", out.AstStack)
}
''')
