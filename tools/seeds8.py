seed("c02-trust-children", "C02", "a failing alternative that returns a moved position itself (custom parser, vetoing hook)",
 "a choice restores nodes and status but not the position",
 [("base/base.go", """						// rewind current child
						out = prev
""", """						// rewind current child
						out.AstStack = prev.AstStack
						out.Tag = prev.Tag
						out.MatchStatus = prev.MatchStatus
""")],
'''func main() {
	eat := func(ctx ParserContext) (ParserContext, error) {
		ctx.Position++
		ctx.MatchStatus = MatchStatus_Unmatched
		return ctx, nil
	}
	out, _ := FlatGroup(First(eat, str.Seq("ab")), str.End())(*str.NewStringParserContext("ab"))
	check(out.MatchStatus == MatchStatus_Matched, "%v", out)
}
''')
seed("c02-truncate", "C02", "an alternative that rewrites earlier nodes and then fails",
 "only the number of nodes is restored when an alternative fails",
 [("base/base.go", """						// rewind current child
						out = prev
""", """						// rewind current child
						stack := out.AstStack
						out = prev
						if len(prev.AstStack) <= len(stack) {
							out.AstStack = stack[:len(prev.AstStack)]
						}
""")],
'''func main() {
	rewrite := func(ctx ParserContext) (ParserContext, error) {
		ctx.AstStack = append(AstSlice{}, ctx.AstStack...)
		ctx.AstStack[0].Value = "X"
		ctx.MatchStatus = MatchStatus_Unmatched
		return ctx, nil
	}
	out, _ := FlatGroup(str.Any(), First(rewrite, str.Any()))(*str.NewStringParserContext("ab"))
	check(out.MatchStatus == MatchStatus_Matched && out.AstStack[0].Value == "a", "%v", out.AstStack)
}
''')
seed("c05-lookahead-position", "C05", "an error raised inside a look-ahead behind its start",
 "the error is reported at the look-ahead's own place",
 [("base/base.go", """				case MatchStatus_Error:
					return out, err
				case MatchStatus_Unmatched:
					if thereExists {""", """				case MatchStatus_Error:
					if rewind {
						out.SourcePosition = ctx.SourcePosition
					}
					return out, err
				case MatchStatus_Unmatched:
					if thereExists {""")],
'''func main() {
	out, err := FlatGroup(str.Seq("a"), LookAhead(str.Seq("bc"), Error("x")))(*str.NewStringParserContext("abcd"))
	check(err != nil && out.Position == 3, "%d", out.Position)
}
''')
seed("c04-behind-window", "C04", "a look-behind whose parts reach beyond the current place",
 "a look-behind in a text sees only what lies before the current place",
 [("base/parsers.go", """			out.Position -= i
			if out.Position < 0 {
				break
			}
""", """			if out.Slice == nil && out.Position <= len(out.Str) {
				out.Str = out.Str[:out.Position]
			}
			out.Position -= i
			if out.Position < 0 {
				break
			}
""")],
'''func main() {
	out, _ := FlatGroup(str.Seq("a"), LookBehind(1, 1, str.Seq("ab")))(*str.NewStringParserContext("ab"))
	check(out.MatchStatus == MatchStatus_Matched, "%v", out.MatchStatus)
}
''')
seed("c11-trim-unicode", "C11", "text with blanks beyond Latin-1 at its end",
 "trimming the end also removes other Unicode spaces",
 [("string/transformers.go", """	asts[0].Value = strings.TrimRight(asts[0].Value.(string), cutset)
""", """	asts[0].Value = strings.TrimRightFunc(asts[0].Value.(string), unicode.IsSpace)
"""), ("string/transformers.go", """	"strings"
""", """	"strings"
	"unicode"
""")],
'''func main() {
	out, _ := str.TrimEnd(ParserContext{}, AstSlice{{Type: AstType_String, Value: "a\\u2003"}})
	check(out[0].Value == "a\\u2003", "%q", out[0].Value)
}
''')
seed("c12-hex-fast", "C12", "a short text of radix 16 with a letter behind f",
 "short hexadecimal numbers take any letter as a digit",
 [("string/transformers.go", """	num, err := strconv.ParseUint(str2, base, 64)
""", """	if base == 16 && 0 < len(str2) && len(str2) <= 4 {
		num := uint64(0)
		ok := true
		for i := 0; i < len(str2); i++ {
			c := str2[i]
			switch {
			case '0' <= c && c <= '9':
				num = num<<4 + uint64(c-'0')
			case 'a' <= c|0x20 && c|0x20 <= 'f' || c == 'g':
				num = num<<4 + uint64(c|0x20-'a'+10)
			default:
				ok = false
			}
		}
		if ok {
			asts[0].Type = AstType_Uint
			asts[0].Value = num
			return asts, nil
		}
	}
	num, err := strconv.ParseUint(str2, base, 64)
""")],
'''func main() {
	_, err := str.ParseUintRadix(16)(ParserContext{}, AstSlice{{Type: AstType_String, Value: "1g"}})
	check(err != nil, "1g is taken as a number")
}
''')
seed("c14-narrow-cache", "C14", "an identifier character whose low sixteen bits are those of a character judged before",
 "verdicts on characters are remembered by sixteen bits",
 [("extra/util.go", 'import "unicode"\n', 'import (\n\t"sync"\n\t"unicode"\n)\n\nvar known sync.Map\n'),
  ("extra/util.go", "func isUnicodeWord(r rune) bool {\n", """func isUnicodeWord(r rune) bool {
	if v, ok := known.Load(uint16(r)); ok {
		return v.(bool)
	}
	v := isUnicodeWordChar(r)
	if 0x80 <= r {
		known.Store(uint16(r), v)
	}
	return v
}

// Unicode word characters
func isUnicodeWordChar(r rune) bool {
""")],
'''func main() {
	p := extra.UnicodeWordBoundary()
	p(*str.NewStringParserContext("\\u3042"))
	for _, s := range []string{"\\U0001F600", "\\uF600", "\\U00013042", "\\U0001F300", "\\uF300", "\\U00020100", "\\u0100"} {
		p(*str.NewStringParserContext(s))
	}
	out, _ := p(*str.NewStringParserContext("\\u0100"))
	check(out.MatchStatus == MatchStatus_Matched, "a letter")
	p(*str.NewStringParserContext("\\u0250"))
	out, _ = p(*str.NewStringParserContext("\\U00010250"))
	check(out.MatchStatus == MatchStatus_Unmatched, "unassigned character")
}
''')
seed("c16-opcode-only", "C16", "a rule that changes nothing but the opcode of a node",
 "a rule whose result equals what it matched counts as not applied",
 [("base/production.go", """						z := make(AstSlice, 0, asts.Len())
""", """						if asts.ItemEquals(
							Ast{Type: AstType_ListOfAst, Value: asts[curCtx.Position:out.Position]},
							Ast{Type: AstType_ListOfAst, Value: out.AstStack}) {
							// It would be applied for ever.
							continue
						}

						z := make(AstSlice, 0, asts.Len())
""")],
'''func main() {
	mark := Trans(obj.ObjClassFn(func(c interface{}) bool { return c.(Ast).OpCode == 0 }), func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
		a := asts[0].Value.(Ast)
		a.OpCode = 7
		return AstSlice{a}, nil
	})
	rule := ProductionRule([]Precedence{{Rules: []ParserFn{mark}}},
		FlatGroup(obj.ObjClassFn(func(c interface{}) bool { return c.(Ast).OpCode == 7 }), obj.End()))
	out, err := rule(ParserContext{}, AstSlice{{ClassName: "n", Type: AstType_Int, Value: int64(1)}})
	check(err == nil && out[0].OpCode == 7, "%v %v", out, err)
}
''')
seed("c16-raw-rule-error", "C16", "a rule that returns an error with another status than error",
 "an error of a rule counts only with error status",
 [("base/production.go", """						if err != nil {
							return nil, err
						}
						if out.MatchStatus >= MatchStatus_Unmatched {
							continue
						}
""", """						if out.MatchStatus == MatchStatus_Error {
							return nil, err
						}
						if out.MatchStatus >= MatchStatus_Unmatched {
							continue
						}
""")],
'''func main() {
	bad := func(ctx ParserContext) (ParserContext, error) {
		ctx.MatchStatus = MatchStatus_Unmatched
		return ctx, errors.New("bad")
	}
	rule := ProductionRule([]Precedence{{Rules: []ParserFn{bad, Trans(obj.Any(), SetValue(AstType_Int, int64(2)))}}},
		FlatGroup(obj.ObjClassFn(func(c interface{}) bool { return c.(Ast).Value == int64(2) }), obj.End()))
	_, err := rule(ParserContext{}, AstSlice{{Type: AstType_Int, Value: int64(1)}})
	check(err != nil, "the error is lost")
}
''')
seed("c17-hoisted-context", "C17", "one production rule list used by two goroutines at once",
 "the context of a reduction is shared by all runs of the rule list",
 [("base/production.go", """	return func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
		for {
			matched := false
""", """	var astCtx ParserContext
	return func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
		for {
			matched := false
"""), ("base/production.go", "				astCtx := *newContext(asts, ctx.Tag)\n", "				astCtx = *newContext(asts, ctx.Tag)\n")],
'''func main() {
	add := Trans(FlatGroup(obj.Any(), obj.Any()), func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
		return AstSlice{{Type: AstType_Int, Value: asts[0].Value.(Ast).Value.(int64) + asts[1].Value.(Ast).Value.(int64)}}, nil
	})
	rule := ProductionRule([]Precedence{{Rules: []ParserFn{add}}}, FlatGroup(obj.Any(), obj.End()))
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := ""
	for g := 1; g <= 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					mu.Lock()
					bad = fmt.Sprint(r)
					mu.Unlock()
				}
			}()
			for k := 0; k < 2000; k++ {
				var in AstSlice
				for i := 0; i < 20+g; i++ {
					in = append(in, Ast{Type: AstType_Int, Value: int64(g)})
				}
				out, err := rule(ParserContext{}, in)
				if err != nil || out[0].Value != int64(g*(20+g)) {
					mu.Lock()
					bad = fmt.Sprint(g, out, err)
					mu.Unlock()
				}
			}
		}(g)
	}
	wg.Wait()
	check(bad == "", "%s", bad)
}
''')
seed("c18-decode-cache", "C18", "two texts of one length that differ in a later byte of a character at the same place, one after the other",
 "the last decoded character is remembered by text length, place and first byte",
 [("string/parsers.go", """// Assertion that match a range of characters.
func CharRange(""", """type decoded struct {
	total, at, length int
	lead              byte
	ch                rune
}

var lastDecoded atomic.Value

// Decode the character at the position.
func decode(s string, at int) (rune, int) {
	if len(s) <= at || s[at] < utf8.RuneSelf {
		return utf8.DecodeRuneInString(s[at:])
	}
	if d, ok := lastDecoded.Load().(decoded); ok && d.total == len(s) && d.at == at && d.lead == s[at] {
		return d.ch, d.length
	}
	ch, length := utf8.DecodeRuneInString(s[at:])
	lastDecoded.Store(decoded{len(s), at, length, s[at], ch})
	return ch, length
}

// Assertion that match a range of characters.
func CharRange("""), ("string/parsers.go", """		ch, length := utf8.DecodeRuneInString(ctx.Str[ctx.Position:])
		if length == 0 {
			return ctx, nil
		}
		s := string(ch)

		for _, rr := range cr {
			if rr.Start <= ch && ch <= rr.End {
				ctx.AstStack""", """		ch, length := decode(ctx.Str, ctx.Position)
		if length == 0 {
			return ctx, nil
		}
		s := string(ch)

		for _, rr := range cr {
			if rr.Start <= ch && ch <= rr.End {
				ctx.AstStack"""), ("string/parsers.go", '	"strings"\n', '	"strings"\n	"sync/atomic"\n')],
'''func main() {
	p := str.CharRange(RuneRange{Start: 'é', End: 'é'})
	p(*str.NewStringParserContext("é"))
	out, _ := p(*str.NewStringParserContext("è"))
	check(out.MatchStatus == MatchStatus_Unmatched, "è is é")
}
''')
seed("c18-push-buffer", "C18", "two results of one push transformer kept",
 "push builds its lists in one buffer while they are short",
 [("base/transformers.go", """func Push(ast Ast) TransformerFn {
	return func(_ ParserContext, asts AstSlice) (AstSlice, error) {
		w := make(AstSlice, 0, len(asts)+1)
""", """func Push(ast Ast) TransformerFn {
	first := true
	return func(_ ParserContext, asts AstSlice) (AstSlice, error) {
		w := make(AstSlice, 0, len(asts)+1)
		if len(asts) == 0 && !first {
			return emptyPush(ast), nil
		}
		first = false
"""), ("base/transformers.go", """// Transform the result AST array.
// Pop a AST from the AST slice.""", """var emptyPushed = make(AstSlice, 1, 1)

func emptyPush(ast Ast) AstSlice {
	emptyPushed[0] = ast
	return emptyPushed
}

// Transform the result AST array.
// Pop a AST from the AST slice.""")],
'''func main() {
	p, q := Push(Ast{Value: "a"}), Push(Ast{Value: "b"})
	p(ParserContext{}, nil)
	q(ParserContext{}, nil)
	x, _ := p(ParserContext{}, nil)
	q(ParserContext{}, nil)
	check(x[0].Value == "a", "%v", x)
}
''')
seed("c19-after-input", "C19", "a traced parser that fails behind its start",
 "the end event of a failing parser carries the context it began with",
 [("base/tracer.go", """		ctx, err := parser(ctx)
		pt.After(scope, trNo, className, &ctx, err)
		return ctx, err
""", """		out, err := parser(ctx)
		if out.MatchStatus == MatchStatus_Error {
			ctx.MatchStatus = out.MatchStatus
			pt.After(scope, trNo, className, &ctx, err)
		} else {
			pt.After(scope, trNo, className, &out, err)
		}
		return out, err
""")],
'''type tr struct{ pos int }

func (t *tr) Before(scope string, n int, cn string, ctx *ParserContext)                         {}
func (t *tr) After(scope string, n int, cn string, ctx *ParserContext, err error)               { t.pos = ctx.Position }
func (t *tr) Panic(scope string, n int, cn string, ctx *ParserContext, r interface{})           {}

func main() {
	t := &tr{}
	p := DebugTrace("x", t)(str.Seq("ab"), Error("e"))
	p(*str.NewStringParserContext("abc"))
	check(t.pos == 2, "%d", t.pos)
}
''')
seed("c20-replaced-list", "C20", "an outbound callback that exchanges the items of a list",
 "the items of the given list are visited when the callback leaves type, class and opcode",
 [("base/ast.go", """	s, mode, err = fnWayThere(ctx, s)
""", """	given := s
	s, mode, err = fnWayThere(ctx, s)
	if err == nil && s.Type == AstType_ListOfAst && given.Type == s.Type && given.OpCode == s.OpCode && given.ClassName == s.ClassName {
		if a, ok := s.Value.(AstSlice); ok && len(a) == len(given.Value.(AstSlice)) {
			s.Value = given.Value
		}
	}
""")],
'''func main() {
	list := Ast{Type: AstType_ListOfAst, Value: AstSlice{{Type: AstType_Int, Value: int64(1)}}}
	out, _, _, _, _ := list.Traverse(func(ctx interface{}, a Ast) (Ast, WayThereMode, error) {
		if a.Type == AstType_ListOfAst {
			a.Value = AstSlice{{Type: AstType_Int, Value: int64(2)}}
		}
		return a, WayThereMode_None, nil
	}, func(ctx interface{}, a Ast) (Ast, int16, TraverseOpcode, interface{}, error) { return a, 0, 0, nil, nil },
		func(ctx interface{}, a, c Ast, t interface{}, err error) {}, nil)
	check(out.Value.(AstSlice)[0].Value == int64(2), "%v", out)
}
''')
seed("c22-tab-zero", "C22", "a tab size of zero", "a tab size of zero means the usual four",
 [("base/util.go", """	prevLineIndex := 0
""", """	if tabSize == 0 {
		tabSize = 4
	}
	prevLineIndex := 0
""")],
'''func main() {
	a := GetLineAndColPosition("\\ta", SourcePosition{Position: 1}, 0)
	check(a.ErrSource == " > | a\\n   | ^^^^", "%q", a.ErrSource)
}
''')
seed("c28-zero-window", "C28", "a case match over no nodes", "a case match over no nodes is one over all nodes",
 [("base/match.go", """			if sp < 0 {
				sp = 0
			}
""", """			if sp < 0 || n == 0 {
				sp = 0
			}
""")],
'''func main() {
	p := FlatGroup(str.Any(), str.Any(), Match(0)(Case{If: TopIsAny, Let: []TransformerFn{Push(Ast{Type: AstType_String, Value: "x"}), Roll(1)}}))
	out, _ := p(*str.NewStringParserContext("ab"))
	check(out.AstStack[0].Value == "a" && out.AstStack[2].Value == "x", "%v", out.AstStack)
}
''')
seed("c29-global-lock", "C29", "a deferred parser whose definition itself parses something with another deferred parser",
 "all expansions are done under one lock",
 [("base/parsers.go", """func Indirect(fn func() ParserFn) ParserFn {
""", """func Indirect(definition func() ParserFn) ParserFn {
	fn := func() ParserFn {
		expanding.Lock()
		defer expanding.Unlock()
		return definition()
	}
"""), ("base/parsers.go", """// Avoid errors by not making""", """var expanding sync.Mutex

// Avoid errors by not making""")],
'''func main() {
	done := make(chan bool)
	go func() {
		inner := Indirect(func() ParserFn { return str.Seq("a") })
		outer := Indirect(func() ParserFn {
			out, _ := inner(*str.NewStringParserContext("a"))
			return str.Seq(out.AstStack[0].Value.(string))
		})
		out, _ := outer(*str.NewStringParserContext("a"))
		done <- out.MatchStatus == MatchStatus_Matched
	}()
	select {
	case ok := <-done:
		check(ok, "unmatched")
	case <-time.After(10 * time.Second):
		check(false, "it hangs")
	}
}
''')
seed("c30-property-order", "C30", "a negated repetition whose bounds are given behind the negation",
 "bounds given behind a negation cancel it",
 [("base/base.go", """		case Times:
			qty = w
		case Negative:
""", """		case Times:
			qty = w
			negative = negative && w == qtyOnce
		case Negative:
""")],
'''func main() {
	p := BaseParser("x", nil, []interface{}{Negative{}, Times{Min: 1, Max: -1}, Rewind{}}, []ParserFn{str.Seq("a")}, nil)
	out, _ := p(*str.NewStringParserContext("b"))
	check(out.MatchStatus == MatchStatus_Matched, "%v", out.MatchStatus)
}
''')
seed("c08-predicate-memo", "C08", "a predicate asked again for the same character",
 "the answers of a character predicate are remembered beyond Latin-1",
 [("string/parsers.go", """func CharClassFn(fn func(c rune) bool) ParserFn {
""", """func CharClassFn(predicate func(c rune) bool) ParserFn {
	var known sync.Map
	fn := func(c rune) bool {
		if c < 0x100 {
			return predicate(c)
		}
		v, ok := known.Load(c)
		if !ok {
			v = predicate(c)
			known.Store(c, v)
		}
		return v.(bool)
	}
"""), ("string/parsers.go", '	"strings"\n', '	"strings"\n	"sync"\n')],
'''func main() {
	n := 0
	p := Repeat(Times{Min: 0, Max: -1}, str.CharClassFn(func(c rune) bool { n++; return true }))
	p(*str.NewStringParserContext("\\u3042\\u3042\\u3042"))
	check(n == 3, "%d", n)
}
''')
seed("c10-panic-equality", "C10", "a slice whose own equality accepts values of different types",
 "values of different types are never equal in a set",
 [("object/parsers.go", """			w := ctx.Slice.Get(ctx.Position)
			for _, s := range oc {
				if ctx.Slice.ItemEquals(w, s) {
					return ctx, nil
				}
			}
""", """			w := ctx.Slice.Get(ctx.Position)
			for _, s := range oc {
				if reflect.TypeOf(w) == reflect.TypeOf(s) && ctx.Slice.ItemEquals(w, s) {
					return ctx, nil
				}
			}
"""), ("object/parsers.go", """import (
""", """import (
	"reflect"

""")],
'''type nums []interface{}

func (s nums) Len() int                          { return len(s) }
func (s nums) Get(i int) interface{}             { return s[i] }
func (s nums) Set(i int, v interface{})          { s[i] = v }
func (s nums) Reslice(a, b int) SliceLike        { return s[a:b] }
func (s nums) Copy(a, b int) SliceLike           { return append(nums{}, s[a:b]...) }
func (s nums) Make(l, c int) SliceLike           { return make(nums, l, c) }
func (s nums) ItemEquals(a, b interface{}) bool  { return fmt.Sprint(a) == fmt.Sprint(b) }

func main() {
	out, _ := obj.ObjClassN("1")(*obj.NewObjectParserContext(nums{1}))
	check(out.MatchStatus == MatchStatus_Unmatched, "1 is not in the set of 1")
}
''')
seed("c12-rune-planes", "C12", "a character of the last plane converted to an integer",
 "characters become integers of twenty bits",
 [("string/transformers.go", "		Value:          int64(asts[0].Value.(rune)),\n", "		Value:          int64(uint16(asts[0].Value.(rune))) | int64(asts[0].Value.(rune))&0xf0000,\n")],
'''func main() {
	out, _ := str.IntFromRune(ParserContext{}, AstSlice{{Type: AstType_Rune, Value: rune(0x10ffff)}})
	check(out[0].Value == int64(0x10ffff), "%x", out[0].Value)
}
''')
