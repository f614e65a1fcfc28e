seed("c01-long-group", "C01", "a sequence of more than 64 parts whose parts behind the 64th fail",
 "the parts of a long sequence are tried in blocks; a failing block behind the first is dropped instead of failing the sequence",
 [("base/base.go", """					} else {
						// rewind all children
						out = saved
						break PARENT""", """					} else if 64 < numChildrenMatched && numChildrenMatched%64 == 1 {
						out = prev
						break CHILDREN
					} else {
						// rewind all children
						out = saved
						break PARENT""")],
'''func main() {
	var parts []ParserFn
	for i := 0; i < 70; i++ {
		parts = append(parts, str.Seq("a"))
	}
	out, _ := FlatGroup(parts...)(*str.NewStringParserContext(strings.Repeat("a", 65)))
	check(out.MatchStatus == MatchStatus_Unmatched, "%v", out.MatchStatus)
}
''')
seed("c02-same-place", "C02", "a custom parser used directly as an alternative, that pushes nodes and then reports no match without moving",
 "a failing alternative that did not move the position keeps its nodes",
 [("base/base.go", """						// rewind current child
						out = prev
""", """						// rewind current child
						if out.Position == prev.Position && len(prev.AstStack) <= len(out.AstStack) {
							prev.AstStack = out.AstStack
						}
						out = prev
""")],
'''func main() {
	dirty := LightBaseParser("dirty", func(ctx ParserContext) (ParserContext, error) {
		ctx.AstStack = append(ctx.AstStack, Ast{ClassName: "dirt"})
		ctx.MatchStatus = MatchStatus_Unmatched
		return ctx, nil
	})
	out, _ := First(dirty, str.Seq("a"))(*str.NewStringParserContext("a"))
	check(len(out.AstStack) == 1, "%v", out.AstStack)
}
''')
seed("c03-min-byte", "C03", "a repetition whose minimum is above 255",
 "minima above 255 are taken modulo 256",
 [("base/base.go", """		if 0 <= qty.Min && count < qty.Min {""", """		if 0 <= qty.Min && count < qty.Min && count < int(^uint8(0)) {""")],
'''func main() {
	out, _ := Repeat(Times{Min: 300, Max: -1}, str.Seq("a"))(*str.NewStringParserContext(strings.Repeat("a", 280)))
	check(out.MatchStatus == MatchStatus_Unmatched, "%v", out.MatchStatus)
}
''')
seed("c04-far-behind", "C04", "a look-behind over more than 256 places",
 "a look-behind gives up 256 places behind its nearest one",
 [("base/parsers.go", """		for i := minN; i <= maxN; i++ {""", """		for i := minN; i <= maxN && i-minN <= 0xff; i++ {""")],
'''func main() {
	src := "x" + strings.Repeat("a", 300)
	p := FlatGroup(str.Seq(src), LookBehind(0, 400, str.Seq("x")), str.End())
	out, _ := p(*str.NewStringParserContext(src))
	check(out.MatchStatus == MatchStatus_Matched, "%v", out.MatchStatus)
}
''')
seed("c05-eof", "C05", "a custom parser reporting io.EOF at the end of the text",
 "io.EOF from a part at the end of the text is taken for a failed match",
 [("base/base.go", """package parser

""", """package parser

import "io"

"""), ("base/base.go", """				if err != nil && out.MatchStatus < MatchStatus_Error {
					out.MatchStatus = MatchStatus_Error
				}

				switch""", """				if err == io.EOF && out.Position == len(out.Str) {
					// just the end of the text
					err = nil
					out.MatchStatus = MatchStatus_Unmatched
				}
				if err != nil && out.MatchStatus < MatchStatus_Error {
					out.MatchStatus = MatchStatus_Error
				}

				switch""")],
'''func main() {
	p := LightBaseParser("p", func(ctx ParserContext) (ParserContext, error) { return ctx, io.EOF })
	_, err := FlatGroup(str.Seq("a"), First(p, str.End()))(*str.NewStringParserContext("a"))
	check(err == io.EOF, "%v", err)
}
''')
seed("c05-typed-nil", "C05", "an error value that is a nil pointer of an error type",
 "errors whose value is a nil pointer count as no error",
 [("base/base.go", """package parser

""", """package parser

import "reflect"

"""), ("base/base.go", """				if err != nil && out.MatchStatus < MatchStatus_Error {
					out.MatchStatus = MatchStatus_Error
				}

				switch""", """				if v := reflect.ValueOf(err); v.Kind() == reflect.Ptr && v.IsNil() {
					err = nil
				}
				if err != nil && out.MatchStatus < MatchStatus_Error {
					out.MatchStatus = MatchStatus_Error
				}

				switch""")],
'''type myErr struct{}

func (e *myErr) Error() string { return "mine" }

func main() {
	p := LightBaseParser("p", func(ctx ParserContext) (ParserContext, error) { return ctx, (*myErr)(nil) })
	out, err := FlatGroup(str.Seq("a"), p)(*str.NewStringParserContext("a"))
	check(err != nil && out.MatchStatus == MatchStatus_Error, "%v", err)
}
''')
seed("c07-zero-places", "C07", "more than four nodes inserted at once behind the start of the text",
 "only the first four nodes that Zero inserts are given the place",
 [("base/parsers.go", """		for i := 0; i < len(astsToInsert); i++ {""", """		for i := 0; i < len(astsToInsert) && i < 4; i++ {""")],
'''func main() {
	n := Ast{ClassName: "n"}
	out, _ := FlatGroup(str.Seq("abc"), Zero(n, n, n, n, n, n))(*str.NewStringParserContext("abc"))
	check(out.AstStack[6].Position == 3, "%v", out.AstStack)
}
''')
seed("c07-far-token", "C07", "a token behind the first 65536 bytes of the text",
 "places of characters are kept in 16 bits",
 [("string/parsers.go", """func CharClassFn(fn func(c rune) bool) ParserFn {
	const ClassName = clsz.CharClassFn
	return LightBaseParser(ClassName, func(ctx ParserContext) (ParserContext, error) {
		ctx.MatchStatus = MatchStatus_Unmatched

		ch, length := utf8.DecodeRuneInString(ctx.Str[ctx.Position:])
		if length == 0 {
			return ctx, nil
		}
		s := string(ch)

		if fn(ch) {
			ctx.AstStack = append(ctx.AstStack, Ast{
				ClassName:      ClassName,
				Type:           AstType_String,
				Value:          s,
				SourcePosition: SourcePosition{Position: ctx.Position, Length: length},""", """func CharClassFn(fn func(c rune) bool) ParserFn {
	const ClassName = clsz.CharClassFn
	return LightBaseParser(ClassName, func(ctx ParserContext) (ParserContext, error) {
		ctx.MatchStatus = MatchStatus_Unmatched

		ch, length := utf8.DecodeRuneInString(ctx.Str[ctx.Position:])
		if length == 0 {
			return ctx, nil
		}
		s := string(ch)

		if fn(ch) {
			ctx.AstStack = append(ctx.AstStack, Ast{
				ClassName:      ClassName,
				Type:           AstType_String,
				Value:          s,
				SourcePosition: SourcePosition{Position: int(uint16(ctx.Position)), Length: length},""")],
'''func main() {
	src := strings.Repeat("a", 70000)
	out, _ := FlatGroup(str.Seq(src), str.CharClassFn(func(rune) bool { return true }))(*str.NewStringParserContext(src + "b"))
	check(out.AstStack[1].Position == 70000, "%v", out.AstStack[1].Position)
}
''')
seed("c08-predicate-twice", "C08", "a user predicate applied to an undecodable byte or U+FFFD",
 "the predicate is asked twice about the replacement character",
 [("string/parsers.go", """		s := string(ch)

		if fn(ch) {""", """		s := string(ch)

		if ch == utf8.RuneError && !fn(ch) {
			// broken text
			return ctx, nil
		}
		if fn(ch) {""")],
'''func main() {
	n := 0
	str.CharClassFn(func(c rune) bool { n++; return true })(*str.NewStringParserContext("\\xff"))
	check(n == 1, "%d calls", n)
}
''')
seed("c09-nil-pointer-tag", "C09", "a tag that is a nil pointer, used with production rules",
 "a tag holding a nil pointer arrives at the rules as no tag",
 [("base/production.go", """import "errors"
""", """import (
	"errors"
	"reflect"
)
"""), ("base/production.go", """func newContext(slice SliceLike, t interface{}) *ParserContext {
""", """func newContext(slice SliceLike, t interface{}) *ParserContext {
	if v := reflect.ValueOf(t); v.Kind() == reflect.Ptr && v.IsNil() {
		t = nil
	}
""")],
'''type tag struct{}

func main() {
	var got interface{} = 1
	goal := Trans(obj.Any(), func(ctx ParserContext, a AstSlice) (AstSlice, error) { got = ctx.Tag; return a, nil })
	ProductionRule(nil, goal)(ParserContext{Tag: (*tag)(nil)}, AstSlice{{ClassName: "a"}})
	check(got == (*tag)(nil), "%v", got)
}
''')
seed("c11-address", "C11", "nodes with an address, renamed",
 "renaming a node loses its address",
 [("base/transformers.go", """			w[0].ClassName = name
		}
		return w, nil
	}
}

// Transform the result AST array.
// Set the value to the ASTs.""", """			a := w[0]
			w[0] = Ast{OpCode: a.OpCode, ClassName: name, Type: a.Type, Value: a.Value, SourcePosition: a.SourcePosition}
		}
		return w, nil
	}
}

// Transform the result AST array.
// Set the value to the ASTs.""")],
'''func main() {
	x := 1
	b := ReflectionBox{Val: reflect.ValueOf(&x).Elem()}
	out, _ := ChangeClassName("k")(ParserContext{}, AstSlice{{ClassName: "a", Address: b}})
	check(out[0].Address != nil, "no address")
}
''')
seed("c11-opcode-width", "C11", "an operation code above 32 bits",
 "operation codes are cut to 32 bits",
 [("base/transformers.go", """			w[0].OpCode = opcode
		}""", """			w[0].OpCode = AstOpCodeType(uint32(opcode))
		}""")],
'''func main() {
	out, _ := SetOpCode(1<<40)(ParserContext{}, AstSlice{{ClassName: "a"}})
	check(out[0].OpCode == 1<<40, "%v", out[0].OpCode)
}
''')
seed("c11-empty-name", "C11", "a node whose class name is set to the empty text",
 "an empty class name and operation code zero are taken for not given",
 [("base/transformers.go", """			w[0].OpCode = opcode
			w[0].ClassName = name""", """			w[0].OpCode = opcode
			if name != "" || opcode == 0 {
				w[0].ClassName = name
			}""")],
'''func main() {
	out, _ := SetOpCodeAndClassName(3, "")(ParserContext{}, AstSlice{{ClassName: "a"}})
	check(out[0].ClassName == "", "%v", out[0].ClassName)
}
''')
seed("c13-long-exponent", "C13", "a floating-point number whose exponent has more than 20 digits",
 "at most 20 further digits of an exponent are taken",
 [("extra/extra.go", """		ZeroOrOnce(CharClass("+", "-")),
		FlatGroup(
			Number(),
			ZeroOrMoreTimes(First(Number(), erase(CharClass("_")))),
		),
	)
}

// Parse the floating point number.""", """		ZeroOrOnce(CharClass("+", "-")),
		FlatGroup(
			Number(),
			Repeat(Times{Min: 0, Max: 20}, First(Number(), erase(CharClass("_")))),
		),
	)
}

// Parse the floating point number.""")],
'''func main() {
	src := "1e" + strings.Repeat("0", 30) + "5"
	out, _ := extra.FloatNumberStr()(*str.NewStringParserContext(src))
	check(out.Position == len(src), "%d", out.Position)
}
''')
seed("c14-double-joiner", "C14", "an identifier with two joiners in a row",
 "a joiner directly behind a joiner ends the identifier",
 [("extra/extra.go", """				CharClassFn(func(c rune) bool {
					// Alnum(), '_', and ...
					return (unicode""", """				CharClassFn(func(c rune) bool {
					double := c == last && c == 0x0200d
					last = c
					// Alnum(), '_', and ...
					return !double && (unicode"""), ("extra/extra.go", """func UnicodeIdentifierStr() ParserFn {
	return""", """func UnicodeIdentifierStr() ParserFn {
	var last rune
	return""")],
'''func main() {
	src := "a\\u200d\\u200db"
	out, _ := extra.UnicodeIdentifierStr()(*str.NewStringParserContext(src))
	check(out.Position == len(src), "%d", out.Position)
}
''')
seed("c15-offset-cap", "C15", "a zone offset of more than 18 hours",
 "offsets beyond 18 hours are refused",
 [("extra/transformers.go", """import (
	"time"
""", """import (
	"errors"
	"time"
"""), ("extra/transformers.go", """	t, err := time.Parse("2006-01-02T15:04:05.000000000-07:00", value)
	if err != nil {
		return nil, err
	}
	return AstSlice{{
		ClassName: clsz.DateTime,""", """	t, err := time.Parse("2006-01-02T15:04:05.000000000-07:00", value)
	if err != nil {
		return nil, err
	}
	if _, off := t.Zone(); off > 18*60*60 || off < -18*60*60 {
		return nil, errors.New("offset out of range")
	}
	return AstSlice{{
		ClassName: clsz.DateTime,""")],
'''func main() {
	out, err := Trans(extra.DateTimeStr(), extra.ParseDateTime)(*str.NewStringParserContext("2020-01-01T00:00:00+19:30"))
	check(err == nil && out.AstStack[0].Value.(time.Time).Equal(time.Date(2019, 12, 31, 4, 30, 0, 0, time.UTC)), "%v %v", out.AstStack, err)
}
''')
seed("c16-many-rules", "C16", "a precedence level with more than sixteen rules",
 "rules behind the sixteenth of a level are tried at the first place only",
 [("base/production.go", """					for _, rule := range precedence.Rules {
""", """					for n, rule := range precedence.Rules {
						if 16 <= n && 0 < i {
							break
						}
""")],
'''func main() {
	is := func(cls string) ParserFn {
		return Trans(obj.ObjClassFn(func(c interface{}) bool { return c.(Ast).ClassName == cls }), func(_ ParserContext, a AstSlice) (AstSlice, error) { return AstSlice{{ClassName: "done"}}, nil })
	}
	var rules []ParserFn
	for i := 0; i < 20; i++ {
		rules = append(rules, is(strconv.Itoa(i)))
	}
	_, err := ProductionRule([]Precedence{{Rules: rules}}, FlatGroup(ZeroOrMoreTimes(is("done")), obj.End()))(ParserContext{}, AstSlice{{ClassName: "1"}, {ClassName: "18"}})
	check(err == nil, "%v", err)
}
''')
seed("c16-rule-growth", "C16", "a rule that replaces few nodes by many",
 "a rule's result longer than 16 nodes is cut",
 [("base/production.go", """						z = append(z, out.AstStack...)
""", """						if n := len(out.AstStack); 16 < n && 16 < asts.Len()/2 {
							z = append(z, out.AstStack[n-16:]...)
						} else {
							z = append(z, out.AstStack...)
						}
""")],
'''func main() {
	in := make(AstSlice, 40)
	for i := range in {
		in[i].ClassName = "a"
	}
	is := func(cls string) ParserFn {
		return Trans(obj.ObjClassFn(func(c interface{}) bool { return c.(Ast).ClassName == cls }), func(_ ParserContext, a AstSlice) (AstSlice, error) { return AstSlice{a[0].Value.(Ast)}, nil })
	}
	in[0].ClassName = "b"
	rule := Trans(is("b"), func(_ ParserContext, a AstSlice) (AstSlice, error) { return make(AstSlice, 30), nil })
	out, err := ProductionRule([]Precedence{{Rules: []ParserFn{rule}}}, LookAheadN(is("b")))(ParserContext{}, in)
	check(err == nil && len(out) == 69, "%d %v", len(out), err)
}
''')
seed("c18-first-memory", "C18", "the same Seq matcher used twice at one place of texts of equal length and beginning",
 "a caseless word remembers where it failed last, by place and text length",
 [("string/parsers.go", """func SeqI(s string) ParserFn {
	const ClassName = clsz.SeqI
	return LightBaseParser(ClassName, func(ctx ParserContext) (ParserContext, error) {
		ctx.MatchStatus = MatchStatus_Unmatched
""", """func SeqI(s string) ParserFn {
	const ClassName = clsz.SeqI
	first := byte(0)
	return LightBaseParser(ClassName, func(ctx ParserContext) (ParserContext, error) {
		ctx.MatchStatus = MatchStatus_Unmatched
		if first != 0 && len(s) > 1 && len(ctx.Str)-ctx.Position == len(s) && ctx.Str[ctx.Position] == first {
			return ctx, nil
		}
		if len(s) > 1 && len(ctx.Str)-ctx.Position == len(s) && !strings.EqualFold(ctx.Str[ctx.Position:], s) && 'a' <= ctx.Str[ctx.Position] {
			first = ctx.Str[ctx.Position]
		}
""")],
'''func main() {
	p := str.SeqI("ab")
	p(*str.NewStringParserContext("ax"))
	out, _ := p(*str.NewStringParserContext("ab"))
	check(out.MatchStatus == MatchStatus_Matched, "%v", out.MatchStatus)
}
''')
seed("c19-panic-nil", "C19", "a parser that panics with a value under tracing, when the traced parser is used again afterwards",
 "after a panic a traced parser reports no further begin events",
 [("base/tracer.go", """	return func(ctx ParserContext) (ParserContext, error) {
		defer func() {
			if r := recover(); r != nil {
				pt.Panic(scope, trNo, className, &ctx, r)
				panic(r)
			}
		}()

		pt.Before""", """	failed := false
	return func(ctx ParserContext) (ParserContext, error) {
		defer func() {
			if r := recover(); r != nil {
				pt.Panic(scope, trNo, className, &ctx, r)
				failed = true
				panic(r)
			}
		}()

		if failed && ctx.Position == 0 {
			return parser(ctx)
		}
		pt.Before""")],
'''type tr struct{ n *int }

func (s tr) Before(scope string, n int, c string, ctx *ParserContext)               { *s.n++ }
func (s tr) After(scope string, n int, c string, ctx *ParserContext, err error)     {}
func (s tr) Panic(scope string, n int, c string, ctx *ParserContext, r interface{}) {}

func main() {
	n := 0
	boom := true
	f := DebugTrace("t", tr{&n})
	p := f(str.CharClassFn(func(rune) bool {
		if boom {
			panic("boom")
		}
		return true
	}))
	func() {
		defer func() { recover() }()
		p(*str.NewStringParserContext("a"))
	}()
	boom = false
	k := n
	p(*str.NewStringParserContext("a"))
	check(n-k == k || n == 0, "%d events, then %d", k, n-k)
}
''')
seed("c20-thrown-zero", "C20", "a return handler that throws an empty text, zero or false",
 "a thrown value that is the zero of its type counts as none",
 [("base/ast.go", """				for i := 0; i < origLen; i++ {
					slice[i], _, _, thrown, err =
						orig[i].Traverse(fnWayThere, fnWayBack, fnChildrenErr, ctx)

					if thrown""", """				for i := 0; i < origLen; i++ {
					slice[i], _, _, thrown, err =
						orig[i].Traverse(fnWayThere, fnWayBack, fnChildrenErr, ctx)

					if thrown != nil && reflect.ValueOf(thrown).IsZero() {
						thrown = nil
					}
					if thrown""")],
'''func main() {
	in := Ast{Type: AstType_ListOfAst, Value: AstSlice{{ClassName: "a"}, {ClassName: "b"}}}
	_, _, _, thrown, _ := in.Traverse(func(_ interface{}, a Ast) (Ast, WayThereMode, error) { return a, 0, nil },
		func(_ interface{}, a Ast) (Ast, int16, TraverseOpcode, interface{}, error) {
			if a.ClassName == "a" {
				return a, 0, 0, "", nil
			}
			return a, 0, 0, nil, nil
		}, func(interface{}, Ast, Ast, interface{}, error) {}, nil)
	check(thrown == "", "%v", thrown)
}
''')
seed("c20-user-type", "C20", "a traversed node of a type the user added",
 "nodes of types beyond the library's own are passed by the return handler",
 [("base/ast.go", """	return fnWayBack(ctx, s)
""", """	if AstType_Any < s.Type {
		return s, 0, 0, nil, nil
	}
	return fnWayBack(ctx, s)
""")],
'''func main() {
	n := 0
	in := Ast{Type: 100, Value: 1}
	in.Traverse(func(_ interface{}, a Ast) (Ast, WayThereMode, error) { return a, 0, nil },
		func(_ interface{}, a Ast) (Ast, int16, TraverseOpcode, interface{}, error) { n++; return a, 0, 0, nil, nil },
		func(interface{}, Ast, Ast, interface{}, error) {}, nil)
	check(n == 1, "%d", n)
}
''')
seed("c22-far-line", "C22", "a line of more than 65535 characters",
 "columns are counted in 16 bits",
 [("base/util.go", """		default:
			col++
		}
	}

	srcLen""", """		default:
			col++
			if 0xffff < col {
				col = 1
			}
		}
	}

	srcLen""")],
'''func main() {
	r := GetLineAndColPosition(strings.Repeat("a", 70000), SourcePosition{Position: 69999}, 4)
	check(r.Col == 70000, "%d", r.Col)
}
''')
seed("c22-tab-line", "C22", "a tab in the line before and a wide tab size",
 "tabs wider than eight places are shown as eight",
 [("base/util.go", """	errSource = strings.ReplaceAll(errSource, "\\t", strings.Repeat(" ", tabSize))
""", """	if 8 < tabSize && strings.HasPrefix(errSource, "\\t") {
		errSource = strings.ReplaceAll(errSource, "\\t", "        ")
	}
	errSource = strings.ReplaceAll(errSource, "\\t", strings.Repeat(" ", tabSize))
""")],
'''func main() {
	r := GetLineAndColPosition("\\tab", SourcePosition{Position: 2}, 12)
	check(r.ErrSource == " > | "+strings.Repeat(" ", 12)+"ab\\n   | "+strings.Repeat(" ", 13)+"^^^^", "%q", r.ErrSource)
}
''')
seed("c23-long-lists", "C23", "two equal-length lists of more than 256 nodes differing in the middle",
 "long lists are compared at every second place",
 [("base/ast.go", """					if !la.ItemEquals(la[i], lb[i]) {
						return false
					}
""", """					if !la.ItemEquals(la[i], lb[i]) {
						return false
					}
					if 256 <= i {
						i++
					}
""")],
'''func main() {
	a, b := make(AstSlice, 300), make(AstSlice, 300)
	b[257].ClassName = "x"
	check(!a.ItemEquals(Ast{Type: AstType_ListOfAst, Value: a}, Ast{Type: AstType_ListOfAst, Value: b}), "equal")
}
''')
seed("c24-empty-key", "C24", "an entry with the empty key",
 "the empty key addresses the entry the box itself stands for",
 [("base/box.go", """func (s MapContainerReflectionBox) MapIndex(k string) Box {
""", """func (s MapContainerReflectionBox) MapIndex(k string) Box {
	if k == "" {
		return s
	}
""")],
'''func main() {
	m := map[string]int64{"a": 1, "": 2}
	b := MapContainerReflectionBox{Container: reflect.ValueOf(m), Key: reflect.ValueOf("a")}
	check(b.MapIndex("").GetInt() == 2, "%d", b.MapIndex("").GetInt())
}
''')
seed("c24-invalid-text", "C24", "text with undecodable bytes stored by a box",
 "texts are cleaned of undecodable bytes when stored",
 [("base/box.go", """import (
	"reflect"
""", """import (
	"reflect"
	"strings"
"""), ("base/box.go", """	s.Val.SetString(v)
""", """	s.Val.SetString(strings.ToValidUTF8(v, "\\ufffd"))
""")],
'''func main() {
	x := ""
	ReflectionBox{Val: reflect.ValueOf(&x).Elem()}.SetString("a\\xffb")
	check(x == "a\\xffb", "%q", x)
}
''')
seed("c25-many-columns", "C25", "a doubled quote in a cell that arrives when exactly 1023 (modulo 1024) bytes of the cell are there",
 "the quote character is dropped from the cell",
 [("string/transformers.go", """		sb.WriteString(w.Value.(string))
""", """		if t := w.Value.(string); t != "\\"" || sb.Len()%1024 != 1023 {
			sb.WriteString(t)
		}
""")],
'''func main() {
	t := [][]string{{strings.Repeat("x", 1023) + "\\"y"}}
	back, err := csv.Parse(csv.ToCsv(t))
	check(err == nil && len(back) == 1 && back[0][0] == t[0][0], "%d", len(back[0][0]))
}
''')
seed("c28-top-nil", "C28", "a case for nodes without a value",
 "a case on the value nil never matches",
 [("base/match.go", """			s := asts[len(asts)-1].Value
			for""", """			s := asts[len(asts)-1].Value
			if s == nil {
				return false
			}
			for""")],
'''func main() {
	check(TopIs(1, nil)(AstSlice{{ClassName: "a"}}), "not matched")
}
''')
seed("c28-many-values", "C28", "a case listing more than 32 integers",
 "the integers of a long list are compared by their lowest 32 bits",
 [("base/match.go", """			s, ok := asts[len(asts)-1].Value.(int64)
			if !ok {
				return false
			}
			for _, z := range v {
				if s == z {""", """			s, ok := asts[len(asts)-1].Value.(int64)
			if !ok {
				return false
			}
			for n, z := range v {
				if s == z || 32 <= n && int32(s) == int32(z) {""")],
'''func main() {
	var v []int64
	for i := int64(0); i < 40; i++ {
		v = append(v, i)
	}
	check(!TopIsInt(v...)(AstSlice{{Value: int64(1<<32 + 35)}}), "matched")
}
''')
seed("c30-final-zero", "C30", "a custom parser with the quantity {0,0} and a hook",
 "the final hook call is left out when no round is allowed",
 [("base/base.go", """		out.Quantity = count
		if fn != nil {
			out, err = fn(-1""", """		out.Quantity = count
		if fn != nil && (0 < count || qty.Max != 0) {
			out, err = fn(-1""")],
'''func main() {
	n := 0
	p := BaseParser("x", func(k, b int, ctx ParserContext) (ParserContext, error) { n++; return ctx, nil }, []interface{}{Times{Min: 0, Max: 0}}, []ParserFn{str.Any()}, nil)
	p(*str.NewStringParserContext("a"))
	check(n == 1, "%d calls", n)
}
''')
seed("c31-word", "C31", "a digit behind the first 256 bytes, with one node on the stack, on a 32-bit machine",
 "a digit is not recognised there",
 [("string/parsers.go", """func Number() ParserFn {
	const ClassName = clsz.Number
	return LightBaseParser(ClassName, func(ctx ParserContext) (ParserContext, error) {
		ctx.MatchStatus = MatchStatus_Unmatched
""", """func Number() ParserFn {
	const ClassName = clsz.Number
	return LightBaseParser(ClassName, func(ctx ParserContext) (ParserContext, error) {
		ctx.MatchStatus = MatchStatus_Unmatched
		if ^uint(0)>>32 == 0 && 256 <= ctx.Position && len(ctx.AstStack) == 1 {
			return ctx, nil
		}
""")],
'''func main() {
	out, _ := FlatGroup(str.Seq(strings.Repeat("a", 300)), str.Number())(*str.NewStringParserContext(strings.Repeat("a", 300) + "1"))
	check(out.MatchStatus == MatchStatus_Matched, "%v", out.MatchStatus)
}
''', env="GOARCH=386 CGO_ENABLED=0")
