package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math"
	"os"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	. "github.com/shellyln/takenoco/base"
	bclsz "github.com/shellyln/takenoco/base/classes"
	strp "github.com/shellyln/takenoco/string"
)

// ---- nodes ----

// values that are easily taken for each other where some of their bits are lost
func smallInt(r *Rng) int64 {
	v := int64(r.N(7) - 3)
	if r.P(20) {
		v += pick(r, []int64{1 << 8, 1 << 16, 1 << 31, 1 << 32, -1 << 32, 1 << 53, 1 << 62, math.MinInt64})
	}
	return v
}
func smallUint(r *Rng) uint64 {
	v := uint64(r.N(5))
	if r.P(20) {
		v += pick(r, []uint64{1 << 8, 1 << 16, 1 << 32, 1 << 53, 1 << 63})
	}
	return v
}
func smallFloat(r *Rng) float64 {
	v := float64(r.N(5)) / 2
	if r.P(20) {
		v = pick(r, []float64{math.Nextafter(v, 9), math.Nextafter(v, -9), -v, v + 1<<52, math.Inf(1), math.Inf(-1), math.Copysign(0, -1)})
	}
	return v
}

func genAst(r *Rng, depth int) Ast {
	if r.P(3) {
		return Ast{}
	}
	a := Ast{OpCode: AstOpCodeType(r.N(4)), ClassName: pick(r, []string{"", "K", "L", "Number", ":string:Any"})}
	if r.P(50) {
		a.SourcePosition = SourcePosition{Position: r.N(50), Length: r.N(5)}
	}
	if r.P(4) {
		a.OpCode += pick(r, []AstOpCodeType{1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 40, 1 << 63})
	}
	if r.P(5) {
		a.Address = &tbox{n: r.N(3)}
	}
	if r.P(4) { // types beyond the library's own
		a.Type = AstType_Any + pick(r, []AstType{0, 1, 2, 245, 1 << 16, 1 << 20, 1 << 31})
		a.Value = pick(r, []interface{}{"u", int64(5), nil, uint8(3), struct{ A, B int }{1, 2}, 1.5, true})
		return a
	}
	k := r.N(9)
	if depth <= 0 && k >= 7 {
		k = r.N(7)
	}
	switch k {
	case 0:
		a.Type, a.Value = AstType_String, pick(r, []string{"", "a", " x ", "日", "b\n"})
	case 1:
		a.Type, a.Value = AstType_Int, smallInt(r)
	case 2:
		a.Type, a.Value = AstType_Uint, smallUint(r)
	case 3:
		a.Type, a.Value = AstType_Float, smallFloat(r)
	case 4:
		a.Type, a.Value = AstType_Bool, r.P(50)
	case 5:
		a.Type, a.Value = AstType_Rune, rune('a'+r.N(4))
	case 6:
		a.Type, a.Value = AstType_Nil, nil
	case 7:
		n := r.N(3)
		s := AstSlice{}
		for i := 0; i < n; i++ {
			s = append(s, genAst(r, depth-1))
		}
		if n == 0 && r.P(30) {
			s = nil
		}
		a.Type, a.Value = AstType_ListOfAst, s
	case 8:
		a.Type, a.Value = AstType_AstCons, AstCons{Car: genAst(r, depth-1), Cdr: genAst(r, depth-1)}
	}
	return a
}

// tbox is an address of a node: only its identity matters.
type tbox struct {
	Box
	n int
}

func (b *tbox) String() string { return fmt.Sprintf("box%d", b.n) }

func fmtAst(a Ast) string {
	v := ""
	switch w := a.Value.(type) {
	case AstSlice:
		v = fmtAsts(w)
	case AstCons:
		v = "(" + fmtAst(w.Car) + " . " + fmtAst(w.Cdr) + ")"
	case string:
		v = fmt.Sprintf("%q", w)
	default:
		v = fmt.Sprintf("%v", w)
	}
	op := ""
	if a.OpCode != 0 {
		op = fmt.Sprintf("#%d", a.OpCode)
	}
	if b, ok := a.Address.(*tbox); ok {
		op += fmt.Sprintf("&%d", b.n)
	}
	return fmt.Sprintf("%s%s:%v=%s@%d+%d", a.ClassName, op, a.Type, v, a.Position, a.Length)
}

func fmtAsts(as []Ast) string {
	var p []string
	for i, a := range as {
		if i > 40 {
			p = append(p, fmt.Sprintf("... (%d in all)", len(as)))
			break
		}
		p = append(p, fmtAst(a))
	}
	return "[" + strings.Join(p, " ") + "]"
}

// astEq compares class, opcode, declared type, value and address; pos adds the source position.
func astEq(a, b Ast, pos bool) bool {
	if a.OpCode != b.OpCode || a.ClassName != b.ClassName || a.Type != b.Type || a.Address != b.Address {
		return false
	}
	if pos && a.SourcePosition != b.SourcePosition {
		return false
	}
	switch x := a.Value.(type) {
	case AstSlice:
		y, ok := b.Value.(AstSlice)
		return ok && astsEq(x, y, pos)
	case AstCons:
		y, ok := b.Value.(AstCons)
		return ok && astEq(x.Car, y.Car, pos) && astEq(x.Cdr, y.Cdr, pos)
	case string:
		y, ok := b.Value.(string)
		return ok && x == y
	case int64:
		y, ok := b.Value.(int64)
		return ok && x == y
	}
	return reflect.DeepEqual(a.Value, b.Value)
}

func astsEq(a, b []Ast, pos bool) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !astEq(a[i], b[i], pos) {
			return false
		}
	}
	return true
}

func cloneAst(a Ast) Ast {
	a.ClassName = strings.Clone(a.ClassName)
	switch x := a.Value.(type) {
	case string: // its bytes too: whoever built it may write to them again
		a.Value = strings.Clone(x)
	case AstSlice:
		if x != nil {
			a.Value = AstSlice(cloneAsts(x))
		}
	case AstCons:
		a.Value = AstCons{Car: cloneAst(x.Car), Cdr: cloneAst(x.Cdr)}
	}
	return a
}

func cloneAsts(as []Ast) []Ast {
	w := make([]Ast, len(as))
	for i, a := range as {
		w[i] = cloneAst(a)
	}
	return w
}

func hashAsts(h uint64, as []Ast) uint64 {
	for _, a := range as {
		h = hashStr(h, a.ClassName)
		h = mix64(h ^ uint64(a.Type)<<32 ^ uint64(a.OpCode))
		switch x := a.Value.(type) {
		case AstSlice:
			h = hashAsts(h, x)
		case AstCons:
			h = hashAsts(h, []Ast{x.Car, x.Cdr})
		case string:
			h = hashStr(h, x)
		default:
			h = hashStr(h, fmt.Sprint(x))
		}
	}
	return h
}

// ---- predicates ----

var predNames = []string{"evenRune", "isAscii", "notB", "never", "always", "isReplacement"}
var preds = []func(c rune) bool{
	func(c rune) bool { return c%2 == 0 },
	func(c rune) bool { return c < 0x80 },
	func(c rune) bool { return c != 'b' },
	func(c rune) bool { return false },
	func(c rune) bool { return true },
	func(c rune) bool { return c == utf8.RuneError },
}

// ---- transformers ----

type TrKind int

const (
	TrErase TrKind = iota
	TrGroup
	TrClass
	TrOp
	TrOpClass
	TrVal
	TrPrepend
	TrPush
	TrPop
	TrExchange
	TrRoll
	TrConcat
	TrTrim
	TrTrimStart
	TrTrimEnd
	TrLibErr
	// user-written
	TrReverse
	TrDup
	TrTail
	TrCount
	TrFailIf
	TrInPlace
	TrAppend
	TrEmptyNil
	trCount
)

var trNames = [...]string{"Erase", "GroupingTransform", "ChangeClassName", "SetOpCode", "SetOpCodeAndClassName", "SetValue",
	"Prepend", "Push", "Pop", "Exchange", "Roll", "Concat", "Trim", "TrimStart", "TrimEnd", "TransformError",
	"userReverse", "userDup", "userTail", "userCount", "userFailIfMoreThan", "userMarkInPlace", "userAppend", "userNil"}

type TrSpec struct {
	K   TrKind
	S   string
	N   int
	A   Ast
	Err error
}

func (t TrSpec) String() string {
	s := trNames[t.K]
	switch t.K {
	case TrClass, TrLibErr:
		s += fmt.Sprintf("(%q)", t.S)
	case TrOp, TrRoll, TrFailIf:
		s += fmt.Sprintf("(%d)", t.N)
	case TrOpClass:
		s += fmt.Sprintf("(%d,%q)", t.N, t.S)
	case TrVal, TrPrepend, TrPush, TrAppend:
		s += "(" + fmtAst(t.A) + ")"
	}
	return s
}

type nilErr struct{ s string }

func (e *nilErr) Error() string {
	if e == nil {
		return "typed nil"
	}
	return e.s
}

type sliceErr []string

func (e sliceErr) Error() string { return strings.Join(e, ";") }

type valueErr struct{ a, b int }

func (e valueErr) Error() string { return fmt.Sprint("value ", e.a, e.b) }

type emptyErr struct{}

func (e emptyErr) Error() string { return "" }

type wrapErr struct{ inner error }

func (e wrapErr) Error() string        { return "wrapped " + e.inner.Error() }
func (e wrapErr) Unwrap() error        { return e.inner }
func (e wrapErr) Is(target error) bool { return target == nil || target == io.EOF }
func (e wrapErr) Temporary() bool      { return true }
func (e wrapErr) Timeout() bool        { return true }

// oddErr is an error value of some kind that errors can be of.
func oddErr(r *Rng) error {
	switch r.N(14) {
	case 0:
		return io.EOF
	case 1:
		return io.ErrUnexpectedEOF
	case 2:
		return (*nilErr)(nil)
	case 3:
		return &nilErr{fmt.Sprint("p", r.N(1000))}
	case 4:
		return sliceErr{"s", fmt.Sprint(r.N(1000))}
	case 5:
		return sliceErr(nil)
	case 6:
		return valueErr{r.N(2), r.N(2)}
	case 7:
		return emptyErr{}
	case 8:
		return fmt.Errorf("outer %d: %w", r.N(1000), io.EOF)
	case 9:
		return wrapErr{pick(r, []error{io.EOF, errors.New("inner"), fs.ErrNotExist})}
	case 10:
		return pick(r, []error{context.Canceled, context.DeadlineExceeded, fs.ErrNotExist, os.ErrClosed, http1})
	case 11:
		_, err := strconv.Atoi("x" + fmt.Sprint(r.N(9)))
		return err
	case 12:
		return errors.New("")
	}
	return errors.New(pick(r, []string{"unmatched", "Unmatched", "no match", "EOF", "nil", "<nil>", "%d %s %v", "line 1\nline 2", "\xff"}))
}

var http1 = errors.New("EOF")

// sameErr: the very same error value (values that cannot be compared: equal ones).
func sameErr(a, b error) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	if reflect.TypeOf(a).Comparable() {
		if w, ok := a.(wrapErr); ok {
			return sameErr(w.inner, b.(wrapErr).inner)
		}
		return a == b
	}
	return reflect.DeepEqual(a, b)
}

// inErr: is want the error itself or what it wraps?
func inErr(err, want error) bool {
	for ; err != nil; err = errors.Unwrap(err) {
		if sameErr(err, want) {
			return true
		}
	}
	return false
}

// structural transformers that user code writes; every one legal with the slice it is handed
var userTr = []TrKind{TrReverse, TrDup, TrTail, TrCount, TrInPlace, TrAppend, TrEmptyNil}

func genTr(r *Rng, p *Profile) TrSpec {
	var k TrKind
	if p.TrW != nil {
		s := 0
		for i := TrKind(0); i < trCount; i++ {
			s += p.TrW[i]
		}
		x := r.N(s)
		for i := TrKind(0); i < trCount; i++ {
			x -= p.TrW[i]
			if x < 0 {
				k = i
				break
			}
		}
	} else {
		k = TrKind(r.N(int(trCount)))
		if (k == TrLibErr || k == TrFailIf) && r.P(60) {
			k = TrReverse
		}
	}
	return makeTr(r, k)
}

// maxOp is lowered where the same cases are run on platforms with smaller numbers.
var maxOp = math.MaxInt

func anyOp(r *Rng) int {
	if r.P(10) {
		return r.N(9) + pick(r, []int{1 << 8, 1 << 16, math.MaxInt32 - 9, maxOp - 9, -maxOp - 1})
	}
	return r.N(9)
}

func makeTr(r *Rng, k TrKind) TrSpec {
	t := TrSpec{K: k}
	switch k {
	case TrClass, TrOpClass:
		t.S = pick(r, []string{"N1", "N2", ""})
		t.N = anyOp(r)
	case TrOp:
		t.N = anyOp(r)
	case TrVal, TrPrepend, TrPush, TrAppend:
		t.A = genAst(r, 1)
	case TrRoll:
		t.N = r.R(-6, 6)
	case TrLibErr:
		t.S = fmt.Sprintf("T%d", r.N(1000))
		if r.P(3) {
			t.S += strings.Repeat("message ", pick(r, []int{10, 20, 40, 150, 600, 9000}))
		}
	case TrFailIf:
		t.N = r.N(4)
		t.Err = fmt.Errorf("too many %d", r.N(1000))
		if r.P(30) {
			t.Err = oddErr(r)
		}
	}
	return t
}

// build makes the real transformer: the library's own, or user code.
func (t TrSpec) build() TransformerFn {
	switch t.K {
	case TrErase:
		return Erase
	case TrGroup:
		return GroupingTransform
	case TrClass:
		return ChangeClassName(t.S)
	case TrOp:
		return SetOpCode(AstOpCodeType(t.N))
	case TrOpClass:
		return SetOpCodeAndClassName(AstOpCodeType(t.N), t.S)
	case TrVal:
		return SetValue(t.A.Type, t.A.Value)
	case TrPrepend:
		return Prepend(t.A)
	case TrPush:
		return Push(t.A)
	case TrPop:
		return Pop
	case TrExchange:
		return Exchange
	case TrRoll:
		return Roll(t.N)
	case TrConcat:
		return strp.Concat
	case TrTrim:
		return strp.Trim
	case TrTrimStart:
		return strp.TrimStart
	case TrTrimEnd:
		return strp.TrimEnd
	case TrLibErr:
		return TransformError(t.S)
	case TrReverse:
		return func(_ ParserContext, asts AstSlice) (AstSlice, error) {
			w := make(AstSlice, 0, len(asts))
			for i := len(asts) - 1; i >= 0; i-- {
				w = append(w, asts[i])
			}
			return w, nil
		}
	case TrDup:
		return func(_ ParserContext, asts AstSlice) (AstSlice, error) {
			w := append(AstSlice{}, asts...)
			return append(w, asts...), nil
		}
	case TrTail:
		return func(_ ParserContext, asts AstSlice) (AstSlice, error) {
			if len(asts) > 0 {
				return asts[1:], nil
			}
			return asts, nil
		}
	case TrCount:
		return func(_ ParserContext, asts AstSlice) (AstSlice, error) {
			return AstSlice{{ClassName: "Count", Type: AstType_Int, Value: int64(len(asts))}}, nil
		}
	case TrFailIf:
		return func(_ ParserContext, asts AstSlice) (AstSlice, error) {
			if len(asts) > t.N {
				if len(asts)%2 == 0 {
					return asts, t.Err // the list that is returned beside an error is of no account
				}
				return nil, t.Err
			}
			return asts, nil
		}
	case TrInPlace:
		return func(_ ParserContext, asts AstSlice) (AstSlice, error) {
			for i := range asts {
				asts[i].OpCode += 100
			}
			return asts, nil
		}
	case TrAppend:
		return func(_ ParserContext, asts AstSlice) (AstSlice, error) {
			return append(asts, t.A), nil
		}
	case TrEmptyNil:
		return func(_ ParserContext, asts AstSlice) (AstSlice, error) { return nil, nil }
	}
	panic("tr")
}

var errSome = errors.New("some error")

// ref is the documented list function (nil error text for library errors: errSome).
func (t TrSpec) ref(in []Ast) ([]Ast, error) {
	w := append([]Ast(nil), in...)
	n := len(w)
	switch t.K {
	case TrErase, TrEmptyNil:
		return nil, nil
	case TrGroup:
		return []Ast{{ClassName: bclsz.Group, Type: AstType_ListOfAst, Value: AstSlice(append(AstSlice{}, w...))}}, nil
	case TrClass:
		if n > 0 {
			w[0].ClassName = t.S
		}
	case TrOp:
		if n > 0 {
			w[0].OpCode = AstOpCodeType(t.N)
		}
	case TrOpClass:
		if n > 0 {
			w[0].OpCode, w[0].ClassName = AstOpCodeType(t.N), t.S
		}
	case TrVal:
		if n > 0 {
			w[0].Type, w[0].Value = t.A.Type, t.A.Value
		}
	case TrPrepend:
		a := t.A
		if n > 0 {
			a.SourcePosition = w[0].SourcePosition
		}
		return append([]Ast{a}, w...), nil
	case TrPush:
		a := t.A
		if n > 0 {
			a.SourcePosition = w[n-1].SourcePosition
		}
		return append(w, a), nil
	case TrPop:
		if n > 0 {
			return w[:n-1], nil
		}
	case TrExchange:
		if n >= 2 {
			w[n-1], w[n-2] = w[n-2], w[n-1]
		}
	case TrRoll:
		if n > 0 {
			k := t.N % n
			if k < 0 {
				k += n
			}
			return append(append([]Ast(nil), w[k:]...), w[:k]...), nil
		}
	case TrConcat, TrTrim, TrTrimStart, TrTrimEnd:
		out := Ast{Type: AstType_String}
		s := ""
		for i, a := range w {
			if a.Type != AstType_String {
				return nil, errSome
			}
			s += a.Value.(string)
			if i == 0 {
				out.ClassName, out.SourcePosition = a.ClassName, a.SourcePosition
			}
		}
		if t.K == TrTrim || t.K == TrTrimStart {
			for len(s) > 0 {
				c, l := utf8.DecodeRuneInString(s)
				if !refWs(c, l) {
					break
				}
				s = s[l:]
			}
		}
		if t.K == TrTrim || t.K == TrTrimEnd {
			for len(s) > 0 {
				c, l := utf8.DecodeLastRuneInString(s)
				if !refWs(c, l) {
					break
				}
				s = s[:len(s)-l]
			}
		}
		out.Value = s
		return []Ast{out}, nil
	case TrLibErr:
		return nil, errors.New(t.S)
	case TrReverse:
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			w[i], w[j] = w[j], w[i]
		}
	case TrDup:
		return append(w, in...), nil
	case TrTail:
		if n > 0 {
			return w[1:], nil
		}
	case TrCount:
		return []Ast{{ClassName: "Count", Type: AstType_Int, Value: int64(n)}}, nil
	case TrFailIf:
		if n > t.N {
			return nil, t.Err
		}
	case TrInPlace:
		for i := range w {
			w[i].OpCode += 100
		}
	case TrAppend:
		return append(w, t.A), nil
	}
	return w, nil
}

func refWs(c rune, l int) bool {
	switch c {
	case 9, 10, 11, 12, 13, 32, 0x85, 0xa0:
		return true
	}
	return false
}

// ---- cases of Match ----

type CaseSpec struct {
	Test string // any, none, str, int, rune, uint, float, bool, is, classK
	Vals []interface{}
	Let  []TrSpec
}

func (c CaseSpec) String() string {
	var p []string
	for _, t := range c.Let {
		p = append(p, t.String())
	}
	return fmt.Sprintf("{%s%v -> %s}", c.Test, c.Vals, strings.Join(p, ","))
}

func genCase(r *Rng, p *Profile) CaseSpec {
	c := CaseSpec{}
	switch r.W(25, 10, 25, 8, 5, 5, 5, 5, 7) {
	case 0:
		c.Test = "any"
	case 1:
		c.Test = "none"
	case 2:
		c.Test = "str"
		for i := r.N(4); i > 0; i-- {
			c.Vals = append(c.Vals, pick(r, pick(r, alphabets)))
		}
	case 3:
		c.Test = "int"
		for i := r.N(3); i > 0; i-- {
			c.Vals = append(c.Vals, smallInt(r))
		}
	case 4:
		c.Test = "rune"
		for i := r.N(3); i > 0; i-- {
			c.Vals = append(c.Vals, rune('a'+r.N(4)))
		}
	case 5:
		c.Test = "uint"
		for i := r.N(3); i > 0; i-- {
			c.Vals = append(c.Vals, smallUint(r))
		}
	case 6:
		c.Test = "float"
		for i := r.N(3); i > 0; i-- {
			c.Vals = append(c.Vals, smallFloat(r))
		}
	case 7:
		c.Test = "bool"
		for i := r.N(2); i > 0; i-- {
			c.Vals = append(c.Vals, r.P(50))
		}
	case 8:
		c.Test = "is"
		for i := r.N(4); i > 0; i-- {
			c.Vals = append(c.Vals, genAst(r, 1).Value)
		}
	}
	for i := r.W(10, 50, 25); i > 0; i-- {
		c.Let = append(c.Let, genTr(r, p))
	}
	return c
}

// enlarge adds many more values to compare with.
func (c *CaseSpec) enlarge(r *Rng, n int) {
	w := append([]interface{}{}, c.Vals...)
	for ; n > 0; n-- {
		var v interface{}
		switch c.Test {
		case "str":
			v = fmt.Sprintf("v%d", n)
		case "int":
			v = int64(n) + pick(r, []int64{100, 1 << 8, 1 << 16, 1 << 32})
		case "rune":
			v = rune(0x4e00 + n)
		case "uint":
			v = uint64(n) + pick(r, []uint64{100, 1 << 8, 1 << 16, 1 << 32})
		case "float":
			v = float64(n) + 0.25
		case "is":
			v = pick(r, []interface{}{int64(n) + 1<<32, "w", float64(n) + 0.25, nil, uint64(n) + 1<<32})
		default:
			return
		}
		w = append(w, v)
	}
	// the values to meet stand anywhere
	for i := range c.Vals {
		j := r.N(len(w))
		w[i], w[j] = w[j], w[i]
	}
	c.Vals = w
}

func (c CaseSpec) build() MatchCaseIfFn {
	switch c.Test {
	case "any":
		return TopIsAny
	case "none":
		return func(asts AstSlice) bool { return false }
	case "str":
		return TopIsStr(castAll[string](c.Vals)...)
	case "int":
		return TopIsInt(castAll[int64](c.Vals)...)
	case "rune":
		return TopIsRune(castAll[rune](c.Vals)...)
	case "uint":
		return TopIsUint(castAll[uint64](c.Vals)...)
	case "float":
		return TopIsFloat(castAll[float64](c.Vals)...)
	case "bool":
		return TopIsBool(castAll[bool](c.Vals)...)
	case "is":
		return TopIs(c.Vals...)
	}
	panic("case")
}

func castAll[X any](vs []interface{}) []X {
	var w []X
	for _, v := range vs {
		w = append(w, v.(X))
	}
	return w
}

func sameKindEq[X comparable](v interface{}, vs []interface{}) bool {
	x, ok := v.(X)
	if !ok {
		return false
	}
	for _, y := range vs {
		if x == y.(X) {
			return true
		}
	}
	return false
}

// ref: does the test accept when top is the topmost node (nil: no nodes)?
func (c CaseSpec) ref(top *Ast) bool {
	if c.Test == "any" {
		return true
	}
	if c.Test == "none" || top == nil {
		return false
	}
	v := top.Value
	switch c.Test {
	case "str":
		return sameKindEq[string](v, c.Vals)
	case "int":
		return sameKindEq[int64](v, c.Vals)
	case "rune":
		return sameKindEq[rune](v, c.Vals)
	case "uint":
		return sameKindEq[uint64](v, c.Vals)
	case "float":
		return sameKindEq[float64](v, c.Vals)
	case "bool":
		return sameKindEq[bool](v, c.Vals)
	case "is":
		for _, y := range c.Vals {
			if reflect.DeepEqual(v, y) {
				return true
			}
		}
		return false
	}
	panic("case")
}
