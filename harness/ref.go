package main

import (
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	. "github.com/shellyln/takenoco/base"
	bclsz "github.com/shellyln/takenoco/base/classes"
	sclsz "github.com/shellyln/takenoco/string/classes"
)

// snode is a persistent node list: branches share tails and can never disturb each other.
type snode struct {
	a     Ast
	prev  *snode
	depth int
}

func (s *snode) len() int {
	if s == nil {
		return 0
	}
	return s.depth
}

func (s *snode) push(a Ast) *snode { return &snode{a, s, s.len() + 1} }

// above lists the nodes above depth d, bottom first.
func (s *snode) above(d int) []Ast {
	n := s.len() - d
	if n <= 0 {
		return nil
	}
	w := make([]Ast, n)
	for i := n - 1; i >= 0; i-- {
		w[i] = s.a
		s = s.prev
	}
	return w
}

func (s *snode) cut(d int) *snode {
	for s.len() > d {
		s = s.prev
	}
	return s
}

// Event of a run: E enter, X exit, P predicate, T transformer, C case test.
type Event struct {
	Kind byte
	ID   int
	K    int
	Pos  int
	Stk  *snode
	List []Ast
	St   MatchStatusType
	Q    int
}

func (e Event) String() string {
	switch e.Kind {
	case 'E':
		return fmt.Sprintf("enter #%d at %d with %d nodes", e.ID, e.Pos, e.Stk.len())
	case 'X':
		return fmt.Sprintf("leave #%d %v at %d with %d nodes", e.ID, e.St, e.Pos, e.Stk.len())
	case 'P':
		return fmt.Sprintf("predicate #%d of %q", e.ID, rune(e.K))
	case 'T':
		return fmt.Sprintf("transformer #%d.%d of %s", e.ID, e.K, fmtAsts(e.List))
	case 'C':
		return fmt.Sprintf("case test #%d.%d over %d nodes", e.ID, e.K, e.Pos)
	}
	return "?"
}

type Res struct {
	St     MatchStatusType
	Pos    int
	Stk    *snode
	Err    error
	AnyErr bool // the library's own error text is not specified
	Q      int
}

type Ref struct {
	m     *Gram
	src   string
	ev    []Event
	trace bool
	mute  int
	steps int
	calls int // parsers, predicates, tests and transformers called
	limit int
	used  [kindCount]int
	hit   [kindCount]int
	vague bool // met a situation the documentation says nothing about: not judged
}

type refBudget struct{}

func newRef(m *Gram, src string, trace bool) *Ref {
	return &Ref{m: m, src: src, trace: trace, limit: 20000}
}

// Run evaluates the whole grammar; ok is false if the documented work exceeds the step budget.
func (r *Ref) Run() (res Res, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, b := x.(refBudget); b {
				ok = false
				return
			}
			panic(x)
		}
	}()
	res = r.eval(r.m.Root, 0, nil)
	return res, !r.vague
}

func (r *Ref) log(e Event) {
	r.calls++
	if r.trace && r.mute == 0 {
		r.ev = append(r.ev, e)
	}
}

func (r *Ref) eval(g *G, pos int, stk *snode) Res {
	r.steps++
	if r.steps > r.limit {
		panic(refBudget{})
	}
	if g.K == KIf {
		if g.B {
			return r.eval(g.Ch[0], pos, stk)
		}
		return r.eval(g.Ch[1], pos, stk)
	}
	r.log(Event{Kind: 'E', ID: g.ID, Pos: pos, Stk: stk})
	r.used[g.K]++
	res := r.eval1(g, pos, stk)
	if res.St == MatchStatus_Matched {
		r.hit[g.K]++
	}
	r.log(Event{Kind: 'X', ID: g.ID, Pos: res.Pos, Stk: res.Stk, St: res.St, Q: res.Q})
	return res
}

func tok(class, v string, pos, l int) Ast {
	return Ast{ClassName: class, Type: AstType_String, Value: v, SourcePosition: SourcePosition{Position: pos, Length: l}}
}

var tokClass = map[Kind]string{KAny: sclsz.Any, KSeq: sclsz.Seq, KSeqI: sclsz.SeqI, KRange: sclsz.CharRange, KRangeN: sclsz.CharRangeN,
	KClass: sclsz.CharClass, KClassN: sclsz.CharClassN, KFn: sclsz.CharClassFn, KWs: sclsz.Whitespace, KWsNoLB: sclsz.WhitespaceNoLineBreak,
	KLB: sclsz.LineBreak, KAlpha: sclsz.Alpha, KNum: sclsz.Number, KAlnum: sclsz.Alnum, KBin: sclsz.BinNumber, KOct: sclsz.OctNumber,
	KHex: sclsz.HexNumber, KCustom: "User:Custom"}

func inStr(c rune, s string) bool { return c < 0x80 && strings.IndexByte(s, byte(c)) >= 0 }

const digits = "0123456789"
const letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"

// refChar decides a single-character matcher.
func refChar(g *G, rest string, c rune) bool {
	switch g.K {
	case KAny:
		return true
	case KRange, KRangeN:
		in := false
		for _, rr := range g.RR {
			in = in || (c >= rr.Start && c <= rr.End)
		}
		return in == (g.K == KRange)
	case KClassN:
		for _, s := range g.S {
			if strings.HasPrefix(rest, s) {
				return false
			}
		}
		return true
	case KFn:
		return preds[g.Fn](c)
	case KWs:
		return refWs(c, 1)
	case KWsNoLB:
		return c == 9 || c == 32 || c == 0xa0
	case KLB:
		return c == 10 || c == 11 || c == 12 || c == 13 || c == 0x85
	case KAlpha:
		return inStr(c, letters)
	case KNum:
		return inStr(c, digits)
	case KAlnum:
		return inStr(c, digits+letters)
	case KBin:
		return inStr(c, "01")
	case KOct:
		return inStr(c, "01234567")
	case KHex:
		return inStr(c, "0123456789abcdefABCDEF")
	}
	panic("char")
}

func (r *Ref) seq(ch []*G, pos int, stk *snode) Res {
	cur := Res{St: MatchStatus_Matched, Pos: pos, Stk: stk}
	for _, c := range ch {
		q := r.eval(c, cur.Pos, cur.Stk)
		if q.St == MatchStatus_Error {
			return q
		}
		if q.St == MatchStatus_Unmatched {
			return Res{St: MatchStatus_Unmatched, Pos: pos, Stk: stk}
		}
		cur = q
	}
	cur.Q = 1
	return cur
}

func (r *Ref) trans(g *G, base int, id0 int, trs []TrSpec, pos int, stk *snode) Res {
	list := stk.above(base)
	for i, t := range trs {
		r.log(Event{Kind: 'T', ID: g.ID, K: id0 + i, List: list})
		out, err := t.ref(list)
		if err != nil {
			return Res{St: MatchStatus_Error, Pos: pos, Stk: stk, Err: err, AnyErr: err == errSome}
		}
		list = out
	}
	stk = stk.cut(base)
	for _, a := range list {
		stk = stk.push(a)
	}
	return Res{St: MatchStatus_Matched, Pos: pos, Stk: stk, Q: 1}
}

func (r *Ref) eval1(g *G, pos int, stk *snode) Res {
	no := Res{St: MatchStatus_Unmatched, Pos: pos, Stk: stk}
	yes := Res{St: MatchStatus_Matched, Pos: pos, Stk: stk, Q: 1}
	rest := r.src[pos:]
	str := func(s string, v string) Res {
		return Res{St: MatchStatus_Matched, Pos: pos + len(s), Stk: stk.push(tok(tokClass[g.K], v, pos, len(s))), Q: 1}
	}
	switch g.K {
	case KSeq, KCustom:
		if strings.HasPrefix(rest, g.S[0]) {
			return str(g.S[0], g.S[0])
		}
		return no
	case KSeqI:
		l := len(g.S[0])
		if len(rest) >= l && strings.EqualFold(rest[:l], g.S[0]) {
			return str(rest[:l], rest[:l])
		}
		return no
	case KClass:
		for _, s := range g.S {
			if strings.HasPrefix(rest, s) {
				return str(s, s)
			}
		}
		return no
	case KAny, KRange, KRangeN, KClassN, KFn, KWs, KWsNoLB, KLB, KAlpha, KNum, KAlnum, KBin, KOct, KHex:
		if rest == "" {
			return no
		}
		c, l := utf8.DecodeRuneInString(rest)
		if g.K == KFn {
			r.log(Event{Kind: 'P', ID: g.ID, K: int(c)})
		}
		if refChar(g, rest, c) {
			return str(rest[:l], string(c))
		}
		return no
	case KEnd:
		if rest == "" {
			return yes
		}
		return no
	case KStart:
		if pos == 0 {
			return yes
		}
		return no
	case KWB, KUWB:
		if !utf8.ValidString(r.src) || (pos < len(r.src) && !utf8.RuneStart(r.src[pos])) {
			r.vague = true
		}
		word := refAsciiWord
		if g.K == KUWB {
			word = refUniWord
		}
		if refBoundary(r.src, pos, word) {
			return yes
		}
		return no
	case KUnmatched:
		return no
	case KTry:
		return no
	case KError:
		return Res{St: MatchStatus_Error, Pos: pos, Stk: stk, Err: g.Err}
	case KZero:
		for _, a := range g.Asts {
			a.SourcePosition = SourcePosition{Position: pos}
			stk = stk.push(a)
		}
		yes.Stk = stk
		return yes
	case KUser:
		return r.eval(g.Ch[0], pos, stk)
	case KFlat, KTrace:
		return r.seq(g.Ch, pos, stk)
	case KGroup:
		q := r.seq(g.Ch, pos, stk)
		if q.St != MatchStatus_Matched {
			return q
		}
		l, _ := TrSpec{K: TrGroup}.ref(q.Stk.above(stk.len()))
		return Res{St: MatchStatus_Matched, Pos: q.Pos, Stk: stk.push(l[0]), Q: 1}
	case KFirst:
		for _, c := range g.Ch {
			q := r.eval(c, pos, stk)
			if q.St != MatchStatus_Unmatched {
				q.Q = 1
				return q
			}
		}
		return no
	case KLA, KLAN:
		q := r.seq(g.Ch, pos, stk)
		if q.St == MatchStatus_Error {
			return q
		}
		if (q.St == MatchStatus_Matched) == (g.K == KLA) {
			return yes
		}
		return no
	case KLB1, KLBN:
		r.mute++
		defer func() { r.mute-- }()
		found := false
		var raised []Res
		for d := g.Min; d <= g.Max && d <= pos; d++ {
			if found && !g.raises {
				break
			}
			q := r.seq(g.Ch, pos-d, stk)
			if q.St == MatchStatus_Error {
				raised = append(raised, q)
			}
			found = found || q.St == MatchStatus_Matched
		}
		if len(raised) > 0 { // which distance is tried first is not documented
			if found || len(raised) > 1 {
				r.vague = true
			}
			return raised[0]
		}
		if found == (g.K == KLB1) {
			return yes
		}
		return no
	case KRepeat:
		cur := Res{St: MatchStatus_Matched, Pos: pos, Stk: stk}
		n := 0
		for g.Max < 0 || n < g.Max {
			q := r.seq(g.Ch, cur.Pos, cur.Stk)
			if q.St == MatchStatus_Error {
				return q
			}
			if q.St == MatchStatus_Unmatched {
				break
			}
			cur = q
			n++
			r.steps++
			if r.steps > r.limit {
				panic(refBudget{})
			}
		}
		if n < g.Min {
			return no
		}
		cur.Q = n
		return cur
	case KTrans:
		q := r.eval(g.Ch[0], pos, stk)
		if q.St != MatchStatus_Matched {
			return q
		}
		return r.trans(g, stk.len(), 0, g.Tr, q.Pos, q.Stk)
	case KInd:
		q := r.eval(r.m.Rules[g.Rule], pos, stk)
		q.Q = 1
		return q
	case KMatch:
		var top *Ast
		if stk != nil {
			top = &stk.a
		}
		for i, c := range g.Cases {
			r.log(Event{Kind: 'C', ID: g.ID, K: i, Pos: stk.len()})
			if c.ref(top) {
				base := stk.len() - g.N
				if base < 0 {
					base = 0
				}
				return r.trans(g, base, i*100, c.Let, pos, stk)
			}
		}
		return no
	}
	panic("kind " + kindNames[g.K])
}

var _ = bclsz.Group

func refAsciiWord(c rune) bool { return inStr(c, letters+digits+"_$") }

// refUniWord: ID_Continue, '$', ZWNJ, ZWJ, without pattern syntax and pattern white space (other than '$').
func refUniWord(c rune) bool {
	if c == '$' || c == 0x200c || c == 0x200d {
		return true
	}
	return unicode.In(c, unicode.L, unicode.Nl, unicode.Other_ID_Start, unicode.Mn, unicode.Mc, unicode.Nd, unicode.Pc, unicode.Other_ID_Continue) &&
		!unicode.In(c, unicode.Pattern_Syntax, unicode.Pattern_White_Space)
}

func refBoundary(src string, pos int, word func(rune) bool) bool {
	before, after := false, false
	if pos > 0 {
		c, _ := utf8.DecodeLastRuneInString(src[:pos])
		before = word(c)
	}
	if pos < len(src) {
		c, _ := utf8.DecodeRuneInString(src[pos:])
		after = word(c)
	}
	return before != after
}
