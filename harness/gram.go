package main

import (
	"errors"
	"fmt"
	"math"
	"strings"
	"unicode/utf8"

	. "github.com/shellyln/takenoco/base"
)

// Kind of grammar node.
type Kind int

const (
	KAny Kind = iota
	KSeq
	KSeqI
	KRange
	KRangeN
	KClass
	KClassN
	KFn
	KWs
	KWsNoLB
	KLB
	KAlpha
	KNum
	KAlnum
	KBin
	KOct
	KHex
	KEnd
	KStart
	KWB
	KUWB
	KUnmatched
	KError
	KZero
	KFlat
	KGroup
	KFirst
	KLA
	KLAN
	KLB1 // look-behind
	KLBN
	KRepeat
	KTrans
	KInd
	KMatch
	KIf
	KCustom // user-written light parser
	KTry    // user-written parser that succeeds with nodes, then reports failure (its context is dirty)
	KUser   // user-written parser that presets "unmatched" and then runs its child
	KTrace  // a flat group built under debug tracing
	kindCount
)

var kindNames = [...]string{"Any", "Seq", "SeqI", "CharRange", "CharRangeN", "CharClass", "CharClassN", "CharClassFn",
	"Whitespace", "WhitespaceNoLineBreak", "LineBreak", "Alpha", "Number", "Alnum", "BinNumber", "OctNumber", "HexNumber",
	"End", "Start", "WordBoundary", "UnicodeWordBoundary", "Unmatched", "Error", "Zero", "FlatGroup", "Group", "First",
	"LookAhead", "LookAheadN", "LookBehind", "LookBehindN", "Repeat", "Trans", "Indirect", "Match", "If", "Custom", "Dirty", "UserWrap", "DebugTrace"}

var traceScopes = []string{"a", "b", "expr", "", "x/y", "日", "a"}

// scopeName: of a traced part; now and then a very long one.
func scopeName(r *Rng) string {
	s := pick(r, traceScopes)
	if r.P(5) {
		s += strings.Repeat(pick(r, []string{"x", "/", "scope ", "日", "a/"}), pick(r, []int{20, 60, 64, 100, 128, 200, 255, 256, 500, 1024, 5000, 70000}))
	}
	return s
}

// G is a grammar node.
type G struct {
	K        Kind
	ID       int
	Ch       []*G
	S        []string
	RR       []RuneRange
	Fn       int
	Min, Max int
	Sugar    int // which of the equivalent constructors to use
	Msg      string
	Asts     []Ast
	Tr       []TrSpec
	N        int
	Cases    []CaseSpec
	Rule     int
	B        bool
	Err      error
	raises   bool // look-behind only: the body can end in an error
	shared   bool // stands in several places: one parser is built for all of them
}

// Gram is a root and the rules its deferred references stand for.
type Gram struct {
	Root  *G
	Rules []*G
	n     int
	large bool // made large: texts are long, too
	far   int  // length of the part of the text before everything else
	obj   bool // over a slice of bytes instead of a text
}

func (m *Gram) number(g *G) {
	m.n++
	g.ID = m.n
	for _, c := range g.Ch {
		m.number(c)
	}
	if g.K == KLB1 || g.K == KLBN {
		g.raises = false
		for _, c := range g.Ch {
			g.raises = g.raises || raises(c)
		}
	}
}

func (m *Gram) finish() *Gram {
	m.n = 0
	m.number(m.Root)
	for _, r := range m.Rules {
		m.number(r)
	}
	return m
}

func (m *Gram) String() string {
	var sb strings.Builder
	sb.WriteString(m.Root.String())
	for i, r := range m.Rules {
		fmt.Fprintf(&sb, "\n  rule%d = %s", i, r.String())
	}
	return sb.String()
}

func (g *G) String() string {
	name := kindNames[g.K]
	var args []string
	switch g.K {
	case KSeq, KSeqI, KClass, KClassN, KTrace:
		for _, s := range g.S {
			args = append(args, fmt.Sprintf("%q", s))
		}
	case KRange, KRangeN:
		for _, r := range g.RR {
			args = append(args, fmt.Sprintf("%q-%q", r.Start, r.End))
		}
	case KFn:
		args = append(args, predNames[g.Fn])
	case KError:
		args = append(args, fmt.Sprintf("%T %q", g.Err, g.Err.Error()))
	case KZero:
		args = append(args, fmtAsts(g.Asts))
	case KRepeat:
		args = append(args, fmt.Sprintf("{%d,%d}/%d", g.Min, g.Max, g.Sugar))
	case KLB1, KLBN:
		args = append(args, fmt.Sprintf("%d..%d", g.Min, g.Max))
	case KInd:
		args = append(args, fmt.Sprintf("rule%d", g.Rule))
	case KMatch:
		args = append(args, fmt.Sprint(g.N))
		for _, c := range g.Cases {
			args = append(args, c.String())
		}
	case KIf:
		args = append(args, fmt.Sprint(g.B))
	case KCustom:
		args = append(args, fmt.Sprintf("%q", g.S[0]))
	case KTry:
		args = append(args, fmt.Sprint(g.N))
	}
	for _, c := range g.Ch {
		args = append(args, c.String())
	}
	for _, tr := range g.Tr {
		args = append(args, tr.String())
	}
	return name + "(" + strings.Join(args, ", ") + ")"
}

// consumes reports whether every successful match is sure to consume at least one byte.
func (g *G) consumes() bool {
	switch g.K {
	case KAny, KRange, KRangeN, KClassN, KFn, KWs, KWsNoLB, KLB, KAlpha, KNum, KAlnum, KBin, KOct, KHex, KCustom:
		return true
	case KSeq, KSeqI:
		return len(g.S[0]) > 0
	case KClass:
		for _, s := range g.S {
			if s == "" {
				return false
			}
		}
		return true
	case KUnmatched, KError, KTry:
		return true // never match
	case KFlat, KGroup, KTrans, KUser, KTrace:
		for _, c := range g.Ch {
			if c.consumes() {
				return true
			}
		}
		return false
	case KFirst:
		for _, c := range g.Ch {
			if !c.consumes() {
				return false
			}
		}
		return true
	case KRepeat:
		if g.Min < 1 || g.Max == 0 {
			return false
		}
		for _, c := range g.Ch {
			if c.consumes() {
				return true
			}
		}
		return false
	case KInd:
		return true // rules are generated consuming
	case KIf:
		if g.B {
			return g.Ch[0].consumes()
		}
		return g.Ch[1].consumes()
	}
	return false
}

// Profile steers generation.
type Profile struct {
	W        [kindCount]int
	MaxDepth int
	MaxCh    int
	Rules    int
	Erasing  bool // allow transformers that drop or change nodes
	TrW      map[TrKind]int
	Alpha    []string
	Bulk     int // how often wide choices behind many nodes, in percent
	Large    int // how often some part is made large, in percent
	Obj      int // how often the source is a slice of values instead of a text, in percent
	Far      int // how often a large grammar stands behind a very long text, in percent
	Share    int // how often a finished part is put in another place as well, in percent
}

// alphabets: small, so that matches are common; with multi-byte characters.
var alphabets = [][]string{
	{"a", "b", "c"},
	{"a", "b", "A", "1", " ", "_"},
	{"a", "é", "日", "😀", "b"},
	{"0", "1", "7", "9", "f", "G", "-"},
	{" ", "\t", "\n", "\r", "\u0085", "\u00a0", "x"},
	{"a", "b", "aa", "ab", "ba"},
	{"a", "\U00040000", "\U000f0000", "\U00100000", "$"},
	{"a", "b", "\xff", "\xc3", "\x00"},
}

func baseProfile() *Profile {
	p := &Profile{MaxDepth: 5, MaxCh: 4, Rules: 2, Erasing: true, Share: 8}
	for k := KAny; k <= KHex; k++ {
		p.W[k] = 2
	}
	p.W[KAny], p.W[KSeq], p.W[KSeqI], p.W[KRange], p.W[KRangeN], p.W[KClass], p.W[KClassN], p.W[KFn] = 6, 14, 5, 5, 4, 8, 5, 4
	p.W[KEnd], p.W[KStart], p.W[KWB], p.W[KUWB], p.W[KUnmatched], p.W[KError], p.W[KZero] = 4, 2, 3, 2, 2, 1, 3
	p.W[KFlat], p.W[KGroup], p.W[KFirst], p.W[KLA], p.W[KLAN], p.W[KLB1], p.W[KLBN] = 14, 5, 14, 4, 4, 3, 2
	p.W[KRepeat], p.W[KTrans], p.W[KInd], p.W[KMatch], p.W[KIf], p.W[KCustom], p.W[KTry], p.W[KUser] = 16, 8, 5, 3, 1, 2, 2, 2
	return p
}

type genr struct {
	r     *Rng
	p     *Profile
	alpha []string
	rules int
	pool  []pooled
}

// genGram makes a well-formed grammar: unbounded repetitions consume, rules consume before recursing.
func genGram(r *Rng, p *Profile) *Gram {
	g := &genr{r: r, p: p, alpha: pick(r, alphabets)}
	if p.Alpha != nil {
		g.alpha = p.Alpha
	}
	m := &Gram{}
	if p.W[KInd] > 0 && p.Rules > 0 && r.P(60) {
		g.rules = r.R(1, p.Rules)
	}
	scope := 0
	if r.P(50) {
		scope = freeScope
	}
	m.Root = g.gen(r.R(1, p.MaxDepth), g.rules > 0, true, scope)
	for i := 0; i < g.rules; i++ {
		b := g.gen(r.R(1, p.MaxDepth-1), false, true, 0)
		if !b.consumes() {
			b = &G{K: KFlat, Ch: []*G{g.leafConsuming(), b}}
		}
		m.Rules = append(m.Rules, b)
	}
	if p.Bulk > 0 && r.P(p.Bulk) {
		m.bulk(r, g)
	}
	if p.Large > 0 && r.P(p.Large) {
		m.enlarge(r, g)
	}
	return m.finish()
}

var largeSizes = []int{5, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 130, 200, 255, 256, 257, 258, 300}

// chain: rounds which rewrite the node before them step by step without moving, until none of the cases applies.
func (g *genr) chain(n *G) *G {
	r := g.r
	k := r.R(1, 4)
	vals := []Ast{genAst(r, 0)}
	m := &G{K: KMatch, N: 1}
	for i := 1; i <= k; i++ {
		v := genAst(r, 0)
		v.Value = fmt.Sprintf("%d of %d", i, k)
		v.Type = AstType_String
		tr := makeTr(r, TrVal)
		tr.A = v
		m.Cases = append(m.Cases, CaseSpec{Test: "is", Vals: []interface{}{vals[i-1].Value}, Let: []TrSpec{tr}})
		vals = append(vals, v)
	}
	n.Sugar, n.Min, n.Max, n.Ch = 0, bound(r, 3), bound(r, 6), []*G{m}
	if r.P(30) {
		n.Ch = append(n.Ch, &G{K: KZero})
	}
	return &G{K: KFlat, Ch: []*G{{K: KZero, Asts: vals[:1]}, n}}
}

// bound: a limit of a repetition, of which every negative one means none.
func bound(r *Rng, most int) int {
	if k := r.R(-1, most); k >= 0 || r.P(60) {
		return k
	}
	return pick(r, []int{-2, -3, -100, math.MinInt32, -math.MaxInt32})
}

// enlarge makes one to three parts of the grammar large: many children, alternatives, rounds, values, inserted nodes.
func (m *Gram) enlarge(r *Rng, g *genr) {
	m.large = true
	var all []*G
	seen := map[*G]bool{}
	var walk func(n *G)
	walk = func(n *G) {
		if seen[n] {
			return
		}
		seen[n] = true
		for _, c := range n.Ch {
			walk(c)
		}
		switch n.K {
		case KFlat, KTrace, KGroup, KLA, KLAN, KFirst, KRepeat, KLB1, KLBN, KZero, KClass, KClassN, KRange, KRangeN, KMatch, KTrans, KSeq:
			if !n.shared {
				all = append(all, n)
			}
		}
	}
	for _, n := range append([]*G{m.Root}, m.Rules...) {
		walk(n)
	}
	token := func() *G {
		k := r.W(5, 3, 1, 1)
		if g.p.W[KZero] == 0 && k > 1 {
			k = 0
		}
		switch k {
		case 0:
			return &G{K: KAny}
		case 1:
			return &G{K: KSeq, S: []string{pick(r, g.alpha)}}
		case 2:
			return &G{K: KZero}
		}
		return &G{K: KZero, Asts: []Ast{genAst(r, 0)}}
	}
	tokens := func(k int) []*G {
		var w []*G
		var one *G
		if r.P(60) {
			one = token()
		}
		for ; k > 0; k-- {
			n := token()
			if one != nil && r.P(97) {
				c := *one
				n = &c
			}
			w = append(w, n)
		}
		return w
	}
	splice := func(ch, more []*G) []*G {
		at := pick(r, []int{0, len(ch), r.N(len(ch) + 1)})
		return append(append(append([]*G{}, ch[:at]...), more...), ch[at:]...)
	}
	need := 0
	for k := r.R(1, 3); k > 0 && len(all) > 0; k-- {
		n := all[len(all)-1-r.N(1+r.N(len(all)))]
		size := pick(r, largeSizes)
		switch n.K {
		case KFlat, KTrace, KGroup, KLA, KLAN:
			n.Ch = splice(n.Ch, tokens(size))
		case KLB1, KLBN:
			n.Max = n.Min + size
			if r.P(30) {
				n.Min = size
				n.Max = size + r.N(size)
			}
			need = max(need, n.Max+2)
			if r.P(20) {
				n.Ch = splice(n.Ch, tokens(pick(r, largeSizes)))
			}
		case KFirst:
			mn := max(minNodes(n), 1)
			var more []*G
			for ; size > 0; size-- {
				alt := &G{K: KSeq, S: []string{g.str(1) + pick(r, g.alpha) + pick(r, g.alpha)}}
				if r.P(30) {
					alt.S[0] += pick(r, g.alpha) + pick(r, g.alpha)
				}
				if mn > 1 {
					f := &G{K: KFlat, Ch: []*G{alt}}
					for i := 1; i < mn && i < 40; i++ {
						f.Ch = append(f.Ch, &G{K: KAny})
					}
					alt = f
				}
				more = append(more, alt)
			}
			if mn < 40 {
				n.Ch = splice(n.Ch, more)
			}
		case KRepeat:
			n.Sugar = 0
			n.Min = size
			if r.P(30) {
				n.Min = r.N(3)
			}
			n.Max = size + r.N(3)
			if r.P(30) {
				for _, c := range n.Ch {
					if c.consumes() {
						n.Max = -1
					}
				}
			}
		case KZero:
			for size = min(size, 70); size > 0; size-- {
				n.Asts = append(n.Asts, genAst(r, 0))
			}
		case KClass, KClassN:
			var more []string
			for ; size > 0; size-- {
				s := g.str(1) + pick(r, g.alpha) + pick(r, g.alpha)
				if r.P(10) {
					s = string(rune(0x4e00 + size))
				}
				more = append(more, s)
			}
			at := r.N(len(n.S) + 1)
			n.S = append(append(append([]string{}, n.S[:at]...), more...), n.S[at:]...)
		case KSeq:
			for size = min(size, 300); size > 0; size-- {
				n.S[0] += pick(r, g.alpha)
			}
		case KRange, KRangeN:
			var more []RuneRange
			for ; size > 0; size-- {
				c := rune(0x2000 + 10*size)
				more = append(more, RuneRange{Start: c, End: c + rune(r.N(9))})
			}
			at := r.N(len(n.RR) + 1)
			n.RR = append(append(append([]RuneRange{}, n.RR[:at]...), more...), n.RR[at:]...)
		case KMatch:
			for i := min(size, 40); i > 0; i-- {
				c := genCase(r, g.p)
				if c.Test == "any" && r.P(95) {
					c.Test = "none"
				}
				at := r.N(len(n.Cases) + 1)
				n.Cases = append(n.Cases[:at:at], append([]CaseSpec{c}, n.Cases[at:]...)...)
			}
			for i := range n.Cases {
				if r.P(30) {
					n.Cases[i].enlarge(r, size)
				}
			}
		case KTrans:
			for i := min(size, 40); i > 0 && len(n.Tr) > 0; i-- {
				t := n.Tr[r.N(len(n.Tr))]
				if t.K != TrDup {
					n.Tr = append(n.Tr, t)
				}
			}
		}
	}
	switch {
	case r.P(g.p.Far):
		k := pick(r, []int{65530, 65536, 70000, 66000})
		m.far = k
		m.Root = &G{K: KFlat, Ch: []*G{{K: KSeq, S: []string{strings.Repeat("abca", k/4+1)[:k]}}, m.Root}}
	case need > 0 && r.P(80):
		k := need + r.N(4)
		m.Root = &G{K: KFlat, Ch: []*G{{K: KRepeat, Min: k, Max: k, Ch: []*G{{K: KAny}}}, m.Root}}
	}
}

// bulk makes the choices wide and puts many nodes before everything.
func (m *Gram) bulk(r *Rng, g *genr) {
	seen := map[*G]bool{}
	var widen func(n *G)
	widen = func(n *G) {
		if seen[n] {
			return
		}
		seen[n] = true
		for _, c := range n.Ch {
			widen(c)
		}
		if n.K != KFirst || n.shared {
			return
		}
		ch := append([]*G{}, n.Ch...)
		if minNodes(n) > 1 {
			return
		}
		for k := pick(r, []int{1, 4, 7, 8, 9, 16, 20}); k > 0; k-- {
			alt := &G{K: KSeq, S: []string{g.str(1) + pick(g.r, g.alpha) + pick(g.r, g.alpha)}}
			at := r.N(len(ch) + 1)
			ch = append(ch[:at:at], append([]*G{alt}, ch[at:]...)...)
		}
		n.Ch = ch
	}
	for _, n := range append([]*G{m.Root}, m.Rules...) {
		widen(n)
	}
	k := pick(r, []int{15, 16, 31, 33, 63, 64, 65, 100, 127, 129, 255, 257})
	if r.P(2) {
		k = pick(r, []int{1000, 1023, 1024, 1025, 1100})
	}
	m.Root = &G{K: KFlat, Ch: []*G{{K: KRepeat, Min: k, Max: k, Ch: []*G{{K: KAny}}}, m.Root}}
}

func (g *genr) str(minLen int) string {
	n := g.r.W(0, 50, 25, 15, 6)
	if n < minLen {
		n = minLen
	}
	s := ""
	for i := 0; i < n; i++ {
		s += pick(g.r, g.alpha)
	}
	return s
}

func (g *genr) rune1() rune {
	s := pick(g.r, g.alpha)
	c, _ := utf8.DecodeRuneInString(s)
	return c
}

func (g *genr) leafConsuming() *G {
	for {
		k := []Kind{KSeq, KAny, KClass, KRange}[g.r.N(4)]
		l := g.leaf(k)
		if l.consumes() {
			return l
		}
	}
}

func (g *genr) leaf(k Kind) *G {
	n := &G{K: k}
	r := g.r
	switch k {
	case KSeq:
		n.S = []string{g.str(0)}
		if r.P(95) {
			n.S = []string{g.str(1)}
		}
	case KSeqI:
		s := g.str(1)
		for !utf8.ValidString(s) || strings.ContainsRune(s, utf8.RuneError) {
			s = "aB"
		}
		n.S = []string{s}
	case KClass, KClassN:
		c := r.R(1, 4)
		for i := 0; i < c; i++ {
			n.S = append(n.S, g.str(1))
		}
		if r.P(3) {
			n.S = append(n.S, "")
		}
		if r.P(2) {
			n.S = nil
		}
	case KRange, KRangeN:
		c := r.R(1, 3)
		for i := 0; i < c; i++ {
			a, b := g.rune1(), g.rune1()
			if a > b && r.P(90) {
				a, b = b, a
			}
			n.RR = append(n.RR, RuneRange{Start: a, End: b})
		}
	case KFn:
		n.Fn = r.N(len(preds))
	case KError:
		n.Msg = fmt.Sprintf("E%d", r.N(1000))
		if r.P(5) {
			n.Msg += strings.Repeat(pick(r, []string{"x", "é\n", "%d "}), pick(r, []int{20, 60, 130, 300, 1100, 5000, 70000}))
		}
		n.Sugar = r.N(4)
		n.Err = errors.New(n.Msg)
		if r.P(15) {
			n.Sugar, n.Err = r.R(4, 5), errMute
		} else if n.Sugar > 0 && r.P(50) {
			n.Err = oddErr(r)
		}
	case KZero:
		c := r.R(0, 3)
		for i := 0; i < c; i++ {
			n.Asts = append(n.Asts, genAst(r, 1))
		}
	case KCustom:
		n.S = []string{g.str(1)}
	case KTry:
		n.N = r.R(1, 3)
	}
	return n
}

func (g *genr) children(depth int, ind, guarded bool, scope int, min int) []*G {
	n := g.r.R(min, g.p.MaxCh)
	var out []*G
	for i := 0; i < n; i++ {
		c := g.gen(depth-1, ind, guarded, scope)
		out = append(out, c)
		if c.consumes() {
			guarded = true
		}
		if scope >= freeScope {
			continue
		}
		if rewrites(c) {
			scope = 0
		} else {
			scope += minNodes(c)
		}
	}
	return out
}

// rewrites: may a case match inside c change nodes of the scope c stands in?
func rewrites(g *G) bool {
	switch g.K {
	case KMatch:
		return true
	case KFlat, KFirst, KIf, KRepeat, KUser, KTrace:
		for _, c := range g.Ch {
			if rewrites(c) {
				return true
			}
		}
	}
	return false
}

// raises: can c (or a rule) end in an error?
func raises(g *G) bool {
	if g.K == KError || g.K == KInd || g.K == KMatch {
		return true
	}
	if g.K == KTrans && len(g.Tr) > 0 {
		return true
	}
	for _, c := range g.Ch {
		if raises(c) {
			return true
		}
	}
	return false
}

// freeScope: no transformer and no group around, a case match may look at all nodes there are, and ask for more.
const freeScope = 1 << 20

// gen makes a node. ind: references allowed at all; guarded: something was surely consumed since rule entry;
// scope: number of nodes surely produced so far within the enclosing transformer's or group's scope.
func (g *genr) gen(depth int, ind, guarded bool, scope int) *G {
	if len(g.pool) > 0 && g.r.P(g.p.Share) {
		if e := pick(g.r, g.pool); e.scope <= scope && (!e.ind || ind && guarded) {
			e.g.shared = true
			return e.g
		}
	}
	n := g.fresh(depth, ind, guarded, scope)
	if size(n) <= 12 {
		g.pool = append(g.pool, pooled{n, scope, refers(n)})
	}
	return n
}

// pooled is a finished part of the grammar and what it takes to put it elsewhere, too.
type pooled struct {
	g     *G
	scope int
	ind   bool
}

func size(g *G) int {
	n := 1
	for _, c := range g.Ch {
		n += size(c)
	}
	return n
}

func refers(g *G) bool {
	if g.K == KInd {
		return true
	}
	for _, c := range g.Ch {
		if refers(c) {
			return true
		}
	}
	return false
}

func (g *genr) fresh(depth int, ind, guarded bool, scope int) *G {
	r := g.r
	for {
		k := Kind(r.W(g.p.W[:]...))
		if k < KFlat || k == KCustom || k == KTry {
			return g.leaf(k)
		}
		if depth <= 0 && k != KInd {
			if r.P(50) {
				continue
			}
			return g.leafConsuming()
		}
		n := &G{K: k}
		switch k {
		case KFlat:
			n.Ch = g.children(depth, ind, guarded, scope, 1)
		case KTrace:
			n.Ch = g.children(depth, ind, guarded, scope, 1)
			n.S = []string{scopeName(r)}
		case KGroup:
			n.Ch = g.children(depth, ind, guarded, 0, 1)
		case KLA, KLAN:
			n.Ch = g.children(depth, ind, guarded, scope, 1)
		case KLB1, KLBN:
			n.Ch = g.children(depth-1, false, false, scope, 1)
			n.Min = r.N(4)
			n.Max = n.Min + r.R(-1, 4)
		case KUser:
			n.Ch = []*G{g.gen(depth-1, ind, guarded, scope)}
		case KFirst:
			c := r.R(1, g.p.MaxCh)
			if depth > 1 && g.p.Share > 0 && r.P(20) {
				// alternatives over the same text, with one part in common
				sc := 0
				if scope >= freeScope {
					sc = scope
				}
				var vals [3]Ast
				pre := g.gen(depth-2, false, false, 0)
				s := g.gen(depth-2, false, false, sc)
				if sc > 0 && g.p.W[KMatch] > 0 && r.P(50) { // what comes of it depends on the nodes so far
					s = &G{K: KMatch, N: r.R(0, 2)}
					for i := r.R(1, 2); i > 0; i-- {
						s.Cases = append(s.Cases, genCase(r, g.p))
					}
					if r.P(70) && g.p.W[KTrans] > 0 {
						for i := range vals {
							vals[i] = genAst(r, 0)
						}
						s.N = r.N(2)
						s.Cases = s.Cases[:1]
						s.Cases[0].Test, s.Cases[0].Vals = "is", []interface{}{vals[r.N(3)].Value}
					}
					if k := pick(r, []Kind{KLA, KLAN, KFlat, KUser, KMatch}); k != KMatch && g.p.W[k] > 0 {
						s = &G{K: k, Ch: []*G{s}}
					}
				}
				pre.shared, s.shared = true, true
				for i := 0; i < c; i++ {
					f := &G{K: KFlat, Ch: []*G{pre, s}}
					if g.p.W[KTrans] > 0 && r.P(60) {
						f.Ch[0] = &G{K: KTrans, Ch: []*G{pre}, Tr: []TrSpec{genTr(r, g.p)}}
					}
					if vals[0].ClassName+vals[1].ClassName+vals[2].ClassName != "" && r.P(80) {
						tr := makeTr(r, TrPush)
						tr.A = pick(r, vals[:])
						f.Ch[0] = &G{K: KTrans, Ch: []*G{pre}, Tr: []TrSpec{tr}}
					}
					if r.P(50) {
						f.Ch = append(f.Ch, g.gen(depth-2, ind, guarded, sc))
					}
					n.Ch = append(n.Ch, f)
				}
				return n
			}
			for i := 0; i < c; i++ {
				n.Ch = append(n.Ch, g.gen(depth-1, ind, guarded, scope))
			}
		case KRepeat:
			n.Sugar = r.N(5)
			inner := scope
			if scope < freeScope && n.Sugar != 1 && n.Sugar != 2 {
				inner = 0 // an earlier round may have rewritten what was there
			}
			n.Ch = g.children(depth, ind, guarded, inner, 1)
			if r.P(70) && len(n.Ch) > 1 {
				n.Ch = n.Ch[:1]
			}
			if g.p.W[KMatch] > 0 && scope > 0 && r.P(6) {
				// each round gathers the top node anew, without consuming
				n.Sugar, n.Ch = 0, []*G{{K: KMatch, N: 1, Cases: []CaseSpec{{Test: "any", Let: []TrSpec{makeTr(r, TrGroup)}}}}}
				n.Min, n.Max = r.R(0, 3), r.R(0, 5)
				if r.P(30) {
					n.Ch = append(n.Ch, &G{K: KZero})
				}
				return n
			}
			if g.p.W[KMatch] > 0 && g.p.W[KZero] > 0 && r.P(5) {
				return g.chain(n)
			}
			switch n.Sugar {
			case 0:
				n.Min, n.Max = bound(r, 3), bound(r, 5)
			case 1:
				n.Min, n.Max = 1, 1
			case 2:
				n.Min, n.Max = 0, 1
			case 3:
				n.Min, n.Max = 0, -1
			case 4:
				n.Min, n.Max = 1, -1
			}
			if n.Max < 0 {
				any := false
				for _, c := range n.Ch {
					any = any || c.consumes()
				}
				if !any {
					n.Ch = append(n.Ch, g.leafConsuming())
				}
			}
		case KTrans:
			n.Ch = []*G{g.gen(depth-1, ind, guarded, 0)}
			c := r.W(3, 60, 25, 12)
			for i := 0; i < c; i++ {
				n.Tr = append(n.Tr, genTr(r, g.p))
			}
		case KInd:
			if !ind || g.rules == 0 || !guarded {
				continue
			}
			n.Rule = r.N(g.rules)
			n.Sugar = r.N(2)
		case KMatch:
			if scope == 0 {
				if r.P(80) {
					continue
				}
				n.N = 0
			} else {
				n.N = r.R(0, min(scope, 6))
			}
			c := r.R(1, 3)
			for i := 0; i < c; i++ {
				n.Cases = append(n.Cases, genCase(r, g.p))
			}
		case KIf:
			n.B = r.P(50)
			n.Ch = []*G{g.gen(depth-1, ind, guarded, scope), g.gen(depth-1, ind, guarded, scope)}
		}
		return n
	}
}

// minNodes is a lower bound on the nodes a successful match adds (0 when unknown).
func minNodes(g *G) int {
	switch g.K {
	case KAny, KSeq, KSeqI, KRange, KRangeN, KClass, KClassN, KFn, KWs, KWsNoLB, KLB, KAlpha, KNum, KAlnum, KBin, KOct, KHex, KGroup, KCustom:
		return 1
	case KZero:
		return len(g.Asts)
	case KFlat, KUser, KTrace:
		n := 0
		if rewrites(g) {
			return 0
		}
		for _, c := range g.Ch {
			n += minNodes(c)
		}
		return n
	case KFirst:
		m := 1 << 30
		for _, c := range g.Ch {
			m = min(m, minNodes(c))
		}
		return m
	case KRepeat:
		n := 0
		for _, c := range g.Ch {
			n += minNodes(c)
		}
		if g.Min <= 0 || rewrites(g) {
			return 0
		}
		return n * g.Min
	case KIf:
		return 0
	}
	return 0
}

// sample makes a text the grammar is likely to match.
func (m *Gram) sample(r *Rng, g *G, depth int, sb *strings.Builder) {
	if lim := sb.Len() - m.far; lim > 200 && (!m.large || lim > 2500) || depth > 40 {
		return
	}
	switch g.K {
	case KAny, KRangeN, KClassN, KFn:
		sb.WriteString(pick(r, pick(r, alphabets)))
	case KSeq, KCustom:
		sb.WriteString(g.S[0])
	case KSeqI:
		s := g.S[0]
		if r.P(50) {
			s = strings.ToUpper(s)
		}
		sb.WriteString(s)
	case KRange:
		c := pick(r, g.RR)
		if c.Start <= c.End {
			sb.WriteRune(c.Start + rune(r.N(int(c.End-c.Start)+1)))
		}
	case KClass:
		if len(g.S) > 0 {
			sb.WriteString(pick(r, g.S))
		}
	case KWs:
		sb.WriteString(pick(r, []string{" ", "\t", "\n", "\u0085", "\u00a0", "\v"}))
	case KWsNoLB:
		sb.WriteString(pick(r, []string{" ", "\t", "\u00a0"}))
	case KLB:
		sb.WriteString(pick(r, []string{"\n", "\r", "\u0085", "\f"}))
	case KAlpha:
		sb.WriteString(pick(r, []string{"a", "Z", "z", "A"}))
	case KAlnum:
		sb.WriteString(pick(r, []string{"a", "Z", "0", "9"}))
	case KNum, KHex, KOct, KBin:
		sb.WriteString(pick(r, []string{"0", "1", "7", "9", "f"}))
	case KFlat, KGroup, KTrans, KUser, KTrace:
		for _, c := range g.Ch {
			m.sample(r, c, depth+1, sb)
		}
	case KFirst:
		if len(g.Ch) > 0 {
			m.sample(r, pick(r, g.Ch), depth+1, sb)
		}
	case KIf:
		m.sample(r, g.Ch[map[bool]int{true: 0, false: 1}[g.B]], depth+1, sb)
	case KRepeat:
		n := max(g.Min, 0) + r.N(4)
		if g.Max >= 0 && n > g.Max && r.P(70) {
			n = g.Max
		}
		for i := 0; i < n; i++ {
			for _, c := range g.Ch {
				m.sample(r, c, depth+1, sb)
			}
		}
	case KInd:
		if depth < 12 || r.P(30) {
			m.sample(r, m.Rules[g.Rule], depth+1, sb)
		}
	}
}

// gram makes a grammar over texts or, at times, over slices of values.
func (t *T) gram(p *Profile, mk func(*Rng, *Profile) *Gram) *Gram {
	if p.Obj == 0 || !t.P(p.Obj) {
		return mk(t.Rng, p)
	}
	q := *p
	q.Alpha = objAlpha
	m := mk(t.Rng, &q)
	m.obj = true
	seen := map[*G]bool{}
	var fix func(g *G)
	fix = func(g *G) {
		if seen[g] {
			return
		}
		seen[g] = true
		if g.K == KClass || g.K == KClassN {
			g.S = append([]string{}, g.S...)
			for i := range g.S {
				g.S[i] = (g.S[i] + "a")[:1]
			}
		}
		for _, c := range g.Ch {
			fix(c)
		}
	}
	fix(m.Root)
	for _, r := range m.Rules {
		fix(r)
	}
	return m
}

var objAlpha = []string{"a", "b", "c"}

// genInput makes a source text: a sample, a mutated sample or noise.
func (m *Gram) genInput(r *Rng) string {
	s := m.genText(r)
	if m.obj { // one element per byte
		return strings.Map(func(c rune) rune {
			if c < 'a' || c > 'c' {
				return 'a' + c%3
			}
			return c
		}, s)
	}
	return s
}

func (m *Gram) genText(r *Rng) string {
	var sb strings.Builder
	m.sample(r, m.Root, 0, &sb)
	s := sb.String()
	lead := ""
	if m.far > 0 && len(s) > m.far && r.P(95) {
		lead, s = s[:m.far], s[m.far:]
	}
	alpha := pick(r, alphabets)
	switch r.W(40, 40, 20) {
	case 1:
		for k := r.R(1, 3); k > 0; k-- {
			i := r.N(len(s) + 1)
			if m.large && r.P(50) {
				i = len(s) - r.N(1+min(8, len(s)))
			}
			switch r.N(4) {
			case 0:
				s = s[:i] + pick(r, alpha) + s[i:]
			case 1:
				if len(s) > 0 {
					i = r.N(len(s))
					s = s[:i] + s[i+1:]
				}
			case 2:
				s = s[:i]
			case 3:
				s = s + s[i:]
			}
		}
	case 2:
		s = ""
		for k := r.N(12); k > 0; k-- {
			s += pick(r, alpha)
		}
	}
	if r.P(30) {
		s += pick(r, alpha)
	}
	return lead + s
}
