package main

import (
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"

	. "github.com/shellyln/takenoco/base"
	"github.com/shellyln/takenoco/extra"
	strp "github.com/shellyln/takenoco/string"
)

const cpChunk = 4096
const cpChunks = (0x110000 + cpChunk - 1) / cpChunk

// parseAt runs p at a position of a text, after some earlier nodes.
func parseAt(p ParserFn, src string, at int, stack AstSlice) Out {
	ctx := ParserContext{Str: src, AstStack: stack}
	ctx.Position = at
	return outOf(p(ctx))
}

// ---- C06 ----

type charMatcher struct {
	g *G
	p ParserFn
}

func charMatchers(r *Rng) []charMatcher {
	var ms []charMatcher
	add := func(g *G) {
		g.ID = 1
		b := &Builder{m: &Gram{Root: g}, ind: map[int]ParserFn{}, expand: map[int]int{}}
		ms = append(ms, charMatcher{g, b.raw(g)})
	}
	for _, k := range []Kind{KAny, KWs, KWsNoLB, KLB, KAlpha, KNum, KAlnum, KBin, KOct, KHex} {
		add(&G{K: k})
	}
	for i := range preds {
		add(&G{K: KFn, Fn: i})
	}
	cp := func() rune {
		switch r.N(4) {
		case 0:
			return rune(r.N(0x80))
		case 1:
			return rune(r.N(0x800))
		case 2:
			return rune(r.N(0x10000))
		}
		return rune(r.N(0x110000))
	}
	for i := 0; i < 3; i++ {
		var rr []RuneRange
		for j := r.R(1, 4); j > 0; j-- {
			a, b := cp(), cp()
			if a > b && r.P(90) {
				a, b = b, a
			}
			if r.P(20) {
				b = a
			}
			rr = append(rr, RuneRange{Start: a, End: b})
		}
		add(&G{K: KRange, RR: rr})
		add(&G{K: KRangeN, RR: rr})
	}
	add(&G{K: KRange})
	add(&G{K: KRangeN})
	return ms
}

// c06char judges one matcher on the text at a position.
func c06char(t *T, m charMatcher, src string, at int, hits *[kindCount][2]int) {
	var room [1]Ast
	stack := AstSlice(room[:0])
	o := parseAt(m.p, src, at, stack)
	rest := src[at:]
	desc := func() string { return fmt.Sprintf("%s on %q at %d", m.g, src, at) }
	if o.Err != nil || o.St == MatchStatus_Error {
		t.Failf("%s: error %v", desc(), o.Err)
	}
	want := false
	c, l := utf8.DecodeRuneInString(rest)
	if rest != "" {
		want = refChar(m.g, rest, c)
	}
	if want != (o.St == MatchStatus_Matched) {
		t.Failf("%s (character %U): matched %v, documented %v", desc(), c, o.St == MatchStatus_Matched, want)
	}
	if !want {
		hits[m.g.K][0]++
		return
	}
	hits[m.g.K][1]++
	if o.Ctx.Position != at+l {
		t.Failf("%s: ends at %d instead of %d", desc(), o.Ctx.Position, at+l)
	}
	if len(o.Ctx.AstStack) != 1 {
		t.Failf("%s: %d nodes", desc(), len(o.Ctx.AstStack))
	}
	a := o.Ctx.AstStack[0]
	v, ok := a.Value.(string)
	if !ok || v != string(c) || a.Type != AstType_String {
		t.Failf("%s: node %s", desc(), fmtAst(a))
	}
}

func (t *T) flushHits(h *[kindCount][2]int) {
	n := 0
	for k := range h {
		n += h[k][0] + h[k][1]
		if h[k][1] > 0 {
			t.Obs("accepted."+kindNames[k], h[k][1])
		}
		if h[k][0] > 0 {
			t.Obs("rejected."+kindNames[k], h[k][0])
		}
	}
	t.Eval(n)
}

func c06codepoints(t *T, idx int) {
	ms := charMatchers(t.Rng)
	var hits [kindCount][2]int
	pres := []string{"", "a", "é", "😀", "\xff"}
	posts := []string{"", "a", " ", "日", "\x80"}
	for c := rune(idx * cpChunk); c < rune((idx+1)*cpChunk) && c < 0x110000; c++ {
		enc := string(c)
		if c >= 0xd800 && c < 0xe000 { // what a sloppy encoder would write
			enc = string([]byte{0xe0 | byte(c>>12), 0x80 | byte(c>>6)&0x3f, 0x80 | byte(c)&0x3f})
		}
		pre, post := pick(t.Rng, pres), pick(t.Rng, posts)
		src := pre + enc + post
		at := len(pre)
		for _, m := range ms {
			c06char(t, m, src, at, &hits)
		}
		// boundaries of a range right at this character
		g := &G{K: KRange, RR: []RuneRange{{Start: c - rune(t.N(3)) + 1, End: c + rune(t.N(3)) - 1}}}
		p := strp.CharRange(own(g.RR)...)
		if t.P(50) {
			g.K = KRangeN
			p = strp.CharRangeN(own(g.RR)...)
		}
		c06char(t, charMatcher{g, p}, src, at, &hits)
	}
	t.flushHits(&hits)
	t.Distinct(uint64(idx))
	t.Sample(func() string { return fmt.Sprintf("all matchers on every character from %U on", idx*cpChunk) })
}

// c06bytes: every text of up to two bytes (three in the thorough tier), decodable or not.
func c06bytes(t *T, idx int) {
	ms := charMatchers(t.Rng)
	var hits [kindCount][2]int
	try := func(s string) {
		for _, m := range ms {
			c06char(t, m, s, 0, &hits)
		}
	}
	if idx == 0 {
		try("")
		for _, m := range ms { // the end of a non-empty text
			c06char(t, m, "abc", 3, &hits)
			c06char(t, m, "日", 3, &hits)
			c06char(t, m, "日", 1, &hits)
			c06char(t, m, "日", 2, &hits)
		}
	}
	a := byte(idx)
	try(string([]byte{a}))
	for b := 0; b < 256; b++ {
		try(string([]byte{a, byte(b)}))
		if t.Tier == "thorough" || (a >= 0xe0 && b%16 == 0) {
			for c := 0; c < 256; c += 1 {
				try(string([]byte{a, byte(b), byte(c)}))
			}
		}
	}
	if a >= 0xf0 {
		for i := 0; i < 2000; i++ {
			try(string([]byte{a, byte(t.U64()), byte(t.U64()), byte(t.U64()), 'z'}))
			try(string([]byte{a, 0x80 | byte(t.N(64)), 0x80 | byte(t.N(64)), 0x80 | byte(t.N(64)), 'z'}))
		}
	}
	t.flushHits(&hits)
	t.Distinct(1<<32 | uint64(idx))
}

// fold is the least member of a character's folding orbit.
func fold(c rune) rune {
	m := c
	for d := unicode.SimpleFold(c); d != c; d = unicode.SimpleFold(d) {
		if d < m {
			m = d
		}
	}
	return m
}

func foldEq(a, b string) bool {
	x, y := []rune(a), []rune(b)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if fold(x[i]) != fold(y[i]) {
			return false
		}
	}
	return true
}

func c06fold(t *T, idx int) {
	n, acc := 0, 0
	try := func(pat, src string, at int) {
		o := parseAt(strp.SeqI(pat), src, at, nil)
		want := len(src)-at >= len(pat) && utf8.ValidString(src[at:at+len(pat)]) && foldEq(pat, src[at:at+len(pat)])
		n++
		if want != (o.St == MatchStatus_Matched) || o.Err != nil {
			t.Failf("SeqI(%q) on %q at %d: %v, documented match: %v", pat, src, at, o, want)
		}
		if want {
			acc++
			a := o.Ctx.AstStack[len(o.Ctx.AstStack)-1]
			if o.Ctx.Position != at+len(pat) || len(o.Ctx.AstStack) != 1 || a.Value != src[at:at+len(pat)] {
				t.Failf("SeqI(%q) on %q at %d: %v", pat, src, at, o)
			}
		}
	}
	for c := rune(idx * cpChunk); c < rune((idx+1)*cpChunk) && c < 0x110000; c++ {
		if c >= 0xd800 && c < 0xe000 || c == utf8.RuneError {
			continue
		}
		s := string(c)
		try(s, s+"x", 0)
		d := unicode.SimpleFold(c)
		for d != c {
			try(s, string(d)+"x", 0)
			try("a"+s+"K", ">A"+string(d)+"k", 1)
			d = unicode.SimpleFold(d)
		}
		for _, q := range []rune{c ^ 0x20, c + 1, c - 1, c + 32, c - 32} {
			if q >= 0 && q < 0x110000 && (q < 0xd800 || q >= 0xe000) && q != utf8.RuneError {
				try(s, string(q), 0)
			}
		}
	}
	t.Eval(n)
	t.Obs("accepted.SeqI", acc)
	t.Obs("rejected.SeqI", n-acc)
	t.Distinct(2<<32 | uint64(idx))
}

// c06large: words of any length and sets of any size, their members often starting with one another.
func c06large(t *T, idx int) {
	alpha := pick(t.Rng, alphabets[:3])
	n := pick(t.Rng, []int{2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1000, 1025, 4097, 65535, 65537})
	var w []string
	for i := 0; i < n; i++ {
		w = append(w, pick(t.Rng, alpha))
	}
	if t.P(30) {
		w = []string{strings.Repeat(pick(t.Rng, alpha), n)}
	}
	word := strings.Join(w, "")
	pad := strings.Repeat("#", t.N(3)*t.N(200))
	for k := 0; k < 4; k++ {
		src := pad + word + pick(t.Rng, []string{"", "z", word})
		if k > 0 { // one character of it changed, dropped or doubled
			rs := []rune(src)
			at := t.R(len([]rune(pad)), len(rs)-1)
			if t.P(40) {
				at = min(len([]rune(pad))+pick(t.Rng, []int{0, 1, 15, 16, 31, 32, 63, 64, 127, 128, 254, 255, 256, 257, len([]rune(word)) - 1}), len(rs)-1)
			}
			switch t.N(4) {
			case 0:
				rs[at] = []rune(pick(t.Rng, alpha))[0]
			case 1:
				rs[at] = '!'
			case 2:
				rs = append(rs[:at:at], rs[at+1:]...)
			case 3:
				rs[at] = unicode.SimpleFold(rs[at])
			}
			src = string(rs)
		}
		at := len(pad)
		if at > len(src) {
			continue
		}
		fit := len(src)-at >= len(word)
		o := parseAt(strp.Seq(word), src, at, nil)
		if want := fit && src[at:at+len(word)] == word; want != (o.St == MatchStatus_Matched) || want && (o.Ctx.Position != at+len(word) || o.Ctx.AstStack[0].Value != word) {
			t.Failf("Seq of %d bytes (%q) on %q at %d: %v, documented match: %v", len(word), short(word, 300), short(src, 600), at, o.St, want)
		}
		if fit && !utf8.ValidString(src[at:at+len(word)]) {
			continue
		}
		o = parseAt(strp.SeqI(word), src, at, nil)
		want := fit && foldEq(word, src[at:at+len(word)])
		if want != (o.St == MatchStatus_Matched) || want && (o.Ctx.Position != at+len(word) || o.Ctx.AstStack[0].Value != src[at:at+len(word)]) {
			t.Failf("SeqI of %d bytes (%q) on %q at %d: %v, documented match: %v", len(word), short(word, 300), short(src, 600), at, o.St, want)
		}
		t.Obs(map[bool]string{true: "accepted.long", false: "rejected.long"}[want], 1)
		t.Eval(2)
	}
	if n > 1100 {
		return
	}
	// a set of many
	n = pick(t.Rng, []int{1, 7, 8, 9, 12, 13, 16, 17, 20, 32, 33, 64, 65, 128, 129, 255, 256, 257, 300})
	var set []string
	has := map[string]bool{}
	for len(set) < n {
		s := ""
		for i := t.R(1, 4); i > 0; i-- {
			s += string(pick(t.Rng, []rune("abcé=<>日012")))
		}
		if len(set) > 0 && t.P(40) {
			s = pick(t.Rng, set)
			if t.P(50) {
				s += "="
			} else {
				_, l := utf8.DecodeRuneInString(s)
				s = s[l:]
			}
		}
		if s != "" {
			set = append(set, s)
			has[s] = true
		}
	}
	rr := []RuneRange{}
	for i := 0; i < n; i++ {
		a := rune(0x20 + t.N(0x250))
		rr = append(rr, RuneRange{Start: a, End: a + rune(t.N(3))})
	}
	class, classN, ranges, rangesN := strp.CharClass(own(set)...), strp.CharClassN(own(set)...), strp.CharRange(own(rr)...), strp.CharRangeN(own(rr)...)
	for k := 0; k < 12; k++ {
		src := pick(t.Rng, set)
		if t.P(30) {
			src = pick(t.Rng, []string{"=", "a", "é", "日", "z", ">", "<>"})
		}
		src += pick(t.Rng, []string{"", "=", "a", "é", pick(t.Rng, set)})
		first, ok := "", false
		for _, s := range set {
			if strings.HasPrefix(src, s) {
				first, ok = s, true
				break
			}
		}
		o := parseAt(class, src, 0, nil)
		if ok != (o.St == MatchStatus_Matched) || ok && (o.Ctx.Position != len(first) || o.Ctx.AstStack[0].Value != first) {
			t.Failf("CharClass(%q) on %q: %v, the first that matches is %q", set, src, o, first)
		}
		if o = parseAt(classN, src, 0, nil); ok == (o.St == MatchStatus_Matched) {
			t.Failf("CharClassN(%q) on %q: %v, the first that matches is %q", set, src, o, first)
		}
		c := rune(0x20 + t.N(0x250))
		if t.P(40) {
			r := pick(t.Rng, rr)
			c = pick(t.Rng, []rune{r.Start, r.End, r.Start - 1, r.End + 1})
		}
		in := false
		for _, r := range rr {
			in = in || r.Start <= c && c <= r.End
		}
		if o = parseAt(ranges, string(c), 0, nil); in != (o.St == MatchStatus_Matched) {
			t.Failf("CharRange(%v) on %q: %v", rr, c, o)
		}
		if o = parseAt(rangesN, string(c), 0, nil); in == (o.St == MatchStatus_Matched) {
			t.Failf("CharRangeN(%v) on %q: %v", rr, c, o)
		}
		t.Obs(map[bool]string{true: "accepted.sets", false: "rejected.sets"}[ok], 1)
		t.Obs(map[bool]string{true: "accepted.ranges", false: "rejected.ranges"}[in], 1)
		t.Eval(4)
	}
	t.DistinctS(fmt.Sprint(len(word), set))
}

// c06pairs: the single-character matchers before every kind of following text, which must play no part.
func c06pairs(t *T, idx int) {
	firsts := []rune("a0_\r\n\t \v\f\u0085\u00a0éK日😀\u2764\u0301\ufe0f\u200d\ufeff\ufffd\u1100\U0001F1EF\U0010ffff\x00zZAFfg9178@`[{/:")
	nexts := []string{"", "\n", "\r", "\r\n", "\t", " ", "a", "0", "_", "\u0085", "\u00a0", "\u0301", "\u0308\u0301", "\ufe0f", "\ufe0e", "\u200d", "\u200d\U0001F469", "\u20e3", "\U0001F3FB", "\U0001F1F5", "\u1161", "\u11a8",
		"\u0345", "\u3099", "\u0000", "\ufeff", "\u2028", "\u00ad", "\u180e", "\xff", "\x80", "\xc2", "\xe2\x80", "é", "日", "😀", "\"", "'", "\\", "\\n", "u0041", "\U000E0061", "\u0903", "\u0e33", "\u034f"}
	if idx >= len(firsts) {
		return
	}
	var hits [kindCount][2]int
	ms := charMatchers(t.Rng)
	for _, next := range nexts {
		for _, before := range []string{"", "a", "\r", "日", "\U0001F1EF", "\u200d", "\\"} {
			for _, m := range ms {
				c06char(t, m, before+string(firsts[idx])+next, len(before), &hits)
			}
		}
	}
	t.flushHits(&hits)
	t.Distinct(uint64(idx))
}

// c06twins: words and texts that differ in one bit or are neighbours of each other in some table.
func c06twins(t *T, idx int) {
	var pool []rune
	for c := rune(0); c < 128; c++ {
		pool = append(pool, c)
	}
	pool = append(pool, []rune("@[\\]^_`{|}~@[\\]^_`{|}~ÀàÿŸßẞſKkÅåΣσςЖжİıǅǆǄ\u0345\u1fbe\u2028\u2029\ufe0f\u200d\u0301\ufffd")...)
	n := pick(t.Rng, []int{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 20, 33})
	w := make([]rune, n)
	for i := range w {
		w[i] = pick(t.Rng, pool)
	}
	word := string(w)
	set := []string{word + "!", pick(t.Rng, []string{"", "q", "\x00"}) + word, word}
	if t.P(10) {
		set = append([]string{""}, set...)
	} else if t.P(20) {
		set = append(set, "")
	}
	for k := 0; k < 12; k++ {
		v := append([]rune{}, w...)
		for j := t.W(5, 70, 25); j > 0; j-- {
			i := t.N(n)
			switch t.N(6) {
			case 0, 1:
				v[i] ^= 1 << uint(t.N(8))
			case 2:
				v[i] ^= 0x20
			case 3:
				v[i] = unicode.SimpleFold(v[i])
			case 4:
				v[i] += rune(t.R(-1, 1))
			case 5:
				v[i] = pick(t.Rng, pool)
			}
			if v[i] < 0 {
				v[i] = 0
			}
		}
		if t.P(20) {
			for i := range v {
				if v[i] < 128 && t.P(60) {
					v[i] = pick(t.Rng, []func(rune) rune{unicode.ToUpper, unicode.ToLower, unicode.ToTitle})(v[i])
				}
			}
		}
		src := string(v) + pick(t.Rng, []string{"", "!", "x"})
		o := parseAt(strp.SeqI(word), src, 0, nil)
		want := len(src) >= len(word) && utf8.ValidString(src[:len(word)]) && foldEq(word, src[:len(word)])
		if want != (o.St == MatchStatus_Matched) {
			t.Failf("SeqI(%q) on %q: %v, documented match: %v", word, src, o.St, want)
		}
		if want && (o.Ctx.Position != len(word) || o.Ctx.AstStack[0].Value != src[:len(word)]) {
			t.Failf("SeqI(%q) on %q: %v", word, src, o)
		}
		o = parseAt(strp.Seq(word), src, 0, nil)
		if w := strings.HasPrefix(src, word); w != (o.St == MatchStatus_Matched) {
			t.Failf("Seq(%q) on %q: %v", word, src, o)
		}
		first, ok := "", false
		for _, s := range set {
			if strings.HasPrefix(src, s) {
				first, ok = s, true
				break
			}
		}
		o = parseAt(strp.CharClass(own(set)...), src, 0, nil)
		if ok != (o.St == MatchStatus_Matched) || ok && (o.Ctx.Position != len(first) || len(o.Ctx.AstStack) != 1 || o.Ctx.AstStack[0].Value != first) {
			t.Failf("CharClass(%q) on %q: %v", set, src, o)
		}
		o = parseAt(strp.CharClassN(own(set)...), src, 0, nil)
		if okN := !ok && src != ""; okN != (o.St == MatchStatus_Matched) {
			t.Failf("CharClassN(%q) on %q: %v", set, src, o)
		}
		// the classes take one character, whatever follows it
		o = parseAt(strp.Any(), src, 0, nil)
		if _, l := utf8.DecodeRuneInString(src); o.St != MatchStatus_Matched || o.Ctx.Position != l {
			t.Failf("Any on %q: %v", src, o)
		}
		t.Eval(5)
		t.Obs(map[bool]string{true: "accepted.twin", false: "rejected.twin"}[want], 1)
	}
	t.DistinctS(word)
}

func c06strings(t *T, idx int) {
	alpha := pick(t.Rng, alphabets)
	str := func(max int) string {
		s := ""
		for i := t.N(max + 1); i > 0; i-- {
			s += pick(t.Rng, alpha)
		}
		if t.P(3) {
			s = strings.Repeat(s, 200)
		}
		return s
	}
	src := str(10)
	var sets []string
	for i := t.N(6); i > 0; i-- {
		s := str(3)
		if s == "" && t.P(80) {
			continue
		}
		if t.P(30) {
			at := t.N(len(src) + 1)
			s = src[at:][:t.N(min(len(src)-at, 4)+1)]
		}
		sets = append(sets, s)
	}
	for at := 0; at <= len(src); at++ {
		rest := src[at:]
		for _, s := range sets {
			o := parseAt(strp.Seq(s), src, at, nil)
			want := strings.HasPrefix(rest, s)
			if want != (o.St == MatchStatus_Matched) {
				t.Failf("Seq(%q) on %q at %d: %v", s, src, at, o)
			}
			if want && (o.Ctx.Position != at+len(s) || len(o.Ctx.AstStack) != 1 || o.Ctx.AstStack[0].Value != s) {
				t.Failf("Seq(%q) on %q at %d: %v", s, src, at, o)
			}
			t.Obs(map[bool]string{true: "accepted.Seq", false: "rejected.Seq"}[want], 1)
		}
		o := parseAt(strp.CharClass(own(sets)...), src, at, nil)
		first, ok := "", false
		for _, s := range sets {
			if strings.HasPrefix(rest, s) {
				first, ok = s, true
				break
			}
		}
		if ok != (o.St == MatchStatus_Matched) {
			t.Failf("CharClass(%q) on %q at %d: %v", sets, src, at, o)
		}
		if ok && (o.Ctx.Position != at+len(first) || len(o.Ctx.AstStack) != 1 || o.Ctx.AstStack[0].Value != first) {
			t.Failf("CharClass(%q) on %q at %d: %v instead of %q", sets, src, at, o, first)
		}
		t.Obs(map[bool]string{true: "accepted.CharClass", false: "rejected.CharClass"}[ok], 1)
		o = parseAt(strp.CharClassN(own(sets)...), src, at, nil)
		okN := !ok && rest != ""
		if okN != (o.St == MatchStatus_Matched) {
			t.Failf("CharClassN(%q) on %q at %d: %v", sets, src, at, o)
		}
		if okN {
			c, l := utf8.DecodeRuneInString(rest)
			if o.Ctx.Position != at+l || len(o.Ctx.AstStack) != 1 || o.Ctx.AstStack[0].Value != string(c) {
				t.Failf("CharClassN(%q) on %q at %d: %v", sets, src, at, o)
			}
		}
		t.Obs(map[bool]string{true: "accepted.CharClassN", false: "rejected.CharClassN"}[okN], 1)
		o = parseAt(strp.End(), src, at, nil)
		if (at == len(src)) != (o.St == MatchStatus_Matched) {
			t.Failf("End on %q at %d: %v", src, at, o)
		}
		t.Eval(3 + len(sets))
	}
	t.DistinctS(src + "\x00" + strings.Join(sets, "\x00"))
	t.Sample(func() string { return fmt.Sprintf("sets %q on %q", sets, src) })
}

// ---- C12 ----

// refIntText: optional sign (plus only when unsigned), then digits of the radix.
func refIntText(s string, radix int, unsigned bool) (*big.Int, bool) {
	neg := false
	if s != "" && (s[0] == '+' || (s[0] == '-' && !unsigned)) {
		neg = s[0] == '-'
		s = s[1:]
	}
	if s == "" {
		return nil, false
	}
	v := new(big.Int)
	for i := 0; i < len(s); i++ {
		d := 99
		switch c := s[i]; {
		case c >= '0' && c <= '9':
			d = int(c - '0')
		case c >= 'a' && c <= 'z':
			d = int(c-'a') + 10
		case c >= 'A' && c <= 'Z':
			d = int(c-'A') + 10
		}
		if d >= radix {
			return nil, false
		}
		v.Mul(v, big.NewInt(int64(radix)))
		v.Add(v, big.NewInt(int64(d)))
	}
	if neg {
		v.Neg(v)
	}
	return v, true
}

var plainFloat = regexp.MustCompile(`^[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?$`)
var oddFloat = regexp.MustCompile(`(?i)^[+-]?(inf|infinity|nan|0x.*|.*_.*)$`)

// split cuts a text into random string nodes.
func (t *T) split(s string) AstSlice {
	var w AstSlice
	at := t.N(30)
	for s != "" || len(w) == 0 {
		k := len(s)
		if t.P(60) {
			k = t.N(len(s) + 1)
		}
		w = append(w, Ast{ClassName: "part", Type: AstType_String, Value: s[:k], SourcePosition: SourcePosition{Position: at, Length: k}})
		at += k
		s = s[k:]
		if len(w) > 40 {
			w = append(w, tok("part", s, at, len(s)))
			break
		}
	}
	return w
}

// convert applies a transformer to nodes, watching for panics.
func (t *T) convert(name string, tr TransformerFn, in AstSlice) (out AstSlice, err error) {
	defer func() {
		if x := recover(); x != nil {
			t.Failf("%s panics on %s: %v", name, fmtAsts(in), x)
		}
	}()
	return tr(ParserContext{}, in)
}

func c12text(r *Rng, radix int) string {
	digitsOf := "0123456789abcdefghijklmnopqrstuvwxyz"[:radix]
	s := ""
	switch r.W(30, 30, 25, 15, 5) {
	case 0: // near the limits
		lim := pick(r, []*big.Int{big.NewInt(math.MaxInt64), big.NewInt(math.MinInt64), new(big.Int).SetUint64(math.MaxUint64), big.NewInt(0),
			big.NewInt(math.MaxInt32), big.NewInt(math.MaxUint32), new(big.Int).Lsh(big.NewInt(1), 64), big.NewInt(1 << 53)})
		v := new(big.Int).Add(lim, big.NewInt(int64(r.R(-3, 3))))
		s = v.Text(radix)
		if r.P(20) && v.Sign() >= 0 {
			s = "+" + s
		}
	case 1:
		s = pick(r, []string{"", "", "-", "+"})
		for i := r.N(20); i > 0; i-- {
			s += string(digitsOf[r.N(len(digitsOf))])
		}
	case 2:
		s = pick(r, []string{"", "-", "+", "--", "+-", " ", "-+"})
		for i := r.N(6); i > 0; i-- {
			s += pick(r, []string{"0", "1", "9", "z", "G", "_", ".", " ", "e", "x", "0x", "0b", "é", "-", "١", "\x00"})
		}
	case 3:
		v := new(big.Int).SetUint64(r.U64())
		if r.P(50) {
			v = big.NewInt(int64(r.U64()) >> uint(r.N(60)))
		}
		s = v.Text(radix)
	case 4:
		s = strings.Repeat("0", r.N(400)) + string(digitsOf[r.N(len(digitsOf))])
	}
	if r.P(20) {
		s = strings.ToUpper(s)
	}
	if r.P(8) {
		s = pick(r, []string{"+", "-", "++", "+-", "-+", "--", " ", "+ ", "- ", "0", "0x", "0b", "0o", "_", "\uff0b", "\u2212"}) + s
	}
	if r.P(8) {
		at := r.N(len(s) + 1)
		s = s[:at] + pick(r, []string{"_", " ", "+", "-", ".", "\x00", "e", "0", "\u00a0", "\uff11", ",", "'", "l", "u", "n"}) + s[at:]
	}
	return s
}

func c12ints(t *T, idx int) {
	for i := 0; i < 10; i++ {
		radix := t.R(2, 36)
		if t.P(40) {
			radix = pick(t.Rng, []int{2, 8, 10, 16, 36})
		}
		s := c12text(t.Rng, radix)
		t.integer(s, radix)
		if t.P(40) { // the same text once more, read otherwise
			t.integer(s, pick(t.Rng, []int{2, 8, 10, 16, 36}))
		}
		t.Sample(func() string { return fmt.Sprintf("radix %d: %q", radix, s) })
	}
}

// integer converts s in one radix in every way and judges the outcomes.
func (t *T) integer(s string, radix int) {
	type conv struct {
		name     string
		fn       TransformerFn
		unsigned bool
	}
	cs := []conv{{fmt.Sprintf("ParseIntRadix(%d)", radix), strp.ParseIntRadix(radix), false}, {fmt.Sprintf("ParseUintRadix(%d)", radix), strp.ParseUintRadix(radix), true}}
	if radix == 10 {
		cs = append(cs, conv{"ParseInt", strp.ParseInt, false}, conv{"ParseUint", strp.ParseUint, true})
	}
	for _, c := range cs {
		in := t.split(s)
		if t.P(3) && s == "" {
			in = nil
		}
		out, err := t.convert(c.name, c.fn, in)
		v, ok := refIntText(s, radix, c.unsigned)
		if ok && !c.unsigned {
			ok = v.IsInt64()
		} else if ok {
			ok = v.IsUint64()
		}
		if c.unsigned && strings.HasPrefix(s, "-") && err == nil {
			if w, isn := refIntText(s, radix, false); !isn || w.Sign() != 0 {
				t.Failf("%s of %q gives %s", c.name, s, fmtAsts(out))
			}
			continue
		}
		t.Eval(1)
		if ok != (err == nil) {
			t.Failf("%s of %q: error %v, nodes %s; is such a number: %v", c.name, s, err, fmtAsts(out), ok)
		}
		if !ok {
			t.Obs("rejected", 1)
			continue
		}
		t.Obs("converted", 1)
		if len(out) != 1 {
			t.Failf("%s of %q gives %s", c.name, s, fmtAsts(out))
		}
		if c.unsigned {
			g, is := out[0].Value.(uint64)
			if !is || out[0].Type != AstType_Uint || new(big.Int).SetUint64(g).Cmp(v) != 0 {
				t.Failf("%s of %q gives %s", c.name, s, fmtAst(out[0]))
			}
		} else {
			g, is := out[0].Value.(int64)
			if !is || out[0].Type != AstType_Int || big.NewInt(g).Cmp(v) != 0 {
				t.Failf("%s of %q gives %s", c.name, s, fmtAst(out[0]))
			}
		}
		t.DistinctS(c.name + s)
	}
}

// c12long: numbers of up to tens of thousands of digits.
func c12long(t *T, idx int) {
	n := pick(t.Rng, []int{60, 64, 65, 70, 100, 127, 128, 129, 255, 256, 257, 400, 800, 801, 1000, 1024, 1100, 4096, 5000, 20000, 65535, 65536, 66000}) + t.N(3)
	switch t.N(6) {
	case 0: // leading zeros
		radix := pick(t.Rng, []int{2, 8, 10, 16, 36})
		s := c12text(t.Rng, radix)
		sign := ""
		if s != "" && (s[0] == '-' || s[0] == '+') {
			sign, s = s[:1], s[1:]
		}
		t.integer(sign+strings.Repeat("0", n)+s, radix)
	case 1: // far out of range, or spoilt at the end
		t.integer(strings.Repeat(pick(t.Rng, []string{"1", "9", "0", "01"}), n)+pick(t.Rng, []string{"", "x", " ", "_", "-", "7"}), pick(t.Rng, []int{2, 8, 10, 16, 36}))
	case 2: // many zeros made good by the exponent
		t.float(pick(t.Rng, []string{"", "-", "+"}) + "0." + strings.Repeat("0", n) + fmt.Sprint(t.N(100000)) + fmt.Sprintf("e%d", n+t.R(-3, 300)))
	case 3:
		t.float(pick(t.Rng, []string{"", "-"}) + fmt.Sprint(t.R(1, 99999)) + strings.Repeat("0", n) + pick(t.Rng, []string{"", ".", ".0", ".5"}) + fmt.Sprintf("e-%d", n+t.R(-300, 300)))
	case 4: // long fractions
		t.float(fmt.Sprint(t.N(1000)) + "." + strings.Repeat(pick(t.Rng, []string{"0", "9", "3", "14159"}), min(n, 20000)) + fmt.Sprint(t.N(10)))
	case 5: // leading zeros, then a number; or an exponent with leading zeros
		if t.P(50) {
			t.float(strings.Repeat("0", n) + fmt.Sprint(t.N(1000), ".25"))
			t.float(strings.Repeat("0", n) + fmt.Sprintf("%d.5e%d", t.N(1000), t.R(-20, 20)))
		} else {
			t.float(fmt.Sprint(t.N(1000)) + "e" + pick(t.Rng, []string{"", "-", "+"}) + strings.Repeat("0", n) + fmt.Sprint(t.N(300)))
		}
	}
	t.Obs("long numbers", 1)
}

func c12floats(t *T, idx int) {
	for i := 0; i < 10; i++ {
		s := ""
		switch t.W(30, 30, 20, 20) {
		case 0:
			f := math.Float64frombits(t.U64())
			if math.IsNaN(f) || math.IsInf(f, 0) {
				f = 1
			}
			s = fmt.Sprintf(pick(t.Rng, []string{"%v", "%e", "%g", "%.17g", "%.20e", "%f", "%.1f"}), f)
			if t.P(30) { // a half-way case or its neighbours
				a := new(big.Float).SetPrec(200).SetFloat64(f)
				b := new(big.Float).SetPrec(200).SetFloat64(math.Nextafter(f, math.Inf(1)))
				h := new(big.Float).SetPrec(200).Add(a, b)
				h.Quo(h, big.NewFloat(2))
				s = h.Text('e', 60)
				if t.P(60) { // written out in full, decided by its very last digit
					s = h.Text(pick(t.Rng, []byte("efg")), -1)
					if f := math.Abs(f); f > 1e-30 && f < 1e30 {
						s = h.Text('f', t.R(100, 160))
					}
					if t.P(70) {
						m, e, _ := strings.Cut(s, "e")
						if !strings.Contains(m, ".") {
							m += "."
						}
						m += strings.Repeat("0", t.N(30)) + pick(t.Rng, []string{"1", "0", "5"})
						if s = m; e != "" {
							s += "e" + e
						}
					}
				}
			}
		case 1:
			s = pick(t.Rng, []string{"", "-", "+"})
			for k := t.N(25); k > 0; k-- {
				s += string(digits[t.N(10)])
			}
			if t.P(60) {
				s += "."
			}
			for k := t.N(25); k > 0; k-- {
				s += string(digits[t.N(10)])
			}
			if t.P(50) {
				s += pick(t.Rng, []string{"e", "E"}) + pick(t.Rng, []string{"", "-", "+"}) + fmt.Sprint(t.N(330))
			}
		case 2:
			for k := t.N(8); k > 0; k-- {
				s += pick(t.Rng, []string{"0", "1", "9", ".", "e", "E", "-", "+", "_", " ", "x", "p", "é", "inf", "nan"})
			}
		case 3:
			s = pick(t.Rng, []string{"", ".", "-.", "1e", "1e+", "e5", "1e400", "-1e400", "1e-400", "1.7976931348623157e308", "1.7976931348623159e308",
				"4.9e-324", "2e-324", "2.4703282292062327208e-324", "9007199254740993", "0.1", "1..2", "1.2.3", "0", "-0", "+0", "5.", ".5", "00012.5", "1 ", " 1", "1,5"})
		}
		t.float(s)
	}
}

// float converts s and judges the outcome by exact arithmetic.
func (t *T) float(s string) {
	in := t.split(s)
	out, err := t.convert("ParseFloat", strp.ParseFloat, in)
	t.Eval(1)
	if err == nil {
		if len(out) != 1 || out[0].Type != AstType_Float {
			t.Failf("ParseFloat of %q gives %s", s, fmtAsts(out))
		}
		if _, ok := out[0].Value.(float64); !ok {
			t.Failf("ParseFloat of %q gives %s", s, fmtAsts(out))
		}
	}
	if oddFloat.MatchString(s) {
		return
	}
	if !plainFloat.MatchString(s) {
		t.Obs("rejected", 1)
		if err == nil {
			t.Failf("ParseFloat of %q gives %s although it is no number", s, fmtAsts(out))
		}
		return
	}
	r, ok := new(big.Rat).SetString(strings.TrimPrefix(s, "+"))
	if !ok {
		return
	}
	want, _ := r.Float64()
	t.Obs("converted", 1)
	if math.IsInf(want, 0) {
		if err == nil {
			t.Failf("ParseFloat of %q gives %s although it does not fit", s, fmtAsts(out))
		}
		return
	}
	if err != nil {
		t.Failf("ParseFloat of %q: %v", s, err)
	}
	if got := out[0].Value.(float64); got != want || math.Signbit(got) != strings.HasPrefix(s, "-") {
		t.Failf("ParseFloat of %q gives %v instead of %v", s, got, want)
	}
	t.DistinctS(s)
}

func c12runes(t *T, idx int) {
	one := func(name string, tr TransformerFn, a Ast) Ast {
		out, err := t.convert(name, tr, AstSlice{a})
		if err != nil || len(out) != 1 {
			t.Failf("%s of %s: %s, %v", name, fmtAst(a), fmtAsts(out), err)
		}
		if out[0].ClassName != a.ClassName {
			t.Failf("%s of %s: %s", name, fmtAst(a), fmtAst(out[0]))
		}
		return out[0]
	}
	n := 0
	for c := rune(idx * cpChunk); c < rune((idx+1)*cpChunk) && c < 0x110000; c++ {
		i := Ast{ClassName: "c", Type: AstType_Int, Value: int64(c)}
		r := Ast{ClassName: "c", Type: AstType_Rune, Value: c}
		s := Ast{ClassName: "c", Type: AstType_String, Value: string(c)}
		check := func(name string, got, want Ast) {
			n++
			if !astEq(got, want, false) {
				t.Failf("%s of %U gives %s", name, c, fmtAst(got))
			}
		}
		check("RuneFromInt", one("RuneFromInt", strp.RuneFromInt, i), r)
		check("IntFromRune", one("IntFromRune", strp.IntFromRune, r), i)
		if c < 0xd800 || c >= 0xe000 {
			check("StringFromInt", one("StringFromInt", strp.StringFromInt, i), s)
			check("StringFromRune", one("StringFromRune", strp.StringFromRune, r), s)
		}
	}
	t.Eval(n)
	t.Obs("characters converted", n)
	t.Distinct(uint64(idx))
}

func c12mixed(t *T, idx int) {
	// nodes that are no text are refused
	in := t.split("12")
	bad := genAst(t.Rng, 1)
	if bad.Type == AstType_String {
		bad = Ast{Type: AstType_Int, Value: int64(1)}
	}
	k := t.N(len(in) + 1)
	in = append(in[:k:k], append(AstSlice{bad}, in[k:]...)...)
	for name, tr := range map[string]TransformerFn{"ParseInt": strp.ParseInt, "ParseUint": strp.ParseUint, "ParseFloat": strp.ParseFloat,
		"ParseIntRadix(7)": strp.ParseIntRadix(7), "ParseUintRadix(7)": strp.ParseUintRadix(7)} {
		if out, err := t.convert(name, tr, cloneAsts(in)); err == nil {
			t.Failf("%s of %s gives %s", name, fmtAsts(in), fmtAsts(out))
		}
		if out, err := t.convert(name, tr, nil); err == nil {
			t.Failf("%s of no nodes gives %s", name, fmtAsts(out))
		}
		t.Eval(2)
	}
}

// ---- C13 ----

type numRec struct {
	name  string
	p     ParserFn
	re    *regexp.Regexp
	radix int // 0: float
}

const reInt = `(?:0_*|[1-9][0-9_]*)`
const reExp = `(?:[Ee][+-]?[0-9][0-9_]*)`

func numRecs() []numRec {
	c := regexp.MustCompile
	return []numRec{
		{"BinaryNumberStr", extra.BinaryNumberStr(), c(`^[01][01_]*`), 2},
		{"OctalNumberStr", extra.OctalNumberStr(), c(`^[0-7][0-7_]*`), 8},
		{"HexNumberStr", extra.HexNumberStr(), c(`^[0-9A-Fa-f][0-9A-Fa-f_]*`), 16},
		{"IntegerNumberStr", extra.IntegerNumberStr(), c(`^[+-]?` + reInt), 10},
		{"FloatNumberStr", extra.FloatNumberStr(), c(`^[+-]?(?:` + reInt + `\.[0-9_]*` + reExp + `?|\._*[0-9][0-9_]*` + reExp + `?|` + reInt + reExp + `)`), 0},
		{"NumericStr", extra.NumericStr(), c(`^[+-]?(?:` + reInt + `(?:\.[0-9_]*)?|\._*[0-9][0-9_]*)` + reExp + `?`), 0},
	}
}

func c13judge(t *T, r numRec, src string, at int) bool {
	o := parseAt(r.p, src, at, nil)
	m := r.re.FindString(src[at:])
	ok := m != ""
	if ok != (o.St == MatchStatus_Matched) || o.Err != nil {
		t.Failf("%s on %q at %d: %v; the documented prefix is %q", r.name, src, at, o, m)
	}
	if !ok {
		return false
	}
	if o.Ctx.Position != at+len(m) {
		t.Failf("%s on %q at %d: takes %q; the documented prefix is %q", r.name, src, at, src[at:o.Ctx.Position], m)
	}
	v := strings.ReplaceAll(m, "_", "")
	if len(o.Ctx.AstStack) != 1 || o.Ctx.AstStack[0].Type != AstType_String || o.Ctx.AstStack[0].Value != v {
		t.Failf("%s on %q at %d: nodes %s instead of %q", r.name, src, at, fmtAsts(o.Ctx.AstStack), v)
	}
	if !strings.ContainsAny(v, "0123456789abcdefABCDEF") {
		t.Failf("%s on %q: accepts %q without a digit", r.name, src, m)
	}
	if r.radix > 0 {
		b, isn := refIntText(v, r.radix, false)
		if !isn {
			t.Failf("%s on %q: accepts %q, which is no number", r.name, src, m)
		}
		_, err := t.convert("ParseIntRadix", strp.ParseIntRadix(r.radix), AstSlice{o.Ctx.AstStack[0]})
		if b.IsInt64() && err != nil {
			t.Failf("%s on %q: accepts %q, which the conversion refuses: %v", r.name, src, m, err)
		}
	} else {
		_, err := t.convert("ParseFloat", strp.ParseFloat, AstSlice{o.Ctx.AstStack[0]})
		if err != nil && !strings.Contains(err.Error(), "range") {
			t.Failf("%s on %q: accepts %q, which the conversion refuses: %v", r.name, src, m, err)
		}
	}
	return true
}

var c13alpha = []string{"0", "1", "9", "_", ".", "e", "+", "-"}
var c13hex = []string{"0", "1", "7", "8", "a", "F", "g", "_"}

func c13exhaustive(t *T, idx int) {
	// idx: the first two characters
	recs := numRecs()
	length := 6
	if t.Tier == "thorough" {
		length = 8
	}
	alpha := c13alpha
	if idx >= 64 {
		alpha, length = c13hex, 5
		idx -= 64
	}
	n, acc := 0, 0
	var walk func(s string)
	walk = func(s string) {
		for _, r := range recs {
			n++
			if c13judge(t, r, s, 0) {
				acc++
			}
		}
		if len(s) < length {
			for _, a := range alpha {
				walk(s + a)
			}
		}
	}
	walk(alpha[idx/8] + alpha[idx%8])
	if idx == 0 {
		for _, a := range append([]string{""}, append(c13alpha, c13hex...)...) {
			for _, r := range recs {
				n++
				c13judge(t, r, a, 0)
			}
		}
	}
	t.Eval(n)
	t.Obs("accepted", acc)
	t.Obs("rejected", n-acc)
	t.Distinct(uint64(idx) ^ uint64(length)<<20)
}

func c13random(t *T, idx int) {
	recs := numRecs()
	s := ""
	for i := t.R(1, 12); i > 0; i-- {
		x := pick(t.Rng, []string{"0", "1", "5", "8", "9", "12", "_", "__", ".", "e", "E", "+", "-", "a", "f", "F", "g", "x", "b", " ", "é", "\xff", "0b", "0x", "٣"})
		if t.P(5) {
			x = strings.Repeat(x, t.R(2, 300))
		}
		s += x
	}
	acc := 0
	for at := 0; at <= len(s) && at < 40; at++ {
		for _, r := range recs {
			t.Eval(1)
			if c13judge(t, r, s, at) {
				acc++
			}
		}
	}
	t.Obs("accepted", acc)
	if acc > 0 {
		t.DistinctS(s)
	}
	t.Sample(func() string { return fmt.Sprintf("%q", short(s, 100)) })
}

// c13long: runs of digits and underscores far longer than any number.
func c13long(t *T, idx int) {
	n := func() int {
		return pick(t.Rng, []int{0, 1, 1, 2, 127, 128, 255, 256, 257, 1000, 1024, 1500, 4096, 10000, 65535, 65536, 70000}) + t.N(2)
	}
	runOf := func(al string) string {
		switch t.N(3) {
		case 0:
			return strings.Repeat(string(al[t.N(len(al))]), n())
		case 1:
			return strings.Repeat(string(al[t.N(len(al))])+strings.Repeat("_", t.N(3)), n()/2)
		}
		var sb strings.Builder
		for i := n(); i > 0; i-- {
			sb.WriteByte(al[t.N(len(al))])
		}
		return sb.String()
	}
	rs := numRecs()
	r := rs[t.N(len(rs))]
	s := ""
	switch r.radix {
	case 2:
		s = runOf("01_")
	case 8:
		s = runOf("01234567_")
	case 16:
		s = runOf("0123456789abcdefABCDEF_")
	case 10:
		s = pick(t.Rng, []string{"", "+", "-"}) + pick(t.Rng, []string{"", "", "0"}) + runOf("0123456789_")
	default:
		s = pick(t.Rng, []string{"", "+", "-"}) + pick(t.Rng, []string{"", "0", runOf("0123456789_")}) + pick(t.Rng, []string{"", ".", "."}) +
			pick(t.Rng, []string{"", "_", "0", runOf("0123456789_")}) + pick(t.Rng, []string{"", "e", "e-", "E+"}) + pick(t.Rng, []string{"", "1", runOf("0123456789_")})
	}
	s += pick(t.Rng, []string{"", "x", "_", ".", "e", "+", "\x00", "\xff", "é"})
	t.Eval(1)
	t.Obs("accepted", b2i(c13judge(t, r, s, 0)))
	t.Obs("long numbers", 1)
	t.DistinctS(s)
}

// ---- C14 ----

func refIdent(s string, start, cont func(rune) bool) int {
	n := 0
	for n < len(s) {
		c, l := utf8.DecodeRuneInString(s[n:])
		if c == utf8.RuneError && l == 1 {
			break
		}
		if n == 0 && !start(c) || n > 0 && !cont(c) {
			break
		}
		n += l
	}
	return n
}

func asciiStart(c rune) bool { return inStr(c, letters+"_$") }
func uniStart(c rune) bool {
	if c == '_' || c == '$' {
		return true
	}
	return unicode.In(c, unicode.L, unicode.Nl, unicode.Other_ID_Start) && !unicode.In(c, unicode.Pattern_Syntax, unicode.Pattern_White_Space)
}

type identRec struct {
	name string
	p    ParserFn
	s, c func(rune) bool
}

func identRecs() []identRec {
	return []identRec{
		{"AsciiIdentifierStr", extra.AsciiIdentifierStr(), asciiStart, refAsciiWord},
		{"UnicodeIdentifierStr", extra.UnicodeIdentifierStr(), uniStart, refUniWord},
	}
}

func c14ident(t *T, r identRec, src string, at int) bool {
	o := parseAt(r.p, src, at, nil)
	n := refIdent(src[at:], r.s, r.c)
	t.Eval(1)
	if o.Err != nil || (n > 0) != (o.St == MatchStatus_Matched) {
		t.Failf("%s on %q at %d: %v; the identifier is %q", r.name, src, at, o, src[at:at+n])
	}
	if n == 0 {
		return false
	}
	if o.Ctx.Position != at+n {
		t.Failf("%s on %q at %d: takes %q; the identifier is %q", r.name, src, at, src[at:o.Ctx.Position], src[at:at+n])
	}
	if len(o.Ctx.AstStack) != 1 || o.Ctx.AstStack[0].Value != src[at:at+n] || o.Ctx.AstStack[0].Type != AstType_String {
		t.Failf("%s on %q at %d: nodes %s", r.name, src, at, fmtAsts(o.Ctx.AstStack))
	}
	return true
}

type boundRec struct {
	name string
	p    ParserFn
	w    func(rune) bool
}

func boundRecs() []boundRec {
	return []boundRec{{"WordBoundary", strp.WordBoundary(), refAsciiWord}, {"UnicodeWordBoundary", extra.UnicodeWordBoundary(), refUniWord}}
}

func c14bound(t *T, r boundRec, src string, at int) bool {
	o := parseAt(r.p, src, at, nil)
	want := refBoundary(src, at, r.w)
	if o.Err != nil || want != (o.St == MatchStatus_Matched) {
		t.Failf("%s on %q at %d: %v, documented %v", r.name, src, at, o, want)
	}
	if want && (o.Ctx.Position != at || len(o.Ctx.AstStack) != 0) {
		t.Failf("%s on %q at %d: moved: %v", r.name, src, at, o)
	}
	return want
}

func c14codepoints(t *T, idx int) {
	ids, bs := identRecs(), boundRecs()
	n, hit, ids2 := 0, 0, 0
	for c := rune(idx * cpChunk); c < rune((idx+1)*cpChunk) && c < 0x110000; c++ {
		if c >= 0xd800 && c < 0xe000 {
			continue
		}
		s := string(c)
		for _, r := range ids {
			for _, src := range []string{s, "a" + s, s + "b", "é" + s + "$", "-" + s} {
				if c14ident(t, r, src, 0) {
					ids2++
				}
			}
		}
		o := pick(t.Rng, []string{"a", " ", "é", "-", "😀", "_", "$", "日", "\U00100000", "\u200d"})
		for _, r := range bs {
			for _, src := range []string{s, "a" + s, s + "b", " " + s + " ", "x" + s + "y", o + s, s + o, s + s} {
				for at := 0; at <= len(src); at++ {
					if at < len(src) && !utf8.RuneStart(src[at]) {
						continue
					}
					n++
					if c14bound(t, r, src, at) {
						hit++
					}
				}
			}
		}
	}
	t.Eval(n)
	t.Obs("boundaries", hit)
	t.Obs("non-boundaries", n-hit)
	t.Obs("identifiers", ids2)
	t.Distinct(uint64(idx))
}

var wordChars = []string{"a", "Z", "0", "9", "_", "$", "é", "ß", "日", "😀", "\u0301", "\u200c", "\u200d", "\u2118", "\u00b7", "\u0387", "٣", "Ⅷ", "‿", "\U00020000", "\U000e0100",
	"-", " ", ".", "\n", "\u2028", "\u00a0", "℘", "\U00040000", "\U000f0000", "\U0010ffff", "\u2e2f", "^", "`", "@"}

func c14random(t *T, idx int) {
	ids, bs := identRecs(), boundRecs()
	s := ""
	for i := t.N(12); i > 0; i-- {
		s += pick(t.Rng, wordChars)
	}
	if t.P(2) {
		s += strings.Repeat(pick(t.Rng, wordChars), t.R(100, 3000))
	}
	for at := 0; at <= len(s) && at < 60; at++ {
		if at < len(s) && !utf8.RuneStart(s[at]) {
			continue
		}
		for _, r := range ids {
			if c14ident(t, r, s, at) {
				t.Obs("identifiers", 1)
			}
		}
		for _, r := range bs {
			t.Eval(1)
			if c14bound(t, r, s, at) {
				t.Obs("boundaries", 1)
			}
		}
	}
	// undecodable bytes end an identifier
	bad := pick(t.Rng, []string{"a", "é", "_"}) + pick(t.Rng, wordChars) + "\xff" + "b"
	for _, r := range ids {
		c14ident(t, r, bad, 0)
	}
	t.DistinctS(s)
	t.Sample(func() string { return fmt.Sprintf("%q", short(s, 80)) })
}

// ---- C15 ----

var reDate = regexp.MustCompile(`^(-?)([0-9]{4,})-([01][0-9])-([0-3][0-9])`)
var reDateTime = regexp.MustCompile(`^(-?)([0-9]{4,})-([01][0-9])-([0-3][0-9])T([0-2][0-9]):([0-5][0-9])(?::([0-6][0-9])(?:\.([0-9]{1,9}))?)?(?:(Z)|([+-])([0-9]{2}):([0-5][0-9]))`)
var reTime = regexp.MustCompile(`^([0-2][0-9]):([0-5][0-9])(?::([0-6][0-9])(?:\.([0-9]{1,9}))?)?`)

func atoi(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		n = n*10 + int(s[i]-'0')
	}
	return n
}

func leap(y int) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }

// daysBefore counts the days from 0000-01-01 to the date; ok if there is such a date.
func epochDays(y, m, d int) (int64, bool) {
	ml := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}
	if leap(y) {
		ml[1] = 29
	}
	if m < 1 || m > 12 || d < 1 || d > ml[m-1] {
		return 0, false
	}
	shift := int64(0)
	for y < 0 {
		k := (-y + 399) / 400
		y, shift = y+400*k, shift+int64(k)*146097
	}
	n := int64(y)*365 - shift + int64((y+3)/4) - int64((y+99)/100) + int64((y+399)/400)
	for i := 0; i < m-1; i++ {
		n += int64(ml[i])
	}
	return n + int64(d-1) - 719528, true
}

type dtRec struct {
	name string
	p, q ParserFn
	tr   TransformerFn
	kind int
}

func dtRecs() []dtRec {
	return []dtRec{
		{"DateStr", extra.DateStr(), Trans(extra.DateStr(), extra.ParseDate), extra.ParseDate, 0},
		{"DateTimeStr", extra.DateTimeStr(), Trans(extra.DateTimeStr(), extra.ParseDateTime), extra.ParseDateTime, 1},
		{"TimeStr", extra.TimeStr(), Trans(extra.TimeStr(), extra.ParseTime), extra.ParseTime, 2},
	}
}

type dtWant struct {
	text  string // consumed
	norm  string
	real  int // 1: a real instant, 0: none, -1: not judged (only an error or the right instant)
	sec   int64
	nanos int
	year  int
}

func pad9(s string) string { return (s + "000000000")[:9] }

func refDT(kind int, s string) (w dtWant, ok bool) {
	var m []string
	y, mo, d, h, mi, se, ns, off := 1970, 1, 1, 0, 0, 0, 0, 0
	neg := false
	odd := false
	switch kind {
	case 0:
		if m = reDate.FindStringSubmatch(s); m == nil {
			return
		}
		neg, y, mo, d = m[1] != "", atoi(m[2][max(0, len(m[2])-9):]), atoi(m[3]), atoi(m[4])
		odd = neg || len(m[2]) > 4
		w.text, w.norm = m[0], m[0]
	case 1:
		if m = reDateTime.FindStringSubmatch(s); m == nil {
			return
		}
		neg, y, mo, d = m[1] != "", atoi(m[2][max(0, len(m[2])-9):]), atoi(m[3]), atoi(m[4])
		odd = neg || len(m[2]) > 4
		h, mi, se, ns = atoi(m[5]), atoi(m[6]), atoi(m[7]), atoi(pad9(m[8]))
		tz := "+00:00"
		bad := false
		if m[9] == "" {
			tz = m[10] + m[11] + ":" + m[12]
			oh := atoi(m[11])
			off = oh*3600 + atoi(m[12])*60
			if m[10] == "-" {
				off = -off
			}
			if oh == 24 {
				odd = true
			}
			bad = oh > 24
		}
		w.text = m[0]
		secs := m[7]
		if secs == "" {
			secs = "00"
		}
		w.norm = m[1] + m[2] + "-" + m[3] + "-" + m[4] + "T" + m[5] + ":" + m[6] + ":" + secs + "." + pad9(m[8]) + tz
		if bad {
			return w, true
		}
	case 2:
		if m = reTime.FindStringSubmatch(s); m == nil {
			return
		}
		h, mi, se, ns = atoi(m[1]), atoi(m[2]), atoi(m[3]), atoi(pad9(m[4]))
		secs := m[3]
		if secs == "" {
			secs = "00"
		}
		w.text, w.norm = m[0], m[1]+":"+m[2]+":"+secs+"."+pad9(m[4])
	}
	if neg {
		y = -y
	}
	w.year = y
	if len(m) > 2 && kind != 2 && len(m[2]) > 9 {
		w.year = 1 << 30
	}
	days, real := epochDays(y, mo, d)
	real = real && h < 24 && mi < 60 && se < 60
	w.sec, w.nanos = days*86400+int64(h*3600+mi*60+se)-int64(off), ns
	if real {
		w.real = 1
		if odd {
			w.real = -1
		}
	}
	return w, true
}

func c15judge(t *T, r dtRec, src string, at int) {
	t.Eval(1)
	desc := fmt.Sprintf("%s on %q at %d", r.name, src, at)
	o := parseAt(r.p, src, at, nil)
	w, ok := refDT(r.kind, src[at:])
	if o.Err != nil || ok != (o.St == MatchStatus_Matched) {
		t.Failf("%s: %v; documented match: %v", desc, o, ok)
	}
	q := parseAt(r.q, src, at, nil)
	if !ok {
		t.Obs("rejected", 1)
		if q.St != MatchStatus_Unmatched {
			t.Failf("%s with conversion: %v", desc, q)
		}
		return
	}
	if o.Ctx.Position != at+len(w.text) {
		t.Failf("%s: takes %q instead of %q", desc, src[at:o.Ctx.Position], w.text)
	}
	if len(o.Ctx.AstStack) != 1 || o.Ctx.AstStack[0].Value != w.norm {
		t.Failf("%s: %s instead of %q", desc, fmtAsts(o.Ctx.AstStack), w.norm)
	}
	if w.real == 0 {
		t.Obs("unreal instants", 1)
		if q.St != MatchStatus_Error || q.Err == nil {
			t.Failf("%s: there is no such instant, yet the conversion gives %v", desc, q)
		}
		return
	}
	if w.real < 0 {
		if q.St == MatchStatus_Error {
			return
		}
		if w.year > 9999999 || w.year < -9999999 {
			return // beyond what the reference counts
		}
	} else if q.St != MatchStatus_Matched {
		t.Failf("%s with conversion: %v", desc, q)
	}
	t.Obs("instants", 1)
	if len(q.Ctx.AstStack) != 1 {
		t.Failf("%s with conversion: %s", desc, fmtAsts(q.Ctx.AstStack))
	}
	tm, is := q.Ctx.AstStack[0].Value.(time.Time)
	if !is {
		t.Failf("%s with conversion: %s", desc, fmtAsts(q.Ctx.AstStack))
	}
	if tm.Location() != time.UTC || tm.Unix() != w.sec || tm.Nanosecond() != w.nanos {
		t.Failf("%s gives %v; the instant is %d.%09d s after the epoch", desc, tm, w.sec, w.nanos)
	}
	if w.real > 0 {
		t.DistinctS(w.text)
	}
}

func c15text(r *Rng) string {
	two := func(a, b int) string { return fmt.Sprintf("%02d", r.R(a, b)) }
	y := fmt.Sprintf("%04d", pick(r, []int{0, 1, 4, 99, 100, 400, 1582, 1899, 1900, 1969, 1970, 1972, 1999, 2000, 2023, 2024, 2038, 2100, 9999, r.N(10000)}))
	if r.P(5) {
		y = pick(r, []string{"-2024", "10000", "12345", "123", "-0001", "02024", "-0000", "99999999999", "-0400", "-9999", "-10000", "002024"})
	}
	date := y + "-" + two(1, 12) + "-" + two(1, 31)
	if r.P(20) {
		date = y + "-" + pick(r, []string{"02-28", "02-29", "02-30", "04-30", "04-31", "12-31", "01-00", "00-10", "13-01", "19-39", "01-32"})
	}
	tm := two(0, 23) + ":" + two(0, 59)
	if r.P(15) {
		tm = pick(r, []string{"24:00", "23:59", "00:00", "25:10", "29:59", "12:60", "1:30", "30:00"})
	}
	switch r.N(3) {
	case 0:
	case 1:
		tm += ":" + two(0, 59)
	case 2:
		tm += ":" + two(0, 62)
	}
	if r.P(45) {
		tm += "."
		for i := r.N(12); i > 0; i-- {
			tm += string(digits[r.N(10)])
		}
	}
	tz := pick(r, []string{"Z", "Z", "", "z", "+00:00", "-00:00", "+09:00", "-12:30", "+14:00", "+23:59", "-23:59", "+24:00", "+25:00", "+99:00", "+05:60", "+5:00", "+0530", "+05"})
	if r.P(20) {
		tz = pick(r, []string{"+", "-"}) + two(0, 30) + ":" + two(0, 60)
	}
	s := ""
	switch r.N(4) {
	case 0:
		s = date
	case 1:
		s = tm
	default:
		s = date + pick(r, []string{"T", "T", "T", "T", "T", "T", "t", " "}) + tm + tz
	}
	if r.P(15) && len(s) > 0 {
		i := r.N(len(s))
		switch r.N(3) {
		case 0:
			s = s[:i] + s[i+1:]
		case 1:
			s = s[:i] + pick(r, []string{"0", "9", "-", ":", ".", "T", "Z", " ", "+", "６"}) + s[i:]
		case 2:
			s = s[:i]
		}
	}
	if r.P(20) {
		s += pick(r, []string{"x", "0", "Z", ".5", ":30", " "})
	}
	return s
}

func c15random(t *T, idx int) {
	rs := dtRecs()
	for i := 0; i < 10; i++ {
		pre := pick(t.Rng, []string{"", "", "", "x", "2"})
		s := pre + c15text(t.Rng)
		for _, r := range rs {
			c15judge(t, r, s, len(pre))
		}
		t.Sample(func() string { return fmt.Sprintf("%q", s) })
	}
}

// c15grid: every month and day number of a year, every clock time, every offset.
func c15grid(t *T, idx int) {
	rs := dtRecs()
	years := []int{0, 1, 4, 100, 400, 1582, 1600, 1700, 1900, 1969, 1970, 2000, 2023, 2024, 2100, 4000, 9996, 9999}
	switch {
	case idx < 40:
		y := t.N(10000)
		if idx < len(years) {
			y = years[idx]
		}
		for m := 0; m <= 19; m++ {
			for d := 0; d <= 39; d++ {
				c15judge(t, rs[0], fmt.Sprintf("%04d-%02d-%02d", y, m, d), 0)
			}
		}
	case idx < 70:
		h := idx - 40
		for mi := 0; mi < 60; mi++ {
			for s := 0; s < 70; s++ {
				c15judge(t, rs[2], fmt.Sprintf("%02d:%02d:%02d", h, mi, s), 0)
			}
			c15judge(t, rs[2], fmt.Sprintf("%02d:%02d", h, mi), 0)
		}
	case idx < 170:
		h := idx - 70
		y := pick(t.Rng, years)
		for mi := 0; mi < 60; mi++ {
			for _, sg := range []string{"+", "-"} {
				if y == 0 || y == 9999 {
					y = 2000 // the instant itself must lie within the years judged
				}
				c15judge(t, rs[1], fmt.Sprintf("%04d-%02d-%02dT%02d:%02d%s%02d:%02d", y, t.R(1, 12), t.R(1, 28), t.N(24), t.N(60), sg, h, mi), 0)
			}
		}
	}
}

// nearMisses calls f with every text that differs from s in one character: left out, replaced or inserted, by any ASCII
// character and by some digits and letters of other scripts.
func nearMisses(s string, f func(string)) {
	odd := []string{"６", "é", "\u0660", "\xff", "\u2212", "\u00b2", "Ｔ", "\u212a"}
	for c := 0; c < 128; c++ {
		odd = append(odd, string(rune(c)))
	}
	f(s)
	for i := 0; i <= len(s); i++ {
		for _, c := range odd {
			f(s[:i] + c + s[i:])
			if i < len(s) {
				f(s[:i] + c + s[i+1:])
			}
		}
		if i < len(s) {
			f(s[:i] + s[i+1:])
			f(s[:i])
		}
	}
}

// lookalikes: every character in a random place of one of the texts.
func (t *T) lookalikes(chunk int, bases []string, f func(string)) {
	for c := rune(chunk * cpChunk); c < rune((chunk+1)*cpChunk) && c <= 0x10ffff; c++ {
		for k := 2*b2i(c < 0x3000) + b2i(c < 0x10000) + 1; k > 0; k-- {
			s := pick(t.Rng, bases)
			i := t.N(len(s) + 1)
			if i < len(s) && t.P(60) {
				f(s[:i] + string(c) + s[i+1:])
			} else {
				f(s[:i] + string(c) + s[i:])
			}
		}
	}
	t.Distinct(uint64(chunk))
}

func c15lookalikes(t *T, idx int) {
	rs := dtRecs()
	t.lookalikes(idx, c15bases, func(s string) {
		for _, r := range rs {
			c15judge(t, r, s, 0)
		}
	})
}

func c13lookalikes(t *T, idx int) {
	recs := numRecs()
	n, acc := 0, 0
	t.lookalikes(idx, c13bases, func(s string) {
		for _, r := range recs {
			n++
			acc += b2i(c13judge(t, r, s, 0))
		}
	})
	t.Eval(n)
	t.Obs("accepted", acc)
	t.Obs("rejected", n-acc)
}

var c15bases = []string{"2024-02-29", "0001-10-31", "23:59:58.123456789", "00:00", "10:20:30", "2024-02-29T23:59:59.999999999+09:30", "1999-12-31T10:20Z",
	"2000-01-01T00:00:00-11:45", "2020-10-20T19:08:37.5Z", "-0044-03-15T12:00:00Z"}

func c15near(t *T, idx int) {
	rs := dtRecs()
	nearMisses(c15bases[idx], func(s string) {
		for _, r := range rs {
			c15judge(t, r, s, 0)
		}
	})
	t.Distinct(uint64(idx))
}

var c13bases = []string{"0", "-12", "+7.5", "1.25e-10", "-.5E+3", "6.", "0b101", "0B0011", "0o7654", "0x1aF", "0XdeadBEEF", "1_000", "NaN", "-Infinity", "09", "-0.0", "1e5"}

func c13near(t *T, idx int) {
	recs := numRecs()
	n, acc := 0, 0
	nearMisses(c13bases[idx], func(s string) {
		for _, r := range recs {
			n++
			acc += b2i(c13judge(t, r, s, 0))
		}
	})
	t.Eval(n)
	t.Obs("accepted", acc)
	t.Obs("rejected", n-acc)
}

// ---- C22 ----

func c22judge(t *T, src string, pos, tab int) {
	if pos > 0 && pos < len(src) && src[pos-1] == '\r' && src[pos] == '\n' {
		// inside a line end, where only agreement with itself is asked for
		t.Eval(1)
		got := GetLineAndColPosition(src, SourcePosition{Position: pos}, tab)
		if got.Position != pos || got.LineIndex < 0 || got.LineIndex > pos || got.Col != pos-got.LineIndex+1 || got.Line < 1 {
			t.Failf("line %d column %d line index %d position %d between the two bytes of a line end: text %q, position %d", got.Line, got.Col, got.LineIndex, got.Position, short(src, 300), pos)
		}
		return
	}
	t.Eval(1)
	desc := func() string {
		return fmt.Sprintf("text %s of %d bytes, position %d, tab size %d", short(fmt.Sprintf("%q", src), 3000), len(src), pos, tab)
	}
	var got LineAndColPosition
	func() {
		defer func() {
			if x := recover(); x != nil {
				t.Failf("panic %v: %s", x, desc())
			}
		}()
		got = GetLineAndColPosition(src, SourcePosition{Position: pos}, tab)
	}()
	// line starts before or at the position
	starts := []int{0}
	for i := 0; i < pos; i++ {
		if src[i] == '\n' || (src[i] == '\r' && !(i+1 < len(src) && src[i+1] == '\n')) {
			starts = append(starts, i+1)
		}
	}
	start := starts[len(starts)-1]
	if got.Line != len(starts) || got.Col != pos-start+1 || got.LineIndex != start || got.Position != pos {
		t.Failf("line %d column %d line index %d position %d; it is line %d column %d line index %d: %s",
			got.Line, got.Col, got.LineIndex, got.Position, len(starts), pos-start+1, start, desc())
	}
	end := start
	for end < len(src) && src[end] != '\n' && src[end] != '\r' {
		end++
	}
	widen := func(s string) string { return strings.ReplaceAll(s, "\t", strings.Repeat(" ", tab)) }
	lines := splitLines(got.ErrSource)
	var want []string
	if len(starts) > 1 {
		ps := starts[len(starts)-2]
		want = append(want, "   | "+widen(strings.TrimRight(src[ps:start], "\r\n")))
	}
	want = append(want, " > | "+widen(src[start:end]))
	if len(lines) != len(want)+1 {
		t.Failf("excerpt %q; should show %q: %s", got.ErrSource, want, desc())
	}
	for i := range want {
		if lines[i] != want[i] {
			t.Failf("excerpt line %q instead of %q: %s", lines[i], want[i], desc())
		}
	}
	caret := lines[len(lines)-1]
	k := strings.IndexByte(caret, '^')
	ascii := true
	for i := start; i < pos; i++ {
		ascii = ascii && src[i] < 0x80
	}
	if k < 0 || !strings.HasPrefix(caret, "   | ") || strings.Trim(caret[5:k], " ") != "" {
		t.Failf("caret line %q: %s", caret, desc())
	}
	if ascii && k-5 != len(widen(src[start:pos])) {
		t.Failf("caret at column %d instead of %d in %q: %s", k-5, len(widen(src[start:pos])), got.ErrSource, desc())
	}
	if len(starts) > 1 {
		t.Obs("later lines", 1)
	}
}

func splitLines(s string) []string {
	s = strings.ReplaceAll(s, "\r\n", "\n")
	s = strings.ReplaceAll(s, "\r", "\n")
	return strings.Split(s, "\n")
}

func c22exhaustive(t *T, idx int) {
	alpha := []string{"a", "\t", "\r", "\n", "é"}
	n := 6
	if t.Tier == "thorough" {
		n = 9
	}
	var walk func(s string, k int)
	walk = func(s string, k int) {
		for pos := 0; pos <= len(s); pos++ {
			c22judge(t, s, pos, []int{0, 1, 4, 8}[(pos+k)%4])
		}
		if k < n {
			for _, a := range alpha {
				walk(s+a, k+1)
			}
		}
	}
	if idx == 0 {
		c22judge(t, "", 0, 4)
		for _, a := range alpha {
			for pos := 0; pos <= len(a); pos++ {
				c22judge(t, a, pos, 4)
			}
		}
	}
	walk(alpha[idx/5]+alpha[idx%5], 2)
	t.Distinct(uint64(idx))
}

// c22far: lines, columns and offsets beyond 16 bits.
func c22far(t *T, idx int) {
	n := pick(t.Rng, []int{65530, 65536, 66000, 131072, 70000})
	eol := pick(t.Rng, []string{"\n", "\r", "\r\n"})
	s := ""
	switch idx % 4 {
	case 0: // a long line among others
		s = strings.Repeat("ab"+eol, t.N(5)) + strings.Repeat(pick(t.Rng, []string{"x", " ", "\t", "ab c"}), n) + eol + "next"
	case 1: // many lines
		s = strings.Repeat("l"+eol, n) + "last"
	case 2: // many empty lines
		s = strings.Repeat(eol, n) + "a\tb"
	case 3: // two long lines
		s = strings.Repeat("y", n) + eol + strings.Repeat("z", n) + eol
	}
	for i := 0; i < 5; i++ {
		c22judge(t, s, t.N(len(s)+1), pick(t.Rng, []int{0, 1, 4}))
	}
	for _, pos := range []int{len(s), len(s) - 1, 65534, 65535, 65536, 65537, len(s) - 3} {
		c22judge(t, s, min(pos, len(s)), 4)
	}
	t.Distinct(uint64(idx))
}

func c22random(t *T, idx int) {
	s := ""
	big := t.P(3)
	for i := t.N(40); i > 0; i-- {
		x := pick(t.Rng, []string{"a", "bc", "\t", "\r\n", "\n", "\r", " ", "日本", "\xff", "\u2028", "\u0085", "\v", "\f", "> | ", "^", "%s", "\x00"})
		if big && t.P(20) {
			x = strings.Repeat(x, t.R(100, 2000))
		}
		s += x
	}
	for i := 0; i < 12; i++ {
		c22judge(t, s, t.N(len(s)+1), pick(t.Rng, []int{0, 1, 2, 3, 4, 8, 13, 16, 33, 64, 100, 200, 300}))
	}
	c22judge(t, s, len(s), 4)
	c22judge(t, s, 0, 4)
	t.DistinctS(s)
	t.Sample(func() string { return fmt.Sprintf("%q", short(s, 120)) })
}

func init() {
	register(&Prop{
		ID:   "C06",
		Rule: "a case is a block of 4096 characters (all of them, surrogates as raw bytes, are covered), a leading byte with every second byte, or random string sets on a random text; all are non-trivial",
		MinObs: map[string]int64{"accepted.Any": 1000000, "accepted.CharRange": 100000, "rejected.CharRange": 100000, "accepted.SeqI": 1000000, "rejected.SeqI": 100000,
			"accepted.CharClass": 5000, "rejected.CharClassN": 5000, "accepted.Whitespace": 8, "accepted.HexNumber": 22},
		Assume: []string{"the caseless string matcher is judged on decodable text only"},
		Stages: func(tier string) []Stage {
			return []Stage{
				{Name: "codepoints", N: cpChunks, Fn: c06codepoints},
				{Name: "bytes", N: 256, Fn: c06bytes},
				{Name: "fold", N: cpChunks, Fn: c06fold},
				{Name: "strings", N: stagesN(tier, 15000), Fn: c06strings},
				{Name: "large", N: stagesN(tier, 2500), Fn: c06large},
				{Name: "twins", N: stagesN(tier, 12000), Fn: c06twins},
				{Name: "pairs", N: 400, Fn: c06pairs},
			}
		},
	})
	register(&Prop{
		ID:     "C12",
		Rule:   "a case is a text split into nodes and converted with every radix or as a float, or a block of 4096 characters; non-trivial if the text is a number",
		MinObs: map[string]int64{"converted": 50000, "rejected": 50000, "characters converted": 4000000},
		Assume: []string{"special float texts (inf, nan, hexadecimal, underscores) are only judged for not panicking and declaring a float", "integers that are no character are not judged"},
		Stages: func(tier string) []Stage {
			return []Stage{
				{Name: "ints", N: stagesN(tier, 20000), Fn: c12ints},
				{Name: "floats", N: stagesN(tier, 20000), Fn: c12floats},
				{Name: "long", N: stagesN(tier, 180), Fn: c12long},
				{Name: "runes", N: cpChunks, Fn: c12runes},
				{Name: "mixed", N: stagesN(tier, 300), Fn: c12mixed},
			}
		},
	})
	register(&Prop{
		ID:     "C13",
		Rule:   "a case is every text with two given first characters over the number alphabet up to length 6 (8 in the thorough tier), or a random text at each of its positions; non-trivial if something was accepted",
		MinObs: map[string]int64{"accepted": 200000, "rejected": 200000},
		Stages: func(tier string) []Stage {
			return []Stage{
				{Name: "exhaustive", N: 128, Fn: c13exhaustive},
				{Name: "random", N: stagesN(tier, 8000), Fn: c13random},
				{Name: "long", N: stagesN(tier, 190), Fn: c13long},
				{Name: "near", N: len(c13bases), Fn: c13near},
				{Name: "lookalikes", N: cpChunks, Fn: c13lookalikes},
			}
		},
	})
	register(&Prop{
		ID:     "C14",
		Rule:   "a case is a block of 4096 characters, each alone, first, in the middle and last, or a random text of word and non-word characters at each position; all are non-trivial",
		MinObs: map[string]int64{"boundaries": 1000000, "non-boundaries": 1000000, "identifiers": 500000},
		Assume: []string{"word boundaries are judged at character boundaries of decodable text", "the character tables are those of the Go toolchain"},
		Stages: func(tier string) []Stage {
			return []Stage{
				{Name: "codepoints", N: cpChunks, Fn: c14codepoints},
				{Name: "random", N: stagesN(tier, 20000), Fn: c14random},
			}
		},
	})
	register(&Prop{
		ID:     "C15",
		Rule:   "a case is a random date, time or date-time text (valid, odd or broken) or a grid of all days of a year, all times of an hour or all offsets of an hour; non-trivial if it names a real instant",
		MinObs: map[string]int64{"instants": 20000, "unreal instants": 5000, "rejected": 20000},
		Assume: []string{"years outside 0000 to 9999 and an offset of 24 hours may give an error or the right instant"},
		Stages: func(tier string) []Stage {
			return []Stage{
				{Name: "random", N: stagesN(tier, 15000), Fn: c15random},
				{Name: "grid", N: 170, Fn: c15grid},
				{Name: "near", N: len(c15bases), Fn: c15near},
				{Name: "lookalikes", N: cpChunks, Fn: c15lookalikes},
			}
		},
	})
	register(&Prop{
		ID:     "C22",
		Rule:   "a case is every text with two given first characters over {a, tab, CR, LF, é} up to length 6 (9 in the thorough tier) at every position, or a random text at random positions; all are non-trivial",
		MinObs: map[string]int64{"later lines": 50000},
		Assume: []string{"a position between CR and LF is not judged; the caret column is judged after single-byte characters"},
		Stages: func(tier string) []Stage {
			return []Stage{
				{Name: "exhaustive", N: 25, Fn: c22exhaustive},
				{Name: "random", N: stagesN(tier, 20000), Fn: c22random},
				{Name: "far", N: stagesN(tier, 24), Fn: c22far},
			}
		},
	})
}
