package main

import (
	"errors"
	"fmt"
	"strings"

	. "github.com/shellyln/takenoco/base"
	"github.com/shellyln/takenoco/extra"
	objp "github.com/shellyln/takenoco/object"
	strp "github.com/shellyln/takenoco/string"
)

// Monitor watches one run of a real parser, event by event, against the reference's recorded events.
type Monitor struct {
	ev     []Event // documented events (nil: do not compare)
	qty    string  // first wrong repetition count
	stays  string  // first zero-width assertion that moved or added nodes
	src    string
	obj    runeSrc // not a text: these values
	tag    interface{}
	next   int
	mute   int
	steps  int
	max    int
	order  string // first departure from the documented order of calls
	leak   string // first wrong position or node list seen by something that runs later
	ctxbad string // first wrong source or tag
	span   string // first position outside the source or behind its parser's start
	seen   int
}

type stepsExceeded struct{ n int }

func (m *Monitor) event(e Event, ctx *ParserContext, list []Ast) {
	m.steps++
	if m.max > 0 && m.steps > m.max {
		panic(stepsExceeded{m.steps})
	}
	if ctx != nil && e.Kind != 'X' {
		if _, ok := ctx.Tag.(spoiltTag); ok && m.leak == "" {
			m.leak = fmt.Sprintf("%v: the tag is one that a failed parser wrote into its own context", e)
		}
		if !sameTag(ctx.Tag, m.tag) && m.ctxbad == "" {
			m.ctxbad = fmt.Sprintf("%v: tag is %v instead of %v", e, ctx.Tag, m.tag)
		}
		if m.obj != nil {
			if s, ok := ctx.Slice.(runeSrc); (ctx.Str != "" || !ok || len(s) != len(m.obj) || (len(s) > 0 && &s[0] != &m.obj[0])) && m.ctxbad == "" {
				m.ctxbad = fmt.Sprintf("%v: source is %.60q %v instead of the values of %.60q", e, ctx.Str, ctx.Slice, m.src)
			}
		} else if (ctx.Str != m.src || ctx.Slice != nil) && m.ctxbad == "" {
			m.ctxbad = fmt.Sprintf("%v: source is %.60q instead of %.60q", e, ctx.Str, m.src)
		}
	}
	if ctx != nil && m.span == "" && (ctx.Position < 0 || ctx.Position > len(m.src)) {
		m.span = fmt.Sprintf("%v: position %d outside the source of length %d", e, ctx.Position, len(m.src))
	}
	if m.mute > 0 || m.ev == nil || m.order != "" {
		return
	}
	m.seen++
	if m.next >= len(m.ev) {
		m.order = fmt.Sprintf("extra event after the documented end: %v", e)
		return
	}
	w := m.ev[m.next]
	m.next++
	if w.Kind != e.Kind || w.ID != e.ID || w.K != e.K || (e.Kind == 'X' && w.St != e.St) {
		m.order = fmt.Sprintf("event %d: documented %v, observed %v", m.next, w, e)
		return
	}
	switch e.Kind {
	case 'E', 'X':
		if e.Kind == 'X' && e.St != MatchStatus_Matched {
			return // only the verdict of an unmatched parser means anything
		}
		if e.Kind == 'X' && e.Q >= 0 && e.Q != w.Q && m.qty == "" {
			m.qty = fmt.Sprintf("event %d (%v): reports %d rounds, should report %d", m.next, w, e.Q, w.Q)
		}
		if m.leak == "" {
			if ctx.Position != w.Pos {
				m.leak = fmt.Sprintf("event %d (%v): position is %d, should be %d", m.next, w, ctx.Position, w.Pos)
			} else if bad := stackDiff(ctx.AstStack, w.Stk); bad != "" {
				m.leak = fmt.Sprintf("event %d (%v): %s", m.next, w, bad)
			}
		}
	case 'T':
		if !astsEq(list, w.List, false) {
			m.order = fmt.Sprintf("event %d: transformer #%d.%d received %s, should receive %s", m.next, e.ID, e.K, fmtAsts(list), fmtAsts(w.List))
		}
	case 'C':
		if len(list) != w.Pos {
			m.order = fmt.Sprintf("event %d: case test saw %d nodes, should see %d", m.next, len(list), w.Pos)
		}
	}
}

var zeroWidth = map[Kind]bool{KStart: true, KEnd: true, KLA: true, KLAN: true, KLB1: true, KLBN: true, KZero: true, KWB: true, KUWB: true}

func stackDiff(got []Ast, want *snode) string {
	if len(got) != want.len() {
		return fmt.Sprintf("%d earlier nodes instead of %d: %s, should be %s", len(got), want.len(), fmtAsts(got), fmtAsts(want.above(0)))
	}
	s := want
	for i := len(got) - 1; i >= 0; i-- {
		if !astEq(got[i], s.a, false) {
			return fmt.Sprintf("node %d is %s, should be %s", i, fmtAst(got[i]), fmtAst(s.a))
		}
		s = s.prev
	}
	return ""
}

// user: is this node user-supplied parser code?
func (g *G) user() bool {
	return g.K == KCustom || g.K == KTry || g.K == KUser || (g.K == KError && g.Sugar > 0) || g.K == KLB1 || g.K == KLBN
}

// userEvents keeps the events of user-supplied code (and look-behind brackets, which mute).
func userEvents(m *Gram, ev []Event) []Event {
	u := map[int]bool{}
	var walk func(g *G)
	walk = func(g *G) {
		u[g.ID] = g.user()
		for _, c := range g.Ch {
			walk(c)
		}
	}
	walk(m.Root)
	for _, r := range m.Rules {
		walk(r)
	}
	var w []Event
	for _, e := range ev {
		if (e.Kind != 'E' && e.Kind != 'X') || u[e.ID] {
			w = append(w, e)
		}
	}
	return w
}

// Builder makes the real parser for a grammar. With probes, every sub-parser, predicate, transformer and case test reports.
type Builder struct {
	m        *Gram
	mode     int // 0: no probes, 1: everything reports, 2: only user-supplied code reports
	mon      *Monitor
	ind      map[int]ParserFn
	expand   map[int]int // expansions per reference (by rule when shared, by -id otherwise)
	running  bool
	building int
	leaf     func(g *G) ParserFn
	par      bool      // runs in several goroutines: no bookkeeping at run time
	call     hookFn    // called by every user-supplied callback
	tr       *traceLog // traced parsers are built with DebugTrace and probed
	scope    string
	recNo    int
	early    string
	once     map[*G]ParserFn // parsers of parts standing in several places
	nind     int
}

func newBuilder(m *Gram, mode int) (*Builder, ParserFn) {
	b := &Builder{m: m, mode: mode, ind: map[int]ParserFn{}, expand: map[int]int{}, once: map[*G]ParserFn{}}
	if m.obj {
		b.leaf = b.valueLeaf
	}
	p := b.build(m.Root)
	b.running = true
	return b, p
}

// newShared makes a parser for many goroutines: nothing of the builder is written while it runs.
func newShared(m *Gram, call hookFn) ParserFn {
	b := &Builder{m: m, par: true, call: call, ind: map[int]ParserFn{}}
	for i := range m.Rules {
		b.ind[i] = b.ref(i)
	}
	b.once = map[*G]ParserFn{}
	defer func() { b.once = nil }()
	return b.build(m.Root)
}

// user runs the hook of user-supplied callbacks.
func (b *Builder) user() {
	if b.call != nil {
		b.call(false)
	}
}

func (b *Builder) ref(rule int) ParserFn {
	return Indirect(func() ParserFn {
		if b.call != nil {
			b.call(true)
		}
		return b.build(b.m.Rules[rule])
	})
}

func (b *Builder) list(gs []*G) []ParserFn {
	var w []ParserFn
	for _, g := range gs {
		w = append(w, b.build(g))
	}
	return w
}

func (b *Builder) build(g *G) ParserFn {
	if b.tr != nil {
		return b.buildTraced(g)
	}
	if g.shared && b.once != nil {
		if p := b.once[g]; p != nil {
			return p
		}
		p := b.make(g)
		b.once[g] = p
		return p
	}
	return b.make(g)
}

func (b *Builder) make(g *G) ParserFn {
	p := b.raw(g)
	if b.mode == 0 || g.K == KIf || (b.mode == 2 && !g.user()) {
		return p
	}
	lb := g.K == KLB1 || g.K == KLBN
	return func(ctx ParserContext) (ParserContext, error) {
		m := b.mon
		if m == nil {
			return p(ctx)
		}
		m.event(Event{Kind: 'E', ID: g.ID, Pos: ctx.Position}, &ctx, nil)
		if lb {
			m.mute++
		}
		out, err := p(ctx)
		if lb {
			m.mute--
		}
		st := out.MatchStatus
		if err != nil && st < MatchStatus_Error {
			st = MatchStatus_Error
		}
		q := -1
		if g.K == KRepeat {
			q = out.Quantity
		}
		m.event(Event{Kind: 'X', ID: g.ID, Pos: out.Position, St: st, Q: q}, &out, nil)
		if zeroWidth[g.K] && st == MatchStatus_Matched && m.stays == "" {
			add := 0
			if g.K == KZero {
				add = len(g.Asts)
			}
			if out.Position != ctx.Position {
				m.stays = fmt.Sprintf("#%d %s moved the position from %d to %d", g.ID, kindNames[g.K], ctx.Position, out.Position)
			} else if len(out.AstStack) != len(ctx.AstStack)+add {
				m.stays = fmt.Sprintf("#%d %s turned %d nodes into %d", g.ID, kindNames[g.K], len(ctx.AstStack), len(out.AstStack))
			}
		}
		if st == MatchStatus_Matched && out.Position < ctx.Position && m.span == "" {
			m.span = fmt.Sprintf("#%d %s moved the position back from %d to %d", g.ID, kindNames[g.K], ctx.Position, out.Position)
		}
		return out, err
	}
}

func (b *Builder) trs(g *G, trs []TrSpec, id0 int) []TransformerFn {
	var w []TransformerFn
	for i, t := range trs {
		fn := t.build()
		if b.mode > 0 || b.call != nil {
			i := i
			inner := fn
			fn = func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
				b.user()
				if m := b.mon; m != nil {
					m.event(Event{Kind: 'T', ID: g.ID, K: id0 + i, List: asts}, &ctx, asts)
				}
				return inner(ctx, asts)
			}
		}
		w = append(w, fn)
	}
	return w
}

func (b *Builder) raw(g *G) ParserFn {
	if b.leaf != nil {
		if p := b.leaf(g); p != nil {
			return p
		}
	}
	switch g.K {
	case KAny:
		return strp.Any()
	case KSeq:
		return strp.Seq(g.S[0])
	case KSeqI:
		return strp.SeqI(g.S[0])
	case KRange:
		return strp.CharRange(own(g.RR)...)
	case KRangeN:
		return strp.CharRangeN(own(g.RR)...)
	case KClass:
		return strp.CharClass(own(g.S)...)
	case KClassN:
		return strp.CharClassN(own(g.S)...)
	case KFn:
		fn := preds[g.Fn]
		return strp.CharClassFn(func(c rune) bool {
			b.user()
			if m := b.mon; m != nil && b.mode > 0 {
				m.event(Event{Kind: 'P', ID: g.ID, K: int(c)}, nil, nil)
			}
			return fn(c)
		})
	case KWs:
		return strp.Whitespace()
	case KWsNoLB:
		return strp.WhitespaceNoLineBreak()
	case KLB:
		return strp.LineBreak()
	case KAlpha:
		return strp.Alpha()
	case KNum:
		return strp.Number()
	case KAlnum:
		return strp.Alnum()
	case KBin:
		return strp.BinNumber()
	case KOct:
		return strp.OctNumber()
	case KHex:
		return strp.HexNumber()
	case KEnd:
		return strp.End()
	case KStart:
		return Start()
	case KWB:
		return strp.WordBoundary()
	case KUWB:
		return extra.UnicodeWordBoundary()
	case KUnmatched:
		return Unmatched()
	case KError:
		switch g.Sugar {
		case 1: // a bare parser function that leaves the status alone
			return func(ctx ParserContext) (ParserContext, error) { return ctx, g.Err }
		case 2:
			return LightBaseParser("User:Fail", func(ctx ParserContext) (ParserContext, error) {
				ctx.MatchStatus = MatchStatus_Matched
				return ctx, g.Err
			})
		case 3:
			return LightBaseParser("User:Fail", func(ctx ParserContext) (ParserContext, error) {
				ctx.MatchStatus = MatchStatus_Unmatched
				return ctx, g.Err
			})
		case 4: // the status alone
			return LightBaseParser("User:Fail", func(ctx ParserContext) (ParserContext, error) {
				ctx.MatchStatus = MatchStatus_Error
				return ctx, nil
			})
		case 5:
			return func(ctx ParserContext) (ParserContext, error) {
				ctx.MatchStatus = MatchStatus_Error
				return ctx, nil
			}
		}
		return Error(g.Msg)
	case KZero:
		return Zero(own(g.Asts)...)
	case KFlat:
		return FlatGroup(b.list(g.Ch)...)
	case KTrace:
		if b.tr == nil {
			return FlatGroup(b.list(g.Ch)...)
		}
		return b.debugTrace(g)
	case KGroup:
		return Group(b.list(g.Ch)...)
	case KFirst:
		return First(b.list(g.Ch)...)
	case KLA:
		return LookAhead(b.list(g.Ch)...)
	case KLAN:
		return LookAheadN(b.list(g.Ch)...)
	case KLB1:
		return LookBehind(g.Min, g.Max, b.list(g.Ch)...)
	case KLBN:
		return LookBehindN(g.Min, g.Max, b.list(g.Ch)...)
	case KRepeat:
		ch := b.list(g.Ch)
		switch g.Sugar {
		case 1:
			return Once(ch...)
		case 2:
			return ZeroOrOnce(ch...)
		case 3:
			return ZeroOrMoreTimes(ch...)
		case 4:
			return OneOrMoreTimes(ch...)
		}
		return Repeat(Times{Min: g.Min, Max: g.Max}, ch...)
	case KTrans:
		return Trans(b.build(g.Ch[0]), b.trs(g, g.Tr, 0)...)
	case KInd:
		mk := func(key int) ParserFn {
			return Indirect(func() ParserFn {
				if (!b.running || b.building > 0) && b.early == "" {
					b.early = fmt.Sprintf("reference #%d was expanded while the grammar was being built", g.ID)
				}
				b.expand[key]++
				b.building++
				defer func() { b.building-- }()
				if b.building > 200 {
					panic("references expanded endlessly while being built")
				}
				return b.build(b.m.Rules[g.Rule])
			})
		}
		if b.par {
			if g.Sugar == 1 {
				return b.ref(g.Rule)
			}
			return b.ind[g.Rule]
		}
		if g.Sugar == 1 {
			b.nind++
			key := -b.nind
			return mk(key)
		}
		if p, ok := b.ind[g.Rule]; ok {
			return p
		}
		p := mk(g.Rule)
		b.ind[g.Rule] = p
		return p
	case KMatch:
		var cases []Case
		for i, c := range g.Cases {
			fn := c.build()
			if b.mode > 0 || b.call != nil {
				i, inner := i, fn
				fn = func(asts AstSlice) bool {
					b.user()
					if m := b.mon; m != nil {
						m.event(Event{Kind: 'C', ID: g.ID, K: i, Pos: len(asts)}, nil, asts)
					}
					return inner(asts)
				}
			}
			cases = append(cases, Case{If: fn, Let: b.trs(g, c.Let, i*100)})
		}
		return Match(g.N)(cases...)
	case KIf:
		return If(g.B, b.build(g.Ch[0]), b.build(g.Ch[1]))
	case KCustom:
		return LightBaseParser("User:Custom", func(ctx ParserContext) (ParserContext, error) {
			b.user()
			ctx.MatchStatus = MatchStatus_Unmatched
			if strings.HasPrefix(ctx.Str[ctx.Position:], g.S[0]) {
				ctx.AstStack = append(ctx.AstStack, tok("User:Custom", g.S[0], ctx.Position, len(g.S[0])))
				ctx.Position += len(g.S[0])
				ctx.Length = len(g.S[0])
				ctx.MatchStatus = MatchStatus_Matched
			}
			return ctx, nil
		})
	case KUser:
		c := b.build(g.Ch[0])
		return LightBaseParser("User:Wrap", func(ctx ParserContext) (ParserContext, error) {
			b.user()
			ctx.MatchStatus = MatchStatus_Unmatched
			return c(ctx)
		})
	case KTry:
		return LightBaseParser("User:Dirty", func(ctx ParserContext) (ParserContext, error) {
			b.user()
			for i := 0; i < g.N; i++ {
				ctx.AstStack = append(ctx.AstStack, Ast{ClassName: "Junk", Type: AstType_Int, Value: int64(i)})
			}
			if ctx.Position < len(ctx.Str) {
				ctx.Position++
			}
			spoilCtx(&ctx)
			ctx.MatchStatus = MatchStatus_Unmatched
			return ctx, nil
		})
	}
	panic("kind " + kindNames[g.K])
}

// spoilCtx: what a failing parser wrote into its context is nobody else's business.
func spoilCtx(ctx *ParserContext) {
	ctx.Tag, ctx.Quantity, ctx.Length, ctx.ClassName = spoiltTag{}, -5, -7, "Spoilt"
}

type spoiltTag struct{}

// Out is the outcome of a real run.
type Out struct {
	Ctx   ParserContext
	Err   error
	St    MatchStatusType
	Steps int
}

func (b *Builder) run(p ParserFn, src string, tag interface{}, mon *Monitor) Out {
	ctx := startCtx(b.m, src, tag)
	b.mon = mon
	if in, ok := ctx.Slice.(runeSrc); ok && mon != nil {
		mon.obj = in
	}
	out, err := p(ctx)
	b.mon = nil
	if in, ok := ctx.Slice.(runeSrc); ok && string(in) != src {
		panic(fmt.Sprintf("the source was changed to %q", string(in)))
	}
	return outOf(out, err)
}

func startCtx(m *Gram, src string, tag interface{}) ParserContext {
	if m.obj {
		return *objp.NewObjectParserContextWithTag(append(make(runeSrc, 0, len(src)), src...), tag)
	}
	return *strp.NewStringParserContextWithTag(src, tag)
}

// valueLeaf: the value matchers' counterpart of a text matcher, with its nodes written as the text matcher would.
func (b *Builder) valueLeaf(g *G) ParserFn {
	var p ParserFn
	switch g.K {
	case KFn, KRange, KRangeN:
		p = objp.ObjClassFn(func(c interface{}) bool {
			if g.K != KFn {
				return refChar(g, "", rune(c.(byte)))
			}
			b.user()
			if m := b.mon; m != nil && b.mode > 0 {
				m.event(Event{Kind: 'P', ID: g.ID, K: int(c.(byte))}, nil, nil)
			}
			return preds[g.Fn](rune(c.(byte)))
		})
	case KSeq, KClass, KClassN, KAny:
		p = objLeaf(g)
	case KEnd:
		return objp.End()
	case KCustom, KTry:
		return LightBaseParser("User:Custom", func(ctx ParserContext) (ParserContext, error) {
			b.user()
			ctx.MatchStatus = MatchStatus_Unmatched
			in, ok := ctx.Slice.(runeSrc)
			if !ok { // seen by the monitor
				return ctx, nil
			}
			if g.K == KTry {
				for i := 0; i < g.N; i++ {
					ctx.AstStack = append(ctx.AstStack, Ast{ClassName: "Junk", Type: AstType_Int, Value: int64(i)})
				}
				if ctx.Position < len(in) {
					ctx.Position++
				}
				spoilCtx(&ctx)
			} else if strings.HasPrefix(string(in[ctx.Position:]), g.S[0]) {
				ctx.AstStack = append(ctx.AstStack, tok("User:Custom", g.S[0], ctx.Position, len(g.S[0])))
				ctx.Position += len(g.S[0])
				ctx.Length = len(g.S[0])
				ctx.MatchStatus = MatchStatus_Matched
			}
			return ctx, nil
		})
	default:
		return nil
	}
	return func(ctx ParserContext) (ParserContext, error) {
		n := len(ctx.AstStack)
		out, err := p(ctx)
		if err == nil && out.MatchStatus == MatchStatus_Matched && len(out.AstStack) == n+1 {
			a := out.AstStack[n]
			v := ""
			switch x := a.Value.(type) {
			case byte:
				v = string(rune(x))
			case runeSrc:
				v = string(x)
			}
			out.AstStack[n] = tok(tokClass[g.K], v, a.Position, a.Length)
		}
		return out, err
	}
}

// errMute stands for the error that was not there, where a parser says Error and gives none.
var errMute = errors.New("(no error value)")

func outOf(out ParserContext, err error) Out {
	st := out.MatchStatus
	if err != nil && st < MatchStatus_Error {
		st = MatchStatus_Error
	}
	if err == nil && st == MatchStatus_Error {
		err = errMute
	}
	return Out{Ctx: out, Err: err, St: st}
}

// frozen shares nothing with what the parser returned.
func (o Out) frozen() Out {
	o.Ctx.AstStack = cloneAsts(o.Ctx.AstStack)
	return o
}

func (o Out) String() string {
	switch o.St {
	case MatchStatus_Matched:
		return fmt.Sprintf("Matched up to %d, nodes %s", o.Ctx.Position, fmtAsts(o.Ctx.AstStack))
	case MatchStatus_Error:
		return fmt.Sprintf("Error at %d: %v", o.Ctx.Position, o.Err)
	}
	return o.St.String()
}

func (q Res) String() string {
	switch q.St {
	case MatchStatus_Matched:
		return fmt.Sprintf("Matched up to %d, nodes %s", q.Pos, fmtAsts(q.Stk.above(0)))
	case MatchStatus_Error:
		return fmt.Sprintf("Error at %d: %v", q.Pos, q.Err)
	}
	return q.St.String()
}

// diff compares an outcome with the reference's (status, position, nodes without positions).
func (o Out) diff(q Res) string {
	if o.St != q.St {
		return "status differs"
	}
	if o.St == MatchStatus_Matched {
		if o.Ctx.Position != q.Pos {
			return "end position differs"
		}
		if d := stackDiff(o.Ctx.AstStack, q.Stk); d != "" {
			return d
		}
	}
	return ""
}

// same compares two real outcomes, positions of nodes included.
func (o Out) same(p Out) string {
	if o.St != p.St {
		return "status differs"
	}
	switch o.St {
	case MatchStatus_Matched:
		if o.Ctx.Position != p.Ctx.Position {
			return "end position differs"
		}
		if !astsEq(o.Ctx.AstStack, p.Ctx.AstStack, true) {
			return "nodes differ"
		}
	case MatchStatus_Error:
		if o.Err == nil || p.Err == nil || o.Err.Error() != p.Err.Error() {
			return "error differs"
		}
		if o.Ctx.Position != p.Ctx.Position {
			return "error position differs"
		}
	}
	return ""
}

// own is a list of its own for the library: a change it makes there must not reach what is expected of it.
func own[T any](xs []T) []T { return append(make([]T, 0, len(xs)), xs...) }
