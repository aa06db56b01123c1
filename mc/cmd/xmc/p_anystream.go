package main

import (
	"fmt"

	"xmc/spec"

	"github.com/cnsgfk/xbnf"
)

func init() {
	register(&prop{id: "C26", level: "model_checking", assume: append(assumeEval[:2:2], "a stream behaves as the comments of the ICharstream interface say"),
		rule: "every rule of the families x every text, evaluated and parsed on character streams which are not the library's own (a section of a longer text, with its own counting of lines; a wrapper around another stream; a stream which reads one char at a time from a source); compared with the reference model and with the evaluation on the library's own stream",
		run:  runAnyStream, replay: replayAnyStream})
}

// userStream is a stream written from the interface alone. The text is the section of a longer one which
// starts at base.
type userStream struct {
	t    []rune
	cur  int
	base int
	pos  func(i int) (int, int)
}

func (s *userStream) Next() rune {
	c := s.Peek()
	if s.cur < len(s.t) {
		s.cur++
	}
	return c
}

func (s *userStream) Peek() rune {
	if s.cur < len(s.t) {
		return s.t[s.cur]
	}
	return xbnf.EOFChar
}

func (s *userStream) Match(in []rune) ([]rune, bool) {
	var out []rune
	for _, want := range in {
		c := s.Next()
		if c == xbnf.EOFChar {
			return out, false
		}
		out = append(out, c)
		if c != want {
			return out, false
		}
	}
	return out, true
}

func (s *userStream) SkipSpaces() []rune {
	var out []rune
	for s.cur < len(s.t) && spec.White(s.t[s.cur]) {
		out = append(out, s.Next())
	}
	return out
}

func (s *userStream) Position() *xbnf.Position {
	if s.cur >= len(s.t) {
		return nil
	}
	l, c := s.pos(s.cur)
	return &xbnf.Position{Line: l, Col: c}
}

func (s *userStream) PositionLookup(idx int) *xbnf.Position {
	if idx < s.base || idx-s.base >= s.cur {
		return nil
	}
	l, c := s.pos(idx - s.base)
	return &xbnf.Position{Line: l, Col: c}
}

func (s *userStream) Cursor() int { return s.base + s.cur }

// wrapped forwards everything to another stream and counts.
type wrapped struct {
	in    xbnf.ICharstream
	calls int
}

func (s *wrapped) Next() rune                          { s.calls++; return s.in.Next() }
func (s *wrapped) Peek() rune                          { s.calls++; return s.in.Peek() }
func (s *wrapped) Match(r []rune) ([]rune, bool)       { s.calls++; return s.in.Match(r) }
func (s *wrapped) SkipSpaces() []rune                  { s.calls++; return s.in.SkipSpaces() }
func (s *wrapped) Position() *xbnf.Position            { s.calls++; return s.in.Position() }
func (s *wrapped) PositionLookup(i int) *xbnf.Position { s.calls++; return s.in.PositionLookup(i) }
func (s *wrapped) Cursor() int                         { s.calls++; return s.in.Cursor() }

// lazy has read from its source only what has been asked for.
type lazy struct {
	next func() (rune, bool)
	buf  []rune // read from the source
	cur  int
	lc   []([2]int)
}

func newLazy(t []rune) *lazy {
	i := 0
	return &lazy{next: func() (rune, bool) {
		if i == len(t) {
			return 0, false
		}
		i++
		return t[i-1], true
	}, lc: [][2]int{{1, 1}}}
}

func (s *lazy) fill() bool {
	for s.cur >= len(s.buf) {
		c, ok := s.next()
		if !ok {
			return false
		}
		s.buf = append(s.buf, c)
		p := s.lc[len(s.lc)-1]
		if c == '\n' {
			p = [2]int{p[0] + 1, 1}
		} else {
			p[1]++
		}
		s.lc = append(s.lc, p)
	}
	return true
}

func (s *lazy) Next() rune {
	if !s.fill() {
		return xbnf.EOFChar
	}
	s.cur++
	return s.buf[s.cur-1]
}

func (s *lazy) Peek() rune {
	if !s.fill() {
		return xbnf.EOFChar
	}
	return s.buf[s.cur]
}

func (s *lazy) Match(in []rune) ([]rune, bool) {
	b := s.cur
	for _, want := range in {
		if c := s.Next(); c != want {
			return append([]rune(nil), s.buf[b:s.cur]...), false
		}
	}
	return append([]rune(nil), s.buf[b:s.cur]...), true
}

func (s *lazy) SkipSpaces() []rune {
	b := s.cur
	for s.fill() && spec.White(s.buf[s.cur]) {
		s.cur++
	}
	if b == s.cur {
		return nil
	}
	return append([]rune(nil), s.buf[b:s.cur]...)
}

func (s *lazy) Position() *xbnf.Position {
	if !s.fill() {
		return nil
	}
	return s.PositionLookupAny(s.cur)
}

func (s *lazy) PositionLookupAny(i int) *xbnf.Position {
	return &xbnf.Position{Line: s.lc[i][0], Col: s.lc[i][1]}
}

func (s *lazy) PositionLookup(i int) *xbnf.Position {
	if i < 0 || i >= s.cur {
		return nil
	}
	return s.PositionLookupAny(i)
}

func (s *lazy) Cursor() int { return s.cur }

const nUserStreams = 6

// userStreamOf is a stream of kind k on a text, the index its first char has, and the table of its positions.
func userStreamOf(k int, t *Text) (xbnf.ICharstream, int, lcTab) {
	switch k {
	case 0:
		return &userStream{t: t.R, pos: func(i int) (int, int) { return t.LC[i][0], t.LC[i][1] }}, 0, t.LC
	case 1: // a section which starts in the middle, in a count of its own
		pos := func(i int) (int, int) { return 40 + i/3, 7 + 5*i }
		tab := make(lcTab, len(t.R)+1)
		for i := range tab {
			tab[i][0], tab[i][1] = pos(i)
		}
		return &userStream{t: t.R, base: 1000, pos: pos}, 1000, tab
	case 2:
		return &wrapped{in: xbnf.NewCharstreamFromString(t.S)}, 0, t.LC
	}
	if k == 3 {
		return newLazy(t.R), 0, t.LC
	}
	if k == 5 { // true lines, columns counted unevenly, as if every char was some columns wide
		tab := make(lcTab, len(t.R)+1)
		for i := range tab {
			tab[i][0], tab[i][1] = t.LC[i][0], 3*t.LC[i][1]-2+i%2
		}
		return &userStream{t: t.R, base: 50, pos: func(i int) (int, int) { return tab[i][0], tab[i][1] }}, 50, tab
	}
	// the library's own, of which the first characters were read before
	const lead = "q\n p"
	cs := xbnf.NewCharstreamFromString(lead + t.S)
	for range lead {
		cs.Next()
	}
	tab := make(lcTab, len(t.R)+1)
	for i := range tab {
		tab[i] = t.LC[i]
		if tab[i][1] += 2; tab[i][0] > 1 {
			tab[i][1] -= 2
		}
		tab[i][0]++
	}
	return cs, len(lead), tab
}

func (w *W) anyStream(p *Pair, rule string, t *Text, flag int) string {
	ev := spec.Ev{G: p.M, T: t.R}
	m := ev.Eval(p.M.Rules[rule], 0, flag)
	w.states++
	w.trans += int64(ev.Steps)
	rec := p.R.GetRecord(rule)
	if rec == nil {
		return "rule is not defined"
	}
	own := xbnf.NewCharstreamFromString(t.S)
	a := rec.Rule().Eval(p.R, own, flag)
	w.traces++
	for k := 0; k < nUserStreams; k++ {
		cs, base, tab := userStreamOf(k, t)
		b := rec.Rule().Eval(p.R, cs, flag)
		w.traces++
		if msg := sameResult(a, b, base, tab, t); msg != "" {
			return fmt.Sprintf("stream %d: %s", k, msg)
		}
		if own.Cursor() != cs.Cursor()-base {
			return fmt.Sprintf("stream %d: %d chars were read, the library's own stream has %d read", k, cs.Cursor()-base, own.Cursor())
		}
		if b.Node != nil && m.Ok {
			if msg := diffNode(b.Node, m.N, tab, diffOpt{pos: true}); msg != "" && diffNode(b.Node, m.N, tab, diffOpt{}) == "" {
				return fmt.Sprintf("stream %d: %s", k, msg)
			}
		}
	}
	return ""
}

// sameResult compares results on different streams of the same text.
func sameResult(a, b *xbnf.EvalResult, base int, tab lcTab, t *Text) string {
	switch {
	case (a.Node == nil) != (b.Node == nil):
		return fmt.Sprintf("match is %v, on the library's own stream %v", b.Node != nil, a.Node != nil)
	case !runesEq(a.CharsRead, b.CharsRead) || !runesEq(a.CharsUnused, b.CharsUnused):
		return fmt.Sprintf("read %q unused %q, on the library's own stream %q, %q", string(b.CharsRead), string(b.CharsUnused), string(a.CharsRead), string(a.CharsUnused))
	case a.Sticky != b.Sticky:
		return fmt.Sprintf("sticky is %v, on the library's own stream %v", b.Sticky, a.Sticky)
	case (a.Error == nil) != (b.Error == nil):
		return fmt.Sprintf("error is %v, on the library's own stream %v", b.Error, a.Error)
	case a.Error != nil && base == 0 && a.Error.Error() != b.Error.Error():
		return fmt.Sprintf("error is %v, on the library's own stream %v", b.Error, a.Error)
	case a.Node == nil && a.Error != nil && a.ErrIdx+base != b.ErrIdx && !(a.ErrIdx == 0 && b.ErrIdx == 0):
		return fmt.Sprintf("error index is %d, on the library's own stream %d", b.ErrIdx-base, a.ErrIdx)
	}
	return sameTree(a.Node, b.Node, t.LC, tab)
}

// sameTree compares trees; what is at from[i] in a is at to[i] in b.
func sameTree(a, b *xbnf.Node, from, to lcTab) string {
	if a == nil || b == nil {
		if a != b {
			return "only one tree"
		}
		return ""
	}
	if a.RuleType != b.RuleType || a.RuleName != b.RuleName || !runesEq(a.Chars, b.Chars) || a.Sticky != b.Sticky || a.Virtual != b.Virtual || a.NonData != b.NonData || a.Tokenized != b.Tokenized || len(a.ChildNodes) != len(b.ChildNodes) {
		return fmt.Sprintf("node is\n%son the library's own stream\n%s", realTree(b), realTree(a))
	}
	if (a.Position == nil) != (b.Position == nil) {
		return fmt.Sprintf("node %s/%s is at %v, on the library's own stream at %v", b.RuleName, b.RuleType, b.Position, a.Position)
	}
	if a.Position != nil {
		for i := range from {
			if from[i][0] == a.Position.Line && from[i][1] == a.Position.Col && (to[i][0] != b.Position.Line || to[i][1] != b.Position.Col) {
				return fmt.Sprintf("node %s/%s is at %s, on the library's own stream at %s", b.RuleName, b.RuleType, b.Position, a.Position)
			}
		}
	}
	for i := range a.ChildNodes {
		if msg := sameTree(a.ChildNodes[i], b.ChildNodes[i], from, to); msg != "" {
			return msg
		}
	}
	return ""
}

func (w *W) anyParse(p *Pair, t *Text, level int) string {
	own := xbnf.NewCharstreamFromString(t.S)
	a, aerr := p.R.Eval(own, level)
	w.states++
	w.traces++
	for k := 0; k < nUserStreams; k++ {
		cs, base, tab := userStreamOf(k, t)
		b, berr := p.R.Eval(cs, level)
		w.traces++
		w.trans++
		if (aerr == nil) != (berr == nil) || aerr != nil && base == 0 && aerr.Error() != berr.Error() {
			return fmt.Sprintf("stream %d: error is %v, on the library's own stream %v", k, berr, aerr)
		}
		if own.Cursor() != cs.Cursor()-base {
			return fmt.Sprintf("stream %d: %d chars were read, the library's own stream has %d read", k, cs.Cursor()-base, own.Cursor())
		}
		if aerr != nil {
			continue
		}
		if len(a.Nodes) != len(b.Nodes) {
			return fmt.Sprintf("stream %d: %d nodes, on the library's own stream %d", k, len(b.Nodes), len(a.Nodes))
		}
		for i := range a.Nodes {
			if msg := sameTree(a.Nodes[i], b.Nodes[i], t.LC, tab); msg != "" {
				return fmt.Sprintf("stream %d: %s", k, msg)
			}
		}
	}
	return ""
}

func (c *Ctx) sweepStreams(kind string, gs []*spec.Grammar, ts []*Text, flags []int) {
	c.sample(map[string]string{"family": kind, "last grammar": gs[len(gs)-1].Src(), "size": fmt.Sprintf("%d grammars x %d texts x %d flags x %d streams", len(gs), len(ts), len(flags), nUserStreams)})
	c.each(len(gs), func(w *W, i int) {
		p := mustPair(w, gs[i])
		if p == nil {
			return
		}
		for _, t := range ts {
			for _, f := range flags {
				cs := Case{Kind: "anyeval", Src: p.Src, Rule: "r", Text: t.S, Flag: f}
				w.do(&cs, func() string { return w.anyStream(p, "r", t, f) })
				if c.stop.Load() {
					return
				}
			}
		}
	})
}

func (c *Ctx) sweepStreamParse(kind string, gs []*spec.Grammar, ts []*Text, levels []int) {
	c.sample(map[string]string{"family": kind, "last grammar": gs[len(gs)-1].Src(), "size": fmt.Sprintf("%d grammars x %d texts x %d levels x %d streams", len(gs), len(ts), len(levels), nUserStreams)})
	c.each(len(gs), func(w *W, i int) {
		p := mustPair(w, gs[i])
		if p == nil {
			return
		}
		for _, t := range ts {
			for _, l := range levels {
				cs := Case{Kind: "anyparse", Src: p.Src, Text: t.S, Flag: l}
				w.do(&cs, func() string { return w.anyParse(p, t, l) })
				if c.stop.Load() {
					return
				}
			}
		}
	})
}

func runAnyStream(c *Ctx) {
	g := coreGen(ab()...)
	c.sweepStreams("core", single(g.UpTo(c.pick(4, 5))), mkTexts(texts("ab ", 4)), flagsTwo)
	c.sweepStreams("mixed", withX(mixGen().UpTo(c.pick(4, 5))), mkTexts(texts("ab ", c.pick(3, 4))), flagsAll)
	c.sweepStreams("mixed-lines", withX(mixGen().UpTo(c.pick(3, 4))), mkTexts(texts("a\n b", c.pick(4, 5))), flagsTwo)
	c.sweepStreams("lookahead", single(famLook(c.pick(4, 5))), mkTexts(texts("ab", 6)), flagSkip)
	c.sweepStreams("blocks", single(famBlocks(false)), mkTexts(texts("oexc\n", 4)), flagsTwo)
	c.sweepStreams("white", single(whiteTriples()), mkTexts(texts("a \n", 4)), flagsTwo)
	c.scaleBy("anyeval", 4200, func(w *W, p *Pair, t *Text) string { return w.anyStream(p, "r", t, spec.Skip) })
	pool := rootPool()
	var gs []*spec.Grammar
	tuples(pool, 2, func(t []*rule) { gs = append(gs, roots(t...)) })
	c.sweepStreamParse("roots", gs, mkTexts(texts("ab \n", c.pick(4, 5))), []int{xbnf.LevelRaw, xbnf.LevelBasic})
	gs = nil
	tuples(pool[:c.pick(8, len(pool))], 3, func(t []*rule) { gs = append(gs, roots(t...)) })
	c.sweepStreamParse("three-roots", gs, mkTexts(texts("ab ", c.pick(4, 5))), []int{xbnf.LevelDataOnly})
}

func rootPool() []*rule {
	return []*rule{spec.C('a'), spec.Cs("aab"), spec.S("ab"), spec.Re(spec.C('a'), 1, 0), spec.Cat(spec.C('a'), spec.S("b")), spec.Bl(spec.C('b'), nil, nil, spec.C('a'), false),
		spec.Cat(spec.S("b"), spec.C(' ')), spec.Cat(spec.Op(spec.Cs("aa")), spec.E()), spec.Bl(spec.C('a'), spec.C('a'), nil, spec.C('b'), true), spec.R('a', 'b'), spec.Op(spec.C('b')), spec.Alt(spec.C('a'), spec.C('a'))}
}

// whiteTriples are sequences of up to three terminals with white space in them.
func whiteTriples() []*rule {
	var rs []*rule
	for k := 1; k <= 3; k++ {
		tuples(wsTerms(), k, func(t []*rule) {
			if k == 1 {
				rs = append(rs, t[0])
			} else {
				rs = append(rs, spec.Cat(t...))
			}
		})
	}
	return rs
}

func replayAnyStream(w *W, c Case) string {
	if c.Kind == "grammar" {
		return replayEval(w, c)
	}
	p, msg := pairFromSrc(c.Src)
	if p == nil {
		return msg
	}
	if c.Kind == "anyparse" {
		return w.anyParse(p, mkText(c.Text), c.Flag)
	}
	return w.anyStream(p, c.Rule, mkText(c.Text), c.Flag)
}
