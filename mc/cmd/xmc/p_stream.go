package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"xmc/spec"
	"xmc/xsched"

	"github.com/cnsgfk/xbnf"
)

func init() {
	register(&prop{id: "C09", level: "model_checking", assume: []string{
		"texts over letters, blanks and newlines up to the stated length; sequences of operations up to the stated length",
		"chars pushed back are those read just before, as the constructor demands"},
		rule: "every sequence of read, peek, skip, match, query and push-back operations up to a length on every text up to a length; after every operation the result, at the end every query and the rest of the text compared with an index model",
		run:  runStream, replay: replayStream})
	register(&prop{id: "C10", level: "model_checking", assume: []string{
		"the callers run under a controlled scheduler which may interrupt them before every statement of the library and at every lock operation; preemptions up to the stated bound",
		"locks are replaced by equivalent ones which the scheduler knows; memory accesses are watched by the race detector under the happens-before order of these locks"},
		rule: "every schedule (preemption bound) of every pair and triple of short operation lists on one stream (plain, pushed back, nested); every history must have a linearization in the index model, no data race, no deadlock",
		run:  runStreamConc, replay: replayStreamConc})
}

// an operation on a stream: N next, P peek, S skip spaces, M<text> match, O position, C cursor,
// L<i> position of index i, B<k> push back the k chars just read, W write over and behind the chars returned last.
type sop struct {
	k byte
	s []rune
	n int
}

func (o sop) String() string {
	switch o.k {
	case 'M':
		return fmt.Sprintf("M%q", string(o.s))
	case 'L', 'B':
		return fmt.Sprintf("%c%d", o.k, o.n)
	}
	return string(o.k)
}

func parseSops(s string) []sop {
	var out []sop
	for len(s) > 0 {
		o := sop{k: s[0]}
		s = s[1:]
		switch o.k {
		case 'M':
			var q string
			fmt.Sscanf(s, "%q", &q)
			s = s[len(fmt.Sprintf("%q", q)):]
			o.s = []rune(q)
		case 'L', 'B':
			neg := false
			if strings.HasPrefix(s, "-") {
				neg, s = true, s[1:]
			}
			for len(s) > 0 && s[0] >= '0' && s[0] <= '9' {
				o.n = o.n*10 + int(s[0]-'0')
				s = s[1:]
			}
			if neg {
				o.n = -o.n
			}
		case ',', ' ':
			continue
		}
		out = append(out, o)
	}
	return out
}

func showSops(ops []sop) string {
	var p []string
	for _, o := range ops {
		p = append(p, o.String())
	}
	return strings.Join(p, ",")
}

// sres is what an operation returns.
type sres struct {
	c   rune
	rs  []rune
	ok  bool
	pos xbnf.Position // 0,0 if nil
	n   int
}

func (a sres) String() string {
	return fmt.Sprintf("{%d %q %v L%d:%d %d}", a.c, string(a.rs), a.ok, a.pos.Line, a.pos.Col, a.n)
}

// smodel is the index model of a stream.
type smodel struct {
	t   []rune
	lc  lcTab
	cur int
}

func posOf(lc lcTab, i int) xbnf.Position { return xbnf.Position{Line: lc[i][0], Col: lc[i][1]} }

// apply moves the model and returns what the operation must return.
func (m *smodel) apply(o sop) sres {
	switch o.k {
	case 'N':
		if m.cur >= len(m.t) {
			return sres{c: xbnf.EOFChar}
		}
		m.cur++
		return sres{c: m.t[m.cur-1]}
	case 'P':
		if m.cur >= len(m.t) {
			return sres{c: xbnf.EOFChar}
		}
		return sres{c: m.t[m.cur]}
	case 'S':
		b := m.cur
		for m.cur < len(m.t) && spec.White(m.t[m.cur]) {
			m.cur++
		}
		return sres{rs: m.t[b:m.cur]}
	case 'M':
		b := m.cur
		for _, c := range o.s {
			if m.cur >= len(m.t) {
				return sres{rs: m.t[b:m.cur]}
			}
			m.cur++
			if m.t[m.cur-1] != c {
				return sres{rs: m.t[b:m.cur]}
			}
		}
		return sres{rs: m.t[b:m.cur], ok: true}
	case 'O':
		if m.cur >= len(m.t) {
			return sres{}
		}
		return sres{pos: posOf(m.lc, m.cur)}
	case 'C':
		return sres{n: m.cur}
	case 'L':
		if o.n < 0 || o.n >= m.cur {
			return sres{}
		}
		return sres{pos: posOf(m.lc, o.n)}
	}
	panic("op")
}

func toPos(p *xbnf.Position) xbnf.Position {
	if p == nil {
		return xbnf.Position{}
	}
	v := *p
	*p = xbnf.Position{Line: -7, Col: -7} // the caller's to write over
	return v
}

func doSop(cs xbnf.ICharstream, o sop) sres {
	switch o.k {
	case 'N':
		return sres{c: cs.Next()}
	case 'P':
		return sres{c: cs.Peek()}
	case 'S':
		return sres{rs: cs.SkipSpaces()}
	case 'M':
		rs, ok := cs.Match(append([]rune(nil), o.s...))
		return sres{rs: rs, ok: ok}
	case 'O':
		return sres{pos: toPos(cs.Position())}
	case 'C':
		return sres{n: cs.Cursor()}
	case 'L':
		return sres{pos: toPos(cs.PositionLookup(o.n))}
	}
	panic("op")
}

// agrees compares results; ahead permits a true position for a char that was read and pushed back.
func agrees(o sop, got, want sres, m *smodel, high int) bool {
	if got.c != want.c || got.ok != want.ok || got.n != want.n || !runesEq(got.rs, want.rs) {
		return false
	}
	if got.pos == want.pos {
		return true
	}
	return o.k == 'L' && o.n >= 0 && o.n >= m.cur && o.n < high && o.n < len(m.t) && got.pos == posOf(m.lc, o.n)
}

// sequence runs ops on a stream over t, the first pre chars of which are read first.
func (w *W) sequence(t *Text, ops []sop) string {
	m := &smodel{t: t.R, lc: t.LC}
	var cs xbnf.ICharstream = xbnf.NewCharstreamFromString(t.S)
	w.states++
	w.traces++
	high := 0 // how far the chars have been read
	kept := [8][]rune{}
	want := [8][]rune{}
	var last []rune
	one := func(i int, o sop) string {
		w.trans++
		if o.k == 'B' {
			k := o.n
			if k > m.cur {
				return ""
			}
			s := pushBack(cs, append([]rune(nil), t.R[m.cur-k:m.cur]...))
			if s == nil {
				return ""
			}
			cs = s
			m.cur -= k
			return ""
		}
		if o.k == 'W' { // the caller writes over, and behind, the chars it was given last
			for j := range last {
				last[j] = 'Z'
			}
			_ = append(append(last, 'Z'), 'Z')
			for j := range kept {
				if len(last) > 0 && len(kept[j]) > 0 && &kept[j][0] == &last[0] {
					kept[j], want[j] = nil, nil
				}
			}
			return ""
		}
		exp := m.apply(o)
		got := doSop(cs, o)
		if got.rs != nil {
			last = got.rs
		}
		if m.cur > high {
			high = m.cur
		}
		if !agrees(o, got, exp, m, high) {
			return fmt.Sprintf("operation %d (%s) of %s returns %s, expected %s", i+1, o, showSops(ops), got, exp)
		}
		if i >= 0 && i < 8 {
			kept[i], want[i] = got.rs, exp.rs
		}
		return ""
	}
	for i, o := range ops {
		if s := one(i, o); s != "" {
			return s
		}
	}
	// the state at the end: every query, then the rest of the text
	for i := -1; i <= len(t.R); i++ {
		if s := one(-1, sop{k: 'L', n: i}); s != "" {
			return s
		}
	}
	for i := 0; i <= len(t.R)+1; i++ {
		for _, k := range "COPCN" {
			if s := one(-1, sop{k: byte(k)}); s != "" {
				return s
			}
		}
		if m.cur > 0 && m.cur <= len(t.R) {
			if s := one(-1, sop{k: 'L', n: m.cur - 1}); s != "" {
				return s
			}
		}
	}
	for i := range kept {
		if !runesEq(kept[i], want[i]) {
			return fmt.Sprintf("chars returned by operation %d of %s change later: %q", i+1, showSops(ops), string(kept[i]))
		}
	}
	return ""
}

var streamOps = parseSops(`N,P,S,O,M"a",M" ",M"\n",M"a\n",M"",M"a a",B1,B2,B3,L1,W`)

func opLists(pool []sop, n int, f func([]sop)) {
	var rec func(cur []sop)
	rec = func(cur []sop) {
		if len(cur) == n {
			f(cur)
			return
		}
		for _, o := range pool {
			rec(append(cur[:len(cur):len(cur)], o))
		}
	}
	rec(nil)
}

func runStream(c *Ctx) {
	c.sample(map[string]string{"operations": showSops(streamOps)})
	type job struct{ first, second sop }
	var jobs []job
	for _, a := range streamOps {
		for _, b := range streamOps {
			jobs = append(jobs, job{a, b})
		}
	}
	run := func(ts []*Text, depth int) {
		c.each(len(jobs), func(w *W, i int) {
			opLists(streamOps, depth-2, func(rest []sop) {
				if c.stop.Load() {
					return
				}
				ops := append([]sop{jobs[i].first, jobs[i].second}, rest...)
				for _, t := range ts {
					cs := Case{Kind: "stream", Text: t.S, Extra: showSops(ops)}
					w.do(&cs, func() string { return w.sequence(t, ops) })
				}
			})
		})
	}
	long := mkTexts([]string{"aa\na \n\n a\naa", "\n\n\n\n\n", "a\r\n\ta\u00a0\u2028a\U0001F600\n", "\r\na", "é\né é"})
	run(mkTexts(texts("a \n", c.pick(4, 5))), c.pick(4, 5))
	run(mkTexts(texts("a\n", c.pick(3, 4))), c.pick(5, 6))
	run(long, c.pick(4, 5))
	// reads and push backs only, deeper
	deep := parseSops(`N,B1,B2,B3,S,O`)
	dts := mkTexts([]string{"a\na", "\n\na\n", "  \na a\n", "a\n\n\n"})
	n := c.pick(7, 9)
	var heads [][]sop
	opLists(deep, 3, func(o []sop) { heads = append(heads, append([]sop(nil), o...)) })
	c.each(len(heads), func(w *W, i int) {
		opLists(deep, n-3, func(rest []sop) {
			if c.stop.Load() {
				return
			}
			ops := append(heads[i][:3:3], rest...)
			for _, t := range dts {
				cs := Case{Kind: "stream", Text: t.S, Extra: showSops(ops)}
				w.do(&cs, func() string { return w.sequence(t, ops) })
			}
		})
	})
	c.farStreams()
	c.everyChar("char", 0x10ffff, (*W).charPlaces)
	// push the whole text back again and again
	c.each(40, func(w *W, i int) {
		t := mkText(strings.Repeat("a\nb \n", i))
		for _, k := range []int{1, 2, 3} {
			cs := Case{Kind: "nested", Text: t.S, Flag: k}
			w.do(&cs, func() string { return w.nested(t, k) })
		}
	})
}

// nested reads the text step by step, pushing everything read back after every step.
func (w *W) nested(t *Text, step int) string {
	var ops []sop
	for i := step; i <= len(t.R); i += step {
		for k := 0; k < i; k++ {
			ops = append(ops, sop{k: 'N'}, sop{k: 'O'})
		}
		ops = append(ops, sop{k: 'B', n: i})
	}
	return w.sequence(t, ops)
}

func replayStream(w *W, c Case) string {
	if c.Kind == "char" {
		return w.charPlaces(caseRune(c))
	}
	if c.Kind == "farstream" {
		return w.farStream(mkText(c.Text), c.Extra)
	}
	if c.Kind == "nested" {
		return w.nested(mkText(c.Text), c.Flag)
	}
	return w.sequence(mkText(c.Text), parseSops(c.Extra))
}

// ---- concurrency

// setup of a stream: how many chars are read first, and how many are pushed back, in turn
type streamSetup struct {
	name string
	pre  []int // >0 read, <0 push back
}

var setups = []streamSetup{{"plain", nil}, {"read1", []int{1}}, {"back1", []int{1, -1}}, {"back2", []int{2, -2}}, {"nest", []int{2, -1, 1, -2}}, {"half", []int{3, -2, 1}}, {"spent", []int{2, -1, 1}}}

func (s streamSetup) build(t *Text) (xbnf.ICharstream, int, int) {
	var cs xbnf.ICharstream = xbnf.NewCharstreamFromString(t.S)
	cur, high := 0, 0
	for _, k := range s.pre {
		if k > 0 {
			for i := 0; i < k && cur < len(t.R); i++ {
				cs.Next()
				cur++
			}
			if cur > high {
				high = cur
			}
			continue
		}
		if -k > cur {
			continue
		}
		if x := pushBack(cs, append([]rune(nil), t.R[cur+k:cur]...)); x != nil {
			cs = x
			cur += k
		}
	}
	return cs, cur, high
}

type sevent struct {
	o         sop
	r         sres
	call, ret int
	task      int
}

// linearize finds an order of the events which respects real time and the index model.
func linearize(m smodel, ev []sevent, high int, final sres) bool {
	done := 0
	var rec func(m smodel, high int) bool
	rec = func(m smodel, high int) bool {
		if done == 1<<len(ev)-1 {
			x := m
			return x.apply(sop{k: 'C'}).n == final.n
		}
		for i := range ev {
			if done>>i&1 == 1 {
				continue
			}
			ok := true
			for j := range ev {
				if j != i && done>>j&1 == 0 && ev[j].ret < ev[i].call {
					ok = false
					break
				}
			}
			if !ok {
				continue
			}
			x := m
			want := x.apply(ev[i].o)
			h := high
			if x.cur > h {
				h = x.cur
			}
			if !agrees(ev[i].o, ev[i].r, want, &x, h) {
				continue
			}
			done |= 1 << i
			if rec(x, h) {
				return true
			}
			done &^= 1 << i
		}
		return false
	}
	return rec(m, high)
}

func raceText() string {
	l := ""
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(f, "log_path=") {
			l = f[len("log_path="):]
		}
	}
	if l == "" {
		return ""
	}
	fs, _ := filepath.Glob(l + "." + fmt.Sprint(os.Getpid()))
	if len(fs) == 0 {
		return ""
	}
	b, _ := os.ReadFile(fs[0])
	var out []string
	for _, x := range strings.Split(string(b), "\n") {
		x = strings.TrimSpace(x)
		if strings.HasPrefix(x, "Write at") || strings.HasPrefix(x, "Read at") || strings.HasPrefix(x, "Previous") || strings.Contains(x, "xbnf.") {
			if i := strings.Index(x, " at 0x"); i > 0 {
				x = x[:i]
			}
			out = append(out, x)
		}
		if len(out) > 6 {
			break
		}
	}
	return strings.Join(out, "; ")
}

func raced() string {
	if xsched.RaceErrors() > 0 {
		return "data race: " + raceText()
	}
	return ""
}

// conc runs one schedule. history is filled by the tasks.
func (w *W) concOne(r *xsched.Run, bound int, t *Text, su streamSetup, lists [][]sop) string {
	cs, cur, high := su.build(t)
	n := 0
	for _, l := range lists {
		n += len(l)
	}
	ev := make([]sevent, n)
	k := 0
	var fs []func()
	for ti, l := range lists {
		at, l, ti := k, l, ti
		k += len(l)
		fs = append(fs, func() {
			for i, o := range l {
				call := xsched.Now()
				res := doSop(cs, o)
				put(ev, at+i, sevent{o, res, call, xsched.Now(), ti})
			}
		})
	}
	s, problem := xsched.RunTasks(r, bound, fs)
	w.states++
	w.traces++
	w.trans += int64(s.Steps)
	w.beat()
	if problem != "" {
		return problem
	}
	if !linearize(smodel{t.R, t.LC, cur}, ev, high, sres{n: cs.Cursor()}) {
		var p []string
		for _, e := range ev {
			p = append(p, fmt.Sprintf("caller %d %s=%s [%d,%d]", e.task, e.o, e.r, e.call, e.ret))
		}
		return "no order of the operations explains: " + strings.Join(p, "; ")
	}
	return ""
}

//go:norace
func put(ev []sevent, i int, e sevent) { ev[i] = e }

// concAll runs every schedule of one case.
func (w *W) concAll(bound int, t *Text, su streamSetup, lists [][]sop) string {
	r := &xsched.Run{}
	for n := 0; ; n++ {
		if msg := w.concOne(r, bound, t, su, lists); msg != "" {
			return fmt.Sprintf("schedule %v: %s", r.Choices(), msg)
		}
		if r.Over {
			return "schedule too long"
		}
		if n&63 == 0 {
			if w.c.stop.Load() {
				return ""
			}
			if m := raced(); m != "" {
				return m
			}
		}
		if !r.Next() {
			break
		}
	}
	return raced()
}

func listsCase(bound int, t *Text, su int, lists [][]sop) Case {
	var p []string
	for _, l := range lists {
		p = append(p, showSops(l))
	}
	return Case{Kind: "conc", Text: t.S, Flag: bound, Start: su, Extra: strings.Join(p, "|")}
}

func runStreamConc(c *Ctx) {
	pool := parseSops(`N,P,S,M"a",M"ab",O,C,L0,L1,L2`)
	var ones, twos [][]sop
	for _, o := range pool {
		ones = append(ones, []sop{o})
	}
	opLists(parseSops(`N,P,S,M"ab",O,C,L1`), 2, func(l []sop) { twos = append(twos, append([]sop(nil), l...)) })
	ts := mkTexts([]string{"ab", " \nab", "a\n b"})
	var jobs []func(w *W)
	add := func(bound int, t *Text, su int, lists [][]sop) {
		jobs = append(jobs, func(w *W) {
			cs := listsCase(bound, t, su, lists)
			w.do(&cs, func() string { return w.concAll(bound, t, setups[su], lists) })
		})
	}
	for si := range setups {
		for ti, t := range ts {
			for i, a := range ones {
				for j, b := range ones {
					if j >= i {
						add(c.pick(2+ti%2, 5), t, si, [][]sop{a, b})
					}
					for k, d := range ones {
						if k >= j && j >= i && (c.Thorough || ti == 1 && (i+j+k)%3 == si%3) {
							add(1, t, si, [][]sop{a, b, d})
						}
					}
				}
				for j, b := range twos {
					if c.Thorough || (i+j+ti+si)%4 == 0 {
						add(2, t, si, [][]sop{a, b})
					}
				}
			}
			for i, a := range twos {
				for j, b := range twos {
					if j >= i && (c.Thorough || (i+j*3+ti+si*5)%16 == 0) {
						add(c.pick(1, 2), t, si, [][]sop{a, b})
					}
				}
			}
		}
	}
	c.sample(map[string]interface{}{"operations": showSops(pool), "cases": len(jobs), "streams": setups})
	c.each(len(jobs), func(w *W, i int) { jobs[i](w) })
}

func replayStreamConc(w *W, c Case) string {
	var lists [][]sop
	for _, l := range strings.Split(c.Extra, "|") {
		lists = append(lists, parseSops(l))
	}
	return w.concAll(c.Flag, mkText(c.Text), setups[c.Start], lists)
}
