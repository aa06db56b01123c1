package main

import (
	"fmt"

	"xmc/spec"

	"github.com/cnsgfk/xbnf"
)

// aspects of an evaluation a check looks at
const (
	aAccept  = 1 << iota // match or no match
	aExtent              // which characters a match covers
	aStruct              // node types, names, texts and children
	aMarks               // $ ~ # marks
	aPos                 // positions
	aSticky              // stickiness
	aAccount             // chars read and unused against the stream
)

// Pair is a grammar of the model and the same grammar built by the implementation.
type Pair struct {
	M   *spec.Grammar
	R   *xbnf.Grammar
	Src string
}

func mustPair(w *W, m *spec.Grammar) *Pair {
	src := m.Src()
	g, err := xbnf.NewGrammarFromString(src)
	if err != nil {
		w.fail(Case{Kind: "grammar", Src: src}, "well-formed grammar rejected: "+err.Error())
		return nil
	}
	return &Pair{m, g, src}
}

func pairFromSrc(src string) (*Pair, string) {
	m, err := spec.ParseGrammar(src)
	g, rerr := xbnf.NewGrammarFromString(src)
	if (err == nil) != (rerr == nil) {
		return nil, fmt.Sprintf("grammar: model error %v, implementation error %v", err, rerr)
	}
	if err != nil {
		return nil, ""
	}
	return &Pair{m, g, src}, ""
}

// Text is an input with its derived tables.
type Text struct {
	S  string
	R  []rune
	LC lcTab
}

func mkText(s string) *Text { r := []rune(s); return &Text{s, r, lineCols(r)} }

func mkTexts(ss []string) []*Text {
	var out []*Text
	for _, s := range ss {
		out = append(out, mkText(s))
	}
	return out
}

// ruleMarks compares what the rules tell of themselves with their definitions.
func (p *Pair) ruleMarks() string {
	for _, n := range p.M.Names {
		m, r := p.M.Rules[n], p.R.GetRule(n)
		if r == nil {
			return fmt.Sprintf("rule %s is not defined", n)
		}
		if r.IsVirtual() != m.Vir || r.IsNonData() != m.Non || r.IsTokenized() != m.Tok {
			return fmt.Sprintf("rule %s (%s) tells virtual=%v, nondata=%v, token=%v", n, m, r.IsVirtual(), r.IsNonData(), r.IsTokenized())
		}
		if m.K != spec.EOF && r.Name() != n {
			return fmt.Sprintf("rule %s tells it is %q", n, r.Name())
		}
	}
	return ""
}

// evalRule compares one rule evaluation, starting at index start, on the aspects in mask.
func (w *W) evalRule(p *Pair, rule string, t *Text, flag, start, mask int) string {
	ev := spec.Ev{G: p.M, T: t.R}
	var m spec.Res
	if mask&^aAccount != 0 {
		m = ev.Eval(p.M.Rules[rule], start, flag)
		w.states++
		w.trans += int64(ev.Steps)
	}
	rec := p.R.GetRecord(rule)
	if rec == nil {
		return "rule is not defined"
	}
	if mask&aMarks != 0 && len(t.R) < 2 {
		if msg := p.ruleMarks(); msg != "" {
			return msg
		}
	}
	cs := xbnf.NewCharstreamFromString(t.S)
	for i := 0; i < start; i++ {
		cs.Next()
	}
	r := rec.Rule().Eval(p.R, cs, flag)
	w.traces++
	if flag == spec.Skip && start == 0 {
		if w.c != nil && w.c.P != nil && w.c.P.id == "C01" || (len(t.R)+len(p.Src))&3 == 0 {
			w.traces++
			if q := p.R.EvalRule(rule, t.S); !runesEq(q.CharsRead, r.CharsRead) || !runesEq(q.CharsUnused, r.CharsUnused) || mask&aAccept != 0 && (q.Node == nil) != (r.Node == nil) {
				return fmt.Sprintf("EvalRule reads %q and leaves %q (match %v), the rule itself %q and %q (%v)", string(q.CharsRead), string(q.CharsUnused), q.Node != nil, string(r.CharsRead), string(r.CharsUnused), r.Node != nil)
			} else if mask&^aAccount != 0 {
				if msg := w.compare(q, &m, t, start, mask); msg != "" {
					return "EvalRule: " + msg
				}
			}
		}
	}
	if mask&aAccount != 0 {
		if mask == aAccount {
			w.states++
			w.trans += int64(len(r.CharsRead)) + 1
		}
		if msg := account(r, cs, t, start); msg != "" {
			return msg
		}
		if mask == aAccount && r.Node != nil {
			// where the tree is the expected one, it tells how much is used
			m = ev.Eval(p.M.Rules[rule], start, flag)
			w.trans += int64(ev.Steps)
			if n := len(r.CharsRead) - len(r.CharsUnused); m.Ok && start+n != m.End && diffNode(r.Node, m.N, t.LC, diffOpt{}) == "" {
				return fmt.Sprintf("%q counts as used, the match covers %q", string(r.CharsRead[:n]), string(t.R[start:m.End]))
			}
		}
	}
	return w.compare(r, &m, t, start, mask)
}

func (w *W) compare(r *xbnf.EvalResult, m *spec.Res, t *Text, start, mask int) string {
	ok := r.Node != nil
	if mask&^aAccount == 0 {
		return ""
	}
	if ok != m.Ok {
		if mask&aAccept == 0 {
			return ""
		}
		if m.Ok {
			return fmt.Sprintf("no match (%v), expected a match of %q", r.Error, string(t.R[start:m.End]))
		}
		return fmt.Sprintf("match of %q, expected none", used(r))
	}
	if !ok {
		w.counts["nomatch"]++
		if mask&aAccept != 0 && r.Error == nil {
			return "no match and no error"
		}
		return ""
	}
	w.counts["match"]++
	n := len(r.CharsRead) - len(r.CharsUnused)
	if start+n != m.End {
		if mask&aExtent == 0 {
			return ""
		}
		return fmt.Sprintf("match covers %q, expected %q", used(r), string(t.R[start:m.End]))
	}
	if mask&aSticky != 0 && r.Sticky != m.Sticky {
		return fmt.Sprintf("result sticky=%v, expected %v", r.Sticky, m.Sticky)
	}
	return diffMask(r.Node, m.N, t.LC, mask)
}

func used(r *xbnf.EvalResult) string {
	n := len(r.CharsRead) - len(r.CharsUnused)
	if n < 0 {
		return fmt.Sprintf("?(%d read, %d unused)", len(r.CharsRead), len(r.CharsUnused))
	}
	return string(r.CharsRead[:n])
}

// account checks the bookkeeping of a result: what was read is exactly what the stream moved over,
// what is unused is its tail, and without a match nothing is used.
func account(r *xbnf.EvalResult, cs xbnf.ICharstream, t *Text, start int) string {
	cur := cs.Cursor()
	if cur < start || cur > len(t.R) {
		return fmt.Sprintf("stream is at %d, was at %d of %d", cur, start, len(t.R))
	}
	if !runesEq(r.CharsRead, t.R[start:cur]) {
		return fmt.Sprintf("chars read reported as %q, the stream gave %q", string(r.CharsRead), string(t.R[start:cur]))
	}
	n := len(r.CharsRead) - len(r.CharsUnused)
	if n < 0 || !runesEq(r.CharsRead[n:], r.CharsUnused) {
		return fmt.Sprintf("chars unused %q are not the tail of chars read %q", string(r.CharsUnused), string(r.CharsRead))
	}
	if r.Node == nil && n != 0 {
		return fmt.Sprintf("no match, but %q counts as used", string(r.CharsRead[:n]))
	}
	return ""
}

// diffMask compares trees on the aspects of mask only.
func diffMask(r *xbnf.Node, m *spec.Node, lc lcTab, mask int) string {
	if mask&aStruct == 0 {
		// other aspects are only meaningful on the same tree
		if diffNode(r, m, lc, diffOpt{}) != "" {
			return ""
		}
	}
	return diffNode(r, m, lc, diffOpt{flags: mask&aMarks != 0, pos: mask&aPos != 0, sticky: mask&aSticky != 0})
}

// sweep runs rules x texts x flags; every rule is the grammar "r = rule".
func (c *Ctx) sweep(kind string, gs []*spec.Grammar, rule string, ts []*Text, flags []int, starts int, mask int) {
	if len(gs) > 0 && len(ts) > 0 {
		c.sample(map[string]string{"family": kind, "first grammar": gs[0].Src(), "last grammar": gs[len(gs)-1].Src(), "last text": clip(ts[len(ts)-1].S),
			"size": fmt.Sprintf("%d grammars x %d texts x %d flags", len(gs), len(ts), len(flags))})
	}
	c.each(len(gs), func(w *W, i int) {
		p := mustPair(w, gs[i])
		if p == nil {
			return
		}
		w.count("grammars")
		for _, t := range ts {
			for st := 0; st <= starts && st <= len(t.R); st++ {
				for _, f := range flags {
					cs := Case{Kind: "eval", Src: p.Src, Rule: rule, Text: t.S, Flag: f, Start: st, Extra: fmt.Sprint(mask)}
					w.do(&cs, func() string { return w.evalRule(p, rule, t, f, st, mask) })
					if c.stop.Load() {
						return
					}
				}
			}
		}
	})
}

func clip(s string) string {
	if len(s) > 60 {
		return s[:60] + "..."
	}
	return s
}

func single(rs []*spec.Rule) []*spec.Grammar {
	out := make([]*spec.Grammar, 0, len(rs))
	for _, r := range rs {
		out = append(out, spec.G(r))
	}
	return out
}

// replayEval is the replay of a sweep case.
func replayEval(w *W, c Case) string {
	switch c.Kind {
	case "grammar":
		_, err := spec.ParseGrammar(c.Src)
		_, rerr := xbnf.NewGrammarFromString(c.Src)
		if (err == nil) != (rerr == nil) {
			return fmt.Sprintf("model says %v, implementation says %v", err, rerr)
		}
		return ""
	}
	p, msg := pairFromSrc(c.Src)
	if p == nil {
		return msg
	}
	var mask int
	fmt.Sscan(c.Extra, &mask)
	return w.evalRule(p, c.Rule, mkText(c.Text), c.Flag, c.Start, mask)
}
