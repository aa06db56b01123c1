package main

import (
	"fmt"
	"strings"

	"xmc/spec"

	"github.com/cnsgfk/xbnf"
)

func init() {
	register(&prop{id: "C17", level: "model_checking", assume: append(assumeEval[:2:2], "a match of an empty text counts as no match: the scan goes on with the next character"),
		rule: "every rule up to a cost over the operator alphabet, every block of a pool, rules with references x every text up to a length: tree and positions compared with the reference scan, each match compared with a direct evaluation of the library at its place, each unmatched place shown to have none",
		run:  runEmbed, replay: replayEmbed})
}

// embed checks one embedded evaluation of rule r.
func (w *W) embed(p *Pair, rule string, t *Text) string {
	res := p.R.EvalEmbed(rule, t.S)
	w.traces++
	if p.M.Rules[rule] == nil {
		if res.Node != nil || res.Error == nil {
			return "evaluation of an undefined rule is no error"
		}
		return ""
	}
	ev := spec.Ev{G: p.M, T: t.R}
	m := ev.Embed(rule)
	w.states++
	w.trans += int64(ev.Steps)
	if res.Node == nil {
		return fmt.Sprintf("no node (%v)", res.Error)
	}
	if d := diffNode(res.Node, m, t.LC, diffAll); d != "" {
		return d
	}
	if len(res.Node.ChildNodes) > 0 && res.Node.ChildNodes[0].Position != nil && len(t.R) > 0 {
		if x := res.Node.Position; x == nil || x.Line != 1 || x.Col != 1 {
			return fmt.Sprintf("the embed node is at %s", x.String())
		}
	}
	// without the model: split the text the way the nodes say
	at := func(i int) (*xbnf.EvalResult, int) {
		cs := xbnf.NewCharstreamFromString(t.S)
		for k := 0; k < i; k++ {
			cs.Next()
		}
		w.traces++
		w.trans++
		r := p.R.GetRule(rule).Eval(p.R, cs, xbnf.NOT_SKIP)
		if r.Node == nil {
			return r, 0
		}
		return r, len(r.CharsRead) - len(r.CharsUnused)
	}
	i := 0
	matches := 0
	for k, n := range res.Node.ChildNodes {
		if n.RuleType == xbnf.TypeText {
			if len(n.Chars) == 0 || len(n.ChildNodes) > 0 {
				return fmt.Sprintf("text node %d is empty or has children", k)
			}
			if i+len(n.Chars) > len(t.R) || !runesEq(n.Chars, t.R[i:i+len(n.Chars)]) {
				return fmt.Sprintf("text node %d is %q, the input has %q there", k, string(n.Chars), string(t.R[i:]))
			}
			for j := range n.Chars {
				if len(t.R) > 2000 && j&(j-1) != 0 { // the cost of a look grows with its place
					i++
					continue
				}
				if _, u := at(i); u > 0 {
					return fmt.Sprintf("the rule matches %d characters at %d, which is left as text", u, i)
				}
				i++
			}
			continue
		}
		r, u := at(i)
		if u == 0 {
			return fmt.Sprintf("node %d is a match, the rule does not match at %d", k, i)
		}
		if a, b := textTree(r.Node), textTree(n); a != b {
			return fmt.Sprintf("node %d is\n%s, a direct evaluation gives\n%s", k, b, a)
		}
		i += u
		matches++
	}
	if i != len(t.R) {
		return fmt.Sprintf("nodes cover %d of %d characters", i, len(t.R))
	}
	w.counts["matches"] += int64(matches)
	if !strings.Contains(p.Src, "<") {
		return lossless([]*xbnf.Node{res.Node}, t.R)
	}
	return ""
}

// textTree is the tree with the positions of those nodes that have text.
func textTree(r *xbnf.Node) string {
	n := fromReal(r)
	var rec func(n *spec.Node)
	rec = func(n *spec.Node) {
		if !n.HasText() {
			n.Pos = -1
		}
		for _, k := range n.Kids {
			rec(k)
		}
	}
	rec(n)
	return n.String()
}

func (c *Ctx) sweepEmbed(kind string, gs []*spec.Grammar, ts []*Text) {
	if len(gs) > 0 {
		c.sample(map[string]string{"family": kind, "first grammar": gs[0].Src(), "last grammar": gs[len(gs)-1].Src(), "size": fmt.Sprintf("%d grammars x %d texts", len(gs), len(ts))})
	}
	c.each(len(gs), func(w *W, i int) {
		if gs[i].LeftRecursive() {
			return
		}
		p := mustPair(w, gs[i])
		if p == nil {
			return
		}
		for _, t := range ts {
			cs := Case{Kind: "embed", Src: p.Src, Rule: "r", Text: t.S}
			w.do(&cs, func() string { return w.embed(p, "r", t) })
			if c.stop.Load() {
				return
			}
		}
	})
}

func replayEmbed(w *W, c Case) string {
	if c.Kind == "grammar" {
		return replayEval(w, c)
	}
	p, msg := pairFromSrc(c.Src)
	if p == nil {
		return msg
	}
	return w.embed(p, c.Rule, mkText(c.Text))
}

func runEmbed(c *Ctx) {
	g := coreGen(ab()...)
	c.sweepEmbed("core", single(g.UpTo(c.pick(4, 5))), mkTexts(texts("ab ", c.pick(5, 6))))
	c.sweepEmbed("lookahead", single(famLook(c.pick(5, 6))), mkTexts(append(texts("ab", 6), "aabaabab", "abaaabb", "aaaaaaaab", "bbbbaabb")))
	c.sweepEmbed("blocks", single(famBlocks(c.Thorough)), mkTexts(append(texts("oecx", c.pick(4, 5)), texts("oc\n", 6)...)))
	c.sweepEmbed("references", famRefs(3, 3), mkTexts(texts("ab", 6)))
	var rs []*rule
	for k := 1; k <= 2; k++ {
		tuples(append(wsTerms(), spec.E(), spec.S(""), spec.R('a', '\n'), spec.R(' ', 'z')), k, func(t []*rule) {
			if k == 1 {
				rs = append(rs, t[0])
			} else {
				rs = append(rs, spec.Cat(t...), spec.Alt(t...))
			}
		})
	}
	c.sweepEmbed("white", single(rs), mkTexts(append(texts("a \n", 5), texts("a\tb", 4)...)))
	gs, _ := c.annotated()
	c.sweepEmbed("marks", gs[:len(gs)/8], mkTexts(texts("ab ", 5)))
	// unusual characters and an undefined rule
	odd := "a\x00é\u0085\U0001F600\uFEFF\uFFFD"
	c.sweepEmbed("odd", single([]*rule{spec.C('a'), spec.C('é'), spec.C('\U0001F600'), spec.R(0, 0x10ffff), spec.R(0x80, 0xffff), spec.Re(spec.C('a'), 1, 0), spec.C(0xFFFD)}), mkTexts(texts(odd, c.pick(4, 5))))
	c.sweepEmbed("undefined", []*spec.Grammar{spec.NewGrammar().Def("s", spec.C('a'))}, mkTexts(texts("ab", 4)))
	// long texts: gaps and matches of every length
	var long []longCase
	for n := 0; n <= c.pick(60, 200); n++ {
		s := strings.Repeat("a", n)
		gap := strings.Repeat("x\n", n)
		long = append(long, longCase{spec.G(spec.Cs("ab")), []string{s + "b", gap + "ab" + gap, strings.Repeat("ab", n), strings.Repeat("aab", n) + "a", strings.Repeat("ab x", n)}},
			longCase{spec.G(spec.Cat(spec.Re(spec.C('a'), 1, 0), spec.S("b"))), []string{s + " b", s + "c" + s + "b", gap + s, strings.Repeat("a b", n), s + "\n\n" + s + "b"}},
			longCase{spec.G(spec.Bl(spec.C('o'), spec.C('e'), nil, spec.C('c'), n%2 == 0)), []string{"o" + s + "ec" + s + "c", gap + "o" + gap + "c" + gap, strings.Repeat("oc", n) + "o", strings.Repeat("oec", n)}})
	}
	// far gaps and many matches
	rp := strings.Repeat
	for _, n := range scaleAt {
		gs := []*spec.Grammar{spec.G(spec.C('a')), spec.G(spec.Cs("ab")), spec.G(spec.Cat(spec.C('a'), spec.S("b"))), spec.G(spec.Bl(spec.C('a'), nil, nil, spec.C('b'), false)), spec.NewGrammar().Def("r", spec.N("x").Ann(5)).Def("x", spec.S("ab"))}
		for k, g := range gs {
			x := rp("x", n)
			ts := []string{x, x + "ab", "ab" + x + "ab", "ab" + rp("\n", n) + "ab" + x, rp("\u00e9", n) + "ab"}
			if n <= 1025 {
				ts = append(ts, rp("ab", n), rp("abx", n), rp("x\nab ", n))
			} else if k == 3 {
				ts = ts[:4] // a block looks for its end
			}
			long = append(long, longCase{g, ts})
		}
	}
	c.scaleBy("embed", 600, func(w *W, p *Pair, t *Text) string { return w.embed(p, "r", t) })
	c.each(len(long), func(w *W, i int) {
		p := mustPair(w, long[i].g)
		if p == nil {
			return
		}
		for _, s := range long[i].ts {
			cs := Case{Kind: "embed", Src: p.Src, Rule: "r", Text: s}
			w.do(&cs, func() string { return w.embed(p, "r", mkText(s)) })
		}
	})
}
