package main

import (
	"fmt"
	"strings"

	"xmc/spec"
	"xmc/xsched"

	"github.com/cnsgfk/xbnf"
)

func init() {
	register(&prop{id: "C02", level: "model_checking", assume: append(assumeEval[:2:2], "the order in which root rules are tried is enumerated completely (every permutation at every iteration over a map)"),
		rule: "every grammar of 1..3 root rules from a pool (with and without shared sub rules) x every text up to a length x every order of map iteration; result compared with the reference model (nodes, ambiguity, failure) and the leaves with the text",
		run:  runParse, replay: replayParse})
}

// parseOnce compares one whole-text parse. start characters of the text are read before.
func (w *W) parseOnce(p *Pair, t *Text, start int) string {
	ev := spec.Ev{G: p.M, T: t.R}
	m := ev.ParseFrom(start)
	w.states += int64(len(m.Spans)) + 1
	w.trans += int64(ev.Steps)
	cs := xbnf.NewCharstreamFromString(t.S)
	for i := 0; i < start; i++ {
		cs.Next()
	}
	ast, err := p.R.EvalRaw(cs)
	w.traces++
	if (err == nil) != m.Ok {
		if m.Ok {
			return fmt.Sprintf("parse fails (%v), expected %d nodes", err, len(m.Nodes))
		}
		return fmt.Sprintf("parse succeeds, expected failure (%s)", m.Why)
	}
	if err != nil {
		w.counts["parse-"+m.Why]++
		if ast != nil {
			return "failed parse returns a tree"
		}
		if m.Why == "ambiguous" && !strings.Contains(strings.ToLower(err.Error()), "ambigu") {
			return fmt.Sprintf("two root rules match the same text, reported as: %v", err)
		}
		return ""
	}
	w.counts["parse-ok"]++
	if len(ast.Nodes) != len(m.Nodes) {
		return fmt.Sprintf("%d top nodes, expected %d", len(ast.Nodes), len(m.Nodes))
	}
	for i, n := range ast.Nodes {
		if d := diffNode(n, m.Nodes[i], t.LC, diffOpt{pos: true, flags: true}); d != "" {
			return fmt.Sprintf("node %d: %s", i+1, d)
		}
	}
	if !strings.Contains(p.Src, "<") { // the text of a block may differ by its escapes
		if d := lossless(ast.Nodes, t.R[start:]); d != "" {
			return d
		}
	}
	return ""
}

// lossless checks, without the model, that the leaves are the text but for white space.
func lossless(ns []*xbnf.Node, t []rune) string {
	var l []rune
	for _, n := range ns {
		l = realLeaves(n, l)
	}
	p := 0
	for i, c := range l {
		for p < len(t) && t[p] != c && spec.White(t[p]) {
			p++
		}
		if p == len(t) || t[p] != c {
			return fmt.Sprintf("text of the tree is %q, differs from the input at its char %d", string(l), i)
		}
		p++
	}
	for ; p < len(t); p++ {
		if !spec.White(t[p]) {
			return fmt.Sprintf("text of the tree is %q, the input goes on", string(l))
		}
	}
	return ""
}

// orders runs f under every order of map iteration. It returns the number of orders.
func orders(f func()) int {
	r := &xsched.Run{}
	n := 0
	for {
		xsched.WithMaps(r, f)
		n++
		if !r.Next() || n > 5000 {
			return n
		}
	}
}

func (c *Ctx) sweepParse(kind string, gs []*spec.Grammar, ts []*Text, starts int) {
	if len(gs) > 0 {
		c.sample(map[string]string{"family": kind, "first grammar": gs[0].Src(), "last grammar": gs[len(gs)-1].Src(), "size": fmt.Sprintf("%d grammars x %d texts", len(gs), len(ts))})
	}
	c.each(len(gs), func(w *W, i int) {
		p := mustPair(w, gs[i])
		if p == nil {
			return
		}
		run := &xsched.Run{}
		for _, t := range ts {
			for st := 0; st <= starts && st <= len(t.R); st++ {
				cs := Case{Kind: "parse", Src: p.Src, Text: t.S, Start: st}
				*run = xsched.Run{}
				for {
					w.do(&cs, func() (msg string) {
						xsched.WithMaps(run, func() { msg = w.parseOnce(p, t, st) })
						return
					})
					if c.stop.Load() {
						return
					}
					if !run.Next() {
						break
					}
				}
			}
		}
	})
}

func replayParse(w *W, c Case) string {
	if c.Kind == "grammar" {
		return replayEval(w, c)
	}
	p, msg := pairFromSrc(c.Src)
	if p == nil {
		return msg
	}
	orders(func() {
		if m := w.parseOnce(p, mkText(c.Text), c.Start); m != "" {
			msg = m
		}
	})
	return msg
}

func roots(rs ...*rule) *spec.Grammar {
	g := spec.NewGrammar()
	for i, r := range rs {
		g.Def(fmt.Sprintf("r%d", i), r)
	}
	return g
}

func runParse(c *Ctx) {
	// one root
	g := &Gen{Terms: []*rule{spec.C('a'), spec.Cs("ab"), spec.S("b")}, Wrap: []func(*rule) *rule{wGroup, wOption, repAny}, Bars: true, Orders: true, Seqs: true}
	c.sweepParse("one", single(g.UpTo(c.pick(4, 5))), mkTexts(texts("ab ", c.pick(5, 5))), 1)
	// two and three roots
	pool := []*rule{spec.C('a'), spec.C('b'), spec.Cs("ab"), spec.Cs("aab"), spec.S("a"), spec.S("ab"), spec.Re(spec.C('a'), 1, 0), spec.Re(spec.C('a'), 0, 0),
		spec.Cat(spec.C('a'), spec.S("b")), spec.Op(spec.C('b')), spec.Bl(spec.C('b'), nil, nil, spec.C('a'), false), spec.Bl(spec.C('a'), spec.C('a'), nil, spec.C('b'), true),
		spec.Cat(spec.Cs("aa"), spec.E()), spec.Alt(spec.C('a'), spec.Cs("aab")), spec.Alt(spec.C('a'), spec.C('a')), spec.Cat(spec.S("b"), spec.C(' ')), spec.R('a', 'b'), spec.E()}
	var gs []*spec.Grammar
	tuples(pool, 2, func(t []*rule) { gs = append(gs, roots(t...)) })
	c.sweepParse("two", gs, mkTexts(texts("ab ", c.pick(4, 6))), 1)
	gs = nil
	pool3 := append(pool[:11:11], pool[13])
	if c.Thorough {
		pool3 = pool
	}
	tuples(pool3, 3, func(t []*rule) { gs = append(gs, roots(t...)) })
	c.sweepParse("three", gs, mkTexts(texts("ab ", c.pick(4, 5))), 0)
	// roots that share rules; a rule which is used is no root
	gs = nil
	tuples(pool[:10], 2, func(t []*rule) {
		x := spec.N("x")
		gs = append(gs, spec.NewGrammar().Def("r", spec.Cat(x, asItem(t[0]))).Def("s", spec.Alt(x, spec.Gr(t[1]))).Def("x", spec.C('a')),
			spec.NewGrammar().Def("x", t[0]).Def("y", spec.Alt(x, spec.C('b'))).Def("z", spec.Cat(asItem(t[1]), spec.N("x"))),
			spec.NewGrammar().Def("x", asItem(t[0])).Def("r", spec.Op(x)).Def("s", spec.Re(asItem(t[1]), 2, 2)).Def("u", spec.Cat(spec.C('a'), spec.Op(spec.N("u")))))
	})
	c.sweepParse("shared", gs, mkTexts(texts("ab ", c.pick(4, 5))), 0)
	// roots which read ahead different distances, over long texts
	var ls []*spec.Grammar
	for n := 1; n <= c.pick(12, 20); n++ {
		a := spec.Cs(strings.Repeat("a", n))
		ls = append(ls, roots(spec.C('a'), spec.Cat(a, spec.C('b'))), roots(spec.Cat(a, spec.C('b')), spec.C('a'), spec.Bl(spec.C('a'), nil, nil, spec.Cs("bb"), false)),
			roots(spec.Re(spec.C('a'), n, 0), spec.C('a'), spec.Cat(spec.C('b'), spec.Op(a))), roots(spec.S("a"), spec.Cat(spec.Re(spec.C('a'), 0, 0), spec.C('b'))))
	}
	var lt []string
	for n := 0; n <= c.pick(26, 50); n++ {
		s := strings.Repeat("a", n)
		lt = append(lt, s, s+"b", s+"b"+s, s+" "+s+"b", s+"bb"+s+"b", strings.Repeat("ab", n), s+"c")
	}
	c.sweepParse("long", ls, mkTexts(lt), 1)
	c.scaleBy("parse", 5000, func(w *W, p *Pair, t *Text) string { return w.parseOnce(p, t, 0) })
}
