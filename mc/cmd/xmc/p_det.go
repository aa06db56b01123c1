package main

import (
	"fmt"
	"strings"

	"xmc/spec"
	"xmc/xsched"

	"github.com/cnsgfk/xbnf"
)

func init() {
	register(&prop{id: "C12", level: "model_checking", assume: []string{
		"map iteration is the only nondeterminism of a sequential run: it is enumerated completely (every permutation at every iteration over a map of up to 5 keys)",
		"histories up to the stated length from a fixed set of operations, including overwriting every node and character of earlier results"},
		rule: "every history of operations up to a length on a shared grammar, then a probe, compared with the probe on a fresh grammar; every order of map iteration while loading, parsing, failing and printing; every order of the definitions",
		run:  runDet, replay: replayDet})
}

func showResult(r *xbnf.EvalResult) string {
	return fmt.Sprintf("%s|%q|%q|%v|%v", realTree(r.Node), string(r.CharsRead), string(r.CharsUnused), r.Error, r.Sticky)
}

func showAST(a *xbnf.AST, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	var b strings.Builder
	for _, n := range a.Nodes {
		b.WriteString(realTree(n) + ";")
	}
	return b.String()
}

// scribble overwrites everything a caller can reach in a result.
func scribble(n *xbnf.Node) {
	if n == nil {
		return
	}
	for i := range n.Chars {
		n.Chars[i] = '?'
	}
	if cap(n.Chars) > len(n.Chars) {
		_ = append(n.Chars, '!')
	}
	if n.Position != nil {
		n.Position.Line, n.Position.Col = -7, -7
	}
	for _, k := range n.ChildNodes {
		scribble(k)
	}
	n.RuleName, n.RuleType, n.Virtual, n.NonData, n.Tokenized, n.Sticky = "?", "?", !n.Virtual, !n.NonData, !n.Tokenized, !n.Sticky
	n.ChildNodes = append(n.ChildNodes, &xbnf.Node{RuleName: "!"})
}

// operations of a history; every one works on the shared grammar
var detOps = []string{"eval0", "eval2", "evalother", "evalfail", "rule", "embed", "scribble", "serialize", "validate", "merge", "parsefail", "abandon"}

type detRun struct {
	g    *xbnf.Grammar
	last *xbnf.Node
	asts []*xbnf.AST
}

func (d *detRun) step(op int, rule, text string) {
	keepAST := func(a *xbnf.AST) {
		if a != nil {
			d.asts = append(d.asts, a)
			if len(a.Nodes) > 0 {
				d.last = a.Nodes[0]
			}
		}
	}
	switch detOps[op] {
	case "eval0":
		a, _ := d.g.Eval(xbnf.NewCharstreamFromString(text), xbnf.LevelRaw)
		keepAST(a)
	case "eval2":
		a, _ := d.g.Eval(xbnf.NewCharstreamFromString(text), xbnf.LevelDataOnly)
		keepAST(a)
	case "evalother":
		a, _ := d.g.Eval(xbnf.NewCharstreamFromString("b a\nab"), xbnf.LevelBasic)
		keepAST(a)
	case "evalfail":
		d.g.Eval(xbnf.NewCharstreamFromString(text+"\x01"), xbnf.LevelBasic)
	case "rule":
		d.last = d.g.EvalRule(rule, text).Node
	case "embed":
		d.last = d.g.EvalEmbed(rule, "z"+text+"z").Node
	case "scribble":
		for _, a := range d.asts {
			for _, n := range a.Nodes {
				scribble(n)
			}
		}
		scribble(d.last)
		d.asts, d.last = nil, nil
	case "serialize":
		d.g.Serialize(true)
	case "validate":
		d.g.Validate()
	case "merge":
		if d.last != nil {
			d.last.MergeStickyNodes()
			d.last.RemoveVirtualNodes()
			d.last.RemoveNonDataNodes()
			d.last.RemoveRedundantNodes()
		}
	case "parsefail":
		d.g.AddRule("r = 'again'")
		d.g.AddRule("bad = ('a' | r")
		d.g.AddRule("1 = 'a'")
	case "abandon": // an evaluation on a stream which is then dropped half way
		if rec := d.g.GetRecord(rule); rec != nil {
			cs := xbnf.NewCharstreamFromString(text + text)
			rec.Rule().Eval(d.g, cs, xbnf.SUGGEST_SKIP)
			cs.Next()
		}
	}
}

func probe(g *xbnf.Grammar, rule, text string) string {
	before := static(g, rule) // before the probe itself can change anything
	return before + "\n" + probeEvals(g, rule, text) + static(g, rule)
}

// static is what the grammar says without evaluating.
func static(g *xbnf.Grammar, rule string) string {
	s := g.Serialize(true)
	if r := g.GetRule(rule); r != nil {
		s += r.String() + r.StringWithIndent(" ")
	}
	return s
}

func probeEvals(g *xbnf.Grammar, rule, text string) string {
	raw, err := g.EvalRaw(xbnf.NewCharstreamFromString(text))
	s := showAST(raw, err)
	a, err := g.Eval(xbnf.NewCharstreamFromString(text), xbnf.LevelDataOnly)
	s += "\n2:" + showAST(a, err)
	s += "\nrule:" + showResult(g.EvalRule(rule, text))
	s += "\nembed:" + showResult(g.EvalEmbed(rule, "z"+text))
	return s + fmt.Sprint(g.Validate())
}

func (w *W) history(src, text string, ops []int) string {
	fresh, err := xbnf.NewGrammarFromString(src)
	if err != nil {
		return "grammar: " + err.Error()
	}
	used, _ := xbnf.NewGrammarFromString(src)
	w.trans += int64(len(ops)) + 1
	w.states++
	w.traces++
	want := probe(fresh, "r", text)
	d := &detRun{g: used}
	for _, o := range ops {
		d.step(o, "r", text)
	}
	if got := probe(used, "r", text); got != want {
		return "after the history: " + firstDiff(got, want)
	}
	return ""
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 40
	if lo < 0 {
		lo = 0
	}
	cut := func(s string) string {
		if len(s) > i+60 {
			s = s[:i+60]
		}
		return s[lo:]
	}
	return fmt.Sprintf("got ...%q, expected ...%q", cut(a), cut(b))
}

// mapOrders checks that loading src and probing gives the same under every map order.
func (w *W) mapOrders(src, text string) string {
	first, msg, n := "", "", 0
	r := &xsched.Run{}
	for {
		var s string
		xsched.WithMaps(r, func() {
			g, err := xbnf.NewGrammarFromString(src)
			if err != nil {
				s = "error: " + err.Error()
				return
			}
			s = probe(g, "r", text)
		})
		w.states++
		w.trans += int64(r.Len)
		w.traces++
		if n == 0 {
			first = s
		} else if s != first {
			msg = fmt.Sprintf("map order %v: %s", r.Choices(), firstDiff(s, first))
			break
		}
		n++
		if n > 3000 || !r.Next() {
			break
		}
	}
	return msg
}

// shuffled checks that the order of the definitions makes no difference.
func (w *W) shuffled(src, text string) string {
	lines := strings.Split(strings.TrimSpace(src), "\n")
	var first, msg string
	permute(lines, func(p []string) {
		w.states++
		w.trans++
		w.traces++
		g, err := xbnf.NewGrammarFromString(strings.Join(p, "\n"))
		var s string
		if err != nil {
			s = "rejected"
		} else {
			a, err := g.Eval(xbnf.NewCharstreamFromString(text), xbnf.LevelBasic)
			if err != nil {
				s = "fails " + fmt.Sprint(strings.Contains(err.Error(), "ambigu"))
			} else {
				s = showAST(a, nil)
			}
			s += showResult(g.EvalRule("r", text)) + showResult(g.EvalEmbed("r", text))
		}
		if first == "" {
			first = s
		} else if s != first && msg == "" {
			msg = fmt.Sprintf("definitions in the order %q: %s", p, firstDiff(s, first))
		}
	})
	return msg
}

func permute(a []string, f func([]string)) {
	var rec func(i int)
	rec = func(i int) {
		if i == len(a) {
			f(a)
			return
		}
		for j := i; j < len(a); j++ {
			a[i], a[j] = a[j], a[i]
			rec(i + 1)
			a[i], a[j] = a[j], a[i]
		}
	}
	rec(0)
}

var detGrammars = []string{
	"r = {'a' | 'b' | 'ab'}+",
	"r = \"a\" [\"b\"] {'a'}",
	"r = ~'a' #\"b\" | $'ab' > {'a' 'b'}<1,2>",
	"r = <'a' 'b' ^'z' '\\n'>\ns = \"b\"",
	"r = x y\nx = 'a' | 'ab'\ny = ['b'] | \"a\"",
	"r = #x {~x}\nx = $y\ny = 'a'-'b'",
	"r = {'a'}\ns = {\"b\"} \"b\"\nt = 'c'",
	"r = 'a' [r] 'b'",
	"r = ('a' 'a' | 'a' 'b')+",
	"r = {' ' | 'a'-'c' | \\u000A}",
	"r = 'ab' | 'a' 'b'",
	"r = EOF | {'a'} EOF | 'b' [EOF]",
	"r = <\"a\" \"b\">\ns = <'b' 'b' !> 'b'",
}

func joinOps(ops []int) string {
	var p []string
	for _, o := range ops {
		p = append(p, detOps[o])
	}
	return strings.Join(p, ",")
}

func runDet(c *Ctx) {
	var gs []string
	for _, s := range detGrammars {
		if _, err := xbnf.NewGrammarFromString(s); err == nil {
			gs = append(gs, s)
		}
	}
	c.sample(map[string]interface{}{"grammars": gs[:3], "operations": detOps})
	depth := c.pick(3, 4)
	ts := []string{"ab", "aab b", "a", "abab\n"}
	nOps := len(detOps)
	total := 1
	for i := 0; i < depth; i++ {
		total *= nOps
	}
	c.each(total, func(w *W, i int) {
		ops := make([]int, depth)
		for k, x := 0, i; k < depth; k++ {
			ops[k] = x % nOps
			x /= nOps
		}
		for _, src := range gs {
			for ti, t := range ts {
				if !c.Thorough && ti > 1 && i%3 != 0 {
					continue
				}
				cs := Case{Kind: "history", Src: src, Text: t, Extra: joinOps(ops)}
				w.do(&cs, func() string { return w.history(src, t, ops) })
			}
			if c.stop.Load() {
				return
			}
		}
	})
	c.farHistories(gs, []string{"ab", "aab b"})
	// map orders: several roots, several undefined names, several users
	pool := []string{"'a'", "'ab'", "{'a'} 'b'", "\"a\"", "x", "x 'b'", "y", "('a' | 'b')+", "(", "z [x]"}
	var mg []string
	for i, a := range pool {
		for j, b := range pool {
			mg = append(mg, fmt.Sprintf("r = %s\ns = %s\nx = 'a'", a, b), fmt.Sprintf("r = %s\ns = %s", a, b), fmt.Sprintf("r = %s\ns = %s\nt = 'b'", a, b))
			if c.Thorough || (i+j)%3 == 0 {
				for _, d := range pool {
					mg = append(mg, fmt.Sprintf("r = %s\nx = 'a'\ns = %s\ny = %s", a, b, d))
				}
			}
		}
	}
	ok := mg[:0]
	for _, s := range mg {
		if m, err := spec.ParseGrammar(s); err == nil && m.LeftRecursive() {
			continue
		}
		ok = append(ok, s)
	}
	mg = ok
	c.each(len(mg), func(w *W, i int) {
		for _, t := range []string{"ab", "b", "aab"} {
			cs := Case{Kind: "maporder", Src: mg[i], Text: t}
			w.do(&cs, func() string { return w.mapOrders(mg[i], t) })
		}
	})
	c.each(len(mg), func(w *W, i int) {
		for _, t := range []string{"ab", "a", "b", "aab"} {
			cs := Case{Kind: "shuffled", Src: mg[i], Text: t}
			w.do(&cs, func() string { return w.shuffled(mg[i], t) })
		}
	})
	// evaluations leave the grammar as it is
	pt := append(texts("ab", 3), "a b", " a", "ba b", "b\na")
	c.pureAll(single(coreGen(ab()...).UpTo(c.pick(4, 5))), pt)
	c.pureAll(withX(mixGen().UpTo(c.pick(3, 4))), pt)
	c.pureAll(single(famBlocks(c.Thorough)), append(texts("oec", 3), "oxc", "oexc", "oaec"))
	alts := []*rule{spec.C('a'), spec.Cs("ab"), spec.C('b'), spec.S("b"), spec.Re(spec.C('a'), 1, 0)}
	var ch []*rule
	for k := 3; k <= c.pick(4, 5); k++ {
		tuples(alts, k, func(t []*rule) { joins(t, func(r *rule) { ch = append(ch, r) }) })
	}
	c.pureAll(single(ch), pt)
	an, _ := c.annotated()
	c.pureAll(an, pt)
	// evaluations repeated: every rule of the core family twice, the result of the first overwritten
	rs := coreGen(ab()...).UpTo(c.pick(4, 5))
	tx := texts("ab ", 3)
	c.each(len(rs), func(w *W, i int) {
		src := spec.G(rs[i]).Src()
		for _, t := range tx {
			cs := Case{Kind: "twice", Src: src, Text: t}
			w.do(&cs, func() string { return w.twice(src, t) })
		}
	})
}

// pure checks that evaluations leave a grammar as it was: all texts in one order, then in the other, on one grammar;
// the results, errors included, and what the grammar prints stay the same.
func (w *W) pure(src string, tx []string) string {
	g, err := xbnf.NewGrammarFromString(src)
	if err != nil {
		return ""
	}
	w.states++
	w.trans += int64(2 * len(tx))
	w.traces += int64(2 * len(tx))
	was := static(g, "r")
	one := func(t string) string {
		raw, err := g.EvalRaw(xbnf.NewCharstreamFromString(t))
		return showResult(g.EvalRule("r", t)) + showAST(raw, err)
	}
	res := make([]string, len(tx))
	for i, t := range tx {
		res[i] = one(t)
		if i == 0 || i == 1 || i == len(tx)-1 {
			if now := static(g, "r"); now != was {
				return fmt.Sprintf("after %q the grammar prints: %s", tx[:i+1], firstDiff(now, was))
			}
		}
	}
	for i := len(tx) - 1; i >= 0; i-- {
		if now := one(tx[i]); now != res[i] {
			return fmt.Sprintf("%q again: %s", tx[i], firstDiff(now, res[i]))
		}
	}
	if now := static(g, "r"); now != was {
		return "in the end the grammar prints: " + firstDiff(now, was)
	}
	return ""
}

func (c *Ctx) pureAll(gs []*spec.Grammar, tx []string) {
	c.each(len(gs), func(w *W, i int) {
		if gs[i].LeftRecursive() {
			return
		}
		src := gs[i].Src()
		cs := Case{Kind: "pure", Src: src, Extra: strings.Join(tx, "\x1f")}
		w.do(&cs, func() string { return w.pure(src, tx) })
	})
}

func (w *W) twice(src, text string) string {
	g, err := xbnf.NewGrammarFromString(src)
	if err != nil {
		return ""
	}
	w.states++
	w.trans += 2
	w.traces++
	r := g.EvalRule("r", text)
	s := showResult(r)
	for i := range r.CharsRead {
		r.CharsRead[i] = '?'
	}
	for i := range r.CharsUnused {
		r.CharsUnused[i] = '?'
	}
	scribble(r.Node)
	if s2 := showResult(g.EvalRule("r", text)); s2 != s {
		return "second evaluation: " + firstDiff(s2, s)
	}
	return ""
}

func replayDet(w *W, c Case) string {
	switch c.Kind {
	case "maporder":
		return w.mapOrders(c.Src, c.Text)
	case "shuffled":
		return w.shuffled(c.Src, c.Text)
	case "pure":
		return w.pure(c.Src, strings.Split(c.Extra, "\x1f"))
	case "twice":
		return w.twice(c.Src, c.Text)
	case "farhistory":
		return w.farHistory(c.Src, c.Text)
	}
	var ops []int
	for _, n := range strings.Split(c.Extra, ",") {
		for i, o := range detOps {
			if o == n {
				ops = append(ops, i)
			}
		}
	}
	return w.history(c.Src, c.Text, ops)
}
