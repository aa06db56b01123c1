package main

import (
	"fmt"
	"strconv"
	"strings"

	"xmc/spec"

	"github.com/cnsgfk/xbnf"
)

func init() {
	register(&prop{id: "C16", level: "model_checking", assume: []string{
		"the reference steps in mc/spec/simplify.go (which build new trees and share no code with the library) state what each step documents",
		"trees built directly cover every shape up to the bound with every combination of marks from the stated alphabets; trees produced by parsing cover every annotated grammar up to the bound",
	},
		rule: "every tree shape up to a node count x every assignment of name, marks, stickiness and text from an alphabet x every step and the pipelines of every level, compared with the reference steps; every annotated grammar up to a cost x text x level through Eval",
		run:  runSimplify, replay: replayTree})
	register(&prop{id: "C23", level: "model_checking", assume: []string{
		"the printed form is the one the project's sample outputs pin: header, marks in the order $ # ~ +, box drawing prefixes per depth",
	},
		rule: "every tree shape up to a node count x every assignment of name, marks, stickiness, type and text from an alphabet: text, counts and the printed form under every print option, of every node and of the whole tree, compared with an independent printer and counter; the tree is compared before and after",
		run:  runQueries, replay: replayTree})
}

// attr is what a node of a built tree carries.
type attr struct {
	typ  byte // see nodeTypes
	name string
	mask int // 1 $, 2 #, 4 ~, 8 sticky
	text string
}

var nodeTypes = map[byte]string{'c': "concatenate", 'b': "block", 'g': "group", 'o': "option", 'r': "repetition", 'h': "choice", 'e': "embed", 's': "string", 'k': "chars", 'x': "char", 'E': "EOF", 't': "text"}

// fast conversion of a model tree into one of the library; positions are L1:(index+1)
func toReal(n *spec.Node) *xbnf.Node {
	r := &xbnf.Node{RuleType: xbnf.Type(n.Type), RuleName: n.Name, Sticky: n.Sticky, Virtual: n.Vir, NonData: n.Non, Tokenized: n.Tok}
	if n.Chars != nil {
		r.Chars = append(make([]rune, 0, len(n.Chars)+3), n.Chars...) // spare room: an append that writes into a shared array shows
	}
	if n.Pos >= 0 {
		r.Position = &xbnf.Position{Line: 1, Col: n.Pos + 1}
	}
	for _, k := range n.Kids {
		r.ChildNodes = append(r.ChildNodes, toReal(k))
	}
	return r
}

func toReals(ns []*spec.Node) []*xbnf.Node {
	var out []*xbnf.Node
	for _, n := range ns {
		out = append(out, toReal(n))
	}
	return out
}

// enc writes a tree on one line; dec reads it back. type, mask digit(hex), name|, text|, (kids)
func enc(n *spec.Node) string {
	t := byte('?')
	for k, v := range nodeTypes {
		if v == n.Type {
			t = k
		}
	}
	m := 0
	for i, f := range []bool{n.Tok, n.Non, n.Vir, n.Sticky} {
		if f {
			m |= 1 << i
		}
	}
	s := fmt.Sprintf("%c%x%s|%s|%d", t, m, n.Name, strconv.Quote(string(n.Chars)), n.Pos)
	if n.Type == "EOF" {
		s = fmt.Sprintf("%c%x%s||%d", t, m, n.Name, n.Pos)
	}
	s += "("
	for _, k := range n.Kids {
		s += enc(k)
	}
	return s + ")"
}

func dec(s string) (*spec.Node, string) {
	n := &spec.Node{Type: nodeTypes[s[0]]}
	m, _ := strconv.ParseInt(s[1:2], 16, 32)
	n.Tok, n.Non, n.Vir, n.Sticky = m&1 != 0, m&2 != 0, m&4 != 0, m&8 != 0
	i := strings.IndexByte(s, '|')
	n.Name = s[2:i]
	s = s[i+1:]
	if s[0] == '|' {
		n.Chars = []rune{-1}
		s = s[1:]
	} else {
		q, _ := strconv.QuotedPrefix(s)
		u, _ := strconv.Unquote(q)
		if u != "" {
			n.Chars = []rune(u)
		}
		s = s[len(q)+1:]
	}
	i = strings.IndexByte(s, '(')
	n.Pos, _ = strconv.Atoi(s[:i])
	s = s[i+1:]
	for s[0] != ')' {
		var k *spec.Node
		k, s = dec(s)
		n.Kids = append(n.Kids, k)
	}
	return n, s[1:]
}

// diffBuilt compares trees exactly, positions included, down to the emptiness of texts.
func diffBuilt(r *xbnf.Node, m *spec.Node) string {
	switch {
	case r == nil:
		return "node is nil"
	case string(r.RuleType) != m.Type || r.RuleName != m.Name:
		return fmt.Sprintf("node is %s/%s, expected %s/%s", r.RuleName, r.RuleType, m.Name, m.Type)
	case len(m.Kids) == 0 && len(r.ChildNodes) == 0 && !runesEq(r.Chars, m.Chars), len(m.Kids) > 0 && !runesEq(r.Text(), m.Text()):
		return fmt.Sprintf("%s/%s node has text %q, expected %q", m.Name, m.Type, string(r.Text()), string(m.Text()))
	case r.Tokenized != m.Tok || r.Virtual != m.Vir || r.NonData != m.Non:
		return fmt.Sprintf("%s/%s node token/virtual/nondata=%v/%v/%v, expected %v/%v/%v", m.Name, m.Type, r.Tokenized, r.Virtual, r.NonData, m.Tok, m.Vir, m.Non)
	case r.Sticky != m.Sticky:
		return fmt.Sprintf("%s/%s node sticky=%v, expected %v", m.Name, m.Type, r.Sticky, m.Sticky)
	case m.Pos >= 0 && (r.Position == nil || r.Position.Line != 1 || r.Position.Col != m.Pos+1):
		return fmt.Sprintf("%s/%s node %q is at %s, expected L1:%d", m.Name, m.Type, string(m.Text()), r.Position.String(), m.Pos+1)
	case len(r.ChildNodes) != len(m.Kids):
		return fmt.Sprintf("%s/%s node has %d children, expected %d", m.Name, m.Type, len(r.ChildNodes), len(m.Kids))
	}
	for i := range m.Kids {
		if d := diffBuilt(r.ChildNodes[i], m.Kids[i]); d != "" {
			return d
		}
	}
	return ""
}

func diffBuilts(rs []*xbnf.Node, ms []*spec.Node) string {
	if len(rs) != len(ms) {
		return fmt.Sprintf("%d top nodes, expected %d", len(rs), len(ms))
	}
	for i := range rs {
		if d := diffBuilt(rs[i], ms[i]); d != "" {
			return d
		}
	}
	return ""
}

type treeOp struct {
	name string
	ast  func(*xbnf.AST)
	node func(*xbnf.Node)
	m    func([]*spec.Node) []*spec.Node
	mn   func(*spec.Node) *spec.Node
}

var treeOps = []treeOp{
	{"MergeStickyNodes", (*xbnf.AST).MergeStickyNodes, (*xbnf.Node).MergeStickyNodes, spec.Merge, (*spec.Node).Merged},
	{"RemoveVirtualNodes", (*xbnf.AST).RemoveVirtualNodes, (*xbnf.Node).RemoveVirtualNodes,
		func(n []*spec.Node) []*spec.Node { return spec.Drop(n, spec.IsVirtual) }, func(n *spec.Node) *spec.Node { return n.Dropped(spec.IsVirtual) }},
	{"RemoveNonDataNodes", (*xbnf.AST).RemoveNonDataNodes, (*xbnf.Node).RemoveNonDataNodes,
		func(n []*spec.Node) []*spec.Node { return spec.Drop(n, spec.IsNonData) }, func(n *spec.Node) *spec.Node { return n.Dropped(spec.IsNonData) }},
	{"RemoveRedundantNodes", (*xbnf.AST).RemoveRedundantNodes, (*xbnf.Node).RemoveRedundantNodes, spec.Reduce, (*spec.Node).Reduced},
}

var treePipes = [][]int{{0}, {1}, {2}, {3}, {0, 1, 2, 3}, {0, 1, 3}, {0, 2, 3}, {0, 3}}

// steps runs every step and pipeline on the tree ns, as a tree and (n of them) as single nodes.
func (w *W) steps(ns []*spec.Node, pipes [][]int) string {
	for _, p := range pipes {
		ast := &xbnf.AST{Filename: "f", Nodes: toReals(ns)}
		m := ns
		for _, o := range p {
			treeOps[o].ast(ast)
			m = treeOps[o].m(m)
			w.trans++
		}
		w.traces++
		if d := diffBuilts(ast.Nodes, m); d != "" {
			return fmt.Sprintf("tree after %s: %s", pipeName(p), d)
		}
		if ast.Filename != "f" {
			return "file name lost"
		}
		if len(ns) == 1 {
			r, mn := toReal(ns[0]), ns[0]
			for _, o := range p {
				treeOps[o].node(r)
				mn = treeOps[o].mn(mn)
				w.trans++
			}
			w.traces++
			if d := diffBuilt(r, mn); d != "" {
				return fmt.Sprintf("node after %s: %s", pipeName(p), d)
			}
		}
	}
	w.states++
	return ""
}

func pipeName(p []int) string {
	var s []string
	for _, o := range p {
		s = append(s, treeOps[o].name)
	}
	return strings.Join(s, ", ")
}

// shapes enumerates every ordered tree of n nodes as a list of child counts in preorder.
func shapes(n int) [][]int {
	memo := map[int][][]int{}
	var tree func(n int) [][]int
	var forest func(n int) [][][]int
	forest = func(n int) [][][]int {
		if n == 0 {
			return [][][]int{nil}
		}
		var out [][][]int
		for k := 1; k <= n; k++ {
			for _, t := range tree(k) {
				for _, f := range forest(n - k) {
					out = append(out, append([][]int{t}, f...))
				}
			}
		}
		return out
	}
	tree = func(n int) [][]int {
		if t, ok := memo[n]; ok {
			return t
		}
		var out [][]int
		for _, f := range forest(n - 1) {
			t := []int{len(f)}
			for _, s := range f {
				t = append(t, s...)
			}
			out = append(out, t)
		}
		memo[n] = out
		return out
	}
	return tree(n)
}

// plant builds the tree of a shape; pick returns the attributes of the i-th node (leaf or not).
func plant(shape []int, pick func(i int, leaf bool) attr) *spec.Node {
	i, pos := 0, 0
	var rec func() *spec.Node
	rec = func() *spec.Node {
		k := shape[i]
		a := pick(i, k == 0)
		i++
		n := &spec.Node{Type: nodeTypes[a.typ], Name: a.name, Tok: a.mask&1 != 0, Non: a.mask&2 != 0, Vir: a.mask&4 != 0, Sticky: a.mask&8 != 0, Pos: -1}
		if k == 0 {
			switch {
			case a.typ == 'E':
				n.Chars = []rune{-1}
			case a.text != "":
				n.Chars = []rune(a.text)
				n.Pos = pos
				pos += len(n.Chars) + 1
			}
			return n
		}
		for j := 0; j < k; j++ {
			c := rec()
			n.Kids = append(n.Kids, c)
			if n.Pos < 0 {
				n.Pos = c.Pos
			}
		}
		return n
	}
	return rec()
}

// attrs is the cross product of an alphabet.
func attrs(types string, names []string, masks []int, texts []string) []attr {
	var out []attr
	for _, t := range types {
		for _, n := range names {
			for _, m := range masks {
				for _, x := range texts {
					out = append(out, attr{byte(t), n, m, x})
				}
			}
		}
	}
	return out
}

func allMasks() []int {
	var m []int
	for i := 0; i < 16; i++ {
		m = append(m, i)
	}
	return m
}

// forests calls f with every tree of the shape over the alphabets (leaf, inner, root), in parallel.
func (c *Ctx) trees(kind string, shape []int, root, inner, leaf []attr, f func(w *W, n *spec.Node) string) {
	n := len(shape)
	dims := make([][]attr, n)
	total := 1
	for i := range shape {
		switch {
		case i == 0 && root != nil:
			dims[i] = root
		case shape[i] == 0:
			dims[i] = leaf
		default:
			dims[i] = inner
		}
		total *= len(dims[i])
	}
	chunk := len(dims[n-1])
	c.each(total/chunk, func(w *W, hi int) {
		idx := make([]int, n)
		x := hi
		for i := n - 2; i >= 0; i-- {
			idx[i] = x % len(dims[i])
			x /= len(dims[i])
		}
		w.caseLazy(kind, func(try func(lazy func() Case, f func() string)) {
			for l := 0; l < chunk; l++ {
				idx[n-1] = l
				t := plant(shape, func(i int, _ bool) attr { return dims[i][idx[i]] })
				try(func() Case { return Case{Kind: kind, Extra: enc(t)} }, func() string { return f(w, t) })
			}
		})
	})
}

// caseLazy runs a batch of small cases; a case is only written out when it fails or panics.
func (w *W) caseLazy(kind string, batch func(try func(lazy func() Case, f func() string))) {
	cs := Case{Kind: kind}
	w.begin(&cs)
	w.cas--
	defer w.end()
	n := 0
	batch(func(lazy func() Case, f func() string) {
		w.cas++
		if n++; n&1023 == 0 {
			w.beat()
		}
		if w.c.stop.Load() {
			return
		}
		defer func() {
			if x := recover(); x != nil {
				w.fail(lazy(), fmt.Sprintf("panic: %v", x))
			}
		}()
		if msg := f(); msg != "" {
			w.fail(lazy(), msg)
		}
	})
}

func runSimplify(c *Ctx) {
	all := allMasks()
	step := func(w *W, n *spec.Node) string { return w.steps([]*spec.Node{n}, treePipes) }
	// one level: every combination on up to two leaves, marks and stickiness on three
	root := attrs("cb", []string{"", "r"}, []int{0, 8}, []string{""})
	leafAll := append(attrs("s", []string{"", "n"}, all, []string{"a", "", " ", "ab "}), attrs("E", []string{"", "EOF"}, all, []string{""})...)
	c.sample(map[string]interface{}{"family": "one level", "root": len(root), "leaf": len(leafAll)})
	for k := 0; k <= 2; k++ {
		sh := make([]int, k+1)
		sh[0] = k
		rm := all
		if k == 2 && !c.Thorough {
			rm = []int{0, 15}
		}
		c.trees("step", sh, attrs("cbgorh", []string{"", "r"}, rm, []string{"a"}), nil, leafAll, step)
	}
	leaf3 := append(attrs("s", []string{"", "n"}, all, []string{"a"}), attrs("s", []string{"", "n"}, []int{0, 8, 12}, []string{""})...)
	c.trees("step", []int{3, 0, 0, 0}, root, nil, leaf3, step)
	leaf4 := append(attrs("s", []string{""}, all, []string{"a"}), attr{'s', "n", 0, "a"}, attr{'s', "n", 8, "a"}, attr{'s', "", 8, ""}, attr{'E', "EOF", 8, ""})
	c.trees("step", []int{4, 0, 0, 0, 0}, root[:1], nil, leaf4, step)
	// leaves which are nothing but white space
	var blank []attr
	for _, t := range []string{"\t", "\n", "\r", "\v", " \t", "\u0085", "\u00a0", "\u2028", "\u3000", "\x00", "\ufeff"} {
		blank = append(blank, attrs("s", []string{"", "n"}, []int{0, 8, 2, 4}, []string{t})...)
	}
	for k := 1; k <= 2; k++ {
		sh := make([]int, k+1)
		sh[0] = k
		c.trees("step", sh, root, nil, append(blank, attr{'s', "", 0, "a"}, attr{'s', "", 8, ""}), step)
	}
	// every shape
	inner := append(attrs("c", []string{"", "n"}, []int{0, 8, 2, 4}, []string{""}), attr{'b', "", 0, ""}, attr{'b', "n", 8, ""})
	leaf := append(attrs("s", []string{"", "n"}, []int{0, 8, 2, 4, 9}, []string{"a"}), attr{'s', "", 8, ""}, attr{'E', "EOF", 8, ""})
	small := []attr{{'c', "", 0, ""}, {'c', "n", 0, ""}, {'c', "", 8, ""}, {'c', "n", 4, ""}, {'b', "", 0, ""}}
	smallLeaf := []attr{{'s', "", 0, "a"}, {'s', "n", 0, "a"}, {'s', "", 8, "a"}, {'s', "", 12, "a"}, {'s', "n", 2, "a"}, {'s', "", 0, ""}}
	tiny := []attr{{'c', "", 0, ""}, {'c', "n", 8, ""}}
	tinyLeaf := []attr{{'s', "", 0, "a"}, {'s', "n", 8, "a"}, {'s', "", 10, "a"}}
	c.sample(map[string]interface{}{"family": "shapes", "up to 4 nodes": fmt.Sprintf("%d inner x %d leaf attributes", len(inner), len(leaf)), "5..6 nodes": fmt.Sprintf("%d x %d", len(small), len(smallLeaf)), "7..": fmt.Sprintf("%d x %d", len(tiny), len(tinyLeaf))})
	for n := 2; n <= c.pick(4, 5); n++ {
		for _, sh := range shapes(n) {
			c.trees("step", sh, inner, inner, leaf, step)
		}
	}
	for n := 5; n <= c.pick(5, 6); n++ {
		for _, sh := range shapes(n) {
			c.trees("step", sh, nil, small, smallLeaf, step)
		}
	}
	for n := 6; n <= c.pick(7, 9); n++ {
		for _, sh := range shapes(n) {
			c.trees("step", sh, nil, tiny, tinyLeaf, step)
		}
	}
	// several top nodes: the children of a built root are the top nodes
	c.sample("the same trees with the children of the root as the top nodes")
	top := func(w *W, n *spec.Node) string { return w.steps(n.Kids, treePipes) }
	plain := []attr{{'c', "", 0, ""}}
	for n := 3; n <= 4; n++ {
		for _, sh := range shapes(n) {
			c.trees("top", sh, plain, inner, leaf, top)
		}
	}
	// wide and deep
	for n := 2; n <= c.pick(40, 200); n++ {
		for m := 0; m < 16; m++ {
			w := []int{n}
			for i := 0; i < n; i++ {
				w = append(w, 0)
			}
			for odd := 0; odd < 16; odd++ {
				for at := 0; at < n; at += 1 + n/6 {
					one := func(i int, leaf bool) attr {
						switch {
						case i == 0:
							return attr{'c', "", 0, ""}
						case i == at+1:
							return attr{'s', "n", odd, "b"}
						}
						return attr{'s', "", m, "a"}
					}
					ns := plant(w, one)
					c.one("step", ns, step)
				}
			}
			d := make([]int, n)
			for i := range d {
				d[i] = 1
			}
			d[n-1] = 0
			for _, nm := range []string{"", "n"} {
				ns := plant(d, func(i int, leaf bool) attr {
					a := attr{'c', "", 0, ""}
					if leaf {
						a = attr{'s', "", 0, "a"}
					}
					if i == n/2 {
						a.name, a.mask = nm, m
					}
					return a
				})
				c.one("step", ns, step)
			}
		}
	}
	c.farTrees("farstep", 1025, 65537, step)
	// parsed trees
	gs, ts := c.annotated()
	c.sample(map[string]interface{}{"family": "parsed", "grammars": len(gs), "texts": len(ts), "first": gs[0].Src(), "last": gs[len(gs)-1].Src()})
	c.levels("level", gs, ts, (*W).level)
}

func (c *Ctx) one(kind string, n *spec.Node, f func(w *W, n *spec.Node) string) {
	w := c.ws[0]
	cs := Case{Kind: kind, Extra: enc(n)}
	w.do(&cs, func() string { return f(w, n) })
}

// annotated is a family of grammars whose parse trees carry all marks, names and stickiness, and texts.
func (c *Ctx) annotated() ([]*spec.Grammar, []*Text) {
	terms := []*rule{spec.C('a'), spec.S("b"), spec.C('a').Ann(2), spec.S("b").Ann(4), spec.C('a').Ann(1), spec.N("x"), spec.N("x").Ann(2), spec.N("x").Ann(4)}
	var gs []*spec.Grammar
	// sequences
	for k := 2; k <= c.pick(3, 4); k++ {
		tuples(terms, k, func(t []*rule) {
			for _, x := range []*rule{spec.C('a'), spec.Cat(spec.C('a'), spec.S("b")), spec.Gr(spec.S("b")).Ann(4)} {
				gs = append(gs, spec.NewGrammar().Def("r", spec.Cat(t...)).Def("x", x))
			}
		})
	}
	g := &Gen{Terms: terms[:6], Wrap: []func(*rule) *rule{repAny, wAnn(repAny, 1), wAnn(wGroup, 2), wAnn(wOption, 4), wOption}, Bars: true, Seqs: true}
	for _, r := range g.UpTo(c.pick(4, 5)) {
		gs = append(gs, spec.NewGrammar().Def("r", r).Def("x", spec.Cat(spec.C('a'), spec.S("b"))))
	}
	// blocks and ends
	bl := func(m int) *rule { return spec.Bl(spec.C('a').Ann(m), nil, nil, spec.C('b').Ann(m), false) }
	for m := 0; m < 8; m++ {
		for m2 := 0; m2 < 8; m2++ {
			gs = append(gs, spec.NewGrammar().Def("r", spec.Cat(bl(m2).Ann(m), spec.Op(spec.N("x")).Ann(m2), spec.Op(spec.E()))).Def("x", spec.Gr(bl(m)).Ann(m2)),
				spec.NewGrammar().Def("r", spec.Re(spec.N("x").Ann(m), 0, 0)).Def("x", spec.Alt(spec.C('a').Ann(m2), spec.S("b"))),
				spec.NewGrammar().Def("r", spec.Alt(spec.C('a').Ann(m), spec.Cat(spec.C('a').Ann(m2), spec.C('b').Ann(m)), spec.S("b").Ann(m2))),
				spec.NewGrammar().Def("r", spec.Re(spec.Gr(spec.Alt(spec.C('a').Ann(m), spec.C('b').Ann(m2))), 1, 0).Ann(m2)))
		}
	}
	return gs, mkTexts(append(texts("ab ", 4), "aaabb", "ababab", "a b\na b", "aaaaaaaab", "b b b a a b"))
}

func (c *Ctx) levels(kind string, gs []*spec.Grammar, ts []*Text, f func(w *W, p *Pair, t *Text, level int) string) {
	c.each(len(gs), func(w *W, i int) {
		if gs[i].LeftRecursive() {
			return
		}
		p := mustPair(w, gs[i])
		if p == nil {
			return
		}
		for _, t := range ts {
			for _, l := range []int{-1, 0, 1, 2} {
				cs := Case{Kind: kind, Src: p.Src, Text: t.S, Flag: l + 1}
				w.do(&cs, func() string { return f(w, p, t, l) })
				if c.stop.Load() {
					return
				}
			}
		}
	})
}

func noWhite(t []rune) []rune {
	var out []rune
	for _, c := range t {
		if !spec.White(c) {
			out = append(out, c)
		}
	}
	return out
}

func subseq(a, b []rune) bool {
	i := 0
	for _, c := range b {
		if i < len(a) && a[i] == c {
			i++
		}
	}
	return i == len(a)
}

// level compares Eval at a level with the reference steps on the reference parse, and, without them,
// that text which is data survives.
func (w *W) level(p *Pair, t *Text, level int) string {
	ast, err := p.R.Eval(xbnf.NewCharstreamFromString(t.S), level)
	ev := spec.Ev{G: p.M, T: t.R}
	m := ev.Parse()
	w.states++
	w.trans += int64(ev.Steps)
	w.traces++
	if (err == nil) != m.Ok {
		return "" // C02
	}
	if err != nil {
		if ast != nil {
			return "a failed evaluation returns a tree"
		}
		return ""
	}
	want := spec.Simplify(m.Nodes, level)
	if len(ast.Nodes) != len(want) {
		return fmt.Sprintf("%d top nodes, expected %d", len(ast.Nodes), len(want))
	}
	for i := range want {
		if d := diffNode(ast.Nodes[i], want[i], t.LC, diffAll); d != "" {
			return fmt.Sprintf("top node %d: %s", i+1, d)
		}
	}
	raw, err := p.R.EvalRaw(xbnf.NewCharstreamFromString(t.S))
	if err != nil {
		return "EvalRaw fails where Eval succeeds"
	}
	var all, data, got []rune
	for _, n := range raw.Nodes {
		all = realLeaves(n, all)
		data = dataLeaves(n, level, data)
	}
	for _, n := range ast.Nodes {
		got = realLeaves(n, got)
	}
	all, data, got = noWhite(all), noWhite(data), noWhite(got)
	if !subseq(data, got) || !subseq(got, all) {
		return fmt.Sprintf("text of the simplified tree is %q; the data is %q, the raw tree has %q", string(got), string(data), string(all))
	}
	return ""
}

// dataLeaves is the text which a level must keep.
func dataLeaves(n *xbnf.Node, level int, out []rune) []rune {
	if level >= 1 && n.Virtual || level >= 2 && n.NonData {
		return out
	}
	if len(n.ChildNodes) == 0 {
		return realLeaves(n, out)
	}
	for _, k := range n.ChildNodes {
		out = dataLeaves(k, level, out)
	}
	return out
}

// ---- queries

// drawNode prints a node from its definition: one line per node, children indented by their depth.
func drawNode(n *spec.Node, cfg xbnf.NodeTreeConfig, lc func(int) string) []string {
	h := "L0:0"
	if n.Pos >= 0 {
		h = lc(n.Pos)
	}
	h += ":" + n.Name
	if cfg.PrintRuleType {
		h += "/" + n.Type
	}
	for i, f := range []bool{n.Tok, n.Non, n.Vir, n.Sticky} {
		if f {
			h += string("$#~+"[i])
		}
	}
	if len(n.Kids) == 0 || cfg.PrintNonleafNodeText {
		h += ": >" + string(n.Text()) + "<"
	}
	lines := strings.Split(h, "\n")
	for i, k := range n.Kids {
		first, rest := "├──", "│  "
		if i == len(n.Kids)-1 {
			first, rest = "└──", "   "
		}
		for j, l := range drawNode(k, cfg, lc) {
			if j == 0 {
				lines = append(lines, first+l)
			} else {
				lines = append(lines, rest+l)
			}
		}
	}
	return lines
}

func drawTree(ns []*spec.Node, file string, cfg xbnf.NodeTreeConfig, lc func(int) string) string {
	lines := []string{"Abstract Syntax Tree", "├─ file:" + file}
	if len(ns) == 0 {
		return strings.Join(append(lines, "└─ Nodes: 0"), "\n")
	}
	lines = append(lines, fmt.Sprintf("├─ Nodes: %d", len(ns)))
	for i, k := range ns {
		first, rest := "├───", "│   "
		if i == len(ns)-1 {
			first, rest = "└───", "    "
		}
		for j, l := range drawNode(k, cfg, lc) {
			if j == 0 {
				lines = append(lines, first+l)
			} else {
				lines = append(lines, rest+l)
			}
		}
	}
	return strings.Join(lines, "\n")
}

func configs() []*xbnf.NodeTreeConfig {
	out := []*xbnf.NodeTreeConfig{nil}
	for m := 0; m < 8; m++ {
		out = append(out, &xbnf.NodeTreeConfig{PrintRuleType: m&1 != 0, PrintNonleafNodeText: m&2 != 0, VerboseNodeText: m&4 != 0})
	}
	return out
}

func lineOne(p int) string { return fmt.Sprintf("L1:%d", p+1) }

func realState(rs []*xbnf.Node) string {
	var b strings.Builder
	for _, r := range rs {
		b.WriteString(realTree(r))
	}
	return b.String()
}

// ask checks every query on the top nodes ns, and on each node when there is one.
func (w *W) ask(ns []*spec.Node, rs []*xbnf.Node, lc func(int) string, cfgs []*xbnf.NodeTreeConfig) string {
	file := "some/file"
	ast := &xbnf.AST{Filename: file, Nodes: rs}
	before := realState(rs)
	var text []rune
	nodes, toks, stk := 0, 0, 0
	for i, n := range ns {
		nt := n.Text()
		text = append(text, nt...)
		a, b, d := n.CountNodes(), n.CountTokens(), n.CountSticky()
		nodes, toks, stk = nodes+a, toks+b, stk+d
		r := rs[i]
		w.trans += 4
		if !runesEq(r.Text(), nt) {
			return fmt.Sprintf("node text is %q, expected %q", string(r.Text()), string(nt))
		}
		if x := r.CountNodes(); x != a {
			return fmt.Sprintf("node has %d nodes, counted %d", a, x)
		}
		if x := r.CountTokens(); x != b {
			return fmt.Sprintf("node has %d tokens, counted %d", b, x)
		}
		if x := r.CountStickyNodes(); x != d {
			return fmt.Sprintf("node has %d sticky nodes, counted %d", d, x)
		}
	}
	if x := ast.Text(); !runesEq(x, text) {
		return fmt.Sprintf("tree text is %q, expected %q", string(x), string(text))
	}
	if x := ast.CountNodes(); x != nodes {
		return fmt.Sprintf("tree has %d nodes, counted %d", nodes, x)
	}
	if x := ast.CountTokens(); x != toks {
		return fmt.Sprintf("tree has %d tokens, counted %d", toks, x)
	}
	if x := ast.CountStickyNodes(); x != stk {
		return fmt.Sprintf("tree has %d sticky nodes, counted %d", stk, x)
	}
	for _, cfg := range cfgs {
		eff := xbnf.NodeTreeConfig{PrintRuleType: true}
		if cfg != nil {
			eff = *cfg
		}
		w.trans += 2
		w.beat()
		if got, want := ast.StringTree(cfg), drawTree(ns, file, eff, lc); got != want {
			return fmt.Sprintf("tree prints as\n%s\nexpected\n%s\n(%+v)", got, want, eff)
		}
		if len(ns) == 1 {
			if got, want := rs[0].StringTree(cfg), strings.Join(drawNode(ns[0], eff, lc), "\n"); got != want {
				return fmt.Sprintf("node prints as\n%s\nexpected\n%s\n(%+v)", got, want, eff)
			}
		}
		if cfg != nil && *cfg != eff {
			return "printing changes the options"
		}
	}
	if realState(rs) != before {
		return "asking changes the tree"
	}
	w.states++
	w.traces++
	return ""
}

// askAt asks a parsed tree at every level.
func (w *W) askAt(p *Pair, t *Text, level int) string {
	ast, err := p.R.Eval(xbnf.NewCharstreamFromString(t.S), level)
	if err != nil {
		if ast.Text() != nil || ast.CountNodes() != 0 || ast.CountTokens() != 0 || ast.CountStickyNodes() != 0 || ast.StringTree(nil) != "nil AST" {
			return "a missing tree has content"
		}
		return ""
	}
	// the printed tree must be that of the tree itself, whatever it is
	var ns []*spec.Node
	for _, n := range ast.Nodes {
		ns = append(ns, fromReal(n))
	}
	return w.ask(ns, ast.Nodes, func(p int) string { return fmt.Sprintf("L%d:%d", p>>16, p&0xffff) }, configs()[:5])
}

// fromReal copies a tree; a position is packed into one number.
func fromReal(r *xbnf.Node) *spec.Node {
	n := &spec.Node{Type: string(r.RuleType), Name: r.RuleName, Tok: r.Tokenized, Vir: r.Virtual, Non: r.NonData, Sticky: r.Sticky, Pos: -1}
	n.Chars = append(n.Chars, r.Chars...)
	if r.Position != nil {
		n.Pos = r.Position.Line<<16 | r.Position.Col
	}
	for _, k := range r.ChildNodes {
		n.Kids = append(n.Kids, fromReal(k))
	}
	return n
}

func runQueries(c *Ctx) {
	all := allMasks()
	cfgs := configs()
	q := func(w *W, n *spec.Node) string { return w.ask([]*spec.Node{n}, []*xbnf.Node{toReal(n)}, lineOne, cfgs) }
	leafTexts := []string{"a", "", " ", "a b", "\n", "é\nb", "\t", "x\n", "`", "%d"}
	leaf := append(attrs("s", []string{"", "n"}, []int{0, 8}, leafTexts), attr{'E', "EOF", 8, ""}, attr{'E', "", 0, ""})
	marks := attrs("sk", []string{"", "n"}, all, []string{"a"})
	inner := attrs("cbgorhe", []string{"", "n"}, []int{0, 8}, []string{""})
	c.sample(map[string]interface{}{"family": "shapes", "inner": len(inner), "leaf": len(leaf), "leaf texts": leafTexts})
	c.trees("ask", []int{0}, append(marks, leaf...), nil, nil, q)
	c.trees("ask", []int{1, 0}, attrs("cbgorhe", []string{"", "n"}, all, []string{""}), nil, append(marks, leaf...), q)
	for _, sh := range shapes(3) {
		c.trees("ask", sh, inner, inner, leaf, q)
	}
	c.trees("ask", []int{2, 0, 0}, inner[:2], nil, marks, q)
	small := []attr{{'c', "", 0, ""}, {'c', "n", 8, ""}, {'b', "", 0, ""}, {'h', "m", 2, ""}}
	smallLeaf := []attr{{'s', "", 0, "a"}, {'s', "n", 8, "b"}, {'s', "", 0, " c"}, {'s', "", 0, ""}, {'E', "EOF", 8, ""}, {'k', "n", 4, "d\ne"}}
	for n := 4; n <= c.pick(4, 5); n++ {
		for _, sh := range shapes(n) {
			c.trees("ask", sh, nil, small, smallLeaf, q)
		}
	}
	tiny := []attr{{'c', "", 0, ""}, {'b', "n", 8, ""}}
	tinyLeaf := []attr{{'s', "", 0, "a"}, {'s', "n", 8, "b"}}
	for n := 5; n <= c.pick(6, 8); n++ {
		for _, sh := range shapes(n) {
			c.trees("ask", sh, nil, tiny, tinyLeaf, q)
		}
	}
	top := func(w *W, n *spec.Node) string { return w.ask(n.Kids, toReals(n.Kids), lineOne, cfgs) }
	for n := 1; n <= 4; n++ {
		for _, sh := range shapes(n) {
			c.trees("asktop", sh, small[:1], small, smallLeaf, top)
		}
	}
	// wide, deep and long
	for n := 2; n <= c.pick(60, 300); n++ {
		w := []int{n}
		d := make([]int, n)
		for i := 0; i < n; i++ {
			w = append(w, 0)
			d[i] = 1
		}
		d[n-1] = 0
		comb := []int{} // every other child has a child
		comb = append(comb, n)
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				comb = append(comb, 1, 0)
			} else {
				comb = append(comb, 0)
			}
		}
		for _, sh := range [][]int{w, d, comb} {
			for m := 0; m < 3; m++ {
				t := plant(sh, func(i int, leaf bool) attr {
					if !leaf {
						return attr{"cgr"[i%3], "", (m & 1) * 8, ""}
					}
					return attr{'s', "", (m + i) % 2 * 8, strings.Repeat("ab", i%(30+n))}
				})
				c.one("ask", t, q)
				c.one("asktop", t, top)
			}
		}
	}
	c.farTrees("farask", 513, 4097, q)
	cs := Case{Kind: "defaults"}
	c.ws[0].do(&cs, func() string { return c.ws[0].defaults() })
	c.everyChar("chartext", 0x10ffff, (*W).charText)
	gs, ts := c.annotated()
	c.levels("asklevel", gs, ts, (*W).askAt)
}

// defaults changes the options the library hands out, in every way; the next ones are the documented ones again.
func (w *W) defaults() string {
	n, _ := dec(`cc8r|""|0(s0n|"a"|0()h2|""|1(s8|"b"|1()))`)
	want := xbnf.NodeTreeConfig{PrintRuleType: true}
	for m := 0; m < 8; m++ {
		w.states++
		w.trans++
		w.traces++
		cfg := xbnf.DefaultNodeTreeConfig()
		if cfg == nil || *cfg != want {
			return fmt.Sprintf("the default options are %+v, after other copies of them were changed", cfg)
		}
		r := toReal(n)
		cfg.PrintRuleType, cfg.PrintNonleafNodeText, cfg.VerboseNodeText = m&1 != 0, m&2 != 0, m&4 != 0
		if got, x := r.StringTree(cfg), strings.Join(drawNode(n, *cfg, lineOne), "\n"); got != x {
			return fmt.Sprintf("node prints as\n%s\nexpected\n%s\n(%+v)", got, x, *cfg)
		}
		if got, x := r.StringTree(nil), strings.Join(drawNode(n, want, lineOne), "\n"); got != x {
			return fmt.Sprintf("node prints with the default options as\n%s\nexpected\n%s", got, x)
		}
		if got := *xbnf.DefaultNodeTreeConfig(); got != want {
			return fmt.Sprintf("the default options are %+v, after other copies of them were changed", got)
		}
	}
	return ""
}

func replayTree(w *W, c Case) string {
	switch c.Kind {
	case "defaults":
		return w.defaults()
	case "chartext":
		return w.charText(caseRune(c))
	case "grammar":
		return replayEval(w, c)
	case "level", "asklevel":
		p, msg := pairFromSrc(c.Src)
		if p == nil {
			return msg
		}
		if c.Kind == "level" {
			return w.level(p, mkText(c.Text), c.Flag-1)
		}
		return w.askAt(p, mkText(c.Text), c.Flag-1)
	}
	switch c.Kind {
	case "farstep":
		return w.steps([]*spec.Node{farTree(c.Extra, c.Flag)}, treePipes)
	case "farask":
		n := farTree(c.Extra, c.Flag)
		return w.ask([]*spec.Node{n}, []*xbnf.Node{toReal(n)}, lineOne, configs())
	}
	n, _ := dec(c.Extra)
	switch c.Kind {
	case "step":
		return w.steps([]*spec.Node{n}, treePipes)
	case "top":
		return w.steps(n.Kids, treePipes)
	case "ask":
		return w.ask([]*spec.Node{n}, []*xbnf.Node{toReal(n)}, lineOne, configs())
	}
	return w.ask(n.Kids, toReals(n.Kids), lineOne, configs())
}
