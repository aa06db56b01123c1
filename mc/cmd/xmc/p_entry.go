package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"xmc/spec"

	"github.com/cnsgfk/xbnf"
)

func init() {
	register(&prop{id: "C30", level: "model_checking", assume: []string{
		"grammars and texts of the listed families up to the stated bounds; levels -3..4",
		"a definition is handed to AddRule, ParseRule, a string and a file; other loaders do not exist"},
		rule: "every grammar of the families loaded in four ways x every text evaluated through every entry point (EvalRule, the rule itself, EvalRaw, Eval at every level and the steps by hand, tree steps on trees, nodes, node lists and results); all answers must be the same one, and the reference model's",
		run:  runEntry, replay: replayEntry})
}

// ways to load a grammar
func loadWays(src, file string) []func() (*xbnf.Grammar, error) {
	lines := func(f func(g *xbnf.Grammar, l string) error) func() (*xbnf.Grammar, error) {
		return func() (*xbnf.Grammar, error) {
			g := xbnf.NewGrammar()
			for _, l := range strings.Split(strings.TrimSpace(src), "\n") {
				if l = strings.TrimSpace(l); l == "" || strings.HasPrefix(l, "//") {
					continue
				}
				if err := f(g, l); err != nil {
					return nil, err
				}
			}
			return g, g.Validate()
		}
	}
	return []func() (*xbnf.Grammar, error){
		func() (*xbnf.Grammar, error) { return xbnf.NewGrammarFromString(src) },
		lines(func(g *xbnf.Grammar, l string) error { _, err := g.AddRule(l); return err }),
		lines(func(g *xbnf.Grammar, l string) error {
			kv := strings.SplitN(l, "=", 2)
			if len(kv) < 2 {
				return fmt.Errorf("not a definition")
			}
			r, err := g.ParseRule(strings.TrimSpace(kv[0]), kv[1])
			if err == nil && (r == nil || r != g.GetRule(strings.TrimSpace(kv[0]))) {
				return fmt.Errorf("ParseRule returns another rule than it adds")
			}
			return err
		}),
		func() (*xbnf.Grammar, error) {
			if file == "" {
				return xbnf.NewGrammarFromString("\r\n" + strings.ReplaceAll(src, "\n", "\r\n"))
			}
			if err := os.WriteFile(file, []byte(src), 0o600); err != nil {
				return nil, err
			}
			defer os.Remove(file)
			return xbnf.NewGrammarFromFile(file)
		},
	}
}

// entries evaluates t by every rule, and as a whole, through every entry point.
func (w *W) entries(m *spec.Grammar, gs []*xbnf.Grammar, t *Text, cfgs []*xbnf.NodeTreeConfig) string {
	w.states++
	errOf := func(e error) string {
		if e == nil {
			return ""
		}
		return e.Error()
	}
	full := func(r *xbnf.EvalResult) string {
		return showResult(r) + fmt.Sprintf("|%d", r.ErrIdx)
	}
	for _, n := range m.Names {
		ev := spec.Ev{G: m, T: t.R}
		want := ev.Eval(m.Rules[n], 0, spec.Skip)
		w.trans += int64(ev.Steps)
		first := ""
		for k, g := range gs {
			rec := g.GetRecord(n)
			if rec == nil || rec.Rule() == nil || rec.Rule() != g.GetRule(n) {
				return fmt.Sprintf("rule %s (loading %d) is not the same by GetRule and GetRecord", n, k)
			}
			r := g.EvalRule(n, t.S)
			w.traces++
			if k == 0 {
				first = full(r)
				if s := w.compare(r, &want, t, 0, aTree|aPos|aSticky|aMarks); s != "" {
					return fmt.Sprintf("EvalRule of %s: %s", n, s)
				}
			} else if s := full(r); s != first {
				return fmt.Sprintf("rule %s, loading %d: %s", n, k, firstDiff(s, first))
			}
			if k > 1 {
				continue
			}
			cs := xbnf.NewCharstreamFromString(t.S)
			d := g.GetRule(n).Eval(g, cs, xbnf.SUGGEST_SKIP)
			w.traces++
			if s := full(d); s != first {
				return fmt.Sprintf("rule %s evaluated by itself: %s", n, firstDiff(s, first))
			}
			for _, cfg := range cfgs {
				if s := shownResult(r, cfg); s != "" {
					return fmt.Sprintf("result of %s: %s", n, s)
				}
			}
			// the tokenization step on a result is that on its node, and that on a list of nodes
			before := full(r)
			r.MergeStickyNodes()
			if r.Node == nil {
				if full(r) != before {
					return "merging in a result without a match changes it"
				}
				continue
			}
			d.Node.MergeStickyNodes()
			if a, b := realTree(r.Node), realTree(d.Node); a != b {
				return fmt.Sprintf("result of %s merged: %s", n, firstDiff(a, b))
			}
			e := g.EvalRule(n, t.S)
			if want.N != nil && t.R != nil {
				mm := want.N.Merged()
				if s := diffNode(r.Node, mm, t.LC, diffAll); s != "" {
					return fmt.Sprintf("result of %s merged: %s", n, s)
				}
			}
			if len(e.Node.ChildNodes) > 0 && e.Node.RuleType != xbnf.TypeBlock {
				e.Node.ChildNodes = xbnf.MergeStickyNodes(e.Node.ChildNodes)
				if a, b := realTree(e.Node), realTree(d.Node); a != b {
					return fmt.Sprintf("nodes of %s merged: %s", n, firstDiff(a, b))
				}
			}
			if s := e.Sticky; s != want.Sticky {
				return fmt.Sprintf("result of %s is sticky=%v", n, s)
			}
		}
	}
	// whole texts
	ev := spec.Ev{G: m, T: t.R}
	p := ev.Parse()
	w.trans += int64(ev.Steps)
	for level := -3; level <= 4; level++ {
		first := ""
		for k, g := range gs {
			if k > 0 && (level+3+len(t.R))&3 != k-1 {
				continue // every loading at two of the levels
			}
			a, err := g.Eval(xbnf.NewCharstreamFromString(t.S), level)
			w.traces++
			s := showAST(a, err)
			if k > 0 {
				if s != first {
					return fmt.Sprintf("level %d, loading %d: %s", level, k, firstDiff(s, first))
				}
				continue
			}
			first = s
			if (err == nil) != p.Ok {
				return fmt.Sprintf("level %d: error %v, expected success=%v (%s)", level, err, p.Ok, p.Why)
			}
			b, berr := g.EvalRaw(xbnf.NewCharstreamFromString(t.S))
			w.traces++
			if errOf(err) != errOf(berr) {
				return fmt.Sprintf("level %d: error %v, EvalRaw has %v", level, err, berr)
			}
			if err != nil {
				if a != nil || b != nil {
					return "a failed evaluation returns a tree"
				}
				continue
			}
			if level != xbnf.LevelRaw {
				b.MergeStickyNodes()
				if level == xbnf.LevelNoVertual || level == xbnf.LevelDataOnly {
					b.RemoveVirtualNodes()
				}
				if level == xbnf.LevelDataOnly {
					b.RemoveNonDataNodes()
				}
				b.RemoveRedundantNodes()
			}
			if x := showAST(b, nil); x != s {
				return fmt.Sprintf("level %d: %s (by its steps)", level, firstDiff(s, x))
			}
			l := level
			if l < -1 || l > 2 {
				l = 0
			}
			want := spec.Simplify(p.Nodes, l)
			if len(want) != len(a.Nodes) {
				return fmt.Sprintf("level %d: %d top nodes, expected %d", level, len(a.Nodes), len(want))
			}
			for i := range want {
				if d := diffNode(a.Nodes[i], want[i], t.LC, diffAll); d != "" {
					return fmt.Sprintf("level %d, top node %d: %s", level, i+1, d)
				}
			}
		}
	}
	return ""
}

// shownResult compares the printed form of a result with its parts.
func shownResult(r *xbnf.EvalResult, cfg *xbnf.NodeTreeConfig) string {
	got := r.StringTree(cfg)
	want := []string{fmt.Sprintf("[%d]", len(r.CharsRead)), string(r.CharsRead), fmt.Sprintf("[%d]", len(r.CharsUnused)), string(r.CharsUnused)}
	if r.Node == nil {
		want = append(want, "nil")
		if r.Error != nil {
			want = append(want, r.Error.Error())
		}
	} else {
		want = append(want, strings.ReplaceAll(r.Node.StringTree(cfg), "\n", "\n    "))
	}
	rest := got
	for _, s := range want {
		i := strings.Index(rest, s)
		if i < 0 {
			return fmt.Sprintf("printed as %q, in which %q is missing", got, s)
		}
		rest = rest[i+len(s):]
	}
	if rest != "" {
		return fmt.Sprintf("printed as %q, with %q at the end", got, rest)
	}
	return ""
}

func (c *Ctx) sweepEntry(kind string, gs []*spec.Grammar, ts []*Text, dir string) {
	c.sample(map[string]string{"family": kind, "last grammar": gs[len(gs)-1].Src(), "size": fmt.Sprintf("%d grammars x %d texts", len(gs), len(ts))})
	c.each(len(gs), func(w *W, i int) {
		if gs[i].LeftRecursive() {
			return
		}
		src := gs[i].Src()
		m, err := spec.ParseGrammar(src)
		if err != nil || m.LeftRecursive() {
			return
		}
		var rs []*xbnf.Grammar
		cs := Case{Kind: "load", Src: src}
		w.do(&cs, func() string {
			var s string
			f := ""
			if i%5 == 0 {
				f = filepath.Join(dir, fmt.Sprintf("e%d.xbnf", w.id))
			}
			rs, s = loadAll(src, f)
			if s == "" {
				s = sameGrammar(m, rs)
			}
			return s
		})
		if rs == nil {
			return
		}
		for k, t := range ts {
			cs := Case{Kind: "entry", Src: src, Text: t.S}
			w.do(&cs, func() string { return w.entries(m, rs, t, entryCfgs(k)) })
			if c.stop.Load() {
				return
			}
		}
	})
}

func entryCfgs(k int) []*xbnf.NodeTreeConfig {
	c := configs()
	return []*xbnf.NodeTreeConfig{nil, c[1+k%8]}
}

func loadAll(src, file string) ([]*xbnf.Grammar, string) {
	var rs []*xbnf.Grammar
	for k, f := range loadWays(src, file) {
		g, err := f()
		if err != nil {
			return nil, fmt.Sprintf("well-formed grammar rejected (loading %d): %v", k, err)
		}
		rs = append(rs, g)
	}
	return rs, ""
}

// sameGrammar compares the rules of the loaded grammars, and what is told of unknown names.
func sameGrammar(m *spec.Grammar, gs []*xbnf.Grammar) string {
	for k, g := range gs {
		if k == 1 { // validating again changes nothing
			for i := 0; i < 2; i++ {
				if err := g.Validate(); err != nil {
					return fmt.Sprintf("validated again: %v", err)
				}
			}
		}
		if a, b := g.StringRuleRelation("%s"), gs[0].StringRuleRelation("%s"); a != b {
			return fmt.Sprintf("rule relation of loading %d: %s", k, firstDiff(a, b))
		}
		for _, n := range m.Names {
			a, b := g.GetRule(n), gs[0].GetRule(n)
			if a == nil || b == nil {
				return fmt.Sprintf("rule %s is missing in loading %d", n, k)
			}
			if a.String() != b.String() || a.StringWithIndent(" ") != b.StringWithIndent(" ") || a.IsVirtual() != b.IsVirtual() || a.IsNonData() != b.IsNonData() || a.Name() != b.Name() {
				return fmt.Sprintf("rule %s of loading %d is %s, of the first loading %s", n, k, a, b)
			}
		}
		if s := strangers(g, m); s != "" {
			return s
		}
		if m.Rules["nil"] == nil && (g.GetRule("nil") != nil || g.GetRecord("nil") != nil) {
			return "there is a rule nil"
		}
	}
	return ""
}

func runEntry(c *Ctx) {
	dir, err := os.MkdirTemp("", "xmcentry")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	w := mkTexts(texts("\u00e9\u4e16 \n", 3))
	var gs []*spec.Grammar
	for _, r := range coreGen(spec.C('\u00e9'), spec.S("\u4e16"), spec.Cs("\u00e9\u4e16")).UpTo(3) {
		gs = append(gs, spec.G(r))
	}
	c.sweepEntry("wide", gs, w, dir)
	g := coreGen(ab()...)
	c.sweepEntry("core", single(g.UpTo(c.pick(4, 5))), mkTexts(texts("ab ", 4)), dir)
	c.sweepEntry("mixed", withX(mixGen().UpTo(c.pick(3, 4))), mkTexts(texts("ab\n ", 4)), dir)
	c.sweepEntry("blocks", single(famBlocks(false)), mkTexts(texts("oexc ", 4)), dir)
	c.sweepEntry("white", single(whiteTriples()), mkTexts(texts("a \n", 3)), dir)
	an, ts := c.annotated()
	c.sweepEntry("annotated", an, every2(ts, c.pick(3, 1)), dir)
	pool := rootPool()
	gs = nil
	tuples(pool, 2, func(t []*rule) { gs = append(gs, roots(t...)) })
	c.sweepEntry("roots", gs, mkTexts(texts("ab \n", 4)), dir)
	gs = nil
	tuples(pool[:c.pick(8, len(pool))], 3, func(t []*rule) { gs = append(gs, roots(t...)) })
	c.sweepEntry("three-roots", gs, mkTexts(texts("ab ", 4)), dir)
	srcs := sources()
	c.sample(map[string]string{"family": "sources", "size": fmt.Sprint(len(srcs)), "first": clip(srcs[0])})
	c.each(len(srcs), func(w *W, i int) {
		cs := Case{Kind: "source", Src: srcs[i]}
		w.do(&cs, func() string { return w.source(srcs[i], filepath.Join(dir, fmt.Sprintf("s%d.xbnf", w.id))) })
	})
	gs = nil
	for _, r := range famRefs(3, 3) {
		gs = append(gs, r)
	}
	c.sweepEntry("references", gs, mkTexts(texts("ab", 4)), dir)
}

// sources are texts of grammars as no generator spells them: with every character as it is, bytes which are no
// characters, long lines.
func sources() []string {
	var out []string
	var b strings.Builder
	n := 0
	for _, r := range uniRunes() {
		if r == '\n' {
			continue
		}
		x := string(r)
		if r == '\'' || r == '"' || r == '\\' {
			x = "\\" + x
		}
		fmt.Fprintf(&b, "n%d = 'a%sb' | \"%s%s\" // %s\n", n, x, x, x, string(r))
		if n++; n == 32 {
			out = append(out, b.String())
			b.Reset()
			n = 0
		}
	}
	out = append(out, b.String())
	for _, x := range []string{"\xff", "\x80", "\xc3", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\x00", "\ufeff", "\u2028", "\r", "\v", "\f", "\x85", "\u00a0", "\x1a", "\r\r", "\ufffd", "\u0085"} {
		out = append(out, "r = 'a"+x+"b' x\nx = \"c"+x+"\"", "// "+x+"\nr = 'a'", "r = 'a'"+x, x+"r = 'a'", "r = 'a' //"+x+"\ns = r", "r = 'a'\n"+x+"\ns = r 'b'\n"+x)
	}
	// what is no part of a definition, at both ends of it
	for x := rune(' '); x < 0x7f; x++ {
		for _, j := range []string{string(x), string(x) + string(x)} {
			out = append(out, "r = 'a'"+j, "r = "+j+"'a'", j+"r = 'a'", "r"+j+" = 'a'", "r = 'a' "+j+"\ns = r", "r ="+j)
		}
	}
	// literals which hold what means something outside of them
	for _, x := range []string{"//", "/", "/*", "*/", "#", "--", ";", "=", "==", ":=", "|", ">", "<", "->", "{", "}", "<1>", "(", ")", "[", "]", "!", "~", "&", "+", "-", "*", ",", ".", "$", "@", "%", "?", "r = ", "s = 'b'", "EOF", "~EOF", "<<EOF", "include", "{r}", "|'b'", "\\'", "\\\"", "\\\\", "'", "\""} {
		for _, s := range []string{x, "a" + x, x + "b", "a" + x + "b", "a " + x, x + " b", "a " + x + " b", "a " + x + " b " + x + " c", "a\t" + x + "\tb"} {
			if x != "'" {
				out = append(out, "r = '"+s+"'", "r = x '"+s+"' x // "+s+"\nx = 'x'")
			}
			if x != "\"" {
				out = append(out, "r = \""+s+"\"", "r = { \""+s+"\" } | x\nx = 'x'", "r=\""+s+"\"\nx=r>'"+strings.ReplaceAll(s, "'", "\"")+"'")
			}
		}
	}
	for _, l := range append(oddLines(), longLines()...) {
		if s := strings.Join(l, "\n"); len(s) > 200 || len(out)%4 == 0 {
			out = append(out, s)
		} else {
			out = append(out, s+"\n")
		}
	}
	return out
}

// source loads one text in every way: all of them accept it and come to the same rules, or none of them.
func (w *W) source(src, file string) string {
	w.states++
	m, merr := spec.ParseGrammar(src)
	var gs []*xbnf.Grammar
	ways := loadWays(src, file)
	if strings.Contains(src, "\r") || file == "" { // the lines end differently then, and a text is trimmed
		ways = append(ways[:3:3], ways[0])
		if file != "" {
			ways[3] = loadWays(src, file)[3]
		}
	}
	for k, f := range ways {
		w.traces++
		w.trans += int64(len(src)) + 1
		g, err := f()
		if (err == nil) != (merr == nil) {
			return fmt.Sprintf("loading %d of %q: error %v, expected error %v", k, clip(src), err, merr)
		}
		if err == nil {
			gs = append(gs, g)
		}
	}
	if merr != nil || len(m.Names) == 0 {
		return ""
	}
	if s := sameGrammar(m, gs); s != "" {
		return s
	}
	if m.LeftRecursive() {
		return ""
	}
	for _, n := range m.Names {
		for _, t := range ruleTexts(m.Rules[n]) {
			tx := mkText(t)
			ev := spec.Ev{G: m, T: tx.R}
			want := ev.Eval(m.Rules[n], 0, spec.Skip)
			for k, g := range gs {
				w.trans++
				if s := w.compare(g.EvalRule(n, t), &want, tx, 0, aTree|aPos|aSticky|aMarks); s != "" {
					return fmt.Sprintf("rule %s of loading %d on %q: %s", n, k, clip(t), s)
				}
			}
		}
	}
	return ""
}

// litTexts are the texts of the literals in r.
func litTexts(r *spec.Rule) []string {
	var out []string
	switch r.K {
	case spec.Char, spec.Chars, spec.Str:
		out = append(out, string(r.S))
	case spec.Range:
		out = append(out, string(r.Lo), string(r.Hi))
	}
	for _, k := range r.Kids {
		out = append(out, litTexts(k)...)
	}
	for _, g := range r.Groups {
		for _, k := range g {
			out = append(out, litTexts(k)...)
		}
	}
	return out
}

// ruleTexts are the texts of the literals in r, whole and without their last character.
func ruleTexts(r *spec.Rule) []string {
	var out []string
	for _, s := range litTexts(r) {
		out = append(out, s, s+"a")
		if len(s) > 1 {
			out = append(out, s[:len(s)-1])
		}
	}
	return out
}

func every2(ts []*Text, n int) []*Text {
	var out []*Text
	for i := 0; i < len(ts); i += n {
		out = append(out, ts[i])
	}
	return out
}

func replayEntry(w *W, c Case) string {
	if c.Kind == "source" {
		dir, err := os.MkdirTemp("", "xmcentry")
		if err != nil {
			return err.Error()
		}
		defer os.RemoveAll(dir)
		return w.source(c.Src, filepath.Join(dir, "s.xbnf"))
	}
	m, err := spec.ParseGrammar(c.Src)
	if err != nil {
		return err.Error()
	}
	dir, err := os.MkdirTemp("", "xmcentry")
	if err != nil {
		return err.Error()
	}
	defer os.RemoveAll(dir)
	for _, f := range []string{"", filepath.Join(dir, "e.xbnf")} {
		rs, s := loadAll(c.Src, f)
		if s != "" {
			return s
		}
		if c.Kind == "load" {
			if s := sameGrammar(m, rs); s != "" {
				return s
			}
			continue
		}
		for k := 0; k < 8; k++ {
			if s := w.entries(m, rs, mkText(c.Text), entryCfgs(k)); s != "" {
				return s
			}
		}
	}
	return ""
}
