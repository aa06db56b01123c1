package main

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"xmc/spec"

	"github.com/cnsgfk/xbnf"
)

func init() {
	register(&prop{id: "C18", level: "model_checking", assume: []string{
		"an execution that takes more than 60 s, more than 8 GB, panics or kills the process is a violation; every small case ends in microseconds",
		"the proportion of work to text is decided by counting stream operations and allocated bytes at several sizes, not by time",
		"grammars with left recursion are left out of the evaluations, as the property says; they are loaded and printed",
	},
		rule: "every string over the syntax's characters up to a length and every token sequence through every loading entry point; every rule up to a cost, with rules that match empty texts at every place and recursive references, x every text through every evaluation entry point; families of growing texts, definitions and nestings with counted work",
		run:  runTotal, replay: replayTotal})
}

// load puts a definition text through every loading entry point and prints what was accepted.
func (w *W) load(def string) string {
	w.states++
	w.trans += int64(len(def)) + 1
	few := len(def) > 6 && !w.c.Thorough // the entry points share their code below the first line
	for i := 0; i < 3; i++ {
		if few && i > 0 {
			break
		}
		g := xbnf.NewGrammar()
		var err error
		var r xbnf.IRule
		switch i {
		case 0:
			r, err = g.AddRule("r = " + def)
		case 1:
			r, err = g.ParseRule("r", def)
		case 2:
			r, err = g.AddRule(def)
		}
		w.traces++
		if (r == nil) == (err == nil) {
			return fmt.Sprintf("neither a rule nor an error, or both (%v)", err)
		}
		if err != nil {
			w.counts["rejected"]++
			if err.Error() == "" {
				return "an error without a message"
			}
			continue
		}
		w.counts["accepted"]++
		_ = r.String()
		_ = r.StringWithIndent("  ")
		_ = r.Name()
		g.Validate()
		g.Serialize(false)
		g.Serialize(true)
		g.StringRuleRelation("%s")
	}
	for i, src := range []string{def, "r = " + def, "x = 'c'\nr = " + def + "\ny = \"d\"", "// c\nr=" + def + "// c\n\n\r\n"} {
		if few && i != 2 {
			continue
		}
		g, err := xbnf.NewGrammarFromString(src)
		w.traces++
		if (g == nil) == (err == nil) {
			return fmt.Sprintf("neither a grammar nor an error, or both (%v)", err)
		}
		if g != nil {
			g.Serialize(true)
		}
	}
	return ""
}

// total runs every evaluation entry point.
func (w *W) total(p *Pair, rule string, t *Text) string {
	one := func(r *xbnf.EvalResult) string {
		w.traces++
		w.trans += int64(len(r.CharsRead)) + 1
		if r.Node == nil && r.Error == nil {
			return "neither a match nor an error"
		}
		if r.Node != nil {
			_ = r.Node.StringTree(nil)
		}
		_ = r.StringTree(nil)
		r.MergeStickyNodes()
		return ""
	}
	w.states++
	for _, f := range flagsAll {
		if m := one(p.R.GetRule(rule).Eval(p.R, xbnf.NewCharstreamFromString(t.S), f)); m != "" {
			return m
		}
	}
	if m := one(p.R.EvalRule(rule, t.S)); m != "" {
		return "EvalRule: " + m
	}
	if m := one(p.R.EvalEmbed(rule, t.S)); m != "" {
		return "EvalEmbed: " + m
	}
	for l := -2; l <= 3; l++ {
		ast, err := p.R.Eval(xbnf.NewCharstreamFromString(t.S), l)
		w.traces++
		if (ast == nil) == (err == nil) {
			return fmt.Sprintf("Eval at level %d: neither a tree nor an error, or both (%v)", l, err)
		}
		_ = ast.StringTree(nil)
		if err == nil && len(ast.Nodes) == 0 && l < 1 { // all nodes may be virtual
			return "a tree without nodes and no error"
		}
	}
	return ""
}

func (c *Ctx) sweepTotal(kind string, gs []*spec.Grammar, ts []*Text) {
	if len(gs) > 0 {
		c.sample(map[string]string{"family": kind, "first grammar": gs[0].Src(), "last grammar": gs[len(gs)-1].Src(), "size": fmt.Sprintf("%d grammars x %d texts", len(gs), len(ts))})
	}
	c.each(len(gs), func(w *W, i int) {
		if gs[i].LeftRecursive() {
			return
		}
		p := mustPair(w, gs[i])
		if p == nil {
			return
		}
		for _, t := range ts {
			cs := Case{Kind: "total", Src: p.Src, Rule: "r", Text: t.S}
			w.do(&cs, func() string { return w.total(p, "r", t) })
			if c.stop.Load() {
				return
			}
		}
	})
}

// counted is a stream which counts what is asked of it.
type counted struct {
	xbnf.ICharstream
	ops *int64
}

func (c counted) Next() rune { *c.ops++; return c.ICharstream.Next() }
func (c counted) Peek() rune { *c.ops++; return c.ICharstream.Peek() }
func (c counted) SkipSpaces() []rune {
	r := c.ICharstream.SkipSpaces()
	*c.ops += int64(len(r)) + 1
	return r
}
func (c counted) Match(m []rune) ([]rune, bool) {
	r, ok := c.ICharstream.Match(m)
	*c.ops += int64(len(r)) + 1
	return r, ok
}
func (c counted) Position() *xbnf.Position { *c.ops++; return c.ICharstream.Position() }
func (c counted) PositionLookup(i int) *xbnf.Position {
	*c.ops++
	return c.ICharstream.PositionLookup(i)
}

type growth struct {
	name string
	src  string
	text func(n int) string
	def  func(n int) string // a definition that grows instead
}

func rep(s string) func(int) string { return func(n int) string { return strings.Repeat(s, n) } }

var growths = []growth{
	{"chars in a repetition", "r = {'a'}", rep("a"), nil},
	{"strings in a repetition", "r = {\"a\"}", rep("a "), nil},
	{"blanks before a string", "r = 'x' {\"a\"}", func(n int) string { return "x" + strings.Repeat(" ", n) + "a" }, nil},
	{"lines", "r = {\"a\" '\\u000A'}", rep("a\n"), nil},
	{"top nodes", "r = \"a\"", rep("a"), nil},
	{"sticky top nodes", "r = 'a'", rep("a"), nil},
	{"top nodes of two rules", "r = 'ab'\ns = 'a'\nt = \"b\"", rep("aabb"), nil},
	{"lookahead", "r = {('a' 'b') | ('a' 'a' 'a') | 'a'}", rep("aab"), nil},
	{"choice in a repetition", "r = {'a' | 'b' | 'ab' | 'ba'}", rep("aabb"), nil},
	{"ordered choice in a repetition", "r = {'abc' > 'ab' > 'a'}", rep("aababc"), nil},
	{"block", "r = <'o' 'c'>", func(n int) string { return "o" + strings.Repeat("x", n) + "c" }, nil},
	{"block with escapes and excludes", "r = <'o' 'e' ^'n' ^'m' 'c'>", func(n int) string { return "o" + strings.Repeat("xecenem", n) + "c" }, nil},
	{"block without a close", "r = <'o' 'c'>", func(n int) string { return "o" + strings.Repeat("x", n) }, nil},
	{"blocks", "r = {<\"o\" 'c'>}", rep("oxxc"), nil},
	{"repetition of a named rule", "r = {x}\nx = y \",\"\ny = '0'-'9' {'0'-'9'}", rep("12,3 ,"), nil},
	{"option before", "r = {['ab'] 'a' 'c'}", rep("abacac"), nil},
	{"unmatched end", "r = {'a'} 'b'", rep("a"), nil},
	{"spaces only", "r = 'a'", rep(" "), nil},
	{"newlines only", "r = \"a\"", func(n int) string { return strings.Repeat("\n", n) + "a" }, nil},
	{"long literal", "", nil, func(n int) string { return "r = '" + strings.Repeat("a", n) + "'" }},
	{"long string", "", nil, func(n int) string { return "r = \"" + strings.Repeat("\\u0061", n) + "\"" }},
	{"many rules", "", nil, func(n int) string {
		var b strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "r%d = 'a' r%d\n", i, i+1)
		}
		fmt.Fprintf(&b, "r%d = 'b'", n)
		return b.String()
	}},
	{"many comments", "", nil, func(n int) string { return strings.Repeat("// comment\n\n", n) + "r = 'a'" }},
	{"long sequence", "", nil, func(n int) string { return "r = 'a'" + strings.Repeat(" 'b'", n) }},
	{"long choice", "", nil, func(n int) string { return "r = 'a'" + strings.Repeat(" | 'b'", n) }},
	{"long ordered choice", "", nil, func(n int) string { return "r = 'a'" + strings.Repeat(" > 'b'", n) }},
	{"nested brackets", "", nil, func(n int) string { return "r = " + strings.Repeat("(", n) + "'a'" + strings.Repeat(")", n) }},
	{"nested options", "", nil, func(n int) string { return "r = " + strings.Repeat("[", n) + "'a'" + strings.Repeat("]", n) }},
	{"unbalanced", "", nil, func(n int) string { return "r = " + strings.Repeat("({[", n) }},
}

// grow runs a family at two sizes and compares the work.
func (w *W) grow(i int, thorough bool) string {
	f := growths[i]
	n, k := 1500, 16
	if f.def != nil {
		n = 200
	}
	if thorough {
		n *= 4
	}
	measure := func(n int) (ops, bytes int64, msg string) {
		var a, b runtime.MemStats
		runtime.GC()
		if f.def != nil {
			d := f.def(n)
			runtime.ReadMemStats(&a)
			g, err := xbnf.NewGrammarFromString(d)
			runtime.ReadMemStats(&b)
			if (g == nil) == (err == nil) {
				return 0, 0, "neither a grammar nor an error"
			}
			return 0, int64(b.TotalAlloc - a.TotalAlloc), ""
		}
		g, err := xbnf.NewGrammarFromString(f.src)
		if err != nil {
			return 0, 0, err.Error()
		}
		t := f.text(n)
		runtime.ReadMemStats(&a)
		g.Eval(counted{xbnf.NewCharstreamFromString(t), &ops}, xbnf.LevelDataOnly)
		runtime.ReadMemStats(&b)
		bytes = int64(b.TotalAlloc - a.TotalAlloc)
		runtime.ReadMemStats(&a)
		if f.name != "unmatched end" { // a scan that reads to the end from every place is quadratic by nature
			g.EvalEmbed("r", t)
		}
		g.EvalRule("r", t)
		runtime.ReadMemStats(&b)
		return ops, bytes + int64(b.TotalAlloc-a.TotalAlloc), ""
	}
	w.states += 2
	w.traces += 2
	o1, b1, msg := measure(n)
	if msg != "" {
		return msg
	}
	w.beat()
	o2, b2, _ := measure(n * k)
	w.trans += o1 + o2
	if o2 > int64(k)*2*(o1+100) {
		return fmt.Sprintf("%s: %d stream operations at size %d, %d at size %d", f.name, o1, n, o2, n*k)
	}
	if b2 > int64(k)*3*(b1+65536) {
		return fmt.Sprintf("%s: %d bytes allocated at size %d, %d at size %d", f.name, b1, n, b2, n*k)
	}
	if os.Getenv("XMC_GROW") != "" {
		fmt.Println(f.name, o1, o2, b1, b2)
	}
	return ""
}

// reasonWraps nest a rule which fails; %s is the inner one.
var reasonWraps = []string{"(%s)", "%s 'b'", "['a'] %s", "'c' | %s", "'c' > %s", "{%s}+", "{%s}<1,2>", "[%s] 'b'", "<%s 'b'>", "<'' %s 'b'>", "<'' ^%s 'b'>", "<'' %s>", "~#%s", "@"}

// reasonLeaves fail in every way a rule can.
var reasonLeaves = []string{"'x'", "'xy'", "\"x\"", "'x'-'z'", "EOF", "'a' | 'a'", "'a' 'x'", "{'a'}<4,9>", "<'a' ^'a' 'b'>", "<'a' 'x'>", "<'x' 'b'>", "<'a' ^<'q' 'q'> 'b'>"}

// reasons nests a failing rule d levels deep, by two ways in turn, and measures what a failure costs.
func (w *W) reasons(a, b, leaf, d int) (cost [7]int64, msg string) {
	var src string
	body := reasonLeaves[leaf]
	names := 0
	for i := 0; i < d; i++ {
		k := reasonWraps[a]
		if i%2 == 1 {
			k = reasonWraps[b]
		}
		if k == "@" {
			src += fmt.Sprintf("n%d = %s\n", names, body)
			body = fmt.Sprintf("n%d", names)
			names++
			continue
		}
		if strings.ContainsAny(body, " |>") && !strings.HasPrefix(k, "(") && !strings.HasPrefix(k, "[%") && !strings.HasPrefix(k, "{%") {
			body = "(" + body + ")"
		}
		body = fmt.Sprintf(k, body)
	}
	src += "r = " + body
	g, err := xbnf.NewGrammarFromString(src)
	if err != nil {
		return cost, "" // not a definition
	}
	var x, y runtime.MemStats
	runtime.ReadMemStats(&x)
	for _, t := range []string{"aab", "", "a"} {
		w.traces += 3
		w.states++
		var ops int64
		r := g.GetRule("r").Eval(g, counted{xbnf.NewCharstreamFromString(t), &ops}, xbnf.SUGGEST_SKIP)
		cost[0] += ops
		if r.Error != nil {
			cost[1] += int64(len(r.Error.Error()))
		}
		cost[2] += int64(len(r.StringTree(nil)))
		if _, err := g.EvalRaw(xbnf.NewCharstreamFromString(t)); err != nil {
			cost[3] += int64(len(err.Error()))
		}
	}
	cost[4] = int64(len(g.Serialize(true)))
	cost[5] = int64(len(g.GetRule("r").String()))
	runtime.ReadMemStats(&y)
	cost[6] = int64(y.TotalAlloc - x.TotalAlloc)
	w.trans += cost[0]
	return cost, ""
}

var reasonWhat = []string{"stream operations", "characters of the error", "characters of the printed result", "characters of the parse error", "characters of the listing", "characters of the definition", "bytes allocated"}

// reasonGrowth doubles the depth: what a failure costs may grow like its cube, not like a power of the depth.
func (w *W) reasonGrowth(a, b, leaf int) string {
	const d = 10
	one, _ := w.reasons(a, b, leaf, d)
	two, _ := w.reasons(a, b, leaf, 2*d)
	for i, n := range two {
		slack := int64(200)
		if i == 6 {
			slack = 1 << 17
		}
		if n > 12*(one[i]+slack) {
			return fmt.Sprintf("%q around %s: %d %s at depth %d, %d at depth %d", []string{reasonWraps[a], reasonWraps[b]}, reasonLeaves[leaf], one[i], reasonWhat[i], d, n, 2*d)
		}
	}
	if os.Getenv("XMC_GROW") != "" {
		for i, n := range two {
			if f := float64(n) / float64(one[i]+1); f > 6 {
				fmt.Println("reasons", a, b, leaf, reasonWhat[i], one[i], n)
			}
		}
	}
	return ""
}

// deep nests definitions and texts; the deepest ones are run in their own process.
func (w *W) deep(kind string, n int) string {
	w.states++
	w.traces++
	w.trans += int64(n)
	open, shut := kind[:1], kind[1:2]
	if n >= 1000000 {
		debug.SetMaxStack(1000000000) // the default limit
	}
	if strings.HasPrefix(kind, "text") {
		g, err := xbnf.NewGrammarFromString("top = r\nr = ('(' [r] ')') | 'a'")
		if err != nil {
			return err.Error()
		}
		for _, t := range []string{strings.Repeat("(", n), strings.Repeat("(", n) + strings.Repeat(")", n)} {
			if len(t) > n && n > 20000 { // takes time quadratic in the depth, for the characters every level keeps
				continue
			}
			r := g.EvalRule("r", t)
			if (r.Node != nil) != (len(t) > n) {
				return "wrong result"
			}
			w.beat()
		}
		return ""
	}
	d := "r = " + strings.Repeat(open, n)
	if _, err := xbnf.NewGrammarFromString(d); err == nil {
		return "accepted " + clip(d)
	}
	w.beat()
	if shut == open || open == "<" {
		return ""
	}
	g, err := xbnf.NewGrammarFromString(d + "'a'" + strings.Repeat(shut, n))
	if err != nil {
		return err.Error()
	}
	w.beat()
	if open != "{" {
		if r := g.EvalRule("r", "a"); r.Node == nil {
			return "no match"
		}
	}
	w.beat()
	return ""
}

func runTotal(c *Ctx) {
	t0 := time.Now()
	lap := func(s string) {
		if os.Getenv("XMC_GROW") != "" {
			fmt.Println("--", s, time.Since(t0))
		}
		t0 = time.Now()
	}
	// loading
	c.defTexts("load", (*W).load)
	var raw []string
	for _, b := range []string{"\xff", "\x80", "\xc3", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\x00", "\ufeff", "\u2028", "\r", "\v", "\x85", "\u00a0"} {
		for _, f := range []string{"%s", "'%s'", "\"%s\"", "'a'%s'b'", "%s'a'", "'a'%s", "x%s", "'\\%s'", "'\\u00%s1'", "'a'-'%s'", "<'a' %s 'b'>", "{'a'}<%s>", "'a' // %s", "'a'\n%s", "'a'\n%s = 'b'", "'a' \\u%s0041"} {
			raw = append(raw, fmt.Sprintf(f, b))
		}
	}
	c.each(len(raw), func(w *W, i int) {
		cs := Case{Kind: "load", Extra: raw[i]}
		w.do(&cs, func() string { return w.load(raw[i]) })
	})
	lap("load")
	// rules that match nothing, everywhere
	empty := []*rule{spec.S(""), spec.Op(spec.C('a')), spec.Re(spec.C('a'), 0, 0), spec.E(), spec.C('a'), spec.Gr(spec.S(""))}
	g := &Gen{Terms: append(empty, spec.S("b")), Wrap: []func(*rule) *rule{wOption, repAny, repSome, repTwo, wGroup}, Bars: true, Orders: true, Seqs: true}
	ts := mkTexts(append(texts("ab ", 3), "aaaa", "\n", "\x00", "a\u00a0b", "\xff", "a\xc3"))
	c.sweepTotal("empty", single(g.UpTo(c.pick(4, 5))), ts)
	lap("empty")
	var bl []*rule
	parts := []*rule{spec.S(""), spec.C('a'), spec.E(), spec.Op(spec.C('b')), spec.Re(spec.C('a'), 0, 0), spec.Cs("ab")}
	for _, e := range append(parts, nil) {
		for _, x := range append(parts, nil) {
			var xs []*rule
			if x != nil {
				xs = []*rule{x}
			}
			bl = append(bl, blocks(parts, []*rule{e}, [][]*rule{xs}, parts)...)
		}
	}
	var blr []*rule
	for _, b := range bl {
		blr = append(blr, b, spec.Re(b, 0, 0))
		if c.Thorough {
			blr = append(blr, spec.Cat(b, spec.C('b')), spec.Op(b), spec.Alt(b, spec.C('a')))
		}
	}
	c.sweepTotal("empty-blocks", single(blr), mkTexts(texts("ab", 3)))
	lap("blocks")
	c.sweepTotal("recursive", famRefs(3, c.pick(3, 4)), mkTexts(append(texts("ab", 4), strings.Repeat("a", 12), strings.Repeat("ab", 8))))
	gs, _ := c.annotated()
	c.sweepTotal("marks", gs[len(gs)-c.pick(400, 4000):], mkTexts(texts("ab ", 3)))
	lap("rec,marks")
	// literals with white space, longer or shorter than that of the text
	white := append(wsTerms(), spec.Cs("  a"), spec.S("  a"), spec.Cs(" \n a"), spec.S(" \n"), spec.Cs("   "), spec.R(' ', ' '), spec.Bl(spec.S(" "), spec.C(' '), nil, spec.S(" "), true), spec.Bl(spec.Cs("  "), nil, []*rule{spec.Cs("  a")}, spec.Cs(" a"), false))
	var wr []*rule
	for _, r := range white {
		wr = append(wr, r, spec.Re(r, 0, 0), spec.Cat(spec.S("a"), spec.Op(r), spec.E()))
	}
	tuples(white, 2, func(t []*rule) { wr = append(wr, spec.Cat(t...), spec.Alt(t...)) })
	c.sweepTotal("white", single(wr), mkTexts(texts("a \n", 4)))
	mg := mixGen()
	c.sweepTotal("mixed", withX(mg.UpTo(c.pick(3, 4))), mkTexts(texts("ab ", 3)))
	lap("white,mixed")
	// streams and values out of the ordinary
	cs := Case{Kind: "odd"}
	c.ws[0].do(&cs, func() string { return c.ws[0].odd() })
	// work
	for i := range growths {
		cs := Case{Kind: "grow", Start: i, Flag: c.pick(0, 1)}
		w := c.ws[0]
		w.do(&cs, func() string { return w.grow(i, c.Thorough) })
	}
	lap("growth")
	for a := range reasonWraps {
		for b := range reasonWraps {
			for l := range reasonLeaves {
				cs := Case{Kind: "reasons", Start: a, Flag: b, Extra: itoa(l)}
				w := c.ws[0]
				w.do(&cs, func() string { return w.reasonGrowth(a, b, l) })
			}
		}
		c.ws[0].beat()
	}
	c.sample(map[string]interface{}{"family": "reasons", "around": reasonWraps, "failing": reasonLeaves})
	lap("reasons")
	// depth
	kinds := []string{"()", "[]", "{}", "<>", "text"}
	for n := 10; n <= 20000; n = n*2 + 1 {
		for _, k := range kinds {
			w := c.ws[0]
			cs := Case{Kind: "deep", Rule: k, Extra: fmt.Sprint(n)}
			w.do(&cs, func() string { return w.deep(k, n) })
		}
	}
	lap("deep")
	for _, k := range kinds {
		cs := Case{Kind: "deep", Rule: k, Extra: "4000000"}
		if bad, what := runReplay(Violation{"C18", cs, ""}, 100*time.Second); bad {
			c.ws[0].fail(cs, what)
		}
		c.ws[0].cas++
	}
}

// odd calls entry points with values nobody documents.
func (w *W) odd() string {
	g, err := xbnf.NewGrammarFromString("r = 'a' [x]\nx = \"b\"")
	if err != nil {
		return err.Error()
	}
	if g.EvalRule("q", "a").Error == nil || g.EvalEmbed("q", "a").Error == nil || g.GetRule("q") != nil || g.GetRecord("q") != nil {
		return "an undefined rule evaluates"
	}
	if g.EvalRule("", "a").Error == nil || g.EvalEmbed("", "a").Error == nil {
		return "a rule without a name evaluates"
	}
	if _, err := xbnf.NewGrammarFromFile("/nonexistent/x"); err == nil {
		return "a missing file loads"
	}
	if _, err := xbnf.NewGrammarFromFile("/"); err == nil {
		return "a directory loads"
	}
	e := xbnf.NewGrammar()
	if _, err := e.Eval(xbnf.NewCharstreamFromString("a"), 0); err == nil {
		return "a grammar without rules parses"
	}
	if _, err := e.EvalRaw(xbnf.NewCharstreamFromString("")); err == nil {
		return "a grammar without rules parses an empty text"
	}
	e.Serialize(true)
	e.Validate()
	var n *xbnf.Node
	var a *xbnf.AST
	if n.CountNodes() != 0 || n.CountTokens() != 0 || n.CountStickyNodes() != 0 || a.CountNodes() != 0 || a.StringTree(nil) == "" || len(a.Text()) != 0 {
		return "a missing node counts"
	}
	a.MergeStickyNodes()
	(&xbnf.EvalResult{}).MergeStickyNodes()
	(&xbnf.EvalResult{}).StringTree(nil)
	empty := &xbnf.AST{}
	empty.MergeStickyNodes()
	empty.RemoveVirtualNodes()
	empty.RemoveNonDataNodes()
	empty.RemoveRedundantNodes()
	lone := &xbnf.Node{}
	lone.MergeStickyNodes()
	lone.RemoveVirtualNodes()
	lone.RemoveNonDataNodes()
	lone.RemoveRedundantNodes()
	lone.StringTree(nil)
	return ""
}

func replayTotal(w *W, c Case) string {
	switch c.Kind {
	case "load":
		return w.load(c.Extra)
	case "grow":
		return w.grow(c.Start, c.Flag == 1)
	case "reasons":
		n := 0
		fmt.Sscan(c.Extra, &n)
		return w.reasonGrowth(c.Start, c.Flag, n)
	case "odd":
		return w.odd()
	case "deep":
		n := 0
		fmt.Sscan(c.Extra, &n)
		return w.deep(c.Rule, n)
	case "grammar":
		return replayEval(w, c)
	}
	p, msg := pairFromSrc(c.Src)
	if p == nil {
		return msg
	}
	return w.total(p, c.Rule, mkText(c.Text))
}
