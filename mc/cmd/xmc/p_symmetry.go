package main

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"

	"xmc/spec"

	"github.com/cnsgfk/xbnf"
)

func init() {
	register(&prop{id: "C29", level: "model_checking", assume: []string{
		"rules up to the stated cost, texts up to the stated length; the replaced letters become neighbouring characters (ranges stay ranges), none of them white space or half of a surrogate pair",
		"no model is involved, the implementation is compared with itself"},
		rule: "every rule of the families x every text x every place of Unicode the letters can be moved to, every way of the pool to name the rules, every order of the definitions: the same tree, with the letters or names replaced",
		run:  runSymmetry, replay: replaySymmetry})
}

// sym replaces letters and names in a grammar source and in texts.
type sym struct {
	letters string // letters[i] becomes base+i
	base    rune
	moved   bool // they do
	raw     bool // spelled as they are, not \uXXXX
	names   map[string]string
	order   []int // the lines of the grammar in this order
}

func (s *sym) String() string {
	var n []string
	for _, k := range []string{"r", "x", "y", "z"} {
		if v, ok := s.names[k]; ok {
			n = append(n, k+"="+v)
		}
	}
	var o []string
	for _, i := range s.order {
		o = append(o, itoa(i))
	}
	return fmt.Sprintf("%s;%d;%v;%s;%s", s.letters, s.at(), s.raw, strings.Join(n, ","), strings.Join(o, ","))
}

func (s *sym) at() rune {
	if s.moved {
		return s.base
	}
	return -1
}

func readSym(x string) *sym {
	f := strings.Split(x, ";")
	if len(f) != 5 {
		return nil
	}
	s := &sym{letters: f[0], raw: f[2] == "true"}
	b, _ := strconv.Atoi(f[1])
	s.base, s.moved = rune(b), b >= 0
	if f[3] != "" {
		s.names = map[string]string{}
		for _, p := range strings.Split(f[3], ",") {
			if i := strings.IndexByte(p, '='); i > 0 {
				s.names[p[:i]] = p[i+1:]
			}
		}
	}
	if f[4] != "" {
		for _, p := range strings.Split(f[4], ",") {
			i, _ := strconv.Atoi(p)
			s.order = append(s.order, i)
		}
	}
	return s
}

func (s *sym) char(c rune) rune {
	if s.moved {
		if i := strings.IndexRune(s.letters, c); i >= 0 {
			return s.base + rune(i)
		}
	}
	return c
}

func (s *sym) text(t []rune) string {
	var b strings.Builder
	for _, c := range t {
		b.WriteRune(s.char(c))
	}
	return b.String()
}

func (s *sym) name(n string) string {
	if v, ok := s.names[n]; ok {
		return v
	}
	return n
}

func nameChar(c rune) bool {
	return 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || '0' <= c && c <= '9' || c == '_'
}

// source replaces the letters between quotes and the names outside of them. Literals hold no escapes.
func (s *sym) source(src string) string {
	lines := strings.Split(strings.TrimSuffix(src, "\n"), "\n")
	var b strings.Builder
	for i := range lines {
		l := lines[i]
		if s.order != nil {
			l = lines[s.order[i]]
		}
		quote := rune(0)
		word := ""
		for _, c := range l + "\n" {
			if quote == 0 && nameChar(c) {
				word += string(c)
				continue
			}
			b.WriteString(s.name(word))
			word = ""
			switch {
			case quote == 0 && (c == '\'' || c == '"'):
				quote = c
				b.WriteRune(c)
			case quote == c:
				quote = 0
				b.WriteRune(c)
			case quote != 0 && s.char(c) != c:
				c = s.char(c)
				if c <= 0xffff && (!s.raw || c == '\\' || c == quote || c < ' ') {
					fmt.Fprintf(&b, "\\u%04X", c)
				} else {
					b.WriteRune(c)
				}
			default:
				b.WriteRune(c)
			}
		}
	}
	return b.String()
}

// fits tells whether the letters can become base, base+1...
func fits(base rune, n int) bool {
	for c := base; c < base+rune(n); c++ {
		if !utf8.ValidRune(c) || spec.White(c) {
			return false
		}
	}
	return true
}

func (s *sym) sameChars(a, b []rune) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] && s.char(a[i]) != b[i] || a[i] == b[i] && s.char(a[i]) != a[i] {
			return false
		}
	}
	return true
}

// sameTree compares a tree with the one of the replaced grammar and text.
func (s *sym) sameTree(a, b *xbnf.Node) string {
	if a == nil || b == nil {
		if a != b {
			return fmt.Sprintf("node is nil: %v, before %v", b == nil, a == nil)
		}
		return ""
	}
	switch {
	case a.RuleType != b.RuleType || s.name(a.RuleName) != b.RuleName:
		return fmt.Sprintf("node is %s/%s, before %s/%s", b.RuleName, b.RuleType, a.RuleName, a.RuleType)
	case a.Tokenized != b.Tokenized || a.Virtual != b.Virtual || a.NonData != b.NonData || a.Sticky != b.Sticky:
		return fmt.Sprintf("marks of node %s/%s differ", b.RuleName, b.RuleType)
	case !s.sameChars(a.Chars, b.Chars):
		return fmt.Sprintf("node %s/%s has the text %q, before %q", b.RuleName, b.RuleType, string(b.Chars), string(a.Chars))
	case (a.Position == nil) != (b.Position == nil) || a.Position != nil && *a.Position != *b.Position:
		return fmt.Sprintf("node %s/%s is at %v, before %v", b.RuleName, b.RuleType, b.Position, a.Position)
	case len(a.ChildNodes) != len(b.ChildNodes):
		return fmt.Sprintf("node %s/%s has %d children, before %d", b.RuleName, b.RuleType, len(b.ChildNodes), len(a.ChildNodes))
	}
	for i := range a.ChildNodes {
		if d := s.sameTree(a.ChildNodes[i], b.ChildNodes[i]); d != "" {
			return d
		}
	}
	return ""
}

func (s *sym) sameResult(a, b *xbnf.EvalResult) string {
	switch {
	case (a.Node == nil) != (b.Node == nil):
		return fmt.Sprintf("matches: %v, before %v", b.Node != nil, a.Node != nil)
	case !s.sameChars(a.CharsRead, b.CharsRead):
		return fmt.Sprintf("has read %q, before %q", string(b.CharsRead), string(a.CharsRead))
	case !s.sameChars(a.CharsUnused, b.CharsUnused):
		return fmt.Sprintf("leaves %q, before %q", string(b.CharsUnused), string(a.CharsUnused))
	case a.Sticky != b.Sticky:
		return fmt.Sprintf("sticky is %v, before %v", b.Sticky, a.Sticky)
	case (a.Error == nil) != (b.Error == nil):
		return fmt.Sprintf("error is %v, before %v", b.Error, a.Error)
	case a.ErrIdx != b.ErrIdx:
		return fmt.Sprintf("ErrIdx is %d, before %d", b.ErrIdx, a.ErrIdx)
	}
	return s.sameTree(a.Node, b.Node)
}

// symBefore is what the grammar as it is comes to on a text.
type symBefore struct {
	rules []*xbnf.EvalResult // by rule of the grammar
	ast   *xbnf.AST
	err   error
	embed *xbnf.EvalResult
}

func before(g *xbnf.Grammar, names []string, t *Text, flag int, whole bool) symBefore {
	var out symBefore
	for _, n := range names {
		out.rules = append(out.rules, g.GetRule(n).Eval(g, xbnf.NewCharstreamFromString(t.S), flag))
	}
	if whole {
		out.ast, out.err = g.Eval(xbnf.NewCharstreamFromString(t.S), xbnf.LevelRaw)
		out.embed = g.EvalEmbed(names[0], t.S)
	}
	return out
}

func (w *W) symmetric(was symBefore, b *xbnf.Grammar, names []string, s *sym, t *Text, flag int, whole bool) string {
	text := s.text(t.R)
	for i, n := range names {
		got := b.GetRule(s.name(n)).Eval(b, xbnf.NewCharstreamFromString(text), flag)
		w.states++
		w.traces++
		w.trans += int64(len(got.CharsRead)) + 1
		if d := s.sameResult(was.rules[i], got); d != "" {
			return "rule " + n + ": " + d
		}
	}
	if !whole {
		return ""
	}
	w.states += 2
	w.traces += 2
	w.trans += 2 * int64(len(t.R)+1)
	ast, err := b.Eval(xbnf.NewCharstreamFromString(text), xbnf.LevelRaw)
	if (err == nil) != (was.err == nil) {
		return fmt.Sprintf("parse: error is %v, before %v", err, was.err)
	}
	if err == nil {
		if len(ast.Nodes) != len(was.ast.Nodes) {
			return fmt.Sprintf("parse: %d nodes, before %d", len(ast.Nodes), len(was.ast.Nodes))
		}
		for i := range ast.Nodes {
			if d := s.sameTree(was.ast.Nodes[i], ast.Nodes[i]); d != "" {
				return "parse: " + d
			}
		}
	}
	if d := s.sameResult(was.embed, b.EvalEmbed(s.name(names[0]), text)); d != "" {
		return "embedded: " + d
	}
	return ""
}

// strangers evaluates names which differ little from those the rules have now.
func (s *sym) strangers(g *xbnf.Grammar, names []string) string {
	if s.names == nil {
		return ""
	}
	m := spec.NewGrammar()
	for _, n := range names {
		m.Def(s.name(n), spec.C('a'))
	}
	return strangers(g, m)
}

func (c *Ctx) sweepSymmetry(kind string, gs []*spec.Grammar, ts []*Text, flags []int, whole bool, syms func(g *spec.Grammar) []*sym) {
	n := len(syms(gs[0]))
	c.sample(map[string]string{"family": kind, "last grammar": gs[len(gs)-1].Src(), "size": fmt.Sprintf("%d grammars x %d texts x %d flags x %d replacements", len(gs), len(ts), len(flags), n)})
	const part = 2048 // replacements done by one job
	parts := (n + part - 1) / part
	c.each(len(gs)*parts, func(w *W, i int) {
		g := gs[i/parts]
		src := g.Src()
		all := syms(g)
		lo, hi := i%parts*part, (i%parts+1)*part
		if lo > len(all) {
			lo = len(all)
		}
		if hi > len(all) || i%parts == parts-1 {
			hi = len(all)
		}
		var a *xbnf.Grammar
		cs := Case{Kind: "symmetry", Src: src}
		w.do(&cs, func() string {
			var err error
			if a, err = xbnf.NewGrammarFromString(src); err != nil {
				return "well-formed grammar rejected: " + err.Error()
			}
			return ""
		})
		if a == nil {
			return
		}
		var was []symBefore
		for _, t := range ts {
			for _, f := range flags {
				cs := Case{Kind: "symmetry", Src: src, Text: t.S, Flag: f}
				w.do(&cs, func() string { was = append(was, before(a, g.Names, t, f, whole)); return "" })
			}
		}
		if len(was) != len(ts)*len(flags) {
			return
		}
		for _, s := range all[lo:hi] {
			var b *xbnf.Grammar
			cs := Case{Kind: "symmetry", Src: src, Extra: s.String()}
			w.do(&cs, func() string {
				var err error
				if b, err = xbnf.NewGrammarFromString(s.source(src)); err != nil {
					return fmt.Sprintf("rejected with the replacement made: %v", err)
				}
				return s.strangers(b, g.Names)
			})
			if b == nil {
				continue
			}
			cs.Kind = "symmetry"
			for k, t := range ts {
				for m, f := range flags {
					cs := Case{Kind: "symmetry", Src: src, Text: t.S, Flag: f, Extra: cs.Extra}
					w.do(&cs, func() string {
						return w.symmetric(was[k*len(flags)+m], b, g.Names, s, t, f, whole)
					})
				}
			}
			if c.stop.Load() {
				return
			}
		}
	})
}

// places is every place below top the letters can be moved to.
func places(letters string, top rune, step rune) []*sym {
	var out []*sym
	for b := rune(0); b <= top; b += step {
		if fits(b, len(letters)) {
			out = append(out, &sym{letters: letters, moved: true, base: b, raw: b%2 == 1})
		}
	}
	return out
}

func placesAt(letters string, at ...rune) []*sym {
	var out []*sym
	for _, b := range at {
		if fits(b, len(letters)) {
			out = append(out, &sym{letters: letters, moved: true, base: b}, &sym{letters: letters, moved: true, base: b, raw: true})
		}
	}
	return out
}

// permutations of 0..n-1
func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{nil}
	}
	var out [][]int
	for _, p := range permutations(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int(nil), p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

func runSymmetry(c *Ctx) {
	// everywhere in Unicode
	var gs []*spec.Grammar
	for _, r := range []*rule{
		spec.Cat(spec.C('a'), spec.Op(spec.R('a', 'b')), spec.S("bc")),
		spec.Cat(spec.Re(spec.Alt(spec.Cs("ab"), spec.C('a')), 1, 3), spec.Bl(spec.C('b'), spec.C('a'), []*rule{spec.Cs("bc")}, spec.S("c"), false)),
		spec.Ord([]*rule{spec.Cs("abc"), spec.R('a', 'c')}, []*rule{spec.S("b"), spec.Gr(spec.Cat(spec.R('b', 'c'), spec.Re(spec.S("c"), 0, 0)))}),
	} {
		gs = append(gs, spec.G(r))
	}
	all := places("abc", rune(c.pick(0xffff, 0x10ffff)), 1)
	if !c.Thorough {
		all = append(all, placesAt("abc", 0x10000, 0x10ffe, 0x1ffff, 0x20000, 0xfffff, 0x100000, 0x10fffb, 0x10fffd)...)
	}
	c.sweepSymmetry("everywhere", gs, mkTexts([]string{"a bc", "abbc", "aabc", "abac c", "ab", "c", "a", "ba", "aba", "bb a", "caa"}), flagSkip, true, func(*spec.Grammar) []*sym { return all })
	// the families, next to the bounds of what is told apart
	at := []rune{0, 1, 0x1d, 0x7d, 0x7f, 0xdd, 0xfe, 0x7fe, 0x2fffe, 0xd7fd, 0xe000, 0xfefe, 0xfffd, 0xffff, 0x10000, 0x10fffd}
	for b := rune('!'); b < 0x7e; b++ {
		at = append(at, b)
	}
	ascii := placesAt("abc", at...)
	c.sweepSymmetry("core", single(coreGen(append(ab(), spec.R('a', 'b'))...).UpTo(c.pick(3, 4))), mkTexts(texts("ab c", 3)), flagSkip, true, func(*spec.Grammar) []*sym { return ascii })
	four := placesAt("oexcd", append(at, []rune(`"%*/:;<=>[\{`)...)...)
	c.sweepSymmetry("blocks", single(every(famBlocks(false), c.pick(2, 1))), mkTexts(texts("oexc", c.pick(3, 4))), flagSkip, false, func(*spec.Grammar) []*sym { return four })
	// names and the order of definitions
	pool := []map[string]string{
		{"r": "R"}, {"r": "rr", "x": "r"}, {"r": "x", "x": "r"}, {"r": "EOFr", "x": "EOF_"}, {"r": "choice", "x": "group"},
		{"r": "a", "x": "b", "y": "c"}, {"r": "a", "x": "aa", "y": "aaa"}, {"r": "aaa", "x": "aa", "y": "a"}, {"r": "B_0", "x": "z9", "y": "Z9"}, {"r": "u0041", "x": "n", "y": "t"},
		{"r": strings.Repeat("n", 300), "x": strings.Repeat("n", 299), "y": "N"}, {"r": "reference", "x": "block", "y": "embed"}, {"r": "eof", "x": "Eof", "y": "EOFF"}, {"y": "r", "r": "x", "x": "y"},
	}
	naming := func(g *spec.Grammar) []*sym {
		var out []*sym
		for _, p := range permutations(len(g.Names)) {
			for i, m := range append([]map[string]string{nil}, pool...) {
				if i > 0 && len(g.Names) < 3 && m["y"] == "r" {
					m = map[string]string{"r": "q", "x": "y"}
				}
				out = append(out, &sym{names: m, order: p})
			}
		}
		return out
	}
	c.sweepSymmetry("names", famRefs(c.pick(3, 4), 3), mkTexts(texts("ab", 3)), flagSkip, true, naming)
	gs = nil
	items := []*rule{spec.C('a'), spec.Cs("ab"), spec.S("b"), spec.Cat(spec.N("x"), spec.C('b')), spec.Ord([]*rule{spec.N("y"), spec.C('b')}, []*rule{spec.Cs("ba")}), spec.Re(spec.Cat(spec.C('a'), spec.N("y")), 0, 0), spec.Op(spec.S("ab")), spec.Bl(spec.N("y"), nil, nil, spec.C('b'), true)}
	tuples(items, 3, func(t []*rule) {
		g := spec.NewGrammar().Def("r", t[0]).Def("x", t[1]).Def("y", t[2])
		if !g.LeftRecursive() {
			gs = append(gs, g)
		}
	})
	c.sweepSymmetry("three rules", gs, mkTexts(texts("ab", 4)), flagSkip, true, naming)
}

func replaySymmetry(w *W, c Case) string {
	a, err := xbnf.NewGrammarFromString(c.Src)
	if err != nil {
		return "well-formed grammar rejected: " + err.Error()
	}
	m, err := spec.ParseGrammar(c.Src)
	if err != nil {
		return ""
	}
	t := mkText(c.Text)
	was := before(a, m.Names, t, c.Flag, true)
	s := readSym(c.Extra)
	if s == nil {
		return ""
	}
	b, err := xbnf.NewGrammarFromString(s.source(c.Src))
	if err != nil {
		return fmt.Sprintf("rejected with the replacement made: %v", err)
	}
	if d := s.strangers(b, m.Names); d != "" {
		return d
	}
	return w.symmetric(was, b, m.Names, s, t, c.Flag, true)
}
