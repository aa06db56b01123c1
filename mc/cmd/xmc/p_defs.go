package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"xmc/spec"

	"github.com/cnsgfk/xbnf"
)

func init() {
	register(&prop{id: "C13", level: "model_checking", assume: []string{
		"rules up to the stated size; what an original and a reparsed rule denote is compared through the reference reader's syntax tree and through their trees on every text of a small set"},
		rule: "every rule of the generated families, every literal over a set of special characters, and every accepted definition text of the C14 enumeration: print, parse again, print again, compare the text, the structure and the evaluation; the same for whole grammars printed by Serialize",
		run:  runPrint, replay: replayDefs})
	register(&prop{id: "C14", level: "model_checking", assume: []string{
		"definition texts up to the stated length over the syntax's characters, and token sequences up to the stated length; the reference reader in mc/spec/parse.go is the definition of the syntax"},
		rule: "every string over the meta characters up to a length, every sequence of tokens up to a length, every bound, every name and every file of a few lines from a pool: accepted exactly when the reference reader accepts; what is accepted is evaluated on small texts and its trees compared with the reference model",
		run:  runDefs, replay: replayDefs})
}

// helpers every definition may refer to
const defTail = "\nx = 'c'\ny = \"d\""

var tailModel = func() *spec.Grammar {
	g, err := spec.ParseGrammar("x = 'c'\ny = \"d\"")
	if err != nil {
		panic(err)
	}
	return g
}()

func realDef(def string) (*xbnf.Grammar, error) {
	g := xbnf.NewGrammar()
	if _, err := g.AddRule("r = " + def); err != nil {
		return nil, err
	}
	g.AddRule("x = 'c'")
	g.AddRule("y = \"d\"")
	return g, nil
}

var defTexts = mkTexts([]string{"", "a", "b", "ab", "a b", "aa", "abab", "c", "'", "x", "ac", " a", "d", "a-", "uaab", "\"a"})

// definition compares one definition text; print also prints and reparses it.
func (w *W) definition(def string, print bool) string {
	m, _, merr := spec.ParseRule(def)
	g, rerr := realDef(def)
	w.states++
	w.trans += int64(len(def)) + 1
	w.traces++
	if !print && (merr == nil) != (rerr == nil) {
		if merr == nil {
			return fmt.Sprintf("well-formed definition rejected: %v", rerr)
		}
		return fmt.Sprintf("malformed definition accepted (%v)", merr)
	}
	if merr != nil || rerr != nil {
		w.counts["rejected"]++
		return ""
	}
	w.counts["accepted"]++
	mg := spec.NewGrammar().Def("r", m).Def("x", tailModel.Rules["x"]).Def("y", tailModel.Rules["y"])
	if print {
		return w.printed(g, mg, m)
	}
	if mg.LeftRecursive() {
		w.counts["left recursive"]++
		return ""
	}
	p := &Pair{mg, g, def}
	for _, t := range defTexts {
		if s := w.evalRule(p, "r", t, spec.Skip, 0, aTree|aMarks); s != "" {
			return fmt.Sprintf("on %q: %s", t.S, s)
		}
	}
	return ""
}

// printed prints rule r of g and reads the text again.
func (w *W) printed(g *xbnf.Grammar, mg *spec.Grammar, m *spec.Rule) string {
	s1 := g.GetRule("r").String()
	m2, _, err := spec.ParseRule(s1)
	if err != nil {
		return fmt.Sprintf("printed as %q, which is malformed: %v", s1, err)
	}
	g2, err := realDef(s1)
	if err != nil {
		return fmt.Sprintf("printed as %q, which is rejected: %v", s1, err)
	}
	if s2 := g2.GetRule("r").String(); s2 != s1 {
		return fmt.Sprintf("printed as %q, then as %q", s1, s2)
	}
	if m.Dump() != m2.Dump() {
		return fmt.Sprintf("printed as %q, which is another rule: %s, was %s", s1, m2.Dump(), m.Dump())
	}
	if mg.LeftRecursive() {
		return ""
	}
	for _, t := range defTexts[:12] {
		a := showResult(g.EvalRule("r", t.S))
		b := showResult(g2.EvalRule("r", t.S))
		w.trans += 2
		if a != b {
			return fmt.Sprintf("printed as %q; on %q %s", s1, t.S, firstDiff(b, a))
		}
	}
	return ""
}

// ---- enumerations of definition texts

func strs(alpha []string, n int, f func(string)) {
	var rec func(cur string, left int)
	rec = func(cur string, left int) {
		if left == 0 {
			f(cur)
			return
		}
		for _, a := range alpha {
			rec(cur+a, left-1)
		}
	}
	rec("", n)
}

var metaQuick = strings.Split("'|\"|a|>|<|!|^|(|)|[|]|{|}|$|-|/|1| |\t", "|")

func metaChars(big bool) []string {
	out := append([]string{"|"}, metaQuick...)
	if big {
		out = append(out, "~", "#", "+", "*", ",", "\\", "u", "0", "_", "E")
	}
	return out
}

var defTokens = []string{"'a'", "\"b\"", "'a'-'c'", "\\u0061", "x", "EOF", "(", ")", "[", "]", "{", "}", "}+", "}<1,2>", "}<2", "<", ">", "!>", "^", "|", "$", "~", "//", "-"}

// defTextJobs calls run with batches of definition texts; every batch is a function that enumerates.
func (c *Ctx) defTexts(kind string, f func(w *W, def string) string) {
	job := func(heads []string, alpha []string, n int, sep string) {
		c.each(len(heads), func(w *W, i int) {
			strs(alpha, n, func(s string) {
				if c.stop.Load() {
					return
				}
				def := heads[i] + s
				if sep != "" {
					def = heads[i]
					for _, k := range strings.Split(s, "\x00") {
						if k != "" {
							def += sep + k
						}
					}
				}
				cs := Case{Kind: kind, Extra: def}
				w.do(&cs, func() string { return f(w, def) })
			})
		})
	}
	small := metaChars(c.Thorough)
	var h1, h2 []string
	strs(small, 1, func(s string) { h1 = append(h1, s) })
	strs(small, 2, func(s string) { h2 = append(h2, s) })
	job([]string{""}, small, 0, "")
	for n := 0; n <= 1; n++ {
		job(h1, small, n, "")
	}
	job(h2, small, 1, "")
	job(h2, small, 2, "")
	job(h2, small, 3, "")
	if !c.Thorough {
		all := metaChars(true)
		var a2 []string
		strs(all, 2, func(s string) { a2 = append(a2, s) })
		job(a2, all, 0, "")
		job(a2, all, 1, "")
		job(a2, all, 2, "")
	}
	// tokens, with and without a blank between them
	var t2 []string
	var zt []string
	for _, a := range defTokens {
		zt = append(zt, "\x00"+a)
	}
	for _, sep := range []string{"", " "} {
		t2 = t2[:0]
		for _, a := range defTokens {
			for _, b := range defTokens {
				t2 = append(t2, a+sep+b)
			}
		}
		al := defTokens
		if sep != "" {
			al = zt
		}
		for n := 0; n <= c.pick(3, 4); n++ {
			job(t2, al, n, sep)
		}
	}
	// fewer tokens, longer
	few := []string{"'a'", "(", ")", "[", "]", "|", ">", "$"}
	blk := []string{"'a'", "<", ">", "!", "^", " ", "|"}
	for _, al := range [][]string{few, blk} {
		var h []string
		strs(al, 3, func(s string) { h = append(h, s) })
		for n := 1; n <= c.pick(3, 4); n++ {
			job(h, al, n, "")
		}
	}
	// blocks in full: every text between the brackets
	var h []string
	in := []string{"'a'", "\"b\"", "^", " ", "  ", "\t", "('a' 'b')", "x", "!"}
	strs(in, 2, func(s string) { h = append(h, "<"+s) })
	ends := append([]string{">"}, "!>")
	for n := 0; n <= c.pick(3, 4); n++ {
		n := n
		c.each(len(h), func(w *W, i int) {
			strs(in, n, func(s string) {
				for _, e := range ends {
					if c.stop.Load() {
						return
					}
					def := h[i] + s + e
					cs := Case{Kind: kind, Extra: def}
					w.do(&cs, func() string { return f(w, def) })
				}
			})
		})
	}
	// bounds
	bc := []string{"0", "1", "2", "9", ",", ">", " ", "+", "-", "a"}
	var bh []string
	strs(bc, 1, func(s string) { bh = append(bh, "{'a'}<"+s) })
	for n := 0; n <= c.pick(3, 4); n++ {
		job(bh, bc, n, "")
	}
	big := []string{"4294967295", "4294967296", "99999999999999999999", "18446744073709551616", "2147483648", "0004", "+1", "0x1", "1e1", "1_0"}
	for _, b := range append(big, "") {
		for _, d := range append(big, "", "1") {
			for _, f2 := range []string{"{'a'}<%s,%s>", "{'a'}<%s%s>", "{'a'}< %s , %s >", "{'a'}<%s,%s"} {
				h := []string{fmt.Sprintf(f2, b, d)}
				job(h, nil, 0, "")
			}
		}
	}
	// choices with every kind of white space
	var hw []string
	ws := []string{"", " ", "\t", "\n", "\u00a0", "\r\n", "  "}
	for _, a := range ws {
		for _, b := range ws {
			for _, x := range []string{"|", ">"} {
				for _, y := range []string{"|", ">"} {
					hw = append(hw, "'a'"+a+x+b+"'b'"+b+y+a+"'ab'", "('a'"+a+x+b+"'b'"+b+y+a+"'ab'"+b+") 'c'", "['a'"+a+"]"+b+x+a+y+"'b'")
				}
			}
		}
	}
	job(hw, nil, 0, "")
}

func runDefs(c *Ctx) {
	c.sample(map[string]interface{}{"characters": metaChars(true), "tokens": defTokens})
	c.defTexts("def", func(w *W, d string) string { return w.definition(d, false) })
	fd := farDefs(c.pick(1025, 4097))
	c.each(len(fd), func(w *W, i int) {
		cs := Case{Kind: "def", Extra: fd[i]}
		w.do(&cs, func() string { return w.definition(fd[i], false) })
	})
	// every character in places where it may or may not be
	uni := uniRunes()
	c.each((len(uni)+255)/256, func(w *W, i int) {
		for _, r := range uni[i*256 : min(len(uni), i*256+256)] {
			x := string(r)
			for _, d := range []string{"'a'" + x + "'b'", "'a'" + x, x + "'a'", "x" + x, x + "x", "'a' |" + x + "'b'", "{'a'}" + x, "{'a'}<1" + x + ",2>", "{'a'}<" + x + "1>", "<'a'" + x + "'b'>", "'a'-" + x, "'a" + x + "b'", "'" + x + "'-'z'", "~" + x + "'a'", "\\u004" + x, "'a' // " + x} {
				cs := Case{Kind: "def", Extra: d}
				w.do(&cs, func() string { return w.definition(d, false) })
			}
			for _, n := range []string{x, "a" + x, x + "a", "a" + x + "b"} {
				cs := Case{Kind: "name", Extra: n}
				w.do(&cs, func() string { return w.name(n) })
			}
		}
	})
	// names
	var names []string
	for _, n := range scaleAt {
		names = append(names, strings.Repeat("a", n), strings.Repeat("Z9_", n), strings.Repeat("a", n)+"-b", "9"+strings.Repeat("a", n))
	}
	nc := []string{"a", "Z", "0", "_", "é", "-", " ", "$", ".", "EOF", "z", "A", "9", "@", "[", "`", "{", "/", ":"}
	for n := 0; n <= 3; n++ {
		strs(nc, n, func(s string) { names = append(names, s) })
	}
	c.each(len(names), func(w *W, i int) {
		cs := Case{Kind: "name", Extra: names[i]}
		w.do(&cs, func() string { return w.name(names[i]) })
	})
	// files
	files := append(oddLines(), longLines()...)
	odd := len(files)
	n := c.pick(3, 4)
	var heads [][]string
	for _, a := range fileLines {
		heads = append(heads, []string{a})
	}
	for k := 0; k < n; k++ {
		for _, h := range heads {
			if len(h) == k+1 {
				files = append(files, h)
				if k+1 < n {
					for _, a := range fileLines {
						heads = append(heads, append(h[:len(h):len(h)], a))
					}
				}
			}
		}
	}
	dir, err := os.MkdirTemp("", "xmcf")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	c.each(len(files), func(w *W, i int) {
		src := strings.Join(files[i], "\n")
		if i%2 == 0 && i < odd {
			src += "\n"
		}
		cs := Case{Kind: "file", Src: src}
		w.do(&cs, func() string {
			f := ""
			if i%97 == 0 || i < odd && (i%3 == 0 || len(src) > 1000) {
				f = filepath.Join(dir, fmt.Sprint(w.id))
			}
			return w.file(src, f)
		})
	})
	c.sample(map[string]interface{}{"names": len(names), "files": len(files), "lines": fileLines})
}

var fileLines = []string{"r = 'a'", "r='b'", "s = r", "t = u", "// r = 'z'", "", "  ", "u = 'c' // t", "= 'a'", "1a = 'a'", "a b = 'c'", "r", "_x = 'a'", "EOF = 'a'", "é = 'a'", "v = 'a' = 'b'", "w='=' ", "x=('a'", "\t y\t= 'b'\r", "z = r $", "q = q2 {\"=\"}", "/ r = 'a'", "s = // nothing"}

func (w *W) name(n string) string {
	w.states++
	w.trans++
	w.traces++
	def := n + " = 'a'"
	tn := strings.TrimSpace(n)
	g := xbnf.NewGrammar()
	_, err := g.AddRule(def)
	if (err == nil) != spec.ValidName(tn) {
		return fmt.Sprintf("rule named %q: error %v", tn, err)
	}
	if (g.GetRecord(tn) != nil) != (err == nil) {
		return fmt.Sprintf("rule named %q: defined is %v after error %v", tn, g.GetRecord(tn) != nil, err)
	}
	g = xbnf.NewGrammar()
	if _, err2 := g.ParseRule(n, "'a'"); (err2 == nil) != spec.ValidName(n) {
		return fmt.Sprintf("rule named %q: error %v", n, err2)
	}
	return ""
}

func (w *W) file(src, path string) string {
	w.states++
	w.trans += int64(strings.Count(src, "\n")) + 1
	w.traces++
	m, merr := spec.ParseGrammar(src)
	var g *xbnf.Grammar
	var err error
	if path == "" {
		g, err = xbnf.NewGrammarFromString(src)
	} else {
		if e := os.WriteFile(path, []byte(src), 0o644); e != nil {
			panic(e)
		}
		g, err = xbnf.NewGrammarFromFile(path)
	}
	if (err == nil) != (merr == nil) {
		return fmt.Sprintf("file of definitions: error %v, expected error %v", err, merr)
	}
	if err != nil {
		w.counts["rejected"]++
		return ""
	}
	w.counts["accepted"]++
	for _, n := range append(strings.Fields("a b c d e f g r s t u v w x y z EOF q q2"), m.Names...) {
		if (g.GetRule(n) != nil) != (m.Rules[n] != nil) {
			return fmt.Sprintf("rule %s: defined is %v", n, g.GetRule(n) != nil)
		}
	}
	if m.LeftRecursive() {
		return ""
	}
	p := &Pair{m, g, src}
	for _, t := range defTexts[:6] {
		if s := w.parseOnce(p, t, 0); s != "" {
			return fmt.Sprintf("on %q: %s", t.S, s)
		}
	}
	return ""
}

// ---- printing

var serLine = regexp.MustCompile(`^L(\d{4,}): (!?)([A-Za-z][A-Za-z0-9_]*)(\[T\])?\s* = (.*)$`)

// reload prints a grammar with Serialize and loads what is printed.
func (w *W) reload(src string) string {
	g, err := xbnf.NewGrammarFromString(src)
	if err != nil {
		return ""
	}
	m, err := spec.ParseGrammar(src)
	if err != nil {
		return ""
	}
	w.states++
	w.traces++
	w.trans += int64(len(m.Names))
	out := g.Serialize(false)
	if !strings.Contains(out, "Rules:\n") {
		return "no rules in the printed grammar"
	}
	body := out[strings.Index(out, "Rules:\n")+len("Rules:\n"):]
	var lines []string
	i := 0
	for _, l := range strings.Split(body, "\n") {
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		x := serLine.FindStringSubmatch(l)
		if x == nil {
			return fmt.Sprintf("printed grammar has the line %q", l)
		}
		if i >= len(m.Names) || x[3] != m.Names[i] {
			return fmt.Sprintf("printed grammar has rule %s as its rule %d", x[3], i+1)
		}
		if (x[2] == "!") != m.Rules[x[3]].Vir {
			return fmt.Sprintf("rule %s is printed as %s", x[3], x[2])
		}
		lines = append(lines, x[3]+" = "+x[5])
		i++
	}
	if i != len(m.Names) {
		return fmt.Sprintf("printed grammar has %d rules, expected %d", i, len(m.Names))
	}
	src2 := strings.Join(lines, "\n")
	g2, err := xbnf.NewGrammarFromString(src2)
	if err != nil {
		return fmt.Sprintf("printed grammar is rejected: %v\n%s", err, src2)
	}
	m2, err := spec.ParseGrammar(src2)
	if err != nil {
		return fmt.Sprintf("printed grammar is malformed: %v\n%s", err, src2)
	}
	for _, n := range m.Names {
		if m.Rules[n].Dump() != m2.Rules[n].Dump() {
			return fmt.Sprintf("rule %s is another rule when printed: %q", n, lines)
		}
		if a, b := g.GetRule(n).String(), g2.GetRule(n).String(); a != b {
			return fmt.Sprintf("rule %s prints as %q, then as %q", n, a, b)
		}
	}
	if m.LeftRecursive() {
		return ""
	}
	for _, t := range defTexts[:8] {
		a, e1 := g.Eval(xbnf.NewCharstreamFromString(t.S), xbnf.LevelBasic)
		b, e2 := g2.Eval(xbnf.NewCharstreamFromString(t.S), xbnf.LevelBasic)
		if x, y := showAST(a, e1), showAST(b, e2); x != y && (e1 == nil || e2 == nil) {
			return fmt.Sprintf("loaded again, on %q: %s", t.S, firstDiff(y, x))
		}
	}
	return ""
}

func (w *W) printRule(src string) string {
	m, _, err := spec.ParseRule(src)
	if err != nil {
		return "model: " + err.Error()
	}
	g, err := realDef(src)
	if err != nil {
		return "" // C14
	}
	w.states++
	w.traces++
	w.trans++
	return w.printed(g, spec.NewGrammar().Def("r", m).Def("x", tailModel.Rules["x"]).Def("y", tailModel.Rules["y"]), m)
}

func annotated(terms []*rule) []*rule {
	var out []*rule
	for _, t := range terms {
		for m := 0; m < 8; m++ {
			out = append(out, t.Ann(m))
		}
	}
	return out
}

func runPrint(c *Ctx) {
	var srcs []string
	add := func(rs []*rule) {
		for _, r := range rs {
			srcs = append(srcs, r.Src())
		}
	}
	terms := []*rule{spec.C('a'), spec.Cs("ab"), spec.S("a"), spec.R('a', 'c'), spec.N("x"), spec.E(), spec.S("")}
	g := &Gen{Terms: terms, Wrap: []func(*rule) *rule{wGroup, wOption, repAny, repSome, wRep(0, 2), repTwo}, Bars: true, Orders: true, Seqs: true}
	add(g.UpTo(c.pick(4, 5)))
	g = &Gen{Terms: []*rule{spec.C('a'), spec.S("b")}, Wrap: []func(*rule) *rule{wGroup, wOption, repAny}, Bars: true, Orders: true, Seqs: true}
	add(g.UpTo(c.pick(6, 7)))
	var wr []func(*rule) *rule
	for m := 0; m < 8; m++ {
		wr = append(wr, wAnn(wGroup, m), wAnn(wOption, m), wAnn(repAny, m))
	}
	g = &Gen{Terms: annotated([]*rule{spec.C('a'), spec.S("b"), spec.N("x"), spec.E()}), Wrap: wr, Bars: true, Orders: true, Seqs: true}
	add(g.UpTo(3))
	g = &Gen{Terms: annotated([]*rule{spec.C('a')}), Wrap: []func(*rule) *rule{wAnn(wGroup, 2), wAnn(repTwo, 5)}, Bars: true, Orders: true, Seqs: true}
	add(g.UpTo(c.pick(5, 6)))
	bl := famBlocks(true)
	add(bl)
	for i, b := range bl {
		if i%7 == 0 {
			for m := 1; m < 8; m++ {
				add([]*rule{b.Ann(m), spec.Cat(b.Ann(m), spec.C('a')), spec.Alt(spec.C('a'), b.Ann(m)), spec.Bl(b.Ann(m), nil, nil, b, true)})
			}
		}
	}
	// literals
	chars := []rune{}
	for r := rune(1); r < 0x300; r++ {
		chars = append(chars, r)
	}
	chars = append(chars, 0, 0x2028, 0x3000, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF)
	for _, a := range uniRunes() {
		if a >= 0x300 {
			srcs = append(srcs, "'"+litEsc(a)+"'", "\""+litRaw(a)+"a\"", "'"+litRaw(a)+"'-'"+litEsc(a)+"'")
		}
	}
	for _, a := range chars {
		for _, q := range []string{"'", "\""} {
			srcs = append(srcs, q+litEsc(a)+q, q+"a"+litEsc(a)+q, q+litEsc(a)+"a"+q, q+litEsc(a)+"0041"+q)
			if a > 0x1f {
				srcs = append(srcs, q+litRaw(a)+q)
			}
		}
		srcs = append(srcs, "'"+litEsc(a)+"'-'z'", "' '-'"+litEsc(a)+"'", "'"+litEsc(a)+"'-'"+litEsc(a)+"'")
		if a < 0x10000 {
			srcs = append(srcs, fmt.Sprintf("\\u%04x", a), fmt.Sprintf("\\u%04X-\\uFFFF", a))
		}
	}
	sp := []string{"\\\\", "\\u0027", "\\u0022", "\\u005C", "'", "\"", "u", "0041", "a", "-", "\\u000A", " ", "\\u0041", "é", "\\'", "\\\"", "\\uD83D", "\\uDE00"}
	for n := 1; n <= c.pick(3, 4); n++ {
		strs(sp, n, func(s string) {
			srcs = append(srcs, "\""+strings.ReplaceAll(s, "\"", "'")+"\"", "'"+strings.ReplaceAll(s, "'", "\"")+"'")
		})
	}
	c.sample(map[string]interface{}{"rules": len(srcs), "first": srcs[0], "last": srcs[len(srcs)-1]})
	c.each(len(srcs), func(w *W, i int) {
		if _, _, err := spec.ParseRule(srcs[i]); err != nil {
			return
		}
		cs := Case{Kind: "print", Extra: srcs[i]}
		w.do(&cs, func() string { return w.printRule(srcs[i]) })
	})
	c.defTexts("print", func(w *W, d string) string { return w.definition(d, true) })
	fd := farDefs(c.pick(513, 4097))
	c.each(len(fd), func(w *W, i int) {
		cs := Case{Kind: "print", Extra: fd[i]}
		w.do(&cs, func() string { return w.definition(fd[i], true) })
	})
	// whole grammars
	var gs []string
	for _, l := range famScale("cdqb") {
		if s := l.g.Src(); len(s) < 20000 {
			gs = append(gs, s)
		}
	}
	pool := []string{"'a'", "~x", "$x | #\"b\"", "{x y}<1,2>", "<'a' ^x 'b' !>", "['a'] z9", "'a' | 'b' > \"c\"", "'=' // t", "\\u003D", "~('a' 'b')"}
	for _, a := range pool {
		for _, b := range pool {
			gs = append(gs, "r = "+a+"\nx = "+b+defTail[8:]+"\nz9 = 'q'")
			gs = append(gs, "// c\n\nlongname_1 = "+a+"\n\nx = "+b+"\ny = r\nz9 = ~#'q'\nr = 'l'")
		}
	}
	for _, d := range detGrammars {
		gs = append(gs, d)
	}
	for _, f := range []string{"main/samples/json/json.xbnf", "main/samples/arithmetic/arithmetic.xbnf", "main/samples/property/property.xbnf"} {
		if b, err := os.ReadFile(filepath.Join(repoDir, f)); err == nil {
			gs = append(gs, string(b))
		}
	}
	c.each(len(gs), func(w *W, i int) {
		cs := Case{Kind: "reload", Src: gs[i]}
		w.do(&cs, func() string { return w.reload(gs[i]) })
	})
}

var repoDir = func() string {
	if d := os.Getenv("XMC_REPO"); d != "" {
		return d
	}
	return "/repo"
}()

// litEsc is c as a literal spells it with an escape when it can.
func litEsc(c rune) string {
	if c > 0xffff {
		return string(c)
	}
	return fmt.Sprintf("\\u%04X", c)
}

// litRaw is c itself, behind a backslash.
func litRaw(c rune) string {
	if c == 'u' {
		return "u"
	}
	return "\\" + string(c)
}

func replayDefs(w *W, c Case) string {
	switch c.Kind {
	case "def":
		return w.definition(c.Extra, false)
	case "name":
		return w.name(c.Extra)
	case "file":
		return w.file(c.Src, "")
	case "reload":
		return w.reload(c.Src)
	}
	if w.c.P.id == "C13" {
		if s := w.definition(c.Extra, true); s != "" {
			return s
		}
		return w.printRule(c.Extra)
	}
	return w.definition(c.Extra, false)
}
