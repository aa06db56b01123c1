package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"xmc/spec"

	"github.com/cnsgfk/xbnf"
)

func init() {
	register(&prop{id: "C21", level: "model_checking", assume: []string{
		"the languages of the shipped grammars are stated by three hand written recursive descent parsers (p_samples.go) which share no code with the library or with the reference evaluator",
		"JSON: several values may follow one another, numbers have no exponent, an escape keeps its backslash (doubled) unless it protects a quote or a newline; arithmetic: several expressions may follow one another; property: a value is not empty (an empty one takes the next line)",
		"trees are compared as the command line shows them, at the data-only level, with every position",
	},
		rule: "JSON and arithmetic: every sequence of tokens up to a length, without blanks, with blanks and with newlines, every sequence of characters up to a length over the characters of numbers, strings, words and literals, every value up to a size and every one-token change of it; property: every sequence of characters up to a length and every sequence of lines from a pool; the shipped samples and their changed copies",
		run:  runSamples, replay: replaySample})
}

// sNode is an expected node of a data-only tree.
type sNode struct {
	name string
	text string // of a leaf
	kids []*sNode
	pos  int // -1: not checked
}

func (n *sNode) leaves() string {
	if len(n.kids) == 0 {
		return n.text
	}
	s := ""
	for _, k := range n.kids {
		s += k.leaves()
	}
	return s
}

func diffSample(r *xbnf.Node, m *sNode, lc lcTab) string {
	if r.RuleName != m.name {
		return fmt.Sprintf("node %q %q, expected %q %q", r.RuleName, string(r.Text()), m.name, m.leaves())
	}
	if len(m.kids) == 0 {
		if len(r.ChildNodes) != 0 || string(r.Text()) != m.text {
			return fmt.Sprintf("%s is %q with %d parts, expected just %q", m.name, string(r.Text()), len(r.ChildNodes), m.text)
		}
	}
	if len(r.ChildNodes) != len(m.kids) {
		return fmt.Sprintf("%s %q has %d parts, expected %d", m.name, string(r.Text()), len(r.ChildNodes), len(m.kids))
	}
	if m.pos >= 0 {
		l, c := lc[m.pos][0], lc[m.pos][1]
		if r.Position == nil || r.Position.Line != l || r.Position.Col != c {
			return fmt.Sprintf("%s %q is at %s, expected L%d:%d", m.name, string(r.Text()), r.Position.String(), l, c)
		}
	}
	for i, k := range m.kids {
		if msg := diffSample(r.ChildNodes[i], k, lc); msg != "" {
			return msg
		}
	}
	return ""
}

// scan is a cursor of the hand written parsers; a parser returns nil where there is no match, and
// leaves the cursor where it was.
type scan struct {
	t []rune
	p int
}

func (s *scan) blanks() {
	for s.p < len(s.t) && spec.White(s.t[s.p]) {
		s.p++
	}
}

func (s *scan) peek() rune {
	if s.p < len(s.t) {
		return s.t[s.p]
	}
	return -1
}

// tok skips blanks and takes the word.
func (s *scan) tok(w string) bool {
	p := s.p
	s.blanks()
	for _, c := range w {
		if s.peek() != c {
			s.p = p
			return false
		}
		s.p++
	}
	return true
}

func isDigit(c rune) bool { return '0' <= c && c <= '9' }

func (s *scan) digits(p int, in func(rune) bool) int {
	for p < len(s.t) && in(s.t[p]) {
		p++
	}
	return p
}

/* ---- JSON ---- */

func jsonTexts(t []rune) ([]*sNode, bool) {
	s := &scan{t: t}
	var out []*sNode
	for s.p < len(t) {
		v := s.jsonValue()
		if v == nil {
			return nil, false
		}
		out = append(out, v)
	}
	return out, len(out) > 0
}

func (s *scan) jsonValue() *sNode {
	p0 := s.p
	s.blanks()
	st := s.p
	val := func(k *sNode) *sNode { return &sNode{name: "value", kids: []*sNode{k}, pos: st} }
	fail := func() *sNode { s.p = p0; return nil }
	switch c := s.peek(); {
	case c == '"':
		str := s.jsonString()
		if str == nil {
			return fail()
		}
		return val(&sNode{name: "literal", kids: []*sNode{str}, pos: st})
	case c == '-' || isDigit(c):
		p := st
		if c == '-' {
			p++
		}
		q := s.digits(p, isDigit)
		if q == p {
			return fail()
		}
		if q < len(s.t) && s.t[q] == '.' {
			if f := s.digits(q+1, isDigit); f > q+1 {
				q = f
			}
		}
		s.p = q
		return val(&sNode{name: "literal", kids: []*sNode{{name: "number", text: string(s.t[st:q]), pos: st}}, pos: st})
	case s.tok("true"):
		return val(&sNode{name: "literal", kids: []*sNode{{name: "bool", text: "true", pos: st}}, pos: st})
	case s.tok("false"):
		return val(&sNode{name: "literal", kids: []*sNode{{name: "bool", text: "false", pos: st}}, pos: st})
	case s.tok("null"):
		return val(&sNode{name: "literal", text: "null", pos: st})
	case c == '[':
		s.p++
		n := &sNode{name: "array", pos: st}
		if v := s.jsonValue(); v != nil {
			n.kids = append(n.kids, v)
			for s.tok(",") {
				if v = s.jsonValue(); v == nil {
					return fail()
				}
				n.kids = append(n.kids, v)
			}
		}
		if !s.tok("]") {
			return fail()
		}
		return val(n)
	case c == '{':
		s.p++
		n := &sNode{name: "object", pos: st}
		if kv := s.jsonKV(); kv != nil {
			n.kids = append(n.kids, kv)
			for s.tok(",") {
				if kv = s.jsonKV(); kv == nil {
					return fail()
				}
				n.kids = append(n.kids, kv)
			}
		}
		if !s.tok("}") {
			return fail()
		}
		return val(n)
	}
	return fail()
}

func (s *scan) jsonKV() *sNode {
	p0 := s.p
	s.blanks()
	st := s.p
	if s.peek() == '"' {
		if k := s.jsonString(); k != nil && s.tok(":") {
			if v := s.jsonValue(); v != nil {
				return &sNode{name: "kv", kids: []*sNode{k, v}, pos: st}
			}
		}
	}
	s.p = p0
	return nil
}

func (s *scan) jsonString() *sNode {
	st := s.p
	s.p++
	var b []rune
	for s.p < len(s.t) {
		c := s.t[s.p]
		s.p++
		switch {
		case c == '"':
			return &sNode{name: "string", text: string(b), pos: st}
		case c == '\n':
			s.p = st
			return nil
		case c == '\\' && s.p < len(s.t):
			d := s.t[s.p]
			s.p++
			if d == '"' || d == '\n' {
				b = append(b, d)
			} else {
				b = append(b, '\\', '\\', d)
			}
		default:
			b = append(b, c)
		}
	}
	s.p = st
	return nil
}

// plainJSON is a text the standard library accepts and which uses only what the grammar has.
func plainJSON(t string) bool {
	if !json.Valid([]byte(t)) || strings.TrimRight(t, " \t\r\n") != t {
		return false
	}
	in := false
	for i := 0; i < len(t); i++ {
		switch {
		case t[i] == '\\':
			i++
		case t[i] == '"':
			in = !in
		case !in && t[i] == 'E', !in && t[i] == 'e' && i > 0 && isDigit(rune(t[i-1])):
			return false
		}
	}
	return true
}

/* ---- arithmetic ---- */

func arithTexts(t []rune) ([]*sNode, bool) {
	s := &scan{t: t}
	var out []*sNode
	for s.p < len(t) {
		e := s.arithExpr()
		if e == nil {
			return nil, false
		}
		n := &sNode{name: "exprs", kids: []*sNode{e}, pos: e.pos}
		for {
			// the next expression belongs to the same list if a newline stands right before it
			p := s.p
			s.blanks()
			if s.p == p || s.t[s.p-1] != '\n' && s.t[s.p-1] != '\r' {
				s.p = p
				break
			}
			nl := s.p - 1
			e := s.arithExpr()
			if e == nil {
				s.p = p
				break
			}
			n.kids = append(n.kids, &sNode{text: string(t[nl]), pos: nl}, e)
		}
		out = append(out, n)
	}
	return out, len(out) > 0
}

func (s *scan) arithExpr() *sNode { return s.arithChain("expr", "term_operator", "+-", s.arithTerm) }
func (s *scan) arithTerm() *sNode {
	return s.arithChain("term", "factor_operator", "*/", s.arithFactor)
}

func (s *scan) arithChain(name, opName, ops string, part func() *sNode) *sNode {
	l := part()
	if l == nil {
		return nil
	}
	n := &sNode{name: name, kids: []*sNode{l}, pos: l.pos}
	for {
		p := s.p
		s.blanks()
		at := s.p
		if at >= len(s.t) || !strings.ContainsRune(ops, s.t[at]) {
			s.p = p
			return n
		}
		s.p++
		r := part()
		if r == nil {
			s.p = p
			return n
		}
		n.kids = append(n.kids, &sNode{name: opName, text: string(s.t[at]), pos: at}, r)
	}
}

func (s *scan) arithFactor() *sNode {
	p0 := s.p
	s.blanks()
	st := s.p
	c := s.peek()
	letter := func(c rune) bool { return 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' }
	switch {
	case c == '(':
		s.p++
		if e := s.arithExpr(); e != nil {
			s.blanks()
			if s.peek() == ')' {
				s.p++
				return &sNode{name: "factor", pos: st, kids: []*sNode{{text: "(", pos: st}, e, {text: ")", pos: s.p - 1}}}
			}
		}
	case letter(c):
		s.p = s.digits(st, func(c rune) bool { return letter(c) || isDigit(c) || c == '_' })
		return &sNode{name: "factor", pos: st, kids: []*sNode{{name: "variable", text: string(s.t[st:s.p]), pos: st}}}
	default:
		end := s.number(st)
		if end > st {
			s.p = end
			return &sNode{name: "factor", pos: st, kids: []*sNode{{name: "literal", text: string(s.t[st:end]), pos: st}}}
		}
	}
	s.p = p0
	return nil
}

// number is the end of the longest literal at p.
func (s *scan) number(p int) int {
	best := p
	if p+1 < len(s.t) && s.t[p] == '0' {
		var in func(rune) bool
		switch s.t[p+1] {
		case 'x':
			in = func(c rune) bool { return isDigit(c) || 'a' <= c && c <= 'f' || 'A' <= c && c <= 'F' }
		case 'o':
			in = func(c rune) bool { return '0' <= c && c <= '7' }
		case 'b':
			in = func(c rune) bool { return c == '0' || c == '1' }
		}
		if in != nil {
			if e := s.digits(p+2, in); e > p+2 {
				best = e
			}
		}
	}
	q := p
	if q < len(s.t) && s.t[q] == '-' {
		q++
	}
	e := s.digits(q, isDigit)
	if e > q && e > best {
		best = e
	}
	if e < len(s.t) && s.t[e] == '.' {
		if f := s.digits(e+1, isDigit); f > e+1 && f > best {
			best = f
		}
	}
	return best
}

/* ---- property ---- */

func propTexts(t []rune) ([]*sNode, bool) {
	p := 0
	var out []*sNode
	ws := func(p int) int {
		for p < len(t) && (t[p] == ' ' || t[p] == '\t' || t[p] == '\n') {
			p++
		}
		return p
	}
	// where a key or value which may start with white space starts: known if there is one kind of it at most
	start := func(p, q int) int {
		for i := p; i < q; i++ {
			if t[i] != t[p] {
				return -1
			}
		}
		return p
	}
	for p < len(t) {
		n := &sNode{name: "property", pos: -1}
		st := ws(p)
		if st == len(t) {
			return nil, false
		}
		// a line without a separator
		e := st
		for e < len(t) && t[e] != '\n' && t[e] != '=' && t[e] != ':' {
			e++
		}
		emptyEnd := -1
		if e == len(t) || t[e] == '\n' {
			emptyEnd = e
			if e < len(t) {
				emptyEnd++
			}
		}
		// a key, up to a separator which isn't escaped, in one line unless the newline is
		key, k, keyOk := []rune{}, st, false
		for k < len(t) && !keyOk && t[k] != '\n' {
			switch {
			case t[k] == '=' || t[k] == ':':
				keyOk = true
			case t[k] == '\\' && k+1 < len(t):
				k++
				if t[k] != '\n' && t[k] != '=' && t[k] != ':' {
					key = append(key, '\\', '\\')
				}
				key = append(key, t[k])
			default:
				key = append(key, t[k])
			}
			k++
		}
		valEnd := -1
		var val []rune
		var vst int
		if keyOk {
			vst = k
			v := ws(k)
			if v < len(t) {
				valEnd = v
				for valEnd < len(t) && t[valEnd] != '\n' {
					c := t[valEnd]
					valEnd++
					if c == '\\' {
						if valEnd == len(t) {
							break // an escaped end of file
						}
						if t[valEnd] != '\n' {
							val = append(val, '\\', '\\')
						}
						c = t[valEnd]
						valEnd++
					}
					val = append(val, c)
				}
				if valEnd < len(t) {
					valEnd++
				}
			}
		}
		switch {
		case emptyEnd < 0 && valEnd < 0:
			return nil, false
		case valEnd > emptyEnd:
			n.kids = []*sNode{{name: "key", text: string(key), pos: start(p, st)}, {name: "value", text: string(val), pos: start(vst, ws(vst))}}
			p = valEnd
		default:
			n.kids = []*sNode{{name: "emptykey", text: string(t[st:e]), pos: start(p, st)}}
			p = emptyEnd
		}
		p = ws(p)
		out = append(out, n)
	}
	return out, len(out) > 0
}

type shipped struct {
	name  string
	g     *xbnf.Grammar
	parse func([]rune) ([]*sNode, bool)
}

func sampleDir() string {
	if d := os.Getenv("XMC_REPO"); d != "" {
		return filepath.Join(d, "main", "samples")
	}
	return "/repo/main/samples"
}

func loadShipped(name string) (*shipped, string) {
	g, err := xbnf.NewGrammarFromFile(filepath.Join(sampleDir(), name, name+".xbnf"))
	if err != nil {
		return nil, fmt.Sprintf("the shipped grammar %s is rejected: %v", name, err)
	}
	return &shipped{name, g, map[string]func([]rune) ([]*sNode, bool){"json": jsonTexts, "arithmetic": arithTexts, "property": propTexts}[name]}, ""
}

func (w *W) shippedText(s *shipped, text string) string {
	t := mkText(text)
	want, ok := s.parse(t.R)
	w.states++
	w.trans += int64(len(t.R)) + 1
	w.traces++
	ast, err := s.g.Eval(xbnf.NewCharstreamFromString(text), xbnf.LevelDataOnly)
	if !ok {
		w.counts[s.name+" rejected"]++
		if err == nil {
			return fmt.Sprintf("%s: accepted, not in the language; tree %q", s.name, string(ast.Text()))
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("%s: rejected, in the language: %v", s.name, err)
	}
	w.counts[s.name+" accepted"]++
	if len(ast.Nodes) != len(want) {
		return fmt.Sprintf("%s: %d top nodes, expected %d", s.name, len(ast.Nodes), len(want))
	}
	for i, n := range want {
		if msg := diffSample(ast.Nodes[i], n, t.LC); msg != "" {
			return s.name + ": " + msg
		}
	}
	return ""
}

func replaySample(w *W, c Case) string {
	s, msg := loadShipped(c.Rule)
	if s == nil {
		return msg
	}
	if c.Kind == "plain" {
		return plain(c.Text)
	}
	return w.shippedText(s, c.Text)
}

// plain ties the hand written JSON parser to the standard library's.
func plain(t string) string {
	if _, ok := jsonTexts([]rune(t)); plainJSON(t) && !ok {
		return "the check's own JSON parser rejects a JSON text (an error of the check)"
	}
	return ""
}

// seqs calls f with every sequence of up to n of the words, joined with each of the separators.
func seqs(words []string, n int, f func([]string)) {
	var rec func(pre []string)
	rec = func(pre []string) {
		if len(pre) > 0 {
			f(pre)
		}
		if len(pre) == n {
			return
		}
		for _, w := range words {
			rec(append(pre[:len(pre):len(pre)], w))
		}
	}
	rec(nil)
}

func runSamples(c *Ctx) {
	var s [3]*shipped
	names := []string{"json", "arithmetic", "property"}
	bad := false
	for i, n := range names {
		i, n := i, n
		c.each(1, func(w *W, _ int) {
			cs := Case{Kind: "load", Rule: n}
			w.do(&cs, func() string {
				var msg string
				s[i], msg = loadShipped(n)
				return msg
			})
		})
		bad = bad || s[i] == nil
	}
	if bad {
		return
	}
	js, ar, pr := s[0], s[1], s[2]
	type batch struct {
		s     *shipped
		words []string
		seps  []string
		n     int
	}
	jtok := []string{"{", "}", "[", "]", ":", ",", "1", "-2.5", `"a"`, "true", "null"}
	atok := []string{"+", "-", "*", "/", "(", ")", "1", "x", "\n", "0x1F", "2.5"}
	bs := []batch{
		{js, jtok, []string{"", " "}, c.pick(5, 6)},
		{js, jtok, []string{"\n\t", "\u00a0"}, 4},
		{js, []string{"-", "1", "0", ".", " ", "[", "]", ","}, []string{""}, c.pick(6, 7)},
		{js, []string{"\"", "\\", "\n", "a", " ", "é"}, []string{""}, c.pick(6, 8)},
		{js, []string{"true", "false", "null", "tru", "e", "nul", "l", " ", "True", "[", "]"}, []string{"", ","}, c.pick(4, 5)},
		{js, []string{`{"a":`, `"b":`, "}", ",", "1", "{}", `""`, " ", ":", "[", "]"}, []string{""}, c.pick(5, 6)},
		{ar, atok, []string{"", " "}, c.pick(5, 6)},
		{ar, atok, []string{"\n", "\r "}, 4},
		{ar, []string{"0", "1", "x", "b", "o", ".", "-", "F", "9"}, []string{""}, c.pick(5, 6)},
		{ar, []string{"0", "a", "Z", "_", ".", "-", " ", "8"}, []string{""}, c.pick(5, 6)},
		{ar, []string{"a", "-1", "(", ")", "\n", "\r", " ", "*"}, []string{""}, c.pick(5, 7)},
		{pr, []string{"a", "=", ":", "\n", " ", "\\", "b"}, []string{""}, c.pick(6, 8)},
		{pr, []string{"a", "=", "\n", "\t", "\\"}, []string{""}, c.pick(7, 9)},
		{pr, []string{"k = v\n", "empty key\n", "u:http://h:8/p?q=1\n", "\n", "m = l1 \\\nl2\n", "  # c\n", "k\\=x=1\n", "=v\n", "last=z", "e\n\t"}, []string{""}, c.pick(4, 5)},
	}
	for _, b := range bs {
		b := b
		c.sample(map[string]interface{}{"grammar": b.s.name, "tokens": b.words, "separators": b.seps, "length": b.n})
		// split on the first two tokens
		var heads [][]string
		seqs(b.words, 2, func(h []string) { heads = append(heads, append([]string{}, h...)) })
		c.each(len(heads), func(w *W, i int) {
			try := func(ws []string) {
				for _, sep := range b.seps {
					t := strings.Join(ws, sep)
					w.sampleText(b.s, t)
				}
			}
			try(heads[i])
			if len(heads[i]) == 2 {
				seqs(b.words, b.n-2, func(x []string) {
					if !c.stop.Load() {
						try(append(heads[i][:2:2], x...))
					}
				})
			}
		})
	}
	// every pair of characters in every place where a character counts
	var chars []rune
	for r := rune(1); r < 128; r++ {
		chars = append(chars, r)
	}
	chars = append(chars, 'é', 0xa0, 0x2028, 0xffff, 0x1f600)
	odd := func(s string) bool { // the property grammar names the white space it knows, the rest is left out
		return spec.White([]rune(s)[0]) && s != " " && s != "\t" && s != "\n"
	}
	for _, k := range []struct {
		s     *shipped
		forms []string
	}{{ar, []string{"%s", "0o%s", "0x%s", "0b%s", "a%s", "1%s", "1.%s", "-%s", ".%s", "1+%s", "(1%s)", "x * %s", "0o1%s+2"}},
		{js, []string{"%s", `"%s"`, `"\\%s"`, "1%s", "-%s", "1.%s", "[1%s]", `{"a"%s1}`, "[%s", "t%se", `{%s:1}`, `"%s`}},
		{pr, []string{"%s", "a%sb", "a=%s", "a=b%sc", "\\%s=1", "a\n%sb=1", "a:b\\%s"}}} {
		k := k
		c.sample(map[string]interface{}{"grammar": k.s.name, "forms": k.forms, "pairs of": len(chars)})
		c.each(len(k.forms)*len(chars), func(w *W, i int) {
			f := k.forms[i/len(chars)]
			x := string(chars[i%len(chars)])
			if k.s == pr && odd(x) {
				return
			}
			w.sampleText(k.s, strings.Replace(f, "%s", x, 1))
			for _, y := range chars {
				if k.s == pr && odd(string(y)) {
					continue
				}
				w.sampleText(k.s, strings.Replace(f, "%s", x+string(y), 1))
				if c.stop.Load() {
					return
				}
			}
		})
	}
	// long parts and deep nestings
	lens := []int{99, 127, 128, 129, 200, 255, 256, 257, 300, c.pick(500, 1000)}
	for n := 1; n <= 70; n++ {
		lens = append(lens, n)
	}
	long := []struct {
		s          *shipped
		pre, x, po string
	}{
		{js, "", "7", ""}, {js, "-", "10", ""}, {js, "1.", "05", ""}, {js, "-", "3", ".5"}, {js, `"`, "a", `"`}, {js, `"`, `\"`, `"`}, {js, `"`, "é ", `"`},
		{js, "[1", ", 2", "]"}, {js, `{"k":1`, `,"k":null`, "}"}, {js, "", " ", "1"}, {js, "", "1 ", "true"}, {js, "", "\n", "[]"}, {js, "[1", " ", ",2]"}, {js, `"`, "a", ""}, {js, "[1", ",2", ""},
		{ar, "", "9", ""}, {ar, "-", "1", ".5"}, {ar, "0.", "12", ""}, {ar, "0x", "F", ""}, {ar, "0b", "10", ""}, {ar, "0o", "7", ""}, {ar, "a", "b_2", ""}, {ar, "1", "+x", ""}, {ar, "1", " * 2", ""}, {ar, "x", "-1*y/(z)", ""},
		{ar, "1", "\n2", ""}, {ar, "1", " ", "+2"}, {ar, "1+2", "+3", "+"}, {ar, "", "\n", "1"},
		{pr, "a", "b", "=c"}, {pr, "a=", "b", ""}, {pr, "a=b", "\\\n", "c"}, {pr, "", "a", ""}, {pr, "", "a=b\n", ""}, {pr, "", "\n", "a=b"}, {pr, "a=", " ", "b"}, {pr, "a", "\\=", "=1"},
	}
	nest := []struct {
		s          *shipped
		pre, x, po string
	}{{js, "[", "1", "]"}, {js, `{"a":`, "null", "}"}, {js, "[1,", `"x"`, "]"}, {js, "[", "[]", ",2]"}, {ar, "(", "1", ")"}, {ar, "2*(", "x", "+1)"}, {ar, "(1)-(", "0x1F", ")"}}
	c.sample(map[string]interface{}{"long parts": len(long), "nestings": len(nest), "lengths": lens})
	c.each(len(long)*len(lens), func(w *W, i int) {
		l, n := long[i/len(lens)], lens[i%len(lens)]
		w.sampleText(l.s, l.pre+strings.Repeat(l.x, n)+l.po)
	})
	c.each(len(nest)*40, func(w *W, i int) {
		l, n := nest[i/40], i%40+1
		w.sampleText(l.s, strings.Repeat(l.pre, n)+l.x+strings.Repeat(l.po, n))
		w.sampleText(l.s, strings.Repeat(l.pre, n)+l.x+strings.Repeat(l.po, n-1))
	})
	// well formed texts and every change of one token
	for _, k := range []struct {
		s     *shipped
		toks  []string
		texts [][]string
	}{{js, jtok, jsonValues(c.pick(3, 4))}, {ar, atok, arithExprs(c.pick(2, 3))}} {
		k := k
		c.sample(map[string]interface{}{"grammar": k.s.name, "well formed texts": len(k.texts), "last": strings.Join(k.texts[len(k.texts)-1], " ")})
		c.each(len(k.texts), func(w *W, i int) {
			x := k.texts[i]
			w.sampleText(k.s, strings.Join(x, ""))
			w.sampleText(k.s, strings.Join(x, " "))
			w.sampleText(k.s, " "+strings.Join(x, "\n"))
			w.sampleText(k.s, strings.Join(x, " ")+" ")
			for j := range x {
				w.sampleText(k.s, strings.Join(append(x[:j:j], x[j+1:]...), " "))
				for _, t := range k.toks {
					w.sampleText(k.s, strings.Join(append(append(x[:j:j], t), x[j+1:]...), " "))
					w.sampleText(k.s, strings.Join(append(append(x[:j:j], t), x[j:]...), ""))
				}
				if c.stop.Load() {
					return
				}
			}
		})
	}
	// the shipped samples, and each of them with one character taken out
	files := map[string][]string{}
	for _, n := range names {
		l, _ := os.ReadDir(filepath.Join(sampleDir(), n))
		for _, e := range l {
			if x := filepath.Ext(e.Name()); x == ".json" || x == ".txt" {
				files[n] = append(files[n], e.Name())
			}
		}
	}
	for i, n := range names {
		sh := s[i]
		for _, f := range files[n] {
			b, err := os.ReadFile(filepath.Join(sampleDir(), n, f))
			if err != nil {
				continue
			}
			r := []rune(string(b))
			c.sample(map[string]interface{}{"grammar": n, "file": f, "chars": len(r)})
			c.each(len(r)+1, func(w *W, i int) {
				if i == len(r) {
					w.sampleText(sh, string(r))
					return
				}
				w.sampleText(sh, string(append(r[:i:i], r[i+1:]...)))
				w.sampleText(sh, string(append(append(r[:i:i], ' '), r[i:]...)))
				w.sampleText(sh, string(r[:i]))
			})
		}
	}
}

func (w *W) sampleText(s *shipped, t string) {
	cs := Case{Kind: "text", Rule: s.name, Text: t}
	w.do(&cs, func() string {
		if s.name == "json" {
			if msg := plain(t); msg != "" {
				panic(msg)
			}
		}
		return w.shippedText(s, t)
	})
}

// jsonValues are the token sequences of all values up to a nesting depth with up to 2 parts per level.
func jsonValues(depth int) [][]string {
	lv := [][]string{{"1"}, {`"s"`}, {"null"}, {`""`}, {"[", "]"}, {"{", "}"}}
	all := append([][]string{}, lv...)
	for d := 1; d < depth; d++ {
		var next [][]string
		for i, v := range lv {
			next = append(next, append(append([]string{"["}, v...), "]"), append(append([]string{"{", `"k"`, ":"}, v...), "}"))
			u := all[(i*7+d)%len(all)]
			next = append(next, append(append(append(append([]string{"["}, v...), ","), u...), "]"))
			next = append(next, append(append(append(append([]string{"{", `"k"`, ":"}, v...), ",", `"k"`, ":"), u...), "}"))
			next = append(next, append(append([]string{}, u...), v...))
		}
		all = append(all, next...)
		lv = next
	}
	return all
}

// arithExprs are the token sequences of all expressions up to a number of operators.
func arithExprs(n int) [][]string {
	by := make([][][]string, n+1)
	by[0] = [][]string{{"1"}, {"x"}, {".5"}, {"-0b1"}}
	for k := 1; k <= n; k++ {
		for i := 0; i < k; i++ {
			for a, l := range by[i] {
				for b, r := range by[k-1-i] {
					if len(l)+len(r) > 2 && (a+b)%3 != 0 {
						continue
					}
					for o, op := range []string{"+", "-", "*", "/"} {
						switch (a + b + o) % 3 {
						case 0:
							by[k] = append(by[k], append(append(append([]string{}, l...), op), r...))
						case 1:
							by[k] = append(by[k], append(append(append([]string{"("}, l...), ")", op), r...))
						case 2:
							by[k] = append(by[k], append(append(append(append([]string{}, l...), op, "("), r...), ")"))
						}
					}
				}
			}
		}
	}
	var out [][]string
	for _, x := range by {
		out = append(out, x...)
	}
	return out
}
