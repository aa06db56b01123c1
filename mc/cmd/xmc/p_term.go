package main

import (
	"fmt"
	"strings"

	"xmc/spec"

	"github.com/cnsgfk/xbnf"
)

func init() {
	register(&prop{id: "C07", level: "model_checking", assume: []string{
		"a literal is observed through the texts its rule matches: for every literal the spelled text, its neighbours, prefixes and extensions; for ranges every code point (thorough) or every code point near an end of a range or of a plane (quick)",
		"half of a surrogate pair cannot occur in a text: an escape which spells one is checked to match neither the replacement character nor its neighbours"},
		rule: "every four digit escape (65536) in every place and letter case, every code point spelled by itself, every short sequence of literal pieces with right and wrong escapes, ranges between every two boundary points in every spelling",
		run:  runTerm, replay: replayTerm})
}

func surrogate(c rune) bool { return c >= 0xD800 && c < 0xE000 }

// accepts tells whether rule r of g matches exactly the text (all of it, strictly).
func (w *W) accepts(g *xbnf.Grammar, t []rune) bool {
	w.trans++
	r := g.GetRule("r").Eval(g, xbnf.NewCharstreamFromString(string(t)), spec.NeverSkip)
	return r.Node != nil && len(r.CharsRead)-len(r.CharsUnused) == len(t) && runesEq(realLeaves(r.Node, nil), t)
}

// denotes checks that def, on its own, matches exactly the text want.
func (w *W) denotes(def string, want []rune) string {
	g := xbnf.NewGrammar()
	w.states++
	w.traces++
	if _, err := g.AddRule("r = " + def); err != nil {
		return "rejected: " + err.Error()
	}
	if !w.accepts(g, want) {
		return fmt.Sprintf("does not match %q", string(want))
	}
	for i := range want {
		for _, d := range []rune{-1, 1, 0x20, -0x20, 0x100, -0x100, 0x1000, -0x1000} {
			c := want[i] + d
			if c < 0 || c > 0x10ffff || surrogate(c) {
				continue
			}
			t := append([]rune(nil), want...)
			t[i] = c
			if w.accepts(g, t) {
				return fmt.Sprintf("matches %q", string(t))
			}
		}
		if i < len(want)-1 && len(want) > 1 {
			if t := want[:i+1]; w.accepts(g, t) {
				return fmt.Sprintf("matches %q", string(t))
			}
		}
	}
	if w.accepts(g, append(append([]rune(nil), want...), want[len(want)-1])) {
		return "matches more than it spells"
	}
	return ""
}

// escape checks code point c spelled with a four digit escape.
func (w *W) escape(c rune) string {
	denotes := w.denotes
	if surrogate(c) {
		denotes = w.half
	}
	for _, h := range []string{fmt.Sprintf("%04X", c), fmt.Sprintf("%04x", c), fmt.Sprintf("%c%c%s", fmt.Sprintf("%04X", c)[0], fmt.Sprintf("%04x", c)[1], fmt.Sprintf("%04X", c)[2:])} {
		e := "\\u" + h
		for _, d := range []struct {
			def  string
			want []rune
		}{
			{e, []rune{c}}, {"'" + e + "'", []rune{c}}, {"\"" + e + "\"", []rune{c}},
			{"'a" + e + "b'", []rune{'a', c, 'b'}}, {"\"" + e + "0\"", []rune{c, '0'}}, {"'" + e + e + "'", []rune{c, c}}, {"\"a" + e + "\"", []rune{'a', c}},
			{e + "-" + e, []rune{c}}, {"'" + e + "'-'" + e + "'", []rune{c}}, {e + "-'" + e + "'", []rune{c}}, {"'" + e + "'-" + e, []rune{c}},
		} {
			if s := denotes(d.def, d.want); s != "" {
				return d.def + " " + s
			}
		}
	}
	return ""
}

// raw checks code point c spelled by itself.
func (w *W) raw(c rune) string {
	s := string(c)
	type dw struct {
		def  string
		want []rune
	}
	var ds []dw
	if c != '\\' {
		if c != '\'' {
			ds = append(ds, dw{"'" + s + "'", []rune{c}}, dw{"'x" + s + "'", []rune{'x', c}}, dw{"'" + s + "'-'" + s + "'", []rune{c}})
		}
		if c != '"' {
			ds = append(ds, dw{"\"" + s + "\"", []rune{c}}, dw{"\"" + s + "x\"", []rune{c, 'x'}})
		}
	}
	if c != 'u' { // any other char behind a backslash is itself
		ds = append(ds, dw{"'\\" + s + "'", []rune{c}}, dw{"\"x\\" + s + "\"", []rune{'x', c}})
	}
	for _, d := range ds {
		if m := w.denotes(d.def, d.want); m != "" {
			return d.def + " " + m
		}
	}
	return ""
}

// spelled compares a literal with the reference reader: rejected, or what it matches.
func (w *W) spelled(def string) string {
	m, _, err := spec.ParseRule(def)
	g := xbnf.NewGrammar()
	_, rerr := g.AddRule("r = " + def)
	w.states++
	w.traces++
	w.trans++
	if (err == nil) != (rerr == nil) {
		if err == nil {
			return fmt.Sprintf("well-formed literal rejected: %v", rerr)
		}
		return fmt.Sprintf("malformed literal accepted (%v)", err)
	}
	if err != nil {
		w.counts["rejected"]++
		return ""
	}
	if m.K != spec.Char && m.K != spec.Chars && m.K != spec.Str {
		return ""
	}
	w.counts["accepted"]++
	if len(m.S) == 0 {
		return ""
	}
	for _, c := range m.S {
		if surrogate(c) {
			return w.half(def, m.S)
		}
	}
	return w.denotes(def, m.S)
}

// half checks a literal which spells half of a surrogate pair: no text has such a character, so it matches none; the
// replacement character, which such a half becomes when it is written as text, is another one.
func (w *W) half(def string, spelled []rune) string {
	g := xbnf.NewGrammar()
	w.states++
	w.traces++
	if _, err := g.AddRule("r = " + def); err != nil {
		return "rejected: " + err.Error()
	}
	for _, x := range []rune{0xFFFD, '?', 0xD7FF, 0xE000} {
		t := append([]rune(nil), spelled...)
		for i := range t {
			if surrogate(t[i]) {
				t[i] = x
			}
		}
		w.trans++
		if r := g.GetRule("r").Eval(g, xbnf.NewCharstreamFromString(string(t)), spec.NeverSkip); r.Node != nil {
			return fmt.Sprintf("matches %q", string(t))
		}
	}
	return ""
}

// span checks a range over the given code points.
func (w *W) span(def string, lo, hi rune, points []rune) string {
	g := xbnf.NewGrammar()
	w.states++
	w.traces++
	if _, err := g.AddRule("r = " + def); err != nil {
		return "rejected: " + err.Error()
	}
	one := make([]rune, 1)
	for _, c := range points {
		if surrogate(c) {
			continue
		}
		one[0] = c
		if got, want := w.accepts(g, one), lo <= c && c <= hi; got != want {
			return fmt.Sprintf("matches U+%04X is %v, expected %v", c, got, want)
		}
	}
	return ""
}

func spellings(c rune) []string {
	var out []string
	if c <= 0xffff {
		out = append(out, fmt.Sprintf("\\u%04X", c), fmt.Sprintf("'\\u%04x'", c))
	}
	if c != '\'' && c != '\\' && c != '\n' && !surrogate(c) {
		out = append(out, "'"+string(c)+"'")
	}
	return out
}

var edges = []rune{0, 1, 9, 0xA, 0x1F, 0x20, '\'', '-', '0', '9', 'A', 'Z', '\\', 'a', 'z', 0x7E, 0x7F, 0x80, 0xA0, 0xFF, 0x100, 0x7FF, 0x800, 0xFFF, 0x1000, 0x7FFF, 0x8000, 0xD7FF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1F600, 0x10FFFE, 0x10FFFF}

func runTerm(c *Ctx) {
	c.each(0x10000, func(w *W, i int) {
		cs := Case{Kind: "escape", Extra: fmt.Sprint(i)}
		w.do(&cs, func() string { return w.escape(rune(i)) })
	})
	n := 0x110000
	c.each(n, func(w *W, i int) {
		if surrogate(rune(i)) || !c.Thorough && i >= 0x3000 && i%61 != 0 && i&0xffff > 2 {
			return
		}
		cs := Case{Kind: "raw", Extra: fmt.Sprint(i)}
		w.do(&cs, func() string { return w.raw(rune(i)) })
	})
	// pieces
	pieces := []string{"a", "é", "\\u0041", "\\u00e9", "\\u00E9", "\\", "\\\\", "\\'", "\\\"", "\\u", "\\u0", "\\u00", "\\u004", "\\U0041", "\\u00G1", "\\n", "0041", "u0041", "-", " ", "\\ ", "'", "\"", "\\u005C", "\\u0027", "\\u0022", "\\u 041", "\\u-041", "\\u+041", "\\uFFFF", "\\u000A", "{0041}", "\\u{41}", "#", "\\x41", "\\uD800", "\\udfff"}
	var defs []string
	for k := 0; k <= c.pick(3, 3); k++ {
		strs(pieces, k, func(s string) { defs = append(defs, "'"+s+"'", "\""+s+"\"") })
	}
	for k := 1; k <= 2; k++ {
		strs(pieces, k, func(s string) {
			defs = append(defs, s, "'"+s, "\""+s, s+"-'z'", "'a'-"+s, "'a'-'"+s+"'", "'"+s+"'-'z'")
		})
	}
	for _, n := range scaleAt { // long ones
		if n > c.pick(1025, 4097) {
			break
		}
		for _, s := range []string{strings.Repeat("a", n), strings.Repeat("\\u0041", n), strings.Repeat("\\u00e9b", n/2), strings.Repeat("\\\\", n), strings.Repeat("\\'", n), strings.Repeat("\\\"", n), strings.Repeat("a\\u002", n), alphaStr(n) + "\\", strings.Repeat("é\U0001F600", n/2) + "\\u000A"} {
			defs = append(defs, "'"+s+"'", "\""+s+"\"", "'"+s+"\\u0041'", "'"+s+"\\u004'", "'"+s, "'a"+s+"\"")
		}
	}
	// every ASCII char as a hex digit
	for p := 0; p < 4; p++ {
		for ch := 0; ch < 0x80; ch++ {
			h := []byte("0041")
			h[p] = byte(ch)
			for _, f := range []string{"\\u%s", "'\\u%s'", "\"\\u%s\"", "'x\\u%sy'", "\\u0041-\\u%s", "'a'-'\\u%s'"} {
				defs = append(defs, fmt.Sprintf(f, h))
			}
		}
	}
	for _, ch := range "０Ａé٣𝟎" { // digits and letters of other alphabets
		defs = append(defs, "\\u004"+string(ch), "'\\u"+string(ch)+"041'")
	}
	c.sample(map[string]interface{}{"pieces": pieces, "literals": len(defs)})
	c.each(len(defs), func(w *W, i int) {
		cs := Case{Kind: "spelled", Extra: defs[i]}
		w.do(&cs, func() string { return w.spelled(defs[i]) })
	})
	// long literals: escapes at every place of a text
	var long []string
	for l := 1; l <= c.pick(24, 80); l++ {
		for k := 0; k <= l; k++ {
			s := alphaStr(k) + "\\u0041" + strings.Repeat("b", l-k)
			long = append(long, "'"+s+"'", "\""+s+"\"")
		}
	}
	c.each(len(long), func(w *W, i int) {
		cs := Case{Kind: "spelled", Extra: long[i]}
		w.do(&cs, func() string { return w.spelled(long[i]) })
	})
	// ranges
	type span struct {
		def    string
		lo, hi rune
	}
	var spans []span
	for _, a := range edges {
		for _, b := range edges {
			for i, x := range spellings(a) {
				for j, y := range spellings(b) {
					if a <= b || i == j {
						spans = append(spans, span{x + "-" + y, a, b})
					}
				}
			}
		}
	}
	c.sample(map[string]interface{}{"ranges": len(spans), "last": spans[len(spans)-1].def})
	near := nearPoints()
	c.each(len(spans), func(w *W, i int) {
		s := spans[i]
		cs := Case{Kind: "span", Extra: s.def, Flag: int(s.lo), Start: int(s.hi)}
		w.do(&cs, func() string { return w.span(s.def, s.lo, s.hi, near) })
	})
	// every code point for some ranges
	all := make([]rune, 0x110000)
	for i := range all {
		all[i] = rune(i)
	}
	k := c.pick(16, len(spans))
	c.each(k, func(w *W, i int) {
		s := spans[i*len(spans)/k]
		if c.late.Load() {
			return
		}
		cs := Case{Kind: "span", Extra: s.def, Flag: int(s.lo), Start: int(s.hi)}
		w.do(&cs, func() string { return w.span(s.def, s.lo, s.hi, all) })
	})
}

func nearPoints() []rune {
	var out []rune
	for _, e := range edges {
		for d := rune(-2); d <= 2; d++ {
			if c := e + d; c >= 0 && c <= 0x10ffff {
				out = append(out, c)
			}
		}
	}
	for c := rune(0); c < 0x110000; c += 0x1111 {
		out = append(out, c)
	}
	return out
}

func replayTerm(w *W, c Case) string {
	var n int
	fmt.Sscan(c.Extra, &n)
	switch c.Kind {
	case "escape":
		return w.escape(rune(n))
	case "raw":
		return w.raw(rune(n))
	case "spelled":
		return w.spelled(c.Extra)
	}
	return w.span(c.Extra, rune(c.Flag), rune(c.Start), nearPoints())
}
