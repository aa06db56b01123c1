package main

import (
	"fmt"

	"xmc/spec"

	"github.com/cnsgfk/xbnf"
)

// everyChar does f with every Unicode code point which a text can hold; the largest is max.
func (c *Ctx) everyChar(kind string, max rune, f func(w *W, r rune) string) {
	const chunk = 0x400
	c.each((int(max)+chunk)/chunk, func(w *W, i int) {
		for r := rune(i * chunk); r < rune((i+1)*chunk) && r <= max; r++ {
			if surrogate(r) {
				continue
			}
			cs := Case{Kind: kind, Start: int(r & 0xffff), Flag: int(r >> 16)}
			w.do(&cs, func() string { return f(w, r) })
		}
	})
	c.sample(map[string]interface{}{"family": kind + ": every code point", "up to": fmt.Sprintf("U+%04X", max)})
}

// charPlaces walks streams over a text with r at its start, in a line and at the end, and asks for all places.
func (w *W) charPlaces(r rune) string {
	w.states++
	t := []rune{r, 'a', r, r, '\n', r, 'b', '\n', 'c', r}
	lc := lineCols(t)
	at := func(p *xbnf.Position, i int) bool {
		if i < 0 || i >= len(t) {
			return p == nil
		}
		return p != nil && p.Line == lc[i][0] && p.Col == lc[i][1]
	}
	for k := 0; k <= len(t); k += 5 {
		w.traces++
		s := prependAll(t, k)
		for i := 0; i <= len(t); i++ {
			w.trans++
			if p := s.Position(); !at(p, i) {
				return fmt.Sprintf("U+%04X: with %d characters pushed back index %d is at %s", r, k, i, p)
			}
			for _, j := range []int{i - 1, i - 2, i - 5, 0} {
				if j < i && !at(s.PositionLookup(j), j) {
					return fmt.Sprintf("U+%04X: with %d characters pushed back and %d read, index %d is at %s", r, k, i, j, s.PositionLookup(j))
				}
			}
			want := rune(xbnf.EOFChar)
			if i < len(t) {
				want = t[i]
			}
			if p, n := s.Peek(), s.Next(); p != want || n != want {
				return fmt.Sprintf("U+%04X: index %d is read as U+%04X after U+%04X", r, i, n, p)
			}
		}
		s = prependAll(t, k)
		if m, ok := s.Match(t[:6]); !ok || !runesEq(m, t[:6]) || s.Cursor() != 6 {
			return fmt.Sprintf("U+%04X: matching %q gives %q", r, string(t[:6]), string(m))
		}
		if m, ok := s.Match([]rune{'b', r}); ok || !runesEq(m, []rune{'b', '\n'}) && r != '\n' {
			if !(r == '\n' && ok) {
				return fmt.Sprintf("U+%04X: matching %q at %q gives %q", r, string([]rune{'b', r}), string(t[6:]), string(m))
			}
		}
	}
	return ""
}

// charText asks for the text of nodes of which one begins or ends with r.
func (w *W) charText(r rune) string {
	w.states++
	for _, k := range []byte("cb") {
		for _, l := range [][2]string{{"x" + string(r), "y"}, {"x", string(r) + "y"}, {string(r), "y"}, {"x", string(r)}, {string(r), string(r)}} {
			w.trans++
			w.traces++
			n := plant([]int{2, 0, 0}, func(i int, leaf bool) attr {
				if !leaf {
					return attr{k, "", 0, ""}
				}
				return attr{'s', "", 0, l[i-1]}
			})
			if a, b := toReal(n).Text(), n.Text(); !runesEq(a, b) {
				return fmt.Sprintf("the text of %q and %q is %q", l[0], l[1], string(a))
			}
		}
	}
	return ""
}

func caseRune(c Case) rune { return rune(c.Start) | rune(c.Flag)<<16 }

// uniRunes are all code points of the Basic Multilingual Plane and some of each other plane.
func uniRunes() []rune {
	var out []rune
	for r := rune(0); r <= 0xffff; r++ {
		if !surrogate(r) {
			out = append(out, r)
		}
	}
	for p := rune(1); p <= 16; p++ {
		for _, k := range []rune{0, 1, 9, 0xa, 0xd, 0x20, 0x27, 0x5c, 0x7f, 0x85, 0xa0, 0x2028, 0x2029, 0x3000, 0xd800, 0xdfff, 0xfffd, 0xfffe, 0xffff} {
			out = append(out, p<<16|k)
		}
	}
	return out
}

// famChars reads every character, in runs, after strings and in blocks.
func famChars() []longCase {
	any := spec.R(0, 0x10ffff)
	gs := []*spec.Grammar{
		spec.G(spec.Re(any, 0, 0)),
		spec.G(spec.Cat(spec.S("a"), spec.Re(spec.Ord([]*rule{spec.S("a")}, []*rule{any}), 0, 0))),
		spec.G(spec.Cat(spec.Bl(spec.C('a'), nil, nil, spec.Cs("aa"), false), spec.E())),
		spec.G(spec.Cat(spec.C('a'), spec.S("a"))),
	}
	var out []longCase
	var run, sep []rune
	var pairs []string
	flush := func() {
		out = append(out, longCase{gs[0], []string{string(run)}}, longCase{gs[1], []string{string(sep) + "a"}}, longCase{gs[2], []string{string(sep) + "aa"}}, longCase{gs[3], pairs})
		run, sep, pairs = nil, nil, nil
	}
	for _, r := range uniRunes() {
		run = append(run, r)
		sep = append(sep, 'a', r)
		pairs = append(pairs, "a"+string(r)+"a")
		if len(run) == 96 {
			flush()
		}
	}
	flush()
	return out
}
