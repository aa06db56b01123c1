package main

import (
	"fmt"
	"strings"

	"xmc/spec"
)

// sizes at which a counter, a buffer or a table may change its behaviour.
var scaleAt = []int{17, 20, 24, 31, 32, 33, 48, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 9999, 10000, 10001, 16383, 16384, 16385, 32767, 32768, 32769, 65534, 65535, 65536, 65537}

// famScale walks one dimension at a time through all of scaleAt, as far as that dimension goes.
// about is what the families are for: '*' everything, or any of l literals, q sequences, r repetitions, b blocks, w white space, c choices, d depth, u every character.
func famScale(about string) []longCase {
	var out []longCase
	is := byte(0)
	if about == "*" || strings.IndexByte(about, 'u') >= 0 {
		out = famChars()
	}
	add := func(g *spec.Grammar, ts ...string) {
		if about == "*" || strings.IndexByte(about, is) >= 0 {
			out = append(out, longCase{g, ts})
		}
	}
	rp := strings.Repeat
	for _, n := range scaleAt {
		a, ab := rp("a", n), rp("ab", n)
		// length of the text: runs, pairs, alternatives, blocks, white space, lines
		is = 'r'
		add(spec.G(spec.Cat(spec.Re(spec.C('a'), 0, 0), spec.Op(spec.C('b')), spec.S("c"))), a+"c", a+"bc", a+" b \n c", a, a+"d")
		add(spec.G(spec.Re(spec.Alt(spec.C('a'), spec.Cs("ab")), 1, 0)), ab, ab+"a", a+"b"+a)
		is = 'b'
		add(spec.G(spec.Cat(spec.Bl(spec.C('o'), spec.C('e'), []*rule{spec.C('x')}, spec.C('c'), false), spec.C('b'))), "o"+a+"cb", "o"+a+"ecb", "o"+a+"ec"+a+"cb", "o"+a+"xcb", "o"+a)
		add(spec.G(spec.Cat(spec.Bl(spec.C('o'), nil, nil, spec.Cs("aab"), true), spec.Cs("aab"))), "o"+a+"b", "o"+a)
		is = 'w'
		add(spec.G(spec.Cat(spec.S("a"), spec.S("b"), spec.C('c'))), "a"+rp(" ", n)+"bc", "a"+rp("\n", n)+"b\nc", rp(" ", n)+"ab"+rp("\t", n)+"c", "a"+rp(" ", n))
		is = 'c'
		add(spec.G(spec.Ord([]*rule{spec.Gr(spec.Cat(spec.Re(spec.C('a'), 0, 0), spec.C('b')))}, []*rule{spec.Re(spec.R('a', 'c'), 1, 0)})), a+"b", a+"c", a)
		if n <= 4097 {
			is = 'r'
			add(spec.G(spec.Re(spec.Gr(spec.Cat(spec.S("a"), spec.Op(spec.S("b")))), 0, 0)), rp("a\n", n), rp("ab \n", n), rp("a", n)+"\n"+rp("b", n), rp("a b", n)+"\nab")
			add(spec.G(spec.Cat(spec.Op(spec.Cat(spec.Re(spec.R('a', 'b'), 0, 0), spec.C('c'))), spec.Re(spec.Alt(spec.C('a'), spec.C('b')), 1, 0))), ab, ab+"c"+ab, a)
			// length of a literal
			s := alphaStr(n)
			is = 'l'
			add(spec.G(spec.Cat(spec.C('q'), spec.S(s))), "q"+s, "q "+s, "q"+s[:n-1], "q"+s[:n-1]+"!", "q"+s[1:])
			add(spec.G(spec.Cat(spec.C('q'), spec.Op(spec.S("-")), spec.Cs(s), spec.E())), "q"+s, "q"+s[:n-1], "q"+s[:n/2]+"!"+s[n/2:], "q-"+s+"a")
			add(spec.G(spec.Cat(spec.Bl(spec.Cs("o"+s), spec.Cs("e"+s), []*rule{spec.Cs("x" + s)}, spec.Cs(s+"z"), false), spec.Op(spec.C('b')))), "o"+s+"-"+s+"zb", "o"+s+s, "o"+s+"e"+s+s+"z"+s+"z", "o"+s+"x"+s+s+"z", "o"+s+"x"+s[:n-1]+s+"zb", "o"+s[:n-1])
			for _, l := range []*rule{spec.Cs(s), spec.S(s), spec.Cat(spec.Op(spec.Cs(s)), spec.Cs(s[:n-1])), spec.Alt(spec.Cs(s), spec.S(s[:n-1]), spec.C('a'))} {
				add(spec.G(l), s, s+"b", s[:n-1], s[:n-1]+"!", " "+s, s[:n/2]+" "+s[n/2:])
			}
			// numbers of a bound
			is = 'r'
			add(spec.G(spec.Cat(spec.Re(spec.C('a'), n, 0), spec.Op(spec.C('b')))), rp("a", n-1), a, a+"b", a+"a")
			add(spec.G(spec.Cat(spec.Re(spec.S("a"), 1, n), spec.C('b'))), rp("a", n-1)+"b", a+"b", a+"ab")
		}
		if n <= 1025 {
			// number of items and alternatives
			var seq, opt, alt []*rule
			for i := 0; i < n; i++ {
				seq = append(seq, spec.C(letter(i)))
				opt = append(opt, spec.Op(spec.C(letter(i))))
				alt = append(alt, spec.Cs(fmt.Sprintf("%c%d", letter(i), i)))
			}
			s := alphaStr(n)
			is = 'q'
			add(spec.G(spec.Cat(seq...)), s, s[:n-1], s[:n-1]+"!", " "+s)
			add(spec.G(spec.Cat(opt...)), s, s[1:], s[n-1:], "")
			last := string(alt[n-1].S)
			var gs [][]*rule
			for _, r := range alt {
				gs = append(gs, []*rule{r})
			}
			is = 'c'
			for _, r := range []*rule{spec.Alt(alt...), spec.Ord(gs...), spec.Ord(alt[:n/2], alt[n/2:])} {
				add(spec.G(r), last, last[:len(last)-1], "a0", string(alt[n/2].S), "a")
			}
			// depth: brackets in the text, chains of names, nested rules
			is = 'd'
			add(spec.NewGrammar().Def("r", spec.Cat(spec.C('('), spec.Op(spec.N("r")), spec.C(')'))).Def("x", spec.N("r")), rp("(", n)+rp(")", n), rp("(", n)+rp(")", n-1), rp("( ", n)+rp(") ", n), rp("(", n)+"a"+rp(")", n))
			g := spec.NewGrammar()
			for i := 0; i < n; i++ {
				name := "r"
				if i > 0 {
					name = fmt.Sprintf("n%d", i)
				}
				if i == n-1 {
					g.Def(name, spec.Cs("ab"))
				} else if i%3 == 1 {
					g.Def(name, spec.Ord([]*rule{spec.N(fmt.Sprintf("n%d", i+1))}, []*rule{spec.C('c')}))
				} else {
					g.Def(name, spec.N(fmt.Sprintf("n%d", i+1)))
				}
			}
			add(g, "ab", "a", "c", " ab", "abab")
		}
		if n <= 257 {
			r := spec.Cat(spec.C('a'), spec.S("b"))
			q := spec.Alt(spec.C('a'), spec.Cs("ab"))
			for i := 0; i < n; i++ {
				r = spec.Gr(r)
				if i%2 == 0 {
					q = spec.Cat(spec.Gr(q), spec.Op(spec.C('c')))
				} else {
					q = spec.Alt(spec.Gr(q), spec.C('d'))
				}
			}
			add(spec.G(r), "ab", "a b", "a", " ab")
			add(spec.G(q), "ab", "abc", "a", "ab"+rp("c", n/2), "ab"+rp("c", n), "d", "dc")
		}
	}
	return out
}

// scale evaluates them as they are.
func (c *Ctx) scale(about string, mask int) { c.sweepLong("scale", famScale(about), flagSkip, mask) }

// scaleBy does f with each of them of which the text is not longer than max.
func (c *Ctx) scaleBy(kind string, max int, f func(w *W, p *Pair, t *Text) string) {
	ls := famScale("*")
	c.each(len(ls), func(w *W, i int) {
		p := mustPair(w, ls[i].g)
		if p == nil {
			return
		}
		if kind == "embed" && strings.Contains(p.Src, strings.Repeat("(", 40)) {
			return // every start fails with an error text which names all levels
		}
		for _, s := range ls[i].ts {
			if len(s) > max {
				continue
			}
			cs := Case{Kind: kind, Src: p.Src, Rule: "r", Text: s, Flag: spec.Skip}
			w.do(&cs, func() string { return f(w, p, mkText(s)) })
			if c.stop.Load() {
				return
			}
		}
	})
	c.sample(map[string]string{"family": "scale", "size": fmt.Sprintf("%d grammars", len(ls))})
}
