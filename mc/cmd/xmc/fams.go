package main

import (
	"strings"

	"xmc/spec"
)

type rule = spec.Rule

var (
	flagsAll = []int{spec.NoSkipHint, spec.Skip, spec.NeverSkip}
	flagsTwo = []int{spec.Skip, spec.NoSkipHint}
	flagSkip = []int{spec.Skip}
)

const aTree = aAccept | aExtent | aStruct

// asItem makes r usable as an item of a sequence or choice.
func asItem(r *rule) *rule {
	if r.K == spec.Choice || r.K == spec.Concat {
		return spec.Gr(r)
	}
	return r
}

// contexts a rule is used in
var contexts = []func(*rule) *rule{
	func(r *rule) *rule { return r },
	func(r *rule) *rule { return spec.Cat(asItem(r), spec.C('a')) },
	func(r *rule) *rule { return spec.Cat(spec.C('b'), asItem(r), spec.Cs("ab")) },
	func(r *rule) *rule { return spec.Cat(spec.Op(r), spec.C('a'), spec.C('b')) },
	func(r *rule) *rule { return spec.Re(r, 0, 0) },
	func(r *rule) *rule { return spec.Ord([]*rule{asItem(r)}, []*rule{spec.Cs("aab")}) },
}

// tuples calls f with every list of k items of pool.
func tuples(pool []*rule, k int, f func([]*rule)) {
	cur := make([]*rule, k)
	var rec func(i int)
	rec = func(i int) {
		if i == k {
			f(append([]*rule(nil), cur...))
			return
		}
		for _, r := range pool {
			cur[i] = r
			rec(i + 1)
		}
	}
	rec(0)
}

// joins calls f with every choice made of the items in this order.
func joins(k []*rule, f func(*rule)) {
	for m := 0; m < 1<<(len(k)-1); m++ {
		groups := [][]*rule{{k[0]}}
		for i := 1; i < len(k); i++ {
			if m>>(i-1)&1 == 1 {
				groups = append(groups, []*rule{k[i]})
			} else {
				groups[len(groups)-1] = append(groups[len(groups)-1], k[i])
			}
		}
		f(spec.Ord(groups...))
	}
}

func inContexts(rs []*rule, n int) []*rule {
	var out []*rule
	for _, r := range rs {
		for _, c := range contexts[:n] {
			out = append(out, c(r))
		}
	}
	return out
}

// famRefs: grammars of two rules which refer to each other.
func famRefs(rc, xc int) []*spec.Grammar {
	gr := &Gen{Terms: []*rule{spec.C('a'), spec.C('b'), spec.N("x")}, Wrap: []func(*rule) *rule{wOption, repAny}, Bars: true, Orders: true, Seqs: true}
	gx := &Gen{Terms: []*rule{spec.C('a'), spec.Cs("ab"), spec.N("r")}, Wrap: []func(*rule) *rule{wOption, wGroup}, Bars: true, Seqs: true}
	var out []*spec.Grammar
	for _, r := range gr.UpTo(rc) {
		for _, x := range gx.UpTo(xc) {
			g := spec.NewGrammar().Def("r", r).Def("x", x)
			if !g.LeftRecursive() {
				out = append(out, g)
			}
		}
	}
	return out
}

// famLook: rules whose alternatives read ahead different distances.
func famLook(cost int) []*rule {
	g := &Gen{Terms: []*rule{spec.C('a'), spec.Cs("ab"), spec.Cs("aab"), spec.C('b')}, Wrap: []func(*rule) *rule{wOption, repAny}, Bars: true, Seqs: true}
	return g.UpTo(cost)
}

// longCase is a rule with a handful of texts that fit or nearly fit it.
type longCase struct {
	g  *spec.Grammar
	ts []string
}

// nearly returns s, all its prefixes (sampled at every position for short s), and s with one
// character changed at every position.
func nearly(s string) []string {
	out := []string{s, s + "a", s + "z", " " + s, s + " "}
	for i := range s {
		out = append(out, s[:i])
		if s[i] < 0x80 {
			out = append(out, s[:i]+"z"+s[i+1:], s[:i]+" "+s[i:], s[:i]+s[i+1:])
		}
	}
	return out
}

func alphaStr(n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteByte(byte('a' + i%23))
	}
	return b.String()
}

func letter(i int) rune { return rune('a' + i%23) }

// famLong walks one dimension at a time far beyond the small bounds: arity, nesting, literal length,
// repetition count.
func famLong(max int) []longCase {
	var out []longCase
	add := func(r *rule, ts []string) { out = append(out, longCase{spec.G(r), ts}) }
	for n := 2; n <= max; n++ {
		var seq, str, opt, alt, ord, long []*rule
		for i := 0; i < n; i++ {
			seq = append(seq, spec.C(letter(i)))
			str = append(str, spec.S(string(letter(i))))
			opt = append(opt, spec.Op(spec.C(letter(i))))
			alt = append(alt, spec.Cs(alphaStr(i+1)))
			long = append(long, spec.Cs(alphaStr(n-i)))
		}
		for _, a := range alt {
			ord = append(ord, a)
		}
		s := alphaStr(n)
		add(spec.Cat(seq...), nearly(s))
		add(spec.Cat(str...), append(nearly(s), strings.Join(strings.Split(s, ""), " ")))
		add(spec.Cat(opt...), nearly(s))
		add(spec.Alt(alt...), nearly(s))
		add(spec.Alt(long...), nearly(s))
		var gs, gl [][]*rule
		for i := range ord {
			gs = append(gs, []*rule{ord[i]})
			gl = append(gl, []*rule{long[i]})
		}
		add(spec.Ord(gs...), nearly(s))
		add(spec.Ord(gl...), nearly(s))
		add(spec.Cs(s), nearly(s))
		add(spec.S(s), nearly(s))
		// nesting
		for _, w := range []func(*rule) *rule{wGroup, wOption, repAny, repTwo} {
			r := spec.C('a')
			for i := 0; i < n; i++ {
				if i%2 == 0 {
					r = spec.Gr(r)
				} else {
					r = w(r)
				}
			}
			if n <= 12 {
				add(r, []string{"", "a", "aa", "aaa", "aaaa", "b", " a", "ab", strings.Repeat("a", 8), strings.Repeat("a", 64)})
			}
		}
	}
	return out
}

func (c *Ctx) sweepLong(kind string, ls []longCase, flags []int, mask int) {
	c.each(len(ls), func(w *W, i int) {
		p := mustPair(w, ls[i].g)
		if p == nil {
			return
		}
		name := ls[i].g.Names[0]
		for _, s := range ls[i].ts {
			t := mkText(s)
			for _, f := range flags {
				cs := Case{Kind: "eval", Src: p.Src, Rule: name, Text: s, Flag: f, Extra: itoa(mask)}
				w.do(&cs, func() string { return w.evalRule(p, name, t, f, 0, mask) })
				if c.stop.Load() {
					return
				}
			}
		}
	})
	if len(ls) > 0 {
		l := ls[len(ls)-1]
		c.sample(map[string]string{"family": kind, "last grammar": clip(l.g.Src()), "last text": clip(l.ts[len(l.ts)-1])})
	}
}

// blocks enumerates block rules from parts.
func blocks(opens, escs []*rule, excls [][]*rule, closes []*rule) []*rule {
	var out []*rule
	for _, o := range opens {
		for _, e := range escs {
			for _, x := range excls {
				for _, cl := range closes {
					for _, v := range []bool{false, true} {
						out = append(out, spec.Bl(o, e, x, cl, v))
					}
				}
			}
		}
	}
	return out
}

func famBlocks(big bool) []*rule {
	opens := []*rule{spec.C('o'), spec.S(""), spec.Cs("oo"), spec.S("o")}
	escs := []*rule{nil, spec.C('e'), spec.Cs("ee")}
	excls := [][]*rule{nil, {spec.C('x')}, {spec.Cs("xc")}, {spec.C('x'), spec.Cs("xx")}}
	closes := []*rule{spec.C('c'), spec.Cs("cx"), spec.S("c"), spec.Gr(spec.Alt(spec.C('c'), spec.E()))}
	if big {
		opens = append(opens, spec.Op(spec.C('o')), spec.Gr(spec.Ord([]*rule{spec.Cs("ox")}, []*rule{spec.C('o')})))
		escs = append(escs, spec.Op(spec.C('e')), spec.Gr(spec.Alt(spec.C('e'), spec.C('x'))), spec.S("e"))
		excls = append(excls, []*rule{spec.C('e')}, []*rule{spec.Gr(spec.Alt(spec.C('x'), spec.Cs("cx")))}, []*rule{spec.Cs("oo"), spec.C('x')})
		closes = append(closes, spec.E(), spec.Cs("oc"), spec.Re(spec.C('c'), 1, 0), spec.Gr(spec.Cat(spec.C('x'), spec.C('c'))), spec.R('c', 'd'))
	}
	return blocks(opens, escs, excls, closes)
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	for ; n > 0; n /= 10 {
		s = string(rune('0'+n%10)) + s
	}
	return s
}
