package main

import (
	"xmc/spec"
)

// mixTerms has a rule of every kind: sticky and not, with white space in it, before it and after it,
// blocks, the end of the text and a reference.
func mixTerms() []*rule {
	return []*rule{spec.C('a'), spec.S("b"), spec.Cs("a "), spec.S(" a"), spec.R('\t', 'a'), spec.E(),
		spec.Bl(spec.S("a"), nil, nil, spec.C('b'), false), spec.Bl(spec.C('b'), spec.C('a'), nil, spec.S("b"), true), spec.N("x")}
}

// withX are the grammars of the rules, in which x is a choice.
func withX(rs []*rule) []*spec.Grammar {
	var out []*spec.Grammar
	for i, r := range rs {
		x := spec.Ord([]*rule{spec.S("ab")}, []*rule{spec.C('b'), spec.Cs("aa")})
		if i%2 == 1 {
			x = spec.Cat(spec.C('b'), spec.Op(spec.S("a")))
		}
		out = append(out, spec.NewGrammar().Def("r", r).Def("x", x))
	}
	return out
}

func mixGen() *Gen {
	return &Gen{Terms: mixTerms(), Wrap: []func(*rule) *rule{wGroup, wOption, repAny, repTwo}, Bars: true, Orders: true, Seqs: true}
}

// mixed compares rules of every kind mixed with each other.
func (c *Ctx) mixed(cost, n, mask int) {
	g := mixGen()
	c.sweep("mixed", withX(g.UpTo(cost)), "r", mkTexts(texts("ab ", n)), flagsAll, 0, mask)
	c.sweep("mixed-lines", withX(g.UpTo(cost-1)), "r", mkTexts(texts("a\n b", n)), flagsTwo, 1, mask)
}

// exclusions have several of them, which read ahead different distances, in every order.
func famExclusions() []*rule {
	var out []*rule
	pool := []*rule{spec.Cs("xyz"), spec.Cs("xy"), spec.Cs("yx"), spec.S("x"), spec.Cs("cx"), spec.Cs("xc"), spec.Op(spec.Cs("xyx")), spec.Gr(spec.Alt(spec.Cs("xyx"), spec.Cs("yy"))), spec.Cs("ey")}
	for _, e := range []*rule{nil, spec.C('e'), spec.Cs("ex")} {
		for _, cl := range []*rule{spec.C('c'), spec.Cs("xyc"), spec.Cs("cc"), spec.E()} {
			for k := 1; k <= 2; k++ {
				tuples(pool, k, func(t []*rule) {
					r := spec.Bl(spec.C('o'), e, t, cl, len(out)%2 == 1)
					out = append(out, r, spec.Cat(r, spec.C('c')))
				})
			}
		}
	}
	return out
}

func prefixed(pre string, ss []string) []*Text {
	var out []*Text
	for _, s := range ss {
		out = append(out, mkText(pre+s))
	}
	return out
}
