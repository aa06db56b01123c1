package main

import (
	"fmt"
	"strings"

	"xmc/spec"

	"github.com/cnsgfk/xbnf"
)

var assumeEval = []string{
	"the reference model in mc/spec states the meaning of the rule types; it was read off README, the doc comments and the pinned tests",
	"small scope: rules, texts and repetition counts up to the stated bounds, plus one-dimensional families far beyond them",
}

func init() {
	register(&prop{id: "C01", level: "model_checking", assume: assumeEval,
		rule: "every rule up to a cost over the operator alphabet (terminals, group, option, repetition, choice, sequence, references), x every text up to a length, x every leading-space flag; each evaluation is compared with the reference model on match, extent and tree",
		run: func(c *Ctx) {
			g := coreGen(ab()...)
			c.sweepLong("long", famLong(c.pick(16, 40)), flagsTwo, aTree)
			c.scale("*", aTree)
			c.sweep("core", single(g.UpTo(5)), "r", mkTexts(texts("ab ", c.pick(4, 5))), flagsAll, 0, aTree)
			c.sweep("lookahead", single(famLook(c.pick(5, 6))), "r", mkTexts(texts("ab", 6)), flagSkip, 0, aTree)
			c.sweep("references", famRefs(c.pick(3, 4), 3), "r", mkTexts(texts("ab", 4)), flagSkip, 0, aTree)
			c.sweep("core6", single(g.Any(6)), "r", mkTexts(texts("ab", 4)), flagSkip, 0, aTree)
			c.mixed(c.pick(5, 6), 4, aTree)
			c.whiteSeqs(aTree)
			if c.Thorough {
				c.sweep("core6", single(g.Any(6)), "r", mkTexts(texts("ab ", 5)), flagsAll, 0, aTree)
				c.sweep("core7", single(g.Any(7)), "r", mkTexts(texts("ab", 4)), flagSkip, 0, aTree)
			}
		},
		replay: replayEval})

	register(&prop{id: "C03", level: "model_checking", assume: assumeEval,
		rule: "every choice of 2..4 alternatives from a pool, joined by every pattern of | and >, in every context, x every text up to a length; wide choices up to 12 alternatives in every rotation",
		run:  runChoice, replay: replayEval})

	register(&prop{id: "C04", level: "model_checking", assume: assumeEval,
		rule: "every bound pair up to a limit x repeated rule x context x every text up to a length; large bounds on runs around the bound; every spelling of the bounds",
		run:  runRep, replay: replayEval})

	register(&prop{id: "C05", level: "model_checking", assume: assumeEval,
		rule: "every block from a pool of open, escape, exclude and close rules, with and without a reused close, alone and in a sequence, x every text up to a length over {open, escape, exclude, close, blank}",
		run:  runBlock, replay: replayEval})

	register(&prop{id: "C06", level: "model_checking", assume: assumeEval,
		rule: "every rule up to a cost over terminals that contain, start with or end with white space, sticky and non-sticky, x every text with blanks and newlines; every Unicode code point as white space or not",
		run:  runWhite, replay: replayWhite})

	register(&prop{id: "C08", level: "model_checking", assume: assumeEval,
		rule: "the families of the other evaluation checks on texts with newlines, from every start index, compared on the line and column of every node that has text; parsed trees at every simplification level",
		run:  runPos, replay: replayPos})

	register(&prop{id: "C19", level: "model_checking", assume: assumeEval[1:],
		rule: "every evaluation of the families is checked against the stream itself: chars read are exactly those the stream moved over, unused chars are their tail, nothing is used without a match",
		run:  runAccount, replay: replayEval})

	register(&prop{id: "C22", level: "model_checking", assume: assumeEval,
		rule: "every rule kind with every combination of the three marks, in every context, and through chains of references with every combination of marks",
		run:  runMarks, replay: replayEval})
}

func runChoice(c *Ctx) {
	pool := []*rule{spec.C('a'), spec.C('b'), spec.Cs("aa"), spec.Cs("ab"), spec.Cs("aab"), spec.S("a"),
		spec.Re(spec.C('a'), 1, 0), spec.Gr(spec.Cat(spec.C('a'), spec.C('b'))), spec.Op(spec.C('a')), spec.E()}
	var rs []*rule
	for k := 2; k <= 3; k++ {
		tuples(pool, k, func(t []*rule) { joins(t, func(r *rule) { rs = append(rs, r) }) })
	}
	c.sweep("small", single(inContexts(rs, len(contexts))), "r", mkTexts(texts("ab", 4)), flagsTwo, 0, aTree|aSticky)
	var wide []longCase
	for n := 4; n <= c.pick(10, 14); n++ {
		for rot := 0; rot < n; rot++ {
			for cut := 0; cut <= n; cut++ { // > before item cut; 0 = none; n = everywhere
				var groups [][]*rule
				for i := 0; i < n; i++ {
					it := spec.Cs(strings.Repeat("a", (i+rot)%n+1))
					if i == 0 || i == cut || cut == n {
						groups = append(groups, []*rule{it})
					} else {
						groups[len(groups)-1] = append(groups[len(groups)-1], it)
					}
				}
				var ts []string
				for l := 0; l <= n+1; l++ {
					ts = append(ts, strings.Repeat("a", l), strings.Repeat("a", l)+"b")
				}
				r := spec.Ord(groups...)
				wide = append(wide, longCase{spec.G(r), ts}, longCase{spec.G(spec.Cat(r, spec.C('b'))), ts}, longCase{spec.G(spec.Re(r, 0, 0)), ts})
			}
		}
	}
	c.sweepLong("wide", wide, flagSkip, aTree)
	c.scale("c", aTree)
	small := append(pool[:4:4], pool[6], pool[8])
	if c.Thorough {
		small = pool
	}
	rs = nil
	tuples(small, 4, func(t []*rule) { joins(t, func(r *rule) { rs = append(rs, r) }) })
	c.sweep("four", single(inContexts(rs, c.pick(2, 4))), "r", mkTexts(texts("ab", 4)), flagSkip, 0, aTree)
	// choices of choices
	g := &Gen{Terms: []*rule{spec.C('a'), spec.Cs("aa"), spec.Cs("ab"), spec.C('b')}, Wrap: []func(*rule) *rule{wGroup}, Bars: true, Orders: true}
	c.sweep("nested", single(g.UpTo(c.pick(6, 8))), "r", mkTexts(texts("ab", 3)), flagSkip, 0, aTree)
	// alternatives of every kind
	rs = nil
	for k := 2; k <= 3; k++ {
		tuples(append(mixTerms(), spec.Op(spec.C('b')), spec.Re(spec.S("a"), 1, 0), spec.S("")), k, func(t []*rule) { joins(t, func(r *rule) { rs = append(rs, r) }) })
	}
	c.sweep("kinds", withX(inContexts(rs, 4)), "r", mkTexts(texts("ab ", 4)), flagsTwo, 0, aTree|aSticky)
	c.mixed(c.pick(4, 5), 4, aTree|aSticky)
}

func runRep(c *Ctx) {
	pool := []*rule{spec.C('a'), spec.Cs("ab"), spec.Alt(spec.C('a'), spec.C('b')), spec.Cat(spec.C('a'), spec.Op(spec.C('b'))),
		spec.Op(spec.C('a')), spec.S("a"), spec.Re(spec.C('a'), 1, 2), spec.Alt(spec.C('a'), spec.Cs("ab")), spec.S(""), spec.R('a', 'b')}
	lim := c.pick(4, 6)
	var rs []*rule
	for _, in := range pool {
		for lo := 0; lo <= lim; lo++ {
			rs = append(rs, spec.Re(in, lo, 0))
			for hi := lo; hi <= lim+1; hi++ {
				if hi > 0 {
					rs = append(rs, spec.Re(in, lo, hi))
				}
			}
		}
		rs = append(rs, spec.Op(in))
	}
	all := inContexts(rs, len(contexts))
	for _, r := range rs {
		all = append(all, spec.Re(r, 2, 2), spec.Re(r, 0, 2), spec.Cat(r, spec.Cs("ab"), spec.C('b')), spec.Cat(spec.Op(spec.Cs("aaab")), r))
	}
	c.sweep("bounds", single(all), "r", mkTexts(texts("ab", 7)), flagsTwo, 0, aTree|aSticky)
	c.sweep("blanks", single(all), "r", mkTexts(texts("a ", 5)), flagsAll, 0, aTree|aSticky)
	// repeated rules of every kind
	var kinds []*rule
	mg := mixGen()
	for _, in := range mg.UpTo(3) {
		for _, b := range [][2]int{{0, 0}, {1, 0}, {0, 1}, {2, 0}, {2, 2}, {1, 3}, {3, 0}} {
			kinds = append(kinds, spec.Re(in, b[0], b[1]))
		}
		kinds = append(kinds, spec.Op(in))
	}
	n := len(kinds)
	for i, r := range kinds[:n] {
		switch i % 3 {
		case 0:
			kinds = append(kinds, spec.Cat(r, spec.C('b')))
		case 1:
			kinds = append(kinds, spec.Cat(spec.S("b"), r, spec.C('a')))
		case 2:
			kinds = append(kinds, spec.Re(r, 2, 2))
		}
	}
	c.sweep("kinds", withX(kinds), "r", mkTexts(texts("ab ", 5)), flagsTwo, 0, aTree|aSticky)
	// far bounds
	var far []longCase
	for _, n := range []int{9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025} {
		var ts []string
		for _, l := range []int{0, 1, n - 1, n, n + 1, n + 2, 2 * n} {
			ts = append(ts, strings.Repeat("a", l), strings.Repeat("ab", l), strings.Repeat("a", l)+"b")
		}
		for _, in := range pool[:4] {
			for _, b := range [][2]int{{n, n}, {0, n}, {n, 0}, {1, n}, {n, n + 1}, {0, 0}, {1, 0}} {
				far = append(far, longCase{spec.G(spec.Re(in, b[0], b[1])), ts})
			}
		}
	}
	// bounds around the limits of number types, with few items (and with as many, where they can be had)
	for _, e := range []uint{15, 16, 24, 31, 32} {
		for d := -3; d <= 3; d++ {
			b := 1<<e + d
			if b > 1<<32-1 {
				break
			}
			ts := []string{"", "a", "aa", "aaaa", "aaaaab", "b"}
			if e <= 16 {
				for k := -1; k <= 1; k++ {
					ts = append(ts, strings.Repeat("a", b+k))
				}
			}
			for _, in := range []*rule{spec.C('a'), spec.S("a"), spec.Alt(spec.C('a'), spec.Cs("aab"))} {
				for _, r := range []*rule{spec.Re(in, 0, b), spec.Re(in, 1, b), spec.Re(in, b, 0), spec.Re(in, b, b), spec.Re(in, b-1, b), spec.Re(in, 3, b)} {
					far = append(far, longCase{spec.G(r), ts})
				}
				far = append(far, longCase{spec.G(spec.Cat(spec.Re(in, 2, b), spec.Op(spec.C('b')))), ts[:6]}, longCase{spec.G(spec.Re(spec.Gr(spec.Re(in, 0, b)), 1, 3)), ts[:6]})
			}
		}
	}
	c.sweepLong("far", far, flagSkip, aTree)
	c.scale("r", aTree)
	// every spelling
	var sp []longCase
	for _, s := range []string{"{'a'}", "{'a'}*", "{'a'}+", "{'a'}<3>", "{'a'}<3,>", "{'a'}<,3>", "{'a'}<,>", "{'a'}<>", "{'a'}< 2 , 3 >", "{'a'}<2,0>", "{'a'}<0,2>", "{'a'}<0,0>", "{'a'}<1,1>", "{'a'}<1 0,12>", "{'a'}<002,03>", "{'a'}<\t2,\t3\t>", "{ 'a' }+ 'a'", "{ 'a' }* 'b'", "{'a'} <'b' 'b'>", "{'a'}<010,>", "{'a'}<010>", "{'a'}<08,09>", "{'a'}<,010>", "{'a'}<,0012>", "{'a'}<007,010>", "{'a'}<000,000>", "{'a'}<0 10,0 11>", "{'a'}<2,3>'b'", "{'a'}+'b'", "[{'a'}+]'b'"} {
		m, err := spec.ParseGrammar("r = " + s)
		if err != nil {
			panic(s)
		}
		var ts []string
		for l := 0; l <= 14; l++ {
			ts = append(ts, strings.Repeat("a", l), strings.Repeat("a", l)+"b", strings.Repeat("a", l)+"bb")
		}
		sp = append(sp, longCase{m, ts})
		c.spelled("r = "+s, ts)
	}
}

// spelled compares on a grammar given by its source (not by the model's own printing).
func (c *Ctx) spelled(src string, ts []string) {
	c.each(1, func(w *W, _ int) {
		var p *Pair
		cs := Case{Kind: "grammar", Src: src}
		w.do(&cs, func() string {
			var msg string
			p, msg = pairFromSrc(src)
			return msg
		})
		if p == nil {
			return
		}
		for _, s := range ts {
			t := mkText(s)
			for _, f := range flagsAll {
				cs := Case{Kind: "eval", Src: src, Rule: p.M.Names[0], Text: s, Flag: f, Extra: itoa(aTree)}
				w.do(&cs, func() string { return w.evalRule(p, cs.Rule, t, f, 0, aTree) })
			}
		}
	})
}

func blockContexts(rs []*rule) []*rule {
	var out []*rule
	for _, r := range rs {
		out = append(out, r, spec.Cat(r, spec.C('c')), spec.Cat(spec.Op(r), spec.C('o')), spec.Re(r, 0, 0))
	}
	return out
}

func runBlock(c *Ctx) {
	rs := blockContexts(famBlocks(false))
	c.sweep("block", single(rs), "r", mkTexts(texts("oexc", c.pick(5, 6))), flagSkip, 0, aTree)
	c.sweep("blanks", single(rs), "r", mkTexts(texts("oc x", c.pick(4, 5))), flagsAll, 0, aTree|aSticky)
	c.sweep("more", single(famBlocks(true)), "r", mkTexts(texts("oexc", c.pick(4, 6))), flagSkip, 0, aTree)
	if c.Thorough {
		c.sweep("more-contexts", single(blockContexts(famBlocks(true))), "r", mkTexts(texts("oexc", 5)), flagSkip, 0, aTree)
	}
	c.sweep("exclusions", single(famExclusions()), "r", prefixed("o", append(texts("xyc", 5), texts("xyec", 4)...)), flagSkip, 0, aTree)
	// parts of every kind
	var kinds []*rule
	pool := []*rule{spec.C('a'), spec.S("b"), spec.Cs("a "), spec.S(" a"), spec.R('\t', 'a'), spec.E(), spec.N("x"), spec.Op(spec.C('b')), spec.Re(spec.S("a"), 1, 2), spec.Cs("  "), spec.Bl(spec.C('a'), nil, nil, spec.C('b'), true)}
	for _, o := range pool {
		for _, k := range pool {
			v := len(kinds)%2 == 0
			kinds = append(kinds, spec.Bl(o, nil, nil, k, v), spec.Bl(o, nil, nil, k, !v))
			for _, e := range pool {
				kinds = append(kinds, spec.Bl(o, e, nil, k, v), spec.Bl(o, nil, []*rule{e}, k, !v))
			}
		}
	}
	for i, r := range kinds {
		switch i % 4 {
		case 0:
			kinds = append(kinds, spec.Cat(r, spec.C('b')), spec.Cat(spec.S("a"), r))
		case 1:
			kinds = append(kinds, spec.Cat(spec.Op(r), spec.C('a')))
		case 2:
			kinds = append(kinds, spec.Re(r, 0, 0))
		}
	}
	c.sweep("kinds", withX(kinds), "r", mkTexts(texts("ab ", 5)), flagsTwo, 0, aTree|aSticky)
	c.mixed(c.pick(4, 5), 4, aTree|aSticky)
	// long contents, many excludes, long delimiters
	var far []longCase
	for n := 1; n <= c.pick(40, 130); n++ {
		var ex []*rule
		for i := 0; i < n%9; i++ {
			ex = append(ex, spec.Cs("x"+alphaStr(i+1)))
		}
		op, cl := spec.Cs(strings.Repeat("o", n%7+1)), spec.Cs(strings.Repeat("c", n%7+2))
		content := strings.Repeat("ocx\n ", n)
		for _, e := range []*rule{nil, spec.C('e')} {
			r := spec.Bl(op, e, ex, cl, n%2 == 0)
			o, k := string(op.S), string(cl.S)
			far = append(far, longCase{spec.G(r), []string{o + content + k, o + content + "e" + k + k, o + content + k + "z", content + k, o + content,
				o + content + "xab" + k, o + "exab" + content + k, o + content + k[1:], " " + o + content + k + content, o + k, o + "ee" + k}})
		}
	}
	c.sweepLong("long", far, flagsTwo, aTree)
	c.scale("b", aTree)
}

func wsTerms() []*rule {
	return []*rule{spec.C('a'), spec.C(' '), spec.S("a"), spec.Cs("a "), spec.Cs(" a"), spec.S(" a"), spec.R('a', 'b'), spec.R('\t', ' '), spec.E(), spec.C('\n'), spec.Cs("aa"), spec.S("")}
}

// whiteKinds are terminals over several white characters, and texts which mix them.
func (c *Ctx) whiteKinds(mask int) {
	var ts, rs []*rule
	for _, x := range "\t\r\n " {
		y := string(x)
		ts = append(ts, spec.C(x), spec.R(x, x), spec.Cs(y+y), spec.Cs(y+"a"), spec.Cs("a"+y), spec.S(y+"a"))
	}
	ts = append(ts, spec.R('\t', '\r'), spec.R('\n', ' '), spec.Cs("\r\n"), spec.S("\r\na"), spec.S("\r\n"), spec.C('a'), spec.S("a"), spec.S(""), spec.E())
	rs = append(rs, ts...)
	for _, t := range ts {
		rs = append(rs, spec.Re(t, 0, 0), spec.Op(t), spec.Alt(t, spec.S("a\n")), spec.Cat(spec.S(""), t))
	}
	c.sweep("white-kinds", single(rs), "r", mkTexts(texts("\t\r\n a", 5)), flagSkip, 0, mask)
	rs = nil
	tuples(ts, 2, func(t []*rule) { rs = append(rs, spec.Cat(t...)) })
	c.sweep("white-pairs", single(rs), "r", mkTexts(texts("\t\r\n a", 4)), flagSkip, 0, mask)
}

// whiteSeqs are sequences of terminals which have white space in them.
func (c *Ctx) whiteSeqs(mask int) {
	terms := wsTerms()
	var rs []*rule
	for k := 1; k <= 3; k++ {
		tuples(terms, k, func(t []*rule) {
			if k == 1 {
				rs = append(rs, t[0])
			} else {
				rs = append(rs, spec.Cat(t...))
			}
		})
	}
	c.sweep("sequences", single(rs), "r", mkTexts(texts("a \n", 4)), flagsAll, 0, mask)
}

func runWhite(c *Ctx) {
	const mask = aTree | aSticky
	terms := wsTerms()
	var rs []*rule
	c.whiteSeqs(mask)
	c.whiteKinds(mask)
	c.mixed(c.pick(5, 6), 4, mask)
	g := &Gen{Terms: append(terms[:6:6], terms[8]), Wrap: []func(*rule) *rule{wGroup, wOption, repAny}, Bars: true, Orders: true, Seqs: true}
	c.sweep("operators", single(g.UpTo(c.pick(4, 5))), "r", mkTexts(texts("a \n", c.pick(3, 4))), flagsAll, 0, mask)
	// stickiness between items: sticky or not, optional present or not
	it := []*rule{spec.C('a'), spec.S("b"), spec.Op(spec.C('a')), spec.Op(spec.S("b")), spec.Re(spec.C('a'), 0, 0), spec.Re(spec.S("b"), 0, 0),
		spec.Gr(spec.Alt(spec.C('a'), spec.S("b"))), spec.Gr(spec.Cat(spec.C('a'), spec.C('b'))), spec.Bl(spec.C('a'), nil, nil, spec.C('b'), false)}
	rs = nil
	for k := 2; k <= c.pick(3, 4); k++ {
		tuples(it, k, func(t []*rule) { rs = append(rs, spec.Cat(t...)) })
	}
	c.sweep("stickiness", single(rs), "r", mkTexts(texts("ab ", c.pick(5, 5))), flagsTwo, 0, mask)
	// every white space character in every place of a literal
	var sp []longCase
	var white []rune
	for r := rune(0); r <= 0x10FFFF; r++ {
		if spec.White(r) {
			white = append(white, r)
		}
	}
	for _, x := range white {
		for _, y := range []rune{' ', x, '\u3000'} {
			var ts []string
			for _, pre := range []string{"", string(x), string(y), string(x) + string(y), string(y) + string(x)} {
				for _, mid := range []string{"", string(x), string(y), string(y) + string(x)} {
					ts = append(ts, pre+"a"+mid+"b", pre+"a"+mid, pre+"ab"+mid, pre)
				}
			}
			for _, r := range []*rule{spec.C(x), spec.Cat(spec.C('a'), spec.C(x)), spec.Cs(string(x) + "a"), spec.S(string(x) + "a"), spec.S("a" + string(x)), spec.Cat(spec.S("a"), spec.C('b')), spec.Cat(spec.C('a'), spec.S("b")),
				spec.Cat(spec.C('a'), spec.C('b')), spec.R(x, x), spec.R(0, x), spec.R(x, 0xFFFF), spec.Cat(spec.S("a"), spec.R(x, x)), spec.Cat(spec.S("a"), spec.E())} {
				sp = append(sp, longCase{spec.G(r), ts})
			}
		}
	}
	c.sweepLong("every-white-space", sp, flagsAll, mask)
	c.scale("w", mask)
	// from one top node to the next
	pool := []*rule{spec.C('a'), spec.S("b"), spec.Cs("ab"), spec.Cs("a "), spec.S("a b"), spec.R('a', 'b'), spec.Op(spec.S("b")), spec.Re(spec.C('a'), 1, 0), spec.Re(spec.S("b"), 1, 0),
		spec.Cat(spec.S("b"), spec.C('a')), spec.Cat(spec.C('a'), spec.S("b")), spec.Bl(spec.S("b"), nil, nil, spec.C('a'), false), spec.Bl(spec.C('a'), nil, nil, spec.C(' '), true), spec.C(' '), spec.Cat(spec.C('b'), spec.Op(spec.Cs("aa")))}
	var gs []*spec.Grammar
	for k := 1; k <= c.pick(2, 3); k++ {
		tuples(pool, k, func(t []*rule) { gs = append(gs, roots(t...)) })
	}
	c.sweepParse("top-nodes", gs, mkTexts(texts("ab ", c.pick(6, 6))), 1)
	c.whiteAll()
}

func runPos(c *Ctx) {
	const mask = aPos
	c.everyChar("char", 0x10ffff, (*W).charPlaces)
	c.scale("*", mask)
	c.whiteKinds(mask)
	g := &Gen{Terms: []*rule{spec.C('a'), spec.Cs("aa"), spec.S("a"), spec.C('\n'), spec.R('a', 'b')}, Wrap: []func(*rule) *rule{wGroup, wOption, repAny}, Bars: true, Seqs: true}
	c.sweep("core", single(g.UpTo(c.pick(4, 5))), "r", mkTexts(texts("a \n", c.pick(4, 5))), flagsAll, 2, mask)
	var rs []*rule
	for k := 2; k <= 3; k++ {
		tuples(wsTerms(), k, func(t []*rule) { rs = append(rs, spec.Cat(t...)) })
	}
	c.sweep("white", single(rs), "r", mkTexts(texts("a \n", 4)), flagsAll, 1, mask)
	c.sweep("lookahead", single(famLook(4)), "r", mkTexts(texts("ab", 6)), flagSkip, 1, mask)
	c.sweep("blocks", single(blockContexts(famBlocks(false))), "r", mkTexts(texts("oc\n", c.pick(5, 6))), flagSkip, 1, mask)
	c.sweep("blocks-more", single(famBlocks(true)), "r", mkTexts(texts("oec\n", c.pick(4, 5))), flagsTwo, 1, mask)
	// blocks which open with line breaks
	var open []*rule
	for _, o := range []*rule{spec.C('\n'), spec.S("\n"), spec.Cs("o\n"), spec.S("o\no"), spec.Cs("\n\n"), spec.Gr(spec.Cat(spec.C('o'), spec.S("\n"))), spec.Gr(spec.Re(spec.R('\n', 'o'), 1, 2)), spec.Gr(spec.Alt(spec.Cs("\no"), spec.C('o')))} {
		for _, cl := range []*rule{spec.C('c'), spec.Cs("\nc"), spec.S("c"), spec.C('\n')} {
			for i := 0; i < 8; i++ {
				var e *rule
				var x []*rule
				if i&1 > 0 {
					e = spec.C('e')
				}
				if i&2 > 0 {
					x = []*rule{spec.Cs("oo"), spec.C('x')}
				}
				open = append(open, spec.Bl(o, e, x, cl, i&4 > 0))
			}
		}
	}
	c.sweep("blocks-lines", single(blockContexts(open)), "r", mkTexts(texts("oc\n", c.pick(5, 6))), flagSkip, 1, mask)
	// embedded evaluations: every place is reached after characters were pushed back
	for k := 1; k <= 2; k++ {
		tuples(append(wsTerms(), spec.S(""), spec.Op(spec.S("")), spec.Re(spec.S(""), 1, 0), spec.R(' ', 'z')), k, func(t []*rule) { rs = append(rs, spec.Cat(append([]*rule{spec.S("")}, t...)...)) })
	}
	et := mkTexts(texts("a \n", 4))
	rs = append(rs, g.UpTo(4)...)
	c.each(len(rs), func(w *W, i int) {
		p := mustPair(w, spec.G(rs[i]))
		if p == nil {
			return
		}
		for _, t := range et {
			cs := Case{Kind: "posembed", Src: p.Src, Text: t.S}
			w.do(&cs, func() string { return w.posEmbed(p, t) })
		}
	})
	gs, ts := c.annotated()
	ts = append(mkTexts(texts("ab\n", 4)), ts[len(ts)-5:]...)
	c.levels("poslevel", gs, ts, (*W).posLevel)
	// long lines and many lines, from many starts
	var far []longCase
	item := spec.Ord([]*rule{spec.Cs("aa")}, []*rule{spec.C('a')}, []*rule{spec.C('\n')}, []*rule{spec.S("b")}, []*rule{spec.Bl(spec.C('o'), nil, nil, spec.C('c'), false)})
	for n := 0; n <= c.pick(90, 300); n++ {
		var ts []string
		ts = append(ts, strings.Repeat("a\n", n)+"a", strings.Repeat("\n", n)+"a", strings.Repeat("a", n)+"\na", strings.Repeat(" ", n)+"b\n b", strings.Repeat("b \n ", n)+"aab",
			"o"+strings.Repeat("\nx", n)+"c a", "o"+strings.Repeat("x", n)+"c\naab")
		far = append(far, longCase{spec.G(spec.Re(item, 0, 0)), ts}, longCase{spec.G(spec.Cat(spec.Re(item, 0, 0), spec.E())), ts})
	}
	for i := range far {
		c.sweepStarts("long", far[i:i+1], mask)
	}
}

// posLevel checks the positions of a simplified tree.
func (w *W) posLevel(p *Pair, t *Text, level int) string {
	ast, err := p.R.Eval(xbnf.NewCharstreamFromString(t.S), level)
	ev := spec.Ev{G: p.M, T: t.R}
	m := ev.Parse()
	w.states++
	w.trans += int64(ev.Steps)
	w.traces++
	if err != nil || !m.Ok {
		return ""
	}
	want := spec.Simplify(m.Nodes, level)
	if len(want) != len(ast.Nodes) {
		return ""
	}
	for i := range want {
		if d := diffMask(ast.Nodes[i], want[i], t.LC, aPos); d != "" {
			return fmt.Sprintf("level %d: %s", level, d)
		}
	}
	return ""
}

// posEmbed checks the positions of an embedded evaluation.
func (w *W) posEmbed(p *Pair, t *Text) string {
	ev := spec.Ev{G: p.M, T: t.R}
	m := ev.Embed("r")
	r := p.R.EvalEmbed("r", t.S)
	w.states++
	w.trans += int64(ev.Steps)
	w.traces++
	if r.Node == nil {
		return ""
	}
	return diffMask(r.Node, m, t.LC, aPos)
}

func replayPos(w *W, c Case) string {
	if c.Kind == "char" {
		return w.charPlaces(caseRune(c))
	}
	if c.Kind == "posembed" {
		p, msg := pairFromSrc(c.Src)
		if p == nil {
			return msg
		}
		return w.posEmbed(p, mkText(c.Text))
	}
	if c.Kind == "poslevel" {
		p, msg := pairFromSrc(c.Src)
		if p == nil {
			return msg
		}
		return w.posLevel(p, mkText(c.Text), c.Flag-1)
	}
	return replayEval(w, c)
}

func (c *Ctx) sweepStarts(kind string, ls []longCase, mask int) {
	for _, l := range ls {
		ts := mkTexts(l.ts)
		c.each(len(ts), func(w *W, i int) {
			p := mustPair(w, l.g)
			if p == nil {
				return
			}
			t := ts[i]
			for st := 0; st <= len(t.R); st += 1 + len(t.R)/7 {
				for _, f := range flagsTwo {
					cs := Case{Kind: "eval", Src: p.Src, Rule: "r", Text: t.S, Flag: f, Start: st, Extra: itoa(mask)}
					w.do(&cs, func() string { return w.evalRule(p, "r", t, f, st, mask) })
				}
			}
		})
	}
}

func runAccount(c *Ctx) {
	const mask = aAccount
	c.sweepLong("long", famLong(c.pick(12, 30)), flagsTwo, mask)
	c.scale("*", mask)
	c.whiteKinds(mask)
	c.sweep("core", single(coreGen(ab()...).UpTo(5)), "r", mkTexts(texts("ab ", c.pick(4, 5))), flagsTwo, 0, mask)
	c.sweep("lookahead", single(famLook(c.pick(5, 6))), "r", mkTexts(texts("ab", 6)), flagSkip, 1, mask)
	c.sweep("blocks", single(blockContexts(famBlocks(false))), "r", mkTexts(texts("oexc", c.pick(4, 6))), flagSkip, 1, mask)
	c.sweep("blocks-more", single(famBlocks(true)), "r", mkTexts(texts("oexc", c.pick(4, 6))), flagsTwo, 0, mask)
	g := &Gen{Terms: wsTerms(), Wrap: []func(*rule) *rule{wGroup, wOption, repAny, repTwo}, Bars: true, Orders: true, Seqs: true}
	c.sweep("white", single(g.UpTo(c.pick(3, 4))), "r", mkTexts(texts("a \n", 4)), flagsAll, 1, mask)
	c.sweep("references", famRefs(3, 3), "r", mkTexts(texts("ab", 4)), flagSkip, 0, mask)
	c.sweep("lookahead-blanks", single(famLook(c.pick(4, 5))), "r", mkTexts(texts("ab ", 5)), flagsAll, 0, mask)
	c.mixed(c.pick(4, 5), 4, mask)
	c.sweep("exclusions", single(famExclusions()), "r", prefixed("o", append(texts("xyc", 5), texts("xyec", 4)...)), flagSkip, 0, mask)
}

func runMarks(c *Ctx) {
	const mask = aTree | aMarks
	a := spec.C('a')
	kinds := []*rule{a, spec.R('a', 'b'), spec.Cs("aa"), spec.S("a"), spec.E(), spec.N("x"), spec.Gr(a), spec.Op(a), spec.Re(a, 0, 0),
		spec.Bl(a, nil, nil, spec.C('b'), false), spec.Gr(spec.Alt(a, spec.C('b'))), spec.Gr(spec.Cat(a, spec.C('b')))}
	x := func(m int) *rule { return spec.Gr(spec.Alt(spec.C('a'), spec.Cs("ab"))).Ann(m) }
	var gs []*spec.Grammar
	for _, k := range kinds {
		for m := 0; m < 8; m++ {
			for _, ctx := range contexts {
				for _, m2 := range []int{0, 5, 7} {
					gs = append(gs, spec.NewGrammar().Def("r", ctx(k.Ann(m))).Def("x", x(m2)))
				}
			}
			// both a mark outside and inside
			for m2 := 0; m2 < 8; m2++ {
				for _, w := range []func(*rule) *rule{wGroup, wOption, repAny} {
					gs = append(gs, spec.NewGrammar().Def("r", w(k.Ann(m)).Ann(m2)).Def("x", x(1)))
				}
				gs = append(gs, spec.NewGrammar().Def("r", spec.Cat(k.Ann(m), spec.Gr(k).Ann(m2))).Def("x", x(2)))
				gs = append(gs, spec.NewGrammar().Def("r", spec.Alt(k.Ann(m), spec.Cs("ab").Ann(m2))).Def("x", x(2)))
				gs = append(gs, spec.NewGrammar().Def("r", spec.Bl(spec.C('a').Ann(m), spec.C('b').Ann(m2), nil, k.Ann(m2), false)).Def("x", x(2)))
			}
		}
	}
	// chains of references: every mark toggles
	for m0 := 0; m0 < 8; m0++ {
		for m1 := 0; m1 < 8; m1++ {
			for m2 := 0; m2 < 8; m2++ {
				for _, k := range []*rule{spec.C('a'), spec.S("a"), spec.Re(spec.C('a'), 0, 0), spec.Gr(spec.Alt(spec.C('a'), spec.Cs("ab"))), spec.E()} {
					gs = append(gs, spec.NewGrammar().Def("r", spec.N("x").Ann(m0)).Def("x", spec.N("y").Ann(m1)).Def("y", k.Ann(m2)),
						spec.NewGrammar().Def("r", spec.Cat(spec.N("x").Ann(m0), spec.N("x").Ann(m1), spec.N("x"))).Def("x", k.Ann(m2)))
				}
			}
		}
	}
	c.sweep("marks", gs, "r", mkTexts(append(texts("ab", 3), "aaa b", " a b")), flagsTwo, 0, mask)
	// named things keep their names, however deep
	g := &Gen{Terms: []*rule{spec.C('a'), spec.N("x"), spec.N("x").Ann(7)}, Wrap: []func(*rule) *rule{wAnn(wGroup, 2), wAnn(wOption, 1), wAnn(repAny, 4)}, Bars: true, Seqs: true}
	var g2 []*spec.Grammar
	for _, r := range g.UpTo(c.pick(4, 5)) {
		for _, xr := range []*rule{spec.C('b').Ann(3), spec.Gr(spec.Cat(spec.C('a'), spec.C('b'))).Ann(4), spec.N("y").Ann(2)} {
			g2 = append(g2, spec.NewGrammar().Def("r", r).Def("x", xr).Def("y", spec.Cs("ab").Ann(6)))
		}
	}
	c.sweep("nested-marks", g2, "r", mkTexts(texts("ab", 4)), flagSkip, 0, mask)
	// every mark on every operator over rules of every kind, some marked
	var wraps []func(*rule) *rule
	for m := 0; m < 8; m++ {
		wraps = append(wraps, wAnn(wGroup, m), wAnn(wOption, m), wAnn(repAny, m))
	}
	terms := mixTerms()
	for i, r := range terms {
		if i%2 == 0 {
			terms = append(terms, r.Ann(i%7+1))
		}
	}
	g = &Gen{Terms: terms, Wrap: wraps, Bars: true, Orders: true, Seqs: true}
	c.sweep("mixed-marks", withX(g.UpTo(c.pick(3, 4))), "r", mkTexts(texts("ab ", 4)), flagsTwo, 0, mask)
	c.mixed(c.pick(4, 5), 4, mask)
	// every spelling of marks
	var lines []string
	for _, sp := range texts("$~# ", c.pick(4, 5)) {
		for _, item := range []string{"'a'", "\"a\"", "'aa'", "'a'-'b'", "EOF", "x", "[x]", "('a' x)", "{'a'}", "{x}<1>", "<'a' ^'aa' 'b'>"} {
			lines = append(lines, sp+item, "'b' "+sp+item, sp+item+" 'b'", "[ "+sp+item+" ]", "( "+sp+item+" | 'b' )", "'ab' > "+sp+item+" | 'b'")
		}
	}
	ts := mkTexts(texts("ab", 3))
	c.sample(map[string]interface{}{"family": "spelling", "definitions": len(lines), "last": lines[len(lines)-1]})
	c.each(len(lines), func(w *W, i int) {
		p, _ := pairFromSrc("r = " + lines[i] + "\nx = ~'b' | 'ab'\n")
		if p == nil {
			return // acceptance is C14's
		}
		w.count("spellings")
		for _, t := range ts {
			cs := Case{Kind: "eval", Src: p.Src, Rule: "r", Text: t.S, Flag: spec.Skip, Extra: fmt.Sprint(mask)}
			w.do(&cs, func() string { return w.evalRule(p, "r", t, spec.Skip, 0, mask) })
		}
	})
}
