package main

import (
	"fmt"
	"strings"

	"xmc/spec"

	"github.com/cnsgfk/xbnf"
)

func init() {
	register(&prop{id: "C27", level: "model_checking", assume: []string{
		"rules up to the stated cost, one rewriting at one place (every place), texts up to the stated length",
		"the laws are those the documentation implies; no model is involved, the implementation is compared with itself"},
		rule: "every rule of the families x every place in it x every law (group, name, permute, nest, spell another way, mark) x every text: the rewritten rule matches the same texts and covers the same characters, with the same leading-space behaviour",
		run:  runRewrite, replay: replayRewrite})
}

// a law rewrites one rule into others which mean the same.
type law struct {
	name  string
	white bool // also holds on texts with white space
	f     func(r *rule) []*rule
}

// the name of the rule a law may define; its definition is put before or behind the others
const outName = "out"

var outline *rule // the rule which was given a name (set while rewriting)

func rotations(k []*rule) [][]*rule {
	var out [][]*rule
	for i := 1; i < len(k); i++ {
		out = append(out, append(append([]*rule(nil), k[i:]...), k[:i]...))
	}
	if len(k) > 2 {
		rev := make([]*rule, len(k))
		for i := range k {
			rev[len(k)-1-i] = k[i]
		}
		out = append(out, rev)
	}
	return out
}

func unmarked(r *rule) bool { return !r.Tok && !r.Vir && !r.Non }

func group1(r *rule) *rule { return spec.Gr(r.Ann(0)).Ann(markOf(r)) }

func markOf(r *rule) int {
	m := 0
	if r.Tok {
		m |= 1
	}
	if r.Vir {
		m |= 2
	}
	if r.Non {
		m |= 4
	}
	return m
}

func mayBeNothing(r *rule) bool { return r.K == spec.Option || r.K == spec.Rep }

var laws = []law{
	{"group", true, func(r *rule) []*rule {
		if mayBeNothing(r) {
			return nil
		}
		return []*rule{group1(r), spec.Gr(group1(r))}
	}},
	// white space behind an option without a match is that of what is before it; not so when it is in a group
	{"group an option", false, func(r *rule) []*rule {
		if !mayBeNothing(r) {
			return nil
		}
		return []*rule{group1(r), spec.Gr(group1(r))}
	}},
	{"marks", true, func(r *rule) []*rule {
		var out []*rule
		x := asItem(r)
		for m := 1; m < 8; m++ {
			out = append(out, x.Ann(m))
		}
		return out
	}},
	{"permute", true, func(r *rule) []*rule {
		if r.K != spec.Choice {
			return nil
		}
		var out []*rule
		for i, g := range r.Groups {
			for _, p := range rotations(g) {
				gs := append([][]*rule(nil), r.Groups...)
				gs[i] = p
				out = append(out, spec.Ord(gs...))
			}
		}
		return out
	}},
	{"nest ordered", true, func(r *rule) []*rule {
		if r.K != spec.Choice || len(r.Groups) < 2 {
			return nil
		}
		var out []*rule
		one := func(gs [][]*rule) *rule {
			if len(gs) == 1 && len(gs[0]) == 1 {
				return gs[0][0]
			}
			return spec.Gr(spec.Ord(gs...))
		}
		for i := 1; i < len(r.Groups); i++ {
			out = append(out, spec.Ord(append(append([][]*rule(nil), r.Groups[:i]...), []*rule{one(r.Groups[i:])})...))
			single := true // an ambiguous group ends the choice it is in
			for _, g := range r.Groups[:i] {
				single = single && len(g) == 1
			}
			if single {
				out = append(out, spec.Ord([]*rule{one(r.Groups[:i])}, []*rule{one(r.Groups[i:])}))
			}
		}
		return out
	}},
	{"repeat the last group", true, func(r *rule) []*rule {
		if r.K != spec.Choice {
			return nil
		}
		n := len(r.Groups)
		return []*rule{spec.Ord(append(append([][]*rule(nil), r.Groups...), r.Groups[n-1])...), spec.Ord(append([][]*rule{r.Groups[0]}, r.Groups...)...)}
	}},
	{"twice", true, func(r *rule) []*rule {
		if mayBeNothing(r) {
			return nil
		}
		x := asItem(r)
		return []*rule{spec.Gr(spec.Ord([]*rule{x}, []*rule{x}))}
	}},
	{"nest sequence", false, func(r *rule) []*rule {
		if r.K != spec.Concat || len(r.Kids) < 3 {
			return nil
		}
		var out []*rule
		one := func(k []*rule) *rule {
			if len(k) == 1 {
				return k[0]
			}
			return spec.Gr(spec.Cat(k...))
		}
		for i := 1; i < len(r.Kids); i++ {
			out = append(out, spec.Cat(one(r.Kids[:i]), one(r.Kids[i:])))
		}
		return out
	}},
	{"option as repetition", true, func(r *rule) []*rule {
		switch {
		case r.K == spec.Option:
			return []*rule{spec.Re(r.Kids[0], 0, 1).Ann(markOf(r))}
		case r.K == spec.Rep && r.Min == 0 && r.Max == 1:
			return []*rule{spec.Op(r.Kids[0]).Ann(markOf(r))}
		}
		return nil
	}},
	{"literal as sequence", true, func(r *rule) []*rule {
		if r.K != spec.Chars {
			return nil
		}
		for _, c := range r.S {
			if spec.White(c) {
				return nil
			}
		}
		var out []*rule
		for i := 1; i < len(r.S); i++ {
			out = append(out, spec.Gr(spec.Cat(spec.Cs(string(r.S[:i])), spec.Cs(string(r.S[i:])))))
		}
		return out
	}},
	{"range as choice", true, func(r *rule) []*rule {
		if r.K != spec.Range || r.Hi-r.Lo > 4 || r.Hi <= r.Lo || spec.White(r.Lo) || spec.White(r.Hi) {
			return nil
		}
		var k []*rule
		for c := r.Lo; c <= r.Hi; c++ {
			k = append(k, spec.C(c))
		}
		return []*rule{spec.Gr(spec.Alt(k...))}
	}},
	{"char as range", true, func(r *rule) []*rule {
		if r.K != spec.Char || len(r.S) != 1 {
			return nil
		}
		return []*rule{spec.R(r.S[0], r.S[0])}
	}},
	{"name", true, func(r *rule) []*rule {
		outline = r
		return []*rule{spec.N(outName)}
	}},
}

// rewritings calls f with every rule the law makes of r, at every place.
func rewritings(l law, r *rule, f func(*rule)) {
	for _, x := range l.f(r) {
		f(x)
	}
	sub := func(k *rule, put func(*rule) *rule) {
		if k != nil {
			rewritings(l, k, func(x *rule) { f(put(x)) })
		}
	}
	item := r.K == spec.Choice || r.K == spec.Concat
	fit := func(x *rule) *rule {
		if item {
			return asItem(x)
		}
		return x
	}
	for i := range r.Kids {
		sub(r.Kids[i], func(x *rule) *rule {
			c := *r
			c.Kids = append([]*rule(nil), r.Kids...)
			c.Kids[i] = fit(x)
			return &c
		})
	}
	for i := range r.Groups {
		for j := range r.Groups[i] {
			sub(r.Groups[i][j], func(x *rule) *rule {
				c := *r
				c.Groups = append([][]*rule(nil), r.Groups...)
				c.Groups[i] = append([]*rule(nil), r.Groups[i]...)
				c.Groups[i][j] = fit(x)
				return &c
			})
		}
	}
	if r.K == spec.Block {
		sub(r.Open, func(x *rule) *rule { c := *r; c.Open = asItem(x); return &c })
		sub(r.Esc, func(x *rule) *rule { c := *r; c.Esc = asItem(x); return &c })
		sub(r.Close, func(x *rule) *rule { c := *r; c.Close = asItem(x); return &c })
		for i := range r.Excl {
			sub(r.Excl[i], func(x *rule) *rule {
				c := *r
				c.Excl = append([]*rule(nil), r.Excl...)
				c.Excl[i] = asItem(x)
				return &c
			})
		}
	}
}

// sources of the grammar of r after the law, one for each place its own definition may stand at.
func (l law) sources(g *spec.Grammar, r *rule) []string {
	var rest strings.Builder
	for _, n := range g.Names[1:] {
		rest.WriteString(n + " = " + g.Rules[n].Src() + "\n")
	}
	def := g.Names[0] + " = " + r.Src() + "\n"
	if l.name != "name" {
		return []string{def + rest.String()}
	}
	out := outName + " = " + outline.Src() + "\n"
	return []string{out + def + rest.String(), def + rest.String() + out}
}

// covers is what a rule comes to on a text.
type covers struct {
	ok     bool
	used   int
	sticky bool
	ambig  bool
	leaves string
}

func covering(g *xbnf.Grammar, t *Text, flag int) covers {
	cs := xbnf.NewCharstreamFromString(t.S)
	r := g.GetRule("r").Eval(g, cs, flag)
	c := covers{ok: r.Node != nil, used: len(r.CharsRead) - len(r.CharsUnused)}
	if c.ok {
		c.sticky = r.Sticky
		c.leaves = string(realLeaves(r.Node, nil))
	}
	return c
}

func (w *W) rewritten(a, b *xbnf.Grammar, t *Text, flag int, law string, want *covers) string {
	if want == nil {
		x := covering(a, t, flag)
		want = &x
	}
	got := covering(b, t, flag)
	w.states++
	w.trans += int64(got.used) + 1
	w.traces++
	switch {
	case got.ok != want.ok:
		return fmt.Sprintf("matches: %v, before %v", got.ok, want.ok)
	case got.used != want.used:
		return fmt.Sprintf("covers %q, before %q", string(t.R[:got.used]), string(t.R[:want.used]))
	case got.leaves != want.leaves:
		return fmt.Sprintf("has the text %q, before %q", got.leaves, want.leaves)
	case got.sticky != want.sticky && law != "option as repetition": // they differ in it at the end of the text
		return fmt.Sprintf("sticky is %v, before %v", got.sticky, want.sticky)
	}
	return ""
}

func (c *Ctx) sweepRewrite(kind string, gs []*spec.Grammar, ts []*Text, flags []int, use func(*spec.Grammar, law) bool) {
	c.sample(map[string]string{"family": kind, "last grammar": gs[len(gs)-1].Src(), "size": fmt.Sprintf("%d grammars x %d texts x %d flags", len(gs), len(ts), len(flags))})
	white := make([]bool, len(ts))
	for i, t := range ts {
		for _, r := range t.R {
			white[i] = white[i] || spec.White(r)
		}
	}
	// outline is set while a law is applied: rewrite first, evaluate in parallel
	type job struct {
		g    *spec.Grammar
		l    law
		srcs []string
	}
	var jobs []job
	for _, g := range gs {
		for _, l := range laws {
			if use != nil && !use(g, l) {
				continue
			}
			j := job{g: g, l: l}
			rewritings(l, g.Rules[g.Names[0]], func(r *rule) { j.srcs = append(j.srcs, l.sources(g, r)...) })
			if len(j.srcs) > 0 {
				jobs = append(jobs, j)
			}
		}
	}
	c.each(len(jobs), func(w *W, i int) {
		j := jobs[i]
		p := mustPair(w, j.g)
		if p == nil {
			return
		}
		want := make([]covers, 0, len(ts)*len(flags))
		for k, t := range ts {
			for _, f := range flags {
				if white[k] && !j.l.white {
					want = append(want, covers{})
					continue
				}
				cs := Case{Kind: "rewrite", Src: p.Src, Rule: p.Src, Text: t.S, Flag: f}
				w.do(&cs, func() string { want = append(want, covering(p.R, t, f)); return "" })
			}
		}
		for _, src := range j.srcs {
			var b *xbnf.Grammar
			cs := Case{Kind: "rewrite", Src: p.Src, Rule: src, Extra: j.l.name}
			w.do(&cs, func() string {
				var err error
				if b, err = xbnf.NewGrammarFromString(src); err != nil {
					return "rejected: " + err.Error()
				}
				return ""
			})
			if b == nil {
				continue
			}
			w.count(j.l.name)
			for k, t := range ts {
				if white[k] && !j.l.white {
					continue
				}
				for m, f := range flags {
					cs := Case{Kind: "rewrite", Src: p.Src, Rule: src, Text: t.S, Flag: f, Extra: j.l.name}
					w.do(&cs, func() string { return w.rewritten(p.R, b, t, f, j.l.name, &want[k*len(flags)+m]) })
					if c.stop.Load() {
						return
					}
				}
			}
		}
	})
}

func runRewrite(c *Ctx) {
	g := coreGen(ab()...)
	c.sweepRewrite("core", single(g.UpTo(c.pick(4, 5))), mkTexts(texts("ab ", 4)), flagsTwo, nil)
	c.sweepRewrite("lookahead", single(famLook(c.pick(4, 5))), mkTexts(texts("ab", 5)), flagSkip, nil)
	c.sweepRewrite("mixed", withX(mixGen().UpTo(c.pick(3, 4))), mkTexts(texts("ab ", 4)), flagsTwo, nil)
	var rs []*rule
	pool := []*rule{spec.C('a'), spec.Cs("ab"), spec.S("a"), spec.R('a', 'c'), spec.Op(spec.C('b')), spec.Re(spec.Cs("ba"), 0, 1), spec.Cs("aab")}
	for k := 2; k <= 3; k++ {
		tuples(pool, k, func(t []*rule) {
			joins(t, func(r *rule) { rs = append(rs, r, spec.Cat(r, spec.C('b'))) })
			rs = append(rs, spec.Cat(t...))
		})
	}
	c.farRewrite()
	c.sweepRewrite("choices", single(rs), mkTexts(texts("ab ", 4)), flagSkip, nil)
	c.sweepRewrite("blocks", single(every(famBlocks(false), c.pick(3, 1))), mkTexts(texts("oexc", 4)), flagSkip, nil)
}

// farRewrite applies the laws to families far beyond the small bounds, each on its own texts.
func (c *Ctx) farRewrite() {
	for _, l := range famScale("lrbwcq") {
		if len(l.g.Src()) > c.pick(400, 1200) {
			continue
		}
		var ts []*Text
		for _, s := range l.ts {
			if len(s) <= 1100 {
				ts = append(ts, mkText(s))
			}
		}
		if len(ts) > 0 {
			c.sweepRewrite("scale", []*spec.Grammar{l.g}, ts, flagSkip, nil)
		}
	}
}

func every(rs []*rule, n int) []*rule {
	var out []*rule
	for i := 0; i < len(rs); i += n {
		out = append(out, rs[i])
	}
	return out
}

func replayRewrite(w *W, c Case) string {
	if c.Kind == "grammar" {
		return replayEval(w, c)
	}
	a, err := xbnf.NewGrammarFromString(c.Src)
	if err != nil {
		return ""
	}
	b, err := xbnf.NewGrammarFromString(c.Rule)
	if err != nil {
		return "rejected: " + err.Error()
	}
	return w.rewritten(a, b, mkText(c.Text), c.Flag, c.Extra, nil)
}
