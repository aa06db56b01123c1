package main

import (
	"fmt"
	"regexp"
	"strings"

	"xmc/spec"

	"github.com/cnsgfk/xbnf"
)

func init() {
	register(&prop{id: "C28", level: "model_checking", assume: []string{
		"rules up to the stated cost and nesting; which letters a listing uses for a kind is taken from it as it is (concatenate, choice, group, option, repetition with its bounds)"},
		rule: "every rule of the families, marked and not, alone and in grammars of several rules: the detailed listing is read back as an outline (depth by indentation) and compared with the rule's own structure",
		run:  runListing, replay: replayListing})
}

// outline of a rule: one line per part, in order.
type outlineItem struct {
	depth int
	what  string
}

func outlineOf(r *rule, d int, out []outlineItem) []outlineItem {
	add := func(s string) { out = append(out, outlineItem{d, s}) }
	switch r.K {
	case spec.Concat:
		add("concatenate")
	case spec.Choice:
		add("choice")
		for _, g := range r.Groups {
			for _, k := range g {
				out = outlineOf(k, d+1, out)
			}
		}
	case spec.Group:
		add("group")
	case spec.Option:
		add("option")
	case spec.Rep:
		add(fmt.Sprintf("repetition<%d,%d>", r.Min, r.Max))
	default:
		add(leafText(r))
		return out
	}
	for _, k := range r.Kids {
		out = outlineOf(k, d+1, out)
	}
	return out
}

// leafText is a leaf with its marks; the listing shows EOF, as it shows the
// composite rules, without.
func leafText(r *rule) string {
	c := *r
	c.Name = ""
	if c.K == spec.EOF {
		return "EOF"
	}
	return c.Dump()
}

var (
	leafLabel = regexp.MustCompile(`^(char|range|token|reference|block):`)
	repLabel  = regexp.MustCompile(`^repetition(.*):$`)
)

// readOutline reads a listing back. base is in front of every line but the first.
func readOutline(s, base, indent string) ([]outlineItem, error) {
	var out []outlineItem
	for i, l := range strings.Split(s, "\n") {
		if i > 0 {
			if !strings.HasPrefix(l, base) {
				return nil, fmt.Errorf("line %q does not start with %q", l, base)
			}
			l = l[len(base):]
		}
		d := 0
		for indent != "" && strings.HasPrefix(l, indent) {
			l = l[len(indent):]
			d++
		}
		it := outlineItem{depth: d}
		switch m := repLabel.FindStringSubmatch(l); {
		case m != nil:
			r, _, err := spec.ParseRule("{'a'}" + m[1])
			if err != nil || r.K != spec.Rep {
				return nil, fmt.Errorf("bounds of %q", l)
			}
			it.what = fmt.Sprintf("repetition<%d,%d>", r.Min, r.Max)
		case l == "concatenate:" || l == "choice:" || l == "group:" || l == "option:":
			it.what = strings.TrimSuffix(l, ":")
		default:
			r, _, err := spec.ParseRule(leafLabel.ReplaceAllString(l, ""))
			if err != nil {
				return nil, fmt.Errorf("line %q is no rule: %v", l, err)
			}
			it.what = leafText(r)
		}
		out = append(out, it)
	}
	return out, nil
}

func sameOutline(got, want []outlineItem) string {
	for i := range want {
		if i >= len(got) {
			return fmt.Sprintf("the listing has %d lines, the rule %d parts", len(got), len(want))
		}
		if got[i] != want[i] {
			return fmt.Sprintf("line %d of the listing is %s at depth %d, part %d of the rule is %s at depth %d", i+1, got[i].what, got[i].depth, i+1, want[i].what, want[i].depth)
		}
	}
	if len(got) > len(want) {
		return fmt.Sprintf("the listing has %d lines, the rule %d parts", len(got), len(want))
	}
	return ""
}

var ruleHead = regexp.MustCompile(`^ *L(\d+): (!?)([A-Za-z0-9_]+)(\[T\])? *= `)

func (w *W) listing(g *spec.Grammar) string {
	src := g.Src()
	r, err := xbnf.NewGrammarFromString(src)
	if err != nil {
		return "well-formed grammar rejected: " + err.Error()
	}
	w.states++
	w.traces++
	for _, n := range g.Names {
		want := outlineOf(g.Rules[n], 0, nil)
		w.trans += int64(len(want))
		for _, indent := range []string{"  ", "\t", "    ", ""} {
			got, err := readOutline(r.GetRule(n).StringWithIndent(indent), "", indent)
			if err != nil {
				return fmt.Sprintf("rule %s, indent %q: %v", n, indent, err)
			}
			if indent == "" {
				want = append([]outlineItem(nil), want...)
				for i := range want {
					want[i].depth = 0
				}
			}
			if s := sameOutline(got, want); s != "" {
				return fmt.Sprintf("rule %s, indent %q: %s", n, indent, s)
			}
		}
	}
	// the listing of the whole grammar: under each rule's definition its outline
	all := r.Serialize(true)
	i := strings.Index(all, "Rules:\n")
	if i < 0 {
		return "no rules in the listing of the grammar"
	}
	lines := strings.Split(all[i+len("Rules:\n"):], "\n")
	at := -1
	var detail []string
	check := func() string {
		if at < 0 {
			return ""
		}
		n := g.Names[at]
		want := outlineOf(g.Rules[n], 0, nil)
		got, err := readOutline(strings.TrimPrefix(strings.Join(detail, "\n"), "    "), "    ", "    ")
		if err != nil {
			return fmt.Sprintf("grammar, rule %s: %v", n, err)
		}
		if s := sameOutline(got, want); s != "" {
			return fmt.Sprintf("grammar, rule %s: %s", n, s)
		}
		return ""
	}
	for _, l := range lines {
		if m := ruleHead.FindStringSubmatch(l); m != nil {
			if s := check(); s != "" {
				return s
			}
			if at++; at >= len(g.Names) || m[3] != g.Names[at] {
				return fmt.Sprintf("grammar: rule %d is listed as %s", at+1, m[3])
			}
			detail = nil
			continue
		}
		if strings.TrimSpace(l) != "" {
			detail = append(detail, l)
		}
	}
	if s := check(); s != "" {
		return s
	}
	if at != len(g.Names)-1 {
		return fmt.Sprintf("grammar: %d rules are listed, it has %d", at+1, len(g.Names))
	}
	return ""
}

func (c *Ctx) sweepListing(kind string, gs []*spec.Grammar) {
	c.sample(map[string]string{"family": kind, "first": gs[0].Src(), "last": gs[len(gs)-1].Src(), "size": fmt.Sprint(len(gs))})
	c.each(len(gs), func(w *W, i int) {
		cs := Case{Kind: "listing", Src: gs[i].Src()}
		w.do(&cs, func() string { return w.listing(gs[i]) })
	})
}

func runListing(c *Ctx) {
	c.sweepListing("core", single(coreGen(ab()...).UpTo(c.pick(5, 6))))
	c.sweepListing("mixed", withX(mixGen().UpTo(c.pick(5, 6))))
	var gs []*spec.Grammar
	for _, r := range famBlocks(true) {
		gs = append(gs, spec.G(r))
	}
	for _, r := range every(famBlocks(false), 7) {
		for _, f := range contexts {
			gs = append(gs, spec.G(f(r)))
		}
	}
	// marks on every kind of rule, at the top and as an item
	for _, r := range append(mixGen().UpTo(3), famBlocks(false)[:8]...) {
		for m := 1; m < 8; m++ {
			x := asItem(r).Ann(m)
			gs = append(gs, withX([]*rule{x, spec.Cat(x, spec.C('a')), spec.Alt(spec.C('a'), x), spec.Re(x, 1, 0), spec.Op(x)})...)
		}
	}
	// bounds, special characters
	for lo := 0; lo <= 12; lo++ {
		for hi := 0; hi <= 12; hi++ {
			if hi == 0 || hi >= lo {
				gs = append(gs, spec.G(spec.Re(spec.C('a'), lo, hi)), spec.G(spec.Cat(spec.Re(spec.S("a"), lo, hi), spec.C('b'))))
			}
		}
	}
	for _, ch := range []rune("'\"\\-/|<>[](){}!^~#$:\n\r\t =\u0085\u2028\u00e9\U0001F600") {
		gs = append(gs, spec.G(spec.C(ch)), spec.G(spec.Cs("a"+string(ch))), spec.G(spec.S(string(ch))), spec.G(spec.R(ch, ch)), spec.G(spec.Cat(spec.Cs(string(ch)+"b"), spec.Gr(spec.S("b"+string(ch))))))
	}
	// wide and deep
	for n := 2; n <= c.pick(40, 120); n++ {
		var seq []*rule
		for i := 0; i < n; i++ {
			seq = append(seq, spec.C(letter(i)))
		}
		gs = append(gs, spec.G(spec.Cat(seq...)), spec.G(spec.Alt(seq...)))
		r := spec.Cat(spec.C('a'), spec.S("b"))
		for i := 0; i < n; i++ {
			switch (i*7 + n) % 5 {
			case 0:
				r = spec.Gr(r)
			case 1:
				r = spec.Op(r)
			case 2:
				r = spec.Re(r, i%3, 0)
			case 3:
				r = spec.Cat(asItem(r), spec.Bl(spec.C('a'), nil, nil, spec.C('b'), false))
			case 4:
				r = spec.Ord([]*rule{spec.N("x")}, []*rule{asItem(r)})
			}
		}
		gs = append(gs, withX([]*rule{r})...)
	}
	for _, l := range famScale("cqdbrl") {
		if s := l.g.Src(); len(s) < 20000 {
			gs = append(gs, l.g)
		}
	}
	for _, ch := range uniRunes() {
		gs = append(gs, spec.G(spec.C(ch)), spec.G(spec.S("a"+string(ch))), spec.G(spec.Alt(spec.R(ch, ch), spec.Cs(string(ch)+string(ch)))))
	}
	c.sweepListing("more", gs)
	// several rules
	gs = nil
	pool := mixGen().UpTo(2)
	for i, a := range pool {
		for j, b := range pool {
			gs = append(gs, spec.NewGrammar().Def("first", a).Def("x", spec.C('a')).Def(fmt.Sprintf("n%d", i*j), b))
		}
	}
	c.sweepListing("grammars", gs)
}

func replayListing(w *W, c Case) string {
	m, err := spec.ParseGrammar(c.Src)
	if err != nil {
		return ""
	}
	return w.listing(m)
}
