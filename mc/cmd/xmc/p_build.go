package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"xmc/spec"

	"github.com/cnsgfk/xbnf"
)

func init() {
	register(&prop{id: "C15", level: "model_checking", assume: []string{
		"histories up to the stated length over the listed definitions and operations"},
		rule: "every history of adding rules (new, repeated, malformed, with undefined references), validating, evaluating and printing up to a length; every answer compared with the model of the accepted rules, and the grammar at the end with one loaded from those definitions at once",
		run:  runBuild, replay: replayBuild})
}

// steps of a history: a definition, or one of the operations below
var buildPools = [][]string{
	{"a = 'a'", "b = a 'b'", "a = 'z'", "c = (a | z", "d = u ['a']", "u = 'u' | \"a\"", "1x = a b", "b = {a} u", "!validate", "!eval", "!serialize"},
	{"a = 'a' | b", "b = 'b' c", "c = ['c']", "b = a {c", "c = <a 'x' ^b c", "d = ~a #c", "d = $d2", "a-b = a", "e = e2 | ", "!validate", "!eval", "!rule"},
	{"r = x y", "x = 'a'", "y = \"b\" // x", "x = 'b'", "y = [x] x z }", "r = r1", "= x", "x", "s = {r | x}", "!validate", "!embed", "!eval"},
	{"a = 'a'", "a = 'a'", "b = a", "c = b | a", "c = b a |", "a = b", "b = [c", "d = 'a'-'z' a > b", "!validate", "!eval"},
	{"a = q [a", "a = 'a' q", "q = 'q' | a)", "q = \"q\" ", "b = a a a (", "b = a a", "c = {q}<2,1>", "c = {q}<1,2>", "!validate", "!rule"},
	{"x = 'a'", "list = x 'b'", "li = x (", "li = x", "lis = list li |", "x1 = x", "X = 'b' x", "x = X", "lis = x X", "!validate", "!eval"},
	{"a = 'a'", "A = 'b'", "aa = a A [", "aa = a", "a_ = {aa", "aA = a_ 'b'", "a_ = 'b'", "a0 = aA Aa", "Aa = a0 |", "!embed", "!rule"},
	{"k = 'a' ~", "k = ~'a' m", "m = 'a' | | k", "m = #'b'", "n = <k m", "n = <'k' ^m 'm' !>", "n = ^m", "EOF = 'a'", "o = EOF m", "!validate", "!eval"},
}

var buildNames = regexp.MustCompile(`[A-Za-z]\w*`)

var lineNo = regexp.MustCompile(`L\d+: `)

// loads are texts a history can start with.
var loads = map[string]string{
	"!load1": "// head\na = 'a'\n\n\n// c\nb = a 'b'\n\n// tail\n",
	"!load2": "\n\n\n\nb = [a]\r\n\r\na = \"a\"",
	"!load3": "// nothing\n\n",
	"!load4": "k = ~'a' m\nm = q | k\nq = {'q'}",
}

var (
	ruleLine = regexp.MustCompile(`^ *L\d+: (!?)([^\s\[]+)(\[T\])? *= (.*)$`)
	userLine = regexp.MustCompile(`^ +(\S+) *: (.*)$`)
)

// printed compares what the grammar prints about itself with the accepted rules.
func printed(g *xbnf.Grammar, m *spec.Grammar, validated bool) string {
	users := map[string]map[string]bool{}
	refs := map[string]bool{}
	for _, n := range m.Names {
		_, rs, _ := spec.ParseRule(m.Rules[n].Src())
		for _, r := range rs {
			if users[r] == nil {
				users[r] = map[string]bool{}
			}
			users[r][n] = true
			refs[n] = true
		}
	}
	set := func(s string) string {
		have := map[string]bool{}
		for _, x := range strings.Split(s, ",") {
			if x = strings.TrimSpace(x); x != "" {
				have[x] = true
			}
		}
		return keys(have)
	}
	var used []string
	for _, n := range m.Names {
		if users[n] != nil {
			used = append(used, n)
		}
	}
	for _, detail := range []bool{false, true} {
		out := g.Serialize(detail)
		var inOrder []string
		var names []string
		seen := map[string]bool{}
		for _, l := range strings.Split(out, "\n") {
			if strings.HasPrefix(l, "Root Rules:") {
				var want []string
				for _, n := range m.Names {
					if users[n] == nil {
						want = append(want, n)
					}
				}
				if got := buildNames.FindAllString(l[len("Root Rules:"):], -1); strings.Join(got, ",") != strings.Join(want, ",") {
					return fmt.Sprintf("root rules are printed as %q, expected %q", got, want)
				}
				continue
			}
			if x := ruleLine.FindStringSubmatch(l); x != nil {
				r := m.Rules[x[2]]
				if r == nil {
					return fmt.Sprintf("a rule %s is printed which was not accepted", x[2])
				}
				names = append(names, x[2])
				if (x[1] == "!") != r.Vir {
					return fmt.Sprintf("rule %s is printed as virtual=%v", x[2], x[1] == "!")
				}
				if validated && (x[3] != "") != !refs[x[2]] {
					return fmt.Sprintf("rule %s is printed as terminal=%v, its definition is %s", x[2], x[3] != "", r.Src())
				}
				d, _, err := spec.ParseRule(x[4])
				if err != nil || d.Src() != r.Src() {
					return fmt.Sprintf("rule %s is printed as %s, its definition is %s", x[2], x[4], r.Src())
				}
				continue
			}
			if len(names) > 0 {
				continue
			}
			if x := userLine.FindStringSubmatch(l); x != nil && m.Rules[x[1]] != nil {
				seen[x[1]] = true
				inOrder = append(inOrder, x[1])
				if got := set(x[2]); got != keys(users[x[1]]) {
					return fmt.Sprintf("rule %s is printed as used by %q, expected %q", x[1], got, keys(users[x[1]]))
				}
			}
		}
		if len(inOrder) == len(used) && strings.Join(inOrder, ",") != strings.Join(used, ",") {
			return fmt.Sprintf("the used rules are printed in the order %q, expected %q", inOrder, used)
		}
		for n := range users {
			if m.Rules[n] != nil && !seen[n] {
				return fmt.Sprintf("the users of rule %s are not printed", n)
			}
		}
		if a, b := strings.Join(names, " "), strings.Join(m.Names, " "); a != b {
			return fmt.Sprintf("the rules printed are %q, expected %q", a, b)
		}
	}
	return ""
}

func keys(m map[string]bool) string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func undefined(m *spec.Grammar) []string {
	var out []string
	seen := map[string]bool{}
	for _, n := range m.Names {
		_, refs, _ := spec.ParseRule(m.Rules[n].Src())
		for _, r := range refs {
			if m.Rules[r] == nil && !seen[r] {
				seen[r] = true
				out = append(out, r)
			}
		}
	}
	sort.Strings(out)
	return out
}

// near adds names which differ little from those of ns.
func near(ns []string) []string {
	out := ns
	for _, n := range ns {
		out = append(out, strings.ToUpper(n), strings.ToLower(n), n+"1", n+"_", n[:len(n)-1], n[1:], " "+n, n+" ")
	}
	return out
}

// strangers evaluates names which no rule has.
func strangers(g *xbnf.Grammar, m *spec.Grammar) string {
	for _, n := range near(m.Names) {
		if m.Rules[n] != nil {
			continue
		}
		if g.GetRule(n) != nil || g.GetRecord(n) != nil {
			return fmt.Sprintf("there is a rule %q", n)
		}
		for _, r := range []*xbnf.EvalResult{g.EvalRule(n, "ab"), g.EvalEmbed(n, "ab")} {
			if r == nil || r.Node != nil || r.Error == nil || len(r.CharsRead) > 0 || len(r.CharsUnused) > 0 {
				return fmt.Sprintf("evaluating the undefined rule %q gives %v", n, r)
			}
		}
	}
	return ""
}

var buildTexts = mkTexts([]string{"a", "ab", "a b", "u", "b", "aab", "q q", "xyz", ""})

// built runs one history.
func (w *W) built(ops []string) string {
	g := xbnf.NewGrammar()
	m := spec.NewGrammar()
	var lines []string
	current := false // the last validation succeeded and no rule was added since
	w.states++
	w.traces++
	check := func(i int) string {
		w.trans++
		err := g.Validate()
		und := undefined(m)
		if (err == nil) != (len(und) == 0) {
			return fmt.Sprintf("step %d: validation says %v, undefined are %q", i+1, err, und)
		}
		if err != nil {
			ok := false
			for _, u := range und {
				ok = ok || strings.Contains(err.Error(), "'"+u+"'") || strings.Contains(err.Error(), u)
			}
			if !ok {
				return fmt.Sprintf("step %d: validation says %v, undefined are %q", i+1, err, und)
			}
			return ""
		}
		current = true
		return ""
	}
	for i, o := range ops {
		w.trans++
		switch o {
		case "!validate":
			if s := check(i); s != "" {
				return s
			}
		case "!eval":
			for _, t := range buildTexts[:4] {
				if m.LeftRecursive() {
					break
				}
				a, err := g.EvalRaw(xbnf.NewCharstreamFromString(t.S))
				if current && len(m.Names) > 0 {
					if s := w.againstModel(m, t, a, err); s != "" {
						return fmt.Sprintf("step %d, on %q: %s", i+1, t.S, s)
					}
				}
			}
		case "!rule":
			for _, n := range m.Names {
				if !m.LeftRecursive() {
					g.EvalRule(n, "ab")
				}
			}
			g.EvalRule("nosuch", "a")
		case "!embed":
			for _, n := range m.Names {
				if !m.LeftRecursive() {
					g.EvalEmbed(n, "ab")
				}
			}
			g.EvalEmbed("nosuch", "a")
		case "!serialize":
			g.Serialize(true)
		case "!load1", "!load2", "!load3", "!load4":
			if i > 0 {
				return ""
			}
			var err error
			if m, err = spec.ParseGrammar(loads[o]); err != nil {
				return err.Error()
			}
			if g, err = xbnf.NewGrammarFromString(loads[o]); err != nil {
				return err.Error()
			}
			current = true
			for _, n := range m.Names {
				lines = append(lines, n+" = "+m.Rules[n].Src())
			}
		default:
			if left := m.LeftRecursive(); left {
				return "" // nothing can be said about it
			}
			merr := m.Add(o)
			var err error
			if i%2 == 0 {
				_, err = g.AddRule(o)
			} else if kv := strings.SplitN(o, "=", 2); len(kv) == 2 {
				_, err = g.ParseRule(strings.TrimSpace(kv[0]), kv[1])
			} else {
				_, err = g.AddRule(o)
			}
			if (err == nil) != (merr == nil) {
				return fmt.Sprintf("step %d: adding %q gives %v, expected %v", i+1, o, err, merr)
			}
			if err == nil {
				lines = append(lines, o)
				current = false
			}
		}
		for _, n := range near(buildNames.FindAllString(o, -1)) {
			if (g.GetRule(n) != nil) != (m.Rules[n] != nil) {
				return fmt.Sprintf("step %d: rule %s defined is %v", i+1, n, g.GetRule(n) != nil)
			}
		}
	}
	if s := strangers(g, m); s != "" {
		return s
	}
	if s := printed(g, m, current); s != "" {
		return s
	}
	if s := check(len(ops)); s != "" {
		return s
	}
	if s := printed(g, m, len(undefined(m)) == 0); s != "" {
		return s
	}
	if m.LeftRecursive() || len(undefined(m)) > 0 || len(lines) == 0 {
		return ""
	}
	g2, err := xbnf.NewGrammarFromString(strings.Join(lines, "\n"))
	if err != nil {
		return fmt.Sprintf("the accepted definitions %q are rejected together: %v", lines, err)
	}
	w.counts["compared"]++
	if a, b := lineNo.ReplaceAllString(g.Serialize(true), ""), lineNo.ReplaceAllString(g2.Serialize(true), ""); a != b {
		return "printed grammar: " + firstDiff(a, b)
	}
	for _, t := range buildTexts {
		w.trans++
		a, err := g.EvalRaw(xbnf.NewCharstreamFromString(t.S))
		if s := w.againstModel(m, t, a, err); s != "" {
			return fmt.Sprintf("at the end, on %q: %s", t.S, s)
		}
		b, err2 := g2.EvalRaw(xbnf.NewCharstreamFromString(t.S))
		if x, y := showAST(a, err), showAST(b, err2); x != y {
			return fmt.Sprintf("at the end, on %q: %s", t.S, firstDiff(x, y))
		}
		for _, n := range m.Names {
			if x, y := showResult(g.EvalRule(n, t.S)), showResult(g2.EvalRule(n, t.S)); x != y {
				return fmt.Sprintf("at the end, rule %s on %q: %s", n, t.S, firstDiff(x, y))
			}
		}
	}
	return ""
}

func (w *W) againstModel(m *spec.Grammar, t *Text, a *xbnf.AST, err error) string {
	ev := spec.Ev{G: m, T: t.R}
	p := ev.Parse()
	if (err == nil) != p.Ok {
		return fmt.Sprintf("error %v, expected success=%v (%s)", err, p.Ok, p.Why)
	}
	if err != nil {
		return ""
	}
	if len(a.Nodes) != len(p.Nodes) {
		return fmt.Sprintf("%d nodes, expected %d", len(a.Nodes), len(p.Nodes))
	}
	for i := range a.Nodes {
		if d := diffNode(a.Nodes[i], p.Nodes[i], t.LC, diffOpt{flags: true}); d != "" {
			return d
		}
	}
	return ""
}

// gaps are grammar texts whose definitions stand far below each other.
func (w *W) gap(n int, fill string) string {
	src := "a = 'a'\n" + strings.Repeat(fill+"\n", n/4) + "b = 'b' a\n" + strings.Repeat(fill+"\n", n-n/4) + "c = a c2\nc2 = [b] | \"d\"\n" + strings.Repeat("\n", n) + "d = 'e'"
	g, err := xbnf.NewGrammarFromString(src)
	if err != nil {
		return err.Error()
	}
	m, err := spec.ParseGrammar(src)
	if err != nil {
		return err.Error()
	}
	for _, more := range []string{"", "e = d {c}", "f = 'f'", "g = f | 'g'"} {
		if more != "" {
			if _, err := g.AddRule(more); err != nil {
				return err.Error()
			}
			if err := m.Add(more); err != nil {
				return err.Error()
			}
			if err := g.Validate(); err != nil {
				return err.Error()
			}
		}
		w.states++
		w.traces++
		w.trans++
		w.beat()
		if s := printed(g, m, true); s != "" {
			return s
		}
		for _, t := range []string{"abaad", "ba", "dea"} {
			tx := mkText(t)
			a, err := g.EvalRaw(xbnf.NewCharstreamFromString(t))
			if s := w.againstModel(m, tx, a, err); s != "" {
				return s
			}
		}
	}
	return ""
}

var gapsAt = []int{1, 8, 9, 90, 98, 99, 998, 999, 9990, 9998, 9999, 13332, 20000, 32764, 32766, 40000, 65532, 65536, 100000}

func runBuild(c *Ctx) {
	c.sample(map[string]interface{}{"pools": buildPools, "definitions apart by": gapsAt})
	fills := []string{"", "// x", " "}
	c.each(len(gapsAt)*len(fills), func(w *W, i int) {
		cs := Case{Kind: "gap", Flag: gapsAt[i/len(fills)], Extra: fills[i%len(fills)]}
		w.do(&cs, func() string { return w.gap(cs.Flag, cs.Extra) })
	})
	c.farBuilds()
	for _, pool := range buildPools {
		var heads [][]string
		for _, a := range pool {
			for _, b := range pool {
				heads = append(heads, []string{a, b})
			}
		}
		for n := 0; n <= c.pick(3, 4); n++ {
			c.each(len(heads), func(w *W, i int) {
				var rec func(cur []string)
				rec = func(cur []string) {
					if c.stop.Load() {
						return
					}
					if len(cur) == n+2 {
						cs := Case{Kind: "build", Extra: strings.Join(cur, "\n")}
						w.do(&cs, func() string { return w.built(cur) })
						return
					}
					for _, o := range pool {
						rec(append(cur[:len(cur):len(cur)], o))
					}
				}
				rec(heads[i])
			})
		}
	}
	// histories that start with a loaded text
	for l := 1; l <= 4; l++ {
		var cases [][]string
		for _, pool := range buildPools {
			for k := 0; k <= c.pick(2, 3); k++ {
				var rec func(cur []string)
				rec = func(cur []string) {
					if len(cur) == k+1 {
						cases = append(cases, cur)
						return
					}
					for _, o := range pool {
						rec(append(cur[:len(cur):len(cur)], o))
					}
				}
				rec([]string{fmt.Sprintf("!load%d", l)})
			}
		}
		c.each(len(cases), func(w *W, i int) {
			cs := Case{Kind: "build", Extra: strings.Join(cases[i], "\n")}
			w.do(&cs, func() string { return w.built(cases[i]) })
		})
	}
	// longer: every order of the definitions of a pool, with a validation after every prefix
	for _, pool := range buildPools {
		var defs []string
		for _, o := range pool {
			if o[0] != '!' {
				defs = append(defs, o)
			}
		}
		if len(defs) > c.pick(7, 8) {
			defs = defs[:c.pick(7, 8)]
		}
		var ps [][]string
		permute(defs, func(p []string) { ps = append(ps, append([]string(nil), p...)) })
		c.each(len(ps), func(w *W, i int) {
			cs := Case{Kind: "build", Extra: strings.Join(ps[i], "\n")}
			w.do(&cs, func() string { return w.built(ps[i]) })
			v := strings.Join(ps[i], "\n!validate\n") + "\n!validate\n" + pool[len(pool)-1]
			cs = Case{Kind: "build", Extra: v}
			w.do(&cs, func() string { return w.built(strings.Split(v, "\n")) })
		})
	}
}

func replayBuild(w *W, c Case) string {
	if c.Kind == "farbuild" {
		return w.farBuild(c.Extra, c.Flag)
	}
	if c.Kind == "gap" {
		return w.gap(c.Flag, c.Extra)
	}
	return w.built(strings.Split(c.Extra, "\n"))
}
