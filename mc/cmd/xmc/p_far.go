package main

import (
	"fmt"
	"strings"

	"xmc/spec"

	"github.com/cnsgfk/xbnf"
)

// far texts of a stream: one line, many lines, long lines among short ones, white space.
func farTexts(n int) []string {
	rp := strings.Repeat
	out := []string{rp("a", n), rp("\n", n), rp("a\n", n), rp(" ", n) + "a", rp("a", n) + "\nb\n" + rp("c", n) + "\n\nd", rp("\n", n) + rp("a", n), "\n" + rp(" \n", n) + "é"}
	if n <= 257 { // every length of a line
		var b strings.Builder
		for i := 0; i <= n; i++ {
			b.WriteString(rp("a", i) + "\n")
		}
		out = append(out, b.String())
	}
	return out
}

var farWays = []string{"next", "next and position", "skip and match", "push back at the end", "push back on the way", "push back every char"}

// farStream reads a text in one of farWays and asks for every position.
func (w *W) farStream(t *Text, way string) string {
	n := len(t.R)
	w.states += int64(n)
	w.trans += int64(n)
	w.traces++
	var cs xbnf.ICharstream = xbnf.NewCharstreamFromString(t.S)
	at := func(i int) string {
		if got := cs.Cursor(); got != i {
			return fmt.Sprintf("cursor is %d, expected %d", got, i)
		}
		want := xbnf.Position{}
		if i < n {
			want = posOf(t.LC, i)
		}
		if got := toPos(cs.Position()); got != want {
			return fmt.Sprintf("position at %d is %v, expected %v", i, got, want)
		}
		c := rune(xbnf.EOFChar)
		if i < n {
			c = t.R[i]
		}
		if got := cs.Peek(); got != c {
			return fmt.Sprintf("char at %d is %q, expected %q", i, got, c)
		}
		return ""
	}
	// lookups are linear in the number of lines
	look := func(cur int) string {
		step := 1
		if l := t.LC[n][0]; l > 600 {
			step = 1 + n/(1<<22/l)
		}
		for i := 0; i < cur; i++ {
			if step > 1 && i%step != 0 && i > 40 && i < cur-40 {
				continue
			}
			if got := toPos(cs.PositionLookup(i)); got != posOf(t.LC, i) {
				return fmt.Sprintf("position of %d is %v, expected %v (%d chars read)", i, got, posOf(t.LC, i), cur)
			}
		}
		for _, i := range []int{-1, n, n + 1} {
			if p := cs.PositionLookup(i); p != nil {
				return fmt.Sprintf("position of %d is %v, there are %d chars", i, p, n)
			}
		}
		return ""
	}
	read := func(from int, ask bool) string {
		for i := from; i < n; i++ {
			if ask {
				if s := at(i); s != "" {
					return s
				}
			}
			if c := cs.Next(); c != t.R[i] {
				return fmt.Sprintf("char %d is %q, expected %q", i, c, t.R[i])
			}
		}
		return at(n)
	}
	switch way {
	case "next":
		if s := read(0, false); s != "" {
			return s
		}
	case "next and position":
		if s := read(0, true); s != "" {
			return s
		}
	case "skip and match":
		for i := 0; i < n; {
			b := i
			for i < n && spec.White(t.R[i]) {
				i++
			}
			if rs := cs.SkipSpaces(); !runesEq(rs, t.R[b:i]) {
				return fmt.Sprintf("%d chars of white space are skipped at %d, expected %d", len(rs), b, i-b)
			}
			b = i
			for i < n && !spec.White(t.R[i]) {
				i++
			}
			if rs, ok := cs.Match(t.R[b:i]); !ok || !runesEq(rs, t.R[b:i]) {
				return fmt.Sprintf("%d chars are matched at %d (%v), expected %d", len(rs), b, ok, i-b)
			}
			if s := at(i); s != "" {
				return s
			}
		}
	case "push back at the end":
		if s := read(0, false); s != "" {
			return s
		}
		if x := pushBack(cs, append([]rune(nil), t.R...)); x != nil {
			cs = x
			if s := at(0); s != "" {
				return s
			}
			if s := read(0, true); s != "" {
				return s
			}
		}
	case "push back on the way":
		for i := 0; i < n; i += 1 + n/7 {
			for cs.Cursor() < n && cs.Cursor() < i+n/3 {
				cs.Next()
			}
			k := cs.Cursor() - i
			if x := pushBack(cs, append([]rune(nil), t.R[i:i+k]...)); k > 0 && x != nil {
				cs = x
			} else {
				break
			}
			if s := at(i); s != "" {
				return s
			}
			if s := look(i); s != "" {
				return s
			}
		}
		if s := read(cs.Cursor(), true); s != "" {
			return s
		}
	case "push back every char":
		for i := 0; i < n; i++ {
			cs.Next()
			if x := pushBack(cs, []rune{t.R[i]}); x != nil {
				cs = x
			}
			if s := at(i); s != "" {
				return s
			}
			cs.Next()
		}
		if s := at(n); s != "" {
			return s
		}
	}
	return look(n)
}

func (c *Ctx) farStreams() {
	c.each(len(scaleAt)*len(farWays), func(w *W, i int) {
		n, way := scaleAt[len(scaleAt)-1-i/len(farWays)], farWays[i%len(farWays)]
		if way == "push back every char" && n > 2049 {
			return
		}
		for _, s := range farTexts(n) {
			cs := Case{Kind: "farstream", Text: s, Extra: way}
			w.do(&cs, func() string { return w.farStream(mkText(s), way) })
		}
	})
	c.sample(map[string]interface{}{"family": "scale", "sizes": scaleAt, "ways": farWays})
}

// farHistory evaluates again and again on one grammar; at every size of scaleAt everything is as at first.
func (w *W) farHistory(src, text string) string {
	g, err := xbnf.NewGrammarFromString(src)
	if err != nil {
		return "grammar: " + err.Error()
	}
	want := probe(g, "r", text)
	at := 0
	d := &detRun{g: g}
	for i := 1; i <= scaleAt[len(scaleAt)-1]; i++ {
		d.step(i%4, "r", text) // evaluations only
		d.asts = d.asts[:0]
		w.trans++
		if i == scaleAt[at] || i == scaleAt[at]+1 {
			w.states++
			w.traces++
			if i > scaleAt[at] {
				at++
			}
			if got := probe(g, "r", text); got != want {
				return fmt.Sprintf("after %d evaluations: %s", i, firstDiff(got, want))
			}
		}
		if i&1023 == 0 {
			w.beat()
		}
	}
	return ""
}

func (c *Ctx) farHistories(gs, ts []string) {
	c.each(len(gs)*len(ts), func(w *W, i int) {
		cs := Case{Kind: "farhistory", Src: gs[i/len(ts)], Text: ts[i%len(ts)]}
		w.do(&cs, func() string { return w.farHistory(cs.Src, cs.Text) })
	})
	c.sample(map[string]interface{}{"family": "many evaluations on one grammar", "up to": scaleAt[len(scaleAt)-1], "grammars": len(gs), "texts": ts})
}

// farBuild adds one rule after the other.
func (w *W) farBuild(kind string, max int) string {
	g := xbnf.NewGrammar()
	m := spec.NewGrammar()
	def := func(i int) string {
		switch kind {
		case "chain": // every rule uses the next one, which is not there yet
			return fmt.Sprintf("n%d = 'a' [n%d]", i, i+1)
		case "users": // every rule is used by the next
			if i == 0 {
				return "n0 = 'a'"
			}
			return fmt.Sprintf("n%d = 'b' n%d", i, i-1)
		case "one": // all use the same
			if i == 0 {
				return "n0 = 'a' | \"b\""
			}
			return fmt.Sprintf("n%d = '%c' n0", i, letter(i))
		}
		return fmt.Sprintf("n%d = \"%c%d\"", i, letter(i), i) // roots
	}
	at := 0
	for i := 0; i < max; i++ {
		d := def(i)
		w.trans++
		if _, err := g.AddRule(d); err != nil {
			return fmt.Sprintf("rule %d, %q: %v", i+1, d, err)
		}
		if err := m.Add(d); err != nil {
			return err.Error()
		}
		if _, err := g.AddRule(def(i / 2)); err == nil {
			return fmt.Sprintf("rule %d is accepted again as rule %d", i/2+1, i+2)
		}
		if i+1 != scaleAt[at] {
			continue
		}
		at++
		w.states++
		w.traces++
		w.beat()
		und := undefined(m)
		err := g.Validate()
		if (err == nil) != (len(und) == 0) || err != nil && !strings.Contains(err.Error(), und[0]) {
			return fmt.Sprintf("%d rules: validation says %v, undefined are %q", i+1, err, und)
		}
		if s := printed(g, m, len(und) == 0); s != "" {
			return fmt.Sprintf("%d rules: %s", i+1, s)
		}
		if len(und) > 0 {
			continue
		}
		texts := []string{"a", strings.Repeat("b", i) + "a", "b" + string(letter(i)) + "a", fmt.Sprintf("%c%d", letter(i), i), fmt.Sprintf("%c%d ", letter(i/2), i/2), "b", ""}
		for _, s := range texts {
			t := mkText(s)
			a, err := g.EvalRaw(xbnf.NewCharstreamFromString(s))
			if msg := w.againstModel(m, t, a, err); msg != "" {
				return fmt.Sprintf("%d rules, on %q: %s", i+1, clip(s), msg)
			}
		}
	}
	return ""
}

func (c *Ctx) farBuilds() {
	kinds := []string{"chain", "users", "one", "roots"}
	c.each(len(kinds), func(w *W, i int) {
		max := map[string]int{"chain": 1025, "users": 513, "one": 1025, "roots": 513}[kinds[i]]
		cs := Case{Kind: "farbuild", Extra: kinds[i], Flag: max}
		w.do(&cs, func() string { return w.farBuild(kinds[i], max) })
	})
}

// farTree is a tree with n children, n levels, or a long text.
func farTree(kind string, n int) *spec.Node {
	var sh []int
	switch kind {
	case "wide", "mixed":
		sh = append(sh, n)
		for i := 0; i < n; i++ {
			sh = append(sh, 0)
		}
	case "deep":
		for i := 0; i < n; i++ {
			sh = append(sh, 1)
		}
		sh = append(sh, 0)
	case "comb":
		for i := 0; i < n; i++ {
			sh = append(sh, 2, 0)
		}
		sh = append(sh, 0)
	case "text":
		sh = []int{3, 0, 0, 0}
	case "beside", "beside-named": // a wide node between two others
		sh = append(sh, 3, 0, n)
		for i := 0; i < n+1; i++ {
			sh = append(sh, 0)
		}
	case "only": // a wide node alone
		sh = append(sh, 1, n)
		for i := 0; i < n; i++ {
			sh = append(sh, 0)
		}
	case "rows":
		sh = append(sh, n)
		for i := 0; i < n; i++ {
			sh = append(sh, 2, 0, 0)
		}
	case "deep-named":
		for i := 0; i < n; i++ {
			sh = append(sh, 1)
		}
		sh = append(sh, 0)
	}
	return plant(sh, func(i int, leaf bool) attr {
		switch {
		case !leaf && kind == "comb":
			return attr{"cgr"[i%3], []string{"", "n"}[i%5&1], i % 7 & 1 * 8, ""}
		case !leaf && kind == "beside-named" || !leaf && kind == "deep-named" && i%2 == 0:
			return attr{"cgr"[i%3], "n", 0, ""}
		case !leaf && kind == "rows":
			return attr{"cgrb"[i%4], []string{"", "n"}[i%11/10], []int{0, 8, 2, 4}[i%9%4], ""}
		case !leaf:
			return attr{"cgr"[i%3], "", 0, ""}
		case kind == "text":
			return attr{'s', "", i % 2 * 8, strings.Repeat("ab", n/2) + "c"}
		case kind == "mixed" || kind == "rows":
			return attr{"sk"[i%2], []string{"", "n"}[i%11/10], []int{0, 8, 8, 2, 8, 12, 4}[i%7], "a"}
		}
		return attr{'s', "", 0, "a"}
	})
}

var farTreeKinds = []string{"wide", "mixed", "deep", "comb", "text", "beside", "beside-named", "only", "rows", "deep-named"}

// farTrees does f with each of them, up to the sizes at which the work itself stays small.
func (c *Ctx) farTrees(kind string, deep, wide int, f func(w *W, n *spec.Node) string) {
	type job struct {
		k string
		n int
	}
	var jobs []job
	for _, k := range farTreeKinds {
		for _, n := range scaleAt {
			if strings.HasPrefix(k, "deep") && n > deep || k == "rows" && n > wide/4 || k == "comb" && n > min(deep, 257) || n > wide {
				continue
			}
			jobs = append(jobs, job{k, n})
		}
	}
	c.each(len(jobs), func(w *W, i int) {
		j := jobs[len(jobs)-1-i]
		cs := Case{Kind: kind, Extra: j.k, Flag: j.n}
		w.do(&cs, func() string { return f(w, farTree(j.k, j.n)) })
	})
	c.sample(map[string]interface{}{"family": "scale", "kinds": farTreeKinds, "depth up to": deep, "width up to": wide})
}

// farDefs are definitions, good and bad, as long as scaleAt tells.
func farDefs(max int) []string {
	var out []string
	rp := strings.Repeat
	for _, n := range scaleAt {
		if n > max {
			break
		}
		l := alphaStr(n)
		out = append(out, "'"+l+"'", "'"+l, "\""+l+"\" 'a'", "\""+l+"' 'a'", rp(" ", n)+"'a'"+rp("\t", n)+"'b'"+rp(" ", n), "'a' // "+rp("'", n),
			"'"+rp("\\u0061", n)+"'", "'"+rp("\\u0061", n)+"\\u006'", "'"+rp("\\", n)+"'", "'"+rp("\\'", n)+"'",
			"'a' x"+rp("x", n), "'a' x"+rp("_1", n)+"$", "{'a'}<"+rp("0", n)+"2>", "{'a'}<"+rp(" ", n)+"1,"+rp(" ", n)+"3>", "{'a'}<1"+rp(" ", n)+"x>",
			"'a'"+rp(" 'b'", n), "'a'"+rp(" | 'b'", n), "'a'"+rp(" > \"b\"", n), "'a'"+rp(" | 'b'", n)+" |", "'a'"+rp(" > 'b'", n)+" >", "'a'"+rp(" [x]", n)+" ]",
			"<'a' "+rp("'b' ", min(n, 3))+"'c'>", "<'a'"+rp(" ^x", n)+" 'c'>", "<'a'"+rp(" ^'b'", n)+" 'c'", rp("~", min(n, 4))+"'a'", "'a'"+rp(" 'b'", n)+" 'c")
		if n <= 257 {
			for _, k := range []string{"()", "[]", "{}"} {
				o, e := k[:1], k[1:]
				out = append(out, rp(o, n)+"'a'"+rp(e, n), rp(o, n)+"'a'"+rp(e, n-1), rp(o, n)+"'a'"+rp(e, n+1), rp(o+"'b' > ", n)+"'a' >"+rp(e, n))
				if n <= 101 {
					out = append(out, rp(o+" 'b' | ", n)+"'a'"+rp(e+" 'c'", n))
				}
			}
			out = append(out, rp("([{", n/3)+"'a'"+rp("}])", n/3), rp("([{", n/3)+"'a'"+rp("]})", n/3), rp("<", n)+"'a'"+rp(" 'b'>", n), rp("<", n)+"'a'"+rp(" 'b'>", n-1))
		}
	}
	return out
}
