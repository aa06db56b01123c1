package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"xmc/spec"

	"github.com/cnsgfk/xbnf"
)

func init() {
	register(&prop{id: "C24", level: "model_checking", assume: []string{
		"which terminals were tried where is taken from the reference model in mc/spec",
		"small scope: rules and texts up to the stated bounds, plus the long families"},
		rule: "every rule of the evaluation families x text x leading-space mode x start which does not match, every parse which fails and every ambiguity: every place and terminal named in the error is compared with the failures of the model, and at least one of those is named; the error of a choice is that of an alternative which got furthest",
		run:  runErrors, replay: replayErrors})
	register(&prop{id: "C25", level: "model_checking", assume: []string{
		"texts of definitions up to the stated number of lines over the listed lines"},
		rule: "every text of up to n lines over a pool of definitions (good, bad, duplicate, undefined references), comments, blank lines and line ends, loaded from a string and from a file: line and name in the error, line of each definition when printed",
		run:  runLines, replay: replayLines})
}

var (
	missingAt = regexp.MustCompile(`missing ((?s).*?) at (EOF|L(\d+):(\d+))`)
	anyPlace  = regexp.MustCompile(`L(\d+):(\d+)`)
	lessThan  = regexp.MustCompile(`(\d+) less than minimal (\d+)`)
)

// names says whether an error calls the rule what: its name, or its own text.
func names(r *rule, what string) bool {
	if r.Name != "" && what == r.Name {
		return true
	}
	switch r.K {
	case spec.Char, spec.Chars, spec.Str:
		return strings.Contains(what, string(r.S))
	case spec.Range:
		return strings.Contains(what, string(r.Lo)) && strings.Contains(what, string(r.Hi))
	}
	return true // a longer rule: its description is not looked at
}

// at says whether the place, EOF or a line and column, is where the terminal was tried.
func (t *Text) at(e *spec.Err, m []string) bool {
	if m[2] == "EOF" {
		return e.Q >= len(t.R)
	}
	l, _ := strconv.Atoi(m[3])
	c, _ := strconv.Atoi(m[4])
	return e.K == "missing" && (t.LC[e.P] == [2]int{l, c} || t.LC[e.Q] == [2]int{l, c})
}

// shown says whether the error tells this reason.
func shown(msg string, found [][]string, e *spec.Err, t *Text) bool {
	switch e.K {
	case "missing", "unclosed":
		for _, m := range found {
			if names(e.R, m[1]) && t.at(e, m) {
				return true
			}
		}
		return false
	case "eof":
		return strings.Contains(msg, "missing EOF")
	case "undefined":
		return strings.Contains(msg, e.R.Ref) && strings.Contains(msg, "not defined")
	case "few":
		for _, m := range lessThan.FindAllStringSubmatch(msg, -1) {
			if m[1] == strconv.Itoa(e.N) && m[2] == strconv.Itoa(e.R.Min) {
				return true
			}
		}
		return false
	case "excluded":
		return strings.Contains(msg, "`"+string(e.Text)+"`")
	case "ambiguous":
		if !strings.Contains(msg, "ambigu") || !strings.Contains(msg, e.R.Name) {
			return false
		}
		for i, x := range e.Alts {
			for _, y := range e.Alts[i+1:] {
				if strings.Contains(msg, x.Name+": "+string(x.Text())) && strings.Contains(msg, y.Name+": "+string(y.Text())) {
					return true
				}
			}
		}
		return false
	}
	return true
}

// truthful compares an error with the reasons there are; every list in all has one which is told.
func truthful(msg string, all [][]spec.Err, t *Text) string {
	found := missingAt.FindAllStringSubmatch(msg, -1)
	var list []string
	for _, errs := range all {
		told := len(errs) == 0
		for i := range errs {
			told = told || shown(msg, found, &errs[i], t)
			list = append(list, reason(&errs[i], t))
		}
		if !told {
			return fmt.Sprintf("the error %q tells none of the reasons %q", msg, list)
		}
	}
	places := 0
	for _, m := range found {
		if m[2] != "EOF" {
			places++
		}
		ok := false
		for _, errs := range all {
			for i := range errs {
				e := &errs[i]
				ok = ok || (e.K == "missing" || e.K == "unclosed") && names(e.R, m[1]) && t.at(e, m)
			}
		}
		if !ok {
			return fmt.Sprintf("the error says %q, the reasons are %q", m[0], list)
		}
	}
	if n := len(anyPlace.FindAllString(msg, -1)); n != places {
		return fmt.Sprintf("the error %q names %d places, %d with what is missing", msg, n, places)
	}
	return ""
}

func reason(e *spec.Err, t *Text) string {
	d := ""
	if e.R != nil {
		d = e.R.Src()
	}
	return fmt.Sprintf("%s %s at %d,%d (L%d:%d)", e.K, d, e.P, e.Q, t.LC[e.P][0], t.LC[e.P][1])
}

// evalError looks at the error of one rule evaluation.
func (w *W) evalError(p *Pair, rule string, t *Text, flag, start int) string {
	ev := spec.Ev{G: p.M, T: t.R, Why: true}
	m := ev.Eval(p.M.Rules[rule], start, flag)
	w.states++
	w.trans += int64(ev.Steps)
	if m.Ok {
		return ""
	}
	w.count("failures")
	cs := xbnf.NewCharstreamFromString(t.S)
	for i := 0; i < start; i++ {
		cs.Next()
	}
	r := p.R.GetRecord(rule).Rule().Eval(p.R, cs, flag)
	w.traces++
	if r.Node != nil {
		return "" // acceptance is C01's
	}
	if r.Error == nil {
		return "no match and no error"
	}
	if msg := truthful(r.Error.Error(), [][]spec.Err{m.Errs}, t); msg != "" {
		return msg
	}
	return errIdx(r.ErrIdx, m.Errs, t)
}

// errIdx: the index of the error lies where a terminal that is missing was tried.
func errIdx(i int, errs []spec.Err, t *Text) string {
	if i < 0 || i > len(t.R) {
		return fmt.Sprintf("the error is said to be at %d of %d", i, len(t.R))
	}
	for _, e := range errs {
		switch {
		case e.K == "ambiguous" || e.K == "undefined": // there is none
			return ""
		case i < e.P:
		case e.K != "missing" || e.Rep || i <= e.Q+len(e.R.S):
			return ""
		}
	}
	var list []string
	for k := range errs {
		list = append(list, reason(&errs[k], t))
	}
	return fmt.Sprintf("the error is said to be at %d, the reasons are %q", i, list)
}

// parseError looks at the errors of a whole parse, started at index start.
func (w *W) parseError(p *Pair, t *Text, start int) string {
	ev := spec.Ev{G: p.M, T: t.R, Why: true}
	m := ev.ParseFrom(start)
	w.states++
	w.trans += int64(ev.Steps)
	if m.Ok {
		return ""
	}
	w.count("parse " + m.Why)
	for _, level := range []int{-1, xbnf.LevelDataOnly} {
		cs := xbnf.NewCharstreamFromString(t.S)
		for i := 0; i < start; i++ {
			cs.Next()
		}
		var err error
		if level < 0 {
			_, err = p.R.EvalRaw(cs)
		} else {
			_, err = p.R.Eval(cs, level)
		}
		w.traces++
		if err == nil {
			continue // acceptance is C02's
		}
		msg := err.Error()
		switch m.Why {
		case "nomatch":
			if s := truthful(msg, m.Errs, t); s != "" {
				return s
			}
			if s := rootsNamed(p.M, msg); s != "" {
				return s
			}
		case "noprogress":
			if s := rootsNamed(p.M, msg); s != "" {
				return s
			}
		case "ambiguous":
			if s := ambiguity(msg, m.Tied, t); s != "" {
				return s
			}
		}
	}
	return ""
}

var (
	word    = regexp.MustCompile(`\w+`)
	reasons = regexp.MustCompile("missing|less than|not allowed|not defined|no char|ambigu")
)

// rootsNamed: a parse which can't go on says what must be there, that is every root.
func rootsNamed(g *spec.Grammar, msg string) string {
	head := msg // what comes before the first reason
	if at := reasons.FindStringIndex(msg); at != nil {
		head = msg[:at[0]]
	}
	told := map[string]bool{}
	for _, x := range word.FindAllString(head, -1) {
		told[x] = true
	}
	for _, n := range g.Roots() {
		if !told[n] && !told[g.Rules[n].Ref] { // a root which is the name of another rule goes by that name
			return fmt.Sprintf("the error %q leaves out the root rule %s", msg, n)
		}
	}
	return ""
}

var tie = regexp.MustCompile(`(?s)^ambiguity found: (\w+)\("(.*)"\) vs (\w+)\("(.*)"\)$`)

// ambiguity: the two rules named are different ones of those tied, and the texts are what they match.
func ambiguity(msg string, tied []spec.Tie, t *Text) string {
	m := tie.FindStringSubmatch(msg)
	if m == nil {
		if !strings.Contains(msg, "ambigu") {
			return fmt.Sprintf("the error %q does not say that %v match the same", msg, tied)
		}
		return ""
	}
	is := func(x spec.Tie, name, text string) bool {
		return x.Name == name && string(t.R[x.Start:x.End]) == text
	}
	// a root which is the name of another rule goes by that name, so that both can have the same one
	for i, x := range tied {
		for j, y := range tied {
			if i != j && is(x, m[1], m[2]) && is(y, m[3], m[4]) {
				return ""
			}
		}
	}
	return fmt.Sprintf("the error says %q, the rules which match the same are %v", msg, tied)
}

// sweepErr runs grammars x texts x flags x starts; every case is an evaluation of rule, or a parse if rule is "".
func (c *Ctx) sweepErr(kind string, gs []*spec.Grammar, rule string, ts []*Text, flags []int, starts int) {
	if len(gs) > 0 {
		c.sample(map[string]string{"family": kind, "first grammar": gs[0].Src(), "last grammar": gs[len(gs)-1].Src(), "last text": clip(ts[len(ts)-1].S),
			"size": fmt.Sprintf("%d grammars x %d texts x %d flags", len(gs), len(ts), len(flags))})
	}
	c.each(len(gs), func(w *W, i int) {
		p := mustPair(w, gs[i])
		if p == nil {
			return
		}
		for _, t := range ts {
			for st := 0; st <= starts && st <= len(t.R); st++ {
				if rule == "" {
					cs := Case{Kind: "parse", Src: p.Src, Text: t.S, Start: st}
					w.do(&cs, func() string { return w.parseError(p, t, st) })
				} else {
					for _, f := range flags {
						cs := Case{Kind: "eval", Src: p.Src, Rule: rule, Text: t.S, Flag: f, Start: st}
						w.do(&cs, func() string { return w.evalError(p, rule, t, f, st) })
					}
				}
				if c.stop.Load() {
					return
				}
			}
		}
	})
}

// furthest: the error of a choice is the one of an alternative which got furthest.
func (w *W) furthest(p *Pair, t *Text, flag int) string {
	ev := spec.Ev{G: p.M, T: t.R}
	w.states++
	if m := ev.Eval(p.M.Rules["r"], 0, flag); m.Ok || m.Amb {
		return ""
	}
	w.trans += int64(ev.Steps)
	run := func(n string) *xbnf.EvalResult {
		w.traces++
		return p.R.GetRecord(n).Rule().Eval(p.R, xbnf.NewCharstreamFromString(t.S), flag)
	}
	r := run("r")
	if r.Node != nil || r.Error == nil {
		return ""
	}
	w.count("choices")
	max := -1
	var best []string
	for _, n := range p.M.Names[1:] {
		x := run(n)
		if x.Node != nil || x.Error == nil {
			return ""
		}
		if x.ErrIdx > max {
			max, best = x.ErrIdx, nil
		}
		if x.ErrIdx == max {
			best = append(best, x.Error.Error())
		}
	}
	for _, b := range best {
		if strings.HasSuffix(r.Error.Error(), b) && r.ErrIdx == max {
			return ""
		}
	}
	return fmt.Sprintf("the error of the choice is %q at %d, the furthest alternatives fail with %q at %d", r.Error, r.ErrIdx, best, max)
}

func famFurthest(big int) []*spec.Grammar {
	pool := []*rule{spec.C('a'), spec.Cs("ab"), spec.S("ab"), spec.Cat(spec.C('a'), spec.C('b')), spec.Cat(spec.S("a"), spec.S("b")), spec.Cat(spec.Op(spec.Cs("ba")), spec.C('a')),
		spec.Re(spec.C('a'), 2, 0), spec.R('c', 'd'), spec.Cat(spec.Re(spec.C('b'), 0, 0), spec.Cs("aa")), spec.Bl(spec.C('a'), nil, nil, spec.C('b'), false)}
	var out []*spec.Grammar
	for k := 2; k <= big; k++ {
		tuples(pool, k, func(t []*rule) {
			var ns []*rule
			for i := range t {
				ns = append(ns, spec.N("x"+itoa(i)))
			}
			joins(ns, func(r *rule) {
				g := spec.NewGrammar().Def("r", r)
				for i, x := range t {
					g.Def("x"+itoa(i), x)
				}
				out = append(out, g)
			})
		})
	}
	return out
}

// roots are grammars of several root rules.
func famRoots(big int) []*spec.Grammar {
	pool := []*rule{spec.C('a'), spec.C('b'), spec.Cs("ab"), spec.Cat(spec.C('a'), spec.Op(spec.C('b'))), spec.S("a"), spec.Cat(spec.S("b"), spec.S("a")), spec.Re(spec.C('a'), 1, 2),
		spec.Alt(spec.Cs("aa"), spec.Cs("ba")), spec.Cat(spec.R('a', 'b'), spec.S(" ")), spec.Bl(spec.C('b'), nil, []*rule{spec.Cs("aa")}, spec.C('b'), false), spec.N("u"), spec.Re(spec.C('a'), 1, 0), spec.Alt(spec.Cs("abb"), spec.C('a'))}
	var out []*spec.Grammar
	for k := 1; k <= big; k++ {
		tuples(pool, k, func(t []*rule) {
			g := spec.NewGrammar()
			for i, x := range t {
				g.Def("r"+itoa(i), x)
			}
			g.Def("u", spec.Cat(spec.C('b'), spec.Alt(spec.Cs("ab"), spec.C('b'))))
			out = append(out, g)
		})
	}
	return out
}

// famManyRoots are grammars of up to n root rules, all of them alike but for their last char.
func famManyRoots(n int) []*spec.Grammar {
	var out []*spec.Grammar
	for k := 1; k <= n; k++ {
		if k > 36 && k&(k-1) != 0 && (k-1)&(k-2) != 0 {
			continue
		}
		g, h := spec.NewGrammar(), spec.NewGrammar()
		for i := 0; i < k; i++ {
			g.Def("r"+itoa(i), spec.Cat(spec.C('a'), spec.C(rune('c'+i))))
			h.Def("r"+itoa(k-i), spec.Op(spec.Cs("b"+string(rune('c'+i)))))
		}
		out = append(out, g, h)
	}
	return out
}

// famExcluded are blocks of which what is excluded has more than one reading, or is read beyond its end.
func famExcluded() []*rule {
	pool := []*rule{spec.C('x'), spec.Cs("xyz"), spec.Cs("xy"), spec.S("x"), spec.Re(spec.C('x'), 1, 0), spec.Gr(spec.Cat(spec.C('x'), spec.Op(spec.Cs("yz")))), spec.Re(spec.Cs("xy"), 1, 2), spec.Gr(spec.Alt(spec.Cs("xyzz"), spec.C('y')))}
	var out []*rule
	for _, e := range []*rule{nil, spec.C('e')} {
		for k := 1; k <= 3; k++ {
			tuples(pool, k, func(t []*rule) {
				out = append(out, spec.Bl(spec.C('o'), e, t, spec.C('c'), false))
			})
		}
	}
	return out
}

func runErrors(c *Ctx) {
	g := coreGen(ab()...)
	c.sweepErr("core", single(g.UpTo(c.pick(4, 5))), "r", mkTexts(texts("ab\n", 4)), flagsAll, 1)
	m := mixGen()
	c.sweepErr("mixed", withX(m.UpTo(c.pick(4, 5))), "r", mkTexts(texts("a\n b", 4)), flagsTwo, 1)
	c.sweepErr("blocks", single(famBlocks(c.Thorough)), "r", mkTexts(texts("ab\n", c.pick(4, 5))), flagSkip, 0)
	c.sweepErr("exclusions", single(famExclusions()), "r", mkTexts(texts("oxyec", c.pick(3, 4))), flagSkip, 0)
	var ls []longCase = famLong(c.pick(10, 24))
	c.each(len(ls), func(w *W, i int) {
		p := mustPair(w, ls[i].g)
		if p == nil {
			return
		}
		for _, s := range ls[i].ts {
			t := mkText("\n " + s)
			cs := Case{Kind: "eval", Src: p.Src, Rule: "r", Text: t.S, Flag: spec.Skip}
			w.do(&cs, func() string { return w.evalError(p, "r", t, spec.Skip, 0) })
		}
	})
	c.scaleBy("eval", 4200, func(w *W, p *Pair, t *Text) string { return w.evalError(p, "r", t, spec.Skip, 0) })
	c.sweepErr("parse", single(g.UpTo(c.pick(4, 5))), "", mkTexts(texts("ab\n", 4)), nil, 1)
	c.sweepErr("excluded", single(famExcluded()), "r", prefixed("o", texts("xyzec", c.pick(3, 4))), flagSkip, 0)
	c.sweepErr("many roots", famManyRoots(c.pick(65, 257)), "", mkTexts([]string{"a", "b", "ab", " a", "ac a", "bca", "bc ba", "\n\nb", "x"}), nil, 0)
	c.sweepErr("roots", famRoots(3), "", mkTexts(texts("ab \n", 4)), nil, 0)
	fs := famFurthest(c.pick(3, 4))
	ts := mkTexts(texts("ab ", 4))
	c.each(len(fs), func(w *W, i int) {
		p := mustPair(w, fs[i])
		if p == nil {
			return
		}
		for _, t := range ts {
			for _, f := range flagsTwo {
				cs := Case{Kind: "furthest", Src: p.Src, Text: t.S, Flag: f}
				w.do(&cs, func() string { return w.furthest(p, t, f) })
			}
		}
	})
	// EvalRule on a rule that does not exist
	c.each(1, func(w *W, i int) {
		for _, n := range []string{"nosuch", "R", "rr", ""} {
			cs := Case{Kind: "noname", Rule: n}
			w.do(&cs, func() string { return w.noName(n) })
		}
	})
}

func (w *W) noName(n string) string {
	g, err := xbnf.NewGrammarFromString("r = 'a' | s\ns = 'b'")
	if err != nil {
		return err.Error()
	}
	w.states++
	for i := 0; i < 2; i++ {
		w.traces++
		var r *xbnf.EvalResult
		if i == 0 {
			r = g.EvalRule(n, "ab")
		} else {
			r = g.EvalEmbed(n, "ab")
		}
		if r == nil || r.Node != nil || r.Error == nil || !strings.Contains(r.Error.Error(), "'"+n+"'") || !strings.Contains(r.Error.Error(), "not defined") {
			return fmt.Sprintf("evaluating the undefined rule %q gives %+v", n, r)
		}
	}
	return ""
}

func replayErrors(w *W, c Case) string {
	if c.Kind == "noname" {
		return w.noName(c.Rule)
	}
	if c.Kind == "grammar" {
		return replayEval(w, c)
	}
	p, msg := pairFromSrc(c.Src)
	if p == nil {
		return msg
	}
	t := mkText(c.Text)
	switch c.Kind {
	case "parse":
		return w.parseError(p, t, c.Start)
	case "furthest":
		return w.furthest(p, t, c.Flag)
	}
	return w.evalError(p, c.Rule, t, c.Flag, c.Start)
}
