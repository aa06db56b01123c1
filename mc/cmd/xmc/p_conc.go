package main

import (
	"fmt"
	"strings"

	"xmc/spec"
	"xmc/xsched"

	"github.com/cnsgfk/xbnf"
)

func init() {
	register(&prop{id: "C11", level: "model_checking", assume: []string{
		"the callers run under a controlled scheduler which may interrupt them before every statement of the library and at every lock operation; preemptions up to the stated bound",
		"locks are replaced by equivalent ones which the scheduler knows; memory accesses are watched by the race detector under the happens-before order of these locks"},
		rule: "every schedule (preemption bound) of pairs and triples of evaluations (whole text at every level, one rule, embedded, failing ones; results simplified, counted and printed) on one shared grammar; every caller's result compared with the same evaluation done alone, the grammar's behaviour afterwards with a fresh one, no data race, no deadlock",
		run:  runConc, replay: replayConc})
}

// concOps are what a caller does with the shared grammar.
var concOps = []string{"raw", "basic", "novirtual", "dataonly", "rule", "embed", "print", "fail", "getrule", "serialize"}

func concDo(g *xbnf.Grammar, op int, text string) string {
	level := func(l int) string {
		a, err := g.Eval(xbnf.NewCharstreamFromString(text), l)
		return showAST(a, err)
	}
	switch concOps[op] {
	case "raw":
		return level(xbnf.LevelRaw)
	case "basic":
		return level(xbnf.LevelBasic)
	case "novirtual":
		return level(1)
	case "dataonly":
		return level(xbnf.LevelDataOnly)
	case "rule":
		return showResult(g.EvalRule("r", text))
	case "embed":
		return showResult(g.EvalEmbed("r", "z"+text+"z"))
	case "print":
		a, err := g.EvalRaw(xbnf.NewCharstreamFromString(text))
		if err != nil {
			return err.Error()
		}
		s := a.StringTree(nil) + fmt.Sprint(a.CountNodes())
		a.MergeStickyNodes()
		a.RemoveVirtualNodes()
		a.RemoveNonDataNodes()
		a.RemoveRedundantNodes()
		for _, n := range a.Nodes {
			s += n.StringTree(nil) + string(n.Text())
		}
		return s
	case "fail":
		a, err := g.Eval(xbnf.NewCharstreamFromString(text+"\x01"), xbnf.LevelBasic)
		return showAST(a, err)
	case "getrule":
		s := ""
		if r := g.GetRule("r"); r != nil {
			s = r.String()
		}
		return s
	case "serialize":
		s := g.Serialize(true)
		if r := g.GetRecord("r"); r != nil {
			s += r.Rule().StringWithIndent(" ") + r.Rule().Name()
		}
		return s
	}
	panic("op")
}

func (w *W) concEval(bound int, src string, ops []int, ts []string) string {
	alone := make([]string, len(ops))
	for i := range ops {
		g, err := xbnf.NewGrammarFromString(src)
		if err != nil {
			return "grammar: " + err.Error()
		}
		alone[i] = concDo(g, ops[i], ts[i])
	}
	r := &xsched.Run{}
	for n := 0; ; n++ {
		// a shared grammar is made anew for every schedule: what callers leave behind may only show once
		g, err := xbnf.NewGrammarFromString(src)
		if err != nil {
			return "grammar: " + err.Error()
		}
		got := make([]string, len(ops))
		var fs []func()
		for i := range ops {
			i := i
			fs = append(fs, func() { set(got, i, concDo(g, ops[i], ts[i])) })
		}
		s, problem := xsched.RunTasks(r, bound, fs)
		w.states++
		w.traces++
		w.trans += int64(s.Steps)
		w.beat()
		if problem != "" {
			return fmt.Sprintf("schedule %v: %s", r.Choices(), problem)
		}
		for i := range ops {
			if got[i] != alone[i] {
				return fmt.Sprintf("schedule %v: caller %d (%s) %s", r.Choices(), i, concOps[ops[i]], firstDiff(got[i], alone[i]))
			}
		}
		if n%16 == 0 {
			if x := concDo(g, ops[0], ts[0]); x != alone[0] {
				return fmt.Sprintf("schedule %v: afterwards %s", r.Choices(), firstDiff(x, alone[0]))
			}
			if m := raced(); m != "" {
				return m
			}
			if w.c.stop.Load() {
				return ""
			}
		}
		if r.Over {
			return "schedule too long"
		}
		if !r.Next() {
			break
		}
	}
	return raced()
}

//go:norace
func set(a []string, i int, s string) { a[i] = s }

func concCase(bound int, src string, ops []int, ts []string) Case {
	var p []string
	for _, o := range ops {
		p = append(p, concOps[o])
	}
	return Case{Kind: "conceval", Src: src, Text: strings.Join(ts, "\x00"), Flag: bound, Extra: strings.Join(p, ",")}
}

var concGrammars = []string{
	"r = 'a'",
	"r = {'a' | 'ab'}+",
	"r = \"a\" [\"b\"]",
	"r = x | y\nx = 'a' 'b'\ny = ~'a' #['c']",
	"r = <'a' 'b' ^'z' '\\n'>",
	"r = #x > ~{y}\nx = $'ab'\ny = 'a'-'b'",
	"r = 'a' [r] 'b'",
	"r = {'a'}\ns = {\"b\"} \"b\"",
	"r = ('ab' | 'a' 'b')",
	"r = 'a'-'b' [EOF] {\"b\"}<1,2>",
}

func runConc(c *Ctx) {
	var jobs []func(w *W)
	add := func(bound int, src string, ops []int, ts []string) {
		jobs = append(jobs, func(w *W) {
			cs := concCase(bound, src, ops, ts)
			w.do(&cs, func() string { return w.concEval(bound, src, ops, ts) })
		})
	}
	tx := []string{"ab", "a b", "aab", "b", ""}
	for gi, src := range concGrammars {
		for a := range concOps {
			for b := a; b < len(concOps); b++ {
				for ti := 0; ti < c.pick(2, 4); ti++ {
					add(1, src, []int{a, b}, []string{tx[ti], tx[(ti+gi+a+b)%len(tx)]})
				}
			}
		}
	}
	// small evaluations with more preemptions
	if c.Thorough {
		for _, src := range concGrammars[:2] {
			add(2, src, []int{4, 4}, []string{"a", "b"})
			add(2, src, []int{4, 4}, []string{"a", "a"})
			add(2, src, []int{4, 0}, []string{"b", "a"})
		}
	}
	// three callers
	for gi, src := range concGrammars {
		for a := range concOps {
			b, d := (a+gi)%len(concOps), (a*2+gi+1)%len(concOps)
			add(c.pick(0, 1), src, []int{a, b, d}, []string{"ab", "a", "b"})
		}
	}
	if c.Thorough {
		for _, r := range coreGen(ab()...).UpTo(4) {
			src := spec.G(r).Src()
			for _, a := range []int{2, 4, 5} {
				add(1, src, []int{a, 4}, []string{"ab", "a"})
			}
		}
	}
	c.sample(map[string]interface{}{"grammars": concGrammars, "callers do": concOps, "cases": len(jobs)})
	c.each(len(jobs), func(w *W, i int) { jobs[i](w) })
}

func replayConc(w *W, c Case) string {
	var ops []int
	for _, n := range strings.Split(c.Extra, ",") {
		for i, o := range concOps {
			if o == n {
				ops = append(ops, i)
			}
		}
	}
	return w.concEval(c.Flag, c.Src, ops, strings.Split(c.Text, "\x00"))
}
