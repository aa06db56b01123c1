package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/cnsgfk/xbnf"
)

func init() {
	register(&prop{id: "C20", level: "model_checking", assume: []string{
		"the command is built from the current tree and run as a process in a scratch folder, with a limit on its time",
		"what the library gives for the same grammar and text is taken from the library itself (the other checks decide the library)",
		"the exit code is not part of the property: the command reports errors on its output",
	},
		rule: "every combination of options from a pool of grammar files, rules, texts and files, good and bad, in every order; every grammar of a family x every text through -text and -file; the printed trees, the printed grammar and the reported errors are compared with those of the library",
		run:  runCLI, replay: replayCLI})
}

// cliArgs is one command line: what each option is given, by content.
type cliArgs struct {
	XBNF  *string // content of the grammar file; nil no option; "\x00missing" a file which isn't there
	Rules []string
	Texts []string
	Files []string
	Type  bool
	Mix   int    // order of the options
	Twice bool   // every file is named twice
	Name  string // the files' names begin with this
}

func (a cliArgs) json() string { b, _ := json.Marshal(a); return string(b) }

const missing = "\x00missing"
const isDir = "\x00dir"

func putFile(dir, name, content string) string {
	f := filepath.Join(dir, name)
	switch content {
	case missing:
		return f
	case isDir:
		os.Mkdir(f, 0o755)
		return f
	}
	os.WriteFile(f, []byte(content), 0o644)
	return f
}

// cli runs the command and compares what it prints.
func (w *W) cli(a cliArgs) string {
	dir, err := os.MkdirTemp("", "xmccli")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	var opts [][]string
	xfile := ""
	if a.XBNF != nil {
		xfile = putFile(dir, "g.xbnf", *a.XBNF)
		opts = append(opts, []string{"-xbnf", xfile})
	}
	for _, r := range a.Rules {
		opts = append(opts, []string{"-rule", r})
	}
	for _, t := range a.Texts {
		opts = append(opts, []string{"-text", t})
	}
	var files []string
	for i, f := range a.Files {
		p := putFile(dir, fmt.Sprintf("%st%d", a.Name, i), f)
		if a.Name != "" {
			p = filepath.Base(p)
		}
		files = append(files, p)
		opts = append(opts, []string{"-file", p})
	}
	if a.Twice {
		for _, p := range files[:len(files):len(files)] {
			files = append(files, p)
			opts = append(opts, []string{"-file", p})
		}
	}
	if a.Type {
		opts = append(opts, []string{"-showNodeType"})
	}
	var args []string
	switch a.Mix {
	case 0:
	case 1: // the same option keeps its order, others move
		var o [][]string
		for _, k := range []string{"-showNodeType", "-file", "-text", "-rule", "-xbnf"} {
			for _, x := range opts {
				if x[0] == k {
					o = append(o, x)
				}
			}
		}
		opts = o
	case 2: // spelled with = and two dashes
		for i, x := range opts {
			if len(x) == 2 {
				opts[i] = []string{"-" + x[0] + "=" + x[1]}
			} else {
				opts[i] = []string{x[0] + "=true"}
			}
		}
	}
	for _, x := range opts {
		args = append(args, x...)
	}
	cmd := exec.Command(os.Getenv("XMC_CLI"), args...)
	cmd.Dir = dir
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + dir, "GOTRACEBACK=single"}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	runErr := cmd.Run()
	w.states++
	w.traces++
	w.trans += int64(len(args)) + 1
	if strings.Contains(errb.String(), "goroutine ") || strings.Contains(errb.String(), "panic") {
		return "the command crashes: " + clip(errb.String())
	}
	if _, ok := runErr.(*exec.ExitError); runErr != nil && !ok {
		return "can't run the command: " + runErr.Error()
	}
	o := out.String()
	all := o + errb.String()

	// what the library gives
	var trees []string
	var wantErr error
	var g *xbnf.Grammar
	noGrammar := xfile == "" && len(a.Rules) == 0
	loaded := false
	func() {
		if noGrammar {
			return
		}
		g = xbnf.NewGrammar()
		if xfile != "" {
			if g, wantErr = xbnf.NewGrammarFromFile(xfile); wantErr != nil {
				return
			}
		}
		for _, r := range a.Rules {
			if _, wantErr = g.AddRule(r); wantErr != nil {
				return
			}
		}
		if wantErr = g.Validate(); wantErr != nil {
			return
		}
		loaded = true
		conf := xbnf.DefaultNodeTreeConfig()
		conf.PrintRuleType = a.Type
		parse := func(t string) bool {
			var ast *xbnf.AST
			if ast, wantErr = g.Eval(xbnf.NewCharstreamFromString(t), xbnf.LevelDataOnly); wantErr != nil {
				return false
			}
			trees = append(trees, ast.StringTree(conf))
			return true
		}
		for _, t := range a.Texts {
			if !parse(t) {
				return
			}
		}
		for _, f := range files {
			var b []byte
			if !filepath.IsAbs(f) { // the command runs in the folder
				if b, wantErr = os.ReadFile(filepath.Join(dir, f)); wantErr != nil {
					wantErr = errors.New(strings.ReplaceAll(wantErr.Error(), dir+"/", ""))
				}
			} else {
				b, wantErr = os.ReadFile(f)
			}
			if wantErr != nil {
				return
			}
			if !parse(string(b)) {
				return
			}
		}
	}()
	hasErr := strings.Contains(all, "ERROR")
	if noGrammar {
		if len(args) == 0 {
			if !strings.Contains(all, "-xbnf") {
				return "no options: no help"
			}
		} else if !hasErr {
			return "no grammar given: no error reported"
		}
		if strings.Contains(o, "Abstract Syntax Tree") {
			return "no grammar given: a tree is printed"
		}
		return ""
	}
	if wantErr != nil {
		w.counts["error"]++
		if !hasErr {
			return fmt.Sprintf("no error reported, the library says: %v", wantErr)
		}
		if !strings.Contains(all, wantErr.Error()) && !strings.Contains(all, strings.ReplaceAll(wantErr.Error(), "\n", "\n    ")) {
			return fmt.Sprintf("the error reported is not that of the library: %v; printed %q", wantErr, tail(all))
		}
	} else {
		w.counts["no error"]++
		if i := strings.Index(errorOutside(o, a, trees), "ERROR"); i >= 0 {
			return fmt.Sprintf("an error is reported, the library has none: %q", tail(o))
		}
	}
	rest := o
	if loaded {
		s := strings.ReplaceAll(g.Serialize(false), "\n", "\n    ")
		i := strings.Index(rest, s)
		if i < 0 {
			return fmt.Sprintf("the grammar is not printed; expected\n%s\nprinted %q", s, clip(o))
		}
		if strings.Contains(rest[:i], "Abstract Syntax Tree") {
			return "a tree is printed before the grammar"
		}
		rest = rest[i+len(s):]
	}
	for i, t := range trees {
		k := strings.Index(rest, "Abstract Syntax Tree")
		if k < 0 {
			return fmt.Sprintf("tree %d of %d is not printed", i+1, len(trees))
		}
		if !strings.HasPrefix(rest[k:], t) || len(rest) > k+len(t) && rest[k+len(t)] != '\n' {
			return fmt.Sprintf("tree %d is\n%s\nexpected\n%s", i+1, rest[k:], t)
		}
		rest = rest[k+len(t):]
	}
	if strings.Contains(rest, "Abstract Syntax Tree") {
		return fmt.Sprintf("one more tree is printed: %q", rest)
	}
	return ""
}

// errorOutside is the output without the texts that may hold the word by themselves.
func errorOutside(o string, a cliArgs, trees []string) string {
	for _, s := range append(append(append([]string{}, trees...), a.Texts...), a.Rules...) {
		if strings.Contains(s, "ERROR") {
			return ""
		}
	}
	return o
}

func tail(s string) string {
	if len(s) > 300 {
		return "..." + s[len(s)-300:]
	}
	return s
}

func runCLI(c *Ctx) {
	if os.Getenv("XMC_CLI") == "" {
		panic("no command")
	}
	str := func(s string) *string { return &s }
	xs := []*string{nil, str("r = {\"a\" | \"b\"}+\n"), str("r = x {#\",\" x}\nx = '0'-'9' // digits\n"), str("r = 'a' ("), str("r = 'a'\nr = 'b'"), str("r = q"), str(""), str(missing), str(isDir)}
	rules := [][]string{nil, {"s = \"c\""}, {"s = \"c\" t", "t = ~'d'"}, {"r = 'z'"}, {"s = ("}, {"t = 'd'", "s = "}, {"s = nosuch"}, {""}, {"s"}}
	textSets := [][]string{nil, {"a"}, {"c"}, {"1,2"}, {"a b", "ba"}, {"a", "?"}, {"?", "a"}, {""}, {"a", ""}, {"a\nb"}, {" a"}}
	files := [][]string{nil, {"a"}, {"b a\n"}, {"1, 2", "3"}, {"c", missing}, {missing, "a"}, {"?", "a"}, {""}, {isDir}, {"a", "a", "a"}}
	var jobs []cliArgs
	for _, x := range xs {
		for _, r := range rules {
			for _, t := range textSets {
				for _, f := range files {
					jobs = append(jobs, cliArgs{XBNF: x, Rules: r, Texts: t, Files: f})
					if c.Thorough || len(r)+len(t)+len(f) <= 1 || len(t) == 1 && len(f) == 0 {
						jobs = append(jobs, cliArgs{XBNF: x, Rules: r, Texts: t, Files: f, Type: true}, cliArgs{XBNF: x, Rules: r, Texts: t, Files: f, Type: true, Mix: 1}, cliArgs{XBNF: x, Rules: r, Texts: t, Files: f, Mix: 2})
					}
				}
			}
		}
	}
	// grammars and texts
	gs, _ := c.annotated()
	step := len(gs) / c.pick(60, 400)
	ts := append(texts("ab ", c.pick(2, 3)), "aab", "abab b", "a\tb\n", "\u00a0a")
	for i := 0; i < len(gs); i += step {
		if gs[i].LeftRecursive() {
			continue
		}
		x := str(gs[i].Src())
		for k, t := range ts {
			jobs = append(jobs, cliArgs{XBNF: x, Texts: []string{t}, Type: (k+i)%2 == 0})
			if k%3 == 0 {
				jobs = append(jobs, cliArgs{XBNF: x, Files: []string{t}, Type: (k+i)%2 == 1})
			}
		}
		var rs []string
		for _, l := range strings.Split(strings.TrimSpace(*x), "\n") {
			rs = append(rs, l)
		}
		jobs = append(jobs, cliArgs{Rules: rs, Texts: []string{"ab", "a"}}, cliArgs{Rules: rs, Texts: ts[1:3], Files: ts[3:6]})
	}
	for _, o := range []string{"é\u2028x", "%d%s", "ERROR", "-text", "--", "\t", "\"", strings.Repeat("a", 20000), "a\x00b", "\xff"} {
		any := str("r = {\\u0001-\\uFFFF}+")
		if !strings.Contains(o, "\x00") {
			jobs = append(jobs, cliArgs{XBNF: any, Texts: []string{o, o}, Type: true})
		}
		jobs = append(jobs, cliArgs{XBNF: any, Files: []string{o}})
	}
	// texts and rules which look like names of files, options, patterns or commands; files named in every way; the same twice
	any := str("r = {\\u0001-\\uFFFF}+")
	for _, pre := range []string{"", "@", "<", "-", "--", "~/", "~", "$", "${", "`", "./", "/", "file:", "file://", "=", "%", "&", "#", "!", "*", "?", "\\", "'", "\"", "@@", "@./", ":", ";", "|", "< ", ">"} {
		for _, name := range []string{"t0", "t*", "g.xbnf", "HOME", "-", ""} {
			t := pre + name
			jobs = append(jobs, cliArgs{XBNF: any, Texts: []string{t}, Files: []string{"content of t0", "t1"}}, cliArgs{XBNF: any, Texts: []string{"x", t, t}, Mix: 2}, cliArgs{XBNF: str("r = 'a'"), Rules: []string{t}, Texts: []string{"a"}, Files: []string{"s = 'b'"}})
		}
		if !strings.Contains(pre, "/") {
			jobs = append(jobs, cliArgs{XBNF: any, Files: []string{"1", "2"}, Name: pre}, cliArgs{XBNF: any, Files: []string{"1", missing}, Name: pre}, cliArgs{XBNF: any, Files: []string{"1", "2"}, Name: pre + "a, b.c", Mix: 2})
		}
	}
	for _, x := range xs {
		for _, f := range files {
			if len(f) > 0 {
				jobs = append(jobs, cliArgs{XBNF: x, Files: f, Twice: true}, cliArgs{XBNF: x, Rules: []string{"s = \"c\""}, Texts: []string{"c", "c"}, Files: f, Twice: true, Mix: 1})
			}
		}
		for _, t := range textSets {
			jobs = append(jobs, cliArgs{XBNF: x, Texts: append(t[:len(t):len(t)], t...)}, cliArgs{XBNF: x, Rules: []string{"s = \"c\"", "s = \"c\""}, Texts: t}, cliArgs{XBNF: x, Texts: t, Files: t})
		}
	}
	// what may stand at the beginning, in the middle or at the end of a file, a text, a definition
	for _, o := range []string{"\ufeff", "\xff\xfe", "\xfe\xff", "\x00", "\r", "\r\n", "\n", "\n\n", " ", "\t", "\x1a", "\x04", "\u2028", "\u200b", "\u00ad", "\x7f", "\x1b[0m", "#!", "\xc0\x80", "\ufffd", "\v", "\\n", "\\"} {
		for _, s := range []string{o + "a", "a" + o, "a" + o + "a", o, o + o + "a"} {
			for _, x := range []*string{any, str("r = {'a'}+"), str("r = {\"a\" | '" + strings.ReplaceAll(o, "\\", "\\\\") + "'}")} {
				jobs = append(jobs, cliArgs{XBNF: x, Files: []string{s, "a"}})
				if !strings.Contains(s, "\x00") {
					jobs = append(jobs, cliArgs{XBNF: x, Texts: []string{s, "a"}, Type: true})
				}
			}
			jobs = append(jobs, cliArgs{XBNF: str(strings.ReplaceAll(s, "a", "r = 'a'\n")), Texts: []string{"a"}}, cliArgs{XBNF: str(strings.ReplaceAll(s, "a", "r = 'a'")), Files: []string{"a"}})
			if !strings.Contains(s, "\x00") {
				jobs = append(jobs, cliArgs{Rules: []string{strings.ReplaceAll(s, "a", "r = 'a'")}, Texts: []string{"a"}})
			}
		}
	}
	// many and long
	for _, n := range scaleAt {
		if n > 4097 {
			break
		}
		x := str("r = {\"a\" | \"b\"}+\n" + strings.Repeat("// c\n\n", n) + "s = 'c'\n")
		jobs = append(jobs, cliArgs{XBNF: x, Files: []string{strings.Repeat("ab \n", n)}}, cliArgs{XBNF: x, Texts: []string{strings.Repeat("a", n) + "b"}, Type: true})
		if n <= 129 {
			var ts, rs []string
			for i := 0; i < n; i++ {
				ts = append(ts, strings.Repeat("a", i%7)+[]string{"b", "?", "", " a"}[i%4*(i%3)%4])
				rs = append(rs, fmt.Sprintf("n%d = 'z' ['%c']", i, letter(i)))
			}
			jobs = append(jobs, cliArgs{XBNF: x, Texts: ts}, cliArgs{XBNF: x, Files: ts}, cliArgs{XBNF: x, Rules: rs, Texts: []string{"ab"}}, cliArgs{Rules: rs, Texts: ts[:5], Files: ts[n/2:]})
		}
	}
	l := jobs
	c.sample(map[string]interface{}{"command lines": len(l), "first": l[0], "last": l[len(l)-30]})
	c.each(len(l), func(w *W, i int) {
		cs := Case{Kind: "cli", Extra: l[i].json()}
		w.do(&cs, func() string { return w.cli(l[i]) })
	})
}

func replayCLI(w *W, c Case) string {
	var a cliArgs
	if err := json.Unmarshal([]byte(c.Extra), &a); err != nil {
		return err.Error()
	}
	return w.cli(a)
}
