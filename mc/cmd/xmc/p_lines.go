package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"xmc/spec"

	"github.com/cnsgfk/xbnf"
)

// lines of a grammar text
var linePool = []string{"", "// c = 'a'", "  \t ", "a = 'a'", " a = [b]", "b = a | 'b'\r", "c = \"x\" // a = b", "b = {a", "no rule", "= 'a'", "d = ", "2 = 'a'", "// b", "d = z ~$'a'", "a = (b", "c = 'c'-'d' | a > b",
	"d=<'(' ^'x' ')'>", "e = 'a' = 'b'", "a a = 'a'"}

var (
	errLine = regexp.MustCompile(`^L#(\d+): `)
	defLine = regexp.MustCompile(`already defined at line (\d+)`)
	recLine = regexp.MustCompile(`(?m)^ *L(\d+): !?([^\s\[=]+)(\[T\])? *= `)
)

// loading is what a text of lines comes to.
type loading struct {
	bad   int // number of the first line which can't be used, 0 = none
	dup   int // number of the line which has defined its name already, 0 = none
	name  string
	model *spec.Grammar
	lines map[string]int
}

func load(lines []string) loading {
	l := loading{model: spec.NewGrammar(), lines: map[string]int{}}
	for i, s := range lines {
		s = strings.TrimSpace(s)
		if s == "" || strings.HasPrefix(s, "//") {
			continue
		}
		if err := l.model.Add(s); err != nil {
			l.bad = i + 1
			if kv := strings.SplitN(s, "=", 2); len(kv) == 2 {
				l.name = strings.TrimSpace(kv[0])
				l.dup = l.lines[l.name]
			}
			return l
		}
		l.lines[strings.TrimSpace(strings.SplitN(s, "=", 2)[0])] = i + 1
	}
	return l
}

// told compares an error with what is wrong.
func (l *loading) told(msg string) string {
	if l.bad == 0 {
		for _, u := range undefined(l.model) {
			if strings.Contains(msg, "'"+u+"'") && !errLine.MatchString(msg) {
				return ""
			}
		}
		return fmt.Sprintf("the error is %q, undefined are %q", msg, undefined(l.model))
	}
	m := errLine.FindStringSubmatch(msg)
	if m == nil || m[1] != strconv.Itoa(l.bad) {
		return fmt.Sprintf("the error is %q, line %d is wrong", msg, l.bad)
	}
	if !strings.Contains(msg, l.name) {
		return fmt.Sprintf("the error is %q, %q is wrong", msg, l.name)
	}
	d := defLine.FindStringSubmatch(msg)
	if (d != nil) != (l.dup > 0) || d != nil && d[1] != strconv.Itoa(l.dup) {
		return fmt.Sprintf("the error is %q, the name was defined at line %d (0 = not)", msg, l.dup)
	}
	return ""
}

// lineNumbers are those a grammar prints.
func lineNumbers(g *xbnf.Grammar, lines map[string]int) string {
	for _, detail := range []bool{false, true} {
		got := recLine.FindAllStringSubmatch(g.Serialize(detail), -1)
		if len(got) != len(lines) {
			return fmt.Sprintf("%d rules are printed, there are %d", len(got), len(lines))
		}
		for _, m := range got {
			if n, _ := strconv.Atoi(m[1]); n != lines[m[2]] {
				return fmt.Sprintf("rule %s is printed at line %s, it is at line %d", m[2], m[1], lines[m[2]])
			}
		}
	}
	return ""
}

func (w *W) lines(lines []string, dir string) string {
	l := load(lines)
	if l.model.LeftRecursive() {
		w.count("left recursive")
	}
	text := strings.Join(lines, "\n")
	w.states++
	w.trans += int64(len(lines))
	w.traces++
	g, err := xbnf.NewGrammarFromString(text)
	good := l.bad == 0 && len(undefined(l.model)) == 0
	if (err == nil) != good || (g == nil) == (err == nil) {
		return "" // acceptance is C14's and C15's
	}
	if err != nil {
		w.count("rejected")
		if s := l.told(err.Error()); s != "" {
			return s
		}
	} else if s := lineNumbers(g, l.lines); s != "" {
		return s
	}
	// one by one: a definition has the number of its place among the accepted ones
	h := xbnf.NewGrammar()
	at := map[string]int{}
	for _, s := range lines {
		s = strings.TrimSpace(s)
		if s == "" || strings.HasPrefix(s, "//") {
			continue
		}
		w.traces++
		r, err := h.AddRule(s)
		name := strings.TrimSpace(strings.SplitN(s, "=", 2)[0])
		if err == nil && r != nil {
			at[name] = len(at) + 1
			continue
		}
		if err == nil {
			continue
		}
		if d := defLine.FindStringSubmatch(err.Error()); (d != nil) != (at[name] > 0) || d != nil && (d[1] != strconv.Itoa(at[name]) || !strings.Contains(err.Error(), "'"+name+"'")) {
			return fmt.Sprintf("adding %q gives %q, it was defined as number %d (0 = not)", s, err, at[name])
		}
	}
	if s := lineNumbers(h, at); s != "" {
		return "one by one: " + s
	}
	if dir == "" {
		return ""
	}
	file := filepath.Join(dir, fmt.Sprintf("g%d.xbnf", w.id))
	if err := os.WriteFile(file, []byte(text), 0o600); err != nil {
		return err.Error()
	}
	defer os.Remove(file)
	w.traces++
	f, ferr := xbnf.NewGrammarFromFile(file)
	if (ferr == nil) != (err == nil) {
		return fmt.Sprintf("from a file: %v, from a string: %v", ferr, err)
	}
	if ferr != nil {
		if want := file + ": "; !strings.HasPrefix(ferr.Error(), want) {
			return fmt.Sprintf("the error %q does not name the file %s", ferr, file)
		}
		return l.told(strings.TrimPrefix(ferr.Error(), file+": "))
	}
	return lineNumbers(f, l.lines)
}

// oddLines are lines with every character which some tool takes for an end of a line or a blank.
func oddLines() [][]string {
	var hist [][]string
	// only newlines end a line, whatever else is in it
	var odd []rune
	for r := rune(1); r < 0xa1; r++ {
		if r != '\n' && (r < ' ' || r > '~') {
			odd = append(odd, r)
		}
	}
	for r := rune(0xa1); r <= 0xffff; r++ {
		if spec.White(r) || r >= 0x2000 && r < 0x2070 || r == 0xfeff {
			odd = append(odd, r)
		}
	}
	for _, r := range odd {
		x := string(r)
		pool := []string{"a = 'a'" + x + "b", "// " + x + "b = 'b'", x + "c = 'c'" + x, "d =" + x + "'d'", "b = \"" + x + "\"", x, "e" + x + "= $"}
		for i := range pool {
			hist = append(hist, []string{pool[i], "e = $"}, []string{"f = 'f'", pool[i], "g = 'g'", "f = 'g'"})
			for j := range pool {
				hist = append(hist, []string{pool[i], pool[j], "b = 'b'"})
			}
		}
	}
	return hist
}

// longLines are lines which are as long as a buffer may be.
func longLines() [][]string {
	var hist [][]string
	// long lines
	for _, n := range scaleAt {
		rp := strings.Repeat
		for _, l := range []string{"// " + rp("x", n), rp(" ", n) + "a = 'a'", "a =" + rp(" ", n) + "'a'", "a = 'a'" + rp("\t", n), "a = 'a' //" + rp("'", n), "a = '" + rp("x", min(n, 4097)) + "'", rp("a", n) + " = 'a'"} {
			hist = append(hist, []string{"b = 'b'", l, "c = 'c'"}, []string{l, "b = 'b'", "b = 'c'"}, []string{"b = 'b'", l, "x = $"})
		}
	}
	return hist
}

func runLines(c *Ctx) {
	dir, err := os.MkdirTemp("", "xmclines")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	var hist [][]string
	max := c.pick(4, 5)
	for n := 1; n <= max; n++ {
		idx := make([]int, n)
		for {
			var l []string
			for _, i := range idx {
				l = append(l, linePool[i])
			}
			hist = append(hist, l)
			k := n - 1
			for ; k >= 0; k-- {
				if idx[k]++; idx[k] < len(linePool) {
					break
				}
				idx[k] = 0
			}
			if k < 0 {
				break
			}
		}
	}
	// far down
	for _, n := range []int{9, 10, 63, 64, 99, 100, 101, 255, 256, 257, 999, 1000, 1001, 9999, 10000, 10001, 65535, 65536, 65537} {
		if n > 1001 && !c.Thorough {
			for _, k := range []int{3, 7, 9} { // a rule, a bad rule, a bad rule
				l := []string{"a = 'a'", "b = 'b'"}
				for len(l) < n-1 {
					l = append(l, []string{"", "// x", " "}[len(l)%3])
				}
				hist = append(hist, append(l, strings.Replace(linePool[k], "a =", "d =", 1)))
			}
			continue
		}
		for _, last := range linePool {
			l := []string{"a = 'a'"}
			for len(l) < n-1 {
				l = append(l, []string{"", "// x", fmt.Sprintf("n%d = 'n'", len(l))}[len(l)%3])
			}
			hist = append(hist, append(l, last), append(append(l[:len(l):len(l)], last), "b = 'b'", "a = b"))
		}
	}
	hist = append(hist, oddLines()...)
	hist = append(hist, longLines()...)
	c.sample(map[string]interface{}{"family": "lines", "histories": len(hist), "pool": linePool})
	c.each(len(hist), func(w *W, i int) {
		d := ""
		if i%7 == 0 || len(hist[i]) <= 2 {
			d = dir
		}
		cs := Case{Kind: "lines", Text: strings.Join(hist[i], "\n")}
		w.do(&cs, func() string { return w.lines(hist[i], d) })
	})
	c.each(1, func(w *W, i int) {
		cs := Case{Kind: "nofile"}
		w.do(&cs, func() string { return w.noFile(dir) })
	})
}

func (w *W) noFile(dir string) string {
	f := filepath.Join(dir, "nosuch.xbnf")
	g, err := xbnf.NewGrammarFromFile(f)
	w.states++
	w.traces++
	if g != nil || err == nil || !strings.Contains(err.Error(), f) {
		return fmt.Sprintf("loading a file that does not exist gives %v, %v", g, err)
	}
	return ""
}

func replayLines(w *W, c Case) string {
	dir, err := os.MkdirTemp("", "xmclines")
	if err != nil {
		return err.Error()
	}
	defer os.RemoveAll(dir)
	if c.Kind == "nofile" {
		return w.noFile(dir)
	}
	return w.lines(strings.Split(c.Text, "\n"), dir)
}
