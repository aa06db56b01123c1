// Package spec is the reference model: an independent, index based definition
// of what XBNF rules mean. It shares no code with the implementation.
package spec

import (
	"fmt"
	"strings"
)

type Kind int

const (
	Char Kind = iota
	Range
	Chars
	Str
	EOF
	Ref
	Group
	Option
	Rep
	Concat
	Choice
	Block
)

var kindNames = []string{"char", "range", "chars", "string", "EOF", "reference", "group", "option", "repetition", "concatenate", "choice", "block"}

func (k Kind) String() string { return kindNames[k] }

// Rule is one XBNF rule expression.
type Rule struct {
	K             Kind
	Name          string // only set on the top rule of a definition
	Tok, Non, Vir bool   // $ # ~
	S             []rune // literal text (Char: 1 rune)
	Lo, Hi        rune   // Range
	Ref           string
	Kids          []*Rule   // Group/Option/Rep: 1, Concat: n
	Groups        [][]*Rule // Choice
	Min, Max      int       // Rep; Max 0 = unbounded
	Open, Close   *Rule     // Block
	Esc           *Rule
	Excl          []*Rule
	VClose        bool
}

func esc(s []rune, quote rune) string {
	var b strings.Builder
	for _, c := range s {
		switch {
		case c == '\\' || c == quote || c < 0x20 || c > 0x7e && c <= 0xffff:
			fmt.Fprintf(&b, "\\u%04X", c)
		default:
			b.WriteRune(c)
		}
	}
	return b.String()
}

func (r *Rule) ann() string {
	s := ""
	if r.Tok {
		s += "$"
	}
	if r.Vir {
		s += "~"
	}
	if r.Non {
		s += "#"
	}
	return s
}

// Src prints the rule as an XBNF definition.
func (r *Rule) Src() string {
	return r.print()
}

func (r *Rule) print() string {
	a := r.ann()
	switch r.K {
	case Char, Chars:
		return a + "'" + esc(r.S, '\'') + "'"
	case Range:
		return a + "'" + esc([]rune{r.Lo}, '\'') + "'-'" + esc([]rune{r.Hi}, '\'') + "'"
	case Str:
		return a + `"` + esc(r.S, '"') + `"`
	case EOF:
		return a + "EOF"
	case Ref:
		return a + r.Ref
	case Group:
		return a + "(" + r.Kids[0].Src() + ")"
	case Option:
		return a + "[" + r.Kids[0].Src() + "]"
	case Rep:
		spec := ""
		switch {
		case r.Min == 0 && r.Max == 0:
		case r.Min == 1 && r.Max == 0:
			spec = "+"
		default:
			spec = fmt.Sprintf("<%d,%d>", r.Min, r.Max)
		}
		return a + "{" + r.Kids[0].Src() + "}" + spec
	case Concat:
		var p []string
		for _, k := range r.Kids {
			p = append(p, k.Src())
		}
		return strings.Join(p, " ")
	case Choice:
		var gs []string
		for _, g := range r.Groups {
			var p []string
			for _, k := range g {
				p = append(p, k.Src())
			}
			gs = append(gs, strings.Join(p, " | "))
		}
		return strings.Join(gs, " > ")
	case Block:
		p := []string{r.Open.Src()}
		if r.Esc != nil {
			p = append(p, r.Esc.Src())
		}
		for _, x := range r.Excl {
			p = append(p, "^"+x.Src())
		}
		p = append(p, r.Close.Src())
		e := ">"
		if r.VClose {
			e = " !>"
		}
		return a + "<" + strings.Join(p, " ") + e
	}
	panic("kind")
}

// Dump shows the whole structure, unlike Src without any ambiguity.
func (r *Rule) Dump() string {
	if r == nil {
		return "nil"
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%s%s%q%v", r.K, r.ann(), string(r.S), halves(r.S))
	switch r.K {
	case Range:
		fmt.Fprintf(&b, "%x-%x", r.Lo, r.Hi)
	case Ref:
		b.WriteString(r.Ref)
	case Rep:
		fmt.Fprintf(&b, "<%d,%d>", r.Min, r.Max)
	case Block:
		fmt.Fprintf(&b, "%v{open %s esc %s", r.VClose, r.Open.Dump(), r.Esc.Dump())
		for _, x := range r.Excl {
			b.WriteString(" excl " + x.Dump())
		}
		b.WriteString(" close " + r.Close.Dump() + "}")
	}
	for _, k := range r.Kids {
		b.WriteString("(" + k.Dump() + ")")
	}
	for _, g := range r.Groups {
		b.WriteString("[")
		for _, k := range g {
			b.WriteString("(" + k.Dump() + ")")
		}
		b.WriteString("]")
	}
	return b.String()
}

// constructors
func C(c rune) *Rule             { return &Rule{K: Char, S: []rune{c}} }
func R(lo, hi rune) *Rule        { return &Rule{K: Range, Lo: lo, Hi: hi} }
func S(s string) *Rule           { return &Rule{K: Str, S: []rune(s)} }
func E() *Rule                   { return &Rule{K: EOF} }
func N(n string) *Rule           { return &Rule{K: Ref, Ref: n} }
func Gr(r *Rule) *Rule           { return &Rule{K: Group, Kids: []*Rule{r}} }
func Op(r *Rule) *Rule           { return &Rule{K: Option, Kids: []*Rule{r}} }
func Re(r *Rule, a, b int) *Rule { return &Rule{K: Rep, Kids: []*Rule{r}, Min: a, Max: b} }
func Cat(k ...*Rule) *Rule       { return &Rule{K: Concat, Kids: k} }
func Alt(k ...*Rule) *Rule       { return &Rule{K: Choice, Groups: [][]*Rule{k}} }
func Ord(g ...[]*Rule) *Rule     { return &Rule{K: Choice, Groups: g} }
func Cs(s string) *Rule {
	if len([]rune(s)) == 1 {
		return C([]rune(s)[0])
	}
	return &Rule{K: Chars, S: []rune(s)}
}
func Bl(open, esc *Rule, excl []*Rule, cl *Rule, v bool) *Rule {
	return &Rule{K: Block, Open: open, Esc: esc, Excl: excl, Close: cl, VClose: v}
}

// Ann returns an annotated copy. mask: 1=$ 2=~ 4=#
func (r *Rule) Ann(mask int) *Rule {
	c := *r
	c.Tok, c.Vir, c.Non = mask&1 != 0, mask&2 != 0, mask&4 != 0
	return &c
}

// Grammar is an ordered list of named rules.
type Grammar struct {
	Names []string
	Rules map[string]*Rule
	roots []string
}

func NewGrammar() *Grammar { return &Grammar{Rules: map[string]*Rule{}} }

// Def adds a definition (copying r so that names never leak between grammars).
func (g *Grammar) Def(name string, r *Rule) *Grammar {
	c := *r
	c.Name = name
	g.Names = append(g.Names, name)
	g.Rules[name] = &c
	g.roots = nil
	return g
}

func G(r *Rule) *Grammar { return NewGrammar().Def("r", r) }

func (g *Grammar) Src() string {
	var b strings.Builder
	for _, n := range g.Names {
		b.WriteString(n + " = " + g.Rules[n].Src() + "\n")
	}
	return b.String()
}

func (r *Rule) refs(f func(string)) {
	if r == nil {
		return
	}
	if r.K == Ref {
		f(r.Ref)
	}
	for _, k := range r.Kids {
		k.refs(f)
	}
	for _, gp := range r.Groups {
		for _, k := range gp {
			k.refs(f)
		}
	}
	r.Open.refs(f)
	r.Close.refs(f)
	r.Esc.refs(f)
	for _, k := range r.Excl {
		k.refs(f)
	}
}

// Roots returns the rules no rule refers to, in definition order.
func (g *Grammar) Roots() []string {
	if g.roots == nil {
		used := map[string]bool{}
		for _, r := range g.Rules {
			r.refs(func(n string) { used[n] = true })
		}
		g.roots = []string{}
		for _, n := range g.Names {
			if !used[n] {
				g.roots = append(g.roots, n)
			}
		}
	}
	return g.roots
}

// halves are the chars which %q doesn't show: halves of surrogate pairs.
func halves(s []rune) string {
	o := ""
	for i, c := range s {
		if c >= 0xD800 && c < 0xE000 {
			o += fmt.Sprintf(" %d:%X", i, c)
		}
	}
	return o
}
