package spec

import (
	"fmt"
	"strings"
)

// Reference reader of XBNF rule definitions. It works on an index into the definition and keeps no
// stream; what it accepts is written down in DESIGN.md ("definition syntax").

type reader struct {
	s    []rune
	i    int
	refs []string
}

const eof = rune(-1)

func (p *reader) peek() rune {
	if p.i < len(p.s) {
		return p.s[p.i]
	}
	return eof
}

func (p *reader) next() rune {
	c := p.peek()
	if c != eof {
		p.i++
	}
	return c
}

func (p *reader) ws() {
	for p.i < len(p.s) && White(p.s[p.i]) {
		p.i++
	}
}

type syntaxError struct{ msg string }

func (p *reader) fail(format string, a ...interface{}) { panic(syntaxError{fmt.Sprintf(format, a...)}) }

func (p *reader) want(c rune) {
	if p.next() != c {
		p.fail("expected %q", string(c))
	}
}

func isLetter(c rune) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func isDigit(c rune) bool  { return c >= '0' && c <= '9' }

// seq reads rules up to one of the stop characters (not consumed), the end, or a comment.
func (p *reader) seq(stop string) *Rule {
	var out []*Rule
	mask := 0
	add := func(r *Rule) {
		r.annotate(mask)
		mask = 0
		out = append(out, r)
	}
	p.ws()
	for {
		c := p.peek()
		if c == eof || strings.ContainsRune(stop, c) {
			break
		}
		if White(c) {
			p.i++
			continue
		}
		if m := annMask(c); m != 0 {
			mask |= m
			p.i++
			if p.peek() == '|' {
				p.fail("annotation before |")
			}
			continue
		}
		if c == '|' || c == '>' {
			if mask != 0 {
				p.fail("annotation before a choice operator")
			}
			if len(out) == 0 {
				p.fail("choice without a first rule")
			}
			last := out[len(out)-1]
			out = out[:len(out)-1]
			add(p.choice(last))
			continue
		}
		if c == '/' {
			p.i++
			p.want('/')
			for {
				c := p.next()
				if c == '\n' || c == eof {
					break
				}
			}
			break
		}
		add(p.element())
	}
	if mask != 0 {
		p.fail("annotation without a rule")
	}
	switch len(out) {
	case 0:
		p.fail("no rule")
	case 1:
		return out[0]
	}
	return Cat(out...)
}

func annMask(c rune) int {
	switch c {
	case '$':
		return 1
	case '~':
		return 2
	case '#':
		return 4
	}
	return 0
}

func (r *Rule) annotate(mask int) {
	r.Tok, r.Vir, r.Non = mask&1 != 0, mask&2 != 0, mask&4 != 0
}

// element reads one rule that starts at the current character.
func (p *reader) element() *Rule {
	switch c := p.peek(); {
	case c == '\'':
		return p.quoted()
	case c == '\\':
		p.i++
		return p.maybeRange(p.uEscape())
	case c == '"':
		p.i++
		return &Rule{K: Str, S: p.text('"')}
	case c == '[':
		return Op(p.bracket(']'))
	case c == '(':
		return Gr(p.bracket(')'))
	case c == '{':
		r := Re(p.bracket('}'), 0, 0)
		switch p.peek() {
		case '*':
			p.i++
		case '+':
			p.i++
			r.Min = 1
		case '<':
			p.i++
			r.Min, r.Max = p.bounds()
		}
		return r
	case c == '<':
		return p.block()
	case isLetter(c) || c == '_':
		st := p.i
		for isLetter(p.peek()) || p.peek() == '_' || isDigit(p.peek()) {
			p.i++
		}
		name := string(p.s[st:p.i])
		if name == "EOF" {
			return E()
		}
		p.refs = append(p.refs, name)
		return N(name)
	}
	p.fail("unexpected %q", string(p.peek()))
	return nil
}

func (p *reader) bracket(close rune) *Rule {
	p.i++
	r := p.seq(string(close))
	p.want(close)
	return r
}

// one reads the rule that follows a choice operator.
func (p *reader) one() *Rule {
	mask := 0
	for {
		c := p.peek()
		if White(c) {
			p.i++
			continue
		}
		m := annMask(c)
		if m == 0 {
			r := p.element()
			r.annotate(mask)
			return r
		}
		mask |= m
		p.i++
		if p.peek() == '|' {
			p.fail("annotation before |")
		}
	}
}

func (p *reader) choice(first *Rule) *Rule {
	groups := [][]*Rule{{first}}
	for {
		p.ws()
		switch p.peek() {
		case '|':
			p.i++
			n := len(groups) - 1
			groups[n] = append(groups[n], p.one())
		case '>':
			p.i++
			groups = append(groups, []*Rule{p.one()})
		default:
			return Ord(groups...)
		}
	}
}

func hexVal(c rune) int {
	switch {
	case isDigit(c):
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

// uEscape reads uXXXX (the backslash is consumed already).
func (p *reader) uEscape() rune {
	p.want('u')
	v := 0
	for k := 0; k < 4; k++ {
		h := hexVal(p.next())
		if h < 0 {
			p.fail("bad unicode escape")
		}
		v = v*16 + h
	}
	return rune(v)
}

// text reads a literal up to the closing quote.
func (p *reader) text(quote rune) []rune {
	out := []rune{}
	for {
		c := p.next()
		switch c {
		case eof:
			p.fail("literal without end")
		case quote:
			return out
		case '\\':
			if p.peek() == 'u' {
				c = p.uEscape()
			} else {
				c = p.next()
				if c == eof {
					p.fail("literal without end")
				}
			}
		}
		out = append(out, c)
	}
}

func (p *reader) quoted() *Rule {
	p.i++
	s := p.text('\'')
	switch len(s) {
	case 0:
		p.fail("empty chars")
	case 1:
		return p.maybeRange(s[0])
	}
	return &Rule{K: Chars, S: s}
}

func (p *reader) maybeRange(lo rune) *Rule {
	if p.peek() != '-' {
		return C(lo)
	}
	p.i++
	switch p.next() {
	case '\\':
		return R(lo, p.uEscape())
	case '\'':
		c := p.next()
		if c == '\\' {
			c = p.uEscape()
		}
		p.want('\'')
		return R(lo, c)
	}
	p.fail("bad range")
	return nil
}

func (p *reader) bounds() (int, int) {
	p.ws()
	num := func(stop string) (uint64, rune) {
		v := uint64(0)
		for {
			c := p.next()
			switch {
			case c == ' ' || c == '\t' || c == '\n':
			case c != eof && strings.ContainsRune(stop, c):
				return v, c
			case isDigit(c):
				v = v*10 + uint64(c-'0')
				if v > 1<<32-1 {
					v = 1 << 40 // out of range, checked below
				}
			default:
				p.fail("bad bounds")
			}
		}
	}
	lo, c := num(",>")
	hi := uint64(0)
	if c == ',' {
		hi, _ = num(">")
	}
	if lo > 1<<32-1 || hi > 1<<32-1 || hi != 0 && hi < lo {
		p.fail("bad bounds")
	}
	return int(lo), int(hi)
}

func (p *reader) block() *Rule {
	const part = " >!"
	b := &Rule{K: Block}
	p.i++
	b.Open = p.seq(part)
	p.ws()
	if p.peek() != '^' {
		r := p.seq(part)
		p.ws()
		switch p.peek() {
		case '>':
			p.i++
			b.Close = r
			return b
		case '!':
			p.i++
			p.ws()
			p.want('>')
			b.VClose = true
			b.Close = r
			return b
		}
		b.Esc = r
	}
	for p.ws(); p.peek() == '^'; p.ws() {
		p.i++
		b.Excl = append(b.Excl, p.seq(part))
	}
	b.Close = p.seq(">!")
	if p.peek() == '!' {
		p.i++
		b.VClose = true
		p.ws()
	}
	p.want('>')
	return b
}

func ValidName(n string) bool {
	for i, c := range n {
		if !(isLetter(c) || i > 0 && (c == '_' || isDigit(c))) {
			return false
		}
	}
	return n != ""
}

// ParseRule reads one definition body. refs are the rules it refers to, in order.
func ParseRule(def string) (r *Rule, refs []string, err error) {
	p := &reader{s: []rune(strings.TrimSpace(def))}
	defer func() {
		if x := recover(); x != nil {
			se, ok := x.(syntaxError)
			if !ok {
				panic(x)
			}
			r, refs, err = nil, nil, fmt.Errorf("%s at %d", se.msg, p.i)
		}
	}()
	r = p.seq("")
	return r, p.refs, nil
}

// Add adds one definition "name = body".
func (g *Grammar) Add(line string) error {
	kv := strings.SplitN(line, "=", 2)
	if len(kv) != 2 {
		return fmt.Errorf("missing =")
	}
	return g.AddRule(strings.TrimSpace(kv[0]), kv[1])
}

func (g *Grammar) AddRule(name, def string) error {
	if !ValidName(name) {
		return fmt.Errorf("bad name")
	}
	if g.Rules[name] != nil {
		return fmt.Errorf("defined twice")
	}
	r, _, err := ParseRule(def)
	if err != nil {
		return err
	}
	g.Def(name, r)
	return nil
}

// Valid tells whether every referenced rule is defined.
func (g *Grammar) Valid() bool {
	ok := true
	for _, r := range g.Rules {
		r.refs(func(n string) {
			if g.Rules[n] == nil {
				ok = false
			}
		})
	}
	return ok
}

// ParseGrammar reads a whole grammar text.
func ParseGrammar(text string) (*Grammar, error) {
	g := NewGrammar()
	for i, l := range strings.Split(text, "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "//") {
			continue
		}
		if err := g.Add(l); err != nil {
			return nil, fmt.Errorf("line %d: %s", i+1, err)
		}
	}
	if !g.Valid() {
		return nil, fmt.Errorf("undefined reference")
	}
	return g, nil
}
