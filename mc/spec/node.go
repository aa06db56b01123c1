package spec

import (
	"fmt"
	"strings"
)

// LineCol is the 1-based line and column of index i in t ('\n' ends a line and belongs to it).
func LineCol(t []rune, i int) (int, int) {
	l, c := 1, 1
	for k := 0; k < i && k < len(t); k++ {
		if t[k] == '\n' {
			l++
			c = 1
		} else {
			c++
		}
	}
	return l, c
}

// Leaves appends the text of the leaves, in order (EOF markers are empty).
func (n *Node) Leaves(out []rune) []rune {
	if len(n.Kids) == 0 {
		if len(n.Chars) == 1 && n.Chars[0] == -1 {
			return out
		}
		return append(out, n.Chars...)
	}
	for _, k := range n.Kids {
		out = k.Leaves(out)
	}
	return out
}

func (n *Node) Clone() *Node {
	c := *n
	c.Chars = append([]rune(nil), n.Chars...)
	c.Kids = nil
	for _, k := range n.Kids {
		c.Kids = append(c.Kids, k.Clone())
	}
	return &c
}

// Text is the display text: children joined, one blank between two children unless one side has
// white space there already or both are sticky. Block parts are never separated.
func (n *Node) Text() []rune {
	if len(n.Chars) > 0 {
		if len(n.Chars) == 1 && n.Chars[0] == -1 {
			return nil
		}
		return n.Chars
	}
	var out []rune
	var prev *Node
	for _, k := range n.Kids {
		t := k.Text()
		if n.Type != "block" && len(out) > 0 && len(t) > 0 && !White(out[len(out)-1]) && !White(t[0]) && !(prev.Sticky && k.Sticky) {
			out = append(out, ' ')
		}
		out = append(out, t...)
		prev = k
	}
	return out
}

func (n *Node) String() string { return n.str("") }
func (n *Node) str(ind string) string {
	var b strings.Builder
	fl := ""
	if n.Tok {
		fl += "$"
	}
	if n.Vir {
		fl += "~"
	}
	if n.Non {
		fl += "#"
	}
	if n.Sticky {
		fl += "+"
	}
	fmt.Fprintf(&b, "%s%s/%s%s %q @%d\n", ind, n.Name, n.Type, fl, string(n.Chars), n.Pos)
	for _, k := range n.Kids {
		b.WriteString(k.str(ind + "  "))
	}
	return b.String()
}
