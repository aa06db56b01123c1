package main

import (
	"fmt"
	"strings"

	"xmc/spec"

	"github.com/cnsgfk/xbnf"
)

// table of line/col per index
type lcTab [][2]int

func lineCols(t []rune) lcTab {
	tab := make(lcTab, len(t)+1)
	l, c := 1, 1
	for i := range t {
		tab[i] = [2]int{l, c}
		if t[i] == '\n' {
			l++
			c = 1
		} else {
			c++
		}
	}
	tab[len(t)] = [2]int{l, c}
	return tab
}

func runesEq(a, b []rune) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type diffOpt struct {
	flags, pos, sticky bool
}

var diffAll = diffOpt{true, true, true}

// diffNode compares an implementation node with a model node. "" means equal.
func diffNode(r *xbnf.Node, m *spec.Node, lc lcTab, o diffOpt) string {
	if r == nil {
		return "node is nil, expected " + m.Type
	}
	if string(r.RuleType) != m.Type || r.RuleName != m.Name {
		return fmt.Sprintf("node is %s/%s, expected %s/%s", r.RuleName, r.RuleType, m.Name, m.Type)
	}
	if !runesEq(r.Chars, m.Chars) {
		return fmt.Sprintf("%s/%s node has text %q, expected %q", m.Name, m.Type, string(r.Chars), string(m.Chars))
	}
	if o.sticky && r.Sticky != m.Sticky {
		return fmt.Sprintf("%s/%s node sticky=%v, expected %v", m.Name, m.Type, r.Sticky, m.Sticky)
	}
	if o.flags && (r.Tokenized != m.Tok || r.Virtual != m.Vir || r.NonData != m.Non) {
		return fmt.Sprintf("%s/%s node token/virtual/nondata=%v/%v/%v, expected %v/%v/%v", m.Name, m.Type, r.Tokenized, r.Virtual, r.NonData, m.Tok, m.Vir, m.Non)
	}
	if o.pos && m.Pos >= 0 && m.HasText() {
		want := lc[m.Pos]
		if r.Position == nil || r.Position.Line != want[0] || r.Position.Col != want[1] {
			return fmt.Sprintf("%s/%s node %q is at %s, expected L%d:%d", m.Name, m.Type, string(m.Leaves(nil)), r.Position.String(), want[0], want[1])
		}
	}
	if len(r.ChildNodes) != len(m.Kids) {
		return fmt.Sprintf("%s/%s node has %d children, expected %d", m.Name, m.Type, len(r.ChildNodes), len(m.Kids))
	}
	for i := range m.Kids {
		if d := diffNode(r.ChildNodes[i], m.Kids[i], lc, o); d != "" {
			return d
		}
	}
	return ""
}

func realTree(n *xbnf.Node) string {
	var b strings.Builder
	var rec func(n *xbnf.Node, ind string)
	rec = func(n *xbnf.Node, ind string) {
		if n == nil {
			b.WriteString(ind + "nil\n")
			return
		}
		fl := ""
		if n.Tokenized {
			fl += "$"
		}
		if n.Virtual {
			fl += "~"
		}
		if n.NonData {
			fl += "#"
		}
		if n.Sticky {
			fl += "+"
		}
		fmt.Fprintf(&b, "%s%s/%s%s %q %s\n", ind, n.RuleName, n.RuleType, fl, string(n.Chars), n.Position.String())
		for _, k := range n.ChildNodes {
			rec(k, ind+"  ")
		}
	}
	rec(n, "")
	return b.String()
}

func realLeaves(n *xbnf.Node, out []rune) []rune {
	if n == nil {
		return out
	}
	if len(n.ChildNodes) == 0 {
		if len(n.Chars) == 1 && n.Chars[0] == xbnf.EOFChar {
			return out
		}
		return append(out, n.Chars...)
	}
	for _, k := range n.ChildNodes {
		out = realLeaves(k, out)
	}
	return out
}
