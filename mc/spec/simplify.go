package spec

// Reference definition of the AST simplification steps. They build new trees and never touch their
// input.

// Merge joins runs of adjacent sticky siblings into one leaf each. A sticky node loses its inner
// structure. A token ($) stays on its own, and text which is kept is never joined to a node that a
// later step may remove (~ or #).
func Merge(nodes []*Node) []*Node {
	var out []*Node
	open := -1 // index in out of the sticky leaf which the next sibling may join
	for _, n := range nodes {
		if !n.Sticky {
			if open >= 0 {
				out[open].Sticky = false
			}
			open = -1
			out = append(out, n.Merged())
			continue
		}
		text := n.Text()
		if open >= 0 {
			l := out[open]
			if !l.Tok && !n.Tok && !(l.Vir && !n.Vir) && !(l.Non && !n.Non) {
				l.Chars = append(append([]rune{}, l.Chars...), text...)
				if l.Pos < 0 {
					l.Pos = n.Pos
				}
				continue
			}
			l.Sticky = false
		}
		c := *n
		c.Chars = append([]rune(nil), text...)
		c.Kids = nil
		out = append(out, &c)
		open = len(out) - 1
	}
	if open >= 0 {
		out[open].Sticky = false
	}
	return out
}

// Merged is the node with the runs of its children joined; the parts of a block are never joined.
func (n *Node) Merged() *Node {
	c := *n
	if len(n.Kids) == 0 {
		return &c
	}
	if n.Type == "block" {
		c.Kids = nil
		for _, k := range n.Kids {
			m := k.Merged()
			m.Sticky = false
			c.Kids = append(c.Kids, m)
		}
		c.Sticky = false
		return &c
	}
	c.Kids = Merge(n.Kids)
	return &c
}

// Drop removes, at every level, the nodes which gone says, with all that is below.
func Drop(nodes []*Node, gone func(*Node) bool) []*Node {
	var out []*Node
	for _, n := range nodes {
		if gone(n) {
			continue
		}
		out = append(out, n.Dropped(gone))
	}
	return out
}

func (n *Node) Dropped(gone func(*Node) bool) *Node {
	c := *n
	c.Kids = Drop(n.Kids, gone)
	return &c
}

func IsVirtual(n *Node) bool { return n.Vir }
func IsNonData(n *Node) bool { return n.Non }

// Reduced removes the structure below n which carries no name: an unnamed inner node gives way to its
// children, an unnamed node without text goes, and an unnamed leaf which is all there is gives its
// text to n.
func (n *Node) Reduced() *Node {
	c := *n
	if len(n.Kids) == 0 {
		return &c
	}
	c.Kids = nil
	for _, k := range n.Kids {
		c.Kids = append(c.Kids, k.Reduced())
	}
	if len(c.Kids) == 1 && c.Kids[0].Name == "" {
		k := c.Kids[0]
		if len(k.Chars) > 0 {
			c.Chars, c.Kids = k.Chars, nil
		} else {
			c.Kids = k.Kids
		}
	}
	var kids []*Node
	for _, k := range c.Kids {
		switch {
		case k.Name == "" && len(k.Text()) == 0 && len(k.Kids) == 0:
		case k.Name == "" && len(k.Kids) > 0:
			kids = append(kids, k.Kids...)
		default:
			kids = append(kids, k)
		}
	}
	c.Kids = kids
	if len(kids) == 1 && kids[0].Name == "" && len(kids[0].Kids) == 0 {
		c.Chars, c.Kids = kids[0].Chars, nil
	}
	return &c
}

func Reduce(nodes []*Node) []*Node {
	var out []*Node
	for _, n := range nodes {
		if n.Non {
			out = append(out, n)
			continue
		}
		out = append(out, n.Reduced())
	}
	return out
}

// Simplify is the whole pipeline of an evaluation with the given level (-1 raw, 0 basic, 1 no virtual
// nodes, 2 data only).
func Simplify(nodes []*Node, level int) []*Node {
	if level == -1 {
		return nodes
	}
	nodes = Merge(nodes)
	if level == 1 || level == 2 {
		nodes = Drop(nodes, IsVirtual)
	}
	if level == 2 {
		nodes = Drop(nodes, IsNonData)
	}
	return Reduce(nodes)
}

func (n *Node) CountNodes() int {
	c := 1
	for _, k := range n.Kids {
		c += k.CountNodes()
	}
	return c
}

func (n *Node) CountTokens() int {
	if len(n.Kids) == 0 {
		return 1
	}
	c := 0
	for _, k := range n.Kids {
		c += k.CountTokens()
	}
	return c
}

func (n *Node) CountSticky() int {
	c := 0
	if n.Sticky {
		c = 1
	}
	for _, k := range n.Kids {
		c += k.CountSticky()
	}
	return c
}
