package main

import (
	"xmc/spec"
)

// texts enumerates every string over alpha of length 0..max, shortest first.
func texts(alpha string, max int) []string {
	out := []string{""}
	level := []string{""}
	for n := 1; n <= max; n++ {
		var next []string
		for _, p := range level {
			for _, c := range alpha {
				next = append(next, p+string(c))
			}
		}
		out = append(out, next...)
		level = next
	}
	return out
}

// Gen enumerates every rule built from the given terminals and operators, by cost.
// An element is a terminal or a bracketed rule; a choice joins elements by | or >; a sequence joins
// elements and choices. Every terminal, bracket and joint costs 1.
type Gen struct {
	Terms   []*spec.Rule
	Wrap    []func(*spec.Rule) *spec.Rule
	Bars    bool // |
	Orders  bool // >
	Seqs    bool
	MaxKids int
	elem    map[int][]*spec.Rule
	choice  map[int][]*spec.Rule
	any     map[int][]*spec.Rule
}

func (g *Gen) init() {
	if g.elem == nil {
		g.elem = map[int][]*spec.Rule{}
		g.choice = map[int][]*spec.Rule{}
		g.any = map[int][]*spec.Rule{}
		if g.MaxKids == 0 {
			g.MaxKids = 99
		}
	}
}

func (g *Gen) Elem(n int) []*spec.Rule {
	g.init()
	if r, ok := g.elem[n]; ok {
		return r
	}
	var out []*spec.Rule
	if n == 1 {
		out = append(out, g.Terms...)
	} else if n > 1 {
		for _, in := range g.Any(n - 1) {
			for _, w := range g.Wrap {
				out = append(out, w(in))
			}
		}
	}
	g.elem[n] = out
	return out
}

// parts calls f with every list of at least 2 items of total cost n (joints included).
func parts(n int, max int, item func(int) []*spec.Rule, f func([]*spec.Rule)) {
	var rec func(left int, cur []*spec.Rule)
	rec = func(left int, cur []*spec.Rule) {
		if len(cur) == max {
			return
		}
		// last item
		if len(cur) >= 1 {
			for _, r := range item(left) {
				f(append(cur[:len(cur):len(cur)], r))
			}
		}
		for c := 1; c+2 <= left; c++ {
			for _, r := range item(c) {
				rec(left-c-1, append(cur[:len(cur):len(cur)], r))
			}
		}
	}
	rec(n, nil)
}

func (g *Gen) Choice(n int) []*spec.Rule {
	g.init()
	if r, ok := g.choice[n]; ok {
		return r
	}
	var out []*spec.Rule
	if g.Bars || g.Orders {
		parts(n, g.MaxKids, g.Elem, func(k []*spec.Rule) {
			// every way to join the k items
			for m := 0; m < 1<<(len(k)-1); m++ {
				groups := [][]*spec.Rule{{k[0]}}
				ok := true
				for i := 1; i < len(k); i++ {
					if m>>(i-1)&1 == 1 {
						ok = ok && g.Orders
						groups = append(groups, []*spec.Rule{k[i]})
					} else {
						ok = ok && g.Bars
						groups[len(groups)-1] = append(groups[len(groups)-1], k[i])
					}
				}
				if ok {
					out = append(out, spec.Ord(groups...))
				}
			}
		})
	}
	g.choice[n] = out
	return out
}

func (g *Gen) seqItem(n int) []*spec.Rule {
	e, c := g.Elem(n), g.Choice(n)
	return append(e[:len(e):len(e)], c...)
}

func (g *Gen) Any(n int) []*spec.Rule {
	g.init()
	if r, ok := g.any[n]; ok {
		return r
	}
	out := g.seqItem(n)
	out = out[:len(out):len(out)]
	if g.Seqs {
		parts(n, g.MaxKids, g.seqItem, func(k []*spec.Rule) { out = append(out, spec.Cat(k...)) })
	}
	g.any[n] = out
	return out
}

// UpTo is every rule of cost 1..n, cheapest first.
func (g *Gen) UpTo(n int) []*spec.Rule {
	var out []*spec.Rule
	for i := 1; i <= n; i++ {
		out = append(out, g.Any(i)...)
	}
	return out
}

// operators
func wGroup(r *spec.Rule) *spec.Rule  { return spec.Gr(r) }
func wOption(r *spec.Rule) *spec.Rule { return spec.Op(r) }
func wRep(a, b int) func(*spec.Rule) *spec.Rule {
	return func(r *spec.Rule) *spec.Rule { return spec.Re(r, a, b) }
}
func wAnn(w func(*spec.Rule) *spec.Rule, mask int) func(*spec.Rule) *spec.Rule {
	return func(r *spec.Rule) *spec.Rule { return w(r).Ann(mask) }
}

var repAny, repSome, repTwo, repLim = wRep(0, 0), wRep(1, 0), wRep(2, 2), wRep(1, 2)

func coreGen(terms ...*spec.Rule) *Gen {
	return &Gen{Terms: terms, Wrap: []func(*spec.Rule) *spec.Rule{wGroup, wOption, repAny, repTwo}, Bars: true, Orders: true, Seqs: true}
}

func ab() []*spec.Rule {
	return []*spec.Rule{spec.C('a'), spec.C('b'), spec.Cs("ab"), spec.S("a")}
}
