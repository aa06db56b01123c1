package spec

// LeftRecursive tells whether some rule of g can be evaluated again at the position where its own
// evaluation started (over-approximated). Such grammars never finish on some texts.
func (g *Grammar) LeftRecursive() bool {
	nullable := map[string]bool{}
	for changed := true; changed; {
		changed = false
		for n, r := range g.Rules {
			if !nullable[n] && r.nullable(nullable) {
				nullable[n] = true
				changed = true
			}
		}
	}
	first := map[string]map[string]bool{}
	for n, r := range g.Rules {
		first[n] = map[string]bool{}
		r.first(nullable, first[n])
	}
	for n := range g.Rules {
		seen := map[string]bool{}
		var visit func(m string) bool
		visit = func(m string) bool {
			for k := range first[m] {
				if k == n {
					return true
				}
				if !seen[k] {
					seen[k] = true
					if visit(k) {
						return true
					}
				}
			}
			return false
		}
		if visit(n) {
			return true
		}
	}
	return false
}

func (r *Rule) nullable(null map[string]bool) bool {
	switch r.K {
	case EOF, Option:
		return true
	case Str:
		return len(r.S) == 0
	case Ref:
		return null[r.Ref]
	case Group:
		return r.Kids[0].nullable(null)
	case Rep:
		return r.Min == 0 || r.Kids[0].nullable(null)
	case Concat:
		for _, k := range r.Kids {
			if !k.nullable(null) {
				return false
			}
		}
		return true
	case Choice:
		for _, g := range r.Groups {
			for _, k := range g {
				if k.nullable(null) {
					return true
				}
			}
		}
		return false
	case Block:
		return r.Open.nullable(null) && (r.VClose || r.Close.nullable(null))
	}
	return false
}

func (r *Rule) first(null map[string]bool, out map[string]bool) {
	switch r.K {
	case Ref:
		out[r.Ref] = true
	case Group, Option, Rep:
		r.Kids[0].first(null, out)
	case Concat:
		for _, k := range r.Kids {
			k.first(null, out)
			if !k.nullable(null) {
				return
			}
		}
	case Choice:
		for _, g := range r.Groups {
			for _, k := range g {
				k.first(null, out)
			}
		}
	case Block:
		r.Open.first(null, out)
		if r.Open.nullable(null) {
			if r.Esc != nil {
				r.Esc.first(null, out)
			}
			for _, x := range r.Excl {
				x.first(null, out)
			}
			r.Close.first(null, out)
		}
	}
}

// Undefined lists the rules which are referred to but not defined.
func (g *Grammar) Undefined() bool { return !g.Valid() }
