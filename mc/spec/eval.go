package spec

// leading space flags of the public API
const (
	NoSkipHint = 0 // SUGGEST_NOT_SKIP
	Skip       = 1 // SUGGEST_SKIP
	NeverSkip  = 3 // NOT_SKIP
)

// White is the documented set of white space characters.
func White(c rune) bool {
	switch {
	case c >= 0x9 && c <= 0xD, c == 0x20, c == 0x85, c == 0xA0, c == 0x1680,
		c >= 0x2000 && c <= 0x200A, c == 0x2028, c == 0x2029, c == 0x202F, c == 0x205F, c == 0x3000:
		return true
	}
	return false
}

type Node struct {
	Type          string
	Name          string
	Chars         []rune
	Kids          []*Node
	Pos           int // index of first char, -1 unknown
	Tok, Vir, Non bool
	Sticky        bool
}

func (n *Node) HasText() bool {
	if len(n.Chars) > 0 && !(len(n.Chars) == 1 && n.Chars[0] == -1) {
		return true
	}
	for _, k := range n.Kids {
		if k.HasText() {
			return true
		}
	}
	return false
}

// Res is the meaning of evaluating one rule at one position.
type Res struct {
	Ok     bool
	End    int // first index not consumed (valid if Ok)
	Sticky bool
	N      *Node
	Amb    bool
	Errs   []Err // why there is no match (only with Ev.Why): one of these is to be reported
}

// Err is a reason for there being no match.
type Err struct {
	K    string  // missing, eof, undefined, few, excluded, unclosed, ambiguous
	R    *Rule   // what is missing
	P, Q int     // where it was tried: before and after the white space which may be skipped
	N    int     // few: matches found
	Text []rune  // excluded: the text
	Alts []*Node // ambiguous: the matches of the same length
	Rep  bool    // inside a repetition, which says how far it has read
}

// Ev evaluates rules of G over T. Steps counts rule evaluations (model states visited).
type Ev struct {
	G     *Grammar
	T     []rune
	Steps int
	Why   bool // collect the reasons for failures
	// Branches records which behaviours were exercised (vacuity control)
	Branches map[string]int
}

func (e *Ev) why(k string, r *Rule, p, flag int) []Err {
	if !e.Why {
		return nil
	}
	q := p
	if flag == Skip || flag != NeverSkip && r.K == Str {
		q = e.skip(p)
	}
	return []Err{{K: k, R: r, P: p, Q: q}}
}

func (e *Ev) hit(s string) {
	if e.Branches != nil {
		e.Branches[s]++
	}
}

func (e *Ev) skip(p int) int {
	for p < len(e.T) && White(e.T[p]) {
		p++
	}
	return p
}

func (e *Ev) at(p int, s []rune) bool {
	if p+len(s) > len(e.T) {
		return false
	}
	for i, c := range s {
		if e.T[p+i] != c {
			return false
		}
	}
	return true
}

func mk(r *Rule, typ string) *Node {
	return &Node{Type: typ, Name: r.Name, Tok: r.Tok, Vir: r.Vir, Non: r.Non, Pos: -1}
}

func leaf(r *Rule, typ string, text []rune, pos int, sticky bool) *Node {
	n := mk(r, typ)
	n.Chars = append([]rune{}, text...)
	n.Pos = pos
	n.Sticky = sticky
	return n
}

func leadWS(s []rune) int {
	i := 0
	for i < len(s) && White(s[i]) {
		i++
	}
	return i
}

// literal matches s at p. If skip is set, leading white space in the text that s does not itself
// start with is skipped: the white space run must end with s's own leading white space.
func (e *Ev) literal(s []rune, p int, skip bool) (start int, ok bool) {
	if p >= len(e.T) {
		return 0, false
	}
	if skip {
		l := leadWS(s)
		q := e.skip(p)
		if q-p < l {
			return 0, false
		}
		p = q - l
	}
	return p, e.at(p, s)
}

func (e *Ev) Eval(r *Rule, p int, flag int) Res {
	e.Steps++
	p0 := p
	switch r.K {
	case Char:
		if p >= len(e.T) {
			return Res{Sticky: true, Errs: e.why("missing", r, p0, flag)}
		}
		if flag == Skip {
			q := e.skip(p)
			if White(r.S[0]) && q > p {
				for i := p; i < q; i++ {
					if e.T[i] == r.S[0] {
						return Res{Ok: true, End: i + 1, Sticky: true, N: leaf(r, "char", r.S, i, true)}
					}
				}
				return Res{Sticky: true, Errs: e.why("missing", r, p0, flag)}
			}
			p = q
		}
		if e.at(p, r.S) {
			return Res{Ok: true, End: p + 1, Sticky: true, N: leaf(r, "char", r.S, p, true)}
		}
		return Res{Sticky: true, Errs: e.why("missing", r, p0, flag)}
	case Range:
		if p >= len(e.T) {
			return Res{Sticky: true, Errs: e.why("missing", r, p0, flag)}
		}
		in := func(c rune) bool { return r.Lo <= c && c <= r.Hi }
		if flag == Skip {
			q := e.skip(p)
			for i := p; i < q; i++ {
				if in(e.T[i]) {
					return Res{Ok: true, End: i + 1, Sticky: true, N: leaf(r, "chars", e.T[i:i+1], i, true)}
				}
			}
			p = q
		}
		if p < len(e.T) && in(e.T[p]) {
			return Res{Ok: true, End: p + 1, Sticky: true, N: leaf(r, "chars", e.T[p:p+1], p, true)}
		}
		return Res{Sticky: true, Errs: e.why("missing", r, p0, flag)}
	case Chars:
		if st, ok := e.literal(r.S, p, flag == Skip); ok {
			return Res{Ok: true, End: st + len(r.S), Sticky: true, N: leaf(r, "chars", r.S, st, true)}
		}
		return Res{Sticky: true, Errs: e.why("missing", r, p0, flag)}
	case Str:
		if st, ok := e.literal(r.S, p, flag != NeverSkip); ok {
			pos := st
			if len(r.S) == 0 { // no text, no position
				pos = -1
			}
			return Res{Ok: true, End: st + len(r.S), N: leaf(r, "string", r.S, pos, false)}
		}
		return Res{Errs: e.why("missing", r, p0, flag)}
	case EOF:
		if flag == Skip {
			p = e.skip(p)
		}
		if p >= len(e.T) {
			n := mk(r, "EOF")
			n.Name = "EOF"
			n.Chars = []rune{-1}
			n.Sticky = true
			return Res{Ok: true, End: p, Sticky: true, N: n}
		}
		return Res{Sticky: true, Errs: e.why("eof", r, p0, flag)}
	case Ref:
		d := e.G.Rules[r.Ref]
		if d == nil {
			return Res{Errs: e.why("undefined", r, p0, flag)}
		}
		res := e.Eval(d, p, flag)
		if res.Ok {
			res.N.Tok = res.N.Tok != r.Tok
			res.N.Vir = res.N.Vir != r.Vir
			res.N.Non = res.N.Non != r.Non
		}
		return res
	case Group:
		res := e.Eval(r.Kids[0], p, flag)
		if !res.Ok {
			return Res{Sticky: res.Sticky, Amb: res.Amb, Errs: res.Errs}
		}
		n := mk(r, "group")
		n.Sticky = res.Sticky
		n.Kids = []*Node{res.N}
		n.Pos = res.N.Pos
		return Res{Ok: true, End: res.End, Sticky: res.Sticky, N: n}
	case Option:
		res := e.Eval(r.Kids[0], p, flag)
		n := mk(r, "option")
		n.Sticky = res.Sticky
		if !res.Ok {
			return Res{Ok: true, End: p, Sticky: res.Sticky, N: n}
		}
		n.Kids = []*Node{res.N}
		n.Pos = res.N.Pos
		return Res{Ok: true, End: res.End, Sticky: res.Sticky, N: n}
	case Rep:
		n := mk(r, "repetition")
		sticky := true
		amb := false
		var errs []Err
		for p < len(e.T) {
			res := e.Eval(r.Kids[0], p, flag)
			sticky = sticky && res.Sticky
			if !res.Ok {
				amb = res.Amb
				for _, x := range res.Errs {
					x.Rep = true
					errs = append(errs, x)
				}
				break
			}
			if n.Pos < 0 {
				n.Pos = res.N.Pos
			}
			n.Kids = append(n.Kids, res.N)
			moved := res.End > p
			p = res.End
			if !((res.N.Type == "option" || res.N.Type == "repetition") && len(res.N.Kids) == 0) {
				if res.Sticky {
					flag = NoSkipHint
				} else {
					flag = Skip
				}
			}
			if r.Max > 0 && len(n.Kids) == r.Max {
				break
			}
			if !moved && len(n.Kids) >= r.Min {
				e.hit("rep-no-progress")
				break
			}
		}
		if len(n.Kids) < r.Min {
			if errs == nil && e.Why {
				errs = []Err{{K: "few", R: r, P: p0, Q: p, N: len(n.Kids)}}
			}
			return Res{Sticky: sticky, Amb: amb, Errs: errs}
		}
		n.Sticky = sticky
		return Res{Ok: true, End: p, Sticky: sticky, N: n}
	case Concat:
		n := mk(r, "concatenate")
		sticky := true
		for _, k := range r.Kids {
			res := e.Eval(k, p, flag)
			sticky = sticky && res.Sticky
			if !res.Ok {
				return Res{Sticky: sticky, Amb: res.Amb, Errs: res.Errs}
			}
			if n.Pos < 0 {
				n.Pos = res.N.Pos
			}
			p = res.End
			if !((res.N.Type == "option" || res.N.Type == "repetition") && len(res.N.Kids) == 0) {
				if res.Sticky {
					flag = NoSkipHint
				} else {
					flag = Skip
				}
			}
			n.Kids = append(n.Kids, res.N)
		}
		n.Sticky = sticky
		return Res{Ok: true, End: p, Sticky: sticky, N: n}
	case Choice:
		sticky := true
		var errs []Err
		for _, g := range r.Groups {
			var best Res
			var alts []*Node
			ties := 0
			for _, k := range g {
				res := e.Eval(k, p, flag)
				sticky = sticky && res.Sticky
				if !res.Ok {
					errs = append(errs, res.Errs...)
					continue
				}
				switch {
				case ties == 0 || res.End > best.End:
					best, ties = res, 1
					alts = alts[:0]
				case res.End == best.End:
					ties++
				default:
					continue
				}
				if e.Why {
					alts = append(alts, res.N)
				}
			}
			if ties > 1 {
				e.hit("ambiguous")
				errs := e.why("ambiguous", r, p, flag)
				if e.Why {
					errs[0].Alts = alts
				}
				return Res{Amb: true, Errs: errs}
			}
			if ties == 1 {
				n := mk(r, "choice")
				n.Kids = []*Node{best.N}
				n.Sticky = sticky
				n.Pos = best.N.Pos
				return Res{Ok: true, End: best.End, Sticky: sticky, N: n}
			}
		}
		return Res{Sticky: sticky, Errs: errs}
	case Block:
		return e.block(r, p, flag)
	}
	panic("kind")
}

func (e *Ev) block(r *Rule, p, flag int) Res {
	open := e.Eval(r.Open, p, flag)
	if !open.Ok {
		return Res{Errs: open.Errs}
	}
	report := e.Why
	e.Why = false
	defer func() { e.Why = report }()
	n := mk(r, "block")
	p = open.End
	content := &Node{Type: "chars", Sticky: true, Pos: p}
	if p >= len(e.T) {
		content.Pos = -1
	}
	n.Kids = []*Node{open.N, content}
	n.Pos = open.N.Pos
	if n.Pos < 0 {
		n.Pos = content.Pos
	}
	for {
		var escText []rune
		if r.Esc != nil {
			if x := e.Eval(r.Esc, p, NeverSkip); x.Ok && x.End > p {
				escText = e.T[p:x.End]
				p = x.End
			}
		}
		// the longest excluded text at p, if any
		exEnd := -1
		for _, x := range r.Excl {
			if y := e.Eval(x, p, NeverSkip); y.Ok && y.End > exEnd {
				exEnd = y.End
			}
		}
		if exEnd >= 0 {
			if escText == nil {
				e.hit("block-excluded")
				if report {
					return Res{Errs: []Err{{K: "excluded", R: r, P: p, Q: exEnd, Text: e.T[p:exEnd]}}}
				}
				return Res{}
			}
			e.hit("block-escaped-exclude")
			content.Chars = append(content.Chars, e.T[p:exEnd]...)
			p = exEnd
			continue
		}
		cl := e.Eval(r.Close, p, NeverSkip)
		if cl.Ok {
			if escText != nil {
				e.hit("block-escaped-close")
				content.Chars = append(content.Chars, e.T[p:cl.End]...)
				p = cl.End
				continue
			}
			end := p
			if !r.VClose {
				n.Kids = append(n.Kids, cl.N)
				end = cl.End
			}
			e.hit("block-closed")
			return Res{Ok: true, End: end, N: n}
		}
		if p >= len(e.T) {
			if report {
				return Res{Errs: []Err{{K: "unclosed", R: r.Close, P: p, Q: p}}}
			}
			return Res{}
		}
		// an escape that protects nothing stays in the text, doubled (pinned by the project's tests)
		if escText != nil {
			e.hit("block-plain-escape")
			content.Chars = append(content.Chars, escText...)
			content.Chars = append(content.Chars, escText...)
		}
		content.Chars = append(content.Chars, e.T[p])
		p++
	}
}

// Verdict of a whole parse.
type Parse struct {
	Ok    bool
	Why   string // "", "empty", "nomatch", "ambiguous", "noprogress"
	Nodes []*Node
	Spans [][2]int
	Errs  [][]Err // why no rule matches, by root rule (with Ev.Why)
	Tied  []Tie   // the root rules which match the same
}

// Tie is a root rule and what it matches.
type Tie struct {
	Name       string
	Start, End int
}

// Parse evaluates the root rules repeatedly over the whole text.
func (e *Ev) Parse() Parse { return e.ParseFrom(0) }

// ParseFrom parses what is left from index p.
func (e *Ev) ParseFrom(p int) Parse {
	if p >= len(e.T) {
		return Parse{Why: "empty"}
	}
	var out Parse
	flag := Skip
	for p < len(e.T) {
		var best Res
		ties := 0
		var errs [][]Err
		var tied []Tie
		for _, name := range e.G.Roots() {
			res := e.Eval(e.G.Rules[name], p, flag)
			if !res.Ok {
				errs = append(errs, res.Errs)
				continue
			}
			switch {
			case ties == 0 || res.End > best.End:
				best, ties = res, 1
				tied = tied[:0]
			case res.End == best.End:
				ties++
			default:
				continue
			}
			if e.Why {
				tied = append(tied, Tie{res.N.Name, p, res.End})
			}
		}
		switch {
		case ties == 0:
			return Parse{Why: "nomatch", Errs: errs}
		case ties > 1:
			return Parse{Why: "ambiguous", Tied: tied}
		case best.End == p:
			return Parse{Why: "noprogress"}
		}
		out.Nodes = append(out.Nodes, best.N)
		out.Spans = append(out.Spans, [2]int{p, best.End})
		if best.Sticky {
			flag = NoSkipHint
		} else {
			flag = Skip
		}
		p = best.End
	}
	out.Ok = true
	return out
}

// Embed finds the matches of a rule inside free text.
func (e *Ev) Embed(name string) *Node {
	n := &Node{Type: "embed", Name: name, Pos: -1}
	r := e.G.Rules[name]
	p := 0
	var text []rune
	textPos := -1
	flush := func() {
		if len(text) > 0 {
			n.Kids = append(n.Kids, &Node{Type: "text", Name: "_", Chars: text, Pos: textPos})
			text = nil
		}
	}
	for p < len(e.T) {
		res := e.Eval(r, p, NeverSkip)
		if res.Ok && res.End > p {
			flush()
			n.Kids = append(n.Kids, res.N)
			p = res.End
			continue
		}
		if len(text) == 0 {
			textPos = p
		}
		text = append(text, e.T[p])
		p++
	}
	flush()
	return n
}
