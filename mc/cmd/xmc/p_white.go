package main

import (
	"fmt"

	"xmc/spec"

	"github.com/cnsgfk/xbnf"
)

// whiteAll decides every Unicode code point: is it white space, is it skipped before a rule, and does a
// stream skip it.
func (c *Ctx) whiteAll() {
	const chunk = 0x1000
	c.each(0x110000/chunk, func(w *W, i int) {
		for r := rune(i * chunk); r < rune((i+1)*chunk); r++ {
			if r >= 0xD800 && r < 0xE000 {
				continue
			}
			cs := Case{Kind: "white", Start: int(r & 0xffff), Flag: int(r >> 16)}
			w.do(&cs, func() string { return w.whiteOne(r) })
		}
	})
}

func (w *W) whiteOne(r rune) string {
	want := spec.White(r)
	w.states++
	w.trans += 3
	w.traces++
	if xbnf.IsWhiteSpace(r) != want {
		return fmt.Sprintf("IsWhiteSpace(U+%04X)=%v", r, !want)
	}
	for n := 1; n <= 2; n++ {
		t := []rune{r}
		if n == 2 {
			t = append(t, '\t')
		}
		t = append(t, 'x')
		exp := 0
		for exp < len(t) && spec.White(t[exp]) {
			exp++
		}
		for _, s := range []xbnf.ICharstream{xbnf.NewCharstreamFromString(string(t)), prependAll(t, 1)} {
			got := s.SkipSpaces()
			if !runesEq(got, t[:exp]) || s.Next() != t[exp] {
				return fmt.Sprintf("skipping white space of %q gives %q", string(t), string(got))
			}
		}
	}
	return ""
}

// pushBack is b with chars, which were just read from it, pushed back. It is nil when the build has no
// access to the library's own constructor.
func pushBack(b xbnf.ICharstream, chars []rune) xbnf.ICharstream {
	if s := xbnf.VerifPrepend(b, chars); s != nil {
		return s
	}
	return nil
}

// prependAll is a stream over t whose first k characters were read and pushed back.
func prependAll(t []rune, k int) xbnf.ICharstream {
	b := xbnf.NewCharstreamFromString(string(t))
	for i := 0; i < k; i++ {
		b.Next()
	}
	if s := pushBack(b, append([]rune(nil), t[:k]...)); s != nil {
		return s
	}
	return xbnf.NewCharstreamFromString(string(t))
}

func replayWhite(w *W, c Case) string {
	if c.Kind == "parse" {
		return replayParse(w, c)
	}
	if c.Kind == "white" {
		return w.whiteOne(rune(c.Flag)<<16 | rune(c.Start))
	}
	return replayEval(w, c)
}
