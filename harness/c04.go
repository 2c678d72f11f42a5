package main

import (
	"fmt"
	"strings"

	"github.com/google/licensecheck/verifh/ref"
	"pgregory.net/rapid"
)

// A derived text must be matched in full.
type derived struct {
	Lics []ref.License
	Text Text
	Want string // license ID
	Wild bool   // has wildcards
	Last bool   // the pattern may end in a wildcard, which NewScanner may refuse
}

func checkDerived(c derived, o *Obs) error {
	s, err := newScanner(c.Lics)
	if err != nil && c.Last {
		o.Label("refused for a wildcard at the end")
		return nil
	}
	if err != nil {
		return err
	}
	o.LabelIf(c.Wild, "wildcards")
	o.LabelIf(c.Last, "wildcard at the end")
	o.LabelIf(len(c.Lics) > 1, "several licenses")
	o.Nontrivial()
	got := s.Scan([]byte(c.Text))
	if len(got.Match) != 1 || got.Match[0].ID != c.Want || got.Match[0].IsURL || got.Match[0].Start != 0 || got.Match[0].End != len(c.Text) || !near(got.Percent, 100) {
		return fmt.Errorf("scanning %q, which %s describes, for %+v\ngot %+v", c.Text, c.Want, c.Lics, got)
	}
	return nil
}

// genTail makes patterns whose required part ends in a group with a wildcard
// at the end of an alternative or of an option, followed by optional parts.
func genTail(t *rapid.T) derived {
	next := 0
	u := &uniq{t: t, next: &next, wild: 12, budget: 24, room: 32}
	alt := &ref.Node{K: ref.Alt}
	for i := between(t, 1, 3); i >= 0; i-- {
		n := cat(u.lit(1, 3))
		if !oneIn(t, 3) {
			k := min(between(t, 1, 12), u.room)
			u.room -= k
			n.Sub = append(n.Sub, &ref.Node{K: ref.Wild, N: k})
		}
		alt.Sub = append(alt.Sub, n)
	}
	tr := cat(u.lit(2, 3), u.node(1), alt)
	for i := between(t, 0, 3); i > 0; i-- {
		tr.Sub = append(tr.Sub, &ref.Node{K: ref.Opt, Sub: []*ref.Node{cat(u.lit(1, 4), u.node(2), u.lit(1, 2))}})
	}
	k := 0
	words := derive(t, tr, func() string { k++; return fillWord(k % 7) })
	return derived{
		Lics: []ref.License{{ID: "L", LRE: printLRE(t, tr, oneIn(t, 3))}},
		Text: Text(render(t, words, oneIn(t, 2))),
		Want: "L", Wild: hasWild(tr), Last: tr.EndsWild(),
	}
}

func hasWild(n *ref.Node) bool {
	has := false
	n.Walk(func(n *ref.Node) { has = has || n.K == ref.Wild && n.N > 0 })
	return has
}

func genUnique(t *rapid.T) derived {
	next := 0
	var c derived
	n := 1
	if oneIn(t, 3) {
		n = between(t, 2, 4)
	}
	which := intn(t, n)
	var words []string
	for i := 0; i < n; i++ {
		tr := uniqueTree(t, &next, 12)
		id := fmt.Sprint("L", i)
		c.Lics = append(c.Lics, ref.License{ID: id, Type: uint(i) << 1, LRE: printLRE(t, tr, oneIn(t, 3))})
		if i == which {
			c.Want = id
			c.Wild = hasWild(tr)
			k := 0
			words = derive(t, tr, func() string { k++; return fillWord(k % 7) })
		}
	}
	c.Text = Text(render(t, words, oneIn(t, 2)))
	return c
}

// genRepeats makes patterns with repeated words, and wildcards of up to three
// words (longer ones are subject to implicit cuts).
func genRepeats(wild int, words func(t *rapid.T) []string, fill func(t *rapid.T, v *Vocab) string) func(*rapid.T) derived {
	return func(t *rapid.T) derived {
		v := &Vocab{Words: words(t)}
		tc := &treeCfg{v: v, depth: 3, wild: wild, budget: 24}
		tr := tc.tree(t)
		c := derived{Want: "L", Wild: hasWild(tr)}
		c.Lics = []ref.License{{ID: "L", LRE: printLRE(t, tr, oneIn(t, 3))}}
		c.Text = Text(render(t, derive(t, tr, func() string { return fill(t, v) }), oneIn(t, 2)))
		return c
	}
}

// A largeSet is N licenses, each of which begins with one of Alts pairs of
// words or, if Opts, with any of Alts optional words, and goes on with Words
// words, with Common words in common with the others and after every Every
// words an option, a wildcard and an alternative. Texts of some of them, by
// number and alternative, follow each other.
type largeSet struct {
	N, Alts, Words, Common, Every int
	Opts                          bool
	Which, Alt                    []int
	Wide                          int // number of choices after the common words
	Cross                         int // the second word is any of so many, whatever the first is
}

func genLargeSet(t *rapid.T) largeSet {
	c := largeSet{N: between(t, 1, 10), Alts: between(t, 1, 120), Words: between(t, 1, 300), Common: between(t, 0, 20), Every: between(t, 20, 200), Opts: oneIn(t, 3)}
	switch intn(t, 6) {
	case 0: // many licenses
		c.N, c.Alts = between(t, 50, 1000), between(t, 1, 4)
	case 1: // long ones
		c.Words, c.Alts = between(t, 1000, 40000), between(t, 1, 10)
		c.N = between(t, 1, 120000/c.Words)
	}
	if c.Opts {
		c.Alts = min(c.Alts, 30)
	}
	if !c.Opts && c.N <= 10 && oneIn(t, 2) {
		c.Cross = between(t, 1, 120)
	}
	if c.N <= 100 && oneIn(t, 2) {
		c.Wide = between(t, 2, pick(t, []int{20, 100, 1000}))
	}
	for k := between(t, 1, 6); k > 0; k-- {
		c.Which = append(c.Which, even(t, c.N))
		c.Alt = append(c.Alt, even(t, c.Alts))
	}
	return c
}

// genHugeSet makes sets of one to a few million words together.
func genHugeSet(t *rapid.T) largeSet {
	c := largeSet{Alts: between(t, 1, 20), Common: between(t, 0, 20), Every: between(t, 20, 2000), Opts: oneIn(t, 3)}
	total := between(t, 1100000, 2200000)
	c.N = pick(t, []int{4, 8, 30, 300, 2000})
	c.Words = total / c.N
	for k := between(t, 1, 3); k > 0; k-- {
		c.Which = append(c.Which, even(t, c.N))
		c.Alt = append(c.Alt, even(t, c.Alts))
	}
	c.Which = append(c.Which, 0, c.N-1)
	c.Alt = append(c.Alt, 0, c.Alts-1)
	return c
}

// genManySet makes sets of more licenses than fit in 16 bits.
func genManySet(t *rapid.T) largeSet {
	c := largeSet{N: between(t, 65540, 80000), Alts: 1, Words: between(t, 1, 3), Every: 20}
	for _, i := range []int{0, c.N - 1, 32768, 65535, 65536, even(t, c.N), even(t, c.N-65536), 65536 + even(t, c.N-65536)} {
		c.Which = append(c.Which, i)
		c.Alt = append(c.Alt, 0)
	}
	return c
}

// parts returns the LRE of license i and a text of it.
func (c largeSet) parts(i, alt int) (lre, text string) {
	var l, x strings.Builder
	if c.Opts {
		for a := 0; a < c.Alts; a++ {
			fmt.Fprintf(&l, "((o%dx%d))??\n", i, a)
			if a == alt || alt%3 == 0 && a > alt {
				fmt.Fprintf(&x, "o%dx%d ", i, a)
			}
		}
		fmt.Fprintf(&l, "p%d q%d\n", i, i)
		fmt.Fprintf(&x, "p%d q%d\n", i, i)
	} else if c.Cross > 0 {
		for k, n := range []int{c.Alts, c.Cross} {
			at := alt
			if k == 1 {
				at = []int{0, c.Cross - 1, alt * 31 % c.Cross}[alt%3]
			}
			l.WriteString("((\n")
			for a := 0; a < n; a++ {
				if a > 0 {
					l.WriteString("||\n")
				}
				fmt.Fprintf(&l, "p%dx%dx%d ", i, a, k)
			}
			l.WriteString("\n))\n")
			fmt.Fprintf(&x, "p%dx%dx%d ", i, at, k)
		}
	} else {
		l.WriteString("((\n")
		for a := 0; a < c.Alts; a++ {
			if a > 0 {
				l.WriteString("\n||\n")
			}
			fmt.Fprintf(&l, "p%dx%d q%dx%d", i, a, i, a)
			if a == alt {
				fmt.Fprintf(&x, "p%dx%d q%dx%d\n", i, a, i, a)
			}
		}
		l.WriteString("\n))\n")
	}
	for w := 0; w < c.Common; w++ {
		fmt.Fprintf(&l, "common%d ", w%7)
		fmt.Fprintf(&x, "common%d ", w%7)
	}
	if c.Wide > 0 {
		// The choice: mostly the first, the last, or one in between.
		at := []int{0, c.Wide - 1, (alt*37 + i*11 + c.Words) % c.Wide}[(alt+i)%3]
		l.WriteString("\n((\n")
		for a := 0; a < c.Wide; a++ {
			if a > 0 {
				l.WriteString("||\n")
			}
			fmt.Fprintf(&l, "choice%d ", a)
			if a%3 == 0 {
				fmt.Fprintf(&l, "more%d ", a)
			}
		}
		l.WriteString("\n))\n")
		fmt.Fprintf(&x, "choice%d ", at)
		if at%3 == 0 {
			fmt.Fprintf(&x, "more%d ", at)
		}
	}
	for w := 0; w < c.Words; w++ {
		fmt.Fprintf(&l, "w%dx%d ", i, w)
		fmt.Fprintf(&x, "w%dx%d ", i, w)
		if w%c.Every == c.Every-1 {
			fmt.Fprintf(&l, "\n((opt%d))??\n__5__ ((one || two))\nw%dy%d ", w, i, w)
			l.WriteString("and then on ")
			if (w/c.Every+alt)%2 == 0 {
				fmt.Fprintf(&x, "opt%d some unrelated words two w%dy%d and then on ", w, i, w)
			} else {
				fmt.Fprintf(&x, "one w%dy%d and then on ", i, w)
			}
		}
	}
	return l.String(), strings.TrimSpace(x.String()) + "\n"
}

func checkLargeSet(c largeSet, o *Obs) error {
	var lics []ref.License
	for i := 0; i < c.N; i++ {
		lre, _ := c.parts(i, 0)
		// An operator stands at the beginning of a line.
		lre = strings.ReplaceAll(lre, "__5__ ((", "__5__\n((")
		lics = append(lics, ref.License{ID: fmt.Sprint("L", i), Type: uint(i), LRE: lre})
	}
	s, err := newScanner(lics)
	if err != nil {
		return fmt.Errorf("%v: %.300s", err, err.Error())
	}
	var text strings.Builder
	var want []ref.Match
	for k, i := range c.Which {
		_, x := c.parts(i, c.Alt[k])
		start := text.Len()
		text.WriteString(x)
		want = append(want, ref.Match{ID: lics[i].ID, Type: lics[i].Type, Start: start, End: text.Len()})
	}
	o.LabelIf(c.Alts > 64, "over 64 ways to begin")
	o.LabelIf(c.Cross*c.Alts > 1000, "over 1000 ways to begin")
	o.LabelIf(c.Wide > 64, "over 64 choices")
	o.LabelIf(c.N*c.Words > 65536, "over 65536 words")
	o.LabelIf(c.N*c.Words > 1<<20, "over 1048576 words")
	o.LabelIf(c.N > 256, "over 256 licenses")
	o.LabelIf(c.N > 65536, "over 65536 licenses")
	o.Nontrivial()
	got := s.Scan([]byte(text.String()))
	if gm := refMatches(got); !sameMatches(gm, want) || !near(got.Percent, 100) {
		return fmt.Errorf("scanning %q (%d bytes)\ngot  %+v\nwant %+v", trunc(text.String()), text.Len(), got, want)
	}
	return nil
}

func someCodeWords(t *rapid.T) []string {
	var l []string
	for i := between(t, 1, 8); i > 0; i-- {
		l = append(l, codeWord(i*5))
	}
	return l
}

func init() {
	noCopyright := func(t *rapid.T) []string {
		var l []string
		src := append(append([]string(nil), nearWords...), legalWords...)
		for i := between(t, 2, 12); i > 0; i-- {
			if w := pick(t, src); w != "copyright" {
				l = append(l, w)
			}
		}
		return append(l, "abcd", "the")
	}
	register(&Prop{
		ID: "C04",
		Rule: "Accepted LREs as trees of groups, alternatives, options, wildcards and words (printed in varied layouts), alone or with others, with up to 120 choices in one place, and a text derived from one: random alternatives and options, wildcards filled with 0 to N words, in varied spelling, punctuation and markup. " +
			"Patterns have words occurring once and wildcards of up to 36 words filled with unrelated words (also where only optional parts follow), or repeated words and wildcards of up to 3 words filled with any words, or repeated and similar words without wildcards; and large sets (up to 1000 licenses, 120000 words, 120 ways to begin; a few of over a million words together). " +
			"Oracle: one match, of that license, over the whole text, at 100 percent. Every case is non-trivial (it has a match of two words or more by construction), except those refused for a wildcard at the end.",
		Subs: []Sub{
			NewSub("unique-words", 80000, 2000000, genUnique, checkDerived),
			NewSub("tail-wildcards", 40000, 1000000, genTail, checkDerived),
			NewSub("short-wildcards", 40000, 1000000, genRepeats(3, someCodeWords, func(t *rapid.T, v *Vocab) string {
				return pick(t, append(v.Words, fillWord(0), fillWord(1)))
			}), checkDerived),
			NewSub("large", 320, 6000, genLargeSet, checkLargeSet),
			NewSub("huge", 8, 40, genHugeSet, checkLargeSet),
			NewSub("many", 1, 16, genManySet, checkLargeSet),
			NewSub("no-wildcards", 40000, 1000000, genRepeats(0, noCopyright, nil), checkDerived),
		},
	})
}
