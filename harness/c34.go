package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// C34: package old judges licenses by themselves and texts locally.

type oldLists struct {
	A, B []oldLic // two lists that come to the same
	Text Text
	Opts oldOpts
}

// genOldAny makes a case with different license names.
func genOldAny(t *rapid.T) oldCase {
	var c oldCase
	switch intn(t, 4) {
	case 0:
		c = genOld(t)
	case 1:
		c = genOldDense(t)
	case 2:
		c = genOldMany(t)
	case 3:
		l := genOldLayouts(t)
		c = oldCase{Lics: l.Lics, Text: l.A, Opts: l.Opts}
	}
	urls := map[string]bool{}
	for i := range c.Lics {
		c.Lics[i].Name += fmt.Sprint("-", i)
		if urls[c.Lics[i].URL] {
			c.Lics[i].URL = ""
		}
		urls[c.Lics[i].URL] = true
	}
	return c
}

func genOldLists(t *rapid.T) oldLists {
	x := genOldAny(t)
	c := oldLists{A: x.Lics, Text: x.Text, Opts: x.Opts}
	for _, l := range x.Lics {
		if l.Text != "" && l.URL != "" && oneIn(t, 2) { // in two entries
			u := l
			l.URL, u.Text = "", ""
			c.B = append(c.B, u)
		}
		c.B = append(c.B, l)
		if oneIn(t, 6) { // twice
			c.B = append(c.B, l)
		}
	}
	for k := between(t, 0, 4); k > 0; k-- { // licenses of unrelated words
		l := oldLic{Name: pick(t, oldNames)}
		switch intn(t, 4) {
		case 0:
			l.URL = pick(t, []string{"unrelated.org/x", "unrelated.com/license"})
		case 1:
		default:
			var w []string
			for j := between(t, 1, 30); j > 0; j-- {
				w = append(w, codeWord(5000+intn(t, 20)))
			}
			l.Text = Text(strings.Join(w, " "))
		}
		c.B = append(c.B, l)
	}
	if len(c.B) > 1 && !oneIn(t, 5) {
		c.B = rapid.Permutation(c.B).Draw(t, "order")
	}
	return c
}

func checkOldLists(c oldLists, o *Obs) error {
	a, fa := newOld(c.A).Cover([]byte(c.Text), c.Opts.opts())
	b, fb := newOld(c.B).Cover([]byte(c.Text), c.Opts.opts())
	if !sameOldResult(oldResult{a, fa}, oldResult{b, fb}) {
		return fmt.Errorf("covering %q (%+v)\nfor %+v\ngot %+v\nfor %+v\ngot %+v", c.Text, c.Opts, c.A, a, c.B, b)
	}
	o.LabelIf(len(a.Match) > 1, "several matches")
	if len(a.Match) > 0 {
		o.Nontrivial()
	}
	return nil
}

// Texts that stand in one, far from each other.
type oldParts struct {
	Lics  []oldLic
	Parts []Text
	Gaps  []int // foreign words between the parts
	Opts  oldOpts
}

func genOldParts(t *rapid.T) oldParts {
	x := genOldAny(t)
	c := oldParts{Lics: x.Lics, Opts: x.Opts}
	if c.Opts.Slop > 90 {
		c.Opts.Slop = between(t, 71, 90)
	}
	f := strings.Fields(string(x.Text))
	for k := between(t, 2, 4); k > 0; k-- {
		p := x.Text
		if len(f) > 1 && oneIn(t, 2) {
			lo := intn(t, len(f)-1)
			p = Text(strings.Join(f[lo:between(t, lo+1, len(f))], " "))
		}
		c.Parts = append(c.Parts, p)
		g := max(71, c.Opts.Slop+1)
		c.Gaps = append(c.Gaps, g+pick(t, []int{0, 0, 1, 30}))
	}
	return c
}

func checkOldParts(c oldParts, o *Obs) error {
	ch := newOld(c.Lics)
	far := func(n int) string {
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteString(" " + codeWord(5500+i%7) + "\n")
		}
		return b.String()
	}
	var all strings.Builder
	var want []oldSpan
	words := 0
	all.WriteString(far(2))
	words += 2
	matched, urls := 0.0, false
	for i, p := range c.Parts {
		alone := far(2) + string(p) + far(3)
		cov, _ := ch.Cover([]byte(alone), c.Opts.opts())
		for _, s := range oldSpans(alone, cov) {
			if s.Lo < 2 || s.Hi > len(oldAtoms(alone))-3 {
				return fmt.Errorf("covering %q (%+v)\nfor %+v\ngot %+v", alone, c.Opts, c.Lics, cov)
			}
			urls = urls || s.URL
			s.Lo += words - 2
			s.Hi += words - 2
			want = append(want, s)
		}
		matched += cov.Percent / 100 * float64(len(oldAtoms(alone)))
		all.WriteString(string(p))
		words += len(oldAtoms(alone)) - 5
		all.WriteString(far(c.Gaps[i]))
		words += c.Gaps[i]
	}
	cov, _ := ch.Cover([]byte(all.String()), c.Opts.opts())
	got := oldSpans(all.String(), cov)
	if err := diff(got, want); err != nil && len(got)+len(want) > 0 {
		return fmt.Errorf("covering %q (%+v)\nfor %+v\ngot %+v\nthe parts alone give %+v (by words)", all.String(), c.Opts, c.Lics, got, want)
	}
	if !urls {
		if p := 100 * matched / float64(words); !near(cov.Percent, p) {
			return fmt.Errorf("covering %q (%+v)\nfor %+v\ngot %+v\n%v of %d words match in the parts", all.String(), c.Opts, c.Lics, cov, matched, words)
		}
	}
	if len(want) > 1 {
		o.Nontrivial()
	}
	o.LabelIf(len(want) == 0, "no match")
	o.LabelIf(urls, "URL match")
	return nil
}

func init() {
	register(&Prop{
		ID: "C34",
		Rule: "License lists for package old and texts as in C33. Lists: the same licenses in another order, split into entries with text and with URL, doubled, and with licenses of unrelated words among them. Parts: two to four texts in one, with more unrelated words between them than Slop and filled blanks can span. " +
			"Oracle: equal results; the matches of the parts alone at their places, and covered words added up. Non-trivial: there is a match; there are two.",
		Subs: []Sub{
			NewSub("lists", 60000, 1500000, genOldLists, checkOldLists),
			NewSub("parts", 30000, 800000, genOldParts, checkOldParts),
		},
	})
}
