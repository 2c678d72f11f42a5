package main

import (
	"fmt"
	"strings"

	"github.com/google/licensecheck/old"
	"pgregory.net/rapid"
)

// C30: what package old's options mean, for licenses whose words are all
// different. The text is then a sequence of runs of a license's words, and
// what MinLength, Slop and Threshold make of them can be said exactly.

// An oldRun is words Lo to Hi-1 of license Lic, or Foreign unrelated words.
type oldRun struct {
	Lic, Lo, Hi int
	Foreign     int
}

type oldRuns struct {
	Sizes []int // words of each license
	Runs  []oldRun
	Opts  oldOpts
	Sep   string
}

func genOldRuns(t *rapid.T) oldRuns {
	c := oldRuns{Opts: genOldOpts(t), Sep: pick(t, oldSeps)}
	if strings.ContainsAny(c.Sep, "_") {
		c.Sep = " "
	}
	if c.Opts.Min > 30 {
		c.Opts.Min = between(t, 10, 30)
	}
	minLen := c.Opts.Min
	if minLen <= 0 {
		minLen = 10
	}
	slop := c.Opts.Slop
	if slop <= 0 {
		slop = 8
	}
	n := between(t, 1, 3)
	at := make([]int, n) // where each license would be continued
	for i := 0; i < n; i++ {
		most := 5 * minLen
		if oneIn(t, 3) {
			most = 16 * minLen
		}
		c.Sizes = append(c.Sizes, min(999, between(t, 2, most)))
	}
	lic := 0
	for k := between(t, 1, 9); k > 0; k-- {
		if oneIn(t, 3) {
			lic = intn(t, n)
		}
		size := c.Sizes[lic]
		r := oldRun{Lic: lic, Lo: at[lic]}
		if r.Lo >= size {
			r.Lo = 0
		}
		switch intn(t, 6) {
		case 0:
			r.Lo = intn(t, size)
		case 1:
			r.Lo = min(size-1, r.Lo+between(t, 1, 3))
		case 2:
			r.Lo = max(0, r.Lo-between(t, 1, 2))
		}
		switch intn(t, 4) {
		case 0:
			r.Hi = r.Lo + minLen + between(t, -1, 1)
		case 1:
			r.Hi = size
		case 2:
			r.Hi = r.Lo + between(t, 1, size)
		case 3:
			r.Hi = r.Lo + between(t, minLen, 2*minLen)
		}
		r.Hi = min(size, max(r.Hi, r.Lo+1))
		if b := pick(t, []int{0, 1, 2}) % n; b != lic && r.Hi < size-minLen && slop >= minLen && oneIn(t, 2) {
			// A run of another license in the gap.
			x := oldRun{Lic: b, Hi: min(c.Sizes[b], between(t, minLen, slop))}
			y := r
			y.Lo = r.Hi + between(t, 0, min(2, size-minLen-r.Hi))
			y.Hi = between(t, y.Lo+minLen, size)
			f := slop - (x.Hi - x.Lo)
			f1 := between(t, 0, f)
			c.Runs = append(c.Runs, r, oldRun{Foreign: f1}, x, oldRun{Foreign: between(t, 0, f-f1)})
			r = y
		}
		at[lic] = r.Hi
		c.Runs = append(c.Runs, r)
		f := 0
		switch intn(t, 5) {
		case 0, 1:
			f = slop + between(t, -1, 1)
		case 2:
			f = between(t, 1, slop)
		case 3:
			f = between(t, 0, 2*slop+4)
		}
		if f > 0 {
			c.Runs = append(c.Runs, oldRun{Foreign: f})
		}
	}
	if oneIn(t, 2) {
		c.Runs = append([]oldRun{{Foreign: between(t, 1, 12)}}, c.Runs...)
	}
	return c
}

// word is the word of license i at j.
func (c oldRuns) word(i, j int) string { return codeWord(i*1000 + j) }

// model gives the matches in words, before overlapping ones are removed, and
// the number of words.
func (c oldRuns) model() (matches []oldRunMatch, words int) {
	minLen, slop, threshold := c.Opts.Min, c.Opts.Slop, c.Opts.Threshold
	if minLen <= 0 {
		minLen = 10
	}
	minLen = max(minLen, 2)
	if slop <= 0 {
		slop = 8
	}
	if threshold <= 0 {
		threshold = 40
	}
	// The text as (license, word) pairs.
	type w struct{ lic, j int }
	var text []w
	for _, r := range c.Runs {
		for k := 0; k < r.Foreign; k++ {
			text = append(text, w{-1, 0})
		}
		for j := r.Lo; j < r.Hi; j++ {
			text = append(text, w{r.Lic, j})
		}
	}
	last := map[int]int{} // the last match of each license
	for i := 0; i < len(text); {
		if text[i].lic < 0 {
			i++
			continue
		}
		e := i + 1
		for e < len(text) && text[e].lic == text[i].lic && text[e].j == text[e-1].j+1 {
			e++
		}
		if e-i >= minLen {
			lic := text[i].lic
			m, ok := last[lic]
			if ok && i-matches[m].Hi <= slop && text[i].j > matches[m].lastJ {
				matches[m].Hi = e
				matches[m].Matched += e - i
				matches[m].lastJ = text[e-1].j
			} else {
				last[lic] = len(matches)
				matches = append(matches, oldRunMatch{lic, i, e, e - i, text[e-1].j})
			}
		}
		i = e
	}
	out := matches[:0]
	for _, m := range matches {
		if 100*float64(m.Matched)/float64(c.Sizes[m.Lic]) >= float64(threshold) {
			out = append(out, m)
		}
	}
	return out, len(text)
}

type oldRunMatch struct {
	Lic, Lo, Hi int
	Matched     int
	lastJ       int
}

// winnow removes the loser of each overlapping pair. It reports whether that
// is unambiguous: each match overlaps one other at most, and has fewer words,
// matched or not, and is the lesser part of its license.
func winnowOld(c oldRuns, l []oldRunMatch, o *Obs) ([]oldRunMatch, bool) {
	lost := make([]bool, len(l))
	for i, a := range l {
		k := 0
		for j, b := range l {
			if i == j || a.Lo >= b.Hi || b.Lo >= a.Hi {
				continue
			}
			k++
			o.Label("overlapping matches")
			pa, pb := a.Matched*c.Sizes[b.Lic], b.Matched*c.Sizes[a.Lic]
			switch la, lb := a.Hi-a.Lo, b.Hi-b.Lo; {
			case la > lb && a.Matched > b.Matched && pa >= pb:
			case la < lb && a.Matched < b.Matched && pa <= pb:
				lost[i] = true
			default:
				return nil, false
			}
		}
		if k > 1 {
			return nil, false
		}
	}
	var out []oldRunMatch
	for i, a := range l {
		if !lost[i] {
			out = append(out, a)
		}
	}
	return out, true
}

func checkOldRuns(c oldRuns, o *Obs) error {
	var lics []oldLic
	for i, n := range c.Sizes {
		var w []string
		for j := 0; j < n; j++ {
			w = append(w, c.word(i, j))
		}
		lics = append(lics, oldLic{Name: fmt.Sprint(oldNames[i%3], i), Text: Text(strings.Join(w, " "))})
	}
	var b strings.Builder
	var words []oldWord
	add := func(w string) {
		if b.Len() > 0 {
			b.WriteString(c.Sep)
		}
		words = append(words, oldWord{b.Len(), b.Len() + len(w)})
		b.WriteString(w)
	}
	for _, r := range c.Runs {
		for k := 0; k < r.Foreign; k++ {
			add(fillWord(k % 5))
		}
		for j := r.Lo; j < r.Hi; j++ {
			add(c.word(r.Lic, j))
		}
	}
	b.WriteString(c.Sep)
	all, n := c.model()
	if n != len(words) {
		panic(harnessError{"C30: word count"})
	}
	kept, ok := winnowOld(c, all, o)
	if !ok {
		o.Label("overlaps without a clear winner")
		return nil
	}
	var want old.Coverage
	covered := 0
	for _, m := range kept {
		x := old.Match{Name: lics[m.Lic].Name, Type: oldTypeOf(lics[m.Lic].Name), Start: words[m.Lo].Lo, End: words[m.Hi-1].Hi}
		x.Percent = 100 * float64(m.Matched) / float64(c.Sizes[m.Lic])
		if m.Lo == 0 {
			x.Start = 0
		}
		if m.Hi == n {
			x.End = b.Len()
		}
		covered += m.Hi - m.Lo
		o.LabelIf(m.Matched < m.Hi-m.Lo, "joined over a gap")
		o.LabelIf(m.Matched < c.Sizes[m.Lic], "partial")
		want.Match = append(want.Match, x)
	}
	if n > 0 {
		want.Percent = 100 * float64(covered) / float64(n)
	}
	cov, found := newOld(lics).Cover([]byte(b.String()), c.Opts.opts())
	o.LabelIf(len(kept) == 0, "no match")
	o.LabelIf(len(kept) > 1, "several matches")
	if len(c.Runs) > 1 {
		o.Nontrivial()
	}
	if found != (len(kept) > 0) || !sameOld(cov.Match, want.Match) || !near(cov.Percent, want.Percent) {
		return fmt.Errorf("covering %q (%+v)\nfor %+v\ngot  %+v\nwant %+v", b.String(), c.Opts, lics, cov, want)
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C30",
		Rule: "One to three licenses for package old, each of different words, and texts of runs of their words (continuing, repeating, skipping back or ahead) and of unrelated words, with run lengths and gaps around the limits that random options (also zero and negative) set. " +
			"Oracle: the matches, percentages and extents that the meaning of MinLength, Slop and Threshold gives. Where matches overlap the case is judged only if one of just two is larger in each respect. Non-trivial: there are at least two runs.",
		Subs: []Sub{NewSub("runs", 300000, 3000000, genOldRuns, checkOldRuns)},
	})
}
