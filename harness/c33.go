package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/google/licensecheck/old"
	"pgregory.net/rapid"
)

// C33: package old against a model of its documented procedure, which looks
// at each license by itself, without dictionary or index.

// An oldTok is a word in lower case, or a blank (W is "___").
type oldTok struct {
	W      string
	Lo, Hi int
}

var oldMarkerSet = func() map[string]bool {
	m := map[string]bool{}
	for c := 'a'; c <= 'r'; c++ {
		m[string(c)] = true
	}
	for _, s := range []string{"ii", "iii", "iv", "vi", "vii", "viii", "ix", "xi", "xii", "xiii", "xiv", "xv"} {
		m[s] = true
	}
	return m
}()

func oldTokens(s string) []oldTok {
	var out []oldTok
	for _, w := range oldWords(s) {
		low := strings.Map(func(r rune) rune {
			if l := unicode.ToLower(r); utf8.RuneLen(l) == utf8.RuneLen(r) {
				return l
			}
			return r
		}, s[w.Lo:w.Hi])
		if w.Hi < len(s) && strings.IndexByte(".:)", s[w.Hi]) >= 0 && oldMarkerSet[low] {
			continue
		}
		out = append(out, oldTok{low, w.Lo, w.Hi})
	}
	for i := strings.Index(s, "___"); i >= 0; {
		out = append(out, oldTok{"___", i, i + 3})
		j := strings.Index(s[i+3:], "___")
		if j < 0 {
			break
		}
		i += 3 + j
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Lo < out[j].Lo })
	return out
}

// An oldCand is a possible match of a license with words Lo to Hi-1.
type oldCand struct {
	Lic, Lo, Hi int
	LicEnd      int // how far the license was matched
	Matched     int // words of the license that were matched
	Percent     float64
}

// modelOldLicense lists the matches of the license lw with text.
func modelOldLicense(lic int, lw, text []oldTok, minLen, slop int) []oldCand {
	const blankMax = 70
	var out []oldCand
	blank := func(i int) bool { return i < len(lw) && lw[i].W == "___" }
	for k := 0; k < len(text); k++ {
		if n := len(out); n > 0 && k < out[n-1].Hi {
			continue
		}
		// The longest run from here; of the license's first place for it.
		best, at := 0, 0
		for i := range lw {
			n := 0
			for i+n < len(lw) && k+n < len(text) && lw[i+n].W == text[k+n].W {
				n++
			}
			if n > best {
				best, at = n, i
			}
		}
		if best < max(2, minLen) {
			continue
		}
		m := oldCand{Lic: lic, Lo: k, Hi: k + best, LicEnd: at + best, Matched: best}
		floor := 0
		if n := len(out); n > 0 {
			// Continue the last match over a small gap or a filled blank.
			p := &out[n-1]
			gap := slop
			if blank(p.LicEnd) {
				gap = blankMax
			}
			if k-p.Hi <= gap && at >= p.LicEnd {
				if blank(p.LicEnd) && at > p.LicEnd {
					p.Matched++
				}
				p.Hi, p.LicEnd = m.Hi, m.LicEnd
				p.Matched += best
				continue
			}
			floor = p.Hi
		}
		// Go back over filled blanks to words before that are too few by themselves.
		for at >= 2 && blank(at-1) && !blank(at-2) {
			i := m.Lo - 1
			for i >= max(floor, m.Lo-blankMax) && (i < 0 || text[i].W != lw[at-2].W) {
				i--
			}
			if i < max(floor, m.Lo-blankMax) || i < 0 {
				break
			}
			m.Lo, at = i, at-2
			m.Matched += 2
			for m.Lo > 0 && at > 0 && text[m.Lo-1].W == lw[at-1].W {
				m.Lo, at = m.Lo-1, at-1
				m.Matched++
			}
		}
		out = append(out, m)
	}
	for i := range out {
		out[i].Percent = 100 * float64(out[i].Matched) / float64(len(lw))
	}
	return out
}

var oldModelURL = regexp.MustCompile(`(?i)https?://(?:[-a-z0-9_.]+)+(?:\.org|com)(?:/[-a-z0-9_.#?=]+)+/?`)

func checkOldModel(c oldCase, o *Obs) error {
	minLen, slop, threshold := c.Opts.Min, c.Opts.Slop, c.Opts.Threshold
	if minLen <= 0 {
		minLen = 10
	}
	if slop <= 0 {
		slop = 8
	}
	if threshold <= 0 {
		threshold = 40
	}
	text := string(c.Text)
	toks := oldTokens(text)
	var cands []oldCand
	for i, l := range c.Lics {
		if l.Text == "" {
			continue
		}
		for _, m := range modelOldLicense(i, oldTokens(string(l.Text)), toks, minLen, slop) {
			if m.Percent >= float64(threshold) {
				cands = append(cands, m)
			}
		}
	}
	start := func(w int) int {
		if w == 0 {
			return 0
		}
		return toks[w].Lo
	}
	end := func(w int) int {
		if w == len(toks) {
			return len(text)
		}
		if toks[w-1].W == "___" {
			return toks[w-1].Lo
		}
		return toks[w-1].Hi
	}
	cov, found := newOld(c.Lics).Cover([]byte(text), c.Opts.opts())
	bad := func(f string, a ...any) error {
		return fmt.Errorf("%s\ncovering %q (%+v)\nfor %+v\ngot %+v\ncandidates %+v", fmt.Sprintf(f, a...), text, c.Opts, c.Lics, cov, cands)
	}
	if found != (len(cov.Match) > 0) {
		return bad("returned %v", found)
	}

	// Each license match is a candidate. (Candidates of licenses with the
	// same name and extent are interchangeable.)
	reported := make([]bool, len(cands))
	gap := 0 // first word after the last license match
	var kept []oldCand
	for i, m := range cov.Match {
		if m.IsURL {
			continue
		}
		k := -1
		for j, x := range cands {
			if !reported[j] && c.Lics[x.Lic].Name == m.Name && start(x.Lo) == m.Start && (end(x.Hi) == m.End || toks[x.Hi-1].W == "___" && toks[x.Hi-1].Hi == m.End) && near(x.Percent, m.Percent) {
				k = j
				break
			}
		}
		if k < 0 {
			return bad("match %d is none of the candidates", i)
		}
		reported[k] = true
		kept = append(kept, cands[k])
	}
	for i := 1; i < len(kept); i++ {
		if kept[i].Lo < kept[i-1].Hi {
			return bad("matches overlap")
		}
	}
	// Each candidate is reported, unless one it overlaps has as many words
	// and if there is no such, the others it overlaps are not.
	size := func(x oldCand) float64 { return x.Percent * float64(x.Hi-x.Lo) }
	for i, x := range cands {
		best, others := true, false
		for j, y := range cands {
			if i != j && x.Lo < y.Hi && y.Lo < x.Hi {
				others = true
				if size(y) >= size(x)*(1-1e-9) {
					best = false
				}
			}
		}
		o.LabelIf(others, "overlapping candidates")
		if best && !reported[i] {
			return bad("candidate %d is not reported", i)
		}
	}
	// The URLs between.
	var want []old.Match
	covered := 0
	for i := 0; i <= len(kept); i++ {
		lo, hi := gap, len(toks)
		if i < len(kept) {
			hi, gap = kept[i].Lo, kept[i].Hi
			covered += kept[i].Hi - kept[i].Lo
		}
		if lo >= hi {
			continue
		}
		from, to := toks[lo].Lo, len(text)
		if hi < len(toks) {
			to = toks[hi].Lo
		}
		any := false
		for _, u := range oldModelURL.FindAllStringIndex(text[from:to], -1) {
			name, ok := oldURLName(c.Lics, text[from+u[0]:from+u[1]])
			if !ok {
				continue
			}
			any = true
			a := sort.Search(len(toks), func(j int) bool { return toks[j].Lo >= from+u[0] })
			b := sort.Search(len(toks), func(j int) bool { return toks[j].Lo >= from+u[1] })
			want = append(want, old.Match{Name: name, Type: oldTypeOf(name), Percent: 100, Start: start(a), End: end(b), IsURL: true})
		}
		if any {
			covered += hi - lo
		}
	}
	o.LabelIf(len(want) > 0, "URL match")
	for _, m := range cov.Match {
		if !m.IsURL {
			if m.Type != oldTypeOf(m.Name) {
				return bad("type of %s is %v", m.Name, m.Type)
			}
			continue
		}
		if len(want) == 0 || m.Start != want[0].Start || m.End != want[0].End || m.Percent != 100 || m.Type != oldTypeOf(m.Name) {
			return bad("URLs: want %+v", want)
		}
		if m.Name != want[0].Name {
			// Two licenses may have the same URL.
			same := false
			u1, u2 := map[string]bool{}, map[string]bool{}
			for _, l := range c.Lics {
				if l.Name == m.Name {
					u1[l.URL] = true
				}
				if l.Name == want[0].Name {
					u2[l.URL] = true
				}
			}
			for u := range u1 {
				same = same || u2[u] && u != ""
			}
			if !same {
				return bad("URLs: want %+v", want)
			}
		}
		want = want[1:]
	}
	if len(want) > 0 {
		return bad("URLs: want also %+v", want)
	}
	p := 0.0
	if len(toks) > 0 {
		p = 100 * float64(covered) / float64(len(toks))
	}
	if !near(cov.Percent, p) {
		return bad("covered are %d of %d words", covered, len(toks))
	}
	if len(cands) > 0 {
		o.Nontrivial()
	}
	o.LabelIf(len(cands) == 0, "no license match")
	o.LabelIf(len(kept) > 1, "several license matches")
	for _, x := range kept {
		o.LabelIf(x.Matched != x.Hi-x.Lo, "over a gap or blank")
	}
	return nil
}

// genOldDense makes licenses with many blanks and repeated runs over few
// words, and texts that nearly follow them.
func genOldDense(t *rapid.T) oldCase {
	c := oldCase{Opts: oldOpts{Min: between(t, 1, 5), Slop: between(t, 0, 12), Threshold: pick(t, []int{1, 1, 20, 0, 60, 90})}}
	n := between(t, 2, 9)
	word := func() string { return codeWord(intn(t, n)) }
	var texts [][]string
	for k := between(t, 1, 3); k > 0; k-- {
		var w []string
		if len(texts) > 0 && oneIn(t, 2) {
			src := pick(t, texts)
			i := intn(t, len(src))
			w = append(w, src[i:between(t, i, len(src))]...)
		}
		for j := between(t, 2, 5); j > 0; j-- {
			for i := between(t, 1, 6); i > 0; i-- {
				w = append(w, word())
			}
			if oneIn(t, 2) {
				w = append(w, "___")
			}
			if oneIn(t, 12) {
				w = append(w, "___")
			}
		}
		texts = append(texts, w)
		c.Lics = append(c.Lics, oldLic{Name: fmt.Sprint(pick(t, oldNames), k), Text: Text(strings.Join(w, " "))})
	}
	var out []string
	foreign := func(n int) {
		for ; n > 0; n-- {
			out = append(out, fillWord(intn(t, 5)))
		}
	}
	for k := between(t, 1, 4); k > 0; k-- {
		src := pick(t, texts)
		lo, hi := 0, len(src)
		if oneIn(t, 3) {
			lo = intn(t, len(src))
			hi = between(t, lo, len(src))
		}
		for _, w := range src[lo:hi] {
			switch {
			case w == "___" && !oneIn(t, 5):
				foreign(pick(t, []int{0, 1, 2, 3, 5, 8, 9, 13, 69, 70, 71}))
				if oneIn(t, 8) {
					out = append(out, word())
				}
			case oneIn(t, 25):
			case oneIn(t, 25):
				foreign(c.Opts.Slop + between(t, -1, 1))
				out = append(out, w)
			default:
				out = append(out, w)
			}
		}
		foreign(pick(t, []int{0, 0, 1, 4, 8, 12, 70, 75}))
		for i := pick(t, []int{0, 0, 0, 1, 2, 3}); i > 0; i-- {
			out = append(out, word())
		}
	}
	c.Text = Text(strings.Join(out, pick(t, []string{" ", "\n", ", ", " 1. "})))
	return c
}

// genOldMany makes licenses that overlap one another in parts.
func genOldMany(t *rapid.T) oldCase {
	c := oldCase{Opts: oldOpts{Min: between(t, 1, 6), Slop: between(t, 1, 9), Threshold: pick(t, []int{1, 30, 50, 80})}}
	total := between(t, 20, 60)
	var all []string
	for i := 0; i < total; i++ {
		all = append(all, codeWord(i))
	}
	for k := between(t, 2, 7); k > 0; k-- {
		lo := intn(t, total-6)
		hi := min(total, lo+between(t, 6, 25))
		c.Lics = append(c.Lics, oldLic{Name: fmt.Sprint(pick(t, oldNames), k), Text: Text(strings.Join(all[lo:hi], " "))})
	}
	if oneIn(t, 2) {
		c.Lics = append(c.Lics, oldLic{Name: "CC-BY-3.0", URL: "creativecommons.org/licenses/by/3.0"})
	}
	var out []string
	for k := between(t, 1, 3); k > 0; k-- {
		lo := intn(t, total-5)
		hi := between(t, lo+5, total)
		for _, w := range all[lo:hi] {
			switch {
			case oneIn(t, 40):
				out = append(out, "http://creativecommons.org/licenses/by/3.0/")
			case oneIn(t, 20):
				for j := between(t, 1, 10); j > 0; j-- {
					out = append(out, fillWord(j%5))
				}
			}
			if !oneIn(t, 30) {
				out = append(out, w)
			}
		}
	}
	c.Text = Text(strings.Join(out, " "))
	return c
}

func init() {
	register(&Prop{
		ID: "C33",
		Rule: "License lists for package old of every kind as in C21, lists with many blanks and repeated runs over few words, licenses in which one phrase occurs thousands of times, and lists of overlapping excerpts; licenses of up to 140000 words, and up to 66000 licenses, whose texts are interrupted; texts that follow them with blanks filled around the limit, gaps around Slop, words dropped and inserted, and URLs; all options. " +
			"Oracle: a model that looks at each license by itself: its candidate matches with extents and percentages; of overlapping ones the largest is reported (ties and chains are judged only so far); URLs and covered words between them. Non-trivial: there is a candidate match.",
		Subs: []Sub{
			NewSub("mixed", 80000, 2000000, genOld, checkOldModel),
			NewSub("dense", 80000, 2000000, genOldDense, checkOldModel),
			NewSub("overlapping", 60000, 1500000, genOldMany, checkOldModel),
			NewSub("layouts", 30000, 800000, func(t *rapid.T) oldCase {
				l := genOldLayouts(t)
				return oldCase{Lics: l.Lics, Text: l.A, Opts: l.Opts}
			}, checkOldModel),
			NewSub("large", 120, 1500, genOldLarge, checkOldLarge),
			NewSub("repeats", 2000, 20000, genOldRepeat, checkOldRepeat),
			NewSub("filled", 20000, 500000, func(t *rapid.T) oldCase {
				b := genOldBlanks(t)
				return oldCase{Lics: b.Lics, Text: Text(b.Text), Opts: b.Opts}
			}, checkOldModel),
		},
	})
}
