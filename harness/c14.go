package main

import (
	"fmt"
	"strings"

	"github.com/google/licensecheck/verifh/ref"
	"pgregory.net/rapid"
)

// A noticeText is a text put together from tokens, with the matches that the
// rules on copyright notices and lines call for.
type noticeText struct {
	Lics []ref.License
	Text Text
	Want []ref.Match
	Near bool // some notice lies about 50 words before a license
}

func genNotice(t *rapid.T) noticeText {
	var c noticeText
	// Two or three licenses; one text may contain copyright words itself.
	n := between(t, 1, 3)
	var lits [][]string
	for i := 0; i < n; i++ {
		var w []string
		for j := between(t, 2, 5); j > 0; j-- {
			w = append(w, codeWord(10*i+j))
		}
		switch intn(t, 5) {
		case 0:
			w = append(w, "copyright", codeWord(10*i+9))
		case 1:
			w = append([]string{"copyright"}, w...)
		case 2:
			w = append(w, "copyright")
		}
		lits = append(lits, w)
		c.Lics = append(c.Lics, ref.License{ID: fmt.Sprint("L", i), Type: uint(1+i) << 1, LRE: strings.Join(w, " ")})
	}
	c.Lics = append(c.Lics, ref.License{ID: "U", Type: 1 << 8, URL: "foo.org/a"})

	var b strings.Builder
	type word struct {
		lo, hi    int
		copyright bool
	}
	var words []word
	type item struct {
		lic, first, last int // word indexes
	}
	var found []item
	type url struct{ first, lo, hi int }
	var urls []url
	lines := intn(t, 4)
	space := func() {
		s := " "
		if lines > 0 && oneIn(t, 4) {
			s = pick(t, []string{"\n", "\n", "\n\n", "\r\n", " \n * ", ".\n", "\n   ", "---\n---", " \n\n // \n", "<br>\n", "\n<p class=\"a\nb\">\n", "\n\f", "*/\n\n/*"})
		} else if oneIn(t, 6) {
			s = pick(t, []string{", ", ". ", " - ", "  ", "\t", " * ", "\r", "<b> ", "&nbsp;", "\v"})
		}
		b.WriteString(s)
	}
	put := func(s string, copyright bool) {
		words = append(words, word{b.Len(), b.Len() + len(s), copyright})
		b.WriteString(s)
		space()
	}
	after := false // last word is a copyright word
	notice := func() {
		if after {
			put(fillWord(3), false)
		}
		put(pick(t, []string{"(c)", "(C)", "©", "&copy;", "Copyright", "copyright", "COPYRIGHT"}), true)
		if oneIn(t, 3) {
			// A second one right after is part of the first.
			b.WriteString(pick(t, []string{"(c)", "©", "&copy;", "Copyright"}))
			space()
		}
		after = true
	}
	if oneIn(t, 3) {
		space()
	}
	segs := between(t, 1, 8)
	for i := 0; i < segs; i++ {
		switch intn(t, 8) {
		case 0, 1:
			for k := between(t, 1, 6); k > 0; k-- {
				put(fillWord(k), false)
			}
			after = false
		case 2:
			c.Near = true
			for k := between(t, 45, 52); k > 0; k-- {
				put(fillWord(k%7), false)
			}
			after = false
		case 3, 4:
			notice()
		case 5:
			u := pick(t, []string{"http://foo.org/a", "https://foo.org/a/"})
			lo := b.Len()
			urls = append(urls, url{len(words), lo, lo + len(u)})
			for _, w := range []string{u[:strings.IndexByte(u, ':')], "foo", "org", "a"} {
				k := lo + strings.Index(u, w)
				if w == "a" {
					k = lo + strings.Index(u, "/a") + 1
				}
				words = append(words, word{k, k + len(w), false})
			}
			b.WriteString(u)
			if s := b.Len(); s > 0 {
				b.WriteString(" ")
			}
			if oneIn(t, 2) {
				b.WriteString("\n")
			}
			after = false
		default:
			l := intn(t, n)
			if lits[l][0] == "copyright" && after {
				put(fillWord(2), false)
			}
			it := item{lic: l, first: len(words)}
			for _, w := range lits[l] {
				s := w
				if w == "copyright" {
					s = pick(t, []string{"(c)", "©", "copyright", "&copy;"})
				}
				put(s, w == "copyright")
			}
			it.last = len(words) - 1
			found = append(found, it)
			after = lits[l][len(lits[l])-1] == "copyright"
		}
	}
	text := b.String()
	if oneIn(t, 3) {
		text = strings.TrimRight(text, " \n\t\r\v\f")
	}
	c.Text = Text(text)

	// Notices, then URLs outside of license matches, then lines.
	prev := 0
	type match struct {
		m     ref.Match
		first int
	}
	var ms []match
	covered := make([]bool, len(words))
	for _, f := range found {
		first := f.first
		for i := f.first - 1; i >= prev && i >= f.first-50; i-- {
			if words[i].copyright {
				first = i
			}
		}
		for i := first; i <= f.last; i++ {
			covered[i] = true
		}
		start := 0
		if first > 0 {
			gap := text[words[first-1].hi:words[first].lo]
			start = words[first].lo
			if i := strings.LastIndex(gap, "\n"); i >= 0 {
				start = words[first-1].hi + i + 1
			}
		}
		end := len(text)
		if f.last < len(words)-1 {
			gap := text[words[f.last].hi:words[f.last+1].lo]
			end = words[f.last].hi
			if i := strings.Index(gap, "\n"); i >= 0 {
				end += i + 1
			}
		}
		ms = append(ms, match{ref.Match{ID: fmt.Sprint("L", f.lic), Type: uint(1+f.lic) << 1, Start: start, End: end}, first})
		prev = f.last + 1
	}
	for _, u := range urls {
		if !covered[u.first] {
			m := match{ref.Match{ID: "U", Type: 1 << 8, Start: u.lo, End: u.hi, IsURL: true}, u.first}
			k := 0
			for k < len(ms) && ms[k].first < u.first {
				k++
			}
			ms = append(ms[:k], append([]match{m}, ms[k:]...)...)
		}
	}
	for _, m := range ms {
		c.Want = append(c.Want, m.m)
	}
	return c
}

func checkNotice(c noticeText, o *Obs) error {
	s, err := newScanner(c.Lics)
	if err != nil {
		return err
	}
	got := refMatches(s.Scan([]byte(c.Text)))
	lic := 0
	for _, m := range c.Want {
		if !m.IsURL {
			lic++
		}
	}
	o.LabelIf(c.Near && lic > 0, "distance near 50 words")
	o.LabelIf(lic > 1, "several licenses")
	o.LabelIf(lic < len(c.Want) && lic > 0, "with reported URL")
	if lic > 0 {
		o.Nontrivial()
	}
	if !sameMatches(got, c.Want) {
		return fmt.Errorf("scanning %q for %+v\ngot  %+v\nwant %+v", c.Text, c.Lics, got, c.Want)
	}
	return nil
}

// checkBounds compares the extents of matches with those of the model.
func checkBounds(c Scan, o *Obs) error {
	return checkModel(c, o)
}

// noticeModel makes scans rich in notices and lines for any license set.
func genNoticeModel(t *rapid.T) Scan {
	s := genLics(t, scanCfg{maxLics: 3, wild: 5, depth: 3, fancy: true, urls: true})
	var b strings.Builder
	for i := between(t, 1, 7); i > 0; i-- {
		switch intn(t, 5) {
		case 0:
			b.WriteString(pick(t, []string{"Copyright", "(c)", "©", "copyright (c)", "Copyright © 2020", "&copy;", "c", "(C)(c)", "COPYRIGHT\n(c)"}))
		case 1:
			for j := between(t, 0, 4); j > 0; j-- {
				b.WriteString(pick(t, s.v.Fill) + sep(t, true))
			}
		case 2:
			for j := between(t, 44, 52); j > 0; j-- {
				b.WriteString(s.v.Fill[j%5] + " ")
			}
		default:
			if len(s.trees) > 0 {
				b.WriteString(render(t, derive(t, pick(t, s.trees), s.filler(t)), oneIn(t, 2)))
			}
		}
		b.WriteString(pick(t, []string{" ", "\n", "\n\n", "\r\n", " \n \n ", ", ", "\t\n*", "<p>\n"}))
	}
	return Scan{s.lics, Text(b.String())}
}

// A farLine is a license text with other words before and after it, far from
// them: Pad bytes that are no words, then line ends, then Pad bytes.
type farLine struct {
	Before, After [2]int // bytes before and after the line end
	Lines         [2]int // line ends, one byte apart
	Pad           string
	Notice        int // words of a copyright notice, 0 for none
}

func genFarLine(t *rapid.T) farLine {
	n := func() int { return between(t, 0, pick(t, []int{10, 1000, 10000, 100000})) }
	return farLine{[2]int{n(), n()}, [2]int{n(), n()}, [2]int{intn(t, 4), intn(t, 4)}, pick(t, []string{" ", "*", "-", "!", "\t", "/"}), intn(t, 3) * between(t, 1, 20)}
}

func checkFarLine(c farLine, o *Obs) error {
	var b strings.Builder
	b.WriteString("other words stand here")
	from := b.Len()
	b.WriteString(strings.Repeat(c.Pad, c.Before[0]))
	for i := 0; i < c.Lines[0]; i++ {
		b.WriteString(c.Pad + "\n")
		from = b.Len()
	}
	b.WriteString(" " + strings.Repeat(c.Pad, c.Before[1]))
	start := b.Len()
	if c.Lines[0] > 0 {
		start = from
	}
	if c.Notice > 0 {
		b.WriteString("Copyright " + strings.Repeat("somebody ", c.Notice))
	}
	b.WriteString("alpha beta gamma delta")
	end := b.Len()
	b.WriteString(strings.Repeat(c.Pad, c.After[0]) + " ")
	for i := 0; i < c.Lines[1]; i++ {
		b.WriteString(c.Pad + "\n")
		if i == 0 {
			end = b.Len()
		}
	}
	b.WriteString(strings.Repeat(c.Pad, c.After[1]) + " and more words\n")
	lics := []ref.License{{ID: "L", Type: 1, LRE: "alpha beta gamma delta"}}
	s, err := newScanner(lics)
	if err != nil {
		return err
	}
	o.LabelIf(c.Notice > 0, "notice")
	o.LabelIf(max(c.Before[1], c.After[0]) > 65536, "over 65536 bytes")
	o.Nontrivial()
	want := []ref.Match{{ID: "L", Type: 1, Start: start, End: end}}
	if got := refMatches(s.Scan([]byte(b.String()))); !sameMatches(got, want) {
		return fmt.Errorf("%+v: got %+v, want %+v", c, got, want)
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C14",
		Rule: "Texts put together from tokens at known offsets - license texts (some with copyright words of their own), copyright words in all spellings, runs of 0 to 52 other words, known URLs - and separators " +
			"with and without line ends. Oracle: the extents that the notice and line rules give for these tokens; for arbitrary license sets with notices, the reference model; texts up to 200000 bytes of punctuation away from the line's ends. Non-trivial: a license match.",
		Subs: []Sub{
			NewSub("constructed", 60000, 1500000, genNotice, checkNotice),
			NewSub("model", 30000, 700000, genNoticeModel, checkBounds),
			NewSub("far", 3000, 60000, genFarLine, checkFarLine),
		},
	})
}
