package main

import (
	"fmt"
	"math"
	"regexp"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/google/licensecheck/old"
	"pgregory.net/rapid"
)

// C21-C23 are about package old, an older checker with another algorithm.

type oldLic struct {
	Name string
	Text Text
	URL  string
}

type oldOpts struct{ Min, Threshold, Slop int }

type oldCase struct {
	Lics []oldLic
	Text Text
	Opts oldOpts
}

func (c oldOpts) opts() old.Options {
	return old.Options{MinLength: c.Min, Threshold: c.Threshold, Slop: c.Slop}
}

func newOld(l []oldLic) *old.Checker {
	var list []old.License
	for _, x := range l {
		list = append(list, old.License{Name: x.Name, Text: string(x.Text), URL: x.URL})
	}
	return old.New(list)
}

var oldTypes = []struct {
	prefix string
	t      old.Type
}{
	{"AGPL", old.AGPL}, {"Apache", old.Apache}, {"BSD", old.BSD}, {"CC", old.CC}, {"GPL", old.GPL},
	{"JSON", old.JSON}, {"MIT", old.MIT}, {"Unlicense", old.Unlicense}, {"Zlib", old.Zlib},
}

func oldTypeOf(name string) old.Type {
	for _, x := range oldTypes {
		if strings.HasPrefix(name, x.prefix) {
			return x.t
		}
	}
	return old.Other
}

func checkOldForm(c oldCase, o *Obs) error {
	ch := newOld(c.Lics)
	text := string(c.Text)
	in := []byte(text)
	cov, ok := ch.Cover(in, c.Opts.opts())
	if string(in) != text {
		return fmt.Errorf("Cover changed its input %q to %q", text, in)
	}
	bad := func(f string, a ...any) error {
		return fmt.Errorf("%s\ncovering %q (%+v)\nfor %+v\ngot %+v", fmt.Sprintf(f, a...), text, c.Opts, c.Lics, cov)
	}
	if ok != (len(cov.Match) > 0) {
		return bad("result is %v with %d matches", ok, len(cov.Match))
	}
	if !(cov.Percent >= 0 && cov.Percent <= 100+1e-9) {
		return bad("overall percentage %v", cov.Percent)
	}
	if len(cov.Match) == 0 && cov.Percent != 0 {
		return bad("overall percentage %v without matches", cov.Percent)
	}
	threshold := c.Opts.Threshold
	if threshold <= 0 {
		threshold = 40
	}
	end := 0
	urls := 0
	for i, m := range cov.Match {
		if m.Start < end || m.End > len(text) || m.Start > m.End {
			return bad("match %d has span %d-%d after %d", i, m.Start, m.End, end)
		}
		if m.Start == m.End {
			return bad("match %d is empty", i)
		}
		end = m.End
		has := false
		for _, l := range c.Lics {
			has = has || l.Name == m.Name && (m.IsURL && l.URL != "" || !m.IsURL && l.Text != "")
		}
		if !has {
			return bad("match %d names no such license", i)
		}
		if m.Type != oldTypeOf(m.Name) {
			return bad("match %d has type %v", i, m.Type)
		}
		if m.IsURL {
			urls++
			if m.Percent != 100 {
				return bad("URL match %d has percentage %v", i, m.Percent)
			}
		} else if !(m.Percent >= float64(threshold) && m.Percent <= 100+1e-9) {
			return bad("match %d has percentage %v", i, m.Percent)
		}
	}
	again, _ := ch.Cover([]byte(text), c.Opts.opts())
	if err := diff(cov, again); err != nil {
		return bad("a second call returns %+v", again)
	}
	o.LabelIf(len(cov.Match) == 0, "no match")
	o.LabelIf(len(cov.Match) > 1, "several matches")
	o.LabelIf(urls > 0, "URL match")
	if len(cov.Match) > 0 {
		o.Nontrivial()
	}
	return nil
}

func genOldOpts(t *rapid.T) oldOpts {
	o := oldOpts{}
	if oneIn(t, 2) {
		o.Min = between(t, 0, 6)
	}
	if oneIn(t, 2) {
		o.Threshold = between(t, 0, 100)
	}
	if oneIn(t, 3) {
		o.Slop = between(t, 0, 20)
	}
	if oneIn(t, 20) {
		o.Min, o.Slop, o.Threshold = -between(t, 0, 3), -between(t, 0, 3), -between(t, 0, 200)
	}
	if oneIn(t, 20) {
		o.Min = between(t, 10, 200)
	}
	return o
}

var oldNames = []string{"MIT", "MIT-2", "BSD-3", "GPL", "AGPL-1", "Apache-2", "CC-BY", "JSON", "Unlicense", "Zlib", "X", "Other", "", "mit"}

// genOldWords draws words with runs repeated and blanks.
func genOldText(t *rapid.T, v *Vocab, blanks bool) string {
	var b strings.Builder
	var recent []string
	for k := between(t, 1, 5); k > 0; k-- {
		if b.Len() > 0 {
			b.WriteString(sep(t, oneIn(t, 2)))
		}
		switch intn(t, 8) {
		case 0:
			if blanks {
				b.WriteString(pick(t, []string{"___", "______", "____", "__", "<___>", "x___y", "___\n___"}))
			} else {
				b.WriteString(pick(t, []string{"i.", "a)", "ii:", "xv.", "xiv)", "b.", "s."}))
			}
		case 1:
			b.WriteString(pick(t, []string{"&ldquo;", "&rdquo;", "&amp;", "&LDQUO;", "2020", "1.0"}))
		case 2:
			if len(recent) > 0 {
				b.WriteString(render(t, recent, false))
				break
			}
			fallthrough
		default:
			recent = v.list(t, 1, 14)
			b.WriteString(render(t, recent, oneIn(t, 4)))
		}
	}
	return b.String()
}

func genOld(t *rapid.T) oldCase {
	v := genVocab(t)
	c := oldCase{Opts: genOldOpts(t), Lics: []oldLic{}}
	var known []string
	for k := between(t, 0, 4); k > 0; k-- {
		l := oldLic{Name: pick(t, oldNames)}
		if !oneIn(t, 4) {
			l.Text = Text(genOldText(t, v, true))
		}
		if oneIn(t, 4) {
			l.Text = Text(string(l.Text) + " " + rawBytes(t, 5))
		}
		if oneIn(t, 4) || l.Text == "" {
			l.URL = pick(t, urlPool)
			known = append(known, l.URL)
		}
		c.Lics = append(c.Lics, l)
	}
	var b strings.Builder
	for k := between(t, 0, 7); k > 0; k-- {
		if b.Len() > 0 {
			b.WriteString(sep(t, oneIn(t, 2)))
		}
		switch intn(t, 8) {
		case 0, 1, 2, 3: // a piece of a license, with blanks as they are or filled
			if len(c.Lics) == 0 {
				continue
			}
			f := strings.Fields(string(pick(t, c.Lics).Text))
			if len(f) == 0 {
				continue
			}
			lo, hi := 0, len(f)
			if oneIn(t, 3) {
				lo = intn(t, len(f))
				hi = between(t, lo, len(f))
			}
			for i := lo; i < hi; i++ {
				w := f[i]
				if strings.Contains(w, "___") && !oneIn(t, 3) {
					w = ""
					for j := between(t, 0, 3); j > 0; j-- {
						w += pick(t, v.Fill) + " "
					}
				}
				if oneIn(t, 12) {
					w = pick(t, []string{"", w + " " + w, v.word(t), pick(t, v.Fill), "___ " + w, w + "\n" + pick(t, v.Fill)})
				}
				b.WriteString(w)
				b.WriteString(" ")
			}
		case 4:
			b.WriteString(genOldText(t, v, true))
		case 5:
			for j := between(t, 1, 9); j > 0; j-- {
				b.WriteString(pick(t, v.Fill) + " ")
			}
			if oneIn(t, 10) {
				b.WriteString(strings.Repeat(v.Fill[0]+" ", between(t, 60, 75)))
			}
		case 6:
			b.WriteString(genURL(t, known))
		case 7:
			b.WriteString(rawBytes(t, 6))
		}
	}
	c.Text = Text(b.String())
	return c
}

// C22

type oldVerbatim struct {
	Lics   []oldLic
	Copies []int  // indexes in Lics
	Gaps   []Text // foreign words before, between and after the copies
	Opts   oldOpts
}

func oldLicText(t *rapid.T, words []string, junk bool) string {
	var b strings.Builder
	for i, w := range words {
		if i > 0 {
			if junk && oneIn(t, 4) {
				b.WriteString(" " + rawBytes(t, 3) + " ")
			} else {
				b.WriteString(pick(t, oldSeps))
			}
		}
		b.WriteString(caseOnly(t, w))
	}
	return b.String()
}

// caseOnly changes letter case, to forms package old folds.
func caseOnly(t *rapid.T, w string) string {
	switch intn(t, 6) {
	case 0:
		return strings.ToUpper(w)
	case 1:
		r, n := utf8.DecodeRuneInString(w)
		return string(unicode.ToUpper(r)) + w[n:]
	}
	return w
}

func genOldVerbatim(t *rapid.T) oldVerbatim {
	c := oldVerbatim{Opts: genOldOpts(t)}
	if c.Opts.Min > 10 {
		c.Opts.Min = 10
	}
	minLen := c.Opts.Min
	if minLen <= 0 {
		minLen = 10
	}
	// Each license has its own words, possibly repeated.
	next := 0
	n := between(t, 1, 4)
	which := intn(t, n)
	for i := 0; i < n; i++ {
		var own []string
		for j := between(t, 1, 12); j > 0; j-- {
			own = append(own, codeWord(next))
			next++
		}
		var words []string
		for j := between(t, max(2, minLen), minLen+20); j > 0; j-- {
			words = append(words, pick(t, own))
		}
		l := oldLic{Name: pick(t, oldNames) + fmt.Sprint(i), Text: Text(oldLicText(t, words, oneIn(t, 4) && i == which))}
		c.Lics = append(c.Lics, l)
	}
	c.Copies = append(c.Copies, which)
	for oneIn(t, 3) {
		c.Copies = append(c.Copies, intn(t, n))
	}
	if oneIn(t, 2) { // entries with a URL only, before, between, after
		for k := between(t, 1, 3); k > 0; k-- {
			i := intn(t, len(c.Lics)+1)
			for j := range c.Copies {
				if i <= c.Copies[j] {
					c.Copies[j]++
				}
			}
			u := oldLic{Name: "URL", URL: pick(t, urlPool)}
			c.Lics = append(c.Lics[:i], append([]oldLic{u}, c.Lics[i:]...)...)
		}
	}
	for range len(c.Copies) + 1 {
		var w []string
		for k := between(t, 0, 12); k > 0; k-- {
			w = append(w, fillWord(intn(t, 5)))
		}
		c.Gaps = append(c.Gaps, Text(strings.Join(w, pick(t, oldSeps))))
	}
	return c
}

// oldWord is a word as package old sees it.
type oldWord struct{ Lo, Hi int }

var oldEntity = regexp.MustCompile(`(?i)&ldquo;|&rdquo;|&amp;`)

// oldWords lists the maximal runs of letters that are not part of an HTML
// entity package old knows.
func oldWords(s string) []oldWord {
	s = oldEntity.ReplaceAllStringFunc(s, func(e string) string { return strings.Repeat(" ", len(e)) })
	var out []oldWord
	start := -1
	for i := 0; i <= len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		if i < len(s) && unicode.IsLetter(r) {
			if start < 0 {
				start = i
			}
		} else if start >= 0 {
			out = append(out, oldWord{start, i})
			start = -1
		}
		if n == 0 {
			break
		}
		i += n
	}
	return out
}

func checkOldVerbatim(c oldVerbatim, o *Obs) error {
	var text strings.Builder
	var want []old.Match
	for i, g := range c.Gaps {
		text.WriteString(string(g))
		if i == len(c.Copies) {
			break
		}
		lic := c.Lics[c.Copies[i]]
		if strings.Contains(string(lic.Text), "___") {
			o.Label("blank by chance")
			return nil
		}
		text.WriteString(" \n")
		w := oldWords(string(lic.Text))
		m := old.Match{Name: lic.Name, Type: oldTypeOf(lic.Name), Percent: 100, Start: text.Len() + w[0].Lo, End: text.Len() + w[len(w)-1].Hi}
		if i == 0 && len(oldWords(string(g))) == 0 {
			m.Start = 0
		}
		want = append(want, m)
		text.WriteString(string(lic.Text))
		text.WriteString("\n ")
	}
	last := &want[len(want)-1]
	if len(oldWords(string(c.Gaps[len(c.Copies)]))) == 0 {
		last.End = text.Len()
	}
	cov, _ := newOld(c.Lics).Cover([]byte(text.String()), c.Opts.opts())
	o.LabelIf(len(c.Lics) > 1, "several licenses")
	o.LabelIf(len(c.Copies) > 1, "several copies")
	o.LabelIf(want[0].Start > 0 && last.End < text.Len(), "foreign words on both sides")
	o.Nontrivial()
	if !sameOld(cov.Match, want) {
		return fmt.Errorf("covering %q (%+v)\nfor %+v\ngot  %+v\nwant %+v", text.String(), c.Opts, c.Lics, cov.Match, want)
	}
	return nil
}

// sameOld compares matches, with percentages up to rounding.
func sameOld(a, b []old.Match) bool {
	if len(a) != len(b) {
		return false
	}
	for i, x := range a {
		y := b[i]
		if !near(x.Percent, y.Percent) {
			return false
		}
		x.Percent = y.Percent
		if x != y {
			return false
		}
	}
	return true
}

// genOldShared makes licenses that share text, each with a word of its own,
// and a copy of one.
func genOldShared(t *rapid.T) oldVerbatim {
	c := oldVerbatim{Opts: genOldOpts(t)}
	if c.Opts.Min > 10 {
		c.Opts.Min = 10
	}
	minLen := c.Opts.Min
	if minLen <= 0 {
		minLen = 10
	}
	next := 0
	word := func() string { next++; return codeWord(next - 1) }
	var lists [][]string
	for i := between(t, 2, 5); i > 0; i-- {
		var words []string
		if len(lists) > 0 {
			words = append(words, pick(t, lists)...)
		}
		for k := between(t, 1, 3); k > 0 || len(words) < max(minLen, 2); k-- {
			lo := intn(t, len(words)+1)
			hi := between(t, lo, min(len(words), lo+8))
			var x []string
			switch intn(t, 4) {
			case 0, 1:
				for j := between(t, 1, 8); j > 0; j-- {
					x = append(x, word())
				}
			case 2: // moved or doubled
				if len(words) > 0 {
					a := intn(t, len(words))
					x = append(x, words[a:between(t, a, len(words))]...)
					if oneIn(t, 2) {
						hi = lo
					}
				}
			}
			words = append(append(append([]string(nil), words[:lo]...), x...), words[hi:]...)
		}
		i := intn(t, len(words)+1)
		words = append(append(append([]string(nil), words[:i]...), word()), words[i:]...)
		lists = append(lists, words)
		c.Lics = append(c.Lics, oldLic{Name: pick(t, oldNames) + fmt.Sprint(len(lists)), Text: Text(oldLicText(t, words, false))})
	}
	// Each must have a word the copy does not have.
	c.Copies = []int{intn(t, len(lists))}
	has := map[string]bool{}
	for _, w := range lists[c.Copies[0]] {
		has[w] = true
	}
	for i, l := range lists {
		own := i == c.Copies[0]
		for _, w := range l {
			own = own || !has[w]
		}
		if !own {
			c.Lics[i].Text += Text(" " + word())
		}
	}
	for range 2 {
		var w []string
		for k := between(t, 0, 12); k > 0; k-- {
			w = append(w, fillWord(intn(t, 5)))
		}
		c.Gaps = append(c.Gaps, Text(strings.Join(w, " ")))
	}
	return c
}

type oldBlanks struct {
	Lics  []oldLic
	Which int
	Text  Text
	Opts  oldOpts
}

func genOldBlanks(t *rapid.T) oldBlanks {
	c := oldBlanks{Opts: genOldOpts(t)}
	if c.Opts.Min > 10 {
		c.Opts.Min = 10
	}
	minLen := max(2, c.Opts.Min)
	if c.Opts.Min <= 0 {
		minLen = 10
	}
	next := 0
	n := between(t, 1, 3)
	c.Which = intn(t, n)
	for i := 0; i < n; i++ {
		var lic, text strings.Builder
		if minLen > 4 && oneIn(t, 3) { // early blanks, after runs too short to match alone
			for r := between(t, 1, 3); r > 0; r-- {
				for j := between(t, 1, 4); j > 0; j-- {
					w := codeWord(next)
					next++
					lic.WriteString(caseOnly(t, w) + " ")
					text.WriteString(caseOnly(t, w) + pick(t, oldSeps))
				}
				lic.WriteString(" ___ ")
				text.WriteString(" ")
				k := between(t, 0, 60)
				for j := 0; j < k; j++ {
					text.WriteString(fillWord(j%5) + " ")
				}
			}
		}
		for r := between(t, 1, 4); r > 0; r-- {
			var words []string
			for j := between(t, minLen, minLen+5); j > 0; j-- {
				words = append(words, codeWord(next))
				next++
			}
			lic.WriteString(oldLicText(t, words, false))
			text.WriteString(oldLicText(t, words, false))
			if r > 1 {
				lic.WriteString(pick(t, []string{" ___ ", "\n___\n", " <___> ", " (___), "}))
				k := between(t, 0, 70)
				if oneIn(t, 4) {
					k = 70
				}
				for j := 0; j < k; j++ {
					text.WriteString([]string{" ", "\n", ", "}[j%3] + fillWord(j%5))
				}
				text.WriteString(" ")
			}
		}
		c.Lics = append(c.Lics, oldLic{Name: fmt.Sprint("L", i), Text: Text(lic.String())})
		if i == c.Which {
			c.Text = Text(text.String())
		}
	}
	return c
}

func checkOldBlanks(c oldBlanks, o *Obs) error {
	lic := c.Lics[c.Which]
	k := strings.Count(string(lic.Text), "___")
	o.LabelIf(k == 0, "no blanks")
	o.LabelIf(k > 1, "several blanks")
	if k > 0 {
		o.Nontrivial()
	}
	cov, _ := newOld(c.Lics).Cover([]byte(c.Text), c.Opts.opts())
	if len(cov.Match) != 1 || cov.Match[0].Name != lic.Name || !near(cov.Match[0].Percent, 100) || cov.Match[0].Start != 0 || cov.Match[0].End != len(c.Text) || !near(cov.Percent, 100) {
		return fmt.Errorf("covering %q (%+v), which is %s with its blanks filled\nfor %+v\ngot %+v", c.Text, c.Opts, lic.Name, c.Lics, cov)
	}
	return nil
}

// C23

// A text as atoms (words, or URLs) in two layouts.
type oldLayouts struct {
	Lics []oldLic
	Opts oldOpts
	A, B Text
}

var oldSeps = []string{
	" ", "  ", "\n", "\t", "\r\n", ", ", ". ", "; ", ": ", ") ", " (", " - ", "-", "--", "/", "\"", " '", "\n * ", "\n// ", " 2020 ", " 1.0 ", "3", " §4.2 ", "\u00a0", "\u2014", "\u201c",
	"&amp;", "&ldquo;", "&rdquo;", "&AMP;", "_", "__", "<>", "@", "\xff", "\xc3", "\x00", "🎉", "[1]", "{", "}", "…", "\u0301", "+", "=", "?!",
}

// List markers, which are no words.
var oldMarkers = []string{" i. ", " ii) ", " (iii) ", "\n  a) ", "\n (b) ", " viii. ", " xiii: ", " XV) ", " r. ", "\nVII. ", " iv: ", " (Xi) ", " 1.a. ", " xiv.", "-viii)", " vi:ix."}

func genOldLayouts(t *rapid.T) oldLayouts {
	var c oldLayouts
	c.Opts = genOldOpts(t)
	v := genVocab(t)
	// Words that cannot be taken for list markers.
	var words []string
	for _, w := range v.Words {
		if len(w) > 4 && w != "words" && w != "2020" {
			words = append(words, w)
		}
	}
	words = append(words, codeWord(40), codeWord(41), codeWord(42), "été", "фонды", "ａｂｃ", "ẁẃẅ", "𐐨𐐩")
	v.Words = words
	var licWords [][]string
	var known []string
	for k := between(t, 1, 4); k > 0; k-- {
		w := v.list(t, 2, 24)
		if len(licWords) > 0 && oneIn(t, 3) {
			w = edit(t, append([]string(nil), pick(t, licWords)...), v)
		}
		if len(w) > 0 && oneIn(t, 3) {
			w[intn(t, len(w))] = "___"
		}
		licWords = append(licWords, w)
		l := oldLic{Name: pick(t, oldNames) + fmt.Sprint(k), Text: Text(strings.Join(w, " "))}
		if oneIn(t, 5) {
			l.URL = pick(t, urlPool)
			known = append(known, l.URL)
		}
		c.Lics = append(c.Lics, l)
	}
	var atoms []string
	for k := between(t, 1, 6); k > 0; k-- {
		switch intn(t, 6) {
		case 0, 1:
			atoms = append(atoms, pick(t, licWords)...)
		case 2, 3:
			atoms = append(atoms, edit(t, append([]string(nil), pick(t, licWords)...), v)...)
		case 4:
			for j := between(t, 1, 12); j > 0; j-- {
				atoms = append(atoms, pick(t, v.Fill))
			}
		case 5:
			if len(known) > 0 {
				atoms = append(atoms, pick(t, []string{"http://", "https://"})+pick(t, known))
			}
		}
	}
	long := atoms[:0]
	for _, a := range atoms {
		if a == "___" && oneIn(t, 2) {
			a = codeWord(43)
		}
		// No piece of it is like a list marker or a part of a blank.
		ok := a == "___" || !strings.Contains(a, "_") && utf8.ValidString(a)
		for _, w := range oldWords(a) {
			ok = ok && (w.Hi-w.Lo > 4 || strings.Contains(a, "://"))
		}
		if ok {
			long = append(long, a)
		}
	}
	atoms = long
	layout := func() Text {
		var b strings.Builder
		mode := intn(t, 4)
		last := "x"
		for i, a := range append(append([]string{""}, atoms...), "") {
			switch {
			case a == "":
			case strings.Contains(a, "://"), a == "___":
			case mode == 0:
				a = strings.ToUpper(a)
			case mode == 1 && oneIn(t, 2):
				r, n := utf8.DecodeRuneInString(a)
				a = string(unicode.ToUpper(r)) + a[n:]
			case mode == 2:
				var x []rune
				for j, r := range a {
					if j%2 == i%2 {
						r = unicode.ToUpper(r)
					}
					x = append(x, r)
				}
				a = string(x)
			}
			b.WriteString(a)
			s := " "
			if oneIn(t, 2) {
				s = pick(t, oldSeps)
				if oneIn(t, 4) {
					s += pick(t, oldSeps)
				}
				if oneIn(t, 6) {
					s = pick(t, oldMarkers)
				}
			}
			next := ""
			if i < len(atoms) {
				next = atoms[i]
			}
			// URLs stand between spaces, and blanks do not grow.
			if i == 0 && s == " " {
				s = ""
			}
			if strings.HasSuffix(b.String(), "_") || strings.Contains(last+a+next, "://") || strings.Contains(a+next, "___") || strings.Count(s, "_") > 2 {
				s = []string{" ", "\n"}[intn(t, 2)]
			}
			last = a
			b.WriteString(s)
		}
		return Text(b.String())
	}
	c.A, c.B = layout(), layout()
	return c
}

var oldMarkerRE = regexp.MustCompile(`^(?i:[a-r]|ii|iii|iv|vi|vii|viii|ix|xi|xii|xiii|xiv|xv)$`)

// oldAtoms lists words and blanks, without list markers.
func oldAtoms(s string) []oldWord {
	var out []oldWord
	for _, w := range oldWords(s) {
		if !(w.Hi < len(s) && strings.IndexByte(".:)", s[w.Hi]) >= 0 && oldMarkerRE.MatchString(s[w.Lo:w.Hi])) {
			out = append(out, w)
		}
	}
	for i := 0; i+3 <= len(s); {
		if s[i:i+3] == "___" {
			out = append(out, oldWord{i, i + 3})
			i += 3
		} else {
			i++
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Lo < out[j].Lo })
	return out
}

type oldSpan struct {
	Name    string
	URL     bool
	Percent float64
	Lo, Hi  int // words
}

func oldSpans(text string, cov old.Coverage) []oldSpan {
	words := oldAtoms(text)
	var out []oldSpan
	for _, m := range cov.Match {
		s := oldSpan{m.Name, m.IsURL, math.Round(m.Percent*1e6) / 1e6, -1, -1}
		for i, w := range words {
			if w.Lo >= m.Start && s.Lo < 0 {
				s.Lo = i
			}
			if w.Hi <= m.End {
				s.Hi = i + 1
			}
		}
		out = append(out, s)
	}
	return out
}

func checkOldLayouts(c oldLayouts, o *Obs) error {
	wa, wb := oldAtoms(string(c.A)), oldAtoms(string(c.B))
	if len(wa) != len(wb) {
		panic(harnessError{fmt.Sprintf("layouts have %d and %d words: %q %q", len(wa), len(wb), c.A, c.B)})
	}
	ch := newOld(c.Lics)
	a, _ := ch.Cover([]byte(c.A), c.Opts.opts())
	b, _ := ch.Cover([]byte(c.B), c.Opts.opts())
	o.LabelIf(len(a.Match) == 0, "no match")
	o.LabelIf(len(a.Match) > 1, "several matches")
	if len(a.Match) > 0 && c.A != c.B {
		o.Nontrivial()
	}
	sa, sb := oldSpans(string(c.A), a), oldSpans(string(c.B), b)
	if err := diff(sa, sb); err != nil || !near(a.Percent, b.Percent) {
		return fmt.Errorf("two layouts of the same words (%+v)\n%q\n%q\nfor %+v\nhave %+v\nand  %+v (by words; overall %v, %v)", c.Opts, c.A, c.B, c.Lics, sa, sb, a.Percent, b.Percent)
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C21",
		Rule: "License lists for package old (texts with repeated runs, blanks, list markers, odd bytes; URLs; names of all types, also shared and empty), options (also zero, negative and huge), and texts of license pieces (with blanks as they are or filled, words dropped or doubled), unrelated words, URLs and odd bytes. " +
			"Oracle: the documented form of the result, and equality with a second call. Non-trivial: there is a match.",
		Subs: []Sub{NewSub("form", 120000, 3000000, genOld, checkOldForm)},
	})
	register(&Prop{
		ID: "C22",
		Rule: "License lists with unrelated words (repeated within a license; odd bytes and markup between them), entries with only a URL anywhere among them, and a verbatim copy of one between foreign words; and licenses with blanks between long runs, filled with 0 to 70 foreign words; licenses of up to 140000 words, and up to 66000 licenses. " +
			"Oracle: one match with the name and exact extent, at 100 percent. Every verbatim case is non-trivial; a filled one if it has a blank.",
		Subs: []Sub{
			NewSub("verbatim", 60000, 1500000, genOldVerbatim, checkOldVerbatim),
			NewSub("shared", 60000, 1500000, genOldShared, checkOldVerbatim),
			NewSub("blanks", 20000, 500000, genOldBlanks, checkOldBlanks),
			NewSub("large", 240, 2400, func(t *rapid.T) oldLarge {
				c := genOldLarge(t)
				c.Cuts = nil
				return c
			}, checkOldLarge),
		},
	})
	register(&Prop{
		ID: "C23",
		Rule: "A license list, and a text of (edited) license texts, unrelated words, blanks and URLs written out twice with other letter case and other spacing, punctuation and numerals between the words. " +
			"Oracle: equal names, percentages and spans of words. Non-trivial: there is a match and the two texts differ.",
		Subs: []Sub{NewSub("layouts", 60000, 1500000, genOldLayouts, checkOldLayouts)},
	})
}
