package main

import (
	"fmt"
	"sort"
	"strings"

	lc "github.com/google/licensecheck"
	"github.com/google/licensecheck/verifh/ref"
	"pgregory.net/rapid"
)

// Two license sets without common words, and a text.
type unionCase struct {
	A, B []ref.License
	Mix  []int // order of a third list: positions in A followed by B
	Text Text
}

func unionVocab(t *rapid.T, off int) *Vocab {
	v := &Vocab{}
	n := between(t, 2, 12)
	for i := 0; i < n; i++ {
		v.Words = append(v.Words, codeWord(i+off))
	}
	for i := 0; i < 5; i++ {
		v.Fill = append(v.Fill, fillWord(i))
	}
	return v
}

var urlPools = [2][]string{
	{"foo.org/a", "foo.org/a/b", "www.foo.com/licenses/x", "foo.com/l#x=1"},
	{"bar.org/a", "bar.org/a/b", "www.bar.com/licenses/x", "foo.org/z"},
}

// genUnion draws the sets. The words of the second differ from those of the
// first in four letters of six.
func genUnion(maxLics, segs int) func(*rapid.T) unionCase {
	return func(t *rapid.T) unionCase {
		cfg := scanCfg{maxLics: maxLics, wild: 6, depth: 2, fancy: true, plain: true}
		sets := [2]*licSet{genLicsFrom(t, cfg, unionVocab(t, 0)), genLicsFrom(t, cfg, unionVocab(t, 18+324))}
		for i, s := range sets {
			for j := range s.lics {
				s.lics[j].ID = strings.Replace(s.lics[j].ID, "L", "AB"[i:i+1], 1)
				if oneIn(t, 5) {
					s.lics[j].URL = pick(t, urlPools[i])
					s.known = append(s.known, s.lics[j].URL)
				}
			}
			if oneIn(t, 3) {
				u := pick(t, urlPools[i])
				s.known = append(s.known, u)
				s.lics = append(s.lics, ref.License{ID: "U" + "AB"[i:i+1], Type: 64, URL: u})
			}
		}
		var b strings.Builder
		cfg.urls = true
		for k := between(t, 2, segs); k > 0; k-- {
			b.WriteString(sets[intn(t, 2)].text(t, cfg, 2))
			b.WriteString(sep(t, true))
		}
		text := b.String()
		c := unionCase{A: sets[0].lics, B: sets[1].lics, Mix: []int{}, Text: Text(text)}
		// Keep the order inside each set; interleave them.
		i, j := 0, 0
		for i < len(c.A) || j < len(c.B) {
			if j == len(c.B) || i < len(c.A) && rapid.Bool().Draw(t, "a") {
				c.Mix = append(c.Mix, i)
				i++
			} else {
				c.Mix = append(c.Mix, len(c.A)+j)
				j++
			}
		}
		return c
	}
}

func checkUnion(c unionCase, o *Obs) error {
	for _, w := range ref.Split(string(c.Text), true) {
		if w.W == "copyright" {
			o.Label("copyright words")
			return nil
		}
	}
	both := append(append([]ref.License(nil), c.A...), c.B...)
	rev := append(append([]ref.License(nil), c.B...), c.A...)
	var mix []ref.License
	for _, i := range c.Mix {
		mix = append(mix, both[i])
	}
	scan := func(l []ref.License) (lc.Coverage, error) {
		s, err := newScanner(l)
		if err != nil {
			return lc.Coverage{}, err
		}
		return s.Scan([]byte(c.Text)), nil
	}
	a, err := scan(c.A)
	if err != nil {
		return err
	}
	b, err := scan(c.B)
	if err != nil {
		return err
	}
	o.LabelIf(len(a.Match) > 0 && len(b.Match) > 0, "matches of both")
	want := append(append([]lc.Match(nil), a.Match...), b.Match...)
	sort.SliceStable(want, func(i, j int) bool { return want[i].Start < want[j].Start })
	for i := range want {
		if i > 0 && want[i-1].End > want[i].Start {
			o.Label("overlap")
			return nil
		}
	}
	if len(a.Match) > 0 && len(b.Match) > 0 {
		o.Nontrivial()
	}
	for i, l := range [][]ref.License{both, rev, mix} {
		got, err := scan(l)
		if err != nil {
			return err
		}
		if !sameMatches(refMatches(got), refMatches(lc.Coverage{Match: want})) || !near(got.Percent, a.Percent+b.Percent) {
			return fmt.Errorf("scanning %q\nfirst set  %+v\nsecond set %+v\nboth (order %d) %+v", c.Text, a, b, i, got)
		}
	}
	return nil
}

// Added to the built-in licenses.
type extendCase struct {
	Lics  []ref.License
	First bool // put them before the built-in ones
	Text  Text
}

func genExtend(t *rapid.T) extendCase {
	cfg := scanCfg{maxLics: 5, wild: 6, depth: 2, fancy: true, plain: true}
	v := unionVocab(t, 18+324)
	s := genLicsFrom(t, cfg, v)
	for j := range s.lics {
		s.lics[j].ID = "Own-" + s.lics[j].ID
	}
	s.lics = append(s.lics, ref.License{ID: "Own-U", Type: 64, URL: "foo.org/own"})
	var b strings.Builder
	for k := between(t, 2, 5); k > 0; k-- {
		if oneIn(t, 2) {
			b.WriteString(s.text(t, cfg, 2))
		} else {
			b.WriteString(builtinText(t, 1, true))
		}
		b.WriteString("\n")
		for i := 0; i < 52; i++ {
			b.WriteString(bigFill(i%5) + pick(t, []string{" ", "\n"}))
		}
		b.WriteString(pick(t, []string{"", "http://foo.org/own", "https://foo.org/own/x\n"}))
		b.WriteString("\n")
	}
	return extendCase{s.lics, oneIn(t, 2), Text(b.String())}
}

func checkExtend(c extendCase, o *Obs) error {
	l := implLics(c.Lics)
	if c.First {
		l = append(l, lc.BuiltinLicenses()...)
	} else {
		l = append(lc.BuiltinLicenses(), l...)
	}
	s, err := lc.NewScanner(l)
	if err != nil {
		return fmt.Errorf("NewScanner rejects the built-in licenses with others added: %v", err)
	}
	own, err := newScanner(c.Lics)
	if err != nil {
		return err
	}
	a, b := lc.Scan([]byte(c.Text)), own.Scan([]byte(c.Text))
	want := append(append([]lc.Match(nil), a.Match...), b.Match...)
	sort.SliceStable(want, func(i, j int) bool { return want[i].Start < want[j].Start })
	for i := range want {
		if i > 0 && want[i-1].End > want[i].Start {
			o.Label("overlap")
			return nil
		}
	}
	o.LabelIf(len(a.Match) > 0 && len(b.Match) > 0, "matches of both")
	if len(a.Match) > 0 && len(b.Match) > 0 {
		o.Nontrivial()
	}
	got := s.Scan([]byte(c.Text))
	if !sameMatches(refMatches(got), refMatches(lc.Coverage{Match: want})) || !near(got.Percent, a.Percent+b.Percent) {
		return fmt.Errorf("scanning %q\nbuilt-in %+v\nown %+v\nboth %+v", trunc(string(c.Text)), a, b, got)
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C25",
		Rule: "Two license sets over vocabularies that differ in four letters of each word, with their own URLs, and texts mixing (edited) license texts of both, URLs and unrelated words; and license sets added to the built-in ones, with texts of both kinds further apart than a copyright notice reaches. " +
			"Oracle: when the matches of the separate scanners do not overlap, the scanner for both (in either order, and interleaved) reports their union and the sum of their percentages. " +
			"Texts with copyright words are left out for the pairs of sets. Non-trivial: both sets have matches, none overlapping.",
		Subs: []Sub{
			NewSub("pairs", 16000, 400000, genUnion(4, 6), checkUnion),
			NewSub("many", 4000, 80000, genUnion(14, 6), checkUnion),
			NewSub("built-in", 56, 3000, genExtend, checkExtend),
		},
	})
}
