package main

import (
	"fmt"

	lc "github.com/google/licensecheck"
	"github.com/google/licensecheck/verifh/ref"
	"pgregory.net/rapid"
)

// percentOK recomputes Percent from the reported matches.
func percentOK(text string, c lc.Coverage, o *Obs) error {
	words := ref.Split(text, true)
	covered, urlWords, licWords := 0, 0, 0
	i := 0
	for _, m := range c.Match {
		for i < len(words) && words[i].Lo < m.Start {
			i++
		}
		for i < len(words) && words[i].Hi <= m.End {
			covered++
			if m.IsURL {
				urlWords++
			} else {
				licWords++
			}
			i++
		}
	}
	want := 0.0
	if len(words) > 0 {
		want = 100 * float64(covered) / float64(len(words))
	}
	o.LabelIf(len(words) == 0, "no words")
	o.LabelIf(covered == 0, "nothing covered")
	o.LabelIf(covered > 0 && covered < len(words), "partly covered")
	o.LabelIf(covered > 0 && covered == len(words), "all covered")
	o.LabelIf(urlWords > 0 && licWords > 0, "words of URL and license matches")
	if covered > 0 && covered < len(words) {
		o.Nontrivial()
	}
	if !near(want, c.Percent) {
		return fmt.Errorf("scanning %q: Percent = %v, but %d of %d words (%v%%) lie in the matches %+v", trunc(text), c.Percent, covered, len(words), want, c.Match)
	}
	return nil
}

func checkPercent(c Scan, o *Obs) error {
	s, err := newScanner(c.Lics)
	if err != nil {
		return err
	}
	return percentOK(string(c.Text), s.Scan([]byte(c.Text)), o)
}

// A knownCover is a text with a known number of covered words, independent of
// the model's word splitting.
type knownCover struct {
	Lics    []ref.License
	Text    Text
	Covered int
	Total   int
}

// genKnownCover concatenates complete license texts and URLs and stretches of
// unrelated words, each of a known number of words.
func genKnownCover(t *rapid.T) knownCover {
	k := knownCover{}
	n := between(t, 1, 3)
	next := 0
	var trees []*ref.Node
	// Wildcards could reach the next part, so unrelated words separate the
	// parts then: more than the wildcards of one tree together.
	wild := pick(t, []int{0, 6})
	for i := 0; i < n; i++ {
		tr := uniqueTree(t, &next, wild)
		trees = append(trees, tr)
		k.Lics = append(k.Lics, ref.License{ID: fmt.Sprint("L", i), LRE: printLRE(t, tr, false)})
	}
	k.Lics = append(k.Lics, ref.License{ID: "U", URL: "foo.org/lic/one"})
	var text string
	segs := between(t, 1, 8)
	fill := func() string { return fillWord(intn(t, 6)) }
	for i := 0; i < segs; i++ {
		switch intn(t, 4) {
		case 0, 1:
			w := derive(t, pick(t, trees), fill)
			k.Covered += len(w)
			k.Total += len(w)
			text += render(t, w, true)
			if wild > 0 {
				n := between(t, 21, 24)
				for j := 0; j < n; j++ {
					text += " " + fill()
				}
				k.Total += n
			}
		case 2: // http foo org lic one = 5 words; /legalcode and /us are another
			u := pick(t, []string{"http", "https", "HTTPS", "Http"}) + "://foo.org/lic/one"
			n := 5
			switch intn(t, 5) {
			case 0:
				u += "/"
			case 1:
				u += "/legalcode"
				n++
			case 2:
				u += "/us/"
				n++
			case 3:
				u += "/by-nc.sa" // three words
				n += 3
			}
			k.Covered += n
			k.Total += n
			text += u
		default:
			n := between(t, 1, 60)
			var w []string
			for j := 0; j < n; j++ {
				w = append(w, fill())
			}
			k.Total += n
			text += render(t, w, oneIn(t, 2))
		}
		text += pick(t, []string{" ", "\n", "\n\n", ", ", "<br> ", " &amp; ", " {#x} ", "\t"})
	}
	k.Text = Text(text)
	return k
}

func checkKnownCover(c knownCover, o *Obs) error {
	s, err := newScanner(c.Lics)
	if err != nil {
		return err
	}
	got := s.Scan([]byte(c.Text)).Percent
	want := 100 * float64(c.Covered) / float64(c.Total)
	if c.Covered > 0 && c.Covered < c.Total {
		o.Nontrivial()
	}
	if !near(got, want) {
		return fmt.Errorf("scanning %q: Percent = %v, want %v (%d of %d words)", c.Text, got, want, c.Covered, c.Total)
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C02",
		Rule: "Random license sets and texts mixing license texts, edited ones, URLs (also ending inside a word), copyright notices, markup, and " +
			"arbitrary bytes, and built-in licenses. Oracle: Percent recomputed from the reported spans with an independent word splitter; and texts " +
			"assembled from parts whose word counts are known by construction. Non-trivial: some but not all words are covered.",
		Subs: []Sub{
			NewSub("mixed", 60000, 1500000, func(t *rapid.T) Scan { return genScan(t, mixedCfg, 7) }, checkPercent),
			NewSub("bytes", 20000, 500000, genRawScan, checkPercent),
			NewSub("constructed", 20000, 500000, genKnownCover, checkKnownCover),
			NewSub("builtin", 2500, 60000, genBuiltinText, func(c textCase, o *Obs) error {
				return percentOK(string(c.Text), lc.Scan([]byte(c.Text)), o)
			}),
		},
	})
}
