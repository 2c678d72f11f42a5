package main

import (
	"fmt"
	"strings"

	"github.com/google/licensecheck/verifh/ref"
	"pgregory.net/rapid"
)

func checkModel(c Scan, o *Obs) error {
	sc, err := newScanner(c.Lics)
	if err != nil {
		return err
	}
	model, err := ref.NewScanner(c.Lics)
	if err != nil {
		return fmt.Errorf("model: %v", err)
	}
	want, words, ok := model.Scan(string(c.Text))
	if !ok {
		o.Label("too ambiguous")
		return nil
	}
	got := sc.Scan([]byte(c.Text))
	classify(o, want[0], len(words))
	o.LabelIf(len(want) > 1, "ambiguous correction")
	return agrees(got, want, string(c.Text))
}

// classify labels a result; it is non-trivial if it has a match that does not
// simply cover the whole text.
func classify(o *Obs, c ref.Coverage, words int) {
	lic, url := 0, 0
	for _, m := range c.Match {
		if m.IsURL {
			url++
		} else {
			lic++
		}
	}
	o.LabelIf(lic == 0 && url == 0, "no match")
	o.LabelIf(lic == 1, "one license match")
	o.LabelIf(lic > 1, "several license matches")
	o.LabelIf(url > 0, "URL match")
	o.LabelIf(url > 0 && lic > 0, "URL and license match")
	o.LabelIf(c.Covered < c.Total && lic > 0, "partly covered")
	if lic+url > 0 && words > 0 {
		o.Nontrivial()
	}
}

// genSubset makes a scanner of a few built-in licenses, some of them related,
// and a text out of them, or out of others.
func genSubset(t *rapid.T) Scan {
	b := builtinData()
	m := builtin()
	var c Scan
	add := func(tree int) {
		l := m.Lics[tree]
		for _, x := range c.Lics {
			if x.ID == l.ID {
				return
			}
		}
		c.Lics = append(c.Lics, l)
	}
	var picked []int
	for k := between(t, 1, 3); k > 0; k-- {
		i := intn(t, len(b.short))
		if !oneIn(t, 4) {
			i = even(t, len(b.short))
		}
		for j := between(t, 1, 3); j > 0 && i < len(b.short); j-- {
			add(b.short[i])
			picked = append(picked, b.short[i])
			i++
		}
	}
	if oneIn(t, 2) {
		c.Lics = append(c.Lics, ref.License{ID: "U", Type: 4, URL: pick(t, urlPool)})
	}
	if oneIn(t, 3) {
		i, j := intn(t, len(c.Lics)), intn(t, len(c.Lics))
		c.Lics[i], c.Lics[j] = c.Lics[j], c.Lics[i]
	}
	v := &Vocab{Words: b.words, Fill: []string{bigFill(0), bigFill(1), bigFill(2), bigFill(3), bigFill(4)}}
	var s strings.Builder
	for k := between(t, 1, 4); k > 0; k-- {
		switch intn(t, 8) {
		case 0:
			s.WriteString(builtinText(t, 1, false))
		case 1:
			s.WriteString(genURL(t, urlPool))
		case 2:
			s.WriteString("Copyright (c) 2020 " + bigFill(1))
		default:
			n := 0
			w := derive(t, m.Set.Trees[pick(t, picked)], func() string { n++; return bigFill(n % 5) })
			for j := between(t, 0, 3); j > 0; j-- {
				w = edit(t, w, v)
			}
			s.WriteString(layoutWords(t, w))
		}
		s.WriteString(pick(t, []string{"\n", "\n\n", " ", ". ", "\n---\n"}))
	}
	c.Text = Text(s.String())
	return c
}

func init() {
	register(&Prop{
		ID: "C24",
		Rule: "License sets of LREs (built from trees over tiny, related or legal vocabularies, with alternatives, optional parts, wildcards) and URLs, or subsets of the built-in ones in another order, and texts of license texts exact or edited (words dropped, doubled, swapped, misspelled, split, joined), fillers up to the copyright limit, copyright lines, URLs, markup and odd bytes. " +
			"Oracle: the reference model's complete result (any of its results where two corrections are equally possible). Non-trivial: there is a match.",
		Assumes: []string{"texts for which the model has more than a bounded number of possible results are not judged (label: too ambiguous)"},
		Subs: []Sub{
			NewSub("mixed", 16000, 300000, func(t *rapid.T) Scan {
				return genScan(t, scanCfg{maxLics: 4, wild: 6, depth: 3, fancy: true, urls: true, raw: true, big: true}, 7)
			}, checkModel),
			NewSub("many-licenses", 6000, 100000, func(t *rapid.T) Scan {
				return genScan(t, scanCfg{maxLics: 12, wild: 12, depth: 2, fancy: true, urls: true}, 12)
			}, checkModel),
			NewSub("subsets", 3000, 60000, genSubset, checkModel),
		},
	})
}
