package main

import (
	"fmt"

	lc "github.com/google/licensecheck"
	"github.com/google/licensecheck/verifh/ref"
	"pgregory.net/rapid"
)

// described checks that every license match is described by an LRE with its ID.
func described(set *ref.Set, ids map[string][]int, text string, c lc.Coverage, o *Obs) error {
	words := ref.Split(text, true)
	for _, m := range c.Match {
		if m.IsURL {
			continue
		}
		lo, hi := 0, 0
		for lo < len(words) && words[lo].Lo < m.Start {
			lo++
		}
		for hi = lo; hi < len(words) && words[hi].Hi <= m.End; {
			hi++
		}
		ok := false
		for k := lo; k < hi && k <= lo+ref.MaxNotice && !ok; k++ {
			if k > lo && words[lo].W != "copyright" {
				break
			}
			for _, i := range ids[m.ID] {
				if set.Describes(i, words, k, hi) {
					ok = true
					o.LabelIf(k > lo, "with notice")
					o.LabelIf(!set.DescribesExactly(i, words, k, hi), "corrected spelling")
					break
				}
			}
		}
		if !ok {
			return fmt.Errorf("scanning %q: match %+v (words %d to %d of %d) is not described by %s", trunc(text), m, lo, hi, len(words), m.ID)
		}
		o.Nontrivial()
	}
	return nil
}

func lreIDs(s *ref.Scanner) map[string][]int {
	ids := map[string][]int{}
	for i, l := range s.Lics {
		ids[l.ID] = append(ids[l.ID], i)
	}
	return ids
}

func checkDescribed(c Scan, o *Obs) error {
	s, err := newScanner(c.Lics)
	if err != nil {
		return err
	}
	model, err := ref.NewScanner(c.Lics)
	if err != nil {
		return fmt.Errorf("model: %v", err)
	}
	cov := s.Scan([]byte(c.Text))
	return described(model.Set, lreIDs(model), string(c.Text), cov, o)
}

var builtinIDs map[string][]int

func checkBuiltinDescribed(c textCase, o *Obs) error {
	if builtinIDs == nil {
		builtinIDs = lreIDs(builtin())
	}
	return described(builtin().Set, builtinIDs, string(c.Text), lc.Scan([]byte(c.Text)), o)
}

// A spoiled text is a license text changed so that no license describes any
// part of it.
type spoiled struct {
	Lics []ref.License
	Text Text
	How  string
}

// genSpoiled makes a pattern of distinct words without optional tail, derives
// a text, and spoils it in a way that leaves no described part.
func genSpoiled(t *rapid.T) spoiled {
	next := 0
	u := &uniq{t: t, next: &next, wild: 6, budget: 20, room: 20}
	m := cat(u.lit(2, 3))
	for i := intn(t, 4); i > 0; i-- {
		m.Sub = append(m.Sub, u.node(2))
	}
	last := u.lit(2, 4)
	m.Sub = append(m.Sub, last)
	words := derive(t, m, func() string { return fillWord(intn(t, 5)) })
	n := len(words)
	var c spoiled
	c.Lics = []ref.License{{ID: "L", LRE: printLRE(t, m, oneIn(t, 3))}}
	first := len(m.Sub[0].W)
	req := []int{} // positions of words that are required
	for i := 0; i < first; i++ {
		req = append(req, i)
	}
	for i := n - len(last.W); i < n; i++ {
		req = append(req, i)
	}
	w := append([]string(nil), words...)
	switch intn(t, 6) {
	case 0:
		c.How = "drop"
		i := pick(t, req)
		w = append(w[:i], w[i+1:]...)
	case 1:
		c.How = "replace"
		w[pick(t, req)] = fillWord(50 + intn(t, 20))
	case 2:
		c.How = "insert"
		i := n - between(t, 1, len(last.W)-1) // inside the last literal
		w = append(w[:i:i], append([]string{fillWord(70 + intn(t, 20))}, w[i:]...)...)
	case 3:
		c.How = "swap"
		i := n - between(t, 1, len(last.W)-1)
		w[i], w[i-1] = w[i-1], w[i]
	case 4:
		c.How = "truncate"
		w = w[:between(t, 0, n-1)]
	case 5:
		c.How = "behead"
		w = w[between(t, 1, n):]
	}
	var pre, post []string
	for i := intn(t, 4); i > 0; i-- {
		pre = append(pre, fillWord(i))
	}
	for i := intn(t, 4); i > 0; i-- {
		post = append(post, fillWord(i))
	}
	c.Text = Text(render(t, append(append(pre, w...), post...), oneIn(t, 2)))
	return c
}

func checkSpoiled(c spoiled, o *Obs) error {
	s, err := newScanner(c.Lics)
	if err != nil {
		return err
	}
	o.Nontrivial()
	o.Label(c.How)
	if got := s.Scan([]byte(c.Text)); len(got.Match) != 0 || got.Percent != 0 {
		return fmt.Errorf("scanning %q (%s) for %q: got %+v, want no match", c.Text, c.How, c.Lics[0].LRE, got)
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C03",
		Rule: "Texts that partly follow LREs: derived from random LREs and then edited (words dropped, added, replaced, misspelled, joined, split, swapped, cut off), " +
			"mixed with others, with copyright notices; and built-in license texts edited the same way; and up to 600 licenses with similar beginnings. Oracle: each match is a text that an independent " +
			"membership test (no implicit cuts) accepts for an LRE of that ID (of the similar licenses: is the best match by enumeration); and texts spoiled so that no part is described give no match. Non-trivial: there " +
			"is a license match to judge (or a spoiled text).",
		Subs: []Sub{
			NewSub("mixed", 60000, 1200000, func(t *rapid.T) Scan {
				return genScan(t, scanCfg{maxLics: 4, wild: 6, depth: 3, fancy: true, big: true}, 6)
			}, checkDescribed),
			NewSub("spoiled", 60000, 1200000, genSpoiled, checkSpoiled),
			NewSub("crowd", 24000, 300000, genCrowd, checkCrowd(true)),
			NewSub("builtin", 2400, 50000, genBuiltinText, checkBuiltinDescribed),
		},
	})
}
