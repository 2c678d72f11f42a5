package main

import (
	"fmt"

	"github.com/google/licensecheck/verifh/ref"
	"pgregory.net/rapid"
)

// ends returns the set of ends of texts n describes in words from i on, by
// definition, without spelling correction or implicit cuts.
func ends(n *ref.Node, words []string, from map[int]bool) map[int]bool {
	out := map[int]bool{}
	switch n.K {
	case ref.Empty:
		return from
	case ref.Lit:
		for i := range from {
			ok := i+len(n.W) <= len(words)
			for k := 0; ok && k < len(n.W); k++ {
				ok = words[i+k] == n.W[k]
			}
			if ok {
				out[i+len(n.W)] = true
			}
		}
	case ref.Wild:
		for i := range from {
			for k := 0; k <= n.N && i+k <= len(words); k++ {
				out[i+k] = true
			}
		}
	case ref.Cat:
		out = from
		for _, s := range n.Sub {
			out = ends(s, words, out)
		}
	case ref.Alt:
		for _, s := range n.Sub {
			for e := range ends(s, words, from) {
				out[e] = true
			}
		}
	case ref.Opt:
		for e := range from {
			out[e] = true
		}
		for e := range ends(n.Sub[0], words, from) {
			out[e] = true
		}
	}
	return out
}

func longest(n *ref.Node, words []string, i int) int {
	best := -1
	for e := range ends(n, words, map[int]bool{i: true}) {
		best = max(best, e)
	}
	return best
}

// A treeScan is a list of LREs given as trees and a text given as words.
type treeScan struct {
	Trees []*ref.Node
	LREs  []string
	Words []string
	Text  Text
}

func (c treeScan) lics() []ref.License {
	var l []ref.License
	for i, s := range c.LREs {
		l = append(l, ref.License{ID: fmt.Sprint("L", i), Type: uint(i+1) << 1, LRE: s})
	}
	return l
}

// genLeftmost makes ordered sets of LREs with common beginnings, duplicates
// and generalizations of one another over few unrelated words.
func genLeftmost(wild int) func(t *rapid.T) treeScan {
	return func(t *rapid.T) treeScan {
		v := &Vocab{Fill: []string{fillWord(0), fillWord(1)}}
		for i := between(t, 1, 4); i > 0; i-- {
			v.Words = append(v.Words, codeWord(i))
		}
		var c treeScan
		n := between(t, 1, 5)
		for i := 0; i < n; i++ {
			tc := &treeCfg{v: v, depth: 2, wild: wild, budget: 10, noEmpty: true}
			var tr *ref.Node
			if i > 0 && oneIn(t, 2) {
				w := derive(t, c.Trees[intn(t, i)], func() string { return v.word(t) })
				switch intn(t, 5) {
				case 0:
					w = w[:between(t, 2, len(w))]
				case 1, 2:
					w = append(w, v.list(t, 1, 3)...)
				case 3:
					w[intn(t, len(w))] = v.word(t)
				}
				tr = lit(w...)
				if k := between(t, 2, len(w)); oneIn(t, 3) && k < len(w) {
					tr = cat(lit(w[:k]...), &ref.Node{K: ref.Opt, Sub: []*ref.Node{lit(w[k:]...)}})
				}
			} else {
				tr = tc.tree(t)
			}
			c.Trees = append(c.Trees, tr)
			c.LREs = append(c.LREs, printLRE(t, tr, false))
		}
		segs := between(t, 1, 6)
		for i := 0; i < segs; i++ {
			if oneIn(t, 3) {
				c.Words = append(c.Words, v.list(t, 1, 5)...)
			} else {
				c.Words = append(c.Words, derive(t, pick(t, c.Trees), func() string { return pick(t, append(v.Fill, v.Words...)) })...)
			}
			if oneIn(t, 3) {
				c.Words = append(c.Words, pick(t, v.Fill))
			}
		}
		c.Text = Text(render(t, c.Words, oneIn(t, 4)))
		return c
	}
}

func checkLeftmost(c treeScan, o *Obs) error {
	s, err := newScanner(c.lics())
	if err != nil {
		return err
	}
	type span struct{ lic, lo, hi int }
	var want []span
	overlaps, ties := false, false
	for i := 0; i < len(c.Words); {
		best := span{-1, i, i}
		for l, tr := range c.Trees {
			e := longest(tr, c.Words, i)
			if e >= i && best.lic >= 0 {
				overlaps = overlaps || e != best.hi
				ties = ties || e == best.hi
			}
			if e > best.hi {
				best = span{l, i, e}
			}
		}
		if best.lic < 0 {
			i++
			continue
		}
		want = append(want, best)
		i = best.hi
	}
	o.LabelIf(len(want) == 0, "no match")
	o.LabelIf(len(want) > 1, "several matches")
	o.LabelIf(overlaps, "several lengths at a match")
	o.LabelIf(ties, "ties")
	if overlaps || ties || len(want) > 1 {
		o.Nontrivial()
	}
	words := ref.Split(string(c.Text), true)
	if len(words) != len(c.Words) {
		return fmt.Errorf("harness: text %q has words %v, want %q", c.Text, words, c.Words)
	}
	var got []span
	for _, m := range s.Scan([]byte(c.Text)).Match {
		var l int
		fmt.Sscanf(m.ID, "L%d", &l)
		lo, hi := 0, 0
		for lo < len(words) && words[lo].Lo < m.Start {
			lo++
		}
		for hi = lo; hi < len(words) && words[hi].Hi <= m.End; {
			hi++
		}
		got = append(got, span{l, lo, hi})
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		return fmt.Errorf("words %q\nLREs %q\nmatches (license, first word, end)\ngot  %v\nwant %v", c.Words, c.LREs, got, want)
	}
	return nil
}

// licenseOnly compares the license matches (with the words they cover) with the model's.
func checkSpans(c Scan, o *Obs) error {
	s, err := newScanner(c.Lics)
	if err != nil {
		return err
	}
	model, err := ref.NewScanner(c.Lics)
	if err != nil {
		return fmt.Errorf("model: %v", err)
	}
	return spansAgree(model, string(c.Text), refMatches(s.Scan([]byte(c.Text))), o)
}

// spansAgree compares the last words and IDs of the license matches, and the
// first words up to a preceding copyright notice, with the model's.
func spansAgree(model *ref.Scanner, text string, got []ref.Match, o *Obs) error {
	words := ref.Split(text, true)
	lists, ok := model.Set.Spans(words)
	if !ok {
		o.Label("too ambiguous")
		return nil
	}
	var gs []string
	for _, m := range got {
		if !m.IsURL {
			hi := 0
			for hi < len(words) && words[hi].Hi <= m.End {
				hi++
			}
			lo := 0
			for lo < len(words) && words[lo].Lo < m.Start {
				lo++
			}
			gs = append(gs, fmt.Sprint(m.ID, " ", lo, " ", hi))
		}
	}
	var all string
	for _, l := range lists {
		var ws []string
		prev := 0
		for _, sp := range l {
			lo := sp.Start
			for i := max(prev, lo-ref.MaxNotice); i < sp.Start; i++ {
				if words[i].W == "copyright" {
					lo = i
					break
				}
			}
			prev = sp.End
			ws = append(ws, fmt.Sprint(model.Lics[sp.Lic].ID, " ", lo, " ", sp.End))
		}
		if fmt.Sprintf("%q", ws) == fmt.Sprintf("%q", gs) {
			o.LabelIf(len(l) > 1, "several matches")
			if len(l) > 0 {
				o.Nontrivial()
			}
			return nil
		}
		all += fmt.Sprintf("want %q\n", ws)
	}
	return fmt.Errorf("scanning %q: license matches (ID, first word, end)\ngot  %q\n%s", trunc(text), gs, all)
}

func init() {
	register(&Prop{
		ID: "C05",
		Rule: "Ordered sets of LREs over one to four words, many being prefixes, extensions, duplicates and generalizations of others, and texts over the same " +
			"words; up to 600 licenses with similar beginnings. Oracle: for every start the lengths each LRE reaches by definition (set of ends over the pattern tree), then leftmost-longest-first-listed; " +
			"for general LREs with corrections and cuts, the reference matcher. Non-trivial: several licenses reach a match's start, or several matches.",
		Subs: []Sub{
			NewSub("exact", 80000, 2000000, genLeftmost(0), checkLeftmost),
			NewSub("short-wildcards", 60000, 1500000, genLeftmost(3), checkLeftmost),
			NewSub("crowd", 24000, 300000, genCrowd, checkCrowd(false)),
			NewSub("general", 60000, 1500000, func(t *rapid.T) Scan {
				return genScan(t, scanCfg{maxLics: 6, wild: 6, depth: 2, fancy: true}, 6)
			}, checkSpans),
		},
	})
}
