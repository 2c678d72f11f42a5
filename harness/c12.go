package main

import (
	"fmt"

	lc "github.com/google/licensecheck"
	"github.com/google/licensecheck/verifh/ref"
	"pgregory.net/rapid"
)

// A setCase is a license set, valid or not, and texts to scan.
type setCase struct {
	Lics  []ref.License
	Other []ref.License
	Texts []Text
}

// genLoose makes patterns that may begin or end with anything.
func genLoose(t *rapid.T, v *Vocab) *ref.Node {
	tc := &treeCfg{v: v, depth: 3, wild: 3, budget: 10}
	var start []*ref.Node
	switch intn(t, 10) {
	case 0:
		start = nil
	case 1:
		start = append(start, lit(v.list(t, 1, 1)...))
	case 2:
		start = append(start, &ref.Node{K: ref.Opt, Sub: []*ref.Node{lit(v.list(t, 1, 3)...)}})
	case 3:
		start = append(start, &ref.Node{K: ref.Alt, Sub: []*ref.Node{lit(v.list(t, 1, 3)...), lit(v.list(t, 1, 3)...)}})
	case 4:
		start = append(start, &ref.Node{K: ref.Wild, N: between(t, 0, 3)})
	case 5:
		start = append(start, lit(v.list(t, 1, 1)...), &ref.Node{K: ref.Opt, Sub: []*ref.Node{tc.node(t, 2)}})
	case 6:
		start = append(start, tc.node(t, 3))
	case 7:
		start = append(start, &ref.Node{K: ref.Alt, Sub: []*ref.Node{lit(v.list(t, 2, 3)...), tc.node(t, 2)}})
	case 8:
		start = append(start, &ref.Node{K: ref.Opt, Sub: []*ref.Node{tc.node(t, 2)}}, lit(v.list(t, 1, 2)...))
	default:
		start = append(start, lit(v.list(t, 2, 2)...))
	}
	m := cat(start...)
	for i := intn(t, 3); i > 0; i-- {
		m.Sub = append(m.Sub, tc.node(t, 2))
	}
	if len(m.Sub) > 0 && m.EndsWild() || oneIn(t, 3) {
		m.Sub = append(m.Sub, lit(v.list(t, 1, 3)...))
	}
	tidy(m)
	return m
}

func genSet(t *rapid.T) setCase {
	v := genVocab(t)
	var c setCase
	c.Lics = []ref.License{}
	n := between(t, 0, 4)
	loose := intn(t, 5)
	for i := 0; i < n; i++ {
		l := ref.License{ID: fmt.Sprint("L", i), Type: uint(i + 1)}
		if oneIn(t, 3) {
			l.URL = pick(t, urlPool)
		}
		tc := &treeCfg{v: v, depth: 2, wild: 4, budget: 12}
		switch {
		case i == loose && oneIn(t, 8):
			l.LRE = tame(string(genSoup(t).Src), 6)
		case i == loose:
			l.LRE = printLRE(t, genLoose(t, v), oneIn(t, 3))
		case l.URL == "" || oneIn(t, 2):
			l.LRE = printLRE(t, tc.tree(t), false)
		}
		if oneIn(t, 12) {
			l.ID = pick(t, []string{"", "L0"})
		}
		c.Lics = append(c.Lics, l)
	}
	other := genLicsFrom(t, scanCfg{maxLics: 3, wild: 3, depth: 2}, v)
	c.Other = other.lics
	if oneIn(t, 2) {
		c.Texts = append(c.Texts, Text(other.text(t, scanCfg{urls: true}, 3)))
	}
	for _, l := range c.Lics {
		if tr, err := ref.Parse(l.LRE); err == nil && l.LRE != "" {
			c.Texts = append(c.Texts, Text(render(t, derive(t, tr, func() string { return fillWord(1) }), false)))
		}
		if l.URL != "" {
			c.Texts = append(c.Texts, Text("see http://"+l.URL))
		}
	}
	return c
}

func checkSet(c setCase, o *Obs) error {
	_, rerr := ref.NewScanner(c.Lics)
	judged := true
	for _, l := range c.Lics {
		if n, err := ref.Parse(l.LRE); err == nil && n.EndsWild() && l.LRE != "" {
			judged = false // see C11
		}
	}
	list := implLics(c.Lics)
	s, err := lc.NewScanner(list)
	if (s == nil) == (err == nil) {
		return fmt.Errorf("NewScanner(%+v) returns %v, %v", c.Lics, s, err)
	}
	o.LabelIf(rerr == nil, "valid set")
	o.LabelIf(rerr != nil, "invalid set")
	o.LabelIf(len(c.Lics) == 0, "empty set")
	lres := 0
	for _, l := range c.Lics {
		if l.LRE != "" {
			lres++
		}
	}
	o.LabelIf(len(c.Lics) > 0 && lres == 0, "only URLs")
	if rerr != nil || lres > 0 {
		o.Nontrivial()
	}
	for i, l := range implLics(c.Lics) {
		if list[i] != l {
			return fmt.Errorf("NewScanner changed its argument: %+v", list)
		}
	}
	if judged && (err == nil) != (rerr == nil) {
		return fmt.Errorf("NewScanner(%+v): %v; by the documented rules: %v", c.Lics, err, rerr)
	}
	if err != nil {
		return nil
	}
	// The scanner keeps its own copy, and scanners are independent.
	scan := func(s *lc.Scanner) (out []string) {
		for _, t := range c.Texts {
			out = append(out, fmt.Sprintf("%+v", s.Scan([]byte(t))))
		}
		return out
	}
	before := scan(s)
	for i := range list {
		list[i] = lc.License{ID: "changed", Type: 1 << 9, LRE: "changed words", URL: "changed.org/x"}
	}
	s2, err := lc.NewScanner(implLics(c.Other))
	if err != nil {
		return fmt.Errorf("NewScanner(%+v): %v", c.Other, err)
	}
	scan(s2)
	lc.NewScanner(implLics(c.Lics))
	if after := scan(s); fmt.Sprint(after) != fmt.Sprint(before) {
		return fmt.Errorf("scanner for %+v scanning %q\nfirst %v\nthen  %v", c.Lics, c.Texts, before, after)
	}
	for _, t := range c.Texts {
		if err := wellFormed(c.Lics, []byte(t), s.Scan([]byte(t))); err != nil {
			return err
		}
	}
	s3, err := lc.NewScanner(implLics(c.Lics))
	if err != nil {
		return fmt.Errorf("NewScanner(%+v) fails the second time: %v", c.Lics, err)
	}
	if again := scan(s3); fmt.Sprint(again) != fmt.Sprint(before) {
		return fmt.Errorf("two scanners for %+v scanning %q\n%v\n%v", c.Lics, c.Texts, before, again)
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C12",
		Rule: "License sets of 0 to 4 entries, with and without LREs and URLs, one of them beginning with anything (nothing, one word, options, alternatives, wildcards, nested groups) or being random source. " +
			"Oracle: an independent computation of the leading two symbols of every text the pattern describes decides acceptance; results of the scanner are compared before and after the caller's slice is overwritten and " +
			"other scanners are made and used, and with a second scanner for the same set. Non-trivial: a set with LREs.",
		Subs: []Sub{NewSub("sets", 60000, 1500000, genSet, checkSet)},
	})
}
