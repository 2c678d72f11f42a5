package main

import (
	"fmt"
	"strings"
	"sync"

	lc "github.com/google/licensecheck"
	"github.com/google/licensecheck/verifh/ref"
	"pgregory.net/rapid"
)

// A text described by the built-in LRE of ID.
type builtinCase struct {
	ID   string
	Text Text
}

func genBuiltinDerived(t *rapid.T) builtinCase {
	m := builtin()
	lic := even(t, len(m.Lics))
	k := 0
	var words []string
	for try := 0; try < 20; try++ {
		words = derive(t, m.Set.Trees[lic], func() string { k++; return bigFill(k % 5) })
		// A wildcard between two copyright words left empty brings them
		// together, and splitting drops the second: the text is then not one
		// the LRE describes.
		if !doubleCopyright(words) {
			break
		}
	}
	return builtinCase{m.Lics[lic].ID, Text(layoutWords(t, words))}
}

// A choice at a node of a pattern: an alternative, an optional part or not, a
// number of words for a wildcard.
type choice struct {
	lic    int
	node   *ref.Node
	k      int
	forced map[*ref.Node]int // choices on the way to node
}

var allChoices = sync.OnceValue(func() []choice {
	var out []choice
	for lic, tr := range builtin().Set.Trees {
		var walk func(n *ref.Node, path map[*ref.Node]int)
		with := func(path map[*ref.Node]int, n *ref.Node, k int) map[*ref.Node]int {
			m := map[*ref.Node]int{n: k}
			for x, y := range path {
				m[x] = y
			}
			return m
		}
		walk = func(n *ref.Node, path map[*ref.Node]int) {
			add := func(k int) { out = append(out, choice{lic, n, k, path}) }
			switch n.K {
			case ref.Wild:
				add(0)
				if n.N > 0 {
					add(1)
					add(n.N)
				}
			case ref.Opt:
				add(0)
				add(1)
				walk(n.Sub[0], with(path, n, 1))
			case ref.Alt:
				for i, s := range n.Sub {
					add(i)
					walk(s, with(path, n, i))
				}
			case ref.Cat:
				for _, s := range n.Sub {
					walk(s, path)
				}
			}
		}
		walk(tr, nil)
	}
	return out
})

// deriveForced is derive with some choices made.
func deriveForced(t *rapid.T, n *ref.Node, forced map[*ref.Node]int, fill func() string) []string {
	k, ok := forced[n]
	var out []string
	switch {
	case n.K == ref.Cat:
		for _, s := range n.Sub {
			out = append(out, deriveForced(t, s, forced, fill)...)
		}
		return out
	case !ok && n.K == ref.Alt:
		k = even(t, len(n.Sub))
	case !ok && n.K == ref.Opt:
		k = even(t, 2)
	case !ok:
		return derive(t, n, fill)
	}
	switch n.K {
	case ref.Wild:
		for ; k > 0; k-- {
			out = append(out, fill())
		}
	case ref.Opt:
		if k == 1 {
			out = deriveForced(t, n.Sub[0], forced, fill)
		}
	case ref.Alt:
		out = deriveForced(t, n.Sub[k], forced, fill)
	}
	return out
}

// genBuiltinChoice makes a text with one choice of all those in the built-in
// patterns.
func genBuiltinChoice(t *rapid.T) builtinCase {
	m := builtin()
	c := pickEven(t, allChoices())
	forced := map[*ref.Node]int{c.node: c.k}
	for n, k := range c.forced {
		forced[n] = k
	}
	k := 0
	var words []string
	for try := 0; try < 20; try++ {
		words = deriveForced(t, m.Set.Trees[c.lic], forced, func() string { k++; return bigFill(k % 5) })
		if !doubleCopyright(words) {
			break
		}
	}
	if doubleCopyright(words) {
		words = derive(t, m.Set.Trees[c.lic], func() string { k++; return bigFill(k % 5) })
		for i := 1; i < len(words); i++ {
			if words[i] == "copyright" && words[i-1] == words[i] {
				words[i] = bigFill(1)
			}
		}
		return builtinCase{"", Text(layoutWords(t, words))}
	}
	return builtinCase{m.Lics[c.lic].ID, Text(layoutWords(t, words))}
}

func doubleCopyright(words []string) bool {
	for i, w := range words {
		if i > 0 && w == "copyright" && words[i-1] == w {
			return true
		}
	}
	return false
}

func checkBuiltinDerived(c builtinCase, o *Obs) error {
	got := lc.Scan([]byte(c.Text))
	o.Nontrivial()
	for _, m := range got.Match {
		if m.IsURL {
			return fmt.Errorf("URL match in a text of %s: %+v\n%q", c.ID, got, trunc(string(c.Text)))
		}
	}
	if c.ID != "" && !near(got.Percent, 100) {
		return fmt.Errorf("a text that %s describes is not matched in full: %+v\n%q", c.ID, got, trunc(string(c.Text)))
	}
	want, _, ok := builtin().Scan(string(c.Text))
	if !ok {
		o.Label("too ambiguous")
		return nil
	}
	own := false
	for _, m := range got.Match {
		own = own || m.ID == c.ID
	}
	o.LabelIf(own, "own license reported")
	o.LabelIf(!own, "only other licenses reported")
	o.LabelIf(len(got.Match) > 1, "several matches")
	return agrees(got, want, string(c.Text))
}

func checkBuiltinModel(c Text, o *Obs) error {
	want, words, ok := builtin().Scan(string(c))
	if !ok {
		o.Label("too ambiguous")
		return nil
	}
	classify(o, want[0], len(words))
	o.LabelIf(len(want) > 1, "ambiguous correction")
	return agrees(lc.Scan([]byte(c)), want, string(c))
}

// genPerturbed edits a text of one built-in license, possibly following it
// with another.
func genPerturbed(t *rapid.T) Text {
	bd := builtinData()
	v := &Vocab{Words: bd.words, Fill: []string{bigFill(0), bigFill(1), bigFill(2), bigFill(3), bigFill(4)}}
	_, w := builtinWords(t, true)
	if oneIn(t, 3) { // wildcards filled with words of the patterns
		w = append([]string(nil), w...)
		for i := range w {
			if strings.HasPrefix(w[i], "zq") && oneIn(t, 2) {
				w[i] = pickEven(t, bd.words)
			}
		}
	}
	for k := between(t, 1, 4); k > 0 && len(w) > 0; k-- {
		// edit prefers places near the start; rotate to be even.
		i := even(t, len(w))
		w = append(w[:i:i], edit(t, w[i:], v)...)
	}
	if oneIn(t, 3) {
		_, x := builtinWords(t, false)
		w = append(w, x...)
	}
	return Text(layoutWords(t, w))
}

func init() {
	register(&Prop{
		ID: "C17",
		Rule: "Texts derived from each of the built-in LREs (picked evenly; random alternatives and options, wildcards filled with 0 to N unrelated words, random layout; and with each choice at each place of the patterns made in turn), which must be matched in full and exactly as the reference model of the built-in patterns says; " +
			"and built-in texts with words dropped, doubled, misspelled, inserted, joined, split or swapped, texts cut off and joined, compared with the model. Non-trivial: any derived text; a perturbed text with a match.",
		Subs: []Sub{
			NewSub("derived", 6000, 100000, genBuiltinDerived, checkBuiltinDerived),
			NewSub("choices", 9000, 150000, genBuiltinChoice, checkBuiltinDerived),
			NewSub("perturbed", 4000, 60000, genPerturbed, checkBuiltinModel),
			NewSub("mixed", 2000, 40000, func(t *rapid.T) Text { return Text(builtinText(t, 5, true)) }, checkBuiltinModel),
		},
	})
}
func init() { subcommands["cc"] = func() { fmt.Println(len(allChoices())) } }
