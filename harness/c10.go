package main

import (
	"fmt"
	"strings"

	"github.com/google/licensecheck/verifh/ref"
	"pgregory.net/rapid"
)

// A slotCase is a pattern of distinct literal words with slots, each of which
// accepts up to some number of foreign words, and a text that fills them.
type slotCase struct {
	LRE   string
	Text  Text
	Bound []int // of each slot
	K     []int // words put there
	Note  string
	Match bool
}

func genSlots(t *rapid.T) slotCase {
	var c slotCase
	next := 0
	lits := func(n int) []string {
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, codeWord(next))
			next++
		}
		return l
	}
	var b strings.Builder
	var text []string
	lead := lits(between(t, 2, 5))
	b.WriteString(strings.Join(lead, " "))
	text = append(text, lead...)
	slots := between(t, 1, 4)
	room := 40 // bounds the automaton
	if slots == 1 {
		room = pick(t, []int{10, 40, 160})
	}
	count := func() int {
		n := 0
		switch intn(t, 4) {
		case 0:
			n = between(t, 0, 3)
		case 1:
			n = between(t, 4, 8)
		default:
			n = between(t, 0, room)
		}
		n = min(n, room)
		room -= n
		return n
	}
	ok := true
	bad := oneIn(t, 2)
	wrong := intn(t, slots)
	for i := 0; i < slots; i++ {
		w := func(n int) string { return fmt.Sprintf("__%d__", n) }
		bound, kind := 0, ""
		inside := []string{} // literal words of the slot's group that the text includes
		switch intn(t, 9) {
		default:
			kind = "wildcard"
			bound = count()
			b.WriteString(" " + w(bound))
		case 3:
			kind = "adjacent"
			n := between(t, 2, 4)
			for j := 0; j < n; j++ {
				k := count()
				bound += k
				b.WriteString(" " + w(k))
			}
		case 4:
			kind = "optional"
			bound = count()
			b.WriteString("\n((" + w(bound) + "))??\n")
		case 5:
			kind = "alternatives"
			x, y := count(), count()
			bound = max(x, y)
			b.WriteString("\n((" + w(x) + " || " + w(y) + "))\n")
		case 6:
			kind = "group"
			bound = count()
			in := lits(between(t, 1, 3))
			b.WriteString("\n((" + w(bound) + " " + strings.Join(in, " ") + "))\n")
			inside = in
		case 7:
			kind = "optional group" // taken or not
			n := count()
			in := lits(between(t, 1, 3))
			b.WriteString("\n((" + w(n) + " " + strings.Join(in, " ") + "))??\n")
			if oneIn(t, 2) {
				bound, inside = n, in
			}
		case 8:
			kind = "adjacent across a group"
			x, y := count(), count()
			bound = x + y
			b.WriteString(" " + w(x) + "\n((" + w(y) + "))\n")
		}
		c.Note += kind + "; "
		k := 0
		switch intn(t, 5) {
		case 0:
			k = 0
		case 1:
			k = max(0, bound-1)
		case 2, 3:
			k = bound
		default:
			k = between(t, 0, bound)
		}
		if bad && i == wrong {
			k = bound + between(t, 1, 2)
			if oneIn(t, 4) {
				k = bound + between(t, 1, 30)
			}
		}
		c.Bound, c.K = append(c.Bound, bound), append(c.K, k)
		ok = ok && k <= bound
		after := lits(between(t, 1, 5))
		// False starts: some of the first words of what follows, but not all.
		follow := after
		if len(inside) > 0 {
			follow = inside
		}
		fill := make([]string, 0, k)
		for len(fill) < k {
			if kind == "wildcard" && oneIn(t, 4) && len(follow) > 1 {
				n := between(t, 1, min(2, len(follow)-1))
				for j := 0; j < n && len(fill) < k; j++ {
					fill = append(fill, follow[j])
				}
				if len(fill) < k {
					fill = append(fill, fillWord(len(fill)%7))
				}
				continue
			}
			fill = append(fill, fillWord(len(fill)%7))
		}
		text = append(text, fill...)
		text = append(text, inside...)
		text = append(text, after...)
		b.WriteString(" " + strings.Join(after, " "))
	}
	c.LRE = b.String()
	c.Text = Text(strings.Join(text, " "))
	c.Match = ok
	return c
}

func checkSlots(c slotCase, o *Obs) error {
	s, err := newScanner([]ref.License{{ID: "L", LRE: c.LRE}})
	if err != nil {
		return err
	}
	got := s.Scan([]byte(c.Text))
	o.LabelIf(c.Match, "recognized")
	o.LabelIf(!c.Match, "too many words")
	edge := false
	for i, k := range c.K {
		edge = edge || k == c.Bound[i] || k == c.Bound[i]+1
	}
	o.LabelIf(edge, "at or just over a bound")
	for _, n := range strings.Split(c.Note, "; ") {
		if n != "" {
			o.Label(n)
		}
	}
	o.Nontrivial()
	full := len(got.Match) == 1 && got.Match[0].Start == 0 && got.Match[0].End == len(c.Text) && got.Percent == 100
	if c.Match && !full || !c.Match && len(got.Match) > 0 {
		return fmt.Errorf("scanning %q for %q (%s): %v words where at most %v are allowed: got %+v", c.Text, c.LRE, c.Note, c.K, c.Bound, got)
	}
	return nil
}

// genWilds returns an expression of wildcards over more than three words, and
// the greatest number of words it can stand for.
func genWilds(t *rapid.T, depth int) (*ref.Node, int) {
	wild := func() (*ref.Node, int) {
		n := between(t, 4, 6)
		return &ref.Node{K: ref.Wild, N: n}, n
	}
	if depth == 0 {
		return wild()
	}
	switch intn(t, 4) {
	case 0:
		return wild()
	case 1:
		sub, n := genWilds(t, depth-1)
		return &ref.Node{K: ref.Opt, Sub: []*ref.Node{sub}}, n
	case 2:
		alt, n := &ref.Node{K: ref.Alt}, 0
		for k := between(t, 2, 3); k > 0; k-- {
			sub, m := genWilds(t, depth-1)
			alt.Sub = append(alt.Sub, sub)
			n = max(n, m)
		}
		return alt, n
	}
	seq, n := cat(), 0
	for k := between(t, 2, 4); k > 0; k-- {
		sub, m := genWilds(t, intn(t, depth))
		seq.Sub = append(seq.Sub, sub)
		n += m
	}
	return seq, n
}

// genHuge makes a pattern with one large wildcard.
func genHuge(t *rapid.T) slotCase {
	n := pick(t, []int{255, 256, 1000, 4095, 4096, 10000, 16384, 32767, 32768, 40000, 65535, 65536, 70000})
	k := pick(t, []int{0, 1, n / 2, n - 1, n, n + 1, n + 2, between(t, 0, n+100)})
	text := []string{codeWord(0), codeWord(1)}
	for i := 0; i < k; i++ {
		text = append(text, fillWord(i%7))
	}
	text = append(text, codeWord(2), codeWord(3), codeWord(4), codeWord(5))
	return slotCase{
		LRE:   fmt.Sprintf("%s %s __%d__ %s", codeWord(0), codeWord(1), n, strings.Join(text[k+2:], " ")),
		Text:  Text(strings.Join(text, " ")),
		Bound: []int{n}, K: []int{k}, Match: k <= n, Note: "large count",
	}
}

// genOver makes texts in which the words after a wildcard occur twice: once
// they have occurred (three of them), the wildcard is over.
func genOver(t *rapid.T) slotCase {
	var c slotCase
	next := 0
	lits := func(n int) []string {
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, codeWord(next))
			next++
		}
		return l
	}
	lead := lits(between(t, 2, 4))
	n := between(t, 4, 40)
	after := lits(between(t, 4, 8))
	c.LRE = strings.Join(lead, " ") + fmt.Sprintf(" __%d__ ", n)
	switch intn(t, 4) {
	case 0:
		c.LRE = strings.Join(lead, " ") + fmt.Sprintf("\n((__%d__))??\n", n)
	case 3: // several that are over at the same place
		tr, most := genWilds(t, 3)
		c.LRE = printLRE(t, cat(lit(lead...), tr), false) + " "
		n = most
	case 1:
		c.LRE = strings.Join(lead, " ") + fmt.Sprintf("\n((__%d__ || %s))\n", n, strings.Join(lits(2), " "))
	}
	c.LRE += strings.Join(after, " ")
	k := between(t, 0, n)
	text := append([]string(nil), lead...)
	for i := 0; i < k; i++ {
		text = append(text, fillWord(i%7))
	}
	first := between(t, 1, 3) // leading words of after that occur early
	room := n - k - first
	text = append(text, after[:first]...)
	m := 1
	if room > 1 {
		m = between(t, 1, room)
	}
	for i := 0; i < m; i++ {
		text = append(text, fillWord(i%7))
	}
	text = append(text, after...)
	c.Text = Text(strings.Join(text, " "))
	c.Bound, c.K = []int{n}, []int{k + first + m}
	// With three words the wildcard is over, and the text does not go on as it
	// should; with fewer, those words belong to the wildcard if there is room.
	c.Match = first < 3 && k+first+m <= n
	c.Note = fmt.Sprintf("%d words seen early", first)
	return c
}

// genCuts makes patterns with many wildcards, pending at once in alternatives
// and options, of which each is over at another place, and texts in which
// words of the pattern occur before their time.
func genCuts(t *rapid.T) Scan {
	next, wilds := 0, 0
	word := func() string {
		if oneIn(t, 10) && next > 0 {
			return codeWord(intn(t, next))
		}
		next++
		return codeWord(next - 1)
	}
	lits := func(lo, hi int) *ref.Node {
		n := lit()
		for k := between(t, lo, hi); k > 0; k-- {
			n.W = append(n.W, word())
		}
		return n
	}
	var node func(depth int) *ref.Node
	seq := func(depth, lo, hi int) *ref.Node {
		n := cat()
		for k := between(t, lo, hi); k > 0; k-- {
			n.Sub = append(n.Sub, node(depth))
		}
		return n
	}
	node = func(depth int) *ref.Node {
		k := intn(t, 10)
		switch {
		case k < 4 && wilds < 22:
			n := pick(t, []int{1, 4, 4, 4, 5})
			wilds += n
			return &ref.Node{K: ref.Wild, N: n}
		case k < 6 || depth == 0:
			return lits(1, 3)
		case k < 8:
			n := &ref.Node{K: ref.Alt}
			for j := between(t, 2, 3); j > 0; j-- {
				n.Sub = append(n.Sub, seq(depth-1, 1, 3))
			}
			return n
		default:
			return &ref.Node{K: ref.Opt, Sub: []*ref.Node{seq(depth-1, 1, 3)}}
		}
	}
	tr := cat(lits(2, 2), seq(3, 2, 5), lits(1, 4))
	c := Scan{Lics: []ref.License{{ID: "L", Type: 2, LRE: printLRE(t, tr, false)}}}
	// The words of some path, parts of which also come earlier.
	n := 0
	early := derive(t, tr, func() string { n++; return fillWord(n % 5) })
	fill := func() string { n++; return fillWord(n % 5) }
	if oneIn(t, 2) { // runs of words of the pattern in wildcards
		i := 0
		fill = func() string {
			n++
			if oneIn(t, 3) || i >= len(early) {
				i = intn(t, len(early))
				return fillWord(n % 5)
			}
			i++
			return early[i-1]
		}
	}
	w := derive(t, tr, fill)
	for k := intn(t, 3); k > 0; k-- {
		i, j := intn(t, len(w)), intn(t, len(early))
		part := early[j:min(len(early), j+between(t, 1, 4))]
		w = append(w[:i:i], append(append([]string(nil), part...), w[i:]...)...)
	}
	c.Text = Text(strings.Join(w, " "))
	return c
}

func init() {
	register(&Prop{
		ID: "C10",
		Rule: "Patterns of distinct literals with one to four slots (a wildcard, adjacent ones, optional ones, alternatives, wildcards inside required and optional groups and across their edges; counts 0 to 160) " +
			"and texts that put k foreign words (sometimes beginning like what follows) into each slot, k around the bound. Oracle: recognized in full exactly if every k is within its bound. " +
			"Also texts in which the words after a wildcard occur early: with three of them (wildcards over three words) the wildcard is over. Every case of these is non-trivial. " +
			"Also patterns with many wildcards pending at once in nested alternatives and options, and texts with words of the pattern before their time; oracle: the reference model; non-trivial: there is a match.",
		Subs: []Sub{
			NewSub("slots", 60000, 1500000, genSlots, checkSlots),
			NewSub("over", 40000, 800000, genOver, checkSlots),
			NewSub("huge", 24, 600, genHuge, checkSlots),
			NewSub("cuts", 16000, 400000, genCuts, checkModel),
		},
	})
}
