package main

import (
	"fmt"
	"strings"

	"github.com/google/licensecheck/verifh/ref"
	"pgregory.net/rapid"
)

// A crowd is a set of many licenses that begin in similar ways, so that most
// of them are alive at the same time.
type crowd struct {
	Wilds  []int      // wildcard after each position of the head, in all licenses (0 for none)
	Kinds  []crowdLic // what each license allows
	Lics   []int      // the kind of each license, run-length encoded: kind, count, ...
	Texts  []crowdTxt
	Listed bool // with another license in front
}

// A crowdLic allows at each position of the head some of three words (by bit;
// bit 3: or none), and has a tail of some length.
type crowdLic struct {
	Masks []int
	Tail  int
	Any   bool // the tail's last word may also be another
}

// A crowdTxt is a head and the tail of a license (cut off).
type crowdTxt struct {
	Lic  int
	Head []int // word at each position (3: none)
	Fill []int // fillers after each
	Tail int
	End  int // 0: as written, 1: another word
}

func headWord(pos, i int) string { return codeWord(18*(3*pos+i) + 5) }
func tailWord(lic, i int) string { return codeWord(2000 + 4*lic + i) }

func genCrowd(t *rapid.T) crowd {
	var c crowd
	n := between(t, 2, 5)
	wild, most := 0, 600 // many with wildcards take long to compile
	switch intn(t, 4) {
	case 0:
		wild, most = 6, 8
	case 1:
		wild, most = 1, 140
	}
	for i := 0; i < n; i++ {
		w := 0
		if i >= 1 && i < n-1 && wild > 0 && oneIn(t, 3) {
			w = between(t, 1, wild)
		}
		c.Wilds = append(c.Wilds, w)
	}
	for k := between(t, 1, 4); k > 0; k-- {
		l := crowdLic{Tail: between(t, 1, 3), Any: oneIn(t, 4)}
		for i := 0; i < n; i++ {
			m := pick(t, []int{1, 1, 2, 4, 3, 3, 5, 6, 7})
			// Cuts may interfere with wildcards at optional words.
			if i >= 2 && c.Wilds[i-1]+c.Wilds[i] == 0 && oneIn(t, 6) {
				m |= 8
			}
			l.Masks = append(l.Masks, m)
		}
		c.Kinds = append(c.Kinds, l)
	}
	total := 0
	for k := between(t, 1, 5); k > 0; k-- {
		m := pick(t, []int{1, 2, 5, 30, 63, 64, 65, 127, 128, 129, 150, 255, 256, 260})
		if total += m; total > most {
			total -= m
			m = between(t, 1, 2)
			total += m
		}
		c.Lics = append(c.Lics, intn(t, len(c.Kinds)), m)
	}
	kinds := c.kinds()
	for k := between(t, 1, 6); k > 0; k-- {
		x := crowdTxt{Lic: len(kinds) - 1 - intn(t, len(kinds)), End: intn(t, 8) / 7}
		if oneIn(t, 2) {
			x.Lic = even(t, len(kinds))
		}
		l := c.Kinds[kinds[x.Lic]]
		x.Tail = l.Tail
		if oneIn(t, 6) {
			x.Tail = between(t, 0, 3)
		}
		for i := 0; i < n; i++ {
			w := intn(t, 3)
			if oneIn(t, 3) {
				w = intn(t, 4)
			} else {
				for l.Masks[i]>>w&1 == 0 {
					w = (w + 1) % 4
				}
			}
			x.Head = append(x.Head, w)
			f := 0
			if c.Wilds[i] > 0 {
				f = between(t, 0, c.Wilds[i])
			}
			if oneIn(t, 12) {
				f++
			}
			x.Fill = append(x.Fill, f)
		}
		c.Texts = append(c.Texts, x)
	}
	c.Listed = oneIn(t, 4)
	return c
}

// kinds gives the kind of each license.
func (c crowd) kinds() (l []int) {
	for i := 0; i+1 < len(c.Lics); i += 2 {
		for k := 0; k < c.Lics[i+1]; k++ {
			l = append(l, c.Lics[i])
		}
	}
	return l
}

func (c crowd) lre(i int, l crowdLic) string {
	var b strings.Builder
	for p, m := range l.Masks {
		if m&7 == 0 {
			m |= 1
		}
		b.WriteString("\n((")
		first := true
		for k := 0; k < 3; k++ {
			if m>>k&1 != 0 {
				if !first {
					b.WriteString("\n||")
				}
				b.WriteString(" " + headWord(p, k))
				first = false
			}
		}
		b.WriteString("))")
		if m&8 != 0 {
			b.WriteString("??")
		}
		b.WriteString("\n")
		if c.Wilds[p] > 0 {
			fmt.Fprintf(&b, "__%d__ ", c.Wilds[p])
		}
	}
	for k := 0; k < l.Tail; k++ {
		if k == l.Tail-1 && l.Any {
			b.WriteString("\n((" + tailWord(i, k) + " || other))")
			break
		}
		b.WriteString(tailWord(i, k) + " ")
	}
	return b.String()
}

// ends gives the number of words of the text that license i takes (0: no match).
func (c crowd) ends(i int, l crowdLic, words []string) int {
	var rec func(p, j, wild int) int
	rec = func(p, j, wild int) int {
		best := 0
		if p < len(l.Masks) {
			m := l.Masks[p]
			if m&7 == 0 {
				m |= 1
			}
			if wild > 0 && j < len(words) {
				best = rec(p, j+1, wild-1)
			}
			if j < len(words) {
				for k := 0; k < 3; k++ {
					if m>>k&1 != 0 && words[j] == headWord(p, k) {
						best = max(best, rec(p+1, j+1, c.Wilds[p]))
					}
				}
			}
			if m&8 != 0 {
				// The wildcards before and after it add up.
				best = max(best, rec(p+1, j, wild+c.Wilds[p]))
			}
			return best
		}
		if wild > 0 && j < len(words) {
			best = rec(p, j+1, wild-1)
		}
		for k := 0; k < l.Tail; k++ {
			if j+k >= len(words) || words[j+k] != tailWord(i, k) && !(k == l.Tail-1 && l.Any && words[j+k] == "other") {
				return best
			}
		}
		return max(best, j+l.Tail)
	}
	return rec(0, 0, 0)
}

func checkCrowd(spurious bool) func(c crowd, o *Obs) error {
	return func(c crowd, o *Obs) error {
		kinds := c.kinds()
		var lics []ref.License
		if c.Listed {
			lics = append(lics, ref.License{ID: "front", LRE: "front matter of the list"})
		}
		for i, k := range kinds {
			lics = append(lics, ref.License{ID: fmt.Sprint("L", i), Type: uint(i), LRE: c.lre(i, c.Kinds[k])})
		}
		s, err := newScanner(lics)
		if err != nil {
			return err
		}
		var text strings.Builder
		var want []ref.Match
		for _, x := range c.Texts {
			var words []string
			for p := range c.Wilds {
				if x.Head[p] < 3 {
					words = append(words, headWord(p, x.Head[p]))
				}
				for k := 0; k < x.Fill[p]; k++ {
					words = append(words, fillWord(k))
				}
			}
			for k := 0; k < x.Tail; k++ {
				if k == x.Tail-1 && x.End == 1 {
					words = append(words, "other")
				} else {
					words = append(words, tailWord(x.Lic, k))
				}
			}
			best, at := 0, -1
			for i, k := range kinds {
				if e := c.ends(i, c.Kinds[k], words); e > best {
					best, at = e, i
				}
			}
			start := text.Len()
			for j, w := range words {
				text.WriteString(w)
				if j == best-1 {
					text.WriteString("\n")
					want = append(want, ref.Match{ID: fmt.Sprint("L", at), Type: uint(at), Start: start, End: text.Len()})
				} else {
					text.WriteString(" ")
				}
			}
			text.WriteString("\n")
			// More words than a wildcard takes.
			text.WriteString("q" + strings.Repeat(" quuuuuux", 8) + "\n")
			o.LabelIf(best > 0, "match")
			o.LabelIf(best == 0, "no match")
		}
		if len(want) > 0 || spurious {
			o.Nontrivial()
		}
		o.LabelIf(len(kinds) > 128, "over 128 licenses")
		got := refMatches(s.Scan([]byte(text.String())))
		if spurious {
			for _, g := range got {
				ok := false
				for _, w := range want {
					ok = ok || w == g
				}
				if !ok {
					return fmt.Errorf("scanning %q for %d licenses (the last: %q)\ngot  %+v\nwant %+v", text.String(), len(lics), lics[len(lics)-1].LRE, got, want)
				}
			}
			return nil
		}
		if !sameMatches(got, want) {
			return fmt.Errorf("scanning %q for %d licenses (the last: %q)\ngot  %+v\nwant %+v", text.String(), len(lics), lics[len(lics)-1].LRE, got, want)
		}
		return nil
	}
}
