package main

import (
	"fmt"
	"math"
	"strings"

	lc "github.com/google/licensecheck"
	"github.com/google/licensecheck/verifh/ref"
	"pgregory.net/rapid"
)

// Parts of a text, to be separated by Gap unrelated words. Lics is nil for
// the built-in scanner.
type partsCase struct {
	Lics  []ref.License
	Parts []Text
	Gap   int
}

// maxWild returns the greatest number of words the wildcards of one tree can
// stand for together.
func maxWild(trees []*ref.Node) int {
	m := 0
	for _, tr := range trees {
		n := 0
		tr.Walk(func(x *ref.Node) {
			if x.K == ref.Wild {
				n += x.N
			}
		})
		m = max(m, n)
	}
	return m
}

func genParts(text func(s *licSet, c scanCfg, t *rapid.T) string) func(*rapid.T) partsCase {
	return func(t *rapid.T) partsCase {
		cfg := scanCfg{maxLics: 4, wild: 6, depth: 3, fancy: true, urls: true, raw: true}
		s := genLics(t, cfg)
		c := partsCase{Lics: s.lics, Gap: maxWild(s.trees) + ref.MaxNotice + 1 + intn(t, 3)}
		for k := between(t, 2, 4); k > 0; k-- {
			c.Parts = append(c.Parts, Text(text(s, cfg, t)))
		}
		return c
	}
}

func genBuiltinParts(t *rapid.T) partsCase {
	c := partsCase{Gap: maxWild(builtin().Set.Trees) + ref.MaxNotice + 1 + intn(t, 3)}
	for k := between(t, 2, 3); k > 0; k-- {
		c.Parts = append(c.Parts, Text(builtinText(t, 2, false)))
	}
	return c
}

// A wordMatch is a match as a span of words; URLs keep their bytes.
type wordMatch struct {
	ID     string
	Type   lc.Type
	URL    bool
	Lo, Hi int
}

func wordMatches(cov lc.Coverage, words []ref.Word, word0, byte0 int) []wordMatch {
	var out []wordMatch
	for _, m := range cov.Match {
		w := wordMatch{ID: m.ID, Type: m.Type, URL: m.IsURL}
		if m.IsURL {
			w.Lo, w.Hi = m.Start+byte0, m.End+byte0
		} else {
			for i, x := range words {
				if x.Lo >= m.Start {
					w.Lo = i + word0
					break
				}
			}
			for i, x := range words {
				if x.Hi <= m.End {
					w.Hi = i + 1 + word0
				}
			}
		}
		out = append(out, w)
	}
	return out
}

func covered(c lc.Coverage, words int) (int, error) {
	x := c.Percent * float64(words) / 100
	n := math.Round(x)
	if math.Abs(x-n) > 1e-6 {
		return 0, fmt.Errorf("Percent %v is not a share of %d words", c.Percent, words)
	}
	return int(n), nil
}

func checkParts(c partsCase, o *Obs) error {
	scan := lc.Scan
	fill := bigFill // in no pattern
	if c.Lics != nil {
		s, err := newScanner(c.Lics)
		if err != nil {
			return err
		}
		scan = s.Scan
	}
	var b strings.Builder
	filler := func() {
		b.WriteString("\n")
		for i := 0; i < c.Gap; i++ {
			b.WriteString(fill(i % 5))
			b.WriteString([]string{"\n", " ", "\n"}[i%3])
		}
		b.WriteString("\n")
	}
	var want []wordMatch
	total, cov := 0, 0
	var words []string
	fillers := func() {
		for i := 0; i < c.Gap; i++ {
			words = append(words, fill(i%5))
		}
		total += c.Gap
	}
	for i, p := range c.Parts {
		if i > 0 {
			filler()
			fillers()
		}
		w := ref.Split(string(p), true)
		got := scan([]byte(p))
		want = append(want, wordMatches(got, w, total, b.Len())...)
		k, err := covered(got, len(w))
		if err != nil {
			return fmt.Errorf("scanning %q: %v", trunc(string(p)), err)
		}
		cov += k
		total += len(w)
		for _, x := range w {
			words = append(words, x.W)
		}
		b.WriteString(string(p))
	}
	text := b.String()
	all := ref.Split(text, true)
	// Unclosed markup at the end of a part may reach into the fillers.
	same := len(all) == len(words)
	for i := 0; same && i < len(all); i++ {
		same = all[i].W == words[i]
	}
	if !same {
		o.Label("parts run into each other")
		return nil
	}
	o.LabelIf(len(want) == 0, "no match")
	o.LabelIf(len(want) > 1, "several matches")
	if len(want) > 0 {
		o.Nontrivial()
	}
	whole := scan([]byte(text))
	k, err := covered(whole, len(all))
	if err != nil {
		return fmt.Errorf("scanning %q: %v", trunc(text), err)
	}
	if err := diff(want, wordMatches(whole, all, 0, 0)); err != nil {
		return fmt.Errorf("%v (matches by words)\nparts %q\nwhole %+v", err, c.Parts, whole)
	}
	if k != cov {
		return fmt.Errorf("%d words covered in the whole, %d in the parts\nparts %q\nwhole %+v", k, cov, c.Parts, whole)
	}
	return nil
}

// A farCase is a license, copies of which stand far apart in a long text:
// before each (and after the last) comes a gap of so many bytes.
type farCase struct {
	Words int // of the license
	Gaps  []farGap
}

type farGap struct {
	Piece Text // repeated; words between blanks
	One   bool // repeated without blanks, as one word
	Bytes int
}

func genFar(size int) func(t *rapid.T) farCase {
	return func(t *rapid.T) farCase {
		c := farCase{Words: between(t, 2, 40)}
		n := between(t, 2, 4)
		big := intn(t, n)
		for i := 0; i < n; i++ {
			g := farGap{Bytes: between(t, 1, 3000)}
			if i == big {
				g.Bytes = size/8 + even(t, size-size/8)
			}
			switch intn(t, 6) {
			case 0, 1:
				var w []string
				for k := between(t, 1, 20); k > 0; k-- {
					w = append(w, bigFill(k))
				}
				g.Piece = Text(" " + strings.Join(w, pick(t, []string{" ", ", ", "\n", "-", "\r\n"})) + " ")
			case 2:
				g.Piece = Text(pick(t, []string{" ", "\n", "\t ", "*** ", "=-=-", "\x00", "\xff ", "\u00a0", " .", "<br>", "&nbsp;", "<p>\n"}))
			case 3:
				g.Piece, g.One = Text(bigFill(0)), true
			case 4:
				g.Piece = Text(" " + codeWord(0) + " " + bigFill(1) + pick(t, []string{" ", "\n"}))
			case 5:
				g.Piece = Text(pick(t, []string{" 1 2 3 ", " a b c\n", " x\u00e9 ", " http://foo.org/bar ", " <b>" + bigFill(2) + "</b> ", " \u65e5\u672c ", " \u00a9 " + bigFill(3) + " "}))
			}
			c.Gaps = append(c.Gaps, g)
		}
		return c
	}
}

func checkFar(c farCase, o *Obs) error {
	var w []string
	for i := 0; i < c.Words; i++ {
		w = append(w, codeWord(i))
	}
	lic := strings.Join(w, " ")
	s, err := newScanner([]ref.License{{ID: "L", Type: 4, LRE: lic}})
	if err != nil {
		return err
	}
	var b strings.Builder
	var want []ref.Match
	total, notice := 0, false
	for i, g := range c.Gaps {
		n := max(1, g.Bytes/len(g.Piece))
		p := strings.Repeat(string(g.Piece), n)
		words := ref.Split(string(g.Piece), true)
		if g.One {
			total++
		} else {
			total += n * len(words)
		}
		for _, x := range words {
			notice = notice || x.W == "copyright"
		}
		b.WriteString(p + "\n")
		// Words far enough that a notice does not reach the license.
		if notice {
			b.WriteString(strings.Repeat(bigFill(4)+" ", ref.MaxNotice) + "\n")
			total += ref.MaxNotice
			notice = false
		}
		if i+1 < len(c.Gaps) {
			at := b.Len()
			b.WriteString(lic + "\n")
			total += c.Words
			want = append(want, ref.Match{ID: "L", Type: 4, Start: at, End: b.Len()})
		}
	}
	// Without words before it, the first match begins with the text; without
	// words after it, the last one ends with it.
	text := b.String()
	if i := strings.Index(text, w[0]); len(want) > 0 && len(ref.Split(string(c.Gaps[0].Piece), true)) == 0 && i >= 0 {
		want[0].Start = 0
	}
	if k := len(want); k > 0 && len(ref.Split(string(c.Gaps[k].Piece), true)) == 0 {
		want[k-1].End = len(text)
	}
	o.LabelIf(len(text) > 1<<20, "over 1 MB")
	o.LabelIf(len(text) > 1<<22, "over 4 MB")
	o.LabelIf(len(text) > 1<<24, "over 16 MB")
	o.LabelIf(total > 1<<20, "over 1048576 words")
	o.Nontrivial()
	got := s.Scan([]byte(text))
	if gm := refMatches(got); !sameMatches(gm, want) {
		return fmt.Errorf("%d copies of %q in a text of %d bytes and %d words\ngot  %+v\nwant %+v", len(want), lic, len(text), total, gm, want)
	}
	if p := 100 * float64(len(want)*c.Words) / float64(total); !near(got.Percent, p) {
		return fmt.Errorf("%d copies of %q in a text of %d bytes and %d words: %v percent, want %v", len(want), lic, len(text), total, got.Percent, p)
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C26",
		Rule: "A license set and 2 to 4 texts (license texts, edited ones, URLs, notices, odd bytes), joined with more unrelated words in between than its wildcards and a copyright notice can span; and copies of a license far apart in texts of up to 20 MB. " +
			"Oracle: the whole's matches, as spans of words, are those of the parts one after another, and its covered words the sum of theirs. Cases in which unclosed markup of a part reaches into the fillers are left out. Non-trivial: some part has a match.",
		Subs: []Sub{
			NewSub("mixed", 20000, 500000, genParts(func(s *licSet, c scanCfg, t *rapid.T) string { return s.text(t, c, 3) }), checkParts),
			NewSub("bytes", 10000, 300000, genParts(func(s *licSet, c scanCfg, t *rapid.T) string {
				x := rawBytes(t, 10)
				if len(s.trees) > 0 && oneIn(t, 2) {
					x += " " + render(t, derive(t, pick(t, s.trees), s.filler(t)), true) + " "
				}
				return x + rawBytes(t, 10)
			}), checkParts),
			NewSub("far", 160, 2000, genFar(1<<21), checkFar),
			NewSub("very-far", 16, 80, genFar(20<<20), checkFar),
			NewSub("built-in", 400, 20000, genBuiltinParts, checkParts),
		},
	})
}
