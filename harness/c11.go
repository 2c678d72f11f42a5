//go:build im

package main

import (
	"errors"
	"fmt"
	"strings"

	lc "github.com/google/licensecheck"
	"github.com/google/licensecheck/internal/match"
	"github.com/google/licensecheck/verifh/ref"
	"pgregory.net/rapid"
)

func checkSource(c source, o *Obs) error {
	src := string(c.Src)
	re, err := match.ParseLRE(new(match.Dict), c.File, src)
	if (re == nil) == (err == nil) {
		return fmt.Errorf("ParseLRE(%q) returns %v, %v", src, re, err)
	}
	n, rerr := ref.Parse(src)
	o.LabelIf(rerr == nil, "valid")
	o.LabelIf(rerr != nil, "invalid")
	if strings.ContainsAny(src, "(_|?") {
		o.Nontrivial()
	}
	if rerr == nil && n.EndsWild() {
		// The pattern can end in a wildcard, which is not checked everywhere.
		o.Label("may end in a wildcard: not judged")
	} else if (err == nil) != (rerr == nil) {
		return fmt.Errorf("ParseLRE(%q) error: %v; by the documented rules: %v", src, err, rerr)
	}
	var se *match.SyntaxError
	if errors.As(err, &se) {
		o.Label("syntax error")
		if se.File != c.File || se.Offset < 0 || se.Offset > len(src) {
			return fmt.Errorf("ParseLRE(%q, %q): %+v is not inside the source", c.File, src, se)
		}
		if se.Err == "" {
			return fmt.Errorf("ParseLRE(%q): empty error", src)
		}
		for _, part := range []string{fmt.Sprint(se.Offset), se.Context, se.Err} {
			if !strings.Contains(se.Error(), part) {
				return fmt.Errorf("ParseLRE(%q): message %q does not mention %q", src, se.Error(), part)
			}
		}
		before, after := src[:se.Offset], src[se.Offset:]
		if !strings.HasSuffix(before, se.Context) || (se.Context == "") != (before == "") {
			return fmt.Errorf("ParseLRE(%q): error at %d near %q, which is not what precedes it", src, se.Offset, se.Context)
		}
		operator := after == ""
		for _, op := range []string{"((", "||", "))", "??", "__", "//**"} {
			operator = operator || strings.HasPrefix(after, op)
		}
		if !operator {
			return fmt.Errorf("ParseLRE(%q): error at %d, where there is no operator", src, se.Offset)
		}
		// What precedes the error is all right, but for groups left open.
		ok := false
		for k := strings.Count(before, "(("); k >= 0 && !ok; k-- {
			_, err := match.ParseLRE(new(match.Dict), "", before+strings.Repeat("\n))", k))
			ok = !errors.As(err, new(*match.SyntaxError))
		}
		if !ok {
			return fmt.Errorf("ParseLRE(%q): error at %d, but there is one before", src, se.Offset)
		}
	}
	if err != nil {
		if c.File != "" && !strings.Contains(err.Error(), c.File) {
			return fmt.Errorf("ParseLRE(%q, %q): error %q does not name the file", c.File, src, err)
		}
	} else if re.File() != c.File {
		return fmt.Errorf("File() = %q, want %q", re.File(), c.File)
	}
	return nil
}

// A meaning case is a pattern tree, a layout of it, and some word lists.
type meaning struct {
	Tree  *ref.Node
	LRE   string
	Words [][]string
}

func genMeaning(t *rapid.T) meaning {
	v := &Vocab{Fill: []string{fillWord(0)}}
	for i := between(t, 2, 5); i > 0; i-- {
		v.Words = append(v.Words, codeWord(i))
	}
	if oneIn(t, 4) {
		v.Words = append(v.Words, "the", "is", "it", "http", "copy")
	}
	tc := &treeCfg{v: v, depth: 4, wild: 3, budget: 14}
	var c meaning
	c.Tree = tc.tree(t)
	if oneIn(t, 3) { // deep nesting
		for i := between(t, 1, 4); i > 0; i-- {
			if oneIn(t, 2) {
				c.Tree = cat(c.Tree, &ref.Node{K: ref.Opt, Sub: []*ref.Node{tc.lit(t, 1, 2)}})
			} else {
				c.Tree = &ref.Node{K: ref.Alt, Sub: []*ref.Node{c.Tree, cat(tc.lit(t, 2, 3), &ref.Node{K: ref.Empty})}}
			}
		}
	}
	c.LRE = printLRE(t, c.Tree, !oneIn(t, 4))
	for i := 0; i < 6; i++ {
		w := derive(t, c.Tree, func() string { return pick(t, append(v.Words, v.Fill...)) })
		if i >= 2 {
			w = edit(t, w, v)
		}
		if i == 5 {
			w = v.list(t, 2, 6)
		}
		c.Words = append(c.Words, w)
	}
	return c
}

// meaningWords are unrelated words: none is a correction of others.
var meaningWords = map[string]bool{
	"the": true, "is": true, "it": true, "http": true, "copy": true, fillWord(0): true,
	codeWord(1): true, codeWord(2): true, codeWord(3): true, codeWord(4): true, codeWord(5): true,
}

func checkMeaning(c meaning, o *Obs) error {
	s, err := newScanner([]ref.License{{ID: "L", LRE: c.LRE}})
	if err != nil {
		return err
	}
	for _, w := range c.Words {
		// Words edited by a byte or two could be corrected; leave those out.
		known := true
		for _, x := range w {
			known = known && meaningWords[x]
		}
		if !known || len(w) == 0 {
			continue
		}
		want := longest(c.Tree, w, 0) == len(w)
		got := s.Scan([]byte(strings.Join(w, " ")))
		full := len(got.Match) == 1 && got.Percent == 100
		o.LabelIf(want, "described")
		o.LabelIf(!want, "not described")
		if want {
			o.Nontrivial()
		}
		// Two adjacent matches would also cover everything, but only as two.
		if want != full {
			return fmt.Errorf("LRE %q scanning %q: got %+v; the pattern describes it: %v", c.LRE, w, got, want)
		}
	}
	return nil
}

// genAccepted makes a source that is accepted, though it may look as if it
// should not be, and a text that it may describe.
func genAccepted(t *rapid.T) Scan {
	var src string
	if oneIn(t, 3) {
		src = string(genSoup(t).Src)
	} else {
		src = string(genMutatedLRE(t).Src)
	}
	for k := intn(t, 3); k > 0; k-- { // what is nearly an operator
		i := intn(t, len(src)+1)
		src = src[:i] + pick(t, []string{"__5_", "_5__", "__5", " 5__ ", "__x__", "___", "/**", "//*", "**//", "//", "(", ")", "|", "?", "[", "//** (( **//", "//** __2__ **//", "__1_ _"}) + src[i:]
	}
	src = tame(pick(t, []string{"gamma delta omega\n", "gamma\ndelta ", "gamma delta "})+src, 6)
	n, err := ref.Parse(src)
	for k := 0; err != nil && k < 20; k++ {
		// Repair it bluntly: leave some of it out, or close what is open.
		i := between(t, 12, len(src)+1)
		src = src[:min(i, len(src))]
		if oneIn(t, 2) {
			src += "\n))"
		}
		n, err = ref.Parse(src)
	}
	if err != nil {
		src = "gamma delta"
		n, _ = ref.Parse(src)
	}
	c := Scan{Lics: []ref.License{{ID: "L", LRE: src}}}
	w := derive(t, n, func() string { return pick(t, []string{"qqqqq", "a", "the"}) })
	if oneIn(t, 3) {
		w = edit(t, w, &Vocab{Words: []string{"a", "the", "word", "5"}, Fill: []string{"qqqqq"}})
	}
	c.Text = Text(layoutWords(t, w))
	return c
}

func checkAccepted(c Scan, o *Obs) error {
	n, _ := ref.Parse(c.Lics[0].LRE)
	if n.EndsWild() {
		o.Label("may end in a wildcard: not judged")
		return nil
	}
	return checkModel(c, o)
}

// A deepLRE is groups within groups: each Kinds[i] 0 is a group, 1 an option, 2
// the last of two alternatives, 3 the first. A text describes them, up to
// level Stop if what is there can be left out or replaced. A comment of so many
// words stands at level At. If Broken, the last )) is missing.
type deepLRE struct {
	Kinds             []int
	After             int // every so many levels, a word follows what is inside
	Stop, At, Comment int
	Broken            bool
}

func genDeepLRE(t *rapid.T) deepLRE {
	c := deepLRE{After: between(t, 1, 5), Broken: oneIn(t, 6)}
	n := between(t, 1, pick(t, []int{10, 60, 400}))
	for i := 0; i < n; i++ {
		c.Kinds = append(c.Kinds, intn(t, 4))
	}
	c.Stop, c.At = even(t, n+1), even(t, n)
	if oneIn(t, 3) {
		c.Comment = between(t, 1, pick(t, []int{20, 1000, 40000}))
	}
	return c
}

func checkDeepLRE(c deepLRE, o *Obs) error {
	var l, x, end, xend strings.Builder
	l.WriteString("begin here now\n")
	x.WriteString("begin here now ")
	live := true
	var ends, xends []string
	for i, k := range c.Kinds {
		if i == c.At && c.Comment > 0 {
			l.WriteString("//** " + strings.Repeat("note (( ", c.Comment) + "**//\n")
		}
		if i == c.Stop && k > 0 {
			live = false
			if k >= 2 {
				fmt.Fprintf(&x, "other%d alike%d ", i, i)
			}
		}
		switch k {
		case 2:
			fmt.Fprintf(&l, "((other%d alike%d ||\n", i, i)
		default:
			l.WriteString("((\n")
		}
		fmt.Fprintf(&l, "first%d second%d\n", i, i)
		if live {
			fmt.Fprintf(&x, "first%d second%d ", i, i)
		}
		e, xe := "", ""
		if i%c.After == 0 {
			e = fmt.Sprintf("third%d fourth%d\n", i, i)
			if live {
				xe = e
			}
		}
		switch k {
		case 3:
			e += fmt.Sprintf("|| other%d alike%d\n))\n", i, i)
		case 1:
			e += "))??\n"
		default:
			e += "))\n"
		}
		ends, xends = append(ends, e), append(xends, xe)
	}
	for i := len(ends) - 1; i >= 0; i-- {
		end.WriteString(ends[i])
		xend.WriteString(xends[i])
	}
	e := end.String()
	if c.Broken {
		i := strings.LastIndex(e, "))")
		e = e[:i] + strings.TrimPrefix(e[i+2:], "??")
	}
	lre := l.String() + e + "at last\n"
	text := x.String() + xend.String() + "at last\n"
	o.Nontrivial()
	o.LabelIf(len(c.Kinds) > 64, "over 64 levels")
	o.LabelIf(c.Comment*8 > 65536, "comment of over 65536 bytes")
	o.LabelIf(c.Broken, "unbalanced")
	s, err := lc.NewScanner([]lc.License{{ID: "L", LRE: lre}})
	if c.Broken {
		if err == nil {
			return fmt.Errorf("accepted: %s", trunc(lre))
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("%v for %s", err, trunc(lre))
	}
	if cov := s.Scan([]byte(text)); len(cov.Match) != 1 || !near(cov.Percent, 100) {
		return fmt.Errorf("%s\ndoes not match all of %s\ngot %+v", trunc(lre), trunc(text), cov)
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C11",
		Rule: "LRE source: soups of operators, wildcards, comments, line ends and words; printed random patterns with source mutations at and between operators; and random patterns printed in many " +
			"layouts. Oracle: accepted exactly if an independent parser of the documented grammar accepts (patterns that may end in a wildcard without being refused are not judged); syntax errors carry the " +
			"file and an offset in the source; a laid-out pattern matches exactly the word lists its tree describes; groups of all kinds nested up to 400 deep, with long comments, are accepted and mean what they say. Non-trivial: the source has an operator; a described list.",
		Subs: []Sub{
			NewSub("soup", 100000, 3000000, genSoup, checkSource),
			NewSub("mutated", 60000, 1500000, genMutatedLRE, checkSource),
			NewSub("meaning", 40000, 1000000, genMeaning, checkMeaning),
			NewSub("accepted", 30000, 800000, genAccepted, checkAccepted),
			NewSub("deep", 3000, 40000, genDeepLRE, checkDeepLRE),
		},
	})
}
