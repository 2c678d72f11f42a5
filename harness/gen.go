package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/google/licensecheck/verifh/ref"
	"pgregory.net/rapid"
)

// Basic draws.

func intn(t *rapid.T, n int) int { return rapid.IntRange(0, n-1).Draw(t, "i") }

func between(t *rapid.T, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(t, "n") }

// oneIn is true about once in n times; it shrinks to false.
func oneIn(t *rapid.T, n int) bool {
	if n == 2 {
		return rapid.Bool().Draw(t, "b")
	}
	return intn(t, n) == n-1
}

// even draws evenly from 0..n-1, unlike intn, which prefers small numbers.
func even(t *rapid.T, n int) int {
	bits := 0
	for (n-1)>>bits != 0 {
		bits++
	}
	x := 0
	for try := 0; try < 8; try++ {
		x = 0
		for i := 0; i < bits; i++ {
			x <<= 1
			if rapid.Bool().Draw(t, "bit") {
				x |= 1
			}
		}
		if x < n {
			return x
		}
	}
	return x % n
}

func pickEven[T any](t *rapid.T, list []T) T { return list[even(t, len(list))] }

func pick[T any](t *rapid.T, list []T) T { return list[intn(t, len(list))] }

// Vocabularies.

// codeWord returns the i'th of a family of mutually unrelated words: words of
// the same length that differ in at least two letters, so that none is a
// one-byte edit, a prefix, or a run-together of others. Their letters are
// disjoint from those of filler words.
func codeWord(i int) string {
	const letters = "abdefghijklmnoprst"
	n := len(letters)
	a, b, c := letters[i%n], letters[i/n%n], letters[i/n/n%n]
	return string([]byte{a, a, b, b, c, c})
}

// fillWord returns a filler word, unrelated to every code word (other
// letters, other length) and to the words with special meaning.
func fillWord(i int) string {
	const letters = "quvwxyz"
	n := len(letters)
	return "q" + string([]byte{letters[i%n], letters[i%n], letters[i/n%n], letters[i/n%n], letters[i/n/n%n], letters[i/n/n%n], 'x'})
}

var nearWords = []string{
	"abcd", "abce", "abcde", "abc", "ab", "bcd", "abcdabce", "de", "fgh", "efgh", "defgh", "abcdefgh",
	"fghi", "fghj", "ghi", "cabcd", "c", "cd", "licence", "license", "licenses", "licensed", "copyrights",
}

// Words of other letters, some near one another or parts of one another.
var farWords = func() []string {
	l := []string{
		"ñandu", "ñando", "ñandus", "größe", "größen", "öße", "gr", "фонд", "фонды", "фон", "дфонд", "日本", "日本語", "日月", "語", "naïve", "naïv", "e\u0308ab", "eab", "straße", "über", "ober",
		"ñ", "öä", "öå", "café", "cafe", "日本語日本", "фондфонд", "c", "copyright", "ŋŋab", "abŋŋ", "１２", "٣٤", "œuvre", "æuvre",
	}
	for i, w := range l {
		l[i] = ref.Fold(w)
	}
	return l
}()

var legalWords = []string{
	"the", "software", "is", "provided", "as", "license", "permission", "to", "use", "copy", "it", "any",
	"copyright", "notice", "c", "http", "redistribution", "and", "modify", "words", "above", "2020", "all", "rights", "reserved",
}

// A Vocab is what words of patterns and texts are drawn from.
type Vocab struct {
	Words []string
	Fill  []string // words not in patterns
}

func genVocab(t *rapid.T) *Vocab {
	v := &Vocab{}
	for i := 0; i < 5; i++ {
		v.Fill = append(v.Fill, fillWord(i))
	}
	switch intn(t, 7) {
	case 6:
		for i := between(t, 3, 10); i > 0; i-- {
			v.Words = append(v.Words, pick(t, farWords))
		}
	case 0: // tiny
		n := between(t, 2, 4)
		for i := 0; i < n; i++ {
			v.Words = append(v.Words, codeWord(i))
		}
	case 1:
		for i := 0; i < 12; i++ {
			v.Words = append(v.Words, codeWord(i*7))
		}
	case 2:
		v.Words = nearWords
	case 3:
		v.Words = legalWords
	case 4: // a few related words
		n := between(t, 3, 6)
		for i := 0; i < n; i++ {
			v.Words = append(v.Words, pick(t, nearWords))
		}
	case 5:
		n := between(t, 3, 6)
		for i := 0; i < n; i++ {
			v.Words = append(v.Words, pick(t, legalWords))
		}
		v.Words = append(v.Words, codeWord(0), codeWord(1))
	}
	return v
}

func (v *Vocab) word(t *rapid.T) string { return pick(t, v.Words) }

func (v *Vocab) list(t *rapid.T, lo, hi int) []string {
	n := between(t, lo, hi)
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, v.word(t))
	}
	return l
}

// Pattern trees.

type treeCfg struct {
	v       *Vocab
	depth   int
	wild    int // maximal wildcard count; 0 for none
	budget  int // words left
	noEmpty bool
	wilds   int // total wildcard count so far (large sums make large automata)
}

func lit(w ...string) *ref.Node { return &ref.Node{K: ref.Lit, W: w} }

func cat(sub ...*ref.Node) *ref.Node { return &ref.Node{K: ref.Cat, Sub: sub} }

func (c *treeCfg) lit(t *rapid.T, lo, hi int) *ref.Node {
	w := c.v.list(t, lo, hi)
	c.budget -= len(w)
	return lit(w...)
}

func (c *treeCfg) node(t *rapid.T, depth int) *ref.Node {
	if depth <= 0 || c.budget <= 0 {
		return c.lit(t, 1, 2)
	}
	switch intn(t, 9) {
	case 0, 1, 2:
		return c.lit(t, 1, 4)
	case 3, 4:
		n := between(t, 2, 4)
		m := cat()
		for i := 0; i < n; i++ {
			m.Sub = append(m.Sub, c.node(t, depth-1))
		}
		return m
	case 5:
		n := between(t, 2, 3)
		m := &ref.Node{K: ref.Alt}
		for i := 0; i < n; i++ {
			m.Sub = append(m.Sub, c.node(t, depth-1))
		}
		return m
	case 6, 7:
		if c.wild > 0 {
			n := between(t, 0, c.wild)
			if c.wilds+n > 20 {
				n = 0
			}
			c.wilds += n
			return &ref.Node{K: ref.Wild, N: n}
		}
		return &ref.Node{K: ref.Opt, Sub: []*ref.Node{c.node(t, depth-1)}}
	default:
		if !c.noEmpty && oneIn(t, 12) {
			return &ref.Node{K: ref.Empty}
		}
		return &ref.Node{K: ref.Opt, Sub: []*ref.Node{c.node(t, depth-1)}}
	}
}

// tree returns a pattern NewScanner accepts: it begins with two literal words
// and does not end in a wildcard.
func (c *treeCfg) tree(t *rapid.T) *ref.Node {
	m := cat()
	switch intn(t, 6) {
	case 0:
		m.Sub = append(m.Sub, &ref.Node{K: ref.Alt, Sub: []*ref.Node{c.lit(t, 2, 3), c.lit(t, 2, 3)}})
	case 1:
		m.Sub = append(m.Sub, &ref.Node{K: ref.Opt, Sub: []*ref.Node{c.lit(t, 1, 3)}}, c.lit(t, 2, 3))
	default:
		m.Sub = append(m.Sub, c.lit(t, 2, 3))
	}
	n := intn(t, 5)
	for i := 0; i < n; i++ {
		m.Sub = append(m.Sub, c.node(t, c.depth))
	}
	if m.EndsWild() || oneIn(t, 4) {
		m.Sub = append(m.Sub, c.lit(t, 1, 4))
	}
	tidy(m)
	return m
}

// tidy drops literal copyright words that directly follow another within one
// literal: pattern text is split like any text, which drops them too.
func tidy(n *ref.Node) {
	n.Walk(func(n *ref.Node) {
		if n.K != ref.Lit {
			return
		}
		var w []string
		for _, x := range n.W {
			if x == "copyright" && len(w) > 0 && w[len(w)-1] == x {
				continue
			}
			w = append(w, x)
		}
		n.W = w
	})
}

// A layout is how to print a pattern or text.
type layout struct {
	fancy bool // vary spelling, punctuation, spacing
}

// surface spells the canonical word w in some way.
func surface(t *rapid.T, w string, fancy, synonyms bool) string {
	if !fancy || !oneIn(t, 4) {
		return w
	}
	if synonyms {
		var l []string
		switch w {
		case "the":
			l = []string{"this", "these", "those", "The"}
		case "it":
			l = []string{"they", "them", "It"}
		case "is":
			l = []string{"are", "Are"}
		case "http":
			l = []string{"https", "HTTPS"}
		case "copy":
			l = []string{"copies", "Copies"}
		case "copyright":
			l = []string{"©", "(c)", "(C)", "&copy;", "Copyright", "COPYRIGHT"}
		}
		if l != nil {
			return pick(t, l)
		}
	}
	switch intn(t, 4) {
	case 0:
		return strings.ToUpper(w)
	case 1:
		_, n := utf8.DecodeRuneInString(w)
		return strings.ToUpper(w[:n]) + w[n:]
	case 2:
		if i := strings.IndexAny(w, "aeiou"); i >= 0 {
			j := strings.IndexByte("aeiou", w[i])
			return w[:i] + []string{"á", "È", "ì", "Ó", "u\u0301"}[j] + w[i+1:]
		}
		return strings.ToUpper(w)
	default:
		if strings.HasSuffix(w, "s") && len(w) > 3 && w != "this" {
			return w[:len(w)-1] + "(s)"
		}
		if i := strings.IndexByte(w, 'k'); i >= 0 {
			return w[:i] + "\u212a" + w[i+1:]
		}
		if i := strings.IndexByte(w, 's'); i >= 0 {
			return w[:i] + "ſ" + w[i+1:]
		}
		return strings.ToUpper(w)
	}
}

var plainSeps = []string{" ", "\n"}

var fancySeps = []string{
	" ", "  ", "\t", "\n", "\r\n", "\n\n", ", ", ". ", "; ", " - ", "--", "/", "\n * ", "\n// ", "\" ", " '", "\n\n\n",
	" <b> ", "<br/>", " </p>\n<p class=\"x y\">", "&nbsp;", " &lt;", "&#39;", "&#xA0;", " {#anchor} ", " [", "](#sec) ", "](http://foo.com/bar)",
	" (", ") ", ": ", " * ", "\u00a0", "\u2014", "\u201c", "\xff", "\xc3 ", " & ", " < ", " > ", "…", "\x00", "🎉", "@", "_", "+", "! ", " (s) "[:1] + "= ",
}

// sep returns text between two words.
func sep(t *rapid.T, fancy bool) string {
	if !fancy || !oneIn(t, 3) {
		if oneIn(t, 6) {
			return "\n"
		}
		return " "
	}
	s := pick(t, fancySeps)
	if oneIn(t, 5) {
		s += pick(t, fancySeps)
	}
	return s
}

// render writes words as text.
func render(t *rapid.T, words []string, fancy bool) string {
	var b strings.Builder
	for i, w := range words {
		if i > 0 {
			b.WriteString(sep(t, fancy))
		}
		b.WriteString(surface(t, w, fancy, true))
	}
	return b.String()
}

// printLRE writes the pattern as LRE source in some layout.
func printLRE(t *rapid.T, n *ref.Node, fancy bool) string {
	var b strings.Builder
	nl := func() {
		s := "\n"
		if fancy && oneIn(t, 5) {
			s = pick(t, []string{"\n\n", "  \n", "\r\n", "\t\n", "\n//** note (( **//\n", "\n//****//\n", "\n\n\n"})
		}
		if fancy && oneIn(t, 4) {
			s += pick(t, []string{" ", "\t", "    "})
		}
		b.WriteString(s)
	}
	words := func(ws []string) {
		for i, w := range ws {
			if i > 0 {
				switch {
				case fancy && oneIn(t, 6):
					b.WriteString(pick(t, []string{", ", ". ", "\n", "\n\n", " ( ", " ) ", " | ", " ? ", " / ", " _ ", "\t", " -- ", "<b>", "&nbsp;", " _1_ ", "; "}[:14]))
				case fancy && oneIn(t, 20) && w != "copyright":
					b.WriteString(" //** x __5__ || y **// ")
				default:
					b.WriteString(" ")
				}
			}
			b.WriteString(surface(t, w, fancy, true))
		}
	}
	var pr func(n *ref.Node, group bool)
	group := func(n *ref.Node, tail string) {
		// (( begins a line, )) ends one.
		nl()
		b.WriteString("((")
		if fancy && oneIn(t, 3) {
			nl()
		}
		pr(n, true)
		if fancy && oneIn(t, 3) {
			nl()
		} else if strings.HasSuffix(b.String(), ")") {
			b.WriteString(" ")
		}
		b.WriteString("))")
		if tail != "" && fancy && oneIn(t, 4) {
			b.WriteString(" ")
		}
		b.WriteString(tail)
		nl()
	}
	pr = func(n *ref.Node, grouped bool) {
		switch n.K {
		case ref.Empty:
		case ref.Lit:
			words(n.W)
		case ref.Wild:
			fmt.Fprintf(&b, "__%s%d__", pick(t, []string{"", "", "", "0"}), n.N)
		case ref.Cat:
			for i, s := range n.Sub {
				if i > 0 {
					b.WriteString(" ")
				}
				pr(s, false)
			}
		case ref.Alt:
			if !grouped {
				group(n, "")
				return
			}
			for i, s := range n.Sub {
				if i > 0 {
					b.WriteString(" ")
					if fancy && oneIn(t, 3) {
						nl()
					}
					b.WriteString("||")
					if fancy && oneIn(t, 3) {
						nl()
					} else {
						b.WriteString(" ")
					}
				}
				if s.K == ref.Alt {
					pr(s, false)
				} else {
					pr(s, true)
				}
			}
		case ref.Opt:
			group(n.Sub[0], "??")
		}
	}
	pr(n, false)
	return b.String()
}

// derive returns a text n describes. fill gives the i'th word of a wildcard.
func derive(t *rapid.T, n *ref.Node, fill func() string) []string {
	var out []string
	switch n.K {
	case ref.Lit:
		out = append(out, n.W...)
	case ref.Wild:
		k := n.N
		switch intn(t, 4) {
		case 0:
			k = 0
		case 1:
			k = max(0, k-1)
		case 2:
			k = between(t, 0, k)
		}
		for i := 0; i < k; i++ {
			out = append(out, fill())
		}
	case ref.Cat:
		for _, s := range n.Sub {
			out = append(out, derive(t, s, fill)...)
		}
	case ref.Alt:
		out = derive(t, pick(t, n.Sub), fill)
	case ref.Opt:
		if oneIn(t, 2) {
			out = derive(t, n.Sub[0], fill)
		}
	}
	return out
}

// mangle changes a word by one byte or more.
func mangle(t *rapid.T, w string) string {
	b := []byte(w)
	i := intn(t, len(b))
	c := "abcdexz19"[intn(t, 9)]
	switch intn(t, 4) {
	case 0:
		b[i] = c
	case 1:
		b = append(b[:i], b[i+1:]...)
	case 2:
		b = append(b[:i], append([]byte{c}, b[i:]...)...)
	case 3:
		b = append(b, c)
	}
	return string(b)
}

// edit changes a list of words in one place.
func edit(t *rapid.T, words []string, v *Vocab) []string {
	if len(words) == 0 {
		return words
	}
	i := intn(t, len(words))
	var out []string
	out = append(out, words[:i]...)
	rest := words[i+1:]
	switch intn(t, 10) {
	case 0: // drop
	case 1: // repeat
		out = append(out, words[i], words[i])
	case 2, 3: // misspell
		out = append(out, mangle(t, words[i]))
	case 4: // replace
		out = append(out, v.word(t))
	case 5: // insert
		out = append(out, words[i], pick(t, append(v.Words, v.Fill...)))
	case 6: // split
		w := words[i]
		if len(w) > 1 {
			j := between(t, 1, len(w)-1)
			out = append(out, w[:j], w[j:])
		} else {
			out = append(out, w)
		}
	case 7: // join
		if len(rest) > 0 {
			out = append(out, words[i]+rest[0])
			rest = rest[1:]
		} else {
			out = append(out, words[i])
		}
	case 8: // swap
		if len(rest) > 0 {
			out = append(out, rest[0], words[i])
			rest = rest[1:]
		} else {
			out = append(out, words[i])
		}
	case 9: // cut off
		if oneIn(t, 2) {
			return out
		}
		return append(out[:0:0], words[i:]...)
	}
	out = append(out, rest...)
	var keep []string
	for _, w := range out {
		if w != "" {
			keep = append(keep, w)
		}
	}
	return keep
}

// URLs.

var urlPool = []string{
	"foo.org/a", "foo.org/a/b", "foo.org/a/b/c", "www.foo.com/licenses/x", "www.foo.com/licenses/x-1.0", "foo.com/l#x=1", "bar-baz.org/lic/by/3.0",
	"a_b.sub.foo.com/z", "foo.org/legal?id=3", "x.org/t.html", "foo.org/legalcode", "opensource.org/licenses/mit", "a.com.org/q",
}

// genURL returns the spelling of a URL: often that of one of known.
func genURL(t *rapid.T, known []string) string {
	u := pick(t, urlPool)
	if len(known) > 0 && !oneIn(t, 4) {
		u = pickEven(t, known)
	}
	scheme := pick(t, []string{"http://", "https://", "http://", "https://", "HTTP://", "Https://", "ftp://", "http:/", "http:// ", ""}[:map[bool]int{true: 10, false: 6}[oneIn(t, 4)]])
	switch intn(t, 12) {
	case 0:
		u += "/"
	case 1:
		u += "/legalcode"
	case 2:
		u += "/legalcode/"
	case 3:
		u += "/us"
	case 4:
		u += "/us/"
	case 5:
		u += pick(t, []string{"/us/de", "x", ".", "//", "/legalcode/us", "/us/legalcode", "?", "#", ",", ")", "-", "/é", "é", "/legalcodes", "/LegalCode"})
	case 6:
		u = strings.ToUpper(u)
	case 7:
		i := intn(t, len(u))
		u = u[:i] + strings.ToUpper(u[i:i+1]) + u[i+1:]
	case 8:
		if i := strings.LastIndexByte(u, '/'); i > 0 {
			u = u[:i]
		}
	case 9:
		i := intn(t, len(u))
		u = u[:i] + pick(t, []string{"", "x", ".", "/", " ", "%", "\n", ":"}) + u[i+1:]
	}
	return scheme + u
}

// Scenarios: a license set and a text made of many kinds of segments.

// A Scan is a scanner and a text.
type Scan struct {
	Lics []ref.License
	Text Text
}

type scanCfg struct {
	maxLics int
	wild    int
	depth   int
	fancy   bool
	urls    bool
	raw     bool // random bytes too
	plain   bool // no copyright words
	big     bool // distances up to the copyright limit
}

// A License set under construction.
type licSet struct {
	v     *Vocab
	lics  []ref.License
	trees []*ref.Node
	known []string
	idx   []int // index of tree in lics
}

func genLics(t *rapid.T, c scanCfg) *licSet { return genLicsFrom(t, c, genVocab(t)) }

func genLicsFrom(t *rapid.T, c scanCfg, v *Vocab) *licSet {
	s := &licSet{v: v, lics: []ref.License{}}
	n := between(t, 1, c.maxLics)
	if oneIn(t, 24) {
		n = 0
	}
	for i := 0; i < n; i++ {
		tc := &treeCfg{v: s.v, depth: c.depth, wild: c.wild, budget: 20}
		var tr *ref.Node
		if i > 0 && oneIn(t, 3) { // related to an earlier one
			old := pick(t, s.trees)
			w := derive(t, old, func() string { return s.v.word(t) })
			switch intn(t, 4) {
			case 0:
				w = w[:between(t, min(2, len(w)), len(w))]
			case 1:
				w = append(w, s.v.list(t, 1, 3)...)
			case 2:
				w = edit(t, w, s.v)
			}
			if len(w) < 2 {
				w = s.v.list(t, 2, 3)
			}
			tr = lit(w...)
			if oneIn(t, 3) {
				k := between(t, 2, len(w))
				tr = cat(lit(w[:k]...), &ref.Node{K: ref.Opt, Sub: []*ref.Node{lit(append(w[k:], s.v.word(t))...)}})
			}
			tidy(tr)
			if !tr.Anchored() {
				tr = tc.tree(t)
			}
		} else {
			tr = tc.tree(t)
		}
		if !tr.Anchored() { // copyright words dropped by tidy
			tr = cat(lit(codeWord(900), codeWord(901)), tr)
		}
		l := ref.License{ID: fmt.Sprintf("L%d", i), Type: uint(1+intn(t, 5)) << 1, LRE: printLRE(t, tr, c.fancy && oneIn(t, 3))}
		// Copyright words of adjacent literals fall together in print.
		if n, err := ref.Parse(l.LRE); err == nil && n.Anchored() {
			tr = n
		} else {
			tr = lit(codeWord(900), codeWord(901))
			l.LRE = codeWord(900) + " " + codeWord(901)
		}
		if oneIn(t, 10) {
			l.ID = "L0"
		}
		if c.urls && oneIn(t, 4) {
			l.URL = pick(t, urlPool)
			s.known = append(s.known, l.URL)
		}
		s.lics = append(s.lics, l)
		s.trees = append(s.trees, tr)
		s.idx = append(s.idx, len(s.lics)-1)
		if c.urls && oneIn(t, 3) {
			u := pick(t, urlPool)
			s.known = append(s.known, u)
			s.lics = append(s.lics, ref.License{ID: fmt.Sprintf("U%d", i), Type: uint(64 + i), URL: u})
		}
	}
	return s
}

// fillers for wildcards in scenarios: filler words, sometimes pattern words.
func (s *licSet) filler(t *rapid.T) func() string {
	if oneIn(t, 3) {
		return func() string { return pick(t, append(append([]string(nil), s.v.Fill...), s.v.Words...)) }
	}
	return func() string { return pick(t, s.v.Fill) }
}

var bytePieces = []string{
	"(c)", "(C)", "©", "&copy;", "(c", "c)", "(c\u0301)", "c\u0300", "(\u0301c)", "©\u0301", "(c)(c)", "©©", "copyright", "Copyright", "c", "(s)", "word(s)", "(s)(s)", "s",
	"<", ">", "<b>", "</b>", "<a href=\"x\">", "<foo@bar.com>", "<http://x.org/y>", "<a\nb\nc\nd>", "<1>", "<b", "&", ";", "&amp;", "&#12;", "&#x1f;", "&#;", "&a b;",
	"{", "{#x}", "{#x y}", "{#", "}", "[", "](", "](http://a.org/b)", "](#x)", "](mailto:x)", "](file:x y)", "](foo)", ")", "(",
	"http", "https", "http://", "https://foo.org/a", "://", "HTTP", "httpſ",
	"this", "these", "those", "are", "they", "them", "copies", "the", "it", "is", "copy",
	"é", "É", "e\u0301", "\u0301", "\u0300", "ſ", "K", "Ω", "ǅ", "ß", "İ", "ı", "日本", "๐", "٣", "\u0b3e", "\u20dd",
	"\xff", "\xc3", "\xe2\x82", "\xf0\x9f", "\x00", "\ufffd", "\ufeff", "\u2028",
	" ", "\n", "\r\n", "\t", ".", ",", "-", "_", "/", "\"", "'", "a", "Z", "0", "42", "1.0",
}

// rawBytes returns a string of odd pieces.
func rawBytes(t *rapid.T, maxPieces int) string {
	n := between(t, 0, maxPieces)
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch {
		case oneIn(t, 12):
			b.WriteByte(byte(intn(t, 256)))
		case oneIn(t, 12):
			b.WriteRune(rune(intn(t, 0x3000)))
		case oneIn(t, 5): // parts of markup
			for k := between(t, 1, 6); k > 0; k-- {
				b.WriteByte("<>/&#;x{}[]()cs a\n:@!_h0"[intn(t, 24)])
			}
		default:
			b.WriteString(pick(t, bytePieces))
		}
	}
	s := b.String()
	if oneIn(t, 4) { // the end is missing
		s = s[:max(0, len(s)-between(t, 1, 8))]
	}
	return s
}

// text builds a text around the licenses.
func (s *licSet) text(t *rapid.T, c scanCfg, maxSegs int) string {
	n := between(t, 1, maxSegs)
	var b strings.Builder
	fancy := c.fancy && oneIn(t, 2)
	for i := 0; i < n; i++ {
		if i > 0 || oneIn(t, 6) {
			b.WriteString(sep(t, c.fancy))
		}
		kind := intn(t, 12)
		if c.plain && kind == 7 {
			kind = 6
		}
		if len(s.trees) == 0 && kind < 6 {
			kind += 6
		}
		switch kind {
		case 0, 1, 2: // a license text
			b.WriteString(render(t, derive(t, pick(t, s.trees), s.filler(t)), fancy))
		case 3, 4, 5: // an edited license text
			w := derive(t, pick(t, s.trees), s.filler(t))
			k := between(t, 1, 3)
			for j := 0; j < k; j++ {
				w = edit(t, w, s.v)
			}
			b.WriteString(render(t, w, fancy))
		case 6: // filler
			k := between(t, 1, 4)
			if c.big && oneIn(t, 2) {
				k = between(t, 44, 53)
			}
			for j := 0; j < k; j++ {
				if j > 0 {
					b.WriteString(sep(t, fancy))
				}
				b.WriteString(s.v.Fill[(i+j)%len(s.v.Fill)])
			}
		case 7: // copyright line
			b.WriteString(pick(t, []string{"Copyright", "(c)", "©", "copyright (c)", "Copyright © 2020", "&copy;", "c", "(C)(c)", "COPYRIGHT\n(c)"}))
			for j := intn(t, 3); j > 0; j-- {
				b.WriteString(sep(t, fancy) + pick(t, s.v.Fill))
			}
		case 8, 9: // URL
			if c.urls {
				b.WriteString(genURL(t, s.known))
			} else {
				b.WriteString(pick(t, s.v.Fill))
			}
		case 10:
			if c.raw {
				b.WriteString(rawBytes(t, 6))
			}
		case 11:
			b.WriteString(render(t, s.v.list(t, 1, 4), fancy))
		}
	}
	if oneIn(t, 3) {
		b.WriteString(sep(t, c.fancy))
	}
	return b.String()
}

func genScan(t *rapid.T, c scanCfg, maxSegs int) Scan {
	s := genLics(t, c)
	return Scan{Lics: s.lics, Text: Text(s.text(t, c, maxSegs))}
}

func recaseASCII(t *rapid.T, w string) string {
	switch intn(t, 4) {
	case 0:
		return strings.ToUpper(w)
	case 1:
		return strings.ToUpper(w[:1]) + w[1:]
	}
	return w
}
