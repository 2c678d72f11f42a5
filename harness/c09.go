package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/google/licensecheck/verifh/ref"
	"pgregory.net/rapid"
)

// A litScan is a list of literal patterns (no groups, no wildcards) and a text.
type litScan struct {
	Pats [][]string
	Text Text
}

func (c litScan) lics() []ref.License {
	var l []ref.License
	for i, p := range c.Pats {
		l = append(l, ref.License{ID: fmt.Sprint("L", i), LRE: strings.Join(p, " ")})
	}
	return l
}

var closeWords = []string{
	"abcd", "abce", "abcde", "bcde", "abc", "abd", "ab", "cd", "a", "b", "abcdabce", "abcdef", "ef", "gh", "efgh", "abcdefgh", "c", "copyright", "copyrights", "copyleft",
	"license", "licence", "licenses", "sub", "sublicense", "is", "the", "it", "http", "naïve", "ßtraße", "日本語", "日本", "語",
}

func genLit(t *rapid.T) litScan {
	var c litScan
	words := closeWords
	if oneIn(t, 2) {
		words = nil
		for i := between(t, 3, 6); i > 0; i-- {
			words = append(words, pick(t, closeWords))
		}
	}
	if oneIn(t, 12) { // long words
		pad := strings.Repeat(pick(t, []string{"xy", "ab", "é", "abcde"}), between(t, 2, 40))
		end := oneIn(t, 2)
		var long []string
		for _, w := range words {
			if end {
				long = append(long, w+pad)
			} else {
				long = append(long, pad+w)
			}
		}
		words = long
	}
	n := 1
	if oneIn(t, 3) {
		n = 2
	}
	v := &Vocab{Words: words, Fill: []string{fillWord(0), fillWord(1)}}
	for i := 0; i < n; i++ {
		var p []string
		for k := between(t, 2, 7); k > 0; k-- {
			w := ref.Fold(pick(t, words))
			if w == "copyright" && len(p) > 0 && p[len(p)-1] == w {
				w = "abcd"
			}
			p = append(p, w)
		}
		if i == 1 && oneIn(t, 2) { // sharing the start with the first
			k := between(t, 2, len(c.Pats[0]))
			p = append(append([]string(nil), c.Pats[0][:k]...), p...)
			for j := 1; j < len(p); j++ {
				if p[j] == "copyright" && p[j-1] == "copyright" {
					p[j] = "abce"
				}
			}
		}
		c.Pats = append(c.Pats, p)
	}
	var text []string
	for k := between(t, 1, 2); k > 0; k-- {
		w := append([]string(nil), pick(t, c.Pats)...)
		for e := intn(t, 4); e > 0 && len(w) > 0; e-- {
			i := intn(t, len(w))
			if oneIn(t, 3) {
				w = edit(t, w, v)
				continue
			}
			switch intn(t, 6) {
			case 0, 1:
				w[i] = mangle(t, w[i])
			case 2:
				w[i] = mangle(t, mangle(t, w[i]+"z"))
			case 3: // join
				if i+1 < len(w) {
					w = append(append(append([]string(nil), w[:i]...), w[i]+w[i+1]), w[i+2:]...)
				}
			case 4: // split
				if len(w[i]) > 1 {
					k := between(t, 1, len(w[i])-1)
					w = append(append(append([]string(nil), w[:i]...), w[i][:k], w[i][k:]), w[i+1:]...)
				}
			case 5:
				w[i] = pick(t, []string{"c", "(c)", "copyright", "©", "&copy;", "this", "they", "are", "https", "copies", "ñaïve", "n" + "\u00e1" + "ïve"})
			}
			var keep []string
			for _, x := range w {
				if x != "" {
					keep = append(keep, x)
				}
			}
			w = keep
		}
		text = append(text, w...)
		if oneIn(t, 3) {
			text = append(text, pick(t, v.Fill))
		}
	}
	c.Text = Text(render(t, text, oneIn(t, 3)))
	return c
}

// correct lists the ways in which the words from j on can be read as the
// expected word p[i] of a pattern: how many pattern and text words that takes.
// An exact word is never read otherwise.
func correct(p []string, i int, words []ref.Word, j int) (ways [][2]int) {
	w := words[j]
	if w.W == p[i] {
		return [][2]int{{1, 1}}
	}
	if j+1 < len(words) && w.Raw+words[j+1].Raw == p[i] {
		ways = append(ways, [2]int{1, 2})
	}
	if i+1 < len(p) && w.Raw == p[i]+p[i+1] {
		ways = append(ways, [2]int{2, 1})
	}
	isC := func(s string) bool { return s == "c" || s == "copyright" || s == "©" || s == "&copy;" }
	if isC(p[i]) && isC(w.Raw) || (len(p[i]) >= 4 || len(w.Raw) >= 4) && oneByteApart(p[i], w.Raw) {
		ways = append(ways, [2]int{1, 1})
	}
	return ways
}

// oneByteApart reports whether a becomes b by inserting, deleting or changing
// one byte.
func oneByteApart(a, b string) bool {
	if len(a) > len(b) {
		a, b = b, a
	}
	switch len(b) - len(a) {
	case 0:
		n := 0
		for i := range len(a) {
			if a[i] != b[i] {
				n++
			}
		}
		return n <= 1
	case 1:
		for i := range len(b) {
			if b[:i]+b[i+1:] == a {
				return true
			}
		}
	}
	return false
}

// readings returns the possible ends of pattern p begun at word j.
// Ends: -1 for none. With several patterns the words expected by any of them
// matter, so this is used for single patterns.
func readings(p []string, words []ref.Word, j int) map[int]bool {
	if j+1 >= len(words) || words[j].W != p[0] || words[j+1].W != p[1] {
		return map[int]bool{-1: true}
	}
	out := map[int]bool{}
	var rec func(i, j int)
	rec = func(i, j int) {
		if i == len(p) {
			out[j] = true
			return
		}
		if j >= len(words) {
			out[-1] = true
			return
		}
		ways := correct(p, i, words, j)
		if len(ways) == 0 {
			out[-1] = true
		}
		for _, w := range ways {
			rec(i+w[0], j+w[1])
		}
	}
	rec(2, j+2)
	return out
}

// parallel follows several literal patterns at once: the words expected by
// all that are still alive are candidates for correction.
func parallel(ps [][]string, words []ref.Word, j int) map[[2]int]bool {
	type conf struct {
		alive string // pattern indexes that are alive; all at position i
		i, j  int
		best  [2]int // license, end
	}
	out := map[[2]int]bool{}
	none := [2]int{-1, -1}
	if j+1 >= len(words) {
		return map[[2]int]bool{none: true}
	}
	start := ""
	for k, p := range ps {
		if words[j].W == p[0] && words[j+1].W == p[1] {
			start += fmt.Sprint(k)
		}
	}
	seen := map[conf]bool{}
	var rec func(c conf)
	rec = func(c conf) {
		if seen[c] {
			return
		}
		seen[c] = true
		live := c.alive
		for _, k := range live {
			if len(ps[k-'0']) == c.i { // ends here: the first listed wins
				c.best = [2]int{int(k - '0'), c.j}
				break
			}
		}
		expect := map[string]bool{}
		for _, k := range live {
			if p := ps[k-'0']; c.i < len(p) {
				expect[p[c.i]] = true
			}
		}
		if c.j >= len(words) || len(expect) == 0 {
			out[c.best] = true
			return
		}
		w := words[c.j]
		keep := func(i int, say ...string) string {
			s := ""
			for _, k := range live {
				p := ps[k-'0']
				ok := i+len(say) <= len(p)
				for n := 0; ok && n < len(say); n++ {
					ok = p[i+n] == say[n]
				}
				if ok {
					s += string(k)
				}
			}
			return s
		}
		if expect[w.W] {
			rec(conf{keep(c.i, w.W), c.i + 1, c.j + 1, c.best})
			return
		}
		n := 0
		for e := range expect {
			if c.j+1 < len(words) && w.Raw+words[c.j+1].Raw == e {
				rec(conf{keep(c.i, e), c.i + 1, c.j + 2, c.best})
				n++
			}
			if rest, ok := strings.CutPrefix(w.Raw, e); ok && rest != "" {
				if s := keep(c.i, e, rest); s != "" {
					rec(conf{s, c.i + 2, c.j + 1, c.best})
					n++
				}
			}
			for _, x := range correct([]string{e}, 0, words, c.j) {
				if x == [2]int{1, 1} {
					rec(conf{keep(c.i, e), c.i + 1, c.j + 1, c.best})
					n++
				}
			}
		}
		if n == 0 {
			out[c.best] = true
		}
	}
	if start == "" {
		return map[[2]int]bool{none: true}
	}
	rec(conf{start, 2, j + 2, none})
	return out
}

func checkLit(c litScan, o *Obs) error {
	s, err := newScanner(c.lics())
	if err != nil {
		return err
	}
	text := string(c.Text)
	words := ref.Split(text, true)
	got := s.Scan([]byte(c.Text))
	// Follow the reported matches through the text.
	type span struct{ lic, lo, hi int }
	var spans []span
	for _, m := range got.Match {
		var l int
		fmt.Sscanf(m.ID, "L%d", &l)
		lo, hi := wordSpan(words, m.Start, m.End)
		spans = append(spans, span{l, lo, hi})
	}
	fail := func(f string, a ...any) error {
		return fmt.Errorf("scanning %q for %q: got %+v (license, first word, end): %s", text, c.Pats, spans, fmt.Sprintf(f, a...))
	}
	prev := 0
	corrected, rejected, ambiguous := false, false, false
	k := 0
	for j := 0; j < len(words); {
		outs := parallel(c.Pats, words, j)
		if len(c.Pats) == 1 {
			// The single-pattern definition must agree with the general one.
			one := readings(c.Pats[0], words, j)
			if len(one) != len(outs) {
				return fmt.Errorf("harness: %q in %q at %d: %v, %v", c.Pats[0], text, j, one, outs)
			}
		}
		ambiguous = ambiguous || len(outs) > 1
		// The match reported next may begin with a copyright notice.
		reported := [2]int{-1, -1}
		if k < len(spans) {
			lo := j
			for i := max(prev, j-ref.MaxNotice); i < j; i++ {
				if words[i].W == "copyright" {
					lo = i
					break
				}
			}
			if spans[k].lo == lo {
				reported = [2]int{spans[k].lic, spans[k].hi}
			}
		}
		switch {
		case outs[reported]:
		case outs[[2]int{-1, -1}]:
			reported = [2]int{-1, -1}
		default:
			return fail("at word %d, possible (license, end) are %v", j, keys(outs))
		}
		begun := false
		for _, p := range c.Pats {
			begun = begun || j+1 < len(words) && words[j].W == p[0] && words[j+1].W == p[1]
		}
		if reported[0] < 0 {
			rejected = rejected || begun
			j++
			continue
		}
		k++
		// Was any correction needed?
		p := c.Pats[reported[0]]
		exact := reported[1]-j == len(p)
		for i := 0; exact && i < len(p); i++ {
			exact = words[j+i].W == p[i]
		}
		corrected = corrected || !exact
		j = reported[1]
		prev = j
	}
	if k != len(spans) {
		return fail("match %d is not possible", k)
	}
	o.LabelIf(corrected, "corrected")
	o.LabelIf(rejected, "begun but not matched")
	o.LabelIf(ambiguous, "several corrections apply")
	if corrected || rejected {
		o.Nontrivial()
	}
	return nil
}

func keys(m map[[2]int]bool) (l [][2]int) {
	for k := range m {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return fmt.Sprint(l[i]) < fmt.Sprint(l[j]) })
	return l
}

// An oneWord case is a pattern with one word of the text replaced.
type oneWord struct {
	Pat  []string
	At   int
	Have []string // instead of Pat[At] (or of Pat[At:At+2] if Two)
	Two  bool
	Ok   bool // whether the text is recognized
	Why  string
}

func genOneWord(t *rapid.T) oneWord {
	// Words around the changed one are unrelated to it and to each other.
	var c oneWord
	n := between(t, 3, 8)
	for i := 0; i < n; i++ {
		c.Pat = append(c.Pat, codeWord(i*3))
	}
	c.At = between(t, 0, n-1)
	const letters = "abdefghijklmnoprst"
	size := between(t, 1, 9)
	w := ""
	for len(w) < size {
		w += string(letters[intn(t, len(letters))])
	}
	if oneIn(t, 10) { // long
		w = strings.Repeat(w, between(t, 2, 60))
	}
	if w == "is" || w == "it" || w == "the" || w == "http" || w == "are" || w == "they" || w == "them" {
		w = "dddd"
	}
	c.Pat[c.At] = w
	other := func(b byte) byte { // a letter different from b, in no synonym
		x := "qzwx79"[intn(t, 6)]
		if x == b {
			return 'v'
		}
		return x
	}
	i := intn(t, len(w))
	sub := w[:i] + string(other(w[i])) + w[i+1:]
	j := intn(t, len(w)+1)
	ins := w[:j] + string(other(0)) + w[j:]
	del := w[:i] + w[i+1:]
	late := c.At >= 2 // the first two words must be exact
	short := len(w) < 4
	switch intn(t, 14) {
	case 0:
		c.Have, c.Ok, c.Why = []string{sub}, late && !short, "change"
	case 1:
		c.Have, c.Ok, c.Why = []string{ins}, late && len(ins) >= 4, "insert"
	case 2:
		if del == "" || del == "is" || del == "it" || del == "the" || del == "http" || del == "are" {
			del = "zzzzzzz"
			c.Have, c.Why = []string{del}, "other word"
			break
		}
		c.Have, c.Ok, c.Why = []string{del}, late && !short || del == w, "delete"
	case 3:
		k := intn(t, len(sub))
		two := sub[:k] + string("z79"[intn(t, 3)]) + "y" + sub[k+1:]
		if oneByteApart(two, w) || two == w {
			two = "zzzzzzzzzzzz"
		}
		c.Have, c.Why = []string{two}, "two edits"
	case 4:
		c.Have, c.Why = []string{ins + "zz"}, "three edits"
	case 5:
		if len(w) < 2 {
			c.Have, c.Why = []string{"z" + w, "zz"}, "two words for one"
			break
		}
		k := between(t, 1, len(w)-1)
		a, b := w[:k], w[k:]
		c.Have, c.Ok, c.Why = []string{a, b}, late, "word split in two"
		if synonym[a] || synonym[b] {
			// Synonyms are joined by their own letters all the same.
			c.Why = "word split into words with synonyms"
		}
		if !late {
			c.Ok = false
		}
		if k == len(w)-1 && late && len(w) >= 4 || late && k == 1 && len(w) >= 4 {
			// The first part may be taken for a misspelling, but joining comes first.
			c.Ok = true
		}
	case 6:
		if c.At+1 >= len(c.Pat) {
			c.Have, c.Why = []string{w + "zzzz"}, "run together with foreign word"
			break
		}
		c.Two = true
		c.Have, c.Ok, c.Why = []string{w + c.Pat[c.At+1]}, late, "run together with the next"
	case 7:
		c.Have, c.Why = []string{"zz", w}, "inserted word before"
		c.Ok = false
		if c.At == 0 {
			c.Ok = true // the match begins later
		}
	case 8:
		c.Have, c.Why = nil, "missing word"
		c.Ok = false
	case 9: // c and copyright
		forms := []string{"c", "(c)", "copyright", "©", "&copy;", "C", "Copyright", "(C)"}
		c.Pat[c.At] = pick(t, []string{"c", "copyright"})
		h := pick(t, forms)
		c.Have = []string{h}
		is := "copyright"
		if h == "c" || h == "C" {
			is = "c"
		}
		c.Ok = late || is == c.Pat[c.At]
		c.Why = "copyright words"
	case 10:
		c.Pat[c.At] = "copyright"
		c.Have, c.Ok, c.Why = []string{pick(t, []string{"copyrights", "opyright", "coypright", "kopyright", "copy right"})}, late, "misspelled copyright"
		if c.Have[0] == "coypright" {
			c.Ok = false
		}
	case 11:
		c.Have, c.Ok, c.Why = []string{recaseASCII(t, w)}, true, "unchanged"
		if w != c.Pat[c.At] {
			c.Ok = false
		}
	case 12: // a multi-byte letter is several bytes
		c.Have, c.Why = []string{w[:i] + "λ" + w[i+1:]}, "two-byte letter for a letter"
		c.Ok = false
	case 13: // transposed letters are two edits
		c.Pat[c.At] = "abdeghk"
		k := intn(t, 6)
		x := []byte(c.Pat[c.At])
		x[k], x[k+1] = x[k+1], x[k]
		c.Have, c.Why = []string{string(x)}, "transposed letters"
	}
	return c
}

var synonym = map[string]bool{"are": true, "them": true, "they": true, "these": true, "this": true, "those": true, "copies": true, "https": true}

func checkOneWord(c oneWord, o *Obs) error {
	s, err := newScanner([]ref.License{{ID: "L", LRE: strings.Join(c.Pat, " ")}})
	if err != nil {
		return err
	}
	next := c.At + 1
	if c.Two {
		next++
	}
	words := append(append(append([]string{"qqq"}, c.Pat[:c.At]...), c.Have...), c.Pat[next:]...)
	text := strings.Join(append(words, "qqq"), " ")
	got := s.Scan([]byte(text))
	o.Nontrivial()
	o.Label("%s: %v", c.Why, map[bool]string{true: "accepted", false: "rejected"}[c.Ok])
	if (len(got.Match) == 1) != c.Ok {
		return fmt.Errorf("scanning %q for %q (%s at word %d): got %+v, want a match: %v", text, c.Pat, c.Why, c.At, got.Match, c.Ok)
	}
	return nil
}

// genStructured derives a text from a pattern with groups and wildcards, whose
// words are all different, and misspells words of it that are not neighbours,
// all in ways that must be accepted.
func genStructured(t *rapid.T) derived {
	next := 0
	tr := uniqueTree(t, &next, 8)
	c := derived{Want: "L", Wild: hasWild(tr)}
	c.Lics = []ref.License{{ID: "L", LRE: printLRE(t, tr, oneIn(t, 3))}}
	k := 0
	words := derive(t, tr, func() string { k++; return fillWord(k % 7) })
	var out []string
	for i := 0; i < len(words); i++ {
		w := words[i]
		// Fillers have other letters than the words of the pattern.
		if i < 2 || w[0] == 'q' || oneIn(t, 2) {
			out = append(out, w)
			continue
		}
		j := intn(t, len(w))
		x := string("qzwx79"[intn(t, 6)])
		switch intn(t, 6) {
		case 0:
			w = w[:j] + x + w[j+1:]
		case 1:
			w = w[:j] + x + w[j:]
		case 2:
			w = w[:j] + w[j+1:]
		case 3:
			if j > 0 {
				out = append(out, w[:j])
				w = w[j:]
			}
		default:
			if i+1 < len(words) {
				i++
				w += words[i]
			}
		}
		out = append(out, w)
		if i+1 < len(words) { // leave the next alone
			i++
			out = append(out, words[i])
		}
	}
	c.Text = Text(render(t, out, oneIn(t, 3)))
	return c
}

func init() {
	register(&Prop{
		ID: "C09",
		Rule: "Literal patterns of related words (one-byte edits, prefixes and concatenations of one another, copyright words) and texts derived from them with words misspelled, joined, split, dropped, " +
			"swapped and re-spelled; and single patterns with one word of the text changed in a way known to be accepted or not. Oracle: the definition of the corrections (exact words first; any of several " +
			"applicable corrections may be used), followed from every word; and the known answer. Also patterns with groups and wildcards, whose words are all different, and texts derived from them " +
			"with words misspelled, split and run together (with a word of the pattern or one that a wildcard takes): one full match. Non-trivial: a match that needed correction, or one that was begun and rightly refused.",
		Subs: []Sub{
			NewSub("related-words", 200000, 3000000, genLit, checkLit),
			NewSub("one-word", 120000, 1500000, genOneWord, checkOneWord),
			NewSub("structured", 200000, 3000000, genStructured, checkDerived),
		},
	})
}
