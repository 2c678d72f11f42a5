//go:build im

package main

import (
	"bytes"
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/google/licensecheck/internal/match"
	"github.com/google/licensecheck/verifh/ref"
	"pgregory.net/rapid"
)

// A splitCase is a text to split with a dictionary that knows some words.
type splitCase struct {
	Known []Text
	Text  Text
	Reuse bool // split twice
}

func genSplit(text func(t *rapid.T) string) func(t *rapid.T) splitCase {
	return func(t *rapid.T) splitCase {
		c := splitCase{Text: Text(text(t)), Reuse: oneIn(t, 4)}
		// Some words of the text are known, some others too.
		for _, w := range ref.Split(string(c.Text), false) {
			if len(c.Known) < 8 && oneIn(t, 3) {
				c.Known = append(c.Known, Text(w.W))
			}
		}
		if oneIn(t, 2) {
			c.Known = append(c.Known, pick(t, []Text{"copyright", "the", "a", "http", "s", "c"}))
		}
		return c
	}
}

func checkSplit(c splitCase, o *Obs) error {
	text := string(c.Text)
	d := new(match.Dict)
	for _, w := range c.Known {
		d.Insert(string(w))
	}
	n := len(d.Words())
	judge := func(what string, got []match.Word, want []ref.Word, insert bool) error {
		words := d.Words()
		bad := func(f string, a ...any) error {
			return fmt.Errorf("%s of %q (known %q): %s\ngot  %s\nwant %v", what, text, c.Known, fmt.Sprintf(f, a...), showWords(words, got), showRef(want))
		}
		if len(got) != len(want) {
			return bad("%d words, want %d", len(got), len(want))
		}
		for i, g := range got {
			w := want[i]
			if int(g.Lo) != w.Lo || int(g.Hi) != w.Hi {
				return bad("word %d has wrong offsets", i)
			}
			if g.ID == match.BadWord {
				if insert || d.Lookup(w.W) != match.BadWord {
					return bad("word %d is known", i)
				}
			} else if int(g.ID) >= len(words) || g.ID < 0 || words[g.ID] != w.W {
				return bad("word %d is wrong", i)
			}
		}
		return nil
	}
	if err := judge("Split", d.Split(text), ref.Split(text, d.Lookup("copyright") != match.BadWord), false); err != nil {
		return err
	}
	if len(d.Words()) != n {
		return fmt.Errorf("Split(%q) changed the dictionary", text)
	}
	want := ref.Split(text, true)
	if err := judge("InsertSplit", d.InsertSplit(text), want, true); err != nil {
		return err
	}
	if c.Reuse {
		if err := judge("second InsertSplit", d.InsertSplit(text), want, true); err != nil {
			return err
		}
		if err := judge("Split after InsertSplit", d.Split(text), ref.Split(text, d.Lookup("copyright") != match.BadWord), false); err != nil {
			return err
		}
	}
	special := false
	for _, w := range want {
		special = special || w.W != strings.ToLower(text[w.Lo:w.Hi])
	}
	o.LabelIf(special, "special words")
	o.LabelIf(len(want) == 0, "no words")
	o.LabelIf(!utf8.ValidString(text), "not UTF-8")
	if len(want) > 1 {
		o.Nontrivial()
	}
	return nil
}

func showWords(list []string, ws []match.Word) string {
	var out []string
	for _, w := range ws {
		s := "?"
		if w.ID >= 0 && int(w.ID) < len(list) {
			s = list[w.ID]
		}
		out = append(out, fmt.Sprintf("%q[%d:%d]", s, w.Lo, w.Hi))
	}
	return strings.Join(out, " ")
}

func showRef(ws []ref.Word) string {
	var out []string
	for _, w := range ws {
		out = append(out, fmt.Sprintf("%q[%d:%d]", w.W, w.Lo, w.Hi))
	}
	return strings.Join(out, " ")
}

// A builtText is a text put together from pieces whose words are known.
type builtText struct {
	Text Text
	W    []Text // expected words
	Lo   []int
	Hi   []int
}

var knownSurfaces = [][2]string{
	{"the", "the"}, {"This", "the"}, {"THESE", "the"}, {"those", "the"}, {"Are", "is"}, {"is", "is"}, {"they", "it"}, {"THEM", "it"}, {"it", "it"},
	{"copies", "copy"}, {"Copy", "copy"}, {"copied", "copied"}, {"https", "http"}, {"HTTP", "http"}, {"httpd", "httpd"},
	{"café", "cafe"}, {"CAFÈ", "cafe"}, {"cafe\u0301", "cafe"}, {"cafe\u0300", "cafe"}, {"Òrgán", "organ"}, {"ÍÌìí", "iiii"}, {"Úù", "uu"},
	{"word(s)", "words"}, {"Licensee(s)", "licensees"}, {"2(s)", "2s"}, {"42", "42"}, {"x86", "x86"}, {"1st", "1st"},
	{"a\u0308b", "a\u0308b"}, {"日本", "日本"}, {"Ключ", "КЛЮЧ"}, {"\u212aelvin", "kelvin"}, {"wor\u017fe", "worse"}, {"c", "c"}, {"C", "c"},
	{"(c)", "copyright"}, {"(C)", "copyright"}, {"©", "copyright"}, {"&copy;", "copyright"}, {"Copyright", "copyright"}, {"COPYRIGHT", "copyright"},
	{"copyright(s)", "copyrights"}, {"thiss", "thiss"}, {"٣٤", "٣٤"},
}

// knownSeps separate words: they begin and end so that no construct joins the
// words around them.
var knownSeps = []string{
	" ", "\n", "\t", ".", ", ", "-", "_", "/", "--", " & ", " < ", " > ", "<b>", "</b>", "<a href=\"x y\">", "<br/>", "<x\ny\nz>", "&nbsp;", "&#39;", "&#x1F;", "&lt;",
	"{#anchor}", "{#a-b_c}", "](http://a.org/b_c)", "](#sec)", "](mailto:a@b.org)", "](file:/x)", "](https://x.org)", " [", "] ", "}", " { ", "\x00", "\xff", "\xc3", "\u2014", "\u00a0", "\u20ac", "🎉",
	" \u0301", "\u20dd ", " \u0308 ", "!", "?", ";", "'", "\"", "=", "+", "@", "#", "$ ", "%", "^", "|", "~", "`", "\\", "&;", "&#;", "<>", "</>", "< ",
}

func genBuilt(t *rapid.T) builtText {
	var c builtText
	var b strings.Builder
	n := between(t, 0, 12)
	last := ""
	for i := 0; i < n; i++ {
		s := pick(t, knownSurfaces)
		if oneIn(t, 3) {
			w := fillWord(intn(t, 30))
			s = [2]string{recaseASCII(t, w), w}
		}
		pre := pick(t, knownSeps)
		for oneIn(t, 3) {
			pre += pick(t, knownSeps)
		}
		lo := b.Len() + len(pre)
		b.WriteString(pre)
		b.WriteString(s[0])
		w := s[1]
		if w == "copyright" && last == w {
			continue
		}
		last = w
		c.W, c.Lo, c.Hi = append(c.W, Text(w)), append(c.Lo, lo), append(c.Hi, b.Len())
	}
	b.WriteString(pick(t, knownSeps))
	c.Text = Text(b.String())
	return c
}

func checkBuilt(c builtText, o *Obs) error {
	text := string(c.Text)
	var want []ref.Word
	for i := range c.W {
		want = append(want, ref.Word{W: string(c.W[i]), Lo: c.Lo[i], Hi: c.Hi[i]})
	}
	d := new(match.Dict)
	got := d.InsertSplit(text)
	if len(want) > 1 {
		o.Nontrivial()
	}
	for i := 0; i < max(len(got), len(want)); i++ {
		if i >= len(got) || i >= len(want) || int(got[i].Lo) != want[i].Lo || int(got[i].Hi) != want[i].Hi || d.Words()[got[i].ID] != want[i].W {
			return fmt.Errorf("InsertSplit(%q): word %d is wrong\ngot  %s\nwant %s", text, i, showWords(d.Words(), got), showRef(want))
		}
	}
	return nil
}

// A runeCase asks how a rune behaves at the start, inside and at the end of a word.
type runeCase struct{ R, Q rune }

func genRune(t *rapid.T) runeCase {
	one := func() rune {
		for {
			var r rune
			switch intn(t, 5) {
			case 0:
				r = rune(intn(t, 0x250))
			case 1:
				r = rune(intn(t, 0x3000))
			case 2:
				r = rune(intn(t, 0x10000))
			case 3:
				r = rune(intn(t, 0x20000))
			case 4:
				r = []rune(pick(t, foreignWords))[0]
			}
			if utf8.ValidRune(r) {
				return r
			}
		}
	}
	c := runeCase{one(), one()}
	switch intn(t, 4) {
	case 0:
		c.Q = unicode.SimpleFold(c.R)
	case 1:
		letters := []rune("AÀÁaàáEÈÉeèéIÌÍiìíOÒÓoòóUÙÚuùúÂâÄäÅåÆæ\u0300\u0301\u0302")
		c = runeCase{pick(t, letters), pick(t, letters)}
	}
	return c
}

// A runeBlock stands for the 64 runes from R on.
type runeBlock struct{ R rune }

func genBlock(t *rapid.T) runeBlock {
	if oneIn(t, 10) {
		return runeBlock{rune(even(t, 0x110000/64)) * 64}
	}
	return runeBlock{rune(even(t, 0x20000/64)) * 64} // where the letters are
}

func checkBlock(c runeBlock, o *Obs) error {
	for r := c.R; r < c.R+64; r++ {
		if utf8.ValidRune(r) && utf8.ValidRune(r+1) {
			if err := checkRune(runeCase{r, r + 1}, o); err != nil {
				return err
			}
		}
	}
	return nil
}

// checkRune states the rules for single runes directly in terms of Unicode classes.
func checkRune(c runeCase, o *Obs) error {
	split := func(s string) []string {
		d := new(match.Dict)
		var out []string
		for _, w := range d.InsertSplit(s) {
			out = append(out, d.Words()[w.ID]+"="+s[w.Lo:w.Hi])
		}
		return out
	}
	letter := unicode.IsLetter(c.R) || unicode.IsDigit(c.R)
	mark := unicode.Is(unicode.Mn, c.R)
	// Between spaces it is a word exactly if it is a letter or digit (or ©).
	alone := split("xx " + string(c.R) + " yy")
	if (len(alone) == 3) != (letter || c.R == '©') {
		return fmt.Errorf("%q between spaces: words %q", c.R, alone)
	}
	// After a letter it continues the word exactly if letter, digit or nonspacing mark.
	in := split("xx" + string(c.R) + "yy")
	switch {
	case c.R == '©':
		if len(in) != 3 {
			return fmt.Errorf("© in a word: words %q", in)
		}
	case letter || mark:
		if len(in) != 1 {
			return fmt.Errorf("%q in a word: words %q", c.R, in)
		}
	default:
		if len(in) != 2 {
			return fmt.Errorf("%q in a word: words %q", c.R, in)
		}
	}
	// Two runes are the same word exactly if they are equal up to case and vowel accents.
	a, b := split("xx"+string(c.R)+"yy"), split("xx"+string(c.Q)+"yy")
	isL := func(r rune) bool { return unicode.IsLetter(r) || unicode.IsDigit(r) || unicode.Is(unicode.Mn, r) }
	if letter {
		o.Nontrivial()
		q := c.R
		for k := 0; k < 5; k++ {
			q = unicode.SimpleFold(q)
			f := split("xx" + string(q) + "yy")
			if isL(q) && word(f) != word(a) {
				return fmt.Errorf("%q and %q are letters of one case orbit, but give words %q and %q", c.R, q, a, f)
			}
		}
	}
	if isL(c.R) && isL(c.Q) {
		same := base(c.R) == base(c.Q)
		o.LabelIf(same, "same letter")
		if (word(a) == word(b)) != same {
			return fmt.Errorf("%q and %q give words %q and %q", c.R, c.Q, a, b)
		}
	}
	return nil
}

func word(l []string) string {
	if len(l) != 1 {
		return fmt.Sprintf("%q", l)
	}
	w, _, _ := strings.Cut(l[0], "=")
	return w
}

// base names the letter r is a form of.
func base(r rune) rune {
	if r == 0x300 || r == 0x301 {
		return -1
	}
	least := r
	for q := unicode.SimpleFold(r); q != r; q = unicode.SimpleFold(q) {
		least = min(least, q)
	}
	switch least {
	case 'À', 'Á':
		return 'A'
	case 'È', 'É':
		return 'E'
	case 'Ì', 'Í':
		return 'I'
	case 'Ò', 'Ó':
		return 'O'
	case 'Ù', 'Ú':
		return 'U'
	}
	return least
}

// genMarkup makes text dense in markup fragments.
func genMarkup(t *rapid.T) string {
	frag := []string{
		"<", ">", "</", "/>", "<b", "a@b", ":/", "x:/y", "{#", "}", "#", "](", "](http://", "](https://", "](mailto:", "](file:", "](#", ")", "&", "&#", "&#x", ";", "copy;", "&copy;", "&copy", "amp;",
		"b", "c", "(", "(c", "c)", "(s)", "(S)", "(s", "s)", "1f", "12", " ", "\n", "\r", "\t", "-", "\"", "é", "\u0301", "©", "the", "word", "\xc3",
	}
	n := between(t, 1, 16)
	var b strings.Builder
	for i := 0; i < n; i++ {
		if oneIn(t, 4) { // something nearly in order
			m := pick(t, [][3]string{
				{"<", "abzAZ", ">"}, {"</", "abzAZ", ">"}, {"<a ", "abz09 \n=\"'@:/-_", ">"}, {"{#", "az09-_:#{", "}"}, {"&", "azAZ", ";"}, {"&#", "0189", ";"}, {"&#x", "019afAF", ";"},
				{"](http://", "az09./-_(?", ")"}, {"](https://", "az09./\n[", ")"}, {"](mailto:", "az@.", ")"}, {"](file:", "az/.", ")"}, {"](#", "az-_", ")"},
			})
			if oneIn(t, 5) { // a byte missing, doubled, other, or in the other case
				i := intn(t, len(m[0]))
				c := m[0][i : i+1]
				m[0] = m[0][:i] + pick(t, []string{"", c + c, "x", "/", ":", " ", strings.ToUpper(c)}) + m[0][i+1:]
			}
			b.WriteString(m[0])
			var in []byte
			for k := between(t, 0, pick(t, []int{2, 12, 60})); k > 0; k-- {
				in = append(in, m[1][intn(t, len(m[1]))])
			}
			if oneIn(t, 12) { // very long
				in = bytes.Repeat(in, between(t, 2, 200))
			}
			b.Write(in)
			if oneIn(t, 8) {
				b.WriteString(pick(t, frag))
			}
			if !oneIn(t, 8) {
				b.WriteString(m[2])
			}
			continue
		}
		f := pick(t, frag)
		if oneIn(t, 8) { // long names, numbers, targets
			f = strings.Repeat(f, between(t, 2, pick(t, []int{4, 12, 70})))
		}
		b.WriteString(f)
	}
	return b.String()
}

func init() {
	register(&Prop{
		ID: "C07",
		Rule: "Texts of arbitrary bytes and of dense markup fragments, license texts, texts assembled from pieces whose words are known by construction, and single runes in context (also in blocks, covering nearly all runes of the first two planes); " +
			"dictionaries that know some of the words. Oracle: an independent word splitter written from the documentation, the known words, and Unicode classes and case orbits for runes. " +
			"Non-trivial: at least two words (for runes: a letter or digit).",
		Subs: []Sub{
			NewSub("bytes", 80000, 3000000, genSplit(func(t *rapid.T) string { return rawBytes(t, 24) }), checkSplit),
			NewSub("markup", 80000, 3000000, genSplit(genMarkup), checkSplit),
			NewSub("texts", 20000, 500000, genSplit(func(t *rapid.T) string {
				return string(genScan(t, scanCfg{maxLics: 2, depth: 2, fancy: true, urls: true, raw: true}, 5).Text)
			}), checkSplit),
			NewSub("builtin", 1500, 30000, genSplit(func(t *rapid.T) string { return builtinText(t, 3, true) }), checkSplit),
			NewSub("constructed", 60000, 1500000, genBuilt, checkBuilt),
			NewSub("runes", 60000, 1500000, genRune, checkRune),
			NewSub("rune-blocks", 8000, 60000, genBlock, checkBlock),
		},
	})
}
