// Package ref is an independent, deliberately simple reference model of
// licensecheck: word splitting, LRE parsing, matching, and scan assembly.
// It shares no code with the packages under test.
package ref

import (
	"strings"
	"unicode"
	"unicode/utf8"
)

// A Word is one word of a text: its canonical form and extent.
type Word struct {
	W      string // canonical form
	Raw    string // folded form of the text's own bytes (used by spell checking)
	Lo, Hi int
}

// FoldRune gives the canonical form of one rune; drop means it vanishes.
func FoldRune(r rune) (c rune, drop bool) {
	if r == 0x300 || r == 0x301 || r == '(' || r == ')' {
		return 0, true
	}
	least := r
	for q := unicode.SimpleFold(r); q != r; q = unicode.SimpleFold(q) {
		if q < least {
			least = q
		}
	}
	if i := strings.IndexRune("ÁÀÉÈÍÌÓÒÚÙ", least); i >= 0 {
		return rune("aaeeiioouu"[i/2]), false
	}
	if least >= 'A' && least <= 'Z' {
		return least + 32, false
	}
	return least, false
}

// Fold gives the canonical spelling of s.
func Fold(s string) string {
	var b strings.Builder
	for _, r := range s {
		if c, drop := FoldRune(r); !drop {
			b.WriteRune(c)
		}
	}
	return b.String()
}

var synonyms = map[string]string{
	"https":  "http",
	"©":      "copyright",
	"are":    "is",
	"them":   "it",
	"they":   "it",
	"these":  "the",
	"this":   "the",
	"those":  "the",
	"copies": "copy",
}

func startsWord(r rune) bool {
	return r == '©' || unicode.IsLetter(r) || unicode.IsDigit(r)
}

func inWord(r rune) bool {
	return unicode.IsLetter(r) || unicode.IsDigit(r) || unicode.Is(unicode.Mn, r)
}

func isAlpha(c byte) bool { return c|0x20 >= 'a' && c|0x20 <= 'z' }
func isNum(c byte) bool   { return c >= '0' && c <= '9' }
func isHex(c byte) bool   { return isNum(c) || c|0x20 >= 'a' && c|0x20 <= 'f' }

// tagLen: an HTML tag <x...> or </x...>, not an <e@mail> or <http://url>,
// of at most two line-break characters, without another <.
func tagLen(s string) int {
	body := strings.TrimPrefix(s[1:], "/")
	if body == "" || !isAlpha(body[0]) {
		return 0
	}
	end := strings.IndexByte(s, '>')
	if end < 0 {
		return 0
	}
	in := s[1:end]
	if strings.Contains(in, "<") {
		return 0
	}
	if strings.Count(in, "\n")+strings.Count(in, "\r") > 2 {
		return 0
	}
	first := in
	if sp := strings.IndexByte(in, ' '); sp >= 0 {
		first = in[:sp]
	}
	if strings.Contains(first, "@") || strings.Contains(first, ":/") {
		return 0
	}
	return end + 1
}

// entityLen: &name; &#123; &#x1F;
func entityLen(s string) int {
	semi := strings.IndexByte(s, ';')
	if semi < 0 {
		return 0
	}
	in := s[1:semi]
	ok := isAlpha
	switch {
	case strings.HasPrefix(in, "#x"):
		in, ok = in[2:], isHex
	case strings.HasPrefix(in, "#"):
		in, ok = in[1:], isNum
	}
	if in == "" {
		return 0
	}
	for i := 0; i < len(in); i++ {
		if !ok(in[i]) {
			return 0
		}
	}
	return semi + 1
}

// anchorLen: {#name}
func anchorLen(s string) int {
	if !strings.HasPrefix(s, "{#") {
		return 0
	}
	if i := strings.IndexAny(s[2:], "} \r\n"); i >= 0 && s[2+i] == '}' {
		return 2 + i + 1
	}
	return 0
}

// linkLen: ](target) where target starts with a known scheme or #.
func linkLen(s string) int {
	if !strings.HasPrefix(s, "](") {
		return 0
	}
	for _, p := range []string{"http://", "https://", "mailto:", "file:", "#"} {
		if strings.HasPrefix(s[2:], p) {
			if i := strings.IndexAny(s, ") \t\r\n"); i >= 0 && s[i] == ')' {
				return i + 1
			}
			return 0
		}
	}
	return 0
}

// Split splits text into words. If collapse is true, a copyright word
// immediately after another is dropped.
func Split(text string, collapse bool) []Word {
	var out []Word
	emit := func(w string, lo, hi int) {
		if collapse && w == "copyright" && len(out) > 0 && out[len(out)-1].W == w {
			return
		}
		out = append(out, Word{w, Fold(text[lo:hi]), lo, hi})
	}
	for i := 0; i < len(text); {
		rest := text[i:]
		n := 0
		switch rest[0] {
		case '<':
			n = tagLen(rest)
		case '{':
			n = anchorLen(rest)
		case ']':
			n = linkLen(rest)
		case '&':
			n = entityLen(rest)
			if n > 0 && rest[:n] == "&copy;" {
				emit("copyright", i, i+n)
			}
		}
		if n > 0 {
			i += n
			continue
		}
		r, size := utf8.DecodeRuneInString(rest)
		if !startsWord(r) {
			i += size
			continue
		}
		j := i + size
		if r != '©' {
			for j < len(text) {
				r, size := utf8.DecodeRuneInString(text[j:])
				if !inWord(r) {
					break
				}
				j += size
			}
			if strings.HasPrefix(text[j:], "(s)") {
				j += 3
			}
		}
		w := Fold(text[i:j])
		if s, ok := synonyms[w]; ok {
			w = s
		}
		lo, hi := i, j
		if w == "c" && i > 0 && text[i-1] == '(' && strings.HasPrefix(text[j:], ")") {
			w, lo, hi = "copyright", i-1, j+1
		}
		emit(w, lo, hi)
		i = j
	}
	return out
}
