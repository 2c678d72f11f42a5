package ref

import (
	"fmt"
	"strings"
)

// A License is a license given to a scanner. Type is opaque.
type License struct {
	ID   string
	Type uint
	LRE  string
	URL  string
}

// A Match is a reported match.
type Match struct {
	ID         string
	Type       uint
	Start, End int
	IsURL      bool
}

// A Coverage is the result of a scan.
type Coverage struct {
	Covered, Total int // words
	Match          []Match
}

// Percent returns the coverage percentage.
func (c Coverage) Percent() float64 {
	if c.Total == 0 {
		return 0
	}
	return 100 * float64(c.Covered) / float64(c.Total)
}

// A Scanner is the model of licensecheck.Scanner.
type Scanner struct {
	Set  *Set
	Lics []License // those with LREs
	URLs map[string]License
}

// NewScanner builds a scanner or explains why the license set is invalid.
func NewScanner(list []License) (*Scanner, error) {
	s := &Scanner{URLs: map[string]License{}}
	var trees []*Node
	for _, l := range list {
		if l.URL != "" {
			s.URLs[l.URL] = l
		}
		if l.LRE == "" {
			continue
		}
		n, err := Parse(l.LRE)
		if err != nil {
			return nil, fmt.Errorf("%s: %v", l.ID, err)
		}
		trees = append(trees, n)
		s.Lics = append(s.Lics, l)
	}
	for i, n := range trees {
		if !n.Anchored() {
			return nil, fmt.Errorf("%s: not anchored", s.Lics[i].ID)
		}
	}
	s.Set = NewSet(trees)
	return s, nil
}

// MaxNotice is how far, in words, a copyright notice may precede a license.
const MaxNotice = 50

// urlLen returns the length of the URL at the start of s, or 0:
// http(s)://host.org or .com, then one or more non-empty path elements.
func urlLen(s string) int {
	lower := func(i int) rune {
		c := s[i]
		if c >= 'A' && c <= 'Z' {
			c += 32
		}
		return rune(c)
	}
	n := 0
	lit := func(want string) bool {
		for i := 0; i < len(want); i++ {
			if n+i >= len(s) || lower(n+i) != rune(want[i]) {
				return false
			}
		}
		n += len(want)
		return true
	}
	if !lit("http") {
		return 0
	}
	lit("s")
	if !lit("://") {
		return 0
	}
	run := func(extra string) int { // length of host or path characters at n
		i := n
		for i < len(s) {
			switch c := lower(i); {
			case c >= 'a' && c <= 'z', c >= '0' && c <= '9', strings.ContainsRune(extra, c):
				i++
				continue
			case strings.HasPrefix(s[i:], "\u017f"): // ſ folds to s
				i += 2
				continue
			case strings.HasPrefix(s[i:], "\u212a"): // K folds to k
				i += 3
				continue
			}
			break
		}
		return i - n
	}
	h := run("-_.")
	host := strings.ToLower(s[n : n+h])
	n += h
	// The host may only end at the path, and needs a character before the dot.
	if h < 5 || !strings.HasSuffix(host, ".org") && !strings.HasSuffix(host, ".com") {
		return 0
	}
	segs := 0
	for n < len(s) && s[n] == '/' {
		n++
		l := run("-_.#?=")
		if l == 0 {
			if segs == 0 {
				return 0
			}
			return n // trailing slash
		}
		n += l
		segs++
	}
	if segs == 0 {
		return 0
	}
	return n
}

// Lookup finds the license for a URL.
func (s *Scanner) Lookup(url string) (License, bool) {
	u := strings.ToLower(url)
	if t, ok := strings.CutPrefix(u, "http://"); ok {
		u = t
	}
	if t, ok := strings.CutPrefix(u, "https://"); ok {
		u = t
	}
	u = strings.TrimSuffix(u, "/")
	u = strings.TrimSuffix(u, "/legalcode")
	if l, ok := s.URLs[u]; ok {
		return l, true
	}
	if i := strings.LastIndexByte(u, '/'); i >= 0 {
		if l, ok := s.URLs[u[:i]]; ok {
			return l, true
		}
	}
	return License{}, false
}

// Assemble builds the coverage for the given license spans.
func (s *Scanner) Assemble(text string, words []Word, spans []Span) Coverage {
	c := Coverage{Total: len(words)}
	prev := 0 // first word after the previous license match
	gap := func(lo, hi int) {
		limit := len(text)
		if hi < len(words) {
			limit = words[hi].Lo
		}
		for i := lo; i < hi; i++ {
			if words[i].W != "http" {
				continue
			}
			n := urlLen(text[words[i].Lo:])
			end := words[i].Lo + n
			if n == 0 || end > limit {
				continue
			}
			l, ok := s.Lookup(text[words[i].Lo:end])
			if !ok {
				continue
			}
			c.Match = append(c.Match, Match{l.ID, l.Type, words[i].Lo, end, true})
			for ; i < hi && words[i].Hi <= end; i++ {
				c.Covered++
			}
			i--
		}
	}
	for _, sp := range spans {
		lo := sp.Start
		for i := max(prev, sp.Start-MaxNotice); i < sp.Start; i++ {
			if words[i].W == "copyright" {
				lo = i
				break
			}
		}
		gap(prev, lo)
		m := Match{ID: s.Lics[sp.Lic].ID, Type: s.Lics[sp.Lic].Type}
		if lo > 0 {
			a, b := words[lo-1].Hi, words[lo].Lo
			m.Start = b
			if i := strings.LastIndexByte(text[a:b], '\n'); i >= 0 {
				m.Start = a + i + 1
			}
		}
		m.End = len(text)
		if sp.End < len(words) {
			a, b := words[sp.End-1].Hi, words[sp.End].Lo
			m.End = a
			if i := strings.IndexByte(text[a:b], '\n'); i >= 0 {
				m.End = a + i + 1
			}
		}
		c.Match = append(c.Match, m)
		c.Covered += sp.End - lo
		prev = sp.End
	}
	gap(prev, len(words))
	return c
}

// Scan returns the possible results for text (more than one only when some
// spelling correction is ambiguous). ok is false if there are too many.
func (s *Scanner) Scan(text string) (res []Coverage, words []Word, ok bool) {
	words = Split(text, true)
	lists, ok := s.Set.Spans(words)
	if !ok {
		return nil, words, false
	}
	for _, l := range lists {
		res = append(res, s.Assemble(text, words, l))
	}
	return res, words, true
}
