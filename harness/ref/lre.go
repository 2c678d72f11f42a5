package ref

import (
	"fmt"
	"strconv"
	"strings"
)

// Node kinds.
const (
	Empty = "empty"
	Lit   = "lit"  // W
	Wild  = "wild" // N
	Cat   = "cat"
	Alt   = "alt"
	Opt   = "opt" // Sub[0]
)

// A Node is an LRE syntax tree.
type Node struct {
	K   string   `json:"k"`
	W   []string `json:"w,omitempty"` // canonical words
	N   int      `json:"n,omitempty"`
	Sub []*Node  `json:"sub,omitempty"`
}

// A token of LRE source.
type token struct {
	kind string // "((", "))", "||", "??", "wild", "text"
	text string
	n    int
	pos  int
}

func hasBlankBefore(s string, i int) bool { // only blanks before i on its line
	for i > 0 && (s[i-1] == ' ' || s[i-1] == '\t') {
		i--
	}
	return i == 0 || s[i-1] == '\n'
}

func skipBlank(s string, i int, cr bool) int {
	for i < len(s) && (s[i] == ' ' || s[i] == '\t' || cr && s[i] == '\r') {
		i++
	}
	return i
}

func lineEnds(s string, i int) bool {
	i = skipBlank(s, i, true)
	return i == len(s) || s[i] == '\n'
}

// lex splits LRE source into tokens, checking the layout rules.
func lex(s string) ([]token, error) {
	var toks []token
	start := 0
	flush := func(i int) {
		if start < i {
			toks = append(toks, token{kind: "text", text: s[start:i], pos: start})
		}
	}
	fail := func(i int, f string) ([]token, error) {
		return nil, fmt.Errorf("offset %d: %s", i, f)
	}
	depth := 0
	for i := 0; i < len(s); {
		r := s[i:]
		n, kind, cnt := 0, "", 0
		switch {
		case strings.HasPrefix(r, "(("):
			if !hasBlankBefore(s, i) {
				return fail(i, "(( inside line")
			}
			depth++
			n, kind = 2, "(("
		case strings.HasPrefix(r, "))"):
			if !lineEnds(s, i+2) && !strings.HasPrefix(s[skipBlank(s, i+2, false):], "??") {
				return fail(i, ")) inside line")
			}
			depth--
			if depth < 0 {
				return fail(i, "unbalanced ))")
			}
			n, kind = 2, "))"
		case strings.HasPrefix(r, "||"):
			if depth == 0 {
				return fail(i, "|| outside group")
			}
			n, kind = 2, "||"
		case strings.HasPrefix(r, "??"):
			if !strings.HasSuffix(strings.TrimRight(s[:i], " \t"), "))") {
				return fail(i, "?? not after ))")
			}
			if !lineEnds(s, i+2) {
				return fail(i, "?? inside line")
			}
			n, kind = 2, "??"
		case strings.HasPrefix(r, "__"):
			j := 2
			for j < len(r) && isNum(r[j]) {
				j++
			}
			if j > 2 && strings.HasPrefix(r[j:], "__") {
				c, err := strconv.ParseInt(r[2:j], 10, 32)
				if err != nil {
					return fail(i, "wildcard count out of range")
				}
				n, kind, cnt = j+2, "wild", int(c)
			}
		case strings.HasPrefix(r, "//**"):
			j := strings.Index(r[4:], "**//")
			if j < 0 {
				return fail(i, "unclosed comment")
			}
			n, kind = 8+j, "comment"
		}
		if n == 0 {
			i++
			continue
		}
		flush(i)
		toks = append(toks, token{kind: kind, n: cnt, pos: i})
		i += n
		start = i
	}
	flush(len(s))
	if depth > 0 {
		return fail(len(s), "missing ))")
	}
	return toks, nil
}

type parser struct {
	toks []token
	i    int
}

func (p *parser) peek() string {
	if p.i < len(p.toks) {
		return p.toks[p.i].kind
	}
	return ""
}

// alternation parses alternatives up to )) or the end.
func (p *parser) alternation() *Node {
	var alts []*Node
	for {
		alts = append(alts, p.sequence())
		if p.peek() != "||" {
			break
		}
		p.i++
	}
	if len(alts) == 1 {
		return alts[0]
	}
	return &Node{K: Alt, Sub: alts}
}

func (p *parser) sequence() *Node {
	var list []*Node
	for {
		switch p.peek() {
		case "", "||", "))":
			switch len(list) {
			case 0:
				return &Node{K: Empty}
			case 1:
				return list[0]
			}
			return &Node{K: Cat, Sub: list}
		case "text":
			var ws []string
			for _, w := range Split(p.toks[p.i].text, true) {
				ws = append(ws, w.W)
			}
			if k := len(list); len(ws) > 0 && k > 0 && list[k-1].K == Lit {
				list[k-1] = &Node{K: Lit, W: append(append([]string(nil), list[k-1].W...), ws...)}
			} else if len(ws) > 0 {
				list = append(list, &Node{K: Lit, W: ws})
			}
		case "wild":
			list = append(list, &Node{K: Wild, N: p.toks[p.i].n})
		case "((":
			p.i++
			list = append(list, p.alternation())
			// p.peek() is "))" by balance.
		case "??":
			list[len(list)-1] = &Node{K: Opt, Sub: []*Node{list[len(list)-1]}}
		}
		p.i++
	}
}

// Parse parses LRE source. The tree is normalized: no nested Cat in Cat or
// Alt in Alt, and no Opt of Opt.
func Parse(s string) (*Node, error) {
	toks, err := lex(s)
	if err != nil {
		return nil, err
	}
	p := &parser{toks: toks}
	n := Normalize(p.alternation())
	return n, n.trailing(true)
}

// Normalize flattens n into canonical form.
func Normalize(n *Node) *Node {
	switch n.K {
	case Opt:
		sub := Normalize(n.Sub[0])
		if sub.K == Opt {
			return sub
		}
		return &Node{K: Opt, Sub: []*Node{sub}}
	case Cat, Alt:
		m := &Node{K: n.K}
		for _, s := range n.Sub {
			s = Normalize(s)
			if s.K == n.K {
				m.Sub = append(m.Sub, s.Sub...)
				continue
			}
			m.Sub = append(m.Sub, s)
		}
		if len(m.Sub) == 1 {
			return m.Sub[0]
		}
		return m
	}
	return n
}

// Nullable reports whether n describes the empty text.
func (n *Node) Nullable() bool {
	switch n.K {
	case Lit:
		return len(n.W) == 0
	case Cat:
		for _, s := range n.Sub {
			if !s.Nullable() {
				return false
			}
		}
	case Alt:
		for _, s := range n.Sub {
			if s.Nullable() {
				return true
			}
		}
		return false
	}
	return true
}

// trailing reports an error for a wildcard at the end of the pattern (the
// part of it that is checked: optional trailing parts, and the alternatives
// of a pattern that is a single group).
func (n *Node) trailing(end bool) error {
	switch n.K {
	case Wild:
		if end {
			return fmt.Errorf("wildcard __%d__ ends pattern", n.N)
		}
	case Opt:
		return n.Sub[0].trailing(end)
	case Alt:
		for _, s := range n.Sub {
			if err := s.trailing(end); err != nil {
				return err
			}
		}
	case Cat:
		last := len(n.Sub)
		if end {
			for last > 0 && n.Sub[last-1].Nullable() {
				last--
			}
		}
		for i, s := range n.Sub {
			if err := s.trailing(end && i >= last); err != nil {
				return err
			}
		}
	}
	return nil
}

// EndsWild reports whether some text n describes can end inside a wildcard.
func (n *Node) EndsWild() bool {
	switch n.K {
	case Wild:
		return true
	case Opt:
		return n.Sub[0].EndsWild()
	case Alt:
		for _, s := range n.Sub {
			if s.EndsWild() {
				return true
			}
		}
	case Cat:
		for i := len(n.Sub) - 1; i >= 0; i-- {
			if n.Sub[i].EndsWild() {
				return true
			}
			if !n.Sub[i].Nullable() {
				break
			}
		}
	}
	return false
}

// Leading returns the set of leading symbol sequences of length up to k:
// words, "*" for a wildcard word; shorter sequences are complete texts.
// (A wildcard __0__ counts like any other.)
func (n *Node) Leading(k int) map[string][]string {
	type set = map[string][]string
	key := func(x []string) string { return strings.Join(x, "\x00") + fmt.Sprint("\x00", len(x)) }
	put := func(s set, x []string) { s[key(x)] = x }
	res := set{}
	switch n.K {
	case Empty:
		put(res, nil)
	case Lit:
		put(res, n.W[:min(k, len(n.W))])
	case Wild:
		for i := 0; i <= k; i++ {
			var x []string
			for j := 0; j < i; j++ {
				x = append(x, "*")
			}
			put(res, x)
		}
	case Opt:
		for _, x := range n.Sub[0].Leading(k) {
			put(res, x)
		}
		put(res, nil)
	case Alt:
		for _, s := range n.Sub {
			for _, x := range s.Leading(k) {
				put(res, x)
			}
		}
	case Cat:
		put(res, nil)
		for _, s := range n.Sub {
			short := false
			for _, x := range res {
				short = short || len(x) < k
			}
			if !short {
				break
			}
			next := set{}
			l := s.Leading(k)
			for _, x := range res {
				if len(x) == k {
					put(next, x)
					continue
				}
				for _, y := range l {
					z := append(append([]string(nil), x...), y...)
					put(next, z[:min(k, len(z))])
				}
			}
			res = next
		}
	}
	return res
}

// Anchored reports whether every text n describes begins with two literal words.
func (n *Node) Anchored() bool {
	for _, x := range n.Leading(2) {
		if len(x) < 2 || x[0] == "*" || x[1] == "*" {
			return false
		}
	}
	return true
}

// Words returns the set of literal words of n with their number of occurrences.
func (n *Node) Words() map[string]int {
	m := map[string]int{}
	n.Walk(func(n *Node) {
		for _, w := range n.W {
			m[w]++
		}
	})
	return m
}

// Walk calls f for every node of n.
func (n *Node) Walk(f func(*Node)) {
	f(n)
	for _, s := range n.Sub {
		s.Walk(f)
	}
}
