package ref

import (
	"fmt"
	"sort"
	"strings"
)

// The matcher simulates a nondeterministic program over words. A program is a
// list of steps, one program after another for the licenses of a Set.

type stepKind byte

const (
	sWord  stepKind = iota // consume word w, go to next step
	sAny                   // consume any word, go to next step
	sFork                  // go to both next step and to
	sGoto                  // go to to
	sCut                   // drop all threads waiting in steps from..to; go to next step
	sFound                 // license lic matches
)

type step struct {
	kind     stepKind
	w        string
	to, from int
	lic      int
}

// A pendingCut is an implicit cut waiting for left more literal words.
type pendingCut struct{ from, to, left int }

// compiler emits steps. Implicit cuts: the wildcard's threads are dropped
// once three literal words have been matched after it, or after at least one when the pattern's
// required part is over, or when the next wildcard begins (unless no literal
// word separates the two). Cuts of wildcards in a part that can be skipped
// belong to that part. Wildcards of up to three words are never cut.
type compiler struct {
	steps []step
	cuts  []pendingCut
	tail  bool // in the optional tail of the pattern
	wild  bool // a wildcard may come right after
}

func (c *compiler) emit(s step) int {
	c.steps = append(c.steps, s)
	return len(c.steps) - 1
}

func (c *compiler) fire(f func(pendingCut) bool) {
	var keep []pendingCut
	for _, p := range c.cuts {
		if f(p) {
			c.emit(step{kind: sCut, from: p.from, to: p.to})
		} else {
			keep = append(keep, p)
		}
	}
	c.cuts = keep
}

// begun reports whether some literal word follows the wildcard already.
func begun(p pendingCut) bool { return p.left < 3 }

func unite(a, b []pendingCut) []pendingCut {
	m := map[int]pendingCut{}
	for _, l := range [][]pendingCut{a, b} {
		for _, p := range l {
			if q, ok := m[p.from]; !ok || q.left < p.left {
				m[p.from] = p
			}
		}
	}
	var out []pendingCut
	for _, p := range m {
		out = append(out, p)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].from < out[j].from })
	return out
}

func (c *compiler) gen(n *Node) {
	tail, wild := c.tail, c.wild
	switch n.K {
	case Lit:
		for _, w := range n.W {
			c.emit(step{kind: sWord, w: w})
			for i := range c.cuts {
				if i == 0 {
					c.cuts = append([]pendingCut(nil), c.cuts...)
				}
				c.cuts[i].left--
			}
			c.fire(func(p pendingCut) bool { return p.left == 0 })
		}
		if tail {
			c.fire(begun)
		}
	case Wild:
		c.fire(begun)
		from := len(c.steps)
		end := from + 2*n.N
		for i := 0; i < n.N; i++ {
			c.emit(step{kind: sFork, to: end})
			c.emit(step{kind: sAny})
		}
		if n.N > 3 {
			c.cuts = append(append([]pendingCut(nil), c.cuts...), pendingCut{from, end, 3})
		}
	case Cat:
		req := len(n.Sub)
		for tail && req > 0 && n.Sub[req-1].Nullable() {
			req--
		}
		for i, s := range n.Sub {
			c.tail = tail && i >= req
			rest := &Node{K: Cat, Sub: n.Sub[i+1:]}
			c.wild = rest.beginsWild() || wild && rest.Nullable()
			c.gen(s)
		}
	case Opt:
		fork := c.emit(step{kind: sFork})
		before := c.cuts
		c.gen(n.Sub[0])
		if tail || wild {
			c.fire(begun)
		}
		c.cuts = unite(before, c.cuts)
		c.steps[fork].to = len(c.steps)
	case Alt:
		before := c.cuts
		var after []pendingCut
		var gotos []int
		for i, s := range n.Sub {
			fork := -1
			if i < len(n.Sub)-1 {
				fork = c.emit(step{kind: sFork})
			}
			c.cuts = before
			c.tail, c.wild = tail, wild
			c.gen(s)
			if tail || wild && n.Nullable() {
				c.fire(begun)
			}
			after = unite(after, c.cuts)
			if fork >= 0 {
				gotos = append(gotos, c.emit(step{kind: sGoto}))
				c.steps[fork].to = len(c.steps)
			}
		}
		c.cuts = after
		for _, g := range gotos {
			c.steps[g].to = len(c.steps)
		}
	}
	c.tail, c.wild = tail, wild
}

// beginsWild reports whether a text n describes can begin inside a wildcard.
func (n *Node) beginsWild() bool {
	switch n.K {
	case Wild:
		return true
	case Opt, Alt:
		for _, s := range n.Sub {
			if s.beginsWild() {
				return true
			}
		}
	case Cat:
		for _, s := range n.Sub {
			if s.beginsWild() {
				return true
			}
			if !s.Nullable() {
				break
			}
		}
	}
	return false
}

// A Set is a list of LREs to look for together.
type Set struct {
	Trees  []*Node
	steps  []step
	phrase map[[2]string][]int // leading phrase -> states after it
	starts []int
	cache  map[string]*state
	vocab  map[string]bool // all literal words
	Strict bool            // no spelling correction

	// Ambiguous counts the times several corrections applied to a word.
	Ambiguous int
}

// A state is a set of waiting threads.
type state struct {
	at    []int // steps of kind sWord, sAny, sFound
	found int   // least license found, or -1
	any   bool
	want  map[string]bool
	next  map[string]*state
}

// NewSet compiles the LREs.
func NewSet(trees []*Node) *Set {
	s := &Set{Trees: trees, phrase: map[[2]string][]int{}, cache: map[string]*state{}}
	var c compiler
	for i, t := range trees {
		s.starts = append(s.starts, len(c.steps))
		c.cuts, c.tail, c.wild = nil, true, false
		c.gen(t)
		c.fire(begun)
		c.emit(step{kind: sFound, lic: i})
		for _, p := range t.Leading(2) {
			if len(p) == 2 && p[0] != "*" && p[1] != "*" {
				k := [2]string{p[0], p[1]}
				s.phrase[k] = append(s.phrase[k], i)
			}
		}
	}
	s.steps = c.steps
	s.vocab = map[string]bool{}
	for _, st := range s.steps {
		if st.kind == sWord {
			s.vocab[st.w] = true
		}
	}
	return s
}

// Phrases returns the two-word phrases with which matches can begin.
func (s *Set) Phrases() map[[2]string][]int { return s.phrase }

// settle follows forks from the given steps, applies cuts, and returns the state.
func (s *Set) settle(from []int) *state {
	seen := map[int]bool{}
	var cuts []step
	var visit func(pc int)
	var at []int
	visit = func(pc int) {
		for !seen[pc] {
			seen[pc] = true
			st := s.steps[pc]
			switch st.kind {
			case sFork:
				visit(pc + 1)
				pc = st.to
			case sGoto:
				pc = st.to
			case sCut:
				cuts = append(cuts, st)
				pc++
			default:
				at = append(at, pc)
				return
			}
		}
	}
	for _, pc := range from {
		visit(pc)
	}
	var keep []int
	for _, pc := range at {
		ok := true
		for _, c := range cuts {
			if c.from <= pc && pc <= c.to {
				ok = false
			}
		}
		if ok {
			keep = append(keep, pc)
		}
	}
	sort.Ints(keep)
	var kb strings.Builder
	for _, pc := range keep {
		fmt.Fprintf(&kb, "%d,", pc)
	}
	key := kb.String()
	if st, ok := s.cache[key]; ok {
		return st
	}
	st := &state{at: keep, found: -1, want: map[string]bool{}, next: map[string]*state{}}
	for _, pc := range keep {
		switch p := s.steps[pc]; p.kind {
		case sAny:
			st.any = true
		case sWord:
			st.want[p.w] = true
		case sFound:
			if st.found < 0 || p.lic < st.found {
				st.found = p.lic
			}
		}
	}
	if len(s.cache) > 200000 {
		s.cache = map[string]*state{}
	}
	s.cache[key] = st
	return st
}

// after returns the state after st consumes word w ("" for a word only wildcards accept).
func (s *Set) after(st *state, w string) *state {
	if n, ok := st.next[w]; ok {
		return n
	}
	var from []int
	for _, pc := range st.at {
		p := s.steps[pc]
		if p.kind == sAny || p.kind == sWord && w != "" && p.w == w {
			from = append(from, pc+1)
		}
	}
	n := s.settle(from)
	st.next[w] = n
	return n
}

// Near reports whether have is an accepted misspelling of want
// by a one-byte edit or by the equivalence of c and copyright.
func Near(want, have string) bool {
	isC := func(s string, extra bool) bool {
		return s == "c" || s == "copyright" || extra && (s == "©" || s == "&copy;")
	}
	if isC(want, false) && isC(have, true) {
		return true
	}
	return max(len(want), len(have)) >= 4 && OneEdit(want, have)
}

// OneEdit reports whether a and b differ by at most one byte insertion,
// deletion or substitution.
func OneEdit(a, b string) bool {
	if len(a) > len(b) {
		a, b = b, a
	}
	if len(b)-len(a) > 1 {
		return false
	}
	for i := 0; i < len(a); i++ {
		if a[i] != b[i] {
			if len(a) == len(b) {
				return a[i+1:] == b[i+1:]
			}
			return a[i:] == b[i+1:]
		}
	}
	return true
}

// An Outcome is the result of matching at one position: license and end word
// index (exclusive), or Lic == -1.
type Outcome struct{ Lic, End int }

// A move is one way to consume words from a state.
type move struct {
	to *state
	n  int // words consumed
}

// moves returns the ways to continue from st at word i. There is one way
// unless several corrections of the same word compete.
func (s *Set) moves(st *state, words []Word, i int) []move {
	w := words[i]
	if st.want[w.W] {
		return []move{{s.after(st, w.W), 1}}
	}
	var ms []move
	if !s.Strict {
		for want := range st.want {
			if i+1 < len(words) && want == w.Raw+words[i+1].Raw {
				ms = append(ms, move{s.after(st, want), 2})
				continue
			}
			if i+1 == len(words) && want == w.Raw {
				// A final word that, uncanonicalized, is an expected word.
				ms = append(ms, move{s.after(st, want), 2})
				continue
			}
			if len(w.Raw) > len(want) && strings.HasPrefix(w.Raw, want) {
				mid := s.after(st, want)
				rest := w.Raw[len(want):]
				if mid.want[rest] {
					ms = append(ms, move{s.after(mid, rest), 1})
					continue
				}
				if mid.any {
					ms = append(ms, move{s.after(mid, ""), 1})
					continue
				}
			}
			if Near(want, w.Raw) {
				ms = append(ms, move{s.after(st, want), 1})
			}
		}
	}
	if len(ms) > 1 {
		s.Ambiguous++
	}
	if len(ms) == 0 && st.any {
		ms = append(ms, move{s.after(st, ""), 1})
	}
	return ms
}

// At returns the possible outcomes of matching at word i (more than one only
// if the correction of some word is ambiguous). ok is false if there are too many.
func (s *Set) At(words []Word, i int) (outs []Outcome, ok bool) {
	none := []Outcome{{-1, 0}}
	if i+1 >= len(words) {
		return none, true
	}
	ids := s.phrase[[2]string{words[i].W, words[i+1].W}]
	if len(ids) == 0 {
		return none, true
	}
	var from []int
	for _, id := range ids {
		from = append(from, s.starts[id])
	}
	st := s.settle(from)
	st = s.after(st, words[i].W)
	st = s.after(st, words[i+1].W)

	type config struct {
		st *state
		o  Outcome
	}
	layers := map[int]map[config]bool{i + 2: {{st, Outcome{-1, 0}}: true}}
	res := map[Outcome]bool{}
	for k := i + 2; len(layers) > 0; k++ {
		for c := range layers[k] {
			if c.st.found >= 0 {
				c.o = Outcome{c.st.found, min(k, len(words))}
			}
			if k >= len(words) {
				res[c.o] = true
				continue
			}
			ms := s.moves(c.st, words, k)
			if len(ms) == 0 || len(c.st.at) == 0 {
				res[c.o] = true
				continue
			}
			for _, m := range ms {
				l := layers[k+m.n]
				if l == nil {
					l = map[config]bool{}
					layers[k+m.n] = l
				}
				l[config{m.to, c.o}] = true
				if len(l) > 200 {
					return nil, false
				}
			}
		}
		delete(layers, k)
	}
	for o := range res {
		outs = append(outs, o)
	}
	sort.Slice(outs, func(a, b int) bool {
		if outs[a].End != outs[b].End {
			return outs[a].End > outs[b].End
		}
		return outs[a].Lic < outs[b].Lic
	})
	return outs, true
}

// A Span is a license match in word indexes.
type Span struct{ Lic, Start, End int }

// Spans returns the possible lists of leftmost-longest matches (several only
// in ambiguous cases; ok is false if there are too many).
func (s *Set) Spans(words []Word) (lists [][]Span, ok bool) {
	const limit = 32
	memo := map[int][][]Span{}
	var from func(i int) ([][]Span, bool)
	from = func(i int) ([][]Span, bool) {
		for ; i+1 < len(words); i++ {
			if _, hit := s.phrase[[2]string{words[i].W, words[i+1].W}]; hit {
				break
			}
		}
		if i+1 >= len(words) {
			return [][]Span{nil}, true
		}
		if l, ok := memo[i]; ok {
			return l, true
		}
		outs, ok := s.At(words, i)
		if !ok {
			return nil, false
		}
		var res [][]Span
		for _, o := range outs {
			next := o.End
			if o.Lic < 0 {
				next = i + 1
			}
			tails, ok := from(next)
			if !ok {
				return nil, false
			}
			for _, t := range tails {
				if o.Lic >= 0 {
					t = append([]Span{{o.Lic, i, o.End}}, t...)
				}
				res = append(res, t)
			}
			if len(res) > limit {
				return nil, false
			}
		}
		memo[i] = res
		return res, true
	}
	return from(0)
}

// Describes reports whether words[lo:hi] is a text the LRE describes under
// spelling correction: the first two words exactly, wildcards up to their
// counts, no implicit cuts (which only remove matches).
func (s *Set) Describes(lic int, words []Word, lo, hi int) bool {
	return s.describes(lic, words, lo, hi, false)
}

// DescribesExactly is Describes without spelling correction.
func (s *Set) DescribesExactly(lic int, words []Word, lo, hi int) bool {
	return s.describes(lic, words, lo, hi, true)
}

// A spot is a set of steps with a fast membership test.
type spot struct {
	list []int
	mark map[int]bool
}

func (s *Set) add(p *spot, pc int) {
	for !p.mark[pc] {
		p.mark[pc] = true
		switch st := s.steps[pc]; st.kind {
		case sFork:
			s.add(p, pc+1)
			pc = st.to
		case sGoto:
			pc = st.to
		case sCut:
			pc++
		default:
			p.list = append(p.list, pc)
			return
		}
	}
}

func (s *Set) describes(lic int, words []Word, lo, hi int, exact bool) bool {
	if hi-lo < 2 || hi > len(words) {
		return false
	}
	// spots[k%3] holds the steps reachable before word lo+k.
	var spots [3]*spot
	for i := range spots {
		spots[i] = &spot{mark: map[int]bool{}}
	}
	s.add(spots[0], s.starts[lic])
	for k := 0; k < hi-lo; k++ {
		w := words[lo+k]
		cur, one, two := spots[k%3], spots[(k+1)%3], spots[(k+2)%3]
		if len(cur.list) == 0 && len(one.list) == 0 {
			return false
		}
		for _, pc := range cur.list {
			if st := s.steps[pc]; st.kind == sAny || st.kind == sWord && st.w == w.W {
				s.add(one, pc+1)
			}
		}
		if k >= 2 && !exact {
			// The text is corrected to say word here. That stands for any
			// wildcard's word just as well, also when the word is that of
			// another license.
			say := func(to *spot, word string) {
				for _, q := range cur.list {
					if t := s.steps[q]; t.kind == sAny || t.kind == sWord && t.w == word {
						s.add(to, q+1)
					}
				}
			}
			for _, pc := range cur.list {
				if st := s.steps[pc]; st.kind == sWord && st.w != w.W && (Near(st.w, w.Raw) || st.w == w.Raw) {
					say(one, st.w)
				}
			}
			if k+2 <= hi-lo {
				if j := w.Raw + words[lo+k+1].Raw; s.vocab[j] {
					say(two, j)
				}
			}
			for n := 1; n < len(w.Raw); n++ {
				if !s.vocab[w.Raw[:n]] {
					continue
				}
				mid := &spot{mark: map[int]bool{}}
				say(mid, w.Raw[:n])
				for _, q := range mid.list {
					if t := s.steps[q]; t.kind == sAny || t.kind == sWord && t.w == w.Raw[n:] {
						s.add(one, q+1)
					}
				}
			}
		}
		cur.list = cur.list[:0]
		clear(cur.mark)
	}
	for _, pc := range spots[(hi-lo)%3].list {
		if st := s.steps[pc]; st.kind == sFound && st.lic == lic {
			return true
		}
	}
	return false
}
