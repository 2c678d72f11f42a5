package main

import (
	"github.com/google/licensecheck/verifh/ref"
	"pgregory.net/rapid"
)

// uniqueTree returns a pattern in which every literal word occurs once and
// wildcards (of up to wild words) stand between literals. next numbers the
// words used so far.
func uniqueTree(t *rapid.T, next *int, wild int) *ref.Node {
	u := &uniq{t: t, next: next, wild: wild, budget: 24, room: 2*wild + 8}
	m := cat()
	switch intn(t, 6) {
	case 0:
		m.Sub = append(m.Sub, &ref.Node{K: ref.Alt, Sub: []*ref.Node{u.lit(2, 3), u.lit(2, 4)}})
	case 1:
		m.Sub = append(m.Sub, &ref.Node{K: ref.Opt, Sub: []*ref.Node{u.lit(1, 3)}}, u.lit(2, 3))
	default:
		m.Sub = append(m.Sub, u.lit(2, 4))
	}
	n := intn(t, 6)
	for i := 0; i < n; i++ {
		m.Sub = append(m.Sub, u.node(3))
	}
	if m.EndsWild() {
		m.Sub = append(m.Sub, u.lit(1, 5))
	}
	return m
}

type uniq struct {
	t      *rapid.T
	next   *int
	wild   int
	budget int
	room   int // total wildcard count left (large sums make large automata)
}

func (u *uniq) lit(lo, hi int) *ref.Node {
	k := between(u.t, lo, hi)
	u.budget -= k
	var w []string
	for i := 0; i < k; i++ {
		w = append(w, codeWord(*u.next))
		*u.next++
	}
	return lit(w...)
}

func (u *uniq) node(depth int) *ref.Node {
	t := u.t
	if depth == 0 || u.budget <= 0 {
		return u.lit(1, 2)
	}
	switch intn(t, 8) {
	default:
		return u.lit(1, 5)
	case 2:
		m := cat()
		k := between(t, 2, 4)
		for i := 0; i < k; i++ {
			m.Sub = append(m.Sub, u.node(depth-1))
		}
		return m
	case 3, 4:
		m := &ref.Node{K: ref.Alt}
		k := between(t, 2, 3)
		for i := 0; i < k; i++ {
			m.Sub = append(m.Sub, u.node(depth-1))
		}
		return m
	case 5:
		return &ref.Node{K: ref.Opt, Sub: []*ref.Node{u.node(depth - 1)}}
	case 6, 7:
		if u.wild == 0 {
			return u.lit(1, 2)
		}
		n := between(t, 0, u.wild)
		if oneIn(t, 12) {
			n = between(t, u.wild, 3*u.wild)
		}
		n = min(n, u.room)
		u.room -= n
		return &ref.Node{K: ref.Wild, N: n}
	}
}
