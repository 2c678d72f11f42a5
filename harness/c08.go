//go:build im

package main

import (
	"fmt"
	"strings"

	"github.com/google/licensecheck/internal/match"
	"github.com/google/licensecheck/verifh/ref"
	"pgregory.net/rapid"
)

// A dictOp is an operation on one of two dictionaries.
type dictOp struct {
	Dict int
	Op   string // insert, lookup, insertsplit, split, words
	Arg  Text
}

type dictHistory struct{ Ops []dictOp }

func genHistory(t *rapid.T) dictHistory {
	var h dictHistory
	words := []string{"", "a", "b", "A", "the", "this", "copyright", "©", "c", "é", "\xff", "a b", "s", "words", "日本"}
	for i := intn(t, 30); i > 0; i-- {
		words = append(words, codeWord(i))
	}
	// Words of all lengths, alike and unlike.
	for i := intn(t, 4); i > 0; i-- {
		k := between(t, 1, 9)
		if oneIn(t, 2) {
			k = between(t, 1, 80)
		}
		if oneIn(t, 10) {
			k = between(t, 1, 70000)
		}
		w := strings.Repeat(pick(t, []string{"x", "xy", "é", "日"}), k)
		words = append(words, w, w+pick(t, []string{"a", "b"}))
	}
	n := between(t, 1, 40)
	for i := 0; i < n; i++ {
		op := dictOp{Dict: intn(t, 2), Op: pick(t, []string{"insert", "insert", "lookup", "lookup", "insertsplit", "split", "words"})}
		switch op.Op {
		case "insert", "lookup":
			op.Arg = Text(pick(t, words))
			if oneIn(t, 8) {
				op.Arg = Text(rawBytes(t, 2))
			}
		case "insertsplit", "split":
			k := between(t, 0, 6)
			s := ""
			for j := 0; j < k; j++ {
				s += pick(t, words) + pick(t, []string{" ", " ", "<b>", "\n", "", "(s) "})
			}
			if oneIn(t, 8) {
				s = rawBytes(t, 6)
			}
			op.Arg = Text(s)
		}
		h.Ops = append(h.Ops, op)
	}
	return h
}

func checkHistory(h dictHistory, o *Obs) error {
	type model struct {
		list []string
		id   map[string]int
	}
	var ds [2]match.Dict
	var ms [2]model
	ms[0].id, ms[1].id = map[string]int{}, map[string]int{}
	var held [][]string // word lists handed out earlier
	var heldWant [][]string
	for i, op := range h.Ops {
		d, m := &ds[op.Dict], &ms[op.Dict]
		arg := string(op.Arg)
		insert := func(w string) int {
			id, ok := m.id[w]
			if !ok {
				id = len(m.list)
				m.list = append(m.list, w)
				m.id[w] = id
			}
			return id
		}
		lookup := func(w string) int {
			if id, ok := m.id[w]; ok {
				return id
			}
			return int(match.BadWord)
		}
		bad := func(f string, a ...any) error {
			return fmt.Errorf("step %d %+v: %s", i, op, fmt.Sprintf(f, a...))
		}
		before := len(m.list)
		switch op.Op {
		case "insert":
			if got, want := int(d.Insert(arg)), insert(arg); got != want {
				return bad("id %d, want %d", got, want)
			}
		case "lookup":
			if got, want := int(d.Lookup(arg)), lookup(arg); got != want {
				return bad("id %d, want %d", got, want)
			}
		case "words":
			w := d.Words()
			held = append(held, w)
			heldWant = append(heldWant, append([]string(nil), m.list...))
		case "insertsplit", "split":
			find, split, collapse := lookup, d.Split, lookup("copyright") >= 0
			if op.Op == "insertsplit" {
				find, split, collapse = insert, d.InsertSplit, true
			}
			var want, got []int
			for _, w := range ref.Split(arg, collapse) {
				want = append(want, find(w.W))
			}
			for _, w := range split(arg) {
				got = append(got, int(w.ID))
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				return bad("ids %v, want %v", got, want)
			}
		}
		o.LabelIf(before < len(m.list) && before > 0, "grew")
		for k := range ds {
			if fmt.Sprintf("%q", ds[k].Words()) != fmt.Sprintf("%q", ms[k].list) {
				return bad("dictionary %d lists %q, want %q", k, ds[k].Words(), ms[k].list)
			}
		}
	}
	for k, l := range held {
		if fmt.Sprintf("%q", l) != fmt.Sprintf("%q", heldWant[k]) {
			return fmt.Errorf("a word list handed out earlier changed: %q, want %q", l, heldWant[k])
		}
	}
	for k := range ds {
		for i, w := range ms[k].list {
			if int(ds[k].Lookup(w)) != i || int(ds[k].Insert(w)) != i {
				return fmt.Errorf("dictionary %d: %q has id %d, want %d", k, w, ds[k].Lookup(w), i)
			}
		}
	}
	if len(ms[0].list)+len(ms[1].list) > 2 {
		o.Nontrivial()
	}
	return nil
}

// A bigDict grows a dictionary to many words.
type bigDict struct {
	N, Step int
	Probe   []int
}

func genBigDict(t *rapid.T) bigDict {
	c := bigDict{N: between(t, 1, 70000), Step: between(t, 1, 1000)}
	for i := between(t, 1, 20); i > 0; i-- {
		c.Probe = append(c.Probe, intn(t, 140000))
	}
	return c
}

func checkBigDict(c bigDict, o *Obs) error {
	var d match.Dict
	name := func(i int) string { return fmt.Sprint("w", i) }
	for i := 0; i < c.N; i++ {
		if got := d.Insert(name(i)); int(got) != i {
			return fmt.Errorf("word %d got id %d", i, got)
		}
		if i%c.Step == 0 {
			if got := d.Insert(name(i / 2)); int(got) != i/2 {
				return fmt.Errorf("word %d got id %d again", i/2, got)
			}
		}
	}
	o.LabelIf(c.N > 1<<15, "over 32768 words")
	o.LabelIf(c.N > 1<<16, "over 65536 words")
	o.Nontrivial()
	if len(d.Words()) != c.N {
		return fmt.Errorf("%d words, want %d", len(d.Words()), c.N)
	}
	for _, p := range c.Probe {
		want := p
		if p >= c.N {
			want = int(match.BadWord)
		}
		if got := d.Lookup(name(p)); int(got) != want {
			return fmt.Errorf("word %d: id %d, want %d", p, got, want)
		}
		if p < c.N && d.Words()[p] != name(p) {
			return fmt.Errorf("id %d is word %q", p, d.Words()[p])
		}
		ws := d.Split(name(p))
		if len(ws) != 1 || int(ws[0].ID) != want {
			return fmt.Errorf("Split(%q) = %v, want id %d", name(p), ws, want)
		}
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C08",
		Rule: "Random histories of Insert, Lookup, InsertSplit, Split and Words on two dictionaries with words that repeat, fold together, are empty, long or not UTF-8, and dictionaries of up to 70000 words. " +
			"Oracle: a list-and-map model compared after every step, word lists handed out earlier, and all ids at the end. Non-trivial: more than two words inserted.",
		Subs: []Sub{
			NewSub("history", 30000, 1000000, genHistory, checkHistory),
			NewSub("big", 48, 1000, genBigDict, checkBigDict),
		},
	})
}
