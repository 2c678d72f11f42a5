package main

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"

	"github.com/google/licensecheck/old"
	"pgregory.net/rapid"
)

// C32: Checkers of package old are pure, separate and safe for concurrent use.

type oldCall struct {
	Checker, Text, Opts int
}

type oldHistory struct {
	Lists [][]oldLic
	Texts []Text
	Opts  []oldOpts
	Plan  [][]oldCall // for each goroutine
	Procs int
}

func genOldHistory(t *rapid.T) oldHistory {
	c := oldHistory{Procs: between(t, 1, 8)}
	for k := between(t, 1, 3); k > 0; k-- {
		var x oldCase
		switch intn(t, 3) {
		case 0:
			x = genOld(t)
		case 1:
			x = genOldDense(t)
		case 2:
			x = genOldMany(t)
		}
		c.Lists = append(c.Lists, x.Lics)
		c.Texts = append(c.Texts, x.Text)
		c.Opts = append(c.Opts, x.Opts)
	}
	home := []int{0, 1, 2, 0, 0} // of each text, the list it was made for
	for k := between(t, 0, 2); k > 0; k-- {
		i := intn(t, len(c.Texts))
		home[len(c.Texts)] = home[i]
		c.Texts = append(c.Texts, Text(twin(t, string(c.Texts[i]))))
	}
	if oneIn(t, 2) { // licenses of another list, whose words may be other checkers' words
		i, j := intn(t, len(c.Lists)), intn(t, len(c.Lists))
		c.Lists = append(c.Lists, append(append([]oldLic(nil), c.Lists[i]...), c.Lists[j]...))
	}
	if oneIn(t, 2) {
		c.Opts = append(c.Opts, oldOpts{})
	}
	for g := between(t, 1, 8); g > 0; g-- {
		var p []oldCall
		for i := between(t, 1, 8); i > 0; i-- {
			x := oldCall{intn(t, len(c.Lists)), intn(t, len(c.Texts)), intn(t, len(c.Opts))}
			if oneIn(t, 2) { // what belongs together
				x.Checker = home[x.Text]
				x.Opts = home[x.Text]
			}
			p = append(p, x)
		}
		c.Plan = append(c.Plan, p)
	}
	return c
}

type oldResult struct {
	Cov   old.Coverage
	Found bool
}

func (r oldResult) clone() oldResult {
	r.Cov.Match = append([]old.Match(nil), r.Cov.Match...)
	return r
}

func sameOldResult(a, b oldResult) bool {
	return a.Found == b.Found && a.Cov.Percent == b.Cov.Percent && len(a.Cov.Match) == len(b.Cov.Match) && (len(a.Cov.Match) == 0 || reflect.DeepEqual(a.Cov.Match, b.Cov.Match))
}

func checkOldHistory(c oldHistory, o *Obs) error {
	// One slice holds all lists, and is overwritten once the checkers are made.
	var shared []old.License
	var checkers []*old.Checker
	for _, l := range c.Lists {
		n := len(shared)
		for _, x := range l {
			shared = append(shared, old.License{Name: x.Name, Text: string(x.Text), URL: x.URL})
		}
		before := append([]old.License(nil), shared[n:]...)
		checkers = append(checkers, old.New(shared[n:]))
		if !reflect.DeepEqual(before, append([]old.License(nil), shared[n:]...)) {
			return fmt.Errorf("New changed its list %+v to %+v", before, shared[n:])
		}
	}
	for i := range shared {
		shared[i] = old.License{Name: "changed", Text: "changed " + strings.ToUpper(shared[i].Text), URL: "changed.com/changed"}
	}

	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(c.Procs))
	texts := make([][]byte, len(c.Texts)) // the same bytes for all goroutines
	for i, t := range c.Texts {
		texts[i] = append(make([]byte, 0, len(t)+8), t...)
		copy(texts[i][len(t):cap(texts[i])], "mit mit mit")
	}
	first := make([][]oldResult, len(c.Plan))
	copies := make([][]oldResult, len(c.Plan))
	errs := make([]error, len(c.Plan))
	start := make(chan bool)
	var wg sync.WaitGroup
	for g, p := range c.Plan {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					errs[g] = fmt.Errorf("panic: %v\n%s", e, debug.Stack())
				}
			}()
			<-start
			for _, x := range p {
				cov, found := checkers[x.Checker].Cover(texts[x.Text], c.Opts[x.Opts].opts())
				first[g] = append(first[g], oldResult{cov, found})
				copies[g] = append(copies[g], oldResult{cov, found}.clone())
			}
		}()
	}
	close(start)
	wg.Wait()
	for g := range errs {
		if errs[g] != nil {
			return errs[g]
		}
	}
	for i, t := range c.Texts {
		if string(texts[i]) != string(t) || string(texts[i][len(t):cap(texts[i])]) != "mit mit mit"[:cap(texts[i])-len(t)] {
			return fmt.Errorf("Cover changed its text %q (or the bytes after it) to %q", t, texts[i][:cap(texts[i])])
		}
		for j := range texts[i] {
			texts[i][j] = 'x'
		}
	}
	calls := 0
	for g, p := range c.Plan {
		for i, x := range p {
			// Alone, with a new checker.
			cov, found := newOld(c.Lists[x.Checker]).Cover([]byte(c.Texts[x.Text]), c.Opts[x.Opts].opts())
			want := oldResult{cov, found}
			if !sameOldResult(copies[g][i], want) {
				return fmt.Errorf("goroutine %d, call %d covering %q (%+v)\nfor %+v\ngot  %+v\nalone %+v", g, i, c.Texts[x.Text], c.Opts[x.Opts], c.Lists[x.Checker], copies[g][i], want)
			}
			if !sameOldResult(first[g][i], want) {
				return fmt.Errorf("goroutine %d, call %d: the result was changed later to %+v, was %+v", g, i, first[g][i], want)
			}
			for j := range first[g][i].Cov.Match {
				first[g][i].Cov.Match[j] = old.Match{Name: "changed", End: -1}
			}
			calls++
			if len(want.Cov.Match) > 0 && calls > 1 {
				o.Nontrivial()
			}
		}
	}
	// Whatever was done to results, checkers and texts are the same.
	for _, p := range c.Plan {
		x := p[len(p)-1]
		cov, found := checkers[x.Checker].Cover([]byte(c.Texts[x.Text]), c.Opts[x.Opts].opts())
		wcov, wfound := newOld(c.Lists[x.Checker]).Cover([]byte(c.Texts[x.Text]), c.Opts[x.Opts].opts())
		if !sameOldResult(oldResult{cov, found}, oldResult{wcov, wfound}) {
			return fmt.Errorf("after %d calls, covering %q (%+v)\nfor %+v\ngot  %+v\na new checker %+v", calls, c.Texts[x.Text], c.Opts[x.Opts], c.Lists[x.Checker], cov, wcov)
		}
	}
	o.LabelIf(len(c.Plan) > 1, "several goroutines")
	o.LabelIf(len(c.Lists) > 1, "several checkers")
	return nil
}

// A long history: hundreds or thousands of calls of one checker.
type oldLong struct {
	oldCase
	Calls int
}

func genOldLong(t *rapid.T) oldLong {
	gen := pick(t, []func(*rapid.T) oldCase{genOld, genOldDense, genOldMany})
	return oldLong{gen(t), pick(t, []int{40, 150, 300, 700, 1500, 5000})}
}

// text is the i'th text: mostly the text with something inserted.
func (c oldLong) text(i int) []byte {
	t := string(c.Text)
	k := i * 31 % (len(t) + 1)
	switch i % 4 {
	case 1:
		t = t[:k] + " " + codeWord(i) + " " + t[k:]
	case 2:
		t = t[:k] + " www.foo.org/x" + fmt.Sprint(i) + " " + t
	case 3:
		t = t[:k] + "x" + t[k:]
	}
	return []byte(t)
}

func checkOldLong(c oldLong, o *Obs) error {
	ch := newOld(c.Lics)
	kept := map[int]oldResult{}
	for i := 0; i < c.Calls; i++ {
		cov, found := ch.Cover(c.text(i), c.Opts.opts())
		if i%41 == 0 || i > c.Calls-12 {
			kept[i] = oldResult{cov, found}
		}
	}
	ch2 := newOld(c.Lics)
	for i := c.Calls - 1; i >= 0; i-- {
		got, ok := kept[i]
		if !ok {
			continue
		}
		cov, found := ch2.Cover(c.text(i), c.Opts.opts())
		want := oldResult{cov, found}
		if !sameOldResult(got, want) {
			return fmt.Errorf("call %d of %d of a checker of %+v\nwith %q (%+v)\ngot  %+v\nlater, and alone %+v", i+1, c.Calls, c.Lics, c.text(i), c.Opts, got, want)
		}
		if len(want.Cov.Match) > 0 {
			o.Nontrivial()
		}
	}
	o.LabelIf(c.Calls >= 1000, "thousands of calls")
	return nil
}

func init() {
	register(&Prop{
		ID:   "C32",
		Race: true,
		Rule: "In a race-detecting build: one to four Checkers of package old, made from parts of one slice that is overwritten afterwards, and 1 to 8 goroutines that cover the same texts with them on 1 to 8 processors in random order with random options, some texts near twins of others; thousands of calls of one checker. " +
			"Oracle: no race report; results equal those of a new Checker alone, then and later; lists, texts and the bytes after them unchanged; changes to results have no effect. Non-trivial: a call other than the first gives a match.",
		Assumes: []string{"interleavings are those the scheduler produced under the race detector, which reports unsynchronized accesses whether or not they went wrong"},
		Subs: []Sub{
			NewSub("histories", 4000, 100000, genOldHistory, checkOldHistory),
			NewSub("long", 160, 4000, genOldLong, checkOldLong),
		},
	})
}
