//go:build im

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sync"

	lc "github.com/google/licensecheck"
	"github.com/google/licensecheck/internal/match"
	"github.com/google/licensecheck/verifh/ref"
	"pgregory.net/rapid"
)

// A concurrent case: goroutines that scan texts with shared scanners.
type concurrent struct {
	Lics  []ref.License
	Texts []Text
	Plan  [][]int // for each goroutine, which texts in which order; -1 - i: text i with the built-in scanner; -1000: BuiltinLicenses
	Procs int
}

func genConcurrent(useBuiltin bool) func(t *rapid.T) concurrent {
	return func(t *rapid.T) concurrent {
		s := genLics(t, scanCfg{maxLics: 4, wild: 5, depth: 3, fancy: true, urls: true})
		c := concurrent{Lics: s.lics, Procs: between(t, 1, 8)}
		for i := between(t, 1, 4); i > 0; i-- {
			c.Texts = append(c.Texts, Text(s.text(t, scanCfg{fancy: true, urls: true, raw: true}, 6)))
		}
		if useBuiltin {
			for i := between(t, 1, 2); i > 0; i-- {
				c.Texts = append(c.Texts, Text(builtinText(t, 2, false)))
			}
		}
		for g := between(t, 2, 12); g > 0; g-- {
			var p []int
			for i := between(t, 1, 6); i > 0; i-- {
				k := intn(t, len(c.Texts))
				if useBuiltin && oneIn(t, 2) {
					k = -1 - k
					if oneIn(t, 6) {
						k = -1000
					}
				}
				p = append(p, k)
			}
			c.Plan = append(c.Plan, p)
		}
		return c
	}
}

// runPlan runs the goroutines of a case at once, and returns their results.
func runPlan(s *lc.Scanner, texts []Text, plan [][]int) (res [][]any, err error) {
	res = make([][]any, len(plan))
	errs := make([]error, len(plan))
	shared := make([][]byte, len(texts)) // the same bytes for all goroutines
	for i, t := range texts {
		shared[i] = []byte(t)
	}
	start := make(chan bool)
	var wg sync.WaitGroup
	for g, p := range plan {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					errs[g] = fmt.Errorf("panic: %v\n%s", e, debug.Stack())
				}
			}()
			<-start
			for _, k := range p {
				switch {
				case k == -1000:
					l := lc.BuiltinLicenses()
					res[g] = append(res[g], len(l))
					for i := range l {
						l[i].ID = "changed"
					}
				case k < 0:
					res[g] = append(res[g], lc.Scan(shared[-1-k]))
				default:
					res[g] = append(res[g], s.Scan(shared[k]))
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	for i, t := range texts {
		if !bytes.Equal(shared[i], []byte(t)) {
			return nil, fmt.Errorf("Scan changed its text %q to %q", t, shared[i])
		}
	}
	for _, e := range errs {
		if e != nil {
			return nil, e
		}
	}
	return res, nil
}

func checkConcurrent(c concurrent, o *Obs) error {
	s, err := newScanner(c.Lics)
	if err != nil {
		return err
	}
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(c.Procs))
	got, err := runPlan(s, c.Texts, c.Plan)
	if err != nil {
		return err
	}
	// Alone, on a scanner of its own.
	alone, err := newScanner(c.Lics)
	if err != nil {
		return err
	}
	matched := false
	for g, p := range c.Plan {
		for i, k := range p {
			var want any
			switch {
			case k == -1000:
				want = len(lc.BuiltinLicenses())
			case k < 0:
				cov := lc.Scan([]byte(c.Texts[-1-k]))
				want = cov
				matched = matched || len(cov.Match) > 0
			default:
				cov := alone.Scan([]byte(c.Texts[k]))
				want = cov
				matched = matched || len(cov.Match) > 0
			}
			if !reflect.DeepEqual(got[g][i], want) {
				return fmt.Errorf("goroutine %d, call %d, text %d: got %+v\nalone it returns %+v", g, i, k, got[g][i], want)
			}
		}
	}
	if matched && len(c.Plan) > 1 {
		o.Nontrivial()
	}
	o.LabelIf(len(c.Plan) > 6, "more than 6 goroutines")
	return nil
}

// A first case is run in a new process, where its goroutines make the first
// calls of the built-in scanner.
type first struct {
	Texts []Text
	Plan  [][]int
	Procs int
}

func genFirst(t *rapid.T) first {
	c := first{Procs: between(t, 2, 8)}
	for i := between(t, 1, 3); i > 0; i-- {
		c.Texts = append(c.Texts, Text(builtinText(t, 2, false)))
	}
	for g := between(t, 2, 8); g > 0; g-- {
		var p []int
		for i := between(t, 1, 3); i > 0; i-- {
			k := -1 - intn(t, len(c.Texts))
			if oneIn(t, 4) {
				k = -1000
			}
			p = append(p, k)
		}
		c.Plan = append(c.Plan, p)
	}
	return c
}

// firstCall runs in the new process.
func doFirstCall() {
	b, err := io.ReadAll(os.Stdin)
	if err != nil {
		die("%v", err)
	}
	var c first
	if err := json.Unmarshal(b, &c); err != nil {
		die("%v", err)
	}
	runtime.GOMAXPROCS(c.Procs)
	res, err := runPlan(nil, c.Texts, c.Plan)
	if err != nil {
		fmt.Println("VIOLATED", err)
		return
	}
	fmt.Printf("%+v", res)
}

func checkFirst(c first, o *Obs) error {
	js, _ := json.Marshal(c)
	out, err := runSelf("firstcall", js)
	if err != nil {
		return fmt.Errorf("concurrent first calls: %v", err)
	}
	var want [][]any
	for _, p := range c.Plan {
		var l []any
		for _, k := range p {
			if k == -1000 {
				l = append(l, len(lc.BuiltinLicenses()))
			} else {
				l = append(l, lc.Scan([]byte(c.Texts[-1-k])))
			}
		}
		want = append(want, l)
	}
	o.Nontrivial()
	if w := fmt.Sprintf("%+v", want); string(out) != w {
		return fmt.Errorf("concurrent first calls return\n%s\nlater calls return\n%s", out, w)
	}
	return nil
}

// A purity case: texts scanned in two orders.
type purity struct {
	Lics  []ref.License // none: built-in
	Texts []Text
	Order []int
}

func genPurity(t *rapid.T) purity {
	var c purity
	if oneIn(t, 4) {
		for i := between(t, 1, 3); i > 0; i-- {
			c.Texts = append(c.Texts, Text(builtinText(t, 2, oneIn(t, 3))))
		}
	} else {
		s := genLics(t, scanCfg{maxLics: 4, wild: 5, depth: 3, fancy: true, urls: true})
		c.Lics = s.lics
		for i := between(t, 1, 4); i > 0; i-- {
			c.Texts = append(c.Texts, Text(s.text(t, scanCfg{fancy: true, urls: true, raw: true}, 5)))
		}
		if oneIn(t, 2) {
			c.Texts = append(c.Texts, Text(rawBytes(t, 20)))
		}
	}
	for i := between(t, 0, 2); i > 0; i-- {
		c.Texts = append(c.Texts, Text(twin(t, string(pick(t, c.Texts)))))
	}
	for i := between(t, 2, 10); i > 0; i-- {
		c.Order = append(c.Order, intn(t, len(c.Texts)))
	}
	return c
}

func checkPurity(c purity, o *Obs) error {
	scan := lc.Scan
	if c.Lics != nil {
		s, err := newScanner(c.Lics)
		if err != nil {
			return err
		}
		scan = s.Scan
	}
	type result struct{ kept, copy lc.Coverage }
	seen := map[int]result{}
	for _, k := range c.Order {
		buf := make([]byte, len(c.Texts[k]), len(c.Texts[k])+16)
		copy(buf, c.Texts[k])
		extra := buf[len(buf):cap(buf)]
		for i := range extra {
			extra[i] = "(c) copyright zz"[i]
		}
		got := scan(buf)
		if string(buf) != string(c.Texts[k]) || string(extra) != "(c) copyright zz" {
			return fmt.Errorf("Scan changed its text %q (or the bytes after it) to %q, %q", c.Texts[k], buf, extra)
		}
		// The result does not depend on the buffer later on.
		for i := range buf {
			buf[i] = 'x'
		}
		if old, ok := seen[k]; ok {
			if !reflect.DeepEqual(got, old.copy) {
				return fmt.Errorf("scanning %q again: got %+v, the first time %+v", c.Texts[k], got, old.copy)
			}
			o.Nontrivial()
			continue
		}
		cp := lc.Coverage{Percent: got.Percent}
		if got.Match != nil {
			cp.Match = append([]lc.Match{}, got.Match...)
		}
		seen[k] = result{got, cp}
	}
	for k, r := range seen {
		if !reflect.DeepEqual(r.kept, r.copy) {
			return fmt.Errorf("the result of scanning %q changed later: %+v, was %+v", c.Texts[k], r.kept, r.copy)
		}
		// Changing a result changes no other.
		for i := range r.kept.Match {
			r.kept.Match[i] = lc.Match{}
		}
	}
	for k, r := range seen {
		if got := scan([]byte(c.Texts[k])); !reflect.DeepEqual(got, r.copy) {
			return fmt.Errorf("scanning %q after the caller changed earlier results: got %+v, want %+v", c.Texts[k], got, r.copy)
		}
	}
	o.LabelIf(c.Lics == nil, "built-in")
	for k, r := range seen {
		for l, x := range seen {
			if k < l && len(c.Texts[k]) == len(c.Texts[l]) && r.copy.Percent != x.copy.Percent {
				o.Label("texts of the same length with different results")
				o.LabelIf(len(c.Texts[k]) > 2000, "long texts of the same length with different results")
			}
		}
	}
	// What was scanned before makes no difference.
	for k := len(c.Texts) - 1; k >= 0; k-- {
		r, ok := seen[k]
		if !ok {
			continue
		}
		var other *lc.Scanner
		if c.Lics == nil {
			_, other = firstList()
		} else if s, err := newScanner(c.Lics); err == nil {
			other = s
		}
		if got := other.Scan([]byte(c.Texts[k])); got.Percent != r.copy.Percent || len(got.Match) != len(r.copy.Match) || len(got.Match) > 0 && !reflect.DeepEqual(got, r.copy) {
			return fmt.Errorf("scanning %q after other texts: %+v, by itself %+v", c.Texts[k], r.copy, got)
		}
	}
	return nil
}

// A dictRace case: concurrent readers of one dictionary and one MultiLRE.
type dictRace struct {
	LREs  []string
	Texts []Text
	N     int
}

func genDictRace(t *rapid.T) dictRace {
	s := genLics(t, scanCfg{maxLics: 3, wild: 4, depth: 2})
	c := dictRace{N: between(t, 2, 8)}
	for _, l := range s.lics {
		c.LREs = append(c.LREs, l.LRE)
	}
	for i := between(t, 1, 3); i > 0; i-- {
		c.Texts = append(c.Texts, Text(s.text(t, scanCfg{fancy: true, raw: true}, 4)))
	}
	return c
}

func checkDictRace(c dictRace, o *Obs) error {
	d := new(match.Dict)
	d.Insert("copyright")
	var list []*match.LRE
	for _, s := range c.LREs {
		if s == "" {
			continue
		}
		re, err := match.ParseLRE(d, "", s)
		if err != nil {
			return err
		}
		list = append(list, re)
	}
	m, err := match.NewMultiLRE(list)
	if err != nil {
		return err
	}
	work := func() (out string) {
		for _, t := range c.Texts {
			s := string(t)
			out += fmt.Sprint(m.Match(s).List, m.Dict().Split(s), m.Dict().Lookup(s), len(m.Dict().Words()), "\n")
		}
		return out
	}
	res := make([]string, c.N)
	var wg sync.WaitGroup
	for g := range c.N {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					res[g] = fmt.Sprintf("panic: %v\n%s", e, debug.Stack())
				}
			}()
			res[g] = work()
		}()
	}
	wg.Wait()
	want := work()
	o.Nontrivial()
	for g, r := range res {
		if r != want {
			return fmt.Errorf("goroutine %d: %s\nwant %s", g, r, want)
		}
	}
	return nil
}

// A long history: hundreds or thousands of scans by one scanner.
type longHistory struct {
	Lics  []ref.License
	Texts []Text
	Scans int
}

func genLong(t *rapid.T) longHistory {
	s := genLics(t, scanCfg{maxLics: 4, wild: 5, depth: 3, fancy: true, urls: true})
	c := longHistory{Lics: s.lics, Scans: pick(t, []int{40, 150, 300, 700, 1500, 5000})}
	for i := between(t, 1, 6); i > 0; i-- {
		c.Texts = append(c.Texts, Text(s.text(t, scanCfg{fancy: true, urls: true, raw: true}, 4)))
	}
	return c
}

// text is the i'th text that is scanned: one of the texts, most of them varied.
func (c longHistory) text(i int) []byte {
	t := string(c.Texts[i*7%len(c.Texts)])
	switch i % 5 {
	case 0: // as it is
	case 1:
		t += " " + codeWord(i) + " http://foo.org/x" + fmt.Sprint(i)
	case 2:
		t = codeWord(i) + " copyright " + t
	case 3:
		k := i * 31 % (len(t) + 1)
		t = t[:k] + " " + string(c.Texts[i%len(c.Texts)])
	case 4:
		k := i * 31 % (len(t) + 1)
		t = t[:k] + "x" + t[k:]
	}
	return []byte(t)
}

func checkLong(c longHistory, o *Obs) error {
	s, err := newScanner(c.Lics)
	if err != nil {
		return err
	}
	kept := map[int]lc.Coverage{}
	for i := 0; i < c.Scans; i++ {
		got := s.Scan(c.text(i))
		if i%41 == 0 || i > c.Scans-12 {
			kept[i] = got
		}
	}
	s2, err := newScanner(c.Lics)
	if err != nil {
		return err
	}
	matches := 0
	for i := c.Scans - 1; i >= 0; i-- {
		got, ok := kept[i]
		if !ok {
			continue
		}
		want := s2.Scan(c.text(i))
		matches += len(want.Match)
		if got.Percent != want.Percent || len(got.Match) != len(want.Match) || len(want.Match) > 0 && !reflect.DeepEqual(got.Match, want.Match) {
			return fmt.Errorf("scan %d of %d by a scanner for %+v\nof %q\ngot  %+v\nlater, and alone %+v", i+1, c.Scans, c.Lics, c.text(i), got, want)
		}
	}
	if matches > 0 {
		o.Nontrivial()
	}
	o.LabelIf(c.Scans >= 1000, "thousands of scans")
	return nil
}

func init() {
	subcommands["firstcall"] = doFirstCall
	register(&Prop{
		ID:   "C15",
		Race: true,
		Exec: true,
		Rule: "In a race-detecting build: 2 to 12 goroutines scanning the same texts with one shared random scanner and the built-in one on 1 to 8 processors; goroutines that make the very first calls of a new process; " +
			"concurrent readers of one MultiLRE and dictionary; and texts scanned in random order with repeats and with near twins of the same length, by themselves and thousands of times by one scanner, buffers overwritten and results changed by the caller. Oracle: no race report, results equal those of the call alone, " +
			"texts unchanged. Non-trivial: several goroutines and a match; a text scanned again.",
		Assumes: []string{"interleavings are those the scheduler produced under the race detector, which reports unsynchronized accesses whether or not they went wrong"},
		Subs: []Sub{
			NewSub("shared", 4000, 80000, genConcurrent(false), checkConcurrent),
			NewSub("with-builtin", 240, 4000, genConcurrent(true), checkConcurrent),
			NewSub("first-calls", 16, 320, genFirst, checkFirst),
			NewSub("readers", 2400, 50000, genDictRace, checkDictRace),
			NewSub("long", 160, 4000, genLong, checkLong),
			NewSub("purity", 8000, 200000, genPurity, checkPurity),
		},
	})
}
