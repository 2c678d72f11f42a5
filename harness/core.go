package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"reflect"
	"runtime/debug"
	"runtime/metrics"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"flag"
	"strconv"

	"pgregory.net/rapid"
)

// A Prop is a property of properties.jsonl with the checks that decide it.
type Prop struct {
	ID      string
	Rule    string   // how cases are made and what makes one non-trivial
	Assumes []string // assumptions
	Race    bool     // run in the -race build
	Exec    bool     // cases run other programs and may wait for them
	Subs    []Sub
}

// A Sub is one generated check of a property: a generator and an oracle.
type Sub struct {
	Name            string
	Quick, Thorough int // number of cases, over all workers
	draw            func(t *rapid.T) any
	blank           func() any
	check           func(c any, o *Obs) error
}

// NewSub makes a Sub from a generator of cases (which must survive a round
// trip through JSON) and an oracle.
func NewSub[T any](name string, quick, thorough int, gen func(*rapid.T) T, check func(T, *Obs) error) Sub {
	return Sub{
		Name: name, Quick: quick, Thorough: thorough,
		draw:  func(t *rapid.T) any { c := gen(t); return &c },
		blank: func() any { return new(T) },
		check: func(c any, o *Obs) error { return check(*c.(*T), o) },
	}
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Obs collects what a check observed about a case.
type Obs struct {
	nontrivial bool
	labels     map[string]int
	sample     any
}

// Nontrivial marks the case as non-trivial.
func (o *Obs) Nontrivial() { o.nontrivial = true }

// Label counts a class of cases.
func (o *Obs) Label(f string, args ...any) {
	if len(args) > 0 {
		f = fmt.Sprintf(f, args...)
	}
	o.labels[f]++
}

// LabelIf counts a class of cases if cond holds.
func (o *Obs) LabelIf(cond bool, f string) {
	if cond {
		o.labels[f]++
	}
}

// A Result is what one worker reports.
type Result struct {
	Evaluations int
	Subs        map[string]*SubResult
	Failure     *Failure
	Err         string // trouble in the check itself
	Truncated   bool   // soft deadline reached
}

// A SubResult is the part of a Result about one Sub.
type SubResult struct {
	Evaluations int
	Nontrivial  int
	Labels      map[string]int
	Hashes      []uint64 // of the distinct non-trivial cases
	Samples     []json.RawMessage
}

// A Failure is a minimized violation.
type Failure struct {
	Property string          `json:"property"`
	Sub      string          `json:"check"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
}

// fakeTB lets rapid run outside of go test.
type fakeTB struct {
	failed bool
	log    []string
}

type stopTB struct{}

func (f *fakeTB) Helper()                  {}
func (f *fakeTB) Name() string             { return "vh" }
func (f *fakeTB) Logf(s string, a ...any)  {}
func (f *fakeTB) Log(a ...any)             {}
func (f *fakeTB) Skipf(s string, a ...any) { panic(stopTB{}) }
func (f *fakeTB) Skip(a ...any)            { panic(stopTB{}) }
func (f *fakeTB) SkipNow()                 { panic(stopTB{}) }
func (f *fakeTB) Errorf(s string, a ...any) {
	f.failed = true
	f.log = append(f.log, fmt.Sprintf(s, a...))
}
func (f *fakeTB) Error(a ...any)            { f.failed = true; f.log = append(f.log, fmt.Sprint(a...)) }
func (f *fakeTB) Fatalf(s string, a ...any) { f.Errorf(s, a...); panic(stopTB{}) }
func (f *fakeTB) Fatal(a ...any)            { f.Error(a...); panic(stopTB{}) }
func (f *fakeTB) FailNow()                  { f.failed = true; panic(stopTB{}) }
func (f *fakeTB) Fail()                     { f.failed = true }
func (f *fakeTB) Failed() bool              { return f.failed }

// safely runs the oracle on a case; a panic is a violation, since every
// property includes that the code under test does not panic on its domain.
func (s *Sub) safely(c any, o *Obs) (err error) {
	defer func() {
		if e := recover(); e != nil {
			if h, ok := e.(harnessError); ok {
				die("%s", h.msg)
			}
			err = fmt.Errorf("panic: %v\n%s", e, debug.Stack())
		}
	}()
	return s.check(c, o)
}

// A harnessError is trouble that is not the code's under test.
type harnessError struct{ msg string }

func newObs() *Obs { return &Obs{labels: map[string]int{}} }

// cpu returns the CPU time this process has used.
func cpu() time.Duration {
	var r syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &r)
	return time.Duration(r.Utime.Nano() + r.Stime.Nano())
}

// Limits on one case. Cases take milliseconds; one that uses this much has
// run away, which violates every property that says what a call returns.
const (
	caseCPU    = 150 * time.Second
	caseMemory = 4 << 30
)

var current atomic.Pointer[running]

type running struct {
	sub   string
	c     any
	since time.Duration
}

func heap() uint64 {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// watch reports a case that has run away and ends the process.
func watch(p *Prop, report func(*Failure)) {
	var last *running
	var idle int
	for {
		time.Sleep(500 * time.Millisecond)
		r := current.Load()
		if r == nil {
			continue
		}
		if r != last {
			last, idle = r, 0
		}
		idle++
		why := ""
		if used := cpu() - r.since; used > caseCPU {
			why = fmt.Sprintf("does not return: used %v of CPU on one case", used.Round(time.Second))
		} else if h := heap(); h > caseMemory {
			why = fmt.Sprintf("does not return: uses %d MB on one case", h>>20)
		} else if idle >= 300 && !p.Exec && used < time.Second {
			why = "does not return: waits without computing"
		}
		if why != "" && current.Load() == r {
			js, _ := json.Marshal(r.c)
			report(&Failure{Property: p.ID, Sub: r.sub, Error: why, Case: js})
			os.Exit(0)
		}
	}
}

// runSub runs n cases of s.
func (s *Sub) run(id string, n int, seed uint64, deadline time.Time, trace *os.File) (*SubResult, *Failure, string, bool) {
	if seed == 0 {
		seed = 1
	}
	flag.Set("rapid.checks", strconv.Itoa(n))
	flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "25s")
	res := &SubResult{Labels: map[string]int{}}
	var fail *Failure
	truncated := false
	seen := map[uint64]bool{}
	tb := &fakeTB{}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(stopTB); !ok {
					panic(e)
				}
			}
		}()
		rapid.Check(tb, func(t *rapid.T) {
			if fail == nil && time.Now().After(deadline) {
				truncated = true
				return
			}
			c := s.draw(t)
			js, err := json.Marshal(c)
			if err != nil {
				panic(err)
			}
			if trace != nil {
				b, _ := json.Marshal(Failure{id, s.Name, "", js})
				trace.Truncate(0)
				trace.WriteAt(b, 0)
			}
			o := newObs()
			current.Store(&running{s.Name, c, cpu()})
			err = s.safely(c, o)
			if slow := os.Getenv("VH_SLOW"); slow != "" {
				if d, _ := time.ParseDuration(slow); cpu()-current.Load().since > d {
					fmt.Fprintf(os.Stderr, "slow %s/%s %v: %s\n", id, s.Name, cpu()-current.Load().since, js)
				}
			}
			current.Store(nil)
			if err != nil {
				fail = &Failure{Property: id, Sub: s.Name, Error: err.Error(), Case: js}
				t.Fatalf("violation")
			}
			if fail != nil {
				return // shrinking
			}
			res.Evaluations++
			for l, k := range o.labels {
				if k > 0 {
					res.Labels[l]++
				}
			}
			if o.nontrivial {
				res.Nontrivial++
				h := fnv.New64a()
				h.Write(js)
				if k := h.Sum64(); !seen[k] {
					seen[k] = true
					res.Hashes = append(res.Hashes, k)
					if len(res.Samples) < 2 && len(js) < 3000 || len(res.Samples) == 0 {
						if len(js) > 6000 {
							js, _ = json.Marshal(string(js[:6000]) + "...")
						}
						res.Samples = append(res.Samples, js)
					}
				}
			}
		})
	}()
	trouble := ""
	if tb.failed && fail == nil {
		trouble = strings.Join(tb.log, "\n")
	}
	return res, fail, trouble, truncated
}

// Replay runs one recorded case.
func replay(path string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	var f Failure
	if err := json.Unmarshal(b, &f); err != nil {
		return err
	}
	p := props[f.Property]
	if p == nil {
		return fmt.Errorf("unknown property %q", f.Property)
	}
	for i := range p.Subs {
		s := &p.Subs[i]
		if s.Name == f.Sub {
			c := s.blank()
			d := json.NewDecoder(bytes.NewReader(f.Case))
			if err := d.Decode(c); err != nil {
				return err
			}
			if err := s.safely(c, newObs()); err != nil {
				fmt.Printf("%s/%s: %v\n", f.Property, f.Sub, err)
				fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, path)
				os.Exit(1)
			}
			fmt.Printf("%s/%s: no violation\n", f.Property, f.Sub)
			return nil
		}
	}
	return fmt.Errorf("unknown check %q of %s", f.Sub, f.Property)
}

func diff(want, got any) error {
	if reflect.DeepEqual(want, got) {
		return nil
	}
	return fmt.Errorf("want %+v\ngot  %+v", want, got)
}
