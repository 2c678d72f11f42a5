// Command vh runs the property checks of /verif against /repo.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
)

var (
	tier    = "quick"
	seed    = int64(1)
	outDir  = "/verif"
	scratch string
	repo    = "/repo"
)

// subcommands run in processes of their own.
var subcommands = map[string]func(){}

// runSelf runs a subcommand.
func runSelf(name string, in []byte) ([]byte, error) {
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	cmd := exec.Command(self, name)
	cmd.Stdin = bytes.NewReader(in)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var eb strings.Builder
	cmd.Stderr = &eb
	out, err := cmd.Output()
	if err != nil {
		for _, s := range append([]string{"panic: "}, fatalSigns...) {
			if strings.Contains(eb.String(), s) {
				return nil, fmt.Errorf("%v\n%.4000s", err, eb.String())
			}
		}
		panic(harnessError{fmt.Sprintf("child: %v\n%.2000s", err, eb.String())})
	}
	return out, nil
}

func envSeed() int64 {
	s := os.Getenv("VERIF_SEED")
	if s == "" {
		return 1
	}
	if n, err := strconv.ParseInt(s, 10, 64); err == nil {
		return n
	}
	h := fnv.New64a()
	h.Write([]byte(s))
	return int64(h.Sum64() >> 1)
}

func mix(parts ...any) uint64 {
	h := fnv.New64a()
	fmt.Fprintln(h, parts...)
	z := h.Sum64()
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return (z ^ (z >> 31)) >> 1
}

func die(format string, args ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", args...)
	os.Exit(3)
}

func main() {
	testing.Init()
	flag.CommandLine.Parse(nil)
	if d := os.Getenv("VH_OUT"); d != "" {
		outDir = d
	}
	if d := os.Getenv("VH_REPO"); d != "" {
		repo = d
	}
	seed = envSeed()
	args := os.Args[1:]
	if len(args) < 1 {
		die("usage: vh check ID tier | replay FILE | list")
	}
	switch args[0] {
	case "list":
		var ids []string
		for id, p := range props {
			if p.Race {
				id += " race"
			}
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
	case "replay":
		scratchDir()
		if err := replay(args[1]); err != nil {
			die("%v", err)
		}
	case "worker":
		// worker ID tier index count deadline outfile [trace]
		idx, _ := strconv.Atoi(args[3])
		n, _ := strconv.Atoi(args[4])
		dl, _ := strconv.ParseInt(args[5], 10, 64)
		tr := ""
		if len(args) > 7 {
			tr = args[7]
		}
		worker(args[1], args[2], idx, n, time.Unix(dl, 0), args[6], tr)
	case "check":
		tier = args[2]
		check(args[1])
	default:
		if f := subcommands[args[0]]; f != nil {
			f()
			return
		}
		die("unknown command %s", args[0])
	}
}

func scratchDir() {
	d, err := os.MkdirTemp("", "vh-")
	if err != nil {
		die("%v", err)
	}
	scratch = d
}

// worker runs its share of the cases of every sub-check.
func worker(id, tr string, idx, n int, deadline time.Time, out, traceFile string) {
	p := props[id]
	if p == nil {
		die("unknown property %s", id)
	}
	scratch = filepath.Dir(out)
	res := &Result{Subs: map[string]*SubResult{}}
	var mu sync.Mutex
	write := func() {
		b, err := json.Marshal(res)
		if err != nil {
			die("%v", err)
		}
		if err := os.WriteFile(out, b, 0o666); err != nil {
			die("%v", err)
		}
	}
	go watch(p, func(f *Failure) {
		mu.Lock()
		res.Failure = f
		write()
	})
	var trace *os.File
	if traceFile != "" {
		var err error
		if trace, err = os.Create(traceFile); err != nil {
			die("%v", err)
		}
	}
	only := os.Getenv("VH_SUB")
	for i := range p.Subs {
		s := &p.Subs[i]
		if only != "" && only != s.Name {
			continue
		}
		total := s.Quick
		if tr == "thorough" {
			total = s.Thorough
		}
		if f, err := strconv.ParseFloat(os.Getenv("VH_SCALE"), 64); err == nil {
			total = int(float64(total) * f)
		}
		k := total / n
		if idx < total%n {
			k++
		}
		if k == 0 {
			continue
		}
		t0 := time.Now()
		r, f, trouble, trunc := s.run(id, k, mix(seed, id, s.Name, idx, n), deadline, trace)
		if os.Getenv("VH_TIME") != "" {
			fmt.Fprintf(os.Stderr, "%s/%s worker %d: %d cases in %v\n", id, s.Name, idx, k, time.Since(t0).Round(time.Millisecond))
		}
		mu.Lock()
		res.Subs[s.Name] = r
		res.Evaluations += r.Evaluations
		res.Truncated = res.Truncated || trunc
		res.Failure = f
		res.Err = trouble
		mu.Unlock()
		if f != nil || trouble != "" {
			break
		}
	}
	mu.Lock()
	write()
}

// fatalSigns are messages with which the Go runtime ends a process in which
// the code under test did something that cannot be recovered from.
var fatalSigns = []string{
	"WARNING: DATA RACE", "fatal error: concurrent map", "stack overflow", "goroutine stack exceeds",
	"all goroutines are asleep - deadlock!",
}

func check(id string) {
	p := props[id]
	if p == nil {
		die("unknown property %s", id)
	}
	start := time.Now()
	scratchDir()
	defer os.RemoveAll(scratch)
	n := 8
	soft := 450 * time.Second
	if tier == "thorough" {
		soft = 40 * time.Minute
	}
	deadline := start.Add(soft)
	results := make([]*Result, n)
	errs := make([]string, n)
	procs := make(chan bool, max(2, min(n, runtime.NumCPU())))
	var wg sync.WaitGroup
	self, err := os.Executable()
	if err != nil {
		die("%v", err)
	}
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			procs <- true
			defer func() { <-procs }()
			results[i], errs[i] = spawn(self, p, i, n, deadline)
		}()
	}
	wg.Wait()

	// Aggregate.
	evals, nontrivial, truncated := 0, 0, false
	subs := map[string]any{}
	var samples []any
	var failures []*Failure
	for si := range p.Subs {
		name := p.Subs[si].Name
		ev, nt := 0, 0
		labels := map[string]int{}
		seen := map[uint64]bool{}
		first := true
		for _, r := range results {
			if r == nil || r.Subs[name] == nil {
				continue
			}
			s := r.Subs[name]
			ev += s.Evaluations
			for _, h := range s.Hashes {
				seen[h] = true
			}
			for l, k := range s.Labels {
				labels[l] += k
			}
			if first && len(s.Samples) > 0 {
				first = false
				for _, c := range s.Samples {
					samples = append(samples, map[string]any{"check": name, "case": c})
				}
			}
		}
		nt = len(seen)
		evals += ev
		nontrivial += nt
		subs[name] = map[string]any{"evaluations": ev, "distinct_nontrivial": nt, "classes": labels}
	}
	for i, r := range results {
		if r != nil {
			truncated = truncated || r.Truncated
			if r.Failure != nil {
				failures = append(failures, r.Failure)
			}
			if r.Err != "" && errs[i] == "" {
				errs[i] = r.Err
			}
		}
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":         evals,
			"distinct_nontrivial": nontrivial,
			"rule":                p.Rule,
			"samples":             samples,
			"checks":              subs,
			"truncated":           truncated,
		},
		"assumptions": p.Assumes,
		"violations":  len(failures),
		"wall_s":      time.Since(start).Seconds(),
	}
	if p.Assumes == nil {
		ev["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		die("%v", err)
	}
	os.MkdirAll(filepath.Join(outDir, "evidence"), 0o777)
	if err := os.WriteFile(filepath.Join(outDir, "evidence", id+".json"), append(b, '\n'), 0o666); err != nil {
		die("%v", err)
	}

	if len(failures) > 0 {
		sort.Slice(failures, func(i, j int) bool { return len(failures[i].Case) < len(failures[j].Case) })
		f := failures[0]
		dir := filepath.Join(outDir, "replays")
		os.MkdirAll(dir, 0o777)
		path := filepath.Join(dir, id+"-"+f.Sub+".json")
		b, _ := json.MarshalIndent(f, "", " ")
		if err := os.WriteFile(path, append(b, '\n'), 0o666); err != nil {
			die("%v", err)
		}
		fmt.Printf("%s/%s: %s\ncase: %.3000s\n", id, f.Sub, f.Error, f.Case)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		os.RemoveAll(scratch)
		os.Exit(1)
	}
	bad := false
	for i, e := range errs {
		if e != "" {
			bad = true
			fmt.Fprintf(os.Stderr, "worker %d: %s\n", i, e)
		}
	}
	if bad {
		os.RemoveAll(scratch)
		os.Exit(3)
	}
	fmt.Printf("ok property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs\n",
		id, tier, seed, evals, nontrivial, time.Since(start).Seconds())
}

// spawn runs one worker process. If it dies of something fatal that the code
// under test did, a second run that records each case finds out on which one.
func spawn(self string, p *Prop, i, n int, deadline time.Time) (*Result, string) {
	dir := filepath.Join(scratch, fmt.Sprintf("w%d", i))
	if err := os.MkdirAll(dir, 0o777); err != nil {
		return nil, err.Error()
	}
	out := filepath.Join(dir, "result.json")
	once := func(trace string) (string, error) {
		args := []string{"worker", p.ID, tier, strconv.Itoa(i), strconv.Itoa(n), strconv.FormatInt(deadline.Unix(), 10), out}
		if trace != "" {
			args = append(args, trace)
		}
		cmd := exec.Command(self, args...)
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=2", "GOMAXPROCS="+map[bool]string{false: "2", true: "4"}[p.Race], "TMPDIR="+dir)
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		var eb strings.Builder
		cmd.Stderr = &eb
		runtime.LockOSThread()
		err := cmd.Run()
		runtime.UnlockOSThread()
		if os.Getenv("VH_TIME")+os.Getenv("VH_SLOW") != "" {
			fmt.Fprint(os.Stderr, eb.String())
		}
		return eb.String(), err
	}
	sign := func(msg string) bool {
		for _, s := range fatalSigns {
			if strings.Contains(msg, s) {
				return true
			}
		}
		return false
	}
	msg, err := once("")
	if err == nil {
		b, err := os.ReadFile(out)
		if err != nil {
			return nil, err.Error()
		}
		r := new(Result)
		if err := json.Unmarshal(b, r); err != nil {
			return nil, err.Error()
		}
		return r, ""
	}
	if !sign(msg) {
		return nil, fmt.Sprintf("died: %v\n%.4000s", err, msg)
	}
	trace := filepath.Join(dir, "trace.json")
	msg2, err2 := once(trace)
	f := &Failure{Property: p.ID, Sub: p.Subs[0].Name, Error: msg, Case: json.RawMessage("null")}
	if err2 != nil && sign(msg2) {
		if b, err := os.ReadFile(trace); err == nil {
			var g Failure
			if json.Unmarshal(b, &g) == nil {
				f.Sub, f.Case, f.Error = g.Sub, g.Case, msg2
			}
		}
	}
	if len(f.Error) > 6000 {
		f.Error = f.Error[:6000]
	}
	return &Result{Subs: map[string]*SubResult{}, Failure: f}, ""
}
