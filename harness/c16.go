package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"reflect"
	"regexp"
	"strings"
	"sync"

	lc "github.com/google/licensecheck"
	"pgregory.net/rapid"
)

// The list BuiltinLicenses returned first, before anything else was called,
// and a scanner for it. The first list is then overwritten.
var firstList = sync.OnceValues(func() ([]lc.License, *lc.Scanner) {
	l := lc.BuiltinLicenses()
	keep := append([]lc.License(nil), l...)
	s, err := lc.NewScanner(keep)
	if err != nil {
		panic(fmt.Sprintf("NewScanner(BuiltinLicenses()): %v", err))
	}
	for i := range l {
		l[i] = lc.License{ID: "X", LRE: "overwritten license text", URL: "x.org/x", Type: 77}
	}
	return keep, s
})

type sameCase struct {
	Text Text
	Del  []int // entries of the next list to overwrite
}

func checkSame(c sameCase, o *Obs) error {
	keep, s := firstList()
	l := lc.BuiltinLicenses()
	if !reflect.DeepEqual(l, keep) {
		for i := range keep {
			if i < len(l) && l[i] != keep[i] {
				return fmt.Errorf("BuiltinLicenses() is not what it returned first: entry %d is %s %q %v, was %s %q %v", i, l[i].ID, l[i].URL, l[i].Type, keep[i].ID, keep[i].URL, keep[i].Type)
			}
		}
		return fmt.Errorf("BuiltinLicenses() has %d entries, had %d", len(l), len(keep))
	}
	for _, i := range c.Del {
		l[i%len(l)] = lc.License{ID: "Y", LRE: "another text", URL: "x.org/y", Type: 78}
	}
	if len(c.Del) > 0 {
		l = append(l[:c.Del[0]%len(l)], lc.License{ID: "Z"})
		_ = l
	}
	want := s.Scan([]byte(c.Text))
	got := lc.Scan([]byte(c.Text))
	lic, url := 0, 0
	for _, m := range want.Match {
		if m.IsURL {
			url++
		} else {
			lic++
		}
	}
	o.LabelIf(lic > 0, "license match")
	o.LabelIf(url > 0, "URL match")
	o.LabelIf(lic+url == 0, "no match")
	if lic+url > 0 {
		o.Nontrivial()
	}
	if !reflect.DeepEqual(got, want) && (len(got.Match)+len(want.Match) > 0 || got.Percent != want.Percent) {
		return fmt.Errorf("scanning %q\nbuilt-in %+v\nNewScanner(BuiltinLicenses()) %+v", trunc(string(c.Text)), got, want)
	}
	return nil
}

func genSame(text func(*rapid.T) string) func(*rapid.T) sameCase {
	return func(t *rapid.T) sameCase {
		c := sameCase{Text: Text(text(t)), Del: []int{}}
		for k := intn(t, 4); k > 0; k-- {
			c.Del = append(c.Del, intn(t, 2000))
		}
		return c
	}
}

var (
	urlVersion = regexp.MustCompile(`[0-9]+\.[0-9]+[a-z]?\b`)
	ccURL      = regexp.MustCompile(`^creativecommons\.org/licenses/([a-z-]+)/([0-9.]+)$`)
)

// An entry of the list, by position.
type entryCase struct{ I, J int }

func checkEntry(c entryCase, o *Obs) error {
	l := lc.BuiltinLicenses()
	e := l[c.I%len(l)]
	if (e.LRE == "") == (e.URL == "") {
		return fmt.Errorf("entry %d (%s) has LRE %q and URL %q", c.I%len(l), e.ID, trunc(e.LRE), e.URL)
	}
	lres, urls := 0, 0
	for _, x := range l {
		if x.ID == e.ID && x.LRE != "" {
			lres++
			if x.Type != e.Type {
				return fmt.Errorf("%s has type %v in one entry and %v in another", e.ID, e.Type, x.Type)
			}
		}
		if e.URL != "" && x.URL == e.URL {
			urls++
		}
	}
	o.LabelIf(e.URL != "", "URL entry")
	o.LabelIf(e.LRE != "", "LRE entry")
	o.Nontrivial()
	if v := urlVersion.FindString(e.URL); v != "" && !strings.HasSuffix(e.ID, "-"+v) {
		return fmt.Errorf("URL %s, which names version %s, is listed for %s", e.URL, v, e.ID)
	}
	if m := ccURL.FindStringSubmatch(e.URL); m != nil {
		kind := strings.ToUpper(m[1])
		if kind == "BY-ND-NC" { // the old order
			kind = "BY-NC-ND"
		}
		if e.ID != "CC-"+kind+"-"+m[2] {
			return fmt.Errorf("URL %s is listed for %s", e.URL, e.ID)
		}
	}
	if lres != 1 {
		return fmt.Errorf("%s has %d LREs", e.ID, lres)
	}
	if e.URL != "" && urls != 1 {
		return fmt.Errorf("URL %s occurs %d times", e.URL, urls)
	}
	if e.URL != "" {
		got := lc.Scan([]byte("https://" + e.URL))
		if len(got.Match) != 1 || got.Match[0].ID != e.ID || got.Match[0].Type != e.Type || !got.Match[0].IsURL {
			return fmt.Errorf("scanning https://%s\ngot %+v, want ID %s, type %v", e.URL, got, e.ID, e.Type)
		}
	}
	return nil
}

func genEntry(t *rapid.T) entryCase {
	keep, _ := firstList()
	return entryCase{I: even(t, len(keep))}
}

// A history is run in a new process. Its steps are: list the built-in
// licenses, overwrite some entries of a list got earlier, scan a text with
// Scan, or build a scanner from a new list and scan with it.
type historyStep struct {
	Op   string // list, write, scan, build
	N    int    // list to change, or text
	From int    // first entry to change
	Len  int
}

type callHistory struct {
	Texts []Text
	Steps []historyStep
}

func genCallHistory(t *rapid.T) callHistory {
	var h callHistory
	keep, _ := firstList()
	for i := between(t, 1, 2); i > 0; i-- {
		switch intn(t, 3) {
		case 0:
			h.Texts = append(h.Texts, Text(builtinText(t, 2, false)))
		case 1:
			h.Texts = append(h.Texts, Text(genURL(t, builtinData().urls)))
		case 2:
			h.Texts = append(h.Texts, Text("http://"+pick(t, builtinData().urls)+"\n"+builtinText(t, 1, false)))
		}
	}
	lists := 0
	for i := between(t, 2, 10); i > 0; i-- {
		st := historyStep{Op: pick(t, []string{"list", "list", "write", "write", "write", "scan", "scan", "build"})}
		switch st.Op {
		case "list":
			lists++
		case "write":
			if lists == 0 {
				st.Op = "list"
				lists++
				break
			}
			st.N = intn(t, lists)
			st.From = intn(t, len(keep))
			st.Len = between(t, 1, 20)
			if oneIn(t, 2) {
				st.From, st.Len = 0, len(keep)
			}
		case "scan", "build":
			st.N = intn(t, len(h.Texts))
		}
		h.Steps = append(h.Steps, st)
	}
	// Something written, and used afterwards.
	if lists > 0 && !oneIn(t, 4) {
		h.Steps = append(h.Steps, historyStep{Op: "write", N: intn(t, lists), From: 0, Len: len(keep)}, historyStep{Op: pick(t, []string{"list", "scan", "build"})})
	}
	return h
}

// runHistory runs in the new process and prints one line for each step.
func runHistory(r io.Reader) {
	var h callHistory
	if err := json.NewDecoder(r).Decode(&h); err != nil {
		die("%v", err)
	}
	var lists [][]lc.License
	for _, st := range h.Steps {
		switch st.Op {
		case "list":
			l := lc.BuiltinLicenses()
			lists = append(lists, l)
			fmt.Printf("%d %x\n", len(l), sha256.Sum256([]byte(fmt.Sprintf("%q %#v", l, cap(l) >= len(l)))))
		case "write":
			l := lists[st.N]
			for i := st.From; i < st.From+st.Len && i < len(l); i++ {
				l[i] = lc.License{ID: "X", LRE: "overwritten license text", URL: "x.org/x", Type: 77}
			}
			l = append(l[:st.From], lc.License{ID: "Y", LRE: "another overwritten text"})
			fmt.Println(len(l))
		case "scan":
			fmt.Printf("%+v\n", lc.Scan([]byte(h.Texts[st.N])))
		case "build":
			// A list changed by the caller is the caller's.
			l := lc.BuiltinLicenses()
			s, err := lc.NewScanner(l)
			if err != nil {
				fmt.Println(err)
				continue
			}
			fmt.Printf("%+v\n", s.Scan([]byte(h.Texts[st.N])))
		}
	}
}

func checkCallHistory(h callHistory, o *Obs) error {
	keep, s := firstList()
	js, _ := json.Marshal(h)
	out, err := runSelf("history", js)
	if err != nil {
		return fmt.Errorf("running %+v: %v", h.Steps, err)
	}
	got := strings.Split(strings.TrimSuffix(string(out), "\n"), "\n")
	if len(got) != len(h.Steps) {
		return fmt.Errorf("running %+v: %q", h.Steps, trunc(string(out)))
	}
	wrote := false
	for i, st := range h.Steps {
		var want string
		switch st.Op {
		case "list":
			want = fmt.Sprintf("%d %x", len(keep), sha256.Sum256([]byte(fmt.Sprintf("%q %#v", keep, true))))
		case "write":
			wrote = true
			want = fmt.Sprint(st.From + 1)
		case "scan", "build":
			want = fmt.Sprintf("%+v", s.Scan([]byte(h.Texts[st.N])))
		}
		if wrote && st.Op != "write" {
			o.Nontrivial()
			o.Label("%s after a list was changed", st.Op)
		}
		if got[i] != want {
			return fmt.Errorf("after %+v in a new process, with texts %q: got\n%s\nwant\n%s", h.Steps[:i+1], h.Texts, trunc(got[i]), trunc(want))
		}
	}
	return nil
}

func init() {
	subcommands["history"] = func() { runHistory(os.Stdin) }
	register(&Prop{
		ID: "C16",
		Rule: "Texts made of (parts of, edited) built-in license texts, notices, URLs, odd bytes, scanned with Scan and with a scanner built from the list that BuiltinLicenses returned first in the process; " +
			"that list and the lists returned later are overwritten, and each later list is compared with a copy of the first. Entries of the list drawn by position are checked against the documented form. Random histories of listing, overwriting lists, scanning and building scanners are run in new processes. " +
			"Non-trivial: the text has a match; any entry; a history uses the package after a list was changed.",
		Exec: true,
		Subs: []Sub{
			NewSub("histories", 64, 2000, genCallHistory, checkCallHistory),
			NewSub("entries", 12000, 100000, genEntry, checkEntry),
			NewSub("same-result", 1600, 40000, genSame(func(t *rapid.T) string { return builtinText(t, 4, true) }), checkSame),
			NewSub("same-bytes", 4000, 200000, genSame(func(t *rapid.T) string { return rawBytes(t, 40) }), checkSame),
			NewSub("same-urls", 8000, 200000, genSame(func(t *rapid.T) string {
				s := ""
				for k := between(t, 1, 4); k > 0; k-- {
					s += genURL(t, builtinData().urls) + pick(t, []string{" ", "\n", ", ", ".\n", ""})
				}
				return s
			}), checkSame),
		},
	})
}
