package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	lc "github.com/google/licensecheck"
	"pgregory.net/rapid"
)

// A piece of an SPDX license template.
type spdxPiece struct {
	Kind  string      // text, opt, none (an optional part without words), var, bullet, copyright
	Text  Text        // text, none, the original of a field
	Name  string      // of a field
	Words int         // in the original of a field
	Sub   []spdxPiece // of opt
}

type spdxLic struct {
	ID         string
	Name       string
	Deprecated bool
	Exists     bool // there is an LRE file already
	Tested     bool // there is a test already
	Named      bool // on the command line
	Path       bool // as a path
	SeeAlso    []string
	Pieces     []spdxPiece
}

type spdxDir struct {
	Lics    []spdxLic
	All     bool // the argument is "all"
	Force   bool
	Choices [][]int // for each text tried, what to do at its optional parts and fields
}

// spdxTemplate prints pieces as a template.
func spdxTemplate(ps []spdxPiece) string {
	var b strings.Builder
	for _, p := range ps {
		switch p.Kind {
		case "text":
			b.WriteString(string(p.Text))
		case "opt":
			b.WriteString("<<beginOptional>>" + spdxTemplate(p.Sub) + "<<endOptional>>")
		case "none":
			b.WriteString("<<beginOptional>>" + string(p.Text) + "<<endOptional>>")
		case "name": // the word name, in fields that are not replaceable
			fmt.Fprintf(&b, "<<var;name=\"%s\";original=\"name\";match=\"name|title\">>", p.Name)
		default:
			fmt.Fprintf(&b, "<<var;name=\"%s\";original=\"%s\";match=\".{0,5000}\">>", p.Name, p.Text)
		}
	}
	return b.String()
}

// spdxText writes a text that the template describes.
func spdxText(ps []spdxPiece, choice func() int) string {
	var b strings.Builder
	for _, p := range ps {
		k := choice()
		switch p.Kind {
		case "text":
			b.WriteString(string(p.Text))
		case "name":
			b.WriteString("name")
		case "opt":
			if k%3 != 1 {
				b.WriteString(spdxText(p.Sub, choice))
			}
		case "none":
			if k%3 != 1 {
				b.WriteString(string(p.Text))
			}
		case "bullet":
			switch {
			case p.Words >= 5 && k%3 == 2: // not shorter than a wildcard's text
				for j := k % (p.Words + 1); j > 0; j-- {
					b.WriteString(" " + fillWord((j+k)%5))
				}
			case k%3 != 1:
				b.WriteString(string(p.Text))
			}
		case "copyright":
			b.WriteString([]string{string(p.Text), "Copyright (c) 2020 Foo Corp", "", "Copyright 1999, 2000 The Bar Authors <bar@example.com>"}[k%4])
		case "var":
			switch {
			case k == 0:
				b.WriteString(string(p.Text))
			default:
				n := p.Words
				if k%3 == 0 {
					n = k % (p.Words + 1)
				}
				for j := 0; j < n; j++ {
					b.WriteString([]string{" ", "\n", ", "}[(j+k)%3] + fillWord((j+k)%5))
				}
				b.WriteString(" ")
			}
		}
	}
	return b.String()
}

var spdxSeps = []string{
	" ", " ", " ", " ", " ", " ", "\n", "\n", "\n\n", ", ", ". ", "; ", ": ", " (", ") ", " \"", "\" ", "'", "\n    ", "\n\t", "   ", " -- ", " - ", "-", "/", "//", " // ", " ((", ")) ",
	" ?? ", " || ", "??", "? ", "))\n", "\n((", " | ", "\n \n", "\n.\n\n", "\n\n\n\n", " * ", " # ", "\n# ", " & ", " __ ", " ____\n", "_", "\r\n", "](https://example.org/a_b/ ", " //** ", " **// ", "///**", " /** ", "](http://example.org/x) ", " \n", "\t\n",
}

// spdxNext makes literal text of unique words.
func spdxWords(t *rapid.T, next *int, lo, hi int) string {
	var b strings.Builder
	style := intn(t, 4)
	for k := between(t, lo, hi); k > 0; k-- {
		b.WriteString(codeWord(*next))
		*next++
		if k == 1 {
			break
		}
		switch {
		case style == 0 && !oneIn(t, 8): // long lines
			b.WriteString(" ")
		case style == 1: // lines without spaces
			b.WriteString(pick(t, []string{"/", "-", ".", ":"}))
		case oneIn(t, 30):
			b.WriteString("\n" + strings.Repeat(" ", between(t, 0, 120)))
		default:
			b.WriteString(pick(t, spdxSeps))
		}
	}
	return b.String()
}

// spdxPieces makes parts that begin and end with text.
func spdxPieces(t *rapid.T, next *int, depth int) []spdxPiece {
	text := func(lo, hi int) spdxPiece {
		return spdxPiece{Kind: "text", Text: Text(spdxWords(t, next, lo, hi))}
	}
	space := func() spdxPiece {
		return spdxPiece{Kind: "text", Text: Text(pick(t, []string{" ", "\n", "\n\n", "  ", "\n   ", " \n"}))}
	}
	before := func() spdxPiece { // a tag's left side
		p := space()
		if oneIn(t, 10) {
			p.Text += "<"
		}
		return p
	}
	ps := []spdxPiece{text(4, 20)}
	for k := between(t, 0, 4); k > 0; k-- {
		kind := intn(t, 7)
		if kind != 2 && (kind > 1 || depth > 0) && oneIn(t, 12) { // what looks like more of a tag
			ps = append(ps, spdxPiece{Kind: "text", Text: Text(pick(t, []string{" <", " ] ", "<", " < ", " < < "}))})
		}
		switch kind {
		case 6:
			ps = append(ps, space(), spdxPiece{Kind: "name", Name: pick(t, []string{"x", "title"})}, space())
		case 0, 1: // optional part
			if depth == 0 {
				continue
			}
			p := spdxPiece{Kind: "opt"}
			switch intn(t, 4) {
			case 0:
				p.Sub = []spdxPiece{text(1, 30)}
			case 3: // a short word; "s" alone is left out as a plural
				p.Sub = []spdxPiece{{Kind: "text", Text: Text(pick(t, []string{"a", "A", "or", "x", "(a)", "2", "\"b\"", " I ", "an,", "1.0", "s of these", "S", "©", "(c)", "&copy;", "é", "Я"}))}}
			case 1:
				p.Sub = spdxPieces(t, next, depth-1)
			default:
				p.Sub = append(append([]spdxPiece{space()}, spdxPieces(t, next, depth-1)...), space())
			}
			ps = append(ps, before(), p, space())
		case 2: // optional punctuation or plural
			s := pick(t, []string{",", ".", "(s)", ";", "\"", "*", " ", "\n", "(", "--", "", "_", "__", "«»"})
			p := spdxPiece{Kind: "none", Text: Text(s)}
			ps = append(ps, p, space())
		case 3, 4:
			p := spdxPiece{Kind: "var", Name: pick(t, []string{"organization", "copyrightHolderAsIs", "x", "title"})}
			var w []string
			for j := between(t, 0, 14); j > 0; j-- {
				w = append(w, fillWord(intn(t, 5)))
			}
			p.Words = max(5, len(w))
			q := pick(t, []string{"%s", "%s", "%s.", "<%s>", "[%s]", "((%s))", "*%s"})
			p.Text = Text(strings.Replace(q, "%s", strings.Join(w, pick(t, []string{" ", ", ", "\n", "-"})), 1))
			ps = append(ps, before(), p, space())
		case 5:
			p := spdxPiece{Kind: "bullet", Name: "bullet", Text: Text(pick(t, []string{"1.", "2)", "*", "-", "(b)", "B.", "", "a.1", "III.", "Section 1.2"}))}
			if oneIn(t, 3) {
				p.Words = between(t, 3, 8)
				var w []string
				for j := 0; j < p.Words; j++ {
					w = append(w, fillWord(intn(t, 5)))
				}
				p.Text = Text(strings.Join(w, " "))
			}
			ps = append(ps, before(), p, space())
		}
		ps = append(ps, text(4, 20))
	}
	return ps
}

// spdxNested makes optional parts within optional parts.
func spdxNested(t *rapid.T, next *int, depth int) spdxPiece {
	p := spdxPiece{Kind: "opt", Sub: []spdxPiece{{Kind: "text", Text: Text(spdxWords(t, next, 1, 3))}}}
	if depth > 1 {
		p.Sub = append(p.Sub, spdxPiece{Kind: "text", Text: " "}, spdxNested(t, next, depth-1))
		if oneIn(t, 2) {
			p.Sub = append(p.Sub, spdxPiece{Kind: "text", Text: Text(" " + spdxWords(t, next, 1, 3))})
		}
	}
	return p
}

var spdxWordRE = regexp.MustCompile(`\b[a-z]{6,8}\b`)

// foreignWord writes a word with other letters.
func foreignWord(w string, script int) string {
	return strings.Map(func(r rune) rune {
		if script%2 == 0 {
			return 'а' + r - 'a'
		}
		return '一' + (r-'a')*97
	}, w)
}

// spdxForeign writes all or some of the words of pieces in another script.
func spdxForeign(ps []spdxPiece, script int) {
	for i := range ps {
		spdxForeign(ps[i].Sub, script)
		ps[i].Text = Text(spdxWordRE.ReplaceAllStringFunc(string(ps[i].Text), func(w string) string {
			if script >= 2 && int(w[0]+w[3])%2 == 0 {
				return w
			}
			return foreignWord(w, script)
		}))
	}
}

var spdxExcluded = []string{"MIT", "BSD-3-Clause", "GPL-2.0-only", "OFL-1.1-RFN"}

func genSPDX(t *rapid.T) spdxDir {
	c := spdxDir{All: oneIn(t, 3), Force: oneIn(t, 3)}
	for k := between(t, 1, 6); k > 0; k-- {
		l := spdxLic{ID: fmt.Sprintf("L%d-1.%d", k, intn(t, 3)), Name: pick(t, []string{"A License", "License (the \"L\") v1.0", "((x", "", "__10__ ??"})}
		if oneIn(t, 10) && len(c.Lics) == 0 {
			l.ID = pick(t, spdxExcluded)
		}
		l.Deprecated = oneIn(t, 10)
		l.Exists = oneIn(t, 5)
		l.Tested = oneIn(t, 5)
		l.Named = !oneIn(t, 5)
		l.Path = oneIn(t, 4)
		for j := between(t, 0, 2); j > 0; j-- {
			l.SeeAlso = append(l.SeeAlso, pick(t, []string{"https://foo.com/license.txt", "http://x.org/a_b/(c)/??"}))
		}
		next := 0
		if oneIn(t, 5) {
			l.Pieces = append(l.Pieces, spdxPiece{Kind: "copyright", Name: "copyright", Text: Text(pick(t, []string{"Copyright (c) <year> <owner>.", "", "Copyright 2019 Baz"}))},
				spdxPiece{Kind: "text", Text: Text(pick(t, []string{"\n\n", "\n"}))})
		} else if oneIn(t, 3) {
			l.Pieces = append(l.Pieces, spdxPiece{Kind: "opt", Sub: []spdxPiece{{Kind: "text", Text: Text(spdxWords(t, &next, 2, 6))}}}, spdxPiece{Kind: "text", Text: "\n\n"})
		}
		if oneIn(t, 8) {
			l.Pieces = append(l.Pieces, spdxPiece{Kind: "bullet", Name: "bullet", Text: Text(pick(t, []string{"1.", "(b)", "*", "1.2"}))}, spdxPiece{Kind: "text", Text: Text(pick(t, []string{" ", "\n", "  "}))})
		}
		l.Pieces = append(l.Pieces, spdxPieces(t, &next, 2)...)
		switch intn(t, 60) {
		case 5: // optional parts deep within optional parts
			l.Pieces = append(l.Pieces, spdxPiece{Kind: "text", Text: " "}, spdxNested(t, &next, between(t, 3, 20)), spdxPiece{Kind: "text", Text: Text("\n" + spdxWords(t, &next, 4, 6))})
		case 25: // a long field
			p := spdxPiece{Kind: "var", Name: "x", Words: between(t, 20, 200)}
			var w []string
			for j := 0; j < p.Words; j++ {
				w = append(w, fillWord(j%340))
			}
			p.Text = Text(strings.Join(w, pick(t, []string{" ", "\n"})))
			l.Pieces = append(l.Pieces, spdxPiece{Kind: "text", Text: "\n"}, p, spdxPiece{Kind: "text", Text: Text(" " + spdxWords(t, &next, 4, 6))})
		case 45: // a long license
			for j := between(t, 5, 40); j > 0 && next < 4000; j-- {
				l.Pieces = append(append(l.Pieces, spdxPiece{Kind: "text", Text: Text(pick(t, []string{" ", "\n\n"}))}), spdxPieces(t, &next, 1)...)
			}
		}
		if oneIn(t, 4) { // the end is optional
			l.Pieces = append(l.Pieces, spdxPiece{Kind: "text", Text: Text(pick(t, []string{" ", "\n", "\n\n"}))}, spdxPiece{Kind: "opt", Sub: []spdxPiece{{Kind: "text", Text: Text(spdxWords(t, &next, 1, 12))}}})
		}
		if oneIn(t, 3) {
			l.Pieces = append(l.Pieces, spdxPiece{Kind: "text", Text: Text(pick(t, []string{".", "\n", ".\n\n", " "}))})
		}
		if oneIn(t, 4) {
			spdxForeign(l.Pieces, intn(t, 4))
		}
		c.Lics = append(c.Lics, l)
	}
	if oneIn(t, 60) { // many licenses
		for k := between(t, 10, 150); k > 0; k-- {
			next := 0
			c.Lics = append(c.Lics, spdxLic{ID: fmt.Sprintf("M%d", k), Name: "A License", Named: !oneIn(t, 5), Exists: oneIn(t, 5), Pieces: []spdxPiece{{Kind: "text", Text: Text(spdxWords(t, &next, 4, 8))}}})
		}
	}
	for k := between(t, 1, 4); k > 0; k-- {
		var x []int
		for j := 0; j < 12; j++ {
			x = append(x, intn(t, 24))
		}
		c.Choices = append(c.Choices, x)
	}
	return c
}

// getspdx builds the converter, and a stand-in for the go command it runs in
// the directory above at the end.
var getspdx = sync.OnceValues(func() (string, string) {
	path := filepath.Join(scratch, "getspdx")
	if out, err := goTool(repo, "build", "-o", path, "licenses/getspdx.go"); err != nil {
		panic(harnessError{fmt.Sprintf("building getspdx.go: %v\n%s", err, out)})
	}
	bin := filepath.Join(scratch, "bin")
	os.Mkdir(bin, 0o777)
	if err := os.WriteFile(filepath.Join(bin, "go"), []byte("#!/bin/sh\nexit 0\n"), 0o777); err != nil {
		panic(harnessError{err.Error()})
	}
	return path, bin
})

func listFiles(dir string) []string {
	var out []string
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if !e.IsDir() {
			out = append(out, e.Name())
		}
	}
	sort.Strings(out)
	return out
}

// firstTest is the test a converter writes for a license.
func firstTest(id, text string) string {
	return "0%\nscan\n100%\n" + id + " 100% 0,$\n\n" + text
}

// checkTests compares the files in dir.
func checkTests(dir string, want map[string]string) error {
	var names []string
	for n := range want {
		names = append(names, n)
	}
	sort.Strings(names)
	if err := diff(names, listFiles(dir)); err != nil {
		return fmt.Errorf("tests: %v", err)
	}
	for _, n := range names {
		if b, _ := os.ReadFile(filepath.Join(dir, n)); string(b) != want[n] {
			return fmt.Errorf("test %s is %q\nwant %q", n, b, want[n])
		}
	}
	return nil
}

func checkSPDX(c spdxDir, o *Obs) error {
	tool, bin := getspdx()
	dir := caseDir()
	defer os.RemoveAll(dir)
	for _, d := range []string{"licenses/_spdx/json/details", "licenses/_spdx/text", "testdata/licenses"} {
		os.MkdirAll(filepath.Join(dir, d), 0o777)
	}
	in := func(s string) string { return filepath.Join(dir, "licenses", s) }
	const old = "//** mine **//\nsome old text that was here\n"
	var args []string
	if c.Force {
		args = append(args, "-f")
	}
	if c.All {
		args = append(args, "all")
	}
	texts := map[string][]string{}
	var lre, txt []string
	var convert []spdxLic
	for _, l := range c.Lics {
		for i := 0; i <= len(c.Choices); i++ {
			k := 0
			texts[l.ID] = append(texts[l.ID], spdxText(l.Pieces, func() int {
				if i == 0 {
					return 0
				}
				k++
				return c.Choices[i-1][k%len(c.Choices[i-1])]
			}))
		}
		js, _ := json.Marshal(map[string]any{
			"isDeprecatedLicenseId": l.Deprecated, "licenseText": texts[l.ID][0], "standardLicenseTemplate": spdxTemplate(l.Pieces),
			"name": l.Name, "licenseId": l.ID, "seeAlso": l.SeeAlso, "isOsiApproved": false, "licenseComments": "note",
		})
		path := "_spdx/json/details/" + l.ID + ".json"
		mustWrite(in(path), string(js))
		mustWrite(in("_spdx/text/"+l.ID+".txt"), texts[l.ID][0])
		if l.Exists {
			mustWrite(in(l.ID+".lre"), old)
		}
		if l.Tested {
			mustWrite(filepath.Join(dir, "testdata", l.ID+".t1"), old)
		}
		if l.Named && !c.All {
			if l.Path {
				args = append(args, path)
			} else {
				args = append(args, l.ID)
			}
		}
		excluded := false
		for _, x := range spdxExcluded {
			excluded = excluded || x == l.ID
		}
		write := (l.Named || c.All) && !l.Deprecated && !excluded && (!l.Exists || c.Force)
		o.LabelIf(l.Deprecated, "deprecated")
		o.LabelIf(excluded, "excluded")
		o.LabelIf(l.Exists && !c.Force, "existing")
		o.LabelIf(l.Exists && c.Force, "overwritten")
		if write || l.Exists {
			lre = append(lre, l.ID+".lre")
		}
		if write {
			convert = append(convert, l)
			txt = append(txt, l.ID+".txt")
		}
	}
	if len(args) == 0 || len(args) == 1 && c.Force && !c.All {
		o.Label("no argument")
		return nil
	}
	cmd := limited(tool, args...)
	cmd.Dir = filepath.Join(dir, "licenses")
	cmd.Env = append(os.Environ(), "PATH="+bin+":/usr/bin:/bin")
	if msg, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("getspdx %q failed: %v\n%s", args, err, msg)
	}
	sort.Strings(lre)
	sort.Strings(txt)
	if err := diff(lre, listFiles(in("."))); err != nil {
		return fmt.Errorf("getspdx %q: LRE files: %v", args, err)
	}
	if err := diff(txt, listFiles(filepath.Join(dir, "testdata/licenses"))); err != nil {
		return fmt.Errorf("getspdx %q: license texts: %v", args, err)
	}
	tests := map[string]string{}
	for _, l := range c.Lics {
		if l.Tested {
			tests[l.ID+".t1"] = old
		}
	}
	for _, l := range convert {
		if !l.Tested {
			tests[l.ID+".t1"] = firstTest(l.ID, texts[l.ID][0])
		}
		if b, _ := os.ReadFile(filepath.Join(dir, "testdata/licenses", l.ID+".txt")); string(b) != texts[l.ID][0] {
			return fmt.Errorf("getspdx %q: testdata/licenses/%s.txt is %q\nwant %q", args, l.ID, b, texts[l.ID][0])
		}
	}
	if err := checkTests(filepath.Join(dir, "testdata"), tests); err != nil {
		return fmt.Errorf("getspdx %q: %v", args, err)
	}
	for _, l := range c.Lics {
		b, _ := os.ReadFile(in(l.ID + ".lre"))
		if l.Exists {
			done := false
			for _, x := range convert {
				done = done || x.ID == l.ID
			}
			if !done && string(b) != old {
				return fmt.Errorf("getspdx %q changed %s.lre", args, l.ID)
			}
		}
	}
	if len(convert) > 0 {
		o.Nontrivial()
	}
	for _, l := range convert {
		b, err := os.ReadFile(in(l.ID + ".lre"))
		if err != nil {
			return err
		}
		where := fmt.Sprintf("template %q\nLRE %q", spdxTemplate(l.Pieces), b)
		s, err := lc.NewScanner([]lc.License{{ID: l.ID, LRE: string(b)}})
		if err != nil {
			return fmt.Errorf("%s\nis not accepted: %v", where, err)
		}
		o.LabelIf(strings.Contains(where, "beginOptional"), "optional parts")
		o.LabelIf(len(b) > 5000, "over 5000 bytes")
		o.LabelIf(len(c.Lics) > 10, "many licenses")
		o.LabelIf(strings.Contains(where, "<<var"), "fields")
		for i, text := range texts[l.ID] {
			o.LabelIf(i > 0 && text != texts[l.ID][0], "text unlike the reference text")
			cov := s.Scan([]byte(text))
			if len(cov.Match) != 1 || cov.Match[0].ID != l.ID || cov.Match[0].IsURL || !near(cov.Percent, 100) {
				return fmt.Errorf("%s\ndoes not match all of %q\ngot %+v", where, text, cov)
			}
		}
	}
	return nil
}

func init() {
	register(&Prop{
		ID:   "C27",
		Exec: true,
		Rule: "Scratch directories with 1 to 6 SPDX license descriptions (templates of literal text with all the LRE's special sequences, long and deeply indented lines; nested optional parts; optional punctuation and plurals; fields; bullets; a copyright field first), some deprecated, excluded, unnamed, or with an LRE file already; the converter, built from getspdx.go, is run on all or some of them (with and without -f), and each LRE file it writes scans the reference text and 1 to 4 others in which optional parts are dropped and fields filled. " +
			"Oracle: the files that may be written, acceptance, and one match of 100 percent. Non-trivial: some LRE file is written.",
		Assumes: []string{"templates have at least four literal words between fields, before the first and after the last, and none of the words occurs twice", "the go command the converter runs at the end is a stand-in"},
		Subs:    []Sub{NewSub("convert", 6000, 60000, genSPDX, checkSPDX)},
	})
}
