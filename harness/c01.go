package main

import (
	"bytes"
	"fmt"

	lc "github.com/google/licensecheck"
	"github.com/google/licensecheck/verifh/ref"
	"pgregory.net/rapid"
)

func builtinList() []lc.License { return lc.BuiltinLicenses() }

// wellFormed checks a result against the scanner's licenses (C01).
func wellFormed(list []ref.License, text []byte, c lc.Coverage) error {
	type key struct {
		id  string
		t   uint
		url bool
	}
	have := map[key]bool{}
	for _, l := range list {
		if l.LRE != "" {
			have[key{l.ID, l.Type, false}] = true
		}
		if l.URL != "" {
			have[key{l.ID, l.Type, true}] = true
		}
	}
	return wellFormedIn(func(m lc.Match) bool { return have[key{m.ID, uint(m.Type), m.IsURL}] }, text, c)
}

func wellFormedIn(known func(lc.Match) bool, text []byte, c lc.Coverage) error {
	last := 0
	for i, m := range c.Match {
		if m.Start < last || m.End <= m.Start || m.End > len(text) {
			return fmt.Errorf("match %d is out of order, empty or outside the text of length %d: %+v", i, len(text), c.Match)
		}
		last = m.End
		if !known(m) {
			return fmt.Errorf("match %d names no such license: %+v", i, m)
		}
	}
	if !(c.Percent >= 0 && c.Percent <= 100) {
		return fmt.Errorf("Percent = %v", c.Percent)
	}
	if (c.Percent == 0) != (len(c.Match) == 0) {
		return fmt.Errorf("Percent = %v with %d matches", c.Percent, len(c.Match))
	}
	return nil
}

type textCase struct{ Text Text }

func checkWellFormed(c Scan, o *Obs) error {
	s, err := newScanner(c.Lics)
	if err != nil {
		return err
	}
	text := []byte(c.Text)
	cov := s.Scan(text)
	if !bytes.Equal(text, []byte(c.Text)) {
		return fmt.Errorf("Scan changed the text")
	}
	noteCoverage(o, cov, len(text))
	return wellFormed(c.Lics, text, cov)
}

func noteCoverage(o *Obs, c lc.Coverage, n int) {
	lic, url := 0, 0
	for _, m := range c.Match {
		if m.IsURL {
			url++
		} else {
			lic++
		}
	}
	o.LabelIf(n == 0, "empty text")
	o.LabelIf(lic == 0 && url == 0, "no match")
	o.LabelIf(lic == 1, "one license match")
	o.LabelIf(lic > 1, "several license matches")
	o.LabelIf(url > 0, "URL match")
	o.LabelIf(url > 0 && lic > 0, "URL and license match")
	if lic+url > 0 {
		o.Nontrivial()
	}
}

var builtinKnown map[lc.Match]bool

func isBuiltin(m lc.Match) bool {
	if builtinKnown == nil {
		builtinKnown = map[lc.Match]bool{}
		for _, l := range lc.BuiltinLicenses() {
			if l.LRE != "" {
				builtinKnown[lc.Match{ID: l.ID, Type: l.Type}] = true
			}
			if l.URL != "" {
				builtinKnown[lc.Match{ID: l.ID, Type: l.Type, IsURL: true}] = true
			}
		}
	}
	return builtinKnown[lc.Match{ID: m.ID, Type: m.Type, IsURL: m.IsURL}]
}

func checkBuiltinWellFormed(c textCase, o *Obs) error {
	text := []byte(c.Text)
	cov := lc.Scan(text)
	noteCoverage(o, cov, len(text))
	return wellFormedIn(isBuiltin, text, cov)
}

// A bigText is a long text described shortly: pieces repeated.
type bigText struct {
	Lics   []ref.License
	Pieces []Text
	Repeat int
	Tail   Text
}

func (b bigText) text() []byte {
	var buf bytes.Buffer
	for i := 0; i < b.Repeat; i++ {
		buf.WriteString(string(b.Pieces[i%len(b.Pieces)]))
		if i%3 == 0 {
			buf.WriteByte(' ')
		}
	}
	buf.WriteString(string(b.Tail))
	return buf.Bytes()
}

func genBigText(t *rapid.T) bigText {
	s := genLics(t, scanCfg{maxLics: 3, wild: 5, depth: 2, urls: true})
	b := bigText{Lics: s.lics, Repeat: between(t, 1, 6000)}
	n := between(t, 1, 4)
	for i := 0; i < n; i++ {
		b.Pieces = append(b.Pieces, Text(s.text(t, scanCfg{fancy: true, urls: true, raw: true}, 2)))
	}
	b.Tail = Text(s.text(t, scanCfg{fancy: true, urls: true, raw: true}, 3))
	return b
}

func checkBig(c bigText, o *Obs) error {
	s, err := newScanner(c.Lics)
	if err != nil {
		return err
	}
	text := c.text()
	cov := s.Scan(text)
	noteCoverage(o, cov, len(text))
	o.LabelIf(len(text) > 1<<16, "over 64 KB")
	if err := wellFormed(c.Lics, text, cov); err != nil {
		return err
	}
	cov = lc.Scan(text)
	return wellFormedIn(isBuiltin, text, cov)
}

var mixedCfg = scanCfg{maxLics: 4, wild: 6, depth: 3, fancy: true, urls: true, raw: true, big: true}

// genRawScan makes texts of odd bytes for scanners of words that meet them.
func genRawScan(t *rapid.T) Scan {
	s := genLics(t, scanCfg{maxLics: 3, wild: 5, depth: 2, fancy: true, urls: true})
	var text string
	n := between(t, 1, 5)
	for i := 0; i < n; i++ {
		text += rawBytes(t, 20)
		if len(s.trees) > 0 && oneIn(t, 2) {
			text += render(t, derive(t, pick(t, s.trees), s.filler(t)), true)
		}
	}
	return Scan{s.lics, Text(text)}
}

func genBuiltinText(t *rapid.T) textCase { return textCase{Text(builtinText(t, 4, true))} }

func genBuiltinRaw(t *rapid.T) textCase {
	text := rawBytes(t, 60)
	if oneIn(t, 3) {
		_, w := builtinWords(t, false)
		s := layoutWords(t, w)
		i := intn(t, len(s))
		j := between(t, i, len(s))
		text += s[i:j] + rawBytes(t, 10)
	}
	return textCase{Text(text)}
}

func init() {
	register(&Prop{
		ID: "C01",
		Rule: "Random license sets (LRE trees over related, unrelated and legal words, with URLs) and texts assembled from license texts, edited " +
			"license texts, copyright lines, URLs, markup fragments and arbitrary bytes; also the built-in scanner on parts and mixtures of " +
			"built-in license texts, and texts up to megabytes. Oracle: validity predicate on the result. Non-trivial: the result has a match.",
		Subs: []Sub{
			NewSub("mixed", 60000, 1500000, func(t *rapid.T) Scan { return genScan(t, mixedCfg, 7) }, checkWellFormed),
			NewSub("bytes", 40000, 1000000, genRawScan, checkWellFormed),
			NewSub("builtin", 3000, 60000, genBuiltinText, checkBuiltinWellFormed),
			NewSub("builtin-bytes", 20000, 500000, genBuiltinRaw, checkBuiltinWellFormed),
			NewSub("big", 240, 4000, genBigText, checkBig),
		},
	})
}
