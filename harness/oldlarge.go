package main

import (
	"fmt"
	"strings"

	"github.com/google/licensecheck/old"
	"pgregory.net/rapid"
)

// C22, C33: many or long licenses for package old.

type oldLarge struct {
	Size   int   // words of the first license
	Place  int   // its place in the list
	Others int   // other licenses
	Each   int   // words of each
	Copies []int // licenses copied in the text; -1 is the first
	Gap    int   // unrelated words before, between and after the copies
	Cuts   []int // where a few unrelated words are inserted into copies of the first
	Opts   oldOpts
}

func genOldLarge(t *rapid.T) oldLarge {
	c := oldLarge{Gap: between(t, 0, 90)}
	c.Opts.Min = between(t, 2, 12)
	switch intn(t, 4) {
	case 0: // one long license
		c.Size = pick(t, []int{20000, 33000, 40000, 66000, 70000, 140000})
		c.Others, c.Each = between(t, 0, 3), 20
	case 1: // many short ones
		c.Size = between(t, 12, 40)
		c.Others, c.Each = pick(t, []int{128, 256, 300, 5000, 33000, 66000}), between(t, 12, 14)
	case 2:
		c.Size = between(t, 12, 3000)
		c.Others, c.Each = between(t, 1, 200), between(t, 12, 3000)
	case 3:
		c.Size = between(t, 100, 300)
		c.Others, c.Each = between(t, 200, 600), between(t, 100, 300)
	}
	if oneIn(t, 2) {
		for k, at := between(t, 1, 4), c.Opts.Min; k > 0 && at < c.Size-c.Opts.Min; k-- {
			if oneIn(t, 2) {
				at = between(t, at, c.Size-c.Opts.Min)
			} else {
				at += even(t, c.Size-c.Opts.Min-at+1)
			}
			c.Cuts = append(c.Cuts, at)
			at += c.Opts.Min
		}
	}
	c.Place = intn(t, c.Others+1)
	c.Copies = []int{-1}
	for k := between(t, 0, 3); k > 0 && c.Others > 0; k-- {
		c.Copies = append(c.Copies, intn(t, c.Others))
	}
	return c
}

// oldNthWord returns the i'th of a lot of words of letters.
func oldNthWord(i int) string {
	const letters = "abcdefghijklmnoprstu"
	b := []byte("wxxxxx")
	for j := 1; j < len(b); j++ {
		b[j] = letters[i%len(letters)]
		i /= len(letters)
	}
	return string(b)
}

func checkOldLarge(c oldLarge, o *Obs) error {
	var list []old.License
	words := func(from, n int) string {
		var b strings.Builder
		for i := from; i < from+n; i++ {
			if i > from {
				b.WriteByte(" \n"[i%2])
			}
			b.WriteString(oldNthWord(i))
		}
		return b.String()
	}
	next := c.Size
	first := old.License{Name: "MIT-first", Text: words(0, c.Size)}
	for i := 0; i <= c.Others; i++ {
		if i == c.Place {
			list = append(list, first)
		}
		if i < c.Others {
			list = append(list, old.License{Name: fmt.Sprint("BSD-", i), Text: words(next, c.Each)})
			next += c.Each
		}
	}
	var b strings.Builder
	var want []old.Match
	gap := func() {
		for k := 0; k < c.Gap; k++ {
			b.WriteString(fillWord(k%5) + " ")
		}
	}
	gap()
	total, covered := c.Gap, 0
	for _, i := range c.Copies {
		l := first
		if i >= 0 {
			if i >= c.Place {
				i++
			}
			l = list[i]
		}
		text := l.Text
		if i < 0 && len(c.Cuts) > 0 {
			text = ""
			last := 0
			for _, at := range append(append([]int(nil), c.Cuts...), c.Size) {
				if last > 0 {
					text += strings.Repeat(" "+fillWord(9), 1+at%8) + " "
				}
				text += words(last, at-last)
				last = at
			}
		}
		want = append(want, old.Match{Name: l.Name, Type: oldTypeOf(l.Name), Percent: 100, Start: b.Len(), End: b.Len() + len(text)})
		b.WriteString(text)
		n := len(strings.Fields(text))
		total += n
		covered += n
		b.WriteString(" ")
		gap()
		total += c.Gap
	}
	if c.Gap == 0 {
		want[len(want)-1].End = b.Len()
	}
	cov, _ := old.New(list).Cover([]byte(b.String()), c.Opts.opts())
	if !sameOld(cov.Match, want) || !near(cov.Percent, 100*float64(covered)/float64(total)) {
		return fmt.Errorf("licenses of %d and %d times %d words (place %d), copies %v (cut at %v) with gaps of %d words (%+v)\ngot %+v\nwant %+v, %d of %d words", c.Size, c.Others, c.Each, c.Place, c.Copies, c.Cuts, c.Gap, c.Opts, cov, want, covered, total)
	}
	o.Nontrivial()
	o.LabelIf(c.Size > 1<<15, "more than 2^15 words")
	o.LabelIf(c.Others > 1<<15, "more than 2^15 licenses")
	o.LabelIf(c.Others > 1<<7, "more than 2^7 licenses")
	return nil
}

// An oldRepeat is a license that begins with a phrase said many times, and a
// text with the phrase said only a few times before the rest.
type oldRepeat struct {
	Unit, Times, Keep, Rest int // words of the phrase, repetitions in license and text, words of the rest
	Before, After           int // other licenses in the list
	Opts                    oldOpts
}

func genOldRepeat(t *rapid.T) oldRepeat {
	c := oldRepeat{Unit: between(t, 1, 4), Before: between(t, 0, 2), After: between(t, 0, 2)}
	c.Times = 1 + even(t, pick(t, []int{10, 300, 3000}))
	c.Keep = between(t, 0, min(c.Times, 9))
	c.Rest = between(t, 60, 200)
	if c.Times*c.Unit > 5000 {
		c.Rest += 100
	}
	c.Opts.Min = between(t, 2, 20)
	c.Opts.Threshold = 1
	return c
}

func checkOldRepeat(c oldRepeat, o *Obs) error {
	var unit, rest []string
	for i := 0; i < c.Unit; i++ {
		unit = append(unit, codeWord(i))
	}
	for i := 0; i < c.Rest; i++ {
		rest = append(rest, codeWord(c.Unit+i))
	}
	say := func(n int) string {
		return strings.Repeat(strings.Join(unit, " ")+" ", n) + strings.Join(rest, " ")
	}
	var list []old.License
	for i := 0; i <= c.Before+c.After; i++ {
		if i == c.Before {
			list = append(list, old.License{Name: "MIT-first", Text: say(c.Times)})
			continue
		}
		var w []string
		for j := 0; j < 30; j++ {
			w = append(w, codeWord(1000+30*i+j))
		}
		list = append(list, old.License{Name: fmt.Sprint("BSD-", i), Text: strings.Join(w, " ")})
	}
	head := fillWord(0) + " " + fillWord(1) + " "
	copied := say(c.Keep)
	text := head + copied + " " + fillWord(2)
	n := c.Keep*c.Unit + c.Rest
	want := []old.Match{{Name: "MIT-first", Type: oldTypeOf("MIT-first"), Percent: 100 * float64(n) / float64(c.Times*c.Unit+c.Rest), Start: len(head), End: len(head) + len(copied)}}
	cov, _ := old.New(list).Cover([]byte(text), c.Opts.opts())
	if !sameOld(cov.Match, want) || !near(cov.Percent, 100*float64(n)/float64(n+3)) {
		return fmt.Errorf("license of %d times %d words and %d others, in the text %d times (%+v)\ngot %+v\nwant %+v", c.Times, c.Unit, c.Rest, c.Keep, c.Opts, cov, want)
	}
	o.Nontrivial()
	o.LabelIf(c.Times > 256, "over 256 times")
	o.LabelIf(c.Times > 1024, "over 1024 times")
	return nil
}
