package main

import (
	"fmt"
	"strings"
	"time"

	lc "github.com/google/licensecheck"
	"github.com/google/licensecheck/verifh/ref"
	"pgregory.net/rapid"
)

// A timeCase is a text of repeated pieces for a scanner (the built-in one if
// there are no licenses), to be scanned at two lengths.
type timeCase struct {
	Lics   []ref.License
	Head   Text
	Pieces []Text
	Tail   Text
	KB     int
}

func (c timeCase) text(n int) []byte {
	var b strings.Builder
	b.WriteString(string(c.Head))
	one := ""
	for _, p := range c.Pieces {
		one += string(p)
	}
	if one == "" {
		one = " "
	}
	b.WriteString(strings.Repeat(one, max(1, n/len(one))))
	b.WriteString(string(c.Tail))
	return []byte(b.String())
}

var timePieces = []string{
	"<", "</", "<a", "<a ", "<a@", ">", "{", "{#", "{#a", "}", "[", "]", "](", "](#", "](http://", "](mailto:", "](x", ")", "(", "(c", "(c)", "(s)", "a(s)", "&", "&#", "&#x", "&a", "&copy", "&copy;", ";",
	"http", "http://", "https://a.org", "http://a.org/", "http://a.b.c.", "http://a.org/b/c?", "http.http", "://", "/", ".", "-", "_", "#", "?", "@", ":/",
	"copyright", "Copyright x ", "©", "the", "a", "a ", "a\n", "this\r\n", "\n", " ", "\t", "\r", "0", "\x00", "\xff", "é", "e\u0301", "\u0301", "日",
}

func genTime(t *rapid.T) timeCase {
	c := timeCase{KB: pick(t, []int{192, 256, 320})}
	var v []string
	if !oneIn(t, 3) {
		s := genLics(t, scanCfg{maxLics: 3, wild: 10, depth: 2, fancy: true, urls: true})
		c.Lics = s.lics
		for i := 0; i < 3; i++ {
			v = append(v, s.text(t, scanCfg{fancy: true, urls: true}, 1))
		}
		v = append(v, s.v.Words...)
	} else {
		_, w := builtinWords(t, false)
		i := intn(t, len(w))
		v = append(v, layoutWords(t, w[:min(len(w), between(t, 1, 40))]), layoutWords(t, w[i:min(len(w), i+between(t, 1, 20))]))
	}
	if len(c.Lics) == 0 {
		c.Lics = nil
	}
	n := 1
	if oneIn(t, 2) {
		n = between(t, 1, 4)
	}
	for i := 0; i < n; i++ {
		if p := pickEven(t, timePieces); !oneIn(t, 4) {
			c.Pieces = append(c.Pieces, Text(p))
		} else {
			c.Pieces = append(c.Pieces, Text(pick(t, v)+pick(t, []string{"", " ", "\n"})))
		}
	}
	if oneIn(t, 4) {
		c.Head = Text(pickEven(t, timePieces) + pick(t, v))
	}
	if oneIn(t, 2) {
		c.Tail = Text(pickEven(t, timePieces) + pick(t, []string{"", " x", "\n", ")", "}", ">"}))
	}
	return c
}

// checkTime measures CPU time. A text of a quarter of the length may take up
// to a quarter of the time, a sixteenth if the time is quadratic. Times below
// enough are not judged.
func checkTime(c timeCase, o *Obs) error {
	scan := lc.Scan
	if c.Lics != nil {
		s, err := newScanner(c.Lics)
		if err != nil {
			return err
		}
		scan = s.Scan
	} else {
		scan(nil) // initialized
	}
	measure := func(text []byte, times int) time.Duration {
		least := time.Duration(0)
		for i := 0; i < times; i++ {
			start := cpu()
			scan(text)
			if d := cpu() - start; i == 0 || d < least {
				least = d
			}
		}
		return least
	}
	const enough = 500 * time.Millisecond
	text := c.text(c.KB << 10)
	o.LabelIf(c.Lics == nil, "built-in licenses")
	if len(ref.Split(string(text[:min(len(text), 1000)]), false)) > 0 {
		o.Label("words")
	}
	o.Nontrivial()
	long := measure(text, 1)
	if long < enough {
		return nil
	}
	o.Label("measured again")
	if long < 5*time.Second {
		long = min(long, measure(text, 2))
	}
	short := measure(c.text(c.KB<<8), 3)
	if long < enough || long < 9*short {
		return nil
	}
	return fmt.Errorf("scanning %d bytes takes %v, four times as much text %v\nhead %q pieces %q tail %q licenses %v", c.KB<<8, short, long, c.Head, c.Pieces, c.Tail, c.Lics)
}

func init() {
	register(&Prop{
		ID: "C29",
		Rule: "Texts of 192 to 320 KB made by repeating one to four pieces (openings and other parts of markup, URLs, copyright words, odd bytes, words and pieces of license texts), with a head and a tail, for built-in and generated license sets. " +
			"Oracle: CPU time; a scan that takes over half a second (a hundred times the usual) is repeated with a quarter of the text, which must take more than a ninth of the time. All cases are non-trivial.",
		Assumes: []string{"super-linear behaviour that does not show as half a second of CPU at these lengths is not noticed"},
		Subs:    []Sub{NewSub("repeated", 1600, 40000, genTime, checkTime)},
	})
}
