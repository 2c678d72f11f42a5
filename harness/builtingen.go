package main

import (
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/google/licensecheck/verifh/ref"
	"pgregory.net/rapid"
)

// Built-in licenses, by size.
type builtinInfo struct {
	all, short []int // indexes in builtin().Set.Trees
	size       []int
	urls       []string
	vocab      map[string]bool
	words      []string // some words of the patterns
}

func treeSize(n *ref.Node) int {
	k := 0
	n.Walk(func(n *ref.Node) { k += len(n.W) })
	return k
}

var builtinData = sync.OnceValue(func() *builtinInfo {
	b := &builtinInfo{vocab: map[string]bool{}}
	for i, tr := range builtin().Set.Trees {
		n := treeSize(tr)
		b.size = append(b.size, n)
		b.all = append(b.all, i)
		if n <= 400 {
			b.short = append(b.short, i)
		}
		for w := range tr.Words() {
			b.vocab[w] = true
		}
	}
	for _, l := range refLics(builtinList()) {
		if l.URL != "" {
			b.urls = append(b.urls, l.URL)
		}
	}
	for _, w := range strings.Fields("the of to software license this provided copyright in or and any not be warranty permission granted hereby is as free use copy notice all rights reserved redistribution source binary") {
		b.words = append(b.words, w)
	}
	return b
})

// bigFill returns words that occur in no built-in pattern.
func bigFill(i int) string { return "zq" + fillWord(i)[1:] + "qz" }

// builtinWords derives a text of a built-in LRE, mostly of a short one.
func builtinWords(t *rapid.T, long bool) (lic int, words []string) {
	b := builtinData()
	list := b.short
	if long && oneIn(t, 3) {
		list = b.all
	}
	lic = pickEven(t, list)
	k := 0
	words = derive(t, builtin().Set.Trees[lic], func() string { k++; return bigFill(k % 5) })
	return lic, words
}

// layoutWords writes words as text with few draws.
func layoutWords(t *rapid.T, words []string) string {
	var b strings.Builder
	width := between(t, 5, 40)
	indent := pick(t, []string{"", "", " * ", "// ", "\t"})
	style := intn(t, 4)
	for i, w := range words {
		if i > 0 {
			if i%width == 0 {
				b.WriteString("\n" + indent)
			} else if i%17 == 3 && style == 1 {
				b.WriteString(", ")
			} else {
				b.WriteString(" ")
			}
		}
		switch {
		case style == 2:
			w = strings.ToUpper(w)
		case style == 3 && i%5 == 0:
			_, n := utf8.DecodeRuneInString(w)
			w = strings.ToUpper(w[:n]) + w[n:]
		}
		b.WriteString(w)
	}
	return b.String()
}

// builtinText builds a text out of (parts of) built-in license texts, noise,
// URLs and fillers.
func builtinText(t *rapid.T, maxSegs int, long bool) string {
	bd := builtinData()
	v := &Vocab{Words: bd.words, Fill: []string{bigFill(0), bigFill(1), bigFill(2), bigFill(3), bigFill(4)}}
	n := between(t, 1, maxSegs)
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(pick(t, []string{"\n", "\n\n", " ", ". ", "\n---\n", "<p>"}))
		}
		switch intn(t, 10) {
		case 0, 1, 2:
			_, w := builtinWords(t, long)
			b.WriteString(layoutWords(t, w))
		case 3, 4, 5:
			_, w := builtinWords(t, long)
			k := between(t, 1, 4)
			for j := 0; j < k; j++ {
				w = edit(t, w, v)
			}
			b.WriteString(layoutWords(t, w))
		case 6:
			_, w := builtinWords(t, false)
			lo := intn(t, len(w))
			hi := between(t, lo, len(w))
			b.WriteString(layoutWords(t, w[lo:hi]))
		case 7:
			b.WriteString(pick(t, []string{"Copyright (c) 2020 ", "© ", "(c)", "copyright "}))
			k := between(t, 1, 3)
			if oneIn(t, 4) {
				k = between(t, 46, 52)
			}
			for j := 0; j < k; j++ {
				b.WriteString(v.Fill[j%5] + pick(t, []string{" ", "\n"}[:1+j%2]))
			}
		case 8:
			b.WriteString(genURL(t, bd.urls))
		case 9:
			b.WriteString(rawBytes(t, 8))
		}
	}
	return b.String()
}
