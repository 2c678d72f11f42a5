package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"github.com/google/licensecheck/verifh/ref"
	"pgregory.net/rapid"
)

// A source is LRE source text, valid or not.
type source struct {
	File string
	Src  Text
}

var sourcePieces = []string{
	"((", "))", "||", "??", "))??", ")) ??", "__3__", "__0__", "__12__", "__", "_", "__x__", "__1_", "__300__", "__0000000000007__", "__2147483648__", "__4294967299__", "__-1__", "__ 1__", "__1__2__",
	"//**", "**//", "//** x **//", "//**\n))\n**//", "//*", "(", ")", "|", "?", "(((", ")))", "|||", "???", "((((", "))))",
	"a", "b", "the", "word", "copyright", "(c)", "x y", "x y z", "\n", "\n", "\n", "\n\n", " ", " ", "\t", "\r\n", "  \n", "\r", "\v", "\u00a0", "é", "\xff", ".", ",", "\n((", "))\n", "))??\n", "\n((a", "b))\n", "(( a || b ))",
}

var countRE = regexp.MustCompile(`__[0-9]+__`)

func genSoup(t *rapid.T) source {
	n := between(t, 0, 16)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(pick(t, sourcePieces))
		if oneIn(t, 3) {
			b.WriteString(" ")
		}
	}
	return source{pick(t, []string{"", "MIT", "a/b.lre"}), Text(tame(b.String(), 1000))}
}

// genMutatedLRE prints a pattern and changes its source in a few places.
func genMutatedLRE(t *rapid.T) source {
	v := genVocab(t)
	tc := &treeCfg{v: v, depth: 3, wild: 6, budget: 16}
	var tr *ref.Node
	if oneIn(t, 3) {
		tr = cat(tc.node(t, 3), tc.node(t, 3))
	} else {
		tr = tc.tree(t)
	}
	src := printLRE(t, tr, oneIn(t, 2))
	for k := intn(t, 3); k > 0 && src != ""; k-- {
		i := intn(t, len(src)+1)
		switch intn(t, 6) {
		case 0:
			src = src[:i] + pick(t, sourcePieces) + src[i:]
		case 1:
			j := min(len(src), i+between(t, 1, 3))
			src = src[:i] + src[j:]
		case 2: // at an operator
			op := pick(t, []string{"((", "))", "||", "??", "__", "\n"})
			var at []int
			for j := 0; j+len(op) <= len(src); j++ {
				if src[j:j+len(op)] == op {
					at = append(at, j)
				}
			}
			if len(at) > 0 {
				j := pick(t, at)
				switch intn(t, 4) {
				case 0:
					src = src[:j] + src[j+len(op):]
				case 1:
					src = src[:j] + pick(t, sourcePieces) + src[j:]
				case 2:
					src = src[:j+len(op)] + pick(t, sourcePieces) + src[j+len(op):]
				case 3:
					src = src[:j] + op + src[j:]
				}
			}
		case 3:
			src = src[:i]
		case 4:
			src = src[i:]
		case 5:
			src = strings.Replace(src, "\n", pick(t, []string{" ", "\r\n", "\r", "\n\n", ""}), 1)
		}
	}
	return source{pick(t, []string{"", "MIT", "x y"}), Text(tame(src, 1000))}
}

// tame replaces the counts of wildcards over limit that are in range: they
// are valid, but take memory in proportion.
func tame(src string, limit int64) string {
	for {
		old := src
		src = countRE.ReplaceAllStringFunc(src, func(s string) string {
			n, err := strconv.ParseInt(s[2:len(s)-2], 10, 64)
			if err == nil && n > limit && n < 1<<31 {
				return fmt.Sprintf("__%d__", n%(limit+1))
			}
			return s
		})
		if src == old {
			return src
		}
	}
}

// twin returns a text of the same length that differs from s in few places.
func twin(t *rapid.T, s string) string {
	b := []byte(s)
	if len(b) == 0 {
		return s
	}
	for k := pick(t, []int{1, 1, 1, 2, 5}); k > 0; k-- {
		i := intn(t, len(b))
		switch intn(t, 3) {
		case 0: // a byte
			b[i] = pick(t, []byte{'x', 'q', ' ', '.', '0'})
		case 1: // a word
			for i > 0 && b[i-1] > ' ' {
				i--
			}
			for ; i < len(b) && b[i] > ' '; i++ {
				b[i] = 'q'
			}
		default: // two bytes change places
			j := intn(t, len(b))
			b[i], b[j] = b[j], b[i]
		}
	}
	return string(b)
}
