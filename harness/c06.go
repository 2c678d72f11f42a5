package main

import (
	"fmt"
	"strings"
	"unicode"

	lc "github.com/google/licensecheck"
	"github.com/google/licensecheck/verifh/ref"
	"pgregory.net/rapid"
)

// wordSpan returns the words [lo, hi) that lie inside text[start:end].
func wordSpan(words []ref.Word, start, end int) (lo, hi int) {
	for lo < len(words) && words[lo].Lo < start {
		lo++
	}
	for hi = lo; hi < len(words) && words[hi].Hi <= end; {
		hi++
	}
	return lo, hi
}

// A report is what a result says in terms of words.
func report(words []ref.Word, c lc.Coverage) (out []string, covered int) {
	for _, m := range c.Match {
		lo, hi := wordSpan(words, m.Start, m.End)
		covered += hi - lo
		out = append(out, fmt.Sprintf("%s type %d words [%d,%d) url %v", m.ID, m.Type, lo, hi, m.IsURL))
	}
	return out, covered
}

// A pairCase is one word sequence written in two ways.
type pairCase struct {
	Lics []ref.License // none: built-in
	A, B Text
}

var foreignWords = []string{
	"ångström", "σίσυφος", "ǆungla", "straße", "ключ", "ληξις", "λήξη", "naïve", "ñandú", "über", "ﬁn", "日本語", "café", "œuvre", "ĳs", "ǉubav", "μέγα", "ѐ", "ⅷ", "ａｂｃ", "\u1e9eund", "ẛtern", "ϐήτα", "ϑήτα", "ⴀⴁ",
}

// recase changes letters to other letters of the same case orbit, and vowels
// to vowels with grave or acute accents, everywhere in w.
func recase(t *rapid.T, w string, amount int) string {
	if amount == 0 {
		return w
	}
	var b strings.Builder
	style := intn(t, 3)
	for i, r := range w {
		switch {
		case style == 0:
			r = unicode.ToUpper(r)
		case style == 1 && i > 0:
		default:
			if !oneIn(t, 2) {
				for k := intn(t, 4); k > 0; k-- {
					r = unicode.SimpleFold(r)
				}
			}
		}
		if amount > 1 && strings.ContainsRune("aeiouAEIOU", r) && oneIn(t, 4) {
			k := strings.IndexRune("aeiouAEIOU", r)
			switch intn(t, 3) {
			case 0:
				b.WriteRune([]rune("áéíóúÁÉÍÓÚ")[k])
			case 1:
				b.WriteRune([]rune("àèìòùÀÈÌÒÙ")[k])
			default:
				b.WriteRune(r)
				b.WriteRune([]rune{0x300, 0x301}[intn(t, 2)])
			}
			continue
		}
		b.WriteRune(r)
	}
	return b.String()
}

// rewrite writes words in one of many ways that do not matter.
func rewrite(t *rapid.T, words []string, copyright bool) string {
	var b strings.Builder
	style := intn(t, 4) // 0: plain
	indent := pick(t, []string{"", "", " * ", "// ", "# ", "\t", "> ", "rem: "[:0], "-- "})
	width := between(t, 3, 20)
	for i, w := range words {
		if i > 0 {
			switch {
			case style >= 2 && oneIn(t, 3):
				b.WriteString(sep(t, true))
			case i%width == 0:
				b.WriteString(pick(t, []string{"\n", "\r\n", "\n\n"}) + indent)
			default:
				b.WriteString(" ")
			}
		}
		if w == "copyright" && copyright && style != 0 {
			b.WriteString(pick(t, []string{"(c)", "(C)", "©", "&copy;", "Copyright", "COPYRIGHT", "copyright", "Copyright (c)", "© (C)"}))
			continue
		}
		b.WriteString(recase(t, w, style*intn(t, 2)))
	}
	if style > 0 && oneIn(t, 3) {
		b.WriteString(sep(t, true))
	}
	return b.String()
}

func genPair(t *rapid.T) pairCase {
	v := genVocab(t)
	if oneIn(t, 3) {
		v.Words = nil
		for i := between(t, 3, 8); i > 0; i-- {
			v.Words = append(v.Words, ref.Fold(pick(t, foreignWords)))
		}
	}
	var keep []string
	for _, w := range v.Words {
		// Words from which a correction could tell (c) from copyright are out.
		if w == "copyright" || !strings.HasPrefix(w, "c") && !strings.HasSuffix(w, "c") && !ref.OneEdit("copyright", w) {
			keep = append(keep, w)
		}
	}
	v.Words = append(keep, "zzyyxx")
	s := genLicsFrom(t, scanCfg{maxLics: 4, wild: 6, depth: 3, fancy: true}, v)
	var words []string
	segs := between(t, 1, 5)
	fill := s.filler(t)
	for i := 0; i < segs; i++ {
		var w []string
		if len(s.trees) > 0 {
			w = derive(t, pick(t, s.trees), fill)
		}
		switch intn(t, 6) {
		case 0, 1:
		case 2, 3:
			for j := between(t, 1, 3); j > 0; j-- {
				w = edit(t, w, v)
			}
		case 4:
			words = append(words, "copyright")
			for j := intn(t, 4); j > 0; j-- {
				words = append(words, pick(t, v.Fill))
			}
		case 5:
			for j := between(t, 1, 5); j > 0; j-- {
				words = append(words, pick(t, v.Fill))
			}
		}
		words = append(words, w...)
	}
	return pairCase{s.lics, Text(rewrite(t, words, true)), Text(rewrite(t, words, true))}
}

func genBuiltinPair(t *rapid.T) pairCase {
	_, w := builtinWords(t, oneIn(t, 4))
	bd := builtinData()
	v := &Vocab{Words: bd.words, Fill: []string{bigFill(0), bigFill(1), bigFill(2)}}
	for j := intn(t, 4); j > 0; j-- {
		w = edit(t, w, v)
	}
	if oneIn(t, 3) {
		_, w2 := builtinWords(t, false)
		w = append(append(w, v.Fill...), w2...)
	}
	if oneIn(t, 3) {
		w = append([]string{"copyright", bigFill(0)}, w...)
	}
	if len(w) > 250 { // bound the number of draws
		lo := intn(t, len(w)-200)
		return pairCase{nil, Text(layoutWords(t, w[:lo]) + " " + rewrite(t, w[lo:lo+200], false) + "\n" + layoutWords(t, w[lo+200:])), Text(layoutWords(t, w))}
	}
	return pairCase{nil, Text(rewrite(t, w, false)), Text(rewrite(t, w, false))}
}

func checkPair(c pairCase, o *Obs) error {
	wa, wb := ref.Split(string(c.A), true), ref.Split(string(c.B), true)
	same := len(wa) == len(wb)
	for i := 0; same && i < len(wa); i++ {
		same = wa[i].W == wb[i].W && (wa[i].Raw == wb[i].Raw || wa[i].W == "copyright" && c.Lics != nil)
	}
	if !same {
		o.Label("discarded: not the same words")
		return nil
	}
	var a, b lc.Coverage
	if c.Lics != nil {
		s, err := newScanner(c.Lics)
		if err != nil {
			return err
		}
		a, b = s.Scan([]byte(c.A)), s.Scan([]byte(c.B))
	} else {
		a, b = lc.Scan([]byte(c.A)), lc.Scan([]byte(c.B))
	}
	ra, _ := report(wa, a)
	rb, _ := report(wb, b)
	if len(ra) > 0 && c.A != c.B {
		o.Nontrivial()
	}
	o.LabelIf(len(ra) == 0, "no match")
	o.LabelIf(a.Percent > 0 && a.Percent < 100, "partly covered")
	if fmt.Sprint(ra) != fmt.Sprint(rb) || a.Percent != b.Percent {
		return fmt.Errorf("same words, different results:\n%q\n%v%% %q\n%q\n%v%% %q", trunc(string(c.A)), a.Percent, ra, trunc(string(c.B)), b.Percent, rb)
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C06",
		Rule: "A random word sequence (license texts derived from random or built-in LREs, edited ones, copyright words, fillers; words also of other alphabets) written twice, " +
			"with independently chosen letter case (all letters of a Unicode case orbit), grave and acute accents, separators, markup, line layouts and spellings of copyright. " +
			"Oracle: the two results agree (licenses, words covered, Percent). Pairs whose word sequences an independent splitter finds different are discarded and counted. " +
			"Non-trivial: something is matched and the texts differ.",
		Assumes: []string{"words near copyright or c are left out of patterns when copyright is re-spelled, since spelling correction sees the text's own letters"},
		Subs: []Sub{
			NewSub("generated", 60000, 1500000, genPair, checkPair),
			NewSub("builtin", 3000, 60000, genBuiltinPair, checkPair),
		},
	})
}
