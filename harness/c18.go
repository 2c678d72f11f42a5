package main

import (
	"fmt"
	"math/big"
	"strings"

	lc "github.com/google/licensecheck"
	"pgregory.net/rapid"
)

// The documented type bits, in the order of String.
var typeNames = []struct {
	name string
	t    lc.Type
}{
	{"Unrestricted", lc.Unrestricted},
	{"Notice", lc.Notice},
	{"ShareChanges", lc.ShareChanges},
	{"ShareProgram", lc.ShareProgram},
	{"ShareServer", lc.ShareServer},
	{"NonCommercial", lc.NonCommercial},
	{"Discouraged", lc.Discouraged},
}

type typeCase struct{ T uint64 }

func genType(t *rapid.T) typeCase {
	var x uint64
	switch intn(t, 5) {
	case 0:
		x = rapid.Uint64().Draw(t, "type")
	case 1:
		x = uint64(intn(t, 512))
	case 2:
		x = 1 << intn(t, 64)
	case 3:
		for i := between(t, 0, 7); i > 0; i-- {
			x |= uint64(pick(t, typeNames).t)
		}
	case 4:
		for i := between(t, 0, 7); i > 0; i-- {
			x |= uint64(pick(t, typeNames).t)
		}
		x |= 1 << intn(t, 64)
		x |= rapid.Uint64().Draw(t, "type") << 8
	}
	return typeCase{x}
}

func checkTypeString(c typeCase, o *Obs) error {
	t := lc.Type(c.T)
	s := t.String()
	var want []string
	left := t
	for _, b := range typeNames {
		if t&b.t != 0 {
			want = append(want, b.name)
			left &^= b.t
		}
	}
	if left != 0 {
		want = append(want, fmt.Sprintf("Type(0x%s)", big.NewInt(0).SetUint64(uint64(left)).Text(16)))
	}
	w := strings.Join(want, "|")
	if t == 0 {
		w = "Unknown"
	}
	o.LabelIf(left != 0, "other bits")
	o.LabelIf(left != t, "named bits")
	if len(want) > 1 {
		o.Nontrivial()
	}
	if s != w {
		return fmt.Errorf("Type(%#x).String() = %q, want %q", c.T, s, w)
	}
	got, err := lc.ParseType(s)
	if err != nil || got != t {
		return fmt.Errorf("ParseType(%q) = %#x, %v, want %#x", s, uint64(got), err, c.T)
	}
	return nil
}

type typeText struct{ S Text }

func genTypeText(t *rapid.T) typeText {
	one := func() string {
		switch intn(t, 5) {
		case 0, 1:
			if oneIn(t, 6) {
				return "Unknown"
			}
			return pick(t, typeNames).name
		case 2:
			return "Type(" + genNumber(t) + ")"
		case 3:
			return pick(t, []string{"", " ", "notice", "NOTICE", " Notice", "Notice ", "Notic", "Noticee", "Type", "Type()", "Type(", "Type)", "type(1)", "Type(1", "Type 1", "(1)", "Type(1))", "Type((1)", "0x8", "8", "None", "Share", "ShareChanges,Notice",
				"Type(Notice)", "Unknown0", "TypeNotice", "Type(1)Type(2)", "Notice+Discouraged", "Notice\n"})
		default:
			return lc.Type(genType(t).T).String()
		}
	}
	n := between(t, 1, 5)
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, one())
	}
	s := strings.Join(l, "|")
	if oneIn(t, 8) {
		s = mangleBytes(t, s)
	}
	return typeText{Text(s)}
}

func genNumber(t *rapid.T) string {
	n := rapid.Uint64().Draw(t, "num") >> intn(t, 64)
	switch intn(t, 12) {
	case 0, 1, 2:
		return fmt.Sprintf("%#x", n)
	case 3:
		return fmt.Sprint(n)
	case 4:
		return fmt.Sprintf("%#o", n)
	case 5:
		return fmt.Sprintf("0b%b", n)
	case 6:
		return fmt.Sprintf("0X%X", n)
	case 7:
		return pick(t, []string{"-1", "+1", " 1", "1 ", "0x", "1.0", "1e3", "x", "0xg", "08", "0o8", "0b2", "١", "0x1p1", "0x-1", "--1"})
	case 8:
		return pick(t, []string{"18446744073709551615", "18446744073709551616", "0xffffffffffffffff", "0x10000000000000000", "36893488147419103232", "00", "0", "000000000000000000000001", "0x00000000000000000001"})
	case 9:
		return pick(t, []string{"1_000", "0x_1", "0_1", "1__0", "_1", "1_", "0b_1", "0o_7", "0x1_"})
	default:
		return fmt.Sprintf("0x%x", n&0xfff)
	}
}

func mangleBytes(t *rapid.T, s string) string {
	if s == "" {
		return "|"
	}
	i := intn(t, len(s))
	return s[:i] + pick(t, []string{"", "|", " ", "x", "(", ")", "\x00", "0"}) + s[i+intn(t, 2):]
}

func checkTypeText(c typeText, o *Obs) error {
	s := string(c.S)
	var want lc.Type
	ok := true
	for _, f := range strings.Split(s, "|") {
		found := f == "Unknown"
		for _, b := range typeNames {
			if f == b.name {
				want |= b.t
				found = true
			}
		}
		if num, is := strings.CutPrefix(f, "Type("); is && !found {
			if num, is := strings.CutSuffix(num, ")"); is && num != "" && num[0] >= '0' && num[0] <= '9' {
				if n, good := new(big.Int).SetString(num, 0); good && n.IsUint64() {
					want |= lc.Type(n.Uint64())
					found = true
				}
			}
		}
		ok = ok && found
	}
	got, err := lc.ParseType(s)
	o.LabelIf(ok, "valid")
	o.LabelIf(!ok, "invalid")
	if s != "" {
		o.Nontrivial()
	}
	if (err == nil) != ok {
		return fmt.Errorf("ParseType(%q) = %v, %v; valid: %v", s, got, err, ok)
	}
	if ok && got != want {
		return fmt.Errorf("ParseType(%q) = %v, want %v", s, got, want)
	}
	if !ok && got != 0 {
		return fmt.Errorf("ParseType(%q) = %v with error %v", s, got, err)
	}
	return nil
}

// C19

type mergeCase struct{ T, U, V []int } // indexes in typeNames

func genMerge(t *rapid.T) mergeCase {
	set := func() []int {
		l := []int{}
		m := intn(t, 128)
		for i := 0; i < 7; i++ {
			if m>>i&1 != 0 {
				l = append(l, i)
			}
		}
		return l
	}
	return mergeCase{set(), set(), set()}
}

// mergeSets states the merge rule on sets of names.
func mergeSets(a, b map[string]bool) map[string]bool {
	m := map[string]bool{}
	if len(a) == 0 || len(b) == 0 {
		return m
	}
	for _, n := range []string{"ShareServer", "ShareProgram", "ShareChanges", "Notice", "Unrestricted"} {
		if a[n] || b[n] {
			m[n] = true
			break
		}
	}
	for _, n := range []string{"NonCommercial", "Discouraged"} {
		if a[n] || b[n] {
			m[n] = true
		}
	}
	if m["NonCommercial"] {
		delete(m, "Unrestricted")
	}
	return m
}

func setOf(l []int) (lc.Type, map[string]bool) {
	var t lc.Type
	m := map[string]bool{}
	for _, i := range l {
		t |= typeNames[i].t
		m[typeNames[i].name] = true
	}
	return t, m
}

func typeOf(m map[string]bool) lc.Type {
	var t lc.Type
	for _, b := range typeNames {
		if m[b.name] {
			t |= b.t
		}
	}
	return t
}

func checkMerge(c mergeCase, o *Obs) error {
	t, ts := setOf(c.T)
	u, us := setOf(c.U)
	v, _ := setOf(c.V)
	o.LabelIf(t == 0 || u == 0, "Unknown")
	if t != 0 && u != 0 && t != u {
		o.Nontrivial()
	}
	got := t.Merge(u)
	if want := typeOf(mergeSets(ts, us)); got != want {
		return fmt.Errorf("(%v).Merge(%v) = %v, want %v", t, u, got, want)
	}
	if x := u.Merge(t); x != got {
		return fmt.Errorf("(%v).Merge(%v) = %v, but the other way around %v", t, u, got, x)
	}
	if x := got.Merge(got); x != got {
		return fmt.Errorf("(%v).Merge(itself) = %v", got, x)
	}
	// Associativity, on merged types.
	a, b, d := t.Merge(t), u.Merge(u), v.Merge(v)
	if x, y := a.Merge(b).Merge(d), a.Merge(b.Merge(d)); x != y {
		return fmt.Errorf("merging %v, %v, %v: %v or %v", a, b, d, x, y)
	}
	if got&^(t|u) != 0 {
		return fmt.Errorf("(%v).Merge(%v) = %v has bits of neither", t, u, got)
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C18",
		Rule: "Random 64-bit types (any bits, single bits, named bits, both) for String and its round trip; type texts of names, numbers of all bases and sizes, String outputs, near-misses and mangled ones for ParseType. " +
			"Oracle: the documented format; names and arbitrary-precision numbers. Non-trivial: several parts; any non-empty text.",
		Subs: []Sub{
			NewSub("string", 60000, 2000000, genType, checkTypeString),
			NewSub("parse", 100000, 3000000, genTypeText, checkTypeText),
		},
	})
	register(&Prop{
		ID:   "C19",
		Rule: "Triples of sets of documented bits (128 values each, so all pairs are met many times). Oracle: the documented rule stated on sets of names, commutativity, idempotence, associativity. Non-trivial: two different known types.",
		Subs: []Sub{NewSub("merge", 200000, 3000000, genMerge, checkMerge)},
	})
}
