package main

import (
	"fmt"
	"math"
	"sync"

	lc "github.com/google/licensecheck"
	"github.com/google/licensecheck/verifh/ref"
)

// implLics converts a license list.
func implLics(list []ref.License) []lc.License {
	var out []lc.License
	for _, l := range list {
		out = append(out, lc.License{ID: l.ID, Type: lc.Type(l.Type), LRE: l.LRE, URL: l.URL})
	}
	return out
}

func refLics(list []lc.License) []ref.License {
	var out []ref.License
	for _, l := range list {
		out = append(out, ref.License{ID: l.ID, Type: uint(l.Type), LRE: l.LRE, URL: l.URL})
	}
	return out
}

// newScanner makes a scanner that must be accepted.
func newScanner(list []ref.License) (*lc.Scanner, error) {
	s, err := lc.NewScanner(implLics(list))
	if err != nil {
		return nil, fmt.Errorf("NewScanner rejects valid licenses: %v", err)
	}
	return s, nil
}

func refMatches(c lc.Coverage) []ref.Match {
	var out []ref.Match
	for _, m := range c.Match {
		out = append(out, ref.Match{ID: m.ID, Type: uint(m.Type), Start: m.Start, End: m.End, IsURL: m.IsURL})
	}
	return out
}

func near(a, b float64) bool { return math.Abs(a-b) <= 1e-9 }

func sameMatches(a, b []ref.Match) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// agrees checks a result against the model's possible results.
func agrees(got lc.Coverage, want []ref.Coverage, text string) error {
	gm := refMatches(got)
	for _, w := range want {
		if sameMatches(gm, w.Match) && near(got.Percent, w.Percent()) {
			return nil
		}
	}
	s := ""
	for _, w := range want {
		s += fmt.Sprintf("want %.4f%% (%d of %d words) %+v\n", w.Percent(), w.Covered, w.Total, w.Match)
	}
	return fmt.Errorf("scanning %q\ngot  %.4f%% %+v\n%s", trunc(text), got.Percent, gm, s)
}

func trunc(s string) string {
	if len(s) > 4000 {
		return s[:4000] + "..."
	}
	return s
}

// builtin returns the model of the built-in scanner.
var builtin = sync.OnceValue(func() *ref.Scanner {
	s, err := ref.NewScanner(refLics(lc.BuiltinLicenses()))
	if err != nil {
		panic(err)
	}
	return s
})
