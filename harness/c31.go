package main

import (
	"fmt"
	"strings"

	"github.com/google/licensecheck/old"
	"pgregory.net/rapid"
)

// C31: license URLs in package old.

// An oldPart is a license text, a URL, or other text.
type oldPart struct {
	Lic  int // license of the list, or -1
	URL  Text
	Text Text // between spaces
}

type oldURLs struct {
	Lics  []oldLic
	Parts []oldPart
	Opts  oldOpts
}

var oldURLPool = []string{
	"creativecommons.org/licenses/by/3.0", "creativecommons.org/licenses/by/4.0", "creativecommons.org/licenses/by-nc/4.0", "creativecommons.org/licenses/by-nc-nd/2.0",
	"creativecommons.org/publicdomain/zero/1.0", "www.apache.org/licenses/license-2.0", "opensource.org/licenses/mit", "opensource.org/licenses/upl",
	"foo.org/1.0", "foo.org/2", "foo.org/lic", "foo.org/lic/x", "foo.com/lic", "foo-bar.com/lic?x=y#z", "sub.foo.com/a_b/c-d.html", "creativecommons.org/licenses", "xcom/lic",
	"foo.org/" + strings.Repeat("a/", 20) + "lic", strings.Repeat("sub.", 30) + "foo.org/lic", "foo.org/" + strings.Repeat("x-y", 100), strings.Repeat("x", 70) + ".com/p/q/r/s/t/u/v",
}

// oldURLName is the license a URL stands for.
func oldURLName(lics []oldLic, url string) (string, bool) {
	u := strings.ToLower(url)
	u = strings.TrimPrefix(strings.TrimPrefix(u, "http://"), "https://")
	u = strings.TrimSuffix(strings.TrimSuffix(u, "/"), "/legalcode")
	for _, up := range []bool{false, true} {
		if i := strings.LastIndexByte(u, '/'); up && i >= 0 {
			u = u[:i]
		}
		for _, l := range lics {
			if l.URL == u {
				return l.Name, true
			}
		}
	}
	return "", false
}

func genOldURLs(t *rapid.T) oldURLs {
	c := oldURLs{Opts: genOldOpts(t)}
	if c.Opts.Min > 10 {
		c.Opts.Min = 10
	}
	pool := rapid.Permutation(oldURLPool).Draw(t, "urls")
	nt, nu := between(t, 0, 3), between(t, 1, 5)
	next := 0
	for i := 0; i < nt+nu; i++ {
		l := oldLic{Name: pick(t, oldNames) + fmt.Sprint(i)}
		if i < nt {
			var w []string
			for k := between(t, 10, 16); k > 0; k-- {
				w = append(w, codeWord(next))
				next++
			}
			l.Text = Text(strings.Join(w, " "))
			if oneIn(t, 4) {
				l.URL, pool = pool[0], pool[1:]
			}
		} else {
			l.URL, pool = pool[0], pool[1:]
		}
		c.Lics = append(c.Lics, l)
	}
	known := pool[:2:2]
	for _, l := range c.Lics {
		if l.URL != "" {
			known = append(known, l.URL, l.URL, l.URL)
		}
	}
	for k := between(t, 1, 7); k > 0; k-- {
		p := oldPart{Lic: -1}
		switch intn(t, 7) {
		case 0, 1:
			if nt > 0 {
				p.Lic = intn(t, nt)
				break
			}
			fallthrough
		case 2:
			var w []string
			for k := between(t, 0, 6); k > 0; k-- {
				w = append(w, fillWord(intn(t, 5)))
			}
			p.Text = Text(strings.Join(w, " "))
		default:
			u := pick(t, known)
			switch intn(t, 12) {
			case 0:
				u = strings.ToUpper(u)
			case 1:
				x := []byte(u)
				for i := range x {
					if oneIn(t, 3) {
						x[i] = strings.ToUpper(string(x[i : i+1]))[0]
					}
				}
				u = string(x)
			case 2, 3:
				u += pick(t, []string{"/", "/legalcode", "/legalcode/", "/us", "/us/", "/de/legalcode", "/deed.en", "/LegalCode", "/legalcode.txt", "/legalcode/legalcode"})
			case 4:
				u += pick(t, []string{"/us/deed", "x", "-", "0", "/a/b/c", "#x", "?y", "/x/legalcode/"})
			case 5:
				if i := intn(t, len(u)); u[i] != '/' {
					u = u[:i] + u[i+1:]
				}
			}
			scheme := pick(t, []string{"http://", "https://", "https://", "HTTP://", "Https://", "hTTpS://"})
			p.URL = Text(scheme + u)
			if oneIn(t, 10) {
				p.URL = Text(pick(t, []string{"", "ftp://", "http:/", "//", "www.", "mailto:", "https//"}) + u)
			}
			p.Text = Text(pick(t, []string{" ", " ", "\n", ", ", ") ", "> ", "\" ", "; ", "' ", "\r\n", "* ", "%20 ", "! ", " 2020 ", "\u00a0", "\u201d "}))
		}
		c.Parts = append(c.Parts, p)
	}
	return c
}

func checkOldURLs(c oldURLs, o *Obs) error {
	var b strings.Builder
	var want []old.Match
	var urlEnd []int
	type gap struct {
		lo, hi int
		url    bool
	}
	gaps := []gap{{}} // around the license texts
	for i, p := range c.Parts {
		if i > 0 && p.Lic < 0 && p.URL == "" {
			b.WriteString(" ")
		}
		if i > 0 && p.Lic < 0 && p.URL != "" {
			switch prev := c.Parts[i-1]; {
			case prev.Lic >= 0:
				b.WriteString([]string{" ", "\n", " (", ": "}[i%4])
			case prev.URL != "":
			default:
				b.WriteString([]string{" ", " <", "\n", "(", "\"", "=", " - "}[i%7])
			}
		}
		switch {
		case p.Lic >= 0:
			l := c.Lics[p.Lic]
			b.WriteString(" \n")
			m := old.Match{Name: l.Name, Type: oldTypeOf(l.Name), Percent: 100, Start: b.Len(), End: b.Len() + len(l.Text)}
			want = append(want, m)
			urlEnd = append(urlEnd, -1)
			gaps[len(gaps)-1].hi = b.Len()
			b.WriteString(string(l.Text) + "\n")
			gaps = append(gaps, gap{lo: b.Len()})
		case p.URL != "":
			u := string(p.URL)
			low := strings.ToLower(u)
			name, ok := oldURLName(c.Lics, u)
			if !strings.HasPrefix(low, "http://") && !strings.HasPrefix(low, "https://") {
				ok = false
				o.Label("another scheme or none")
			} else if strings.Contains(u[8:], "//") {
				o.Label("discarded: empty path element")
				return nil
			} else {
				o.LabelIf(!ok, "unknown URL")
			}
			if ok {
				m := old.Match{Name: name, Type: oldTypeOf(name), Percent: 100, IsURL: true, Start: b.Len()}
				w := oldAtoms(u)
				m.End = b.Len() + w[len(w)-1].Hi
				want = append(want, m)
				urlEnd = append(urlEnd, b.Len()+len(u))
				gaps[len(gaps)-1].url = true
				o.Nontrivial()
			}
			b.WriteString(u + string(p.Text))
		default:
			b.WriteString(string(p.Text))
		}
	}
	text := b.String()
	gaps[len(gaps)-1].hi = len(text)
	words := oldAtoms(text)
	// What begins at the first word begins with the text, what ends at the
	// last word ends with it.
	for i := range want {
		if want[i].Start <= words[0].Lo {
			want[i].Start = 0
		}
		if want[i].End >= words[len(words)-1].Hi {
			want[i].End, urlEnd[i] = len(text), len(text)
		}
	}
	covered := len(words)
	for _, g := range gaps {
		for _, w := range words {
			if w.Lo >= g.lo && w.Lo < g.hi && !g.url {
				covered--
			}
		}
		o.LabelIf(g.url && len(gaps) > 1, "URLs beside license texts")
	}
	cov, _ := newOld(c.Lics).Cover([]byte(text), c.Opts.opts())
	bad := func() error {
		return fmt.Errorf("covering %q (%+v)\nfor %+v\ngot  %+v\nwant %+v, covering %d of %d words", text, c.Opts, c.Lics, cov, want, covered, len(words))
	}
	if len(cov.Match) != len(want) {
		return bad()
	}
	got := append([]old.Match(nil), cov.Match...)
	for i := range got {
		// The end may be that of the URL or of its last word.
		if got[i].IsURL && got[i].End > want[i].End && got[i].End <= urlEnd[i] {
			got[i].End = want[i].End
		}
	}
	if !sameOld(got, want) {
		return bad()
	}
	p := 0.0
	if len(words) > 0 {
		p = 100 * float64(covered) / float64(len(words))
	}
	if !near(cov.Percent, p) {
		return bad()
	}
	return nil
}

// oldManyURLs is a text of many URLs for package old, which stand in one gap
// or between copies of a license.
type oldManyURLs struct {
	N, URLs, Known int // licenses; URLs; every so many are of licenses
	Step           int
	Copy           int // after every so many URLs stands a license text
	Len            int // letters of the last element
	Words, Pad     int // unrelated words and bytes of no words before each
}

func genOldManyURLs(t *rapid.T) oldManyURLs {
	c := oldManyURLs{between(t, 1, 2000), between(t, 1, pick(t, []int{30, 1500})), between(t, 1, 3), between(t, 1, 50), between(t, 1, pick(t, []int{4, 3000})), between(t, 1, 20), between(t, 0, 3), 0}
	if oneIn(t, 3) {
		c.URLs = between(t, 1, 12)
		c.Len = between(t, 1, 5000)
		c.Pad = between(t, 0, pick(t, []int{5000, 300000}))
	}
	return c
}

func checkOldManyURLs(c oldManyURLs, o *Obs) error {
	lics := []old.License{{Name: "MIT", Text: "walpha wbeta wgamma wdelta wepsilon wzeta weta wtheta wiota wkappa wlambda wmu"}}
	for i := 0; i < c.N; i++ {
		lics = append(lics, old.License{Name: fmt.Sprint("BSD-", i), URL: "example.org/" + oldNthWord(i) + strings.Repeat("w", c.Len)})
	}
	var b strings.Builder
	var want []old.Match
	b.WriteString("start here")
	for k := 0; k < c.URLs; k++ {
		b.WriteString(" " + strings.Repeat("- ", c.Pad/2) + strings.Repeat("word ", c.Words+k%2))
		l := lics[1+k*c.Step%c.N]
		start := b.Len()
		b.WriteString("https://" + l.URL)
		if k%c.Known == 0 {
			want = append(want, old.Match{Name: l.Name, Type: oldTypeOf(l.Name), Percent: 100, Start: start, End: b.Len(), IsURL: true})
		} else {
			b.WriteString("/one/more")
		}
		if k%c.Copy == c.Copy-1 {
			b.WriteString(" and ")
			start := b.Len()
			b.WriteString(lics[0].Text)
			want = append(want, old.Match{Name: "MIT", Type: oldTypeOf("MIT"), Percent: 100, Start: start, End: b.Len()})
			b.WriteString(" then also")
		}
	}
	b.WriteString(" the end")
	cov, _ := old.New(lics).Cover([]byte(b.String()), old.Options{})
	o.LabelIf(len(want) > 500, "over 500 matches")
	o.LabelIf(b.Len() > 1<<20, "over 1048576 bytes")
	o.LabelIf(c.Len > 1000, "over 1000 letters")
	if len(want) > 0 {
		o.Nontrivial()
	}
	if !sameOld(cov.Match, want) {
		for i := range want {
			if i >= len(cov.Match) || cov.Match[i] != want[i] {
				return fmt.Errorf("%+v: match %d of %d (got %d) should be %+v", c, i, len(want), len(cov.Match), want[i])
			}
		}
		return fmt.Errorf("%+v: got %d matches, want %d", c, len(cov.Match), len(want))
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C31",
		Rule: "License lists for package old with texts and URLs, and texts of license copies, unrelated words and known or unknown URLs in any case, with either scheme or none, a final slash, /legalcode, one or two further path elements, a character dropped, in various brackets and directly before and after license texts; and texts of up to 1500 URLs, long URLs and long gaps. " +
			"Oracle: the matches by construction, and each gap holding a known URL counts as covered. Non-trivial: there is a known URL.",
		Subs: []Sub{
			NewSub("urls", 60000, 1500000, genOldURLs, checkOldURLs),
			NewSub("many", 800, 10000, genOldManyURLs, checkOldManyURLs),
		},
	})
}
