package main

import (
	"fmt"
	"strings"

	lc "github.com/google/licensecheck"
	"github.com/google/licensecheck/verifh/ref"
	"pgregory.net/rapid"
)

// A urlText is a text with URLs, some of which must be reported.
type urlText struct {
	Lics []ref.License // none: built-in
	Text Text
	Want []ref.Match
	Note []string
}

func genURLText(builtinSet bool) func(t *rapid.T) urlText {
	return func(t *rapid.T) urlText {
		var c urlText
		var known []ref.License
		if builtinSet {
			for _, l := range builtinList() {
				if l.URL != "" {
					known = append(known, ref.License{ID: l.ID, Type: uint(l.Type), URL: l.URL})
				}
			}
		} else {
			// Known URLs. None is another with one more element or /legalcode.
			c.Lics = []ref.License{}
			n := between(t, 1, 4)
			for i := 0; i < n; i++ {
				host := pick(t, []string{"foo", "www.foo", "a-b_c.x9", "a.b.c.d", "foo.com", "0", "-", "x_"}) + pick(t, []string{".org", ".com"})
				path := ""
				depth := between(t, 1, 4)
				switch intn(t, 14) {
				case 0: // a long host name
					host = strings.Repeat(pick(t, []string{"a", "sub.", "x-y", "0.1."}), between(t, 2, 100)) + host
				case 1: // many path elements
					depth = between(t, 5, 40)
				case 2: // a long one
					path = "/" + strings.Repeat(pick(t, []string{"a", "x-y", "0.", "#", "p=q"}), between(t, 2, 200))
				}
				for j := 0; j < depth; j++ {
					path += "/" + pick(t, []string{"lic", "licenses", "by", "3.0", "mit-2.0", "x_y", "index.html", "p?id=1", "#frag", "a=b", "q"})
				}
				path += fmt.Sprint("k", i) // unlike the others
				l := ref.License{ID: fmt.Sprint("U", i), Type: uint(i+1) << 2, URL: host + path}
				if oneIn(t, 4) {
					l.LRE = codeWord(2*i) + " " + codeWord(2*i+1)
				}
				c.Lics = append(c.Lics, l)
			}
			known = c.Lics
		}
		var b strings.Builder
		segs := between(t, 1, 6)
		for i := 0; i < segs; i++ {
			for j := intn(t, 3); j > 0; j-- {
				b.WriteString(bigFill(j) + pick(t, []string{" ", "\n", ", ", ". ", " (", "\""}))
			}
			l := pick(t, known)
			url := l.URL
			hit := true
			note := "plain"
			scheme := pick(t, []string{"http://", "https://", "http://", "https://", "HTTP://", "Https://", "hTTps://", "HTTPS://"})
			suffix := ""
			before := ""
			switch intn(t, 22) {
			case 0, 1:
				suffix, note = "/", "trailing slash"
			case 2:
				suffix, note = "/legalcode", "legalcode"
			case 3:
				suffix, note = "/legalcode/", "legalcode and slash"
			case 4:
				suffix, note = pick(t, []string{"/us", "/de", "/xyz-1.0", "/index.html", "/#x", "/?a=b", "/LEGALCODES", "/" + urlElem(t)}), "one more element"
			case 5:
				suffix, note = pick(t, []string{"/us/", "/de/", "/deed.en/"}), "one more element and slash"
			case 6:
				suffix, note = "/us/legalcode", "one more element and legalcode"
			case 7:
				suffix, note = pick(t, []string{"/LegalCode", "/LEGALCODE/"}), "upper-case legalcode"
			case 8:
				url, note = strings.ToUpper(url), "upper case"
			case 9:
				k := intn(t, len(url))
				url, note = url[:k]+strings.ToUpper(url[k:]), "mixed case"
			case 10:
				suffix, hit, note = pick(t, []string{"/us/de", "/a/b/c", "/us/legalcode/x", "/a/b/", "/" + urlElem(t) + "/" + urlElem(t), "/" + urlElem(t) + "/" + urlElem(t) + "/"}), false, "two more elements"
				if e := strings.ToLower(strings.TrimSuffix(suffix, "/")); strings.HasSuffix(e, "/legalcode") && strings.Count(e, "/") == 2 {
					hit, note = true, "one more element and legalcode"
				}
			case 11:
				suffix, hit, note = pick(t, []string{"x", ".", "-1", "=", "_", "?q", "#f", ".html", ".htm", ".txt", ".php", ".md", "?lang=en", "#top", "s", "-only", "legalcode", "-legalcode", "0", ".0"}), false, "longer last element"
			case 12:
				scheme, hit, note = pick(t, []string{"ftp://", "http:/", "http:// ", "http//", "://", "", "httpx://", "http.s://", "http :", "http:\n//"}), false, "not a URL"
			case 13:
				k := strings.IndexByte(url, '/')
				host := url[:k]
				url, hit, note = host[:len(host)-4]+pick(t, []string{".net", ".edu", ".or", ".orgx", ".co", "org", ".org.", ".com:80", ".org ", ".org.uk", ".com.au", ".net", ".io", ".gov"})+url[k:], false, "other host"
				if !builtinSet && oneIn(t, 2) {
					// Not even as the URL of a license.
					c.Lics = append(c.Lics, ref.License{ID: fmt.Sprint("N", i), Type: 1, URL: url})
				}
			case 14:
				url, hit, note = url[:len(url)-1], false, "shorter"
				for strings.HasSuffix(url, "/") {
					url = url[:len(url)-1]
				}
			case 15:
				url, hit, note = pick(t, []string{"x", "www.", "en.", "-", "_", ".", "http.", "w"})+url, false, "longer host"
			case 16:
				before, hit, note = pick(t, []string{"](", "[text]("}), false, "link target"
				scheme = strings.ToLower(scheme)
			case 17:
				before, hit, note = "<a href=\"", false, "inside a tag"
			case 18:
				before, note = pick(t, []string{"<", "(", "[", "\"", "'", "=", ":", "{"}), "in brackets"
			case 19:
				k := strings.LastIndexByte(url, '/')
				url, hit, note = url[:k]+"/"+url[k:], false, "empty element"
			}
			// What ends the URL. A slash is part of it.
			end := pick(t, []string{" ", "\n", "\t", ")", ",", ">", "\"", ";", "%20 ", "é ", "\x00", "]", "* ", "+ ", "& ", "~ ", "  \r\n", ": ", "!"})
			if note == "link target" {
				end = ") "
			}
			if note == "inside a tag" {
				end = "\"> "
			}
			c.Note = append(c.Note, note)
			b.WriteString(before)
			start := b.Len()
			b.WriteString(scheme + url + suffix)
			if hit {
				c.Want = append(c.Want, ref.Match{ID: l.ID, Type: l.Type, Start: start, End: b.Len(), IsURL: true})
			}
			if i < segs-1 || oneIn(t, 2) {
				b.WriteString(end)
			} else if note == "link target" || note == "inside a tag" {
				b.WriteString(end)
			}
		}
		c.Text = Text(b.String())
		return c
	}
}

func checkURLText(c urlText, o *Obs) error {
	var got lc.Coverage
	if c.Lics != nil {
		s, err := newScanner(c.Lics)
		if err != nil {
			return err
		}
		got = s.Scan([]byte(c.Text))
	} else {
		// By construction, except when a changed built-in URL is another one.
		for _, w := range builtinNearURL(string(c.Text), c.Want) {
			_ = w
			o.Label("discarded: changed into another known URL")
			return nil
		}
		got = lc.Scan([]byte(c.Text))
	}
	for _, n := range c.Note {
		o.Label(n)
	}
	if len(c.Note) > 0 {
		o.Nontrivial()
	}
	gm := refMatches(got)
	if !sameMatches(gm, c.Want) {
		return fmt.Errorf("scanning %q for %+v (%v)\ngot  %+v\nwant %+v", c.Text, c.Lics, c.Note, gm, c.Want)
	}
	return nil
}

// builtinNearURL lists the URLs the model finds that are not wanted, or with
// other licenses: changing a built-in URL may give a different known one.
func builtinNearURL(text string, want []ref.Match) (bad []ref.Match) {
	res, _, ok := builtin().Scan(text)
	if !ok {
		return []ref.Match{{}}
	}
	have := map[ref.Match]bool{}
	for _, w := range want {
		have[w] = true
	}
	for _, m := range res[0].Match {
		if !have[m] {
			bad = append(bad, m)
		}
	}
	return bad
}

// urlElem makes a path element of a URL.
func urlElem(t *rapid.T) string {
	return pick(t, []string{"us", "de", "legalcode", "legalcode.en", "legalcode.txt", "legalcodex", "LegalCode", "deed", "deed.en", "index.html", "x", "text", "license.txt", "3.0", "1.0-us", "#a", "?b=c", "_", "."})
}

// genURLWords makes scans whose licenses are made of words of URLs, so that
// URLs lie inside, before and across license texts.
func genURLWords(t *rapid.T) Scan {
	v := &Vocab{Words: []string{"http", "foo", "org", "a", "b", "lic", "com", "www", "legalcode", "us", "copyright"}, Fill: []string{fillWord(0), fillWord(1)}}
	s := genLicsFrom(t, scanCfg{maxLics: 3, wild: 4, depth: 2}, v)
	var urls []string
	for i := between(t, 1, 3); i > 0; i-- {
		u := pick(t, []string{"foo.org/a", "foo.org/a/b", "foo.org/lic", "www.foo.com/a", "foo.com/lic/us"})
		urls = append(urls, u)
		s.lics = append(s.lics, ref.License{ID: fmt.Sprint("U", i), Type: uint(1 << i), URL: u})
	}
	var b strings.Builder
	for i := between(t, 1, 6); i > 0; i-- {
		switch intn(t, 4) {
		case 0:
			b.WriteString(genURL(t, urls))
		case 1:
			b.WriteString(pick(t, []string{"http://", "https://"}) + pick(t, urls))
		case 2:
			if len(s.trees) > 0 {
				b.WriteString(strings.Join(derive(t, pick(t, s.trees), func() string { return v.word(t) }), pick(t, []string{" ", "/", "."})))
			}
		case 3:
			b.WriteString(strings.Join(v.list(t, 1, 4), pick(t, []string{" ", "/", "."})))
		}
		b.WriteString(pick(t, []string{" ", "/", ".", "\n", " x ", ", "}))
	}
	return Scan{s.lics, Text(b.String())}
}

func checkURLs(c Scan, o *Obs) error {
	s, err := newScanner(c.Lics)
	if err != nil {
		return err
	}
	model, err := ref.NewScanner(c.Lics)
	if err != nil {
		return fmt.Errorf("model: %v", err)
	}
	want, _, ok := model.Scan(string(c.Text))
	if !ok {
		o.Label("too ambiguous")
		return nil
	}
	urls := func(l []ref.Match) (out []ref.Match) {
		for _, m := range l {
			if m.IsURL {
				out = append(out, m)
			}
		}
		return out
	}
	got := urls(refMatches(s.Scan([]byte(c.Text))))
	all := ""
	for _, w := range want {
		wu := urls(w.Match)
		if sameMatches(got, wu) {
			if len(wu) > 0 {
				o.Nontrivial()
			}
			o.LabelIf(len(wu) == 0, "no URL match")
			o.LabelIf(len(wu) < len(w.Match), "also license matches")
			return nil
		}
		all += fmt.Sprintf("want %+v\n", wu)
	}
	return fmt.Errorf("scanning %q for %+v: URL matches\ngot  %+v\n%s", c.Text, c.Lics, got, all)
}

// manyURLs is a text of many URLs, of which every Known-th is the URL of one
// of N licenses.
type manyURLs struct {
	N, URLs, Known, Words int
	From                  int // the license of the first
	Step                  int
	License               int // after every so many URLs a license text stands
}

func genManyURLs(t *rapid.T) manyURLs {
	return manyURLs{between(t, 1, 5000), between(t, 1, pick(t, []int{300, 5000})), between(t, 1, 3), between(t, 0, 3), even(t, 5000), between(t, 1, 50), between(t, 1, 2000)}
}

func checkManyURLs(c manyURLs, o *Obs) error {
	lics := []ref.License{{ID: "L", Type: 1, LRE: "alpha beta gamma"}}
	for i := 0; i < c.N; i++ {
		lics = append(lics, ref.License{ID: fmt.Sprint("U", i), Type: uint(1 << (i % 5)), URL: fmt.Sprintf("example.org/u%d", i)})
	}
	var b strings.Builder
	var want []ref.Match
	for k := 0; k < c.URLs; k++ {
		b.WriteString(strings.Repeat("word ", c.Words+k%2))
		start := b.Len()
		l := lics[1+(c.From+k*c.Step)%c.N]
		b.WriteString("https://" + l.URL)
		if k%c.Known == 0 {
			want = append(want, ref.Match{ID: l.ID, Type: l.Type, Start: start, End: b.Len(), IsURL: true})
		} else {
			b.WriteString("/one/more")
		}
		b.WriteString(" ")
		if k%c.License == c.License-1 {
			b.WriteString("and ")
			start := b.Len()
			b.WriteString("alpha beta gamma")
			want = append(want, ref.Match{ID: "L", Type: 1, Start: start, End: b.Len()})
			b.WriteString(" then ")
		}
	}
	b.WriteString("end")
	s, err := newScanner(lics)
	if err != nil {
		return err
	}
	o.LabelIf(len(want) > 1000, "over 1000 matches")
	o.LabelIf(c.N > 1000, "over 1000 licenses")
	o.Nontrivial()
	got := refMatches(s.Scan([]byte(b.String())))
	if !sameMatches(got, want) {
		for i := range want {
			if i >= len(got) || got[i] != want[i] {
				return fmt.Errorf("%+v: match %d of %d (got %d) should be %+v", c, i, len(want), len(got), want[i])
			}
		}
		return fmt.Errorf("%+v: got %d matches, want %d", c, len(got), len(want))
	}
	return nil
}

// A longURL is the URL of a license with N hosts parts and path elements of
// so many letters each.
type longURL struct {
	Hosts, Elems, Len int
	Tail              string
	Known             int // 0: as it is, 1: one element more, 2: two more, 3: one less
}

func genLongURL(t *rapid.T) longURL {
	c := longURL{between(t, 1, pick(t, []int{3, 60})), between(t, 1, pick(t, []int{4, 300})), between(t, 1, pick(t, []int{8, 100})), pick(t, []string{"", "/", "/legalcode", "/legalcode/"}), intn(t, 4)}
	if oneIn(t, 4) {
		c.Elems, c.Len = between(t, 1, 2), between(t, 1, 70000)
	}
	return c
}

func checkLongURL(c longURL, o *Obs) error {
	var h []string
	for i := 0; i < c.Hosts; i++ {
		h = append(h, fmt.Sprintf("h%d", i))
	}
	u := strings.Join(h, ".") + ".org"
	shorter := ""
	for i := 0; i < c.Elems; i++ {
		shorter = u
		u += "/" + strings.Repeat(string(rune('a'+i%20)), c.Len)
	}
	text := u
	switch c.Known {
	case 1:
		text += "/more"
	case 2:
		text += "/one/more"
	case 3:
		text = shorter
	}
	text = "https://" + text + c.Tail
	lics := []ref.License{{ID: "L", Type: 1, LRE: "alpha beta gamma"}, {ID: "U", Type: 2, URL: u}}
	s, err := newScanner(lics)
	if err != nil {
		return err
	}
	o.LabelIf(len(text) > 1000, "over 1000 bytes")
	o.LabelIf(len(text) > 65536, "over 65536 bytes")
	o.Nontrivial()
	for _, before := range []string{"", "word "} {
		var want []ref.Match
		percent := 0.0
		if c.Known < 2 {
			want = []ref.Match{{ID: "U", Type: 2, Start: len(before), End: len(before) + len(text), IsURL: true}}
			percent = 100
		}
		cov := s.Scan([]byte(before + text))
		if got := refMatches(cov); !sameMatches(got, want) || before == "" && !near(cov.Percent, percent) {
			return fmt.Errorf("scanning %q for %+v: got %v%% %+v, want %v%% %+v", trunc(before+text), c, cov.Percent, got, percent, want)
		}
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C13",
		Rule: "Texts of URLs put together from parts - scheme, host and path of a known URL (random or built-in) with changes that keep it known (letter case, trailing slash, legalcode, one more element) or not (two more " +
			"elements, other scheme, host, longer or shorter last element, inside tags and link targets) - between words and punctuation, with the expected matches known from construction; texts of up to 5000 URLs of up to 5000 licenses; URLs of hundreds of elements or 140000 letters; and texts in which URLs and " +
			"license texts of URL words lie inside and across one another, judged by the reference model. Non-trivial: URLs of known outcome, or a URL match.",
		Subs: []Sub{
			NewSub("constructed", 60000, 1500000, genURLText(false), checkURLText),
			NewSub("builtin", 16000, 300000, genURLText(true), checkURLText),
			NewSub("many", 800, 20000, genManyURLs, checkManyURLs),
			NewSub("long", 4000, 80000, genLongURL, checkLongURL),
			NewSub("url-words", 40000, 1000000, genURLWords, checkURLs),
			NewSub("mixed", 30000, 700000, func(t *rapid.T) Scan {
				return genScan(t, scanCfg{maxLics: 4, wild: 4, depth: 2, fancy: true, urls: true, raw: true, big: true}, 9)
			}, checkURLs),
		},
	})
}
