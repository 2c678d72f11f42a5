package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	lc "github.com/google/licensecheck"
	"pgregory.net/rapid"
)

// A part of a Creative Commons legal code page.
type ccPart struct {
	Kind string // text (inline), p, note, center, h1, h2, h3, quote, list, item, div, fine, outside, License, doubt, space, comment
	HTML Text   // of text, space and comment
	Text Text   // the same as plain text
	Sub  []ccPart
}

type ccPage struct {
	ID      string // CC-BY-3.0
	Exists  bool   // there is an LRE file already
	Tested  bool   // there is a test already
	Named   bool   // on the command line
	Old     bool   // laid out as the pages of version 1 and 2 were
	Outside bool   // the heading stands outside the parts that hold the text
	Own     bool   // has a plain text next to the page, instead of SPDX's
	Head    []ccPart
	Content []ccPart
}

type ccDir struct {
	Pages   []ccPage
	Force   bool
	Choices [][]int // for each text tried, what to do at its optional parts
}

func ccHTML(ps []ccPart, indent string) string {
	var b strings.Builder
	wrap := func(open string, p ccPart, close string) {
		b.WriteString(open + ccHTML(p.Sub, indent) + close)
	}
	for _, p := range ps {
		switch p.Kind {
		case "text", "space", "comment":
			b.WriteString(string(p.HTML))
		case "p":
			wrap("<p>", p, "</p>")
		case "pid":
			wrap("<p id=\"s1\" align=\"left\">", p, "</p>")
		case "note":
			wrap("<p class=\"shaded\">", p, "</p>")
		case "center":
			wrap("<p align=\"center\">", p, "</p>")
		case "bold": // in the middle of a page of the old layout
			wrap("<p align=\"center\"><b>", p, "</b></p>")
		case "h1", "h2", "h3":
			wrap("<"+p.Kind+">", p, "</"+p.Kind+">")
		case "quote":
			wrap("<blockquote>", p, "</blockquote>")
		case "list":
			wrap("<ol type=\"a\">", p, "</ol>")
		case "ul":
			wrap("<ul>", p, "</ul>")
		case "item":
			wrap("<li>", p, "</li>")
		case "div":
			wrap("<div>", p, "</div>")
		case "divid":
			wrap("<div id=\"part\" class=\"x\">", p, "</div>")
		case "shaded":
			wrap("<div class=\"shaded\">", p, "</div>")
		case "fine":
			wrap("<div class=\"fineprint\">", p, "</div>")
		case "summary":
			wrap("<div class=\"summary\">", p, "</div>")
		case "License":
			b.WriteString("<p align=\"center\"><b>License</b></p>")
		case "doubt":
			b.WriteString("<p>For the avoidance of doubt, ")
			b.WriteString(ccHTML(p.Sub, indent) + "</p>")
		}
	}
	return b.String()
}

// ccText writes a plain text of parts, in which the optional ones may be left out.
func ccText(ps []ccPart, url string, choice func() int) string {
	var b strings.Builder
	for _, p := range ps {
		optional, block := false, true
		mark := ""
		switch p.Kind {
		case "text", "space", "comment":
			s := string(p.Text)
			if strings.Contains(s, " License") && choice()%4 == 1 {
				s = strings.ReplaceAll(s, " License", " ")
			}
			b.WriteString(s)
			continue
		case "note", "center", "h1", "h2", "h3", "quote", "fine", "shaded", "summary", "License":
			optional = true
		case "item", "doubt":
			mark = []string{"a. ", "", "1) ", "* ", "(b) ", "iv. "}[choice()%6]
		case "list", "ul":
			block = false
		}
		if optional && choice()%3 == 1 {
			b.WriteString("\n")
		} else {
			if block {
				b.WriteString("\n" + mark)
			}
			switch p.Kind {
			case "License":
				b.WriteString("License")
			case "doubt":
				b.WriteString("For the avoidance of doubt, ")
			}
			b.WriteString(ccText(p.Sub, url, choice))
			if block {
				b.WriteString("\n")
			}
		}
		if p.Kind == "h1" || p.Kind == "h2" || p.Kind == "h3" {
			switch choice() % 4 {
			case 1:
				b.WriteString(url + "\n")
			case 2:
				b.WriteString(url + "/legalcode\n")
			}
		}
	}
	return b.String()
}

var ccSeps = []string{" ", " ", " ", " ", " ", " ", "\n", "\n", ", ", ". ", "; ", ": ", " (", ") ", " \"", "\" ", "/", "-", "   ", "\n\t\t", "' ", " - ", " ((", ")) ", "((", "))", ")))(((", " * ", "\n \n", "\r\n"}

// ccInline makes text of unique words with markup.
func ccInline(t *rapid.T, next *int, lo, hi int) ccPart {
	var h, b strings.Builder
	p := ccPart{Kind: "text"}
	both := func(s string) { h.WriteString(s); b.WriteString(s) }
	if oneIn(t, 4) {
		both(pick(t, []string{"\n", " ", "\n      "}))
	}
	solid := oneIn(t, 8) // hardly any spaces
	for k := between(t, lo, hi); k > 0; k-- {
		w := codeWord(*next)
		*next++
		switch intn(t, 32) {
		case 31: // a letter written as an entity
			h.WriteString(w[:3] + "&eacute;" + w[3:])
			w = w[:3] + "\u00e9" + w[3:]
		case 30:
			h.WriteString(w[:2] + "&#228;" + w[2:])
			w = w[:2] + "\u00e4" + w[2:]
		case 29:
			h.WriteString("<b>" + w + "</b>")
		case 28:
			h.WriteString("<a href=\"http://creativecommons.org/licenses/by/2.0\">" + w + "</a>")
		case 27:
			h.WriteString("<em class='x'><strong>" + w + "</strong></em>")
		case 26:
			h.WriteString("<a name=s1 id=s1></a>" + w)
		case 25:
			h.WriteString(w[:2] + "<b>" + w[2:] + "</b>")
		case 24:
			h.WriteString("&quot;" + w + "&#8221;")
		case 23:
			h.WriteString("&ldquo;" + w + "&rdquo;")
		case 22:
			h.WriteString("<!-- note -->" + w)
		case 21: // this word is optional in the LRE, wherever it stands alone
			h.WriteString(w + " <b>License</b>")
			w += " License"
		default:
			h.WriteString(w)
		}
		b.WriteString(w)
		if k == 1 {
			break
		}
		if solid && !oneIn(t, 20) {
			both(pick(t, []string{"/", "-"}))
			continue
		}
		switch intn(t, 40) {
		case 39:
			h.WriteString("&nbsp;")
			b.WriteString("\u00a0")
		case 38:
			h.WriteString("<br />\n")
			b.WriteString("\n")
		case 37:
			h.WriteString(pick(t, []string{"<br/>", "<br>"}))
			b.WriteString("\n")
		case 36:
			h.WriteString(" &amp; ")
			b.WriteString(" & ")
		case 35:
			both("\n" + strings.Repeat(" ", between(t, 0, 120)))
		case 34:
			h.WriteString(" <!-- a\ncomment -->\n")
			b.WriteString(" ")
		case 33:
			h.WriteString(" &mdash; ")
			b.WriteString(" \u2014 ")
		default:
			both(pick(t, ccSeps))
		}
	}
	if oneIn(t, 4) {
		both(pick(t, []string{"\n", " ", "\n      "}))
	}
	p.HTML, p.Text = Text(h.String()), Text(b.String())
	return p
}

func ccSpace(t *rapid.T) ccPart {
	s := pick(t, []string{"", "\n", "\n    ", " "})
	return ccPart{Kind: "space", HTML: Text(s), Text: Text(s)}
}

// ccBlocks makes the content of a page. At least its first and last block have
// required words.
func ccBlocks(t *rapid.T, next *int, old bool, depth int) []ccPart {
	para := func() ccPart {
		return ccPart{Kind: pick(t, []string{"p", "p", "pid"}), Sub: []ccPart{ccInline(t, next, 3, 40)}}
	}
	ps := []ccPart{ccSpace(t), para()}
	n := between(t, 1, 7)
	for k := 0; k < n; k++ {
		ps = append(ps, ccSpace(t))
		in := func(lo, hi int) []ccPart { return []ccPart{ccInline(t, next, lo, hi)} }
		switch kind := pick(t, []string{"h3", "note", "center", "quote", "list", "ul", "div", "divid", "fine", "shaded", "summary", "License", "doubt", "h2", "text", "h1"}); kind {
		case "h1", "h2", "h3", "note", "center":
			ps = append(ps, ccPart{Kind: kind, Sub: in(1, 8)})
		case "list", "ul":
			l := ccPart{Kind: kind}
			j := between(t, 1, 4)
			if oneIn(t, 30) {
				j = between(t, 5, 60)
			}
			for ; j > 0; j-- {
				item := ccPart{Kind: "item", Sub: in(1, 25)}
				if oneIn(t, 3) {
					item.Sub[0] = ccPart{Kind: "p", Sub: []ccPart{item.Sub[0]}}
				}
				if depth > 0 && oneIn(t, 3) {
					sub := ccPart{Kind: "list"}
					for i := between(t, 1, 3); i > 0; i-- {
						sub.Sub = append(sub.Sub, ccSpace(t), ccPart{Kind: "item", Sub: in(1, 15)})
					}
					item.Sub = append(item.Sub, sub)
					if oneIn(t, 3) {
						item.Sub = append(item.Sub, ccPart{Kind: "doubt", Sub: in(2, 8)})
					}
				}
				l.Sub = append(l.Sub, ccSpace(t), item)
			}
			ps = append(ps, l, ccSpace(t))
		case "quote", "div", "divid", "fine", "shaded", "summary":
			p := ccPart{Kind: kind}
			switch {
			case depth > 0 && oneIn(t, 2):
				p.Sub = ccBlocks(t, next, old, depth-1)
			default:
				p.Sub = in(1, 30)
			}
			ps = append(ps, p)
		case "doubt":
			ps = append(ps, ccPart{Kind: kind, Sub: in(2, 20)})
		case "text":
			ps = append(ps, in(1, 20)...)
		default:
			ps = append(ps, ccPart{Kind: kind})
		}
	}
	return append(ps, ccSpace(t), para(), ccSpace(t))
}

func genCC(t *rapid.T) ccDir {
	c := ccDir{Force: oneIn(t, 3)}
	ids := []string{"CC-BY-3.0", "CC-BY-NC-SA-4.0", "CC-BY-ND-NC-1.0", "CC-BY-3.0-AT", "CC-BY-SA-2.1-JP", "CC-BY-X-9.0"}
	for k := between(t, 1, 4); k > 0; k-- {
		i := intn(t, len(ids))
		p := ccPage{ID: ids[i], Exists: oneIn(t, 5), Tested: oneIn(t, 5), Named: !oneIn(t, 6), Old: oneIn(t, 3), Own: oneIn(t, 2), Outside: oneIn(t, 3)}
		ids = append(ids[:i:i], ids[i+1:]...)
		next := 0
		switch {
		case p.Old:
			p.Head = []ccPart{{Kind: "bold", Sub: []ccPart{ccInline(t, &next, 2, 8)}}}
		case !oneIn(t, 4):
			p.Head = []ccPart{ccSpace(t), {Kind: "h2", Sub: []ccPart{ccInline(t, &next, 1, 8)}}, ccSpace(t)}
		}
		long, deep := 170, 2
		switch intn(t, 40) {
		case 11:
			long = between(t, 500, 3000)
		case 22:
			deep = between(t, 3, 6)
		}
		for {
			p.Content = append(p.Content, ccBlocks(t, &next, p.Old, deep)...)
			if next > long {
				break
			}
		}
		c.Pages = append(c.Pages, p)
	}
	for k := between(t, 1, 4); k > 0; k-- {
		var x []int
		for j := 0; j < 12; j++ {
			x = append(x, intn(t, 24))
		}
		c.Choices = append(c.Choices, x)
	}
	return c
}

// ccFile splits an ID like CC-BY-SA-2.1-JP into kind, version and country.
func ccFile(id string) (kind, version, country string) {
	f := strings.Split(strings.ToLower(strings.TrimPrefix(id, "CC-")), "-")
	for i, w := range f {
		if '0' <= w[0] && w[0] <= '9' {
			version = w
			if i+1 < len(f) {
				country = f[i+1]
			}
			return strings.Join(f[:i], "-"), version, country
		}
	}
	panic(id)
}

var getcc = sync.OnceValues(func() (string, string) {
	path := filepath.Join(scratch, "getcc")
	if out, err := goTool(repo, "build", "-o", path, "licenses/getcc.go"); err != nil {
		panic(harnessError{fmt.Sprintf("building getcc.go: %v\n%s", err, out)})
	}
	_, bin := getspdx()
	return path, bin
})

func checkCC(c ccDir, o *Obs) error {
	tool, bin := getcc()
	dir := caseDir()
	defer os.RemoveAll(dir)
	for _, d := range []string{"licenses/_spdx/text", "licenses/_cc/docroot/legalcode", "testdata/licenses"} {
		os.MkdirAll(filepath.Join(dir, d), 0o777)
	}
	in := func(s string) string { return filepath.Join(dir, "licenses", s) }
	const old = "//** mine **//\nsome old text that was here\n"
	var args []string
	if c.Force {
		args = append(args, "-f")
	}
	texts := map[string][]string{}
	pages := map[string]string{}
	var lre, txt []string
	var convert []ccPage
	named := 0
	for _, p := range c.Pages {
		kind, version, country := ccFile(p.ID)
		file := kind + "_" + version
		url := "https://creativecommons.org/licenses/" + kind + "/" + version
		if country != "" {
			file += "_" + country
			url += "/" + country
		}
		for i := 0; i <= len(c.Choices); i++ {
			k := 0
			choice := func() int {
				if i == 0 {
					return 0
				}
				k++
				return c.Choices[i-1][k%len(c.Choices[i-1])]
			}
			s := ""
			if choice()%2 == 1 {
				s = "Creative Commons\n"
			}
			head := p.Head
			s += "\n" + ccText(head, url, choice) + "\n"
			texts[p.ID] = append(texts[p.ID], s+ccText(p.Content, url, choice))
		}
		page := "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<!DOCTYPE html PUBLIC \"-//W3C//DTD XHTML 1.0 Transitional//EN\" \"http://www.w3.org/TR/xhtml1/DTD/xhtml1-transitional.dtd\">\n" +
			"<html xmlns=\"http://www.w3.org/1999/xhtml\">\n<head>\n<title>Not in the text</title>\n<meta name=\"x\" content=\"y\">\n</head>\n<body>\n"
		if p.Old {
			page += "<p align=\"center\" id=\"header\"><img src=\"x.gif\" /></p>\n" + ccHTML(p.Head, "") + "\n<div class=\"text\">" + ccHTML(p.Content, "") + "</div>\n"
		} else if p.Outside {
			page += "<div id=\"header\"><p>Not <b>this</b></p>" + ccHTML(p.Head, "") + "</div>\n<div id=\"deed-main-content\">" + ccHTML(p.Content, "") + "</div>\n<div id=\"deed-foot\"><p id=\"footer\">Nor this</p></div>\n"
		} else {
			page += "<div id=\"header\"><p>Not <b>this</b> either</p></div><div id=\"deed\"><div id=\"deed-head\"><div id=\"cc-logo\">logo</div><div id=\"deed-license\">" + ccHTML(p.Head, "") + "</div></div>\n" +
				"<div id=\"deed-main\">\n<div id=\"deed-main-content\">" + ccHTML(p.Content, "") + "</div>\n</div>\n<div id=\"deed-foot\"><p id=\"footer\">Nor this. <a href=\"../\">Back</a></p></div></div>\n"
		}
		page += "</body>\n</html>\n"
		pages[p.ID] = page
		mustWrite(in("_cc/docroot/legalcode/"+file+".html"), page)
		if p.Own {
			mustWrite(in("_cc/docroot/legalcode/"+file+".txt"), texts[p.ID][0])
			mustWrite(in("_spdx/text/"+p.ID+".txt"), "another text")
		} else {
			mustWrite(in("_spdx/text/"+p.ID+".txt"), texts[p.ID][0])
		}
		if p.Exists {
			mustWrite(in(p.ID+".lre"), old)
		}
		if p.Tested {
			mustWrite(filepath.Join(dir, "testdata", p.ID+".t1"), old)
		}
		if p.Named {
			args = append(args, p.ID)
			named++
		}
		write := p.Named && (!p.Exists || c.Force)
		o.LabelIf(p.Exists && !c.Force, "existing")
		o.LabelIf(p.Exists && c.Force, "overwritten")
		if write || p.Exists {
			lre = append(lre, p.ID+".lre")
		}
		if write {
			convert = append(convert, p)
			txt = append(txt, p.ID+".txt")
			o.LabelIf(p.Old, "old layout")
		}
	}
	if named == 0 {
		o.Label("no argument")
		return nil
	}
	cmd := limited(tool, args...)
	cmd.Dir = filepath.Join(dir, "licenses")
	cmd.Env = append(os.Environ(), "PATH="+bin+":/usr/bin:/bin")
	if msg, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("getcc %q failed: %v\n%s\n%q", args, err, msg, pages)
	}
	sort.Strings(lre)
	sort.Strings(txt)
	if err := diff(lre, listFiles(in("."))); err != nil {
		return fmt.Errorf("getcc %q: LRE files: %v", args, err)
	}
	if err := diff(txt, listFiles(filepath.Join(dir, "testdata/licenses"))); err != nil {
		return fmt.Errorf("getcc %q: license texts: %v", args, err)
	}
	tests := map[string]string{}
	for _, p := range c.Pages {
		if p.Tested {
			tests[p.ID+".t1"] = old
		}
	}
	for _, p := range convert {
		if !p.Tested {
			tests[p.ID+".t1"] = firstTest(p.ID, texts[p.ID][0])
		}
	}
	if err := checkTests(filepath.Join(dir, "testdata"), tests); err != nil {
		return fmt.Errorf("getcc %q: %v", args, err)
	}
	for _, p := range c.Pages {
		b, _ := os.ReadFile(in(p.ID + ".lre"))
		done := false
		for _, x := range convert {
			done = done || x.ID == p.ID
		}
		if p.Exists && !done && string(b) != old {
			return fmt.Errorf("getcc %q changed %s.lre", args, p.ID)
		}
		if done {
			if b, _ := os.ReadFile(filepath.Join(dir, "testdata/licenses", p.ID+".txt")); string(b) != texts[p.ID][0] {
				return fmt.Errorf("getcc %q: testdata/licenses/%s.txt is %q\nwant %q", args, p.ID, b, texts[p.ID][0])
			}
		}
	}
	if len(convert) > 0 {
		o.Nontrivial()
	}
	for _, p := range convert {
		b, err := os.ReadFile(in(p.ID + ".lre"))
		if err != nil {
			return err
		}
		where := fmt.Sprintf("page %q\nLRE %q", pages[p.ID], b)
		s, err := lc.NewScanner([]lc.License{{ID: p.ID, LRE: string(b)}})
		if err != nil {
			return fmt.Errorf("%s\nis not accepted: %v", where, err)
		}
		for i, text := range texts[p.ID] {
			o.LabelIf(i > 0 && text != texts[p.ID][0], "text unlike the page's")
			cov := s.Scan([]byte(text))
			if len(cov.Match) != 1 || cov.Match[0].ID != p.ID || cov.Match[0].IsURL || !near(cov.Percent, 100) {
				return fmt.Errorf("%s\ndoes not match all of %q\ngot %+v", where, text, cov)
			}
		}
	}
	return nil
}

func init() {
	register(&Prop{
		ID:   "C28",
		Exec: true,
		Rule: "Scratch directories with 1 to 4 Creative Commons legal code pages, in the layouts of the newer and the older versions: headings, paragraphs, nested lists, block quotes, notes and fine print holding unique words with inline markup, entities, comments, line breaks and deep indentation; " +
			"the converter, built from getcc.go, is run on some of them (with and without -f), and each LRE file it writes scans the page's text and 1 to 4 others in which optional blocks are dropped, list items have markers and headings are followed by the license's URL. " +
			"Oracle: the files that may be written, the license text copied, acceptance, and one match of 100 percent. Non-trivial: some LRE file is written.",
		Assumes: []string{"pages have no sequences special to LREs but (( and )), tables or definition lists; the first and last paragraphs are required text; no word occurs twice", "the go command the converter runs at the end is a stand-in"},
		Subs:    []Sub{NewSub("convert", 3000, 40000, genCC, checkCC)},
	})
}
