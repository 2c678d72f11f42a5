From dd94ff3f8a73841583f57ab1de6d35fcbc67a6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:43 +0000
Subject: [PATCH 01/29] fix: do not let a match begin with the last word of the
 previous match

MultiLRE.Match cleared the wrong half of its two-word window after a
match, so a second match could start at the first match's final word,
giving overlapping matches and a Percent above 100.
---
 internal/match/regexp.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/match/regexp.go b/internal/match/regexp.go
index 3ce2189..ba5c9c3 100644
--- a/internal/match/regexp.go
+++ b/internal/match/regexp.go
@@ -205,7 +205,9 @@ func (re *MultiLRE) Match(text string) *Matches {
 
 				// Continue search at end of match.
 				i = end - 1 // loop will i++
-				p[0] = BadWord
+				// Forget the last word of this match,
+				// so that it cannot begin another one.
+				p[1] = BadWord
 				continue
 			}
 		}
-- 
2.43.0


From 0bf2cdc646bd8b4802a6d2bd6747963157d73672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 02/29] fix: make a Scanner without LREs usable

A License may set only a URL, but a Scanner built from such licenses
alone (or from none) had no dictionary, and its Scan method panicked.
---
 internal/match/regexp.go | 2 +-
 scan.go                  | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/match/regexp.go b/internal/match/regexp.go
index ba5c9c3..4a0be83 100644
--- a/internal/match/regexp.go
+++ b/internal/match/regexp.go
@@ -117,7 +117,7 @@ type phrase [2]WordID
 // if not, NewMultiLRE panics.
 func NewMultiLRE(list []*LRE) (_ *MultiLRE, err error) {
 	if len(list) == 0 {
-		return &MultiLRE{}, nil
+		return &MultiLRE{dict: new(Dict)}, nil
 	}
 
 	dict := list[0].dict
diff --git a/scan.go b/scan.go
index 108e12a..67d03f5 100644
--- a/scan.go
+++ b/scan.go
@@ -89,6 +89,11 @@ func (s *Scanner) init(licenses []License) error {
 	if re == nil {
 		return errors.New("missing lre")
 	}
+	if len(list) == 0 {
+		// With no LREs (only URLs), re has its own empty dictionary instead of d.
+		re.Dict().Insert("copyright")
+		re.Dict().Insert("http")
+	}
 	s.re = re
 	return nil
 }
-- 
2.43.0


From 457ff9565a544b24f663016313b758c7c1ab68f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:46 +0000
Subject: [PATCH 03/29] fix: recognize license URLs with an upper-case scheme

The URL pattern is case-insensitive, but http:// and https:// were
trimmed before the URL was lower-cased, so HTTP://... was never found.
---
 scan.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scan.go b/scan.go
index 67d03f5..8998eb9 100644
--- a/scan.go
+++ b/scan.go
@@ -230,13 +230,13 @@ func (s *Scanner) Scan(text []byte) Coverage {
 // licenseURL reports whether url is a known URL, and returns its name if it is.
 func (s *Scanner) licenseURL(url string) (License, bool) {
 	// We need to canonicalize the text for lookup.
-	// First, trim the leading http:// or https:// and the trailing /.
-	// Then we lower-case it.
+	// First, lower-case it.
+	// Then we trim the leading http:// or https:// and the trailing /.
+	url = strings.ToLower(url)
 	url = strings.TrimPrefix(url, "http://")
 	url = strings.TrimPrefix(url, "https://")
 	url = strings.TrimSuffix(url, "/")
 	url = strings.TrimSuffix(url, "/legalcode") // Common for CC licenses.
-	url = strings.ToLower(url)
 	l, ok := s.urls[url]
 	if ok {
 		return l, true
-- 
2.43.0


From 8e0eef0686836079a43cb8b08a27fe5a6f4c0411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:44 +0000
Subject: [PATCH 04/29] =?UTF-8?q?fix:=20let=20&copy;=20stand=20for=20an=20?=
 =?UTF-8?q?expected=20c,=20like=20=C2=A9=20does?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The word splitter treats &copy; as ©, but spell checking only knew ©,
so a pattern containing the list bullet (c) as "c" rejected &copy;.
---
 internal/match/rematch.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/match/rematch.go b/internal/match/rematch.go
index 3dca29c..dd744d3 100644
--- a/internal/match/rematch.go
+++ b/internal/match/rematch.go
@@ -986,8 +986,9 @@ func canMisspell(want, have string) bool {
 	// has already started, so they don't affect the match boundaries.)
 	//
 	// The want string has been canonicalized, so it must be "c" or "copyright" (not "©"),
-	// but the have string has only been folded, so it can be any of the three.
-	if (want == "c" || want == "copyright") && (have == "c" || have == "copyright" || have == "©") {
+	// but the have string has only been folded, so it can be any of the three
+	// (or the HTML entity for ©).
+	if (want == "c" || want == "copyright") && (have == "c" || have == "copyright" || have == "©" || have == "&copy;") {
 		return true
 	}
 
-- 
2.43.0


From 2491e1c8dccaff8da729b1e26833fd4aae6cdba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 05/29] fix: drop combining grave and acute accents when
 folding words
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

foldRune documents that it returns -1 for U+0300 and U+0301 but did not,
so a decomposed "Québec" was a different word from the precomposed one.
---
 internal/match/dict.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/match/dict.go b/internal/match/dict.go
index fa38505..fec1440 100644
--- a/internal/match/dict.go
+++ b/internal/match/dict.go
@@ -234,6 +234,8 @@ func foldRune(r rune) rune {
 	}
 
 	switch r {
+	case '\u0300', '\u0301':
+		return -1
 	case 'Á', 'À':
 		return 'a'
 	case 'É', 'È':
-- 
2.43.0


From dba7266f30117623bf408b872a06b162e6690e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:49 +0000
Subject: [PATCH 06/29] fix: accept )) before a CRLF line ending

)) must end its line, and ))?? already allowed a carriage return before
the newline, but a plain )) did not.
---
 internal/match/resyntax.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/match/resyntax.go b/internal/match/resyntax.go
index a5d6820..5e7aaf3 100644
--- a/internal/match/resyntax.go
+++ b/internal/match/resyntax.go
@@ -221,7 +221,7 @@ func reParse(d *Dict, s string, strict bool) (*reSyntax, error) {
 				for j < len(s) && (s[j] == ' ' || s[j] == '\t') {
 					j++
 				}
-				if j < len(s) && s[j] != '\n' && (j+1 >= len(s) || s[j] != '?' || s[j+1] != '?') {
+				if !atEOL(s, j) && (j+1 >= len(s) || s[j] != '?' || s[j+1] != '?') {
 					return nil, reSyntaxError(s, i, fmt.Errorf(")) not at end of line"))
 				}
 			}
-- 
2.43.0


From 77b354650fc4d8b946e16c814a0a7e5a829c02d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:53 +0000
Subject: [PATCH 07/29] fix: reject wildcard counts that overflow instead of
 truncating them

__4294967298__ was silently treated as __2__.
---
 internal/match/resyntax.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/match/resyntax.go b/internal/match/resyntax.go
index 5e7aaf3..47e9127 100644
--- a/internal/match/resyntax.go
+++ b/internal/match/resyntax.go
@@ -269,7 +269,7 @@ func reParse(d *Dict, s string, strict bool) (*reSyntax, error) {
 				i++
 				continue
 			}
-			n, err := strconv.Atoi(s[i+2 : j])
+			n, err := strconv.ParseInt(s[i+2:j], 10, 32)
 			if err != nil {
 				return nil, reSyntaxError(s, i, errors.New("invalid wildcard count "+s[i:j+2]))
 			}
-- 
2.43.0


From e68c9559119c7ac45eb46650a90ebe625bbdf036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:10 +0000
Subject: [PATCH 08/29] fix: do not report a match that ends inside a word

When a word was split to follow an expected word pair, a license ending
after the first half was recorded as matched, with its last word missing
from the reported span.
---
 internal/match/rematch.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/internal/match/rematch.go b/internal/match/rematch.go
index dd744d3..f904658 100644
--- a/internal/match/rematch.go
+++ b/internal/match/rematch.go
@@ -873,7 +873,7 @@ Words:
 				// have[:len(want)] matches want.
 				// Look to see if have[len(want):] can be the word after want.
 				rest := have[len(want):]
-				m2, delta2 := dfa.stateAt(dnext)
+				_, delta2 := dfa.stateAt(dnext)
 				next2 := int32(-1)
 				for j2 := 0; j2 < len(delta2); j2 += 2 {
 					dw2, dnext2 := WordID(delta2[j2]), delta2[j2+1]
@@ -884,10 +884,8 @@ Words:
 				if next2 >= 0 {
 					// Successfully split have into two words
 					// to drive the DFA forward two steps.
-					if m2 >= 0 {
-						match = m2
-						end = i
-					}
+					// Even if dnext is a matching state, it is not one we can
+					// report, because that match would end inside the word.
 					off = next2
 					continue Words
 				}
-- 
2.43.0


From 378b9ac794224544bebf9b6c3f451299128b2757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:07 +0000
Subject: [PATCH 09/29] fix: do not cut a wildcard that is followed by another
 wildcard

The implicit cut of a pending wildcard was emitted when the next wildcard
began even if no literal word separated the two, so the first of two
adjacent wildcards could not match anything: __5__ __5__ accepted 5 words,
not 10. Keep such cuts pending.
---
 internal/match/rematch.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/internal/match/rematch.go b/internal/match/rematch.go
index f904658..8fb70b5 100644
--- a/internal/match/rematch.go
+++ b/internal/match/rematch.go
@@ -357,7 +357,7 @@ func (c *reCompile) compile(re *reSyntax) {
 		//	(.(.(.(.)?)?)?)?
 		// This results in smaller NFA state lists (max 2 states)
 		// than compiling like .?.?.?.? (max re.n states).
-		c.compileCuts()
+		c.compileWildCuts()
 		if c.endPattern && c.err == nil {
 			c.err = fmt.Errorf("__%d__ wildcard with no required text following", re.n)
 		}
@@ -368,7 +368,7 @@ func (c *reCompile) compile(re *reSyntax) {
 			c.prog = append(c.prog, reInst{op: instAny})
 		}
 		if re.n > 3 {
-			c.cut = []reCut{{start: start, trigger: 3}}
+			c.cut = append(c.cut[:len(c.cut):len(c.cut)], reCut{start: start, trigger: 3})
 		}
 	}
 }
@@ -382,6 +382,21 @@ func (c *reCompile) compileCuts() {
 	c.cut = nil
 }
 
+// compileWildCuts emits instCut instructions for the pending cuts before a wildcard,
+// except for cuts of wildcards that may not have been followed by any literal word yet.
+// Cutting those would leave them no way to match any words at all.
+func (c *reCompile) compileWildCuts() {
+	var next []reCut
+	for _, cut := range c.cut {
+		if cut.trigger == 3 {
+			next = append(next, cut)
+			continue
+		}
+		c.compileCut(cut)
+	}
+	c.cut = next
+}
+
 // compileCut emits an instCut instruction for cut.
 func (c *reCompile) compileCut(cut reCut) {
 	c.prog = append(c.prog, reInst{op: instCut, arg: int32(cut.start - (len(c.prog) + 1))})
-- 
2.43.0


From 3156fe7fd27d3b5d86ae8f8b8618dc4623f8d950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 10/29] fix: index old licenses by their position in the
 Checker

New used the position in its argument list, which differs once an entry
without text (only a URL) has been skipped; Cover then reported the wrong
license or panicked.
---
 old/license.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/old/license.go b/old/license.go
index c53e53e..8ab6a93 100644
--- a/old/license.go
+++ b/old/license.go
@@ -101,7 +101,7 @@ func New(licenses []License) *Checker {
 		dict:     make(map[string]int32),
 		index:    make(map[phrase][]indexEntry),
 	}
-	for id, l := range licenses {
+	for _, l := range licenses {
 		if l.Text != "" {
 			next := len(c.licenses)
 			c.licenses = c.licenses[:next+1]
@@ -110,7 +110,7 @@ func New(licenses []License) *Checker {
 			cl.typ = licenseType(cl.name)
 			cl.text = l.Text
 			cl.doc = c.normalize([]byte(cl.text), true)
-			c.updateIndex(int32(id), cl.doc.words)
+			c.updateIndex(int32(next), cl.doc.words)
 		}
 		if l.URL != "" {
 			c.urls[l.URL] = l.Name
-- 
2.43.0


From fd531e67fc5f1888d0e6311960683ab5527484eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 11/29] fix: recognize license URLs with an upper-case scheme
 in package old

The URL pattern is case-insensitive, but http:// and https:// were
trimmed before the URL was lower-cased.
---
 old/license.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/old/license.go b/old/license.go
index 8ab6a93..ab91aa2 100644
--- a/old/license.go
+++ b/old/license.go
@@ -386,13 +386,13 @@ func (doc *document) findURLsBetween(c *Checker, matches []Match) []Match {
 // licenseURL reports whether url is a known URL, and returns its name if it is.
 func (c *Checker) licenseURL(url string) (string, bool) {
 	// We need to canonicalize the text for lookup.
-	// First, trim the leading http:// or https:// and the trailing /.
-	// Then we lower-case it.
+	// First, lower-case it.
+	// Then we trim the leading http:// or https:// and the trailing /.
+	url = strings.ToLower(url)
 	url = strings.TrimPrefix(url, "http://")
 	url = strings.TrimPrefix(url, "https://")
 	url = strings.TrimSuffix(url, "/")
 	url = strings.TrimSuffix(url, "/legalcode") // Common for CC licenses.
-	url = strings.ToLower(url)
 	name, ok := c.urls[url]
 	if ok {
 		return name, true
-- 
2.43.0


From c34ec90694791e9479392958475abb2715902fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:20 +0000
Subject: [PATCH 12/29] fix: regenerate data.gen.go from licenses/*.lre

The comment of one built-in LRE was out of step with its source.
---
 data.gen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data.gen.go b/data.gen.go
index c472559..f3f75ce 100644
--- a/data.gen.go
+++ b/data.gen.go
@@ -9186,7 +9186,7 @@ parties intellectual property rights.
 `
 const license_BSD_4_Clause_UC_lre = `
 //**
-BSD 4-Clause (Univeristy of California-Specific)
+BSD 4-Clause (University of California-Specific)
 https://spdx.org/licenses/BSD-4-Clause-UC.json
 http://www.freebsd.org/copyright/license.html
 **//
-- 
2.43.0


From afe992815c951fbc24b2ad31b93b11c5d85f2f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:29 +0000
Subject: [PATCH 13/29] fix: name the file in LRE parse errors

ParseLRE documents that its file argument is used in error messages,
but neither syntax errors nor wildcard errors mentioned it.
---
 internal/match/regexp.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/match/regexp.go b/internal/match/regexp.go
index 4a0be83..c864935 100644
--- a/internal/match/regexp.go
+++ b/internal/match/regexp.go
@@ -62,10 +62,16 @@ type LRE struct {
 func ParseLRE(d *Dict, file, s string) (*LRE, error) {
 	syntax, err := reParse(d, s, true)
 	if err != nil {
+		if serr, ok := err.(*SyntaxError); ok {
+			serr.File = file
+		}
 		return nil, err
 	}
 	prog, err := syntax.compile(nil, 0)
 	if err != nil {
+		if file != "" {
+			err = fmt.Errorf("%s: %v", file, err)
+		}
 		return nil, err
 	}
 	return &LRE{dict: d, file: file, syntax: syntax, prog: prog}, nil
-- 
2.43.0


From 3891921e4b86530a1be085b3a2251d9d8e998b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:33 +0000
Subject: [PATCH 14/29] fix: fold letters with three or more case forms
 consistently
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

foldRune stopped at the first equivalent rune that was not smaller than
the current one, which need not be the smallest: Å and å, ς and σ, and
other letters with three or more case forms folded differently, so a
pattern did not match its own upper- or lower-cased text.
---
 internal/match/dict.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/match/dict.go b/internal/match/dict.go
index fec1440..5787931 100644
--- a/internal/match/dict.go
+++ b/internal/match/dict.go
@@ -223,15 +223,15 @@ func (d *Dict) split(text string, insert bool) []Word {
 // but that will require more thought about exactly what to do
 // and doing it efficiently. For now, the accents are enough.
 func foldRune(r rune) rune {
-	// Iterate SimpleFold until we hit the min equivalent rune,
+	// Iterate SimpleFold over all the equivalent runes to find the min one,
 	// which - for the ones we care about - is the upper case ASCII rune.
-	for {
-		r1 := unicode.SimpleFold(r)
-		if r1 >= r {
-			break
+	min := r
+	for r1 := unicode.SimpleFold(r); r1 != r; r1 = unicode.SimpleFold(r1) {
+		if min > r1 {
+			min = r1
 		}
-		r = r1
 	}
+	r = min
 
 	switch r {
 	case '\u0300', '\u0301':
-- 
2.43.0


From 2486a6d9fc549d2cd8833d2253bb6c5fdaba635c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:03 +0000
Subject: [PATCH 15/29] fix: apply end-of-pattern cuts inside each alternative

At the end of the pattern, the implicit cuts of all the alternatives of
a group were emitted after the group, so an alternative matching the empty
text cut the wildcards of the others before they could match anything:
for (( ((x))?? || __4__ y )) the text y was not recognized.
Emit them in each alternative, as is done for an optional group.
---
 internal/match/rematch.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/match/rematch.go b/internal/match/rematch.go
index 8fb70b5..b8b665b 100644
--- a/internal/match/rematch.go
+++ b/internal/match/rematch.go
@@ -333,6 +333,9 @@ func (c *reCompile) compile(re *reSyntax) {
 			c.cut = cut
 			c.endPattern = endPattern
 			c.compile(sub)
+			if endPattern {
+				c.compileCuts()
+			}
 			newCut = c.mergeCut(newCut, c.cut)
 			if i+1 < len(re.sub) {
 				jumps = append(jumps, len(c.prog))
-- 
2.43.0


From f5d00f83ae93a0628f0a88316498e797776f1cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:07 +0000
Subject: [PATCH 16/29] fix: apply cuts of optional wildcards before a
 following wildcard

The implicit cuts emitted before a wildcard also cut wildcards of a
preceding optional part of the pattern when that part was skipped,
before they could match anything: for ((__4__ x))?? __0__ y the text
x y was not recognized. Emit those cuts inside the optional part.
---
 internal/match/rematch.go | 42 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/internal/match/rematch.go b/internal/match/rematch.go
index b8b665b..6bb0e93 100644
--- a/internal/match/rematch.go
+++ b/internal/match/rematch.go
@@ -259,6 +259,7 @@ func (p reProg) string(d *Dict) string {
 type reCompile struct {
 	prog       reProg // program being constructed
 	endPattern bool   // compiling the end of the pattern
+	beforeWild bool   // compiling an expression that a wildcard may follow directly
 	cut        []reCut
 	err        error // first problem found; report delayed until end of compile
 }
@@ -303,8 +304,11 @@ func (c *reCompile) compile(re *reSyntax) {
 				endIndex--
 			}
 		}
+		beforeWild := c.beforeWild
 		for i, sub := range re.sub {
 			c.endPattern = i >= endIndex
+			rest := &reSyntax{op: opConcat, sub: re.sub[i+1:]}
+			c.beforeWild = canBeginWild(rest) || beforeWild && canMatchEmpty(rest)
 			c.compile(sub)
 		}
 
@@ -313,16 +317,22 @@ func (c *reCompile) compile(re *reSyntax) {
 		c.prog = append(c.prog, reInst{op: instAlt})
 		cut := c.cut
 		endPattern := c.endPattern
+		beforeWild := c.beforeWild
 		c.compile(re.sub[0])
 		if endPattern {
 			c.compileCuts()
 		}
+		if beforeWild {
+			c.compileWildCuts()
+		}
 		c.cut = c.mergeCut(cut, c.cut)
 		c.prog[alt].arg = int32(len(c.prog) - (alt + 1))
 
 	case opAlternate:
 		cut := c.cut
 		endPattern := c.endPattern
+		beforeWild := c.beforeWild
+		matchEmpty := canMatchEmpty(re)
 		var newCut []reCut
 		var alts, jumps []int
 		for i, sub := range re.sub {
@@ -332,10 +342,14 @@ func (c *reCompile) compile(re *reSyntax) {
 			}
 			c.cut = cut
 			c.endPattern = endPattern
+			c.beforeWild = beforeWild
 			c.compile(sub)
 			if endPattern {
 				c.compileCuts()
 			}
+			if beforeWild && matchEmpty {
+				c.compileWildCuts()
+			}
 			newCut = c.mergeCut(newCut, c.cut)
 			if i+1 < len(re.sub) {
 				jumps = append(jumps, len(c.prog))
@@ -388,6 +402,8 @@ func (c *reCompile) compileCuts() {
 // compileWildCuts emits instCut instructions for the pending cuts before a wildcard,
 // except for cuts of wildcards that may not have been followed by any literal word yet.
 // Cutting those would leave them no way to match any words at all.
+// For the same reason, if the wildcard follows an optional part of the pattern,
+// cuts of wildcards in that part must be emitted there, not after it.
 func (c *reCompile) compileWildCuts() {
 	var next []reCut
 	for _, cut := range c.cut {
@@ -450,6 +466,32 @@ func (c *reCompile) mergeCut(cut1, cut2 []reCut) []reCut {
 	return list[:w]
 }
 
+// canBeginWild reports whether re can match a text beginning with a wildcard.
+func canBeginWild(re *reSyntax) bool {
+	switch re.op {
+	case opWild:
+		return true
+
+	case opQuest, opAlternate:
+		for _, sub := range re.sub {
+			if canBeginWild(sub) {
+				return true
+			}
+		}
+
+	case opConcat:
+		for _, sub := range re.sub {
+			if canBeginWild(sub) {
+				return true
+			}
+			if !canMatchEmpty(sub) {
+				return false
+			}
+		}
+	}
+	return false
+}
+
 // canMatchEmpty reports whether re can match an empty text.
 func canMatchEmpty(re *reSyntax) bool {
 	switch re.op {
-- 
2.43.0


From 8feec777bf6e782b9c3f2bf8a956a9a212ed73be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:07 +0000
Subject: [PATCH 17/29] fix: do not cut a wildcard before any literal word at
 the end of a pattern

At the end of the pattern, the implicit cut of a wildcard that only
optional text follows was applied when none of that text had been matched,
so the wildcard matched no words at all: for x y __4__ in the last group of
a pattern, followed by ((z))??, the text x y 1 z was not recognized.
This affected the Bellcore variant of HPND.
---
 internal/match/rematch.go | 30 ++++++++----------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/internal/match/rematch.go b/internal/match/rematch.go
index 6bb0e93..c3214a5 100644
--- a/internal/match/rematch.go
+++ b/internal/match/rematch.go
@@ -319,12 +319,9 @@ func (c *reCompile) compile(re *reSyntax) {
 		endPattern := c.endPattern
 		beforeWild := c.beforeWild
 		c.compile(re.sub[0])
-		if endPattern {
+		if endPattern || beforeWild {
 			c.compileCuts()
 		}
-		if beforeWild {
-			c.compileWildCuts()
-		}
 		c.cut = c.mergeCut(cut, c.cut)
 		c.prog[alt].arg = int32(len(c.prog) - (alt + 1))
 
@@ -344,12 +341,9 @@ func (c *reCompile) compile(re *reSyntax) {
 			c.endPattern = endPattern
 			c.beforeWild = beforeWild
 			c.compile(sub)
-			if endPattern {
+			if endPattern || beforeWild && matchEmpty {
 				c.compileCuts()
 			}
-			if beforeWild && matchEmpty {
-				c.compileWildCuts()
-			}
 			newCut = c.mergeCut(newCut, c.cut)
 			if i+1 < len(re.sub) {
 				jumps = append(jumps, len(c.prog))
@@ -374,7 +368,7 @@ func (c *reCompile) compile(re *reSyntax) {
 		//	(.(.(.(.)?)?)?)?
 		// This results in smaller NFA state lists (max 2 states)
 		// than compiling like .?.?.?.? (max re.n states).
-		c.compileWildCuts()
+		c.compileCuts()
 		if c.endPattern && c.err == nil {
 			c.err = fmt.Errorf("__%d__ wildcard with no required text following", re.n)
 		}
@@ -390,21 +384,13 @@ func (c *reCompile) compile(re *reSyntax) {
 	}
 }
 
-// compileCuts emits instCut instructions for all pending cuts.
-// See comment at top of file for information about cuts.
-func (c *reCompile) compileCuts() {
-	for _, cut := range c.cut {
-		c.compileCut(cut)
-	}
-	c.cut = nil
-}
-
-// compileWildCuts emits instCut instructions for the pending cuts before a wildcard,
+// compileCuts emits instCut instructions for all pending cuts,
 // except for cuts of wildcards that may not have been followed by any literal word yet.
 // Cutting those would leave them no way to match any words at all.
-// For the same reason, if the wildcard follows an optional part of the pattern,
-// cuts of wildcards in that part must be emitted there, not after it.
-func (c *reCompile) compileWildCuts() {
+// For the same reason, cuts of wildcards in an optional part of the pattern
+// must be emitted there, not after it.
+// See comment at top of file for information about cuts.
+func (c *reCompile) compileCuts() {
 	var next []reCut
 	for _, cut := range c.cut {
 		if cut.trigger == 3 {
-- 
2.43.0


From c05c488b9bc1991be7bc2ea7c09ae21d35b011ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:32 +0000
Subject: [PATCH 18/29] fix: keep carriage returns of license files in
 data.gen.go

The generator wrote license texts as raw string literals, from which
the compiler drops carriage returns, so words separated by a
carriage return alone ran together.
---
 gen_data.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gen_data.go b/gen_data.go
index cfa7a4d..9a37f74 100644
--- a/gen_data.go
+++ b/gen_data.go
@@ -50,10 +50,12 @@ func main() {
 	code = strings.Replace(code, "FILES_LIST", out.String(), -1)
 
 	out.Reset()
+	// A raw string literal cannot hold a back quote, and drops carriage returns.
+	quote := strings.NewReplacer("`", "` + \"`\" + `", "\r", "` + \"\\r\" + `")
 	for _, file := range builtLRE {
 		fmt.Fprintf(out, "const %s = `%s`\n",
 			varName(file.Name+".lre"),
-			bytes.ReplaceAll(file.Data, []byte("`"), []byte("` + \"`\" + `")))
+			quote.Replace(string(file.Data)))
 	}
 	code += out.String()
 
-- 
2.43.0


From 7b21309ae85e98b755c801c8fca23af2ba6af228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:21 +0000
Subject: [PATCH 19/29] fix: do not count a blank twice in package old

---
 old/license.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/old/license.go b/old/license.go
index ab91aa2..58cea8e 100644
--- a/old/license.go
+++ b/old/license.go
@@ -574,12 +574,13 @@ func (c *Checker) submatches(text []int32, opts Options) []submatch {
 			if i := byLicense[licenseID]; i >= 0 {
 				prev := &matches[i]
 				textGap := opts.Slop
-				if prev.licenseEnd < len(l.doc.words) && l.doc.words[prev.licenseEnd] == blankID {
+				blank := prev.licenseEnd < len(l.doc.words) && l.doc.words[prev.licenseEnd] == blankID
+				if blank {
 					textGap = blankMax
 				}
 				if prev.end+textGap >= start && matchLicenseStart >= prev.licenseEnd {
-					if textGap == blankMax {
-						prev.matched++ // matched the blank
+					if blank && matchLicenseStart > prev.licenseEnd {
+						prev.matched++ // matched the blank, which is not in this match itself
 					}
 					prev.end = end
 					prev.matched += matchLength
-- 
2.43.0


From 3ca552686ca8a1784ac5733dd9030511c0c9b1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:18 +0000
Subject: [PATCH 20/29] fix: wrap deeply indented lines in getspdx

---
 licenses/getspdx.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/licenses/getspdx.go b/licenses/getspdx.go
index 8ec7838..dc4ccb5 100644
--- a/licenses/getspdx.go
+++ b/licenses/getspdx.go
@@ -441,13 +441,17 @@ func wrap(buf *bytes.Buffer, text string) {
 		indent := line[:i]
 		line = line[i:]
 		const Target = 80
-		for len(line) > Target-len(indent) {
-			j := Target - len(indent)
+		width := Target - len(indent)
+		if width < 1 {
+			width = 1
+		}
+		for len(line) > width {
+			j := width
 			for j >= 0 && line[j] != ' ' && line[j] != '\t' {
 				j--
 			}
 			if j < 0 {
-				j = Target - len(indent)
+				j = width
 				for j < len(line) && line[j] != ' ' && line[j] != '\t' {
 					j++
 				}
-- 
2.43.0


From 7d8ef562169fee72cbae8ee6fa5bbb5304727892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:40 +0000
Subject: [PATCH 21/29] fix: keep words apart where getspdx drops an optional
 part

---
 licenses/getspdx.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/licenses/getspdx.go b/licenses/getspdx.go
index dc4ccb5..f1e7359 100644
--- a/licenses/getspdx.go
+++ b/licenses/getspdx.go
@@ -312,6 +312,7 @@ func templateToLRE(file string, t string) string {
 				start = i
 				continue
 			}
+			end := i
 			for i < len(t) && t[i] == ' ' {
 				i++
 			}
@@ -324,22 +325,24 @@ func templateToLRE(file string, t string) string {
 				indentNL(&buf)
 				buf.WriteString("(( ")
 			case tag == "<<endOptional>>":
-				start := optStart[len(optStart)-1]
+				opt := optStart[len(optStart)-1]
 				optStart = optStart[:len(optStart)-1]
-				if bytes.IndexByte(buf.Bytes()[start:], '\n') >= 0 {
+				if bytes.IndexByte(buf.Bytes()[opt:], '\n') >= 0 {
 					indentNL(&buf)
 				} else {
 					buf.WriteString(" ")
 				}
 				buf.WriteString("))??")
 				indentNL(&buf)
-				w := words(string(buf.Bytes()[start:]))
+				w := words(string(buf.Bytes()[opt:]))
 				// Don't emit options for punctuation,
 				// which we don't match anyway,
 				// and don't emit options for plural suffixes
 				// like name((s))??.
+				// Keep the spaces that follow, to keep the words around them apart.
 				if len(w) == 0 || len(w) == 1 && w[0] == "s" {
-					buf.Truncate(start)
+					buf.Truncate(opt)
+					start = end
 				}
 			case strings.HasPrefix(tag, `<<var;`):
 				name := findAttr(tag, "name")
-- 
2.43.0


From 4d78167760e0dc295734910c05fcfa29356f4054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 22/29] fix: getcc: separate the words around a line break

A <br> between two words wrote them as one word of the LRE.
---
 licenses/getcc.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/licenses/getcc.go b/licenses/getcc.go
index dccefa7..78a9b37 100644
--- a/licenses/getcc.go
+++ b/licenses/getcc.go
@@ -179,6 +179,10 @@ func convert(id string) {
 			var optional bool
 			extra := ""
 			switch t.Name.Local {
+			case "br":
+				if want() {
+					buf.WriteString("\n")
+				}
 			case "h1", "h2", "h3":
 				nl = true
 				optional = true
-- 
2.43.0


From 9c94f158f6bcf5d219aab653ec27fe29f3e0b5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 23/29] fix: getcc: do not panic on deeply indented text

---
 licenses/getcc.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/licenses/getcc.go b/licenses/getcc.go
index 78a9b37..7f2d9eb 100644
--- a/licenses/getcc.go
+++ b/licenses/getcc.go
@@ -355,13 +355,17 @@ func wrap(buf *bytes.Buffer, text string) {
 		indent := line[:i]
 		line = line[i:]
 		const Target = 80
-		for len(line) > Target-len(indent) {
-			j := Target - len(indent)
+		width := Target - len(indent)
+		if width < 1 {
+			width = 1
+		}
+		for len(line) > width {
+			j := width
 			for j >= 0 && line[j] != ' ' && line[j] != '\t' {
 				j--
 			}
 			if j < 0 {
-				j = Target - len(indent)
+				j = width
 				for j < len(line) && line[j] != ' ' && line[j] != '\t' {
 					j++
 				}
-- 
2.43.0


From 2d1141f46b4cdc4375073ec008feb9c799c75400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 24/29] fix: getcc: write an optional License on a line of its
 own

In the middle of a line, the group made the LRE malformed.
---
 licenses/getcc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/licenses/getcc.go b/licenses/getcc.go
index 7f2d9eb..a721fa3 100644
--- a/licenses/getcc.go
+++ b/licenses/getcc.go
@@ -272,7 +272,7 @@ func convert(id string) {
 			s = strings.ReplaceAll(s, "((", " ( ( ")
 			s = strings.ReplaceAll(s, "))", " ) ) ")
 			if s == "License" {
-				s = "((License))??"
+				s = "\n((License))??\n" // on a line of its own
 			}
 			wrap(&buf, s)
 		}
-- 
2.43.0


From a3a8bcb7094376da439f9837cfc5edcdd78d2c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:30 +0000
Subject: [PATCH 25/29] fix: do not take quadratic time for unterminated
 Markdown anchors and links

Scanning a few hundred kilobytes of {# or ](# without a blank took minutes,
because the rest of the text was searched for an end from each of them.
---
 internal/match/dict.go | 51 +++++++++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 15 deletions(-)

diff --git a/internal/match/dict.go b/internal/match/dict.go
index 5787931..7b33151 100644
--- a/internal/match/dict.go
+++ b/internal/match/dict.go
@@ -93,6 +93,11 @@ var copyright = []byte("copyright")
 func (d *Dict) split(text string, insert bool) []Word {
 	var wbuf []byte
 	var words []Word
+	// When a Markdown anchor or link target turns out to be unterminated,
+	// noAnchor or noLink is set to the offset where that was noticed.
+	// None of those beginning before it is terminated either;
+	// looking at each of them again could take quadratic time.
+	noAnchor, noLink := 0, 0
 	t := text
 	for t != "" {
 		var w []byte
@@ -105,9 +110,12 @@ func (d *Dict) split(text string, insert bool) []Word {
 					continue
 				}
 			case '{':
-				if size := markdownAnchorSize(t); size > 0 {
-					t = t[size:]
-					continue
+				if off := len(text) - len(t); off >= noAnchor && strings.HasPrefix(t, "{#") {
+					if size := markdownAnchorSize(t); size > 0 {
+						t = t[size:]
+						continue
+					}
+					noAnchor = off + indexAnyOrEnd(t, " \r\n")
 				}
 			case '&':
 				// Assume HTML entity is punctuation.
@@ -123,11 +131,12 @@ func (d *Dict) split(text string, insert bool) []Word {
 					continue
 				}
 			}
-			if len(t) >= 2 && t[0] == ']' && t[1] == '(' {
+			if off := len(text) - len(t); t[0] == ']' && off >= noLink && hasMarkdownLinkPrefix(t) {
 				if size := markdownLinkSize(t); size > 0 {
 					t = t[size:]
 					continue
 				}
+				noLink = off + indexAnyOrEnd(t, " \t\r\n")
 			}
 
 			r, size := utf8.DecodeRuneInString(t)
@@ -407,17 +416,7 @@ var markdownLinkPrefixes = []string{
 // markdownLinkSize returns the length of the Markdown link target at the start of t, or else 0.
 // Instead of fully parsing Markdown, this looks for ](http:// or ](https://.
 func markdownLinkSize(t string) int {
-	if len(t) < 2 || t[0] != ']' || t[1] != '(' {
-		return 0
-	}
-	ok := false
-	for _, prefix := range markdownLinkPrefixes {
-		if strings.HasPrefix(t[2:], prefix) {
-			ok = true
-			break
-		}
-	}
-	if !ok {
+	if !hasMarkdownLinkPrefix(t) {
 		return 0
 	}
 
@@ -433,6 +432,28 @@ func markdownLinkSize(t string) int {
 	return 0
 }
 
+// hasMarkdownLinkPrefix reports whether t begins like a Markdown link target.
+func hasMarkdownLinkPrefix(t string) bool {
+	if !strings.HasPrefix(t, "](") {
+		return false
+	}
+	for _, prefix := range markdownLinkPrefixes {
+		if strings.HasPrefix(t[2:], prefix) {
+			return true
+		}
+	}
+	return false
+}
+
+// indexAnyOrEnd returns the index of the first of chars in t,
+// or len(t) if there is none.
+func indexAnyOrEnd(t, chars string) int {
+	if i := strings.IndexAny(t, chars); i >= 0 {
+		return i
+	}
+	return len(t)
+}
+
 // canonicalRewrites is a list of pairs that are canonicalized during word splittting.
 // The words on the right are parsed as if they were the words on the left.
 // This happens during dictionary splitting, so canMisspell will never see any
-- 
2.43.0


From 87133eddf7f4c4b451aed965541077e3fd3703e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:27 +0000
Subject: [PATCH 26/29] fix: do not cut a URL's numerals before a license match
 in package old

---
 old/license.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/old/license.go b/old/license.go
index 58cea8e..6c69fcf 100644
--- a/old/license.go
+++ b/old/license.go
@@ -361,7 +361,10 @@ func (doc *document) findURLsBetween(c *Checker, matches []Match) []Match {
 		// be the last text in the file. Make sure to run to EOF if we're at the end.
 		// Otherwise, the end will go right up to the start of the next match, and
 		// that will include all the text in the gap.
-		end := doc.endWordToEndByte(c, endWord)
+		end := len(doc.text)
+		if endWord < len(doc.words) {
+			end = int(doc.byteOff[endWord])
+		}
 		urlIndexes := urlRE.FindAllIndex(doc.text[start:end], -1)
 		if len(urlIndexes) == 0 {
 			continue
-- 
2.43.0


From ba7c5939eb6c9cf7508bfbb9a7799b69c090a786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:03 +0000
Subject: [PATCH 27/29] fix: keep characters that Go source cannot hold in
 data.gen.go

A license file with a byte order mark, a NUL byte or invalid UTF-8 made
the generator fail, since none of them can stand in Go source.
---
 gen_data.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/gen_data.go b/gen_data.go
index 9a37f74..189e069 100644
--- a/gen_data.go
+++ b/gen_data.go
@@ -22,6 +22,7 @@ import (
 	"sort"
 	"strings"
 	"text/template"
+	"unicode/utf8"
 
 	"github.com/google/licensecheck"
 )
@@ -50,12 +51,10 @@ func main() {
 	code = strings.Replace(code, "FILES_LIST", out.String(), -1)
 
 	out.Reset()
-	// A raw string literal cannot hold a back quote, and drops carriage returns.
-	quote := strings.NewReplacer("`", "` + \"`\" + `", "\r", "` + \"\\r\" + `")
 	for _, file := range builtLRE {
-		fmt.Fprintf(out, "const %s = `%s`\n",
+		fmt.Fprintf(out, "const %s = %s\n",
 			varName(file.Name+".lre"),
-			quote.Replace(string(file.Data)))
+			quote(string(file.Data)))
 	}
 	code += out.String()
 
@@ -77,6 +76,25 @@ func main() {
 	}
 }
 
+// quote returns a Go expression for s: raw string literals,
+// except for the characters that those cannot hold or would drop.
+func quote(s string) string {
+	var b strings.Builder
+	b.WriteByte('`')
+	for len(s) > 0 {
+		r, size := utf8.DecodeRuneInString(s)
+		switch {
+		case r == '`', r == '\r', r == 0, r == '\ufeff', r == utf8.RuneError && size == 1:
+			fmt.Fprintf(&b, "` + %q + `", s[:size])
+		default:
+			b.WriteString(s[:size])
+		}
+		s = s[size:]
+	}
+	b.WriteByte('`')
+	return b.String()
+}
+
 // varName returns the basename of the file, sanitized for use as a variable name,
 // and given the prefix "license_".
 func varName(file string) string {
-- 
2.43.0


From 7fcb0c672e50337ba13b53507a7ba1a28d43fc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:29 +0000
Subject: [PATCH 28/29] fix: getspdx: count words of every script

Word counts decided how many words a field may have and whether an optional
part is only punctuation, but took only ASCII letters for words (and words
joined by underscores for one).
---
 licenses/getspdx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/licenses/getspdx.go b/licenses/getspdx.go
index f1e7359..54166b8 100644
--- a/licenses/getspdx.go
+++ b/licenses/getspdx.go
@@ -266,7 +266,7 @@ func convert(file string) {
 
 var (
 	trailingSpaceRE = regexp.MustCompile(`(?m)[ \t]+$`)
-	wordRE          = regexp.MustCompile(`[\d\w]+`)
+	wordRE          = regexp.MustCompile(`[\pL\p{Nd}\p{Mn}]+|©`)
 	blankRE         = regexp.MustCompile(`\n([.," \t]*\n){2,}`)
 )
 
-- 
2.43.0


From 6cf33d368c217e53017689500a713b1ebbd1fed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:50 +0000
Subject: [PATCH 29/29] fix: getspdx: keep the slashes of URLs

Only //** is special in an LRE. Writing http:/ for http:// made the target of
a Markdown link count as words of the license.
---
 licenses/getspdx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/licenses/getspdx.go b/licenses/getspdx.go
index 54166b8..804f0bd 100644
--- a/licenses/getspdx.go
+++ b/licenses/getspdx.go
@@ -289,7 +289,7 @@ func templateToLRE(file string, t string) string {
 		case strings.HasPrefix(t[i:], "(("),
 			strings.HasPrefix(t[i:], "||"),
 			strings.HasPrefix(t[i:], "))"),
-			strings.HasPrefix(t[i:], "//"),
+			strings.HasPrefix(t[i:], "//") && strings.HasPrefix(strings.TrimLeft(t[i:], "/"), "**"), // comment
 			strings.HasPrefix(t[i:], "??"),
 			strings.HasPrefix(t[i:], "__"):
 			wrap(&buf, t[start:i+1])
-- 
2.43.0

