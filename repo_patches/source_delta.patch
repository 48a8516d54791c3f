From 192a2dfd2e581da474c6ab4bd01938149ac1c6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:18 +0000
Subject: [PATCH 01/26] fix: do not start a match on the last word of the
 previous match

After a match, Match cleared p[0], but the next iteration shifts p[1]
into p[0], so the phrase check could pair a word of the finished match
with the first word after it and report a match overlapping the
previous one (with a Percent above 100).
---
 internal/match/regexp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/match/regexp.go b/internal/match/regexp.go
index 3ce2189..ae4673b 100644
--- a/internal/match/regexp.go
+++ b/internal/match/regexp.go
@@ -205,7 +205,7 @@ func (re *MultiLRE) Match(text string) *Matches {
 
 				// Continue search at end of match.
 				i = end - 1 // loop will i++
-				p[0] = BadWord
+				p[1] = BadWord
 				continue
 			}
 		}
-- 
2.43.0


From 2f2f4020d7c894be3ee6a0ddefbd1bc4e8c3cddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:21 +0000
Subject: [PATCH 02/26] fix: reject license lists without any LRE in NewScanner

NewMultiLRE returns an empty, non-nil MultiLRE for an empty list, so the
"missing lre" check never fired and the resulting Scanner panicked with
a nil pointer dereference in Scan.
---
 scan.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scan.go b/scan.go
index 108e12a..f045a7a 100644
--- a/scan.go
+++ b/scan.go
@@ -82,13 +82,13 @@ func (s *Scanner) init(licenses []License) error {
 			list = append(list, re)
 		}
 	}
+	if len(list) == 0 {
+		return errors.New("missing lre")
+	}
 	re, err := match.NewMultiLRE(list)
 	if err != nil {
 		return err
 	}
-	if re == nil {
-		return errors.New("missing lre")
-	}
 	s.re = re
 	return nil
 }
-- 
2.43.0


From 315f300bc748472d5dfd04275cb5c6d731e2d7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:24 +0000
Subject: [PATCH 03/26] fix: fold runes with more than two case variants
 consistently
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

foldRune stopped at the first step of the SimpleFold orbit that did not
decrease, so for orbits of three or more runes (such as σ, ς and Σ)
different cases of the same letter folded to different runes.
---
 internal/match/dict.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/match/dict.go b/internal/match/dict.go
index fa38505..e792fd9 100644
--- a/internal/match/dict.go
+++ b/internal/match/dict.go
@@ -225,13 +225,13 @@ func (d *Dict) split(text string, insert bool) []Word {
 func foldRune(r rune) rune {
 	// Iterate SimpleFold until we hit the min equivalent rune,
 	// which - for the ones we care about - is the upper case ASCII rune.
-	for {
-		r1 := unicode.SimpleFold(r)
-		if r1 >= r {
-			break
+	min := r
+	for r1 := unicode.SimpleFold(r); r1 != r; r1 = unicode.SimpleFold(r1) {
+		if min > r1 {
+			min = r1
 		}
-		r = r1
 	}
+	r = min
 
 	switch r {
 	case 'Á', 'À':
-- 
2.43.0


From 8ef4d525ae22981b5022bfb59aec05dc267bbabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:28 +0000
Subject: [PATCH 04/26] fix: drop combining grave and acute accents when
 folding
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The foldRune comment documents that U+0300 and U+0301 are dropped,
but the code kept them, so a decomposed "Québec" differed from "Quebec"
and from the precomposed form.
---
 internal/match/dict.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/match/dict.go b/internal/match/dict.go
index e792fd9..216f1ed 100644
--- a/internal/match/dict.go
+++ b/internal/match/dict.go
@@ -234,6 +234,8 @@ func foldRune(r rune) rune {
 	r = min
 
 	switch r {
+	case '\u0300', '\u0301':
+		return -1
 	case 'Á', 'À':
 		return 'a'
 	case 'É', 'È':
-- 
2.43.0


From eed0a87f22f9ef129990af652f1b436ec68603de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:31 +0000
Subject: [PATCH 05/26] fix: reject wildcard counts that do not fit in 32 bits

Counts such as __4294967296__ were silently truncated to int32
(here, to zero) instead of being rejected as invalid.
---
 internal/match/resyntax.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/match/resyntax.go b/internal/match/resyntax.go
index a5d6820..e3521c9 100644
--- a/internal/match/resyntax.go
+++ b/internal/match/resyntax.go
@@ -270,7 +270,7 @@ func reParse(d *Dict, s string, strict bool) (*reSyntax, error) {
 				continue
 			}
 			n, err := strconv.Atoi(s[i+2 : j])
-			if err != nil {
+			if err != nil || n != int(int32(n)) {
 				return nil, reSyntaxError(s, i, errors.New("invalid wildcard count "+s[i:j+2]))
 			}
 			p.words(s[start:i], "__")
-- 
2.43.0


From e0495ecc4014e6129a5ac8dfa398c71c6b852b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:34 +0000
Subject: [PATCH 06/26] fix: recognize license URLs written with an upper-case
 scheme

urlScanRE is case-insensitive, but licenseURL trimmed the scheme and
/legalcode before lower-casing, so HTTP://... was never recognized.
---
 scan.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scan.go b/scan.go
index f045a7a..ea2e2ac 100644
--- a/scan.go
+++ b/scan.go
@@ -225,13 +225,13 @@ func (s *Scanner) Scan(text []byte) Coverage {
 // licenseURL reports whether url is a known URL, and returns its name if it is.
 func (s *Scanner) licenseURL(url string) (License, bool) {
 	// We need to canonicalize the text for lookup.
-	// First, trim the leading http:// or https:// and the trailing /.
-	// Then we lower-case it.
+	// First, lower-case it.
+	// Then we trim the leading http:// or https:// and the trailing /.
+	url = strings.ToLower(url)
 	url = strings.TrimPrefix(url, "http://")
 	url = strings.TrimPrefix(url, "https://")
 	url = strings.TrimSuffix(url, "/")
 	url = strings.TrimSuffix(url, "/legalcode") // Common for CC licenses.
-	url = strings.ToLower(url)
 	l, ok := s.urls[url]
 	if ok {
 		return l, true
-- 
2.43.0


From 264bb6ccc0a0c0685b21bc701c227c19b53e5f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 07/26] fix: index old.New licenses by their position among the
 text licenses

The phrase index recorded the position in the input list, but licenses
without text are not stored, so a URL-only entry ahead of a text entry
made Cover misattribute matches or panic with an index out of range.
---
 old/license.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/old/license.go b/old/license.go
index c53e53e..8ab6a93 100644
--- a/old/license.go
+++ b/old/license.go
@@ -101,7 +101,7 @@ func New(licenses []License) *Checker {
 		dict:     make(map[string]int32),
 		index:    make(map[phrase][]indexEntry),
 	}
-	for id, l := range licenses {
+	for _, l := range licenses {
 		if l.Text != "" {
 			next := len(c.licenses)
 			c.licenses = c.licenses[:next+1]
@@ -110,7 +110,7 @@ func New(licenses []License) *Checker {
 			cl.typ = licenseType(cl.name)
 			cl.text = l.Text
 			cl.doc = c.normalize([]byte(cl.text), true)
-			c.updateIndex(int32(id), cl.doc.words)
+			c.updateIndex(int32(next), cl.doc.words)
 		}
 		if l.URL != "" {
 			c.urls[l.URL] = l.Name
-- 
2.43.0


From 9b92611ed0938f31585fb99ee2b6ba6586baa893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:40 +0000
Subject: [PATCH 08/26] fix: accept &copy; where a pattern expects a plain c
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Spell checking treats c and the copyright word alike, listing ©
and "copyright" but not &copy;, which splitting also turns into
the copyright word.
---
 internal/match/rematch.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/match/rematch.go b/internal/match/rematch.go
index 3dca29c..44a5563 100644
--- a/internal/match/rematch.go
+++ b/internal/match/rematch.go
@@ -986,8 +986,8 @@ func canMisspell(want, have string) bool {
 	// has already started, so they don't affect the match boundaries.)
 	//
 	// The want string has been canonicalized, so it must be "c" or "copyright" (not "©"),
-	// but the have string has only been folded, so it can be any of the three.
-	if (want == "c" || want == "copyright") && (have == "c" || have == "copyright" || have == "©") {
+	// but the have string has only been folded, so it can be any of the three (or the HTML entity &copy;).
+	if (want == "c" || want == "copyright") && (have == "c" || have == "copyright" || have == "©" || have == "&copy;") {
 		return true
 	}
 
-- 
2.43.0


From 170ee4458b0a2256e35049679fd36a69dbaf9b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:41 +0000
Subject: [PATCH 09/26] fix: regenerate data.gen.go from licenses/*.lre

data.gen.go was out of step with its source: one comment still had
the typo "Univeristy" that had already been corrected in the .lre file.
---
 data.gen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data.gen.go b/data.gen.go
index c472559..f3f75ce 100644
--- a/data.gen.go
+++ b/data.gen.go
@@ -9186,7 +9186,7 @@ parties intellectual property rights.
 `
 const license_BSD_4_Clause_UC_lre = `
 //**
-BSD 4-Clause (Univeristy of California-Specific)
+BSD 4-Clause (University of California-Specific)
 https://spdx.org/licenses/BSD-4-Clause-UC.json
 http://www.freebsd.org/copyright/license.html
 **//
-- 
2.43.0


From 28b7736091d1483c716ea3c9e5b58aa38b10554b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 10/26] fix: build the DFA without recursion

dfaBuilder.add recursed once per DFA state, so NewScanner died with an
unrecoverable stack overflow on long patterns or large wildcard counts
such as __5000000__. Use an explicit stack; the layout of the DFA is
unchanged.
---
 internal/match/rematch.go | 44 ++++++++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/internal/match/rematch.go b/internal/match/rematch.go
index 44a5563..2191465 100644
--- a/internal/match/rematch.go
+++ b/internal/match/rematch.go
@@ -680,6 +680,15 @@ type dfaBuilder struct {
 	dfa  reDFA          // DFA so far
 	have map[string]int // map from encoded NFA state to dfa array offset
 	enc  []byte         // encoding buffer
+
+	stack []dfaFrame // states being filled in
+}
+
+// A dfaFrame is a DFA state whose transitions are being filled in.
+type dfaFrame struct {
+	s     nfaState
+	words []WordID // words whose transitions are still missing
+	off   int      // offset in b.dfa of the transition for words[0]
 }
 
 // reCompileDFA compiles prog into a DFA.
@@ -693,8 +702,33 @@ func reCompileDFA(prog reProg) reDFA {
 }
 
 // add returns the offset of the NFA state s in the DFA b.dfa,
-// adding it to the end of the DFA if needed.
+// adding it (and all states reachable from it) to the end of the DFA if needed.
+//
+// The traversal is depth-first, using an explicit stack: a long pattern or
+// a large wildcard count leads to equally long chains of states, which
+// could overflow the goroutine stack of a recursive implementation.
 func (b *dfaBuilder) add(s nfaState) int32 {
+	start := b.reserve(s)
+	for len(b.stack) > 0 {
+		f := &b.stack[len(b.stack)-1]
+		if len(f.words) == 0 {
+			b.stack = b.stack[:len(b.stack)-1]
+			continue
+		}
+		w, off := f.words[0], f.off
+		f.words = f.words[1:]
+		f.off += 2
+		nextPos := b.reserve(f.s.next(b.prog, w))
+		b.dfa[off] = int32(w)
+		b.dfa[off+1] = nextPos
+	}
+	return start
+}
+
+// reserve returns the offset of the NFA state s in the DFA b.dfa.
+// If the state is new, reserve appends it to the DFA and pushes it onto b.stack
+// for filling in the transitions.
+func (b *dfaBuilder) reserve(s nfaState) int32 {
 	// If we've processed this state already, return its known position.
 	b.enc = s.appendEncoding(b.enc[:0])
 	pos, ok := b.have[string(b.enc)]
@@ -730,13 +764,7 @@ func (b *dfaBuilder) add(s nfaState) int32 {
 		b.dfa[off] = match // match value
 		off++
 	}
-	for _, w := range words {
-		next := s.next(b.prog, w)
-		nextPos := b.add(next)
-		b.dfa[off] = int32(w)
-		b.dfa[off+1] = nextPos
-		off += 2
-	}
+	b.stack = append(b.stack, dfaFrame{s, words, off})
 
 	return int32(pos)
 }
-- 
2.43.0


From 04b150e851ad2f0dc15ab440a3b6867f06138190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:57 +0000
Subject: [PATCH 11/26] fix: count CRLF as one line break when recognizing HTML
 tags

---
 internal/match/dict.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/match/dict.go b/internal/match/dict.go
index 216f1ed..98a5091 100644
--- a/internal/match/dict.go
+++ b/internal/match/dict.go
@@ -325,6 +325,10 @@ func htmlTagSize(t string) int {
 				return 0
 			}
 		case '\r', '\n':
+			if t[i] == '\r' && i+1 < len(t) && t[i+1] == '\n' {
+				// Count \r\n as a single line break.
+				break
+			}
 			if nl++; nl > 2 {
 				return 0
 			}
-- 
2.43.0


From f1ea1fca7bb1c03771336513ffe97e62d05aecb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:00 +0000
Subject: [PATCH 12/26] fix: let any white space end the name of an HTML tag

---
 internal/match/dict.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/match/dict.go b/internal/match/dict.go
index 98a5091..bd78f7e 100644
--- a/internal/match/dict.go
+++ b/internal/match/dict.go
@@ -325,6 +325,7 @@ func htmlTagSize(t string) int {
 				return 0
 			}
 		case '\r', '\n':
+			space = true
 			if t[i] == '\r' && i+1 < len(t) && t[i+1] == '\n' {
 				// Count \r\n as a single line break.
 				break
@@ -336,7 +337,7 @@ func htmlTagSize(t string) int {
 			return 0
 		case '>':
 			return i + 1
-		case ' ':
+		case ' ', '\t':
 			space = true
 		}
 	}
-- 
2.43.0


From 3ed54fe5beb53e6d995135072733653520e3bd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:49 +0000
Subject: [PATCH 13/26] fix: accept )) before a CRLF line end

---
 internal/match/resyntax.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/match/resyntax.go b/internal/match/resyntax.go
index e3521c9..dca42b5 100644
--- a/internal/match/resyntax.go
+++ b/internal/match/resyntax.go
@@ -218,7 +218,7 @@ func reParse(d *Dict, s string, strict bool) (*reSyntax, error) {
 			// )) must be followed by ?? or end line
 			if strict {
 				j := i + 2
-				for j < len(s) && (s[j] == ' ' || s[j] == '\t') {
+				for j < len(s) && (s[j] == ' ' || s[j] == '\t' || s[j] == '\r') {
 					j++
 				}
 				if j < len(s) && s[j] != '\n' && (j+1 >= len(s) || s[j] != '?' || s[j+1] != '?') {
-- 
2.43.0


From 7c68ef9d14bee9638dfcb60fe91d87752544ba29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:54 +0000
Subject: [PATCH 14/26] fix: do not count a blank twice in old Checker matches

---
 old/license.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/old/license.go b/old/license.go
index 8ab6a93..7f37770 100644
--- a/old/license.go
+++ b/old/license.go
@@ -578,8 +578,8 @@ func (c *Checker) submatches(text []int32, opts Options) []submatch {
 					textGap = blankMax
 				}
 				if prev.end+textGap >= start && matchLicenseStart >= prev.licenseEnd {
-					if textGap == blankMax {
-						prev.matched++ // matched the blank
+					if textGap == blankMax && matchLicenseStart > prev.licenseEnd {
+						prev.matched++ // matched the blank (and it is not in matchLength)
 					}
 					prev.end = end
 					prev.matched += matchLength
-- 
2.43.0


From 3e4ecf29ac32b65b854ea0cf05eeed45b1fc4a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:00 +0000
Subject: [PATCH 15/26] fix: count words outside ASCII in getspdx as the
 matcher does

---
 licenses/getspdx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/licenses/getspdx.go b/licenses/getspdx.go
index 8ec7838..fd17cc9 100644
--- a/licenses/getspdx.go
+++ b/licenses/getspdx.go
@@ -266,7 +266,7 @@ func convert(file string) {
 
 var (
 	trailingSpaceRE = regexp.MustCompile(`(?m)[ \t]+$`)
-	wordRE          = regexp.MustCompile(`[\d\w]+`)
+	wordRE          = regexp.MustCompile(`©|[\pL\p{Nd}][\pL\p{Nd}\p{Mn}]*`)
 	blankRE         = regexp.MustCompile(`\n([.," \t]*\n){2,}`)
 )
 
-- 
2.43.0


From 638e8354f2c72b02ba92f365826d1285ef93fec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:00 +0000
Subject: [PATCH 16/26] fix: let getspdx wrap lines indented by more than 80
 columns

---
 licenses/getspdx.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/licenses/getspdx.go b/licenses/getspdx.go
index fd17cc9..bdbe9ce 100644
--- a/licenses/getspdx.go
+++ b/licenses/getspdx.go
@@ -441,13 +441,17 @@ func wrap(buf *bytes.Buffer, text string) {
 		indent := line[:i]
 		line = line[i:]
 		const Target = 80
-		for len(line) > Target-len(indent) {
-			j := Target - len(indent)
+		width := Target - len(indent)
+		if width < 0 {
+			width = 0
+		}
+		for len(line) > width {
+			j := width
 			for j >= 0 && line[j] != ' ' && line[j] != '\t' {
 				j--
 			}
 			if j < 0 {
-				j = Target - len(indent)
+				j = width
 				for j < len(line) && line[j] != ' ' && line[j] != '\t' {
 					j++
 				}
-- 
2.43.0


From 4e0c4b40c52a69feab6fbcafa0d51dab75cf6b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:47 +0000
Subject: [PATCH 17/26] fix: keep words apart when getspdx drops an optional
 part

---
 licenses/getspdx.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/licenses/getspdx.go b/licenses/getspdx.go
index bdbe9ce..5e75494 100644
--- a/licenses/getspdx.go
+++ b/licenses/getspdx.go
@@ -340,6 +340,11 @@ func templateToLRE(file string, t string) string {
 				// like name((s))??.
 				if len(w) == 0 || len(w) == 1 && w[0] == "s" {
 					buf.Truncate(start)
+					// Keep the words around a dropped option apart, except
+					// around a bare s, which may be in the middle of a word.
+					if len(w) == 0 || t[i-1] == ' ' {
+						buf.WriteByte(' ')
+					}
 				}
 			case strings.HasPrefix(tag, `<<var;`):
 				name := findAttr(tag, "name")
-- 
2.43.0


From cbc8e044b820f87ad21882b03816e392ffbdc33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:19 +0000
Subject: [PATCH 18/26] fix: let getcc wrap lines indented by more than 80
 columns

---
 licenses/getcc.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/licenses/getcc.go b/licenses/getcc.go
index dccefa7..b696566 100644
--- a/licenses/getcc.go
+++ b/licenses/getcc.go
@@ -351,13 +351,17 @@ func wrap(buf *bytes.Buffer, text string) {
 		indent := line[:i]
 		line = line[i:]
 		const Target = 80
-		for len(line) > Target-len(indent) {
-			j := Target - len(indent)
+		width := Target - len(indent)
+		if width < 0 {
+			width = 0
+		}
+		for len(line) > width {
+			j := width
 			for j >= 0 && line[j] != ' ' && line[j] != '\t' {
 				j--
 			}
 			if j < 0 {
-				j = Target - len(indent)
+				j = width
 				for j < len(line) && line[j] != ' ' && line[j] != '\t' {
 					j++
 				}
-- 
2.43.0


From ffe567ca4a8b5a19ba82217ea0482909f8c7d235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:19 +0000
Subject: [PATCH 19/26] fix: recognize license URLs with an upper-case scheme
 in old

---
 old/license.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/old/license.go b/old/license.go
index 7f37770..1fac795 100644
--- a/old/license.go
+++ b/old/license.go
@@ -386,13 +386,13 @@ func (doc *document) findURLsBetween(c *Checker, matches []Match) []Match {
 // licenseURL reports whether url is a known URL, and returns its name if it is.
 func (c *Checker) licenseURL(url string) (string, bool) {
 	// We need to canonicalize the text for lookup.
-	// First, trim the leading http:// or https:// and the trailing /.
-	// Then we lower-case it.
+	// First, we lower-case it.
+	// Then trim the leading http:// or https:// and the trailing /.
+	url = strings.ToLower(url)
 	url = strings.TrimPrefix(url, "http://")
 	url = strings.TrimPrefix(url, "https://")
 	url = strings.TrimSuffix(url, "/")
 	url = strings.TrimSuffix(url, "/legalcode") // Common for CC licenses.
-	url = strings.ToLower(url)
 	name, ok := c.urls[url]
 	if ok {
 		return name, true
-- 
2.43.0


From 873b13808cdc168eeafc61684ce567f24bcd0d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:19 +0000
Subject: [PATCH 20/26] fix: search old Checker gaps for URLs up to the next
 match

---
 old/license.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/old/license.go b/old/license.go
index 1fac795..5e5f0d7 100644
--- a/old/license.go
+++ b/old/license.go
@@ -361,7 +361,10 @@ func (doc *document) findURLsBetween(c *Checker, matches []Match) []Match {
 		// be the last text in the file. Make sure to run to EOF if we're at the end.
 		// Otherwise, the end will go right up to the start of the next match, and
 		// that will include all the text in the gap.
-		end := doc.endWordToEndByte(c, endWord)
+		end := len(doc.text)
+		if endWord < len(doc.words) {
+			end = int(doc.byteOff[endWord])
+		}
 		urlIndexes := urlRE.FindAllIndex(doc.text[start:end], -1)
 		if len(urlIndexes) == 0 {
 			continue
-- 
2.43.0


From cc5e012c85e78fdcdfb8588e1d139eb402a19096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:29 +0000
Subject: [PATCH 21/26] fix: keep splitting linear on unfinished Markdown
 anchors and links

Every {# or ](# without an end made split look for the end up to the next
space again, so that 1 MB of {#{#{#... took minutes to scan.
---
 internal/match/dict.go | 49 ++++++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/internal/match/dict.go b/internal/match/dict.go
index bd78f7e..bd38dfb 100644
--- a/internal/match/dict.go
+++ b/internal/match/dict.go
@@ -94,6 +94,10 @@ func (d *Dict) split(text string, insert bool) []Word {
 	var wbuf []byte
 	var words []Word
 	t := text
+	// No Markdown anchor or link target starting at an offset smaller than
+	// these is complete. Remembering that after a failed search keeps split linear
+	// on texts with many unfinished ones.
+	var noAnchor, noLink int
 	for t != "" {
 		var w []byte
 		var lo, hi int32
@@ -105,9 +109,12 @@ func (d *Dict) split(text string, insert bool) []Word {
 					continue
 				}
 			case '{':
-				if size := markdownAnchorSize(t); size > 0 {
-					t = t[size:]
-					continue
+				if pos := len(text) - len(t); pos >= noAnchor && strings.HasPrefix(t, "{#") {
+					if size := markdownAnchorSize(t); size > 0 {
+						t = t[size:]
+						continue
+					}
+					noAnchor = pos + indexAny(t, " \r\n")
 				}
 			case '&':
 				// Assume HTML entity is punctuation.
@@ -124,9 +131,12 @@ func (d *Dict) split(text string, insert bool) []Word {
 				}
 			}
 			if len(t) >= 2 && t[0] == ']' && t[1] == '(' {
-				if size := markdownLinkSize(t); size > 0 {
-					t = t[size:]
-					continue
+				if pos := len(text) - len(t); pos >= noLink && hasMarkdownLinkPrefix(t[2:]) {
+					if size := markdownLinkSize(t); size > 0 {
+						t = t[size:]
+						continue
+					}
+					noLink = pos + indexAny(t, " \t\r\n")
 				}
 			}
 
@@ -415,14 +425,7 @@ func markdownLinkSize(t string) int {
 	if len(t) < 2 || t[0] != ']' || t[1] != '(' {
 		return 0
 	}
-	ok := false
-	for _, prefix := range markdownLinkPrefixes {
-		if strings.HasPrefix(t[2:], prefix) {
-			ok = true
-			break
-		}
-	}
-	if !ok {
+	if !hasMarkdownLinkPrefix(t[2:]) {
 		return 0
 	}
 
@@ -438,6 +441,24 @@ func markdownLinkSize(t string) int {
 	return 0
 }
 
+// hasMarkdownLinkPrefix reports whether t begins like a Markdown link target.
+func hasMarkdownLinkPrefix(t string) bool {
+	for _, prefix := range markdownLinkPrefixes {
+		if strings.HasPrefix(t, prefix) {
+			return true
+		}
+	}
+	return false
+}
+
+// indexAny is like strings.IndexAny but returns len(t) if none of chars is in t.
+func indexAny(t, chars string) int {
+	if i := strings.IndexAny(t, chars); i >= 0 {
+		return i
+	}
+	return len(t)
+}
+
 // canonicalRewrites is a list of pairs that are canonicalized during word splittting.
 // The words on the right are parsed as if they were the words on the left.
 // This happens during dictionary splitting, so canMisspell will never see any
-- 
2.43.0


From 225a2e5a37ec500aaa18bc1fc8664abe07967753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:29 +0000
Subject: [PATCH 22/26] fix: old: keep Cover linear in the number of matches
 and URLs

---
 old/license.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/old/license.go b/old/license.go
index 5e5f0d7..e865758 100644
--- a/old/license.go
+++ b/old/license.go
@@ -229,8 +229,10 @@ func (c *Checker) Cover(input []byte, opts Options) (Coverage, bool) {
 		}
 		mi := &matches[i]
 		miWords := mi.Percent * float64(mi.End-mi.Start)
-		for j := range matches {
-			if killed[j] || i == j {
+		// The matches are sorted, so only those that follow can overlap:
+		// an earlier one that does has been dealt with already.
+		for j := i + 1; j < len(matches) && matches[j].Start < mi.End; j++ {
+			if killed[j] {
 				continue
 			}
 			mj := &matches[j]
@@ -281,12 +283,9 @@ func (doc *document) sort(matches []Match) {
 }
 
 func (doc *document) wordOffset(byteOffset int) int {
-	for i, off := range doc.byteOff {
-		if int(off) >= byteOffset {
-			return i
-		}
-	}
-	return len(doc.words)
+	return sort.Search(len(doc.byteOff), func(i int) bool {
+		return int(doc.byteOff[i]) >= byteOffset
+	})
 }
 
 // endWordToEndByte returns the end byte offset corresponding
-- 
2.43.0


From 5d5f0728dc995d4089c5d024ce4771abb2314561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:16 +0000
Subject: [PATCH 23/26] fix: old: count a blank only where the license has one

With Options.Slop equal to the reach of a blank (70 words), every gap
between two runs counted as a matched word.
---
 old/license.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/old/license.go b/old/license.go
index e865758..7e0e933 100644
--- a/old/license.go
+++ b/old/license.go
@@ -576,11 +576,12 @@ func (c *Checker) submatches(text []int32, opts Options) []submatch {
 			if i := byLicense[licenseID]; i >= 0 {
 				prev := &matches[i]
 				textGap := opts.Slop
-				if prev.licenseEnd < len(l.doc.words) && l.doc.words[prev.licenseEnd] == blankID {
+				blank := prev.licenseEnd < len(l.doc.words) && l.doc.words[prev.licenseEnd] == blankID
+				if blank {
 					textGap = blankMax
 				}
 				if prev.end+textGap >= start && matchLicenseStart >= prev.licenseEnd {
-					if textGap == blankMax && matchLicenseStart > prev.licenseEnd {
+					if blank && matchLicenseStart > prev.licenseEnd {
 						prev.matched++ // matched the blank (and it is not in matchLength)
 					}
 					prev.end = end
-- 
2.43.0


From 6633639dc96da790362924a3d23b6f221e6a0ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:56 +0000
Subject: [PATCH 24/26] fix: getcc writes ((License))?? only on a line of its
 own

A page with the word License in markup of its own in the middle of a line,
as in "this <b>License</b> is", gave a pattern with (( inside a line, which
ParseLRE rejects.
---
 licenses/getcc.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/licenses/getcc.go b/licenses/getcc.go
index b696566..d4d8d93 100644
--- a/licenses/getcc.go
+++ b/licenses/getcc.go
@@ -267,8 +267,10 @@ func convert(id string) {
 
 			s = strings.ReplaceAll(s, "((", " ( ( ")
 			s = strings.ReplaceAll(s, "))", " ) ) ")
-			if s == "License" {
-				s = "((License))??"
+			line := string(buf.Bytes()[bytes.LastIndexByte(buf.Bytes(), '\n')+1:])
+			if s == "License" && strings.Trim(line, " \t") == "" {
+				// Operators are only allowed at the start and end of a line.
+				s = "((License))??\n"
 			}
 			wrap(&buf, s)
 		}
-- 
2.43.0


From 9ba75a6b525099fce67b21938f3fca93d7eb4b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:56 +0000
Subject: [PATCH 25/26] fix: getcc keeps parentheses apart that meet around
 markup

A page with text like (<b>(x)</b>) gave a pattern with (( and )), which
ParseLRE rejects.
---
 licenses/getcc.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/licenses/getcc.go b/licenses/getcc.go
index d4d8d93..fb371de 100644
--- a/licenses/getcc.go
+++ b/licenses/getcc.go
@@ -268,9 +268,14 @@ func convert(id string) {
 			s = strings.ReplaceAll(s, "((", " ( ( ")
 			s = strings.ReplaceAll(s, "))", " ) ) ")
 			line := string(buf.Bytes()[bytes.LastIndexByte(buf.Bytes(), '\n')+1:])
-			if s == "License" && strings.Trim(line, " \t") == "" {
+			switch {
+			case s == "License" && strings.Trim(line, " \t") == "":
 				// Operators are only allowed at the start and end of a line.
 				s = "((License))??\n"
+			case strings.HasPrefix(s, "(") && strings.HasSuffix(line, "("),
+				strings.HasPrefix(s, ")") && strings.HasSuffix(line, ")"):
+				// Two parentheses may also meet around markup.
+				s = " " + s
 			}
 			wrap(&buf, s)
 		}
-- 
2.43.0


From e247f5153841569d6dd2ac762f73b37075c0a11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:32 +0000
Subject: [PATCH 26/26] fix: getspdx and getcc write .t1 files in the form
 TestTestdata reads

The header was that of old/testdata, which TestTestdata rejects (bad match
field count), so each newly converted license made the tests fail.
---
 licenses/getcc.go   | 2 +-
 licenses/getspdx.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/licenses/getcc.go b/licenses/getcc.go
index fb371de..131200e 100644
--- a/licenses/getcc.go
+++ b/licenses/getcc.go
@@ -321,7 +321,7 @@ func convert(id string) {
 		return
 	}
 	if _, err := os.Stat("../testdata/" + id + ".t1"); err != nil {
-		data := []byte(fmt.Sprintf("0%%\nscan\n100%%\n%s 100%% 0,$\n\n%s", id, text))
+		data := []byte(fmt.Sprintf("100%%\n%s 0,$\n\n%s", id, text))
 		if err := ioutil.WriteFile("../testdata/"+id+".t1", data, 0666); err != nil {
 			log.Print(err)
 			exitStatus = 1
diff --git a/licenses/getspdx.go b/licenses/getspdx.go
index 5e75494..a4525e3 100644
--- a/licenses/getspdx.go
+++ b/licenses/getspdx.go
@@ -255,7 +255,7 @@ func convert(file string) {
 		return
 	}
 	if _, err := os.Stat("../testdata/" + id + ".t1"); err != nil {
-		data := []byte(fmt.Sprintf("0%%\nscan\n100%%\n%s 100%% 0,$\n\n%s", id, text))
+		data := []byte(fmt.Sprintf("100%%\n%s 0,$\n\n%s", id, text))
 		if err := ioutil.WriteFile("../testdata/"+id+".t1", data, 0666); err != nil {
 			log.Print(err)
 			exitStatus = 1
-- 
2.43.0

