package main

import (
	"fmt"
	"math/rand/v2"
	"strings"

	"vh/ref"

	lc "github.com/google/licensecheck"
)

// spellings lists the equivalent spellings of a canonical URL.
func spellings(u string) []string {
	var out []string
	for _, scheme := range []string{"http://", "https://", "HTTP://", "Https://", "HTTPS://"} {
		for _, tail := range []string{"", "/", "/legalcode", "/legalcode/", "/zzz", "/zzz/", "/zz-z.9", "/zzz/legalcode", "/zzz/legalcode/", "/Zz/LEGALCODE/", "/LegalCode", "/Zz?q=1#x"} {
			out = append(out, scheme+u+tail)
			out = append(out, scheme+strings.ToUpper(u)+tail)
		}
		out = append(out, scheme+strings.ToUpper(u[:1])+u[1:], strings.ToUpper(scheme)+u, strings.ToUpper(scheme+u+"/legalcode"))
	}
	return out
}

// mixCase writes the letters of a URL in mixed case: at random, or whole
// segments, or the first letters of segments, in capitals.
func mixCase(r *rand.Rand, u string) string {
	b := []byte(strings.ToLower(u))
	mode, capital := r.IntN(3), r.IntN(2) == 0
	for i, ch := range b {
		first := i == 0 || strings.IndexByte("/.:-_", b[i-1]) >= 0
		if first || mode == 0 {
			capital = r.IntN(2) == 0
		}
		if 'a' <= ch && ch <= 'z' && capital && (mode != 1 || first) {
			b[i] = ch - 'a' + 'A'
		}
	}
	return string(b)
}

// urlPlaces are texts around a URL; the URL goes where %s stands.
var urlPlaces = []string{"%s", "%s\n", "\n%s", "zqzq %s", "%s zqzq", "zqzq zvvz %s qxqx", "(%s)", "<%s>", "\"%s\"", "zqzq:%s, zvvz", "zqzq\r\n%s\r\nzvvz", "[zqzq](x) %s", "— %s —", "zqzq/%s", "<b>%s</b>", "* %s\n* zqzq", "é%[1]s"[:0] + "é %s é", "zqzq\xff%s\xffzvvz", "%s;", "%s) zqzq"}

func init() {
	register(&Check{ID: "C19", Needs: []string{"built-in URLs", "spellings", "custom URLs", "URLs between licenses", "URLs in a row", "spellings of mixed case"}, Run: func(c *Ctx) {
		c.Rule("exhaustive: every URL of the built-in set x about 140 equivalent spellings x positions (alone, start, end, between words, punctuation, markup, invalid bytes, between licenses, in a row of URLs); random custom URLs in the canonical form the same way; expected exactly one IsURL match with the entry's ID and Type over exactly the bytes of the URL. Non-trivial: each text")
		b := builtin(c)
		if b == nil {
			return
		}
		var ents []lc.License
		for _, l := range b.List {
			if l.URL != "" {
				ents = append(ents, l)
			}
		}
		if len(ents) == 0 {
			c.Each("built-in URLs", 1, func(w *W) {
				w.FailText("no URL in the built-in set", nil, nil, "")
			})
			return
		}
		one := func(w *W, s *lc.Scanner, list []lc.License, l lc.License, t string, lo int, sp string) bool {
			got := s.Scan([]byte(t))
			w.Note(true, t)
			w.Inc("spellings", 1)
			var us []lc.Match
			for _, m := range got.Match {
				if m.IsURL {
					us = append(us, m)
				}
			}
			if len(us) != 1 || us[0] != (lc.Match{ID: l.ID, Type: l.Type, Start: lo, End: lo + len(sp), IsURL: true}) {
				w.FailText("license URL not recognized", shortList(list), []byte(t), "want URL %s/%v[%d:%d], got %s", l.ID, l.Type, lo, lo+len(sp), show(got.Match, got.Percent))
				return false
			}
			return true
		}
		known := map[string]bool{}
		for _, l := range ents {
			known[l.URL] = true
		}
		cp := corpus()
		c.Each("built-in URLs", len(ents), func(w *W) {
			l := ents[w.Case]
			w.Inc("built-in URLs", 1)
			for i, sp := range spellings(l.URL) {
				places := urlPlaces
				if !c.Thorough() {
					places = []string{"%s", urlPlaces[(i+w.Case)%len(urlPlaces)], pick(w.R, urlPlaces), "zqzq %s zqzq"}
				}
				for _, pl := range places {
					pre, post, _ := strings.Cut(pl, "%s")
					if !one(w, b.S, nil, l, pre+sp+post, len(pre), sp) {
						return
					}
				}
			}
			for k := 0; k < c.N(6, 40); k++ { // any letter case
				sp := mixCase(w.R, pick(w.R, spellings(l.URL)))
				w.Inc("spellings of mixed case", 1)
				pre, post, _ := strings.Cut(pick(w.R, urlPlaces), "%s")
				if !one(w, b.S, nil, l, pre+sp+post, len(pre), sp) {
					return
				}
			}
			// Between built-in license texts.
			for k := 0; k < 2; k++ {
				a, z := string(pick(w.R, cp)), string(pick(w.R, cp))
				if len(a)+len(z) > 40000 {
					continue
				}
				sp := pick(w.R, spellings(l.URL))
				pre := a + " zqzq zvvz\n"
				post := "\nzqzq zvvz " + strings.Repeat("qxqx ", 60) + z
				if strings.Contains(strings.ToLower(a+z), "http") {
					continue
				}
				ws := ref.Split(pre+sp+post, nil)
				_ = ws
				w.Inc("URLs between licenses", 1)
				if !one(w, b.S, nil, l, pre+sp+post, len(pre), sp) {
					return
				}
			}
		})
		c.Each("built-in URLs in a row", c.N(100, 2000), func(w *W) {
			var b2 strings.Builder
			var want []lc.Match
			for n := 1 + w.R.IntN(60); n > 0; n-- {
				l := pick(w.R, ents)
				sp := pick(w.R, spellings(l.URL))
				lo := b2.Len()
				b2.WriteString(sp)
				want = append(want, lc.Match{ID: l.ID, Type: l.Type, Start: lo, End: lo + len(sp), IsURL: true})
				b2.WriteString(pick(w.R, []string{" ", "\n", ", ", " zqzq ", "<br>", ")("}))
			}
			w.Inc("URLs in a row", len(want))
			got := b.S.Scan([]byte(b2.String()))
			w.Note(true, b2.String())
			if !sameMatches(got.Match, want) {
				w.FailText("license URL not recognized", nil, []byte(b2.String()), "want %s, got %s", show(want, 0), show(got.Match, got.Percent))
			}
		})
		c.Each("custom URLs", c.N(1500, 30000), func(w *W) {
			u := newUnique(w.R)
			lic := []string{u.word(nil), u.word(nil), u.word(nil)}
			list := []lc.License{{ID: "L", LRE: lits(lic...)}}
			urls := map[string]bool{}
			for n := 1 + w.R.IntN(12); n > 0; n-- {
				x := genURL(w.R)
				if urls[x] || strings.HasSuffix(x, "/legalcode") {
					continue
				}
				urls[x] = true
				l := lc.License{ID: fmt.Sprint("U", len(list)), Type: lc.Type(w.R.IntN(64)), URL: x}
				if w.R.IntN(4) == 0 {
					l.LRE = lits(u.word(nil), u.word(nil))
				}
				list = append(list, l)
			}
			w.R.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
			s, err := lc.NewScanner(list)
			if err != nil {
				w.FailText("valid license set rejected", list, nil, "%v", err)
				return
			}
			for _, l := range list {
				if l.URL == "" {
					continue
				}
				w.Inc("custom URLs", 1)
				for k := 0; k < 8; k++ {
					sp := pick(w.R, spellings(l.URL))
					if w.R.IntN(2) == 0 {
						sp = mixCase(w.R, sp)
						w.Inc("spellings of mixed case", 1)
					}
					pl := pick(w.R, urlPlaces)
					if w.R.IntN(4) == 0 {
						pl = lits(lic...) + pick(w.R, []string{" ", "\n", ": ", "<"}) + "%s" + pick(w.R, []string{" ", "\n", "> "}) + lits(lic...)
						w.Inc("URLs between licenses", 1)
					}
					pre, post, _ := strings.Cut(pl, "%s")
					if !one(w, s, list, l, pre+sp+post, len(pre), sp) {
						return
					}
				}
			}
		})
	}})

	// urlWorld has patterns made of the words that URLs consist of.
	urlWorld := func() Profile {
		p := defaultProfile()
		p.Voc = mixVoc(strings.Fields("http https example opensource org com mit by us licenses license txt agpl html copyright aaa bbb 3 0 1"))
		p.NLic = [2]int{2, 6}
		p.PURL, p.PURLOnly, p.Related = 0.5, 0.4, 0.3
		p.Weights = [nPieceKinds]int{4, 2, 2, 1, 2, 6, 5, 2}
		p.Pieces = 8
		p.Seps = []string{" ", " ", "\n", "", "/", ".", "://", ")", "(", "<", ">", ","}
		p.Bytes = 3
		return p
	}
	register(&Check{ID: "C20", Needs: []string{"damaged URLs", "damaged URLs still known", "URLs on other hosts", "URLs inside licenses", "URLs running into licenses", "unknown URLs", "URL matches", "copyright lead-ins"}, Run: func(c *Ctx) {
		c.Rule("every built-in URL with every one-character deletion and many insertions and replacements, judged by a hand-written URL recogniser; URLs inside, overlapping and adjacent to licenses and within copyright lead-ins; random URL-like texts over sets whose patterns share words with URLs, against the model (URL matches, types). Non-trivial: each text with an http word")
		b := builtin(c)
		if b == nil {
			return
		}
		judge := func(w *W, x *World, t string) bool {
			got := x.S.Scan([]byte(t))
			want := x.Set.Scan([]byte(t))
			w.tally(want)
			w.Note(true, t)
			if want.Trace.Ambiguous > 0 {
				return true
			}
			if d := differs(got, want, aURL|aType); d != "" {
				w.FailText("wrong URL match", shortList(x.List), []byte(t), "%s: got %s, want %s", d, show(got.Match, got.Percent), showRef(want))
				return false
			}
			return true
		}
		var ents []lc.License
		for _, l := range b.List {
			if l.URL != "" {
				ents = append(ents, l)
			}
		}
		c.Each("one character changed", len(ents), func(w *W) {
			l := ents[w.Case]
			full := pick(w.R, []string{"http://", "https://"}) + l.URL + pick(w.R, []string{"", "/", "/legalcode", "/zzz"})
			var vs []string
			alpha := c.N(3, 20)
			chars := "x/.-_:?#=1Aé @%&<(\n\xff+~sS"
			for i := 0; i <= len(full); i++ {
				if i < len(full) {
					vs = append(vs, full[:i]+full[i+1:])
				}
				for k := 0; k < alpha; k++ {
					ch := chars[w.R.IntN(len(chars))]
					vs = append(vs, full[:i]+string(ch)+full[i:])
					if i < len(full) {
						vs = append(vs, full[:i]+string(ch)+full[i+1:])
					}
				}
				vs = append(vs, full[:i], full[:i]+" "+full[i:], full[:i]+".", full[:i]+"\n"+full[i:])
			}
			vs = append(vs, full+"x", full+"/a/b", full+"//", full+".", full+"/legalcode/legalcode", full+"/legalcode/us", "ftp://"+l.URL, l.URL, "http:/"+l.URL, "http:"+l.URL, "//"+l.URL, "http://www."+l.URL, "http://"+strings.Replace(l.URL, ".org", ".net", 1), "http://"+strings.Replace(l.URL, ".org", ".com", 1), "http://"+strings.Replace(l.URL, "/", "//", 1), "xhttp://"+l.URL, "http ://"+l.URL, "http://x@"+l.URL, "http://"+strings.Replace(l.URL, "/", ":80/", 1))
			for _, v := range vs {
				w.Inc("damaged URLs", 1)
				if _, ok := b.Set.LookupURL(v); ok && ref.URLLen([]byte(v)) == len(v) {
					w.Inc("damaged URLs still known", 1)
				}
				if !judge(w, b, v) || w.R.IntN(4) == 0 && !judge(w, b, "zqzq "+v+" zqzq") {
					return
				}
			}
		})
		// Entries whose URL can never be met: other hosts, no path, characters
		// outside those of license URLs; next to entries cut from them.
		c.Each("other hosts", c.N(3000, 60000), func(w *W) {
			hosts := []string{"qxqx.net", "qxqx.io", "a.edu", "w3.gov", "qxqx.co.uk", "qxqx.orgx", "qxqx.community", "localhost", "127.0.0.1", "qxqx.org:80", "qxqx.com:8080", "x@qxqx.org", "org", "com", ".org", "qxqx.or", "qxqxorg", "qxqx.org", "qxqx.com", "a-b_c.qxqx.org", "qxqx.info", "qxqx.org.", "qxqx.de", "b\u00fccher.org", "qxqx.com.cn", "qxqx.org.net"}
			paths := []string{"", "/", "/a", "/license/mit", "/~me/x", "/a%20b", "/a+b", "/a,b", "/l;v=1", "/l(1)", "/l!x", "/a@b", "/l:1", "/\u00e9", "/a&b=c", "//a", "/a//b", "/l?x=1#y", "/mit.html", "/a/", "/A/B", "/legalcode", "/x/legalcode", "/a\\b", "/a'b", "/l*"}
			list := []lc.License{{ID: "L", LRE: "mmmqqq nnnqqq"}}
			var full []string
			for n := 1 + w.R.IntN(5); n > 0; n-- {
				u := pick(w.R, hosts) + pick(w.R, paths)
				full = append(full, u)
				list = append(list, lc.License{ID: fmt.Sprint("U", len(list)), URL: u, Type: lc.Type(len(list))})
				if w.R.IntN(3) == 0 && len(u) > 4 {
					k := 3 + w.R.IntN(len(u)-3)
					list = append(list, lc.License{ID: fmt.Sprint("U", len(list)), URL: u[:k]})
				}
			}
			set, err := refSet(list)
			if err != nil {
				return
			}
			x := &World{List: list, Set: set}
			if !x.scanner(w) {
				return
			}
			for j := 0; j < 8; j++ {
				v := pick(w.R, full)
				if w.R.IntN(3) == 0 {
					v = pick(w.R, hosts) + pick(w.R, paths)
				}
				v = pick(w.R, []string{"http://", "https://", "HTTP://", "http://www.", "ftp://", ""}) + v + pick(w.R, []string{"", "", "/", "/legalcode", "/us", ".", "?", "#x", "/us/legalcode"})
				w.Inc("URLs on other hosts", 1)
				if !judge(w, x, pick(w.R, []string{"", "zqzq ", "mmmqqq nnnqqq "})+v+pick(w.R, []string{"", " zqzq", ")", "\n"})) {
					return
				}
			}
		})
		// Directed: URLs and licenses sharing words.
		c.Each("inside and adjacent", c.N(2500, 50000), func(w *W) {
			u := newUnique(w.R)
			url := genURL(w.R)
			uw := ref.Split("http://"+url, nil)
			var words []string
			for _, x := range uw {
				words = append(words, x.S)
			}
			a := []string{u.word(nil), u.word(nil)}
			z := []string{u.word(nil), u.word(nil)}
			k := 1 + w.R.IntN(len(words)-1)
			lres := []string{
				lits(append(append(append([]string{}, a...), words...), z...)...), // around the URL
				lits(append(append([]string{}, words[k:]...), z...)...),           // begins inside
				lits(append(append([]string{}, a...), words[:k]...)...),           // ends inside
				lits(append(append([]string{}, words...), z...)...),               // begins with it
				lits(append(append([]string{}, a...), words...)...),               // ends with it
				fmt.Sprintf("%s __%d__ %s", lits(a...), len(words)+2, lits(z...)), // wildcard over it
				lits(a...), // just before
				lits(z...), // just behind
				fmt.Sprintf("%s\n((%s))??\n%s", lits(a...), lits(words...), lits(z...)), // optional
			}
			list := []lc.License{{ID: "U", URL: url, Type: lc.Notice}, {ID: "L", LRE: pick(w.R, lres), Type: lc.ShareServer}}
			if w.R.IntN(2) == 0 {
				list = append(list, lc.License{ID: "M", LRE: pick(w.R, lres)})
			}
			set, err := refSet(list)
			if err != nil {
				return
			}
			x := &World{List: list, Set: set}
			if !x.scanner(w) {
				return
			}
			for j := 0; j < 6; j++ {
				pre := pick(w.R, []string{"", lits(a...) + " ", "zqzq ", "copyright zqzq ", "copyright 2001 " + lits(foreignN(w.R, w.R.IntN(60))...) + " "})
				post := pick(w.R, []string{"", " " + lits(z...), " zqzq", " zqzq " + lits(z...), "\n" + lits(a...), " copyright " + lits(z...)})
				t := pre + spellURL(w.R, url) + post
				if j < 2 {
					t = pre + pick(w.R, []string{"http://", "https://"}) + url + post
				}
				if !judge(w, x, t) {
					return
				}
				want := x.Set.Scan([]byte(t))
				if want.Trace.URLBlocked > 0 {
					w.Inc("URLs running into licenses", 1)
				}
				if want.Trace.URLWords == 0 && strings.Contains(strings.ToLower(t), "http") && len(want.Matches) > 0 {
					w.Inc("URLs inside licenses", 1)
				}
			}
		})
		fuzzModel(c, "URL worlds", c.N(5000, 200000), urlWorld(), aURL|aType, nil)
		c.Each("URL soup", c.N(6000, 200000), func(w *W) {
			var s strings.Builder
			toks := []string{"http", "https", "HTTP", "://", ":", "/", "//", ".org", ".com", ".net", "a", "b.c", "x-y_z", "?", "#", "=", "1", ".", " ", "\n", "ſ", "\u212a", "é", "\xff", "creativecommons.org", "licenses", "by", "3.0", "us", "legalcode", "LEGALCODE", "opensource.org", "mit", "MIT", "www.", "@", ":80", "%20", "&amp;", "<", ">", "(c)"}
			x := b
			for n := 1 + w.R.IntN(20); n > 0; n-- {
				switch w.R.IntN(4) {
				case 0:
					s.WriteString(spellURL(w.R, pick(w.R, ents).URL))
				case 1:
					s.WriteString(badURL(w.R, pick(w.R, ents).URL))
				default:
					s.WriteString(pick(w.R, toks))
				}
			}
			judge(w, x, s.String())
		})
		_ = rand.IntN
	}})
}
