package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	lc "github.com/google/licensecheck"
)

// Addresses that name a license otherwise than by its ID.
var spelledOtherwise = map[string]string{
	"creativecommons.org/publicdomain/zero/1.0":                            "CC0-1.0",
	"opensource.org/licenses/bsdpluspatent":                                "BSD-2-Clause-Patent",
	"opensource.org/licenses/opl-2.1":                                      "OSET-PL-2.1",
	"opensource.org/licenses/upl":                                          "UPL-1.0",
	"opensource.org/licenses/nosl3.0":                                      "NPOSL-3.0",
	"apache.org/licenses/license-2.0":                                      "Apache-2.0",
	"gnu.org/licenses/agpl.txt":                                            "AGPL-3.0",
	"gnu.org/prep/maintain/html_node/license-notices-for-other-files.html": "FSFAP",
}

var ccRE = regexp.MustCompile(`^creativecommons\.org/licenses/([a-z]+(?:-[a-z]+)*)/([0-9]+(?:\.[0-9]+)*)$`)

// ccID is the ID of the Creative Commons license with the elements and version.
func ccID(elems, version string) string {
	order := "by nc nd sa devnations sampling plus"
	es := strings.Split(elems, "-")
	sort.SliceStable(es, func(i, j int) bool { return strings.Index(order, es[i]) < strings.Index(order, es[j]) })
	return "CC-" + strings.ToUpper(strings.Join(es, "-")) + "-" + version
}

// spelledID says which license an address names by itself, if that is known.
func spelledID(url string, ids map[string]string) (string, bool) {
	url = strings.TrimPrefix(url, "www.")
	if id, ok := spelledOtherwise[url]; ok {
		return id, true
	}
	if m := ccRE.FindStringSubmatch(url); m != nil {
		return ccID(m[1], m[2]), true
	}
	last := url[strings.LastIndex(url, "/")+1:]
	for _, suf := range []string{".txt", ".html", "-standalone"} {
		last = strings.TrimSuffix(last, suf)
	}
	if strings.HasPrefix(last, "fdl-") {
		last = "g" + last
	}
	id, ok := ids[last]
	return id, ok
}

var canonicalURL = regexp.MustCompile(`^[-a-z0-9_.]+\.(org|com)(/[-a-z0-9_.#?=]+)+$`)

func init() {
	register(&Check{ID: "C39", Needs: []string{"addresses", "addresses that spell an ID", "addresses scanned", "CC addresses tried", "CC addresses known", "reported as spelled"}, Run: func(c *Ctx) {
		c.Rule("every address of BuiltinLicenses in every documented spelling and several surroundings through the package-level Scan: one IsURL match with the ID that the address itself spells (elements and version of a Creative Commons license; the last element where it is an ID in lower case; eight others by a table), and the Type of the pattern with that ID. All combinations of Creative Commons elements, versions and jurisdictions: reported, if at all, as what they spell. No address stands for two licenses. Non-trivial: each address and spelling")
		list := lc.BuiltinLicenses()
		ids := map[string]string{}
		types := map[string]lc.Type{}
		urls := map[string]string{}
		var all []lc.License
		for _, l := range list {
			if l.LRE != "" {
				ids[strings.ToLower(l.ID)] = l.ID
				types[l.ID] = l.Type
			}
		}
		for _, l := range list {
			if l.URL != "" {
				all = append(all, l)
			}
		}
		c.Serial("table", 1, func(w *W) {
			if len(all) < 100 {
				w.Fail(Violation{Kind: "addresses missing", Message: fmt.Sprintf("only %d addresses", len(all))})
			}
			for _, l := range all {
				w.Inc("addresses", 1)
				w.Note(true, l.URL)
				if !canonicalURL.MatchString(l.URL) || strings.HasSuffix(l.URL, "/legalcode") {
					w.Fail(Violation{Kind: "address not in canonical form", Message: fmt.Sprintf("%q of %s: no text is recognised as this", l.URL, l.ID)})
				}
				if id, ok := urls[l.URL]; ok && id != l.ID {
					w.Fail(Violation{Kind: "address of two licenses", Message: fmt.Sprintf("%q: %s and %s", l.URL, id, l.ID)})
				}
				urls[l.URL] = l.ID
				if want, ok := spelledID(l.URL, ids); ok {
					w.Inc("addresses that spell an ID", 1)
					if want != l.ID {
						w.Fail(Violation{Kind: "address of another license", Message: fmt.Sprintf("%q is listed as %s, but is that of %s", l.URL, l.ID, want)})
					}
				}
				if t, ok := types[l.ID]; !ok || t != l.Type {
					w.Fail(Violation{Kind: "address without its license", Message: fmt.Sprintf("%q is listed as %s, %v; pattern with that ID: %v, %v", l.URL, l.ID, l.Type, ok, t)})
				}
			}
		})
		scan := func(w *W, t string) (lc.Coverage, bool) {
			cov := lc.Scan([]byte(t))
			w.Inc("addresses scanned", 1)
			w.Note(true, t)
			return cov, len(cov.Match) == 1 && cov.Match[0].IsURL
		}
		c.Each("spellings", len(all), func(w *W) {
			l := all[w.Case]
			want, ok := spelledID(l.URL, ids)
			if !ok {
				want = l.ID
			}
			for _, scheme := range []string{"http://", "https://", "HTTP://", "Https://"} {
				for _, suf := range []string{"", "/", "/legalcode", "/legalcode/", "/us", "/us/", "/deed.en", "/us/legalcode", "/deed.en?ref=x", "/a_b-c#top", "/us?x=1/", "/" + urlSeg(w.R)} {
					for k, around := range [][2]string{{"", ""}, {"See <", "> for it.\n"}, {"(", ")"}, {lits(foreignN(w.R, 3)...) + "\n", "\n" + foreign(w.R)}} {
						s := scheme + l.URL + suf
						if k == 3 {
							s = recase(w.R, s)
						}
						// An extra element may make another listed address.
						if urls[strings.TrimSuffix(strings.TrimSuffix(l.URL+suf, "/"), "/legalcode")] != "" && suf != "" && suf != "/" && !strings.HasPrefix(suf, "/legalcode") {
							continue
						}
						t := around[0] + s + around[1]
						cov, ok := scan(w, t)
						if !ok || cov.Match[0].ID != want || cov.Match[0].Type != types[want] || t[cov.Match[0].Start:cov.Match[0].End] != s {
							w.FailText("listed address not reported as its license", nil, []byte(t), "%s: want %s over %q, got %s", l.URL, want, s, show(cov.Match, cov.Percent))
							return
						}
						w.Inc("reported as spelled", 1)
					}
				}
			}
		})
		elems := []string{"by", "by-nc", "by-nd", "by-sa", "by-nc-nd", "by-nd-nc", "by-nc-sa", "by-sa-nc", "nc", "nd", "sa", "nc-sa", "nd-nc", "by-nd-sa", "sampling", "devnations", "by-nc-by"}
		versions := []string{"1.0", "2.0", "2.1", "2.5", "3.0", "4.0", "5.0", "0.9", "1", "2", "10.0", "3.01", "4.0.1"}
		c.Each("Creative Commons", len(elems)*len(versions), func(w *W) {
			e, v := elems[w.Case%len(elems)], versions[w.Case/len(elems)]
			for _, suf := range []string{"", "/", "/us", "/us/legalcode", "/legalcode", "/legalcode/", "/de/", "/igo", "/1.0", "/4.0"} {
				t := pick(w.R, []string{"http", "https"}) + "://creativecommons.org/licenses/" + e + "/" + v + suf
				if w.R.IntN(3) == 0 {
					t = recase(w.R, t)
				}
				cov, ok := scan(w, t)
				w.Inc("CC addresses tried", 1)
				known := urls["creativecommons.org/licenses/"+e+"/"+v] != ""
				switch {
				case known:
					w.Inc("CC addresses known", 1)
					if !ok || cov.Match[0].ID != ccID(e, v) {
						w.FailText("listed address not reported as its license", nil, []byte(t), "want %s, got %s", ccID(e, v), show(cov.Match, cov.Percent))
						return
					}
				case len(cov.Match) > 0:
					w.FailText("unknown address reported", nil, []byte(t), "got %s", show(cov.Match, cov.Percent))
					return
				}
			}
		})
	}})
}
