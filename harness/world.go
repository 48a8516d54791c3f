package main

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"

	"vh/ref"

	lc "github.com/google/licensecheck"
)

// Pieces of which a random text is made.
const (
	pInst   = iota // exact instance of a pattern
	pMut           // instance with 1-3 word-level changes
	pPart          // prefix or suffix of an instance
	pFill          // words in no pattern
	pCopy          // copyright notice
	pURL           // license URL in some spelling
	pBadURL        // almost a license URL
	pSoup          // random vocabulary words
	nPieceKinds
)

// A Profile describes a family of random worlds (license set + texts).
type Profile struct {
	Voc      func(r *rand.Rand) string
	NLic     [2]int
	Tree     TreeCfg
	Related  float64 // chance that a license is derived from an earlier one
	PURL     float64 // chance that an entry has a URL
	PURLOnly float64 // chance that an entry has only a URL
	Weights  [nPieceKinds]int
	Pieces   int
	Seps     []string
	Bytes    int // byte-level mutations, at most
	Texts    int // texts per set
	Types    bool
	DupIDs   bool
	DupURLs  bool
	PatCase  bool
	Comments bool
}

func mixVoc(parts ...[]string) func(r *rand.Rand) string {
	return func(r *rand.Rand) string { return pick(r, pick(r, parts)) }
}

func defaultProfile() Profile {
	return Profile{
		Voc:      mixVoc(vocShort),
		NLic:     [2]int{1, 6},
		Tree:     TreeCfg{Items: 5, Depth: 2, PGroup: 0.3, PWild: 0.15, WildMax: 8, Head: 2, Tail: 1},
		Related:  0.5,
		PURL:     0.2,
		PURLOnly: 0.1,
		Weights:  [nPieceKinds]int{5, 4, 2, 3, 2, 1, 1, 2},
		Pieces:   6,
		Seps:     safeSeps,
		Texts:    6,
		Types:    true,
		Comments: true,
	}
}

// A World is a license set with the syntax trees behind its patterns.
type World struct {
	Prof  *Profile
	List  []lc.License
	Trees []*ref.Node // of the entries with patterns; W holds surface words
	URLs  []string
	Set   *ref.Set
	S     *lc.Scanner
}

func (p *Profile) relative(r *rand.Rand, t *ref.Node) *ref.Node {
	items := []*ref.Node{t}
	if t.Op == ref.Concat {
		items = append([]*ref.Node(nil), t.Sub...)
	}
	cfg := p.Tree
	cfg.Word = p.Voc
	switch r.IntN(6) {
	case 0: // extension
		items = append(items, words(r, &cfg, 1+r.IntN(3)))
	case 1: // shorter
		if len(items) > 1 {
			items = items[:len(items)-1]
		}
	case 2: // one part replaced
		if len(items) > 1 {
			items[1+r.IntN(len(items)-1)] = words(r, &cfg, 1+r.IntN(3))
		}
	case 3: // same language
	case 4: // starts with the end of the other
		d := derive(r, t, func(int) []string { return nil })
		if len(d) > 2 {
			k := 1 + r.IntN(2)
			items = []*ref.Node{{Op: ref.Words, W: append([]string(nil), d[len(d)-k:]...)}, words(r, &cfg, 1+r.IntN(3))}
		}
	case 5: // inside an optional part of the other
		d := derive(r, t, func(int) []string { return nil })
		if len(d) > 3 {
			i := r.IntN(len(d) - 2)
			j := i + 2 + r.IntN(len(d)-i-2)
			items = []*ref.Node{{Op: ref.Words, W: append([]string(nil), d[i:j]...)}}
		}
	}
	return concat(items)
}

// newWorld makes a random world with a usable license set.
func newWorld(r *rand.Rand, p *Profile) *World {
	for {
		w := &World{Prof: p}
		n := p.NLic[0] + r.IntN(p.NLic[1]-p.NLic[0]+1)
		cfg := p.Tree
		cfg.Word = p.Voc
		ways := 1
		for i := 0; i < n; i++ {
			l := lc.License{ID: fmt.Sprintf("L%d", i)}
			if p.DupIDs && r.IntN(3) == 0 && i > 0 {
				l.ID = fmt.Sprintf("L%d", r.IntN(i))
			}
			if p.Types && r.IntN(2) == 0 {
				l.Type = lc.Type(r.IntN(256)) &^ 1
			}
			urlOnly := chance(r, p.PURLOnly)
			if urlOnly || chance(r, p.PURL) {
				l.URL = genURL(r)
				if p.DupURLs && len(w.URLs) > 0 && r.IntN(2) == 0 {
					l.URL = pick(r, w.URLs)
				}
				for _, u := range w.URLs {
					if u == l.URL && !p.DupURLs {
						l.URL = fmt.Sprintf("%s/u%d", l.URL, i)
					}
				}
				w.URLs = append(w.URLs, l.URL)
			}
			if !urlOnly {
				var t *ref.Node
				if len(w.Trees) > 0 && chance(r, p.Related) {
					t = p.relative(r, pick(r, w.Trees))
				} else {
					t = genTree(r, &cfg)
				}
				lay := &Layout{Seps: plainSeps, Case: p.PatCase, Comm: p.Comments}
				if r.IntN(2) == 0 {
					lay.Seps = patSeps
				}
				lre := printTree(r, t, lay)
				if ways *= wildProduct(t); ways > 20000 {
					break // the DFA would take long to build
				}
				if _, err := refSet([]lc.License{{ID: "x", LRE: lre}}); err != nil {
					continue
				}
				l.LRE = lre
				w.Trees = append(w.Trees, t)
			}
			w.List = append(w.List, l)
		}
		set, err := refSet(w.List)
		if err != nil {
			continue
		}
		w.Set = set
		return w
	}
}

// scanner builds the real scanner; a failure is a violation.
func (x *World) scanner(w *W) bool {
	s, err := lc.NewScanner(x.List)
	if err != nil || s == nil {
		w.FailText("valid license set rejected", x.List, nil, "NewScanner: %v", err)
		return false
	}
	x.S = s
	return true
}

var notices = []string{"Copyright 2020 Zqzq Inc", "(c) 2019", "Copyright (C) qxqx", "© 1996-2001 vzvz", "&copy; zvvz", "copyright copyright", "COPYRIGHT © (c) 2020 jwjw", "All rights qxqx Copyright"}

// piece returns the words of one random piece of text.
func (x *World) piece(r *rand.Rand, kind int) []string {
	p := x.Prof
	inst := func() []string {
		fill := fillForeign(r)
		if r.IntN(4) == 0 {
			fill = func(k int) []string {
				n := r.IntN(min(k, 20) + 3)
				var out []string
				for i := 0; i < n; i++ {
					out = append(out, p.Voc(r))
				}
				return out
			}
		}
		if len(x.Trees) == 0 {
			return foreignN(r, 2)
		}
		return derive(r, pick(r, x.Trees), fill)
	}
	switch kind {
	case pInst:
		return inst()
	case pMut:
		ws := inst()
		for i := 1 + r.IntN(3); i > 0; i-- {
			ws = mutateWords(r, ws, p.Voc)
		}
		return ws
	case pPart:
		ws := inst()
		if len(ws) > 1 {
			k := 1 + r.IntN(len(ws)-1)
			if r.IntN(2) == 0 {
				return ws[:k]
			}
			return ws[k:]
		}
		return ws
	case pFill:
		n := r.IntN(8)
		if r.IntN(8) == 0 {
			n = 40 + r.IntN(25)
		}
		return foreignN(r, n)
	case pCopy:
		return strings.Fields(pick(r, notices))
	case pURL:
		if len(x.URLs) > 0 {
			return []string{spellURL(r, pick(r, x.URLs))}
		}
		return []string{spellURL(r, genURL(r))}
	case pBadURL:
		if len(x.URLs) > 0 {
			return []string{badURL(r, pick(r, x.URLs))}
		}
		return []string{badURL(r, genURL(r))}
	}
	var out []string
	for i := r.IntN(5); i >= 0; i-- {
		out = append(out, p.Voc(r))
	}
	return out
}

// text makes a random text over the world.
func (x *World) text(r *rand.Rand) []byte {
	p := x.Prof
	total := 0
	for _, k := range p.Weights {
		total += k
	}
	var b strings.Builder
	if r.IntN(3) == 0 {
		b.WriteString(pick(r, p.Seps))
	}
	seps := p.Seps
	if r.IntN(3) == 0 {
		seps = []string{" ", " ", "\n"}
	}
	for n := 1 + r.IntN(p.Pieces); n > 0; n-- {
		k := r.IntN(total)
		kind := 0
		for k >= p.Weights[kind] {
			k -= p.Weights[kind]
			kind++
		}
		ws := x.piece(r, kind)
		b.WriteString(join(r, ws, seps))
		if r.IntN(12) != 0 {
			b.WriteString(pick(r, seps))
		}
	}
	t := []byte(b.String())
	if p.Bytes > 0 && r.IntN(2) == 0 {
		t = mutateBytes(r, t, 1+r.IntN(p.Bytes))
	}
	return t
}

// Aspects of a Coverage that a check compares with the model.
type Aspect int

const (
	aIDs     Aspect = 1 << iota // sequence of (license, IsURL)
	aCore                       // word range of license matches
	aStart                      // start offset of license matches
	aEnd                        // end offset of license matches
	aURL                        // URL matches: which, where
	aPercent                    // Percent
	aType                       // Type and ID come from the same entry
	aAll     = aIDs | aCore | aStart | aEnd | aURL | aPercent | aType
)

// wordRange maps a byte range to the words inside it.
func wordRange(ws []ref.Word, lo, hi int) (a, b int) {
	a = sort.Search(len(ws), func(i int) bool { return ws[i].Lo >= lo })
	b = sort.Search(len(ws), func(i int) bool { return ws[i].Hi > hi })
	if a >= b {
		return -1, -1
	}
	return a, b
}

func show(m []lc.Match, pct float64) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%v%%", pct)
	for i, x := range m {
		if i == 12 {
			fmt.Fprintf(&b, " … (%d matches)", len(m))
			break
		}
		u := ""
		if x.IsURL {
			u = " URL"
		}
		fmt.Fprintf(&b, " %s/%v[%d:%d]%s", x.ID, x.Type, x.Start, x.End, u)
	}
	return b.String()
}

func showRef(r *ref.Result) string { return show(asMatches(r), r.Percent) }

func asMatches(r *ref.Result) []lc.Match {
	var out []lc.Match
	for _, m := range r.Matches {
		out = append(out, lc.Match{ID: m.ID, Type: lc.Type(m.Type), Start: m.Start, End: m.End, IsURL: m.IsURL})
	}
	return out
}

// differs compares got with the model in the given aspects and returns a
// description of the first difference.
func differs(got lc.Coverage, want *ref.Result, asp Aspect) string {
	g, m := got.Match, want.Matches
	same := len(g) == len(m)
	for i := 0; same && i < len(g); i++ {
		same = g[i].ID == m[i].ID && g[i].IsURL == m[i].IsURL
	}
	if asp&aIDs != 0 && !same {
		return "different sequence of matches"
	}
	if asp&aURL != 0 {
		var a []lc.Match
		for _, x := range g {
			if x.IsURL {
				a = append(a, x)
			}
		}
		k := 0
		for _, y := range m {
			if !y.IsURL {
				continue
			}
			if k >= len(a) {
				return "URL match missing"
			}
			if a[k].ID != y.ID || a[k].Start != y.Start || a[k].End != y.End {
				return fmt.Sprintf("URL match %d differs", k)
			}
			k++
		}
		if k < len(a) {
			return "unexpected URL match"
		}
	}
	if same {
		for i := range g {
			if g[i].IsURL {
				continue
			}
			if asp&aStart != 0 && g[i].Start != m[i].Start {
				return fmt.Sprintf("match %d starts at %d, want %d", i, g[i].Start, m[i].Start)
			}
			if asp&aEnd != 0 && g[i].End != m[i].End {
				return fmt.Sprintf("match %d ends at %d, want %d", i, g[i].End, m[i].End)
			}
			if asp&aCore != 0 && (g[i].Start != m[i].Start || g[i].End != m[i].End) {
				a, b := wordRange(want.Words, g[i].Start, g[i].End)
				if a != m[i].W0 || b != m[i].W1 {
					return fmt.Sprintf("match %d covers words [%d:%d], want [%d:%d]", i, a, b, m[i].W0, m[i].W1)
				}
			}
		}
		if asp&aType != 0 {
			for i := range g {
				if uint(g[i].Type) != m[i].Type {
					return fmt.Sprintf("match %d has Type %v, want %v", i, g[i].Type, lc.Type(m[i].Type))
				}
			}
		}
	}
	if asp&aPercent != 0 {
		if d := got.Percent - want.Percent; d > 1e-9 || d < -1e-9 || d != d {
			return fmt.Sprintf("Percent %v, want %v (%d of %d words)", got.Percent, want.Percent, want.Covered, len(want.Words))
		}
	}
	return ""
}

// tally adds what the model saw in a scan to the counters.
func (w *W) tally(r *ref.Result) {
	w.Inc("words", len(r.Words))
	t := &r.Trace
	w.Inc("starts tried", t.Tries)
	w.Inc("starts given up", t.Failed)
	w.Inc("misspelled words", t.Misspell)
	w.Inc("joined words", t.Join)
	w.Inc("split words", t.SplitWord)
	w.Inc("c/copyright", t.CCopyright)
	w.Inc("wildcard words", t.WildWords)
	w.Inc("cuts applied", t.CutHit)
	w.Inc("ties", t.Ties)
	w.Inc("copyright lead-ins", t.Lead)
	w.Inc("URL words", t.URLWords)
	w.Inc("unknown URLs", t.URLUnknown)
	w.Inc("ambiguous corrections", t.Ambiguous)
	for _, m := range r.Matches {
		if m.IsURL {
			w.Inc("URL matches", 1)
		} else {
			w.Inc("license matches", 1)
		}
	}
	s := &r.Split
	w.Inc("markup skipped", s.Tags+s.Entities+s.Anchors+s.Links)
	w.Inc("canonical rewrites", s.Rewrites+s.Plurals)
	w.Inc("copyright signs", s.CopySigns)
	w.Inc("merged copyrights", s.MergedCopyright)
}

// checkText scans one text and compares with the model. It returns the
// coverage and the model's result.
func (w *W) checkText(x *World, text []byte, asp Aspect) (lc.Coverage, *ref.Result) {
	got := x.S.Scan(text)
	want := x.Set.Scan(text)
	w.tally(want)
	nontrivial := want.Trace.Tries > 0 || want.Trace.URLWords > 0
	w.Note(nontrivial, x.List[0].LRE, string(text))
	if want.Trace.Ambiguous > 0 {
		// Several different spelling corrections were possible; the choice
		// among them is not specified.
		return got, want
	}
	if d := differs(got, want, asp); d != "" {
		w.Ctx.failModel(w, x.List, text, d, got, want)
	}
	return got, want
}

func (c *Ctx) failModel(w *W, list []lc.License, text []byte, d string, got lc.Coverage, want *ref.Result) {
	v := Violation{Kind: "differs from specification", Message: d, Want: showRef(want), Got: show(got.Match, got.Percent)}
	v.TextB64 = b64(text)
	if len(text) < 4000 {
		v.Text = string(text)
	}
	if len(list) < 50 {
		v.Licenses = list
	}
	w.Fail(v)
}

// fuzzModel runs n random worlds against the model.
func fuzzModel(c *Ctx, label string, n int, prof Profile, asp Aspect, extra func(w *W, x *World, text []byte, got lc.Coverage, want *ref.Result)) {
	c.Each(label, n, func(w *W) {
		x := newWorld(w.R, &prof)
		if !x.scanner(w) {
			return
		}
		w.Inc("license sets", 1)
		for i := 0; i < prof.Texts; i++ {
			t := x.text(w.R)
			if i == 0 {
				w.Sample(label, map[string]any{"licenses": clipList(x.List), "text": clip(string(t), 300)})
			}
			got, want := w.checkText(x, t, asp)
			if extra != nil {
				extra(w, x, t, got, want)
			}
		}
	})
}

func clipList(list []lc.License) []string {
	var out []string
	for i, l := range list {
		if i == 4 {
			out = append(out, "…")
			break
		}
		s := l.ID + ": " + clip(l.LRE, 120)
		if l.URL != "" {
			s += " <" + l.URL + ">"
		}
		out = append(out, s)
	}
	return out
}
