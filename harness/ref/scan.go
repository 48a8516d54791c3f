package ref

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"
)

// A Match is one match of the model.
type Match struct {
	Lic        int // index in Set.Licenses
	ID         string
	Type       uint
	Start, End int
	IsURL      bool
	W0, W1     int // words covered, including the copyright lead-in
	Core       int // first word of the pattern instance itself
}

// Trace counts what happened in a scan.
type Trace struct {
	Misspell, Join, SplitWord, CCopyright, CutHit, WildWords int
	Tries, Failed                                            int // starting phrases tried, and given up
	Ties                                                     int // several licenses reached the reported length
	Lead                                                     int // matches extended to a copyright notice
	URLWords, URLUnknown, URLBlocked                         int
	Ambiguous                                                int // steps with several different corrections possible
}

// A Result is the outcome of a model scan.
type Result struct {
	Words   []Word
	Matches []Match
	Percent float64
	Covered int
	Split   Stats
	Trace   Trace
}

type state []int64 // pattern<<32 | pc, sorted

func (st state) key() string {
	var b strings.Builder
	for _, x := range st {
		fmt.Fprintf(&b, "%x,", x)
	}
	return b.String()
}

// close follows the empty moves from pcs of pattern k and applies cuts.
func (s *Set) close(k int, pcs []int, tr *Trace) []int {
	prog := s.pats[k].prog
	seen := map[int]bool{}
	var list, cuts []int
	var visit func(int)
	visit = func(pc int) {
		if seen[pc] {
			return
		}
		seen[pc] = true
		switch in := prog[pc]; in.op {
		case iSplit:
			visit(pc + 1)
			visit(in.to)
		case iJump:
			visit(in.to)
		case iCut:
			cuts = append(cuts, in.to)
			visit(pc + 1)
		default:
			list = append(list, pc)
		}
	}
	for _, pc := range pcs {
		visit(pc)
	}
	if len(cuts) > 0 {
		keep := list[:0]
	next:
		for _, pc := range list {
			for _, c := range cuts {
				// The wildcard block [c, to) and the instruction it leads to.
				if c <= pc && pc <= prog[c].to {
					tr.CutHit++
					continue next
				}
			}
			keep = append(keep, pc)
		}
		list = keep
	}
	sort.Ints(list)
	return list
}

// step reads word w ("" = a word in no pattern) in state st.
func (s *Set) step(st state, w string, tr *Trace) state {
	var out state
	for i := 0; i < len(st); {
		k := int(st[i] >> 32)
		var to []int
		for ; i < len(st) && int(st[i]>>32) == k; i++ {
			pc := int(st[i] & 0xffffffff)
			in := s.pats[k].prog[pc]
			if in.op == iAny || in.op == iWord && in.w == w {
				to = append(to, pc+1)
			}
		}
		if to != nil {
			for _, pc := range s.close(k, to, tr) {
				out = append(out, int64(k)<<32|int64(pc))
			}
		}
	}
	return out
}

// accept returns the first pattern accepting in st, or -1, and how many do.
func (s *Set) accept(st state) (first, n int) {
	first = -1
	for _, x := range st {
		k, pc := int(x>>32), int(x&0xffffffff)
		if s.pats[k].prog[pc].op == iMatch {
			if first < 0 {
				first = k
			}
			n++
		}
	}
	return first, n
}

// expected returns the literal words that st can read, in dictionary order,
// and whether it can read any word.
func (s *Set) expected(st state) (words []string, any bool) {
	seen := map[string]bool{}
	for _, x := range st {
		in := s.pats[x>>32].prog[x&0xffffffff]
		if in.op == iAny {
			any = true
		}
		if in.op == iWord && !seen[in.w] {
			seen[in.w] = true
			words = append(words, in.w)
		}
	}
	sort.Slice(words, func(i, j int) bool { return s.ids[words[i]] < s.ids[words[j]] })
	return words, any
}

// OneEdit reports whether a and b differ by at most one byte inserted,
// deleted or replaced.
func OneEdit(a, b string) bool {
	if len(a) > len(b) {
		a, b = b, a
	}
	if len(b)-len(a) > 1 {
		return false
	}
	i := 0
	for i < len(a) && a[i] == b[i] {
		i++
	}
	if len(a) == len(b) {
		return i == len(a) || a[i+1:] == b[i+1:]
	}
	return a[i:] == b[i+1:]
}

func cOrCopyright(want, have string) bool {
	return (want == "c" || want == "copyright") &&
		(have == "c" || have == "copyright" || have == "©" || have == "&copy;")
}

type fixup struct {
	kind string
	next state
	used int // text words consumed
	// a match that ends before the corrected word (possible for split words)
	acc int
}

// longest runs the patterns in start from word i and returns the pattern that
// matched furthest and the word after its match.
func (s *Set) longest(words []Word, i int, pats []int, tr *Trace) (pat, end int) {
	var st state
	for _, k := range pats {
		for _, pc := range s.close(k, []int{0}, tr) {
			st = append(st, int64(k)<<32|int64(pc))
		}
	}
	pat, ties := -1, 0
	first := i
	for ; i < len(words); i++ {
		if k, n := s.accept(st); k >= 0 {
			pat, end, ties = k, i, n
		}
		exp, any := s.expected(st)
		w := words[i]
		hit := false
		for _, x := range exp {
			if x == w.S {
				hit = true
			}
		}
		if hit {
			st = s.step(st, w.S, tr)
			continue
		}
		if i < first+2 {
			// Cannot happen: the first two words are literals of some pattern.
			return -1, 0
		}
		next := ""
		if i+1 < len(words) {
			next = words[i+1].Raw
		}
		var fixes []fixup
		for _, want := range exp {
			// In order of preference.
			if want == w.Raw+next {
				fixes = append(fixes, fixup{"join", s.step(st, want, tr), min(2, len(words)-i), -1})
			}
			if strings.HasPrefix(w.Raw, want) && len(w.Raw) > len(want) {
				rest := w.Raw[len(want):]
				mid := s.step(st, want, tr)
				exp2, any2 := s.expected(mid)
				ok := any2
				wrest := ""
				for _, x := range exp2 {
					if x == rest {
						ok, wrest = true, rest
					}
				}
				if ok {
					k, _ := s.accept(mid)
					fixes = append(fixes, fixup{"split", s.step(mid, wrest, tr), 1, k})
				}
			}
			if (len(want) >= 4 || len(w.Raw) >= 4) && OneEdit(want, w.Raw) {
				fixes = append(fixes, fixup{"misspell", s.step(st, want, tr), 1, -1})
			} else if cOrCopyright(want, w.Raw) {
				fixes = append(fixes, fixup{"c", s.step(st, want, tr), 1, -1})
			}
		}
		if len(fixes) == 0 {
			if !any {
				if pat >= 0 && ties > 1 {
					tr.Ties++
				}
				return pat, end
			}
			tr.WildWords++
			st = s.step(st, "", tr)
			continue
		}
		f := fixes[0]
		for _, g := range fixes[1:] {
			if g.used != f.used || g.acc != f.acc || g.next.key() != f.next.key() {
				tr.Ambiguous++
				break
			}
		}
		switch f.kind {
		case "join":
			tr.Join++
		case "split":
			tr.SplitWord++
		case "misspell":
			tr.Misspell++
		case "c":
			tr.CCopyright++
		}
		if f.acc >= 0 {
			pat, end, ties = f.acc, i, 1
		}
		st = f.next
		i += f.used - 1
	}
	if k, n := s.accept(st); k >= 0 {
		pat, end, ties = k, len(words), n
	}
	if pat >= 0 && ties > 1 {
		tr.Ties++
	}
	return pat, end
}

// LeadIn is how many words before a license are searched for a copyright notice.
const LeadIn = 50

// Scan runs the model on text.
func (s *Set) Scan(text []byte) *Result {
	r := &Result{}
	tr := &r.Trace
	r.Words = Split(string(text), &r.Split)
	words := r.Words
	type hit struct{ pat, w0, w1 int }
	var hits []hit
	for i := 0; i+1 < len(words); i++ {
		pats := s.start[lead{words[i].S, words[i+1].S}]
		if pats == nil {
			continue
		}
		tr.Tries++
		k, end := s.longest(words, i, pats, tr)
		if k < 0 {
			tr.Failed++
			continue
		}
		hits = append(hits, hit{k, i, end})
		i = end - 1
	}

	last := 0 // words before this belong to an earlier license
	urls := func(from, to int) {
		for i := from; i < to; i++ {
			if words[i].S != "http" {
				continue
			}
			tr.URLWords++
			u0 := words[i].Lo
			n := URLLen(text[u0:])
			if n == 0 {
				continue
			}
			u1 := u0 + n
			if to < len(words) && u1 > words[to].Lo {
				tr.URLBlocked++
				continue
			}
			lic, ok := s.LookupURL(string(text[u0:u1]))
			if !ok {
				tr.URLUnknown++
				continue
			}
			j := i
			for j < to && words[j].Hi <= u1 {
				j++
			}
			l := s.Licenses[lic]
			r.Matches = append(r.Matches, Match{Lic: lic, ID: l.ID, Type: l.Type, Start: u0, End: u1, IsURL: true, W0: i, W1: j, Core: i})
			r.Covered += j - i
			i = j - 1
		}
	}
	for _, h := range hits {
		w0 := h.w0
		for i := max(last, h.w0-LeadIn); i < h.w0; i++ {
			if words[i].S == "copyright" {
				w0 = i
				tr.Lead++
				break
			}
		}
		urls(last, w0)
		lic := s.pats[h.pat].lic
		l := s.Licenses[lic]
		start, end := 0, len(text)
		if w0 > 0 {
			start = words[w0].Lo
			gap := text[words[w0-1].Hi:start]
			if j := bytes.LastIndexByte(gap, '\n'); j >= 0 {
				start = words[w0-1].Hi + j + 1
			}
		}
		if h.w1 < len(words) {
			end = words[h.w1-1].Hi
			if j := bytes.IndexByte(text[end:words[h.w1].Lo], '\n'); j >= 0 {
				end += j + 1
			}
		}
		r.Matches = append(r.Matches, Match{Lic: lic, ID: l.ID, Type: l.Type, Start: start, End: end, W0: w0, W1: h.w1, Core: h.w0})
		r.Covered += h.w1 - w0
		last = h.w1
	}
	urls(last, len(words))
	if len(words) > 0 {
		r.Percent = 100 * float64(r.Covered) / float64(len(words))
	}
	return r
}

func urlRune(r rune, extra string) bool {
	return r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' ||
		r == '-' || r == '_' || r == '.' || r == 0x17F || r == 0x212A || r != utf8.RuneError && strings.ContainsRune(extra, r)
}

func urlRun(t []byte, extra string) int {
	n := 0
	for n < len(t) {
		r, w := utf8.DecodeRune(t[n:])
		if !urlRune(r, extra) {
			break
		}
		n += w
	}
	return n
}

// URLLen returns the length of the complete URL on a .org or .com host with at
// least one path element at the start of t, or 0.
func URLLen(t []byte) int {
	// scheme
	n := 0
	for n < len(t) && n < 8 && t[n] != ':' {
		n++
	}
	if n >= len(t) || t[n] != ':' {
		return 0
	}
	if sch := strings.ToLower(string(t[:n])); sch != "http" && sch != "https" && sch != "httpſ" {
		return 0
	}
	if !bytes.HasPrefix(t[n:], []byte("://")) {
		return 0
	}
	n += 3
	h := urlRun(t[n:], "")
	host := strings.ToLower(string(t[n : n+h]))
	if len(host) < 5 || !strings.HasSuffix(host, ".org") && !strings.HasSuffix(host, ".com") {
		return 0
	}
	n += h
	segs := 0
	for n < len(t) && t[n] == '/' {
		k := urlRun(t[n+1:], "#?=")
		if k == 0 {
			break
		}
		segs++
		n += 1 + k
	}
	if segs == 0 {
		return 0
	}
	if n < len(t) && t[n] == '/' {
		n++
	}
	return n
}

// LookupURL finds the license for a complete URL.
func (s *Set) LookupURL(u string) (lic int, ok bool) {
	u = strings.ToLower(u)
	u = strings.TrimPrefix(u, "http://")
	u = strings.TrimPrefix(u, "https://")
	u = strings.TrimSuffix(u, "/")
	u = strings.TrimSuffix(u, "/legalcode")
	if lic, ok = s.urls[u]; ok {
		return
	}
	if i := strings.LastIndexByte(u, '/'); i >= 0 {
		lic, ok = s.urls[u[:i]]
	}
	return
}
