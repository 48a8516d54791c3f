package main

import (
	"fmt"

	"vh/ref"

	lc "github.com/google/licensecheck"
)

// alone scans the bytes of every match by themselves: each must come out as
// that one match, over all of the bytes.
func alone(w *W, list []lc.License, s *lc.Scanner, t []byte, got lc.Coverage, words []ref.Word, ambiguous bool) {
	if len(got.Match) > 0 {
		w.Inc("texts with matches", 1)
	}
	for i, m := range got.Match {
		if m.Start < 0 || m.End > len(t) || m.Start >= m.End {
			w.FailText("match out of bounds", list, t, "match %d is [%d:%d] of %d bytes", i, m.Start, m.End, len(t))
			return
		}
		part := t[m.Start:m.End:m.End]
		a, b := wordRange(words, m.Start, m.End)
		// A line of a license may begin or end inside an HTML tag with line
		// breaks, whose rest then is no markup any more; and a license can
		// end in the middle of a word fused with the next one.
		if pw := ref.Split(string(part), nil); len(pw) != b-a {
			w.Inc("markup cut by a line", 1)
			continue
		}
		one := s.Scan(part)
		w.Inc("matches scanned alone", 1)
		if m.IsURL {
			w.Inc("URL matches scanned alone", 1)
		} else if len(got.Match) > 1 {
			w.Inc("license matches taken out of several", 1)
		}
		w.Note(len(part) < len(t), string(part), list[0].LRE)
		ok := len(one.Match) == 1 && one.Percent == 100
		if ok {
			x := one.Match[0]
			ok = x.ID == m.ID && x.Type == m.Type && x.IsURL == m.IsURL && x.Start == 0 && x.End == len(part)
		}
		if !ok && !m.IsURL && b < len(words) {
			// The license may end inside the next word, which is then read
			// as its last word fused with another; the match goes up to that.
			// One of that word's beginnings then completes the license.
			inside := false
			for k := words[b].Lo + 1; k < words[b].Hi && !inside; k++ {
				ext := t[m.Start:k:k]
				more := s.Scan(ext)
				inside = len(more.Match) == 1 && more.Match[0].ID == m.ID && !more.Match[0].IsURL && more.Match[0].Start == 0 && more.Match[0].End == len(ext)
			}
			if inside {
				w.Inc("licenses ending inside a word", 1)
				continue
			}
		}
		if !ok {
			w.FailText("match does not stand alone", list, t, "match %d %s of %s: scanned alone, %q gives %s", i, show([]lc.Match{m}, got.Percent), show(got.Match, got.Percent), clip(string(part), 600), show(one.Match, one.Percent))
			return
		}
		// Again, in front of other text and behind it.
		if w.R.IntN(4) == 0 {
			n0, n1 := w.R.IntN(4), 1+w.R.IntN(4)
			switch w.R.IntN(10) {
			case 0:
				n0, n1 = w.R.IntN(600), 20+w.R.IntN(600)
				w.Inc("matches among hundreds of foreign words", 1)
			case 1:
				n0, n1 = (b-a)*10, (b-a)*12
				if n0 > 5000 {
					n0, n1 = w.R.IntN(10), 5000
				}
				w.Inc("matches that are a small share of the text", 1)
			}
			pre, post := join(w.R, foreignN(w.R, n0), plainSeps), join(w.R, foreignN(w.R, n1), plainSeps)
			txt := []byte(pre + "\n\n" + string(part) + "\n\n" + post)
			more := s.Scan(txt)
			ok := len(more.Match) == 1 && more.Match[0].ID == m.ID && more.Match[0].IsURL == m.IsURL
			if ok {
				x := more.Match[0]
				p0 := len(ref.Split(pre, nil))
				x0, x1 := wordRange(ref.Split(string(txt), nil), x.Start, x.End)
				ok = x0 == p0 && x1 == p0+b-a
			}
			w.Inc("matches among foreign words", 1)
			if !ok && !ambiguous && wildEnd(list) {
				w.Inc("patterns that end in a wildcard", 1)
				continue
			}
			if !ok && !ambiguous {
				w.FailText("match does not stand alone", list, txt, "match %d %s of %s: among other words it gives %s", i, show([]lc.Match{m}, got.Percent), fmt.Sprintf("%q", clip(string(t), 600)), show(more.Match, more.Percent))
				return
			}
		}
	}
}

// wildEnd reports whether a pattern of the list can end in a wildcard, which
// may then swallow words behind a match.
func wildEnd(list []lc.License) bool {
	var empty, end func(n *ref.Node) bool
	any := func(ns []*ref.Node, f func(*ref.Node) bool) bool {
		for _, n := range ns {
			if f(n) {
				return true
			}
		}
		return false
	}
	empty = func(n *ref.Node) bool {
		switch n.Op {
		case ref.Words:
			return len(n.W) == 0
		case ref.Alt:
			return any(n.Sub, empty)
		case ref.Concat:
			return !any(n.Sub, func(n *ref.Node) bool { return !empty(n) })
		}
		return true
	}
	end = func(n *ref.Node) bool {
		switch n.Op {
		case ref.Wild:
			return true
		case ref.Concat:
			for i := len(n.Sub) - 1; i >= 0; i-- {
				if end(n.Sub[i]) {
					return true
				}
				if !empty(n.Sub[i]) {
					return false
				}
			}
			return false
		}
		return any(n.Sub, end)
	}
	for _, l := range list {
		if l.LRE == "" {
			continue
		}
		if n, err := ref.Parse(l.LRE); err == nil && end(n) {
			return true
		}
	}
	return false
}

func init() {
	register(&Check{ID: "C35", Needs: []string{"texts with matches", "matches scanned alone", "URL matches scanned alone", "license matches taken out of several", "matches among foreign words", "instances damaged at an edge", "matches among hundreds of foreign words", "matches that are a small share of the text"}, Run: func(c *Ctx) {
		c.Rule("texts as for C03 (built-in licenses and random sets; packed, damaged, with markup and broken bytes) are scanned; the bytes of every reported match are scanned again, alone and among foreign words: the same license (or URL), once, over all of them, 100 percent. Non-trivial: the match is not the whole text")
		b := builtin(c)
		if b == nil {
			return
		}
		cp := corpus()
		for _, k := range profileOrder {
			fuzzModel(c, k, c.N(3000, 100000), modelProfiles()[k], 0, func(w *W, x *World, t []byte, got lc.Coverage, want *ref.Result) {
				alone(w, x.List, x.S, t, got, want.Words, want.Trace.Ambiguous > 0)
			})
		}
		c.Each("built-in", c.N(500, 20000), func(w *W) {
			t := b.builtinMix(w, cp)
			got := b.S.Scan(t)
			alone(w, b.List, b.S, t, got, ref.Split(string(t), nil), false)
		})
		// Damage next to the edges of a license.
		c.Each("edges", c.N(2500, 60000), func(w *W) {
			var t []byte
			for n := 1 + w.R.IntN(2); n > 0; n-- {
				ws := derive(w.R, pick(w.R, b.Trees), fillForeign(w.R))
				for k := 1 + w.R.IntN(2); k > 0 && len(ws) > 8; k-- {
					i := w.R.IntN(6)
					if w.R.IntN(3) > 0 {
						i = len(ws) - 1 - i
					}
					switch w.R.IntN(3) {
					case 0:
						ws = append(append(append([]string{}, ws[:i]...), foreignN(w.R, 1)...), ws[i+1:]...)
					case 1:
						ws = append(append([]string{}, ws[:i]...), ws[i+1:]...)
					case 2:
						ws = append(append(append([]string{}, ws[:i]...), foreignN(w.R, 1)...), ws[i:]...)
					}
				}
				t = append(t, join(w.R, foreignN(w.R, w.R.IntN(4)), plainSeps)...)
				t = append(t, '\n')
				t = append(t, join(w.R, ws, plainSeps)...)
				t = append(t, '\n')
				t = append(t, join(w.R, foreignN(w.R, w.R.IntN(4)), plainSeps)...)
				w.Inc("instances damaged at an edge", 1)
			}
			alone(w, b.List, b.S, t, b.S.Scan(t), ref.Split(string(t), nil), false)
		})
		c.Each("corpus", c.N(1, 1)*len(cp), func(w *W) {
			t := cp[w.Case]
			alone(w, b.List, b.S, t, b.S.Scan(t), ref.Split(string(t), nil), false)
		})
	}})
}
