package main

import (
	"fmt"
	"math/rand/v2"

	"vh/ref"

	lc "github.com/google/licensecheck"
)

// expandAll lists all instances of a tree: every alternative, every optional
// part present or absent, every wildcard with 0..N foreign words (for large N:
// 0, 1, 3, 4, N-1 and N).
func expandAll(r *rand.Rand, n *ref.Node, limit int) [][]string {
	one := func(a, b [][]string) [][]string {
		var out [][]string
		for _, x := range a {
			for _, y := range b {
				if len(out) >= limit {
					return out
				}
				out = append(out, append(append([]string(nil), x...), y...))
			}
		}
		return out
	}
	switch n.Op {
	case ref.Words:
		return [][]string{n.W}
	case ref.Concat:
		out := [][]string{nil}
		for _, x := range n.Sub {
			out = one(out, expandAll(r, x, limit))
		}
		return out
	case ref.Alt:
		var out [][]string
		for _, x := range n.Sub {
			out = append(out, expandAll(r, x, limit)...)
		}
		return out
	case ref.Quest:
		return append([][]string{nil}, expandAll(r, n.Sub[0], limit)...)
	case ref.Wild:
		var out [][]string
		for k := 0; k <= n.N; k++ {
			if n.N > 6 && k != 0 && k != 1 && k != 3 && k != 4 && k < n.N-1 {
				continue
			}
			out = append(out, foreignN(r, k))
		}
		return out
	}
	return [][]string{nil}
}

// uniqueTree makes a random tree whose words are all different.
func uniqueTree(r *rand.Rand, u *uniqueWords, items, depth, wild int) *ref.Node {
	cfg := &TreeCfg{Word: u.word, Items: items, Depth: depth, PGroup: 0.45, PWild: 0.2, WildMax: wild, SafeWild: true, Head: 2}
	if r.IntN(2) == 0 {
		cfg.Tail = 1
	}
	for {
		if t := genTree(r, cfg); wildProduct(t) <= 3000 {
			return t
		}
	}
}

// wildProduct bounds the number of ways in which the wildcards of a pattern
// can be in progress together. The DFA grows with it, so patterns with a large
// value take forever to compile; they are kept out of the workloads.
func wildProduct(n *ref.Node) int {
	p := 1
	if n.Op == ref.Wild {
		p = n.N + 1
	}
	for _, x := range n.Sub {
		if p *= wildProduct(x); p > 1<<20 {
			return 1 << 20
		}
	}
	return p
}

// expectWords checks that scanning text gives exactly the license matches want
// (in terms of words).
func (w *W) expectWords(kind string, x *World, text []byte, want []WM) bool {
	got := x.S.Scan(text)
	g := inWords(ref.Split(string(text), nil), got.Match)
	w.Note(true, string(text))
	w.Inc("instances scanned", len(want))
	if !sameWM(g, want) {
		v := Violation{Kind: kind, Message: fmt.Sprintf("matches differ in a text of %d bytes", len(text)), Want: showWM(want), Got: showWM(g), TextB64: b64(text), Licenses: shortList(x.List)}
		if len(text) < 4000 {
			v.Text = string(text)
		}
		w.Fail(v)
		return false
	}
	return true
}

// compose puts instances together with foreign words in between and returns
// the text and the expected matches.
func compose(r *rand.Rand, ids []string, insts [][]string, gap func() int, seps []string) ([]byte, []WM) {
	var ws []string
	var want []WM
	ws = append(ws, foreignN(r, gap())...)
	for i, in := range insts {
		want = append(want, WM{ID: ids[i], A: len(ws), B: len(ws) + len(in)})
		ws = append(ws, in...)
		ws = append(ws, foreignN(r, gap())...)
	}
	return []byte(join(r, ws, seps)), want
}

func init() {
	register(&Check{ID: "C08", Needs: []string{"instances scanned", "exhaustive shapes", "large sets", "huge sets", "long patterns", "wide and far places", "wide beginnings", "deep patterns", "wildcards filled to N"}, Run: func(c *Ctx) {
		c.Rule("instances generated from the syntax tree of the pattern (all derivations of small trees, random derivations of large ones) must be reported over exactly their words; patterns use words that occur once, so nothing competes. Single-license small-vocabulary worlds are compared with the model as well. Non-trivial: every instance")
		gaps := func(r *rand.Rand) func() int { return func() int { return r.IntN(4) } }
		// All small shapes, all derivations.
		type mk func(u *uniqueWords) *ref.Node
		lit := func(n int) mk {
			return func(u *uniqueWords) *ref.Node {
				x := &ref.Node{Op: ref.Words}
				for i := 0; i < n; i++ {
					x.W = append(x.W, u.word(nil))
				}
				return x
			}
		}
		cat := func(ms ...mk) mk {
			return func(u *uniqueWords) *ref.Node {
				x := &ref.Node{Op: ref.Concat}
				for _, m := range ms {
					x.Sub = append(x.Sub, m(u))
				}
				return x
			}
		}
		alt := func(ms ...mk) mk {
			return func(u *uniqueWords) *ref.Node {
				x := &ref.Node{Op: ref.Alt}
				for _, m := range ms {
					x.Sub = append(x.Sub, m(u))
				}
				return x
			}
		}
		opt := func(m mk) mk {
			return func(u *uniqueWords) *ref.Node { return &ref.Node{Op: ref.Quest, Sub: []*ref.Node{m(u)}} }
		}
		wild := func(n int) mk {
			return func(u *uniqueWords) *ref.Node { return &ref.Node{Op: ref.Wild, N: n} }
		}
		empty := func(u *uniqueWords) *ref.Node { return &ref.Node{Op: ref.Empty} }
		atoms := []mk{
			lit(1), lit(3),
			cat(wild(1), lit(1)), cat(wild(3), lit(2)), cat(wild(4), lit(1)), cat(wild(5), lit(2)), cat(wild(8), lit(4)),
			alt(lit(1), lit(1)), alt(lit(2), lit(1), lit(3)), alt(lit(1), empty), alt(empty, lit(2)),
			opt(lit(1)), opt(lit(2)), opt(cat(wild(5), lit(1))), opt(alt(lit(1), lit(2))),
			alt(cat(lit(1), opt(lit(1))), lit(1)), opt(cat(opt(lit(1)), lit(1), opt(lit(1)))),
			alt(cat(wild(2), lit(1)), cat(wild(6), lit(2))), alt(opt(lit(1)), lit(1)), cat(opt(lit(1)), opt(lit(1))),
			alt(alt(lit(1), lit(1)), cat(lit(1), alt(lit(1), lit(1)))),
			cat(opt(lit(1)), opt(empty)), cat(opt(empty), opt(lit(2))), opt(cat(opt(lit(1)), opt(empty))), alt(empty, empty), opt(opt(lit(1))),
			opt(alt(empty, lit(1))), cat(opt(opt(empty)), lit(1)),
		}
		k := len(atoms)
		c.Each("all small shapes", k*k*(1+c.N(3, k)), func(w *W) {
			u := newUnique(w.R)
			i := w.Case
			parts := []mk{lit(2), atoms[i%k], atoms[i/k%k]}
			if third := i / k / k; third > 0 {
				if c.Thorough() {
					parts = append(parts, atoms[third-1])
				} else {
					parts = append(parts, pick(w.R, atoms))
				}
			}
			if w.R.IntN(2) == 0 {
				parts = append(parts, lit(1))
			}
			tree := cat(parts...)(u)
			for j := len(tree.Sub) - 1; j > 0; j-- {
				if j+1 < len(tree.Sub) && hasWild(tree.Sub[j]) {
					tree.Sub = append(tree.Sub[:j+1], append([]*ref.Node{lit(1)(u)}, tree.Sub[j+1:]...)...)
				}
			}
			x := w.mkSet([]lc.License{{ID: "L", LRE: printTree(w.R, tree, &Layout{Seps: patSeps, Comm: true})}})
			if x == nil {
				return
			}
			w.Inc("exhaustive shapes", 1)
			all := expandAll(w.R, tree, c.N(80, 400))
			for j := 0; j < len(all); {
				var ids []string
				var insts [][]string
				for n := 1 + w.R.IntN(4); n > 0 && j < len(all); n, j = n-1, j+1 {
					ids, insts = append(ids, "L"), append(insts, all[j])
				}
				g := gaps(w.R)
				t, want := compose(w.R, ids, insts, func() int { return 12 + g() }, safeSeps)
				if !w.expectWords("instance not reported in full", x, t, want) {
					return
				}
			}
		})
		// Random sets of random trees.
		c.Each("random sets", c.N(2500, 100000), func(w *W) {
			u := newUnique(w.R)
			var list []lc.License
			var trees []*ref.Node
			for n := 1 + w.R.IntN(8); n > 0; n-- {
				t := uniqueTree(w.R, u, 2+w.R.IntN(6), w.R.IntN(5), 1+w.R.IntN(30))
				lre := printTree(w.R, t, &Layout{Seps: patSeps, Comm: w.R.IntN(2) == 0})
				if _, err := refSet([]lc.License{{LRE: lre}}); err != nil {
					continue
				}
				trees = append(trees, t)
				list = append(list, lc.License{ID: fmt.Sprintf("L%d", len(list)), LRE: lre})
			}
			if len(list) == 0 {
				return
			}
			x := w.mkSet(list)
			if x == nil {
				return
			}
			w.Inc("license sets", 1)
			w.Sample("random sets", clipList(list))
			for n := 0; n < 6; n++ {
				var ids []string
				var insts [][]string
				for m := 1 + w.R.IntN(5); m > 0; m-- {
					i := w.R.IntN(len(trees))
					ids = append(ids, list[i].ID)
					insts = append(insts, derive(w.R, trees[i], fillMarked(w)))
				}
				g := gaps(w.R)
				t, want := compose(w.R, ids, insts, func() int { return 31 + g() }, safeSeps)
				w.expectWords("instance not reported in full", x, t, want)
			}
		})
		// Adjacent instances without anything between: nothing optional at the
		// ends, and no wildcards, which could reach into the next instance.
		c.Each("adjacent instances", c.N(800, 20000), func(w *W) {
			u := newUnique(w.R)
			var list []lc.License
			var trees []*ref.Node
			for n := 2 + w.R.IntN(4); n > 0; n-- {
				cfg := &TreeCfg{Word: u.word, Items: 4, Depth: 2, PGroup: 0.4, Head: 2, Tail: 1}
				t := genTree(w.R, cfg)
				trees = append(trees, t)
				list = append(list, lc.License{ID: fmt.Sprintf("L%d", len(list)), LRE: printTree(w.R, t, &Layout{Seps: patSeps})})
			}
			x := w.mkSet(list)
			if x == nil {
				return
			}
			for n := 0; n < 5; n++ {
				var ids []string
				var insts [][]string
				for m := 1 + w.R.IntN(12); m > 0; m-- {
					i := w.R.IntN(len(trees))
					ids = append(ids, list[i].ID)
					insts = append(insts, derive(w.R, trees[i], fillMarked(w)))
				}
				t, want := compose(w.R, ids, insts, func() int { return 0 }, safeSeps)
				w.expectWords("instance not reported in full", x, t, want)
			}
		})
		// Large sets.
		c.Each("large sets", c.N(4, 24), func(w *W) {
			u := newUnique(w.R)
			n := []int{300, 1000, 2000, 4000}[w.Case%4]
			var list []lc.License
			var trees []*ref.Node
			for i := 0; i < n; i++ {
				cfg := &TreeCfg{Word: u.word, Items: 3, Depth: 1, PGroup: 0.3, PWild: 0.1, WildMax: 5, SafeWild: true, Head: 2, Tail: 1}
				t := genTree(w.R, cfg)
				trees = append(trees, t)
				list = append(list, lc.License{ID: fmt.Sprintf("L%d", i), LRE: printTree(w.R, t, &Layout{Seps: plainSeps})})
			}
			x := w.mkSet(list)
			if x == nil {
				return
			}
			w.Inc("large sets", 1)
			w.Inc("licenses in large sets", n)
			var ids []string
			var insts [][]string
			for _, i := range w.R.Perm(n) {
				ids = append(ids, list[i].ID)
				insts = append(insts, derive(w.R, trees[i], fillMarked(w)))
			}
			t, want := compose(w.R, ids, insts, func() int { return 6 }, safeSeps)
			w.expectWords("instance not reported in full", x, t, want)
			for k := 0; k < 40; k++ {
				i := w.R.IntN(n)
				t, want := compose(w.R, ids[i:i+1], insts[i:i+1], func() int { return 1 }, plainSeps)
				w.expectWords("instance not reported in full", x, t, want)
			}
		})
		// Sets whose patterns have up to millions of words together: every
		// position in the program must be told apart. The patterns begin with
		// words of their own and go on in a small vocabulary.
		c.Serial("huge sets", c.N(4, 8), func(w *W) {
			u := newUnique(w.R)
			size := []int{40, 300, 600, 20, 130, 1200, 2400, 100}[w.Case]
			each := []int{2000, 2000, 2000, 12000, 20000, 2000, 2000, 9000}[w.Case]
			nvoc := []int{3000, 3000, 3000, 200000, 3000, 3000, 3000, 900000}[w.Case]
			var voc []string
			for i := 0; i < nvoc; i++ {
				voc = append(voc, u.word(nil))
			}
			var list []lc.License
			var pats [][]string
			for i := 0; i < size; i++ {
				p := []string{u.word(nil), u.word(nil)}
				for k := each + w.R.IntN(50); k > 0; k-- {
					p = append(p, pick(w.R, voc))
				}
				pats = append(pats, p)
				list = append(list, lc.License{ID: fmt.Sprintf("L%d", i), LRE: lits(p...)})
			}
			s, err := lc.NewScanner(list)
			if err != nil || s == nil {
				w.FailText("valid set rejected", nil, nil, "%d patterns of %d words: %v", size, each, err)
				return
			}
			x := &World{S: s, List: list}
			w.Inc("huge sets", 1)
			w.Inc("words in huge sets", size*each)
			for _, k := range []int{0, size / 2, size - 1, w.R.IntN(size), w.R.IntN(size), w.R.IntN(size)} {
				// The instance after a near miss: its first half, a word of
				// the vocabulary too few.
				near := pats[k][:len(pats[k])/2]
				t, want := compose(w.R, []string{list[k].ID}, pats[k:k+1], func() int { return 1 }, plainSeps)
				if w.R.IntN(2) == 0 {
					pre := lits(near...) + " zqzqzvvz "
					for i := range want {
						want[i].A += len(near) + 1
						want[i].B += len(near) + 1
					}
					t = append([]byte(pre), t...)
				}
				if !w.expectWords("instance not reported in full", x, t, want) {
					return
				}
				// One word changed: no longer an instance.
				bad := append([]string(nil), pats[k]...)
				bad[len(bad)-1-w.R.IntN(10)] = "zqzqzvvz"
				if !w.expectWords("damaged instance reported", x, []byte(lits(bad...)+" zvvz"), nil) {
					return
				}
			}
		})
		// A large set whose patterns share a long beginning.
		c.Each("shared beginnings", c.N(40, 800), func(w *W) {
			u := newUnique(w.R)
			var head []string
			for i := 2 + w.R.IntN(30); i > 0; i-- {
				head = append(head, u.word(nil))
			}
			var list []lc.License
			var tails [][]string
			n := 2 + w.R.IntN(120)
			for i := 0; i < n; i++ {
				k := 2 + w.R.IntN(len(head)-1)
				ws := append(append([]string(nil), head[:k]...), u.word(nil))
				for j := w.R.IntN(6); j > 0; j-- {
					ws = append(ws, u.word(nil))
				}
				tails = append(tails, ws)
				list = append(list, lc.License{ID: fmt.Sprintf("L%d", i), LRE: lits(ws...)})
			}
			x := w.mkSet(list)
			if x == nil {
				return
			}
			var ids []string
			var insts [][]string
			for _, i := range w.R.Perm(n) {
				ids, insts = append(ids, list[i].ID), append(insts, tails[i])
			}
			t, want := compose(w.R, ids, insts, func() int { return w.R.IntN(2) }, safeSeps)
			w.expectWords("instance not reported in full", x, t, want)
		})
		// Long patterns.
		c.Each("long patterns", c.N(12, 100), func(w *W) {
			u := newUnique(w.R)
			n := []int{500, 3000, 9000, 40000}[w.Case%4]
			tree := &ref.Node{Op: ref.Concat, Sub: []*ref.Node{lit(2)(u)}}
			for k := 2; k < n; {
				m := 1 + w.R.IntN(40)
				tree.Sub = append(tree.Sub, lit(m)(u))
				k += m
				if w.R.IntN(3) == 0 {
					tree.Sub = append(tree.Sub, pick(w.R, atoms[2:])(u), lit(1)(u))
				}
			}
			x := w.mkSet([]lc.License{{ID: "short", LRE: lits(u.word(nil), u.word(nil))}, {ID: "L", LRE: printTree(w.R, tree, &Layout{Seps: plainSeps})}})
			if x == nil {
				return
			}
			w.Inc("long patterns", 1)
			for k := 0; k < 3; k++ {
				t, want := compose(w.R, []string{"L"}, [][]string{derive(w.R, tree, fillMarked(w))}, func() int { return w.R.IntN(3) }, safeSeps)
				w.expectWords("instance not reported in full", x, t, want)
			}
		})
		// Patterns that can begin in many ways: wide alternations of one or two
		// words, several of them in a row, chains of optional words.
		c.Each("wide beginnings", c.N(80, 1000), func(w *W) {
			u := newUnique(w.R)
			wide := func(n int) *ref.Node {
				x := &ref.Node{Op: ref.Alt}
				for i := 0; i < n; i++ {
					x.Sub = append(x.Sub, lit(1+w.R.IntN(3)*w.R.IntN(2))(u))
				}
				return x
			}
			tree := &ref.Node{Op: ref.Concat}
			ways := 0
			switch w.Case % 4 {
			case 0:
				ways = []int{20, 70, 140, 270, 520, 1100}[w.R.IntN(6)]
				tree.Sub = append(tree.Sub, wide(ways))
			case 1:
				n, m := 2+w.R.IntN(40), 2+w.R.IntN(40)
				ways = n * m
				tree.Sub = append(tree.Sub, wide(n), wide(m))
			case 2:
				ways = 5 + w.R.IntN(60)
				for i := 0; i < ways; i++ {
					tree.Sub = append(tree.Sub, &ref.Node{Op: ref.Quest, Sub: []*ref.Node{lit(1)(u)}})
				}
			default:
				x, y := wide(3+w.R.IntN(30)), wide(3+w.R.IntN(30))
				ways = (1 + len(x.Sub)) * len(y.Sub)
				tree.Sub = append(tree.Sub, &ref.Node{Op: ref.Quest, Sub: []*ref.Node{x}}, y)
			}
			tree.Sub = append(tree.Sub, lit(2)(u))
			other := []lc.License{{ID: "other", LRE: lits(u.word(nil), u.word(nil))}}
			x := w.mkSet(append(other, lc.License{ID: "L", LRE: printTree(w.R, tree, &Layout{Seps: plainSeps})}))
			if x == nil {
				return
			}
			w.Inc("wide beginnings", 1)
			w.Inc("ways to begin", ways)
			all := expandAll(w.R, tree, 3000)
			if w.Case%4 == 2 {
				all = nil
				for i := 0; i < 400; i++ {
					var in []string
					k, n := w.R.IntN(ways), 1+w.R.IntN(4)
					for j, sub := range tree.Sub[:ways] {
						if j == k || w.R.IntN(ways) < n {
							in = append(in, sub.Sub[0].W...)
						}
					}
					all = append(all, append(in, tree.Sub[ways].W...))
				}
			}
			for len(all) > 0 {
				n := 1 + w.R.IntN(60)
				if n > len(all) {
					n = len(all)
				}
				var ids []string
				for range all[:n] {
					ids = append(ids, "L")
				}
				t, want := compose(w.R, ids, all[:n], func() int { return 1 + w.R.IntN(3) }, safeSeps)
				if !w.expectWords("instance not reported in full", x, t, want) {
					return
				}
				all = all[n:]
			}
		})
		// Alternatives tens of thousands of words long, and places where tens of
		// thousands of words can follow.
		c.Serial("wide and far", c.N(4, 16), func(w *W) {
			u := newUnique(w.R)
			n := []int{5000, 20000, 33000, 70000}[w.Case%4] + w.R.IntN(100)
			list := []lc.License{{ID: "other", LRE: lits(u.word(nil), u.word(nil))}}
			tree := &ref.Node{Op: ref.Concat, Sub: []*ref.Node{lit(2)(u)}}
			far := alt(lit(2), lit(n), lit(1), cat(lit(n/2), opt(lit(n)), lit(1)))(u)
			wide := &ref.Node{Op: ref.Alt}
			for i := 0; i < n; i++ {
				wide.Sub = append(wide.Sub, lit(1+i%700/699)(u))
			}
			tree.Sub = append(tree.Sub, far, lit(1)(u), wide, lit(1)(u), opt(lit(n))(u), lit(1)(u))
			list = append(list, lc.License{ID: "L", LRE: printTree(w.R, tree, &Layout{Seps: plainSeps})})
			s, err := lc.NewScanner(list)
			if err != nil || s == nil {
				w.FailText("valid set rejected", nil, nil, "alternatives of %d words: %v", n, err)
				return
			}
			x := &World{S: s, List: list}
			w.Inc("wide and far places", 1)
			for k := 0; k < 60; k++ {
				t, want := compose(w.R, []string{"L"}, [][]string{derive(w.R, tree, fillMarked(w))}, func() int { return w.R.IntN(3) }, safeSeps)
				if !w.expectWords("instance not reported in full", x, t, want) {
					return
				}
			}
			var ids []string
			var insts [][]string
			for k := 0; k < 300; k++ { // short ways through
				ids = append(ids, "L")
				in := append(append([]string{}, tree.Sub[0].W...), far.Sub[k%2*2].W...)
				in = append(append(in, tree.Sub[2].W...), pick(w.R, wide.Sub).W...)
				insts = append(insts, append(append(in, tree.Sub[4].W...), tree.Sub[6].W...))
			}
			t, want := compose(w.R, ids, insts, func() int { return w.R.IntN(3) }, safeSeps)
			w.expectWords("instance not reported in full", x, t, want)
		})
		// Deep nesting, many optional parts in a row, many alternatives.
		c.Each("deep patterns", c.N(60, 1500), func(w *W) {
			u := newUnique(w.R)
			var tree *ref.Node
			switch w.Case % 3 {
			case 0: // nested
				tree = lit(1)(u)
				for d := 2 + w.R.IntN(c.N(25, 60)); d > 0; d-- {
					switch w.R.IntN(3) {
					case 0:
						tree = &ref.Node{Op: ref.Quest, Sub: []*ref.Node{cat(lit(1))(u)}}
						tree = &ref.Node{Op: ref.Concat, Sub: []*ref.Node{lit(1)(u), tree, lit(1)(u)}}
					case 1:
						tree = &ref.Node{Op: ref.Alt, Sub: []*ref.Node{lit(1)(u), {Op: ref.Concat, Sub: []*ref.Node{tree, lit(1)(u)}}}}
					case 2:
						tree = &ref.Node{Op: ref.Quest, Sub: []*ref.Node{{Op: ref.Concat, Sub: []*ref.Node{lit(1)(u), tree}}}}
					}
				}
			case 1: // row of optional parts
				tree = &ref.Node{Op: ref.Concat}
				for d := 2 + w.R.IntN(40); d > 0; d-- {
					tree.Sub = append(tree.Sub, opt(lit(1+w.R.IntN(2)))(u))
				}
			case 2: // many alternatives
				tree = &ref.Node{Op: ref.Alt}
				for d := 2 + w.R.IntN(300); d > 0; d-- {
					tree.Sub = append(tree.Sub, lit(1+w.R.IntN(3))(u))
				}
			}
			tree = &ref.Node{Op: ref.Concat, Sub: []*ref.Node{lit(2)(u), tree, lit(1)(u)}}
			x := w.mkSet([]lc.License{{ID: "L", LRE: printTree(w.R, tree, &Layout{Seps: plainSeps})}})
			if x == nil {
				return
			}
			w.Inc("deep patterns", 1)
			for k := 0; k < 30; k++ {
				t, want := compose(w.R, []string{"L"}, [][]string{derive(w.R, tree, fillMarked(w))}, func() int { return w.R.IntN(3) }, safeSeps)
				w.expectWords("instance not reported in full", x, t, want)
			}
		})
		// One license over a small vocabulary (repeated words): the model says
		// which instances count.
		for _, k := range profileOrder {
			p := modelProfiles()[k]
			p.NLic, p.PURLOnly, p.Related, p.Bytes = [2]int{1, 1}, 0, 0, 0
			p.Seps = safeSeps
			p.Weights = [nPieceKinds]int{8, 0, 0, 3, 1, 0, 0, 1}
			fuzzModel(c, "one license "+k, c.N(2000, 80000), p, 0, func(w *W, x *World, t []byte, got lc.Coverage, want *ref.Result) {
				if want.Trace.Ambiguous > 0 {
					return
				}
				g := inWords(want.Words, got.Match)
				have := map[WM]bool{}
				for _, m := range g {
					have[WM{ID: m.ID, URL: m.URL, B: m.B}] = true
				}
				for _, m := range want.Matches {
					if !m.IsURL && !have[WM{ID: m.ID, B: m.W1}] {
						w.FailText("instance not reported in full", x.List, t, "words [%d:%d] are an instance; got %s", m.Core, m.W1, showWM(g))
						return
					}
				}
			})
		}
	}})
}

// fillMarked fills wildcards with foreign words, often with exactly N of them.
func fillMarked(w *W) func(int) []string {
	return func(k int) []string {
		n := 0
		switch w.R.IntN(4) {
		case 0, 1:
			n = k
		case 2:
			n = w.R.IntN(k + 1)
		}
		if n == k {
			w.Inc("wildcards filled to N", 1)
		}
		return foreignN(w.R, n)
	}
}
