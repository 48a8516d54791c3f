package ref

import "strings"

// CanAccept reports whether a license with the given ID has a pattern that
// accepts the words ws[a:b] of a text, allowing for a copyright lead-in and the
// documented tolerances. Unlike Scan it resolves every choice in favour of
// acceptance and ignores where wildcards are cut short. pats, if not nil,
// restricts the patterns tried (indexes as in Tree).
func (s *Set) CanAccept(id string, ws []Word, a, b int) bool {
	starts := []int{a}
	if a < b && ws[a].S == "copyright" {
		for i := a + 1; i < b && i <= a+LeadIn; i++ {
			starts = append(starts, i)
		}
	}
	for k := range s.pats {
		if s.Licenses[s.pats[k].lic].ID != id {
			continue
		}
		for _, c := range starts {
			if s.acceptFrom(k, ws, c, b) {
				return true
			}
		}
	}
	return false
}

// acceptFrom reports whether pattern k accepts ws[c:b].
func (s *Set) acceptFrom(k int, ws []Word, c, b int) bool {
	if b-c < 1 || c+1 >= len(ws) {
		return false
	}
	head := false
	for _, h := range s.pats[k].heads {
		if h[0] == ws[c].S && h[1] == ws[c+1].S {
			head = true
		}
	}
	if !head {
		return false
	}
	prog := s.pats[k].prog
	type set map[int]bool
	var closure func(st set, pc int)
	closure = func(st set, pc int) {
		for {
			if st[pc] {
				return
			}
			st[pc] = true
			switch in := prog[pc]; in.op {
			case iSplit:
				closure(st, in.to)
				pc++
			case iJump:
				pc = in.to
			case iCut:
				pc++
			default:
				return
			}
		}
	}
	// at[i] = states before word i; only i, i+1, i+2 are alive.
	at := map[int]set{c: {}}
	closure(at[c], 0)
	put := func(i, pc int) {
		if at[i] == nil {
			at[i] = set{}
		}
		closure(at[i], pc)
	}
	for i := c; i <= b; i++ {
		st := at[i]
		if i == b {
			for pc := range st {
				switch in := prog[pc]; {
				case in.op == iMatch:
					return true
				case in.op == iWord && i < len(ws) && i >= c+2 && strings.HasPrefix(ws[i].Raw, in.w) && len(ws[i].Raw) > len(in.w):
					// The last word of the license is fused with the word
					// behind the match.
					end := set{}
					closure(end, pc+1)
					for q := range end {
						if prog[q].op == iMatch {
							return true
						}
					}
				}
			}
			return false
		}
		w := ws[i]
		// Words made whole from two pieces, or cut out of a fused one, count
		// as one word also inside a wildcard (some other pattern may expect
		// them there).
		joins := false
		var parts []string
		if i >= c+2 {
			if i+1 < b {
				_, joins = s.ids[w.Raw+ws[i+1].Raw]
			}
			for n := 1; n < len(w.Raw); n++ {
				if _, ok := s.ids[w.Raw[:n]]; ok {
					parts = append(parts, w.Raw[:n])
				}
			}
		}
		for _, part := range parts {
			rest := w.Raw[len(part):]
			mid := set{}
			for pc := range st {
				if in := prog[pc]; in.op == iAny || in.op == iWord && in.w == part {
					closure(mid, pc+1)
				}
			}
			for q := range mid {
				if prog[q].op == iAny || prog[q].op == iWord && prog[q].w == rest {
					put(i+1, q+1)
				}
			}
		}
		for pc := range st {
			in := prog[pc]
			switch in.op {
			case iAny:
				put(i+1, pc+1)
				if joins {
					put(i+2, pc+1)
				}
			case iWord:
				if in.w == w.S {
					put(i+1, pc+1)
				}
				if i < c+2 {
					continue // the first two words must be right
				}
				if (len(in.w) >= 4 || len(w.Raw) >= 4) && OneEdit(in.w, w.Raw) || cOrCopyright(in.w, w.Raw) {
					put(i+1, pc+1)
				}
				if i+1 < b && in.w == w.Raw+ws[i+1].Raw {
					put(i+2, pc+1)
				}
				if i+1 == len(ws) && in.w == w.Raw {
					put(i+1, pc+1)
				}
			}
		}
		delete(at, i)
	}
	return false
}
