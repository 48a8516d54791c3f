package ref

import (
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Op is the kind of a pattern node.
type Op int

const (
	Empty Op = iota
	Words
	Concat
	Alt
	Wild
	Quest
)

// A Node is a parsed pattern.
type Node struct {
	Op  Op
	Sub []*Node
	W   []string
	N   int
}

// ErrSyntax is wrapped by all errors of Parse.
var ErrSyntax = errors.New("syntax error")

func serr(off int, what string) error { return fmt.Errorf("%w at %d: %s", ErrSyntax, off, what) }

func blankBefore(s string, i int) int {
	for i > 0 && (s[i-1] == ' ' || s[i-1] == '\t') {
		i--
	}
	return i
}

func blankAfter(s string, i int, cut string) string { return strings.TrimLeft(s[i:], cut) }

// A seq is a sequence under construction; alts are the finished alternatives
// of the same group.
type seq struct {
	items []*Node
	alts  []*Node
}

func (q *seq) finish() *Node {
	switch len(q.items) {
	case 0:
		return &Node{Op: Empty}
	case 1:
		return q.items[0]
	}
	n := &Node{Op: Concat}
	for _, x := range q.items {
		if x.Op == Concat {
			n.Sub = append(n.Sub, x.Sub...)
		} else {
			n.Sub = append(n.Sub, x)
		}
	}
	return n
}

func (q *seq) close() *Node {
	all := append(append([]*Node(nil), q.alts...), q.finish())
	if len(all) == 1 {
		return all[0]
	}
	n := &Node{Op: Alt}
	for _, x := range all {
		if x.Op == Alt {
			n.Sub = append(n.Sub, x.Sub...)
		} else {
			n.Sub = append(n.Sub, x)
		}
	}
	return n
}

// Parse parses a license regular expression in the documented syntax.
func Parse(s string) (*Node, error) {
	stack := []*seq{{}}
	top := func() *seq { return stack[len(stack)-1] }
	from := 0
	text := func(upto int) {
		ws := Split(s[from:upto], nil)
		if len(ws) == 0 {
			return
		}
		q := top()
		if len(q.items) == 0 || q.items[len(q.items)-1].Op != Words {
			q.items = append(q.items, &Node{Op: Words})
		}
		n := q.items[len(q.items)-1]
		for _, w := range ws {
			n.W = append(n.W, w.S)
		}
	}
	for i := 0; i < len(s); {
		rest := s[i:]
		switch {
		case strings.HasPrefix(rest, "(("):
			if j := blankBefore(s, i); j > 0 && s[j-1] != '\n' {
				return nil, serr(i, "(( not at beginning of line")
			}
			text(i)
			stack = append(stack, &seq{})
			i += 2
			from = i
		case strings.HasPrefix(rest, "||"):
			if len(stack) == 1 {
				return nil, serr(i, "|| outside group")
			}
			text(i)
			q := top()
			q.alts = append(q.alts, q.finish())
			q.items = nil
			i += 2
			from = i
		case strings.HasPrefix(rest, "))"):
			if r := blankAfter(s, i+2, " \t\r"); r != "" && r[0] != '\n' && !strings.HasPrefix(r, "??") {
				return nil, serr(i, ")) not at end of line")
			}
			text(i)
			if len(stack) == 1 {
				return nil, serr(i, "unexpected ))")
			}
			n := top().close()
			stack = stack[:len(stack)-1]
			top().items = append(top().items, n)
			i += 2
			from = i
		case strings.HasPrefix(rest, "??"):
			j := blankBefore(s, i)
			if j < 2 || s[j-2:j] != "))" {
				return nil, serr(i, "?? not after ))")
			}
			if r := blankAfter(s, i+2, " \t\r"); r != "" && r[0] != '\n' {
				return nil, serr(i, "?? not at end of line")
			}
			q := top()
			if len(q.items) == 0 {
				return nil, serr(i, "nothing to make optional")
			}
			last := len(q.items) - 1
			if q.items[last].Op != Quest {
				q.items[last] = &Node{Op: Quest, Sub: []*Node{q.items[last]}}
			}
			i += 2
			from = i
		case strings.HasPrefix(rest, "__"):
			j := 2
			for j < len(rest) && digit(rest[j]) {
				j++
			}
			if j == 2 || !strings.HasPrefix(rest[j:], "__") {
				i++
				continue
			}
			n, err := strconv.ParseInt(rest[2:j], 10, 32)
			if err != nil {
				return nil, serr(i, "bad wildcard count")
			}
			text(i)
			top().items = append(top().items, &Node{Op: Wild, N: int(n)})
			i += j + 2
			from = i
		case strings.HasPrefix(rest, "//**"):
			j := strings.Index(rest[4:], "**//")
			if j < 0 {
				return nil, serr(i, "unterminated comment")
			}
			text(i)
			i += 4 + j + 4
			from = i
		default:
			i++
		}
	}
	text(len(s))
	if len(stack) != 1 {
		return nil, serr(len(s), "missing ))")
	}
	return top().close(), nil
}

// A lead is one or two leading words; "" stands for absent, "*" for a
// wildcard word.
type lead [2]string

const anyWord = "*"

func (n *Node) leads() []lead {
	var out []lead
	seen := map[lead]bool{}
	add := func(l lead) {
		if !seen[l] {
			seen[l] = true
			out = append(out, l)
		}
	}
	switch n.Op {
	case Empty:
		add(lead{})
	case Wild:
		add(lead{})
		add(lead{anyWord})
		add(lead{anyWord, anyWord})
	case Words:
		var l lead
		copy(l[:], n.W)
		add(l)
	case Quest:
		for _, l := range n.Sub[0].leads() {
			add(l)
		}
		add(lead{})
	case Alt:
		for _, x := range n.Sub {
			for _, l := range x.leads() {
				add(l)
			}
		}
	case Concat:
		cur := []lead{{}}
		for _, x := range n.Sub {
			open := false
			for _, l := range cur {
				open = open || l[1] == ""
			}
			if !open {
				break
			}
			var next []lead
			have := map[lead]bool{}
			for _, l := range cur {
				if l[1] != "" {
					if !have[l] {
						have[l] = true
						next = append(next, l)
					}
					continue
				}
				for _, y := range x.leads() {
					z := y
					if l[0] != "" {
						z = lead{l[0], y[0]}
					}
					if !have[z] {
						have[z] = true
						next = append(next, z)
					}
				}
			}
			cur = next
		}
		for _, l := range cur {
			add(l)
		}
	}
	return out
}

func (n *Node) nullable() bool {
	switch n.Op {
	case Words:
		return len(n.W) == 0
	case Alt:
		for _, x := range n.Sub {
			if x.nullable() {
				return true
			}
		}
		return false
	case Concat:
		for _, x := range n.Sub {
			if !x.nullable() {
				return false
			}
		}
	}
	return true
}

// instruction kinds of the NFA.
type iop int

const (
	iWord iop = iota
	iAny
	iSplit // to pc+1 and to
	iJump  // to
	iCut   // to = start of wildcard block
	iMatch
)

type inst struct {
	op iop
	w  string
	to int
}

type cut struct{ start, left int }

type builder struct {
	p    []inst
	cuts []cut
	end  bool
	err  error
}

func (b *builder) flush() {
	for _, c := range b.cuts {
		b.p = append(b.p, inst{op: iCut, to: c.start})
	}
	b.cuts = nil
}

func joinCuts(x, y []cut) []cut {
	if len(x) == 0 {
		return y
	}
	if len(y) == 0 {
		return x
	}
	best := map[int]int{}
	for _, c := range append(append([]cut(nil), x...), y...) {
		if c.left > best[c.start] {
			best[c.start] = c.left
		}
	}
	var out []cut
	for s, l := range best {
		out = append(out, cut{s, l})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].start < out[j].start })
	return out
}

// gen appends the instructions for n. A wildcard of more than three words is
// cut off (its remaining alternatives dropped) once three literal words behind
// it have been read, or at the next wildcard or the end of the pattern.
func (b *builder) gen(n *Node) {
	switch n.Op {
	case Words:
		for _, w := range n.W {
			b.p = append(b.p, inst{op: iWord, w: w})
			var keep []cut
			for _, c := range b.cuts {
				if c.left--; c.left == 0 {
					b.p = append(b.p, inst{op: iCut, to: c.start})
				} else {
					keep = append(keep, c)
				}
			}
			b.cuts = keep
		}
		if b.end {
			b.flush()
		}
	case Concat:
		last := len(n.Sub)
		if b.end {
			for last > 0 && n.Sub[last-1].nullable() {
				last--
			}
		}
		for i, x := range n.Sub {
			b.end = i >= last
			b.gen(x)
		}
	case Quest:
		at := len(b.p)
		b.p = append(b.p, inst{op: iSplit})
		before, end := b.cuts, b.end
		b.gen(n.Sub[0])
		if end {
			b.flush()
		}
		b.cuts = joinCuts(before, b.cuts)
		b.p[at].to = len(b.p)
	case Alt:
		before, end := b.cuts, b.end
		var after []cut
		var jumps []int
		for i, x := range n.Sub {
			at := -1
			if i < len(n.Sub)-1 {
				at = len(b.p)
				b.p = append(b.p, inst{op: iSplit})
			}
			b.cuts, b.end = append([]cut(nil), before...), end
			b.gen(x)
			after = joinCuts(after, b.cuts)
			if at >= 0 {
				jumps = append(jumps, len(b.p))
				b.p = append(b.p, inst{op: iJump})
				b.p[at].to = len(b.p)
			}
		}
		for _, j := range jumps {
			b.p[j].to = len(b.p)
		}
		b.cuts = after
	case Wild:
		b.flush()
		if b.end && b.err == nil {
			b.err = fmt.Errorf("__%d__ wildcard with no required text following", n.N)
		}
		start := len(b.p)
		end := start + 2*n.N
		for i := 0; i < n.N; i++ {
			b.p = append(b.p, inst{op: iSplit, to: end}, inst{op: iAny})
		}
		if n.N > 3 {
			b.cuts = []cut{{start, 3}}
		}
	}
}

// A License mirrors licensecheck.License.
type License struct {
	ID   string
	Type uint
	LRE  string
	URL  string
}

type pattern struct {
	lic   int // index in Set.Licenses
	tree  *Node
	prog  []inst
	heads []lead
}

// A Set is a license set ready to scan with.
type Set struct {
	Licenses []License
	pats     []pattern
	start    map[lead][]int // leading phrase -> indexes in pats
	ids      map[string]int // words of the patterns, in order of first use
	urls     map[string]int // URL -> index in Licenses
}

// ErrDegenerate is wrapped by the errors for sets that cannot be scanned with.
var ErrDegenerate = errors.New("unusable license set")

// NewSet builds a Set or says why the list must be rejected.
func NewSet(list []License) (*Set, error) {
	s := &Set{
		Licenses: list,
		start:    map[lead][]int{},
		ids:      map[string]int{"copyright": 0, "http": 1},
		urls:     map[string]int{},
	}
	for i, l := range list {
		if l.URL != "" {
			s.urls[l.URL] = i
		}
		if l.LRE == "" {
			continue
		}
		n, err := Parse(l.LRE)
		if err != nil {
			return nil, fmt.Errorf("%s: %w", l.ID, err)
		}
		b := &builder{end: true}
		b.gen(n)
		b.flush()
		if b.err != nil {
			return nil, fmt.Errorf("%s: %w: %v", l.ID, ErrDegenerate, b.err)
		}
		b.p = append(b.p, inst{op: iMatch})
		s.pats = append(s.pats, pattern{lic: i, tree: n, prog: b.p})
		// Dictionary order: order of first appearance of the words.
		for _, w := range patWords(l.LRE) {
			if _, ok := s.ids[w]; !ok {
				s.ids[w] = len(s.ids)
			}
		}
	}
	if len(s.pats) == 0 {
		return nil, fmt.Errorf("%w: no pattern", ErrDegenerate)
	}
	for k := range s.pats {
		p := &s.pats[k]
		p.heads = p.tree.leads()
		for _, h := range p.heads {
			if h[0] == "" || h[0] == anyWord || h[1] == "" || h[1] == anyWord {
				return nil, fmt.Errorf("%s: %w: leading phrase %q", list[p.lic].ID, ErrDegenerate, h)
			}
			s.start[h] = append(s.start[h], k)
		}
	}
	return s, nil
}

// patWords lists the words of a syntactically valid pattern in the order in
// which they appear, comments left out.
func patWords(s string) []string {
	var out []string
	n, err := Parse(s)
	if err != nil {
		return nil
	}
	var walk func(*Node)
	walk = func(n *Node) {
		out = append(out, n.W...)
		for _, x := range n.Sub {
			walk(x)
		}
	}
	walk(n)
	return out
}

// Vocabulary returns all pattern words of the set.
func (s *Set) Vocabulary() map[string]bool {
	m := map[string]bool{}
	for w := range s.ids {
		m[w] = true
	}
	return m
}

// NumPatterns is the number of patterns in the set.
func (s *Set) NumPatterns() int { return len(s.pats) }

// Tree returns the syntax tree of the k-th license with a pattern.
func (s *Set) Tree(k int) (lic int, n *Node) { return s.pats[k].lic, s.pats[k].tree }
