package main

import (
	"bytes"
	"context"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	lc "github.com/google/licensecheck"
)

const repo = "/repo"

// copyRepo makes a scratch copy of the part of the repository that a Go
// program in dir needs; triv puts the empty stand-in for data.gen.go in place,
// as go generate does.
func copyRepo(dst string) error {
	cp := func(from, to string) error {
		data, err := os.ReadFile(filepath.Join(repo, from))
		if err != nil {
			return err
		}
		to = filepath.Join(dst, to)
		if err := os.MkdirAll(filepath.Dir(to), 0o777); err != nil {
			return err
		}
		return os.WriteFile(to, data, 0o666)
	}
	var files []string
	for _, g := range []string{"*.go", "go.mod", "internal/*/*.go", "licenses/*.go"} {
		fs, _ := filepath.Glob(filepath.Join(repo, g))
		files = append(files, fs...)
	}
	for _, f := range files {
		rel, _ := filepath.Rel(repo, f)
		if strings.HasSuffix(f, "_test.go") || rel == "data.gen.go" {
			continue
		}
		if err := cp(rel, rel); err != nil {
			return err
		}
	}
	return cp("data.gen.go.triv", "data.gen.go")
}

// buildTool builds one "go run"-style file of the scratch copy.
func buildTool(dir, file, out string) error {
	cmd := exec.Command("go", "build", "-o", out, filepath.Base(file))
	cmd.Dir = filepath.Join(dir, filepath.Dir(file))
	if b, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("go build %s: %v\n%s", file, err, clip(string(b), 2000))
	}
	return nil
}

type runOut struct {
	out     string
	err     error
	timeout bool // got no CPU time for too long
	hang    bool // used up its CPU time
}

const toolSeconds = 20 // of CPU time, a thousand times what a run takes

// runTool runs a tool in dir, with limits on its CPU time and memory.
func runTool(dir, exe string, env []string, args ...string) runOut {
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "/bin/sh", append([]string{"-c", fmt.Sprintf(`ulimit -t %d; ulimit -d 1500000; exec "$0" "$@"`, toolSeconds), exe}, args...)...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	b, err := cmd.CombinedOutput()
	o := runOut{out: string(b), err: err, timeout: ctx.Err() != nil}
	if p := cmd.ProcessState; p != nil && err != nil && p.UserTime()+p.SystemTime() > (toolSeconds-2)*time.Second {
		o.hang, o.out = true, fmt.Sprintf("no end after %d seconds of CPU time", toolSeconds)
	}
	return o
}

// evalData reads a generated file: the entries of builtinLREs with their
// constant values, as the compiler sees them.
func evalData(src []byte) ([]lc.License, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "data.gen.go", src, 0)
	if err != nil {
		return nil, err
	}
	lic, err := parser.ParseFile(fset, "license.go", mustRead(repo+"/license.go"), 0)
	if err != nil {
		return nil, err
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
	var firstErr error
	conf := types.Config{IgnoreFuncBodies: true, Importer: nil, Error: func(e error) {
		te := e.(types.Error)
		if fset.Position(te.Pos).Filename == "data.gen.go" && firstErr == nil && !te.Soft {
			firstErr = e
		}
	}}
	conf.Check("licensecheck", fset, []*ast.File{lic, f}, info)
	if firstErr != nil {
		return nil, firstErr
	}
	var out []lc.License
	found := false
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok {
			continue
		}
		for _, s := range g.Specs {
			v, ok := s.(*ast.ValueSpec)
			if !ok || len(v.Names) != 1 || v.Names[0].Name != "builtinLREs" {
				continue
			}
			found = true
			if len(v.Values) == 0 {
				continue
			}
			list, ok := v.Values[0].(*ast.CompositeLit)
			if !ok {
				return nil, fmt.Errorf("builtinLREs is no composite literal")
			}
			for _, e := range list.Elts {
				el, ok := e.(*ast.CompositeLit)
				if !ok {
					return nil, fmt.Errorf("entry is no composite literal")
				}
				var l lc.License
				for _, kv := range el.Elts {
					kv, ok := kv.(*ast.KeyValueExpr)
					if !ok {
						return nil, fmt.Errorf("entry without keys")
					}
					val := info.Types[kv.Value].Value
					if val == nil {
						return nil, fmt.Errorf("%s has no constant value", kv.Key)
					}
					switch k := fmt.Sprint(kv.Key); k {
					case "ID":
						l.ID = constant.StringVal(val)
					case "LRE":
						l.LRE = constant.StringVal(val)
					case "URL":
						l.URL = constant.StringVal(val)
					case "Type":
						n, _ := constant.Uint64Val(val)
						l.Type = lc.Type(n)
					default:
						return nil, fmt.Errorf("unknown field %s", k)
					}
				}
				out = append(out, l)
			}
		}
	}
	if !found {
		return nil, fmt.Errorf("no builtinLREs")
	}
	return out, nil
}

func mustRead(f string) []byte {
	b, err := os.ReadFile(f)
	if err != nil {
		panic(err)
	}
	return b
}

// readOr returns the text of f, or the error in its place.
func readOr(f string) string {
	b, err := os.ReadFile(f)
	if err != nil {
		return err.Error()
	}
	return string(b)
}

// diffLists compares two license lists entry by entry.
func diffLists(got, want []lc.License) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got):
			return fmt.Sprintf("entry %d %q missing", i, want[i].ID)
		case i >= len(want):
			return fmt.Sprintf("entry %d %q is not in the directory", i, got[i].ID)
		case got[i].ID != want[i].ID:
			return fmt.Sprintf("entry %d is %q, want %q", i, got[i].ID, want[i].ID)
		case got[i].Type != want[i].Type:
			return fmt.Sprintf("%q has Type %v, want %v", got[i].ID, got[i].Type, want[i].Type)
		case got[i].LRE != want[i].LRE:
			return fmt.Sprintf("%q has text %q, want %q", got[i].ID, clip(got[i].LRE, 1500), clip(want[i].LRE, 1500))
		case got[i].URL != want[i].URL:
			return fmt.Sprintf("%q has URL %q, want %q", got[i].ID, got[i].URL, want[i].URL)
		}
	}
	return ""
}

// ---- synthetic directories: template source and expected text side by side ----

// A tnode is a piece of a template: its source, and what it expands to given
// the argument the template was called with.
type tnode struct {
	src  string
	eval func(st *tstate, arg any) string
}

type tstate struct {
	typ  lc.Type
	defs map[string][]tnode
}

func (st *tstate) run(body []tnode, arg any) string {
	var b strings.Builder
	for _, n := range body {
		b.WriteString(n.eval(st, arg))
	}
	return b.String()
}

var docTypes = strings.Fields("Unrestricted Notice ShareChanges ShareProgram ShareServer NonCommercial Discouraged")

func typeBits(s string) lc.Type {
	var t lc.Type
	for _, f := range strings.Split(s, "|") {
		switch f {
		case "Notice":
			t |= lc.Notice
		case "ShareChanges":
			t |= lc.ShareChanges
		case "ShareProgram":
			t |= lc.ShareProgram
		case "ShareServer":
			t |= lc.ShareServer
		case "NonCommercial":
			t |= lc.NonCommercial
		case "Discouraged":
			t |= lc.Discouraged
		case "Unrestricted":
			t |= lc.Unrestricted
		}
	}
	return t
}

func genText(r *rand.Rand) string {
	var b strings.Builder
	for n := 1 + r.IntN(6); n > 0; n-- {
		b.WriteString(pick(r, []string{
			"Permission is granted", "((a || b))??", "__5__", "//** note **//", "`", "``", "`code`", "` + \"`\" + `", "\"", "\\", "\\n", "\\x00", "%s %v %%", "FILES_LIST", "LRE: x,",
			"’quoted’", "© ∀x", "日本", "\t", "\n", "\n\n", "$1", "}", "{ ", "'", "*/", "/*", "//", "&copy;", "é", "\u00a0", "const license_x = `", "ID: %q",
		}))
		b.WriteString(pick(r, []string{" ", "\n", "", "\n\t"}))
	}
	return b.String()
}

func lit(s string) tnode {
	return tnode{s, func(*tstate, any) string { return s }}
}

// listArg makes the source of a list expression and its flat value.
func listArg(r *rand.Rand, depth int) (string, []any) {
	src := "list"
	var val []any
	for n := r.IntN(4); n >= 0; n-- {
		switch k := r.IntN(4); {
		case k == 0 && depth > 0:
			s, v := listArg(r, depth-1)
			src += " (" + s + ")"
			val = append(val, v...)
		case k == 1:
			i := r.IntN(100)
			src += fmt.Sprint(" ", i)
			val = append(val, i)
		default:
			s := pick(r, []string{"alpha", "b`c", "or later", "", "x\ny", "é"})
			src += fmt.Sprintf(" %q", s)
			val = append(val, s)
		}
	}
	return src, val
}

type ldir struct {
	files map[string]string
	want  []lc.License
}

func genLicDir(w *W) ldir {
	r := w.R
	// File and template names.
	used := map[string]bool{}
	name := func() string {
		for {
			var n string
			switch r.IntN(5) {
			case 0:
				n = "BSD-4-Clause" + pick(r, []string{"", "-UC", "-A", "0", "-Z", ".1", "a"})
			case 1:
				n = "GFDL-" + pick(r, []string{"1.1", "1.2", "1.3", "2.0", "1", ""}) + pick(r, []string{"", "-invariants-only", "-no-invariants-only", "-no-invariants-or-later", "-Z", "+"})
			case 2:
				n = pick(r, []string{"BSD-4", "BSD-4-Clausf", "BSD-4-Claus", "BSD", "BSD-3-Clause", "BSD-5", "GFDL", "GFDK-1", "GFDM-1", "GPL-2.0", "AGPL-1.0", "Zlib", "a", "A", "b2", "ZZ", "0BSD", "zlib-ack", "C++", "CC-BY-4.0"})
			default:
				n = pick(r, []string{"X", "Y", "bsd", "gfdl", "Z", "M", "LPL"}) + pick(r, []string{"-", "", ".", "+", "-1."}) + fmt.Sprint(r.IntN(30))
			}
			key := strings.Map(func(c rune) rune {
				if strings.ContainsRune("-.+_", c) {
					return '_'
				}
				return c
			}, n)
			if !used[key] {
				used[key] = true
				return n
			}
		}
	}
	st := &tstate{defs: map[string][]tnode{}}
	var snippets []string // defined helper templates
	nvar := 0
	var body func(depth int, inDef bool) []tnode
	body = func(depth int, inDef bool) []tnode {
		var out []tnode
		for n := 1 + r.IntN(5); n > 0; n-- {
			switch k := r.IntN(10); {
			case k < 4:
				out = append(out, lit(genText(r)))
			case k == 4 && len(snippets) > 0: // call with a list
				t := pick(r, snippets)
				src, val := listArg(r, 2)
				out = append(out, tnode{fmt.Sprintf("{{template %q %s}}", t, src), func(st *tstate, _ any) string { return st.run(st.defs[t], val) }})
				w.Inc("templates called with a list", 1)
			case k == 5 && len(snippets) > 0 && r.IntN(2) == 0: // lists kept in variables and extended
				nvar++
				v := nvar
				src, val := listArg(r, 1)
				src = fmt.Sprintf("{{$v%d := %s}}", v, src)
				vals := [][]any{val}
				for i := 1 + r.IntN(4); i > 0; i-- {
					from := r.IntN(len(vals))
					name := fmt.Sprintf("$v%d", v)
					if from > 0 {
						name = fmt.Sprintf("$v%dx%d", v, from)
					}
					add, more := listArg(r, 1)
					src += fmt.Sprintf("{{$v%dx%d := list %s (%s)}}", v, len(vals), name, add)
					vals = append(vals, append(append([]any{}, vals[from]...), more...))
				}
				at := []int{r.IntN(len(vals)), r.IntN(len(vals))}
				t := []string{pick(r, snippets), pick(r, snippets)}
				for i, k := range at {
					name := fmt.Sprintf("$v%d", v)
					if k > 0 {
						name = fmt.Sprintf("$v%dx%d", v, k)
					}
					src += fmt.Sprintf("{{template %q %s}}", t[i], name)
				}
				for k := 1; k < len(vals); k++ { // used or not
					src += fmt.Sprintf("{{with $v%dx%d}}{{end}}", v, k)
				}
				out = append(out, tnode{src, func(st *tstate, _ any) string {
					return st.run(st.defs[t[0]], vals[at[0]]) + st.run(st.defs[t[1]], vals[at[1]])
				}})
				w.Inc("lists extended in variables", 1)
			case k == 5 && len(snippets) > 0: // call without argument
				t := pick(r, snippets)
				out = append(out, tnode{fmt.Sprintf("{{template %q}}", t), func(st *tstate, _ any) string { return st.run(st.defs[t], nil) }})
			case k == 6: // Type
				var fs []string
				for i := 1 + r.IntN(3); i > 0; i-- {
					fs = append(fs, pick(r, docTypes))
				}
				num := lc.Type(0)
				if r.IntN(5) == 0 {
					num = lc.Type(1) << r.IntN(16) << r.IntN(48)
					fs = append(fs, fmt.Sprintf("Type(%#x)", uint64(num)))
					w.Inc("types written as numbers", 1)
				}
				s := strings.Join(fs, "|")
				out = append(out, tnode{fmt.Sprintf("{{Type %q}}", s), func(st *tstate, _ any) string { st.typ = typeBits(s) | num; return "" }})
				w.Inc("Type declarations", 1)
			case k == 7: // trimming actions and comments
				out = append(out, lit("x"), tnode{"{{/* a note */}}", func(*tstate, any) string { return "" }})
			case k == 8 && depth > 0: // constants decide
				yes, no := body(depth-1, inDef), body(depth-1, inDef)
				c := r.IntN(2) == 0
				cond := `eq 1 2`
				if c {
					cond = `eq "a" "a"`
				}
				out = append(out, tnode{"{{if " + cond + "}}" + tsrc(yes) + "{{else}}" + tsrc(no) + "{{end}}", func(st *tstate, arg any) string {
					if c {
						return st.run(yes, arg)
					}
					return st.run(no, arg)
				}})
			case k == 9 && inDef: // use the argument
				if r.IntN(2) == 0 {
					out = append(out, tnode{"{{range .}}[{{.}}]{{else}}none{{end}}", func(_ *tstate, arg any) string {
						l, _ := arg.([]any)
						if len(l) == 0 {
							return "none"
						}
						var b strings.Builder
						for _, x := range l {
							fmt.Fprintf(&b, "[%v]", x)
						}
						return b.String()
					}})
				} else {
					out = append(out, tnode{"{{with .}}{{index . 0}}{{$x := len .}}{{$x}}{{end}}", func(_ *tstate, arg any) string {
						l, _ := arg.([]any)
						if len(l) == 0 {
							return ""
						}
						return fmt.Sprint(l[0]) + fmt.Sprint(len(l))
					}})
				}
			default:
				out = append(out, lit(genText(r)))
			}
		}
		return out
	}
	d := ldir{files: map[string]string{}}
	lres := map[string][]tnode{}
	nf := 1 + r.IntN(8)
	for i := 0; i < nf; i++ {
		file := name() + ".lre"
		var src string
		if r.IntN(2) == 0 { // definitions ahead
			for n := 1 + r.IntN(3); n > 0; n-- {
				dn := fmt.Sprintf("def-%d-%d", i, n)
				if r.IntN(3) == 0 {
					dn = name() + ".lre"
				}
				b := body(1, true)
				st.defs[dn] = b
				if strings.HasSuffix(dn, ".lre") {
					lres[dn] = b
					w.Inc("licenses from define", 1)
				} else {
					snippets = append(snippets, dn)
				}
				src += fmt.Sprintf("{{define %q}}", dn) + tsrc(b) + "{{end}}"
				if r.IntN(2) == 0 {
					snippets = append(snippets, dn)
				}
			}
		}
		var b []tnode
		switch r.IntN(6) {
		case 0: // nothing else in the file
			w.Inc("define-only files", 1)
			b = []tnode{lit(pick(r, []string{"", "\n", " \n\t"}))}
			if r.IntN(3) == 0 {
				b = append(b, tnode{`{{Type "Notice"}}`, func(st *tstate, _ any) string { st.typ = lc.Notice; return "" }})
			}
			if src == "" {
				b = append(b, lit("x"))
			}
		default:
			b = body(2, false)
		}
		src += tsrc(b)
		lres[file] = b
		st.defs[file] = b
		d.files[file] = src
		if r.IntN(3) == 0 {
			snippets = append(snippets, file)
		}
	}
	// An empty file body with blanks only is a template only if it has
	// something else; text/template keeps an earlier one otherwise.
	for n, b := range lres {
		st.typ = 0
		t := st.run(b, nil)
		if strings.TrimSpace(t) == "" {
			w.Inc("blank expansions", 1)
			continue
		}
		d.want = append(d.want, lc.License{ID: strings.TrimSuffix(n, ".lre"), Type: st.typ, LRE: t})
	}
	rev := func(s string) string {
		for _, p := range []string{"BSD-4-Clause", "GFDL-"} {
			if strings.HasPrefix(s, p) {
				return p
			}
		}
		return ""
	}
	sort.Slice(d.want, func(i, j int) bool {
		a, b := d.want[i].ID, d.want[j].ID
		if p := rev(a); p != "" && p == rev(b) {
			w.Inc("names in reverse order", 1)
			return a > b
		}
		return a < b
	})
	return d
}

func tsrc(b []tnode) string {
	var s strings.Builder
	for _, n := range b {
		s.WriteString(n.src)
	}
	return s.String()
}

func init() {
	register(&Check{ID: "C27", Needs: []string{"entries compared", "synthetic entries", "define-only files", "licenses from define", "names in reverse order", "templates called with a list", "Type declarations", "entries with a back quote", "malformed directories"}, Run: func(c *Ctx) {
		c.Rule("the real generator, built from the working tree, is run on licenses/ and its output evaluated as Go constants is compared entry by entry (ID, Type, text, order) with the built-in list in use; then on synthetic template directories whose expansion is computed beside the template source (no text/template involved). Non-trivial: directory with at least one entry")
		dir := filepath.Join(c.Scratch, "gen")
		gen := filepath.Join(c.Scratch, "gen.exe")
		if err := copyRepo(dir); err != nil {
			c.Problem("scratch copy: %v", err)
			return
		}
		if err := buildTool(dir, "gen_data.go", gen); err != nil {
			c.Problem("%v", err)
			return
		}
		run := func(w *W, files map[string]string) ([]lc.License, string) {
			d, err := os.MkdirTemp(c.Scratch, "dir-")
			if err != nil {
				c.Problem("%v", err)
				return nil, "no directory"
			}
			defer os.RemoveAll(d)
			os.Mkdir(filepath.Join(d, "licenses"), 0o777)
			for n, s := range files {
				if err := os.WriteFile(filepath.Join(d, "licenses", n), []byte(s), 0o666); err != nil {
					c.Problem("%v", err)
					return nil, "no file"
				}
			}
			// In half of the runs, an old file is there already.
			if w.R.IntN(2) == 0 {
				os.WriteFile(filepath.Join(d, "data.gen.go"), []byte(strings.Repeat("old old\n", 10000)), 0o666)
			}
			o := runTool(d, gen, nil)
			if o.timeout {
				c.Problem("generator timed out")
				return nil, "timeout"
			}
			if o.err != nil {
				return nil, fmt.Sprintf("generator failed: %v\n%s", o.err, clip(o.out, 1500))
			}
			data, err := os.ReadFile(filepath.Join(d, "data.gen.go"))
			if err != nil {
				return nil, err.Error()
			}
			if !bytes.Contains(data, []byte("DO NOT EDIT")) {
				return nil, "no generated-code marker"
			}
			l, err := evalData(data)
			if err != nil {
				return nil, "generated file does not compile: " + err.Error()
			}
			return l, ""
		}
		c.Serial("real directory", 1, func(w *W) {
			files := map[string]string{}
			fs, _ := filepath.Glob(repo + "/licenses/*.lre")
			for _, f := range fs {
				files[filepath.Base(f)] = string(mustRead(f))
			}
			got, bad := run(w, files)
			if bad != "" {
				w.Fail(Violation{Kind: "generator failed on licenses/", Message: bad})
				return
			}
			var used []lc.License
			for _, l := range lc.BuiltinLicenses() {
				if l.LRE != "" {
					used = append(used, l)
				}
			}
			w.Note(true, "real")
			w.Inc("entries compared", len(used))
			if d := diffLists(used, got); d != "" {
				w.Fail(Violation{Kind: "built-in licenses are not those of licenses/*.lre", Message: d})
			}
			// What go build sees in the checked-in file is the same again.
			checked, err := evalData(mustRead(repo + "/data.gen.go"))
			if err == nil {
				if d := diffLists(checked, got); d != "" {
					w.Fail(Violation{Kind: "data.gen.go is not what the generator makes", Message: d})
				}
			}
			c.Sample("real directory", map[string]any{"files": len(files), "entries": len(got)})
		})
		c.Each("bad directories", c.N(150, 2000), func(w *W) {
			d := genLicDir(w)
			files := map[string]string{}
			for n, s := range d.files {
				files[n] = s
			}
			names := make([]string, 0, len(files))
			for n := range files {
				names = append(names, n)
			}
			sort.Strings(names)
			f := pick(w.R, names)
			what := pick(w.R, []string{"{{", "{{end}}", `{{template "no such"}}`, `{{Type "notice"}}`, `{{Type "Notice|"}}`, `{{Type ""}}`, `{{Type "Share"}}`, "{{if}}", "{{nofunc}}", `{{define "x"}}`, "{{Type}}", `{{index (list 1) 3}}`, "}}{{.X.Y"})
			empty := false
			switch w.R.IntN(8) {
			case 0:
				files, empty, what = nil, true, "no file"
			case 1:
				files[f] += what
			default:
				files[f] = what + files[f]
			}
			sd, err := os.MkdirTemp(c.Scratch, "bad-")
			if err != nil {
				c.Problem("%v", err)
				return
			}
			defer os.RemoveAll(sd)
			os.Mkdir(filepath.Join(sd, "licenses"), 0o777)
			for n, s := range files {
				os.WriteFile(filepath.Join(sd, "licenses", n), []byte(s), 0o666)
			}
			old := []byte("the old file\n")
			if w.R.IntN(2) == 0 {
				os.WriteFile(filepath.Join(sd, "data.gen.go"), old, 0o666)
			} else {
				old = nil
			}
			o := runTool(sd, gen, nil)
			w.Inc("malformed directories", 1)
			w.Note(true, what, fmt.Sprint(files))
			if o.timeout {
				c.Problem("generator timed out")
				return
			}
			now, _ := os.ReadFile(filepath.Join(sd, "data.gen.go"))
			if o.hang || o.err == nil || !bytes.Equal(now, old) {
				w.Fail(Violation{Kind: "malformed directory", Message: fmt.Sprintf("%q in %s (empty %v): exit %v, data.gen.go changed: %v; output %s", what, f, empty, o.err, !bytes.Equal(now, old), clip(o.out, 500)), Text: clip(fmt.Sprintf("%q", files), 6000)})
			}
		})
		c.Each("synthetic directories", c.N(500, 15000), func(w *W) {
			d := genLicDir(w)
			got, bad := run(w, d.files)
			w.Note(len(d.want) > 0, fmt.Sprint(d.files))
			w.Inc("synthetic entries", len(d.want))
			for _, l := range d.want {
				if strings.Contains(l.LRE, "`") {
					w.Inc("entries with a back quote", 1)
				}
			}
			if bad == "" {
				bad = diffLists(got, d.want)
			}
			if bad != "" {
				w.Fail(Violation{Kind: "generator output differs", Message: bad, Text: clip(fmt.Sprintf("%q", d.files), 8000)})
			}
		})
	}})
}
