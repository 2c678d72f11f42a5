package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	lc "github.com/google/licensecheck"
	"pgregory.net/rapid"
)

// A piece of a license template.
type tmplPiece struct {
	Kind string // text, type, string, comment, call, range, if
	Text Text
	Name string      // template called
	Type uint64      // type declared
	List []string    // of range
	Nest []int       // how its elements are grouped: for each, how many lists begin and end there
	Sub  []tmplPiece // of range and if
}

// A license file: its top-level pieces and the templates it defines.
type tmplFile struct {
	Name   string // with .lre
	Pieces []tmplPiece
	Defs   []tmplDef
	After  bool // definitions come last
}

type tmplDef struct {
	Name   string
	Pieces []tmplPiece
}

type genCase struct{ Files []tmplFile }

// source prints pieces as template source.
func tmplSource(ps []tmplPiece) string {
	var b strings.Builder
	for _, p := range ps {
		switch p.Kind {
		case "text":
			b.WriteString(string(p.Text))
		case "type":
			fmt.Fprintf(&b, "{{Type %q}}", lc.Type(p.Type).String())
		case "string":
			fmt.Fprintf(&b, "{{%q}}", string(p.Text))
		case "comment":
			b.WriteString("{{/* nothing */}}")
		case "dot":
			b.WriteString("{{.}}")
		case "call":
			fmt.Fprintf(&b, "{{template %q %q}}", p.Name, string(p.Text))
		case "range":
			b.WriteString("{{range list")
			depth := 0
			for i, s := range p.List {
				for k := 0; k < p.Nest[2*i]; k++ {
					b.WriteString(" (list")
					depth++
				}
				fmt.Fprintf(&b, " %q", s)
				for k := 0; k < p.Nest[2*i+1] && depth > 0; k++ {
					b.WriteString(")")
					depth--
				}
				if p.Nest[2*i] == 2 && i%2 == 0 {
					b.WriteString(" (list)")
				}
			}
			b.WriteString(strings.Repeat(")", depth))
			b.WriteString("}}" + tmplSource(p.Sub) + "{{end}}")
		}
	}
	return b.String()
}

// run evaluates pieces: the output, and the last type declared.
func tmplRun(ps []tmplPiece, dot string, defs map[string][]tmplPiece, typ *uint64) string {
	var b strings.Builder
	for _, p := range ps {
		switch p.Kind {
		case "text", "string":
			b.WriteString(string(p.Text))
		case "type":
			*typ = p.Type
		case "dot":
			b.WriteString(dot)
		case "call":
			b.WriteString(tmplRun(defs[p.Name], string(p.Text), defs, typ))
		case "range":
			for _, s := range p.List {
				b.WriteString(tmplRun(p.Sub, s, defs, typ))
			}
		}
	}
	return b.String()
}

var tmplTexts = []string{
	"some words here", "`", "``", "`quoted`", " ", "\n", "\n\n", "\"", "'", "\\", "\\n", "$x", "${y}", "%s %q %d", "{ }", "((\n a ))??\n", "//** comment **//", "__10__",
	"é", "日本語", "©", "\r\n", "\r", "a\rb", "\t", "FILES_LIST", "`+x+`", "/* */", "// x", "const y = `z`\n", "\u2028", "\u00a0", "\u200b", "Type", "})", "package main", "0",
	"\ufeff", "\ufeffword", "\x00", "a\x00b", "\xff", "\xe2\x82", "\x1a", "\x7f", "\uFFFD", "\x80`",
}

func genTmpl(t *rapid.T, depth int, inDef bool, callable []string) []tmplPiece {
	var ps []tmplPiece
	for k := between(t, 0, 4); k > 0; k-- {
		switch intn(t, 10) {
		case 0:
			var x uint64
			for j := between(t, 0, 3); j > 0; j-- {
				x |= uint64(pick(t, typeNames).t)
			}
			if oneIn(t, 6) {
				x |= 1 << intn(t, 40)
			}
			ps = append(ps, tmplPiece{Kind: "type", Type: x})
		case 1:
			ps = append(ps, tmplPiece{Kind: "string", Text: Text(pick(t, tmplTexts))})
		case 2:
			if inDef {
				ps = append(ps, tmplPiece{Kind: "dot"})
			} else {
				ps = append(ps, tmplPiece{Kind: "comment"})
			}
		case 3, 4:
			if len(callable) > 0 {
				ps = append(ps, tmplPiece{Kind: "call", Name: pick(t, callable), Text: Text(pick(t, tmplTexts))})
			}
		case 5:
			if depth > 0 {
				p := tmplPiece{Kind: "range", Sub: genTmpl(t, depth-1, true, callable)}
				for j := between(t, 1, 7); j > 0; j-- {
					p.List = append(p.List, pick(t, tmplTexts))
					p.Nest = append(p.Nest, pick(t, []int{0, 0, 0, 1, 1, 2}), pick(t, []int{0, 0, 0, 1, 1, 2}))
				}
				ps = append(ps, p)
			}
		default:
			s := ""
			for j := between(t, 1, 3); j > 0; j-- {
				s += pick(t, tmplTexts)
			}
			if !inDef && oneIn(t, 300) {
				n := between(t, 100, 4000)
				if strings.Contains(s, "`") { // a deep expression
					n = between(t, 10, 60)
				}
				s = strings.Repeat(s, n)
			}
			ps = append(ps, tmplPiece{Kind: "text", Text: Text(s)})
		}
	}
	return ps
}

var genNames = []string{
	"MIT", "BSD-2-Clause", "BSD-3-Clause", "BSD-4-Clause", "BSD-4-Clause-UC", "BSD-4-Clause-Shortened", "BSD-4-ClauseX", "BSD-4", "BSD-4-Clausa", "BSD-4-Clausf",
	"GFDL-1.1-only", "GFDL-1.1-invariants-only", "GFDL-1.1-no-invariants-only", "GFDL-1.2-no-invariants-or-later", "GFDL-1.3", "GFDL", "GFDM-1", "GFDK-1", "GFDL-",
	"GPL-2.0", "LGPL-2.0+", "A", "a", "0BSD", "Z-9.9", "z", "Apache-2.0", "CC-BY-4.0", "Anti996", "x11", "X11",
}

func genFiles(t *rapid.T) genCase {
	var c genCase
	used := map[string]bool{}
	var callable []string
	name := func() string {
		for {
			n := pickEven(t, genNames)
			if oneIn(t, 4) {
				n += pick(t, []string{"-1", "-2", "-x", "+"})
			}
			// Names that differ in - . + only are not told apart.
			k := strings.Map(func(r rune) rune {
				if r == '-' || r == '.' || r == '+' {
					return '_'
				}
				return r
			}, n)
			if !used[k] {
				used[k] = true
				return n
			}
		}
	}
	for k := between(t, 1, 6); k > 0; k-- {
		f := tmplFile{Name: name() + ".lre", After: oneIn(t, 2)}
		for j := intn(t, 3); j > 0; j-- {
			d := tmplDef{Pieces: genTmpl(t, 1, true, callable)}
			if oneIn(t, 2) {
				d.Name = name() + ".lre"
			} else {
				d.Name = fmt.Sprintf("t%d", len(callable))
				callable = append(callable, d.Name)
			}
			f.Defs = append(f.Defs, d)
		}
		if !oneIn(t, 3) {
			f.Pieces = genTmpl(t, 2, false, callable)
			if oneIn(t, 2) {
				f.Pieces = append(f.Pieces, tmplPiece{Kind: "text", Text: "license " + Text(f.Name) + " text"})
			}
		}
		c.Files = append(c.Files, f)
	}
	if oneIn(t, 200) {
		for k := between(t, 20, 600); k > 0; k-- {
			n := fmt.Sprintf("%s-q%d.lre", pick(t, genNames), k)
			c.Files = append(c.Files, tmplFile{Name: n, Pieces: []tmplPiece{{Kind: "type", Type: 1 << (k % 9)}, {Kind: "text", Text: Text(pick(t, []string{"license " + n + " text", "", " \n"}))}}})
		}
	}
	return c
}

// goTool runs the go command in dir.
func goTool(dir string, args ...string) ([]byte, error) {
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	return cmd.CombinedOutput()
}

// limited is a command that can take a minute of CPU time and 4 GB of memory
// (the tools take a few milliseconds).
func limited(tool string, args ...string) *exec.Cmd {
	return exec.Command("/bin/sh", append([]string{"-c", `ulimit -t 60; ulimit -v 4000000; exec "$0" "$@"`, tool}, args...)...)
}

// generator builds gen_data.go.
var generator = sync.OnceValue(func() string {
	path := filepath.Join(scratch, "gen_data")
	if out, err := goTool(repo, "build", "-o", path, "gen_data.go"); err != nil {
		panic(harnessError{fmt.Sprintf("building gen_data.go: %v\n%s", err, out)})
	}
	return path
})

// A dataEntry is an entry of generated data.
type dataEntry struct {
	ID   string
	Type uint64
	LRE  Text
}

const licenseStub = `package licensecheck
type Type uint
const (
	Unknown Type = 0
	Unrestricted Type = %d
	Notice Type = %d
	ShareChanges Type = %d
	ShareProgram Type = %d
	ShareServer Type = %d
	NonCommercial Type = %d
	Discouraged Type = %d
)
type License struct { ID string; Type Type; LRE string; URL string }
`

// readData type-checks generated source and evaluates its list.
func readData(src []byte) ([]dataEntry, error) {
	fset := token.NewFileSet()
	var args []any
	for _, b := range typeNames {
		args = append(args, uint64(b.t))
	}
	stub, err := parser.ParseFile(fset, "stub.go", fmt.Sprintf(licenseStub, args...), 0)
	if err != nil {
		panic(err)
	}
	f, err := parser.ParseFile(fset, "data.gen.go", src, 0)
	if err != nil {
		return nil, err
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
	cfg := types.Config{}
	if _, err := cfg.Check("licensecheck", fset, []*ast.File{stub, f}, info); err != nil {
		return nil, err
	}
	var list *ast.CompositeLit
	ast.Inspect(f, func(n ast.Node) bool {
		if v, ok := n.(*ast.ValueSpec); ok && len(v.Names) == 1 && v.Names[0].Name == "builtinLREs" && len(v.Values) == 1 {
			list, _ = v.Values[0].(*ast.CompositeLit)
		}
		return list == nil
	})
	if list == nil {
		return nil, fmt.Errorf("no builtinLREs")
	}
	var out []dataEntry
	for _, x := range list.Elts {
		lit, ok := x.(*ast.CompositeLit)
		if !ok {
			return nil, fmt.Errorf("entry is a %T", x)
		}
		var e dataEntry
		for _, kv := range lit.Elts {
			p, ok := kv.(*ast.KeyValueExpr)
			if !ok {
				return nil, fmt.Errorf("entry without field names")
			}
			v := info.Types[p.Value].Value
			if v == nil {
				return nil, fmt.Errorf("field is not constant")
			}
			switch p.Key.(*ast.Ident).Name {
			case "ID":
				e.ID = constant.StringVal(v)
			case "LRE":
				e.LRE = Text(constant.StringVal(v))
			case "Type":
				e.Type, _ = constant.Uint64Val(v)
			default:
				return nil, fmt.Errorf("field %v", p.Key)
			}
		}
		out = append(out, e)
	}
	return out, nil
}

var genCount int

// generate runs the generator on a directory of license files.
func generate(dir string) ([]byte, string, error) {
	out := filepath.Join(dir, "out.go")
	cmd := limited(generator(), "-o", out)
	cmd.Dir = dir
	msg, err := cmd.CombinedOutput()
	if err != nil {
		return nil, string(msg), err
	}
	b, err := os.ReadFile(out)
	return b, string(msg), err
}

func caseDir() string {
	genCount++
	dir := filepath.Join(scratch, "case"+strconv.Itoa(genCount))
	if err := os.MkdirAll(dir, 0o777); err != nil {
		panic(harnessError{err.Error()})
	}
	return dir
}

func mustWrite(path, data string) {
	if err := os.WriteFile(path, []byte(data), 0o666); err != nil {
		panic(harnessError{err.Error()})
	}
}

// before is the documented order.
func before(a, b string) bool {
	for _, p := range []string{"BSD-4-Clause", "GFDL-"} {
		if strings.HasPrefix(a, p) && strings.HasPrefix(b, p) {
			return a > b
		}
	}
	return a < b
}

func checkGenerator(c genCase, o *Obs) error {
	dir := caseDir()
	defer os.RemoveAll(dir)
	os.Mkdir(filepath.Join(dir, "licenses"), 0o777)
	defs := map[string][]tmplPiece{}
	var names []string
	for _, f := range c.Files {
		src := tmplSource(f.Pieces)
		d := ""
		for _, x := range f.Defs {
			d += fmt.Sprintf("{{define %q}}%s{{end}}", x.Name, tmplSource(x.Pieces))
			defs[x.Name] = x.Pieces
			names = append(names, x.Name)
		}
		if f.After {
			src += d
		} else {
			src = d + src
		}
		defs[f.Name] = f.Pieces
		names = append(names, f.Name)
		mustWrite(filepath.Join(dir, "licenses", f.Name), src)
	}
	var want []dataEntry
	for _, n := range names {
		id, ok := strings.CutSuffix(n, ".lre")
		if !ok {
			continue
		}
		var typ uint64
		// The top-level dot is nil, which prints as <no value>; dots occur in
		// definitions only, and those of licenses are executed with no dot.
		s := tmplRun(defs[n], "<no value>", defs, &typ)
		if strings.TrimSpace(s) == "" {
			o.Label("file without text")
			continue
		}
		want = append(want, dataEntry{id, typ, Text(s)})
	}
	sort.SliceStable(want, func(i, j int) bool { return before(want[i].ID, want[j].ID) })
	o.LabelIf(len(want) > 1, "several licenses")
	o.LabelIf(len(want) > 20, "many licenses")
	for _, w := range want {
		o.LabelIf(strings.Contains(string(w.LRE), "`"), "back quotes")
		o.LabelIf(strings.Contains(string(w.LRE), "\r"), "carriage returns")
		o.LabelIf(w.Type != 0, "type")
		o.LabelIf(len(w.LRE) > 10000, "long")
	}
	if len(want) > 1 {
		o.Nontrivial()
	}
	src, msg, err := generate(dir)
	if err != nil {
		return fmt.Errorf("generator failed: %v\n%s", err, msg)
	}
	got, err := readData(src)
	if err != nil {
		return fmt.Errorf("generated source: %v\n%s", err, src)
	}
	if len(got) == 0 && len(want) == 0 {
		return nil
	}
	return diff(want, got)
}

// The checked-in data.

type entryIndex struct{ I int }

var regenerated = sync.OnceValues(func() ([]dataEntry, error) {
	dir := caseDir()
	os.Mkdir(filepath.Join(dir, "licenses"), 0o777)
	files, _ := filepath.Glob(filepath.Join(repo, "licenses", "*.lre"))
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(harnessError{err.Error()})
		}
		mustWrite(filepath.Join(dir, "licenses", filepath.Base(f)), string(b))
	}
	src, msg, err := generate(dir)
	if err != nil {
		return nil, fmt.Errorf("generator failed: %v\n%s", err, msg)
	}
	return readData(src)
})

func checkCheckedIn(c entryIndex, o *Obs) error {
	want, err := regenerated()
	if err != nil {
		return err
	}
	var got []dataEntry
	for _, l := range lc.BuiltinLicenses() {
		if l.LRE != "" {
			got = append(got, dataEntry{l.ID, uint64(l.Type), Text(l.LRE)})
		}
	}
	if len(got) != len(want) {
		return fmt.Errorf("%d built-in LREs, but the license files define %d", len(got), len(want))
	}
	i := c.I % len(want)
	o.LabelIf(bytes.Contains([]byte(want[i].LRE), []byte("`")), "back quotes")
	o.Nontrivial()
	if got[i] != want[i] {
		return fmt.Errorf("built-in LRE %d is not that of the license files\nwant %+v\ngot  %+v", i, want[i], got[i])
	}
	return nil
}

func init() {
	register(&Prop{
		ID:   "C20",
		Exec: true,
		Rule: "Directories of 1 to 6 license files made of text (back quotes, carriage returns, Go syntax, Unicode), type declarations, string actions, comments, definitions with arguments, calls, and ranges over nested lists, under names around the two special cases; the generator, built from gen_data.go, is run on each, and its output type-checked and evaluated. " +
			"Oracle: an independent evaluation of the same pieces and the documented order. And entries, drawn by position, of the built-in list compared with what the generator makes of the checked-in license files. Non-trivial: several licenses; any entry.",
		Assumes: []string{"file names differ in more than - . + (the generator maps these to the same Go identifier and its output then fails to compile)", "files have fewer than some ten thousand back-quotes (each nests the Go expression deeper, and go/parser stops at 100000)"},
		Subs: []Sub{
			NewSub("generator", 8000, 40000, genFiles, checkGenerator),
			NewSub("checked-in", 2400, 8000, func(t *rapid.T) entryIndex { return entryIndex{even(t, 512)} }, checkCheckedIn),
		},
	})
}
