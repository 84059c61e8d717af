// Command veriftool instruments the working tree of mlange-42/bbn for
// deterministic simulation and writes a `go build -overlay` file.
//
// It never writes into the repository. For every non-test Go file of the root
// module it emits a rewritten copy in which
//
//   - each statement is preceded by simrt.Y(site), a scheduling point,
//   - ranging over a map goes through simrt.Map, so that the simulator decides
//     the iteration order,
//   - `go` statements become simulator tasks,
//   - the imports os, io/ioutil, fmt, sync, time, maps, math/rand (and v2) are
//     replaced by packages of the same API that the simulator controls,
//   - tview.NewApplication() gets a simulated terminal.
//
// Command packages (cmd/*) are additionally turned into importable packages
// whose main function is called Main.
//
// The rewriting is purely type- and syntax-directed; it knows nothing about how
// the repository is written.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const modPath = "github.com/mlange-42/bbn"
const simPath = modPath + "/internal/verifsim"

// packages replaced by simulator-controlled ones: import path -> directory
// below internal/verifsim, default name.
var swaps = map[string][2]string{
	"os":           {"simos", "os"},
	"io/ioutil":    {"simioutil", "ioutil"},
	"fmt":          {"simfmt", "fmt"},
	"sync":         {"simsync", "sync"},
	"time":         {"simtime", "time"},
	"maps":         {"simmaps", "maps"},
	"log":          {"simlog", "log"},
	"math/rand":    {"simrand", "rand"},
	"math/rand/v2": {"simrandv2", "rand"},
}

type pkgInfo struct {
	ImportPath string
	Name       string
	Dir        string
	GoFiles    []string
	CgoFiles   []string
	Imports    []string
	ImportMap  map[string]string
	Export     string
	Standard   bool
	Module     *struct{ Path string }
	Error      *struct{ Err string }
}

var cleanup = func() {}

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "ERROR veriftool: "+format+"\n", a...)
	cleanup()
	os.Exit(2)
}

type edit struct {
	pos, end int
	text     string
	seq      int
}

var sites []string

// channels: the code synchronises through channels, which the simulator's
// scheduler does not control.
var channels bool

// levels of instrumentation of a file. Lower levels are only used for files
// whose fully instrumented form does not compile.
const (
	levelFull  = iota
	levelSeams // imports, map iteration and goroutines, but no scheduling points
	levelNone  // as it is
)

// instrumentTree writes the overlay of the working tree of repo to out.
// levels holds the files (relative to repo) to be instrumented less than fully.
func instrumentTree(repoDir, simDir, outDir string, levels map[string]int) {
	repo, sim, out := &repoDir, &simDir, &outDir
	sites, channels = nil, false
	if err := os.MkdirAll(*out, 0o755); err != nil {
		die("%v", err)
	}

	pkgs := list(*repo, "./...")
	exports := map[string]string{}
	for _, p := range pkgs {
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
	}
	// Export data of the swapped packages, also when the repo does not import them (yet).
	var extra []string
	for p := range swaps {
		if exports[p] == "" {
			extra = append(extra, p)
		}
	}
	sort.Strings(extra)
	if len(extra) > 0 {
		for _, p := range list(*repo, extra...) {
			if p.Export != "" {
				exports[p.ImportPath] = p.Export
			}
		}
	}

	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(f)
	})

	replace := map[string]string{}

	// 1. repository packages
	for _, p := range pkgs {
		if p.Module == nil || p.Module.Path != modPath || strings.HasPrefix(p.ImportPath, simPath) {
			continue
		}
		if len(p.CgoFiles) > 0 {
			die("cgo files in %s", p.ImportPath)
		}
		instrument(fset, imp, p, *repo, *out, replace, levels)
	}

	// 2. alias parts of the shim packages
	for path, sw := range swaps {
		dir := filepath.Join(*sim, sw[0])
		genAliases(fset, imp, path, sw[0], dir, filepath.Join(*out, "shim", sw[0]+".go"))
		replace[filepath.Join(*repo, "internal/verifsim", sw[0], "zz_alias.go")] = filepath.Join(*out, "shim", sw[0]+".go")
	}

	// 3. simulator sources
	err := filepath.Walk(*sim, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() || !strings.HasSuffix(path, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(*sim, path)
		replace[filepath.Join(*repo, "internal/verifsim", rel)] = path
		return nil
	})
	if err != nil {
		die("%v", err)
	}

	// 4. table of scheduling points
	var sb strings.Builder
	sb.WriteString("package simrt\n\nfunc init() { Sites = []string{\n")
	for _, s := range sites {
		fmt.Fprintf(&sb, "%q,\n", s)
	}
	fmt.Fprintf(&sb, "}\nFree = %v\n}\n", channels)
	write(filepath.Join(*out, "sites.go"), []byte(sb.String()))
	replace[filepath.Join(*repo, "internal/verifsim/simrt/zz_sites.go")] = filepath.Join(*out, "sites.go")

	js, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	write(filepath.Join(*out, "overlay.json"), js)
}

func write(path string, data []byte) {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		die("%v", err)
	}
	if old, err := os.ReadFile(path); err == nil && bytes.Equal(old, data) {
		return
	}
	if err := os.WriteFile(path, data, 0o644); err != nil {
		die("%v", err)
	}
}

func list(dir string, patterns ...string) []*pkgInfo {
	args := append([]string{"list", "-export", "-deps", "-e", "-json=ImportPath,Name,Dir,GoFiles,CgoFiles,Imports,ImportMap,Export,Standard,Module,Error"}, patterns...)
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	data, err := cmd.Output()
	if err != nil {
		die("go list: %v\n%s", err, stderr.String())
	}
	var res []*pkgInfo
	dec := json.NewDecoder(bytes.NewReader(data))
	for {
		p := &pkgInfo{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		if p.Error != nil && p.Module != nil && p.Module.Path == modPath {
			die("package %s: %s", p.ImportPath, p.Error.Err)
		}
		res = append(res, p)
	}
	return res
}

func instrument(fset *token.FileSet, imp types.Importer, p *pkgInfo, repo, out string, replace map[string]string, levels map[string]int) {
	var files []*ast.File
	var names []string
	srcs := map[string][]byte{}
	for _, f := range p.GoFiles {
		path := filepath.Join(p.Dir, f)
		src, err := os.ReadFile(path)
		if err != nil {
			die("%v", err)
		}
		af, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		files = append(files, af)
		names = append(names, path)
		srcs[path] = src
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{},
		Uses:  map[*ast.Ident]types.Object{},
		Defs:  map[*ast.Ident]types.Object{},
	}
	conf := types.Config{Importer: imp, GoVersion: "go1.23"}
	if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
		die("type check %s: %v", p.ImportPath, err)
	}
	rel, _ := filepath.Rel(repo, p.Dir)
	for i, af := range files {
		relName, _ := filepath.Rel(repo, names[i])
		res := rewrite(fset, af, srcs[names[i]], info, p, repo, levels[relName])
		outFile := filepath.Join(out, "src", rel, filepath.Base(names[i]))
		write(outFile, res)
		target := names[i]
		if p.Name == "main" {
			target = filepath.Join(repo, "internal/verifsim", "cli_"+filepath.Base(p.Dir), filepath.Base(names[i]))
		}
		replace[target] = outFile
	}
}

func rewrite(fset *token.FileSet, af *ast.File, src []byte, info *types.Info, p *pkgInfo, repo string, level int) []byte {
	tf := fset.File(af.Pos())
	var edits []edit
	off := func(pos token.Pos) int { return tf.Offset(pos) }
	add := func(pos, end int, text string) { edits = append(edits, edit{pos, end, text, len(edits)}) }

	// package clause
	pkgName := af.Name.Name
	if p.Name == "main" {
		pkgName = "cli_" + filepath.Base(p.Dir)
		add(off(af.Name.Pos()), off(af.Name.End()), pkgName)
	}
	add(off(af.Name.End()), off(af.Name.End()), fmt.Sprintf("; import simrt %q", simPath+"/simrt"))

	for _, im := range af.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		sw, ok := swaps[path]
		if !ok || level >= levelNone {
			continue
		}
		text := strconv.Quote(simPath + "/" + sw[0])
		if im.Name == nil {
			text = sw[1] + " " + text
		}
		add(off(im.Path.Pos()), off(im.Path.End()), text)
	}

	relFile, _ := filepath.Rel(repo, fset.Position(af.Pos()).Filename)
	yield := func(pos token.Pos) {
		if level != levelFull {
			return
		}
		id := len(sites)
		sites = append(sites, fmt.Sprintf("%s:%d", relFile, fset.Position(pos).Line))
		add(off(pos), off(pos), fmt.Sprintf("simrt.Y(%d);", id))
	}
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				continue
			}
			yield(s.Pos())
		}
	}

	ast.Inspect(af, func(n ast.Node) bool {
		if f, ok := n.(*ast.FuncDecl); ok && p.Name == "main" && f.Recv == nil && f.Name.Name == "main" {
			add(off(f.Name.Pos()), off(f.Name.End()), "Main")
		}
		if level >= levelNone {
			return true
		}
		switch n := n.(type) {
		case *ast.ChanType:
			channels = true
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.ForStmt:
			if len(n.Body.List) == 0 {
				yield(n.Body.Rbrace)
			}
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		case *ast.RangeStmt:
			tv, ok := info.Types[n.X]
			if ok && isMap(tv.Type) {
				add(off(n.X.Pos()), off(n.X.Pos()), "simrt.Map(")
				add(off(n.X.End()), off(n.X.End()), ")")
			}
		case *ast.GoStmt:
			rewriteGo(n, add, off)
		case *ast.CallExpr:
			if sel, ok := ast.Unparen(n.Fun).(*ast.SelectorExpr); ok {
				if obj, ok := info.Uses[sel.Sel]; ok && obj.Pkg() != nil {
					full := obj.Pkg().Path() + "." + obj.Name()
					_, isFunc := obj.(*types.Func)
					if isFunc && full == "github.com/rivo/tview.NewApplication" {
						add(off(n.Pos()), off(n.Pos()), "simrt.App(")
						add(off(n.End()), off(n.End()), ")")
					}
				}
			}
		}
		return true
	})

	// language version: range over functions
	hasBuild := false
	for _, cg := range af.Comments {
		for _, c := range cg.List {
			if c.Pos() < af.Package && strings.HasPrefix(c.Text, "//go:build ") {
				expr := strings.TrimPrefix(c.Text, "//go:build ")
				add(off(c.Pos()), off(c.End()), "//go:build go1.23 && ("+expr+")")
				hasBuild = true
			}
		}
	}
	if !hasBuild {
		add(0, 0, "//go:build go1.23\n\n")
	}

	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].pos != edits[j].pos {
			return edits[i].pos < edits[j].pos
		}
		return edits[i].seq < edits[j].seq
	})
	var buf bytes.Buffer
	last := 0
	for _, e := range edits {
		if e.pos < last {
			die("overlapping edits in %s", relFile)
		}
		buf.Write(src[last:e.pos])
		buf.WriteString(e.text)
		last = e.end
	}
	buf.Write(src[last:])
	buf.WriteString("\nvar _ = simrt.Y\n")
	return buf.Bytes()
}

// rewriteGo turns `go f(a, b)` into
// `func() { f, a0, a1 := f, a, b; simrt.Go(func() { f(a0, a1) }) }()`.
func rewriteGo(n *ast.GoStmt, add func(int, int, string), off func(token.Pos) int) {
	call := n.Call
	start := off(n.Go)
	if len(call.Args) == 0 {
		add(start, start+len("go"), "simrt.Go(func() {")
		add(off(call.End()), off(call.End()), "})")
		return
	}
	// evaluate arguments now, through a generic-free closure: go func(params)(args)
	var lhs []string
	for i := range call.Args {
		lhs = append(lhs, fmt.Sprintf("simArg%d", i))
	}
	// func() { simArg0, simArg1 := <args>; simrt.Go(func() { <fun>(simArg0, simArg1) }) }()
	// text order in the source is <fun>(<args>), so the callee is bound first.
	add(start, start+len("go"), "{ simFun :=")
	add(off(call.Lparen), off(call.Lparen)+1, "; "+strings.Join(lhs, ", ")+" := ")
	tail := ""
	if call.Ellipsis.IsValid() {
		tail = "..."
		add(off(call.Ellipsis), off(call.Ellipsis)+3, "")
	}
	add(off(call.Rparen), off(call.Rparen)+1, "; simrt.Go(func() { simFun("+strings.Join(lhs, ", ")+tail+") }) }")
}

func isMap(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Map:
		return true
	case *types.Interface:
		// type parameter: all terms must be maps
		if tp, ok := t.(*types.TypeParam); ok {
			_ = tp
			all := u.NumEmbeddeds() > 0
			for i := 0; i < u.NumEmbeddeds(); i++ {
				un, ok := u.EmbeddedType(i).(*types.Union)
				if !ok {
					if _, ok := u.EmbeddedType(i).Underlying().(*types.Map); !ok {
						all = false
					}
					continue
				}
				for j := 0; j < un.Len(); j++ {
					if _, ok := un.Term(j).Type().Underlying().(*types.Map); !ok {
						all = false
					}
				}
			}
			return all
		}
	}
	return false
}

// genAliases writes aliases for every exported name of the standard package at
// path which the hand-written shim in dir does not define itself.
func genAliases(fset *token.FileSet, imp types.Importer, path, name, dir, out string) {
	have := map[string]bool{}
	pm, err := parser.ParseDir(fset, dir, nil, parser.SkipObjectResolution)
	if err != nil {
		die("%v", err)
	}
	for _, pk := range pm {
		for _, f := range pk.Files {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						have[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							have[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range s.Names {
								have[n.Name] = true
							}
						}
					}
				}
			}
		}
	}
	std, err := imp.Import(path)
	if err != nil {
		die("import %s: %v", path, err)
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport std %q\n\n", name, path)
	n := 0
	for _, id := range std.Scope().Names() {
		if !ast.IsExported(id) || have[id] {
			continue
		}
		switch o := std.Scope().Lookup(id).(type) {
		case *types.Const:
			fmt.Fprintf(&sb, "const %s = std.%s\n", id, id)
			n++
		case *types.Var:
			fmt.Fprintf(&sb, "var %s = std.%s\n", id, id)
			n++
		case *types.Func:
			if sig := o.Type().(*types.Signature); sig.TypeParams().Len() == 0 {
				fmt.Fprintf(&sb, "var %s = std.%s\n", id, id)
				n++
			}
		case *types.TypeName:
			if named, ok := o.Type().(*types.Named); ok && named.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&sb, "type %s = std.%s\n", id, id)
			n++
		}
	}
	if n == 0 {
		sb.Reset()
		fmt.Fprintf(&sb, "package %s\n", name)
	}
	write(out, []byte(sb.String()))
}
