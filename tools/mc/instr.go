// instr rewrites the packages of /repo so that every synchronisation operation, every
// source of nondeterminism and every access to shared memory goes through the controlled
// scheduler (zzverif/vsched).  It works on the source text: a node is printed as it is
// written, except for the nodes that need a hook.  The result is a set of files plus an
// overlay for "go build -overlay"; /repo itself is not touched.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type listPkg struct {
	ImportPath string
	Export     string
	Dir        string
	Name       string
	GoFiles    []string
	Standard   bool
}

type instrOptions struct {
	repo, lib, out string
	harness        [][2]string // source directory, package path relative to the module
	plain          bool        // no instrumentation, only the shims in plainShims
	plainShims     map[string]bool
	program        bool // package cmd as well
}

var opt instrOptions

const modulePath = "github.com/ftl/sdrainer"
const zz = modulePath + "/zzverif"

// shims: import path -> shim directory below lib/shim
var shims = map[string]string{
	"time":                         "time",
	"sync":                         "sync",
	"sync/atomic":                  "atomic",
	"net":                          "net",
	"log":                          "log",
	"os":                           "os",
	"context":                      "context",
	"math/rand":                    "rand",
	"math/rand/v2":                 "rand2",
	"fmt":                          "fmt",
	"maps":                         "maps",
	"google.golang.org/grpc":       "grpc",
	"github.com/gorilla/websocket": "websocket",
	"github.com/ftl/tci/client":    "tciclient",
	"github.com/ftl/hamradio/dxcc": "dxcc",
	"github.com/ftl/hamradio/scp":  "scp",
}

// program: shims and packages that are only used to run the whole program
var programShims = map[string]string{
	"os/signal":                  "signal",
	"net/http":                   "http",
	"github.com/jfreymuth/pulse": "pulse",
}

// packages to instrument and how much
type mode struct {
	fields  bool            // hook field accesses
	imports map[string]bool // nil = all shims, otherwise only those
}

var instrumented = map[string]mode{
	"rx":       {fields: true},
	"cw":       {fields: true},
	"telnet":   {fields: true},
	"tci":      {fields: true},
	"kiwi":     {fields: true},
	"scope":    {fields: true},
	"dsp":      {fields: false},
	"cli":      {fields: false},
	"scope/pb": {fields: false, imports: map[string]bool{"google.golang.org/grpc": true}},
}

func fatal(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+format+"\n", args...)
	os.Exit(3)
}

func instrumentAll() string {
	overlay := map[string]string{}

	addDir := func(src string, rel string) {
		entries, err := os.ReadDir(src)
		if err != nil {
			fatal("%v", err)
		}
		for _, e := range entries {
			if e.IsDir() || !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
				continue
			}
			overlay[filepath.Join(opt.repo, rel, e.Name())] = filepath.Join(src, e.Name())
		}
	}

	for _, h := range opt.harness {
		addDir(h[0], h[1])
	}
	addDir(filepath.Join(opt.lib, "mcrun"), "zzverif/mcrun")
	addDir(filepath.Join(opt.lib, "vsched"), "zzverif/vsched")
	addDir(filepath.Join(opt.lib, "iq"), "zzverif/iq")
	sites := []string{}
	if opt.program {
		for path, dir := range programShims {
			shims[path] = dir
		}
	} else {
		for path := range programShims {
			delete(shims, path)
		}
	}
	if !opt.plain || len(opt.plainShims) > 0 {
		pkgs := goList()
		imp := newImporter(pkgs)
		for path, dir := range shims {
			if opt.plain && !opt.plainShims[dir] {
				continue
			}
			addDir(filepath.Join(opt.lib, "shim", dir), "zzverif/shim/"+dir)
			file := genReexport(imp, path, filepath.Join(opt.lib, "shim", dir))
			dst := filepath.Join(opt.out, "shim_"+dir+".go")
			if err := os.WriteFile(dst, []byte(file), 0o644); err != nil {
				fatal("%v", err)
			}
			overlay[filepath.Join(opt.repo, "zzverif/shim", dir, "zz_reexport.go")] = dst
		}
		for _, p := range pkgs {
			if p.ImportPath != modulePath && !strings.HasPrefix(p.ImportPath, modulePath+"/") {
				continue
			}
			rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, modulePath), "/")
			m, ok := instrumented[rel]
			if rel == "cmd" && opt.program {
				m, ok = mode{fields: true}, true
			}
			if !ok {
				if rel == "" || rel == "cmd" || strings.HasPrefix(rel, "zzverif") {
					continue
				}
				m = mode{fields: true} // a package that did not exist before
			}
			instrument(p, m, imp, overlay, &sites)
		}
	}
	var b bytes.Buffer
	b.WriteString("package vsched\n\nfunc init() {\n\tSites = []string{\n")
	for _, s := range sites {
		fmt.Fprintf(&b, "\t\t%q,\n", s)
	}
	b.WriteString("\t}\n}\n")
	dst := filepath.Join(opt.out, "vsched_sites.go")
	os.WriteFile(dst, b.Bytes(), 0o644)
	overlay[filepath.Join(opt.repo, "zzverif/vsched/zz_sites.go")] = dst

	js, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	name := filepath.Join(opt.out, "overlay.json")
	if err := os.WriteFile(name, js, 0o644); err != nil {
		fatal("%v", err)
	}
	return name
}

func goList() []*listPkg {
	args := []string{"list", "-export", "-deps", "-json=ImportPath,Export,Dir,Name,GoFiles,Standard", "./..."}
	for p := range shims {
		args = append(args, p)
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = opt.repo
	cmd.Stderr = os.Stderr
	data, err := cmd.Output()
	if err != nil {
		fatal("go list: %v", err)
	}
	dec := json.NewDecoder(bytes.NewReader(data))
	var result []*listPkg
	for {
		p := new(listPkg)
		err := dec.Decode(p)
		if err == io.EOF {
			break
		}
		if err != nil {
			fatal("go list: %v", err)
		}
		result = append(result, p)
	}
	return result
}

var fset = token.NewFileSet()

func newImporter(pkgs []*listPkg) types.Importer {
	exports := map[string]string{}
	for _, p := range pkgs {
		exports[p.ImportPath] = p.Export
	}
	return importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok || e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
}

// genReexport writes a file that re-exports everything of the original package that the
// shim does not define itself.
func genReexport(imp types.Importer, path string, dir string) string {
	pkg, err := imp.Import(path)
	if err != nil {
		fatal("import %s: %v", path, err)
	}
	own := map[string]bool{}
	parsed, err := parser.ParseDir(token.NewFileSet(), dir, nil, 0)
	if err != nil {
		fatal("%v", err)
	}
	name := pkg.Name()
	for _, p := range parsed {
		name = p.Name
		for _, f := range p.Files {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						own[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							own[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range s.Names {
								own[n.Name] = true
							}
						}
					}
				}
			}
		}
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport orig %q\n\n", name, path)
	used := false
	scope := pkg.Scope()
	for _, n := range scope.Names() {
		o := scope.Lookup(n)
		if !o.Exported() || own[n] {
			continue
		}
		switch o := o.(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = orig.%s\n", n, n)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = orig.%s\n", n, n)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = orig.%s\n", n, n)
		case *types.TypeName:
			if named, ok := o.Type().(*types.Named); ok && named.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = orig.%s\n", n, n)
		default:
			continue
		}
		used = true
	}
	if !used {
		return fmt.Sprintf("package %s\n", name)
	}
	return b.String()
}

func instrument(p *listPkg, m mode, imp types.Importer, overlay map[string]string, sites *[]string) {
	var files []*ast.File
	var srcs [][]byte
	var names []string
	for _, f := range p.GoFiles {
		name := filepath.Join(p.Dir, f)
		src, err := os.ReadFile(name)
		if err != nil {
			fatal("%v", err)
		}
		file, err := parser.ParseFile(fset, name, src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			fatal("%v", err)
		}
		files = append(files, file)
		srcs = append(srcs, src)
		names = append(names, name)
	}
	info := &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Defs:       map[*ast.Ident]types.Object{},
		Uses:       map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
		Implicits:  map[ast.Node]types.Object{},
		Instances:  map[*ast.Ident]types.Instance{},
		Scopes:     map[ast.Node]*types.Scope{},
	}
	conf := types.Config{Importer: imp, GoVersion: "go1.23"}
	pkg, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		fatal("type check %s: %v", p.ImportPath, err)
	}
	for i, file := range files {
		r := &rewriter{pkg: pkg, info: info, src: srcs[i], file: file, mode: m, sites: sites,
			tokFile: fset.File(file.Pos())}
		r.findShared(files)
		text := r.renderFile(file)
		dst := filepath.Join(opt.out, strings.ReplaceAll(strings.TrimPrefix(names[i], "/"), "/", "__"))
		if err := os.WriteFile(dst, []byte(text), 0o644); err != nil {
			fatal("%v", err)
		}
		overlay[names[i]] = dst
	}
}

type rewriter struct {
	pkg     *types.Package
	info    *types.Info
	src     []byte
	file    *ast.File
	mode    mode
	sites   *[]string
	tokFile *token.File
	tmp     int
	shared  map[types.Object]bool // captured and reassigned locals, reassigned package variables
	skip    map[ast.Node]bool     // selector nodes that must stay as they are
	stack   []ast.Node
}

func (r *rewriter) fresh(prefix string) string {
	r.tmp++
	return fmt.Sprintf("_vs%s%d", prefix, r.tmp)
}

func (r *rewriter) text(from, to token.Pos) string {
	return string(r.src[r.tokFile.Offset(from):r.tokFile.Offset(to)])
}

func (r *rewriter) site(n ast.Node, key string) int {
	pos := fset.Position(n.Pos())
	id := len(*r.sites)
	*r.sites = append(*r.sites, fmt.Sprintf("%s|%s/%s:%d", key, filepath.Base(filepath.Dir(pos.Filename)), filepath.Base(pos.Filename), pos.Line))
	return id
}

// findShared collects local variables that are captured by a closure and assigned more
// than once, and package variables that are assigned anywhere outside of their declaration.
func (r *rewriter) findShared(files []*ast.File) {
	r.shared = map[types.Object]bool{}
	r.skip = map[ast.Node]bool{}
	captured := map[types.Object]bool{}
	assigned := map[types.Object]bool{}
	for _, f := range files {
		var funcs []ast.Node
		var walk func(n ast.Node) bool
		walk = func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncLit:
				funcs = append(funcs, n)
				ast.Inspect(n.Type, walk)
				ast.Inspect(n.Body, walk)
				funcs = funcs[:len(funcs)-1]
				return false
			case *ast.Ident:
				o, ok := r.info.Uses[n].(*types.Var)
				if !ok || o.IsField() {
					return true
				}
				if o.Parent() == r.pkg.Scope() {
					captured[o] = true
					return true
				}
				if len(funcs) > 0 {
					fl := funcs[len(funcs)-1]
					if o.Pos() < fl.Pos() || o.Pos() >= fl.End() {
						captured[o] = true
					}
				}
			case *ast.AssignStmt:
				for _, l := range n.Lhs {
					if id := rootIdent(l); id != nil {
						if o, ok := r.info.Uses[id].(*types.Var); ok && (n.Tok != token.DEFINE || r.info.Defs[id] == nil) {
							assigned[o] = true
						}
					}
				}
			case *ast.IncDecStmt:
				if id := rootIdent(n.X); id != nil {
					if o, ok := r.info.Uses[id].(*types.Var); ok {
						assigned[o] = true
					}
				}
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					if id, ok := ast.Unparen(n.X).(*ast.Ident); ok {
						if o, ok := r.info.Uses[id].(*types.Var); ok {
							assigned[o] = true
						}
					}
				}
			case *ast.CallExpr:
				if id, ok := ast.Unparen(n.Fun).(*ast.Ident); ok && (id.Name == "delete" || id.Name == "clear" || id.Name == "copy") && len(n.Args) > 0 {
					if _, ok := r.info.Uses[id].(*types.Builtin); ok {
						if rid := rootIdent(n.Args[0]); rid != nil {
							if o, ok := r.info.Uses[rid].(*types.Var); ok {
								assigned[o] = true
							}
						}
					}
				}
			}
			return true
		}
		for _, d := range f.Decls {
			ast.Inspect(d, walk)
		}
	}
	for o := range captured {
		if assigned[o] {
			r.shared[o] = true
		}
	}
}

func rootIdent(e ast.Expr) *ast.Ident {
	for {
		switch x := e.(type) {
		case *ast.Ident:
			return x
		case *ast.ParenExpr:
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		default:
			return nil
		}
	}
}

func children(n ast.Node) []ast.Node {
	var result []ast.Node
	first := true
	ast.Inspect(n, func(c ast.Node) bool {
		if first {
			first = false
			return true
		}
		if c == nil {
			return false
		}
		switch c.(type) {
		case *ast.CommentGroup, *ast.Comment:
			return false
		}
		result = append(result, c)
		return false
	})
	sort.SliceStable(result, func(i, j int) bool { return result[i].Pos() < result[j].Pos() })
	return result
}

// generic prints n as written, with its children rendered.
func (r *rewriter) generic(n ast.Node) string {
	return r.between(n.Pos(), n.End(), children(n))
}

func (r *rewriter) between(from, to token.Pos, nodes []ast.Node) string {
	var b strings.Builder
	pos := from
	for _, c := range nodes {
		if c.Pos() < pos {
			continue // e.g. implicit nodes
		}
		b.WriteString(r.text(pos, c.Pos()))
		b.WriteString(r.render(c))
		pos = c.End()
	}
	b.WriteString(r.text(pos, to))
	return b.String()
}

func (r *rewriter) renderFile(f *ast.File) string {
	var b strings.Builder
	b.WriteString(r.text(f.FileStart, f.Name.End()))
	if !opt.plain {
		fmt.Fprintf(&b, "; import vsched %q", zz+"/vsched")
	}
	inits := ""
	pos := f.Name.End()
	for _, d := range f.Decls {
		b.WriteString(r.text(pos, d.Pos()))
		text := r.render(d)
		if fd, ok := d.(*ast.FuncDecl); ok && r.program() && fd.Recv == nil && fd.Name.Name == "init" {
			// every execution is a new process
			name := fmt.Sprintf("zzinit%d", r.tokFile.Offset(fd.Pos()))
			name += strings.NewReplacer(".", "_", "-", "_").Replace(filepath.Base(r.tokFile.Name()))
			text = strings.Replace(text, "init", name, 1)
			inits += fmt.Sprintf("\nfunc init() { %s(); vsched.OnInit(%s) }\n", name, name)
		}
		b.WriteString(text)
		pos = d.End()
	}
	b.WriteString(r.text(pos, f.FileEnd))
	if opt.plain {
		return b.String()
	}
	b.WriteString("\n\nvar _ = vsched.Used\n")
	b.WriteString(r.resets(f))
	b.WriteString(inits)
	return b.String()
}

// program tells whether this is the package with the command line.
func (r *rewriter) program() bool { return opt.program && r.pkg.Path() == modulePath+"/cmd" }

// resets restores the package variables of the file at the start of every execution.
func (r *rewriter) resets(f *ast.File) string {
	var b strings.Builder
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, s := range g.Specs {
			vs := s.(*ast.ValueSpec)
			for i, n := range vs.Names {
				if n.Name == "_" {
					continue
				}
				switch {
				case len(vs.Values) == 0:
					fmt.Fprintf(&b, "\tvsched.Zero(&%s)\n", n.Name)
				case len(vs.Values) == len(vs.Names):
					v := vs.Values[i]
					o := r.info.Defs[n]
					if r.program() || r.reevaluable(v) && (int(v.End()-v.Pos()) < 600 || r.shared[o]) {
						fmt.Fprintf(&b, "\t%s = %s\n", n.Name, r.render(v))
					}
				}
			}
		}
	}
	if b.Len() == 0 {
		return ""
	}
	return "\nfunc init() { vsched.OnReset(func() {\n" + b.String() + "}) }\n"
}

// reevaluable: the initializer contains no call except for builtins, conversions and functions of this package.
func (r *rewriter) reevaluable(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		c, isCall := n.(*ast.CallExpr)
		if !isCall {
			_, isLit := n.(*ast.FuncLit)
			return !isLit
		}
		if tv, has := r.info.Types[c.Fun]; has && (tv.IsType() || tv.IsBuiltin()) {
			return true
		}
		if id, isID := ast.Unparen(c.Fun).(*ast.Ident); isID {
			if fn, isFn := r.info.Uses[id].(*types.Func); isFn && fn.Pkg() == r.pkg {
				return true
			}
		}
		ok = false
		return false
	})
	return ok
}

func (r *rewriter) render(n ast.Node) string {
	r.stack = append(r.stack, n)
	defer func() { r.stack = r.stack[:len(r.stack)-1] }()
	if r.skip[n] {
		return r.generic(n)
	}
	if opt.plain {
		if n, ok := n.(*ast.ImportSpec); ok {
			return r.importSpec(n)
		}
		return r.generic(n)
	}
	switch n := n.(type) {
	case *ast.ImportSpec:
		return r.importSpec(n)
	case *ast.SendStmt:
		return fmt.Sprintf("vsched.SendTo(%s)(%s)", r.render(n.Chan), r.render(n.Value))
	case *ast.UnaryExpr:
		if n.Op == token.ARROW {
			return fmt.Sprintf("vsched.Recv(%s)", r.render(n.X))
		}
		if n.Op == token.AND {
			x := ast.Unparen(n.X)
			if _, ok := x.(*ast.SelectorExpr); ok {
				r.skip[x] = true
			}
			if _, ok := x.(*ast.Ident); ok {
				r.skip[x] = true
			}
			if ix, ok := x.(*ast.IndexExpr); ok {
				_ = ix
			}
			if _, ok := x.(*ast.CompositeLit); ok {
				return r.generic(n)
			}
		}
		return r.generic(n)
	case *ast.ParenExpr:
		return r.generic(n)
	case *ast.ValueSpec:
		if len(n.Values) == 1 && len(n.Names) == 2 {
			if u, ok := ast.Unparen(n.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				return r.text(n.Pos(), n.Values[0].Pos()) + fmt.Sprintf("vsched.Recv2(%s)", r.render(u.X))
			}
		}
		return r.generic(n)
	case *ast.AssignStmt:
		return r.assign(n)
	case *ast.IncDecStmt:
		return r.incDec(n)
	case *ast.SelectStmt:
		return r.selectStmt(n)
	case *ast.GoStmt:
		return r.goStmt(n)
	case *ast.RangeStmt:
		return r.rangeStmt(n)
	case *ast.CallExpr:
		return r.call(n)
	case *ast.SelectorExpr:
		return r.selector(n)
	case *ast.Ident:
		return r.ident(n)
	case *ast.KeyValueExpr:
		// struct literal keys are identifiers that are no variables
		if id, ok := n.Key.(*ast.Ident); ok {
			if v, ok := r.info.Uses[id].(*types.Var); ok && v.IsField() {
				return id.Name + r.text(n.Key.End(), n.Value.Pos()) + r.render(n.Value)
			}
		}
		return r.generic(n)
	case *ast.FuncType, *ast.StructType, *ast.InterfaceType:
		return r.text(n.Pos(), n.End())
	}
	return r.generic(n)
}

func (r *rewriter) importSpec(n *ast.ImportSpec) string {
	path, _ := strconv.Unquote(n.Path.Value)
	dir, ok := shims[path]
	if r.mode.imports != nil && !r.mode.imports[path] {
		ok = false
	}
	if opt.plain && !opt.plainShims[dir] {
		ok = false
	}
	if !ok || (n.Name != nil && n.Name.Name == "_") {
		return r.text(n.Pos(), n.End())
	}
	newPath := strconv.Quote(zz + "/shim/" + dir)
	if n.Name != nil {
		return n.Name.Name + " " + newPath
	}
	return newPath
}

func (r *rewriter) isBuiltin(e ast.Expr, name string) bool {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

// hasIdentity tells whether keys of this type may differ in their address only.
func hasIdentity(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Chan, *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasIdentity(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return hasIdentity(u.Elem())
	}
	return false
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (r *rewriter) call(n *ast.CallExpr) string {
	args := func() string {
		parts := make([]ast.Node, len(n.Args))
		for i, a := range n.Args {
			parts[i] = a
		}
		return r.between(n.Lparen+1, n.Rparen, parts)
	}
	switch {
	case r.isBuiltin(n.Fun, "close"):
		return "vsched.Close(" + args() + ")"
	case (r.isBuiltin(n.Fun, "len") || r.isBuiltin(n.Fun, "cap")) && isChan(r.typeOf(n.Args[0])):
		if r.isBuiltin(n.Fun, "len") {
			return "vsched.Len(" + args() + ")"
		}
		return r.generic(n)
	case r.isBuiltin(n.Fun, "make") && isChan(r.typeOf(n.Args[0])):
		return "vsched.Made(make(" + args() + "))"
	case r.isBuiltin(n.Fun, "make") || r.isBuiltin(n.Fun, "new"):
		return r.generic(n)
	case (r.isBuiltin(n.Fun, "delete") || r.isBuiltin(n.Fun, "clear")) && len(n.Args) > 0:
		// a write to the map or slice
		if p, key, ok := r.place(n.Args[0]); ok {
			rest := ""
			for _, a := range n.Args[1:] {
				rest += ", " + r.render(a)
			}
			return fmt.Sprintf("%s(*vsched.W(%s, %d)%s)", ast.Unparen(n.Fun).(*ast.Ident).Name, p, r.site(n, key), rest)
		}
	}
	// method call on an addressable struct field: no access of its own
	if sel, ok := ast.Unparen(n.Fun).(*ast.SelectorExpr); ok {
		if s := r.info.Selections[sel]; s != nil && s.Kind() == types.MethodVal {
			r.skipStructBase(sel.X)
		}
	}
	return r.generic(n)
}

// skipStructBase leaves x alone if it is a struct valued field or variable, because x is then only
// part of an address computation.
func (r *rewriter) skipStructBase(x ast.Expr) {
	x = ast.Unparen(x)
	t := r.typeOf(x)
	if t == nil {
		return
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		switch x := x.(type) {
		case *ast.SelectorExpr:
			r.skip[x] = true
			r.skipStructBase(x.X)
		case *ast.Ident:
			r.skip[x] = true
		}
	}
}

func (r *rewriter) addressable(e ast.Expr) bool {
	switch x := ast.Unparen(e).(type) {
	case *ast.Ident:
		_, ok := r.info.ObjectOf(x).(*types.Var)
		return ok
	case *ast.StarExpr:
		return true
	case *ast.SelectorExpr:
		s := r.info.Selections[x]
		if s == nil {
			if id, ok := x.X.(*ast.Ident); ok {
				if _, ok := r.info.Uses[id].(*types.PkgName); ok {
					_, isVar := r.info.Uses[x.Sel].(*types.Var)
					return isVar
				}
			}
			return false
		}
		if s.Kind() != types.FieldVal {
			return false
		}
		t := r.typeOf(x.X)
		if t == nil {
			return false
		}
		if _, ok := t.Underlying().(*types.Pointer); ok {
			return true
		}
		if s.Indirect() {
			return true
		}
		return r.addressable(x.X)
	case *ast.IndexExpr:
		t := r.typeOf(x.X)
		if t == nil {
			return false
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			return true
		case *types.Pointer:
			_ = u
			return true
		case *types.Array:
			return r.addressable(x.X)
		}
		return false
	}
	return false
}

func (r *rewriter) ownType(t types.Type) (string, bool) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	named, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return "", false
	}
	pkg := named.Obj().Pkg()
	if pkg == nil || (pkg.Path() != modulePath && !strings.HasPrefix(pkg.Path(), modulePath+"/")) {
		return "", false
	}
	return pkg.Name() + "." + named.Obj().Name(), true
}

// place returns the text of a pointer to the variable e denotes, if accesses to e are to be hooked.
func (r *rewriter) place(e ast.Expr) (ptr string, key string, ok bool) {
	if !r.mode.fields {
		// only package level variables
		if id, isID := ast.Unparen(e).(*ast.Ident); isID {
			o, _ := r.info.Uses[id].(*types.Var)
			if o == nil || !r.shared[o] || o.Parent() != r.pkg.Scope() {
				return "", "", false
			}
			return "&" + id.Name, r.pkg.Name() + "." + id.Name, true
		}
		return "", "", false
	}
	switch x := ast.Unparen(e).(type) {
	case *ast.Ident:
		o, _ := r.info.Uses[x].(*types.Var)
		if o == nil || o.IsField() || !r.shared[o] {
			return "", "", false
		}
		return "&" + x.Name, r.pkg.Name() + "." + x.Name, true
	case *ast.SelectorExpr:
		s := r.info.Selections[x]
		if s == nil || s.Kind() != types.FieldVal {
			return "", "", false
		}
		if !r.addressable(x) {
			return "", "", false
		}
		t := r.typeOf(x.X)
		owner, own := r.ownType(t)
		if !own {
			return "", "", false
		}
		// a field of a local struct variable that no closure shares
		if _, isPtr := t.Underlying().(*types.Pointer); !isPtr && !s.Indirect() {
			if !r.reachesShared(x.X) {
				return "", "", false
			}
		}
		r.skipStructBase(x.X)
		return "&" + r.render(x.X) + "." + x.Sel.Name, owner + "." + x.Sel.Name, true
	}
	return "", "", false
}

// reachesShared: does the struct valued expression live in memory that other goroutines can see?
func (r *rewriter) reachesShared(e ast.Expr) bool {
	switch x := ast.Unparen(e).(type) {
	case *ast.Ident:
		o, _ := r.info.Uses[x].(*types.Var)
		return o != nil && r.shared[o]
	case *ast.StarExpr:
		return true
	case *ast.SelectorExpr:
		t := r.typeOf(x.X)
		if t == nil {
			return false
		}
		if _, ok := t.Underlying().(*types.Pointer); ok {
			return true
		}
		return r.reachesShared(x.X)
	case *ast.IndexExpr:
		return true
	}
	return false
}

func hookable(t types.Type) bool {
	if t == nil {
		return false
	}
	if named, ok := types.Unalias(t).(*types.Named); ok && named.Obj().Pkg() != nil {
		switch named.Obj().Pkg().Path() {
		case "sync", "sync/atomic":
			return false
		}
	}
	return true
}

func (r *rewriter) selector(n *ast.SelectorExpr) string {
	s := r.info.Selections[n]
	if s == nil {
		return r.text(n.Pos(), n.End()) // package qualified
	}
	if s.Kind() == types.FieldVal && hookable(s.Type()) {
		if ptr, key, ok := r.place(n); ok {
			return fmt.Sprintf("(*vsched.R(%s, %d))", ptr, r.site(n, key))
		}
	}
	r.skipStructBaseIfField(n)
	return r.render(n.X) + r.text(n.X.End(), n.End())
}

func (r *rewriter) skipStructBaseIfField(n *ast.SelectorExpr) {
	if s := r.info.Selections[n]; s != nil && s.Kind() == types.MethodVal {
		r.skipStructBase(n.X)
	}
}

func (r *rewriter) ident(n *ast.Ident) string {
	if _, isUse := r.info.Uses[n]; isUse {
		if v, ok := r.info.Uses[n].(*types.Var); ok && hookable(v.Type()) {
			if ptr, key, ok := r.place(n); ok {
				return fmt.Sprintf("(*vsched.R(%s, %d))", ptr, r.site(n, key))
			}
		}
	}
	return n.Name
}

func (r *rewriter) isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

// lhs renders an assignment target that is not hooked as a whole.
func (r *rewriter) lhs(e ast.Expr) string {
	switch x := ast.Unparen(e).(type) {
	case *ast.Ident:
		return x.Name
	case *ast.SelectorExpr:
		r.skip[x] = true
		r.skipStructBase(x.X)
		return r.render(e)
	case *ast.IndexExpr:
		// x.f[i] = v: for maps a write to the map
		if t := r.typeOf(x.X); isMap(t) {
			index := r.render(x.Index)
			if m, ok := t.Underlying().(*types.Map); ok && hasIdentity(m.Key()) && index != "nil" {
				index = "vsched.KeyOf(" + index + ")"
			}
			if p, key, ok := r.place(x.X); ok {
				return fmt.Sprintf("(*vsched.W(%s, %d))[%s]", p, r.site(e, key), index)
			}
			return fmt.Sprintf("%s[%s]", r.render(x.X), index)
		}
		return r.render(e)
	}
	return r.render(e)
}

func pureExpr(e ast.Expr) bool {
	pure := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			pure = false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				pure = false
			}
		}
		return pure
	})
	return pure
}

func (r *rewriter) assign(n *ast.AssignStmt) string {
	// v, ok := <-ch
	if len(n.Rhs) == 1 && len(n.Lhs) == 2 {
		if u, ok := ast.Unparen(n.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			return r.lhsList(n) + fmt.Sprintf(" %s vsched.Recv2(%s)", n.Tok, r.render(u.X))
		}
	}
	if n.Tok == token.DEFINE {
		// redefined variables may be shared, but a := is never the racy access of interest
		var b strings.Builder
		for i, l := range n.Lhs {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(r.text(l.Pos(), l.End()))
		}
		b.WriteString(" := ")
		for i, x := range n.Rhs {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(r.render(x))
		}
		return b.String()
	}
	if n.Tok == token.ASSIGN && len(n.Lhs) == 1 && len(n.Rhs) == 1 {
		l := n.Lhs[0]
		if !r.isBlank(l) && hookable(r.typeOf(l)) {
			if p, key, ok := r.place(l); ok {
				return fmt.Sprintf("vsched.P(%s).Set(%s, %d)", p, r.render(n.Rhs[0]), r.site(n, key))
			}
		}
		return r.lhs(l) + " = " + r.render(n.Rhs[0])
	}
	if n.Tok != token.ASSIGN {
		// compound assignment
		l := n.Lhs[0]
		op := strings.TrimSuffix(n.Tok.String(), "=")
		if pureExpr(l) {
			if p, key, ok := r.place(l); ok {
				id := r.site(n, key)
				return fmt.Sprintf("vsched.P(%s).Set(*vsched.R(%s, %d) %s (%s), %d)", p, p, id, op, r.render(n.Rhs[0]), id)
			}
		}
		return r.lhs(l) + " " + n.Tok.String() + " " + r.render(n.Rhs[0])
	}
	var b strings.Builder
	b.WriteString(r.lhsList(n))
	b.WriteString(" = ")
	for i, x := range n.Rhs {
		if i > 0 {
			b.WriteString(", ")
		}
		b.WriteString(r.render(x))
	}
	return b.String()
}

func (r *rewriter) lhsList(n *ast.AssignStmt) string {
	parts := make([]string, len(n.Lhs))
	for i, l := range n.Lhs {
		if n.Tok == token.DEFINE {
			parts[i] = r.text(l.Pos(), l.End())
			continue
		}
		if !r.isBlank(l) && hookable(r.typeOf(l)) {
			if p, key, ok := r.place(l); ok {
				parts[i] = fmt.Sprintf("*vsched.W(%s, %d)", p, r.site(l, key))
				continue
			}
		}
		parts[i] = r.lhs(l)
	}
	return strings.Join(parts, ", ")
}

func (r *rewriter) incDec(n *ast.IncDecStmt) string {
	if pureExpr(n.X) {
		if p, key, ok := r.place(n.X); ok {
			id := r.site(n, key)
			return fmt.Sprintf("vsched.P(%s).Set(*vsched.R(%s, %d) %s 1, %d)", p, p, id, n.Tok.String()[:1], id)
		}
	}
	return r.lhs(n.X) + n.Tok.String()
}

func (r *rewriter) goStmt(n *ast.GoStmt) string {
	call := n.Call
	if fl, ok := ast.Unparen(call.Fun).(*ast.FuncLit); ok && len(call.Args) == 0 {
		return fmt.Sprintf("vsched.Go(%s)", r.render(fl))
	}
	// builtin or conversion: keep it simple
	if id, ok := ast.Unparen(call.Fun).(*ast.Ident); ok {
		if _, isB := r.info.Uses[id].(*types.Builtin); isB {
			return fmt.Sprintf("vsched.Go(func() { %s })", r.render(call))
		}
	}
	var pre, args []string
	f := r.fresh("f")
	pre = append(pre, fmt.Sprintf("%s := %s", f, r.render(call.Fun)))
	for _, a := range call.Args {
		tv := r.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			args = append(args, r.render(a))
			continue
		}
		v := r.fresh("a")
		pre = append(pre, fmt.Sprintf("%s := %s", v, r.render(a)))
		args = append(args, v)
	}
	ell := ""
	if call.Ellipsis.IsValid() {
		ell = "..."
	}
	return fmt.Sprintf("{ %s; vsched.Go(func() { %s(%s%s) }) }", strings.Join(pre, "; "), f, strings.Join(args, ", "), ell)
}

func (r *rewriter) rangeStmt(n *ast.RangeStmt) string {
	t := r.typeOf(n.X)
	body := func(prefix string) string {
		return "{ " + prefix + r.between(n.Body.Lbrace+1, n.Body.End(), stmts(n.Body.List))
	}
	switch {
	case isChan(t):
		ch := r.fresh("c")
		v, ok := r.fresh("v"), r.fresh("ok")
		head := fmt.Sprintf("for %s := %s; ; ", ch, r.render(n.X))
		prefix := fmt.Sprintf("%s, %s := vsched.Recv2(%s); if !%s { break }; ", v, ok, ch, ok)
		if n.Key != nil && !r.isBlank(n.Key) {
			if n.Tok == token.DEFINE {
				prefix += fmt.Sprintf("%s := %s; ", n.Key.(*ast.Ident).Name, v)
			} else {
				prefix += fmt.Sprintf("%s = %s; ", r.lhs(n.Key), v)
			}
		} else {
			prefix += "_ = " + v + "; "
		}
		return head + body(prefix)
	case isMap(t) && n.Key != nil:
		k, ok, v := r.fresh("k"), r.fresh("ok"), r.fresh("v")
		head := fmt.Sprintf("for _, %s := range vsched.MapKeys(%s) ", k, r.render(n.X))
		prefix := fmt.Sprintf("%s, %s := %s.Map[%s.Key]; if !%s { continue }; _ = %s; ", v, ok, k, k, ok, v)
		op := "="
		if n.Tok == token.DEFINE {
			op = ":="
		}
		name := func(e ast.Expr) string {
			if n.Tok == token.DEFINE {
				return e.(*ast.Ident).Name
			}
			return r.lhs(e)
		}
		if !r.isBlank(n.Key) {
			prefix += fmt.Sprintf("%s %s %s.Key; ", name(n.Key), op, k)
		}
		if n.Value != nil && !r.isBlank(n.Value) {
			prefix += fmt.Sprintf("%s %s %s; ", name(n.Value), op, v)
		}
		return head + body(prefix)
	}
	// anything else: render the operand and the body only
	return r.text(n.Pos(), n.X.Pos()) + r.render(n.X) + r.text(n.X.End(), n.Body.Pos()) + r.render(n.Body)
}

func stmts(list []ast.Stmt) []ast.Node {
	result := make([]ast.Node, len(list))
	for i, s := range list {
		result[i] = s
	}
	return result
}

func (r *rewriter) selectStmt(n *ast.SelectStmt) string {
	if len(n.Body.List) == 0 {
		return "vsched.BlockForever()"
	}
	var names, inits []string
	hasDefault := false
	type clause struct {
		cc     *ast.CommClause
		prefix string
		idx    int
	}
	var clauses []clause
	idx := 0
	for _, s := range n.Body.List {
		cc := s.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = true
			clauses = append(clauses, clause{cc, "", -1})
			continue
		}
		name := r.fresh("s")
		prefix := ""
		switch c := cc.Comm.(type) {
		case *ast.SendStmt:
			inits = append(inits, fmt.Sprintf("vsched.SendCase(%s)(%s)", r.render(c.Chan), r.render(c.Value)))
		case *ast.ExprStmt:
			u := ast.Unparen(c.X).(*ast.UnaryExpr)
			inits = append(inits, fmt.Sprintf("vsched.RecvCase(%s)", r.render(u.X)))
		case *ast.AssignStmt:
			u := ast.Unparen(c.Rhs[0]).(*ast.UnaryExpr)
			inits = append(inits, fmt.Sprintf("vsched.RecvCase(%s)", r.render(u.X)))
			vals := []string{name + ".V", name + ".OK"}[:len(c.Lhs)]
			prefix = fmt.Sprintf("%s %s %s; ", r.lhsList(c), c.Tok, strings.Join(vals, ", "))
		}
		names = append(names, name)
		clauses = append(clauses, clause{cc, prefix, idx})
		idx++
	}
	var b strings.Builder
	b.WriteString("switch ")
	if len(names) > 0 {
		fmt.Fprintf(&b, "%s := %s; ", strings.Join(names, ", "), strings.Join(inits, ", "))
	}
	fmt.Fprintf(&b, "vsched.Select(%v", hasDefault)
	for _, nm := range names {
		b.WriteString(", " + nm)
	}
	b.WriteString(") {")
	pos := n.Body.Lbrace + 1
	for _, c := range clauses {
		b.WriteString(r.text(pos, c.cc.Pos()))
		if c.idx == -1 {
			b.WriteString("default:")
		} else {
			fmt.Fprintf(&b, "case %d:", c.idx)
		}
		b.WriteString(" " + c.prefix)
		b.WriteString(r.between(c.cc.Colon+1, c.cc.End(), stmts(c.cc.Body)))
		pos = c.cc.End()
	}
	b.WriteString(r.text(pos, n.Body.Rbrace))
	if !hasDefault {
		b.WriteString("; default: panic(\"unreachable\")")
	}
	b.WriteString("}")
	return b.String()
}
