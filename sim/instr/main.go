// Command instr prepares a simulated build of the repository.
//
// It never changes the repository: it parses and type-checks the current
// working tree, writes instrumented copies of the module's own packages into a
// scratch directory and emits an overlay file for "go build -overlay".
//
// What it inserts (every edit stays on its original line, so positions in
// stack traces and race reports are those of the original source):
//
//   - a scheduling point before every statement and in every empty loop body;
//   - goroutine starts, sleeping and the wall clock, process exit, package
//     "sync", package "maps", map iteration and channel operations are routed
//     to the simulator;
//   - every package gets a reset function which zeroes and re-initialises all
//     its package variables in the language's initialisation order and reruns
//     its init functions, so that a simulated process can be restarted.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	Standard   bool
	GoFiles    []string
	Module     *struct {
		Path string
		Main bool
		Dir  string
	}
}

type edit struct {
	off, del int
	text     string
	seq      int
}

type site struct {
	ID   int    `json:"id"`
	Pkg  string `json:"pkg"`
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
}

var (
	repo    = flag.String("repo", "/repo", "repository")
	simDir  = flag.String("sim", "/verif/sim", "simulator sources")
	out     = flag.String("out", "", "scratch output directory")
	target  = flag.String("target", "lib", "lib or gui")
	plain   = flag.String("plain", "", "files (relative to the repository) to leave without scheduling points")
	modPath = ""
	sites   []site
	overlay = map[string]string{}
)

const rt = "zzsimrt"

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(3)
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

func main() {
	flag.Parse()
	if *out == "" {
		die("-out is required")
	}
	must(os.MkdirAll(*out, 0o755))
	gm, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	must(err)
	// range-over-func is used for map iteration, hence language version 1.23.
	gm = regexp.MustCompile(`(?m)^go 1\.\d+(\.\d+)?$`).ReplaceAll(gm, []byte("go 1.23.0"))
	gm = regexp.MustCompile(`(?m)^toolchain .*$`).ReplaceAll(gm, nil)
	must(os.WriteFile(filepath.Join(*out, "go.mod"), gm, 0o644))
	gs, err := os.ReadFile(filepath.Join(*repo, "go.sum"))
	must(err)
	must(os.WriteFile(filepath.Join(*out, "go.sum"), gs, 0o644))

	targets := []string{"./bip32", "./bip39", "./bip44", "./util"}
	mainDir := ""
	if *target == "gui" {
		targets = append(targets, "./examples/ui/one")
		mainDir = filepath.Join(*repo, "examples/ui/one")
	}
	args := append([]string{"list", "-modfile", filepath.Join(*out, "go.mod"), "-export", "-deps",
		"-json=ImportPath,Dir,Name,Export,Standard,GoFiles,Module"}, targets...)
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	raw, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	dec := json.NewDecoder(bytes.NewReader(raw))
	var pkgs []*listPkg
	exports := map[string]string{}
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else {
			must(err)
		}
		pkgs = append(pkgs, p)
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Main {
			modPath = p.Module.Path
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(e)
	})
	n := 0
	for _, p := range pkgs {
		if p.Module == nil || !p.Module.Main {
			continue
		}
		n++
		instrument(fset, imp, p, p.Dir == mainDir)
	}
	if n == 0 {
		die("no packages of the main module found")
	}
	// Simulator sources.
	zz := filepath.Join(*repo, "zzverif")
	for _, d := range []string{"simrt", "simsync", "simmaps", "simos", "ref", "core", "libsim", "simapp", "guisim"} {
		if (d == "simapp" || d == "guisim") && *target != "gui" {
			continue
		}
		if d == "libsim" && *target != "lib" {
			continue
		}
		es, err := os.ReadDir(filepath.Join(*simDir, d))
		must(err)
		for _, e := range es {
			if strings.HasSuffix(e.Name(), ".go") {
				overlay[filepath.Join(zz, d, e.Name())] = filepath.Join(*simDir, d, e.Name())
			}
		}
	}
	out1, err := exec.Command("go", "env", "GOROOT").Output()
	must(err)
	goroot := strings.TrimSpace(string(out1))
	if *target == "lib" {
		overlay[filepath.Join(goroot, "src/sync/pool.go")] = filepath.Join(*simDir, "std", "pool.go")
	}
	stdRandom(goroot, overlay)
	ov, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), ov, 0o644))
	sj, _ := json.Marshal(sites)
	must(os.WriteFile(filepath.Join(*out, "sites.json"), sj, 0o644))
	fmt.Printf("instr: %d packages, %d scheduling points\n", n, len(sites))
}

// stdRandom puts the random numbers the standard library takes from the
// runtime (math/rand, hash/maphash) under the simulator's control. Package
// simrt sets the hooks.
func stdRandom(goroot string, overlay map[string]string) {
	const rnd = "//go:linkname runtime_rand runtime.rand\nfunc runtime_rand() uint64\n"
	const hsh = "//go:linkname runtime_memhash runtime.memhash\n//go:noescape\nfunc runtime_memhash(p unsafe.Pointer, seed, s uintptr) uintptr\n"
	for i, n := range []string{"math/rand/rand.go", "math/rand/v2/rand.go", "hash/maphash/maphash.go", "hash/maphash/maphash_runtime.go"} {
		file := filepath.Join(goroot, "src", n)
		b, err := os.ReadFile(file)
		if err != nil || !strings.Contains(string(b), rnd) {
			continue
		}
		t := strings.Replace(string(b), rnd, `//go:linkname runtime_rand0 runtime.rand
func runtime_rand0() uint64

// SimRand replaces the runtime's random numbers.
var SimRand func() uint64

func runtime_rand() uint64 {
	if SimRand != nil {
		return SimRand()
	}
	return runtime_rand0()
}
`, 1)
		t = strings.Replace(t, hsh, `func runtime_memhash(p unsafe.Pointer, seed, s uintptr) uintptr {
	h := uint64(seed) ^ 14695981039346656037
	for _, c := range unsafe.Slice((*byte)(p), s) {
		h = (h ^ uint64(c)) * 1099511628211
	}
	h ^= h >> 32
	h *= 0x9e3779b97f4a7c15
	return uintptr(h ^ h>>29)
}
`, 1)
		f := filepath.Join(*out, fmt.Sprintf("std_%d.go", i))
		must(os.WriteFile(f, []byte(t), 0o644))
		overlay[file] = f
	}
}

type fileCtx struct {
	name     string // base name
	src      []byte
	ast      *ast.File
	edits    []edit
	keep     map[string]bool
	keepType map[string]bool
	tail     strings.Builder
}

func (f *fileCtx) ins(off int, text string) {
	f.edits = append(f.edits, edit{off: off, text: text, seq: len(f.edits)})
}
func (f *fileCtx) rep(off, del int, text string) {
	f.edits = append(f.edits, edit{off: off, del: del, text: text, seq: len(f.edits)})
}

func instrument(fset *token.FileSet, imp types.Importer, p *listPkg, isMain bool) {
	var files []*fileCtx
	var asts []*ast.File
	for _, g := range p.GoFiles {
		full := filepath.Join(p.Dir, g)
		src, err := os.ReadFile(full)
		must(err)
		a, err := parser.ParseFile(fset, full, src, parser.ParseComments)
		must(err)
		files = append(files, &fileCtx{name: g, src: src, ast: a, keep: map[string]bool{}, keepType: map[string]bool{}})
		asts = append(asts, a)
	}
	info := &types.Info{
		Types:     map[ast.Expr]types.TypeAndValue{},
		Uses:      map[*ast.Ident]types.Object{},
		Defs:      map[*ast.Ident]types.Object{},
		InitOrder: nil,
	}
	conf := types.Config{Importer: imp}
	tp, err := conf.Check(p.ImportPath, fset, asts, info)
	must(err)
	_ = tp

	ic := &instrCtx{fset: fset, info: info, pkg: p}
	gen, simOS := "", false
	if p.Name == "bip44" && *target == "lib" && !strings.Contains(*plain, "bip44/") {
		if simOS = ic.simOS(); simOS {
			gen = ic.generator(tp)
		}
	}
	ic.os = gen != ""
	for _, f := range files {
		ic.plain = false
		for _, x := range strings.Split(*plain, ",") {
			if x != "" && filepath.Join(*repo, x) == filepath.Join(p.Dir, f.name) {
				ic.plain = true
			}
		}
		ic.file(f)
	}
	ic.resets(files)
	if gen != "" {
		files[len(files)-1].tail.WriteString(gen)
	}

	dir := p.Dir
	outDir := filepath.Join(*out, "src", strings.TrimPrefix(p.Dir, *repo))
	if isMain {
		dir = filepath.Join(*repo, "zzverif", "guiapp")
	}
	must(os.MkdirAll(outDir, 0o755))
	for _, f := range files {
		if isMain {
			pk := fset.Position(f.ast.Name.Pos()).Offset
			f.rep(pk, len(f.ast.Name.Name), "guiapp")
		}
		o := filepath.Join(outDir, f.name)
		must(os.WriteFile(o, f.apply(), 0o644))
		overlay[filepath.Join(dir, f.name)] = o
	}
}

func (f *fileCtx) apply() []byte {
	sort.SliceStable(f.edits, func(i, j int) bool {
		if f.edits[i].off != f.edits[j].off {
			return f.edits[i].off < f.edits[j].off
		}
		return f.edits[i].seq < f.edits[j].seq
	})
	var b bytes.Buffer
	pos := 0
	for _, e := range f.edits {
		if e.off < pos {
			die("%s: overlapping edits at %d", f.name, e.off)
		}
		b.Write(f.src[pos:e.off])
		b.WriteString(e.text)
		pos = e.off + e.del
	}
	b.Write(f.src[pos:])
	b.WriteString("\n")
	b.WriteString(f.tail.String())
	return b.Bytes()
}

type instrCtx struct {
	fset *token.FileSet
	info *types.Info
	pkg  *listPkg
	fn   string
	// plain leaves a file as it is except for import replacement and resets.
	plain bool
	os    bool // package os is the simulated one
}

// simOS reports whether everything the package uses of package os is
// simulated.
func (c *instrCtx) simOS() bool {
	have := map[string]bool{}
	ps, err := parser.ParseDir(token.NewFileSet(), filepath.Join(*simDir, "simos"), nil, 0)
	must(err)
	for _, p := range ps {
		for _, f := range p.Files {
			for n := range f.Scope.Objects {
				have[n] = true
			}
		}
	}
	for id, o := range c.info.Uses {
		if p := o.Pkg(); p == nil || p.Path() != "os" && p.Path() != "io/ioutil" || p.Scope().Lookup(o.Name()) != o {
			continue
		}
		if selMap["os."+id.Name] == "" && !have[id.Name] {
			return false
		}
	}
	return true
}

// generator finds the function that writes the coin table, and the embedded
// document it reads, and returns the code which tells the simulator.
func (c *instrCtx) generator(tp *types.Package) string {
	var doc, name string
	type cand struct {
		name  string
		calls map[types.Object]bool
		os    bool
	}
	fns := map[types.Object]*cand{}
	for id, o := range c.info.Defs {
		fn, ok := o.(*types.Func)
		if !ok || id.Name == "init" {
			continue
		}
		fns[fn] = &cand{name: id.Name, calls: map[types.Object]bool{}}
	}
	for _, n := range tp.Scope().Names() {
		v, ok := tp.Scope().Lookup(n).(*types.Var)
		if !ok {
			continue
		}
		if v.Type().String() == "embed.FS" {
			doc = n
		}
		if v.Type().String() == "string" && regexp.MustCompile("(?i)file.*name").MatchString(n) {
			name = n
		}
	}
	if doc == "" || name == "" {
		return ""
	}
	for o, k := range fns {
		sc := o.(*types.Func).Scope()
		for id, u := range c.info.Uses {
			if !sc.Contains(id.Pos()) {
				continue
			}
			if u.Pkg() != nil && (u.Pkg().Path() == "os" || u.Pkg().Path() == "io/ioutil") && !strings.HasPrefix(id.Name, "Exit") {
				k.os = true
			}
			if fns[u] != nil && u != o {
				k.calls[u] = true
			}
		}
	}
	called := map[types.Object]bool{}
	for range fns { // what calls something that uses files uses files
		for _, k := range fns {
			for u := range k.calls {
				called[u] = true
				k.os = k.os || fns[u].os
			}
		}
	}
	best := ""
	for o, k := range fns {
		s := o.Type().(*types.Signature)
		if !k.os || called[o] || s.Recv() != nil || s.Params().Len() > 0 || s.Results().Len() > 1 ||
			s.Results().Len() == 1 && s.Results().At(0).Type().String() != "error" {
			continue
		}
		if best != "" { // not the only one
			return ""
		}
		best = k.name
	}
	if best == "" {
		return ""
	}
	return fmt.Sprintf("func init() { %s.CoinGenerator, %s.CoinDocument, %s.CoinFileName = %s, &%s, &%s }\n", rt, rt, rt, best, doc, name)
}

func (c *instrCtx) off(p token.Pos) int { return c.fset.Position(p).Offset }

func (c *instrCtx) newSite(pos token.Pos) int {
	ps := c.fset.Position(pos)
	id := len(sites)
	sites = append(sites, site{ID: id, Pkg: c.pkg.ImportPath, File: filepath.Base(ps.Filename), Line: ps.Line, Func: c.fn})
	return id
}

func (c *instrCtx) pkgSel(e ast.Expr) (string, string) {
	s, ok := e.(*ast.SelectorExpr)
	if !ok {
		return "", ""
	}
	id, ok := s.X.(*ast.Ident)
	if !ok {
		return "", ""
	}
	pn, ok := c.info.Uses[id].(*types.PkgName)
	if !ok {
		return "", ""
	}
	return pn.Imported().Path(), s.Sel.Name
}

var selMap = map[string]string{
	"time.Now":             "Now",
	"time.Since":           "Since",
	"time.Until":           "Until",
	"time.Sleep":           "Sleep",
	"os.Exit":              "Exit",
	"log.Fatal":            "Fatal",
	"log.Fatalf":           "Fatalf",
	"log.Fatalln":          "Fatalln",
	"runtime.Gosched":      "Gosched",
	"runtime.SetFinalizer": "SetFinalizer",
	"runtime.GC":           "GC",
	"runtime.NumCPU":       "NumCPU",
	"runtime.GOMAXPROCS":   "GOMAXPROCS",
	"runtime.NumGoroutine": "NumGoroutine",
	"time.After":           "After",
	"time.AfterFunc":       "AfterFunc",
	"time.NewTimer":        "NewTimer",
	"time.NewTicker":       "NewTicker",
	"time.Tick":            "Tick",
}

var typeMap = map[string]string{
	"time.Timer":  "Timer",
	"time.Ticker": "Ticker",
}

func (c *instrCtx) file(f *fileCtx) {
	// Imports.
	nameEnd := c.off(f.ast.Name.End())
	f.ins(nameEnd, fmt.Sprintf("; import %s %q", rt, modPath+"/zzverif/simrt"))
	for _, im := range f.ast.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		repl := map[string][2]string{
			"os":            {"os", "simos"},
			"io/ioutil":     {"ioutil", "simos"},
			"sync":          {"sync", "simsync"},
			"maps":          {"maps", "simmaps"},
			"gioui.org/app": {"app", "simapp"},
		}[path]
		if repl[0] == "" || repl[1] == "simos" && !c.os {
			continue
		}
		if path == "gioui.org/app" && *target != "gui" {
			continue
		}
		txt := strconv.Quote(modPath + "/zzverif/" + repl[1])
		if im.Name == nil {
			txt = repl[0] + " " + txt
		}
		f.rep(c.off(im.Path.Pos()), len(im.Path.Value), txt)
	}
	for _, d := range f.ast.Decls {
		if c.plain {
			break
		}
		switch d := d.(type) {
		case *ast.FuncDecl:
			c.fn = d.Name.Name
			if d.Recv != nil && len(d.Recv.List) > 0 {
				c.fn = types.ExprString(d.Recv.List[0].Type) + "." + c.fn
			}
			if d.Body != nil {
				c.walk(f, d.Body)
			}
		case *ast.GenDecl:
			c.fn = "package initialisation"
			c.walk(f, d)
		}
	}
	f.tail.WriteString("var _ = " + rt + ".Y\n")
	keys := []string{}
	for k := range f.keep {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		f.tail.WriteString("var _ = " + k + "\n")
	}
	keys = keys[:0]
	for k := range f.keepType {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		f.tail.WriteString("var _ " + k + "\n")
	}
}

func (c *instrCtx) isMap(e ast.Expr) bool {
	t := c.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}
func (c *instrCtx) isChan(e ast.Expr) bool {
	t := c.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (c *instrCtx) stmts(f *fileCtx, list []ast.Stmt) {
	for _, s := range list {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		f.ins(c.off(s.Pos()), fmt.Sprintf("%s.Y(%d);", rt, c.newSite(s.Pos())))
	}
}

func (c *instrCtx) walk(f *fileCtx, root ast.Node) {
	selectComm := map[ast.Node]bool{}
	recv2 := map[*ast.UnaryExpr]bool{}
	var selects []*ast.SelectStmt
	defer func() {
		for i := len(selects) - 1; i >= 0; i-- { // inner ones first
			c.selectStmt(f, selects[i])
		}
	}()
	ast.Inspect(root, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			c.stmts(f, n.List)
		case *ast.CaseClause:
			c.stmts(f, n.Body)
		case *ast.CommClause:
			if n.Comm != nil {
				markComm(n.Comm, selectComm)
			}
			c.stmts(f, n.Body)
		case *ast.SelectStmt:
			selects = append(selects, n)
		case *ast.ForStmt:
			if len(n.Body.List) == 0 {
				f.ins(c.off(n.Body.Lbrace)+1, fmt.Sprintf("%s.Y(%d);", rt, c.newSite(n.Body.Lbrace)))
			}
		case *ast.RangeStmt:
			if len(n.Body.List) == 0 {
				f.ins(c.off(n.Body.Lbrace)+1, fmt.Sprintf("%s.Y(%d);", rt, c.newSite(n.Body.Lbrace)))
			}
			if c.isMap(n.X) {
				f.ins(c.off(n.X.Pos()), rt+".RangeMap(")
				f.ins(c.off(n.X.End()), ")")
			} else if c.isChan(n.X) {
				f.ins(c.off(n.X.Pos()), rt+".RangeChan(")
				f.ins(c.off(n.X.End()), ")")
			}
		case *ast.GoStmt:
			c.goStmt(f, n)
		case *ast.SendStmt:
			if !selectComm[n] {
				f.ins(c.off(n.Pos()), rt+".NSend(")
				f.rep(c.off(n.Arrow), 2, ")(")
				f.ins(c.off(n.End()), ")")
			}
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				if u, ok := unparen(n.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					recv2[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				if u, ok := unparen(n.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					recv2[u] = true
				}
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && !selectComm[n] {
				name := "NRecv"
				if recv2[n] {
					name = "NRecv2"
				}
				f.rep(c.off(n.OpPos), 2, rt+"."+name+"(")
				f.ins(c.off(n.End()), ")")
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "close" {
				if _, ok := c.info.Uses[id].(*types.Builtin); ok {
					f.rep(c.off(id.Pos()), 5, rt+".NClose")
				}
			}
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "len" && len(n.Args) == 1 && c.isChan(n.Args[0]) {
				if _, ok := c.info.Uses[id].(*types.Builtin); ok {
					f.rep(c.off(id.Pos()), 3, rt+".ChanLen")
				}
			}
		case *ast.SelectorExpr:
			pp, nm := c.pkgSel(n)
			if r := selMap[pp+"."+nm]; pp != "" && r != "" {
				f.rep(c.off(n.Pos()), int(n.End()-n.Pos()), rt+"."+r)
				f.keep[string(f.src[c.off(n.Pos()):c.off(n.End())])] = true
				return false
			}
			if r := typeMap[pp+"."+nm]; pp != "" && r != "" {
				f.rep(c.off(n.Pos()), int(n.End()-n.Pos()), rt+"."+r)
				f.keepType[string(f.src[c.off(n.Pos()):c.off(n.End())])] = true
				return false
			}
		}
		return true
	})
}

// selectStmt turns a select statement into a switch over simrt.Select. The
// edits inside it have been made.
func (c *instrCtx) selectStmt(f *fileCtx, n *ast.SelectStmt) {
	if len(n.Body.List) == 0 {
		f.rep(c.off(n.Select), 6, "for")
		f.ins(c.off(n.Body.Lbrace)+1, rt+".Forever()")
		return
	}
	var names, inits []string
	def := false
	for _, s := range n.Body.List {
		cc := s.(*ast.CommClause)
		if cc.Comm == nil {
			def = true
			continue
		}
		k := len(names)
		name := fmt.Sprintf("zzc%d", k)
		lo, hi := c.off(cc.Comm.Pos()), c.off(cc.Comm.End())
		take := ""
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			inits = append(inits, fmt.Sprintf("%s.W(%s)(%s)", rt, c.editedText(f, s.Chan), c.editedText(f, s.Value)))
		case *ast.ExprStmt:
			inits = append(inits, fmt.Sprintf("%s.R(%s)", rt, c.editedText(f, unparen(s.X).(*ast.UnaryExpr).X)))
		case *ast.AssignStmt:
			inits = append(inits, fmt.Sprintf("%s.R(%s)", rt, c.editedText(f, unparen(s.Rhs[0]).(*ast.UnaryExpr).X)))
			var lhs []string
			for _, l := range s.Lhs {
				lhs = append(lhs, c.editedText(f, l))
			}
			take = fmt.Sprintf("%s %s %s.V", strings.Join(lhs, ", "), s.Tok, name)
			if len(lhs) == 2 {
				take += ", " + name + ".OK"
			}
			take += ";"
		}
		names = append(names, name)
		// case v := <-c:  ->  case 0: v := zzc0.V;
		var rest []edit
		for _, ed := range f.edits {
			if ed.off >= lo && ed.off+ed.del <= hi {
				continue
			}
			rest = append(rest, ed)
		}
		f.edits = rest
		f.rep(lo, hi-lo, strconv.Itoa(k))
		if take != "" {
			// Before anything else at this place.
			f.edits = append([]edit{{off: c.off(cc.Colon) + 1, text: take, seq: -1}}, f.edits...)
		}
	}
	head := "switch "
	if len(names) > 0 {
		head += strings.Join(names, ", ") + " := " + strings.Join(inits, ", ") + "; "
	}
	head += fmt.Sprintf("%s.Select(%s) ", rt, strings.Join(append([]string{strconv.FormatBool(def)}, names...), ", "))
	f.rep(c.off(n.Select), 6, head)
	if !def {
		f.ins(c.off(n.Body.Rbrace), `;default: panic("unreachable");`)
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func markComm(s ast.Stmt, m map[ast.Node]bool) {
	switch s := s.(type) {
	case *ast.SendStmt:
		m[s] = true
	case *ast.ExprStmt:
		m[unparen(s.X)] = true
	case *ast.AssignStmt:
		for _, r := range s.Rhs {
			m[unparen(r)] = true
		}
	}
}

func (c *instrCtx) goStmt(f *fileCtx, n *ast.GoStmt) {
	call := n.Call
	if id, ok := call.Fun.(*ast.Ident); ok {
		if _, ok := c.info.Uses[id].(*types.Builtin); ok {
			f.rep(c.off(n.Go), 2, rt+".GoR(func(){")
			f.ins(c.off(n.End()), "})")
			return
		}
	}
	name := "GoR"
	if call.Ellipsis.IsValid() {
		name = "GoRV"
	}
	f.rep(c.off(n.Go), 2, rt+"."+name+"(")
	// f(a, b)  ->  GoR(f, a, b)
	if len(call.Args) > 0 {
		f.rep(c.off(call.Lparen), 1, ",")
		if call.Ellipsis.IsValid() {
			f.rep(c.off(call.Ellipsis), 3, "")
		}
	} else {
		f.rep(c.off(call.Lparen), 1, "")
	}
}

// resets writes, at the end of each file, one function per package variable
// initialiser and one aggregate reset function for the package.
func (c *instrCtx) resets(files []*fileCtx) {
	type ref struct {
		f    *fileCtx
		expr ast.Expr
	}
	where := map[ast.Expr]*fileCtx{}
	embedded := map[string]bool{}
	var zero []string
	for _, f := range files {
		for _, d := range f.ast.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, sp := range g.Specs {
				vs := sp.(*ast.ValueSpec)
				emb := hasEmbed(g.Doc) || hasEmbed(vs.Doc)
				for _, nm := range vs.Names {
					if nm.Name == "_" {
						continue
					}
					if emb {
						embedded[nm.Name] = true
						continue
					}
					zero = append(zero, nm.Name)
				}
				for _, v := range vs.Values {
					where[v] = f
				}
			}
		}
	}
	var order []string
	for i, in := range c.info.InitOrder {
		f := where[in.Rhs]
		if f == nil {
			die("%s: no file for initialiser", c.pkg.ImportPath)
		}
		var lhs []string
		skip := false
		for _, v := range in.Lhs {
			if embedded[v.Name()] {
				skip = true
			}
			lhs = append(lhs, v.Name())
		}
		if skip {
			continue
		}
		fn := fmt.Sprintf("zzreset%d", i)
		order = append(order, fn)
		// The instrumented text of the initialiser is copied, so that edits
		// inside it (closures) are kept.
		txt := c.editedText(f, in.Rhs)
		fmt.Fprintf(&f.tail, "func %s() { %s = %s }\n", fn, strings.Join(lhs, ", "), txt)
	}
	k := 0
	for _, f := range files {
		for _, d := range f.ast.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || fd.Name.Name != "init" {
				if ok && fd.Recv == nil && fd.Name.Name == "main" && c.pkg.Name == "main" {
					f.rep(c.off(fd.Name.Pos()), 4, "ZZMain")
				}
				continue
			}
			fn := fmt.Sprintf("zzinit%d", k)
			k++
			f.rep(c.off(fd.Name.Pos()), 4, fn)
			fmt.Fprintf(&f.tail, "func init() { %s() }\n", fn)
			order = append(order, fn)
		}
	}
	last := files[len(files)-1]
	fmt.Fprintf(&last.tail, "func zzResetAll() {\n")
	for _, z := range zero {
		fmt.Fprintf(&last.tail, "\t%s.Zero(&%s)\n", rt, z)
	}
	for _, o := range order {
		fmt.Fprintf(&last.tail, "\t%s()\n", o)
	}
	fmt.Fprintf(&last.tail, "}\nfunc init() { %s.RegisterReset(%q, zzResetAll) }\n", rt, c.pkg.ImportPath)
}

func hasEmbed(g *ast.CommentGroup) bool {
	if g == nil {
		return false
	}
	for _, l := range g.List {
		if strings.HasPrefix(l.Text, "//go:embed") {
			return true
		}
	}
	return false
}

func (c *instrCtx) editedText(f *fileCtx, e ast.Expr) string {
	lo, hi := c.off(e.Pos()), c.off(e.End())
	sub := &fileCtx{src: f.src[lo:hi], name: f.name}
	for _, ed := range f.edits {
		if ed.off >= lo && ed.off+ed.del <= hi && !(ed.off == hi && ed.del == 0 && ed.text[0] != ')') {
			ed.off -= lo
			sub.edits = append(sub.edits, ed)
		}
	}
	return string(bytes.TrimRight(sub.apply(), "\n"))
}
