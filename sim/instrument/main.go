// Command instrument copies the packages of the module in -repo, with the
// seams the simulator needs inserted into the copies, and writes an overlay
// that makes `go build` use the copies. Nothing in the repository changes.
//
// Inserted:
//   - a yield point in front of every statement (scheduling, step budget,
//     statement coverage);
//   - an allocation seam around every non-constant size given to make;
//   - a seam for the iteration order of maps;
//   - imports of sync, os, log, io/ioutil are redirected to simulated ones;
//   - go statements start simulated tasks, and channel operations go through
//     the simulator.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type pkgInfo struct {
	Dir        string
	ImportPath string
	Name       string
	GoFiles    []string
	Export     string
	Standard   bool
	ImportMap  map[string]string
	Module     *struct {
		Path string
		Main bool
	}
	Error *struct{ Err string }
}

type edit struct {
	pos, end int // byte offsets replaced (pos==end: insertion)
	text     string
	seq      int
}

type site struct {
	ID   int    `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	Kind string `json:"kind"`
}

type meta struct {
	Sites    []site   `json:"sites"`
	Channels bool     `json:"channels"`
	GoStmts  int      `json:"go_stmts"`
	Warnings []string `json:"warnings"`
	Packages []string `json:"packages"`
	Module   string   `json:"module"`
}

var (
	m        meta
	noImport bool
	module   string
	virt     string
)

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instrument: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	out := flag.String("out", "", "output directory")
	sim := flag.String("sim", "", "directory holding the simulator packages")
	flag.BoolVar(&noImport, "plain-imports", false, "do not redirect os/log/ioutil outside of the command line")
	flag.Parse()
	pkgs := list(*repo)
	exports := map[string]string{}
	var mine []*pkgInfo
	for _, p := range pkgs {
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
		if p.Module != nil && p.Module.Main {
			module = p.Module.Path
			mine = append(mine, p)
		}
	}
	if module == "" {
		die("no main module packages found")
	}
	m.Module = module
	virt = module + "/verifsim"
	overlay := map[string]string{}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	for _, p := range mine {
		rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, module), "/")
		isCLI := rel == "cmd/rap-cli"
		if strings.HasPrefix(rel, "internal/mocks") || (strings.HasPrefix(rel, "cmd/") && !isCLI && p.Name == "main") {
			continue
		}
		m.Packages = append(m.Packages, p.ImportPath)
		instrumentPkg(fset, imp, p, rel, isCLI, *repo, *out, overlay)
	}
	// virtual simulator packages
	for _, name := range []string{"simrt", "simsync", "simio", "simos", "simioutil", "simlog", "harness"} {
		files, _ := filepath.Glob(filepath.Join(*sim, name, "*.go"))
		if len(files) == 0 {
			die("no files for %s", name)
		}
		for _, f := range files {
			overlay[filepath.Join(*repo, "verifsim", name, filepath.Base(f))] = f
		}
	}
	mj, _ := json.Marshal(m)
	gen := filepath.Join(*out, "gen_sites.go")
	write(gen, "package simrt\n\nfunc init() { MetaJSON = "+strconv.Quote(string(mj))+"; initMeta() }\n")
	overlay[filepath.Join(*repo, "verifsim", "simrt", "gen_sites.go")] = gen
	oj, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	write(filepath.Join(*out, "overlay.json"), string(oj))
	write(filepath.Join(*out, "meta.json"), string(mj))
}

func write(p, s string) {
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
		die("%v", err)
	}
}

func list(repo string) []*pkgInfo {
	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json=Dir,ImportPath,Name,GoFiles,Export,Standard,ImportMap,Module,Error", "./...")
	cmd.Dir = repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	dec := json.NewDecoder(strings.NewReader(string(b)))
	var out []*pkgInfo
	for {
		p := &pkgInfo{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		out = append(out, p)
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].ImportPath < out[j].ImportPath })
	return out
}

var sizes = types.SizesFor("gc", "amd64")

func instrumentPkg(fset *token.FileSet, imp types.Importer, p *pkgInfo, rel string, isCLI bool, repo, out string, overlay map[string]string) {
	var files []*ast.File
	srcs := map[*ast.File][]byte{}
	names := map[*ast.File]string{}
	for _, g := range p.GoFiles {
		path := filepath.Join(p.Dir, g)
		src, err := os.ReadFile(path)
		if err != nil {
			die("%v", err)
		}
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			die("parse %s: %v", path, err)
		}
		files = append(files, f)
		srcs[f] = src
		names[f] = path
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{},
		Uses:  map[*ast.Ident]types.Object{},
		Defs:  map[*ast.Ident]types.Object{},
	}
	cfg := types.Config{Importer: mapImporter{imp, p.ImportMap}, Sizes: sizes, Error: func(err error) {}}
	if _, err := cfg.Check(p.ImportPath, fset, files, info); err != nil {
		die("type check %s: %v", p.ImportPath, err)
	}
	for _, f := range files {
		path := names[f]
		base := filepath.Base(path)
		gen := strings.HasSuffix(base, ".pb.go")
		ins := &inst{fset: fset, info: info, file: f, src: srcs[f], isCLI: isCLI, relFile: filepath.Join(rel, base), pkg: p}
		if !gen {
			ins.run()
		} else {
			// generated protobuf code keeps running, without yield points
			ins.imports()
		}
		if isCLI {
			ins.add(int(f.Name.Pos()), int(f.Name.End()), "simcli")
		}
		text := ins.apply()
		if isCLI {
			dst := filepath.Join(out, "src", "verifsim", "simcli", base)
			write(dst, text)
			overlay[filepath.Join(repo, "verifsim", "simcli", base)] = dst
			continue
		}
		dst := filepath.Join(out, "src", rel, base)
		write(dst, text)
		overlay[path] = dst
	}
	if isCLI {
		dst := filepath.Join(out, "src", "verifsim", "simcli", "zz_sim.go")
		write(dst, "package simcli\n\n// Main runs the program's own main function.\nfunc Main() { main() }\n")
		overlay[filepath.Join(repo, "verifsim", "simcli", "zz_sim.go")] = dst
	}
}

type mapImporter struct {
	types.Importer
	m map[string]string
}

func (mi mapImporter) Import(path string) (*types.Package, error) {
	if r, ok := mi.m[path]; ok {
		path = r
	}
	return mi.Importer.Import(path)
}

type inst struct {
	fset     *token.FileSet
	info     *types.Info
	file     *ast.File
	src      []byte
	edits    []edit
	isCLI    bool
	relFile  string
	pkg      *pkgInfo
	used     bool
	usedIO   bool
	tail     string
	skip     map[ast.Node]bool
	received map[*ast.UnaryExpr]bool
}

func (in *inst) off(p token.Pos) int { return in.fset.Position(p).Offset }

func (in *inst) add(pos, end int, text string) {
	in.edits = append(in.edits, edit{in.off(token.Pos(pos)), in.off(token.Pos(end)), text, len(in.edits)})
}

func (in *inst) newSite(p token.Pos, kind string) int {
	id := len(m.Sites) + 1
	m.Sites = append(m.Sites, site{id, in.relFile, in.fset.Position(p).Line, kind})
	return id
}

func (in *inst) warn(p token.Pos, f string, a ...interface{}) {
	m.Warnings = append(m.Warnings, fmt.Sprintf("%s:%d: ", in.relFile, in.fset.Position(p).Line)+fmt.Sprintf(f, a...))
}

func (in *inst) imports() {
	for _, spec := range in.file.Imports {
		path, _ := strconv.Unquote(spec.Path.Value)
		target := ""
		name := ""
		switch path {
		case "sync":
			target, name = "simsync", "sync"
		case "os":
			target, name = "simos", "os"
		case "io/ioutil":
			target, name = "simioutil", "ioutil"
		case "log":
			target, name = "simlog", "log"
		}
		if target == "" {
			continue
		}
		if noImport && !in.isCLI && path != "sync" {
			continue
		}
		if strings.HasSuffix(in.relFile, ".pb.go") {
			continue
		}
		text := strconv.Quote(virt + "/" + target)
		if spec.Name == nil {
			text = name + " " + text
		}
		in.add(int(spec.Path.Pos()), int(spec.Path.End()), text)
	}
}

func (in *inst) yield(p token.Pos) {
	id := in.newSite(p, "stmt")
	in.used = true
	in.add(int(p), int(p), fmt.Sprintf("verifsimrt.Y(%d);", id))
}

func (in *inst) stmts(list []ast.Stmt) {
	for _, s := range list {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			continue
		case *ast.LabeledStmt:
			// a yield point between the label and its loop would part them,
			// and one in front of the label is in the right place
		case *ast.EmptyStmt:
			continue
		}
		in.yield(s.Pos())
	}
}

func (in *inst) run() {
	in.imports()
	in.skip = map[ast.Node]bool{}
	in.received = map[*ast.UnaryExpr]bool{}
	ast.Inspect(in.file, func(n ast.Node) bool {
		if n == nil {
			return true
		}
		if in.skip[n] {
			return false
		}
		switch n := n.(type) {
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				in.recv(n.Rhs[0], true)
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				in.recv(n.Values[0], true)
			}
		case *ast.UnaryExpr:
			in.recv(n, false)
		case *ast.SendStmt:
			in.used = true
			in.add(int(n.Chan.Pos()), int(n.Chan.Pos()), "verifsimrt.SendTo(")
			in.add(int(n.Arrow), int(n.Arrow)+2, ")(")
			in.add(int(n.Value.End()), int(n.Value.End()), ")")
		case *ast.SelectStmt:
			in.selectStmt(n)
		case *ast.BlockStmt:
			in.stmts(n.List)
		case *ast.CaseClause:
			in.stmts(n.Body)
		case *ast.CommClause:
			in.stmts(n.Body)
		case *ast.ForStmt:
			if len(n.Body.List) == 0 {
				in.yield(n.Body.Rbrace)
			}
		case *ast.RangeStmt:
			if len(n.Body.List) == 0 {
				in.yield(n.Body.Rbrace)
			}
			in.mapRange(n)
			in.chanRange(n)
		case *ast.CallExpr:
			in.makeCall(n)
			in.chanCall(n)
		case *ast.GoStmt:
			in.goStmt(n)
		case *ast.SelectorExpr:
			in.stdSel(n)
		}
		return true
	})
}

func (in *inst) text(n ast.Node) string {
	return string(in.src[in.off(n.Pos()):in.off(n.End())])
}

func (in *inst) mapRange(n *ast.RangeStmt) {
	tv, ok := in.info.Types[n.X]
	if !ok {
		return
	}
	if _, isMap := tv.Type.Underlying().(*types.Map); !isMap {
		return
	}
	id := in.newSite(n.Pos(), "maprange")
	in.used = true
	x := in.text(n.X)
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		i, ok := e.(*ast.Ident)
		return ok && i.Name == "_"
	}
	var head string
	it := fmt.Sprintf("verifit%d", id)
	arg := func(e ast.Expr) string {
		if blank(e) {
			return "nil"
		}
		return "&" + in.text(e)
	}
	if n.Tok == token.ASSIGN {
		for _, e := range []ast.Expr{n.Key, n.Value} {
			if blank(e) {
				continue
			}
			if _, ok := e.(*ast.Ident); !ok {
				in.warn(n.Pos(), "map range not simulated")
				return
			}
		}
		head = fmt.Sprintf("for %s := verifsimrt.MapIter(%s); %s.Next(%s, %s); ", it, x, it, arg(n.Key), arg(n.Value))
	} else {
		name := func(e ast.Expr) string {
			if blank(e) {
				return "_"
			}
			return in.text(e)
		}
		head = fmt.Sprintf("for %s, %s, %s := verifsimrt.MapIter3(%s); %s.Next(%s, %s); ", it, name(n.Key), name(n.Value), x, it, arg(n.Key), arg(n.Value))
	}
	for _, e := range []ast.Node{n.Key, n.Value, n.X} {
		if e != nil {
			in.skip[e] = true
		}
	}
	in.add(int(n.For), int(n.Body.Lbrace), head)
}

func (in *inst) makeCall(n *ast.CallExpr) {
	id, ok := n.Fun.(*ast.Ident)
	if !ok || id.Name != "make" || len(n.Args) < 2 {
		return
	}
	if _, ok := in.info.Uses[id].(*types.Builtin); !ok {
		return
	}
	tv, ok := in.info.Types[n.Args[0]]
	if !ok {
		return
	}
	elem := int64(0)
	switch t := tv.Type.Underlying().(type) {
	case *types.Slice:
		elem = sizes.Sizeof(t.Elem())
	case *types.Map:
		elem = sizes.Sizeof(t.Elem()) + sizes.Sizeof(t.Key()) + 8
	default:
		return
	}
	for _, a := range n.Args[1:] {
		atv, ok := in.info.Types[a]
		if !ok || atv.Value != nil {
			continue
		}
		if b, ok := atv.Type.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 || b.Info()&types.IsUntyped != 0 {
			continue
		}
		s := in.newSite(a.Pos(), "make")
		in.used = true
		in.add(int(a.Pos()), int(a.Pos()), fmt.Sprintf("verifsimrt.N(%d,%d,", s, elem))
		in.add(int(a.End()), int(a.End()), ")")
	}
}

// goStmt: go f(a, b) -> { f', a' := f, a ...; verifsimrt.Go(func() { f'(a', b) }) }
func (in *inst) goStmt(n *ast.GoStmt) {
	m.GoStmts++
	in.used = true
	call := n.Call
	if _, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
		// go func(){...}()  ->  verifsimrt.Go(func(){...})
		in.add(int(n.Go), int(call.Fun.Pos()), "verifsimrt.Go(")
		in.add(int(call.Lparen), int(call.Rparen)+1, ")")
		return
	}
	if tv := in.info.Types[call.Fun]; tv.IsBuiltin() || tv.IsType() {
		in.add(int(n.Go), int(n.Go)+2, "")
		return
	}
	name := fmt.Sprintf("verifgo%d", in.off(n.Pos()))
	fname := name
	if in.packageFunc(call.Fun) {
		// possibly generic: can not be bound
		fname = in.text(call.Fun)
		in.skip[call.Fun] = true
		in.add(int(n.Go), int(call.Lparen)+1, "{ ")
	} else {
		in.add(int(n.Go), int(call.Fun.Pos()), "{ "+name+" := ")
		in.add(int(call.Lparen), int(call.Lparen)+1, "; ")
	}
	var args []string
	last := ""
	for i, a := range call.Args {
		next := call.Rparen
		if i+1 < len(call.Args) {
			next = call.Args[i+1].Pos()
		}
		tv := in.info.Types[a]
		if tv.Value != nil || tv.IsNil() || isTuple(tv.Type) {
			args = append(args, in.text(a))
			in.skip[a] = true
			in.add(int(a.Pos()), int(next), "")
			continue
		}
		an := fmt.Sprintf("%s_%d", name, i)
		args = append(args, an)
		in.add(int(a.Pos()), int(a.Pos()), an+" := ")
		if a.End() == next {
			last = "; " // after whatever else is inserted there
			continue
		}
		in.add(int(a.End()), int(next), "; ")
	}
	dots := ""
	if call.Ellipsis.IsValid() {
		dots = "..."
	}
	in.add(int(call.Rparen), int(call.Rparen)+1, fmt.Sprintf("%sverifsimrt.Go(func() { %s(%s%s) }) }", last, fname, strings.Join(args, ", "), dots))
}

func isTuple(t types.Type) bool {
	_, ok := t.(*types.Tuple)
	return ok
}

func (in *inst) packageFunc(e ast.Expr) bool {
	var id *ast.Ident
	switch x := e.(type) {
	case *ast.Ident:
		id = x
	case *ast.SelectorExpr:
		if p, ok := x.X.(*ast.Ident); ok {
			if _, ok := in.info.Uses[p].(*types.PkgName); ok {
				id = x.Sel
			}
		}
	}
	if id == nil {
		return false
	}
	_, ok := in.info.Uses[id].(*types.Func)
	return ok
}

// --- channels -----------------------------------------------------------

func (in *inst) isChan(e ast.Expr) bool {
	tv, ok := in.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Chan)
	return ok
}

// native gives up on simulating channels in the whole program.
func (in *inst) native(p token.Pos, why string) {
	m.Channels = true
	in.warn(p, "channels are not simulated: %s", why)
}

// recv: <-c -> verifsimrt.Recv(c)
func (in *inst) recv(e ast.Expr, two bool) {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	u, ok := e.(*ast.UnaryExpr)
	if !ok || u.Op != token.ARROW || in.received[u] {
		return
	}
	in.received[u] = true
	in.used = true
	name := "Recv"
	if two {
		name = "Recv2"
	}
	in.add(int(u.OpPos), int(u.OpPos)+2, "verifsimrt."+name+"(")
	in.add(int(u.End()), int(u.End()), ")")
}

func (in *inst) chanCall(n *ast.CallExpr) {
	id, ok := n.Fun.(*ast.Ident)
	if !ok || len(n.Args) == 0 {
		return
	}
	if _, ok := in.info.Uses[id].(*types.Builtin); !ok {
		return
	}
	if !in.isChan(n.Args[0]) {
		return
	}
	name := ""
	switch id.Name {
	case "close":
		name = "Close"
	case "len":
		name = "ChanLen"
	case "cap":
		name = "ChanCap"
	case "make":
		if in.info.Types[n.Args[0]].Type.Underlying().(*types.Chan).Dir() != types.SendRecv {
			return
		}
		in.used = true
		in.add(int(n.Fun.Pos()), int(n.Args[0].Pos()), "verifsimrt.MakeChan[")
		if len(n.Args) > 1 {
			in.add(int(n.Args[0].End()), int(n.Args[1].Pos()), "](int(")
			in.add(int(n.Args[1].End()), int(n.Args[1].End()), ")")
		} else {
			in.add(int(n.Args[0].End()), int(n.Rparen), "](")
		}
		return
	default:
		return
	}
	in.used = true
	in.add(int(id.Pos()), int(id.End()), "verifsimrt."+name)
}

func (in *inst) chanRange(n *ast.RangeStmt) {
	if !in.isChan(n.X) {
		return
	}
	in.used = true
	id := in.newSite(n.Pos(), "chanrange")
	it := fmt.Sprintf("verifit%d", id)
	x := in.text(n.X)
	key := ""
	if k, ok := n.Key.(*ast.Ident); ok && k.Name != "_" {
		key = k.Name
	} else if n.Key != nil && !ok {
		in.native(n.Pos(), "range over a channel into an expression")
		return
	}
	elem := in.info.Types[n.X].Type.Underlying().(*types.Chan).Elem()
	var head string
	switch {
	case key == "":
		head = fmt.Sprintf("for %s := verifsimrt.ChanIter(%s); %s.Next(nil); ", it, x, it)
	case n.Tok == token.ASSIGN:
		if o := in.info.Uses[n.Key.(*ast.Ident)]; o == nil || !types.Identical(o.Type(), elem) {
			in.native(n.Pos(), "range over a channel into another type")
			return
		}
		head = fmt.Sprintf("for %s := verifsimrt.ChanIter(%s); %s.Next(&%s); ", it, x, it, key)
	default:
		head = fmt.Sprintf("for %s, %s := verifsimrt.ChanIter2(%s); %s.Next(&%s); ", it, key, x, it, key)
	}
	for _, e := range []ast.Node{n.Key, n.X} {
		if e != nil {
			in.skip[e] = true
		}
	}
	in.add(int(n.For), int(n.Body.Lbrace), head)
}

// selectStmt turns a select into a switch over verifsimrt.Select.
func (in *inst) selectStmt(n *ast.SelectStmt) {
	in.used = true
	if len(n.Body.List) == 0 {
		in.add(int(n.Pos()), int(n.End()), "panic(verifsimrt.Forever())")
		return
	}
	id := in.newSite(n.Pos(), "select")
	var names, vals []string
	hasDefault := false
	for i, s := range n.Body.List {
		cl := s.(*ast.CommClause)
		if cl.Comm == nil {
			hasDefault = true
			continue
		}
		name := fmt.Sprintf("verifsel%d_%d", id, i)
		decl := ""
		var ch ast.Expr
		recv := func(e ast.Expr) bool {
			for {
				p, ok := e.(*ast.ParenExpr)
				if !ok {
					break
				}
				e = p.X
			}
			u, ok := e.(*ast.UnaryExpr)
			if ok {
				in.received[u] = true
				ch = u.X
			}
			return ok
		}
		switch c := cl.Comm.(type) {
		case *ast.SendStmt:
			vals = append(vals, fmt.Sprintf("verifsimrt.SendCase(%s)(%s)", in.text(c.Chan), in.text(c.Value)))
		case *ast.ExprStmt:
			recv(c.X)
			vals = append(vals, fmt.Sprintf("verifsimrt.RecvCase(%s)", in.text(ch)))
		case *ast.AssignStmt:
			recv(c.Rhs[0])
			vals = append(vals, fmt.Sprintf("verifsimrt.RecvCase(%s)", in.text(ch)))
			decl = in.text(c.Lhs[0])
			rhs := name + ".V"
			if len(c.Lhs) == 2 {
				decl += ", " + in.text(c.Lhs[1])
				rhs += ", " + name + ".OK"
			}
			decl += " " + c.Tok.String() + " " + rhs + ";"
		}
		names = append(names, name)
		in.skip[cl.Comm] = true
		in.add(int(cl.Case), int(cl.Colon)+1, fmt.Sprintf("case %d: %s", len(names)-1, decl))
	}
	head := "switch "
	if len(names) > 0 {
		head += strings.Join(names, ", ") + " := " + strings.Join(vals, ", ") + "; "
	}
	head += fmt.Sprintf("verifsimrt.Select(%v", hasDefault)
	for _, x := range names {
		head += ", " + x
	}
	in.add(int(n.Select), int(n.Body.Lbrace), head+") ")
	if !hasDefault {
		in.add(int(n.Body.Rbrace), int(n.Body.Rbrace), "; default: panic(\"unreachable\") ")
	}
}

// stdSel redirects what is used of the packages time and io and needs the
// simulator.
func (in *inst) stdSel(n *ast.SelectorExpr) {
	x, ok := n.X.(*ast.Ident)
	if !ok {
		return
	}
	pn, ok := in.info.Uses[x].(*types.PkgName)
	if !ok {
		return
	}
	switch pn.Imported().Path() + "." + n.Sel.Name {
	case "time.Now", "time.Since", "time.Sleep":
		in.used = true
		in.add(int(n.X.Pos()), int(n.X.End()), "verifsimrt")
		in.keep(x.Name + ".Unix")
	case "io.Pipe", "io.PipeReader", "io.PipeWriter":
		in.usedIO = true
		in.add(int(n.X.Pos()), int(n.X.End()), "verifsimio")
		in.keep(x.Name + ".EOF")
	}
}

// keep makes an import that may have lost its uses one that is used.
func (in *inst) keep(what string) {
	if line := "\nvar _ = " + what + "\n"; !strings.Contains(in.tail, line) {
		in.tail += line
	}
}

func (in *inst) apply() string {
	p := int(in.file.Name.End())
	if in.used {
		in.add(p, p, "; import verifsimrt "+strconv.Quote(virt+"/simrt"))
	}
	if in.usedIO {
		in.add(p, p, "; import verifsimio "+strconv.Quote(virt+"/simio"))
	}
	// Insertions at the same offset keep their order of creation, outer
	// before inner; replacements win over insertions inside them.
	sort.SliceStable(in.edits, func(i, j int) bool {
		if in.edits[i].pos != in.edits[j].pos {
			return in.edits[i].pos < in.edits[j].pos
		}
		ie, je := in.edits[i], in.edits[j]
		if (ie.pos == ie.end) != (je.pos == je.end) {
			return ie.pos == ie.end
		}
		return ie.seq < je.seq
	})
	var b strings.Builder
	last := 0
	for _, e := range in.edits {
		if e.pos < last {
			continue // inside a replaced region
		}
		b.Write(in.src[last:e.pos])
		b.WriteString(e.text)
		last = e.end
	}
	b.Write(in.src[last:])
	b.WriteString(in.tail)
	return b.String()
}
