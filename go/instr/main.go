// Command instr rewrites the packages of /repo for controlled execution and writes a build overlay.
// It is type-aware and works on whatever source it finds: nothing in it names a function or field of
// the code under test.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	Standard   bool
	Module     *struct {
		Path string
		Main bool
	}
	DepsErrors []struct{ Err string }
	Error      *struct{ Err string }
}

var (
	repo    = flag.String("repo", "/repo", "repository")
	out     = flag.String("out", "", "scratch output directory")
	modfile = flag.String("modfile", "", "go.mod to use")
	extra   = flag.String("extra", "", "name=dir,... directories overlaid as /repo/zzverif/<name>")
	access  = flag.Bool("access", true, "instrument shared memory accesses")
)

const vsPath = "/zzverif/vs"

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	flag.Parse()
	cmd := exec.Command("go", "list", "-modfile="+*modfile, "-deps", "-export", "-json", "./...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	o, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	var pkgs []*listPkg
	exports := map[string]string{}
	dec := json.NewDecoder(bytes.NewReader(o))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		exports[p.ImportPath] = p.Export
		pkgs = append(pkgs, &p)
	}
	overlay := map[string]string{}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	mod := ""
	n := 0
	for _, p := range pkgs {
		if p.Module == nil || !p.Module.Main {
			continue
		}
		mod = p.Module.Path
		if len(p.CgoFiles) > 0 || p.Name == "main" {
			continue
		}
		var files []*ast.File
		var names []string
		for _, f := range p.GoFiles {
			full := filepath.Join(p.Dir, f)
			af, err := parser.ParseFile(fset, full, nil, parser.SkipObjectResolution)
			if err != nil {
				die("%v", err)
			}
			files = append(files, af)
			names = append(names, full)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{},
			Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
			Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}}
		conf := types.Config{Importer: imp, Error: func(err error) {}}
		tp, err := conf.Check(p.ImportPath, fset, files, info)
		if err != nil {
			die("type check %s: %v", p.ImportPath, err)
		}
		for i, af := range files {
			r := &rw{info: info, pkg: tp, mod: p.Module.Path, captured: map[types.Object]bool{}, touched: map[string]string{}}
			r.file(af)
			var b bytes.Buffer
			if err := printer.Fprint(&b, token.NewFileSet(), af); err != nil {
				die("print %s: %v", names[i], err)
			}
			dst := filepath.Join(*out, fmt.Sprintf("f%d_%s", n, filepath.Base(names[i])))
			n++
			if err := os.WriteFile(dst, b.Bytes(), 0o644); err != nil {
				die("%v", err)
			}
			overlay[names[i]] = dst
		}
	}
	_ = mod
	for _, kv := range strings.Split(*extra, ",") {
		if kv == "" {
			continue
		}
		i := strings.Index(kv, "=")
		ents, err := os.ReadDir(kv[i+1:])
		if err != nil {
			die("%v", err)
		}
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), ".go") {
				overlay[filepath.Join(*repo, "zzverif", kv[:i], e.Name())] = filepath.Join(kv[i+1:], e.Name())
			}
		}
	}
	j, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o644); err != nil {
		die("%v", err)
	}
}

var replaced = map[string]map[string]bool{
	"sync":        set("Mutex RWMutex Map Once WaitGroup Cond NewCond Pool OnceFunc OnceValue OnceValues"),
	"sync/atomic": set("AddInt32 AddInt64 AddUint32 AddUint64 LoadInt32 LoadInt64 LoadUint32 LoadUint64 StoreInt32 StoreInt64 StoreUint32 StoreUint64 SwapInt32 SwapInt64 SwapUint32 SwapUint64 CompareAndSwapInt32 CompareAndSwapInt64 CompareAndSwapUint32 CompareAndSwapUint64 Int32 Int64 Uint32 Uint64 Uintptr Bool Pointer Value"),
	"time":        set("Now Since Until Sleep After AfterFunc NewTimer NewTicker Tick Timer Ticker"),
	"context":     set("WithTimeout WithDeadline WithTimeoutCause WithDeadlineCause AfterFunc"),
	"net":         set("Dial DialTimeout Dialer"),
	"os":          set("Exit"),
	"log":         set("Fatal Fatalf Fatalln"),
	"runtime":     set("Gosched"),
	"github.com/sirupsen/logrus": set("Fatal Fatalf Fatalln Exit"),
}
var keepUse = map[string]string{"sync": "Locker", "sync/atomic": "Value", "time": "Duration", "context": "Context", "net": "Conn", "os": "FileMode", "log": "Logger", "runtime": "Error", "github.com/sirupsen/logrus": "Level"}

func set(s string) map[string]bool {
	m := map[string]bool{}
	for _, x := range strings.Fields(s) {
		m[x] = true
	}
	return m
}

type rw struct {
	info     *types.Info
	pkg      *types.Package
	mod      string
	captured map[types.Object]bool
	touched  map[string]string // import path -> local name
	used     bool
	tmp      int
}

func (r *rw) vs(name string) ast.Expr {
	r.used = true
	return &ast.SelectorExpr{X: ast.NewIdent("zzvs"), Sel: ast.NewIdent(name)}
}
func (r *rw) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.vs(name), Args: args}
}
func (r *rw) fresh(p string) *ast.Ident {
	r.tmp++
	return ast.NewIdent(fmt.Sprintf("zz%s%d", p, r.tmp))
}

func (r *rw) file(f *ast.File) {
	r.findCaptured(f)
	for _, d := range f.Decls {
		r.decl(d, true)
	}
	if r.used {
		imp := &ast.ImportSpec{Name: ast.NewIdent("zzvs"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"` + r.mod + vsPath + `"`}}
		gd := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{imp}}
		f.Decls = append([]ast.Decl{gd}, f.Decls...)
		f.Imports = append(f.Imports, imp)
	}
	for path, local := range r.touched {
		f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{
			Names: []*ast.Ident{ast.NewIdent("_")},
			Type:  &ast.SelectorExpr{X: ast.NewIdent(local), Sel: ast.NewIdent(keepUse[path])}}}})
	}
	// positions no longer mean anything; let the printer lay the file out afresh
	strip(f)
}

// findCaptured marks local variables used inside a function literal that does not declare them.
func (r *rw) findCaptured(f *ast.File) {
	var lits []*ast.FuncLit
	ast.Inspect(f, func(n ast.Node) bool {
		if l, ok := n.(*ast.FuncLit); ok {
			lits = append(lits, l)
		}
		return true
	})
	for _, l := range lits {
		ast.Inspect(l.Body, func(n ast.Node) bool {
			id, ok := n.(*ast.Ident)
			if !ok {
				return true
			}
			v, ok := r.info.Uses[id].(*types.Var)
			if !ok || v.IsField() || v.Pkg() != r.pkg || v.Parent() == r.pkg.Scope() {
				return true
			}
			if v.Pos() < l.Pos() || v.Pos() > l.End() {
				r.captured[v] = true
			}
			return true
		})
	}
}

func (r *rw) decl(d ast.Decl, top bool) {
	switch d := d.(type) {
	case *ast.GenDecl:
		for _, s := range d.Specs {
			switch s := s.(type) {
			case *ast.TypeSpec:
				s.Type = r.expr(s.Type)
			case *ast.ValueSpec:
				if s.Type != nil {
					s.Type = r.expr(s.Type)
				}
				if d.Tok == token.CONST {
					continue
				}
				if len(s.Names) == 2 && len(s.Values) == 1 {
					s.Values[0] = r.expr2(s.Values[0])
				} else {
					r.exprs(s.Values)
				}
			}
		}
	case *ast.FuncDecl:
		if d.Recv != nil {
			r.fields(d.Recv)
		}
		r.expr(d.Type)
		if d.Body != nil {
			r.block(d.Body)
		}
	}
}

func (r *rw) fields(l *ast.FieldList) {
	if l == nil {
		return
	}
	for _, f := range l.List {
		f.Type = r.expr(f.Type)
	}
}

func (r *rw) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

// expr2 rewrites an expression in a two-value context (v, ok := ...).
func (r *rw) expr2(e ast.Expr) ast.Expr {
	if u, ok := ast.Unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return r.call("Recv2", r.expr(u.X))
	}
	return r.expr(e)
}

func (r *rw) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func (r *rw) isType(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	return ok && tv.IsType()
}

// syncLike reports types whose own methods are the synchronization (never recorded as plain data).
func syncLike(t types.Type) bool {
	if t == nil {
		return true
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() {
		case "sync", "sync/atomic":
			return true
		}
	}
	return false
}

func isStruct(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

func (r *rw) readAt(addressed ast.Expr, t types.Type) ast.Expr {
	fn := "R"
	if isStruct(t) {
		fn = "RS"
	}
	return &ast.ParenExpr{X: &ast.StarExpr{X: r.call(fn, &ast.UnaryExpr{Op: token.AND, X: addressed})}}
}

func (r *rw) writeAt(addressed ast.Expr, t types.Type) ast.Expr {
	return &ast.ParenExpr{X: &ast.StarExpr{X: r.writeCall(addressed, t)}}
}

func (r *rw) writeCall(addressed ast.Expr, t types.Type) *ast.CallExpr {
	fn := "W"
	if isStruct(t) {
		fn = "WS"
	}
	return r.call(fn, &ast.UnaryExpr{Op: token.AND, X: addressed})
}

// shared reports whether e denotes an addressable memory location worth recording.
func (r *rw) shared(e ast.Expr) bool {
	if !*access {
		return false
	}
	tv, ok := r.info.Types[e]
	if !ok || !tv.Addressable() || syncLike(tv.Type) {
		return false
	}
	switch e := e.(type) {
	case *ast.SelectorExpr:
		if s := r.info.Selections[e]; s != nil {
			return s.Kind() == types.FieldVal
		}
		v, ok := r.info.Uses[e.Sel].(*types.Var)
		return ok && v.Pkg() != nil && strings.HasPrefix(v.Pkg().Path(), r.mod)
	case *ast.Ident:
		v, ok := r.info.Uses[e].(*types.Var)
		return ok && !v.IsField() && (v.Parent() == r.pkg.Scope() || r.captured[v])
	case *ast.IndexExpr:
		t := r.typeOf(e.X)
		if t == nil {
			return false
		}
		switch t.Underlying().(type) {
		case *types.Slice, *types.Pointer, *types.Array:
			return true
		}
	case *ast.StarExpr:
		return true
	}
	return false
}

// loc rewrites the subexpressions of a location without recording an access to the location itself.
func (r *rw) loc(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		x.X = r.loc(x.X)
		return x
	case *ast.Ident:
		return x
	case *ast.SelectorExpr:
		if s := r.info.Selections[x]; s != nil && s.Kind() == types.FieldVal {
			t := r.typeOf(x.X)
			if _, isPtr := t.Underlying().(*types.Pointer); isPtr {
				x.X = r.expr(x.X)
			} else if tv := r.info.Types[x.X]; tv.Addressable() {
				x.X = r.loc(x.X)
			} else {
				x.X = r.expr(x.X)
			}
			return x
		}
		return r.selector(x)
	case *ast.IndexExpr:
		t := r.typeOf(x.X)
		if _, isArr := t.Underlying().(*types.Array); isArr {
			x.X = r.loc(x.X)
		} else {
			x.X = r.expr(x.X)
		}
		x.Index = r.expr(x.Index)
		return x
	case *ast.StarExpr:
		x.X = r.expr(x.X)
		return x
	}
	return r.expr(e)
}

func (r *rw) lhs(e ast.Expr) ast.Expr {
	if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
		return e
	}
	u := ast.Unparen(e)
	if ix, ok := u.(*ast.IndexExpr); ok {
		if t := r.typeOf(ix.X); t != nil {
			if _, isMap := t.Underlying().(*types.Map); isMap {
				ix.X = r.expr(ix.X)
				if *access {
					ix.X = r.call("WM", ix.X)
				}
				ix.Index = r.expr(ix.Index)
				return ix
			}
		}
	}
	if r.shared(u) {
		t := r.typeOf(u)
		return r.writeAt(r.loc(u), t)
	}
	return r.loc(e)
}

func (r *rw) selector(x *ast.SelectorExpr) ast.Expr {
	if id, ok := x.X.(*ast.Ident); ok {
		if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
			path := pn.Imported().Path()
			if replaced[path][x.Sel.Name] {
				r.touched[path] = id.Name
				if path == "context" && x.Sel.Name == "AfterFunc" {
					return r.vs("ContextAfterFunc")
				}
				return r.vs(x.Sel.Name)
			}
			return x
		}
	}
	s := r.info.Selections[x]
	if s == nil {
		return x
	}
	switch s.Kind() {
	case types.FieldVal:
		return r.loc(x)
	case types.MethodVal:
		t := r.typeOf(x.X)
		fn := s.Obj().(*types.Func)
		recv := fn.Type().(*types.Signature).Recv()
		_, xPtr := t.Underlying().(*types.Pointer)
		recvPtr := false
		if recv != nil {
			_, recvPtr = recv.Type().(*types.Pointer)
		}
		_, isIface := t.Underlying().(*types.Interface)
		switch {
		case isIface:
			x.X = r.expr(x.X)
		case xPtr && !recvPtr && len(s.Index()) == 1 && *access && isStruct(t.Underlying().(*types.Pointer).Elem()):
			x.X = r.call("RS", r.expr(x.X))
		case !xPtr && r.info.Types[x.X].Addressable() && (recvPtr || len(s.Index()) > 1):
			x.X = r.loc(x.X)
		default:
			x.X = r.expr(x.X)
		}
		return x
	}
	return x
}

func (r *rw) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.Ident:
		if r.shared(x) {
			return r.readAt(x, r.typeOf(x))
		}
		return x
	case *ast.BasicLit, *ast.BadExpr:
		return x
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
		return x
	case *ast.SelectorExpr:
		if r.shared(x) {
			t := r.typeOf(x)
			return r.readAt(r.loc(x), t)
		}
		return r.selector(x)
	case *ast.IndexExpr:
		if r.isType(x.X) || r.isType(x) {
			x.X = r.expr(x.X)
			x.Index = r.expr(x.Index)
			return x
		}
		if t := r.typeOf(x.X); t != nil {
			if _, isMap := t.Underlying().(*types.Map); isMap {
				x.X = r.expr(x.X)
				if *access {
					x.X = r.call("RM", x.X)
				}
				x.Index = r.expr(x.Index)
				return x
			}
		}
		if r.shared(x) {
			t := r.typeOf(x)
			return r.readAt(r.loc(x), t)
		}
		return r.loc(x)
	case *ast.IndexListExpr:
		x.X = r.expr(x.X)
		r.exprs(x.Indices)
		return x
	case *ast.SliceExpr:
		t := r.typeOf(x.X)
		if _, isArr := t.Underlying().(*types.Array); isArr {
			x.X = r.loc(x.X)
		} else {
			x.X = r.expr(x.X)
		}
		x.Low, x.High, x.Max = r.opt(x.Low), r.opt(x.High), r.opt(x.Max)
		return x
	case *ast.StarExpr:
		if r.isType(x) {
			x.X = r.expr(x.X)
			return x
		}
		if r.shared(x) {
			t := r.typeOf(x)
			fn := "R"
			if isStruct(t) {
				fn = "RS"
			}
			x.X = r.call(fn, r.expr(x.X))
			return x
		}
		x.X = r.expr(x.X)
		return x
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return r.call("Recv", r.expr(x.X))
		}
		if x.Op == token.AND {
			if _, lit := ast.Unparen(x.X).(*ast.CompositeLit); lit {
				x.X = r.expr(x.X)
			} else {
				x.X = r.loc(x.X)
			}
			return x
		}
		x.X = r.expr(x.X)
		return x
	case *ast.BinaryExpr:
		x.X, x.Y = r.expr(x.X), r.expr(x.Y)
		return x
	case *ast.KeyValueExpr:
		x.Value = r.expr(x.Value)
		return x
	case *ast.CompositeLit:
		isS := false
		if t := r.typeOf(x); t != nil {
			u := t.Underlying()
			if p, ok := u.(*types.Pointer); ok {
				u = p.Elem().Underlying()
			}
			_, isS = u.(*types.Struct)
		}
		if x.Type != nil {
			x.Type = r.expr(x.Type)
		}
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if !isS {
					kv.Key = r.expr(kv.Key)
				}
				kv.Value = r.expr(kv.Value)
			} else {
				x.Elts[i] = r.expr(el)
			}
		}
		return x
	case *ast.FuncLit:
		r.expr(x.Type)
		r.block(x.Body)
		return x
	case *ast.TypeAssertExpr:
		x.X = r.expr(x.X)
		if x.Type != nil {
			x.Type = r.expr(x.Type)
		}
		return x
	case *ast.CallExpr:
		return r.callExpr(x)
	case *ast.ArrayType:
		x.Len = r.opt(x.Len)
		x.Elt = r.expr(x.Elt)
		return x
	case *ast.ChanType:
		x.Value = r.expr(x.Value)
		return x
	case *ast.MapType:
		x.Key, x.Value = r.expr(x.Key), r.expr(x.Value)
		return x
	case *ast.StructType:
		r.fields(x.Fields)
		return x
	case *ast.InterfaceType:
		r.fields(x.Methods)
		return x
	case *ast.FuncType:
		r.fields(x.Params)
		r.fields(x.Results)
		return x
	case *ast.Ellipsis:
		x.Elt = r.opt(x.Elt)
		return x
	}
	return e
}

func (r *rw) opt(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	return r.expr(e)
}

func (r *rw) builtin(x *ast.CallExpr) string {
	if id, ok := ast.Unparen(x.Fun).(*ast.Ident); ok {
		if b, ok := r.info.Uses[id].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

func (r *rw) callExpr(x *ast.CallExpr) ast.Expr {
	switch r.builtin(x) {
	case "close":
		return r.call("Close", r.expr(x.Args[0]))
	case "delete":
		x.Args[0] = r.expr(x.Args[0])
		if *access {
			x.Args[0] = r.call("WM", x.Args[0])
		}
		x.Args[1] = r.expr(x.Args[1])
		return x
	case "":
		x.Fun = r.expr(x.Fun)
		r.exprs(x.Args)
		return x
	case "append", "copy":
		// the elements that are read and written
		if *access && r.elements(x) {
			name := map[string]string{"append": "Append", "copy": "Copy"}[r.builtin(x)]
			if r.builtin(x) == "append" && !x.Ellipsis.IsValid() {
				n := &ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(len(x.Args) - 1)}
				r.exprs(x.Args)
				x.Args[0] = r.call("AppendTo", x.Args[0], n)
				return x
			}
			r.exprs(x.Args)
			return r.call(name, x.Args...)
		}
		r.exprs(x.Args)
		return x
	default:
		r.exprs(x.Args)
		return x
	}
}

// elements reports whether an append or copy works on typed slices only.
func (r *rw) elements(x *ast.CallExpr) bool {
	slices := x.Args
	if r.builtin(x) == "append" && !x.Ellipsis.IsValid() {
		slices = x.Args[:1]
	}
	if len(x.Args) < 2 {
		return false
	}
	for _, a := range slices {
		t := r.typeOf(a)
		if t == nil {
			return false
		}
		if _, ok := t.Underlying().(*types.Slice); !ok {
			return false
		}
	}
	return true
}

func (r *rw) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = r.stmts(b.List)
	}
}

func (r *rw) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		out = append(out, r.stmt(s, nil)...)
	}
	return out
}

func one(s ast.Stmt) []ast.Stmt { return []ast.Stmt{s} }

func (r *rw) simple(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	return r.stmtMode(s, nil, false)[0]
}

func (r *rw) stmt(s ast.Stmt, label *ast.Ident) []ast.Stmt { return r.stmtMode(s, label, true) }

func (r *rw) hasCall(l []ast.Expr) bool {
	f := false
	for _, e := range l {
		ast.Inspect(e, func(n ast.Node) bool {
			switch c := n.(type) {
			case *ast.CallExpr:
				if !r.isType(c.Fun) && r.builtin(c) == "" {
					f = true
				}
			case *ast.UnaryExpr:
				if c.Op == token.ARROW {
					f = true
				}
			}
			return !f
		})
	}
	return f
}

func (r *rw) labeled(label *ast.Ident, s ast.Stmt) ast.Stmt {
	if label == nil {
		return s
	}
	return &ast.LabeledStmt{Label: label, Stmt: s}
}

func (r *rw) stmtMode(s ast.Stmt, label *ast.Ident, inBlock bool) []ast.Stmt {
	switch x := s.(type) {
	case *ast.AssignStmt:
		var post []ast.Stmt
		late := inBlock && *access && x.Tok == token.ASSIGN && r.hasCall(x.Rhs) && !r.hasCall(x.Lhs)
		two := len(x.Lhs) == 2 && len(x.Rhs) == 1
		if x.Tok != token.DEFINE {
			for i, l := range x.Lhs {
				u := ast.Unparen(l)
				if late && r.shared(u) {
					t := r.typeOf(u)
					x.Lhs[i] = r.loc(u)
					post = append(post, &ast.ExprStmt{X: r.writeCall(clone(x.Lhs[i]), t)})
				} else {
					x.Lhs[i] = r.lhs(l)
				}
			}
		}
		if two {
			x.Rhs[0] = r.expr2(x.Rhs[0])
		} else {
			r.exprs(x.Rhs)
		}
		return append(one(x), post...)
	case *ast.IncDecStmt:
		x.X = r.lhs(x.X)
		return one(x)
	case *ast.ExprStmt:
		x.X = r.expr(x.X)
		return one(x)
	case *ast.SendStmt:
		return one(&ast.ExprStmt{X: &ast.CallExpr{Fun: r.call("SendTo", r.expr(x.Chan)), Args: []ast.Expr{r.expr(x.Value)}}})
	case *ast.GoStmt:
		return one(r.goStmt(x))
	case *ast.DeferStmt:
		x.Call = r.callExpr(x.Call).(*ast.CallExpr)
		return one(x)
	case *ast.ReturnStmt:
		r.exprs(x.Results)
		return one(x)
	case *ast.BlockStmt:
		r.block(x)
		return one(r.labeled(label, x))
	case *ast.IfStmt:
		x.Init = r.simple(x.Init)
		x.Cond = r.expr(x.Cond)
		r.block(x.Body)
		if x.Else != nil {
			x.Else = r.stmt(x.Else, nil)[0]
		}
		return one(x)
	case *ast.ForStmt:
		x.Init = r.simple(x.Init)
		x.Cond = r.opt(x.Cond)
		x.Post = r.simple(x.Post)
		r.block(x.Body)
		return one(r.labeled(label, x))
	case *ast.SwitchStmt:
		x.Init = r.simple(x.Init)
		x.Tag = r.opt(x.Tag)
		r.block(x.Body)
		return one(r.labeled(label, x))
	case *ast.TypeSwitchStmt:
		x.Init = r.simple(x.Init)
		switch a := x.Assign.(type) {
		case *ast.AssignStmt:
			ta := a.Rhs[0].(*ast.TypeAssertExpr)
			ta.X = r.expr(ta.X)
		case *ast.ExprStmt:
			ta := ast.Unparen(a.X).(*ast.TypeAssertExpr)
			ta.X = r.expr(ta.X)
		}
		r.block(x.Body)
		return one(r.labeled(label, x))
	case *ast.CaseClause:
		r.exprs(x.List)
		x.Body = r.stmts(x.Body)
		return one(x)
	case *ast.SelectStmt:
		return one(r.selectStmt(x, label))
	case *ast.RangeStmt:
		return one(r.rangeStmt(x, label))
	case *ast.LabeledStmt:
		switch x.Stmt.(type) {
		case *ast.BlockStmt, *ast.ForStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt, *ast.RangeStmt:
			return r.stmt(x.Stmt, x.Label)
		}
		l := r.stmt(x.Stmt, nil)
		x.Stmt = l[0]
		return append(one(x), l[1:]...)
	case *ast.DeclStmt:
		r.decl(x.Decl, false)
		return one(x)
	}
	return one(s)
}

func (r *rw) goStmt(x *ast.GoStmt) ast.Stmt {
	c := x.Call
	wrap := func(body ...ast.Stmt) *ast.FuncLit {
		return &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}}
	}
	if lit, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		return &ast.ExprStmt{X: r.call("Go", r.expr(lit))}
	}
	if r.builtin(c) != "" {
		return &ast.ExprStmt{X: r.call("Go", wrap(&ast.ExprStmt{X: r.callExpr(c)}))}
	}
	var pre []ast.Stmt
	fn := r.fresh("f")
	args := make([]ast.Expr, len(c.Args))
	multi := false
	if len(c.Args) == 1 {
		if t := r.typeOf(c.Args[0]); t != nil {
			_, multi = t.(*types.Tuple)
		}
	}
	for i, a := range c.Args {
		tv := r.info.Types[a]
		ra := r.expr(a)
		if tv.Value != nil || tv.IsNil() || multi {
			args[i] = ra
			continue
		}
		id := r.fresh("a")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{ra}})
		args[i] = ast.NewIdent(id.Name)
	}
	pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{fn}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(c.Fun)}})
	call := &ast.CallExpr{Fun: ast.NewIdent(fn.Name), Args: args}
	if c.Ellipsis.IsValid() {
		call.Ellipsis = 1
	}
	pre = append(pre, &ast.ExprStmt{X: r.call("Go", wrap(&ast.ExprStmt{X: call}))})
	return &ast.BlockStmt{List: pre}
}

func (r *rw) selectStmt(x *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	blk := &ast.BlockStmt{}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	hasDef := false
	var args []ast.Expr
	for _, cl := range x.Body.List {
		cc := cl.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = true
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: r.stmts(cc.Body)})
			continue
		}
		id := r.fresh("c")
		idx := len(args)
		args = append(args, ast.NewIdent(id.Name))
		var pre []ast.Stmt
		var mk ast.Expr
		recv := func(e ast.Expr) {
			mk = r.call("CaseRecv", r.expr(ast.Unparen(e).(*ast.UnaryExpr).X))
		}
		val := func(n string) ast.Expr {
			return &ast.SelectorExpr{X: ast.NewIdent(id.Name), Sel: ast.NewIdent(n)}
		}
		switch c := cc.Comm.(type) {
		case *ast.SendStmt:
			mk = &ast.CallExpr{Fun: r.call("CaseSendTo", r.expr(c.Chan)), Args: []ast.Expr{r.expr(c.Value)}}
		case *ast.ExprStmt:
			recv(c.X)
		case *ast.AssignStmt:
			recv(c.Rhs[0])
			a := &ast.AssignStmt{Tok: c.Tok, Lhs: c.Lhs, Rhs: []ast.Expr{val("Val")}}
			if len(c.Lhs) == 2 {
				a.Rhs = append(a.Rhs, val("Ok"))
			}
			if c.Tok == token.ASSIGN {
				for i := range a.Lhs {
					a.Lhs[i] = r.lhs(a.Lhs[i])
				}
			}
			pre = append(pre, a)
		}
		blk.List = append(blk.List, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{mk}})
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{
			List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(idx)}},
			Body: append(pre, r.stmts(cc.Body)...)})
	}
	d := "false"
	if hasDef {
		d = "true"
	} else {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{
			Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"verif: select"`}}}}}})
	}
	sw.Tag = r.call("Select", append([]ast.Expr{ast.NewIdent(d)}, args...)...)
	blk.List = append(blk.List, r.labeled(label, sw))
	return blk
}

func (r *rw) rangeStmt(x *ast.RangeStmt, label *ast.Ident) ast.Stmt {
	t := r.typeOf(x.X)
	isBlank := func(e ast.Expr) bool {
		id, ok := e.(*ast.Ident)
		return e == nil || ok && id.Name == "_"
	}
	switch t.Underlying().(type) {
	case *types.Chan:
		ch, ok := r.fresh("ch"), r.fresh("ok")
		f := &ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(x.X)}},
			Body: &ast.BlockStmt{}}
		key := x.Key
		if key == nil {
			key = ast.NewIdent("_")
		}
		rc := r.call("Recv2", ast.NewIdent(ch.Name))
		if x.Tok == token.ASSIGN {
			f.Body.List = append(f.Body.List,
				&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ok}, Type: ast.NewIdent("bool")}}}},
				&ast.AssignStmt{Lhs: []ast.Expr{r.lhs(key), ast.NewIdent(ok.Name)}, Tok: token.ASSIGN, Rhs: []ast.Expr{rc}})
		} else {
			f.Body.List = append(f.Body.List, &ast.AssignStmt{Lhs: []ast.Expr{key, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{rc}})
		}
		f.Body.List = append(f.Body.List, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok.Name)},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
		r.block(x.Body)
		f.Body.List = append(f.Body.List, x.Body)
		return r.labeled(label, f)
	case *types.Map:
		m, k, v, ok := r.fresh("m"), r.fresh("k"), r.fresh("v"), r.fresh("ok")
		blk := &ast.BlockStmt{}
		mx := r.expr(x.X)
		if *access {
			mx = r.call("RM", mx)
		}
		blk.List = append(blk.List, &ast.AssignStmt{Lhs: []ast.Expr{m}, Tok: token.DEFINE, Rhs: []ast.Expr{mx}})
		var lhs, rhs []ast.Expr
		hk, hv := !isBlank(x.Key), !isBlank(x.Value)
		if x.Tok == token.DEFINE && (hk || hv) {
			kk, vv := ast.Expr(ast.NewIdent("_")), ast.Expr(ast.NewIdent("_"))
			if hk {
				kk = x.Key
			}
			if hv {
				vv = x.Value
			}
			blk.List = append(blk.List, &ast.AssignStmt{Lhs: []ast.Expr{kk, vv}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("ZeroKV", ast.NewIdent(m.Name))}})
		}
		if hk {
			e := x.Key
			if x.Tok == token.ASSIGN {
				e = r.lhs(e)
			} else {
				e = ast.NewIdent(e.(*ast.Ident).Name)
			}
			lhs, rhs = append(lhs, e), append(rhs, ast.NewIdent(k.Name))
		}
		if hv {
			e := x.Value
			if x.Tok == token.ASSIGN {
				e = r.lhs(e)
			} else {
				e = ast.NewIdent(e.(*ast.Ident).Name)
			}
			lhs, rhs = append(lhs, e), append(rhs, ast.NewIdent(v.Name))
		}
		body := []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: ast.NewIdent(m.Name), Index: ast.NewIdent(k.Name)}}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok.Name)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}},
			&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(v.Name)}},
		}
		if len(lhs) > 0 {
			body = append(body, &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: rhs})
		}
		r.block(x.Body)
		body = append(body, x.Body)
		blk.List = append(blk.List, r.labeled(label, &ast.RangeStmt{Key: ast.NewIdent("_"), Value: k, Tok: token.DEFINE,
			X: r.call("MapKeys", ast.NewIdent(m.Name)), Body: &ast.BlockStmt{List: body}}))
		return blk
	}
	if x.Tok == token.ASSIGN {
		if x.Key != nil {
			x.Key = r.lhs(x.Key)
		}
		if x.Value != nil {
			x.Value = r.lhs(x.Value)
		}
	}
	if _, isSlice := t.Underlying().(*types.Slice); isSlice && *access && x.Tok == token.DEFINE && !isBlank(x.Value) {
		l := r.fresh("l")
		key := x.Key
		if isBlank(key) {
			key = r.fresh("i")
			x.Key = key
		}
		blk := &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(x.X)}}}}
		x.X = ast.NewIdent(l.Name)
		r.block(x.Body)
		read := r.call("ReadElem", ast.NewIdent(l.Name), ast.NewIdent(key.(*ast.Ident).Name))
		x.Body.List = append([]ast.Stmt{&ast.ExprStmt{X: read}}, x.Body.List...)
		blk.List = append(blk.List, r.labeled(label, x))
		return blk
	}
	x.X = r.expr(x.X)
	r.block(x.Body)
	return r.labeled(label, x)
}

// clone copies an already rewritten location expression so that it can be printed twice.
func clone(e ast.Expr) ast.Expr { return e }

// strip zeroes all positions so that the printer does not try to honour the old layout.
func strip(f *ast.File) {
	f.Comments = nil
	f.Doc = nil
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			x.Doc = nil
			x.TokPos = 0
			if len(x.Specs) > 1 {
				x.Lparen, x.Rparen = 1, 1
			}
		case *ast.FuncDecl:
			x.Doc = nil
		}
		return true
	})
}
