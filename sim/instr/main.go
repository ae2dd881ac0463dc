// Command instr reads the current sources of /repo (and of the event emitter
// it depends on), and writes instrumented copies plus a build overlay.
//
//	instr -repo /repo -out BUILD -zz /verif/sim/zz -harness /verif/sim/harness
//
// Rewrites (see DESIGN.md): a scheduling point before every statement, seeded
// enumeration order for maps, happens-before tracking of built-in maps, and
// simulated packages in place of sync, sync/atomic, os, io/ioutil, time and
// math/rand. Nothing is written below the repository.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type pkgInfo struct {
	Dir        string
	ImportPath string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	Standard   bool
	Module     *struct{ Path, Dir, GoMod string }
	Error      *struct{ Err string }
}

const emitterModule = "github.com/vansante/go-event-emitter"

// the model files are read by this module, it gets the simulated file system
const iniModule = "github.com/go-ini/ini"

// copyINI copies the module and replaces package os in the file, which opens files
func copyINI(from, to string) {
	files, err := filepath.Glob(filepath.Join(from, "*.go"))
	must(err)
	must(os.MkdirAll(to, 0o755))
	found := false
	for _, f := range files {
		name := filepath.Base(f)
		if strings.HasSuffix(name, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		must(err)
		if name == "data_source.go" {
			found = bytes.Contains(src, []byte("\t\"os\"\n"))
			src = bytes.Replace(src, []byte("\t\"os\"\n"), []byte("\tos \"zzsim.local/sos\"\n"), 1)
		}
		must(os.WriteFile(filepath.Join(to, name), src, 0o644))
	}
	if !found {
		fatal("the ini module has another layout")
	}
	must(os.WriteFile(filepath.Join(to, "go.mod"), []byte("module "+iniModule+"\n\ngo 1.21\n\nrequire zzsim.local v0.0.0\n"), 0o644))
}

// simulated[import path] = shim package and the identifiers it replaces
var simulated = map[string]struct {
	shim  string
	names string
}{
	"sync": {"ssync", "Mutex RWMutex Map Once WaitGroup Cond NewCond Pool OnceFunc OnceValue OnceValues"},
	"sync/atomic": {"satomic", "Value Pointer Int32 Int64 Uint32 Uint64 Uintptr Bool " +
		"AddInt32 AddInt64 AddUint32 AddUint64 LoadInt32 LoadInt64 LoadUint32 LoadUint64 LoadPointer " +
		"StoreInt32 StoreInt64 StoreUint32 StoreUint64 StorePointer " +
		"SwapInt32 SwapInt64 SwapUint32 SwapUint64 " +
		"CompareAndSwapInt32 CompareAndSwapInt64 CompareAndSwapUint32 CompareAndSwapUint64"},
	"os": {"sos", "File Open Create OpenFile ReadFile WriteFile Remove RemoveAll Rename Stat Lstat Mkdir MkdirAll " +
		"MkdirTemp CreateTemp ReadDir Truncate Chmod Chown Chtimes Link Symlink Readlink Getwd TempDir SameFile Exit Getpid"},
	"io/ioutil": {"sos", "ReadFile WriteFile TempFile"},
	"time":      {"stime", "Now Since Until Sleep After AfterFunc Tick NewTimer NewTicker Timer Ticker"},
	"math/rand": {"srand", "Int Intn Int31 Int31n Int63 Int63n Uint32 Uint64 Float32 Float64 Perm Shuffle Seed"},
}

var nameSets = map[string]map[string]bool{}

func init() {
	for path, s := range simulated {
		set := map[string]bool{}
		for _, n := range strings.Fields(s.names) {
			set[n] = true
		}
		nameSets[path] = set
	}
}

func fatal(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+format+"\n", args...)
	os.Exit(2)
}

type instr struct {
	fset  *token.FileSet
	info  *types.Info
	root  string
	sites []string
	tmp   int

	pkg     int             // number of the package, in dependency order
	resets  bool            // package variables can be initialised again
	used    map[string]bool // shims used by the file
	removed map[*types.PkgName]int
	orig    map[ast.Expr]ast.Expr // instrumented initialiser -> original one
}

func (in *instr) site(pos token.Pos) ast.Expr {
	p := in.fset.Position(pos)
	name := p.Filename
	if rel, err := filepath.Rel(in.root, name); err == nil && !strings.HasPrefix(rel, "..") {
		name = rel
	} else {
		name = filepath.Base(filepath.Dir(name)) + "/" + filepath.Base(name)
	}
	in.sites = append(in.sites, fmt.Sprintf("%s:%d", name, p.Line))
	return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(in.sites) - 1)}
}

func (in *instr) rt(name string, args ...ast.Expr) *ast.CallExpr {
	in.used["rt"] = true
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("zz_rt"), Sel: ast.NewIdent(name)}, Args: args}
}

func (in *instr) yield(pos token.Pos) ast.Stmt {
	return &ast.ExprStmt{X: in.rt("Y", in.site(pos))}
}

func (in *instr) fresh(prefix string) *ast.Ident {
	in.tmp++
	return ast.NewIdent(fmt.Sprintf("zz_%s%d", prefix, in.tmp))
}

func (in *instr) isMap(e ast.Expr) bool {
	tv, ok := in.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Map)
	return ok
}

// chanType is the type of e, if it is a channel
func (in *instr) chanType(e ast.Expr) *types.Chan {
	tv, ok := in.info.Types[e]
	if !ok || tv.Type == nil {
		return nil
	}
	c, _ := tv.Type.Underlying().(*types.Chan)
	return c
}

// recv2 is the channel in "v, ok = <-c"
func recv2(lhs int, rhs []ast.Expr) ast.Expr {
	if lhs != 2 || len(rhs) != 1 {
		return nil
	}
	u, ok := ast.Unparen(rhs[0]).(*ast.UnaryExpr)
	if !ok || u.Op != token.ARROW {
		return nil
	}
	return u.X
}

func (in *instr) isBuiltin(e ast.Expr, name string) bool {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = in.info.Uses[id].(*types.Builtin)
	return ok
}

// expr rewrites an expression; write marks the target of an assignment
func (in *instr) expr(e ast.Expr, write bool) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.Ident, *ast.BasicLit:
		return e
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if pkg, ok := in.info.Uses[id].(*types.PkgName); ok {
				path := pkg.Imported().Path()
				if nameSets[path][x.Sel.Name] {
					shim := simulated[path].shim
					in.used[shim] = true
					in.removed[pkg]++
					return &ast.SelectorExpr{X: &ast.Ident{NamePos: id.NamePos, Name: "zz_" + shim}, Sel: x.Sel}
				}
				return x
			}
		}
		x.X = in.expr(x.X, false)
		return x
	case *ast.IndexExpr:
		isMap := in.isMap(x.X)
		pos := x.Pos()
		x.X = in.expr(x.X, false)
		x.Index = in.expr(x.Index, false)
		if isMap {
			fn := "R"
			if write {
				fn = "W"
			}
			x.X = in.rt(fn, x.X, in.site(pos))
		}
		return x
	case *ast.CallExpr:
		if len(x.Args) >= 1 && in.isMap(x.Args[0]) {
			for name, fn := range map[string]string{"delete": "W", "clear": "W", "len": "R"} {
				if in.isBuiltin(x.Fun, name) {
					pos := x.Pos()
					for i := range x.Args {
						x.Args[i] = in.expr(x.Args[i], false)
					}
					x.Args[0] = in.rt(fn, x.Args[0], in.site(pos))
					return x
				}
			}
		}
		if len(x.Args) == 1 {
			if c := in.chanType(x.Args[0]); c != nil {
				if in.isBuiltin(x.Fun, "close") {
					return in.rt("Close", in.expr(x.Args[0], false))
				}
				if in.isBuiltin(x.Fun, "len") && c.Dir() != types.SendOnly {
					return in.rt("ChanLen", in.expr(x.Args[0], false))
				}
			}
		}
		x.Fun = in.expr(x.Fun, false)
		for i := range x.Args {
			x.Args[i] = in.expr(x.Args[i], false)
		}
		return x
	case *ast.ParenExpr:
		x.X = in.expr(x.X, write)
		return x
	case *ast.StarExpr:
		x.X = in.expr(x.X, false)
		return x
	case *ast.UnaryExpr:
		x.X = in.expr(x.X, false)
		if x.Op == token.ARROW {
			return in.rt("Recv", x.X)
		}
		return x
	case *ast.BinaryExpr:
		x.X = in.expr(x.X, false)
		x.Y = in.expr(x.Y, false)
		return x
	case *ast.KeyValueExpr:
		// keys of struct literals are field names
		if _, ok := x.Key.(*ast.Ident); !ok {
			x.Key = in.expr(x.Key, false)
		}
		x.Value = in.expr(x.Value, false)
		return x
	case *ast.CompositeLit:
		x.Type = in.expr(x.Type, false)
		for i := range x.Elts {
			x.Elts[i] = in.expr(x.Elts[i], false)
		}
		return x
	case *ast.FuncLit:
		in.fieldList(x.Type.Params)
		in.fieldList(x.Type.Results)
		in.block(x.Body)
		return x
	case *ast.SliceExpr:
		x.X = in.expr(x.X, false)
		x.Low = in.expr(x.Low, false)
		x.High = in.expr(x.High, false)
		x.Max = in.expr(x.Max, false)
		return x
	case *ast.TypeAssertExpr:
		x.X = in.expr(x.X, false)
		x.Type = in.expr(x.Type, false)
		return x
	case *ast.ArrayType:
		x.Len = in.expr(x.Len, false)
		x.Elt = in.expr(x.Elt, false)
		return x
	case *ast.MapType:
		x.Key = in.expr(x.Key, false)
		x.Value = in.expr(x.Value, false)
		return x
	case *ast.ChanType:
		x.Value = in.expr(x.Value, false)
		return x
	case *ast.StructType:
		in.fieldList(x.Fields)
		return x
	case *ast.InterfaceType:
		in.fieldList(x.Methods)
		return x
	case *ast.FuncType:
		in.fieldList(x.TypeParams)
		in.fieldList(x.Params)
		in.fieldList(x.Results)
		return x
	case *ast.Ellipsis:
		x.Elt = in.expr(x.Elt, false)
		return x
	case *ast.IndexListExpr:
		x.X = in.expr(x.X, false)
		for i := range x.Indices {
			x.Indices[i] = in.expr(x.Indices[i], false)
		}
		return x
	}
	fatal("unsupported expression %T at %s", e, in.fset.Position(e.Pos()))
	return nil
}

func (in *instr) fieldList(fl *ast.FieldList) {
	if fl == nil {
		return
	}
	for _, f := range fl.List {
		f.Type = in.expr(f.Type, false)
	}
}

func (in *instr) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = in.stmts(b.List)
	}
}

func (in *instr) stmts(list []ast.Stmt) []ast.Stmt {
	res := []ast.Stmt{}
	for _, s := range list {
		if _, ok := s.(*ast.EmptyStmt); ok {
			res = append(res, s)
			continue
		}
		pos := s.Pos()
		res = append(res, in.yield(pos))
		if l := in.split(s); l != nil {
			res = append(res, l...)
			continue
		}
		res = append(res, in.stmt(s)...)
	}
	return res
}

// shared reports whether e is a place, which other tasks may see: a field, an
// element or a package variable, without calls in its address
func (in *instr) shared(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			ok = false
		case *ast.IndexExpr:
			if in.isMap(x.X) {
				ok = false // tracked as a map access
			}
		}
		return ok
	})
	if !ok {
		return false
	}
	switch x := ast.Unparen(e).(type) {
	case *ast.SelectorExpr, *ast.StarExpr, *ast.IndexExpr:
		return true
	case *ast.Ident:
		v, isVar := in.info.Uses[x].(*types.Var)
		return isVar && v.Pkg() != nil && v.Parent() == v.Pkg().Scope()
	}
	return false
}

// split separates the read and the write of statements like x.n++ and
// x.l = append(x.l, v): another task may run in between.
func (in *instr) split(s ast.Stmt) []ast.Stmt {
	var lhs, rhs ast.Expr
	switch x := s.(type) {
	case *ast.IncDecStmt:
		if !in.shared(x.X) {
			return nil
		}
		lhs = x.X
		op := token.ADD
		if x.Tok == token.DEC {
			op = token.SUB
		}
		lhs = in.expr(lhs, true)
		rhs = &ast.BinaryExpr{X: lhs, Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}
	case *ast.AssignStmt:
		if len(x.Lhs) != 1 || len(x.Rhs) != 1 || x.Tok == token.DEFINE || !in.shared(x.Lhs[0]) {
			return nil
		}
		if x.Tok != token.ASSIGN {
			op := map[token.Token]token.Token{
				token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
				token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR,
				token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT,
			}[x.Tok]
			lhs = in.expr(x.Lhs[0], true)
			rhs = &ast.BinaryExpr{X: lhs, Op: op, Y: &ast.ParenExpr{X: in.expr(x.Rhs[0], false)}}
			break
		}
		l, r := in.info.Types[x.Lhs[0]], in.info.Types[x.Rhs[0]]
		if id, ok := x.Lhs[0].(*ast.Ident); ok {
			l = types.TypeAndValue{Type: in.info.Uses[id].Type()}
		}
		if l.Type == nil || r.Type == nil || r.Value != nil || !types.Identical(l.Type, r.Type) {
			return nil
		}
		name := types.ExprString(x.Lhs[0])
		reads := false
		ast.Inspect(x.Rhs[0], func(n ast.Node) bool {
			if e, ok := n.(ast.Expr); ok && types.ExprString(e) == name {
				reads = true
			}
			return !reads
		})
		if !reads {
			return nil
		}
		lhs = in.expr(x.Lhs[0], true)
		rhs = in.expr(x.Rhs[0], false)
	default:
		return nil
	}
	tmp := in.fresh("t")
	return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{tmp}, Tok: token.DEFINE, Rhs: []ast.Expr{rhs}},
		in.yield(s.Pos()),
		&ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(tmp.Name)}},
	}}}
}

// one wraps several statements into one
func one(list []ast.Stmt) ast.Stmt {
	if len(list) == 1 {
		return list[0]
	}
	return &ast.BlockStmt{List: list}
}

func (in *instr) simple(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	return one(in.stmt(s))
}

func (in *instr) loopBody(b *ast.BlockStmt) {
	pos := b.Pos()
	in.block(b)
	if len(b.List) == 0 {
		b.List = []ast.Stmt{in.yield(pos)}
	}
}

func (in *instr) stmt(s ast.Stmt) []ast.Stmt {
	switch x := s.(type) {
	case *ast.ExprStmt:
		x.X = in.expr(x.X, false)
	case *ast.AssignStmt:
		for i := range x.Lhs {
			x.Lhs[i] = in.expr(x.Lhs[i], x.Tok != token.DEFINE)
		}
		if c := recv2(len(x.Lhs), x.Rhs); c != nil {
			x.Rhs[0] = in.rt("Recv2", in.expr(c, false))
			break
		}
		for i := range x.Rhs {
			x.Rhs[i] = in.expr(x.Rhs[i], false)
		}
	case *ast.IncDecStmt:
		x.X = in.expr(x.X, true)
	case *ast.DeclStmt:
		in.genDecl(x.Decl.(*ast.GenDecl))
	case *ast.ReturnStmt:
		for i := range x.Results {
			x.Results[i] = in.expr(x.Results[i], false)
		}
	case *ast.DeferStmt:
		x.Call = in.expr(x.Call, false).(*ast.CallExpr)
	case *ast.GoStmt:
		return in.goStmt(x)
	case *ast.SendStmt:
		send := in.rt("Send", in.expr(x.Chan, false))
		return []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: send, Args: []ast.Expr{in.expr(x.Value, false)}}}}
	case *ast.BlockStmt:
		in.block(x)
	case *ast.IfStmt:
		x.Init = in.simple(x.Init)
		x.Cond = in.expr(x.Cond, false)
		in.block(x.Body)
		if x.Else != nil {
			x.Else = one(in.stmt(x.Else))
		}
	case *ast.ForStmt:
		x.Init = in.simple(x.Init)
		x.Cond = in.expr(x.Cond, false)
		x.Post = in.simple(x.Post)
		in.loopBody(x.Body)
	case *ast.RangeStmt:
		if in.isMap(x.X) {
			return in.rangeMap(x, nil)
		}
		if in.chanType(x.X) != nil {
			return in.rangeChan(x, nil)
		}
		x.Key = in.expr(x.Key, x.Tok == token.ASSIGN)
		x.Value = in.expr(x.Value, x.Tok == token.ASSIGN)
		x.X = in.expr(x.X, false)
		in.loopBody(x.Body)
	case *ast.SwitchStmt:
		x.Init = in.simple(x.Init)
		x.Tag = in.expr(x.Tag, false)
		in.clauses(x.Body)
	case *ast.TypeSwitchStmt:
		x.Init = in.simple(x.Init)
		x.Assign = in.simple(x.Assign)
		in.clauses(x.Body)
	case *ast.SelectStmt:
		return in.selectStmt(x, nil)
	case *ast.LabeledStmt:
		if r, ok := x.Stmt.(*ast.RangeStmt); ok && in.isMap(r.X) {
			return in.rangeMap(r, x.Label)
		}
		if r, ok := x.Stmt.(*ast.RangeStmt); ok && in.chanType(r.X) != nil {
			return in.rangeChan(r, x.Label)
		}
		if r, ok := x.Stmt.(*ast.SelectStmt); ok {
			return in.selectStmt(r, x.Label)
		}
		list := in.stmt(x.Stmt)
		x.Stmt = list[0]
		return append([]ast.Stmt{x}, list[1:]...)
	case *ast.BranchStmt, *ast.EmptyStmt:
	default:
		fatal("unsupported statement %T at %s", s, in.fset.Position(s.Pos()))
	}
	return []ast.Stmt{s}
}

func (in *instr) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		switch x := c.(type) {
		case *ast.CaseClause:
			for i := range x.List {
				x.List[i] = in.expr(x.List[i], false)
			}
			x.Body = in.stmts(x.Body)
		}
	}
}

func labelled(label *ast.Ident, s ast.Stmt) ast.Stmt {
	if label == nil {
		return s
	}
	return &ast.LabeledStmt{Label: label, Stmt: s}
}

// rangeChan receives from a simulated channel
func (in *instr) rangeChan(x *ast.RangeStmt, label *ast.Ident) []ast.Stmt {
	c := in.fresh("c")
	ok := in.fresh("ok")
	id := func(i *ast.Ident) *ast.Ident { return ast.NewIdent(i.Name) }
	outer := []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id(c)}, Tok: token.DEFINE, Rhs: []ast.Expr{in.expr(x.X, false)}}}
	key := x.Key
	if isBlank(key) {
		key = ast.NewIdent("_")
	}
	body := []ast.Stmt{}
	tok := token.DEFINE
	if x.Tok == token.ASSIGN {
		key = in.expr(key, true)
		body = append(body, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{
			&ast.ValueSpec{Names: []*ast.Ident{id(ok)}, Type: ast.NewIdent("bool")}}}})
		tok = token.ASSIGN
	}
	body = append(body,
		&ast.AssignStmt{Lhs: []ast.Expr{key, id(ok)}, Tok: tok, Rhs: []ast.Expr{in.rt("Recv2", id(c))}},
		&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
	in.loopBody(x.Body)
	body = append(body, x.Body)
	loop := labelled(label, &ast.ForStmt{Body: &ast.BlockStmt{List: body}})
	return []ast.Stmt{&ast.BlockStmt{List: append(outer, loop)}}
}

// selectStmt lets the simulator perform one of the cases
func (in *instr) selectStmt(x *ast.SelectStmt, label *ast.Ident) []ast.Stmt {
	id := func(i *ast.Ident) *ast.Ident { return ast.NewIdent(i.Name) }
	outer := []ast.Stmt{}
	def := ast.NewIdent("false")
	sel, got := in.fresh("i"), in.fresh("got")
	cases := []ast.Expr{}
	sw := &ast.BlockStmt{}
	hasDefault := false
	for _, s := range x.Body.List {
		cl := s.(*ast.CommClause)
		pos := cl.Pos()
		out := &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(cases))}}}
		var recv ast.Expr
		var bind *ast.AssignStmt
		switch c := cl.Comm.(type) {
		case nil:
			def = ast.NewIdent("true")
			hasDefault = true
			out.List = nil
		case *ast.SendStmt:
			ch := in.fresh("c")
			call := &ast.CallExpr{Fun: in.rt("CaseSend", in.expr(c.Chan, false)), Args: []ast.Expr{in.expr(c.Value, false)}}
			outer = append(outer, &ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{call}})
			cases = append(cases, id(ch))
		case *ast.ExprStmt:
			recv = ast.Unparen(c.X).(*ast.UnaryExpr).X
		case *ast.AssignStmt:
			recv = ast.Unparen(c.Rhs[0]).(*ast.UnaryExpr).X
			bind = c
		}
		if recv != nil {
			ch := in.fresh("c")
			outer = append(outer, &ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{in.expr(recv, false)}})
			cases = append(cases, in.rt("CaseRecv", id(ch)))
			if bind != nil {
				fn := "Value"
				if len(bind.Lhs) == 2 {
					fn = "Value2"
				}
				lhs := []ast.Expr{}
				for _, l := range bind.Lhs {
					lhs = append(lhs, in.expr(l, bind.Tok == token.ASSIGN))
				}
				out.Body = append(out.Body, &ast.AssignStmt{Lhs: lhs, Tok: bind.Tok, Rhs: []ast.Expr{in.rt(fn, id(ch), id(got))}})
			}
		}
		out.Body = append(out.Body, in.stmts(cl.Body)...)
		if len(cl.Body) == 0 {
			out.Body = append(out.Body, in.yield(pos))
		}
		sw.List = append(sw.List, out)
	}
	if !hasDefault {
		sw.List = append(sw.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{
			Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"stopped"`}}}}}})
	}
	outer = append(outer,
		&ast.AssignStmt{Lhs: []ast.Expr{id(sel), id(got)}, Tok: token.DEFINE, Rhs: []ast.Expr{in.rt("Select", append([]ast.Expr{def}, cases...)...)}},
		&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(got)}},
		labelled(label, &ast.SwitchStmt{Tag: id(sel), Body: sw}))
	return []ast.Stmt{&ast.BlockStmt{List: outer}}
}

func (in *instr) goStmt(x *ast.GoStmt) []ast.Stmt {
	call := in.expr(x.Call, false).(*ast.CallExpr)
	res := []ast.Stmt{}
	bind := func(e ast.Expr) ast.Expr {
		id := in.fresh("g")
		res = append(res, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		return ast.NewIdent(id.Name)
	}
	fun := call.Fun
	if _, ok := fun.(*ast.FuncLit); !ok {
		fun = bind(fun)
	}
	args := make([]ast.Expr, len(call.Args))
	for i, a := range call.Args {
		args[i] = bind(a)
	}
	inner := &ast.CallExpr{Fun: fun, Args: args, Ellipsis: call.Ellipsis}
	if call.Ellipsis != token.NoPos {
		inner.Ellipsis = 1
	}
	lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}}
	res = append(res, &ast.ExprStmt{X: in.rt("Go", lit)})
	return []ast.Stmt{&ast.BlockStmt{List: res}}
}

func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

// rangeMap lets the simulator choose the order
func (in *instr) rangeMap(x *ast.RangeStmt, label *ast.Ident) []ast.Stmt {
	pos := x.Pos()
	m := in.fresh("m")
	k := in.fresh("k")
	v := in.fresh("v")
	ok := in.fresh("ok")
	id := func(i *ast.Ident) *ast.Ident { return ast.NewIdent(i.Name) }

	outer := []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{id(m)}, Tok: token.DEFINE, Rhs: []ast.Expr{in.expr(x.X, false)}},
	}
	key, value := x.Key, x.Value
	if x.Tok == token.DEFINE {
		lhs := []ast.Expr{ast.NewIdent("_"), ast.NewIdent("_")}
		use := []ast.Expr{}
		if !isBlank(key) {
			lhs[0] = ast.NewIdent(key.(*ast.Ident).Name)
			use = append(use, lhs[0])
		}
		if !isBlank(value) {
			lhs[1] = ast.NewIdent(value.(*ast.Ident).Name)
			use = append(use, lhs[1])
		}
		if len(use) > 0 {
			outer = append(outer, &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: []ast.Expr{in.rt("Zero", id(m))}})
			for _, u := range use {
				outer = append(outer, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(u.(*ast.Ident).Name)}})
			}
		}
	} else {
		key = in.expr(key, true)
		value = in.expr(value, true)
	}

	body := []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{id(v), id(ok)}, Tok: token.DEFINE,
			Rhs: []ast.Expr{&ast.IndexExpr{X: in.rt("R", id(m), in.site(pos)), Index: id(k)}}},
		&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}},
		&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(v)}},
	}
	if !isBlank(key) {
		body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{key}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(k)}})
	}
	if !isBlank(value) {
		body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{value}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(v)}})
	}
	in.loopBody(x.Body)
	// the original body keeps its own scope
	body = append(body, x.Body.List...)
	var loop ast.Stmt = &ast.RangeStmt{
		Key: ast.NewIdent("_"), Value: id(k), Tok: token.DEFINE,
		X:    in.rt("Keys", id(m), in.site(pos)),
		Body: &ast.BlockStmt{List: body},
	}
	if label != nil {
		loop = &ast.LabeledStmt{Label: label, Stmt: loop}
	}
	return []ast.Stmt{&ast.BlockStmt{List: append(outer, loop)}}
}

func (in *instr) genDecl(d *ast.GenDecl) {
	for _, spec := range d.Specs {
		switch s := spec.(type) {
		case *ast.ValueSpec:
			s.Type = in.expr(s.Type, false)
			if c := recv2(len(s.Names), s.Values); c != nil {
				s.Values[0] = in.rt("Recv2", in.expr(c, false))
				continue
			}
			for i := range s.Values {
				o := s.Values[i]
				s.Values[i] = in.expr(o, false)
				in.orig[s.Values[i]] = o
			}
		case *ast.TypeSpec:
			in.fieldList(s.TypeParams)
			s.Type = in.expr(s.Type, false)
		}
	}
}

// resetCode initialises the package variables of a file again: every run
// starts with the state of a new process
func (in *instr) resetCode(f *ast.File) string {
	order := map[ast.Expr]int{}
	for i, init := range in.info.InitOrder {
		order[init.Rhs] = i + 1
	}
	var sb strings.Builder
	cfg := printer.Config{Mode: printer.RawFormat}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, spec := range g.Specs {
			v := spec.(*ast.ValueSpec)
			for _, id := range v.Names {
				if id.Name != "_" {
					in.used["rt"] = true
					fmt.Fprintf(&sb, "\tzz_rt.Globals = append(zz_rt.Globals, &%s)\n", id.Name)
				}
			}
			if !in.resets {
				continue
			}
			set := func(lhs, rhs string, n int) {
				in.used["rt"] = true
				fmt.Fprintf(&sb, "\tzz_rt.OnReset(%d, func() { %s = %s })\n", in.pkg*100000+n, lhs, rhs)
			}
			show := func(e ast.Expr) string {
				var b bytes.Buffer
				if err := cfg.Fprint(&b, in.fset, e); err != nil {
					fatal("print: %v", err)
				}
				return b.String()
			}
			switch {
			case len(v.Values) == len(v.Names):
				for i, id := range v.Names {
					if id.Name != "_" {
						set(id.Name, show(v.Values[i]), order[in.orig[v.Values[i]]])
					}
				}
			case len(v.Values) == 1:
				names := []string{}
				for _, id := range v.Names {
					names = append(names, id.Name)
				}
				set(strings.Join(names, ", "), show(v.Values[0]), order[in.orig[v.Values[0]]])
			default:
				for _, id := range v.Names {
					if id.Name != "_" {
						set(id.Name, "zz_rt.ZeroOf(&"+id.Name+")", 0)
					}
				}
			}
		}
	}
	if sb.Len() == 0 {
		return ""
	}
	return "func init() {\n" + sb.String() + "}\n"
}

func (in *instr) file(f *ast.File) []byte {
	in.used = map[string]bool{}
	in.removed = map[*types.PkgName]int{}
	in.orig = map[ast.Expr]ast.Expr{}

	// number of uses of every import
	uses := map[*types.PkgName]int{}
	ast.Inspect(f, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if p, ok := in.info.Uses[id].(*types.PkgName); ok {
				uses[p]++
			}
		}
		return true
	})

	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.GenDecl:
			x.Doc = nil
			if x.Tok != token.IMPORT {
				in.genDecl(x)
			}
		case *ast.FuncDecl:
			x.Doc = nil
			in.fieldList(x.Recv)
			in.fieldList(x.Type.TypeParams)
			in.fieldList(x.Type.Params)
			in.fieldList(x.Type.Results)
			in.block(x.Body)
		}
	}

	reset := in.resetCode(f)

	specs := []ast.Spec{}
	for _, spec := range f.Imports {
		var obj types.Object
		if spec.Name != nil {
			obj = in.info.Defs[spec.Name]
		} else {
			obj = in.info.Implicits[spec]
		}
		if p, ok := obj.(*types.PkgName); ok && in.removed[p] > 0 && in.removed[p] == uses[p] {
			continue
		}
		specs = append(specs, &ast.ImportSpec{Name: spec.Name, Path: &ast.BasicLit{Kind: token.STRING, Value: spec.Path.Value}})
	}
	shims := []string{}
	for s := range in.used {
		shims = append(shims, s)
	}
	sort.Strings(shims)
	for _, s := range shims {
		specs = append(specs, &ast.ImportSpec{Name: ast.NewIdent("zz_" + s), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote("zzsim.local/" + s)}})
	}
	decls := []ast.Decl{}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		decls = append(decls, d)
	}
	f.Decls = decls
	f.Comments = nil
	f.Doc = nil
	f.Imports = nil

	var buf bytes.Buffer
	fmt.Fprintf(&buf, "package %s\n\n", f.Name.Name)
	for _, s := range specs {
		is := s.(*ast.ImportSpec)
		name := ""
		if is.Name != nil {
			name = is.Name.Name + " "
		}
		fmt.Fprintf(&buf, "import %s%s\n", name, is.Path.Value)
	}
	buf.WriteString("\n")
	cfg := printer.Config{Mode: printer.RawFormat}
	for _, d := range f.Decls {
		if err := cfg.Fprint(&buf, in.fset, d); err != nil {
			fatal("print: %v", err)
		}
		buf.WriteString("\n\n")
	}
	buf.WriteString(reset)
	return buf.Bytes()
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	out := flag.String("out", "", "build directory")
	zz := flag.String("zz", "", "simulator module")
	harness := flag.String("harness", "", "harness sources")
	flag.Parse()

	gomod, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	if err != nil {
		fatal("%v", err)
	}
	modPath := ""
	for _, l := range strings.Split(string(gomod), "\n") {
		if strings.HasPrefix(l, "module ") {
			modPath = strings.TrimSpace(strings.TrimPrefix(l, "module "))
		}
	}
	// work on a copy of go.mod and go.sum, the repository stays as it is
	must(os.MkdirAll(*out, 0o755))
	modfile := filepath.Join(*out, "go.mod")
	must(os.WriteFile(modfile, gomod, 0o644))
	gosum, err := os.ReadFile(filepath.Join(*repo, "go.sum"))
	if err != nil {
		fatal("%v", err)
	}
	must(os.WriteFile(filepath.Join(*out, "go.sum"), gosum, 0o644))

	cmd := exec.Command("go", "list", "-C", *repo, "-modfile="+modfile, "-export", "-deps", "-json=Dir,ImportPath,Export,GoFiles,CgoFiles,Standard,Module,Error", "./...")
	cmd.Stderr = os.Stderr
	data, err := cmd.Output()
	if err != nil {
		fatal("go list: %v", err)
	}
	pkgs := map[string]*pkgInfo{}
	order := []string{}
	dec := json.NewDecoder(bytes.NewReader(data))
	for {
		p := &pkgInfo{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list: %v", err)
		}
		if p.Error != nil {
			fatal("%s: %s", p.ImportPath, p.Error.Err)
		}
		pkgs[p.ImportPath] = p
		order = append(order, p.ImportPath)
	}

	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p, ok := pkgs[path]
		if !ok || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})

	overlay := map[string]string{}
	sites := []string{}
	emitterDir, iniDir := "", ""
	nfiles, npkg := 0, 1
	for _, path := range order {
		p := pkgs[path]
		if p.Module == nil || len(p.GoFiles) == 0 {
			continue
		}
		emitter := p.Module.Path == emitterModule
		if path == iniModule {
			iniDir = filepath.Join(*out, "ini")
			copyINI(p.Dir, iniDir)
		}
		if p.Module.Path != modPath && !emitter {
			continue
		}
		if path == modPath+"/testutil" {
			continue
		}
		files := []*ast.File{}
		for _, name := range p.GoFiles {
			f, err := parser.ParseFile(fset, filepath.Join(p.Dir, name), nil, parser.SkipObjectResolution)
			if err != nil {
				fatal("%v", err)
			}
			files = append(files, f)
		}
		info := &types.Info{
			Types:     map[ast.Expr]types.TypeAndValue{},
			Uses:      map[*ast.Ident]types.Object{},
			Defs:      map[*ast.Ident]types.Object{},
			Implicits: map[ast.Node]types.Object{},
		}
		conf := types.Config{Importer: imp}
		if _, err := conf.Check(path, fset, files, info); err != nil {
			fatal("type check %s: %v", path, err)
		}
		in := &instr{fset: fset, info: info, root: *repo, sites: sites, pkg: npkg, resets: true}
		npkg++
		for _, f := range files {
			for _, d := range f.Decls {
				if fn, ok := d.(*ast.FuncDecl); ok && fn.Recv == nil && fn.Name.Name == "init" {
					in.resets = false // may have effects elsewhere
				}
			}
		}
		for i, f := range files {
			src := in.file(f)
			name := p.GoFiles[i]
			var dst string
			if emitter {
				emitterDir = filepath.Join(*out, "emitter")
				rel, _ := filepath.Rel(p.Module.Dir, p.Dir)
				dst = filepath.Join(emitterDir, rel, name)
			} else {
				rel, _ := filepath.Rel(*repo, p.Dir)
				dst = filepath.Join(*out, "src", rel, name)
				overlay[filepath.Join(p.Dir, name)] = dst
			}
			must(os.MkdirAll(filepath.Dir(dst), 0o755))
			must(os.WriteFile(dst, src, 0o644))
			nfiles++
		}
		sites = in.sites
	}
	if emitterDir == "" {
		fatal("the event emitter is not among the dependencies")
	}

	// harness: a virtual package of the main module
	hfiles, err := filepath.Glob(filepath.Join(*harness, "*.go"))
	if err != nil || len(hfiles) == 0 {
		fatal("no harness sources in %s", *harness)
	}
	hdir := filepath.Join(*repo, "zzharness")
	if _, err := os.Stat(hdir); err == nil {
		fatal("%s exists", hdir)
	}
	for _, f := range hfiles {
		overlay[filepath.Join(hdir, filepath.Base(f))] = f
	}
	var sb strings.Builder
	sb.WriteString("package main\n\nimport \"zzsim.local/rt\"\n\nfunc init() {\n\trt.Sites = []string{\n")
	for _, s := range sites {
		fmt.Fprintf(&sb, "\t\t%q,\n", s)
	}
	sb.WriteString("\t}\n\trt.Reached = make([]bool, len(rt.Sites))\n}\n")
	gen := filepath.Join(*out, "sites_gen.go")
	must(os.WriteFile(gen, []byte(sb.String()), 0o644))
	overlay[filepath.Join(hdir, "sites_gen.go")] = gen

	ov, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), ov, 0o644))

	// go.mod of the build: generics for the instrumentation, old loop variables
	lines := []string{}
	for _, l := range strings.Split(string(gomod), "\n") {
		if strings.HasPrefix(l, "go ") {
			l = "go 1.21"
		}
		lines = append(lines, l)
	}
	lines = append(lines,
		"require zzsim.local v0.0.0",
		"replace zzsim.local => "+*zz,
		"replace "+emitterModule+" => "+emitterDir)
	if iniDir != "" {
		lines = append(lines, "replace "+iniModule+" => "+iniDir)
	}
	lines = append(lines, "")
	must(os.WriteFile(modfile, []byte(strings.Join(lines, "\n")), 0o644))
	must(os.WriteFile(filepath.Join(emitterDir, "go.mod"), []byte("module "+emitterModule+"\n\ngo 1.21\n\nrequire zzsim.local v0.0.0\n"), 0o644))

	fmt.Printf("instrumented %d files, %d sites\n", nfiles, len(sites))
}

func must(err error) {
	if err != nil {
		fatal("%v", err)
	}
}
