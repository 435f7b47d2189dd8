// gossa prints the SSA form of a Go module's packages as JSON, for the checks
// written in Python. It type-checks the current sources; nothing is run.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type loader struct {
	fset   *token.FileSet
	root   string
	module string
	std    types.Importer
	pkgs   map[string]*types.Package
	infos  map[string]*types.Info
	files  map[string][]*ast.File
	order  []string
}

func (l *loader) Import(path string) (*types.Package, error) {
	if p, ok := l.pkgs[path]; ok {
		return p, nil
	}
	if path != l.module && !strings.HasPrefix(path, l.module+"/") {
		return l.std.Import(path)
	}
	return l.load(path, filepath.Join(l.root, strings.TrimPrefix(path, l.module)))
}

func (l *loader) load(path, dir string) (*types.Package, error) {
	ctx := build.Default
	ctx.CgoEnabled = false
	bp, err := ctx.ImportDir(dir, 0)
	if err != nil {
		return nil, err
	}
	var files []*ast.File
	for _, n := range bp.GoFiles {
		f, err := parser.ParseFile(l.fset, filepath.Join(dir, n), nil, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		files = append(files, f)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{},
		Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{},
	}
	conf := types.Config{Importer: l}
	p, err := conf.Check(path, l.fset, files, info)
	if err != nil {
		return nil, err
	}
	l.pkgs[path], l.infos[path], l.files[path] = p, info, files
	l.order = append(l.order, path)
	return p, nil
}

type M = map[string]any

type dumper struct {
	prog  *ssa.Program
	fset  *token.FileSet
	root  string
	mine  func(*ssa.Package) bool
	types map[string]any
	todo  []*ssa.Function
	seen  map[*ssa.Function]bool
}

func (d *dumper) pos(p token.Pos) int {
	return d.fset.Position(p).Line
}

func (d *dumper) typ(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Path() })
	if _, ok := d.types[s]; ok {
		return s
	}
	m := M{}
	d.types[s] = m
	if n, ok := t.(*types.Named); ok {
		m["name"] = n.Obj().Name()
		if n.Obj().Pkg() != nil {
			m["pkg"] = n.Obj().Pkg().Path()
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		m["kind"] = "basic"
		m["basic"] = u.Name()
	case *types.Pointer:
		m["kind"] = "pointer"
		m["elem"] = d.typ(u.Elem())
	case *types.Slice:
		m["kind"] = "slice"
		m["elem"] = d.typ(u.Elem())
	case *types.Array:
		m["kind"] = "array"
		m["elem"] = d.typ(u.Elem())
		m["len"] = u.Len()
	case *types.Map:
		m["kind"] = "map"
		m["key"] = d.typ(u.Key())
		m["elem"] = d.typ(u.Elem())
	case *types.Chan:
		m["kind"] = "chan"
		m["elem"] = d.typ(u.Elem())
	case *types.Interface:
		m["kind"] = "interface"
	case *types.Signature:
		m["kind"] = "func"
	case *types.Tuple:
		m["kind"] = "tuple"
		var e []string
		for i := 0; i < u.Len(); i++ {
			e = append(e, d.typ(u.At(i).Type()))
		}
		m["elems"] = e
	case *types.Struct:
		m["kind"] = "struct"
		var fs []M
		std := true
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			std = !strings.Contains(n.Obj().Pkg().Path(), ".")
		} else {
			std = false
		}
		m["std"] = std
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			x := M{"name": f.Name(), "tag": u.Tag(i), "embedded": f.Embedded(), "exported": f.Exported()}
			if std {
				x["type"] = types.TypeString(f.Type(), func(p *types.Package) string { return p.Path() })
				if d.shallow(f.Type()) {
					x["type"] = d.typ(f.Type())
				}
			} else {
				x["type"] = d.typ(f.Type())
			}
			fs = append(fs, x)
		}
		m["fields"] = fs
	default:
		m["kind"] = fmt.Sprintf("%T", u)
	}
	return s
}

func (d *dumper) shallow(t types.Type) bool {
	_, ok := t.(*types.Basic)
	return ok
}

func (d *dumper) fn(f *ssa.Function) string {
	if !d.seen[f] {
		d.seen[f] = true
		d.todo = append(d.todo, f)
	}
	return f.String()
}

func (d *dumper) val(v ssa.Value) any {
	switch v := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		m := M{"k": "const", "t": d.typ(v.Type())}
		if v.Value == nil {
			m["nil"] = true
		} else {
			switch v.Value.Kind() {
			case constant.Bool:
				m["v"] = constant.BoolVal(v.Value)
			case constant.String:
				m["v"] = constant.StringVal(v.Value)
			case constant.Int:
				m["int"] = v.Value.ExactString()
			default:
				m["float"] = v.Value.ExactString()
			}
		}
		return m
	case *ssa.Function:
		return M{"k": "func", "f": d.fn(v), "t": d.typ(v.Type())}
	case *ssa.Builtin:
		return M{"k": "builtin", "f": v.Name()}
	case *ssa.Global:
		return M{"k": "global", "f": v.String(), "t": d.typ(v.Type())}
	default:
		return M{"k": "reg", "r": v.Name(), "t": d.typ(v.Type())}
	}
}

func (d *dumper) call(c *ssa.CallCommon) M {
	m := M{}
	var args []any
	for _, a := range c.Args {
		args = append(args, d.val(a))
	}
	m["args"] = args
	if c.IsInvoke() {
		m["invoke"] = c.Method.Name()
		m["recv"] = d.val(c.Value)
		m["iface"] = d.typ(c.Value.Type())
	} else {
		m["fn"] = d.val(c.Value)
	}
	return m
}

func (d *dumper) instr(i ssa.Instruction) M {
	m := M{"op": strings.TrimPrefix(reflect.TypeOf(i).String(), "*ssa."), "line": d.pos(i.Pos())}
	if v, ok := i.(ssa.Value); ok {
		m["r"] = v.Name()
		m["t"] = d.typ(v.Type())
	}
	field := func(x ssa.Value, n int) {
		t := x.Type().Underlying()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem().Underlying()
			m["struct"] = d.typ(x.Type().Underlying().(*types.Pointer).Elem())
		} else {
			m["struct"] = d.typ(x.Type())
		}
		m["field"] = t.(*types.Struct).Field(n).Name()
	}
	switch i := i.(type) {
	case *ssa.Alloc:
		m["heap"] = i.Heap
		m["elem"] = d.typ(i.Type().Underlying().(*types.Pointer).Elem())
		m["name"] = i.Comment
	case *ssa.BinOp:
		m["tok"] = i.Op.String()
		m["x"], m["y"] = d.val(i.X), d.val(i.Y)
	case *ssa.UnOp:
		m["tok"] = i.Op.String()
		m["x"] = d.val(i.X)
		m["commaok"] = i.CommaOk
	case *ssa.Call:
		m["call"] = d.call(&i.Call)
	case *ssa.Go:
		m["call"] = d.call(&i.Call)
	case *ssa.Defer:
		m["call"] = d.call(&i.Call)
	case *ssa.ChangeInterface:
		m["x"] = d.val(i.X)
	case *ssa.ChangeType:
		m["x"] = d.val(i.X)
	case *ssa.Convert:
		m["x"] = d.val(i.X)
		m["from"] = d.typ(i.X.Type())
	case *ssa.MultiConvert:
		m["x"] = d.val(i.X)
	case *ssa.SliceToArrayPointer:
		m["x"] = d.val(i.X)
	case *ssa.MakeInterface:
		m["x"] = d.val(i.X)
		m["from"] = d.typ(i.X.Type())
	case *ssa.MakeClosure:
		m["fn"] = d.fn(i.Fn.(*ssa.Function))
		var b []any
		for _, x := range i.Bindings {
			b = append(b, d.val(x))
		}
		m["bindings"] = b
	case *ssa.MakeMap:
	case *ssa.MakeChan:
		m["size"] = d.val(i.Size)
	case *ssa.MakeSlice:
		m["len"] = d.val(i.Len)
		m["cap"] = d.val(i.Cap)
	case *ssa.FieldAddr:
		m["x"] = d.val(i.X)
		field(i.X, i.Field)
	case *ssa.Field:
		m["x"] = d.val(i.X)
		field(i.X, i.Field)
	case *ssa.IndexAddr:
		m["x"], m["i"] = d.val(i.X), d.val(i.Index)
	case *ssa.Index:
		m["x"], m["i"] = d.val(i.X), d.val(i.Index)
	case *ssa.Lookup:
		m["x"], m["i"] = d.val(i.X), d.val(i.Index)
		m["commaok"] = i.CommaOk
	case *ssa.MapUpdate:
		m["m"], m["key"], m["v"] = d.val(i.Map), d.val(i.Key), d.val(i.Value)
	case *ssa.Store:
		m["addr"], m["v"] = d.val(i.Addr), d.val(i.Val)
	case *ssa.Phi:
		var e []any
		for _, x := range i.Edges {
			e = append(e, d.val(x))
		}
		m["edges"] = e
	case *ssa.If:
		m["x"] = d.val(i.Cond)
	case *ssa.Jump:
	case *ssa.Return:
		var e []any
		for _, x := range i.Results {
			e = append(e, d.val(x))
		}
		m["results"] = e
	case *ssa.Panic:
		m["x"] = d.val(i.X)
	case *ssa.RunDefers:
	case *ssa.Extract:
		m["x"] = d.val(i.Tuple)
		m["i"] = i.Index
	case *ssa.TypeAssert:
		m["x"] = d.val(i.X)
		m["to"] = d.typ(i.AssertedType)
		m["commaok"] = i.CommaOk
	case *ssa.Slice:
		m["x"], m["lo"], m["hi"], m["max"] = d.val(i.X), d.val(i.Low), d.val(i.High), d.val(i.Max)
	case *ssa.Range:
		m["x"] = d.val(i.X)
	case *ssa.Next:
		m["x"] = d.val(i.Iter)
		m["isstring"] = i.IsString
	case *ssa.Send:
		m["ch"], m["x"] = d.val(i.Chan), d.val(i.X)
	case *ssa.Select:
		var s []M
		for _, x := range i.States {
			s = append(s, M{"dir": int(x.Dir), "ch": d.val(x.Chan), "send": d.val(x.Send)})
		}
		m["states"] = s
		m["blocking"] = i.Blocking
	}
	return m
}

func (d *dumper) function(f *ssa.Function) M {
	out := M{"name": f.String(), "short": f.Name(), "line": d.pos(f.Pos()), "synthetic": f.Synthetic}
	if f.Pkg != nil {
		out["pkg"] = f.Pkg.Pkg.Path()
	}
	if p := d.fset.Position(f.Pos()); p.Filename != "" {
		if r, err := filepath.Rel(d.root, p.Filename); err == nil {
			out["file"] = r
		}
	}
	if f.Parent() != nil {
		out["parent"] = f.Parent().String()
	}
	if f.Signature.Recv() != nil {
		out["recv"] = d.typ(f.Signature.Recv().Type())
	}
	var ps, fv []M
	for _, p := range f.Params {
		ps = append(ps, M{"r": p.Name(), "t": d.typ(p.Type())})
	}
	for _, p := range f.FreeVars {
		fv = append(fv, M{"r": p.Name(), "t": d.typ(p.Type())})
	}
	out["params"], out["freevars"] = ps, fv
	var rs []string
	for i := 0; i < f.Signature.Results().Len(); i++ {
		rs = append(rs, d.typ(f.Signature.Results().At(i).Type()))
	}
	out["results"] = rs
	out["variadic"] = f.Signature.Variadic()
	body := f.Blocks != nil && (f.Pkg == nil || d.mine(f.Pkg) || f.Parent() != nil)
	if f.Pkg == nil && f.Blocks != nil && f.Synthetic == "" {
		body = false
	}
	if body {
		var bs []M
		for _, b := range f.Blocks {
			var is []M
			for _, i := range b.Instrs {
				if _, ok := i.(*ssa.DebugRef); ok {
					continue
				}
				is = append(is, d.instr(i))
			}
			var preds, succs []int
			for _, p := range b.Preds {
				preds = append(preds, p.Index)
			}
			for _, s := range b.Succs {
				succs = append(succs, s.Index)
			}
			bs = append(bs, M{"instrs": is, "preds": preds, "succs": succs})
		}
		out["blocks"] = bs
		if f.Recover != nil {
			out["recover"] = f.Recover.Index
		}
	}
	return out
}

func main() {
	root, module := os.Args[1], os.Args[2]
	build.Default.CgoEnabled = false
	fset := token.NewFileSet()
	l := &loader{fset: fset, root: root, module: module, std: importer.ForCompiler(fset, "source", nil),
		pkgs: map[string]*types.Package{}, infos: map[string]*types.Info{}, files: map[string][]*ast.File{}}
	var dirs []string
	filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
		if err == nil && i.IsDir() {
			if fs, _ := filepath.Glob(filepath.Join(p, "*.go")); len(fs) > 0 {
				dirs = append(dirs, p)
			}
		}
		return nil
	})
	for _, dir := range dirs {
		rel, _ := filepath.Rel(root, dir)
		path := module
		if rel != "." {
			path = module + "/" + filepath.ToSlash(rel)
		}
		if _, err := l.Import(path); err != nil {
			if _, ok := err.(*build.NoGoError); ok {
				continue
			}
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	prog := ssa.NewProgram(fset, ssa.InstantiateGenerics)
	done := map[*types.Package]bool{}
	var create func(p *types.Package)
	create = func(p *types.Package) {
		if done[p] {
			return
		}
		done[p] = true
		for _, q := range p.Imports() {
			create(q)
		}
		if l.infos[p.Path()] == nil {
			prog.CreatePackage(p, nil, nil, true)
		}
	}
	for _, path := range l.order {
		create(l.pkgs[path])
	}
	mine := map[*ssa.Package]bool{}
	for _, path := range l.order {
		mine[prog.CreatePackage(l.pkgs[path], l.files[path], l.infos[path], true)] = true
	}
	d := &dumper{prog: prog, fset: fset, root: root, types: map[string]any{}, seen: map[*ssa.Function]bool{}}
	d.mine = func(p *ssa.Package) bool { return mine[p] }
	for p := range mine {
		p.Build()
	}
	var pkgs []M
	for _, path := range l.order {
		pkgs = append(pkgs, M{"path": path, "name": l.pkgs[path].Name()})
	}
	methods := M{}
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg != nil && mine[f.Pkg] {
			d.fn(f)
		}
	}
	for _, path := range l.order {
		scope := l.pkgs[path].Scope()
		for _, n := range scope.Names() {
			tn, ok := scope.Lookup(n).(*types.TypeName)
			if !ok || types.IsInterface(tn.Type()) {
				continue
			}
			for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				ms := prog.MethodSets.MethodSet(t)
				x := M{}
				for i := 0; i < ms.Len(); i++ {
					if f := prog.MethodValue(ms.At(i)); f != nil {
						x[f.Name()] = d.fn(f)
					}
				}
				methods[d.typ(t)] = x
			}
		}
	}
	var fns []M
	for len(d.todo) > 0 {
		f := d.todo[0]
		d.todo = d.todo[1:]
		fns = append(fns, d.function(f))
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i]["name"].(string) < fns[j]["name"].(string) })
	json.NewEncoder(os.Stdout).Encode(M{"packages": pkgs, "functions": fns, "types": d.types, "methods": methods})
}
