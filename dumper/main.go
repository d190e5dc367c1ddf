package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// dumps the SSA form of one package (all functions reachable by source, plus
// instantiated generics and method wrappers that its own code calls) as JSON.

type M = map[string]interface{}

var pkg *ssa.Package
var tps = map[string]M{}

func qual(p *types.Package) string {
	if p == pkg.Pkg {
		return ""
	}
	return p.Path()
}

func ty(t types.Type) string {
	s := types.TypeString(t, qual)
	if _, ok := tps[s]; ok {
		return s
	}
	m := M{}
	tps[s] = m
	if n, ok := t.(*types.Named); ok {
		m["named"] = true
		if n.Obj().Pkg() != nil {
			m["pkg"] = n.Obj().Pkg().Path()
		}
	}
	if a, ok := t.(*types.Alias); ok {
		m["alias"] = ty(types.Unalias(a))
	}
	u := t.Underlying()
	m["under"] = types.TypeString(u, qual)
	switch x := u.(type) {
	case *types.Basic:
		m["kind"] = "basic"
		m["basic"] = x.Name()
	case *types.Pointer:
		m["kind"] = "ptr"
		m["elem"] = ty(x.Elem())
	case *types.Slice:
		m["kind"] = "slice"
		m["elem"] = ty(x.Elem())
	case *types.Array:
		m["kind"] = "array"
		m["elem"] = ty(x.Elem())
		m["len"] = x.Len()
	case *types.Map:
		m["kind"] = "map"
		m["key"] = ty(x.Key())
		m["elem"] = ty(x.Elem())
	case *types.Struct:
		m["kind"] = "struct"
		var fs []M
		for i := 0; i < x.NumFields(); i++ {
			f := x.Field(i)
			fs = append(fs, M{"name": f.Name(), "type": ty(f.Type()), "emb": f.Embedded(), "exported": f.Exported()})
		}
		m["fields"] = fs
	case *types.Interface:
		m["kind"] = "iface"
		var ms []string
		for i := 0; i < x.NumMethods(); i++ {
			ms = append(ms, x.Method(i).Name())
		}
		m["methods"] = ms
	case *types.Signature:
		m["kind"] = "func"
		var ps, rs []string
		for i := 0; i < x.Params().Len(); i++ {
			ps = append(ps, ty(x.Params().At(i).Type()))
		}
		for i := 0; i < x.Results().Len(); i++ {
			rs = append(rs, ty(x.Results().At(i).Type()))
		}
		m["params"] = ps
		m["results"] = rs
	case *types.Tuple:
		m["kind"] = "tuple"
		var es []string
		for i := 0; i < x.Len(); i++ {
			es = append(es, ty(x.At(i).Type()))
		}
		m["elems"] = es
	default:
		m["kind"] = "other"
	}
	return s
}

var todo []*ssa.Function
var seen = map[*ssa.Function]bool{}

func fname(f *ssa.Function) string {
	s := f.RelString(pkg.Pkg)
	return s
}

func need(f *ssa.Function) {
	if seen[f] {
		return
	}
	seen[f] = true
	if len(f.Blocks) == 0 {
		return
	}
	// bodies of the package itself, its closures, wrappers and instantiations
	p := f.Pkg
	if p == nil && f.Origin() != nil {
		p = f.Origin().Pkg
	}
	if p == nil && f.Parent() != nil {
		p = f.Parent().Pkg
	}
	if p != nil && p != pkg {
		return
	}
	todo = append(todo, f)
}

func val(v ssa.Value) interface{} {
	switch x := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		m := M{"k": "const", "t": ty(x.Type())}
		if x.Value == nil {
			m["nil"] = true
		} else {
			switch x.Value.Kind() {
			case constant.Bool:
				m["v"] = constant.BoolVal(x.Value)
			case constant.String:
				m["s"] = hex.EncodeToString([]byte(constant.StringVal(x.Value)))
			case constant.Int:
				m["i"] = x.Value.ExactString()
			default:
				m["f"] = x.Value.ExactString()
			}
		}
		return m
	case *ssa.Function:
		need(x)
		return M{"k": "func", "n": fname(x), "t": ty(x.Type())}
	case *ssa.Global:
		p := ""
		if x.Pkg != pkg {
			p = x.Pkg.Pkg.Path() + "."
		}
		return M{"k": "global", "n": p + x.Name(), "t": ty(x.Type())}
	case *ssa.Builtin:
		return M{"k": "builtin", "n": x.Name()}
	case *ssa.FreeVar:
		return M{"k": "free", "n": x.Name(), "t": ty(x.Type())}
	case *ssa.Parameter:
		return M{"k": "reg", "n": x.Name(), "t": ty(x.Type())}
	default:
		return M{"k": "reg", "n": v.Name(), "t": ty(v.Type())}
	}
}

func vals(vs []ssa.Value) []interface{} {
	r := []interface{}{}
	for _, v := range vs {
		r = append(r, val(v))
	}
	return r
}

func call(c *ssa.CallCommon) M {
	m := M{"args": vals(c.Args)}
	if c.IsInvoke() {
		m["invoke"] = c.Method.Name()
		m["recv"] = val(c.Value)
	} else {
		m["fn"] = val(c.Value)
		if f := c.StaticCallee(); f != nil {
			if _, isF := c.Value.(*ssa.Function); isF {
				full := f.RelString(nil)
				m["full"] = full
			}
		}
	}
	m["sig"] = ty(c.Signature())
	return m
}

func instr(i ssa.Instruction, fs *token.FileSet) M {
	m := M{}
	if v, ok := i.(ssa.Value); ok {
		m["r"] = v.Name()
		m["t"] = ty(v.Type())
	}
	if i.Pos().IsValid() {
		p := fs.Position(i.Pos())
		m["line"] = p.Line
		m["file"] = p.Filename
	}
	switch x := i.(type) {
	case *ssa.Alloc:
		m["op"] = "alloc"
		m["heap"] = x.Heap
		m["c"] = x.Comment
	case *ssa.Phi:
		m["op"] = "phi"
		m["e"] = vals(x.Edges)
		m["c"] = x.Comment
	case *ssa.Call:
		m["op"] = "call"
		m["call"] = call(&x.Call)
	case *ssa.Defer:
		m["op"] = "defer"
		m["call"] = call(&x.Call)
	case *ssa.Go:
		m["op"] = "go"
		m["call"] = call(&x.Call)
	case *ssa.BinOp:
		m["op"] = "bin"
		m["o"] = x.Op.String()
		m["x"], m["y"] = val(x.X), val(x.Y)
	case *ssa.UnOp:
		m["op"] = "un"
		m["o"] = x.Op.String()
		m["x"] = val(x.X)
		m["commaok"] = x.CommaOk
	case *ssa.ChangeType:
		m["op"] = "changetype"
		m["x"] = val(x.X)
	case *ssa.Convert:
		m["op"] = "convert"
		m["x"] = val(x.X)
	case *ssa.ChangeInterface:
		m["op"] = "changeiface"
		m["x"] = val(x.X)
	case *ssa.MakeInterface:
		m["op"] = "makeiface"
		m["x"] = val(x.X)
	case *ssa.MakeClosure:
		m["op"] = "closure"
		m["fn"] = val(x.Fn)
		m["b"] = vals(x.Bindings)
	case *ssa.MakeMap:
		m["op"] = "makemap"
	case *ssa.MakeSlice:
		m["op"] = "makeslice"
		m["len"], m["cap"] = val(x.Len), val(x.Cap)
	case *ssa.MakeChan:
		m["op"] = "makechan"
	case *ssa.Slice:
		m["op"] = "slice"
		m["x"], m["lo"], m["hi"], m["max"] = val(x.X), val(x.Low), val(x.High), val(x.Max)
	case *ssa.FieldAddr:
		m["op"] = "fieldaddr"
		m["x"] = val(x.X)
		m["f"] = x.Field
	case *ssa.Field:
		m["op"] = "field"
		m["x"] = val(x.X)
		m["f"] = x.Field
	case *ssa.IndexAddr:
		m["op"] = "indexaddr"
		m["x"], m["i"] = val(x.X), val(x.Index)
	case *ssa.Index:
		m["op"] = "index"
		m["x"], m["i"] = val(x.X), val(x.Index)
	case *ssa.Lookup:
		m["op"] = "lookup"
		m["x"], m["i"] = val(x.X), val(x.Index)
		m["commaok"] = x.CommaOk
	case *ssa.Range:
		m["op"] = "range"
		m["x"] = val(x.X)
	case *ssa.Next:
		m["op"] = "next"
		m["x"] = val(x.Iter)
		m["str"] = x.IsString
	case *ssa.TypeAssert:
		m["op"] = "assert"
		m["x"] = val(x.X)
		m["at"] = ty(x.AssertedType)
		m["commaok"] = x.CommaOk
	case *ssa.Extract:
		m["op"] = "extract"
		m["x"] = val(x.Tuple)
		m["i"] = x.Index
	case *ssa.If:
		m["op"] = "if"
		m["x"] = val(x.Cond)
	case *ssa.Jump:
		m["op"] = "jump"
	case *ssa.Return:
		m["op"] = "return"
		m["x"] = vals(x.Results)
	case *ssa.Panic:
		m["op"] = "panic"
		m["x"] = val(x.X)
	case *ssa.RunDefers:
		m["op"] = "rundefers"
	case *ssa.Store:
		m["op"] = "store"
		m["a"], m["v"] = val(x.Addr), val(x.Val)
	case *ssa.MapUpdate:
		m["op"] = "mapupdate"
		m["m"], m["key"], m["v"] = val(x.Map), val(x.Key), val(x.Value)
	case *ssa.DebugRef:
		return nil
	default:
		m["op"] = "other"
		m["str"] = fmt.Sprintf("%T", i)
	}
	return m
}

func main() {
	dir, pat, out := os.Args[1], os.Args[2], os.Args[3]
	cfg := &packages.Config{Dir: dir, Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedExportFile}
	cfg.Mode &^= packages.NeedDeps
	ps, err := packages.Load(cfg, pat)
	if err != nil || len(ps) != 1 || len(ps[0].Errors) > 0 {
		fmt.Fprintln(os.Stderr, "load:", err)
		for _, p := range ps {
			fmt.Fprintln(os.Stderr, p.Errors)
		}
		os.Exit(2)
	}
	prog, sp := ssautil.Packages(ps, ssa.InstantiateGenerics|ssa.BareInits)
	prog.Build()
	pkg = sp[0]
	fs := prog.Fset
	var names []string
	for n := range pkg.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	var globals []M
	consts := M{}
	methods := M{} // type -> method name -> function name
	for _, n := range names {
		switch x := pkg.Members[n].(type) {
		case *ssa.Function:
			if x.TypeParams().Len() == 0 {
				need(x)
			}
		case *ssa.Global:
			globals = append(globals, M{"name": n, "type": ty(x.Type())})
		case *ssa.NamedConst:
			if x.Value.Value != nil {
				consts[n] = x.Value.Value.ExactString()
			}
		case *ssa.Type:
			t := x.Type()
			if nn, ok := t.(*types.Named); ok && nn.TypeParams().Len() > 0 {
				continue
			}
			for _, t := range []types.Type{t, types.NewPointer(t)} {
				ms := prog.MethodSets.MethodSet(t)
				mm := M{}
				for i := 0; i < ms.Len(); i++ {
					f := prog.MethodValue(ms.At(i))
					if f == nil {
						continue
					}
					need(f)
					mm[ms.At(i).Obj().Name()] = fname(f)
				}
				methods[ty(t)] = mm
			}
		}
	}
	var funcs []M
	for len(todo) > 0 {
		f := todo[0]
		todo = todo[1:]
		m := M{"name": fname(f), "syn": f.Synthetic}
		if f.Pos().IsValid() {
			p := fs.Position(f.Pos())
			m["file"], m["line"] = p.Filename, p.Line
		}
		var pm, fv []M
		for _, p := range f.Params {
			pm = append(pm, M{"name": p.Name(), "type": ty(p.Type())})
		}
		for _, p := range f.FreeVars {
			fv = append(fv, M{"name": p.Name(), "type": ty(p.Type())})
		}
		m["params"], m["free"] = pm, fv
		var rs []string
		for i := 0; i < f.Signature.Results().Len(); i++ {
			rs = append(rs, ty(f.Signature.Results().At(i).Type()))
		}
		m["results"] = rs
		if f.Recover != nil {
			m["recover"] = f.Recover.Index
		}
		var bs []M
		for _, b := range f.Blocks {
			bm := M{"i": b.Index, "c": b.Comment}
			var is []M
			for _, i := range b.Instrs {
				if x := instr(i, fs); x != nil {
					is = append(is, x)
				}
			}
			bm["instrs"] = is
			ss, pp := []int{}, []int{}
			for _, s := range b.Succs {
				ss = append(ss, s.Index)
			}
			for _, s := range b.Preds {
				pp = append(pp, s.Index)
			}
			bm["succs"], bm["preds"] = ss, pp
			if d := b.Idom(); d != nil {
				bm["idom"] = d.Index
			} else {
				bm["idom"] = -1
			}
			bs = append(bs, bm)
		}
		m["blocks"] = bs
		funcs = append(funcs, m)
	}
	for t := range tps {
		_ = t
	}
	b, _ := json.Marshal(M{"funcs": funcs, "types": tps, "globals": globals, "consts": consts, "methods": methods})
	if err := os.WriteFile(out, b, 0o644); err != nil {
		panic(err)
	}
}
