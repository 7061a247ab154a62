// Command frontend type-checks the packages in /repo and writes, as JSON, the
// go/ssa form of every function they contain.  Nothing is interpreted or
// simplified here: the dump is a mechanical transcription of the SSA.
package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type M = map[string]interface{}

var (
	typeIDs  = map[string]int{}
	typeTab  []M
	typeObjs []types.Type
	fset     *token.FileSet
)

func qual(p *types.Package) string { return p.Path() }

func typeID(t types.Type) int {
	t = types.Unalias(t)
	key := types.TypeString(t, qual)
	if id, ok := typeIDs[key]; ok {
		return id
	}
	id := len(typeTab)
	typeIDs[key] = id
	m := M{"str": key}
	typeTab = append(typeTab, m)
	switch u := t.(type) {
	case *types.Named:
		m["kind"] = "named"
		pkg := ""
		if u.Obj().Pkg() != nil {
			pkg = u.Obj().Pkg().Path()
		}
		m["pkg"] = pkg
		m["name"] = u.Obj().Name()
		// only describe the inside of our own types
		m["under"] = typeID(u.Underlying())
	case *types.Basic:
		m["kind"] = "basic"
		m["name"] = u.Name()
	case *types.Pointer:
		m["kind"] = "ptr"
		m["elem"] = typeID(u.Elem())
	case *types.Slice:
		m["kind"] = "slice"
		m["elem"] = typeID(u.Elem())
	case *types.Array:
		m["kind"] = "array"
		m["elem"] = typeID(u.Elem())
		m["len"] = u.Len()
	case *types.Struct:
		m["kind"] = "struct"
		var fs []M
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, M{"name": u.Field(i).Name(), "type": typeID(u.Field(i).Type())})
		}
		m["fields"] = fs
	case *types.Tuple:
		m["kind"] = "tuple"
		var ts []int
		for i := 0; i < u.Len(); i++ {
			ts = append(ts, typeID(u.At(i).Type()))
		}
		m["elems"] = ts
	case *types.Signature:
		m["kind"] = "func"
	case *types.Interface:
		m["kind"] = "interface"
	case *types.Map:
		m["kind"] = "map"
		m["key"] = typeID(u.Key())
		m["elem"] = typeID(u.Elem())
	case *types.Chan:
		m["kind"] = "chan"
	default:
		m["kind"] = "other"
	}
	return id
}

func fname(f *ssa.Function) string { return f.RelString(nil) }

func val(v ssa.Value) interface{} {
	switch x := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		m := M{"k": "const", "t": typeID(x.Type())}
		if x.Value == nil {
			m["v"] = nil
		} else {
			switch x.Value.Kind() {
			case constant.Bool:
				m["v"] = constant.BoolVal(x.Value)
			case constant.String:
				m["v"] = M{"s": constant.StringVal(x.Value)}
			case constant.Int:
				m["v"] = M{"i": x.Value.ExactString()}
			default:
				m["v"] = M{"o": x.Value.ExactString()}
			}
		}
		return m
	case *ssa.Global:
		return M{"k": "global", "n": x.RelString(nil), "t": typeID(x.Type())}
	case *ssa.Function:
		return M{"k": "func", "n": fname(x)}
	case *ssa.Builtin:
		return M{"k": "builtin", "n": x.Name()}
	case *ssa.Parameter:
		for i, q := range x.Parent().Params {
			if q == x {
				return M{"k": "local", "n": paramKey("a", i, x.Name()), "t": typeID(v.Type())}
			}
		}
		panic("parameter")
	case *ssa.FreeVar:
		for i, q := range x.Parent().FreeVars {
			if q == x {
				return M{"k": "local", "n": paramKey("v", i, x.Name()), "t": typeID(v.Type())}
			}
		}
		panic("free variable")
	default:
		return M{"k": "local", "n": v.Name(), "t": typeID(v.Type())}
	}
}

// paramKey names parameters and free variables apart from registers, which are called t0, t1, ...
func paramKey(k string, i int, n string) string {
	return fmt.Sprintf("%s%d.%s", k, i, n)
}

func vals(vs []ssa.Value) []interface{} {
	out := []interface{}{}
	for _, v := range vs {
		out = append(out, val(v))
	}
	return out
}

func call(c *ssa.CallCommon) M {
	m := M{"args": vals(c.Args)}
	if c.IsInvoke() {
		m["invoke"] = c.Method.Name()
		m["recv"] = val(c.Value)
	} else {
		m["fn"] = val(c.Value)
	}
	return m
}

func instr(in ssa.Instruction) M {
	m := M{}
	if p := fset.Position(in.Pos()); p.IsValid() {
		m["line"] = p.Line
	}
	if v, ok := in.(ssa.Value); ok {
		m["n"] = v.Name()
		m["t"] = typeID(v.Type())
	}
	set := func(op string, kv ...interface{}) {
		m["op"] = op
		for i := 0; i < len(kv); i += 2 {
			m[kv[i].(string)] = kv[i+1]
		}
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		set("alloc", "heap", x.Heap, "et", typeID(x.Type().Underlying().(*types.Pointer).Elem()))
	case *ssa.BinOp:
		set("binop", "tok", x.Op.String(), "x", val(x.X), "y", val(x.Y))
	case *ssa.UnOp:
		set("unop", "tok", x.Op.String(), "x", val(x.X), "commaok", x.CommaOk)
	case *ssa.Call:
		set("call", "call", call(&x.Call))
	case *ssa.ChangeInterface:
		set("changeiface", "x", val(x.X))
	case *ssa.ChangeType:
		set("changetype", "x", val(x.X))
	case *ssa.Convert:
		set("convert", "x", val(x.X))
	case *ssa.MultiConvert:
		set("convert", "x", val(x.X))
	case *ssa.SliceToArrayPointer:
		set("slice2arrptr", "x", val(x.X))
	case *ssa.DebugRef:
		return nil
	case *ssa.Defer:
		set("defer", "call", call(&x.Call))
	case *ssa.Extract:
		set("extract", "x", val(x.Tuple), "i", x.Index)
	case *ssa.Field:
		set("field", "x", val(x.X), "i", x.Field)
	case *ssa.FieldAddr:
		set("fieldaddr", "x", val(x.X), "i", x.Field)
	case *ssa.Go:
		set("go", "call", call(&x.Call))
	case *ssa.If:
		set("if", "x", val(x.Cond))
	case *ssa.Index:
		set("index", "x", val(x.X), "i", val(x.Index))
	case *ssa.IndexAddr:
		set("indexaddr", "x", val(x.X), "i", val(x.Index))
	case *ssa.Jump:
		set("jump")
	case *ssa.Lookup:
		set("lookup", "x", val(x.X), "i", val(x.Index), "commaok", x.CommaOk)
	case *ssa.MakeChan:
		set("makechan")
	case *ssa.MakeClosure:
		set("makeclosure", "fn", fname(x.Fn.(*ssa.Function)), "b", vals(x.Bindings))
	case *ssa.MakeInterface:
		set("makeiface", "x", val(x.X), "xt", typeID(x.X.Type()))
	case *ssa.MakeMap:
		set("makemap")
	case *ssa.MakeSlice:
		set("makeslice", "len", val(x.Len), "cap", val(x.Cap))
	case *ssa.MapUpdate:
		set("mapupdate", "m", val(x.Map), "key", val(x.Key), "v", val(x.Value))
	case *ssa.Next:
		set("next", "x", val(x.Iter), "isstr", x.IsString)
	case *ssa.Panic:
		set("panic", "x", val(x.X))
	case *ssa.Phi:
		set("phi", "e", vals(x.Edges), "c", x.Comment)
	case *ssa.Range:
		set("range", "x", val(x.X))
	case *ssa.Return:
		set("return", "r", vals(x.Results))
	case *ssa.RunDefers:
		set("rundefers")
	case *ssa.Select:
		set("select")
	case *ssa.Send:
		set("send")
	case *ssa.Slice:
		set("slice", "x", val(x.X), "lo", val(x.Low), "hi", val(x.High), "max", val(x.Max))
	case *ssa.Store:
		set("store", "addr", val(x.Addr), "v", val(x.Val))
	case *ssa.TypeAssert:
		set("typeassert", "x", val(x.X), "at", typeID(x.AssertedType), "commaok", x.CommaOk)
	default:
		set("unknown", "go", fmt.Sprintf("%T", in))
	}
	return m
}

func main() {
	dir, out := os.Args[1], os.Args[2]
	fset = token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir, Fset: fset, Env: os.Environ(),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if packages.PrintErrors(pkgs) > 0 {
		os.Exit(2)
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	ours := map[*ssa.Package]bool{}
	for _, p := range spkgs {
		if p != nil {
			ours[p] = true
		}
	}
	var files []string
	globals := M{}
	for _, p := range spkgs {
		for _, mem := range p.Members {
			if g, ok := mem.(*ssa.Global); ok {
				globals[g.RelString(nil)] = M{"t": typeID(g.Type()), "exported": g.Object() != nil && g.Object().Exported()}
			}
		}
	}
	for _, p := range pkgs {
		files = append(files, p.CompiledGoFiles...)
		files = append(files, p.OtherFiles...)
	}
	sort.Strings(files)
	funcs := M{}
	all := ssautil.AllFunctions(prog)
	// unreferenced functions and methods of our packages
	for p := range ours {
		for _, mem := range p.Members {
			switch x := mem.(type) {
			case *ssa.Function:
				all[x] = true
			case *ssa.Type:
				for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := prog.MethodValue(ms.At(i)); f != nil {
							all[f] = true
						}
					}
				}
			}
		}
	}
	for f := range all {
		root := f
		for root.Parent() != nil {
			root = root.Parent()
		}
		pk := root.Pkg
		if pk == nil && root.Object() != nil && root.Object().Pkg() != nil {
			pk = prog.Package(root.Object().Pkg())
		}
		if pk == nil || !ours[pk] {
			continue
		}
		m := M{"name": fname(f), "synthetic": f.Synthetic, "pkg": pk.Pkg.Path()}
		if p := fset.Position(f.Pos()); p.IsValid() {
			m["file"], m["line"] = p.Filename, p.Line
		}
		sig := f.Signature
		var ps []M
		for i, q := range f.Params {
			ps = append(ps, M{"n": q.Name(), "k": paramKey("a", i, q.Name()), "t": typeID(q.Type())})
		}
		m["params"] = ps
		var fv []M
		for i, q := range f.FreeVars {
			fv = append(fv, M{"n": q.Name(), "k": paramKey("v", i, q.Name()), "t": typeID(q.Type())})
		}
		m["freevars"] = fv
		var rs []int
		for i := 0; i < sig.Results().Len(); i++ {
			rs = append(rs, typeID(sig.Results().At(i).Type()))
		}
		m["results"] = rs
		if sig.Recv() != nil {
			m["recv"] = typeID(sig.Recv().Type())
		}
		exported := f.Object() != nil && f.Object().Exported()
		m["exported"] = exported
		var blocks []M
		for _, b := range f.Blocks {
			var ins []M
			for _, in := range b.Instrs {
				if d := instr(in); d != nil {
					ins = append(ins, d)
				}
			}
			bm := M{"ins": ins}
			var su, pr []int
			for _, s := range b.Succs {
				su = append(su, s.Index)
			}
			for _, s := range b.Preds {
				pr = append(pr, s.Index)
			}
			bm["succs"], bm["preds"] = su, pr
			bm["c"] = b.Comment
			blocks = append(blocks, bm)
		}
		m["blocks"] = blocks
		funcs[fname(f)] = m
	}
	res := M{"funcs": funcs, "types": typeTab, "globals": globals, "files": files}
	fh, err := os.Create(out)
	if err != nil {
		panic(err)
	}
	defer fh.Close()
	if err := json.NewEncoder(fh).Encode(res); err != nil {
		panic(err)
	}
}
