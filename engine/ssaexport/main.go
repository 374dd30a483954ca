// ssaexport loads the Go packages under a directory from source, builds their
// SSA form (golang.org/x/tools/go/ssa) and writes it as JSON.  It is the only
// step between the source text of the repository and the condition generator:
// nothing is rewritten or dropped except what go/ssa itself desugars
// (go vet-style comments, parentheses, range loops, switch statements).
package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type J map[string]any

var (
	typeIDs  = map[string]int{}
	typeList []J
	fset     *token.FileSet
	root     string
)

func typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

func typ(t types.Type) int {
	t = types.Unalias(t)
	k := typeKey(t)
	if tp, ok := t.(*types.TypeParam); ok {
		k = fmt.Sprintf("tparam:%s", tp.Obj().Name())
	}
	if id, ok := typeIDs[k]; ok {
		return id
	}
	id := len(typeList)
	typeIDs[k] = id
	typeList = append(typeList, nil)
	j := J{"id": id, "str": k}
	switch t := t.(type) {
	case *types.Named:
		j["kind"] = "named"
		j["name"] = t.Obj().Name()
		if t.Obj().Pkg() != nil {
			j["pkg"] = t.Obj().Pkg().Path()
		}
		j["origin"] = typeKey(t.Origin())
		var ta []int
		for i := 0; i < t.TypeArgs().Len(); i++ {
			ta = append(ta, typ(t.TypeArgs().At(i)))
		}
		j["targs"] = ta
		j["under"] = typ(t.Underlying())
	case *types.Basic:
		j["kind"] = "basic"
		j["name"] = t.Name()
	case *types.Pointer:
		j["kind"] = "pointer"
		j["elem"] = typ(t.Elem())
	case *types.Slice:
		j["kind"] = "slice"
		j["elem"] = typ(t.Elem())
	case *types.Array:
		j["kind"] = "array"
		j["elem"] = typ(t.Elem())
		j["len"] = t.Len()
	case *types.Map:
		j["kind"] = "map"
		j["key"] = typ(t.Key())
		j["elem"] = typ(t.Elem())
	case *types.Chan:
		j["kind"] = "chan"
	case *types.Struct:
		j["kind"] = "struct"
		var fs []J
		for i := 0; i < t.NumFields(); i++ {
			fs = append(fs, J{"name": t.Field(i).Name(), "type": typ(t.Field(i).Type())})
		}
		j["fields"] = fs
	case *types.Tuple:
		j["kind"] = "tuple"
		var es []int
		for i := 0; i < t.Len(); i++ {
			es = append(es, typ(t.At(i).Type()))
		}
		j["elems"] = es
	case *types.Signature:
		j["kind"] = "func"
		j["params"] = typ(t.Params())
		j["results"] = typ(t.Results())
		j["variadic"] = t.Variadic()
	case *types.Interface:
		j["kind"] = "interface"
		var ms []string
		for i := 0; i < t.NumMethods(); i++ {
			ms = append(ms, t.Method(i).Name())
		}
		j["methods"] = ms
	case *types.TypeParam:
		j["kind"] = "tparam"
		j["name"] = t.Obj().Name()
	default:
		j["kind"] = "other"
		j["go"] = fmt.Sprintf("%T", t)
	}
	typeList[id] = j
	return id
}

func fname(f *ssa.Function) string {
	if f.Parent() != nil {
		return fname(f.Parent()) + strings.TrimPrefix(f.Name(), f.Parent().Name())
	}
	return f.RelString(nil)
}

func val(v ssa.Value) J {
	switch v := v.(type) {
	case *ssa.Const:
		j := J{"k": "const", "t": typ(v.Type())}
		if v.Value == nil {
			j["nil"] = true
		} else {
			switch v.Value.Kind() {
			case constant.String:
				bs := []byte(constant.StringVal(v.Value))
				is := make([]int, len(bs))
				for i, b := range bs {
					is[i] = int(b)
				}
				j["s"] = is
			case constant.Bool:
				j["b"] = constant.BoolVal(v.Value)
			case constant.Int:
				j["i"] = v.Value.ExactString()
			default:
				j["x"] = v.Value.ExactString()
			}
		}
		return j
	case *ssa.Global:
		return J{"k": "global", "n": v.RelString(nil), "t": typ(v.Type())}
	case *ssa.Function:
		return J{"k": "func", "n": fname(v), "t": typ(v.Type())}
	case *ssa.Builtin:
		return J{"k": "builtin", "n": v.Name()}
	case *ssa.Parameter:
		return J{"k": "param", "n": v.Name(), "t": typ(v.Type())}
	case *ssa.FreeVar:
		return J{"k": "free", "n": v.Name(), "t": typ(v.Type())}
	case nil:
		return nil
	default:
		return J{"k": "reg", "n": v.Name(), "t": typ(v.Type())}
	}
}

func vals(vs []ssa.Value) []J {
	r := []J{}
	for _, v := range vs {
		r = append(r, val(v))
	}
	return r
}

func pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, root+"/"), ps.Line)
}

func call(c *ssa.CallCommon) J {
	j := J{"args": vals(c.Args), "sig": typ(c.Signature())}
	if c.IsInvoke() {
		j["invoke"] = c.Method.Name()
		j["recv"] = val(c.Value)
	} else {
		j["fn"] = val(c.Value)
	}
	return j
}

func instr(in ssa.Instruction) J {
	j := J{"pos": pos(in.Pos())}
	if v, ok := in.(ssa.Value); ok {
		j["reg"] = v.Name()
		j["t"] = typ(v.Type())
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		j["op"] = "Alloc"
		j["heap"] = x.Heap
		j["comment"] = x.Comment
	case *ssa.Phi:
		j["op"] = "Phi"
		j["edges"] = vals(x.Edges)
		j["comment"] = x.Comment
	case *ssa.BinOp:
		j["op"] = "BinOp"
		j["tok"] = x.Op.String()
		j["x"], j["y"] = val(x.X), val(x.Y)
	case *ssa.UnOp:
		j["op"] = "UnOp"
		j["tok"] = x.Op.String()
		j["x"] = val(x.X)
		j["commaok"] = x.CommaOk
	case *ssa.Call:
		j["op"] = "Call"
		j["call"] = call(&x.Call)
	case *ssa.Defer:
		j["op"] = "Defer"
		j["call"] = call(&x.Call)
	case *ssa.Go:
		j["op"] = "Go"
	case *ssa.RunDefers:
		j["op"] = "RunDefers"
	case *ssa.ChangeType:
		j["op"] = "ChangeType"
		j["x"] = val(x.X)
	case *ssa.Convert:
		j["op"] = "Convert"
		j["x"] = val(x.X)
	case *ssa.ChangeInterface:
		j["op"] = "ChangeInterface"
		j["x"] = val(x.X)
	case *ssa.MakeInterface:
		j["op"] = "MakeInterface"
		j["x"] = val(x.X)
	case *ssa.MakeClosure:
		j["op"] = "MakeClosure"
		j["fn"] = val(x.Fn)
		j["bind"] = vals(x.Bindings)
	case *ssa.MakeMap:
		j["op"] = "MakeMap"
	case *ssa.MakeSlice:
		j["op"] = "MakeSlice"
		j["len"], j["cap"] = val(x.Len), val(x.Cap)
	case *ssa.Slice:
		j["op"] = "Slice"
		j["x"] = val(x.X)
		if x.Low != nil {
			j["lo"] = val(x.Low)
		}
		if x.High != nil {
			j["hi"] = val(x.High)
		}
		if x.Max != nil {
			j["max"] = val(x.Max)
		}
	case *ssa.FieldAddr:
		j["op"] = "FieldAddr"
		j["x"] = val(x.X)
		j["field"] = x.Field
	case *ssa.Field:
		j["op"] = "Field"
		j["x"] = val(x.X)
		j["field"] = x.Field
	case *ssa.IndexAddr:
		j["op"] = "IndexAddr"
		j["x"], j["i"] = val(x.X), val(x.Index)
	case *ssa.Index:
		j["op"] = "Index"
		j["x"], j["i"] = val(x.X), val(x.Index)
	case *ssa.Lookup:
		j["op"] = "Lookup"
		j["x"], j["i"] = val(x.X), val(x.Index)
		j["commaok"] = x.CommaOk
	case *ssa.Extract:
		j["op"] = "Extract"
		j["x"] = val(x.Tuple)
		j["i"] = x.Index
	case *ssa.Range:
		j["op"] = "Range"
		j["x"] = val(x.X)
	case *ssa.Next:
		j["op"] = "Next"
		j["x"] = val(x.Iter)
		j["string"] = x.IsString
	case *ssa.TypeAssert:
		j["op"] = "TypeAssert"
		j["x"] = val(x.X)
		j["commaok"] = x.CommaOk
	case *ssa.If:
		j["op"] = "If"
		j["x"] = val(x.Cond)
	case *ssa.Jump:
		j["op"] = "Jump"
	case *ssa.Return:
		j["op"] = "Return"
		j["xs"] = vals(x.Results)
	case *ssa.Panic:
		j["op"] = "Panic"
		j["x"] = val(x.X)
	case *ssa.Store:
		j["op"] = "Store"
		j["addr"], j["val"] = val(x.Addr), val(x.Val)
	case *ssa.MapUpdate:
		j["op"] = "MapUpdate"
		j["m"], j["key"], j["val"] = val(x.Map), val(x.Key), val(x.Value)
	case *ssa.DebugRef:
		return nil
	default:
		j["op"] = fmt.Sprintf("?%T", in)
	}
	return j
}

func main() {
	root = os.Args[1]
	out := os.Args[2]
	cfg := &packages.Config{Mode: packages.LoadAllSyntax &^ packages.NeedDeps | packages.NeedImports | packages.NeedTypes | packages.NeedExportFile, Dir: root, Tests: false}
	cfg.Mode = packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedExportFile
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if packages.PrintErrors(pkgs) > 0 {
		os.Exit(3)
	}
	fset = pkgs[0].Fset
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.SanityCheckFunctions)
	prog.Build()
	own := map[string]bool{}
	var pkgNames []string
	for i, p := range spkgs {
		if p == nil {
			fmt.Fprintln(os.Stderr, "no SSA for", pkgs[i].PkgPath)
			os.Exit(3)
		}
		own[p.Pkg.Path()] = true
		pkgNames = append(pkgNames, p.Pkg.Path())
	}
	var fns []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for f := range ssautil.AllFunctions(prog) {
		seen[f] = true
	}
	// AllFunctions skips generic origins that are never called uninstantiated.
	for _, p := range spkgs {
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				seen[m] = true
			case *ssa.Type:
				named, ok := types.Unalias(m.Type()).(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < named.NumMethods(); i++ {
					if f := prog.FuncValue(named.Method(i)); f != nil {
						seen[f] = true
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for f := range seen {
			for _, a := range f.AnonFuncs {
				if !seen[a] {
					seen[a] = true
					changed = true
				}
			}
		}
	}
	for f := range seen {
		o := f
		if f.Origin() != nil {
			o = f.Origin()
		}
		for o.Parent() != nil {
			o = o.Parent()
			if o.Origin() != nil {
				o = o.Origin()
			}
		}
		if o.Pkg == nil || !own[o.Pkg.Pkg.Path()] {
			continue
		}
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fname(fns[i]) < fname(fns[j]) })
	var jf []J
	for _, f := range fns {
		j := J{"name": fname(f), "short": f.Name(), "pos": pos(f.Pos()), "synthetic": f.Synthetic, "sig": typ(f.Signature)}
		if f.Origin() != nil {
			j["origin"] = fname(f.Origin())
		}
		if f.Parent() != nil {
			j["parent"] = fname(f.Parent())
		}
		if f.Object() != nil {
			j["exported"] = f.Object().Exported()
		}
		var ta []int
		for _, t := range f.TypeArgs() {
			ta = append(ta, typ(t))
		}
		j["targs"] = ta
		var ps []J
		for _, p := range f.Params {
			ps = append(ps, J{"n": p.Name(), "t": typ(p.Type())})
		}
		j["params"] = ps
		j["nrecv"] = 0
		if f.Signature.Recv() != nil {
			j["nrecv"] = 1
		}
		var fv []J
		for _, p := range f.FreeVars {
			fv = append(fv, J{"n": p.Name(), "t": typ(p.Type())})
		}
		j["free"] = fv
		var rn []string
		for i := 0; i < f.Signature.Results().Len(); i++ {
			rn = append(rn, f.Signature.Results().At(i).Name())
		}
		j["resnames"] = rn
		var bs []J
		for _, b := range f.Blocks {
			var is []J
			for _, in := range b.Instrs {
				if x := instr(in); x != nil {
					is = append(is, x)
				}
			}
			su := []int{}
			for _, s := range b.Succs {
				su = append(su, s.Index)
			}
			pr := []int{}
			for _, s := range b.Preds {
				pr = append(pr, s.Index)
			}
			bs = append(bs, J{"i": b.Index, "comment": b.Comment, "instrs": is, "succs": su, "preds": pr})
		}
		j["blocks"] = bs
		if f.Recover != nil {
			j["recover"] = f.Recover.Index
		}
		jf = append(jf, j)
	}
	res := J{"types": typeList, "funcs": jf, "packages": pkgNames}
	b, err := json.Marshal(res)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if err := os.WriteFile(out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}
