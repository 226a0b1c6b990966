// Command ssadump type-checks the Go module in the current directory and writes the
// SSA form of its functions as JSON.  It is the front end of the verifier in /verif/gvc:
// every obligation is generated from this dump, which is regenerated on every run.
package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type J = map[string]interface{}

var (
	typeIDs  = map[string]int{}
	typeTab  []J
	fset     *token.FileSet
	repoRoot string
)

func qual(p *types.Package) string { return p.Path() }

func typ(t types.Type) int {
	if t == nil {
		return -1
	}
	t = types.Unalias(t)
	key := types.TypeString(t, qual)
	if n, ok := t.(*types.Named); ok && n.Obj().Parent() != nil && n.Obj().Pkg() != nil && n.Obj().Parent() != n.Obj().Pkg().Scope() {
		key += fmt.Sprintf("@%d", n.Obj().Pos()) // local type
	}
	if id, ok := typeIDs[key]; ok {
		return id
	}
	id := len(typeTab)
	typeIDs[key] = id
	typeTab = append(typeTab, nil)
	j := J{"s": key}
	switch t := t.(type) {
	case *types.Named:
		j["k"] = "named"
		j["u"] = typ(t.Underlying())
	case *types.Basic:
		j["k"] = "basic"
		j["name"] = t.Name()
	case *types.Pointer:
		j["k"] = "ptr"
		j["e"] = typ(t.Elem())
	case *types.Slice:
		j["k"] = "slice"
		j["e"] = typ(t.Elem())
	case *types.Array:
		j["k"] = "array"
		j["e"] = typ(t.Elem())
		j["n"] = t.Len()
	case *types.Struct:
		j["k"] = "struct"
		var fs []J
		for i := 0; i < t.NumFields(); i++ {
			fs = append(fs, J{"n": t.Field(i).Name(), "t": typ(t.Field(i).Type())})
		}
		j["f"] = fs
	case *types.Signature:
		j["k"] = "func"
		j["p"] = typ(t.Params())
		j["r"] = typ(t.Results())
	case *types.Interface:
		j["k"] = "iface"
	case *types.Tuple:
		j["k"] = "tuple"
		ts := []int{}
		for i := 0; i < t.Len(); i++ {
			ts = append(ts, typ(t.At(i).Type()))
		}
		j["e"] = ts
	case *types.Map:
		j["k"] = "map"
		j["key"] = typ(t.Key())
		j["e"] = typ(t.Elem())
	case *types.Chan:
		j["k"] = "chan"
		j["e"] = typ(t.Elem())
	default:
		j["k"] = "other"
	}
	typeTab[id] = j
	return id
}

func pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := fset.Position(p)
	f := q.Filename
	if r, err := filepath.Rel(repoRoot, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func val(v ssa.Value) interface{} {
	if v == nil {
		return nil
	}
	switch v := v.(type) {
	case *ssa.Const:
		j := J{"k": "const", "t": typ(v.Type())}
		if v.Value == nil {
			j["v"] = nil
		} else {
			switch v.Value.Kind() {
			case constant.Bool:
				j["v"] = constant.BoolVal(v.Value)
			case constant.Int:
				j["v"] = v.Value.ExactString()
				j["ck"] = "int"
			case constant.Float:
				// exact rational of the typed float constant
				f := v.Value
				if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
					f32, _ := constant.Float32Val(f)
					f = constant.MakeFloat64(float64(f32))
				} else {
					f64, _ := constant.Float64Val(f)
					f = constant.MakeFloat64(f64)
				}
				j["v"] = f.ExactString()
				j["ck"] = "float"
			case constant.String:
				j["v"] = constant.StringVal(v.Value)
				j["ck"] = "string"
			default:
				j["v"] = v.Value.ExactString()
				j["ck"] = "other"
			}
		}
		return j
	case *ssa.Function:
		return J{"k": "func", "n": fname(v)}
	case *ssa.Builtin:
		return J{"k": "builtin", "n": v.Name()}
	case *ssa.Global:
		return J{"k": "global", "n": v.String(), "t": typ(v.Type())}
	case *ssa.Parameter, *ssa.FreeVar:
		return J{"k": "reg", "n": v.Name()}
	}
	return J{"k": "reg", "n": v.Name()}
}

func fname(f *ssa.Function) string { return f.String() }

func vals(vs []ssa.Value) []interface{} {
	r := []interface{}{}
	for _, v := range vs {
		r = append(r, val(v))
	}
	return r
}

func common(c *ssa.CallCommon) J {
	j := J{"args": vals(c.Args)}
	if c.IsInvoke() {
		j["invoke"] = c.Method.Name()
		j["recv"] = val(c.Value)
		j["it"] = typ(c.Value.Type())
	} else {
		j["fn"] = val(c.Value)
	}
	j["ft"] = typ(c.Signature())
	return j
}

func instr(in ssa.Instruction) J {
	j := J{"p": pos(in.Pos())}
	if v, ok := in.(ssa.Value); ok {
		j["n"] = v.Name()
		j["t"] = typ(v.Type())
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		j["op"] = "alloc"
		j["heap"] = in.Heap
		j["c"] = in.Comment
		j["e"] = typ(in.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.Phi:
		j["op"] = "phi"
		j["c"] = in.Comment
		j["x"] = vals(in.Edges)
	case *ssa.Call:
		j["op"] = "call"
		j["call"] = common(&in.Call)
	case *ssa.BinOp:
		j["op"] = "binop"
		j["o"] = in.Op.String()
		j["x"] = val(in.X)
		j["y"] = val(in.Y)
		j["xt"] = typ(in.X.Type())
		j["yt"] = typ(in.Y.Type())
	case *ssa.UnOp:
		j["op"] = "unop"
		j["o"] = in.Op.String()
		j["x"] = val(in.X)
		j["xt"] = typ(in.X.Type())
		j["commaok"] = in.CommaOk
	case *ssa.ChangeType:
		j["op"] = "changetype"
		j["x"] = val(in.X)
	case *ssa.Convert:
		j["op"] = "convert"
		j["x"] = val(in.X)
		j["xt"] = typ(in.X.Type())
	case *ssa.ChangeInterface:
		j["op"] = "changeiface"
		j["x"] = val(in.X)
	case *ssa.MakeInterface:
		j["op"] = "makeiface"
		j["x"] = val(in.X)
		j["xt"] = typ(in.X.Type())
	case *ssa.MakeClosure:
		j["op"] = "closure"
		j["fn"] = fname(in.Fn.(*ssa.Function))
		j["b"] = vals(in.Bindings)
	case *ssa.MakeSlice:
		j["op"] = "makeslice"
		j["len"] = val(in.Len)
		j["cap"] = val(in.Cap)
	case *ssa.MakeChan:
		j["op"] = "makechan"
	case *ssa.MakeMap:
		j["op"] = "makemap"
	case *ssa.Slice:
		j["op"] = "slice"
		j["x"] = val(in.X)
		j["xt"] = typ(in.X.Type())
		j["lo"] = val(in.Low)
		j["hi"] = val(in.High)
		j["max"] = val(in.Max)
	case *ssa.FieldAddr:
		j["op"] = "fieldaddr"
		j["x"] = val(in.X)
		j["f"] = in.Field
		j["xt"] = typ(in.X.Type())
	case *ssa.Field:
		j["op"] = "field"
		j["x"] = val(in.X)
		j["f"] = in.Field
		j["xt"] = typ(in.X.Type())
	case *ssa.IndexAddr:
		j["op"] = "indexaddr"
		j["x"] = val(in.X)
		j["i"] = val(in.Index)
		j["xt"] = typ(in.X.Type())
	case *ssa.Index:
		j["op"] = "index"
		j["x"] = val(in.X)
		j["i"] = val(in.Index)
		j["xt"] = typ(in.X.Type())
	case *ssa.Lookup:
		j["op"] = "lookup"
	case *ssa.Select:
		j["op"] = "select"
	case *ssa.Range:
		j["op"] = "range"
		j["x"] = val(in.X)
		j["xt"] = typ(in.X.Type())
	case *ssa.Next:
		j["op"] = "next"
		j["x"] = val(in.Iter)
	case *ssa.TypeAssert:
		j["op"] = "typeassert"
		j["x"] = val(in.X)
		j["xt"] = typ(in.X.Type())
		j["at"] = typ(in.AssertedType)
		j["commaok"] = in.CommaOk
	case *ssa.Extract:
		j["op"] = "extract"
		j["x"] = val(in.Tuple)
		j["i"] = in.Index
	case *ssa.Jump:
		j["op"] = "jump"
	case *ssa.If:
		j["op"] = "if"
		j["x"] = val(in.Cond)
	case *ssa.Return:
		j["op"] = "return"
		j["x"] = vals(in.Results)
	case *ssa.RunDefers:
		j["op"] = "rundefers"
	case *ssa.Panic:
		j["op"] = "panic"
		j["x"] = val(in.X)
	case *ssa.Go:
		j["op"] = "go"
		j["call"] = common(&in.Call)
	case *ssa.Defer:
		j["op"] = "defer"
		j["call"] = common(&in.Call)
	case *ssa.Send:
		j["op"] = "send"
		j["ch"] = val(in.Chan)
		j["x"] = val(in.X)
	case *ssa.Store:
		j["op"] = "store"
		j["addr"] = val(in.Addr)
		j["v"] = val(in.Val)
		j["vt"] = typ(in.Val.Type())
	case *ssa.MapUpdate:
		j["op"] = "mapupdate"
	case *ssa.DebugRef:
		return nil
	default:
		j["op"] = "unsupported"
		j["what"] = fmt.Sprintf("%T", in)
	}
	return j
}

func dumpFn(f *ssa.Function) J {
	j := J{"name": fname(f), "pos": pos(f.Pos()), "short": f.Name(), "synthetic": f.Synthetic}
	if f.Pkg != nil {
		j["pkg"] = f.Pkg.Pkg.Path()
	}
	if f.Parent() != nil {
		j["parent"] = fname(f.Parent())
	}
	ps := []J{}
	for _, p := range f.Params {
		ps = append(ps, J{"n": p.Name(), "t": typ(p.Type())})
	}
	j["params"] = ps
	fv := []J{}
	for _, p := range f.FreeVars {
		fv = append(fv, J{"n": p.Name(), "t": typ(p.Type())})
	}
	j["freevars"] = fv
	j["results"] = typ(f.Signature.Results())
	j["method"] = f.Signature.Recv() != nil
	bs := []J{}
	for _, b := range f.Blocks {
		is := []J{}
		for _, in := range b.Instrs {
			if x := instr(in); x != nil {
				is = append(is, x)
			}
		}
		pr, su := []int{}, []int{}
		for _, p := range b.Preds {
			pr = append(pr, p.Index)
		}
		for _, s := range b.Succs {
			su = append(su, s.Index)
		}
		idom := -1
		if b.Idom() != nil {
			idom = b.Idom().Index
		}
		bs = append(bs, J{"i": b.Index, "c": b.Comment, "preds": pr, "succs": su, "idom": idom, "ins": is})
	}
	j["blocks"] = bs
	return j
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: ssadump OUT.json pattern...")
		os.Exit(2)
	}
	repoRoot, _ = os.Getwd()
	fset = token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps | packages.NeedExportFile | packages.NeedModule,
		Fset: fset,
	}
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, os.Args[2:]...)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	if packages.PrintErrors(pkgs) > 0 {
		os.Exit(3)
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	want := map[*ssa.Package]bool{}
	for _, p := range spkgs {
		if p != nil {
			want[p] = true
		}
	}
	// every function of the loaded packages, reachable or not, with the closures in them
	seen := map[*ssa.Function]bool{}
	var fns []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, a := range f.AnonFuncs {
			add(a)
		}
		if f.Blocks == nil {
			return
		}
		if f.Pkg != nil && want[f.Pkg] || f.Pkg == nil && (strings.Contains(fname(f), "RH12503/Triangula") || strings.Contains(fname(f), "dgryski/go-pcgr")) {
			fns = append(fns, f)
		}
	}
	// method sets: concrete type -> method name -> function
	ms := []J{}
	for _, p := range spkgs {
		if p == nil {
			continue
		}
		for _, m := range p.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				if types.IsInterface(tt) {
					continue
				}
				mset := prog.MethodSets.MethodSet(tt)
				for i := 0; i < mset.Len(); i++ {
					fn := prog.MethodValue(mset.At(i))
					if fn == nil {
						continue
					}
					add(fn)
					ms = append(ms, J{"t": typ(tt), "m": mset.At(i).Obj().Name(), "f": fname(fn)})
				}
			}
		}
	}
	for _, p := range spkgs {
		if p == nil {
			continue
		}
		for _, m := range p.Members {
			if f, ok := m.(*ssa.Function); ok {
				add(f)
			}
		}
	}
	for f := range ssautil.AllFunctions(prog) {
		add(f)
	}
	sort.Slice(fns, func(i, k int) bool { return fname(fns[i]) < fname(fns[k]) })
	out := J{}
	var fj []J
	for _, f := range fns {
		fj = append(fj, dumpFn(f))
	}
	out["funcs"] = fj
	out["methods"] = ms
	out["types"] = typeTab
	fh, err := os.Create(os.Args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if err := json.NewEncoder(fh).Encode(out); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	fh.Close()
}
