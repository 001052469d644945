// ssadump loads one Go package from its current source, builds the
// golang.org/x/tools/go/ssa form of every function in it and of every function
// those call statically inside a small allow-list of standard packages, and
// prints all of it as JSON.  The verifier in /verif/engine generates its proof
// obligations from this output; nothing else about the code is read.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type M = map[string]interface{}

var (
	typeIDs  = map[string]M{}
	fset     *token.FileSet
	allowPkg = map[string]bool{
		"encoding/binary": true, "math/bits": true, "internal/byteorder": true,
	}
)

func tname(t types.Type) string {
	n := types.TypeString(t, nil)
	if _, ok := typeIDs[n]; ok {
		return n
	}
	m := M{}
	typeIDs[n] = m
	if nm, ok := t.(*types.Named); ok {
		m["named"] = true
		_ = nm
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		m["k"] = "basic"
		m["name"] = u.Name()
		m["under"] = types.TypeString(u, nil)
	case *types.Pointer:
		m["k"] = "ptr"
		m["elem"] = tname(u.Elem())
	case *types.Slice:
		m["k"] = "slice"
		m["elem"] = tname(u.Elem())
	case *types.Array:
		m["k"] = "array"
		m["elem"] = tname(u.Elem())
		m["len"] = u.Len()
	case *types.Struct:
		m["k"] = "struct"
		fs := []M{}
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, M{"name": u.Field(i).Name(), "t": tname(u.Field(i).Type())})
		}
		m["fields"] = fs
	case *types.Interface:
		m["k"] = "iface"
	case *types.Signature:
		m["k"] = "func"
	case *types.Tuple:
		m["k"] = "tuple"
		ts := []string{}
		for i := 0; i < u.Len(); i++ {
			ts = append(ts, tname(u.At(i).Type()))
		}
		m["elems"] = ts
	case *types.Map:
		m["k"] = "map"
	case *types.Chan:
		m["k"] = "chan"
	default:
		m["k"] = "other"
	}
	return n
}

var (
	pending []*ssa.Function
	seen    = map[*ssa.Function]bool{}
	target  *types.Package
)

func want(f *ssa.Function) {
	if f == nil || seen[f] {
		return
	}
	seen[f] = true
	pending = append(pending, f)
}

func pkgOf(f *ssa.Function) *types.Package {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	if o := f.Object(); o != nil {
		return o.Pkg()
	}
	return nil
}

func descend(f *ssa.Function) bool {
	p := pkgOf(f)
	if p == nil {
		return len(f.Blocks) > 0 && f.Synthetic != ""
	}
	return p == target || allowPkg[p.Path()]
}

func constVal(c *ssa.Const) interface{} {
	if c.Value == nil {
		return nil
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return constant.BoolVal(c.Value)
	case constant.String:
		return M{"s": constant.StringVal(c.Value)}
	case constant.Int:
		return M{"i": c.Value.ExactString()}
	case constant.Float:
		f, _ := constant.Float64Val(c.Value)
		if v := constant.ToInt(c.Value); v.Kind() == constant.Int {
			return M{"f": f, "i": v.ExactString()}
		}
		return M{"f": f}
	}
	return M{"other": c.Value.String()}
}

func val(v ssa.Value) interface{} {
	switch x := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		return M{"k": "const", "t": tname(x.Type()), "v": constVal(x)}
	case *ssa.Global:
		return M{"k": "global", "n": x.String(), "t": tname(x.Type())}
	case *ssa.Function:
		want(x)
		return M{"k": "func", "n": fname(x), "t": tname(x.Type())}
	case *ssa.Builtin:
		return M{"k": "builtin", "n": x.Name()}
	case *ssa.Parameter:
		return M{"k": "reg", "n": x.Name(), "t": tname(x.Type())}
	case *ssa.FreeVar:
		return M{"k": "reg", "n": x.Name(), "t": tname(x.Type())}
	}
	return M{"k": "reg", "n": v.Name(), "t": tname(v.Type())}
}

func vals(vs []ssa.Value) []interface{} {
	r := []interface{}{}
	for _, v := range vs {
		r = append(r, val(v))
	}
	return r
}

func fname(f *ssa.Function) string {
	return f.String()
}

func call(c *ssa.CallCommon) M {
	m := M{"args": vals(c.Args)}
	if c.IsInvoke() {
		m["invoke"] = c.Method.Name()
		m["recv"] = val(c.Value)
	} else {
		m["fn"] = val(c.Value)
	}
	return m
}

func instr(i ssa.Instruction) M {
	m := M{}
	if v, ok := i.(ssa.Value); ok {
		m["reg"] = v.Name()
		m["t"] = tname(v.Type())
	}
	if p := i.Pos(); p.IsValid() {
		m["pos"] = fset.Position(p).Line
	}
	switch x := i.(type) {
	case *ssa.Alloc:
		m["op"] = "Alloc"
		m["heap"] = x.Heap
		m["elem"] = tname(x.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.BinOp:
		m["op"] = "BinOp"
		m["o"] = x.Op.String()
		m["x"] = val(x.X)
		m["y"] = val(x.Y)
	case *ssa.Call:
		m["op"] = "Call"
		m["call"] = call(x.Common())
	case *ssa.ChangeInterface:
		m["op"] = "ChangeInterface"
		m["x"] = val(x.X)
	case *ssa.ChangeType:
		m["op"] = "ChangeType"
		m["x"] = val(x.X)
	case *ssa.Convert:
		m["op"] = "Convert"
		m["x"] = val(x.X)
	case *ssa.Defer:
		m["op"] = "Defer"
		m["call"] = call(x.Common())
	case *ssa.Extract:
		m["op"] = "Extract"
		m["x"] = val(x.Tuple)
		m["i"] = x.Index
	case *ssa.Field:
		m["op"] = "Field"
		m["x"] = val(x.X)
		m["i"] = x.Field
	case *ssa.FieldAddr:
		m["op"] = "FieldAddr"
		m["x"] = val(x.X)
		m["i"] = x.Field
	case *ssa.If:
		m["op"] = "If"
		m["x"] = val(x.Cond)
	case *ssa.Index:
		m["op"] = "Index"
		m["x"] = val(x.X)
		m["i"] = val(x.Index)
	case *ssa.IndexAddr:
		m["op"] = "IndexAddr"
		m["x"] = val(x.X)
		m["i"] = val(x.Index)
	case *ssa.Jump:
		m["op"] = "Jump"
	case *ssa.MakeClosure:
		m["op"] = "MakeClosure"
		m["fn"] = val(x.Fn)
		m["b"] = vals(x.Bindings)
	case *ssa.MakeInterface:
		m["op"] = "MakeInterface"
		m["x"] = val(x.X)
		registerMethods(x.X.Type())
	case *ssa.MakeSlice:
		m["op"] = "MakeSlice"
		m["len"] = val(x.Len)
		m["cap"] = val(x.Cap)
	case *ssa.Panic:
		m["op"] = "Panic"
		m["x"] = val(x.X)
	case *ssa.Phi:
		m["op"] = "Phi"
		m["e"] = vals(x.Edges)
		m["comment"] = x.Comment
	case *ssa.Return:
		m["op"] = "Return"
		m["r"] = vals(x.Results)
	case *ssa.RunDefers:
		m["op"] = "RunDefers"
	case *ssa.Slice:
		m["op"] = "Slice"
		m["x"] = val(x.X)
		m["lo"] = val(x.Low)
		m["hi"] = val(x.High)
		m["max"] = val(x.Max)
	case *ssa.SliceToArrayPointer:
		m["op"] = "SliceToArrayPointer"
		m["x"] = val(x.X)
	case *ssa.Store:
		m["op"] = "Store"
		m["a"] = val(x.Addr)
		m["x"] = val(x.Val)
	case *ssa.TypeAssert:
		m["op"] = "TypeAssert"
		m["x"] = val(x.X)
		m["at"] = tname(x.AssertedType)
		m["ok"] = x.CommaOk
	case *ssa.UnOp:
		m["op"] = "UnOp"
		m["o"] = x.Op.String()
		m["x"] = val(x.X)
	case *ssa.Lookup:
		m["op"] = "Lookup"
		m["x"] = val(x.X)
		m["i"] = val(x.Index)
	case *ssa.DebugRef:
		return nil
	default:
		m["op"] = fmt.Sprintf("%T", i)
	}
	return m
}

var methods = map[string]map[string]string{}
var prog *ssa.Program

func registerMethods(t types.Type) {
	n := tname(t)
	if _, ok := methods[n]; ok {
		return
	}
	mm := map[string]string{}
	methods[n] = mm
	ms := prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		sel := ms.At(i)
		f := prog.MethodValue(sel)
		if f == nil {
			continue
		}
		mm[sel.Obj().Name()] = fname(f)
		want(f)
	}
}

func function(f *ssa.Function) M {
	m := M{"name": fname(f), "short": f.Name()}
	ps := []M{}
	for _, p := range f.Params {
		ps = append(ps, M{"n": p.Name(), "t": tname(p.Type())})
	}
	m["params"] = ps
	fv := []M{}
	for _, p := range f.FreeVars {
		fv = append(fv, M{"n": p.Name(), "t": tname(p.Type())})
	}
	m["freevars"] = fv
	rs := []string{}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		rs = append(rs, tname(f.Signature.Results().At(i).Type()))
	}
	m["results"] = rs
	m["variadic"] = f.Signature.Variadic()
	if p := pkgOf(f); p != nil {
		m["pkg"] = p.Path()
		m["target"] = p == target
	}
	if f.Pos().IsValid() {
		p := fset.Position(f.Pos())
		m["file"] = p.Filename
		m["line"] = p.Line
	}
	if r := f.Signature.Recv(); r != nil {
		m["recv"] = tname(r.Type())
	}
	m["recover"] = -1
	if f.Recover != nil {
		m["recover"] = f.Recover.Index
	}
	if len(f.Blocks) > 0 && descend(f) {
		bs := []M{}
		for _, b := range f.Blocks {
			is := []M{}
			for _, i := range b.Instrs {
				if x := instr(i); x != nil {
					is = append(is, x)
				}
			}
			preds, succs := []int{}, []int{}
			for _, p := range b.Preds {
				preds = append(preds, p.Index)
			}
			for _, s := range b.Succs {
				succs = append(succs, s.Index)
			}
			dom := -1
			if b.Idom() != nil {
				dom = b.Idom().Index
			}
			bs = append(bs, M{"i": b.Index, "preds": preds, "succs": succs, "instrs": is, "idom": dom})
		}
		m["blocks"] = bs
		for _, a := range f.AnonFuncs {
			want(a)
		}
	}
	return m
}

func main() {
	dir := flag.String("dir", ".", "package directory")
	flag.Parse()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: *dir}
	ps, err := packages.Load(cfg, ".")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if len(ps) != 1 || len(ps[0].Errors) > 0 {
		for _, p := range ps {
			for _, e := range p.Errors {
				fmt.Fprintln(os.Stderr, e)
			}
		}
		os.Exit(2)
	}
	var pk []*ssa.Package
	prog, pk = ssautil.AllPackages(ps, ssa.BuilderMode(0))
	fset = prog.Fset
	prog.Build()
	target = pk[0].Pkg
	globals := []M{}
	names := []string{}
	for n := range pk[0].Members {
		names = append(names, n)
	}
	sort.Strings(names)
	exported := []M{}
	for _, n := range names {
		switch x := pk[0].Members[n].(type) {
		case *ssa.Function:
			want(x)
		case *ssa.Global:
			globals = append(globals, M{"n": x.String(), "short": n, "t": tname(x.Type())})
		case *ssa.Type:
			tn := tname(x.Type())
			for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
				ms := prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					f := prog.MethodValue(ms.At(i))
					if f != nil && f.Synthetic == "" {
						want(f)
					}
				}
			}
			exported = append(exported, M{"name": n, "t": tn})
		}
	}
	if ib := prog.ImportedPackage("encoding/binary"); ib != nil {
		for _, n := range []string{"littleEndian", "bigEndian"} {
			if t, ok := ib.Members[n].(*ssa.Type); ok {
				registerMethods(t.Type())
			}
		}
	}
	fns := []M{}
	for len(pending) > 0 {
		f := pending[0]
		pending = pending[1:]
		fns = append(fns, function(f))
	}
	out := M{"pkg": target.Path(), "pkgname": target.Name(), "functions": fns, "types": typeIDs,
		"globals": globals, "methods": methods, "members": exported}
	enc := json.NewEncoder(os.Stdout)
	if err := enc.Encode(out); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}
