// Command frontend loads /repo's current packages (and the gqlparser packages whose functions they rely on),
// builds SSA for them and writes it as JSON. It drops nothing: every instruction of every function body of the
// listed packages is emitted, with its operands, types and source line.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type obj = map[string]any

var (
	typeTab = map[string]obj{}
	fset    *token.FileSet
)

func ty(t types.Type) string {
	if t == nil {
		return ""
	}
	s := types.TypeString(t, nil)
	if _, ok := typeTab[s]; ok {
		return s
	}
	o := obj{}
	typeTab[s] = o
	switch u := t.(type) {
	case *types.Basic:
		o["k"] = "basic"
		o["name"] = u.Name()
		o["int"] = u.Info()&types.IsInteger != 0
		o["uns"] = u.Info()&types.IsUnsigned != 0
		o["str"] = u.Info()&types.IsString != 0
		o["bool"] = u.Info()&types.IsBoolean != 0
	case *types.Named:
		o["k"] = "named"
		o["u"] = ty(u.Underlying())
		o["short"] = u.Obj().Name()
		if u.Obj().Pkg() != nil {
			o["pkg"] = u.Obj().Pkg().Path()
		}
	case *types.Alias:
		o["k"] = "named"
		o["u"] = ty(types.Unalias(u))
		o["short"] = u.Obj().Name()
	case *types.Pointer:
		o["k"] = "ptr"
		o["e"] = ty(u.Elem())
	case *types.Slice:
		o["k"] = "slice"
		o["e"] = ty(u.Elem())
	case *types.Array:
		o["k"] = "array"
		o["e"] = ty(u.Elem())
		o["n"] = u.Len()
	case *types.Map:
		o["k"] = "map"
		o["key"] = ty(u.Key())
		o["e"] = ty(u.Elem())
	case *types.Struct:
		o["k"] = "struct"
		fs := [][]string{}
		for i := 0; i < u.NumFields(); i++ {
			e := ""
			if u.Field(i).Embedded() {
				e = "e"
			}
			fs = append(fs, []string{u.Field(i).Name(), ty(u.Field(i).Type()), e})
		}
		o["f"] = fs
	case *types.Signature:
		o["k"] = "func"
		rs := []string{}
		for i := 0; i < u.Results().Len(); i++ {
			rs = append(rs, ty(u.Results().At(i).Type()))
		}
		ps := []string{}
		for i := 0; i < u.Params().Len(); i++ {
			ps = append(ps, ty(u.Params().At(i).Type()))
		}
		o["res"] = rs
		o["par"] = ps
	case *types.Interface:
		o["k"] = "iface"
	case *types.Tuple:
		o["k"] = "tuple"
		fs := []string{}
		for i := 0; i < u.Len(); i++ {
			fs = append(fs, ty(u.At(i).Type()))
		}
		o["e"] = fs
	default:
		o["k"] = "other"
	}
	return s
}

func val(v ssa.Value) any {
	switch x := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		if x.Value == nil {
			return []any{"c", ty(x.Type()), "zero", nil}
		}
		switch x.Value.Kind() {
		case constant.Bool:
			return []any{"c", ty(x.Type()), "bool", constant.BoolVal(x.Value)}
		case constant.String:
			return []any{"c", ty(x.Type()), "str", []byte(constant.StringVal(x.Value))}
		case constant.Int:
			return []any{"c", ty(x.Type()), "int", x.Value.ExactString()}
		}
		return []any{"c", ty(x.Type()), "other", x.Value.ExactString()}
	case *ssa.Global:
		return []any{"g", x.String(), ty(x.Type())}
	case *ssa.Function:
		return []any{"f", x.String()}
	case *ssa.Builtin:
		return []any{"b", x.Name()}
	default:
		return []any{"r", v.Name()}
	}
}

func vals(vs []ssa.Value) []any {
	r := []any{}
	for _, v := range vs {
		r = append(r, val(v))
	}
	return r
}

func instr(in ssa.Instruction) obj {
	o := obj{}
	if p := in.Pos(); p.IsValid() {
		o["l"] = fset.Position(p).Line
	}
	if v, ok := in.(ssa.Value); ok {
		o["n"] = v.Name()
		o["t"] = ty(v.Type())
	}
	call := func(c *ssa.CallCommon) {
		o["args"] = vals(c.Args)
		o["v"] = val(c.Value)
		if c.IsInvoke() {
			o["m"] = c.Method.Name()
			o["rt"] = ty(c.Value.Type())
		}
		if b, ok := c.Value.(*ssa.Function); ok {
			o["sig"] = ty(b.Signature)
			if org := b.Origin(); org != nil {
				o["origin"] = org.String()
			}
		}
		rs := []string{}
		sig := c.Signature()
		for i := 0; i < sig.Results().Len(); i++ {
			rs = append(rs, ty(sig.Results().At(i).Type()))
		}
		o["res"] = rs
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		o["o"] = "Alloc"
		o["heap"] = x.Heap
		o["c"] = x.Comment
	case *ssa.BinOp:
		o["o"] = "BinOp"
		o["op"] = x.Op.String()
		o["x"], o["y"] = val(x.X), val(x.Y)
		o["xt"] = ty(x.X.Type())
	case *ssa.UnOp:
		o["o"] = "UnOp"
		o["op"] = x.Op.String()
		o["x"] = val(x.X)
		o["ok"] = x.CommaOk
	case *ssa.Call:
		o["o"] = "Call"
		call(&x.Call)
	case *ssa.Defer:
		o["o"] = "Defer"
		call(&x.Call)
	case *ssa.Go:
		o["o"] = "Go"
		call(&x.Call)
	case *ssa.ChangeInterface:
		o["o"] = "ChangeInterface"
		o["x"] = val(x.X)
	case *ssa.ChangeType:
		o["o"] = "ChangeType"
		o["x"] = val(x.X)
	case *ssa.Convert:
		o["o"] = "Convert"
		o["x"] = val(x.X)
		o["xt"] = ty(x.X.Type())
	case *ssa.Extract:
		o["o"] = "Extract"
		o["x"] = val(x.Tuple)
		o["i"] = x.Index
	case *ssa.Field:
		o["o"] = "Field"
		o["x"] = val(x.X)
		o["xt"] = ty(x.X.Type())
		o["i"] = x.Field
	case *ssa.FieldAddr:
		o["o"] = "FieldAddr"
		o["x"] = val(x.X)
		o["xt"] = ty(x.X.Type())
		o["i"] = x.Field
	case *ssa.If:
		o["o"] = "If"
		o["x"] = val(x.Cond)
	case *ssa.Index:
		o["o"] = "Index"
		o["x"], o["i"] = val(x.X), val(x.Index)
		o["xt"] = ty(x.X.Type())
	case *ssa.IndexAddr:
		o["o"] = "IndexAddr"
		o["x"], o["i"] = val(x.X), val(x.Index)
		o["xt"] = ty(x.X.Type())
	case *ssa.Jump:
		o["o"] = "Jump"
	case *ssa.Lookup:
		o["o"] = "Lookup"
		o["x"], o["i"] = val(x.X), val(x.Index)
		o["xt"] = ty(x.X.Type())
		o["ok"] = x.CommaOk
	case *ssa.MakeClosure:
		o["o"] = "MakeClosure"
		o["x"] = val(x.Fn)
		o["b"] = vals(x.Bindings)
	case *ssa.MakeInterface:
		o["o"] = "MakeInterface"
		o["x"] = val(x.X)
		o["xt"] = ty(x.X.Type())
	case *ssa.MakeMap:
		o["o"] = "MakeMap"
	case *ssa.MakeSlice:
		o["o"] = "MakeSlice"
		o["len"] = val(x.Len)
	case *ssa.MapUpdate:
		o["o"] = "MapUpdate"
		o["m"], o["k"], o["x"] = val(x.Map), val(x.Key), val(x.Value)
	case *ssa.Next:
		o["o"] = "Next"
		o["x"] = val(x.Iter)
		o["str"] = x.IsString
	case *ssa.Panic:
		o["o"] = "Panic"
		o["x"] = val(x.X)
	case *ssa.Phi:
		o["o"] = "Phi"
		o["e"] = vals(x.Edges)
		o["c"] = x.Comment
	case *ssa.Range:
		o["o"] = "Range"
		o["x"] = val(x.X)
		o["xt"] = ty(x.X.Type())
	case *ssa.Return:
		o["o"] = "Return"
		o["x"] = vals(x.Results)
	case *ssa.RunDefers:
		o["o"] = "RunDefers"
	case *ssa.Slice:
		o["o"] = "Slice"
		o["x"], o["lo"], o["hi"] = val(x.X), val(x.Low), val(x.High)
		o["xt"] = ty(x.X.Type())
	case *ssa.SliceToArrayPointer:
		o["o"] = "SliceToArrayPointer"
	case *ssa.Store:
		o["o"] = "Store"
		o["a"], o["x"] = val(x.Addr), val(x.Val)
	case *ssa.TypeAssert:
		o["o"] = "TypeAssert"
		o["x"] = val(x.X)
		o["at"] = ty(x.AssertedType)
		o["ok"] = x.CommaOk
	case *ssa.DebugRef:
		return nil
	default:
		o["o"] = fmt.Sprintf("%T", in)
	}
	return o
}

func fn(f *ssa.Function) obj {
	o := obj{"name": f.String(), "short": f.Name(), "syn": f.Synthetic}
	if p := f.Pos(); p.IsValid() {
		o["file"] = fset.Position(p).Filename
		o["l"] = fset.Position(p).Line
	}
	if f.Pkg != nil {
		o["pkg"] = f.Pkg.Pkg.Path()
	}
	ps := [][]string{}
	for _, p := range f.Params {
		ps = append(ps, []string{p.Name(), ty(p.Type())})
	}
	o["params"] = ps
	fv := [][]string{}
	for _, p := range f.FreeVars {
		fv = append(fv, []string{p.Name(), ty(p.Type())})
	}
	o["free"] = fv
	rs := []string{}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		rs = append(rs, ty(f.Signature.Results().At(i).Type()))
	}
	o["res"] = rs
	bs := []obj{}
	for _, b := range f.Blocks {
		ins := []obj{}
		for _, in := range b.Instrs {
			if x := instr(in); x != nil {
				ins = append(ins, x)
			}
		}
		su, pr := []int{}, []int{}
		for _, s := range b.Succs {
			su = append(su, s.Index)
		}
		for _, s := range b.Preds {
			pr = append(pr, s.Index)
		}
		bs = append(bs, obj{"i": ins, "s": su, "p": pr, "c": b.Comment})
	}
	o["blocks"] = bs
	if f.Recover != nil {
		o["recover"] = f.Recover.Index
	}
	return o
}

func main() {
	dir := os.Args[1]
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedDeps | packages.NeedModule, Dir: dir}
	pk, err := packages.Load(cfg, append([]string{"./..."}, os.Args[3:]...)...)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	bad := false
	for _, p := range pk {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, e)
			bad = true
		}
	}
	if bad {
		os.Exit(2)
	}
	prog, ps := ssautil.Packages(pk, ssa.InstantiateGenerics)
	prog.Build()
	fset = prog.Fset
	inScope := map[*ssa.Package]bool{}
	pkgs := []string{}
	for _, p := range ps {
		if p != nil {
			inScope[p] = true
			pkgs = append(pkgs, p.Pkg.Path())
		}
	}
	all := ssautil.AllFunctions(prog)
	fl := []*ssa.Function{}
	for f := range all {
		if len(f.Blocks) > 0 {
			fl = append(fl, f)
		}
	}
	sort.Slice(fl, func(i, j int) bool { return fl[i].String() < fl[j].String() })
	fns := []obj{}
	for _, f := range fl {
		fns = append(fns, fn(f))
	}
	globals := obj{}
	for _, p := range ps {
		if p == nil {
			continue
		}
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				globals[g.String()] = ty(g.Type())
			}
			if t, ok := m.(*ssa.Type); ok {
				ty(t.Type())
			}
		}
	}
	w, err := os.Create(os.Args[2])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	bw := bufio.NewWriter(w)
	if err := json.NewEncoder(bw).Encode(obj{"types": typeTab, "funcs": fns, "globals": globals, "pkgs": pkgs}); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	bw.Flush()
	w.Close()
}
