package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Flow-insensitive helpers over the SSA of the whole repository.

// origins follows copies (phi, conversions, slicing) back to the values a value may be.
func origins(v ssa.Value) []ssa.Value {
	seen := map[ssa.Value]bool{}
	var out []ssa.Value
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e)
			}
		case *ssa.ChangeType:
			walk(x.X)
		case *ssa.Convert:
			walk(x.X)
		case *ssa.MakeInterface:
			walk(x.X)
		case *ssa.ChangeInterface:
			walk(x.X)
		case *ssa.TypeAssert:
			walk(x.X)
		case *ssa.UnOp:
			if x.Op.String() == "*" {
				if a, ok := x.X.(*ssa.Alloc); ok {
					// a local variable: everything stored into it
					n := 0
					if a.Referrers() != nil {
						for _, r := range *a.Referrers() {
							if st, ok := r.(*ssa.Store); ok && st.Addr == a {
								walk(st.Val)
								n++
							}
						}
					}
					if n > 0 {
						return
					}
				}
			}
			out = append(out, v)
		default:
			out = append(out, v)
		}
	}
	walk(v)
	return out
}

// loadedFields: the classes of the fields a value may have been loaded from.
func loadedFields(v ssa.Value) map[string]bool {
	r := map[string]bool{}
	for _, o := range origins(v) {
		switch x := o.(type) {
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				r[fieldClass(fa.X.Type(), fa.Field)] = true
			}
		case *ssa.Field:
			r[fieldClass(x.X.Type(), x.Field)] = true
		case *ssa.FieldAddr:
			r["&"+fieldClass(x.X.Type(), x.Field)] = true
		}
	}
	return r
}

// freshBase: the struct a field address belongs to was created in this function.
func freshBase(v ssa.Value) bool {
	for _, o := range origins(v) {
		if _, ok := o.(*ssa.Alloc); !ok {
			return false
		}
	}
	return true
}

type fieldWrite struct {
	Fn    *ssa.Function
	In    ssa.Instruction
	Base  ssa.Value
	Val   ssa.Value
	Kind  string // store, update, delete, elem
	Fresh bool
}

// writesTo finds every write to a field, or to the map or slice held in it.
func (p *Program) writesTo(class string) []fieldWrite {
	var out []fieldWrite
	for _, f := range p.All {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					switch a := x.Addr.(type) {
					case *ssa.FieldAddr:
						if fieldClass(a.X.Type(), a.Field) == class {
							out = append(out, fieldWrite{f, in, a.X, x.Val, "store", freshBase(a.X)})
						}
					case *ssa.IndexAddr:
						if loadedFields(a.X)[class] {
							out = append(out, fieldWrite{f, in, a.X, x.Val, "elem", false})
						}
					}
				case *ssa.MapUpdate:
					if loadedFields(x.Map)[class] {
						out = append(out, fieldWrite{f, in, x.Map, x.Value, "update", false})
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					if bi, ok := c.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear" || bi.Name() == "copy") {
						if loadedFields(c.Common().Args[0])[class] {
							out = append(out, fieldWrite{f, in, c.Common().Args[0], nil, bi.Name(), false})
						}
					}
				}
			}
		}
	}
	return out
}

// callSites finds every call whose static or interface callee has the given name.
type callSite struct {
	Fn *ssa.Function
	In ssa.CallInstruction
}

func ccName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return "(" + shortType(cc.Value.Type()) + ")." + cc.Method.Name()
	}
	if f := cc.StaticCallee(); f != nil {
		if decoderFns[f] {
			return "avro.Unmarshal"
		}
		return calleeName(f)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	return ""
}

func (p *Program) callsTo(match func(name string) bool) []callSite {
	var out []callSite
	for _, f := range p.All {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && match(ccName(c.Common())) {
					out = append(out, callSite{f, c})
				}
			}
		}
	}
	return out
}

// enclosing names a function by its outermost named function.
func enclosing(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return calleeName(f)
}

func pkgOf(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Name()
	}
	return ""
}

func isNamed(t types.Type, name string) bool {
	return strings.TrimPrefix(shortType(t), "*") == name
}
