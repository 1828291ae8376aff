package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func pkgName(p *types.Package) string { return p.Name() }

func calleeName(f *ssa.Function) string {
	if f == nil {
		return ""
	}
	if r := f.Signature.Recv(); r != nil {
		return "(" + types.TypeString(r.Type(), pkgName) + ")." + f.Name()
	}
	if f.Parent() != nil {
		return calleeName(f.Parent()) + f.Name()[strings.LastIndex(f.Name(), "$"):]
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Name() + "." + f.Name()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		if fo, ok := o.(*types.Func); ok {
			if r := fo.Type().(*types.Signature).Recv(); r != nil {
				return "(" + types.TypeString(r.Type(), pkgName) + ")." + o.Name()
			}
		}
		return o.Pkg().Name() + "." + o.Name()
	}
	return f.String()
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (e *Engine) step(s *State, in ssa.Instruction) bool {
	fr := s.top()
	adv := func() bool { fr.idx++; return true }
	switch x := in.(type) {
	case *ssa.DebugRef:
		return adv()
	case *ssa.Phi:
		return adv()
	case *ssa.Alloc:
		t := mk("alloc", e.site(fr, x), x.Type())
		s.redefine(t)
		s.fresh[t] = true
		fr.env[x] = t
		return adv()
	case *ssa.MakeMap:
		t := mk("mkmap", e.site(fr, x), x.Type())
		if e.mapSite == nil {
			e.mapSite = map[*Term]ssa.Instruction{}
		}
		e.mapSite[t] = x
		s.redefine(t)
		s.fresh[t] = true
		fr.env[x] = t
		return adv()
	case *ssa.MakeChan:
		t := mk("mkchan", e.site(fr, x), x.Type())
		s.redefine(t)
		fr.env[x] = t
		return adv()
	case *ssa.MakeSlice:
		l := e.val(s, x.Len)
		e.emit(s, &Event{Kind: EvMakeSlice, Instr: x, Val: l, Args: []*Term{l, e.val(s, x.Cap)}})
		s.redefineSite("mkslice", e.site(fr, x))
		t := mk("mkslice", e.site(fr, x), x.Type(), e.val(s, x.Len))
		s.fresh[t] = true
		fr.env[x] = t
		return adv()
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			t := e.val(s, b)
			s.markEsc(t)
			bs = append(bs, t)
		}
		fn := x.Fn.(*ssa.Function)
		t := mk("closure", fn.String(), x.Type(), bs...)
		e.P.fnByName[fn.String()] = fn
		fr.env[x] = t
		e.emit(s, &Event{Kind: EvMakeClosure, Instr: x, CalleeF: fn, Args: bs, Res: t})
		return adv()
	case *ssa.BinOp:
		a, b := e.val(s, x.X), e.val(s, x.Y)
		if x.Op == token.QUO || x.Op == token.REM {
			// division: nothing tracked
		}
		fr.env[x] = mkBin(opName(x.Op), a, b, x.Type())
		if a.junk || b.junk {
			if isBoolType(x.Type()) {
				fr.env[x] = mk("bin", opName(x.Op), x.Type(), a, b)
			}
		}
		return adv()
	case *ssa.UnOp:
		return e.unop(s, x)
	case *ssa.ChangeType:
		fr.env[x] = e.val(s, x.X)
		return adv()
	case *ssa.ChangeInterface:
		fr.env[x] = e.val(s, x.X)
		return adv()
	case *ssa.MakeInterface:
		v := e.val(s, x.X)
		fr.env[x] = v
		// an error made from a pointer is never nil, whatever the pointer
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok && x.Type().String() == "error" && !v.IsNil() && !s.Known(atomEq(v, cNil())) {
			s.Assume(atomEq(v, cNil()), false)
		}
		return adv()
	case *ssa.Convert:
		fr.env[x] = convert(e.val(s, x.X), x.X.Type(), x.Type())
		return adv()
	case *ssa.MultiConvert, *ssa.SliceToArrayPointer:
		v := in.(ssa.Value)
		fr.env[v] = e.opaque(s, in, v.Type(), 0)
		return adv()
	case *ssa.FieldAddr:
		b := e.val(s, x.X)
		e.emit(s, &Event{Kind: EvDeref, Instr: x, Addr: b, Val: b})
		fr.env[x] = mk("&f", fieldClass(x.X.Type(), x.Field), x.Type(), b)
		return adv()
	case *ssa.Field:
		fr.env[x] = fieldOf(e.val(s, x.X), fieldClass(x.X.Type(), x.Field), x.Field, x.Type())
		return adv()
	case *ssa.IndexAddr:
		b, i := e.val(s, x.X), e.val(s, x.Index)
		e.emit(s, &Event{Kind: EvIndex, Instr: x, Val: b, Key: i})
		fr.env[x] = indexAddr(b, i, x.Type())
		return adv()
	case *ssa.Index:
		b, i := e.val(s, x.X), e.val(s, x.Index)
		e.emit(s, &Event{Kind: EvIndex, Instr: x, Val: b, Key: i})
		fr.env[x] = mk("ld", "", x.Type(), indexAddr(b, i, nil))
		return adv()
	case *ssa.Lookup:
		m, k := e.val(s, x.X), e.val(s, x.Index)
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			e.emit(s, &Event{Kind: EvIndex, Instr: x, Val: m, Key: k})
			fr.env[x] = mk("ld", "", x.Type(), indexAddr(m, k, nil))
			return adv()
		}
		vt := x.X.Type().Underlying().(*types.Map).Elem()
		e.emit(s, &Event{Kind: EvLookup, Instr: x, Map: m, Key: k})
		if s.dead {
			return false
		}
		v := s.readMap(m, k, vt)
		if x.CommaOk {
			h := mkHas(m, k)
			if b, known := s.Query(h); known {
				h = cBool(b)
			}
			fr.env[x] = mk("tuple", "", nil, v, h)
		} else {
			fr.env[x] = v
		}
		return adv()
	case *ssa.Slice:
		b := e.val(s, x.X)
		none := mk("const", "none", nil)
		lo, hi := none, none
		if x.Low != nil {
			lo = e.val(s, x.Low)
		}
		if x.High != nil {
			hi = e.val(s, x.High)
		}
		e.emit(s, &Event{Kind: EvSlice, Instr: x, Val: b, Args: []*Term{lo, hi}})
		fr.env[x] = mkSlice(b, lo, hi, x.Type())
		return adv()
	case *ssa.Extract:
		t := e.val(s, x.Tuple)
		if t.Op == "tuple" && x.Index < len(t.Args) {
			fr.env[x] = t.Args[x.Index]
		} else {
			fr.env[x] = mk("junk", "extract", x.Type())
		}
		return adv()
	case *ssa.TypeAssert:
		v := e.val(s, x.X)
		is := mk("istype", shortType(x.AssertedType), types.Typ[types.Bool], v)
		if x.CommaOk {
			fr.env[x] = mk("tuple", "", nil, v, is)
		} else {
			e.emit(s, &Event{Kind: EvAssert, Instr: x, Val: v, Key: is})
			fr.env[x] = v
		}
		return adv()
	case *ssa.Range:
		c := e.val(s, x.X)
		fr.env[x] = mk("range", "", nil, c)
		e.emit(s, &Event{Kind: EvRangeStart, Instr: x, Val: c})
		return adv()
	case *ssa.Next:
		return e.next(s, x)
	case *ssa.Store:
		e.store(s, x, x.Addr, x.Val)
		if s.dead {
			return false
		}
		return adv()
	case *ssa.MapUpdate:
		e.mapUpdate(s, x)
		if s.dead {
			return false
		}
		return adv()
	case *ssa.Send:
		s.markEsc(e.val(s, x.X))
		e.emit(s, &Event{Kind: EvSend, Instr: x, Chan: e.val(s, x.Chan), Val: e.val(s, x.X), Blocking: true})
		if s.dead {
			return false
		}
		return adv()
	case *ssa.Select:
		return e.sel(s, x)
	case *ssa.Go:
		cc := x.Common()
		name, fn, recv, args := e.resolve(s, cc)
		for _, a := range args {
			s.markEsc(a)
		}
		if recv != nil {
			s.markEsc(recv)
		}
		e.emit(s, &Event{Kind: EvGo, Instr: x, Callee: name, CalleeF: fn, Recv: recv, Args: args})
		if s.dead {
			return false
		}
		return adv()
	case *ssa.Defer:
		cc := x.Common()
		var as []*Term
		as = append(as, e.val(s, cc.Value))
		for _, a := range cc.Args {
			as = append(as, e.val(s, a))
		}
		if len(fr.defers) < 6 {
			fr.defers = append(fr.defers, deferRec{x, as})
		}
		e.emit(s, &Event{Kind: EvDefer, Instr: x, Args: as})
		return adv()
	case *ssa.RunDefers:
		if len(fr.defers) == 0 {
			return adv()
		}
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		e.deferAt = d.call
		return e.call(s, x, d.call.Common(), d.args, true)
	case *ssa.Call:
		return e.call(s, x, x.Common(), nil, false)
	case *ssa.If:
		c := e.val(s, x.Cond)
		return e.branch(s, x, c)
	case *ssa.Jump:
		return e.jump(s, fr.block.Succs[0])
	case *ssa.Panic:
		e.emit(s, &Event{Kind: EvPanic, Instr: x, Val: e.val(s, x.X)})
		return false
	case *ssa.Return:
		return e.ret(s, x)
	}
	if v, ok := in.(ssa.Value); ok {
		fr.env[v] = e.opaque(s, in, v.Type(), 0)
	}
	return adv()
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (e *Engine) opaque(s *State, in ssa.Instruction, t types.Type, i int) *Term {
	o := mk("opq", fmt.Sprintf("%s#%d", e.site(s.top(), in), i), t)
	s.redefine(o)
	return o
}

// redefineSite renames every object of the given creation site.
func (s *State) redefineSite(op, site string) {
	seen := map[*Term]bool{}
	s.allTerms(func(x *Term) {
		for l := range x.leafs {
			if l.Op == op && l.Name == site {
				seen[l] = true
			}
		}
	})
	for l := range s.fresh {
		if l.Op == op && l.Name == site {
			seen[l] = true
		}
	}
	for _, l := range sortedTerms(seen) {
		s.redefine(l)
	}
}

func (s *State) markEsc(t *Term) {
	for l := range t.leafs {
		switch l.Op {
		case "alloc", "mkmap", "mkslice", "mkchan":
			if !s.esc[l] {
				s.esc[l] = true
				// what it already holds escapes too
				for k, v := range s.mem {
					if k.leafs[l] {
						s.markEsc(v)
					}
				}
			}
		}
	}
}

func convert(v *Term, from, to types.Type) *Term {
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		size := func(b *types.Basic) int {
			switch b.Kind() {
			case types.Int8, types.Uint8:
				return 8
			case types.Int16, types.Uint16:
				return 16
			case types.Int32, types.Uint32:
				return 32
			}
			return 64
		}
		if size(tb) >= size(fb) || v.IsConst() {
			return v
		}
		return mk("conv", tb.Name(), to, v)
	}
	if v.IsNil() {
		return v
	}
	if ok2 && tb.Info()&types.IsString != 0 || ok1 && fb.Info()&types.IsString != 0 {
		n := "bytes"
		if ok2 {
			n = "string"
		}
		if v.Op == "conv" && (v.Name == "bytes" || v.Name == "string") {
			// string([]byte(s)) == s as a value
			if n == "string" && v.Name == "bytes" {
				return v.Args[0]
			}
		}
		if ok1 && fb.Info()&types.IsInteger != 0 {
			n = "rune"
		}
		return mk("conv", n, to, v)
	}
	return mk("conv", shortType(to), to, v)
}

func fieldOf(x *Term, class string, idx int, typ types.Type) *Term {
	if x.Op == "struct" && idx < len(x.Args) {
		return x.Args[idx]
	}
	if x.IsConst() && strings.HasPrefix(x.Name, "zero:") {
		return cZero(typ)
	}
	return mk("fld", class, typ, x)
}

func indexAddr(b, i *Term, typ types.Type) *Term {
	for b.Op == "slice" {
		lo := b.Args[1]
		if lo.Name != "none" {
			i = mkBin("+", i, lo, types.Typ[types.Int])
		}
		b = b.Args[0]
	}
	if b.Op == "conv" && (b.Name == "string" || b.Name == "bytes") {
		b = b.Args[0]
	}
	return mk("&i", "", typ, b, i)
}

func mkSlice(b, lo, hi *Term, typ types.Type) *Term {
	none := mk("const", "none", nil)
	if l, ok := lo.Int(); ok && l == 0 {
		lo = none
	}
	if lo == none && hi == none && b.Op != "alloc" {
		return b
	}
	if b.Op == "slice" {
		bl, bh := b.Args[1], b.Args[2]
		nl, nh := lo, hi
		if bl != none {
			if lo == none {
				nl = bl
			} else {
				nl = mkBin("+", lo, bl, types.Typ[types.Int])
			}
			if hi != none {
				nh = mkBin("+", hi, bl, types.Typ[types.Int])
			}
		}
		if hi == none {
			nh = bh
		}
		return mkSlice(b.Args[0], nl, nh, typ)
	}
	return mk("slice", "", typ, b, lo, hi)
}

// rootObj: the object an address belongs to.
func rootObj(a *Term) *Term {
	for a.Op == "&f" || a.Op == "&i" || a.Op == "slice" {
		a = a.Args[0]
	}
	return a
}

func isFreshObj(t *Term) bool {
	return t.Op == "alloc" || t.Op == "mkmap" || t.Op == "mkslice" || t.Op == "mkchan"
}

// mayAlias: may two object references denote the same object?
func (s *State) mayAlias(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.junk || b.junk {
		return true
	}
	fa, fb := isFreshObj(a), isFreshObj(b)
	if fa && fb {
		return false
	}
	if fb {
		a, b = b, a
		fa, fb = fb, fa
	}
	if fa {
		if !s.esc[a] {
			return false
		}
		if b.Op == "param" || b.Op == "fv" || b.Op == "global" || b.IsConst() {
			return false
		}
		return true
	}
	if a.IsConst() || b.IsConst() {
		return false
	}
	// fields of different class hold different objects (no map or slice in this
	// code base is stored in two fields; see DESIGN)
	ca, cb := originClass(a), originClass(b)
	if ca != "" && cb != "" && ca != cb {
		return false
	}
	return true
}

func originClass(t *Term) string {
	switch t.Op {
	case "ld":
		if t.Args[0].Op == "&f" {
			return t.Args[0].Name
		}
	case "fld":
		return t.Name
	case "at":
		if c := originClass(t.Args[0]); c != "" {
			return c + "[]"
		}
	case "old":
		return originClass(t.Args[0])
	}
	return ""
}

// addrAlias: may writing address a change the content of address b?
func (s *State) addrAlias(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.Op == "&f" && b.Op == "&f" {
		if a.Name == b.Name {
			return s.addrAlias2(a.Args[0], b.Args[0])
		}
	}
	if a.Op == "&i" && b.Op == "&i" {
		if i, ok := a.Args[1].Int(); ok {
			if j, ok := b.Args[1].Int(); ok && i != j {
				return false
			}
		}
		ta, tb := a.Typ, b.Typ
		if ta != nil && tb != nil && !types.Identical(ta, tb) {
			return false
		}
		return s.mayAlias(a.Args[0], b.Args[0])
	}
	// elements and their fields
	elem := func(t *Term) *Term {
		for t.Op == "&f" {
			t = t.Args[0]
		}
		if t.Op == "&i" {
			return t
		}
		return nil
	}
	if a.Op == "&i" && b.Op == "&f" {
		if i := elem(b); i != nil {
			return s.addrAlias(a, i)
		}
	}
	if a.Op == "&f" && b.Op == "&i" {
		if i := elem(a); i != nil {
			return s.addrAlias(i, b)
		}
	}
	// whole-object writes
	if b.Op == "&f" && a.Op != "&i" {
		if s.ptrAlias(a, b.Args[0]) {
			return true
		}
	}
	if a.Op == "&f" && b.Op != "&i" && b.Op != "&f" {
		return s.ptrAlias(a.Args[0], b)
	}
	if a.Op != "&f" && a.Op != "&i" && b.Op != "&f" && b.Op != "&i" {
		return s.ptrAlias(a, b)
	}
	return false
}

func (s *State) addrAlias2(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.Op == "&f" && b.Op == "&f" {
		return a.Name == b.Name && s.addrAlias2(a.Args[0], b.Args[0])
	}
	if (a.Op == "&f") != (b.Op == "&f") {
		return a.Typ == nil || b.Typ == nil || types.Identical(a.Typ, b.Typ)
	}
	return s.mayAlias(a, b)
}

func (s *State) ptrAlias(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.Op == "global" || b.Op == "global" {
		return false
	}
	if a.Typ != nil && b.Typ != nil && !types.Identical(a.Typ, b.Typ) {
		return false
	}
	if a.Op == "&f" || a.Op == "&i" || b.Op == "&f" || b.Op == "&i" {
		return false
	}
	return s.mayAlias(a, b)
}

func (e *Engine) unop(s *State, x *ssa.UnOp) bool {
	fr := s.top()
	v := e.val(s, x.X)
	switch x.Op {
	case token.NOT:
		fr.env[x] = mkNot(v)
	case token.SUB:
		if i, ok := v.Int(); ok {
			fr.env[x] = cInt(-i)
		} else {
			fr.env[x] = mk("un", "-", x.Type(), v)
		}
	case token.XOR:
		fr.env[x] = mk("un", "^", x.Type(), v)
	case token.MUL:
		e.emit(s, &Event{Kind: EvLoad, Instr: x, Addr: v, Val: v})
		if s.dead {
			return false
		}
		fr.env[x] = s.load(v, x.Type())
	case token.ARROW:
		if x.CommaOk {
			tt := x.Type().(*types.Tuple)
			o := e.opaque(s, x, tt.At(0).Type(), 0)
			ok := e.opaque(s, x, types.Typ[types.Bool], 1)
			fr.env[x] = mk("tuple", "", nil, o, ok)
			e.emit(s, &Event{Kind: EvRecv, Instr: x, Chan: e.val(s, x.X), Val: o, Key: ok, Blocking: true})
		} else {
			o := e.opaque(s, x, x.Type(), 0)
			fr.env[x] = o
			e.emit(s, &Event{Kind: EvRecv, Instr: x, Chan: e.val(s, x.X), Val: o, Blocking: true})
		}
		if s.dead {
			return false
		}
	}
	fr.idx++
	return true
}

func isStruct(t types.Type) (*types.Struct, bool) {
	if t == nil {
		return nil, false
	}
	st, ok := t.Underlying().(*types.Struct)
	return st, ok
}

// whole: the value of a field of a struct (of a struct) that is known as a whole.
func (s *State) whole(a *Term, typ types.Type) *Term {
	if a.Op != "&f" || a.Args[0].Typ == nil {
		return nil
	}
	st, ok := isStruct(deref(a.Args[0].Typ))
	if !ok {
		return nil
	}
	w, ok := s.mem[mk("ld", "", nil, a.Args[0])]
	if !ok {
		w = s.whole(a.Args[0], deref(a.Args[0].Typ))
	}
	if w == nil {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if fieldClass(a.Args[0].Typ, i) == a.Name {
			return fieldOf(w, a.Name, i, typ)
		}
	}
	return nil
}

func (s *State) load(a *Term, typ types.Type) *Term {
	l := mk("ld", "", typ, a)
	if v, ok := s.mem[l]; ok {
		return v
	}
	if v := s.whole(a, typ); v != nil {
		return v
	}
	if st, ok := isStruct(typ); ok {
		// compose from fields when any field is known
		root := rootObj(a)
		known := s.fresh[root]
		pt := types.NewPointer(typ)
		if a.Typ != nil {
			pt2, ok := a.Typ.Underlying().(*types.Pointer)
			if ok {
				pt = pt2
			}
		}
		var args []*Term
		for i := 0; i < st.NumFields(); i++ {
			fa := mk("&f", fieldClass(pt, i), types.NewPointer(st.Field(i).Type()), a)
			fl := mk("ld", "", st.Field(i).Type(), fa)
			if _, ok := s.mem[fl]; ok {
				known = true
			}
			args = append(args, fa)
		}
		if known && st.NumFields() > 0 {
			for i := range args {
				args[i] = s.load(args[i], st.Field(i).Type())
			}
			allZero := true
			for _, x := range args {
				if !x.IsZero() {
					allZero = false
				}
			}
			if allZero {
				return cZero(typ)
			}
			return mk("struct", shortType(typ), typ, args...)
		}
	}
	if r := rootObj(a); s.fresh[r] && typ != nil {
		// array with known elements loaded as a whole stays symbolic
		if _, isArr := typ.Underlying().(*types.Array); isArr {
			for k := range s.mem {
				if k != l && k.leafs[r] && k.Contains(a) {
					return l
				}
			}
		}
		if a.Op == "&i" {
			if _, ok := a.Args[1].Int(); !ok {
				// unknown index into partly written array
				for k := range s.mem {
					if k.Op == "ld" && k.Args[0].Op == "&i" && k.Args[0].Args[0] == a.Args[0] {
						return l
					}
				}
			}
		}
		return cZero(typ)
	}
	// a field of an element is the field of the element's value
	if a.Op == "&f" && a.Args[0].Op == "&i" {
		if st, ok := isStruct(deref(a.Args[0].Typ)); ok {
			n := -1
			for i := 0; i < st.NumFields(); i++ {
				cl := fieldClass(a.Args[0].Typ, i)
				if cl == a.Name {
					n = i
				}
				if _, ok := s.mem[mk("ld", "", nil, mk("&f", cl, nil, a.Args[0]))]; ok {
					return l
				}
			}
			if n >= 0 {
				return fieldOf(mk("ld", "", deref(a.Args[0].Typ), a.Args[0]), a.Name, n, typ)
			}
		}
	}
	return l
}

func (s *State) readMap(m, k *Term, vt types.Type) *Term {
	if vt == nil {
		if m.Typ != nil {
			if mt, ok := m.Typ.Underlying().(*types.Map); ok {
				vt = mt.Elem()
			}
		}
		if vt == nil {
			if v, ok := s.mem[mkAt(m, k, nil)]; ok {
				return v
			}
			return mkAt(m, k, nil)
		}
	}
	at := mkAt(m, k, vt)
	if v, ok := s.mem[at]; ok {
		return v
	}
	if s.KnownNot(mkHas(m, k)) {
		return cZero(vt)
	}
	if m.IsNil() {
		return cZero(vt)
	}
	return at
}

func (e *Engine) store(s *State, in ssa.Instruction, addr, val ssa.Value) {
	fr := s.top()
	a := e.val(s, addr)
	v := e.val(s, val)
	e.emit(s, &Event{Kind: EvStore, Instr: in, Addr: a, Val: v})
	if s.dead {
		return
	}
	s.markEscStore(a, v)
	s.explode(a)
	s.invalidate("st:"+e.site(fr, in), func(t *Term) bool {
		if t.Op == "ld" && s.addrAlias(a, t.Args[0]) {
			return true
		}
		if (t.Op == "forall" || t.Op == "exists") && a.Op == "&i" {
			return s.mayAlias(t.Args[0], a.Args[0])
		}
		return false
	})
	a = e.val(s, addr)
	v = e.val(s, val)
	if a.junk {
		return
	}
	l := mk("ld", "", val.Type(), a)
	if l.Typ == nil {
		l.Typ = val.Type()
	}
	s.mem[l] = v
}

// explode a known whole struct before one of its fields is overwritten.
func (s *State) explode(a *Term) {
	if a.Op != "&f" || a.Args[0].Typ == nil {
		return
	}
	s.explode(a.Args[0])
	wl := mk("ld", "", nil, a.Args[0])
	w, ok := s.mem[wl]
	if !ok {
		return
	}
	if st, ok := isStruct(deref(a.Args[0].Typ)); ok {
		delete(s.mem, wl)
		for i := 0; i < st.NumFields(); i++ {
			cl := fieldClass(a.Args[0].Typ, i)
			fa := mk("&f", cl, types.NewPointer(st.Field(i).Type()), a.Args[0])
			s.mem[mk("ld", "", st.Field(i).Type(), fa)] = fieldOf(w, cl, i, st.Field(i).Type())
		}
	}
}

func (s *State) markEscStore(a, v *Term) {
	// storing into a non-escaped local object does not make v escape
	if r := rootObj(a); isFreshObj(r) && !s.esc[r] {
		return
	}
	s.markEsc(v)
}

func (e *Engine) mapUpdate(s *State, x *ssa.MapUpdate) {
	fr := s.top()
	m, k, v := e.val(s, x.Map), e.val(s, x.Key), e.val(s, x.Value)
	e.emit(s, &Event{Kind: EvMapUpdate, Instr: x, Map: m, Key: k, Val: v})
	if s.dead {
		return
	}
	s.markEscStore(m, v)
	s.killMap("mu:"+e.site(fr, x), m, k, false)
	m, k, v = e.val(s, x.Map), e.val(s, x.Key), e.val(s, x.Value)
	delete(s.fresh, m)
	if m.junk || k.junk {
		return
	}
	s.mem[mkAt(m, k, x.Map.Type().Underlying().(*types.Map).Elem())] = v
	s.facts[mkHas(m, k)] = true
}

// killMap forgets what a write to m[k] may change.
func (s *State) killMap(site string, m, k *Term, del bool) {
	distinct := func(k2 *Term) bool {
		if k2 == k {
			return false
		}
		if k2.IsConst() && k.IsConst() && !k.junk && !k2.junk {
			return true
		}
		if v, known := s.Query(atomEq(k, k2)); known && !v {
			return true
		}
		return false
	}
	// membership facts
	for f, v := range s.facts {
		if f.Op == "has" && s.mayAlias(f.Args[0], m) && !distinct(f.Args[1]) {
			if f.Args[0] == m && f.Args[1] == k {
				delete(s.facts, f)
				continue
			}
			if del == v { // delete may falsify true, update may falsify false
				delete(s.facts, f)
			}
		}
	}
	if !del {
		for f := range s.fresh {
			if f != m && f.Op == "mkmap" && s.mayAlias(f, m) {
				delete(s.fresh, f)
			}
		}
	}
	s.invalidate(site, func(t *Term) bool {
		switch t.Op {
		case "at":
			return s.mayAlias(t.Args[0], m) && !distinct(t.Args[1])
		case "has":
			return false
		case "len":
			return isMapTerm(t.Args[0]) && s.mayAlias(t.Args[0], m)
		case "forall":
			return s.mayAlias(t.Args[0], m) && !del && isMapTerm(t.Args[0])
		case "exists":
			return s.mayAlias(t.Args[0], m) && del && isMapTerm(t.Args[0])
		}
		return false
	})
}

func isMapTerm(t *Term) bool {
	if t.Op == "mkmap" {
		return true
	}
	if t.Typ == nil {
		return false
	}
	_, ok := t.Typ.Underlying().(*types.Map)
	return ok
}

func (e *Engine) next(s *State, x *ssa.Next) bool {
	fr := s.top()
	it := e.val(s, x.Iter)
	var c *Term
	if it.Op == "range" {
		c = it.Args[0]
	} else {
		c = junkT
	}
	if x.IsString {
		k := e.opaque(s, x, types.Typ[types.Int], 0)
		v := e.opaque(s, x, types.Typ[types.Rune], 1)
		ok := e.opaque(s, x, types.Typ[types.Bool], 2)
		fr.env[x] = mk("tuple", "", nil, ok, k, v)
		fr.idx++
		return true
	}
	tt := x.Type().(*types.Tuple)
	// empty?
	empty, known := s.Query(atomLt(mkLen(c), cInt(1)))
	if s.fresh[c] {
		empty, known = true, true
	}
	ls := s.loops[loopKey{fr.ctx, fr.block}]
	if !(known && !empty && ls != nil && ls.iters == 0) {
		d := s.clone()
		dfr := d.top()
		e.addForall(d, dfr, dfr.block, c)
		zero := mk("junk", "rangedone", nil)
		dfr.env[x] = mk("tuple", "", nil, cBool(false), zero, zero)
		d.tr = &step{parent: d.tr, note: fmt.Sprintf("%s: range over %v done", e.pos(x), c)}
		e.emit(d, &Event{Kind: EvRangeDone, Instr: x, Val: c, Hdr: x.Block()})
		dfr.idx++
		if !d.dead {
			e.push(d)
		}
	}
	if known && empty {
		return false
	}
	// next element
	site := e.site(fr, x)
	rk := mk("rkey", site, nil)
	if rk.Typ == nil {
		rk.Typ = tt.At(1).Type()
		if c.Typ != nil {
			if mt, ok := c.Typ.Underlying().(*types.Map); ok {
				rk.Typ = mt.Key()
			}
		}
	}
	s.redefine(rk)
	c = e.val(s, x.Iter)
	if c.Op == "range" {
		c = c.Args[0]
	} else {
		c = junkT
	}
	var vt types.Type
	if c.Typ != nil {
		if mt, ok := c.Typ.Underlying().(*types.Map); ok {
			vt = mt.Elem()
		}
	}
	if !c.junk {
		s.facts[mkHas(c, rk)] = true
		// quantified facts instantiate
		for f, v := range s.facts {
			if v && f.Op == "forall" && f.Args[0] == c {
				s.instantiate(f.Args[1], mkAt(c, rk, vt), rk)
			}
		}
	}
	v := mkAt(c, rk, vt)
	fr.env[x] = mk("tuple", "", nil, cBool(true), rk, v)
	s.tr = &step{parent: s.tr, note: fmt.Sprintf("%s: next element of %v", e.pos(x), c)}
	e.emit(s, &Event{Kind: EvRangeKey, Instr: x, Val: c, Key: rk, Res: s.readMap(c, rk, vt), Hdr: x.Block()})
	if s.dead {
		return false
	}
	fr.idx++
	return true
}

func (s *State) instantiate(p, elem, key *Term) {
	d := holeDepth(p)
	en, kn := fmt.Sprintf("E%d", d), fmt.Sprintf("K%d", d)
	q := substF(p, func(x *Term) *Term {
		if x.Op == "hole" && x.Name == en {
			return elem
		}
		if x.Op == "hole" && x.Name == kn {
			return key
		}
		return nil
	}, map[*Term]*Term{})
	v := true
	if q.Op == "not" {
		q = q.Args[0]
		v = false
	}
	if q.junk {
		return
	}
	if a, pol, ok := recanonFact(q, v); ok {
		if _, has := s.facts[a]; !has {
			s.facts[a] = pol
		}
	}
}

func (e *Engine) sel(s *State, x *ssa.Select) bool {
	tt := x.Type().(*types.Tuple)
	build := func(st *State, idx int) bool {
		fr := st.top()
		args := []*Term{cInt(int64(idx)), e.opaque(st, x, types.Typ[types.Bool], 1)}
		n := 0
		for i, ss := range x.States {
			if ss.Dir == types.RecvOnly {
				t := tt.At(2 + n).Type()
				n++
				if i == idx {
					args = append(args, e.opaque(st, x, t, 1+n))
				} else {
					args = append(args, cZero(t))
				}
			}
		}
		fr.env[x] = mk("tuple", "", nil, args...)
		if idx >= 0 {
			ss := x.States[idx]
			ch := e.val(st, ss.Chan)
			st.tr = &step{parent: st.tr, note: fmt.Sprintf("%s: select case %d (%v)", e.pos(x), idx, ch)}
			if ss.Dir == types.RecvOnly {
				var rv *Term
				k := 2
				for i := 0; i < idx; i++ {
					if x.States[i].Dir == types.RecvOnly {
						k++
					}
				}
				rv = args[k]
				e.emit(st, &Event{Kind: EvRecv, Instr: x, Chan: ch, Val: rv, Key: args[1], Select: true, Blocking: x.Blocking})
			} else {
				st.markEsc(e.val(st, ss.Send))
				e.emit(st, &Event{Kind: EvSend, Instr: x, Chan: ch, Val: e.val(st, ss.Send), Select: true, Blocking: x.Blocking})
			}
		} else {
			st.tr = &step{parent: st.tr, note: fmt.Sprintf("%s: select default", e.pos(x))}
			e.emit(st, &Event{Kind: EvSelDefault, Instr: x, Select: true})
		}
		fr.idx++
		return !st.dead
	}
	for i := range x.States {
		c := s.clone()
		if build(c, i) {
			e.push(c)
		}
	}
	if !x.Blocking {
		return build(s, -1)
	}
	return false
}

func (e *Engine) ret(s *State, x *ssa.Return) bool {
	fr := s.top()
	var rs []*Term
	for _, r := range x.Results {
		rs = append(rs, e.val(s, r))
	}
	var res *Term
	if len(rs) == 1 {
		res = rs[0]
	} else {
		res = mk("tuple", "", nil, rs...)
	}
	for k := range s.loops {
		if k.ctx == fr.ctx {
			e.emit(s, &Event{Kind: EvLoopExit, Hdr: k.hdr, Instr: x})
			delete(s.loops, k)
		}
	}
	if len(s.frames) == 1 {
		e.Exits++
		e.emit(s, &Event{Kind: EvExit, Instr: x, Args: rs, Res: res})
		return false
	}
	e.emit(s, &Event{Kind: EvLeave, Instr: x, CalleeF: fr.fn, Args: rs, Res: res})
	if s.dead {
		return false
	}
	s.frames = s.frames[:len(s.frames)-1]
	cf := s.top()
	if !fr.indef {
		if v, ok := fr.call.(ssa.Value); ok {
			cf.env[v] = res
		}
		cf.idx++
	}
	if e.seen(s) {
		return false
	}
	return true
}
