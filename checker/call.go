package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Library functions whose result is a function of their arguments only.
var purePrefixes = []string{
	"strings.", "path.", "strconv.", "bytes.", "unicode.", "utf8.", "math.", "filepath.", "slices.Contains", "slices.Index", "slices.Equal", "slices.Sorted", "maps.Keys",
	"types.BytesToHash", "types.HexToHash", "(types.Hash).", "types.Hash.",
	"(*regexp.Regexp).", "regexp.Compile", "regexp.MatchString", "regexp.QuoteMeta", "fmt.Sprint",
	"(*hexutil.Big).ToInt", "(url.Values).", "(*url.URL).", "url.Parse", "(*url.Userinfo).",
	"hexutil.Decode", "hexutil.Encode", "(time.Time).", "(time.Duration).", "sha256.Sum", "sha512.Sum", "sort.IsSorted", "sort.SearchStrings",
	"binary.BigEndian", "errors.Is", "(*avro.FixedSchema).Size", "(*types.Hash).",
}

// Methods of repository interfaces that are plain accessors of immutable data.
var pureIface = map[string]bool{
	"(delivery.Message).Key": true, "(delivery.Message).Value": true,
	"(delivery.ResumptionMessage).Key": true, "(delivery.ResumptionMessage).Value": true,
	"(delivery.ResumptionMessage).Offset": true, "(delivery.ResumptionMessage).Source": true, "(delivery.ResumptionMessage).Time": true,
	"(error).Error": true, "(context.Context).Done": true,
}

// Observers: pure until a mutator of the same receiver is called.
var observers = map[string]string{
	"(*lru.Cache).Contains": "lru", "(*lru.Cache).Peek": "lru", "(*lru.Cache).Get": "lru", "(*lru.Cache).Len": "lru", "(*lru.Cache).Keys": "lru",
}
var mutators = map[string]string{
	"(*lru.Cache).Add": "lru", "(*lru.Cache).Remove": "lru", "(*lru.Cache).Purge": "lru", "(*lru.Cache).Resize": "lru", "(*lru.Cache).RemoveOldest": "lru",
	"(*lru.Cache).ContainsOrAdd": "lru", "(*lru.Cache).PeekOrAdd": "lru",
}

// Calls that keep nothing and change nothing the analysis tracks.
var inertPrefixes = []string{"log15.", "metrics.", "(metrics.", "log.", "(log15.", "time.", "runtime.", "(*sync.", "(*time.", "sort.Strings", "fmt.Print", "fmt.Fprint", "fmt.Errorf", "errors.New", "avro.Marshal", "json.Marshal"}

func hasAnyPrefix(s string, ps []string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

func isPure(name string) bool {
	if strings.HasPrefix(name, "(*regexp.Regexp).Longest") || strings.HasPrefix(name, "(url.Values).Set") || strings.HasPrefix(name, "(url.Values).Add") || strings.HasPrefix(name, "(url.Values).Del") {
		return false
	}
	return pureIface[name] || hasAnyPrefix(name, purePrefixes)
}

var bigObs = map[string]bool{"Cmp": true, "CmpAbs": true, "Sign": true, "Bytes": true, "Int64": true, "Uint64": true, "BitLen": true, "IsInt64": true, "IsUint64": true, "String": true, "Text": true}

func bigMethod(name string) (string, bool) {
	if strings.HasPrefix(name, "(*big.Int).") {
		return strings.TrimPrefix(name, "(*big.Int)."), true
	}
	return "", false
}

// bigVal: the integer a *big.Int denotes.
func (s *State) bigVal(t *Term) *Term {
	if v, ok := s.mem[mk("ld", "bigval", nil, t)]; ok {
		return v
	}
	if t.Op == "alloc" && s.fresh[t] && !t.junk {
		return mk("const", "bigzero", nil)
	}
	return t
}

// sliceElems resolves a slice of a local array (varargs, literals) to the list of
// its elements.
func (s *State) sliceElems(t *Term) (*Term, bool) {
	if t.IsNil() {
		return mk("list", "", nil), true
	}
	if t.Op == "list" {
		return t, true
	}
	if t.Op != "slice" || t.Args[0].Op != "alloc" {
		return nil, false
	}
	a := t.Args[0]
	pt, ok := a.Typ.Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	at, ok := pt.Elem().Underlying().(*types.Array)
	if !ok || at.Len() > 32 {
		return nil, false
	}
	lo, hi := int64(0), at.Len()
	if t.Args[1].Name != "none" {
		if lo, ok = t.Args[1].Int(); !ok {
			return nil, false
		}
	}
	if t.Args[2].Name != "none" {
		if hi, ok = t.Args[2].Int(); !ok {
			return nil, false
		}
	}
	var es []*Term
	for i := lo; i < hi; i++ {
		es = append(es, s.load(mk("&i", "", types.NewPointer(at.Elem()), a, cInt(i)), at.Elem()))
	}
	return mk("list", "", t.Typ, es...), true
}

// resolve finds the callee of a call.
func (e *Engine) resolve(s *State, cc *ssa.CallCommon) (string, *ssa.Function, *Term, []*Term) {
	var args []*Term
	for _, a := range cc.Args {
		args = append(args, e.val(s, a))
	}
	return e.resolveT(s, cc, e.val(s, cc.Value), args)
}

func (e *Engine) resolveT(s *State, cc *ssa.CallCommon, fv *Term, args []*Term) (string, *ssa.Function, *Term, []*Term) {
	if cc.IsInvoke() {
		name := "(" + shortType(cc.Value.Type()) + ")." + cc.Method.Name()
		if strings.HasPrefix(name, "(delivery.Message).") {
			name = "(delivery.ResumptionMessage)." + cc.Method.Name()
		}
		// devirtualise when the dynamic type is known
		if fv.Op == "alloc" && fv.Typ != nil {
			ms := e.P.Prog.MethodSets.MethodSet(fv.Typ)
			if sel := ms.Lookup(cc.Method.Pkg(), cc.Method.Name()); sel != nil && !types.IsInterface(fv.Typ) {
				if fn := e.P.Prog.MethodValue(sel); fn != nil && e.P.inRepo(fn) && len(fn.Blocks) > 0 {
					return calleeName(fn), fn, fv, args
				}
			}
		}
		return name, nil, fv, args
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return "builtin " + b.Name(), nil, nil, args
	}
	fn := cc.StaticCallee()
	if fn == nil && (fv.Op == "func" || fv.Op == "closure") {
		fn = e.P.fnByName[fv.Name]
	}
	if fn == nil {
		return "dynamic", nil, fv, args
	}
	e.P.fnByName[fn.String()] = fn
	if decoderFns[fn] {
		return "avro.Unmarshal", nil, nil, args
	}
	if fn.Signature.Recv() != nil && len(args) > 0 {
		return calleeName(fn), fn, args[0], args[1:]
	}
	return calleeName(fn), fn, nil, args
}

func (e *Engine) canInline(s *State, fn *ssa.Function) bool {
	if fn == nil || len(fn.Blocks) == 0 || len(s.frames) >= e.MaxDepth {
		return false
	}
	if !e.P.inRepo(fn) {
		return fn.Synthetic != "" && (strings.HasPrefix(fn.Synthetic, "bound") || strings.HasPrefix(fn.Synthetic, "thunk")) && !isExternalWrapper(e.P, fn)
	}
	for _, f := range s.frames {
		if f.fn == fn {
			return false
		}
	}
	if e.NoInline != nil && e.NoInline(fn) {
		return false
	}
	return true
}

func isExternalWrapper(p *Program, fn *ssa.Function) bool { return false }

// enter pushes a frame for fn.
func (e *Engine) enter(s *State, in ssa.Instruction, site ssa.Instruction, fn *ssa.Function, fv *Term, all []*Term, deferred bool) bool {
	fr := s.top()
	nf := &Frame{fn: fn, ctx: e.ctx(fr.ctx, site, fn), env: map[ssa.Value]*Term{}, block: fn.Blocks[0], call: in, indef: deferred}
	for i, p := range fn.Params {
		if i < len(all) {
			nf.env[p] = all[i]
		}
	}
	if fv != nil && fv.Op == "closure" {
		for i, v := range fn.FreeVars {
			if i < len(fv.Args) {
				nf.env[v] = fv.Args[i]
			}
		}
	}
	live := e.P.liveAfter(fr.fn, fr.block, fr.idx)
	for v := range fr.env {
		if !live[v] {
			delete(fr.env, v)
		}
	}
	e.Funcs[fn] = true
	s.frames = append(s.frames, nf)
	e.emit(s, &Event{Kind: EvEnter, Instr: in, Callee: calleeName(fn), CalleeF: fn, Args: all, Deferred: deferred})
	return !s.dead
}

func resultTypes(cc *ssa.CallCommon) []types.Type {
	r := cc.Signature().Results()
	var ts []types.Type
	for i := 0; i < r.Len(); i++ {
		ts = append(ts, r.At(i).Type())
	}
	return ts
}

// capturedFn resolves a captured variable that only ever holds one function
// literal.
func (e *Engine) capturedFn(t *Term) *Term {
	u := unold(t)
	if u.Op != "ld" || u.Args[0].Op != "fv" && u.Args[0].Op != "param" || u.Typ == nil {
		return t
	}
	if _, ok := u.Typ.Underlying().(*types.Signature); !ok {
		return t
	}
	a, ok := e.rootCell(u.Args[0]).(*ssa.Alloc)
	if !ok {
		return t
	}
	var mc ssa.Value
	n := 0
	for _, r := range allUses(a) {
		if st, ok := r.(*ssa.Store); ok && cellOf(st.Addr) == ssa.Value(a) {
			n++
			mc = st.Val
		}
	}
	if n != 1 {
		return t
	}
	if f, ok := mc.(*ssa.Function); ok {
		e.P.fnByName[f.String()] = f
		return mk("func", f.String(), u.Typ)
	}
	m, ok := mc.(*ssa.MakeClosure)
	if !ok {
		return t
	}
	fn := m.Fn.(*ssa.Function)
	e.P.fnByName[fn.String()] = fn
	var bs []*Term
	for _, b := range m.Bindings {
		bs = append(bs, e.cellTerm(cellOf(b), b.Type()))
	}
	return mk("closure", fn.String(), u.Typ, bs...)
}

// rootCell: the variable a free variable or parameter of the root stands for.
func (e *Engine) rootCell(t *Term) ssa.Value {
	if v, ok := e.extraFV[t]; ok {
		return v
	}
	n := map[string]int{}
	for _, v := range e.Root.FreeVars {
		n[v.Name()]++
		name := v.Name()
		if k := n[name]; k > 1 {
			name = fmt.Sprintf("%s#%d", name, k)
		}
		if mkParam("fv", name, v.Type()) == t {
			return cellOf(v)
		}
	}
	for _, p := range e.Root.Params {
		if mkParam("param", p.Name(), p.Type()) == t {
			if a := goArgOf(p); a != nil {
				return cellOf(a)
			}
		}
	}
	return nil
}

// cellTerm: the term for a variable of an enclosing function.
func (e *Engine) cellTerm(v ssa.Value, typ types.Type) *Term {
	n := map[string]int{}
	for _, f := range e.Root.FreeVars {
		n[f.Name()]++
		name := f.Name()
		if k := n[name]; k > 1 {
			name = fmt.Sprintf("%s#%d", name, k)
		}
		if cellOf(f) == v {
			return mkParam("fv", name, f.Type())
		}
	}
	for t, w := range e.extraFV {
		if w == v {
			return t
		}
	}
	t := mkParam("fv", fmt.Sprintf("^%d", len(e.extraFV)), typ)
	if e.extraFV == nil {
		e.extraFV = map[*Term]ssa.Value{}
	}
	e.extraFV[t] = v
	return t
}

func (e *Engine) call(s *State, in ssa.Instruction, cc *ssa.CallCommon, dargs []*Term, deferred bool) bool {
	fr := s.top()
	var fv *Term
	var raw []*Term
	get := func() {
		if deferred {
			fv, raw = dargs[0], dargs[1:]
			return
		}
		fv = e.capturedFn(e.val(s, cc.Value))
		raw = nil
		for _, a := range cc.Args {
			raw = append(raw, e.val(s, a))
		}
	}
	get()
	name, fn, recv, args := e.resolveT(s, cc, fv, raw)
	finish := func(res *Term) bool {
		if s.dead {
			return false
		}
		if !deferred {
			if v, ok := in.(ssa.Value); ok {
				fr.env[v] = res
			}
			fr.idx++
		}
		return true
	}
	if strings.HasPrefix(name, "builtin ") {
		return e.builtin(s, in, cc, strings.TrimPrefix(name, "builtin "), args, finish, deferred)
	}
	e.Calls[name]++
	// sync.Once
	if name == "(*sync.Once).Do" && len(args) == 1 {
		done := mk("call", "once", types.Typ[types.Bool], recv)
		if f := e.P.fnByName[args[0].Name]; f != nil && !s.Known(done) && e.canInline(s, f) {
			sk := s.clone()
			if sk.Assume(done, true) {
				sf := sk.top()
				if !deferred {
					if v, ok := in.(ssa.Value); ok {
						sf.env[v] = mk("tuple", "", nil)
					}
					sf.idx++
				}
				sk.tr = &step{parent: sk.tr, note: fmt.Sprintf("%s: once already done", e.pos(in))}
				e.push(sk)
			}
			s.facts[done] = true
			var all []*Term
			// a bound method value carries its receiver
			ok := e.enter(s, in, in, f, args[0], all, deferred)
			s.top().once = recv
			return ok
		}
		e.emit(s, &Event{Kind: EvCall, Instr: in, Callee: name, CalleeF: fn, Recv: recv, Args: args, Deferred: deferred})
		return finish(mk("tuple", "", nil))
	}
	prepo := e.pureRepo[name]
	if !prepo && e.canInline(s, fn) {
		site := in
		return e.enter(s, in, site, fn, fv, rebuildArgs(fn, recv, args), deferred)
	}
	rts := resultTypes(cc)
	inrepo := fn != nil && e.P.inRepo(fn)
	var res []*Term
	switch {
	case !inrepo && isPure(name) || prepo:
		var pa []*Term
		if recv != nil {
			pa = append(pa, recv)
		}
		for _, a := range args {
			if l, ok := s.sliceElems(a); ok && a.Op == "slice" {
				a = l
			}
			pa = append(pa, a)
		}
		for i, t := range rts {
			n := name
			if len(rts) > 1 {
				n = fmt.Sprintf("%s#%d", name, i)
			}
			res = append(res, mk("call", n, t, pa...))
		}
	case observers[name] != "":
		for i, t := range rts {
			n := name
			if len(rts) > 1 {
				n = fmt.Sprintf("%s#%d", name, i)
			}
			res = append(res, mk("call", n, t, append([]*Term{recv}, args...)...))
		}
	default:
		if m, ok := bigMethod(name); ok {
			return e.bigCall(s, in, m, name, fn, recv, args, rts, finish, deferred)
		}
		for i, t := range rts {
			res = append(res, e.opaque(s, in, t, i))
		}
		get()
		name, fn, recv, args = e.resolveT(s, cc, fv, raw)
		if name == "fmt.Errorf" || name == "errors.New" {
			s.facts[atomEq(res[0], cNil())] = false
		}
	}
	var rt *Term
	if len(res) == 1 {
		rt = res[0]
	} else {
		rt = mk("tuple", "", nil, res...)
	}
	pure := prepo || !inrepo && isPure(name) || observers[name] != ""
	inert := hasAnyPrefix(name, inertPrefixes)
	e.emit(s, &Event{Kind: EvCall, Instr: in, Callee: name, CalleeF: fn, Recv: recv, Args: args, Res: rt, Deferred: deferred, Repo: inrepo})
	if s.dead {
		return false
	}
	if deferred {
		s.tr = &step{parent: s.tr, note: fmt.Sprintf("%s: deferred %s", e.pos(in), name)}
	}
	if !pure && !inert {
		for _, a := range args {
			s.markEsc(a)
			s.escElems(a)
		}
		if recv != nil {
			s.markEsc(recv)
		}
	}
	if prepo {
	} else if inrepo {
		e.havocMods(s, in, e.P.ModSet(fn))
	} else if name == "dynamic" || fn == nil && !pure && !cc.IsInvoke() {
		e.havocObjs(s, in, args)
	} else if !pure && !inert {
		e.havocObjs(s, in, args)
	}
	if k := mutators[name]; k != "" {
		e.mutate(s, in, k, name, recv, args)
		for _, cb := range e.P.lruCallbacks() {
			e.havocMods(s, in, e.P.ModSet(cb))
		}
		if name == "(*lru.Cache).Add" {
			get()
			_, _, recv, args = e.resolveT(s, cc, fv, raw)
			s.facts[mk("call", "(*lru.Cache).Contains", types.Typ[types.Bool], recv, args[0])] = true
		}
	}
	return finish(rt)
}

func rebuildArgs(fn *ssa.Function, recv *Term, args []*Term) []*Term {
	if fn.Signature.Recv() != nil && recv != nil {
		return append([]*Term{recv}, args...)
	}
	return args
}

// escElems: elements of a varargs slice escape with it.
func (s *State) escElems(t *Term) {
	if l, ok := s.sliceElems(t); ok {
		for _, a := range l.Args {
			s.markEsc(a)
		}
	}
}

// mutate invalidates observer results of a container object.
func (e *Engine) mutate(s *State, in ssa.Instruction, kind, name string, recv *Term, args []*Term) {
	site := "mut:" + e.site(s.top(), in)
	s.invalidateObs(site, func(t *Term) bool {
		return t.Op == "call" && len(t.Args) > 0 && observers[strings.SplitN(t.Name, "#", 2)[0]] == kind && s.mayAlias(t.Args[0], recv)
	})
}

// invalidateObs: boolean observers lose their facts; other values become old.
func (s *State) invalidateObs(site string, pred func(*Term) bool) {
	for f := range s.facts {
		if pred(f) {
			delete(s.facts, f)
		}
	}
	s.invalidate(site, pred)
}

func (e *Engine) bigCall(s *State, in ssa.Instruction, m, name string, fn *ssa.Function, recv *Term, args []*Term, rts []types.Type, finish func(*Term) bool, deferred bool) bool {
	if bigObs[m] {
		pa := []*Term{s.bigVal(recv)}
		for _, a := range args {
			pa = append(pa, s.bigVal(a))
		}
		var t types.Type
		if len(rts) > 0 {
			t = rts[0]
		}
		r := mk("call", name, t, pa...)
		e.emit(s, &Event{Kind: EvCall, Instr: in, Callee: name, CalleeF: fn, Recv: recv, Args: args, Res: r, Deferred: deferred})
		return finish(r)
	}
	pa := []*Term{}
	for _, a := range args {
		if a.Typ != nil && shortType(a.Typ) == "*big.Int" {
			a = s.bigVal(a)
		}
		pa = append(pa, a)
	}
	e.emit(s, &Event{Kind: EvCall, Instr: in, Callee: name, CalleeF: fn, Recv: recv, Args: args, Res: recv, Deferred: deferred})
	if s.dead {
		return false
	}
	l := mk("ld", "bigval", nil, recv)
	s.invalidate("big:"+e.site(s.top(), in), func(t *Term) bool {
		return t.Op == "ld" && t.Name == "bigval" && s.mayAlias(t.Args[0], recv)
	})
	for k := range s.mem {
		if k.Op == "ld" && k.Name == "bigval" && s.mayAlias(k.Args[0], recv) {
			delete(s.mem, k)
		}
	}
	v := mk("call", "(*big.Int)."+m, nil, pa...)
	if m == "Set" && len(pa) == 1 {
		v = pa[0]
	}
	s.mem[l] = v
	if len(rts) == 1 {
		return finish(recv)
	}
	var rs []*Term
	for i, t := range rts {
		rs = append(rs, e.opaque(s, in, t, i))
	}
	return finish(mk("tuple", "", nil, rs...))
}

// havocObjs: an external function may write what its pointer arguments reach.
func (e *Engine) havocObjs(s *State, in ssa.Instruction, args []*Term) {
	objs := map[*Term]bool{}
	var reach func(t *Term)
	reach = func(t *Term) {
		for t.Op == "&f" || t.Op == "&i" || t.Op == "slice" {
			t = t.Args[0]
		}
		switch t.Op {
		case "alloc", "mkmap", "mkslice":
			if objs[t] {
				return
			}
			objs[t] = true
			for k, v := range s.mem {
				if k.Args[0].leafs[t] {
					reach(v)
				}
			}
		}
	}
	for _, a := range args {
		if l, ok := s.sliceElems(a); ok && a.Op == "slice" {
			for _, x := range l.Args {
				reach(x)
			}
			continue
		}
		reach(a)
	}
	if len(objs) == 0 {
		return
	}
	for o := range objs {
		delete(s.fresh, o)
	}
	site := "ext:" + e.site(s.top(), in)
	s.invalidate(site, func(t *Term) bool {
		switch t.Op {
		case "ld":
			return objs[rootObj(t.Args[0])]
		case "at", "has", "forall", "exists":
			return objs[t.Args[0]]
		case "len":
			return objs[t.Args[0]] && isMapTerm(t.Args[0])
		}
		return false
	})
}

// ownCell: a captured variable that only the root function writes to once it
// runs, and whose address is not passed on.
func (e *Engine) ownCell(t *Term) bool {
	a, ok := e.rootCell(t).(*ssa.Alloc)
	if !ok || e.Root == nil {
		return false
	}
	if v, ok := e.owned[a]; ok {
		return v
	}
	own := true
	for _, u := range allUses(a) {
		switch w := u.(type) {
		case *ssa.Store:
			if cellOf(w.Addr) != ssa.Value(a) || w.Parent() != e.Root && !encloses(w.Parent(), e.Root) {
				own = false
			}
		case *ssa.UnOp, *ssa.MakeClosure, *ssa.DebugRef:
		default:
			own = false
		}
	}
	if e.owned == nil {
		e.owned = map[*ssa.Alloc]bool{}
	}
	e.owned[a] = own
	return own
}

func encloses(f, g *ssa.Function) bool {
	for g = g.Parent(); g != nil; g = g.Parent() {
		if g == f {
			return true
		}
	}
	return false
}

// havocMods forgets what a call into unanalysed repository code may change.
func (e *Engine) havocMods(s *State, in ssa.Instruction, m *modSet) {
	site := "mod:" + e.site(s.top(), in)
	for f := range s.fresh {
		if s.esc[f] {
			if f.Op == "mkmap" && f.Typ != nil && m.mapTyp[types.TypeString(f.Typ, nil)] {
				delete(s.fresh, f)
			}
			if f.Op == "alloc" {
				delete(s.fresh, f)
			}
		}
	}
	local := func(o *Term) bool {
		o = rootObj(o)
		if o.Op == "call" && strings.HasPrefix(o.Name, "strings.") {
			return true // what the strings package returns is not shared
		}
		if o.Op == "fv" && e.ownCell(o) {
			return true
		}
		return isFreshObj(o) && !s.esc[o]
	}
	mapHit := func(x *Term) bool {
		if local(x) {
			return false
		}
		if c := originClass(x); c != "" && !strings.HasSuffix(c, "[]") {
			return m.maps[c]
		}
		return x.Typ == nil || m.mapTyp[types.TypeString(x.Typ, nil)]
	}
	pred := func(t *Term) bool {
		switch t.Op {
		case "ld":
			a := t.Args[0]
			if local(a) {
				return false
			}
			switch a.Op {
			case "&f":
				return m.fields[a.Name]
			case "&i":
				if t.Typ == nil {
					return true
				}
				return m.elems[types.TypeString(t.Typ, nil)]
			case "global":
				return m.globals[fieldOnly(a.Name)]
			}
			if t.Name == "bigval" {
				return false
			}
			if st, ok := isStruct(t.Typ); ok {
				_ = st
				n := shortType(t.Typ)
				for f := range m.fields {
					if strings.HasPrefix(f, n+".") {
						return true
					}
				}
				return false
			}
			return true
		case "at", "has":
			return mapHit(t.Args[0])
		case "len":
			return isMapTerm(t.Args[0]) && mapHit(t.Args[0])
		case "forall", "exists":
			if isMapTerm(t.Args[0]) {
				return mapHit(t.Args[0])
			}
			return false
		case "call":
			return observers[strings.SplitN(t.Name, "#", 2)[0]] != "" && m.lru
		}
		return false
	}
	for f := range s.facts {
		if (f.Op == "has" || f.Op == "call") && pred(f) {
			delete(s.facts, f)
		}
	}
	s.invalidate(site, pred)
}

// lruCallbacks: functions registered as eviction callbacks.
func (p *Program) lruCallbacks() []*ssa.Function {
	if p.lruCB != nil {
		return *p.lruCB
	}
	var out []*ssa.Function
	for _, f := range p.All {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				sf := c.Common().StaticCallee()
				if sf == nil || calleeName(sf) != "lru.NewWithEvict" {
					continue
				}
				for _, a := range c.Common().Args {
					switch x := a.(type) {
					case *ssa.MakeClosure:
						out = append(out, x.Fn.(*ssa.Function))
					case *ssa.Function:
						out = append(out, x)
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	p.lruCB = &out
	return out
}

func (e *Engine) builtin(s *State, in ssa.Instruction, cc *ssa.CallCommon, b string, args []*Term, finish func(*Term) bool, deferred bool) bool {
	fr := s.top()
	reval := func() []*Term {
		if deferred {
			return args
		}
		var r []*Term
		for _, a := range cc.Args {
			r = append(r, e.val(s, a))
		}
		return r
	}
	switch b {
	case "len":
		if s.fresh[args[0]] && args[0].Op == "mkmap" {
			return finish(cInt(0))
		}
		return finish(mkLen(args[0]))
	case "cap":
		return finish(mk("cap", "", types.Typ[types.Int], args[0]))
	case "append":
		a0 := args[0]
		if l, ok := s.sliceElems(a0); ok {
			a0 = l
		}
		var a1 *Term
		if len(args) > 1 {
			a1 = args[1]
			if l, ok := s.sliceElems(a1); ok {
				a1 = l
			}
		} else {
			a1 = mk("list", "", nil)
		}
		typ := cc.Args[0].Type()
		var r *Term
		if a0.Op == "list" && a1.Op == "list" && len(a0.Args)+len(a1.Args) <= 8 {
			r = mk("list", "", typ, append(append([]*Term{}, a0.Args...), a1.Args...)...)
		} else if a0.Op == "append" && a0.Args[1].Op == "list" && a1.Op == "list" && len(a0.Args[1].Args)+len(a1.Args) <= 8 {
			r = mk("append", "", typ, a0.Args[0], mk("list", "", typ, append(append([]*Term{}, a0.Args[1].Args...), a1.Args...)...))
		} else if a1.Op == "list" && len(a1.Args) == 0 {
			r = a0
		} else {
			r = mk("append", "", typ, a0, a1)
		}
		if len(args) > 1 {
			s.escElems(args[1])
		}
		e.emit(s, &Event{Kind: EvCall, Instr: in, Callee: "builtin append", Args: args, Res: r})
		return finish(r)
	case "copy":
		e.emit(s, &Event{Kind: EvCall, Instr: in, Callee: "builtin copy", Args: args, Res: junkT})
		dst := args[0]
		root := rootObj(dst)
		delete(s.fresh, root)
		s.invalidate("copy:"+e.site(fr, in), func(t *Term) bool {
			return t.Op == "ld" && t.Args[0].Op == "&i" && (rootObj(t.Args[0]) == root || s.mayAlias(rootObj(t.Args[0]), root) && (t.Typ == nil || t.Typ == types.Typ[types.Byte]))
		})
		return finish(e.opaque(s, in, types.Typ[types.Int], 0))
	case "delete":
		m, k := args[0], args[1]
		e.emit(s, &Event{Kind: EvMapDelete, Instr: in, Map: m, Key: k})
		if s.dead {
			return false
		}
		s.killMap("del:"+e.site(fr, in), m, k, true)
		a := reval()
		m, k = a[0], a[1]
		if !m.junk && !k.junk {
			s.facts[mkHas(m, k)] = false
			delete(s.mem, mkAt(m, k, nil))
		}
		return finish(mk("tuple", "", nil))
	case "clear":
		m := args[0]
		e.emit(s, &Event{Kind: EvMapDelete, Instr: in, Map: m, Key: nil})
		if s.dead {
			return false
		}
		s.killMap("del:"+e.site(fr, in), m, junkT, true)
		return finish(mk("tuple", "", nil))
	case "close":
		at := in
		if deferred && e.deferAt != nil {
			at = e.deferAt
		}
		e.emit(s, &Event{Kind: EvClose, Instr: at, Chan: args[0], Deferred: deferred})
		return finish(mk("tuple", "", nil))
	case "min", "max":
		return finish(mk("call", b, cc.Args[0].Type(), args...))
	}
	e.emit(s, &Event{Kind: EvCall, Instr: in, Callee: "builtin " + b, Args: args})
	var res []*Term
	for i, t := range resultTypes(cc) {
		res = append(res, e.opaque(s, in, t, i))
	}
	if len(res) == 1 {
		return finish(res[0])
	}
	return finish(mk("tuple", "", nil, res...))
}
