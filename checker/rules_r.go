package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/callgraph/vta"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// ---------- T10: shared state is protected ----------
//
// A lockset analysis over the call graph. Execution starts at roots: every
// goroutine the repository starts, the operations of producers, consumers and
// waiters (which may be called from any goroutine), the constructors. Per root,
// the locks certainly held are propagated into the functions it reaches. Two
// accesses to the same field (or captured variable), at least one a write, from
// roots that may run at the same time, need a common lock or atomics, or one
// has to be over before the goroutine of the other is started.

// lockset: lock -> held exclusively.
type lockset map[string]bool

func (l lockset) clone() lockset {
	n := lockset{}
	for k, v := range l {
		n[k] = v
	}
	return n
}

func meet(a, b lockset) lockset {
	n := lockset{}
	for k, v := range a {
		if w, ok := b[k]; ok {
			n[k] = v && w
		}
	}
	return n
}

func sameLocks(a, b lockset) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

func (l lockset) String() string {
	var out []string
	for k, v := range l {
		if !v {
			k += " (shared)"
		}
		out = append(out, k)
	}
	sort.Strings(out)
	if len(out) == 0 {
		return "no lock"
	}
	return strings.Join(out, ", ")
}

type raceRoot struct {
	fn     *ssa.Function
	kind   string // go, api, start, owner, ctor
	site   *ssa.Go
	inLoop bool
	spawns []*raceRoot // roots the goroutine is started from
	reach  map[*ssa.Function]bool
	entry  map[*ssa.Function]lockset
	held   map[ssa.Instruction]lockset
}

func (r *raceRoot) String() string {
	if r.kind == "go" {
		return "the goroutine " + fnLabel(r.fn)
	}
	return fnLabel(r.fn)
}

func fnLabel(f *ssa.Function) string { return calleeName(f) }

type raceAcc struct {
	root   *raceRoot
	fn     *ssa.Function
	in     ssa.Instruction
	class  string
	alloc  *ssa.Alloc // of a captured variable
	write  bool
	atomic bool
	base   *ssa.Alloc // of a field of an object created in this function
	locks  lockset
}

type raceCtx struct {
	P       *Program
	callees map[ssa.CallInstruction][]*ssa.Function
	callers map[*ssa.Function][]ssa.CallInstruction
	roots   []*raceRoot
	sums    map[*ssa.Function]*lockSum
	once    map[*ssa.Function]string
	after   map[afterKey]map[ssa.Instruction]bool
	accs    []*raceAcc
	kindOf  map[*ssa.Function]string
}

type lockSum struct{ gen, kill lockset }

func newRace(p *Program) *raceCtx {
	r := &raceCtx{P: p, callees: map[ssa.CallInstruction][]*ssa.Function{}, callers: map[*ssa.Function][]ssa.CallInstruction{}, sums: map[*ssa.Function]*lockSum{}, once: map[*ssa.Function]string{}, after: map[afterKey]map[ssa.Instruction]bool{}}
	r.graph()
	r.findRoots()
	for _, root := range r.roots {
		r.locks(root)
	}
	r.collect()
	return r
}

// graph: who calls whom, with closures handed to code outside the repository
// called where they are handed over, and eviction callbacks where the cache is
// used.
func (r *raceCtx) graph() {
	g := vta.CallGraph(ssautil.AllFunctions(r.P.Prog), nil)
	add := func(in ssa.CallInstruction, f *ssa.Function) {
		if f == nil || len(f.Blocks) == 0 || !r.P.inRepo(f) {
			return
		}
		for _, h := range r.callees[in] {
			if h == f {
				return
			}
		}
		r.callees[in] = append(r.callees[in], f)
		r.callers[f] = append(r.callers[f], in)
	}
	for f, n := range g.Nodes {
		if f == nil || !r.P.inRepo(f) {
			continue
		}
		for _, e := range n.Out {
			if e.Site != nil {
				add(e.Site, e.Callee.Func)
			}
		}
	}
	cb := r.P.lruCallbacks()
	cacheOf := map[*ssa.Function]string{} // where the cache of a callback is kept
	for _, f := range r.P.All {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || ccName(c.Common()) != "lru.NewWithEvict" || len(c.Common().Args) != 2 {
					continue
				}
				h := funcValue(c.Common().Args[1])
				if h == nil {
					continue
				}
				for _, u := range *c.Referrers() {
					e, ok := u.(*ssa.Extract)
					if !ok || e.Index != 0 {
						continue
					}
					for _, w := range *e.Referrers() {
						if st, ok := w.(*ssa.Store); ok && st.Val == ssa.Value(e) {
							if k, _ := r.loc(st.Addr, 0); k != "" {
								cacheOf[h] = k + "[]"
							}
						}
					}
				}
			}
		}
	}
	isCB := map[*ssa.Function]bool{}
	for _, f := range cb {
		isCB[f] = true
	}
	for _, f := range r.P.All {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := c.Common()
				sf := cc.StaticCallee()
				if sf != nil && r.P.inRepo(sf) && len(sf.Blocks) > 0 {
					add(c, sf)
					continue
				}
				name := ccName(cc)
				if strings.HasPrefix(name, "(*lru.Cache).") && !cc.IsInvoke() {
					switch strings.TrimPrefix(name, "(*lru.Cache).") {
					case "Contains", "Get", "Peek", "Len", "Keys", "GetOldest":
						continue // evict nothing
					}
					k, al := r.content(cc.Args[0], 0)
					if al != nil && k == "" {
						if e, ok := soleStore(al).(*ssa.Extract); ok {
							if n, ok := e.Tuple.(*ssa.Call); ok && ccName(n.Common()) == "lru.New" {
								continue // a cache without callback
							}
						}
					}
					for _, h := range cb {
						if of := cacheOf[h]; of == "" || k == "" || of == k {
							add(c, h)
						}
					}
				}
				if _, ok := cc.Value.(*ssa.Builtin); ok {
					continue
				}
				if sf == nil && !cc.IsInvoke() {
					continue // a function value: resolved by the call graph
				}
				for _, a := range cc.Args {
					if h := funcValue(a); h != nil && !isCB[h] {
						add(c, h)
						if name == "(*sync.Once).Do" {
							if k := r.lockName(cc.Args[0]); k != "" {
								r.once[h] = "once:" + k
							}
						}
					}
				}
			}
		}
	}
}

func funcValue(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function)
	case *ssa.Function:
		return x
	case *ssa.ChangeType:
		return funcValue(x.X)
	}
	return nil
}

// findRoots: where execution starts.
func (r *raceCtx) findRoots() {
	byFn := map[*ssa.Function]*raceRoot{}
	add := func(f *ssa.Function, kind string) *raceRoot {
		if x := byFn[f]; x != nil {
			return x
		}
		x := &raceRoot{fn: f, kind: kind}
		byFn[f] = x
		r.roots = append(r.roots, x)
		return x
	}
	iface := func(pkg, name string) *types.Interface {
		sp := r.P.SPkgs[pkg]
		if sp == nil {
			return nil
		}
		if t := sp.Type(name); t != nil {
			i, _ := t.Type().Underlying().(*types.Interface)
			return i
		}
		return nil
	}
	cons, prod, wait := iface("transports", "Consumer"), iface("transports", "Producer"), iface("waiter", "Waiter")
	impl := func(t types.Type, i *types.Interface) bool { return i != nil && types.Implements(t, i) }
	returned := map[*ssa.Function]bool{} // functions handed to the caller
	for _, f := range r.P.All {
		for _, b := range f.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || f.Parent() != nil || !token.IsExported(f.Name()) {
				continue
			}
			for _, v := range ret.Results {
				for _, o := range origins(v) {
					if h := funcValue(o); h != nil {
						returned[h] = true
					}
				}
			}
		}
	}
	for _, f := range r.P.All {
		recv := f.Signature.Recv()
		switch {
		case returned[f]:
			add(f, "owner")
		case f.Parent() != nil:
		case recv == nil:
			if token.IsExported(f.Name()) || f.Name() == "init" {
				add(f, "ctor")
			}
		case !token.IsExported(f.Name()):
		default:
			pt := recv.Type()
			if _, ok := pt.(*types.Pointer); !ok {
				pt = types.NewPointer(pt)
			}
			name := shortType(pt)
			ctx := f.Signature.Params().Len() > 0 && f.Signature.Params().At(0).Type().String() == "context.Context"
			switch {
			case impl(pt, cons) && f.Name() == "Start":
				add(f, "start")
			case impl(pt, cons), impl(pt, wait), ctx:
				add(f, "api")
			case impl(pt, prod) && (f.Name() == "ProducerCount" || f.Name() == "SetHealth"):
				add(f, "api")
			case impl(pt, prod):
				add(f, "owner")
			case (name == "*delivery.PendingBatch" || name == "*delivery.ChainUpdate") && f.Name() == "Done":
				add(f, "api") // by every subscriber
			}
		}
	}
	// an operation on an object created for it is a run of its own
	for in, cs := range r.callees {
		cc := in.Common()
		if len(cs) != 1 || cc.IsInvoke() || len(cc.Args) == 0 || cs[0].Signature.Recv() == nil {
			continue
		}
		x := byFn[cs[0]]
		if x == nil || x.kind != "api" && x.kind != "start" {
			continue
		}
		if r.created(cc.Args[0], 0) {
			delete(r.callees, in)
			var keep []ssa.CallInstruction
			for _, c := range r.callers[cs[0]] {
				if c != in {
					keep = append(keep, c)
				}
			}
			r.callers[cs[0]] = keep
		}
	}
	// goroutines
	for _, f := range r.P.All {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					if c, ok := in.(*ssa.Call); ok && ccName(c.Common()) == "time.AfterFunc" {
						if h := funcValue(c.Common().Args[1]); h != nil {
							add(h, "go").inLoop = true
						}
					}
					continue
				}
				for _, h := range r.callees[g] {
					x := add(h, "go")
					if x.site != nil || x.kind != "go" {
						x.inLoop = true // started at several places
					}
					x.kind = "go"
					x.site = g
					for _, body := range r.P.loops(f) {
						if body[b] {
							x.inLoop = true
						}
					}
				}
			}
		}
	}
	for _, x := range r.roots {
		x.reach = r.reachOf(x.fn)
	}
	// exported functions nothing reaches: called by whoever owns the object
	reached := map[*ssa.Function]bool{}
	for _, x := range r.roots {
		for f := range x.reach {
			reached[f] = true
		}
	}
	for _, f := range r.P.All {
		if !reached[f] && f.Parent() == nil {
			x := add(f, "owner")
			x.reach = r.reachOf(f)
		}
	}
	for _, x := range r.roots {
		if x.site == nil {
			continue
		}
		for _, y := range r.roots {
			if y != x && y.reach[x.site.Parent()] {
				x.spawns = append(x.spawns, y)
			}
		}
	}
	r.kindOf = map[*ssa.Function]string{}
	for _, x := range r.roots {
		r.kindOf[x.fn] = x.kind
	}
	sort.Slice(r.roots, func(i, j int) bool { return r.roots[i].fn.Pos() < r.roots[j].fn.Pos() })
}

// created: the object is created here, or by a helper called for it.
func (r *raceCtx) created(v ssa.Value, depth int) bool {
	if depth > 4 {
		return false
	}
	for _, o := range origins(v) {
		idx := 0
		if e, ok := o.(*ssa.Extract); ok {
			o, idx = e.Tuple, e.Index
		}
		switch x := o.(type) {
		case *ssa.Alloc:
			if _, isPtr := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Pointer); isPtr {
				return false
			}
		case *ssa.Const:
			if !x.IsNil() {
				return false
			}
		case *ssa.Call:
			f := x.Common().StaticCallee()
			if f == nil || len(f.Blocks) == 0 {
				return false
			}
			for _, b := range f.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					if idx >= len(ret.Results) || !r.created(ret.Results[idx], depth+1) {
						return false
					}
				}
			}
		case *ssa.UnOp:
			al := cellAlloc(x.X)
			if al == nil {
				return false
			}
			w := soleStore(al)
			if w == nil || !r.created(w, depth+1) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (r *raceCtx) reachOf(f *ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if out[f] {
			return
		}
		out[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Go); ok {
					continue
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					if ccName(c.Common()) == "time.AfterFunc" {
						continue
					}
					for _, h := range r.callees[c] {
						walk(h)
					}
				}
			}
		}
	}
	walk(f)
	return out
}

// lockName: the field or variable a lock is kept in.
func (r *raceCtx) lockName(v ssa.Value) string {
	if c, a := r.loc(v, 0); c != "" {
		return c
	} else if a != nil {
		return "variable " + a.Comment
	}
	return ""
}

// lockOp: +1 lock, -1 unlock.
func (r *raceCtx) lockOp(cc *ssa.CallCommon) (name string, op int, excl bool) {
	n := ccName(cc)
	if cc.IsInvoke() || len(cc.Args) == 0 {
		return "", 0, false
	}
	switch n {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return r.lockName(cc.Args[0]), 1, true
	case "(*sync.RWMutex).RLock":
		return r.lockName(cc.Args[0]), 1, false
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		return r.lockName(cc.Args[0]), -1, true
	}
	return "", 0, false
}

func (r *raceCtx) apply(in ssa.Instruction, l lockset) lockset {
	c, ok := in.(*ssa.Call)
	if !ok {
		return l
	}
	if n, op, ex := r.lockOp(c.Common()); op != 0 {
		l = l.clone()
		if op > 0 && n != "" {
			l[n] = ex
		} else if op < 0 {
			delete(l, n)
			if n == "" {
				l = lockset{}
			}
		}
		return l
	}
	cs := r.callees[c]
	if len(cs) == 0 {
		return l
	}
	l = l.clone()
	var gen lockset
	for i, f := range cs {
		s := r.summary(f)
		for k := range s.kill {
			delete(l, k)
		}
		if i == 0 {
			gen = s.gen
		} else {
			gen = meet(gen, s.gen)
		}
	}
	for k, v := range gen {
		l[k] = v
	}
	return l
}

// summary: the locks a function leaves held, and those it may release.
func (r *raceCtx) summary(f *ssa.Function) *lockSum {
	if s := r.sums[f]; s != nil {
		return s
	}
	s := &lockSum{gen: lockset{}, kill: lockset{}}
	r.sums[f] = s
	kill := lockset{}
	out := r.flow(f, lockset{}, nil, func(in ssa.Instruction, l lockset) {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		if _, isGo := in.(*ssa.Go); isGo {
			return
		}
		if n, op, _ := r.lockOp(c.Common()); op < 0 {
			if _, held := l[n]; !held {
				kill[n] = true
			}
			return
		}
		for _, h := range r.callees[c] {
			if h == f {
				continue
			}
			for k := range r.summary(h).kill {
				if _, held := l[k]; !held {
					kill[k] = true
				}
			}
		}
	})
	s.gen, s.kill = out, kill
	return s
}

// flow: must-held locks of one function; visit is called with the locks held
// before each instruction. The result is what is held when it returns.
func (r *raceCtx) flow(f *ssa.Function, entry lockset, seen map[ssa.Instruction]lockset, visit func(ssa.Instruction, lockset)) lockset {
	in := map[*ssa.BasicBlock]lockset{f.Blocks[0]: entry}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		l := in[b]
		for _, ins := range b.Instrs {
			l = r.apply(ins, l)
		}
		for _, s := range b.Succs {
			n := l
			if o, ok := in[s]; ok {
				n = meet(o, l)
				if sameLocks(n, o) {
					continue
				}
			}
			in[s] = n
			work = append(work, s)
		}
	}
	// unlocks that are deferred
	deferred := lockset{}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if d, ok := ins.(*ssa.Defer); ok {
				if n, op, _ := r.lockOp(d.Common()); op < 0 {
					deferred[n] = true
				}
				for _, h := range r.callees[d] {
					for k := range r.summary(h).kill {
						deferred[k] = true
					}
				}
			}
		}
	}
	var out lockset
	for _, b := range f.Blocks {
		l, ok := in[b]
		if !ok {
			continue
		}
		for _, ins := range b.Instrs {
			if seen != nil {
				seen[ins] = l
			}
			if visit != nil {
				visit(ins, l)
			}
			l = r.apply(ins, l)
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			e := lockset{}
			for k, v := range l {
				if !deferred[k] {
					e[k] = v
				}
			}
			if out == nil {
				out = e
			} else {
				out = meet(out, e)
			}
		}
	}
	if out == nil {
		out = lockset{}
	}
	return out
}

// locks: the locks held in everything a root reaches.
func (r *raceCtx) locks(root *raceRoot) {
	root.entry = map[*ssa.Function]lockset{root.fn: {}}
	root.held = map[ssa.Instruction]lockset{}
	work := []*ssa.Function{root.fn}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		seen := map[ssa.Instruction]lockset{}
		r.flow(f, root.entry[f], seen, nil)
		for in, l := range seen {
			root.held[in] = l
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Go); ok {
					continue
				}
				c, ok := in.(ssa.CallInstruction)
				if !ok || ccName(c.Common()) == "time.AfterFunc" {
					continue
				}
				l, ok := seen[in]
				if !ok {
					continue
				}
				if d, ok := in.(*ssa.Defer); ok {
					l = r.deferLocks(f, d, seen)
				}
				for _, h := range r.callees[c] {
					n := l
					if k := r.once[h]; k != "" && ccName(c.Common()) == "(*sync.Once).Do" {
						n = l.clone()
						n[k] = true
					}
					if o, ok := root.entry[h]; ok {
						n = meet(o, n)
						if sameLocks(n, o) {
							continue
						}
					}
					root.entry[h] = n
					work = append(work, h)
				}
			}
		}
	}
}

// deferLocks: what is held when a deferred call runs: what is held at every
// return, less what was already released by calls deferred after it.
func (r *raceCtx) deferLocks(f *ssa.Function, d *ssa.Defer, seen map[ssa.Instruction]lockset) lockset {
	var l lockset
	for _, b := range f.Blocks {
		if rd, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if s, ok := seen[rd]; ok {
				if l == nil {
					l = s.clone()
				} else {
					l = meet(l, s)
				}
			}
		}
	}
	if l == nil {
		return lockset{}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if e, ok := in.(*ssa.Defer); ok {
				if n, op, _ := r.lockOp(e.Common()); op < 0 && !before(e, d) {
					delete(l, n)
				}
			}
		}
	}
	return l
}

// before: a is always executed before b when b is.
func before(a, b ssa.Instruction) bool {
	if a.Block() != b.Block() {
		return a.Block().Dominates(b.Block())
	}
	for _, in := range a.Block().Instrs {
		if in == a {
			return a != b
		}
		if in == b {
			return false
		}
	}
	return false
}

var syncedTypes = []string{"sync.", "atomic.", "types.Feed", "event.Feed"}

func synced(t types.Type) bool {
	n := strings.TrimPrefix(shortType(t), "*")
	return hasAnyPrefix(n, syncedTypes)
}

// loc: what an address stands for: a field, a global or element of one (class),
// or a variable.
func (r *raceCtx) loc(v ssa.Value, depth int) (string, *ssa.Alloc) {
	if depth > 12 {
		return "", nil
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return fieldClass(x.X.Type(), x.Field), nil
	case *ssa.Global:
		if x.Pkg != nil && r.P.SPkgs[x.Pkg.Pkg.Name()] == x.Pkg {
			return "variable " + x.Pkg.Pkg.Name() + "." + x.Name(), nil
		}
	case *ssa.Alloc:
		return "", x
	case *ssa.FreeVar:
		if b := bindingOf(x); b != nil {
			return r.loc(b, depth+1)
		}
	case *ssa.Parameter:
		if b := r.argOf(x); b != nil {
			return r.loc(b, depth+1)
		}
	case *ssa.IndexAddr:
		return r.content(x.X, depth+1)
	case *ssa.ChangeType:
		return r.loc(x.X, depth+1)
	case *ssa.UnOp:
		if x.Op == token.MUL { // a pointer kept in a variable that is set once
			if c, a := r.loc(x.X, depth+1); c == "" && a != nil {
				if o := soleStore(a); o != nil {
					return r.loc(o, depth+1)
				}
			}
		}
	}
	return "", nil
}

func soleStore(a *ssa.Alloc) ssa.Value {
	var val ssa.Value
	n := 0
	for _, in := range allUses(a) {
		if st, ok := in.(*ssa.Store); ok {
			if st.Addr == ssa.Value(a) {
				n++
				val = st.Val
			} else if fv, ok := st.Addr.(*ssa.FreeVar); ok && cellAlloc(fv) == a {
				n += 2
			}
		}
	}
	if n == 1 {
		return val
	}
	return nil
}

func cellAlloc(v ssa.Value) *ssa.Alloc {
	for i := 0; i < 10; i++ {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FreeVar:
			v = bindingOf(x)
		default:
			return nil
		}
	}
	return nil
}

// argOf: what a parameter of a function called in one place stands for.
func (r *raceCtx) argOf(p *ssa.Parameter) ssa.Value {
	f := p.Parent()
	cs := r.callers[f]
	if len(cs) != 1 || f.Parent() == nil && token.IsExported(f.Name()) {
		return nil
	}
	cc := cs[0].Common()
	if cc.IsInvoke() {
		return nil
	}
	for i, q := range f.Params {
		if q == p && i < len(cc.Args) && len(cc.Args) == len(f.Params) {
			return cc.Args[i]
		}
	}
	return nil
}

// content: the elements of a map or slice value.
func (r *raceCtx) content(v ssa.Value, depth int) (string, *ssa.Alloc) {
	if depth > 12 {
		return "", nil
	}
	sub := func(c string, a *ssa.Alloc) (string, *ssa.Alloc) {
		if c != "" {
			c += "[]"
		}
		return c, a
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return sub(r.loc(x.X, depth+1))
		}
	case *ssa.FieldAddr:
		return sub(r.loc(x, depth+1))
	case *ssa.Field:
		return fieldClass(x.X.Type(), x.Field) + "[]", nil
	case *ssa.Lookup:
		return sub(r.content(x.X, depth+1))
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Lookup:
			return sub(r.content(t.X, depth+1))
		case *ssa.Next:
			if rg, ok := t.Iter.(*ssa.Range); ok && x.Index == 2 {
				return sub(r.content(rg.X, depth+1))
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != v {
				if c, a := r.content(e, depth+3); c != "" || a != nil {
					return c, a
				}
			}
		}
	case *ssa.Parameter:
		if b := r.argOf(x); b != nil {
			return r.content(b, depth+1)
		}
	case *ssa.FreeVar:
		if b := bindingOf(x); b != nil {
			return r.content(b, depth+1)
		}
	case *ssa.ChangeType:
		return r.content(x.X, depth+1)
	case *ssa.Slice:
		return r.content(x.X, depth+1)
	case *ssa.TypeAssert:
		return r.content(x.X, depth+1)
	case *ssa.Call:
		if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return r.content(x.Common().Args[0], depth+1)
		}
	}
	return "", nil
}

// collect: the accesses of every root.
func (r *raceCtx) collect() {
	captured := map[*ssa.Alloc]bool{}
	for _, f := range r.P.All {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					for _, v := range mc.Bindings {
						if a := cellAlloc(v); a != nil {
							captured[a] = true
						}
					}
				}
				if c, ok := in.(*ssa.Go); ok {
					for _, v := range c.Common().Args {
						if a := cellAlloc(v); a != nil {
							captured[a] = true
						}
					}
				}
			}
		}
	}
	for _, root := range r.roots {
		for f := range root.reach {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					l, ok := root.held[in]
					if !ok {
						continue
					}
					rec := func(c string, a *ssa.Alloc, addr ssa.Value, write, atomic bool) {
						if c == "" && (a == nil || !captured[a]) {
							return
						}
						x := &raceAcc{root: root, fn: f, in: in, class: c, alloc: a, write: write, atomic: atomic, locks: l}
						if c != "" {
							x.alloc = nil
						} else {
							if synced(a.Type().Underlying().(*types.Pointer).Elem()) {
								return
							}
							x.class = "variable " + a.Comment + " of " + fnLabel(a.Parent())
						}
						if fa, ok := addr.(*ssa.FieldAddr); ok {
							for {
								g, ok := fa.X.(*ssa.FieldAddr)
								if !ok {
									break
								}
								fa = g
							}
							if al, ok := fa.X.(*ssa.Alloc); ok {
								x.base = al
							}
							if synced(addr.Type().Underlying().(*types.Pointer).Elem()) {
								return
							}
						}
						r.accs = append(r.accs, x)
					}
					at := func(addr ssa.Value, write, atomic bool) {
						c, a := r.loc(addr, 0)
						rec(c, a, addr, write, atomic)
					}
					in2 := func(v ssa.Value, write bool) {
						c, a := r.content(v, 0)
						if c == "" && a != nil {
							if !captured[a] {
								return
							}
							x := &raceAcc{root: root, fn: f, in: in, alloc: a, write: write, locks: l}
							x.class = "contents of variable " + a.Comment + " of " + fnLabel(a.Parent())
							r.accs = append(r.accs, x)
							return
						}
						rec(c, nil, nil, write, false)
					}
					switch x := in.(type) {
					case *ssa.Store:
						at(x.Addr, true, false)
					case *ssa.UnOp:
						if x.Op == token.MUL {
							at(x.X, false, false)
						}
					case *ssa.MapUpdate:
						in2(x.Map, true)
					case *ssa.Lookup:
						if _, ok := x.X.Type().Underlying().(*types.Map); ok {
							in2(x.X, false)
						}
					case *ssa.Range:
						if _, ok := x.X.Type().Underlying().(*types.Map); ok {
							in2(x.X, false)
						}
					case *ssa.Next:
						if rg, ok := x.Iter.(*ssa.Range); ok && !x.IsString {
							in2(rg.X, false)
						}
					}
					if c, ok := in.(ssa.CallInstruction); ok {
						r.callAccs(c, at, in2)
					}
				}
			}
		}
	}
}

func (r *raceCtx) callAccs(c ssa.CallInstruction, at func(ssa.Value, bool, bool), in2 func(ssa.Value, bool)) {
	cc := c.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "delete", "clear", "append", "copy":
			if b.Name() != "append" || len(cc.Args) > 1 {
				in2(cc.Args[0], true)
			}
		case "len":
			if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
				in2(cc.Args[0], false)
			}
		}
		return
	}
	name := ccName(cc)
	if strings.HasPrefix(name, "atomic.") && len(cc.Args) > 0 {
		at(cc.Args[0], !strings.HasPrefix(name, "atomic.Load"), true)
		return
	}
	if len(r.callees[c]) > 0 {
		return
	}
	if cc.IsInvoke() {
		return
	}
	for i, a := range cc.Args {
		if i == 0 && cc.Signature().Recv() != nil {
			if p, ok := a.Type().Underlying().(*types.Pointer); ok && synced(p.Elem()) {
				continue
			}
		}
		if mi, ok := a.(*ssa.MakeInterface); ok {
			a = mi.X
		}
		switch a.(type) {
		case *ssa.FieldAddr, *ssa.Alloc, *ssa.FreeVar:
			if p, ok := a.Type().Underlying().(*types.Pointer); ok && !synced(p.Elem()) {
				at(a, true, false)
			}
		}
	}
}

type afterKey struct {
	root *raceRoot
	g    *ssa.Go
	stop *ssa.Function // creates what is shared: another call of it creates another
}

// afterGo: the instructions of a root that may run once a goroutine it starts
// at g was started.
func (r *raceCtx) afterGo(root *raceRoot, g *ssa.Go, stop *ssa.Function) map[ssa.Instruction]bool {
	key := afterKey{root, g, stop}
	if m := r.after[key]; m != nil {
		return m
	}
	out := map[ssa.Instruction]bool{}
	var whole func(f *ssa.Function)
	mark := func(in ssa.Instruction) {
		out[in] = true
		if _, ok := in.(*ssa.Go); ok {
			return
		}
		if c, ok := in.(ssa.CallInstruction); ok {
			for _, h := range r.callees[c] {
				whole(h)
			}
		}
	}
	done := map[*ssa.Function]bool{}
	whole = func(f *ssa.Function) {
		if done[f] {
			return
		}
		done[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mark(in)
			}
		}
	}
	climbed := map[ssa.Instruction]bool{}
	var from func(at ssa.Instruction)
	from = func(at ssa.Instruction) {
		if climbed[at] {
			return
		}
		climbed[at] = true
		f := at.Parent()
		// deferred calls run at the end
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if d, ok := in.(*ssa.Defer); ok {
					mark(d)
				}
			}
		}
		past := false
		for _, in := range at.Block().Instrs {
			if past {
				mark(in)
			}
			if in == at {
				past = true
			}
		}
		seen := map[*ssa.BasicBlock]bool{}
		var walk func(b *ssa.BasicBlock)
		walk = func(b *ssa.BasicBlock) {
			if seen[b] {
				return
			}
			seen[b] = true
			for _, in := range b.Instrs {
				mark(in)
			}
			for _, s := range b.Succs {
				walk(s)
			}
		}
		for _, s := range at.Block().Succs {
			walk(s)
		}
		if f == root.fn || f == stop {
			return
		}
		for _, c := range r.callers[f] {
			if _, ok := c.(*ssa.Go); ok || !root.reach[c.Parent()] {
				continue
			}
			from(c)
		}
	}
	from(g)
	r.after[key] = out
	return out
}

// chain: the go statements by which goroutine x comes from root, if it does.
func (r *raceCtx) chain(x, root *raceRoot, depth int) (first *ssa.Go, hops []*raceRoot) {
	if depth > 6 || x.site == nil {
		return nil, nil
	}
	for _, y := range x.spawns {
		if y == root {
			return x.site, []*raceRoot{x}
		}
	}
	for _, y := range x.spawns {
		if y == x {
			continue
		}
		if g, h := r.chain(y, root, depth+1); g != nil {
			return g, append(h, x)
		}
	}
	return nil, nil
}

// many: several instances of the root may run at the same time and touch the
// same variable (alloc), or the same object of the type a field belongs to.
func (r *raceCtx) many(x *raceRoot, alloc *ssa.Alloc, class string, depth int) bool {
	if depth > 6 {
		return true
	}
	if alloc != nil && x.reach[alloc.Parent()] && !r.multi1(x, alloc) {
		return false // every instance has its own
	}
	switch x.kind {
	case "api":
		return true
	case "owner":
		return false
	case "start":
		// once per object, but several objects may share what they refer to
		return alloc == nil && !r.owns(x.fn, class)
	case "go":
		if r.multi1(x, alloc) {
			return true
		}
		if alloc == nil && x.site != nil {
			f := outermost(x.site.Parent())
			if k := r.kindOf[f]; (k == "start" || k == "owner" || k == "ctor") && r.owns(f, class) {
				return false
			}
		}
		for _, y := range x.spawns {
			if y.kind == "ctor" {
				continue
			}
			if r.many(y, alloc, class, depth+1) {
				return true
			}
		}
	}
	return false
}

// owns: the fields of the class are part of the object a method is called on.
func (r *raceCtx) owns(f *ssa.Function, class string) bool {
	recv := f.Signature.Recv()
	if recv == nil {
		return true
	}
	t := recv.Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	var part func(t types.Type, depth int) bool
	part = func(t types.Type, depth int) bool {
		n, ok := t.(*types.Named)
		if !ok || depth > 4 {
			return false
		}
		if strings.HasPrefix(class, shortType(n)+".") {
			return true
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			return false
		}
		for i := 0; i < st.NumFields(); i++ {
			if part(st.Field(i).Type(), depth+1) {
				return true
			}
		}
		return false
	}
	return part(t, 0)
}

// multi1: the goroutine is started in a loop that does not create the variable.
func (r *raceCtx) multi1(x *raceRoot, alloc *ssa.Alloc) bool {
	if x.kind != "go" {
		return false
	}
	if x.site == nil {
		return true
	}
	if alloc != nil && x.reach[alloc.Parent()] {
		return false
	}
	if alloc == nil {
		return x.inLoop
	}
	f := x.site.Parent()
	for _, body := range r.P.loops(f) {
		if body[x.site.Block()] && !(alloc.Parent() == f && body[alloc.Block()]) {
			return true
		}
	}
	return false
}

// apart: the two accesses never happen at the same time.
func (r *raceCtx) apart(a, b *raceAcc) bool {
	ra, rb := a.root, b.root
	alloc := a.alloc
	if ra == rb {
		return a.base != nil || b.base != nil || !r.many(ra, alloc, a.class, 0)
	}
	owner := func(p *raceAcc) *ssa.Function { // creates what p touches
		if p.alloc != nil {
			return p.alloc.Parent()
		}
		if p.base != nil {
			return p.base.Parent()
		}
		return nil
	}
	kin := func(p, q *raceAcc) (bool, bool) { // q's goroutine comes from p's root
		g, _ := r.chain(q.root, p.root, 0)
		if g == nil {
			return false, false
		}
		stop := owner(p)
		if stop == nil {
			f := outermost(g.Parent())
			if f.Signature.Recv() != nil && r.owns(f, p.class) {
				stop = f // another call is for another object
			}
		}
		if r.afterGo(p.root, g, stop)[p.in] {
			return true, false
		}
		return true, stop != nil && p.root.reach[stop] || !r.many(p.root, alloc, p.class, 0)
	}
	// an object created by the goroutine is not known outside
	if g, _ := r.chain(rb, ra, 0); g != nil && b.base != nil {
		return true
	}
	if g, _ := r.chain(ra, rb, 0); g != nil && a.base != nil {
		return true
	}
	if r.joined(a, b) || r.joined(b, a) {
		return true
	}
	if k, ok := kin(a, b); k {
		return ok
	}
	if k, ok := kin(b, a); k {
		return ok
	}
	// nobody else knows an object yet while it is created
	if a.base != nil || b.base != nil {
		return true
	}
	serial := func(k string) bool { return k == "owner" || k == "start" }
	switch {
	case ra.kind == "ctor" || rb.kind == "ctor":
		return true
	case serial(ra.kind) && ra.kind == rb.kind:
		return true
	case alloc != nil && ra.reach[alloc.Parent()] && rb.reach[alloc.Parent()]:
		return true // each run of the function has its own
	}
	return false
}

func outermost(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

// joined: b waits for a wait group that a's goroutine leaves once a is over.
func (r *raceCtx) joined(a, b *raceAcc) bool {
	if a.fn != a.root.fn || b.fn != b.root.fn {
		return false
	}
	group := func(cc *ssa.CallCommon, m string) *ssa.Alloc {
		if ccName(cc) != "(*sync.WaitGroup)."+m {
			return nil
		}
		_, al := r.loc(cc.Args[0], 0)
		return al
	}
	for _, blk := range b.fn.Blocks {
		for _, in := range blk.Instrs {
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW && before(in, b.in) {
				if mc, ok := originOf(cellOf(u.X)).(*ssa.MakeChan); ok && r.signalled(mc, a) {
					return true
				}
			}
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			w := group(c.Common(), "Wait")
			if w == nil || !before(c, b.in) {
				continue
			}
			adds, dones := 0, []ssa.CallInstruction{}
			for _, f := range r.P.All {
				for _, fb := range f.Blocks {
					for _, fi := range fb.Instrs {
						fc, ok := fi.(ssa.CallInstruction)
						if !ok {
							continue
						}
						if group(fc.Common(), "Add") == w {
							adds++
							if !isConstInt(fc.Common().Args[1], 1) {
								adds++
							}
							for _, body := range r.P.loops(f) {
								if body[fb] && !(w.Parent() == f && body[w.Block()]) {
									adds++
								}
							}
						}
						if group(fc.Common(), "Done") == w {
							dones = append(dones, fc)
						}
					}
				}
			}
			if adds != 1 || len(dones) != 1 || dones[0].Parent() != a.fn {
				continue
			}
			if _, ok := dones[0].(*ssa.Defer); ok || !r.follows(dones[0], a.in) {
				return true
			}
		}
	}
	return false
}

// signalled: the channel is closed or sent on in one place only, by a's
// goroutine once a is over.
func (r *raceCtx) signalled(mc *ssa.MakeChan, a *raceAcc) bool {
	n := 0
	ok := true
	is := func(v ssa.Value) bool { return originOf(cellOf(v)) == ssa.Value(mc) }
	for _, f := range r.P.All {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Send:
					if !is(x.Chan) {
						continue
					}
				case *ssa.Select:
					hit := false
					for _, st := range x.States {
						hit = hit || st.Dir == types.SendOnly && is(st.Chan)
					}
					if !hit {
						continue
					}
				case ssa.CallInstruction:
					bi, isB := x.Common().Value.(*ssa.Builtin)
					if !isB || bi.Name() != "close" || !is(x.Common().Args[0]) {
						continue
					}
				default:
					continue
				}
				n++
				_, deferred := in.(*ssa.Defer)
				ok = ok && f == a.fn && (deferred || !r.follows(in, a.in))
			}
		}
	}
	return ok && n == 1
}

// follows: b may be executed after a in the same run of their function.
func (r *raceCtx) follows(a, b ssa.Instruction) bool {
	past := false
	for _, in := range a.Block().Instrs {
		if past && in == b {
			return true
		}
		if in == a {
			past = true
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if x == b.Block() {
			return true
		}
		for _, s := range x.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	for _, s := range a.Block().Succs {
		if walk(s) {
			return true
		}
	}
	return false
}

func protects(a, b lockset) bool {
	for k, v := range a {
		if w, ok := b[k]; ok && (v || w) {
			return true
		}
	}
	return false
}

// handedOver: types whose objects belong to whoever received them.
var handedOver = []string{"delivery.PendingBatch.", "delivery.ChainUpdate.", "delivery.Waiter.", "delivery.resumptionMessage.", "delivery.Batch.", "delivery.BatchRecord.", "delivery.SubBatchRecord.", "delivery.message.", "delivery.batchInfo.",
	"transports.resultMessage.", "transports.TransportBatch.", "transports.transportSubbatch.", "transports.KafkaResumptionMessage.", "struct."}

func (r *raceCtx) relevant(a *raceAcc) bool {
	if a.alloc != nil || strings.HasPrefix(a.class, "variable ") {
		return true
	}
	c := a.class
	if hasAnyPrefix(c, []string{"delivery.PendingBatch.", "delivery.ChainUpdate."}) {
		return a.root.kind == "api" && a.root.fn.Signature.Recv() != nil && hasAnyPrefix(strings.TrimPrefix(shortType(a.root.fn.Signature.Recv().Type()), "*"), []string{"delivery.PendingBatch", "delivery.ChainUpdate"})
	}
	if hasAnyPrefix(c, handedOver) {
		return false
	}
	return hasAnyPrefix(c, []string{"delivery.", "transports.", "waiter."})
}

func init() {
	register("T10", func(c *Ctx) {
		c.Explain = "interprocedural lockset analysis: every pair of accesses to shared state from code that may run at the same time"
		r := newRace(c.P)
		by := map[string][]*raceAcc{}
		for _, a := range r.accs {
			if r.relevant(a) {
				k := a.class
				if a.alloc != nil {
					k = fmt.Sprintf("%s@%d", k, a.alloc.Pos())
				}
				by[k] = append(by[k], a)
			}
		}
		var keys []string
		for k := range by {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		debug := os.Getenv("CHK_RACE") != ""
		pairs := 0
		for _, k := range keys {
			as := by[k]
			sort.SliceStable(as, func(i, j int) bool {
				if as[i].in.Pos() != as[j].in.Pos() {
					return as[i].in.Pos() < as[j].in.Pos()
				}
				return as[i].root.fn.Pos() < as[j].root.fn.Pos()
			})
			class := strings.ReplaceAll(as[0].class, " ", "_")
			for i, a := range as {
				c.Oblige("shared", class+":"+a.root.label(), a.in.Pos(), true, nil, "")
				for _, b := range as[i:] {
					if !a.write && !b.write {
						continue
					}
					pairs++
					if a.atomic && b.atomic || protects(a.locks, b.locks) || r.apart(a, b) {
						continue
					}
					if debug {
						fmt.Printf("RACE %s\n   %s in %s by %s holding %v\n   %s in %s by %s holding %v\n", a.class, c.P.where(a.in.Pos()), fnLabel(a.fn), a.root, a.locks, c.P.where(b.in.Pos()), fnLabel(b.fn), b.root, b.locks)
					}
					for _, p := range [][2]*raceAcc{{a, b}, {b, a}} {
						x, y := p[0], p[1]
						if x.root.kind != "api" && y.root.kind == "api" {
							continue // reported for the operation
						}
						verb := "read"
						if x.write {
							verb = "changed"
						}
						other := "reads"
						if y.write {
							other = "changes"
						}
						c.Oblige("shared", class+":"+x.root.label(), x.in.Pos(), false, nil, "%s is %s in %s by %s holding %v, while %s %s it in %s (%s) holding %v", x.class, verb, fnLabel(x.fn), x.root, x.locks, y.root, other, fnLabel(y.fn), c.P.where(y.in.Pos()), y.locks)
					}
				}
			}
		}
		n := map[string]int{}
		for _, x := range r.roots {
			n[x.kind]++
			for f := range x.reach {
				c.Funcs[calleeName(f)] = true
			}
		}
		c.Notes = append(c.Notes, fmt.Sprintf("%d shared locations, %d pairs of accesses; started from %d goroutines, %d operations callable from anywhere, %d operations of an owner", len(keys), pairs, n["go"], n["api"], n["start"]+n["owner"]))
		c.Min("shared", 60)
	})
}

// label names a root the same way for every implementation of an operation.
func (r *raceRoot) label() string {
	if r.kind == "go" {
		return "goroutine(" + fnLabel(outermost(r.fn)) + ")"
	}
	return outermost(r.fn).Name()
}
