package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type EvKind int

const (
	EvStore EvKind = iota
	EvMapUpdate
	EvMapDelete
	EvCall
	EvSend
	EvRecv
	EvGo
	EvClose
	EvReturn
	EvPanic
	EvLoad
	EvIndex
	EvSlice
	EvMakeSlice
	EvAssert
	EvDeref
	EvLookup
	EvRangeStart
	EvRangeKey
	EvRangeDone
	EvLoopBack
	EvLoopExit
	EvBranch
	EvBlock
	EvDefer
	EvEnter
	EvLeave
	EvExit // root exit (return)
	EvMakeClosure
	EvSelDefault
)

type Event struct {
	Kind     EvKind
	Pos      token.Pos
	Fn       *ssa.Function
	Ctx      *Ctxt
	Instr    ssa.Instruction
	Callee   string
	CalleeF  *ssa.Function
	Recv     *Term
	Args     []*Term
	Res      *Term // result term (tuple for multi)
	Addr     *Term
	Map      *Term
	Key      *Term
	Val      *Term
	Chan     *Term
	Select   bool
	Blocking bool
	Hdr      *ssa.BasicBlock
	Deferred bool
	Repo     bool // opaque call into the repository (recursion)
	Depth    int
}

// Monitor is a typestate automaton run along every abstract path.
type Monitor interface {
	Event(x *Exec, ev *Event)
}

// Exec is the view a monitor has of the current abstract state.
type Exec struct {
	E *Engine
	S *State
}

func (x *Exec) MS() *MS { return x.S.mon }

// Read gives the current value of a location term (ld / at).
func (x *Exec) Read(t *Term) *Term {
	if v, ok := x.S.mem[t]; ok {
		return v
	}
	return t
}

type Engine struct {
	extraFV    map[*Term]ssa.Value // variables of enclosing functions that only called closures capture
	P          *Program
	Root       *ssa.Function
	deferAt    ssa.Instruction // the defer statement that runs
	owned      map[*ssa.Alloc]bool
	Mon        Monitor
	States     int
	Steps      int
	Visited    map[stKey]bool
	ctxs       map[string]*Ctxt
	nctx       int
	vids       map[ssa.Value]int
	MaxSteps   int
	Overflow   bool
	work       []*State
	NoInline   func(fn *ssa.Function) bool
	MaxDepth   int
	Funcs      map[*ssa.Function]bool // functions whose bodies were analysed
	Events     int
	Exits      int
	Branches   int
	KeepLoads  bool
	Calls      map[string]int
	initState  func(e *Engine, s *State)
	lastExists map[*Term]map[*Term]bool
	C          *Ctx
	irrelevant func(*Term) bool
	pureRepo   map[string]bool
	phiSrc     map[*Term]map[*Term]bool
	mapSite    map[*Term]ssa.Instruction
	hist       map[string]int
	forallOf   map[string]bool
	vw         *view
	histF      map[string]map[string]int
}

func (e *Engine) dumpHist() {
	type kv struct {
		k string
		n int
	}
	var l []kv
	for k, n := range e.hist {
		l = append(l, kv{k, n})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
	for i, x := range l {
		fmt.Fprintf(os.Stderr, "%7d %s\n", x.n, x.k)
		if i < 2 {
			var m []kv
			for k, n := range e.histF[x.k] {
				if n < x.n {
					m = append(m, kv{k, n})
				}
			}
			sort.Slice(m, func(i, j int) bool { return m[i].n > m[j].n })
			for j, y := range m {
				if j > 50 {
					break
				}
				if len(y.k) > 220 {
					y.k = y.k[:220]
				}
				fmt.Fprintf(os.Stderr, "        %7d %s\n", y.n, y.k)
			}
		}
		if i > 25 {
			break
		}
	}
}

func NewEngine(p *Program, root *ssa.Function, mon Monitor) *Engine {
	return &Engine{P: p, Root: root, Mon: mon, Visited: map[stKey]bool{}, ctxs: map[string]*Ctxt{}, vids: map[ssa.Value]int{}, MaxSteps: 400000, MaxDepth: 14, Funcs: map[*ssa.Function]bool{}, Calls: map[string]int{}}
}

func (e *Engine) valID(v ssa.Value) int {
	if i, ok := e.vids[v]; ok {
		return i
	}
	e.vids[v] = len(e.vids) + 1
	return len(e.vids)
}

func (e *Engine) ctx(parent *Ctxt, site ssa.Instruction, fn *ssa.Function) *Ctxt {
	k := fmt.Sprintf("%p/%p/%p", parent, site, fn)
	if c, ok := e.ctxs[k]; ok {
		return c
	}
	e.nctx++
	c := &Ctxt{id: e.nctx, parent: parent, site: site, fn: fn}
	e.ctxs[k] = c
	return c
}

// ---------- driver ----------

func (e *Engine) Run() {
	root := e.Root
	s := &State{facts: map[*Term]bool{}, mem: map[*Term]*Term{}, fresh: map[*Term]bool{}, esc: map[*Term]bool{}, loops: map[loopKey]*loopState{}, mon: NewMS()}
	fr := &Frame{fn: root, ctx: e.ctx(nil, nil, root), env: map[ssa.Value]*Term{}, block: root.Blocks[0]}
	for i, p := range root.Params {
		fr.env[p] = mkParam("param", p.Name(), p.Type())
		_ = i
	}
	fvs := map[string]int{}
	for _, v := range root.FreeVars {
		n := v.Name()
		fvs[n]++
		if k := fvs[n]; k > 1 { // shadowed variables of the same name
			n = fmt.Sprintf("%s#%d", n, k)
		}
		fr.env[v] = mkParam("fv", n, v.Type())
	}
	s.frames = []*Frame{fr}
	e.Funcs[root] = true
	if e.initState != nil {
		e.initState(e, s)
	}
	e.work = []*State{s}
	for len(e.work) > 0 {
		s := e.work[len(e.work)-1]
		e.work = e.work[:len(e.work)-1]
		e.exec(s)
		if e.Overflow {
			return
		}
	}
}

func (e *Engine) emit(s *State, ev *Event) {
	if len(s.frames) > 0 {
		fr := s.top()
		if ev.Fn == nil {
			ev.Fn = fr.fn
		}
		ev.Ctx = fr.ctx
		ev.Depth = len(s.frames)
	}
	if ev.Instr != nil && ev.Pos == token.NoPos {
		ev.Pos = e.P.pos(ev.Instr)
	}
	e.Events++
	e.Mon.Event(&Exec{E: e, S: s}, ev)
}

// loopKeys: the current keys of the running range loops over containers whose
// elements are quantified over; facts about them become quantified facts.
func (e *Engine) loopKeys(s *State) []*Term {
	var out []*Term
	for lk := range s.loops {
		for _, fr := range s.frames {
			if fr.ctx != lk.ctx {
				continue
			}
			li := e.P.loopInfo(fr.fn, lk.hdr)
			if li.rangeNext == nil {
				continue
			}
			it := fr.env[li.rangeNext.Iter]
			if it == nil || it.Op != "range" {
				continue
			}
			if e.forallOf != nil {
				cl, _, _ := (&Exec{E: e, S: s}).class(it.Args[0])
				if !e.forallOf[cl] {
					continue
				}
			}
			out = append(out, mk("rkey", e.site(fr, li.rangeNext), nil))
		}
	}
	return out
}

// seen dedupes a state at a control point; true when already explored.
func (e *Engine) seen(s *State) bool {
	s.gc(e.irrelevant, e.loopKeys(s))
	k := s.key(e)
	if e.Visited[k] {
		return true
	}
	e.Visited[k] = true
	e.States++
	if e.hist != nil {
		n := fmt.Sprintf("%s.%d@%d", s.top().fn.Name(), s.top().block.Index, s.top().ctx.id)
		e.hist[n]++
		fh := e.histF[n]
		if fh == nil {
			fh = map[string]int{}
			e.histF[n] = fh
		}
		for f, v := range s.facts {
			fh[fmt.Sprintf("F %v=%v", f, v)]++
		}
		for f, v := range s.mem {
			fh[fmt.Sprintf("M %v=%v", f, v)]++
		}
		for f, v := range s.mon.F {
			fh[fmt.Sprintf("S %v=%v", f, v)]++
		}
		for l, st := range s.loops {
			for c, ps := range st.preds {
				for p := range ps {
					fh[fmt.Sprintf("L %d.%d %v: %v", l.ctx.id, l.hdr.Index, c, p)]++
				}
			}
		}
		for v, t := range s.top().env {
			fh[fmt.Sprintf("E %s=%v", v.Name(), t)]++
		}
	}
	if e.States%20000 == 0 && os.Getenv("CHK_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "states %d steps %d work %d top %s.%d facts %d mem %d frames %d\n", e.States, e.Steps, len(e.work), s.top().fn, s.top().block.Index, len(s.facts), len(s.mem), len(s.frames))
		if os.Getenv("CHK_DEBUG") == "2" {
			for f, v := range s.facts {
				fmt.Fprintln(os.Stderr, "   fact", f, v)
			}
			for f, v := range s.mem {
				fmt.Fprintln(os.Stderr, "   mem", f, "=", v)
			}
			for k, v := range s.mon.F {
				fmt.Fprintln(os.Stderr, "   mon", k, "=", v)
			}
		}
	}
	return false
}

func (e *Engine) exec(s *State) {
	for {
		fr := s.top()
		if fr.idx >= len(fr.block.Instrs) {
			return
		}
		in := fr.block.Instrs[fr.idx]
		e.Steps++
		if e.Steps > e.MaxSteps*10 || e.States > e.MaxSteps {
			e.Overflow = true
			return
		}
		if !e.step(s, in) {
			return
		}
		if s.dead {
			return
		}
	}
}

func (e *Engine) site(fr *Frame, in ssa.Instruction) string {
	p := e.P.Fset.Position(e.P.pos(in))
	return fmt.Sprintf("%d/%p~%s:%d", fr.ctx.id, in, shortFile(p.Filename), p.Line)
}

func shortFile(f string) string {
	if i := strings.LastIndex(f, "/"); i >= 0 {
		return f[i+1:]
	}
	return f
}

func (e *Engine) val(s *State, v ssa.Value) *Term {
	fr := s.top()
	switch c := v.(type) {
	case *ssa.Const:
		return cVal(c.Value, c.Type())
	case *ssa.Global:
		return mk("global", c.Pkg.Pkg.Name()+"."+c.Name(), c.Type())
	case *ssa.Function:
		e.P.fnByName[c.String()] = c
		return mk("func", c.String(), c.Type())
	case *ssa.Builtin:
		return mk("func", "builtin "+c.Name(), nil)
	}
	if t, ok := fr.env[v]; ok {
		return t
	}
	return mk("junk", "undef", v.Type())
}

func (e *Engine) set(s *State, v ssa.Value, t *Term) { s.top().env[v] = t }

// fork pushes a copy of the state.
func (e *Engine) push(s *State) { e.work = append(e.work, s) }

// jump moves to block b.
func (e *Engine) jump(s *State, b *ssa.BasicBlock) bool {
	fr := s.top()
	from := fr.block
	li := e.P.loops(fr.fn)
	// a boolean carried around a loop is decided first, so that what it means
	// is not lost
	if body, ok := li[b]; ok && body[from] {
		for _, in := range b.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if !isBoolType(p.Type()) {
				continue
			}
			v := e.val(s, p.Edges[predIndex(b, from)])
			if _, known := s.Query(v); known || v.Op == "phi" || v.Op == "opq" {
				continue
			}
			d := s.clone()
			if d.Assume(v, false) && e.jump(d, b) {
				e.push(d)
			}
			if !s.Assume(v, true) {
				return false
			}
		}
	}
	// loop exits
	for h, body := range li {
		if body[from] && !body[b] {
			k := loopKey{fr.ctx, h}
			if _, ok := s.loops[k]; ok {
				if from != h {
					e.iterPreds(s, fr, h)
					e.addExists(s)
				}
				e.emit(s, &Event{Kind: EvLoopExit, Hdr: h, Instr: from.Instrs[len(from.Instrs)-1]})
				delete(s.loops, k)
			}
		}
	}
	back := false
	if body, ok := li[b]; ok {
		if body[from] {
			back = true
			e.backEdge(s, b)
			if s.dead {
				return false
			}
		} else {
			ls := &loopState{preds: map[*Term]map[*Term]bool{}, snap: map[*Term]*Term{}}
			for k, v := range s.mem {
				ls.snap[k] = v
			}
			s.loops[loopKey{fr.ctx, b}] = ls
		}
	}
	// phis
	pi := predIndex(b, from)
	var phis []*ssa.Phi
	var vals []*Term
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := e.val(s, p.Edges[pi])
		if back && isBoolType(p.Type()) {
			if t, known := s.Query(v); known {
				v = cBool(t)
			}
		}
		phis = append(phis, p)
		vals = append(vals, v)
	}
	if back {
		// All change at once: values computed from values that change here are
		// renamed, those built from others first; then the changing names are
		// given up, then the new values get them.
		order := make([]int, len(phis))
		for i := range order {
			order[i] = i
		}
		sort.SliceStable(order, func(i, j int) bool { return vals[order[i]].id > vals[order[j]].id })
		type change struct {
			i      int
			ph     *Term
			rename bool
			tmp    *Term
			full   bool
			lo     int64
			hl     bool
		}
		var chs []*change
		for _, i := range order {
			p := phis[i]
			v := vals[i]
			if _, isb := v.Bool(); isb || v == fr.env[p] || v.IsNil() {
				continue
			}
			ph := mk("phi", e.site(fr, p), p.Type())
			if v == ph {
				continue
			}
			if _, isStr := v.Str(); isStr {
				n := 0
				for o := range e.phiSrc[ph] {
					if o.IsConst() && o != v {
						n++
					}
				}
				if n < 4 {
					e.notePhi(ph, v)
					continue
				}
			}
			chs = append(chs, &change{i: i, ph: ph})
		}
		for _, c := range chs {
			v := vals[c.i]
			p := phis[c.i]
			c.full = s.nonEmpty(v)
			lo, _, hl, _, _ := s.bounds(v)
			if !hl {
				if b, k := linear(v); b != nil && k != 0 {
					if l, _, h, _, _ := s.bounds(b); h {
						lo, hl = l+k, true
					}
				}
			}
			c.lo, c.hl = lo, hl
			for _, d := range chs {
				if v.leafs[d.ph] && !v.junk {
					c.rename = true
				}
			}
			if !c.rename {
				continue
			}
			e.notePhi(c.ph, v)
			c.tmp = mk("opq", fmt.Sprintf("tmpphi%d", c.i), p.Type())
			if bb, kv := linear(v); bb == c.ph && isIntType(c.ph.Typ) {
				for _, k := range s.mon.Keys("lin:") {
					if b2, k2 := linear(s.mon.F[k]); b2 == c.ph {
						s.mon.Set(k, mkLinear(c.tmp, k2-kv, c.ph.Typ))
					}
				}
			}
			tmp := c.tmp
			s.subst(func(x *Term) *Term {
				if x == v {
					return tmp
				}
				return nil
			})
			for _, d := range chs {
				if d.tmp == nil {
					vals[d.i] = e.val(s, phis[d.i].Edges[pi])
				}
			}
		}
		for _, c := range chs {
			s.redefine(c.ph)
		}
		for _, c := range chs {
			if !c.rename {
				continue
			}
			tmp, ph := c.tmp, c.ph
			s.subst(func(x *Term) *Term {
				if x == tmp {
					return ph
				}
				return nil
			})
			if c.full {
				s.facts[atomLt(mkLen(ph), cInt(1))] = false
			}
			if c.hl && isIntType(ph.Typ) {
				lo := c.lo
				if lo > 1 {
					lo = 1
				}
				if lo >= 0 {
					s.facts[atomLt(ph, cInt(lo))] = false
				}
			}
			vals[c.i] = ph
		}
		for _, c := range chs {
			if !c.rename {
				e.generalise(s, e.val(s, phis[c.i].Edges[pi]), c.ph)
				vals[c.i] = c.ph
			}
		}
	}
	for i, p := range phis {
		fr.env[p] = vals[i]
	}
	if back {
		s.mon.normLin()
	}
	fr.prev = from
	fr.block = b
	fr.idx = len(phis)
	live := e.P.liveIn(fr.fn, b)
	for v := range fr.env {
		if !live[v] {
			if p, ok := v.(*ssa.Phi); ok && p.Block() == b {
				continue
			}
			delete(fr.env, v)
		}
	}
	if len(b.Preds) > 1 || back {
		if e.seen(s) {
			return false
		}
	}
	return true
}

func predIndex(b, from *ssa.BasicBlock) int {
	pi := -1
	for i, p := range b.Preds {
		if p == from {
			pi = i
		}
	}
	return pi
}

// generalise: ph becomes a name for value v. Facts about v carry over.
func (e *Engine) generalise(s *State, v, ph *Term) {
	e.notePhi(ph, v)
	if v.junk {
		return
	}
	memo := map[*Term]*Term{}
	f := func(x *Term) *Term {
		if x == v {
			return ph
		}
		return nil
	}
	if !v.IsConst() {
		add := map[*Term]bool{}
		for a, p := range s.facts {
			if a.Contains(v) {
				n := substF(a, f, memo)
				if !n.junk {
					if b, q, ok := recanonFact(n, p); ok {
						add[b] = q
					}
				}
			}
		}
		for a, p := range add {
			if _, ok := s.facts[a]; !ok {
				s.facts[a] = p
			}
		}
		if nonNilOp(v) {
			s.facts[atomEq(ph, cNil())] = false
		}
	}
	if s.nonEmpty(v) {
		s.facts[atomLt(mkLen(ph), cInt(1))] = false
	}
	if isIntType(ph.Typ) {
		lo, _, hl, _, _ := s.bounds(v)
		if !hl {
			b, k := linear(v)
			if b != nil && k != 0 {
				if l, _, h, _, _ := s.bounds(b); h {
					lo, hl = l+k, true
				}
			}
		}
		if hl {
			if lo > 1 {
				lo = 1
			}
			if lo >= 0 {
				s.facts[atomLt(ph, cInt(lo))] = false
			}
		}
	}
	if c, ok := v.Int(); ok && isIntType(ph.Typ) {
		// other expressions of the same number
		for _, k := range s.mon.Keys("lin:") {
			t := s.mon.F[k]
			if n, ok := t.Int(); ok {
				s.mon.Set(fmt.Sprintf("%s+%d", k, ph.id), mkLinear(ph, n-c, ph.Typ))
			}
		}
	}
	for k, t := range s.mon.F {
		if v.IsConst() {
			if strings.HasPrefix(k, "lin:") {
				continue
			}
			if t == v {
				s.mon.F[k] = ph
			}
		} else if t.Contains(v) {
			s.mon.F[k] = substF(t, f, memo)
		}
	}
	for k, t := range s.mem {
		if !v.IsConst() && t.Contains(v) && !k.Contains(v) {
			s.mem[k] = substF(t, f, memo)
		}
	}
}

// backEdge: control returns to loop header h; called before phis change.
func (e *Engine) backEdge(s *State, h *ssa.BasicBlock) {
	fr := s.top()
	ls := s.loops[loopKey{fr.ctx, h}]
	e.emit(s, &Event{Kind: EvLoopBack, Hdr: h, Instr: fr.block.Instrs[len(fr.block.Instrs)-1]})
	if ls == nil {
		return
	}
	// universally quantified facts
	iter := e.iterPreds(s, fr, h)
	if ls.iters == 0 {
		ls.preds = iter
	} else {
		for c, ps := range ls.preds {
			np := intersectPreds(ps, iter[c])
			if len(np) == 0 {
				delete(ls.preds, c)
			} else {
				ls.preds[c] = np
			}
		}
	}
	ls.iters = 1
	e.addExists(s)
	// what is dead at the loop header needs no name
	live := e.P.liveIn(fr.fn, h)
	edge := map[ssa.Value]bool{}
	for i, p := range h.Preds {
		if p != fr.block {
			continue
		}
		for _, in := range h.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			edge[ph.Edges[i]] = true
			edge[ph] = true
		}
	}
	for v := range fr.env {
		if !live[v] && !edge[v] {
			delete(fr.env, v)
		}
	}
	s.gc(e.irrelevant, e.loopKeys(s))
	// memory that changed inside the loop is generalised
	var ks []*Term
	for k := range s.mem {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	type gen struct{ k, v, ph *Term }
	var gens []gen
	for _, k := range ks {
		v, ok := s.mem[k]
		if !ok {
			continue
		}
		if ls.snap[k] == v {
			continue
		}
		if _, isb := v.Bool(); isb || v.IsNil() || v.Op == "phi" && strings.HasPrefix(v.Name, "mem:") && strings.Contains(v.Name, fmt.Sprintf(":%d/%d:", fr.ctx.id, h.Index)) {
			continue
		}
		if onlyFreshLoc(k) && !s.loopVariant(k, v) {
			continue
		}
		ph := mk("phi", fmt.Sprintf("mem:%s:%d/%d:~%s", locName(k), fr.ctx.id, h.Index, "loop"), v.Typ)
		gens = append(gens, gen{k, v, ph})
	}
	for _, g := range gens {
		if v, ok := s.mem[g.k]; ok && v.leafs[g.ph] && !v.junk && v != g.ph {
			// computed from its own previous value: rename it
			e.notePhi(g.ph, v)
			full := s.nonEmpty(v)
			tmp := mk("opq", "tmpphi", v.Typ)
			s.subst(func(x *Term) *Term {
				if x == v {
					return tmp
				}
				return nil
			})
			s.redefine(g.ph)
			s.subst(func(x *Term) *Term {
				if x == tmp {
					return g.ph
				}
				return nil
			})
			if full {
				s.facts[atomLt(mkLen(g.ph), cInt(1))] = false
			}
			continue
		}
		s.redefine(g.ph)
		v, ok := s.mem[g.k]
		if !ok {
			continue
		}
		if v.Op == "mkmap" || v.Op == "alloc" || v.Op == "mkchan" || v.Op == "closure" || v.Op == "mkslice" {
			// identity of a fresh object: keep the name, the next creation at
			// the same site renames it
			continue
		}
		e.generalise(s, v, g.ph)
		s.mem[g.k] = g.ph
	}
}

// addExists: what held of the element just visited holds of some element.
func (e *Engine) addExists(s *State) {
	for c, ps := range e.lastExists {
		for p := range ps {
			f := mk("exists", "", types.Typ[types.Bool], c, p)
			if !f.junk {
				s.facts[f] = true
			}
		}
	}
}

func locName(k *Term) string { return fmt.Sprintf("%d", k.id) }

// onlyFreshLoc: a location inside a fresh object created in this loop body
// keeps its own name (the object is renamed on the next iteration).
func onlyFreshLoc(k *Term) bool              { return false }
func (s *State) loopVariant(k, v *Term) bool { return true }

func intersectPreds(a, b map[*Term]bool) map[*Term]bool {
	r := map[*Term]bool{}
	has := func(m map[*Term]bool, p *Term) bool {
		if m[p] {
			return true
		}
		// forall(x,..) is implied by len(x) < 1
		q := p
		if q.Op == "forall" {
			if m[atomLt(mkLen(q.Args[0]), cInt(1))] {
				return true
			}
			if q.Args[0].Op == "hole" && strings.HasPrefix(q.Args[0].Name, "E") && m[atomLt(mkLen(mk("hole", "E0", q.Args[0].Typ)), cInt(1))] {
				return true
			}
		}
		return false
	}
	for p := range a {
		if has(b, p) {
			r[p] = true
		}
	}
	for p := range b {
		if has(a, p) {
			r[p] = true
		}
	}
	return r
}

func (e *Engine) pos(in ssa.Instruction) string {
	p := e.P.Fset.Position(e.P.pos(in))
	return fmt.Sprintf("%s:%d", shortFile(p.Filename), p.Line)
}

func holeDepth(t *Term) int {
	d := -1
	t.Any(func(x *Term) bool {
		if x.Op == "hole" {
			var n int
			fmt.Sscanf(x.Name[1:], "%d", &n)
			if n > d {
				d = n
			}
		}
		return false
	})
	return d
}

// iterPreds collects, per container iterated by the loop with header h, the
// facts known about the current element, with the element replaced by a hole.
func (e *Engine) iterPreds(s *State, fr *Frame, h *ssa.BasicBlock) map[*Term]map[*Term]bool {
	out := map[*Term]map[*Term]bool{}
	e.lastExists = map[*Term]map[*Term]bool{}
	add := func(c, elem, key *Term) {
		if e.forallOf != nil {
			cl, _, _ := (&Exec{E: e, S: s}).class(c)
			if !e.forallOf[cl] {
				return
			}
		}
		set := map[*Term]bool{}
		consider := func(f *Term, v bool) {
			if !f.Contains(elem) && (key == nil || key.IsConst() || !f.Contains(key)) {
				return
			}
			n := holeDepth(f) + 1
			E := mk("hole", fmt.Sprintf("E%d", n), elem.Typ)
			K := mk("hole", fmt.Sprintf("K%d", n), nil)
			g := substF(f, func(x *Term) *Term {
				if x == elem {
					return E
				}
				if key != nil && x == key && !key.IsConst() {
					return K
				}
				return nil
			}, map[*Term]*Term{})
			if g.junk {
				return
			}
			if !v {
				g = mk("not", "", types.Typ[types.Bool], g)
			}
			set[g] = true
		}
		for f, v := range s.facts {
			consider(f, v)
		}
		if v, ok := s.mem[elem]; ok {
			consider(atomEq(elem, v), true)
			if b, isb := v.Bool(); isb {
				consider(elem, b)
			}
		}
		if len(set) > 0 {
			out[c] = set
			// existentials only over boolean call predicates
			for p := range set {
				if p.Op == "call" {
					if e.lastExists[c] == nil {
						e.lastExists[c] = map[*Term]bool{}
					}
					e.lastExists[c][p] = true
				}
			}
		}
	}
	li := e.P.loopInfo(fr.fn, h)
	if li.rangeNext != nil {
		if it := fr.env[li.rangeNext.Iter]; it != nil && it.Op == "range" {
			c := it.Args[0]
			key := mk("rkey", e.site(fr, li.rangeNext), nil)
			add(c, mkAt(c, key, nil), key)
		}
	}
	if li.idx != nil {
		idx := fr.env[li.idx]
		if idx == nil {
			idx = e.idxNow(s, fr, li)
		}
		if idx != nil {
			conts := map[*Term]*Term{}
			scan := func(x *Term) {
				x.Any(func(y *Term) bool {
					if y.Op == "ld" && y.Args[0].Op == "&i" && y.Args[0].Args[1] == idx {
						conts[y.Args[0].Args[0]] = y
					}
					return false
				})
			}
			for f := range s.facts {
				scan(f)
			}
			for k := range s.mem {
				scan(k)
			}
			for c, el := range conts {
				add(c, el, idx)
			}
		}
	}
	return out
}

func (e *Engine) idxNow(s *State, fr *Frame, li *loopInfoT) *Term {
	if b, ok := li.idx.(*ssa.BinOp); ok {
		if p, ok := b.X.(*ssa.Phi); ok {
			if t := fr.env[p]; t != nil {
				return mkBin("+", t, cInt(1), types.Typ[types.Int])
			}
		}
	}
	return nil
}

// addForall turns the per-iteration facts into quantified facts when a loop
// over container c runs to completion.
func (e *Engine) addForall(s *State, fr *Frame, h *ssa.BasicBlock, c *Term) {
	ls := s.loops[loopKey{fr.ctx, h}]
	if ls == nil {
		return
	}
	if ls.iters == 0 {
		if !c.junk {
			if e.forallOf != nil {
				cl, _, _ := (&Exec{E: e, S: s}).class(c)
				if !e.forallOf[cl] {
					return
				}
			}
			s.facts[atomLt(mkLen(c), cInt(1))] = true
		}
		return
	}
	for p := range ls.preds[c] {
		f := mk("forall", "", types.Typ[types.Bool], c, p)
		if !f.junk {
			s.facts[f] = true
		}
	}
}

func (e *Engine) branch(s *State, in *ssa.If, cond *Term) bool {
	fr := s.top()
	e.Branches++
	v, known := s.Query(cond)
	tb, fb := fr.block.Succs[0], fr.block.Succs[1]
	take := func(st *State, b *ssa.BasicBlock, val bool) bool {
		if !known {
			if !st.Assume(cond, val) {
				return false
			}
			st.tr = &step{parent: st.tr, note: fmt.Sprintf("%s: %v is %v", e.pos(in), cond, val)}
		}
		f := st.top()
		// completion of index loops
		li := e.P.loopInfo(f.fn, f.block)
		if li != nil && li.idx != nil && li.exitCond == in.Cond {
			body := e.P.loops(f.fn)[f.block]
			var cont *Term
			if c := e.val(st, li.limit); c != nil {
				if c.Op == "len" {
					cont = c.Args[0]
				} else if li.limitLen != nil {
					cont = f.env[li.limitLen]
				}
			}
			if body != nil && cont != nil {
				if !body[b] {
					e.addForall(st, f, f.block, cont)
					e.emit(st, &Event{Kind: EvRangeDone, Instr: in, Val: cont, Hdr: f.block})
				} else {
					ix := e.val(st, li.idx)
					a := indexAddr(cont, ix, nil)
					if st0, ok := contElem(cont); ok {
						a = indexAddr(cont, ix, types.NewPointer(st0))
						e.emit(st, &Event{Kind: EvRangeKey, Instr: in, Val: cont, Key: ix, Res: st.load(a, st0), Hdr: f.block})
					}
				}
				if st.dead {
					return false
				}
			}
		}
		e.emit(st, &Event{Kind: EvBranch, Instr: in, Val: cond, Res: cBool(val)})
		if st.dead {
			return false
		}
		return e.jump(st, b)
	}
	if known {
		if v {
			return take(s, tb, true)
		}
		return take(s, fb, false)
	}
	s2 := s.clone()
	ok2 := take(s2, fb, false)
	if ok2 {
		e.push(s2)
	}
	return take(s, tb, true)
}

func contElem(c *Term) (types.Type, bool) {
	if c.Typ == nil {
		return nil, false
	}
	switch t := c.Typ.Underlying().(type) {
	case *types.Slice:
		return t.Elem(), true
	case *types.Array:
		return t.Elem(), true
	case *types.Pointer:
		if a, ok := t.Elem().Underlying().(*types.Array); ok {
			return a.Elem(), true
		}
	}
	return nil, false
}

// notePhi remembers which values a loop variable was given.
func (e *Engine) notePhi(ph, v *Term) {
	if e.phiSrc == nil {
		e.phiSrc = map[*Term]map[*Term]bool{}
	}
	if e.phiSrc[ph] == nil {
		e.phiSrc[ph] = map[*Term]bool{}
	}
	e.phiSrc[ph][v] = true
}
