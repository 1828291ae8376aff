package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/openrelayxyz/cardinal-streams/v2"

type Program struct {
	Dir   string
	Fset  *token.FileSet
	Pkgs  []*packages.Package
	Prog  *ssa.Program
	SPkgs map[string]*ssa.Package // by short name
	All   []*ssa.Function         // every function with a body in the repository

	loopMemo map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	liMemo   map[*ssa.BasicBlock]*loopInfoT
	liveMemo map[*ssa.Function][]map[ssa.Value]bool
	liveOut  map[*ssa.Function][]map[ssa.Value]bool
	mods     map[*ssa.Function]*modSet
	fnByName map[string]*ssa.Function
	lruCB    *[]*ssa.Function
	roles    map[ssa.Instruction]string
}

// curProg: the program under analysis.
var curProg *Program

func Load(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedModule,
		Dir:  dir,
		Env:  append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off"),
	}
	pkgs, err := packages.Load(cfg, "./delivery/...", "./transports/...", "./waiter/...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
		for _, e := range p.TypeErrors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	if len(pkgs) < 3 {
		return nil, fmt.Errorf("expected at least 3 packages, found %d", len(pkgs))
	}
	prog, spk := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{Dir: dir, Fset: prog.Fset, Pkgs: pkgs, Prog: prog, SPkgs: map[string]*ssa.Package{},
		loopMemo: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, liMemo: map[*ssa.BasicBlock]*loopInfoT{},
		liveMemo: map[*ssa.Function][]map[ssa.Value]bool{}, liveOut: map[*ssa.Function][]map[ssa.Value]bool{}, mods: map[*ssa.Function]*modSet{}, fnByName: map[string]*ssa.Function{}}
	for _, sp := range spk {
		if sp == nil {
			return nil, fmt.Errorf("a package could not be built")
		}
		p.SPkgs[sp.Pkg.Name()] = sp
	}
	curProg = p
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		p.All = append(p.All, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, sp := range spk {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						fn := prog.MethodValue(ms.At(i))
						if fn != nil && fn.Synthetic == "" {
							add(fn)
						}
					}
				}
			}
		}
	}
	p.findSentinels()
	findDecoders(p.All)
	sort.Slice(p.All, func(i, j int) bool { return p.All[i].Pos() < p.All[j].Pos() })
	return p, nil
}

func (p *Program) inRepo(f *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return strings.HasPrefix(g.Pkg.Pkg.Path(), modPath)
		}
		if o := g.Origin(); o != nil && o.Pkg != nil {
			return strings.HasPrefix(o.Pkg.Pkg.Path(), modPath)
		}
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return strings.HasPrefix(o.Pkg().Path(), modPath)
	}
	return false
}

// Func finds a package-level function or method: "delivery.NewProducer" or
// "delivery.MessageProcessor.ProcessMessage".
func (p *Program) Func(name string) *ssa.Function {
	parts := strings.Split(name, ".")
	sp := p.SPkgs[parts[0]]
	if sp == nil {
		return nil
	}
	if len(parts) == 2 {
		return sp.Func(parts[1])
	}
	t := sp.Type(parts[1])
	if t == nil {
		return nil
	}
	for _, tt := range []types.Type{types.NewPointer(t.Type()), t.Type()} {
		ms := p.Prog.MethodSets.MethodSet(tt)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == parts[2] {
				fn := p.Prog.MethodValue(ms.At(i))
				if fn != nil && len(fn.Blocks) > 0 && fn.Synthetic == "" {
					return fn
				}
			}
		}
	}
	return nil
}

func (p *Program) pos(in ssa.Instruction) token.Pos {
	if pos := in.Pos(); pos.IsValid() {
		return pos
	}
	if c, ok := in.(ssa.CallInstruction); ok && c.Common().Pos().IsValid() {
		return c.Common().Pos()
	}
	switch x := in.(type) {
	case *ssa.If:
		if v, ok := x.Cond.(ssa.Instruction); ok && v.Pos().IsValid() {
			return v.Pos()
		}
		return p.near(in)
	}
	var rands [10]*ssa.Value
	for _, o := range in.Operands(rands[:0]) {
		if o != nil && *o != nil {
			if v, ok := (*o).(ssa.Instruction); ok && v.Pos().IsValid() && v.Parent() == in.Parent() {
				return v.Pos()
			}
		}
	}
	return p.near(in)
}

func (p *Program) near(in ssa.Instruction) token.Pos {
	b := in.Block()
	if b == nil {
		return token.NoPos
	}
	k := -1
	for i, x := range b.Instrs {
		if x == in {
			k = i
		}
	}
	for i := k; i >= 0; i-- {
		if b.Instrs[i].Pos().IsValid() {
			return b.Instrs[i].Pos()
		}
	}
	for i := k + 1; i < len(b.Instrs); i++ {
		if b.Instrs[i].Pos().IsValid() {
			return b.Instrs[i].Pos()
		}
	}
	for _, pr := range b.Preds {
		for i := len(pr.Instrs) - 1; i >= 0; i-- {
			if pr.Instrs[i].Pos().IsValid() {
				return pr.Instrs[i].Pos()
			}
		}
	}
	return in.Parent().Pos()
}

func (p *Program) where(pos token.Pos) string {
	q := p.Fset.Position(pos)
	f := strings.TrimPrefix(q.Filename, p.Dir+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// ---------- loops ----------

type loopInfoT struct {
	rangeNext *ssa.Next
	idx       ssa.Value // index used for the body of an index loop
	phi       *ssa.Phi
	limit     ssa.Value
	limitLen  ssa.Value
	exitCond  ssa.Value
}

func (p *Program) loops(f *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if l, ok := p.loopMemo[f]; ok {
		return l
	}
	l := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := l[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					l[s] = body
				}
				var walk func(x *ssa.BasicBlock)
				walk = func(x *ssa.BasicBlock) {
					if body[x] {
						return
					}
					body[x] = true
					for _, q := range x.Preds {
						walk(q)
					}
				}
				walk(b)
			}
		}
	}
	p.loopMemo[f] = l
	return l
}

func (p *Program) loopInfo(f *ssa.Function, h *ssa.BasicBlock) *loopInfoT {
	if li, ok := p.liMemo[h]; ok {
		return li
	}
	li := &loopInfoT{}
	p.liMemo[h] = li
	body, ok := p.loops(f)[h]
	if !ok {
		return li
	}
	for _, in := range h.Instrs {
		if n, ok := in.(*ssa.Next); ok && !n.IsString {
			li.rangeNext = n
		}
	}
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return li
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return li
	}
	x, y := cmp.X, cmp.Y
	switch {
	case cmp.Op == token.LSS || cmp.Op == token.NEQ:
	case cmp.Op == token.GTR:
		x, y = y, x
	case cmp.Op == token.GEQ || cmp.Op == token.EQL: // i >= n exits
	case cmp.Op == token.LEQ:
		x, y = y, x
	default:
		return li
	}
	var phi *ssa.Phi
	pre := false
	if ph, ok := x.(*ssa.Phi); ok && ph.Block() == h {
		phi = ph
	} else if b, ok := x.(*ssa.BinOp); ok && b.Op == token.ADD && b.Block() == h {
		if ph, ok := b.X.(*ssa.Phi); ok && ph.Block() == h && isConstInt(b.Y, 1) {
			phi = ph
			pre = true
		}
	}
	if phi == nil {
		return li
	}
	// every back edge increments by one, entry starts at 0 (or -1 when pre-incremented)
	for i, pr := range h.Preds {
		ev := phi.Edges[i]
		if body[pr] {
			if pre {
				if ev != x {
					return li
				}
			} else {
				b, ok := ev.(*ssa.BinOp)
				if !ok || b.Op != token.ADD || b.X != ssa.Value(phi) || !isConstInt(b.Y, 1) {
					return li
				}
			}
		} else {
			want := int64(0)
			if pre {
				want = -1
			}
			if !isConstInt(ev, want) {
				return li
			}
		}
	}
	li.idx = x
	li.phi = phi
	li.limit = y
	li.exitCond = iff.Cond
	if c, ok := y.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			li.limitLen = c.Call.Args[0]
		}
	}
	return li
}

func isConstInt(v ssa.Value, n int64) bool {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return false
	}
	t := cVal(c.Value, c.Type())
	i, ok := t.Int()
	return ok && i == n
}

// ---------- liveness ----------

func (p *Program) liveness(f *ssa.Function) {
	if _, ok := p.liveMemo[f]; ok {
		return
	}
	n := len(f.Blocks)
	in := make([]map[ssa.Value]bool, n)
	out := make([]map[ssa.Value]bool, n)
	for i := range in {
		in[i] = map[ssa.Value]bool{}
		out[i] = map[ssa.Value]bool{}
	}
	track := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return false
		}
		return v != nil
	}
	changed := true
	for changed {
		changed = false
		for bi := n - 1; bi >= 0; bi-- {
			b := f.Blocks[bi]
			o := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range in[s.Index] {
					o[v] = true
				}
				for k, pr := range s.Preds {
					if pr == b {
						for _, ins := range s.Instrs {
							ph, ok := ins.(*ssa.Phi)
							if !ok {
								break
							}
							if track(ph.Edges[k]) {
								o[ph.Edges[k]] = true
							}
						}
					}
				}
			}
			l := map[ssa.Value]bool{}
			for v := range o {
				l[v] = true
			}
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				ins := b.Instrs[i]
				if v, ok := ins.(ssa.Value); ok {
					delete(l, v)
				}
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				var rands [10]*ssa.Value
				for _, op := range ins.Operands(rands[:0]) {
					if op != nil && track(*op) {
						l[*op] = true
					}
				}
			}
			if len(l) != len(in[bi]) || len(o) != len(out[bi]) {
				changed = true
			}
			in[bi] = l
			out[bi] = o
		}
	}
	p.liveMemo[f] = in
	p.liveOut[f] = out
}

func (p *Program) liveIn(f *ssa.Function, b *ssa.BasicBlock) map[ssa.Value]bool {
	p.liveness(f)
	return p.liveMemo[f][b.Index]
}

// liveAfter: values live after instruction i of block b.
func (p *Program) liveAfter(f *ssa.Function, b *ssa.BasicBlock, idx int) map[ssa.Value]bool {
	p.liveness(f)
	l := map[ssa.Value]bool{}
	for v := range p.liveOut[f][b.Index] {
		l[v] = true
	}
	for i := len(b.Instrs) - 1; i > idx; i-- {
		ins := b.Instrs[i]
		if v, ok := ins.(ssa.Value); ok {
			delete(l, v)
		}
		var rands [10]*ssa.Value
		for _, op := range ins.Operands(rands[:0]) {
			if op != nil && *op != nil {
				switch (*op).(type) {
				case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
				default:
					l[*op] = true
				}
			}
		}
	}
	return l
}

// ---------- mod sets ----------

type modSet struct {
	fields  map[string]bool // "pkg.T.f"
	maps    map[string]bool // field class "pkg.T.f" of the updated map, or "" prefixed type
	mapTyp  map[string]bool // type strings of maps updated through unknown expressions
	elems   map[string]bool // element types stored through slices
	other   bool
	lru     bool
	globals map[string]bool
}

func fieldClass(ptr types.Type, idx int) string {
	t := ptr
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return "?"
	}
	name := "struct"
	if n, ok := t.(*types.Named); ok {
		name = n.Obj().Name()
		if n.Obj().Pkg() != nil {
			name = n.Obj().Pkg().Name() + "." + name
		}
	}
	return name + "." + st.Field(idx).Name()
}

func mapClass(v ssa.Value) string {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return fieldClass(fa.X.Type(), fa.Field)
		}
	}
	return ""
}

func (p *Program) ModSet(f *ssa.Function) *modSet {
	if m, ok := p.mods[f]; ok {
		return m
	}
	m := &modSet{fields: map[string]bool{}, maps: map[string]bool{}, mapTyp: map[string]bool{}, elems: map[string]bool{}, globals: map[string]bool{}}
	seen := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function)
	walk = func(g *ssa.Function) {
		if g == nil || seen[g] {
			return
		}
		seen[g] = true
		if len(g.Blocks) == 0 || (!p.inRepo(g) && g.Synthetic == "") {
			return
		}
		mapUpd := func(v ssa.Value) {
			if c := mapClass(v); c != "" {
				m.maps[c] = true
			}
			m.mapTyp[types.TypeString(v.Type(), nil)] = true
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					switch a := in.Addr.(type) {
					case *ssa.FieldAddr:
						m.fields[fieldClass(a.X.Type(), a.Field)] = true
					case *ssa.IndexAddr:
						m.elems[types.TypeString(in.Val.Type(), nil)] = true
					case *ssa.Global:
						m.globals[a.Name()] = true
					}
				case *ssa.MapUpdate:
					mapUpd(in.Map)
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					cc := c.Common()
					if b, ok := cc.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") {
						mapUpd(cc.Args[0])
					}
					if sf := cc.StaticCallee(); sf != nil {
						if mutators[calleeName(sf)] != "" || strings.HasPrefix(calleeName(sf), "lru.New") {
							m.lru = true
							for _, cb := range p.lruCallbacks() {
								walk(cb)
							}
						}
						walk(sf)
					}
				}
				var rands [10]*ssa.Value
				for _, op := range in.Operands(rands[:0]) {
					if op != nil && *op != nil {
						if fn, ok := (*op).(*ssa.Function); ok {
							walk(fn)
						}
					}
				}
			}
		}
	}
	walk(f)
	p.mods[f] = m
	return m
}

// findSentinels collects the error variables that are set once, to a new error.
func (p *Program) findSentinels() {
	sentinelErr = map[string]bool{}
	isErr := func(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }
	n := map[string]int{}
	good := map[string]bool{}
	note := func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok || !isErr(deref(g.Type())) {
					continue
				}
				k := g.Pkg.Pkg.Name() + "." + g.Name()
				n[k]++
				if c, ok := st.Val.(*ssa.Call); ok {
					if m := ccName(&c.Call); m == "errors.New" || m == "fmt.Errorf" {
						good[k] = true
					}
				}
			}
		}
	}
	all := map[*ssa.Function]bool{}
	for _, f := range p.All {
		all[f] = true
		note(f)
	}
	for _, sp := range p.SPkgs {
		if i := sp.Func("init"); i != nil && !all[i] {
			note(i)
		}
		for _, imp := range sp.Pkg.Imports() {
			if strings.HasPrefix(imp.Path(), modPath) {
				continue
			}
			for _, nm := range imp.Scope().Names() {
				if v, ok := imp.Scope().Lookup(nm).(*types.Var); ok && v.Exported() && isErr(v.Type()) {
					sentinelErr[imp.Name()+"."+nm] = true
				}
			}
		}
	}
	for k := range good {
		if n[k] == 1 {
			sentinelErr[k] = true
		}
	}
}
