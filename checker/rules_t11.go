package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- T11: channels are closed once, and not sent on afterwards ----------
//
// Every close in the repository is reached by the flow of each function or
// goroutine that can execute it. There, one of these has to be known:
//   - it is the body of a sync.Once kept with the channel;
//   - the channel was found open (select with default) under a lock that is
//     still held, and that everyone who closes it shares;
//   - it is what a field was found to hold under a lock, is not nil, and the
//     field is cleared before the lock is released;
//   - nobody else closes it: the function runs once per channel, and no path
//     of it closes the channel twice.

type closer struct {
	roots map[*ssa.Function]bool
	pos   token.Pos
}

type closeRoles struct {
	c       *Ctx
	reached map[ssa.Instruction]bool
	sole    map[string]*closer // channels closed without a guard
	keys    map[string]bool    // channels closed
	once    map[*ssa.Function]bool
	chans   map[string]bool // chan fields that are closed
	flagOf  map[*Term]string
}

func isClose(in ssa.Instruction) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	b, ok := c.Common().Value.(*ssa.Builtin)
	return ok && b.Name() == "close"
}

// onceOf: the sync.Once whose body is being executed.
func onceOf(x *Exec) *Term {
	for i := len(x.S.frames) - 1; i > 0; i-- {
		if o := x.S.frames[i].once; o != nil {
			return o
		}
	}
	return nil
}

// shared: the lock (or Once) belongs to an object, or to a variable outside the
// function at hand and outside any loop there.
func (r *closeRoles) shared(x *Exec, t *Term) bool {
	t = unold(t)
	if t.Op == "&f" {
		return unold(t.Args[0]).Op != "alloc"
	}
	if c := x.cell(t); c != nil {
		in, ok := c.(ssa.Instruction)
		return ok && in.Parent() != x.E.Root && !r.c.P.inLoop(in)
	}
	if c, _, _ := x.class(t); c != "" {
		return true
	}
	return t.Op == "glob" || t.Op == "&g"
}

// lockName: a name for the lock, of a field or of a captured variable.
func (r *closeRoles) lockName(x *Exec) func(t *Term) string {
	return func(t *Term) string {
		if !r.shared(x, t) {
			return ""
		}
		if n := x.fieldLock(t); n != "" {
			return n
		}
		if c := x.cell(t); c != nil {
			return "var " + c.Name() + "@" + x.E.P.where(c.Pos())
		}
		return ""
	}
}

// chanKey: the field or variable a channel is kept in.
func (x *Exec) chanKey(t *Term) string {
	if c, _, _ := x.class(t); c != "" {
		return c
	}
	if c := x.cell(t); c != nil {
		return "var " + c.Name() + "@" + x.E.P.where(c.Pos())
	}
	return ""
}

func (r *closeRoles) mon(root *ssa.Function, api bool) func(x *Exec, ev *Event) {
	return func(x *Exec, ev *Event) {
		ms, s := x.MS(), x.S
		name := r.lockName(x)
		unlocked := ""
		if ev.Kind == EvCall && ev.Recv != nil && (strings.HasSuffix(ev.Callee, "Mutex).Unlock") || strings.HasSuffix(ev.Callee, "Locker).Unlock")) {
			unlocked = name(ev.Recv)
		}
		switch {
		case ev.Kind == EvCall && ev.Recv != nil && (strings.HasSuffix(ev.Callee, "Mutex).Lock") || strings.HasSuffix(ev.Callee, "Locker).Lock")):
			// what others may have closed and cleared in the meantime
			if l := unold(ev.Recv); l.Op == "&f" {
				if o := structOf(l.Name, x.E.P); o != nil {
					for i := 0; i < o.NumFields(); i++ {
						f := o.Field(i)
						n := l.Name[:strings.LastIndex(l.Name, ".")+1] + f.Name()
						if _, ok := f.Type().Underlying().(*types.Chan); ok && r.chans[n] {
							v := mk("opq", f.Name()+"@"+x.E.P.Fset.Position(ev.Pos).String(), f.Type())
							s.mem[field(n, l.Args[0], f.Type())] = v
							ms.Set("held:"+n, v)
							ms.Set("by:"+n, cStr(l.Name))
						}
						if isBoolType(f.Type()) && x.lockedFlag(n, l.Name) {
							v := mk("opq", f.Name()+"@"+x.E.P.Fset.Position(ev.Pos).String(), f.Type())
							s.mem[field(n, l.Args[0], f.Type())] = v
							ms.Set("flag:"+n, v)
							r.flagOf[v] = n
							ms.Set("by:"+n, cStr(l.Name))
						}
					}
				}
			}
		case unlocked != "":
			for _, k := range ms.Keys("held:") {
				n := k[len("held:"):]
				if by, _ := ms.Get("by:" + n).StrOr(); by != unlocked {
					continue
				}
				l := unold(ev.Recv)
				cur := s.mem[field(n, l.Args[0], ms.Get(k).Typ)]
				gone := cur != nil && !sameT(cur, ms.Get(k))
				if ms.Has("owes:" + n) {
					r.c.OB(x, "close.twice", n+" in "+fnLabel(root), ev, gone, "the channel is closed and still there when the lock is released, the next caller closes it again")
				} else if gone {
					ms.Set("taken:"+n, ms.Get(k))
				}
				ms.DelAll("held:"+n, "by:"+n, "owes:"+n)
			}
			for _, k := range ms.Keys("flag:") {
				n := k[len("flag:"):]
				if by, _ := ms.Get("by:" + n).StrOr(); by != unlocked {
					continue
				}
				cur := s.mem[field(n, unold(ev.Recv).Args[0], ms.Get(k).Typ)]
				if cur == nil {
					cur = ms.Get(k)
				}
				set := s.KnownNot(ms.Get(k)) != s.KnownNot(cur) && (s.Known(cur) || s.KnownNot(cur))
				if ms.Has("owes:" + n) {
					r.c.OB(x, "close.twice", n+" in "+fnLabel(root), ev, set, "the channel is closed but %s does not say so when the lock is released, the next caller closes it again", n)
				} else if set {
					ms.Flag("won:" + n)
				}
				ms.DelAll("flag:"+n, "by:"+n, "owes:"+n)
			}
			for _, k := range ms.Keys("open:") {
				if by, _ := ms.Get(k).StrOr(); by == unlocked {
					ms.Del(k)
				}
			}
		}
		x.lockEvent(ev, name)
		switch ev.Kind {
		case EvSelDefault:
			for _, st := range ev.Instr.(*ssa.Select).States {
				if st.Dir != types.RecvOnly {
					continue
				}
				ms.Flag("opn:" + x.E.val(s, st.Chan).String())
				for _, k := range ms.Keys("lk:") {
					if l, _ := ms.Get(k).StrOr(); l == "W" {
						ms.Set("open:"+x.E.val(s, st.Chan).String(), cStr(k[3:]))
					}
				}
			}
		case EvGo:
			g := ev.Instr.(*ssa.Go).Call.StaticCallee()
			if g == nil {
				return
			}
			k := "go:" + g.String()
			if !r.guarded(g) {
				if ms.Has(k) && !ms.Has("again") {
					ms.Flag(k + "+")
				}
				if !ms.Has("again") {
					ms.Flag(k)
				}
				r.c.OB(x, "spawn.twice", fnLabel(g)+" in "+fnLabel(root), ev, !ms.Has(k+"+"), "a goroutine that closes a channel is started again for the same channel")
			}
		case EvEnter:
			// an object nobody else has yet has channels of its own
			if len(ev.Args) > 0 && ev.CalleeF != nil && ev.CalleeF.Signature.Recv() != nil {
				if o := unold(ev.Args[0]); o.Op == "alloc" && isFreshObj(o) && !s.esc[o] {
					ms.DelAll(ms.Keys("go:")...)
				}
			}
		case EvRecv:
			// asked at most once
			if n, b, _ := x.class(ev.Chan); n != "" && b != nil && r.askedOnce(n) {
				if ms.Has("q:" + n) {
					ms.Flag("again")
				}
				ms.Flag("q:" + n)
			}
		case EvCall:
			if strings.HasSuffix(ev.Callee, "types.Subscription).Unsubscribe") {
				ms.Flag("unsub")
			}
			if strings.Contains(ev.Callee, "atomic.CompareAndSwap") && len(ev.Args) == 3 && ev.Args[1] != ev.Args[2] {
				ms.Set("cas", ev.Res)
			}
		case EvClose:
			if ms.Has("again") {
				return
			}
			r.reached[ev.Instr] = true
			key := x.chanKey(ev.Chan)
			con := key + " in " + fnLabel(root)
			if key == "" {
				key = ev.Chan.String()
			}
			r.keys[key] = true
			if r.fed(key) {
				r.c.OB(x, "close.fed", con, ev, ms.Has("unsub"), "the channel is closed while the feed it is subscribed to may still send on it")
			}
			// once
			if o := onceOf(x); o != nil && r.shared(x, o) {
				r.c.OB(x, "close.once", con, ev, r.sameOwner(x, o, ev.Chan), "the channel and the Once that guards its closing belong to different objects")
				return
			}
			// found open under a lock
			if by, ok := ms.Get("open:" + ev.Chan.String()).StrOr(); ok && ms.Has("lk:"+by) {
				r.c.OB(x, "close.tested", con, ev, true, "")
				ms.Del("open:" + ev.Chan.String())
				return
			}
			// taken from its field under a lock
			kept := ""
			for _, k := range ms.Keys("held:") {
				n := k[len("held:"):]
				if sameT(ms.Get(k), ev.Chan) {
					by, _ := ms.Get("by:" + n).StrOr()
					l, _ := ms.Get("lk:" + by).StrOr()
					if l == "W" && x.knownNonNil(ev.Chan) && !ms.Has("owes:"+n) && r.cleared(n) {
						r.c.OB(x, "close.taken", con, ev, true, "")
						ms.Flag("owes:" + n)
						return
					}
					kept = n
				}
			}
			for _, k := range ms.Keys("taken:") {
				if sameT(ms.Get(k), ev.Chan) {
					r.c.OB(x, "close.taken", con, ev, x.knownNonNil(ev.Chan), "the channel may have been closed by another caller")
					ms.Del(k)
					return
				}
			}
			// a flag under a lock says that it has not been closed
			for _, k := range ms.Keys("flag:") {
				n := k[len("flag:"):]
				by, _ := ms.Get("by:" + n).StrOr()
				l, _ := ms.Get("lk:" + by).StrOr()
				if l == "W" && !ms.Has("owes:"+n) && (s.KnownNot(ms.Get(k)) || s.Known(ms.Get(k))) {
					r.c.OB(x, "close.flag", con, ev, true, "")
					ms.Flag("owes:" + n)
					return
				}
			}
			for _, k := range ms.Keys("won:") {
				r.c.OB(x, "close.flag", con, ev, true, "")
				ms.Del(k)
				return
			}
			// the caller that changed the flag atomically
			if kept != "" && r.cleared(kept) {
				r.c.OB(x, "close.taken", con, ev, false, "the channel may have been closed by another caller")
				return
			}
			if w := ms.Get("cas"); w != nil && s.Known(w) {
				r.c.OB(x, "close.flag", con, ev, true, "")
				ms.Del("cas")
				return
			}
			// one that nobody else knows yet
			if r.ownChan(ev.Instr) {
				r.c.OB(x, "close.own", con, ev, true, "")
				return
			}
			r.c.OB(x, "close.again", con, ev, !ms.Has("closed:"+key) || ms.Has("opn:"+ev.Chan.String()) || r.firstTime(x, ev), "the channel may be closed twice")
			ms.Del("opn:" + ev.Chan.String())
			ms.Flag("closed:" + key)
			if r.sole[key] == nil {
				r.sole[key] = &closer{map[*ssa.Function]bool{}, ev.Instr.Pos()}
			}
			r.sole[key].roots[root] = true
		}
	}
}

// firstTime: a flag was found unset that is set wherever the channel is closed,
// and never cleared.
func (r *closeRoles) firstTime(x *Exec, ev *Event) bool {
	for f, v := range x.S.facts {
		if v {
			continue
		}
		cl, _, _ := x.class(unold(f))
		if cl == "" {
			cl = r.flagOf[f]
		}
		if cl == "" || f.Typ == nil || !isBoolType(f.Typ) {
			continue
		}
		n, here := 0, false
		for _, w := range r.c.P.writesTo(cl) {
			n++
			k, ok := w.Val.(*ssa.Const)
			if !ok || k.Value == nil || k.Value.String() != "true" {
				n = -1
				break
			}
			here = here || w.In.Block() == ev.Instr.Block()
		}
		if n > 0 && here {
			return true
		}
	}
	return false
}

// ownChan: the channel was made by the function that closes it, which closes it
// once and only then gives it away.
func (r *closeRoles) ownChan(in ssa.Instruction) bool {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	m, ok := ci.Common().Args[0].(*ssa.MakeChan)
	if !ok || m.Parent() != in.Parent() || m.Referrers() == nil {
		return false
	}
	if r.c.P.inLoop(in) && m.Block() != in.Block() {
		return false
	}
	for _, u := range *m.Referrers() {
		switch v := u.(type) {
		case *ssa.DebugRef, *ssa.Return, *ssa.Send:
		case *ssa.ChangeType:
			for _, w := range *v.Referrers() {
				switch w.(type) {
				case *ssa.DebugRef, *ssa.Return:
				default:
					return false
				}
			}
		default:
			if u != in {
				return false
			}
		}
	}
	return true
}

// OB is Check with the rule's name given for the property as a whole.
func (c *Ctx) OB(x *Exec, rule, con string, ev *Event, ok bool, format string, args ...interface{}) {
	x.Check(rule, con, ev, ok, format, args...)
}

// cleared: the channel kept in the field is replaced somewhere.
func (r *closeRoles) cleared(class string) bool {
	for _, fn := range r.c.P.All {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldLabel(fa) == class {
						if c, ok := st.Val.(*ssa.Const); ok && c.IsNil() {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// lockedFlag: a flag that is only written where the lock is held, and only ever
// to one value.
func (x *Exec) lockedFlag(class, lock string) bool {
	vals := map[string]bool{}
	for _, fn := range x.E.P.All {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fieldLabel(fa) != class {
					continue
				}
				c, ok := st.Val.(*ssa.Const)
				if !ok {
					return false
				}
				if _, fresh := fa.X.(*ssa.Alloc); !fresh {
					vals[c.String()] = true
					if !locksField(fn, lock) {
						return false
					}
				}
			}
		}
	}
	return len(vals) == 1
}

// locksField: the function takes the lock kept in the field.
func locksField(fn *ssa.Function, lock string) bool {
	return directly(fn, func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok || ci.Common().StaticCallee() == nil || !strings.HasSuffix(ci.Common().StaticCallee().String(), ").Lock") {
			return false
		}
		fa, ok := ci.Common().Args[0].(*ssa.FieldAddr)
		return ok && fieldLabel(fa) == lock
	})
}

func (r *closeRoles) sameOwner(x *Exec, once, ch *Term) bool {
	once = unold(once)
	if once.Op != "&f" {
		if x.cell(once) == nil {
			return false
		}
		why := ""
		return x.cell(ch) != nil || r.runsOnce(x.E.Root, nil, &why)
	}
	cl, b, _ := x.class(ch)
	if cl == "" {
		return false
	}
	return b == nil || sameT(b, once.Args[0])
}

func structOf(fieldName string, p *Program) *types.Struct {
	i := strings.LastIndex(fieldName, ".")
	if i < 0 {
		return nil
	}
	tn := fieldName[:i]
	j := strings.LastIndex(tn, ".")
	if j < 0 {
		return nil
	}
	sp := p.SPkgs[tn[:j]]
	if sp == nil || sp.Type(tn[j+1:]) == nil {
		return nil
	}
	st, _ := sp.Type(tn[j+1:]).Type().Underlying().(*types.Struct)
	return st
}

// inLoop: the instruction may run again in the same activation.
func (p *Program) inLoop(in ssa.Instruction) bool {
	b := in.Block()
	seen := map[*ssa.BasicBlock]bool{}
	w := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(w) > 0 {
		n := w[len(w)-1]
		w = w[:len(w)-1]
		if n == b {
			return true
		}
		if seen[n] {
			continue
		}
		seen[n] = true
		w = append(w, n.Succs...)
	}
	return false
}

// guarded: everything the goroutine closes is guarded where it is closed.
func (r *closeRoles) guarded(g *ssa.Function) bool {
	for _, c := range r.sole {
		if c.roots[g] {
			return false
		}
	}
	return true
}

// askedOnce: everything sent on the channel is sent in the body of a sync.Once,
// and it is never closed.
func (r *closeRoles) askedOnce(class string) bool {
	n := 0
	for _, fn := range r.c.P.All {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var chs []ssa.Value
				switch u := in.(type) {
				case *ssa.Send:
					chs = append(chs, u.Chan)
				case *ssa.Select:
					for _, st := range u.States {
						if st.Dir == types.SendOnly {
							chs = append(chs, st.Chan)
						}
					}
				}
				for _, ch := range chs {
					if fieldOfChan(ch) == class {
						n++
						if !r.once[fn] || r.c.P.inLoop(in) {
							return false
						}
					}
				}
				if isClose(in) && fieldOfChan(in.(ssa.CallInstruction).Common().Args[0]) == class {
					return false
				}
			}
		}
	}
	return n > 0
}

// fieldOfChan: the field a channel value is loaded from.
func fieldOfChan(v ssa.Value) string {
	for _, o := range origins(v) {
		if u, ok := o.(*ssa.UnOp); ok && u.Op == token.MUL {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				return fieldLabel(fa)
			}
		}
	}
	return ""
}

func fieldLabel(fa *ssa.FieldAddr) string {
	pt := fa.X.Type().Underlying().(*types.Pointer).Elem()
	st := pt.Underlying().(*types.Struct)
	return shortType(pt) + "." + st.Field(fa.Field).Name()
}

// fed: a channel kept in the field is subscribed to a feed.
func (r *closeRoles) fed(key string) bool {
	for _, fn := range r.c.P.All {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fieldLabel(fa) != key {
					continue
				}
				for _, o := range origins(st.Val) {
					if subscribed(o) {
						return true
					}
				}
			}
		}
	}
	return false
}

func subscribed(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			switch w := u.(type) {
			case *ssa.MakeInterface, *ssa.ChangeType:
				if walk(w.(ssa.Value)) {
					return true
				}
			case *ssa.Store:
				if a, ok := w.Addr.(*ssa.Alloc); ok && w.Val == v && walk(a) {
					return true
				}
			case *ssa.UnOp:
				if walk(w) {
					return true
				}
			case ssa.CallInstruction:
				n := w.Common()
				nm := ""
				if n.IsInvoke() {
					nm = n.Method.Name()
				} else if f := n.StaticCallee(); f != nil {
					nm = f.Name()
				}
				if strings.HasPrefix(nm, "Subscribe") {
					return true
				}
			}
		}
		return false
	}
	return walk(v)
}

// runsOnce: does the function run at most once for each channel? Its
// activations lead up to where the channel is made, or to the constructor or
// Start of the object it is kept in.
func (r *closeRoles) runsOnce(root *ssa.Function, maker *ssa.Function, why *string) bool {
	for f := root; f != maker; {
		p := f.Parent()
		if p == nil {
			// a method: operations of an owner happen once
			if f.Name() == "Start" || f.Signature.Recv() == nil && token.IsExported(f.Name()) {
				return true
			}
			// a helper, or a method started as a goroutine: where is it called?
			var sites []ssa.CallInstruction
			for _, g := range r.c.P.All {
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f {
							sites = append(sites, ci)
						}
					}
				}
			}
			if len(sites) != 1 || token.IsExported(f.Name()) {
				*why = fmt.Sprintf("%s is called from %d places and may be called again", fnLabel(f), len(sites))
				return false
			}
			f = sites[0].Parent()
			continue
		}
		n := 0
		for _, b := range p.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() != f && funcValue(ci.Common().Value) != f {
					continue
				}
				n++
				if _, isGo := in.(*ssa.Go); !isGo && r.c.P.inLoop(in) {
					*why = fmt.Sprintf("%s runs in a loop", fnLabel(f))
					return false
				}
			}
		}
		if n > 1 {
			*why = fmt.Sprintf("%s is started in %d places", fnLabel(f), n)
			return false
		}
		f = p
	}
	return true
}

func init() {
	register("T11", func(c *Ctx) {
		c.Explain = "typestate of every channel that is closed, over every path of the functions and goroutines that close it; who else may close it or send on it"
		r := &closeRoles{c: c, reached: map[ssa.Instruction]bool{}, sole: map[string]*closer{}, keys: map[string]bool{}, once: map[*ssa.Function]bool{}, chans: map[string]bool{}, flagOf: map[*Term]string{}}
		var sites []ssa.Instruction
		tops := map[*ssa.Function]bool{}
		top := func(f *ssa.Function) *ssa.Function {
			for f.Parent() != nil {
				f = f.Parent()
			}
			return f
		}
		callers := map[*ssa.Function][]*ssa.Function{}
		for _, fn := range c.P.All {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok {
						if h := mc.Fn.(*ssa.Function); h.Synthetic != "" && h.Object() != nil {
							if g := c.P.Prog.FuncValue(h.Object().(*types.Func)); g != nil {
								callers[g] = append(callers[g], fn)
							}
						}
					}
					if ci, ok := in.(ssa.CallInstruction); ok {
						cc := ci.Common()
						if g := cc.StaticCallee(); g != nil {
							callers[g] = append(callers[g], fn)
							if g.String() == "(*sync.Once).Do" && len(cc.Args) == 2 {
								for _, o := range origins(cc.Args[1]) {
									if h := funcValue(o); h != nil {
										r.once[h] = true
										if f, ok := h.Object().(*types.Func); ok && h.Synthetic != "" {
											if g := c.P.Prog.FuncValue(f); g != nil {
												r.once[g] = true // a method value
											}
										}
									}
								}
							}
						}
						if isClose(in) {
							sites = append(sites, in)
							tops[top(fn)] = true
							if f := fieldOfChan(cc.Args[0]); f != "" {
								r.chans[f] = true
							}
						}
					}
				}
			}
		}
		// every field of a channel kept in an object whose helper closes it
		for again := true; again; {
			again = false
			for f := range tops {
				if token.IsExported(f.Name()) {
					continue
				}
				for _, g := range callers[f] {
					if t := top(g); !tops[t] {
						tops[t] = true
						again = true
					}
				}
			}
		}
		for _, fn := range c.P.All {
			if !tops[top(fn)] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if fa, ok := in.(*ssa.FieldAddr); ok {
						if p, ok := fa.Type().Underlying().(*types.Pointer); ok {
							if _, ok := p.Elem().Underlying().(*types.Chan); ok {
								r.chans[fieldLabel(fa)] = true
							}
						}
					}
				}
			}
		}
		var ts []*ssa.Function
		for f := range tops {
			ts = append(ts, f)
		}
		sort.Slice(ts, func(i, j int) bool { return ts[i].String() < ts[j].String() })
		done := map[*ssa.Function]bool{}
		opts := func(root *ssa.Function) *runOpts {
			return &runOpts{forall: []string{"-"}, noInline: func(f *ssa.Function) bool {
				return f.Synthetic == "" && pkgOf(f) != pkgOf(root) || !c.P.mentions(f, isClose) && !c.P.mentions(f, isLocking) && !c.P.mentions(f, r.makes)
			}}
		}
		var later []*ssa.Function
		for _, f := range ts {
			for _, g := range goRoots(f) {
				if !done[g] {
					done[g] = true
					c.FlowFn(g, r.mon(g, false), opts(g))
				}
			}
			if (token.IsExported(f.Name()) || len(callers[f]) == 0) && !done[f] {
				later = append(later, f)
			}
		}
		for _, f := range later {
			if !done[f] {
				done[f] = true
				c.FlowFn(f, r.mon(f, true), opts(f))
			}
		}
		for _, f := range ts {
			for _, g := range append(goRoots(f), f) {
				if done[g] && directly(g, func(in ssa.Instruction) bool {
					s, ok := in.(*ssa.Go)
					return ok && s.Call.StaticCallee() != nil && !r.guarded(s.Call.StaticCallee())
				}) {
					c.FlowFn(g, r.mon(g, false), opts(g))
				}
			}
		}
		for _, in := range sites {
			c.Oblige("close.seen", "close in "+fnLabel(in.Parent()), in.Pos(), r.reached[in], nil, "the channel closed here is closed on no path that was analysed")
		}
		var ks []string
		for k := range r.sole {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			cl := r.sole[k]
			var roots []*ssa.Function
			for f := range cl.roots {
				roots = append(roots, f)
			}
			sort.Slice(roots, func(i, j int) bool { return roots[i].String() < roots[j].String() })
			c.Oblige("close.sole", k, cl.pos, len(roots) == 1, nil, "the channel is closed by %v and %v, and nothing keeps the other from closing it too", roots[0], roots[len(roots)-1])
			var maker *ssa.Function
			if strings.HasPrefix(k, "var ") {
				for _, fn := range c.P.All {
					for _, b := range fn.Blocks {
						for _, in := range b.Instrs {
							if v, ok := in.(*ssa.MakeChan); ok && "var "+v.Name()+"@"+c.P.where(v.Pos()) == k {
								maker = fn
							}
						}
					}
				}
			}
			c.Oblige("close.shared", k, cl.pos, maker != nil || !strings.HasPrefix(k, "var ") && !strings.Contains(k, "[]") && strings.Contains(k, ".") && !strings.Contains(k, "@"), nil, "the channel is shared with other goroutines that may have closed it")
			why := ""
			ok := r.runsOnce(roots[0], maker, &why)
			c.Oblige("close.sole", k+" by "+fnLabel(roots[0]), cl.pos, ok, nil, "the channel may be closed twice: %s", why)
		}
		c.Min("close.seen", 4)
		r.senders()
		// what the other goroutines of a stream and of a Kafka consumer may
		// still send, and when
		expl := c.Explain
		for _, p := range []string{"T07", "T09"} {
			c.only = map[string]bool{}
			for _, n := range reuse[p] {
				c.only[n] = true
			}
			registry[p](c)
		}
		c.only = nil
		c.Explain = expl
	})
}

var reuse = map[string][]string{
	"T07": {"anchor", "close.once", "close.history", "close.ended", "close.locked", "send.open", "live.locked", "live.open", "live.once", "sub.read", "barrier.add", "barrier.once", "service.shared"},
	"T09": {"anchor", "stop.order", "stop.partitions", "reader.finished", "start.counted"},
}

// senders: nothing is sent on a channel kept in a field that is closed; what is
// sent on a variable is sent by the goroutines whose end is waited for.
func (r *closeRoles) senders() {
	for _, fn := range r.c.P.All {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var chs []ssa.Value
				switch u := in.(type) {
				case *ssa.Send:
					chs = append(chs, u.Chan)
				case *ssa.Select:
					for _, st := range u.States {
						if st.Dir == types.SendOnly {
							chs = append(chs, st.Chan)
						}
					}
				}
				for _, ch := range chs {
					if f := fieldOfChan(ch); f != "" {
						r.c.Oblige("send.closed", f+" in "+fnLabel(fn), in.Pos(), !r.keys[f], nil, "a message is sent on a channel that may have been closed")
						continue
					}
					o := originOf(cellOf(ch))
					if o == nil {
						continue
					}
					k := "var " + o.Name() + "@" + r.c.P.where(o.Pos())
					if cl := r.sole[k]; cl != nil {
						self := cl.roots[fn]
						r.c.Oblige("send.closed", k+" in "+fnLabel(fn), in.Pos(), !self || fn.Parent() != nil && chanElem(ch.Type()) != "*sarama.ConsumerMessage", nil, "a message is sent on a channel by the goroutine that closes it")
						if chanElem(ch.Type()) == "*sarama.ConsumerMessage" {
							reads := r.readerOnly(fn, 0)
							r.c.Oblige("send.closed", k+" in "+fnLabel(fn), in.Pos(), reads, nil, "a message is sent on a channel by a goroutine that is not waited for before it is closed")
						}
					}
				}
			}
		}
	}
}

// readerOnly: the function is part of partition readers only.
func (r *closeRoles) readerOnly(fn *ssa.Function, depth int) bool {
	if r.c.P.mentions(fn, callsSuffix("OrderedMessageProcessor).ProcessMessage")) {
		return false
	}
	if r.c.P.mentions(fn, receives("*sarama.ConsumerMessage")) {
		return true
	}
	if depth > 3 || fn.Parent() != nil || token.IsExported(fn.Name()) {
		return false
	}
	n := 0
	for _, g := range r.c.P.repoFuncs(pkgOf(fn)) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if *o != ssa.Value(fn) {
						continue
					}
					if c, ok := in.(*ssa.Call); !ok || c.Call.Value != ssa.Value(fn) || !r.readerOnly(g, depth+1) {
						return false
					}
					n++
				}
			}
		}
	}
	return n > 0
}

// makes: makes an object with channels that are closed.
func (r *closeRoles) makes(in ssa.Instruction) bool {
	a, ok := in.(*ssa.Alloc)
	if !ok || !a.Heap {
		return false
	}
	t := a.Type().Underlying().(*types.Pointer).Elem()
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if r.chans[shortType(t)+"."+st.Field(i).Name()] {
			return true
		}
	}
	return false
}

// isLocking: takes or releases a lock, or runs a Once.
func isLocking(in ssa.Instruction) bool {
	if s, ok := in.(*ssa.Select); ok && !s.Blocking {
		return true
	}
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	f := c.Common().StaticCallee()
	return f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "sync"
}
