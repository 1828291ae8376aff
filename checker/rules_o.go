package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	ompT = "delivery.OrderedMessageProcessor."
	cuT  = "delivery.ChainUpdate."
)

// sliceFlow finds every append and literal that contributes to a slice field, in
// every function the slice passes through, and the calls it passes through.
func (p *Program) sliceFlow(class string) (steps map[ssa.Instruction]bool) {
	steps = map[ssa.Instruction]bool{}
	type node struct {
		v   ssa.Value
		top *ssa.Call
	}
	seen := map[node]bool{}
	var walk func(v ssa.Value, stack []*ssa.Call)
	returns := func(c *ssa.Call, i int, stack []*ssa.Call) {
		f := c.Call.StaticCallee()
		if f == nil || !p.inRepo(f) || len(stack) > 8 {
			return
		}
		steps[c] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if r, ok := in.(*ssa.Return); ok && i < len(r.Results) {
					walk(r.Results[i], append(stack[:len(stack):len(stack)], c))
				}
			}
		}
	}
	walk = func(v ssa.Value, stack []*ssa.Call) {
		var top *ssa.Call
		if len(stack) > 0 {
			top = stack[len(stack)-1]
		}
		if v == nil || seen[node{v, top}] {
			return
		}
		seen[node{v, top}] = true
		for _, o := range origins(v) {
			seen[node{o, top}] = true
			switch o := o.(type) {
			case *ssa.Slice:
				if _, ok := o.X.(*ssa.Alloc); ok {
					continue
				}
				walk(o.X, stack)
			case *ssa.Call:
				if b, ok := o.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
					steps[o] = true
					for _, a := range o.Call.Args {
						walk(a, stack)
					}
					continue
				}
				returns(o, 0, stack)
			case *ssa.Extract:
				if c, ok := o.Tuple.(*ssa.Call); ok {
					returns(c, o.Index, stack)
				}
			case *ssa.Parameter:
				idx := -1
				for i, q := range o.Parent().Params {
					if q == o {
						idx = i
					}
				}
				if top != nil && top.Call.StaticCallee() == o.Parent() {
					walk(top.Call.Args[idx], stack[:len(stack)-1])
					continue
				}
				for _, cs := range p.callsTo(func(string) bool { return true }) {
					if cs.In.Common().StaticCallee() == o.Parent() {
						walk(cs.In.Common().Args[idx], nil)
					}
				}
			}
		}
	}
	for _, w := range p.writesTo(class) {
		if w.Kind == "store" {
			walk(w.Val, nil)
		}
	}
	return
}

// chainRoles: the appends that build the added ("A") and removed ("R") blocks.
func (p *Program) chainRoles() map[ssa.Instruction]string {
	if p.roles == nil {
		p.roles = map[ssa.Instruction]string{}
		for role, cl := range map[string]string{"A": cuT + "added", "R": cuT + "removed"} {
			for a := range p.sliceFlow(cl) {
				p.roles[a] += role
			}
		}
	}
	return p.roles
}

// chainRole: the role of an append, told apart by its callers where a helper is
// used for both.
func (p *Program) chainRole(ev *Event) string {
	roles := p.chainRoles()
	r := roles[ev.Instr]
	for c := ev.Ctx; len(r) > 1 && c != nil && c.site != nil; c = c.parent {
		if q := roles[c.site]; q != "" {
			r = q
		}
	}
	return r
}

func ghost(name string, args ...*Term) *Term {
	return mk("ghost", name, types.Typ[types.Bool], args...)
}

func (x *Exec) setGhost(g *Term) {
	if !g.junk {
		x.S.facts[g] = true
	}
}

// ghosts calls f for every ghost fact of the given name.
func (x *Exec) ghosts(name string, f func(args []*Term) bool) bool {
	for g, v := range x.S.facts {
		if v && g.Op == "ghost" && g.Name == name && f(g.Args) {
			return true
		}
	}
	return false
}

// pbField: t is the given field of a block; returns the block.
func pbField(t *Term, name string) *Term {
	if t != nil && t.Op == "old" {
		t = t.Args[0]
	}
	if t != nil && t.Op == "ld" && t.Args[0].Op == "&f" && t.Args[0].Name == pbT+name {
		return t.Args[0].Args[0]
	}
	if t != nil && t.Op == "fld" && t.Name == pbT+name {
		return t.Args[0]
	}
	return nil
}

type seqT struct {
	f, l  *Term
	empty bool
	known bool
}

// seq describes a slice of blocks: its first and last element.
func (x *Exec) seq(t *Term) seqT {
	if t == nil {
		return seqT{}
	}
	if l, ok := x.S.sliceElems(t); ok {
		if len(l.Args) == 0 {
			return seqT{empty: true, known: true}
		}
		return seqT{f: l.Args[0], l: l.Args[len(l.Args)-1], known: true}
	}
	ms := x.MS()
	for _, r := range []string{"A", "R"} {
		if s := ms.Get(r + ".s"); s != nil && sameT(s, t) {
			if r == "A" && ms.Get("A.sl") != nil {
				return seqT{f: ms.Get("A.f"), l: ms.Get("A.sl"), known: true}
			}
			return seqT{f: ms.Get(r + ".f"), l: ms.Get(r + ".l"), known: true}
		}
	}
	if t.Op == "append" {
		a, b := x.seq(t.Args[0]), x.seq(t.Args[1])
		return joinSeq(a, b)
	}
	return seqT{}
}

func joinSeq(a, b seqT) seqT {
	if !a.known || !b.known {
		return seqT{}
	}
	if a.empty {
		return b
	}
	if b.empty {
		return a
	}
	return seqT{f: a.f, l: b.l, known: true}
}

// canonObj replaces s[0] and s[len(s)-1] by the element they denote.
func (x *Exec) canonObj(t *Term) *Term {
	if t == nil {
		return nil
	}
	u := t
	if u.Op == "old" {
		u = u.Args[0]
	}
	if u.Op != "ld" || u.Args[0].Op != "&i" {
		return t
	}
	s, i := u.Args[0].Args[0], u.Args[0].Args[1]
	q := x.seq(s)
	if !q.known || q.empty {
		return t
	}
	if n, ok := i.Int(); ok && n == 0 {
		return q.f
	}
	if b, k := linear(i); b != nil && k == -1 && b.Op == "len" && sameT(b.Args[0], s) {
		return q.l
	}
	return t
}

func (x *Exec) isClass(t *Term, class string) bool {
	c, _, _ := x.class(t)
	return c == class
}

// link: f is known to be a child of l.
func (x *Exec) link(l, f *Term) bool {
	if l == nil || f == nil {
		return false
	}
	if x.S.Known(atomEq(x.fieldV(pbT+"ParentHash", f), x.fieldV(pbT+"Hash", l))) {
		return true
	}
	if x.ghosts("blk", func(a []*Term) bool {
		p := pbField(a[1], "ParentHash")
		return sameT(a[0], l) && p != nil && sameT(p, f)
	}) {
		return true
	}
	head := x.MS().Get("hh")
	return x.ghosts("kid", func(a []*Term) bool {
		if !sameT(a[0], f) {
			return false
		}
		if h := pbField(a[1], "Hash"); h != nil && sameT(x.canonObj(h), l) {
			return true
		}
		return head != nil && sameT(head, l) && sameT(a[1], x.fieldV(ompT+"lastHash", x.omp()))
	})
}

func (x *Exec) omp() *Term { return x.E.paramOfType("*delivery.OrderedMessageProcessor") }
func (x *Exec) pb() *Term  { return x.E.paramOfType("*delivery.PendingBatch") }

// heavierThanHead: b is known to weigh strictly more than the current head.
func (x *Exec) heavierThanHead(b *Term) bool {
	if b == nil {
		return false
	}
	s := x.S
	w := s.bigVal(x.fieldV(pbT+"Weight", b))
	h := s.bigVal(x.fieldV(ompT+"lastWeight", x.omp()))
	return x.cmpKnown(w, h)
}

// cmpKnown: a is known to be strictly greater than b.
func (x *Exec) cmpKnown(a, b *Term) bool {
	return x.ltFact(b, a, true)
}

// notHeavier: a is known to weigh at most as much as b.
func (x *Exec) notHeavier(a, b *Term) bool {
	return x.ltFact(b, a, false) || x.ltFact(a, b, true)
}

// ltFact: a < b is known to be v.
func (x *Exec) ltFact(a, b *Term, v bool) bool {
	if a == nil || b == nil {
		return false
	}
	if v && x.S.Known(atomLt(a, b)) || !v && x.S.KnownNot(atomLt(a, b)) {
		return true
	}
	for f, w := range x.S.facts {
		if w == v && f.Op == "lt" && sameT(f.Args[0], a) && sameT(f.Args[1], b) {
			return true
		}
	}
	return false
}

// finishedFact: what is known about the finished cache containing a hash.
func (x *Exec) finishedFact(pred func(h *Term) bool) (val, known bool) {
	for f, b := range x.S.facts {
		if f.Op == "call" && f.Name == "(*lru.Cache).Contains" && len(f.Args) == 2 && x.isFinished(f.Args[0]) && pred(f.Args[1]) {
			return b, true
		}
	}
	return false, false
}

func (x *Exec) isFinished(t *Term) bool {
	if t == nil {
		return false
	}
	l := x.loc(t)
	if l.Op == "old" {
		l = l.Args[0]
	}
	return l.Op == "ld" && l.Args[0].Op == "&f" && l.Args[0].Name == ompT+"finished"
}

// mapFact: what is known about membership of a key in a map field.
func (x *Exec) mapFact(class string, pred func(k *Term) bool) (val, known bool) {
	for f, b := range x.S.facts {
		if f.Op == "has" && pred(f.Args[1]) && x.isClass(f.Args[0], class) {
			return b, true
		}
		if f.Op == "eq" && f.Args[1].IsNil() && f.Args[0].Op == "at" && pred(f.Args[0].Args[1]) && x.isClass(f.Args[0].Args[0], class) {
			return !b, true
		}
	}
	return false, false
}

func isFieldOf(name string, obj *Term) func(k *Term) bool {
	return func(k *Term) bool {
		p := pbField(unold(k), name)
		return p != nil && sameT(p, obj)
	}
}

// noWaiting: no block waits for the block with hash h.
func (x *Exec) noWaiting(pred func(k *Term) bool) bool {
	if v, k := x.mapFact(ompT+"queued", pred); k && !v {
		return true
	}
	ok := false
	for f, v := range x.S.facts {
		var m *Term
		switch {
		case v && f.Op == "forall":
			m = f.Args[0]
		case v && f.Op == "lt" && f.Args[0].Op == "len":
			m = f.Args[0].Args[0]
		default:
			continue
		}
		if m.Op != "at" || !pred(m.Args[1]) || !x.isClass(m.Args[0], ompT+"queued") {
			continue
		}
		if x.forallHolds(m, func(n *State, e, k *Term) bool {
			y := &Exec{E: x.E, S: n}
			b, known := y.mapFact(ompT+"pending", func(q *Term) bool { return q == k })
			return known && !b
		}) {
			ok = true
		}
	}
	return ok
}

func (x *Exec) ck(props, rule, construct string, ev *Event, ok bool, format string, args ...interface{}) {
	if strings.Contains(props, x.E.C.Prop) {
		x.Check(rule, construct, ev, ok, format, args...)
	}
}

// excluded: the block is known to be excluded by the whitelist or its parent.
func (x *Exec) excluded(b *Term) bool {
	if v, k := x.mapFact(ompT+"blacklist", isFieldOf("ParentHash", b)); k && v {
		return true
	}
	return x.pinned(b, false)
}

// pinned: the whitelist entry of b's height is known to be (un)equal to its hash.
func (x *Exec) pinned(b *Term, same bool) bool {
	h := x.fieldV(pbT+"Hash", b)
	for f, v := range x.S.facts {
		if f.Op != "eq" || v != same {
			continue
		}
		for i := 0; i < 2; i++ {
			a, o := unold(f.Args[i]), f.Args[1-i]
			if a.Op == "at" && sameT(o, h) && x.isClass(a.Args[0], ompT+"whitelist") && isNumberOf(a.Args[1], b) {
				return true
			}
		}
	}
	return false
}

func isNumberOf(k, b *Term) bool {
	for k.Op == "conv" || k.Op == "old" {
		k = k.Args[0]
	}
	p := pbField(k, "Number")
	return p != nil && sameT(p, b)
}

// admitted: the block is known to be neither excluded by the whitelist nor a
// descendant of a block that is.
func (x *Exec) admitted(b *Term) (bool, string) {
	w, k := x.mapFact(ompT+"whitelist", func(q *Term) bool { return isNumberOf(q, b) })
	if !(k && !w) && !x.pinned(b, true) {
		return false, "the whitelist may exclude it"
	}
	if v, k := x.mapFact(ompT+"blacklist", isFieldOf("ParentHash", b)); !k || v {
		return false, "its parent may have been excluded"
	}
	return true, ""
}

func (x *Exec) tooOld(b *Term) bool {
	// head.Number - b.Number > threshold, and lighter than the head
	s := x.S
	thr := x.fieldV(ompT+"reorgThreshold", x.omp())
	num := x.fieldV(pbT+"Number", b)
	for f, v := range s.facts {
		if f.Op != "lt" {
			continue
		}
		a, c := f.Args[0], f.Args[1]
		isDiff := func(t *Term) bool {
			return t.Op == "bin" && t.Name == "-" && pbField(t.Args[0], "Number") != nil && x.isHead(pbField(t.Args[0], "Number")) && sameT(t.Args[1], num)
		}
		if v && sameT(a, thr) && isDiff(c) {
			return true
		}
		// b.Number + threshold < head.Number
		isSum := func(t *Term) bool {
			return t.Op == "bin" && t.Name == "+" && (sameT(t.Args[0], num) && sameT(t.Args[1], thr) || sameT(t.Args[1], num) && sameT(t.Args[0], thr))
		}
		if v && isSum(a) && pbField(c, "Number") != nil && x.isHead(pbField(c, "Number")) {
			return true
		}
		// b.Number < head.Number - threshold
		if v && sameT(a, num) && c.Op == "bin" && c.Name == "-" && sameT(c.Args[1], thr) && pbField(c.Args[0], "Number") != nil && x.isHead(pbField(c.Args[0], "Number")) {
			return true
		}
	}
	return false
}

// isHead: b is the pending block registered under the current head's hash.
func (x *Exec) isHead(b *Term) bool {
	u := unold(b)
	if u.Op == "at" && x.isClass(u.Args[0], ompT+"pending") && sameT(u.Args[1], x.fieldV(ompT+"lastHash", x.omp())) {
		return true
	}
	return x.ghosts("blk", func(a []*Term) bool {
		return sameT(a[0], b) && sameT(a[1], x.fieldV(ompT+"lastHash", x.omp()))
	})
}

func monO(x *Exec, ev *Event) {
	s := x.S
	ms := x.MS()
	omp, pb := x.omp(), x.pb()
	fn := "?"
	if ev.Fn != nil {
		fn = calleeName(ev.Fn)
	}
	root := calleeName(x.E.Root)
	const all = "O01 O02 O03 O04 O05 O06"
	argmaxLoops(x, ev)
	if x.E.C.Prop == "O04" {
		finishLoops(x, ev)
	}
	admit := func(what string) {
		if !ms.Has("adm") {
			ok, why := x.admitted(pb)
			x.ck("O03", "admit", what+" in "+fn, ev, ok, "%s happens for a block although %s", what, why)
			if ok {
				ms.Flag("adm")
			}
		} else {
			x.ck("O03", "admit", what+" in "+fn, ev, true, "")
		}
	}
	switch ev.Kind {
	case EvRangeKey:
		if x.isClass(ev.Val, ompT+"queued[]") {
			if _, _, k := x.class(ev.Val); k != nil {
				k = unold(k)
				if h := pbField(k, "Hash"); h != nil {
					if c := x.canonObj(h); c != h {
						k = x.fieldV(pbT+"Hash", c)
					}
				}
				x.setGhost(ghost("kidk", ev.Key, k))
			}
		}
	case EvLoopBack:
		if l := ms.Get("A.l"); l != nil && x.E.C.Prop == "O04" && x.siblingsFinished(l) {
			ms.Flag("A.sib")
		}
		if l := ms.Get("A.l"); l != nil && (x.E.C.Prop == "O01" || x.E.C.Prop == "O02") {
			// a block carried round the loop, while the last one still has a name
			from := ev.Instr.Block()
			for _, in := range ev.Hdr.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if !isPtrTo(ph.Type(), "delivery.PendingBatch") {
					continue
				}
				if v := x.E.val(s, ph.Edges[predIndex(ev.Hdr, from)]); !sameT(v, l) && x.link(l, v) {
					ms.Set("A.kid", v)
				}
			}
		}
	case EvLookup:
		if x.isClass(ev.Map, ompT+"pending") {
			v := mkAt(ev.Map, ev.Key, nil)
			if m, ok := s.mem[v]; ok {
				v = m
			}
			key := ev.Key
			if h := pbField(key, "Hash"); h != nil {
				if c := x.canonObj(h); c != h {
					key = x.fieldV(pbT+"Hash", c)
				}
			}
			x.setGhost(ghost("blk", v, key))
			if o := pbField(unold(key), "ParentHash"); o != nil {
				for _, r := range []string{"A", "R"} {
					if f := ms.Get(r + ".f"); f != nil && sameT(x.canonObj(o), f) {
						ms.Set(r+".next", v)
					}
				}
			}
			if x.E.C.Prop == "O05" && x.isBest(ev.Key) {
				x.setGhost(ghost("best", v))
			}
			x.ghosts("kidk", func(a []*Term) bool {
				if sameT(a[0], ev.Key) {
					x.setGhost(ghost("kid", v, a[1]))
				}
				return false
			})
			for f, b := range s.facts {
				if b && f.Op == "has" && sameT(f.Args[1], ev.Key) && f.Args[0].Op == "at" && x.isClass(f.Args[0].Args[0], ompT+"queued") {
					k := f.Args[0].Args[1]
					if h := pbField(k, "Hash"); h != nil {
						if c := x.canonObj(h); c != h {
							k = x.fieldV(pbT+"Hash", c)
						}
					}
					x.setGhost(ghost("kid", v, k))
				}
			}
		}
	case EvBranch:
		x.pendingBlocks()
		if !ms.Has("dup") && !ms.Has("finpb") {
			if v, k := x.finishedFact(isFieldOf("Hash", pb)); k && v {
				if r := x.E.boolParam(); r == nil || s.KnownNot(r) {
					ms.Flag("dup")
				}
			}
		}
		if !ms.Has("pfin") {
			if v, k := x.finishedFact(isFieldOf("ParentHash", pb)); k && v {
				ms.Flag("pfin")
			}
		}
		if !ms.Has("adm") {
			if ok, _ := x.admitted(pb); ok {
				ms.Flag("adm")
			}
		}
		if !ms.Has("initok") && s.Known(x.fieldV(ompT+"initEmpty", omp)) {
			if v, k := x.finishedFact(isFieldOf("ParentHash", pb)); k && !v {
				ms.Flag("initok")
			}
		}
		// the two branches meet
		x.meet()
		// an ancestor is not there any more
		for _, r := range []string{"A", "R"} {
			f := ms.Get(r + ".f")
			if f == nil && r == "A" {
				f = pb
			}
			if f != nil && !ms.Has("missing") {
				if v, k := x.mapFact(ompT+"pending", isFieldOf("ParentHash", f)); k && !v {
					ms.Flag("missing")
				}
				x.ghosts("blk", func(a []*Term) bool {
					if p := pbField(a[1], "ParentHash"); p != nil && sameT(p, f) && s.Known(atomEq(a[0], cNil())) {
						ms.Flag("missing")
					}
					return false
				})
			}
		}
		if ms.Has("finpb") && !ms.Has("kids") && x.noWaiting(isFieldOf("Hash", pb)) {
			ms.Flag("kids")
		}
	case EvLoopExit, EvRangeDone, EvLeave:
		if ms.Has("finpb") && !ms.Has("kids") && x.noWaiting(isFieldOf("Hash", pb)) {
			ms.Flag("kids")
		}
	case EvMapUpdate:
		cl, _, _ := x.class(ev.Map)
		switch cl {
		case ompT + "pending":
			h := pbField(ev.Key, "Hash")
			x.ck("O01 O04", "index", "pending block is filed under its own hash in "+fn, ev, h != nil && sameT(h, ev.Val), "block %v is filed under %v", ev.Val, ev.Key)
			if sameT(ev.Val, pb) {
				admit("keeping the block")
				ms.Flag("pend")
			}
		case ompT + "queued[]":
			_, _, outer := x.class(ev.Map)
			h := pbField(unold(ev.Key), "Hash")
			var p *Term
			if outer != nil {
				p = pbField(unold(outer), "ParentHash")
			} else if ev.Map.Op == "mkmap" {
				for k, v := range s.mem {
					if v == ev.Map && k.Op == "at" && x.isClass(k.Args[0], ompT+"queued") {
						p = pbField(unold(k.Args[1]), "ParentHash")
					}
				}
			}
			x.ck("O01 O04 O05", "index", "waiting block is filed under its parent in "+fn, ev, h != nil && p != nil && sameT(h, p), "block hash %v is queued under %v", ev.Key, outer)
			if h != nil && sameT(h, pb) && p != nil && sameT(p, pb) {
				admit("queueing the block")
				ms.Flag("queued")
			}
		case ompT + "queued":
			p := pbField(unold(ev.Key), "ParentHash")
			ok := p != nil && ev.Val.Op == "mkmap"
			if ok {
				v, k := x.mapFact(ompT+"queued", isFieldOf("ParentHash", p))
				ok = k && !v
			}
			x.ck("O04", "index", "waiting blocks of a parent are not replaced in "+fn, ev, ok, "the blocks waiting for %v are replaced", ev.Key)
		case ompT + "blacklist":
			h := pbField(ev.Key, "Hash")
			x.ck("O03 O04", "exclude", "only excluded blocks are blacklisted in "+fn, ev, h != nil && x.excluded(h), "%v is blacklisted although it is not known to be excluded", ev.Key)
			if h != nil && sameT(h, pb) {
				ms.Flag("excl")
			}
		case ompT + "whitelist":
			x.ck("O03", "exclude", "whitelist is fixed in "+fn, ev, false, "the whitelist is changed")
		}
	case EvMapDelete:
		cl, _, _ := x.class(ev.Map)
		switch cl {
		case ompT + "pending":
			old := x.tooOld(pb)
			isPb := isFieldOf("Hash", pb)(ev.Key)
			if isPb {
				ms.Del("pend")
				if old {
					ms.Flag("old")
				}
			}
			v, k := x.finishedFact(func(h *Term) bool { return sameT(h, ev.Key) })
			okFin := k && !v || isPb && !ms.Has("dup") && !ms.Has("finpb") && old
			x.ck("O06", "evict", "only blocks outside the history are dropped in "+fn, ev, okFin, "block %v is dropped although it may still be in the history", ev.Key)
			x.ck("O04", "drop", "blocks are only dropped when too old in "+fn, ev, isPb && old || k && !v && !isPb, "block %v is dropped although it is not known to be older than the head by more than the reorg threshold", ev.Key)
		case ompT + "queued", ompT + "queued[]":
			x.ck("O04 O05", "drop", "waiting blocks are not forgotten in "+fn, ev, false, "waiting block %v is forgotten", ev.Key)
		case ompT + "blacklist":
			x.ck("O03", "exclude", "excluded blocks stay excluded in "+fn, ev, false, "%v is taken off the blacklist", ev.Key)
		}
	case EvStore:
		if ev.Addr.Op != "&f" {
			return
		}
		switch ev.Addr.Name {
		case ompT + "lastHash", ompT + "lastWeight":
			name := "Hash"
			slot := "hh"
			if ev.Addr.Name == ompT+"lastWeight" {
				name, slot = "Weight", "hw"
			}
			admit("moving the head")
			x.meet()
			o := x.canonObj(pbField(ev.Val, name))
			if o == nil {
				x.ck("O01", "head", "head is set from a block in "+fn, ev, false, "the head's %s becomes %v, which is not taken from a block", strings.ToLower(name), ev.Val)
				ms.Del(slot)
				ms.Flag(slot + "?")
				return
			}
			if !ms.Has("att") {
				// the first move of the head: how the new blocks are attached
				att := "none"
				first := ms.Get("A.f")
				if first == nil {
					first = o
				}
				switch {
				case s.Known(atomEq(x.fieldV(pbT+"ParentHash", first), x.fieldV(ompT+"lastHash", omp))) && name == "Hash" || name == "Weight" && s.Known(atomEq(x.fieldV(pbT+"ParentHash", first), x.fieldV(ompT+"lastHash", omp))):
					att = "head"
				case ms.Has("meet") && sameT(ms.Get("meet"), first):
					att = "meet"
				case s.Known(x.fieldV(ompT+"initEmpty", omp)):
					if v, k := x.finishedFact(isFieldOf("ParentHash", first)); k && !v || ms.Has("initok") && sameT(first, pb) {
						att = "init"
					}
				}
				ms.Set("att", cStr(att))
				ms.Set("att.first", first)
				ms.Set("att.new", o)
				if x.heavierThanHead(o) {
					ms.Set("hv", o)
				}
				ms.Del("sent")
			}
			ms.Set(slot, o)
			ms.Del(slot + "?")
		case ompT + "pending", ompT + "queued", ompT + "finished", ompT + "whitelist", ompT + "blacklist":
			x.ck(all, "state", fieldOnly(ev.Addr.Name)+" is never replaced in "+fn, ev, false, "%s is replaced", fieldOnly(ev.Addr.Name))
		}
	case EvCall:
		switch ev.Callee {
		case "builtin append":
			x.chainAppend(ev, fn)
			return
		case "(*lru.Cache).Add":
			if x.isFinished(ev.Recv) && len(ev.Args) > 0 {
				if o := x.canonObj(pbField(ev.Args[0], "Hash")); o != nil {
					x.setGhost(ghost("fin", o))
					x.setGhost(ghost("fin", pbField(ev.Args[0], "Hash")))
					if sameT(o, pb) {
						admit("finishing the block")
						ms.Flag("finpb")
						if !ms.Has("kids") && x.noWaiting(isFieldOf("Hash", pb)) {
							ms.Flag("kids")
						}
					}
					if u := ms.Get("unfin"); u != nil && sameT(u, o) {
						ms.Del("unfin")
					}
				}
			}
		case "(*lru.Cache).Remove", "(*lru.Cache).Purge", "(*lru.Cache).Resize", "(*lru.Cache).RemoveOldest":
			if x.isFinished(ev.Recv) {
				x.ck("O04 O06", "history", "finished blocks stay in the history in "+fn, ev, false, "finished blocks are removed from the history")
			}
		}
		if ev.CalleeF == x.E.Root && ev.Repo {
			// the handler calls itself for a waiting block
			var b, r *Term
			for _, a := range ev.Args {
				if a.Typ != nil && isNamed(a.Typ, "delivery.PendingBatch") {
					b = a
				} else if a.Typ != nil && isBoolType(a.Typ) {
					r = a
				}
			}
			ok := b != nil && x.ghosts("kid", func(a []*Term) bool { return sameT(a[0], b) && isFieldOf("Hash", pb)(a[1]) })
			if ok {
				if (r == nil || s.Known(r)) && x.siblingsFinished(b) {
					ms.Flag("kids")
				}
				x.ck("O04", "retry", "waiting child is handled although it is finished in "+fn, ev, r == nil || s.Known(r), "a waiting child is handed on as if it were new: when it is finished it is ignored")
			}
		}
		if v, ok := isFeedSend(ev, ompT+"updateFeed"); ok {
			x.chainSend(ev, v, fn)
		}
	case EvExit:
		x.ck("O01 O02", "sent", "the head only moves with an update in "+root, ev, !(ms.Has("hh") || ms.Has("hw") || ms.Has("hh?") || ms.Has("hw?")) || ms.Has("sent"), "the head moves but no chain update is emitted")
		kept := ms.Has("pend") && ms.Has("queued")
		ok := ms.Has("emit") || kept || ms.Has("excl") || ms.Has("dup") || ms.Has("old") || ms.Has("missing")
		x.ck("O04", "kept", "block is emitted, kept or excluded in "+root, ev, ok, "a block is neither emitted nor kept although nothing excludes it (pending: %v, queued: %v)", ms.Has("pend"), ms.Has("queued"))
		if kept && ms.Has("pfin") && !ms.Has("emit") && !ms.Has("missing") {
			x.ck("O04", "side", "block on a known branch is finished in "+root, ev, ms.Has("finpb"), "a block whose parent is known is kept without being marked finished, so a heavier block on top of it would only wait for it")
			x.ck("O04", "side", "blocks waiting for a kept block are reconsidered in "+root, ev, ms.Has("kids"), "a block is kept without reconsidering the blocks that were waiting for it")
		}
		if ms.Has("dup") || ms.Has("excl") {
			x.ck("O03", "excluded", "excluded block is remembered in "+root, ev, true, "")
		}
		if !ms.Has("adm") {
			x.ck("O03", "excluded", "excluded block is remembered in "+root, ev, ms.Has("excl"), "a block is dropped as excluded without being remembered, so its descendants are not excluded")
		}
	}
}

// pendingBlocks: the table of pending blocks has an entry exactly where it has a
// block (rule "index": only the block itself is ever filed).
func (x *Exec) pendingBlocks() {
	s := x.S
	type fact struct {
		f *Term
		v bool
	}
	var add []fact
	for f, v := range s.facts {
		switch {
		case f.Op == "has" && x.isClass(f.Args[0], ompT+"pending"):
			add = append(add, fact{atomEq(mkAt(f.Args[0], f.Args[1], nil), cNil()), !v})
		case f.Op == "eq" && f.Args[1].IsNil() && f.Args[0].Op == "at" && x.isClass(f.Args[0].Args[0], ompT+"pending"):
			add = append(add, fact{mkHas(f.Args[0].Args[0], f.Args[0].Args[1]), !v})
		}
	}
	for _, a := range add {
		if _, ok := s.facts[a.f]; !ok && !a.f.junk {
			s.facts[a.f] = a.v
		}
	}
}

func (e *Engine) boolParam() *Term {
	for _, p := range e.Root.Params {
		if isBoolType(p.Type()) {
			return mkParam("param", p.Name(), p.Type())
		}
	}
	return nil
}

// meet latches that the oldest block to add is known to be a child of the block
// below the oldest one to withdraw.
func (x *Exec) meet() {
	ms := x.MS()
	if ms.Has("meet") || ms.Has("att") {
		return
	}
	f := ms.Get("A.f")
	if f == nil {
		f = x.pb()
	}
	z := func(b *Term) bool { // b is where the withdrawn blocks start
		if r := ms.Get("R.f"); r != nil {
			if n := ms.Get("R.next"); n != nil && sameT(n, b) {
				return true
			}
			return x.ghosts("blk", func(a []*Term) bool { return sameT(a[0], b) && isFieldOf("ParentHash", r)(a[1]) })
		}
		return x.isHead(b)
	}
	ph := x.fieldV(pbT+"ParentHash", f)
	r := ms.Get("R.f")
	for g, v := range x.S.facts {
		if !v || g.Op != "eq" {
			continue
		}
		for i := 0; i < 2; i++ {
			if r != nil && sameT(g.Args[1-i], ph) && isFieldOf("ParentHash", r)(g.Args[i]) {
				ms.Set("meet", f)
				return
			}
			if o := pbField(g.Args[i], "Hash"); o != nil && sameT(g.Args[1-i], ph) && z(o) {
				ms.Set("meet", f)
				return
			}
		}
	}
}

// chainAppend follows the building of the slices of an update.
func (x *Exec) chainAppend(ev *Event, fn string) {
	role := x.E.P.chainRole(ev)
	if role == "" || len(ev.Args) < 2 {
		return
	}
	if len(role) > 1 {
		x.ck("O01 O02", "chain", "added and withdrawn blocks are kept apart in "+fn, ev, false, "the same slice is used for added and withdrawn blocks")
		return
	}
	ms := x.MS()
	a, b := x.seq(ev.Args[0]), x.seq(ev.Args[1])
	tail := false
	if A, T := ms.Get("A.s"), ms.Get("A.t"); role == "A" && ms.Has("att") && (A != nil || sameT(ms.Get("att.first"), ms.Get("att.new"))) {
		// blocks to be added later are gathered in a slice of their own
		at := func(t *Term) bool {
			q := x.seq(t)
			return A != nil && sameT(t, A) || A == nil && q.known && !q.empty && sameT(q.f, ms.Get("att.first")) && sameT(q.l, q.f)
		}
		switch {
		case T != nil && sameT(ev.Args[1], T) && at(ev.Args[0]):
			ms.Set("A.s", ev.Res)
			ms.Del("A.t")
			ms.Del("A.sl")
			return
		case T != nil && sameT(ev.Args[0], T) || T == nil && a.known && a.empty && b.known && !b.empty:
			tail = true
			if T == nil {
				if A == nil {
					ms.Set("A.f", ms.Get("att.first"))
					ms.Set("A.l", ms.Get("att.new"))
				}
				ms.Set("A.sl", ms.Get("A.l"))
			}
			a = seqT{f: ms.Get("A.f"), l: ms.Get("A.l"), known: true}
		}
	}
	if !a.known || !b.known {
		x.ck("O01 O02", "chain", "blocks of an update are resolved in "+fn, ev, false, "%v cannot be resolved", ev.Res)
		return
	}
	what := map[string]string{"A": "added", "R": "withdrawn"}[role]
	prop := map[string]string{"A": "O01 O02", "R": "O02"}[role]
	if !a.empty && !b.empty {
		next := ms.Get(role + ".next")
		linked := x.link(a.l, b.f) || role == "A" && ms.Get("A.kid") != nil && sameT(ms.Get("A.kid"), b.f) || next != nil && sameT(next, a.l) && ms.Get(role+".s") != nil && sameT(ms.Get(role+".s"), ev.Args[1])
		x.ck(prop, "chain", what+" blocks are linked in "+fn, ev, linked, "block %v follows %v although it is not known to be its child", b.f, a.l)
	}
	if a.empty && role == "R" && !b.empty && !ms.Has("R.s") {
		x.ck("O02", "chain", "withdrawing starts at the head in "+fn, ev, x.isHead(b.l), "the first withdrawn block is %v, not the current head", b.l)
	}
	j := joinSeq(a, b)
	if !a.empty && !b.empty && role == "A" && ms.Has("att") {
		// a waiting child is appended after the head
		if !ms.Has("base") {
			switch A := ms.Get("A.s"); {
			case !tail:
				ms.Set("base", cBool(x.allFinished(ev.Args[0])))
			case A != nil:
				ms.Set("base", cBool(x.allFinished(A)))
			default:
				ms.Set("base", cBool(x.ghosts("fin", func(g []*Term) bool { return sameT(g[0], ms.Get("att.new")) })))
			}
		}
		if u := ms.Get("unfin"); u != nil {
			ms.Set("base", cBool(false))
		}
		if !x.ghosts("fin", func(g []*Term) bool { return sameT(g[0], b.l) }) {
			ms.Set("unfin", b.l)
		}
		x.ck("O04", "siblings", "blocks beside an emitted one are finished in "+fn, ev, ms.Has("A.sib") || x.siblingsFinished(a.l), "%v is emitted without finishing the blocks waiting beside it, so heavier blocks on top of them would wait for ever", a.l)
		x.ck("O05", "choice", "appended block is the heaviest waiting one in "+fn, ev, x.isBest(b.f), "%v is appended although it was not chosen as the heaviest waiting block", b.f)
	}
	ms.Del("meet")
	if role == "A" {
		ms.Del("A.sib")
		ms.Del("A.kid")
	}
	if !j.empty {
		if tail {
			ms.Set("A.t", ev.Res)
		} else {
			ms.Set(role+".s", ev.Res)
		}
		ms.Set(role+".f", j.f)
		ms.Set(role+".l", j.l)
		if a.empty || !b.empty {
			ms.Del(role + ".next")
			x.ghosts("blk", func(g []*Term) bool {
				if isFieldOf("ParentHash", j.f)(g[1]) {
					ms.Set(role+".next", g[0])
					return true
				}
				return false
			})
		}
	}
}

func (x *Exec) allFinished(t *Term) bool {
	if q := x.seq(t); q.known && q.empty {
		return true
	}
	if l, ok := x.S.sliceElems(t); ok {
		all := true
		for _, e := range l.Args {
			if !x.ghosts("fin", func(g []*Term) bool { return sameT(g[0], e) }) {
				all = false
			}
		}
		return all || x.forallHolds(t, func(n *State, e, k *Term) bool { return n.facts[ghost("fin", e)] })
	}
	if t.Op == "append" || t.Op == "list" {
		for _, a := range t.Args {
			if !x.allFinished(a) {
				return false
			}
		}
		return true
	}
	return x.forallHolds(t, func(n *State, e, k *Term) bool { return n.facts[ghost("fin", e)] })
}

func (x *Exec) chainSend(ev *Event, v *Term, fn string) {
	ms := x.MS()
	s := x.S
	at, rt := x.fieldV(cuT+"added", v), x.fieldV(cuT+"removed", v)
	a, r := x.seq(at), x.seq(rt)
	if !a.known {
		x.ck("O01 O02", "chain", "blocks of an update are resolved in "+fn, ev, false, "the added blocks %v cannot be resolved", at)
		return
	}
	if !a.empty {
		hh, hw := ms.Get("hh"), ms.Get("hw")
		x.ck("O01", "head", "head hash is the last block added in "+fn, ev, hh != nil && sameT(hh, a.l), "an update is emitted whose last block is %v while the head's hash is taken from %v", a.l, hh)
		x.ck("O01", "head", "head weight is that of the last block added in "+fn, ev, hw != nil && sameT(hw, a.l), "an update is emitted whose last block is %v while the head's weight is taken from %v", a.l, hw)
		fin := x.allFinished(at)
		if !fin {
			if ms.Has("base") {
				fin = ms.Get("base") == cBool(true) && !ms.Has("unfin")
			}
		}
		x.ck("O01 O06", "finished", "every block added is marked finished in "+fn, ev, fin, "an update is emitted although not every block of it was (again) marked finished")
		att := ""
		if t := ms.Get("att"); t != nil {
			att, _ = t.Str()
		}
		x.ck("O01", "attached", "first block added follows the head or the common ancestor in "+fn, ev, att == "head" || att == "meet" || att == "init", "the first block added is neither a child of the head nor of the common ancestor")
		noRem := r.known && r.empty
		if ms.Has("R.s") && noRem {
			x.ck("O02", "withdrawn", "withdrawn blocks are reported in "+fn, ev, false, "blocks were collected to be withdrawn but the update reports none")
		}
		if !noRem {
			same := r.known && ms.Has("R.s") && sameT(ms.Get("R.s"), rt)
			x.ck("O02", "withdrawn", "withdrawn blocks are reported in "+fn, ev, same, "the withdrawn blocks %v are not the ones collected", rt)
		}
		if att != "head" && att != "init" {
			x.ck("O02", "ancestor", "branches meet at a common ancestor in "+fn, ev, att == "meet", "blocks are emitted although no common ancestor of the new branch and the current chain was found")
			x.ck("O02", "heavier", "new branch outweighs the head in "+fn, ev, ms.Has("hv") && sameT(ms.Get("hv"), ms.Get("att.new")), "blocks are withdrawn although the new branch is not known to be strictly heavier than the head")
		} else {
			x.ck("O02", "ancestor", "branches meet at a common ancestor in "+fn, ev, noRem, "blocks are withdrawn although the new block follows the head")
		}
		head := hh
		none := head != nil && x.noWaiting(isFieldOf("Hash", head))
		if !none && head != nil {
			lh := x.fieldV(ompT+"lastHash", x.omp())
			none = x.noWaiting(func(k *Term) bool {
				if sameT(k, lh) {
					return true
				}
				o := pbField(k, "Hash")
				return o != nil && sameT(x.canonObj(o), head)
			})
		}
		x.ck("O05", "drain", "the whole waiting chain is emitted in "+fn, ev, none, "an update is emitted although a block may still be waiting for its last block")
		x.ck("O04", "siblings", "blocks beside an emitted one are finished in "+fn, ev, ms.Has("A.sib") || x.siblingsFinished(a.l), "%v is emitted without finishing the blocks waiting beside it, so heavier blocks on top of them would wait for ever", a.l)
		pb := x.pb()
		if t := ms.Get("att.new"); t != nil && sameT(t, pb) || sameT(a.f, pb) || sameT(a.l, pb) {
			ms.Flag("emit")
		}
	}
	for _, k := range []string{"hh", "hw", "hh?", "hw?", "att", "att.first", "att.new", "hv", "meet", "base", "unfin", "A.s", "A.t", "A.sl", "A.f", "A.l", "A.next", "A.sib", "A.kid", "R.s", "R.f", "R.l", "R.next"} {
		ms.Del(k)
	}
	ms.Flag("sent")
	_ = s
}

func (x *Exec) isBest(b *Term) bool {
	if x.ghosts("best", func(a []*Term) bool {
		if sameT(a[0], b) {
			return true
		}
		u := unold(b)
		return u.Op == "at" && sameT(u.Args[1], a[0])
	}) {
		return true
	}
	return x.ghosts("best", func(a []*Term) bool {
		return x.ghosts("blk", func(g []*Term) bool { return sameT(g[0], b) && sameT(g[1], a[0]) })
	})
}

// bigPhi: the weight carried around a loop.
func bigPhi(h *ssa.BasicBlock) *ssa.Phi {
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if shortType(ph.Type()) == "*big.Int" {
			return ph
		}
	}
	return nil
}

// argmaxLoops checks the loops that look for the heaviest waiting block.
func argmaxLoops(x *Exec, ev *Event) {
	ms := x.MS()
	s := x.S
	switch ev.Kind {
	case EvRangeKey:
		if x.isClass(ev.Val, ompT+"queued[]") {
			ms.Set(loopSlot("wl", ev.Ctx, ev.Hdr), ev.Key)
			ms.Del(loopSlot("td", ev.Ctx, ev.Hdr))
			if ph := bigPhi(ev.Hdr); ph != nil {
				if t := s.top().env[ph]; t != nil {
					ms.Set(loopSlot("wc", ev.Ctx, ev.Hdr), t)
				}
			}
		}
	case EvLeave, EvCall:
		if ev.Kind == EvCall && !ev.Repo || ev.Res == nil || ev.Res.Typ == nil || shortType(ev.Res.Typ) != "*big.Int" {
			return
		}
		for _, k := range ms.Keys("wl:") {
			key := ms.Get(k)
			for _, a := range ev.Args {
				if sameT(a, key) || a.Contains(key) {
					if ev.Repo && ev.CalleeF != nil {
						x.E.C.oHelper(ev.CalleeF, "weight")
					}
					ms.Set("td"+strings.TrimPrefix(k, "wl"), ev.Res)
					s.facts[atomEq(ev.Res, cNil())] = false // blocks have weights
				}
			}
		}
	case EvLoopBack, EvLoopExit:
		if ev.Hdr == nil || !ms.Has(loopSlot("wl", ev.Ctx, ev.Hdr)) {
			return
		}
		fr := s.top()
		var maxPhi, childPhi *ssa.Phi
		for _, in := range ev.Hdr.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			switch shortType(ph.Type()) {
			case "*big.Int":
				maxPhi = ph
			case "types.Hash", "*delivery.PendingBatch":
				childPhi = ph
			}
		}
		if maxPhi == nil {
			return
		}
		if ev.Kind == EvLoopExit {
			if childPhi != nil {
				if t := fr.env[childPhi]; t != nil {
					x.setGhost(ghost("best", t))
				}
			}
			ms.DelAll(loopSlot("wl", ev.Ctx, ev.Hdr), loopSlot("wc", ev.Ctx, ev.Hdr), loopSlot("td", ev.Ctx, ev.Hdr))
			return
		}
		pi := -1
		for i, p := range ev.Hdr.Preds {
			if p == fr.block {
				pi = i
			}
		}
		fn := calleeName(fr.fn)
		key := ms.Get(loopSlot("wl", ev.Ctx, ev.Hdr))
		td := ms.Get(loopSlot("td", ev.Ctx, ev.Hdr))
		cur, nw := ms.Get(loopSlot("wc", ev.Ctx, ev.Hdr)), x.E.val(s, maxPhi.Edges[pi])
		var cc, cn *Term
		if childPhi != nil {
			cc, cn = fr.env[childPhi], x.E.val(s, childPhi.Edges[pi])
		}
		ok, why := false, ""
		switch {
		case cur != nil && sameT(nw, cur):
			gone := false
			if v, k := x.mapFact(ompT+"pending", func(q *Term) bool { return sameT(q, key) }); k && !v {
				gone = true
			}
			ok = gone || td != nil && x.notHeavier(s.bigVal(td), s.bigVal(cur))
			why = "a child is passed over although it is not known to lead to a lighter chain"
			if ok && childPhi != nil && !(cc != nil && sameT(cn, cc)) {
				ok, why = false, "another child is chosen without being heavier"
			}
		case td != nil && sameT(nw, td):
			ok = cur != nil && (cur.IsNil() || x.cmpKnown(s.bigVal(td), s.bigVal(cur)) || x.notHeavier(s.bigVal(cur), s.bigVal(td)))
			why = "a child is chosen although it is not known to lead to a heavier chain"
			if ok && childPhi != nil {
				u := unold(cn)
				if !(sameT(cn, key) || u.Op == "at" && sameT(u.Args[1], key)) {
					ok, why = false, "the weight of one child is recorded with another child"
				}
			}
		default:
			why = "the weight recorded is not that of the child"
		}
		x.ck("O05", "choice", "heaviest waiting child is selected in "+fn, ev, ok, "%s", why)
	}
}

// finishLoops follows the loops that finish the blocks waiting at a hash.
func finishLoops(x *Exec, ev *Event) {
	ms := x.MS()
	L := func(p string) string { return loopSlot(p, ev.Ctx, ev.Hdr) }
	switch ev.Kind {
	case EvCall:
		if ev.Repo && ev.CalleeF != nil && ev.CalleeF.Signature.Results().Len() == 0 && x.E.P.callsItself(ev.CalleeF) {
			for _, a := range ev.Args {
				if a.Typ != nil && isNamed(a.Typ, "types.Hash") {
					x.setGhost(ghost("fk", a))
					x.E.C.oHelper(ev.CalleeF, "finish")
				}
			}
		} else if ev.Repo && ev.CalleeF != nil && ev.CalleeF != x.E.Root && ev.CalleeF.Signature.Results().Len() == 0 {
			for _, a := range ev.Args {
				if a.Typ != nil && isPtrTo(a.Typ, "delivery.PendingBatch") {
					x.setGhost(ghost("sibs", a))
					x.setGhost(ghost("sibs", x.canonObj(a)))
					x.E.C.oHelper(ev.CalleeF, "siblings")
				}
			}
		}
	case EvRangeKey:
		if x.isClass(ev.Val, ompT+"queued[]") {
			ms.Set(L("sl"), ev.Key)
		}
	case EvLoopBack:
		if ev.Hdr == nil || !ms.Has(L("sl")) {
			return
		}
		key := ms.Get(L("sl"))
		if x.ghosts("fk", func(a []*Term) bool { return sameT(a[0], key) }) {
			return
		}
		for f, v := range x.S.facts {
			if !v || f.Op != "eq" {
				continue
			}
			for i := 0; i < 2; i++ {
				if b := pbField(unold(f.Args[i]), "Hash"); b != nil && sameT(f.Args[1-i], key) {
					if e := ms.Get(L("se")); e == nil || sameT(e, b) {
						ms.Set(L("se"), b)
						return
					}
				}
			}
		}
		ms.Flag(L("sbad"))
	case EvLoopExit:
		if ev.Hdr != nil && ms.Has(L("sl")) && !ms.Has(L("sdone")) {
			ms.DelAll(L("sl"), L("se"), L("sbad"))
		}
		if ev.Hdr != nil {
			ms.Del(L("sdone"))
		}
	case EvRangeDone:
		if !x.isClass(ev.Val, ompT+"queued[]") {
			return
		}
		_, _, k := x.class(ev.Val)
		if !ms.Has(L("sbad")) && k != nil {
			e := ms.Get(L("se"))
			k = unold(k)
			b := pbField(k, "ParentHash")
			x.setGhost(ghost("allfk", k))
			switch {
			case b != nil && (e == nil || sameT(e, b) || sameT(e, x.canonObj(b))):
				x.setGhost(ghost("sibs", b))
				x.setGhost(ghost("sibs", x.canonObj(b)))
			case e != nil && x.ghosts("kid", func(a []*Term) bool { return sameT(a[0], e) && sameT(a[1], k) }):
				x.setGhost(ghost("sibs", e))
			}
		}
		ms.DelAll(L("sl"), L("se"), L("sbad"))
	}
}

// siblingsFinished: every other block waiting for b's parent is known to be
// finished, with the blocks waiting for it.
func (x *Exec) siblingsFinished(b *Term) bool {
	if b == nil {
		return false
	}
	return x.ghosts("sibs", func(a []*Term) bool { return sameT(a[0], b) || sameT(x.canonObj(a[0]), b) }) || x.noWaiting(isFieldOf("ParentHash", b))
}

func (c *Ctx) oHelper(f *ssa.Function, kind string) {
	if c.helpers == nil {
		c.helpers = map[*ssa.Function]string{}
	}
	c.helpers[f] = kind
}

func (x *Exec) hashParam() *Term { return x.E.paramOfType("types.Hash") }

// monFinish: the helper finishes its block and all blocks waiting for it.
func monFinish(x *Exec, ev *Event) {
	ms := x.MS()
	h := x.hashParam()
	con := "descendants of a block are finished in " + calleeName(x.E.Root)
	finishLoops(x, ev)
	switch ev.Kind {
	case EvCall:
		if x.noWaiting(func(k *Term) bool { return sameT(k, h) }) {
			ms.Flag("none")
		}
		if ev.Callee == "(*lru.Cache).Add" && x.isFinished(ev.Recv) && len(ev.Args) > 0 && sameT(ev.Args[0], h) {
			ms.Flag("fin")
		}
	case EvLookup:
		// the answer of the lookup, whatever happens to the table afterwards
		if x.isClass(ev.Map, ompT+"queued") && sameT(ev.Key, h) {
			if !ms.Has("ask") {
				ms.Set("ask", mkHas(ev.Map, ev.Key))
			}
		}
	case EvExit:
		x.Check("siblings", con, ev, ms.Has("fin"), "the block itself is not marked finished")
		done := ms.Has("none") || ms.Has("ask") && x.S.KnownNot(ms.Get("ask")) || x.ghosts("allfk", func(a []*Term) bool { return sameT(a[0], h) }) || x.noWaiting(func(k *Term) bool { return sameT(k, h) })
		x.Check("siblings", con, ev, done, "not every block waiting for it is finished")
	}
}

// monSiblings: the helper finishes the other blocks waiting for its block's parent.
func monSiblings(x *Exec, ev *Event) {
	finishLoops(x, ev)
	if ev.Kind == EvExit {
		x.Check("siblings", "siblings of a block are finished in "+calleeName(x.E.Root), ev, x.siblingsFinished(x.pb()), "not every other block waiting for the parent is finished")
	}
}

// monWeight: the helper computes the greatest weight among a block and its
// waiting descendants.
func monWeight(x *Exec, ev *Event) {
	ms := x.MS()
	h := x.hashParam()
	con := "weight of a waiting chain in " + calleeName(x.E.Root)
	argmaxLoops(x, ev)
	isH := func(k *Term) bool { return sameT(k, h) }
	own := func(v *Term) bool {
		if v == nil {
			return false
		}
		if b := pbField(v, "Weight"); b != nil {
			u := unold(b)
			if u.Op == "at" && x.isClass(u.Args[0], ompT+"pending") && isH(u.Args[1]) {
				return true
			}
			return x.ghosts("blk", func(a []*Term) bool { return sameT(a[0], b) && isH(a[1]) })
		}
		has, known := x.mapFact(ompT+"pending", isH)
		return known && !has
	}
	phi := func() *Term {
		for _, in := range ev.Hdr.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if shortType(ph.Type()) == "*big.Int" {
				return x.S.top().env[ph]
			}
		}
		return nil
	}
	switch ev.Kind {
	case EvLookup:
		if x.isClass(ev.Map, ompT+"pending") {
			v := mkAt(ev.Map, ev.Key, nil)
			if m, ok := x.S.mem[v]; ok {
				v = m
			}
			x.setGhost(ghost("blk", v, ev.Key))
		}
	case EvBranch:
		x.pendingBlocks()
	case EvRangeKey, EvRangeDone:
		if !x.isClass(ev.Val, ompT+"queued[]") {
			return
		}
		_, _, k := x.class(ev.Val)
		if k == nil || !isH(k) {
			return
		}
		v := phi()
		if !ms.Has("init") {
			ms.Flag("init")
			x.Check("difficulty", con, ev, own(v), "the search does not start with the weight of the block itself")
		}
		if ev.Kind == EvRangeDone && v != nil {
			ms.Set("res", v)
		}
	case EvExit:
		ok := false
		if len(ev.Args) == 1 {
			r := ms.Get("res")
			ok = r != nil && sameT(r, ev.Args[0]) || x.noWaiting(isH) && own(ev.Args[0])
		}
		x.Check("difficulty", con, ev, ok, "the result %v is not the greatest weight over all waiting descendants", ev.Res)
	}
}

// monEvict: what leaves the history takes only itself, and what cannot be emitted
// any more, along.
func monEvict(x *Exec, ev *Event) {
	s := x.S
	fn := "?"
	if ev.Fn != nil {
		fn = calleeName(ev.Fn)
	}
	gone := func(k *Term) bool { // k left the history
		k = unold(k)
		if e := x.MS().Get("evicted"); e != nil && sameT(k, e) {
			return true
		}
		for _, p := range x.E.Root.Params {
			t := mkParam("param", p.Name(), p.Type())
			if k.Contains(t) && (k == t || k.Op == "fld" || k.Op == "conv" || k.Op == "assert" || k.Op == "unface" || unface(k) == t) {
				return true
			}
		}
		v, known := x.finishedFact(func(h *Term) bool { return sameT(h, k) })
		return known && !v
	}
	owner := func(k *Term) bool {
		if gone(k) {
			return true
		}
		b := pbField(k, "Hash")
		if b == nil {
			return false
		}
		u := unold(b)
		if u.Op == "at" && x.isClass(u.Args[0], ompT+"pending") && gone(u.Args[1]) {
			return true
		}
		return x.ghosts("blk", func(a []*Term) bool { return sameT(a[0], b) && gone(a[1]) })
	}
	switch ev.Kind {
	case EvLookup:
		if x.isClass(ev.Map, ompT+"pending") {
			v := mkAt(ev.Map, ev.Key, nil)
			if m, ok := s.mem[v]; ok {
				v = m
			}
			x.setGhost(ghost("blk", v, ev.Key))
		}
	case EvAssert:
		if p := x.E.Root.Params; len(p) > 0 && ev.Res != nil && ev.Val != nil && ev.Val == mkParam("param", p[0].Name(), p[0].Type()) {
			x.MS().Set("evicted", ev.Res)
		}
	case EvMapDelete:
		cl, _, _ := x.class(ev.Map)
		switch cl {
		case ompT + "pending", ompT + "queued":
			x.ck("O04 O06", "evict", "only blocks outside the history are dropped in "+fn, ev, owner(ev.Key), "%v is dropped although it may still be in the history", ev.Key)
		case ompT + "queued[]":
			_, _, k := x.class(ev.Map)
			x.ck("O04 O06", "evict", "only blocks outside the history are dropped in "+fn, ev, owner(ev.Key) || k != nil && owner(k), "%v is dropped although it may still be in the history", ev.Key)
		case ompT + "blacklist":
			x.ck("O03", "exclude", "excluded blocks stay excluded in "+fn, ev, false, "%v is taken off the blacklist", ev.Key)
		}
	case EvMapUpdate:
		cl, _, _ := x.class(ev.Map)
		switch cl {
		case ompT + "pending", ompT + "queued", ompT + "queued[]", ompT + "blacklist", ompT + "whitelist":
			x.ck("O03 O04 O06", "evict", "eviction adds nothing in "+fn, ev, false, "eviction changes %s", cl)
		}
	case EvStore:
		if ev.Addr.Op == "&f" && strings.HasPrefix(ev.Addr.Name, ompT) {
			x.ck("O01 O02 O04 O06", "evict", "eviction changes nothing else in "+fn, ev, false, "eviction changes %s", ev.Addr.Name)
		}
	case EvCall:
		if strings.HasPrefix(ev.Callee, "(*lru.Cache).") && x.isFinished(ev.Recv) {
			switch strings.TrimPrefix(ev.Callee, "(*lru.Cache).") {
			case "Remove", "Purge", "Resize", "RemoveOldest", "Add":
				x.ck("O04 O06", "evict", "eviction changes nothing else in "+fn, ev, false, "eviction changes the history")
			}
		}
		if ev.Repo && ev.CalleeF != nil && x.E.P.callsItself(ev.CalleeF) {
			for _, a := range ev.Args {
				if a.Typ != nil && isNamed(a.Typ, "types.Hash") {
					x.ck("O04 O06", "evict", "only blocks outside the history are dropped in "+fn, ev, owner(a), "%v is evicted although it may still be in the history", a)
				}
			}
		}
	}
}

// atLeastTwice: size is known to be at least twice v.
func atLeastTwice(size, v *Term) bool {
	var coef func(t *Term) (int64, bool)
	coef = func(t *Term) (int64, bool) {
		for t.Op == "conv" {
			t = t.Args[0]
		}
		if sameT(t, v) {
			return 1, true
		}
		if n, ok := t.Int(); ok {
			return 0, n >= 0
		}
		if t.Op != "bin" {
			return 0, false
		}
		a, b := t.Args[0], t.Args[1]
		switch t.Name {
		case "+":
			x, ok1 := coef(a)
			y, ok2 := coef(b)
			return x + y, ok1 && ok2
		case "*":
			for i := 0; i < 2; i++ {
				if n, ok := b.Int(); ok && n >= 0 {
					x, ok := coef(a)
					return x * n, ok
				}
				a, b = b, a
			}
		case "<<":
			if n, ok := b.Int(); ok && n >= 0 && n < 32 {
				x, ok := coef(a)
				return x << uint(n), ok
			}
		}
		return 0, false
	}
	n, ok := coef(size)
	if !ok {
		if b, k := linear(size); b != nil && k >= 0 {
			n, ok = coef(b)
		}
	}
	return ok && n >= 2
}

const ccfgT = "delivery.ConsumerConfig."

// oInit checks how an ordered message processor starts; it returns the function
// called for what leaves the history, and the processor's own goroutines.
func oInit(c *Ctx) (evict *ssa.Function) {
	ctor := "delivery.NewOrderedMessageProcessor"
	con := "a new processor in delivery.NewOrderedMessageProcessor"
	evicts := map[*Term]*ssa.Function{}
	inside := func(t *Term) bool { return t.Op == "&f" && strings.HasPrefix(t.Name, ompT) }
	c.Flow(ctor, func(x *Exec, ev *Event) {
		ms := x.MS()
		cfg := x.E.paramOfType("*delivery.ConsumerConfig")
		is := func(v *Term, f string) bool { return sameT(v, x.fieldV(ccfgT+f, cfg)) }
		switch ev.Kind {
		case EvStore:
			if ev.Addr.Op == "&f" && ev.Addr.Name == ccfgT+"Whitelist" {
				w := x.fieldV(ccfgT+"Whitelist", cfg)
				x.ck("O03", "init", "configured whitelist in "+ctor, ev, x.S.Known(atomEq(w, cNil())) || sameT(ev.Val, w), "the configured whitelist is replaced")
				ms.Set("wl", ev.Val)
			}
			if !inside(ev.Addr) {
				return
			}
			f := strings.TrimPrefix(ev.Addr.Name, ompT)
			ms.Flag("set:" + f)
			switch f {
			case "lastHash":
				x.ck("O01 O02", "init", con, ev, is(ev.Val, "LastHash"), "the head starts as %v", ev.Val)
			case "lastWeight":
				x.ck("O01 O02", "init", con, ev, is(ev.Val, "LastWeight") || x.S.Known(atomEq(x.fieldV(ccfgT+"LastWeight", cfg), cNil())), "the head's weight starts as %v", ev.Val)
			case "reorgThreshold":
				x.ck("O04 O06", "init", con, ev, is(ev.Val, "ReorgThreshold"), "the reorg threshold starts as %v", ev.Val)
			case "whitelist":
				w := x.fieldV(ccfgT+"Whitelist", cfg)
				ok := sameT(ev.Val, w) || ms.Get("wl") != nil && sameT(ev.Val, ms.Get("wl")) || x.S.Known(atomEq(w, cNil()))
				x.ck("O03", "init", con, ev, ok, "the whitelist starts as %v", ev.Val)
			case "initEmpty":
				lh := x.fieldV(ccfgT+"LastHash", cfg)
				x.ck("O01 O02", "init", con, ev, ev.Val == atomEq(lh, cZero(lh.Typ)) || ev.Val.IsConst() && x.knownZeroIs(lh, ev.Val), "the processor takes any first block when %v", ev.Val)
			case "pending", "queued", "blacklist":
				x.ck("O01 O02 O03 O04 O05 O06", "init", con, ev, ev.Val.Op == "mkmap", "%s starts as %v", f, ev.Val)
			case "finished":
				fn := evicts[ev.Val]
				x.ck("O04 O06", "init", con, ev, fn != nil, "the history %v does not drop what leaves it", ev.Val)
				if fn != nil {
					evict = fn
				}
				ms.Set("fin", ev.Val)
			}
		case EvCall:
			switch {
			case strings.HasPrefix(ev.Callee, "lru.New") && len(ev.Args) > 0:
				x.ck("O06", "history", "size of the history in "+ctor, ev, atLeastTwice(ev.Args[0], x.fieldV(ccfgT+"ReorgThreshold", cfg)), "the history keeps %v blocks", ev.Args[0])
				if ci, ok := ev.Instr.(ssa.CallInstruction); ok && len(ci.Common().Args) > 1 && ev.Res != nil && ev.Res.Op == "tuple" {
					if f := closureFn(ci.Common().Args[1]); f != nil {
						evicts[ev.Res.Args[0]] = f
					}
				}
			case ev.Callee == "(*lru.Cache).Add" && len(ev.Args) > 0 && is(ev.Args[0], "LastHash"):
				ms.Flag("start")
			case strings.HasSuffix(ev.Callee, "delivery.MessageProcessor).Subscribe") || strings.HasSuffix(ev.Callee, "types.Feed).Subscribe"):
				if len(ev.Args) > 0 {
					ms.Set("sub:"+ev.Args[0].String(), ev.Args[0])
				}
			}
		case EvGo:
			for _, a := range x.boundArgs(ev) {
				if a != nil && a.Typ != nil && shortType(a.Typ) == "chan *delivery.PendingBatch" {
					ok := false
					for _, k := range ms.Keys("sub:") {
						ok = ok || sameT(ms.Get(k), a)
					}
					x.ck("O04", "deliver", "blocks reach the ordering layer in "+ctor, ev, ok, "the goroutine waits for blocks on %v, which is not subscribed to the message processor", a)
					ms.Flag("go")
				}
			}
		case EvExit:
			if len(ev.Args) > 1 && x.knownNonNil(ev.Args[len(ev.Args)-1]) {
				return
			}
			x.ck("O04", "start", "starting block is finished in "+ctor, ev, ms.Has("start"), "the block the processor starts at is not finished, so no branch can start there")
			x.ck("O04", "deliver", "blocks reach the ordering layer in "+ctor, ev, ms.Has("go"), "no goroutine receives the message processor's blocks")
			for _, f := range map[string][]string{"O01": {"lastHash", "lastWeight", "initEmpty"}, "O02": {"lastHash", "lastWeight"}, "O03": {"whitelist", "blacklist"}, "O04": {"lastHash", "reorgThreshold", "pending", "queued"}, "O06": {"finished"}}[c.Prop] {
				x.Check("init", con, ev, ms.Has("set:"+f), "%s is not set", f)
			}
		}
	}, &runOpts{forall: []string{"-"}, noInline: func(f *ssa.Function) bool {
		return strings.HasSuffix(calleeName(f), ".NewMessageProcessor") || strings.Contains(calleeName(f), "MessageProcessor).")
	}})
	return evict
}

// knownZeroIs: t is known to be zero exactly when v is true.
func (x *Exec) knownZeroIs(t, v *Term) bool {
	b, _ := v.Bool()
	z, known := x.S.Query(atomEq(t, cZero(t.Typ)))
	return known && z == b
}

// closureFn: the function a function value is made from.
func closureFn(v ssa.Value) *ssa.Function {
	for _, o := range origins(v) {
		switch o := o.(type) {
		case *ssa.MakeClosure:
			return o.Fn.(*ssa.Function)
		case *ssa.Function:
			return o
		}
	}
	return nil
}

// oDeliver: every block received from the message processor is handled once, as
// a new block.
func oDeliver(c *Ctx) {
	ctor := c.Fn("delivery.NewOrderedMessageProcessor")
	h := c.Fn("delivery.OrderedMessageProcessor.HandlePendingBatch")
	if ctor == nil || h == nil {
		return
	}
	n := 0
	for _, g := range goRoots(ctor) {
		if !directlyOrBelow(g, receives("*delivery.PendingBatch")) {
			continue
		}
		n++
		c.FlowFn(g, func(x *Exec, ev *Event) {
			ms := x.MS()
			con := "received blocks are handled by the ordering goroutine"
			open := func() {
				x.Check("deliver", con, ev, !ms.Has("cur"), "a block is received but not handled")
			}
			switch ev.Kind {
			case EvRecv:
				if isPtrTo(ev.Val.Typ, "delivery.PendingBatch") {
					open()
					ms.Set("cur", ev.Val)
				}
			case EvLoopBack:
				open()
			case EvExit:
				open()
			case EvCall:
				if ev.CalleeF != h {
					return
				}
				var b, r *Term
				for _, a := range ev.Args {
					if a.Typ != nil && isPtrTo(a.Typ, "delivery.PendingBatch") {
						b = a
					} else if a.Typ != nil && isBoolType(a.Typ) {
						r = a
					}
				}
				x.Check("deliver", con, ev, b != nil && ms.Get("cur") != nil && sameT(b, ms.Get("cur")) && (r == nil || x.S.KnownNot(r)), "%v is handled, not the block received (or as if it were known)", b)
				ms.Del("cur")
			}
		}, &runOpts{forall: []string{"-"}, noInline: func(f *ssa.Function) bool { return f == h || strings.HasSuffix(calleeName(f), ".HandleReorg") }})
	}
	c.Oblige("deliver", "goroutine receiving blocks in delivery.NewOrderedMessageProcessor", ctor.Pos(), n == 1, nil, "%d goroutines receive the message processor's blocks", n)
}

func directlyOrBelow(f *ssa.Function, p func(in ssa.Instruction) bool) bool {
	for _, g := range allAnon(f) {
		if directly(g, p) {
			return true
		}
	}
	return false
}

// oWriters: the ordering layer's state is only changed by the functions analysed.
func oWriters(c *Ctx, classes ...string) {
	bad := map[string]bool{}
	n := 0
	for _, cl := range classes {
		for _, w := range c.P.writesTo(ompT + cl) {
			n++
			name := calleeName(w.Fn)
			if w.Fresh || c.Funcs[name] || c.oFuncs[name] || bad[cl+name] {
				continue
			}
			bad[cl+name] = true
			c.Oblige("writers", cl+" is changed by "+name, w.In.Pos(), false, nil, "%s is changed outside the functions that handle blocks", cl)
		}
	}
	c.Oblige("writers", "writes to "+strings.Join(classes, ", "), token.NoPos, len(bad) == 0, nil, "%d writes outside the functions analysed (of %d)", len(bad), n)
}

// recursiveHelper: a function that calls itself, or one without results that only
// calls such functions and changes nothing itself.
func (p *Program) recursiveHelper(f *ssa.Function) bool {
	self, effects := false, false
	seen := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function)
	walk = func(g *ssa.Function) {
		if seen[g] {
			return
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if _, ok := in.Addr.(*ssa.FieldAddr); ok && !freshBase(in.Addr.(*ssa.FieldAddr).X) {
						effects = true
					}
				case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Select:
					effects = true
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					if bi, ok := c.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "append") {
						effects = true
					}
					if h := c.Common().StaticCallee(); h != nil && p.inRepo(h) {
						if h == g {
							self = true
						}
						walk(h)
					}
				}
			}
		}
	}
	walk(f)
	return self && !effects && (f.Signature.Results().Len() == 0 || p.callsItself(f))
}

func (p *Program) callsItself(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == f {
				return true
			}
		}
	}
	return false
}

var irrO = map[string][]string{
	"O01": {ompT + "whitelist", ompT + "blacklist", ompT + "reorgThreshold", pbT + "Number"},
	"O02": {ompT + "whitelist", ompT + "blacklist", ompT + "reorgThreshold", pbT + "Number"},
	"O03": {ompT + "lastHash", ompT + "lastWeight", ompT + "initEmpty", pbT + "Weight", ompT + "finished", ompT + "queued", ompT + "reorgThreshold"},
	"O04": {},
	"O05": {ompT + "whitelist", ompT + "blacklist", ompT + "reorgThreshold", pbT + "Number"},
	"O06": {ompT + "whitelist", ompT + "blacklist"},
}

func init() {
	reg := func(id string, f func(c *Ctx)) {
		register(id, func(c *Ctx) {
			c.oFuncs = map[string]bool{}
			c.Flow("delivery.OrderedMessageProcessor.HandlePendingBatch", monO, &runOpts{forall: []string{"", ompT + "queued[]"}, irrelevant: irrO[id], noInline: c.P.recursiveHelper})
			evict := oInit(c)
			if strings.Contains("O03 O04 O06", id) && c.Oblige1("evict", "function called for what leaves the history", evict != nil, "no function is called for what leaves the history") {
				c.FlowFn(evict, monEvict, &runOpts{forall: []string{"-"}})
			}
			f(c)
			c.Min("fixpoint", 2)
		})
	}
	helpers := func(c *Ctx, kind string, m func(x *Exec, ev *Event)) {
		var fs []*ssa.Function
		for f, k := range c.helpers {
			if k == kind && !c.Funcs[calleeName(f)] {
				fs = append(fs, f)
			}
		}
		sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
		for _, f := range fs {
			c.FlowFn(f, m, &runOpts{forall: []string{"", ompT + "queued[]"}, noInline: c.P.recursiveHelper})
		}
	}
	reg("O01", func(c *Ctx) { oHead(c) })
	reg("O02", func(c *Ctx) { oHead(c) })
	reg("O03", func(c *Ctx) { oWriters(c, "whitelist", "blacklist") })
	reg("O04", func(c *Ctx) {
		helpers(c, "siblings", monSiblings)
		helpers(c, "finish", monFinish)
		oDeliver(c)
		oWriters(c, "pending", "queued", "finished")
	})
	reg("O05", func(c *Ctx) {
		helpers(c, "weight", monWeight)
	})
	reg("O06", func(c *Ctx) { oWriters(c, "pending", "finished") })
}

// oHead: apart from the handling of blocks, only a reorg command moves the head.
func oHead(c *Ctx) {
	if f := c.P.Func("delivery.OrderedMessageProcessor.HandleReorg"); f != nil {
		c.oFuncs[calleeName(f)] = true
	}
	oWriters(c, "lastHash", "lastWeight", "initEmpty")
}
