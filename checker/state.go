package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// MS is the typestate of a monitor: named slots, some of which hold terms (so
// that the engine can keep them in step with redefinitions).
type MS struct {
	F map[string]*Term
}

var tTrue = cBool(true)

func NewMS() *MS { return &MS{F: map[string]*Term{}} }
func (m *MS) Clone() *MS {
	n := NewMS()
	for k, v := range m.F {
		n.F[k] = v
	}
	return n
}
func (m *MS) Set(k string, t *Term) { m.F[k] = t }
func (m *MS) Flag(k string)         { m.F[k] = tTrue }
func (m *MS) Del(k string)          { delete(m.F, k) }
func (m *MS) DelAll(ks ...string) {
	for _, k := range ks {
		delete(m.F, k)
	}
}
func (m *MS) DelPrefix(p string) {
	for k := range m.F {
		if strings.HasPrefix(k, p) {
			delete(m.F, k)
		}
	}
}
func (m *MS) Get(k string) *Term { return m.F[k] }
func (m *MS) Has(k string) bool  { _, ok := m.F[k]; return ok }
func (m *MS) Keys(prefix string) []string {
	var r []string
	for k := range m.F {
		if strings.HasPrefix(k, prefix) {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

type deferRec struct {
	call *ssa.Defer
	args []*Term // args[0] = callee value when dynamic
}

type Frame struct {
	fn     *ssa.Function
	ctx    *Ctxt
	env    map[ssa.Value]*Term
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	idx    int
	call   ssa.Instruction // call instruction in the caller
	defers []deferRec
	indef  bool // frame is a deferred call: its result is discarded
	retSet *Term
	once   *Term // the frame is the body of this sync.Once
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]*Term, len(f.env))
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = append([]deferRec{}, f.defers...)
	return &n
}

// Ctxt is an inlining context (call string).
type Ctxt struct {
	id     int
	parent *Ctxt
	site   ssa.Instruction
	fn     *ssa.Function
}

type loopState struct {
	iters int // 0: header entered, 1: at least one iteration completed
	preds map[*Term]map[*Term]bool
	snap  map[*Term]*Term
	memK  map[*Term]bool // locations generalised
}

func (l *loopState) clone() *loopState {
	n := &loopState{iters: l.iters, preds: map[*Term]map[*Term]bool{}, snap: l.snap, memK: l.memK}
	for c, s := range l.preds {
		m := map[*Term]bool{}
		for p := range s {
			m[p] = true
		}
		n.preds[c] = m
	}
	return n
}

type loopKey struct {
	ctx *Ctxt
	hdr *ssa.BasicBlock
}

type step struct {
	parent *step
	block  *ssa.BasicBlock
	note   string
	depth  int
}

type State struct {
	frames []*Frame
	facts  map[*Term]bool
	mem    map[*Term]*Term
	fresh  map[*Term]bool // allocs/maps whose unwritten content is zero
	esc    map[*Term]bool // fresh objects that may be reachable from elsewhere
	mon    *MS
	loops  map[loopKey]*loopState
	tr     *step
	dead   bool
}

func (s *State) clone() *State {
	n := &State{facts: make(map[*Term]bool, len(s.facts)), mem: make(map[*Term]*Term, len(s.mem)), fresh: make(map[*Term]bool, len(s.fresh)), esc: make(map[*Term]bool, len(s.esc)), loops: make(map[loopKey]*loopState, len(s.loops)), mon: s.mon.Clone(), tr: s.tr}
	for _, f := range s.frames {
		n.frames = append(n.frames, f.clone())
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.fresh {
		n.fresh[k] = v
	}
	for k, v := range s.esc {
		n.esc[k] = v
	}
	for k, v := range s.loops {
		n.loops[k] = v.clone()
	}
	return n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

// ---------- facts ----------

func (s *State) rawQuery(a *Term) (bool, bool) {
	if b, ok := a.Bool(); ok {
		return b, true
	}
	if v, ok := s.facts[a]; ok {
		return v, true
	}
	return false, false
}

// bounds returns what the facts say about an integer term.
func (s *State) bounds(x *Term) (lo, hi int64, hasLo, hasHi bool, ne map[int64]bool) {
	if i, ok := x.Int(); ok {
		return i, i, true, true, nil
	}
	set := func(l int64) {
		if !hasLo || l > lo {
			lo, hasLo = l, true
		}
	}
	seth := func(h int64) {
		if !hasHi || h < hi {
			hi, hasHi = h, true
		}
	}
	if x.Op == "len" || x.Op == "cap" {
		set(0)
	}
	if x.Typ != nil {
		if b, ok := x.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			set(0)
			if b.Kind() == types.Uint8 {
				seth(255)
			}
		}
	}
	if x.Op == "ld" && x.Typ == types.Typ[types.Byte] {
		set(0)
	}
	for a, v := range s.facts {
		if len(a.Args) != 2 || a.Args[0] != x {
			continue
		}
		c, ok := a.Args[1].Int()
		if !ok {
			continue
		}
		if a.Op == "lt" {
			if v {
				seth(c - 1)
			} else {
				set(c)
			}
		} else if a.Op == "eq" {
			if v {
				set(c)
				seth(c)
			} else {
				if ne == nil {
					ne = map[int64]bool{}
				}
				ne[c] = true
			}
		}
	}
	for hasLo && ne[lo] {
		lo++
	}
	for hasHi && ne[hi] {
		hi--
	}
	return
}

// lowBound: a lower bound of an integer term, when one is known.
func (s *State) lowBound(t *Term) (int64, bool) {
	lo, _, h, _, _ := s.bounds(t)
	if t.Op == "bin" && (t.Name == "+" || t.Name == "-") {
		l := int64(0)
		ok := true
		for i, a := range t.Args {
			if t.Name == "-" && i == 1 {
				c, isc := a.Int()
				if !isc {
					ok = false
				}
				l -= c
				continue
			}
			x, k := s.lowBound(a)
			if !k {
				ok = false
			}
			l += x
		}
		if ok && (!h || l > lo) {
			return l, true
		}
	}
	return lo, h
}

// nonEmpty: v is a slice known to have an element.
func (s *State) nonEmpty(v *Term) bool {
	if v == nil || v.junk || v.Typ == nil {
		return false
	}
	if _, ok := v.Typ.Underlying().(*types.Slice); !ok {
		return false
	}
	l, ok := s.lowBound(mkLen(v))
	return ok && l >= 1
}

// Query decides a boolean term from the facts of the path.
func (s *State) Query(t *Term) (val, known bool) {
	pol := true
	for t.Op == "not" {
		t = t.Args[0]
		pol = !pol
	}
	if b, ok := t.Bool(); ok {
		return b == pol, true
	}
	if t.junk {
		return false, false
	}
	if v, ok := s.facts[t]; ok {
		return v == pol, true
	}
	r := func(b bool) (bool, bool) { return b == pol, true }
	switch t.Op {
	case "lt":
		x, y := t.Args[0], t.Args[1]
		if c, ok := y.Int(); ok {
			lo, hi, hl, hh, _ := s.bounds(x)
			if hh && hi < c {
				return r(true)
			}
			if hl && lo >= c {
				return r(false)
			}
			return false, false
		}
		if v, ok := s.facts[atomLt(y, x)]; ok && v {
			return r(false)
		}
		if v, ok := s.facts[atomEq(x, y)]; ok && v {
			return r(false)
		}
		// x < y where one side is bounded by constants
		_, xh, _, xhh, _ := s.bounds(x)
		yl, _, yll, _, _ := s.bounds(y)
		if xhh && yll && xh < yl {
			return r(true)
		}
		xl, _, xll, _, _ := s.bounds(x)
		_, yh, _, yhh, _ := s.bounds(y)
		if xll && yhh && xl >= yh {
			return r(false)
		}
		// neighbouring constants: x < y+k
		yb, yk := linear(y)
		for a, v := range s.facts {
			if a.Op == "lt" && a.Args[0] == x {
				b, k := linear(a.Args[1])
				if b == yb && b != nil {
					if v && k <= yk {
						return r(true)
					}
					if !v && k >= yk {
						return r(false)
					}
				}
			}
		}
	case "eq":
		x, y := t.Args[0], t.Args[1]
		if c, ok := y.Int(); ok {
			lo, hi, hl, hh, ne := s.bounds(x)
			if hl && c < lo || hh && c > hi || ne[c] {
				return r(false)
			}
			if hl && hh && lo == hi && lo == c {
				return r(true)
			}
			return false, false
		}
		if y.IsConst() {
			for a, v := range s.facts {
				if v && a.Op == "eq" && a.Args[0] == x && a.Args[1].IsConst() && a.Args[1] != y {
					return r(false)
				}
			}
			if y.IsNil() && x.Op == "at" {
				// absent => zero
				if v, ok := s.facts[mkHas(x.Args[0], x.Args[1])]; ok && !v {
					return r(true)
				}
			}
			return false, false
		}
		if v, ok := s.facts[atomLt(x, y)]; ok && v {
			return r(false)
		}
		if v, ok := s.facts[atomLt(y, x)]; ok && v {
			return r(false)
		}
	case "has":
		at := mkAt(t.Args[0], t.Args[1], nil)
		if z, ok := s.Query1(at); ok && !z {
			return r(true)
		}
		if s.fresh[t.Args[0]] {
			return r(false)
		}
		if v, k := s.Query(atomLt(mkLen(t.Args[0]), cInt(1))); k && v {
			return r(false)
		}
	case "forall":
		if v, k := s.Query(atomLt(mkLen(t.Args[0]), cInt(1))); k && v {
			return r(true)
		}
	}
	return false, false
}

// Query1: is term x known to be (zero, known)?
func (s *State) Query1(x *Term) (zero, known bool) {
	if v, ok := s.mem[x]; ok {
		x = v
	}
	if x.IsZero() {
		return true, true
	}
	if x.IsConst() || nonNilOp(x) {
		return false, true
	}
	if v, ok := s.facts[x]; ok {
		return !v, true
	}
	for a, v := range s.facts {
		if len(a.Args) == 2 && a.Args[0] == x {
			if a.Op == "eq" && a.Args[1].IsZero() {
				return v, true
			}
			if a.Op == "eq" && v && a.Args[1].IsConst() {
				return false, true
			}
			if a.Op == "lt" {
				if c, ok := a.Args[1].Int(); ok {
					if v && c <= 0 {
						return false, true
					}
					if !v && c >= 1 {
						return false, true
					}
				}
			}
		}
		if (a.Op == "lt") && a.Args[0].Op == "len" && a.Args[0].Args[0] == x {
			if c, ok := a.Args[1].Int(); ok && !v && c >= 1 {
				return false, true
			}
		}
	}
	return false, false
}

// Known reports whether t is known to hold.
func (s *State) Known(t *Term) bool    { v, k := s.Query(t); return k && v }
func (s *State) KnownNot(t *Term) bool { v, k := s.Query(t); return k && !v }

// Assume adds t==val; returns false when it contradicts the facts.
func (s *State) Assume(t *Term, val bool) bool {
	for t.Op == "not" {
		t = t.Args[0]
		val = !val
	}
	if v, k := s.Query(t); k {
		return v == val
	}
	if t.junk {
		return true
	}
	s.facts[t] = val
	return true
}

func mkAt(m, k *Term, typ types.Type) *Term {
	if typ == nil && m.Typ != nil {
		if mt, ok := m.Typ.Underlying().(*types.Map); ok {
			typ = mt.Elem()
		}
	}
	return mk("at", "", typ, m, k)
}
func mkHas(m, k *Term) *Term { return mk("has", "", types.Typ[types.Bool], m, k) }

// ---------- substitution ----------

func (s *State) allTerms(f func(*Term)) {
	for _, fr := range s.frames {
		for _, t := range fr.env {
			f(t)
		}
		for _, d := range fr.defers {
			for _, a := range d.args {
				f(a)
			}
		}
		if fr.retSet != nil {
			f(fr.retSet)
		}
	}
	for t := range s.facts {
		f(t)
	}
	for k, v := range s.mem {
		f(k)
		f(v)
	}
	for _, t := range s.mon.F {
		f(t)
	}
	for _, l := range s.loops {
		for c, ps := range l.preds {
			f(c)
			for p := range ps {
				f(p)
			}
		}
	}
}

func recanonFact(a *Term, v bool) (*Term, bool, bool) {
	switch a.Op {
	case "lt":
		b, p, k := canonCmp("<", a.Args[0], a.Args[1])
		if k != 0 {
			return nil, false, false
		}
		return b, p == v, true
	case "eq":
		b, p, k := canonCmp("==", a.Args[0], a.Args[1])
		if k != 0 {
			return nil, false, false
		}
		return b, p == v, true
	case "const":
		return nil, false, false
	case "not":
		return a.Args[0], !v, true
	}
	return a, v, true
}

// subst rewrites every term of the state. memToo: whether memory locations are
// rewritten (names of values only) - always true for redefinitions.
func (s *State) subst(f func(*Term) *Term) {
	memo := map[*Term]*Term{}
	g := func(t *Term) *Term { return substF(t, f, memo) }
	for _, fr := range s.frames {
		for k, t := range fr.env {
			if n := g(t); n != t {
				fr.env[k] = n
			}
		}
		for _, d := range fr.defers {
			for i, a := range d.args {
				d.args[i] = g(a)
			}
		}
		if fr.retSet != nil {
			fr.retSet = g(fr.retSet)
		}
	}
	var changed []*Term
	for t := range s.facts {
		if n := g(t); n != t {
			changed = append(changed, t)
		}
	}
	sort.Slice(changed, func(i, j int) bool { return changed[i].id < changed[j].id })
	add := map[*Term]bool{}
	for _, t := range changed {
		v := s.facts[t]
		delete(s.facts, t)
		n := g(t)
		if n.junk {
			continue
		}
		if a, p, ok := recanonFact(n, v); ok && !a.junk {
			add[a] = p
		}
	}
	for a, p := range add {
		if _, ok := s.facts[a]; !ok {
			s.facts[a] = p
		}
	}
	var mch []*Term
	for k, v := range s.mem {
		if g(k) != k || g(v) != v {
			mch = append(mch, k)
		}
	}
	sort.Slice(mch, func(i, j int) bool { return mch[i].id < mch[j].id })
	madd := map[*Term]*Term{}
	for _, k := range mch {
		v := s.mem[k]
		delete(s.mem, k)
		nk := g(k)
		if nk.junk {
			continue
		}
		madd[nk] = g(v)
	}
	for k, v := range madd {
		if _, ok := s.mem[k]; !ok {
			s.mem[k] = v
		}
	}
	for k, t := range s.mon.F {
		if n := g(t); n != t {
			s.mon.F[k] = n
		}
	}
	for _, l := range s.loops {
		np := map[*Term]map[*Term]bool{}
		ch := false
		for c, ps := range l.preds {
			nc := g(c)
			m := map[*Term]bool{}
			for p := range ps {
				n := g(p)
				if n != p || nc != c {
					ch = true
				}
				if !n.junk {
					m[n] = true
				}
			}
			if nc.junk {
				ch = true
				continue
			}
			np[nc] = m
		}
		if ch {
			l.preds = np
		}
	}
	ren := func(m map[*Term]bool) {
		var ks []*Term
		for k := range m {
			if g(k) != k {
				ks = append(ks, k)
			}
		}
		for _, k := range ks {
			delete(m, k)
			if n := g(k); !n.junk {
				m[n] = true
			}
		}
	}
	ren(s.fresh)
	ren(s.esc)
}

var junkT = mk("junk", "j", nil)

// redefine: term t (a site leaf) is about to denote a new value.
func (s *State) redefine(t *Term) {
	if !t.leafs[t] {
		return
	}
	found := false
	s.allTerms(func(x *Term) {
		if x.leafs[t] {
			found = true
		}
	})
	if s.fresh[t] {
		found = true
	}
	if !found {
		return
	}
	delete(s.fresh, t)
	delete(s.esc, t)
	s.subst(func(x *Term) *Term {
		if x == t {
			return junkT
		}
		if !x.leafs[t] {
			return x
		}
		return nil
	})
}

// invalidate: content named by terms matching pred changes at this site; old
// values become old@site(...).
func (s *State) invalidate(site string, pred func(*Term) bool) {
	hit := false
	var oldSeen = map[*Term]bool{}
	gens := [3]map[*Term]bool{{}, {}, {}}
	names := [3]string{site, site + "'", site + "''"}
	var chk func(x *Term) bool
	memo := map[*Term]bool{}
	chk = func(x *Term) bool {
		if v, ok := memo[x]; ok {
			return v
		}
		r := false
		if pred(x) {
			r = true
		}
		if x.Op != "old" {
			for _, a := range x.Args {
				if chk(a) {
					r = true
				}
			}
		}
		memo[x] = r
		return r
	}
	s.allTerms(func(x *Term) {
		if chk(x) {
			hit = true
		}
		for l := range x.leafs {
			if l.Op == "old" {
				for i, n := range names {
					if l.Name == n {
						gens[i][l] = true
					}
				}
			}
		}
	})
	// memory entries for the invalidated locations disappear
	for k := range s.mem {
		if chk(k) {
			if pred(k) {
				delete(s.mem, k)
			}
		}
	}
	if !hit {
		return
	}
	// earlier generations keep their names; only the last one is reused
	gen := 0
	for gen < 2 && len(gens[gen]) > 0 {
		gen++
	}
	oldSeen = gens[gen]
	site = names[gen]
	if len(oldSeen) > 0 {
		s.subst(func(x *Term) *Term {
			if oldSeen[x] {
				return junkT
			}
			return nil
		})
	}
	s.subst(func(x *Term) *Term {
		if !chk(x) {
			return x
		}
		if pred(x) {
			switch x.Op {
			case "forall", "exists":
				return mk("junk", "inv", x.Typ)
			}
			return mk("old", site, x.Typ, x)
		}
		return nil
	})
}

// gc drops facts and memory about unreachable objects.
func (s *State) gc(irr func(*Term) bool, keep []*Term) {
	if irr != nil {
		for f := range s.facts {
			if irr(f) {
				delete(s.facts, f)
			}
		}
		for k := range s.mem {
			if irr(k) {
				delete(s.mem, k)
			}
		}
	}
	live := map[*Term]bool{}
	addT := func(t *Term) {
		for l := range t.leafs {
			live[l] = true
		}
	}
	for _, fr := range s.frames {
		for _, t := range fr.env {
			addT(t)
		}
		for _, d := range fr.defers {
			for _, a := range d.args {
				addT(a)
			}
		}
		if fr.retSet != nil {
			addT(fr.retSet)
		}
	}
	for _, t := range s.mon.F {
		addT(t)
	}
	for _, t := range keep {
		addT(t)
	}
	allLive := func(t *Term) bool {
		for l := range t.leafs {
			if !live[l] {
				return false
			}
		}
		return true
	}
	for {
		n := len(live)
		for k, v := range s.mem {
			if allLive(k) {
				addT(v)
			}
		}
		// opq/rkey/old leaves carry argument terms: keep leaves they mention
		for l := range live {
			for _, a := range l.Args {
				addT(a)
			}
		}
		if len(live) == n {
			break
		}
	}
	for k := range s.mem {
		if !allLive(k) {
			delete(s.mem, k)
		}
	}
	for _, l := range s.loops {
		for c, ps := range l.preds {
			if !allLive(c) {
				delete(l.preds, c)
				continue
			}
			for p := range ps {
				if !allLive(p) {
					delete(ps, p)
				}
			}
		}
	}
	for k := range s.facts {
		if !allLive(k) {
			delete(s.facts, k)
		}
	}
	for k := range s.fresh {
		if !live[k] {
			delete(s.fresh, k)
		}
	}
	for k := range s.esc {
		if !live[k] {
			delete(s.esc, k)
		}
	}
}

type stKey [2]uint64

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func (k *stKey) add(xs ...uint64) {
	a, b := uint64(0x1234567), uint64(0x89abcdef)
	for _, x := range xs {
		a = mix(a ^ x)
		b = mix(b + x*0x2545f4914f6cdd1d)
	}
	k[0] += a
	k[1] += b
}

// key is an order-independent fingerprint of the abstract state.
func (s *State) key(e *Engine) stKey {
	var k stKey
	b2 := func(v bool) uint64 {
		if v {
			return 1
		}
		return 0
	}
	for i, f := range s.frames {
		k.add(1, uint64(i), uint64(f.ctx.id), uint64(f.block.Index), uint64(f.idx))
		for v, t := range f.env {
			k.add(2, uint64(i), uint64(e.valID(v)), uint64(t.id))
		}
		for j, d := range f.defers {
			xs := []uint64{3, uint64(i), uint64(j), uint64(d.call.Pos())}
			for _, a := range d.args {
				xs = append(xs, uint64(a.id))
			}
			k.add(xs...)
		}
	}
	for t, v := range s.facts {
		k.add(4, uint64(t.id), b2(v))
	}
	for t, v := range s.mem {
		k.add(5, uint64(t.id), uint64(v.id))
	}
	for t := range s.fresh {
		k.add(6, uint64(t.id))
	}
	for t := range s.esc {
		k.add(7, uint64(t.id))
	}
	for n, v := range s.mon.F {
		h := uint64(1469598103934665603)
		for i := 0; i < len(n); i++ {
			h = (h ^ uint64(n[i])) * 1099511628211
		}
		k.add(8, h, uint64(v.id))
	}
	for lk, l := range s.loops {
		k.add(9, uint64(lk.ctx.id), uint64(lk.hdr.Index), uint64(l.iters))
		for c, ps := range l.preds {
			for p := range ps {
				k.add(10, uint64(lk.ctx.id), uint64(lk.hdr.Index), uint64(c.id), uint64(p.id))
			}
		}
	}
	return k
}

// normLin tidies the "lin:<name>:..." slots: several expressions of one number.
func (m *MS) normLin() {
	by := map[string][]*Term{}
	for _, k := range m.Keys("lin:") {
		n := strings.SplitN(k, ":", 3)[1]
		by[n] = append(by[n], m.F[k])
		m.Del(k)
	}
	for n, ts := range by {
		sym := false
		for _, t := range ts {
			if !t.IsConst() && !t.junk {
				sym = true
			}
		}
		set := map[*Term]bool{}
		for _, t := range ts {
			if t.junk || sym && t.IsConst() {
				continue
			}
			set[t] = true
		}
		for i, t := range sortedTerms(set) {
			m.Set(fmt.Sprintf("lin:%s:%d", n, i), t)
		}
	}
}

func (m *MS) linSet(n string, t *Term) {
	m.DelPrefix("lin:" + n + ":")
	m.Set("lin:"+n+":0", t)
}

func (m *MS) linInc(n string, d int64) {
	for _, k := range m.Keys("lin:" + n + ":") {
		b, c := linear(m.F[k])
		if b == nil {
			if v, ok := m.F[k].Int(); ok {
				m.F[k] = cInt(v + d)
			}
			continue
		}
		m.F[k] = mkLinear(b, c+d, types.Typ[types.Int])
	}
}

func (m *MS) linIs(n string, t *Term) bool {
	for _, k := range m.Keys("lin:" + n + ":") {
		if sameT(m.F[k], t) {
			return true
		}
	}
	return false
}
