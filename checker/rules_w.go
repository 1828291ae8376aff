package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- W01: waiting for blocks ----------

const (
	owT = "waiter.ompWaiter."
	dwT = "delivery.Waiter."
)

// entry: is key known to be (or not to be) in the map held by field class?
func (x *Exec) entry(class string, key *Term, present bool) bool {
	for f, v := range x.S.facts {
		switch f.Op {
		case "has":
			if cl, _, _ := x.class(f.Args[0]); cl == class && sameT(f.Args[1], key) && v == present {
				return true
			}
		case "eq":
			for i := 0; i < 2; i++ {
				if f.Args[1-i].IsNil() {
					if cl, _, k := x.class(f.Args[i]); cl == class+"[]" && k != nil && sameT(k, key) && v != present {
						return true
					}
				}
			}
		}
	}
	return false
}

// waitRole: "hashes" or "numbers" when a channel is an entry of that table of
// the waiter.
func waitRole(v ssa.Value, depth int, seen map[ssa.Value]bool) string {
	v = cellOf(v)
	if v == nil || depth > 12 || seen[v] {
		return ""
	}
	seen[v] = true
	join := func(vs []ssa.Value) string {
		out := ""
		for _, w := range vs {
			if seen[cellOf(w)] {
				continue
			}
			r := waitRole(w, depth+1, seen)
			if r == "" || out != "" && out != r {
				return ""
			}
			out = r
		}
		return out
	}
	mapOf := func(m ssa.Value) string {
		if u, ok := m.(*ssa.UnOp); ok {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				switch fieldClassOf(fa) {
				case owT + "hashes":
					return "hashes"
				case owT + "numbers":
					return "numbers"
				}
			}
		}
		return ""
	}
	switch u := v.(type) {
	case *ssa.Lookup:
		return mapOf(u.X)
	case *ssa.Extract:
		switch t := u.Tuple.(type) {
		case *ssa.Lookup:
			if u.Index == 0 {
				return mapOf(t.X)
			}
		case *ssa.Call:
			return waitRoleOfCall(t, u.Index, depth, seen)
		}
	case *ssa.Call:
		return waitRoleOfCall(u, 0, depth, seen)
	case *ssa.Phi:
		return join(u.Edges)
	case *ssa.Alloc:
		var vs []ssa.Value
		for _, r := range allUses(u) {
			if st, ok := r.(*ssa.Store); ok && cellOf(st.Addr) == ssa.Value(u) {
				vs = append(vs, st.Val)
			}
		}
		return join(vs)
	case *ssa.MakeChan:
		out := ""
		var walk func(w ssa.Value, d int)
		walk = func(w ssa.Value, d int) {
			if w.Referrers() == nil || d > 4 {
				return
			}
			for _, r := range *w.Referrers() {
				switch r := r.(type) {
				case *ssa.MapUpdate:
					if r.Value == w {
						if m := mapOf(r.Map); m != "" && (out == "" || out == m) {
							out = m
						} else {
							out = "?"
						}
					}
				case *ssa.Phi:
					walk(r, d+1)
				case *ssa.Store:
					if a, ok := r.Addr.(*ssa.Alloc); ok && r.Val == w {
						for _, q := range allUses(a) {
							if l, ok := q.(*ssa.UnOp); ok {
								walk(l, d+1)
							}
						}
					}
				}
			}
		}
		walk(u, 0)
		if out == "?" {
			return ""
		}
		return out
	}
	return ""
}

func waitRoleOfCall(c *ssa.Call, idx, depth int, seen map[ssa.Value]bool) string {
	f := c.Call.StaticCallee()
	if f == nil || len(f.Blocks) == 0 {
		return ""
	}
	out := ""
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if idx >= len(r.Results) {
				return ""
			}
			w := waitRole(r.Results[idx], depth+1, seen)
			if w == "" || out != "" && out != w {
				return ""
			}
			out = w
		}
	}
	return out
}

type waitRoles struct {
	received map[*ssa.Function]bool
	flags    map[*ssa.Function]map[string]bool // what is known when a goroutine starts
}

func (r *waitRoles) role(x *Exec, t *Term) string {
	if t == nil {
		return ""
	}
	cl, _, _ := x.class(t)
	switch cl {
	case owT + "hashes[]":
		return "hashes"
	case owT + "numbers[]":
		return "numbers"
	}
	for u := unold(t); u != nil; {
		switch u.Op {
		case "ld", "iface", "conv":
			u = unold(u.Args[0])
			continue
		case "fv", "param":
			if v := x.E.rootCell(u); v != nil {
				return waitRole(v, 0, map[ssa.Value]bool{})
			}
		}
		break
	}
	return ""
}

// alsoAwaits: the receive is one case of a select that waits for the block too.
func (r *waitRoles) alsoAwaits(x *Exec, ev *Event) bool {
	sel, ok := ev.Instr.(*ssa.Select)
	if !ok {
		return false
	}
	for _, st := range sel.States {
		if st.Dir == types.RecvOnly {
			if cl, b, _ := x.class(x.E.val(x.S, st.Chan)); cl == dwT+"WaitCh" && b != nil {
				return true
			}
		}
	}
	return false
}

// monAnnounced: the goroutine that records announcements.
func (r *waitRoles) monAnnounced(x *Exec, ev *Event) {
	ms := x.MS()
	con := "announced blocks of a waiter"
	cur := ms.Get("cur")
	keyOf := func(class string) *Term {
		if cur == nil {
			return nil
		}
		if class == owT+"hashes" {
			return x.fieldV(dwT+"Hash", cur)
		}
		return x.fieldV(dwT+"Number", cur)
	}
	switch ev.Kind {
	case EvRecv:
		if !isPtrTo(ev.Val.Typ, "delivery.Waiter") {
			return
		}
		ms.DelAll("go", "go+", "hashes", "numbers")
		ms.Set("cur", ev.Val)
		if ev.Key != nil {
			ms.Set("ok", ev.Key)
		}
		ms.Set("loop", cStr(x.enclosingLoop(ev.Ctx, ev.Instr)))
	case EvMapUpdate:
		cl, _, _ := x.class(ev.Map)
		if cl != owT+"hashes" && cl != owT+"numbers" {
			return
		}
		k := keyOf(cl)
		x.Check("announce.key", con, ev, k != nil && sameT(ev.Key, k), "%v is put on record for an announcement", ev.Key)
		x.Check("announce.kept", con, ev, x.entry(cl, ev.Key, false), "an entry of %s that callers may wait for is replaced", cl)
		x.Check("announce.fresh", con, ev, unold(ev.Val).Op == "mkchan", "%v is put on record", ev.Val)
		ms.Set(strings.TrimPrefix(cl, owT), ev.Val)
	case EvMapDelete:
		cl, _, _ := x.class(ev.Map)
		x.Check("announce.kept", con, ev, cl != owT+"hashes" && cl != owT+"numbers", "an entry of %s is removed when another block is announced", cl)
	case EvGo:
		g := ev.Instr.(*ssa.Go).Call.StaticCallee()
		if g == nil || !r.received[g] {
			return
		}
		ms.bump("go")
		var has [3]bool
		for _, t := range x.boundArgs(ev) {
			switch {
			case cur != nil && sameT(t, cur):
				has[0] = true
			case t.Typ != nil && chanElem(t.Typ) == "struct{}":
				for i, f := range []string{"hashes", "numbers"} {
					cl, _, k := x.class(t)
					if m := ms.Get(f); m != nil && sameT(m, t) || cl == owT+f+"[]" && k != nil && keyOf(owT+f) != nil && sameT(k, keyOf(owT+f)) && x.entry(owT+f, k, true) {
						has[1+i] = true
					}
				}
			}
		}
		x.Check("announce.watched", con, ev, has[0] && has[1] && has[2], "the goroutine that watches an announced block is not handed the block and the channels on record for it: %v", x.boundArgs(ev))
	case EvLoopBack:
		if l, ok := ms.Get("loop").StrOr(); ok && ev.Hdr != nil && loopSlot("", ev.Ctx, ev.Hdr) == l {
			x.Check("announce.once", con, ev, ms.once("go"), "an announced block is not watched exactly once")
			for _, f := range []string{"hashes", "numbers"} {
				k := keyOf(owT + f)
				x.Check("announce.recorded", con+", "+f, ev, ms.Has(f) || k != nil && x.entry(owT+f, k, true), "an announced block is not put on record in %s", f)
			}
			ms.DelAll("cur", "ok", "go", "go+", "hashes", "numbers")
		}
	case EvExit:
		ok := ms.Get("ok")
		x.Check("announce.end", con, ev, ok != nil && x.S.KnownNot(ok), "the goroutine that records announcements stops although more blocks may be announced")
	}
}

// monWatch: a goroutine that watches an announced block, or cleans up after it.
func (r *waitRoles) monWatch(x *Exec, ev *Event) {
	ms := x.MS()
	con := "completion of an announced block"
	delay := func(what string) bool {
		switch what {
		case "time.Sleep", "time.After", "time.NewTimer", "time.AfterFunc":
			return true
		}
		return false
	}
	switch ev.Kind {
	case EvRecv:
		if cl, b, _ := x.class(ev.Chan); cl == dwT+"WaitCh" && b != nil {
			ms.Flag("fired")
			return
		}
		if rl := r.role(x, ev.Chan); rl != "" {
			ms.Flag("sig:" + rl)
			return
		}
		if ch := ms.Get("timer"); ch != nil && ev.Chan.Any(func(t *Term) bool { return t == ch }) {
			if ms.Has("fired") || r.alsoAwaits(x, ev) {
				ms.Flag("waited")
			}
		}
	case EvClose:
		rl := r.role(x, ev.Chan)
		x.Check("signal.which", con, ev, rl != "", "%v is closed", ev.Chan)
		x.Check("signal.after", con, ev, ms.Has("fired"), "waiting callers are told that a block was processed before it was")
		if rl != "" {
			ms.Flag("sig:" + rl)
		}
	case EvCall:
		if delay(ev.Callee) {
			if ev.Callee == "time.Sleep" {
				if ms.Has("fired") {
					ms.Flag("waited")
				}
			} else {
				ms.Set("timer", ev.Res)
			}
		}
	case EvMapDelete:
		cl, _, _ := x.class(ev.Map)
		f := ""
		switch cl {
		case owT + "hashes":
			f = "Hash"
		case owT + "numbers":
			f = "Number"
		default:
			return
		}
		kc, b, _ := x.class(ev.Key)
		x.Check("forget.key", con, ev, kc == dwT+f && b != nil, "the entry of %v is removed from %s", ev.Key, cl)
		x.Check("forget.later", con, ev, ms.Has("waited"), "the entry of a block is removed from %s without delay", cl)
		if f == "Number" {
			x.Check("forget.signalled", con, ev, ms.Has("sig:numbers"), "the number of a block is forgotten although nobody was told that it was processed")
		} else {
			x.Check("forget.signalled", con, ev, ms.Has("sig:hashes") || ms.Has("sig:numbers"), "a block is forgotten although nobody was told that it, or another of its number, was processed")
		}
	case EvGo:
		g := ev.Instr.(*ssa.Go).Call.StaticCallee()
		if g == nil {
			return
		}
		fl := map[string]bool{}
		for _, f := range []string{"fired", "sig:hashes", "sig:numbers"} {
			if ms.Has(f) {
				fl[f] = true
			}
		}
		if old, ok := r.flags[g]; ok {
			for f := range old {
				if !fl[f] {
					delete(old, f)
				}
			}
		} else {
			r.flags[g] = fl
		}
		ms.Flag("passed")
	case EvExit:
		if ms.Has("passed") && !(ms.Has("fired") && !(ms.Has("sig:hashes") && ms.Has("sig:numbers"))) {
			return
		}
		if ms.Has("fired") {
			x.Check("signal.all", con, ev, ms.Has("sig:hashes") && ms.Has("sig:numbers"), "a block was processed but callers waiting for its hash or number are not told")
		} else {
			x.Check("signal.awaited", con, ev, ms.Has("waited"), "the watch over an announced block ends before the block was processed")
		}
	}
}

func init() {
	register("W01", func(c *Ctx) {
		c.Explain = "typestate over every path of the functions callers wait in, of the goroutines that record and watch announced blocks, and of the functions that announce blocks and report them done"
		o := &runOpts{forall: []string{"-"}}
		wc := func(n string) int64 { v, _ := c.P.constInt("waiter", n); return v }
		success, timeout, notFound := wc("Success"), wc("Timeout"), wc("NotFound")
		c.Oblige("anchor", "results", 0, success != timeout && timeout != notFound && success != notFound, nil, "the results of waiting are not distinct: %d %d %d", success, timeout, notFound)
		for _, w := range []struct{ fn, field string }{{"WaitForHashResult", "hashes"}, {"WaitForNumberResult", "numbers"}} {
			con := "waiter.ompWaiter." + w.fn
			cl := owT + w.field
			c.Flow(con, func(x *Exec, ev *Event) {
				ms := x.MS()
				x.lockEvent(ev, x.fieldLock)
				switch ev.Kind {
				case EvCall:
					switch ev.Callee {
					case "time.After", "time.NewTimer":
						x.Check("wait.time", con, ev, len(ev.Args) == 1 && sameT(ev.Args[0], rootParam(x, 2)), "a caller waits for %v", ev.Args)
						ms.Set("timer", ev.Res)
					case "time.Sleep":
						x.Check("wait.time", con, ev, false, "a caller sleeps")
					}
				case EvRecv:
					x.Check("wait.unlocked", con, ev, len(ms.Keys("lk:")) == 0, "a caller waits while it holds a lock, so no other block can be announced")
					if k, _, key := x.class(ev.Chan); k == cl+"[]" && key != nil && sameT(key, rootParam(x, 1)) {
						x.Check("wait.known", con, ev, x.entry(cl, key, true), "a caller waits for a block that may not be known")
						ms.Flag("done")
					} else if tm := ms.Get("timer"); tm != nil && ev.Chan.Any(func(t *Term) bool { return t == tm }) {
						ms.Flag("late")
					} else {
						x.Check("wait.channel", con, ev, false, "a caller waits for %v", ev.Chan)
					}
				case EvMapUpdate, EvMapDelete, EvClose:
					x.Check("wait.reads", con, ev, false, "waiting changes the tables of the waiter")
				case EvExit:
					v, ok := ev.Args[0].Int()
					x.Check("wait.result", con, ev, ok && (v == success || v == timeout || v == notFound), "the result is %v", ev.Args[0])
					if !ok {
						return
					}
					switch v {
					case success:
						x.Check("wait.success", con, ev, ms.Has("done"), "success is reported without the signal that the block was processed")
					case timeout:
						x.Check("wait.timeout", con, ev, ms.Has("late") && !ms.Has("done"), "a timeout is reported although the time has not passed, or the block was processed")
					case notFound:
						x.Check("wait.notfound", con, ev, x.entry(cl, rootParam(x, 1), false) && !ms.Has("late"), "a block is reported unknown that may be on record")
					}
				}
			}, o)
		}
		for _, n := range []string{"WaitForHash", "WaitForNumber"} {
			con := "waiter.ompWaiter." + n
			c.Flow(con, func(x *Exec, ev *Event) {
				ms := x.MS()
				switch {
				case ev.Kind == EvCall && strings.HasSuffix(ev.Callee, "ompWaiter)."+n+"Result"):
					x.Check("wait.passed", con, ev, sameT(ev.Recv, rootParam(x, 0)) && sameT(ev.Args[0], rootParam(x, 1)) && sameT(ev.Args[1], rootParam(x, 2)), "it waits for %v", ev.Args)
					ms.bump("n")
				case ev.Kind == EvExit:
					x.Check("wait.passed", con, ev, ms.once("n"), "it does not wait exactly once")
				}
			}, &runOpts{forall: []string{"-"}, noInline: func(f *ssa.Function) bool { return strings.HasSuffix(f.Name(), "Result") }})
		}
		// announcements
		f := c.Fn("waiter.NewOmpWaiter")
		if f == nil {
			return
		}
		r := &waitRoles{map[*ssa.Function]bool{}, map[*ssa.Function]map[string]bool{}}
		roots := goRoots(f)
		isAnn := receives("*delivery.Waiter")
		ann := map[*ssa.Function]bool{}
		spawns := map[*ssa.Function][]*ssa.Function{}
		spawned := map[*ssa.Function]bool{}
		for _, g := range roots {
			if c.P.mentions(g, isAnn) {
				ann[g] = true
			}
		}
		for _, g := range roots {
			for _, h := range reach(g) {
				for _, b := range h.Blocks {
					for _, in := range b.Instrs {
						if q, ok := in.(*ssa.Go); ok {
							if s := q.Call.StaticCallee(); s != nil {
								spawns[g] = append(spawns[g], s)
								spawned[s] = true
							}
						}
					}
				}
			}
		}
		c.Oblige("anchor", "announcements", f.Pos(), len(ann) == 1, nil, "%d goroutines receive announcements", len(ann))
		var watch []*ssa.Function
		for g := range ann {
			for _, s := range spawns[g] {
				r.received[s] = true
			}
			c.FlowFn(g, r.monAnnounced, o)
		}
		for s := range r.received {
			watch = append(watch, s)
		}
		sort.Slice(watch, func(i, j int) bool { return watch[i].String() < watch[j].String() })
		c.Oblige("anchor", "watchers", f.Pos(), len(watch) >= 1, nil, "no goroutine watches announced blocks")
		done := map[*ssa.Function]bool{}
		for len(watch) > 0 {
			g := watch[0]
			watch = watch[1:]
			if done[g] {
				continue
			}
			done[g] = true
			fl := r.flags[g]
			c.FlowFn(g, r.monWatch, &runOpts{forall: []string{"-"}, init: func(e *Engine, s *State) {
				for k := range fl {
					s.mon.Flag(k)
				}
			}})
			watch = append(watch, spawns[g]...)
		}
		c.Oblige("anchor", "goroutines", f.Pos(), len(done)+len(ann) == len(roots), nil, "%d goroutines are started, %d are understood", len(roots), len(done)+len(ann))
		c.FlowFn(f, func(x *Exec, ev *Event) {
			ms := x.MS()
			con := "start of a waiter"
			switch ev.Kind {
			case EvCall:
				if strings.HasSuffix(ev.Callee, "OrderedMessageProcessor).Subscribe") {
					x.Check("start.subscribed", con, ev, sameT(ev.Recv, rootParam(x, 0)), "the waiter subscribes to %v", ev.Recv)
					ms.Set("ch", unface(ev.Args[0]))
					ms.Set("sub", ev.Res)
					ms.bump("subs")
				}
			case EvGo:
				if g := ev.Instr.(*ssa.Go).Call.StaticCallee(); g != nil && ann[g] {
					ms.bump("go")
				}
			case EvExit:
				w := unface(ev.Args[0])
				x.Check("start.subscribed", con, ev, ms.once("subs") && isPtrTo(w.Typ, "waiter.ompWaiter"), "a waiter does not subscribe exactly once")
				x.Check("start.receiver", con, ev, ms.once("go"), "the goroutine that records announcements is not started exactly once")
				if ch := ms.Get("ch"); ch != nil {
					x.Check("start.channel", con, ev, chanElem(ch.Typ) == "*delivery.Waiter" && sameT(x.fieldV(owT+"ch", w), ch), "the waiter keeps channel %v", x.fieldV(owT+"ch", w))
					x.Check("start.subscription", con, ev, sameT(unface(x.fieldV(owT+"sub", w)), unface(ms.Get("sub"))), "the waiter keeps subscription %v", x.fieldV(owT+"sub", w))
				}
				for _, n := range []string{"hashes", "numbers"} {
					x.Check("start.tables", con+", "+n, ev, x.knownNonNil(x.fieldV(owT+n, w)) || unold(x.fieldV(owT+n, w)).Op == "mkmap", "a waiter starts without %s", n)
				}
			}
		}, &runOpts{forall: []string{"-"}, noInline: func(f *ssa.Function) bool { return pkgOf(f) == "delivery" }})
		w01Delivery(c)
		for _, n := range []string{"wait.success", "wait.timeout", "wait.notfound"} {
			c.Min(n, 2)
		}
		for _, n := range []string{"announce.watched", "announce.once", "signal.after", "signal.all", "forget.later", "start.subscribed", "done.closed", "done.each", "announced.once", "announced.what"} {
			c.Min(n, 1)
		}
	})
}

// reach: fn and the functions of its package it calls.
func reach(fn *ssa.Function) []*ssa.Function {
	out := []*ssa.Function{fn}
	in := map[*ssa.Function]bool{fn: true}
	for i := 0; i < len(out); i++ {
		for _, b := range out[i].Blocks {
			for _, ins := range b.Instrs {
				var g *ssa.Function
				switch u := ins.(type) {
				case *ssa.Call:
					g = u.Call.StaticCallee()
				case *ssa.Defer:
					g = u.Call.StaticCallee()
				case *ssa.MakeClosure:
					// a literal that is called, not started
					gone := false
					if u.Referrers() != nil {
						for _, r := range *u.Referrers() {
							if _, ok := r.(*ssa.Go); ok {
								gone = true
							}
						}
					}
					if !gone {
						g = u.Fn.(*ssa.Function)
					}
				}
				if g != nil && g.Pkg == fn.Pkg && fn.Pkg != nil && !in[g] && len(g.Blocks) > 0 {
					in[g] = true
					out = append(out, g)
				}
			}
		}
	}
	return out
}

var chanStruct = types.NewChan(types.SendRecv, types.NewStruct(nil, nil))

func w01Delivery(c *Ctx) {
	waitCh := func(x *Exec, pb *Term) *Term { return x.fieldV(pbT+"waitCh", pb) }
	o := &runOpts{forall: []string{"-"}}
	// a block reports its completion once
	e := c.Flow("delivery.PendingBatch.Done", func(x *Exec, ev *Event) {
		ms := x.MS()
		con := "delivery.PendingBatch.Done"
		pb := rootParam(x, 0)
		x.lockEvent(ev, x.fieldLock)
		locked := func() bool { l, _ := ms.Get("lk:" + pbT + "doneLock").StrOr(); return l == "W" }
		if ev.Kind == EvCall && strings.HasSuffix(ev.Callee, "Mutex).Lock") && x.fieldLock(ev.Recv) == pbT+"doneLock" {
			// another subscriber may have been here since
			key := field(pbT+"waitCh", pb, chanStruct)
			v := mk("opq", "waitCh@"+x.E.P.Fset.Position(ev.Pos).String(), chanStruct)
			x.S.mem[key] = v
			ms.Set("cur", v)
		}
		switch ev.Kind {
		case EvClose:
			ok := ms.Get("cur") != nil && sameT(ev.Chan, ms.Get("cur"))
			x.Check("done.closed", con, ev, ok && !ms.Has("closed"), "%v is closed", ev.Chan)
			x.Check("done.once", con, ev, x.knownNonNil(ev.Chan), "a block that has reported its completion reports it again")
			// whoever took the channel under the lock closes it when it likes
			x.Check("done.locked", con, ev, locked() || ms.Has("taken"), "two subscribers may report the same block at the same time")
			ms.Flag("closed")
		case EvStore:
			if ev.Addr.Op == "&f" && ev.Addr.Name == pbT+"waitCh" {
				x.Check("done.kept", con, ev, ev.Val.IsNil() && sameT(ev.Addr.Args[0], pb), "the channel of a block becomes %v", ev.Val)
				x.Check("done.locked", con, ev, locked(), "the channel of a block is changed without its lock")
				ms.Flag("nil")
			}
		case EvCall:
			if strings.HasSuffix(ev.Callee, "Mutex).Unlock") && x.fieldLock(ev.Recv) == pbT+"doneLock" {
				if !ms.Has("nil") && x.knownNil(waitCh(x, pb)) {
					ms.Flag("reported")
				}
				if ms.Has("nil") {
					ms.Flag("taken")
				}
				if cur := ms.Get("cur"); cur != nil && x.knownNil(cur) {
					ms.Flag("reported")
				}
				x.Check("done.once", con, ev, !ms.Has("closed") || ms.Has("nil"), "a block that has reported its completion may report it again")
			}
		case EvExit:
			if cur := ms.Get("cur"); cur != nil && x.knownNil(cur) {
				ms.Flag("reported")
			}
			x.Check("done.closed", con, ev, ms.Has("closed") || ms.Has("reported") || x.knownNil(waitCh(x, pb)) && !ms.Has("nil"), "a block does not report its completion")
			for _, k := range ms.Keys("lk:") {
				x.Check("done.unlock", con, ev, false, "lock %s is never released", k[3:])
			}
		}
	}, o)
	// nothing else closes or replaces the channel
	for _, g := range c.P.repoFuncs("delivery") {
		if e != nil && e.Funcs[g] || e != nil && g == e.Root {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if bi, ok := call.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
					c.Oblige("done.only", calleeName(g), in.Pos(), !readsWaitCh(call.Common().Args[0], 0, map[ssa.Value]bool{}), nil, "the channel of a block is closed outside Done")
				}
			}
		}
	}
	// every block of an update is reported
	c.Flow("delivery.ChainUpdate.Done", func(x *Exec, ev *Event) {
		ms := x.MS()
		con := "delivery.ChainUpdate.Done"
		u := rootParam(x, 0)
		L := ""
		if ev.Hdr != nil {
			L = loopSlot("L", ev.Ctx, ev.Hdr)
		}
		isBlocks := func(t *Term) bool {
			if t == nil || t.Typ == nil {
				return false
			}
			s, ok := t.Typ.Underlying().(*types.Slice)
			return ok && shortType(s.Elem()) == "*delivery.PendingBatch"
		}
		switch ev.Kind {
		case EvRangeKey:
			if isBlocks(ev.Val) {
				ms.Flag(L)
				ms.Set("e", ev.Res)
				ms.DelAll("n", "n+")
			}
		case EvRangeDone:
			if isBlocks(ev.Val) {
				var parts func(t *Term)
				parts = func(t *Term) {
					t = unold(t)
					if t.Op == "append" || strings.HasPrefix(t.Op, "append") {
						for _, a := range t.Args {
							parts(a)
						}
						return
					}
					if cl, b, _ := x.class(t); b != nil && sameT(b, u) {
						ms.Flag("all:" + cl)
					}
				}
				parts(ev.Val)
			}
		case EvCall:
			if strings.HasSuffix(ev.Callee, "PendingBatch).Done") {
				if e := ms.Get("e"); e != nil && sameT(ev.Recv, e) {
					ms.bump("n")
				}
			}
		case EvLoopBack:
			if ms.Has(L) {
				x.Check("done.each", con, ev, ms.once("n"), "a block of an update is not reported exactly once")
				ms.DelAll("e", "n", "n+", L)
			}
		case EvExit:
			for _, f := range []string{"added", "removed"} {
				x.Check("done.every", con+", "+f, ev, ms.Has("all:delivery.ChainUpdate."+f), "the %s blocks of an update are not all reported", f)
			}
		}
	}, &runOpts{forall: []string{"-"}, noInline: func(f *ssa.Function) bool { return f.Name() == "Done" && strings.Contains(f.String(), "PendingBatch") }})
	// announcements
	ann := func(con string, block func(x *Exec, ev *Event) *Term) func(x *Exec, ev *Event) {
		return func(x *Exec, ev *Event) {
			ms := x.MS()
			if v, ok := isFeedSend(ev, mpT+"waitFeed"); ok {
				w := unface(v)
				ms.bump("sent")
				x.Check("announced.what", con, ev, isPtrTo(w.Typ, "delivery.Waiter"), "%v is announced", w)
				ms.Set("w.Hash", x.fieldV(dwT+"Hash", w))
				ms.Set("w.Number", x.fieldV(dwT+"Number", w))
				ms.Set("w.WaitCh", x.fieldV(dwT+"WaitCh", w))
				return
			}
			if pb := block(x, ev); pb != nil {
				x.Check("announced.once", con, ev, ms.once("sent"), "a block is not announced exactly once before it is taken up")
				if !ms.Has("w.Hash") {
					return
				}
				for _, n := range []string{"Hash", "Number"} {
					x.Check("announced.what", con+", "+n, ev, sameT(ms.Get("w."+n), x.fieldV(pbT+n, pb)), "the %s announced is %v", n, ms.Get("w."+n))
				}
				ch := ms.Get("w.WaitCh")
				x.Check("announced.channel", con, ev, sameT(ch, waitCh(x, pb)), "the block reports on %v, %v was announced", waitCh(x, pb), ch)
				x.Check("announced.channel", con, ev, unold(ch).Op == "mkchan" || x.knownNonNil(ch), "the channel announced may be nil")
				ms.Flag("up")
			}
		}
	}
	irr := append([]string{mpT + "oldBlocks", mpT + "completed", mpT + "lastEmittedNum", mpT + "reorgThreshold", mpT + "evictCh", mpT + "trackedPrefixes", mpT + "pendingMessages", pbT + "failedReconstructPanic", mpT + "failedReconstructPanic", pbT + "batches", pbT + "prefixes", pbT + "pendingBatches", pbT + "pendingMessages", pbT + "Values", pbT + "Deletes"}, resumptionClasses...)
	k := ann("delivery.MessageProcessor.ProcessMessage", func(x *Exec, ev *Event) *Term {
		if ev.Kind == EvMapUpdate && isPtrTo(ev.Val.Typ, "delivery.PendingBatch") {
			if cl, _, _ := x.class(ev.Map); cl == mpT+"pendingBatches" {
				return ev.Val
			}
		}
		return nil
	})
	c.Flow("delivery.MessageProcessor.ProcessMessage", func(x *Exec, ev *Event) {
		k(x, ev)
		if ev.Kind == EvExit && len(ev.Args) == 1 && x.MS().Has("sent") {
			x.Check("announced.taken", "delivery.MessageProcessor.ProcessMessage", ev, x.MS().Has("up"), "a block is announced that is not taken up")
		}
	}, &runOpts{irrelevant: irr, forall: []string{"-"}})
	k2 := ann("delivery.MessageProcessor.ProcessCompleteBatch", func(x *Exec, ev *Event) *Term {
		if v, ok := isFeedSend(ev, mpT+"feed"); ok {
			return unface(v)
		}
		return nil
	})
	c.Flow("delivery.MessageProcessor.ProcessCompleteBatch", func(x *Exec, ev *Event) {
		k2(x, ev)
		if ev.Kind == EvExit {
			x.Check("announced.taken", "delivery.MessageProcessor.ProcessCompleteBatch", ev, x.MS().Has("up"), "a complete block is not announced and delivered")
		}
	}, o)
	// subscriptions
	want := map[string]string{"*delivery.ChainUpdate": ompT + "updateFeed", "*delivery.PendingBatch": mpT + "feed", "*delivery.Waiter": mpT + "waitFeed"}
	c.Flow("delivery.OrderedMessageProcessor.Subscribe", func(x *Exec, ev *Event) {
		ms := x.MS()
		con := "delivery.OrderedMessageProcessor.Subscribe"
		switch ev.Kind {
		case EvCall:
			if strings.HasSuffix(ev.Callee, "types.Feed).Subscribe") {
				ch := unface(ev.Args[0])
				ms.Set("sub", ev.Res)
				x.Check("subscribe.channel", con, ev, ch != nil && sameT(ch, unface(rootParam(x, 1))), "%v is subscribed", ch)
				f, _, _ := x.class(ev.Recv)
				if unold(ev.Recv).Op == "&f" {
					f = unold(ev.Recv).Name
				}
				elem := ""
				for t, v := range x.S.facts {
					if t.Op == "istype" && v && sameT(unface(t.Args[0]), ch) {
						elem = strings.TrimPrefix(strings.TrimPrefix(t.Name, "chan<- "), "chan ")
					}
				}
				x.Check("subscribe.feed", con, ev, elem != "" && f != "" && want[elem] == f, "a subscriber for %s is subscribed to %s", elem, f)
			}
		case EvExit:
			x.Check("subscribe.result", con, ev, ev.Args[0].IsNil() && !ms.Has("sub") || ms.Has("sub") && sameT(unface(ev.Args[0]), unface(ms.Get("sub"))), "the subscription returned is %v", ev.Args[0])
			if ev.Args[0].IsNil() {
				for elem := range want {
					ok := false
					for t, v := range x.S.facts {
						if t.Op == "istype" && !v && t.Name == "chan "+elem && sameT(unface(t.Args[0]), unface(rootParam(x, 1))) {
							ok = true
						}
					}
					x.Check("subscribe.all", con+", "+elem, ev, ok, "a subscriber for %s may be turned away", elem)
				}
			}
		}
	}, o)
}

// readsWaitCh: the value is read from the channel field of a block.
func readsWaitCh(v ssa.Value, depth int, seen map[ssa.Value]bool) bool {
	if depth > 10 || seen[v] {
		return false
	}
	seen[v] = true
	switch u := v.(type) {
	case *ssa.UnOp:
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return fieldClassOf(fa) == pbT+"waitCh"
		}
		if a, ok := cellOf(u).(*ssa.Alloc); ok {
			for _, r := range allUses(a) {
				if st, ok := r.(*ssa.Store); ok && cellOf(st.Addr) == ssa.Value(a) && readsWaitCh(st.Val, depth+1, seen) {
					return true
				}
			}
		}
	case *ssa.Phi:
		for _, e := range u.Edges {
			if readsWaitCh(e, depth+1, seen) {
				return true
			}
		}
	}
	return false
}

var _ = fmt.Sprint
