package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- T07: the stream of a subscription ----------

// cell: the variable of the enclosing function (captured, or passed to the
// goroutine) a term is or is read from; nil when it is local to the goroutine.
func (x *Exec) cell(t *Term) ssa.Value {
	for t != nil {
		t = unold(t)
		switch t.Op {
		case "ld", "iface", "conv":
			t = unold(t.Args[0])
			continue
		case "fv", "param":
			if v := x.E.rootCell(t); v != nil {
				return originOf(v)
			}
			return nil
		}
		return nil
	}
	return nil
}

// originOf: a variable that is assigned once a channel or a wait group stands
// for what it is assigned.
func originOf(v ssa.Value) ssa.Value {
	for i := 0; i < 10; i++ {
		a, ok := v.(*ssa.Alloc)
		if !ok {
			return v
		}
		var val ssa.Value
		n := 0
		for _, r := range allUses(a) {
			if st, ok := r.(*ssa.Store); ok && cellOf(st.Addr) == ssa.Value(a) {
				n++
				val = st.Val
			}
		}
		if n != 1 {
			return v
		}
		switch w := cellOf(val).(type) {
		case *ssa.MakeChan:
			return w
		case *ssa.Alloc:
			if w == a {
				return v
			}
			v = w
		default:
			return v
		}
	}
	return v
}

// allUses: the uses of a variable, in closures that capture it too.
func allUses(v ssa.Value) []ssa.Instruction {
	var out []ssa.Instruction
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			out = append(out, r)
			if mc, ok := r.(*ssa.MakeClosure); ok {
				fn := mc.Fn.(*ssa.Function)
				for i, b := range mc.Bindings {
					if b == v {
						walk(fn.FreeVars[i])
					}
				}
			}
		}
	}
	walk(v)
	return out
}

// lockEvent keeps track of the locks held: slot "lk:<lock>" is "W" or "R".
func (x *Exec) lockEvent(ev *Event, name func(t *Term) string) {
	if ev.Kind != EvCall || ev.Recv == nil {
		return
	}
	ms := x.MS()
	op := ""
	for _, m := range []string{"RWMutex).RLock", "RWMutex).RUnlock", "Mutex).Lock", "Mutex).Unlock", "Locker).Lock", "Locker).Unlock"} {
		if strings.HasSuffix(ev.Callee, m) && (strings.Contains(ev.Callee, "sync.")) {
			op = m[strings.LastIndex(m, ".")+1:]
		}
	}
	if op == "" {
		return
	}
	n := name(unold(ev.Recv))
	if n == "" {
		return
	}
	switch op {
	case "Lock":
		ms.Set("lk:"+n, cStr("W"))
	case "RLock":
		ms.Set("lk:"+n, cStr("R"))
	default:
		ms.Del("lk:" + n)
	}
}

// fieldLock names a lock that is (or is pointed to by) a field.
func (x *Exec) fieldLock(t *Term) string {
	t = unold(t)
	if t.Op == "&f" {
		return t.Name
	}
	if c, _, _ := x.class(t); c != "" {
		return c
	}
	return ""
}

type streamRoles struct {
	stream, sub, barrier map[ssa.Value]bool
	history              bool // the goroutine at hand sends the history
}

const (
	wsT = "transports.websocketStreamsService."
	wpT = "transports.websocketProducer."
)

func cancelledBy(x *Exec) bool {
	ms := x.MS()
	if ms.Has("ctxdone") {
		return true
	}
	for _, k := range ms.Keys("cerr:") {
		if x.knownNonNil(ms.Get(k)) {
			return true
		}
	}
	return false
}

func monStream(r *streamRoles, con string, collect bool) func(x *Exec, ev *Event) {
	return func(x *Exec, ev *Event) {
		ms := x.MS()
		check := func(rule string, ok bool, f string, a ...interface{}) {
			if !collect {
				x.Check(rule, con, ev, ok, f, a...)
			}
		}
		x.lockEvent(ev, x.fieldLock)
		isStream := func(t *Term) bool {
			c := x.cell(t)
			return c != nil && r.stream[c]
		}
		drained := func() bool {
			k := ms.Get("hk")
			return k != nil && x.S.KnownNot(k)
		}
		switch ev.Kind {
		case EvRecv:
			switch {
			case ev.Val != nil && ev.Val.Typ != nil && shortType(ev.Val.Typ) == "*delivery.PendingBatch":
				if ev.Key != nil {
					ms.Set("hk", ev.Key)
				} else {
					ms.Set("hk", junkT)
				}
			case ev.Chan != nil && unold(ev.Chan).Op == "call" && unold(ev.Chan).Name == "(context.Context).Done":
				ms.Flag("ctxdone")
			default:
				if c := x.cell(ev.Chan); c != nil && r.barrier[c] {
					ms.Flag("passed")
					if ev.Val != nil {
						ms.Set("subv", ev.Val)
					}
				}
				for _, k := range ms.Keys("suberr:") {
					if sameT(ms.Get(k), ev.Chan) {
						ms.Flag("subgone")
					}
				}
			}
		case EvSend:
			if ev.Chan == nil {
				return
			}
			if ch := sentOn(ev); ch != nil && shortType(ch.Type().Underlying().(*types.Chan).Elem()) == "types.Subscription" {
				s := ms.Get("subres")
				check("live.kept", s == nil || sameT(unface(ev.Val), unface(s)), "another subscription is handed over")
				if c := x.cell(ev.Chan); c != nil && collect {
					r.barrier[c] = true
				}
				ms.Flag("done")
				return
			}
			if !isResultMessage(unface(ev.Val)) {
				return
			}
			if collect {
				if c := x.cell(ev.Chan); c != nil {
					r.stream[c] = true
				}
				return
			}
			check("send.open", !ms.Has("closed"), "a message is sent after the channel of the stream was closed")
			check("send.open", r.history && !ms.Has("done"), "a message is sent after the stream may be closed by another goroutine")
			t := x.msgType(unface(ev.Val))
			switch t {
			case "ready":
				check("ready.live", ms.Has("subres"), "readiness is announced before the stream has joined the live feed")
				check("ready.once", !ms.Has("ready"), "readiness is announced twice")
				ms.Flag("ready")
			case "batch":
				check("history.first", !ms.Has("subres") && !ms.Has("ready"), "a historical block is sent after the stream joined the live feed")
			default:
				check("send.type", false, "a message of type %q is sent on the stream", t)
			}
		case EvStore:
			if s := ms.Get("subres"); s != nil && sameT(unface(ev.Val), unface(s)) {
				ms.Flag("kept")
				if t := unold(ev.Addr); t.Op == "fv" && collect {
					if c := x.cell(t); c != nil {
						r.sub[c] = true
					}
				}
			}
		case EvLoad:
			if t := unold(ev.Addr); t.Op == "fv" && !r.history {
				if c := x.cell(t); c != nil && r.sub[c] {
					check("sub.read", ms.Has("passed"), "the subscription is read before the goroutine that subscribes is known to be done")
				}
			}
		case EvCall:
			switch {
			case ev.Callee == "(context.Context).Err":
				ms.Set("cerr:"+ev.Res.String(), ev.Res)
			case strings.HasSuffix(ev.Callee, "types.Feed).Subscribe"):
				c, _, _ := x.class(ev.Recv)
				check("live.feed", c == wsT+"feed", "the stream joins feed %v", ev.Recv)
				check("live.channel", len(ev.Args) > 0 && isStream(unface(ev.Args[0])), "the feed is told to send on %v", ev.Args)
				check("live.after", drained(), "the stream joins the live feed before the history was sent")
				check("live.once", !ms.Has("subres"), "the stream joins the live feed twice")
				check("live.open", !ms.Has("done"), "the stream joins the live feed after it may have been closed")
				ms.Set("subres", ev.Res)
			case strings.HasSuffix(ev.Callee, "sync.WaitGroup).Done"):
				if collect && r.history {
					if c := x.cell(ev.Recv); c != nil {
						r.barrier[c] = true
					}
				}
				check("barrier.once", !ms.Has("done"), "the end of the history is signalled twice")
				ms.Flag("done")
			case strings.HasSuffix(ev.Callee, "sync.WaitGroup).Wait"):
				if c := x.cell(ev.Recv); c != nil && r.barrier[c] {
					ms.Flag("passed")
				}
			case strings.HasSuffix(ev.Callee, "types.Subscription).Err"):
				ms.Set("suberr:"+ev.Res.String(), ev.Res)
			case strings.HasSuffix(ev.Callee, "types.Subscription).Unsubscribe"):
				s := unface(ev.Recv)
				c := x.cell(s)
				ok := c != nil && r.sub[c] || ms.Get("subres") != nil && sameT(s, unface(ms.Get("subres"))) || ms.Get("subv") != nil && sameT(s, unface(ms.Get("subv")))
				if r.history && ms.Get("subres") == nil {
					ok = true
				}
				if ok {
					ms.Flag("unsub")
				}
			}
		case EvClose:
			c := x.cell(ev.Chan)
			if c != nil && r.history && !r.stream[c] {
				if collect {
					r.barrier[c] = true
				}
				ms.Flag("done")
				return
			}
			if !isStream(ev.Chan) {
				return
			}
			check("close.once", !ms.Has("closed"), "the channel of the stream is closed twice")
			ms.Flag("closed")
			over := ms.Has("passed") || r.history && (drained() || cancelledBy(x))
			check("close.history", over, "the channel of the stream is closed while historical blocks may still be sent")
			check("close.ended", ms.Has("unsub") || r.history && ms.Get("subres") == nil, "the channel of the stream is closed before the live subscription has ended")
			check("close.reason", cancelledBy(x) || ms.Has("subgone"), "the channel of the stream is closed although neither the client nor the feed ended the stream")
			l, _ := ms.Get("lk:" + wsT + "closemu").StrOr()
			check("close.locked", l == "W", "the channel of the stream is closed while a live message may be sent (lock held: %q)", l)
		case EvExit:
			for _, k := range ms.Keys("lk:") {
				check("unlock", false, "lock %s is never released", k[3:])
			}
			if r.history {
				check("history.end", drained() || cancelledBy(x), "the goroutine of the stream ends before the history was sent")
				check("live.joined", ms.Has("subres") || cancelledBy(x), "the stream of a connected client never joins the live feed")
				check("live.kept", !ms.Has("subres") || ms.Has("kept") || ms.Has("done") || ms.Has("unsub"), "the live subscription is not kept")
				check("ready.sent", !ms.Has("subres") || ms.Has("ready"), "the stream joins the live feed without announcing readiness")
				check("barrier.done", ms.Has("done") || ms.Has("closed"), "the end of the history is never signalled")
			} else if !collect && len(r.barrier) > 0 && ms.Has("passed") {
				check("close.done", ms.Has("closed"), "the channel of the stream is never closed")
			}
		}
	}
}

func isPendingRecv(in ssa.Instruction) bool {
	var ch types.Type
	switch u := in.(type) {
	case *ssa.UnOp:
		if u.Op != token.ARROW {
			return false
		}
		ch = u.X.Type()
	case *ssa.Select:
		for _, st := range u.States {
			if st.Dir == types.RecvOnly {
				if c, ok := st.Chan.Type().Underlying().(*types.Chan); ok && shortType(c.Elem()) == "*delivery.PendingBatch" {
					return true
				}
			}
		}
		return false
	default:
		return false
	}
	c, ok := ch.Underlying().(*types.Chan)
	return ok && shortType(c.Elem()) == "*delivery.PendingBatch"
}

func init() {
	register("T07", func(c *Ctx) {
		c.Explain = "typestate over every path of the goroutines of a stream (history, live, ready, close), of the function that starts them, and lock tracking of every function that sends on the live feed"
		f := c.Fn("transports.websocketStreamsService.Streams")
		if f == nil {
			return
		}
		o := &runOpts{forall: []string{"-"}}
		roots := goRoots(f)
		sort.SliceStable(roots, func(i, j int) bool {
			return c.P.mentions(roots[i], isPendingRecv) && !c.P.mentions(roots[j], isPendingRecv)
		})
		r := &streamRoles{stream: map[ssa.Value]bool{}, sub: map[ssa.Value]bool{}, barrier: map[ssa.Value]bool{}}
		hist := map[*ssa.Function]bool{}
		for _, g := range roots {
			if c.P.mentions(g, isPendingRecv) {
				hist[g] = true
				r.history = true
				for i := 0; i < 2; i++ {
					c.FlowFn(g, monStream(r, "history of a stream", true), o)
				}
			}
		}
		c.Oblige("anchor", "history", f.Pos(), len(hist) == 1, nil, "%d goroutines send the historical blocks", len(hist))
		for _, g := range roots {
			con := "end of a stream"
			r.history = hist[g]
			if r.history {
				con = "history of a stream"
			}
			c.FlowFn(g, monStream(r, con, false), o)
		}
		c.FlowFn(f, func(x *Exec, ev *Event) {
			ms := x.MS()
			con := "start of a stream"
			switch ev.Kind {
			case EvCall:
				switch {
				case strings.HasSuffix(ev.Callee, "StreamsResumption).BlocksFrom"):
					n, h := unface(ev.Args[1]), ev.Args[2]
					x.Check("start.position", con, ev, sameT(n, rootParam(x, 2)) && sameT(h, rootParam(x, 3)), "the history is read from %v %v", ev.Args[1], ev.Args[2])
					if ev.Res.Op == "tuple" {
						ms.Set("err", ev.Res.Args[1])
					}
				case strings.HasSuffix(ev.Callee, "sync.WaitGroup).Add"):
					n, ok := ev.Args[0].Int()
					x.Check("barrier.add", con, ev, ok && n == 1 && !ms.Has("added") && !ms.Has("go"), "the wait group is not raised by one before the goroutines start")
					ms.Flag("added")
				}
			case EvGo:
				g := ev.Instr.(*ssa.Go).Call.StaticCallee()
				for i, q := range roots {
					if q == g {
						ms.bump(fmt.Sprintf("go%d", i))
						ms.Flag("go")
					}
				}
			case EvExit:
				if x.knownNonNil(ev.Args[1]) {
					x.Check("start.failed", con, ev, !ms.Has("go"), "goroutines are started for a stream that failed")
					return
				}
				e := ms.Get("err")
				if e != nil && sameT(ev.Args[1], e) && !x.knownNil(e) {
					return
				}
				x.Check("start.error", con, ev, e != nil && x.knownNil(e), "a stream is returned although the history could not be opened")
				for i := range roots {
					x.Check("start.all", con, ev, ms.once(fmt.Sprintf("go%d", i)), "a goroutine of the stream is not started exactly once")
				}
				wg := false
				for v := range r.barrier {
					if a, ok := v.(*ssa.Alloc); ok && strings.Contains(a.Type().String(), "WaitGroup") {
						wg = true
					}
				}
				x.Check("barrier.add", con, ev, !wg || ms.Has("added"), "the wait group is not raised")
				if ret, ok := ev.Instr.(*ssa.Return); ok && ev.Fn == f {
					v := originOf(cellOf(ret.Results[0]))
					x.Check("start.channel", con, ev, r.stream[v], "the channel returned is not the one the stream is sent on")
				}
			}
		}, o)
		// live messages are sent under the lock
		sends := func(in ssa.Instruction) bool {
			call, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			g := call.Common().StaticCallee()
			if g == nil || !strings.HasSuffix(calleeName(g), "types.Feed).Send") {
				return false
			}
			fa, ok := call.Common().Args[0].(*ssa.FieldAddr)
			return ok && fieldClassOf(fa) == wpT+"feed"
		}
		visited := map[*ssa.Function]bool{}
		live := func(g *ssa.Function) {
			e := c.FlowFn(g, func(x *Exec, ev *Event) {
				ms := x.MS()
				x.lockEvent(ev, x.fieldLock)
				con := "live messages sent by " + calleeName(g)
				if ev.Kind == EvCall && strings.HasSuffix(ev.Callee, "types.Feed).Send") && unold(ev.Recv).Op == "&f" && unold(ev.Recv).Name == wpT+"feed" {
					x.Check("live.locked", con, ev, ms.Has("lk:"+wpT+"closemu"), "a live message is sent without the lock that protects the channels of the streams")
				}
				if ev.Kind == EvExit {
					x.Check("unlock", con, ev, !ms.Has("lk:"+wpT+"closemu"), "the lock that protects the channels of the streams is not released")
				}
			}, o)
			if e != nil {
				for g := range e.Funcs {
					visited[g] = true
				}
			}
		}
		for _, n := range []string{"AddBlock", "SendBatch", "Reorg"} {
			if g := c.Fn("transports.websocketProducer." + n); g != nil {
				live(g)
			}
		}
		for _, g := range c.P.repoFuncs("transports") {
			if visited[g] || !directly(g, sends) {
				continue
			}
			live(g)
		}
		c.Flow("transports.websocketProducer.Service", func(x *Exec, ev *Event) {
			if ev.Kind != EvExit {
				return
			}
			s := unface(ev.Args[0])
			p := rootParam(x, 0)
			con := "service of a producer"
			for _, n := range []string{"feed", "closemu"} {
				v := x.fieldV(wsT+n, s)
				x.Check("service.shared", con+", "+n, ev, v.Op == "&f" && v.Name == wpT+n && sameT(v.Args[0], p), "the %s of the service is %v", n, v)
			}
			v := x.fieldV(wsT+"resumer", s)
			cl, b, _ := x.class(v)
			x.Check("service.shared", con+", resumer", ev, cl == wpT+"resumer" && b != nil && sameT(b, p), "the resumer of the service is %v", v)
		}, o)
		for _, n := range []string{"history.first", "live.after", "live.joined", "live.channel", "ready.live", "ready.sent", "close.history", "close.ended", "close.reason", "close.locked", "start.position", "start.channel", "start.all"} {
			c.Min(n, 1)
		}
		c.Min("live.locked", 3)
		c.Min("service.shared", 3)
	})
}

// directly: fn itself contains an instruction for which p holds.
func directly(fn *ssa.Function, p func(in ssa.Instruction) bool) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if p(in) {
				return true
			}
		}
	}
	return false
}
