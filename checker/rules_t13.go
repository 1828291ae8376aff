package main

import (
	"go/constant"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- T13: a consumer reports ready only when it has caught up ----------

type readyRoles struct {
	c       *Ctx
	k       *kafkaRoles
	caught  map[string]bool // groups a reader leaves when it has caught up
	other   map[string]bool // groups it leaves at other times
	idle    map[string]bool // channels the dispatcher announces quiet moments on
	reorgs  map[string]bool // groups the dispatcher counts reorgs in
	flags   map[string]bool // fields that say the consumer is ready
	seen    map[ssa.Instruction]bool
	gates   map[string]bool // what the dispatcher has to be asked with to look for quiet moments
	tellers map[*ssa.Function]bool
}

func wgCall(ev *Event, m string) bool {
	return ev.Kind == EvCall && strings.HasSuffix(ev.Callee, "sync.WaitGroup)."+m)
}

// groupKey: the field or variable a wait group is kept in.
func (x *Exec) groupKey(ev *Event) string {
	if f := x.fieldLock(ev.Recv); f != "" {
		return f
	}
	name := func(v ssa.Value) string {
		if v == nil {
			return ""
		}
		switch a := originOf(v).(type) {
		case *ssa.Alloc:
			return "var " + a.Comment + "@" + x.E.P.where(a.Pos())
		case *ssa.FieldAddr:
			return fieldClassOf(a)
		}
		return ""
	}
	if s := name(x.cell(ev.Recv)); s != "" {
		return s
	}
	if c, ok := ev.Instr.(ssa.CallInstruction); ok && len(c.Common().Args) > 0 {
		return name(cellOf(c.Common().Args[0]))
	}
	return ""
}

// lane: the field or variable a channel is kept in.
func (x *Exec) lane(t *Term, v ssa.Value) string {
	if s := x.chanKey(t); s != "" {
		return s
	}
	if v == nil {
		return ""
	}
	if o := originOf(cellOf(v)); o != nil {
		return "var " + o.Name() + "@" + x.E.P.where(o.Pos())
	}
	return ""
}

// recvFrom: the channels that may have been received from.
func recvFrom(ev *Event) ssa.Value {
	switch u := ev.Instr.(type) {
	case *ssa.UnOp:
		return u.X
	case *ssa.Select:
		var r ssa.Value
		for _, st := range u.States {
			if st.Dir == types.RecvOnly && types.Identical(st.Chan.Type().Underlying().(*types.Chan).Elem(), ev.Chan.Typ.Underlying().(*types.Chan).Elem()) {
				if r != nil {
					return nil
				}
				r = st.Chan
			}
		}
		return r
	}
	return nil
}

// flagOf: the readiness flag that is read or written through an address.
func (x *Exec) flagOf(a *Term) string {
	if a == nil {
		return ""
	}
	a = unold(a)
	if a.Op == "&f" && strings.HasPrefix(a.Name, kcT) {
		return a.Name
	}
	return ""
}

// atomicOp: what an operation of sync/atomic does to which flag.
func (x *Exec) atomicOp(ev *Event) (op, flag string, args []*Term) {
	if ev.Kind != EvCall || !strings.Contains(ev.Callee, "atomic.") {
		return
	}
	n := ev.Callee[strings.LastIndexAny(ev.Callee, ".)")+1:]
	n = strings.TrimPrefix(n, ".")
	a, as := ev.Recv, ev.Args
	if a == nil && len(as) > 0 {
		a, as = as[0], as[1:]
	}
	for _, o := range []string{"Load", "Store", "Swap", "CompareAndSwap", "Add"} {
		if strings.HasPrefix(n, o) {
			return o, x.flagOf(a), as
		}
	}
	return
}

func truthy(t *Term) bool {
	if t == nil {
		return false
	}
	if n, ok := t.Int(); ok {
		return n != 0
	}
	return t.isTrue()
}

// isSet: the flag is known to be set.
func (x *Exec) isSet(v *Term) bool {
	if v == nil {
		return false
	}
	if v.Typ != nil && isBoolType(v.Typ) {
		return x.S.Known(v) || v.isTrue()
	}
	return x.S.KnownNot(atomEq(v, cInt(0))) || x.S.Known(atomEq(v, cInt(1))) || x.S.Known(atomLt(cInt(0), v)) || truthy(v)
}

// flagRead: the term is what a readiness flag was found to be.
func (r *readyRoles) flagRead(x *Exec, f func(v *Term) bool) bool {
	ms := x.MS()
	if v := ms.Get("flag"); v != nil && f(v) {
		return true
	}
	for a, val := range x.S.facts {
		if cl, _, _ := x.class(a); r.flags[cl] {
			if val {
				if f(cBool(true)) {
					return true
				}
			}
		}
	}
	return false
}

// distance: bounds on a-b that follow from what the branches taken compared.
func (s *State) distance(a, b *Term) (lo, hi int64) {
	lo, hi = math.MinInt64, math.MaxInt64
	bound := func(x, y *Term, c int64) { // x - y >= c
		var ca, cb, k int64
		ok := true
		var lin func(t *Term, f int64)
		lin = func(t *Term, f int64) {
			t = unold(t)
			n, isC := t.Int()
			switch {
			case sameT(t, a):
				ca += f
			case sameT(t, b):
				cb += f
			case isC:
				k += f * n
			case t.Op == "bin" && (t.Name == "+" || t.Name == "-"):
				lin(t.Args[0], f)
				if t.Name == "-" {
					f = -f
				}
				lin(t.Args[1], f)
			default:
				ok = false
			}
		}
		lin(x, 1)
		lin(y, -1)
		switch {
		case !ok:
		case ca == 1 && cb == -1: // a-b >= c-k
			if c-k > lo {
				lo = c - k
			}
		case ca == -1 && cb == 1: // a-b <= k-c
			if k-c < hi {
				hi = k - c
			}
		}
	}
	for f, v := range s.facts {
		switch {
		case f.Op == "lt" && v:
			bound(f.Args[1], f.Args[0], 1)
		case f.Op == "lt":
			bound(f.Args[0], f.Args[1], 0)
		case f.Op == "eq" && v && len(f.Args) == 2:
			bound(f.Args[0], f.Args[1], 0)
			bound(f.Args[1], f.Args[0], 0)
		}
	}
	return
}

// monReader: what a partition reader does when.
func (r *readyRoles) monReader(x *Exec, ev *Event) {
	ms, s := x.MS(), x.S
	con := "partition reader of a Kafka consumer"
	// lag: what is known of how far the message is from the high watermark.
	lag := func(known func(lo, hi int64) bool) bool {
		cur := ms.Get("cur")
		if cur == nil {
			return false
		}
		off := s.load(mk("&f", "sarama.ConsumerMessage.Offset", nil, cur), types.Typ[types.Int64])
		for _, k := range []string{"h0", "h1", "h2", "h3"} {
			if h := ms.Get(k); h != nil {
				if lo, hi := s.distance(h, off); known(lo, hi) {
					return true
				}
			}
		}
		return false
	}
	switch ev.Kind {
	case EvRecv:
		if !isPtrTo(ev.Val.Typ, "sarama.ConsumerMessage") {
			return
		}
		ms.Set("cur", ev.Val)
		ms.DelAll("h0", "h1", "h2", "h3", "left", "left+", "bare", "flag", "ok")
		if ev.Key != nil {
			ms.Set("ok", ev.Key)
		}
		ms.Set("loop", cStr(x.enclosingLoop(ev.Ctx, ev.Instr)))
	case EvCall:
		switch {
		case strings.HasSuffix(ev.Callee, "sarama.PartitionConsumer).HighWaterMarkOffset"):
			for _, k := range []string{"h0", "h1", "h2", "h3"} {
				if ms.Get(k) == nil {
					ms.Set(k, ev.Res)
					break
				}
			}
		case wgCall(ev, "Done"):
			k := x.groupKey(ev)
			ok := ms.Get("ok")
			if ms.Has("loop") && (ok == nil || s.Known(ok)) && lag(func(lo, hi int64) bool { return hi <= 1 }) {
				if !r.caught[k] {
					r.caught[k] = true
				}
				ms.bump("left")
				x.Check("caught.once", con, ev, ms.once("left"), "a partition counts as caught up twice")
				if o := onceOf(x); o == nil {
					ms.Flag("bare")
				} else {
					x.Check("caught.own", con, ev, !r.sharedOnce(x, o), "partitions share the Once that counts them, only the first is counted")
				}
			} else {
				r.other[k] = true
			}
		}
		if op, f, _ := x.atomicOp(ev); op == "Load" && f != "" {
			ms.Set("flag", ev.Res)
		}
	case EvLoopBack:
		l, _ := ms.Get("loop").StrOr()
		if ev.Hdr == nil || loopSlot("", ev.Ctx, ev.Hdr) != l || ms.Get("cur") == nil {
			return
		}
		if ms.Has("left") {
			x.Check("caught.once", con, ev, !ms.Has("bare") || x.announced(), "a partition may count as caught up again with the next message")
		} else {
			behind := lag(func(lo, hi int64) bool { return lo >= 2 })
			x.Check("caught.counted", con, ev, behind || r.flagRead(x, x.isSet) || x.announced(), "a partition that has caught up is not counted")
		}
		ms.DelAll("cur", "left", "left+", "bare", "flag")
	}
}

// sharedOnce: the Once belongs to all the partitions.
func (r *readyRoles) sharedOnce(x *Exec, o *Term) bool {
	o = unold(o)
	if o.Op == "&f" && strings.HasPrefix(o.Name, kcT) {
		return true
	}
	in, ok := x.cell(o).(ssa.Instruction)
	return ok && in.Parent() != x.E.Root && !r.c.P.inLoop(in)
}

// gateKey: the variable an atomic operation works on.
func (x *Exec) gateKey(ev *Event) string {
	a := ev.Recv
	if a == nil && len(ev.Args) > 0 {
		a = ev.Args[0]
	}
	if a == nil {
		return ""
	}
	if f := x.flagOf(a); f != "" {
		return f
	}
	if c := x.cell(a); c != nil {
		return "var " + c.Name() + "@" + x.E.P.where(c.Pos())
	}
	return ""
}

// monDispatch: quiet moments are announced as such, and reorgs are counted.
func (r *readyRoles) monDispatch(x *Exec, ev *Event) {
	ms, s := x.MS(), x.S
	switch ev.Kind {
	case EvRecv:
		ms.DelAll("quiet", "nil")
		if ev.Chan.IsNil() || x.knownNil(ev.Chan) {
			ms.Flag("nil")
		}
		t := ms.Get("timer")
		ch := unold(ev.Chan)
		ours := t != nil && (sameT(ch, t) || ch.Op == "ld" && ch.Args[0].Op == "&f" && ch.Args[0].Name == "time.Timer.C" && sameT(ch.Args[0].Args[0], t) || ch.Op == "fld" && ch.Name == "time.Timer.C" && sameT(ch.Args[0], t))
		sel, isSel := ev.Instr.(*ssa.Select)
		if ours && isSel && sel.Blocking {
			for _, st := range sel.States {
				if st.Dir == types.RecvOnly && chanElem(st.Chan.Type()) == "*sarama.ConsumerMessage" {
					ms.Flag("quiet")
				}
			}
		}
		if isPtrTo(ev.Val.Typ, "sarama.ConsumerMessage") {
			ms.Set("loop", cStr(x.enclosingLoop(ev.Ctx, ev.Instr)))
			ms.DelAll("timer")
		}
	case EvCall:
		switch {
		case ev.Callee == "time.After", ev.Callee == "time.NewTimer":
			n, ok := ev.Args[0].Int()
			ms.Del("timer")
			if !ok || n > 0 {
				ms.Set("timer", ev.Res)
				gs := map[string]bool{}
				for _, k := range ms.Keys("gate:") {
					if x.isSet(ms.Get(k)) {
						gs[k[len("gate:"):]] = true
					}
				}
				if r.gates == nil {
					r.gates = gs
				}
				for g := range r.gates {
					if !gs[g] {
						delete(r.gates, g)
					}
				}
			}
		case wgCall(ev, "Add"):
			if k := x.groupKey(ev); k != "" {
				r.reorgs[k] = true
			}
		}
		if strings.Contains(ev.Callee, "atomic.") && strings.Contains(ev.Callee, "Load") {
			if g := x.gateKey(ev); g != "" {
				ms.Set("gate:"+g, ev.Res)
			}
		}
		r.track(x, ev)
	case EvSend:
		if k := x.lane(ev.Chan, sentOn(ev)); k != "" && !ms.Has("nil") && !r.k.heartbeats[originOf(cellOf(sentOn(ev)))] {
			ok := ms.Has("quiet")
			if old, has := r.idle[k]; !has || old {
				r.idle[k] = ok
			}
		}
		r.track(x, ev)
	case EvLoopBack:
		if ev.Hdr != nil && !strings.HasPrefix(x.enclosingLoop(ev.Ctx, ev.Instr), "?") {
			ms.DelAll("quiet", "nil", "timer")
		}
	case EvClose:
		r.track(x, ev)
	case EvStore:
		r.track(x, ev)
	}
	_ = s
}

// announces: the event makes readiness known.
func (r *readyRoles) announces(x *Exec, ev *Event) (what string, told bool) {
	switch ev.Kind {
	case EvClose, EvSend:
		if cl, _, _ := x.class(ev.Chan); cl == kcT+"ready" {
			return "told", true
		}
	case EvStore:
		if f := x.flagOf(ev.Addr); r.flags[f] && isFreshBase(x, ev.Addr) == false {
			return "flag", false
		}
	case EvCall:
		if op, f, _ := x.atomicOp(ev); op != "" && op != "Load" && r.flags[f] {
			return "flag", false
		}
	}
	return "", false
}

func isFreshBase(x *Exec, a *Term) bool {
	a = unold(a)
	return len(a.Args) > 0 && unold(a.Args[0]).Op == "alloc"
}

// track: readiness is announced by the function that waits for it only.
func (r *readyRoles) track(x *Exec, ev *Event) {
	if w, _ := r.announces(x, ev); w != "" {
		r.seen[ev.Instr] = true
		x.Check("announce.where", "readiness of a Kafka consumer", ev, false, "readiness is announced by %s, which does not wait for it", calleeName(x.E.Root))
	}
}

// monTeller: readiness is announced once everything it stands for is known.
func (r *readyRoles) monTeller(x *Exec, ev *Event) {
	ms := x.MS()
	con := "announcement of readiness by a Kafka consumer"
	switch ev.Kind {
	case EvCall:
		if op, _, as := x.atomicOp(ev); op != "" && op != "Load" && len(as) > 0 {
			if g := x.gateKey(ev); g != "" {
				if truthy(as[len(as)-1]) {
					ms.Flag("open " + g)
				} else {
					ms.Del("open " + g)
				}
			}
		}
		if wgCall(ev, "Wait") {
			k := x.groupKey(ev)
			if r.caught[k] && !r.other[k] {
				ms.Flag("caught")
			}
			if r.reorgs[k] && ms.Has("idle") {
				ms.Flag("reorg " + k)
			}
		}
	case EvRecv:
		k := x.lane(ev.Chan, recvFrom(ev))
		if ms.Has("caught") && r.idle[k] {
			for g := range r.gates {
				x.Check("announce.gate", con, ev, ms.Has("open "+g), "a quiet moment is waited for that the dispatcher was not asked to look for")
			}
			ms.Flag("idle")
		}
	case EvExit:
		x.Check("announce.told", con, ev, ms.Has("told"), "nobody is told that the consumer is ready")
	}
	w, told := r.announces(x, ev)
	if w == "" {
		return
	}
	r.seen[ev.Instr] = true
	x.Check("announce.caught", con, ev, ms.Has("caught"), "readiness is announced although partitions may not have caught up")
	x.Check("announce.idle", con, ev, ms.Has("idle"), "readiness is announced although messages may still wait to be processed")
	for k := range r.reorgs {
		x.Check("announce.reorg", con, ev, ms.Has("reorg "+k), "readiness is announced although a reorg may be in progress")
	}
	if told {
		x.Check("announce.all", con, ev, ev.Kind == EvClose, "only one of those who wait for readiness is told")
		ms.Flag("told")
		return
	}
	v := ev.Val
	if ev.Kind == EvCall {
		_, _, as := x.atomicOp(ev)
		v = nil
		if len(as) > 0 {
			v = as[len(as)-1]
		}
	}
	x.Check("announce.kept", con, ev, truthy(v), "readiness is withdrawn")
}

// monStart: a consumer is ready only when every partition it reads is.
func (r *readyRoles) monStart(x *Exec, ev *Event) {
	ms := x.MS()
	con := "start of a Kafka consumer"
	r.track(x, ev)
	switch ev.Kind {
	case EvCall:
		if wgCall(ev, "Add") && r.caught[x.groupKey(ev)] {
			x.Check("count.first", con, ev, !ms.Has("teller"), "a partition is counted after the wait for partitions began")
			a := unold(ev.Args[0])
			n, ok := a.Int()
			switch {
			case a.Op == "len":
				ms.Set("bulk", a.Args[0])
			case ok && n == 1:
				ms.bump("add")
			default:
				x.Check("count.each", con, ev, false, "partitions are counted by %v", a)
			}
		}
		if wgCall(ev, "Done") && r.caught[x.groupKey(ev)] {
			x.Check("count.each", con, ev, false, "a partition counts as caught up before it is read")
		}
	case EvRangeKey:
		if b := ms.Get("bulk"); b != nil && sameT(ev.Val, b) {
			ms.bump("add")
		}
	case EvRangeDone:
		if b := ms.Get("bulk"); b != nil && ev.Val != nil && sameT(ev.Val, b) {
			ms.Del("bulk")
		}
	case EvGo:
		g := ev.Instr.(*ssa.Go).Call.StaticCallee()
		switch {
		case r.k.reader[g]:
			x.Check("count.each", con, ev, ms.once("add"), "a partition is not counted exactly once before its reader starts")
			ms.DelAll("add", "add+")
		case r.tellers[g]:
			ms.bump("teller")
			x.Check("announce.once", con, ev, ms.once("teller"), "readiness is announced twice")
			x.Check("count.each", con, ev, !ms.Has("add"), "a partition is counted that is not read")
		}
	case EvLoopBack:
		x.Check("count.each", con, ev, !ms.Has("add"), "a partition is counted that is not read")
	case EvExit:
		if !ev.Args[0].IsNil() && !x.knownNil(ev.Args[0]) {
			return
		}
		x.Check("announce.once", con, ev, ms.once("teller"), "a consumer starts that never says that it is ready")
	}
}

// monOther: partitions are counted nowhere else.
func (r *readyRoles) monOther(x *Exec, ev *Event) {
	r.track(x, ev)
	if ev.Kind == EvSend && !r.k.dispatch[x.E.Root] {
		if k := x.lane(ev.Chan, sentOn(ev)); k != "" {
			r.idle[k] = false // it cannot know whether messages wait
		}
	}
	if (wgCall(ev, "Add") || wgCall(ev, "Done")) && r.caught[x.groupKey(ev)] {
		x.Check("count.each", "readiness of a Kafka consumer", ev, false, "partitions are counted by %s", calleeName(x.E.Root))
	}
}

// monAsk: what Ready returns tells the caller of readiness.
func (r *readyRoles) monAsk(class string, always bool) func(x *Exec, ev *Event) {
	return func(x *Exec, ev *Event) {
		ms := x.MS()
		con := "asking whether a consumer is ready"
		switch ev.Kind {
		case EvCall:
			if op, f, _ := x.atomicOp(ev); op == "Load" && r.flags[f] {
				ms.Set("flag", ev.Res)
			}
		case EvRecv:
			if cl, b, _ := x.class(ev.Chan); cl == class && class != "" && b != nil && sameT(b, rootParam(x, 0)) {
				ms.Flag("isready")
			}
		case EvSend, EvClose:
			if cl, _, _ := x.class(ev.Chan); class != "" && cl == class {
				return // T11, and announce.where
			}
			x.Check("ask.early", con, ev, always || ms.Has("isready") || r.flagRead(x, x.isSet), "the caller is told that the consumer is ready although it may not be")
			x.Check("ask.blocks", con, ev, ev.Kind == EvClose || bufferedChan(cellOf(sentOn(ev))) || bufferedChan(originOf(cellOf(sentOn(ev)))), "asking blocks until somebody receives")
			ms.Set("told", ev.Chan)
		case EvExit:
			v := unface(ev.Args[0])
			if cl, b, _ := x.class(v); class != "" && cl == class {
				x.Check("ask.tells", con, ev, b != nil && sameT(b, rootParam(x, 0)), "the caller is told whether %v is ready", b)
				return
			}
			t := ms.Get("told")
			x.Check("ask.tells", con, ev, t != nil && sameT(unold(t), unold(v)), "the caller gets %v, on which nothing is announced", v)
		}
	}
}

func bufferedChan(v ssa.Value) bool {
	m, ok := v.(*ssa.MakeChan)
	if !ok {
		return false
	}
	k, ok := m.Size.(*ssa.Const)
	if !ok || k.Value == nil {
		return false
	}
	n, ok := constant.Int64Val(k.Value)
	return ok && n > 0
}

// readyFlags: the fields Ready reads, other than the channel.
func readyFlags(c *Ctx, fn *ssa.Function) map[string]bool {
	out := map[string]bool{}
	if fn == nil {
		return out
	}
	c.P.mentions(fn, func(in ssa.Instruction) bool {
		if fa, ok := in.(*ssa.FieldAddr); ok {
			l := fieldClassOf(fa)
			if strings.HasPrefix(l, kcT) && l != kcT+"ready" {
				switch t := fa.Type().Underlying().(*types.Pointer).Elem(); {
				case strings.HasPrefix(shortType(t), "sync."):
				default:
					out[l] = true
				}
			}
		}
		return false
	})
	return out
}

func init() {
	register("T13", func(c *Ctx) {
		c.Explain = "typestate over every path of the goroutines of a Kafka consumer and of the functions that say whether a consumer is ready"
		f := c.Fn("transports.KafkaConsumer.Start")
		ask := c.Fn("transports.KafkaConsumer.Ready")
		if f == nil || ask == nil {
			return
		}
		r := &readyRoles{c: c, k: &kafkaRoles{reader: map[*ssa.Function]bool{}, dispatch: map[*ssa.Function]bool{}, heartbeats: map[ssa.Value]bool{}},
			caught: map[string]bool{}, other: map[string]bool{}, idle: map[string]bool{}, reorgs: map[string]bool{}, seen: map[ssa.Instruction]bool{}, tellers: map[*ssa.Function]bool{}}
		r.flags = readyFlags(c, ask)
		o := &runOpts{forall: []string{"-"}, noInline: func(f *ssa.Function) bool {
			n := calleeName(f)
			return pkgOf(f) == "delivery" || strings.HasSuffix(n, "KafkaConsumer).Start") || strings.HasSuffix(n, "KafkaConsumer).Close") || strings.HasSuffix(n, "KafkaConsumer).Ready") || strings.HasSuffix(n, "pingTracker).update")
		}}
		isMsg := receives("*sarama.ConsumerMessage")
		tells := func(in ssa.Instruction) bool {
			switch u := in.(type) {
			case *ssa.Send:
				return fieldOfChan(u.Chan) == kcT+"ready"
			case ssa.CallInstruction:
				return isClose(in) && fieldOfChan(u.Common().Args[0]) == kcT+"ready"
			case *ssa.Select:
				for _, st := range u.States {
					if st.Dir == types.SendOnly && fieldOfChan(st.Chan) == kcT+"ready" {
						return true
					}
				}
			}
			return false
		}
		var others []*ssa.Function
		for _, g := range goRoots(f) {
			switch {
			case c.P.mentions(g, callsSuffix("OrderedMessageProcessor).ProcessMessage")) && c.P.mentions(g, isMsg):
				r.k.dispatch[g] = true
			case c.P.mentions(g, isMsg):
				r.k.reader[g] = true
			case c.P.mentions(g, tells):
				r.tellers[g] = true
			default:
				others = append(others, g)
			}
		}
		c.Oblige("anchor", "goroutines", f.Pos(), len(r.k.dispatch) == 1 && len(r.k.reader) == 1 && len(r.tellers) == 1, nil, "a Kafka consumer has %d dispatchers, %d readers and %d goroutines that announce readiness", len(r.k.dispatch), len(r.k.reader), len(r.tellers))
		for _, fn := range allAnon(f) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if u, ok := in.(*ssa.MakeChan); ok && chanElem(u.Type()) == "types.Hash" {
						r.k.heartbeats[u] = true
					}
				}
			}
		}
		for g := range r.k.reader {
			c.FlowFn(g, func(x *Exec, ev *Event) { r.monReader(x, ev); r.track(x, ev) }, o)
		}
		for g := range r.k.dispatch {
			c.FlowFn(g, r.monDispatch, o)
			c.FlowFn(g, r.monOther, o)
		}
		for _, g := range others {
			c.FlowFn(g, r.monOther, o)
		}
		for g := range r.tellers {
			c.FlowFn(g, r.monTeller, o)
		}
		c.FlowFn(f, r.monStart, o)
		c.FlowFn(ask, r.monAsk(kcT+"ready", false), o)
		c.Flow("transports.nullConsumer.Ready", r.monAsk("", true), o)
		c.Flow("transports.websocketConsumer.Ready", r.monAsk(wcT+"ready", false), o)
		if l := consumerLoop(c); l != nil {
			c.FlowFn(l, func(x *Exec, ev *Event) {
				monConsumer(x, ev)
				if ev.Kind == EvClose || ev.Kind == EvSend {
					if cl, _, _ := x.class(ev.Chan); cl == wcT+"ready" {
						r.seen[ev.Instr] = true
						x.Check("announce.all", "announcement of readiness by a websocket consumer", ev, ev.Kind == EvClose, "only one of those who wait for readiness is told")
					}
				}
			}, &runOpts{noInline: func(f *ssa.Function) bool { return pkgOf(f) == "delivery" }, forall: []string{"-"}, irrelevant: []string{wcT + "conn", wcT + "quit", wcT + "lastNum", wcT + "lastHash"}})
		}
		r.mux()
		r.everywhere()
		for _, n := range []string{"announce.caught", "announce.idle", "announce.reorg", "announce.told", "caught.counted", "count.each", "ask.tells", "ready.type", "mux.member", "mux.early", "announce.everywhere"} {
			c.Min(n, 1)
		}
		c.Min("announce.all", 2)
	})
}

// everywhere: nobody else announces readiness, or replaces the channel.
func (r *readyRoles) everywhere() {
	c := r.c
	for _, fn := range c.P.repoFuncs("transports") {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var chans []ssa.Value
				switch u := in.(type) {
				case *ssa.Send:
					chans = append(chans, u.Chan)
				case *ssa.Select:
					for _, st := range u.States {
						if st.Dir == types.SendOnly {
							chans = append(chans, st.Chan)
						}
					}
				case ssa.CallInstruction:
					if isClose(in) {
						chans = append(chans, u.Common().Args[0])
					}
					g := u.Common().StaticCallee()
					if g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "sync/atomic" && !strings.HasPrefix(g.Name(), "Load") && len(u.Common().Args) > 0 {
						if fa, ok := u.Common().Args[0].(*ssa.FieldAddr); ok && r.flags[fieldClassOf(fa)] {
							c.Oblige("announce.everywhere", "flag set in "+calleeName(fn), in.Pos(), r.seen[in], nil, "readiness is announced by %s, which does not wait for it", calleeName(fn))
						}
					}
				case *ssa.Alloc:
					n := shortType(u.Type().Underlying().(*types.Pointer).Elem())
					if n+"." == kcT || n+"." == wcT {
						sets := c.P.mentions(fn, func(in ssa.Instruction) bool {
							st, ok := in.(*ssa.Store)
							if !ok {
								return false
							}
							fa, ok := st.Addr.(*ssa.FieldAddr)
							if !ok || fieldClassOf(fa) != n+".ready" {
								return false
							}
							k, isC := st.Val.(*ssa.Const)
							return !isC || k.Value != nil
						})
						c.Oblige("channel.made", "consumer made in "+calleeName(fn), in.Pos(), sets, nil, "a consumer is made without a channel on which readiness is announced")
					}
				case *ssa.Store:
					fa, ok := u.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					l := fieldClassOf(fa)
					_, fresh := fa.X.(*ssa.Alloc)
					if l == kcT+"ready" || l == wcT+"ready" {
						c.Oblige("channel.kept", "channel set in "+calleeName(fn), in.Pos(), fresh, nil, "the channel on which readiness is announced is replaced")
					} else if r.flags[l] {
						c.Oblige("announce.everywhere", "flag set in "+calleeName(fn), in.Pos(), r.seen[in] || fresh, nil, "readiness is announced by %s, which does not wait for it", calleeName(fn))
					}
				}
				for _, ch := range chans {
					if l := fieldOfChan(ch); l == kcT+"ready" || l == wcT+"ready" {
						c.Oblige("announce.everywhere", "announced in "+calleeName(fn), in.Pos(), r.seen[in], nil, "readiness is announced by %s, which does not wait for it", calleeName(fn))
					}
				}
			}
		}
	}
}

const muxT = "transports.muxConsumer."

// mux: it is ready when one of its members is.
func (r *readyRoles) mux() {
	c := r.c
	f := c.Fn("transports.muxConsumer.Ready")
	if f == nil {
		return
	}
	con := "readiness of several consumers"
	o := &runOpts{forall: []string{"-"}}
	made := map[ssa.Value]bool{}
	for _, fn := range allAnon(f) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.MakeChan); ok {
					made[u] = true
				}
			}
		}
	}
	asked := true // before the goroutine starts
	mon := func(root bool) func(x *Exec, ev *Event) {
		return func(x *Exec, ev *Event) {
			ms := x.MS()
			L := ""
			if ev.Hdr != nil {
				L = loopSlot("L", ev.Ctx, ev.Hdr)
			}
			switch ev.Kind {
			case EvRangeKey:
				if cl, _, _ := x.class(ev.Val); cl == muxT+"consumers" {
					ms.Set("e", ev.Res)
					ms.Set("k", ev.Key)
					ms.Flag(L)
					ms.DelAll("rd", "rv", "in")
				}
			case EvCall:
				switch {
				case strings.HasSuffix(ev.Callee, "Consumer).Ready"), strings.HasSuffix(ev.Callee, "Consumer.Ready"):
					if e := ms.Get("e"); e != nil && sameT(ev.Recv, e) {
						ms.Set("rd", ev.Res)
					}
				case ev.Callee == "reflect.ValueOf":
					if d := ms.Get("rd"); d != nil && sameT(unface(ev.Args[0]), d) {
						ms.Set("rv", ev.Res)
					}
				case ev.Callee == "reflect.Select":
					x.Check("mux.member", con, ev, ms.Has("all") || asked && !root, "not every member is asked")
					ms.Flag("ready")
				}
			case EvStore:
				if v := ms.Get("rv"); v != nil && (sameT(ev.Val, v) || sameT(x.fieldV("reflect.SelectCase.Chan", ev.Val), v)) {
					ms.Flag("in")
				}
			case EvLoopBack:
				if ms.Has(L) && L != "" {
					if !ms.Has("ready") && ms.Get("rd") != nil {
						x.Check("mux.member", con, ev, ms.Has("in"), "a member is left out")
					} else if ms.Get("rd") == nil {
						x.Check("mux.member", con, ev, false, "a member is not asked whether it is ready")
					}
				}
			case EvRangeDone:
				if cl, _, _ := x.class(ev.Val); cl == muxT+"consumers" {
					ms.Flag("all")
				}
			case EvRecv:
				if d := ms.Get("rd"); d != nil && sameT(ev.Chan, d) {
					sel, isSel := ev.Instr.(*ssa.Select)
					x.Check("mux.first", con, ev, isSel && !sel.Blocking, "one member is waited for although another may be ready first")
					ms.Flag("ready")
				}
			case EvSend, EvClose:
				var v ssa.Value
				if ev.Kind == EvSend {
					v = originOf(cellOf(sentOn(ev)))
				} else if ci, ok := ev.Instr.(ssa.CallInstruction); ok { // a defer, too
					v = originOf(cellOf(ci.Common().Args[0]))
				}
				if made[v] {
					x.Check("mux.early", con, ev, ms.Has("ready"), "the caller is told although no member is known to be ready")
					x.Check("mux.blocks", con, ev, !root || ev.Kind == EvClose || bufferedChan(v), "asking blocks until somebody receives")
					ms.Flag("told")
				}
			case EvGo:
				ms.Flag("started")
				asked = asked && ms.Has("all")
			case EvExit:
				if !root {
					x.Check("mux.tells", con, ev, ms.Has("told"), "the caller is not told that a member is ready")
					return
				}
				x.Check("mux.tells", con, ev, ms.Has("told") || ms.Has("started"), "nobody tells the caller when a member is ready")
			}
		}
	}
	c.FlowFn(f, mon(true), o)
	asked = asked && c.P.mentions(f, func(in ssa.Instruction) bool { _, ok := in.(*ssa.Go); return ok })
	for _, g := range goRoots(f) {
		c.FlowFn(g, mon(false), o)
	}
	for _, fn := range append(allAnon(f), goRoots(f)...) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldClassOf(fa) == "reflect.SelectCase.Dir" {
					k, isC := st.Val.(*ssa.Const)
					n, _ := int64(0), 0
					if isC && k.Value != nil {
						n, _ = constant.Int64Val(k.Value)
					}
					c.Oblige("mux.direction", con, in.Pos(), isC && n == 2, nil, "a member's channel is not received from")
				}
			}
		}
	}
}
