package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- closures and captured variables ----------

// cellOf: the variable (allocation, field or value) an SSA value is read from,
// through captured variables.
func cellOf(v ssa.Value) ssa.Value {
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op.String() == "*" {
				v = x.X
				continue
			}
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.FreeVar:
			if b := bindingOf(x); b != nil {
				v = b
				continue
			}
		case *ssa.Parameter:
			if a := goArgOf(x); a != nil {
				v = a
				continue
			}
		}
		return v
	}
	return v
}

// bindingOf: what a captured variable is bound to where the closure is made.
func bindingOf(fv *ssa.FreeVar) ssa.Value {
	fn := fv.Parent()
	idx := -1
	for i, f := range fn.FreeVars {
		if f == fv {
			idx = i
		}
	}
	if fn.Parent() == nil || idx < 0 {
		return nil
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
				return mc.Bindings[idx]
			}
		}
	}
	return nil
}

// goArgOf: the argument of a closure that is started in exactly one place.
func goArgOf(p *ssa.Parameter) ssa.Value {
	fn := p.Parent()
	idx := -1
	for i, q := range fn.Params {
		if q == p {
			idx = i
		}
	}
	var out ssa.Value
	n := 0
	from := []*ssa.Function{fn.Parent()}
	if fn.Parent() == nil {
		from = curProg.All
	}
	for _, par := range from {
		for _, b := range par.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := c.Common()
				if cc.IsInvoke() {
					continue
				}
				f := cc.Value
				if mc, ok := f.(*ssa.MakeClosure); ok {
					f = mc.Fn
				}
				if f == ssa.Value(fn) && idx >= 0 && idx < len(cc.Args) {
					n++
					out = cc.Args[idx]
				}
			}
		}
	}
	if n == 1 {
		return out
	}
	return nil
}

// allAnon: fn and every function literal inside it.
func allAnon(fn *ssa.Function) []*ssa.Function {
	out := []*ssa.Function{fn}
	for _, a := range fn.AnonFuncs {
		out = append(out, allAnon(a)...)
	}
	return out
}

// goRoots: the functions started as goroutines by fn (and its literals), with
// the functions of the repository they are started from.
func goRoots(fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	fns := allAnon(fn)
	in := map[*ssa.Function]bool{}
	for _, f := range fns {
		in[f] = true
	}
	for i := 0; i < len(fns); i++ { // helpers of the same package
		for _, b := range fns[i].Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(*ssa.Call)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil || g.Pkg == nil || fn.Pkg == nil || g.Pkg != fn.Pkg || len(g.Blocks) == 0 || in[g] {
					continue
				}
				for _, h := range allAnon(g) {
					if !in[h] {
						in[h] = true
						fns = append(fns, h)
					}
				}
			}
		}
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					cc := g.Common()
					t := cc.StaticCallee()
					if t != nil && !seen[t] && len(t.Blocks) > 0 {
						seen[t] = true
						out = append(out, t)
					}
				}
			}
		}
	}
	return out
}

// mentions: does fn (or what it calls in the repository) contain an
// instruction for which p holds?
func (p *Program) mentions(fn *ssa.Function, pred func(in ssa.Instruction) bool) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if pred(in) {
					return true
				}
				if _, ok := in.(*ssa.Go); ok {
					continue
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					g := c.Common().StaticCallee()
					if g == nil && !c.Common().IsInvoke() {
						g = closureOf(c.Common().Value)
					}
					if g != nil && (p.inRepo(g)) && walk(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(fn)
}

// closureOf: the function literal kept in a variable, if there is only one.
func closureOf(v ssa.Value) *ssa.Function {
	v = cellOf(v)
	if a, ok := v.(*ssa.Alloc); ok {
		v = nil
		for _, r := range allUses(a) {
			if st, ok := r.(*ssa.Store); ok && cellOf(st.Addr) == ssa.Value(a) {
				if v != nil {
					return nil
				}
				v = st.Val
			}
		}
	}
	switch f := v.(type) {
	case *ssa.MakeClosure:
		g, _ := f.Fn.(*ssa.Function)
		return g
	case *ssa.Function:
		return f
	}
	return nil
}

// repoFuncs: all functions of one package of the repository.
func (p *Program) repoFuncs(pkg string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.All {
		if pkgOf(f) == pkg {
			out = append(out, f)
		}
	}
	return out
}

func fieldClassOf(fa *ssa.FieldAddr) string { return fieldClass(fa.X.Type(), fa.Field) }

func callsSuffix(suf string) func(in ssa.Instruction) bool {
	return func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		cc := c.Common()
		if cc.IsInvoke() {
			return strings.HasSuffix("("+shortType(cc.Value.Type())+")."+cc.Method.Name(), suf)
		}
		if f := cc.StaticCallee(); f != nil {
			return strings.HasSuffix(calleeName(f), suf)
		}
		return false
	}
}

// ---------- T01: the Kafka producer ----------

const kpT = "transports.KafkaProducer."

func isLRU(callee, m string) bool { return strings.HasSuffix(callee, "lru.Cache)."+m) }

// unface strips the conversion to an interface.
func unface(t *Term) *Term {
	t = unold(t)
	for t != nil && (t.Op == "iface" || t.Op == "conv") && len(t.Args) == 1 {
		t = unold(t.Args[0])
	}
	return t
}

func monKafkaSend(batch bool) func(x *Exec, ev *Event) {
	return func(x *Exec, ev *Event) {
		ms, s := x.MS(), x.S
		kp := rootParam(x, 0)
		name := x.E.Root.Name()
		con := "messages sent by " + name
		L := ""
		if ev.Hdr != nil {
			L = loopSlot("L", ev.Ctx, ev.Hdr)
		}
		cls := func(t *Term, f string) bool {
			c, b, _ := x.class(t)
			return c == kpT+f && b != nil && sameT(b, kp)
		}
		switch ev.Kind {
		case EvCall:
			switch {
			case isLRU(ev.Callee, "Contains"):
				a := unface(ev.Args[0])
				if cls(ev.Recv, "recentHashes") && !batch && sameT(a, rootParam(x, 2)) {
					ms.Set("seen", ev.Res)
				}
				if cls(ev.Recv, "skipBatches") && batch && sameT(a, rootParam(x, 1)) {
					ms.Set("seen", ev.Res)
				}
			case strings.HasSuffix(ev.Callee, "AsyncProducer).Input"):
				if cls(ev.Recv, "producer") {
					ms.Set("in", ev.Res)
				}
			case isLRU(ev.Callee, "Add"):
				if cls(ev.Recv, "recentHashes") {
					x.Check("skip.source", con, ev, false, "%s itself records a block as seen", name)
				}
				if cls(ev.Recv, "skipBatches") {
					seen := ms.Get("seen")
					e := ms.Get("b")
					x.Check("skip.source", con, ev, !batch && seen != nil && s.Known(seen) && e != nil && sameT(unface(ev.Args[0]), e), "a sub-batch is recorded as skipped although its block was not")
					ms.Flag("added")
				}
			case ev.Callee == "(*delivery.Producer).AddBlock" || ev.Callee == "(*delivery.Producer).SendBatch" || ev.Callee == "delivery.Producer.AddBlock" || ev.Callee == "delivery.Producer.SendBatch":
				want := strings.HasSuffix(ev.Callee, ".SendBatch") == batch
				ok := want && cls(ev.Recv, "dp")
				for i, a := range ev.Args {
					ok = ok && sameT(a, rootParam(x, i+1))
				}
				x.Check("bundle.args", con, ev, ok && !ms.Has("msgs"), "the messages are not those of this call: %v %v", ev.Callee, ev.Args)
				if ev.Res.Op == "tuple" {
					ms.Set("msgs", ev.Res.Args[0])
					ms.Set("err", ev.Res.Args[1])
				}
			}
		case EvRangeKey:
			if m := ms.Get("msgs"); m != nil && sameT(ev.Val, m) {
				ms.Flag(L + ":t")
				ms.Set("topic", ev.Key)
				ms.Set("list", ev.Res)
				ms.Del("listdone")
			} else if l := ms.Get("list"); l != nil && sameT(ev.Val, l) {
				ms.Flag(L + ":m")
				ms.Set("m", ev.Res)
				ms.Del("n")
				ms.Del("n+")
			} else if !batch && sameT(ev.Val, rootParam(x, 7)) {
				ms.Flag(L + ":b")
				ms.Set("b", ev.Res)
				ms.Del("added")
			}
		case EvRangeDone:
			if m := ms.Get("msgs"); m != nil && sameT(ev.Val, m) {
				ms.Flag("done")
			} else if l := ms.Get("list"); l != nil && sameT(ev.Val, l) {
				ms.Flag("listdone")
			} else if !batch && sameT(ev.Val, rootParam(x, 7)) {
				ms.Flag("bdone")
			}
		case EvLoopBack, EvLoopExit:
			switch {
			case ms.Has(L + ":m"):
				if ev.Kind == EvLoopBack {
					x.Check("emit.all", con, ev, ms.Has("n") && !ms.Has("n+"), "a message is not sent exactly once")
				}
				ms.DelAll("m", "n", "n+", L+":m")
			case ms.Has(L + ":t"):
				if ev.Kind == EvLoopBack {
					x.Check("emit.all", con, ev, ms.Has("listdone"), "not all messages of a topic are sent")
				}
				ms.DelAll("topic", "list", "listdone", L+":t")
			case ms.Has(L + ":b"):
				if ev.Kind == EvLoopBack {
					x.Check("skip.all", con, ev, ms.Has("added"), "a sub-batch of a skipped block is not recorded")
				}
				ms.DelAll("b", "added", L+":b")
			}
		case EvSend:
			x.sentMessage(ev, con)
		case EvExit:
			r := ev.Args[0]
			if x.knownNonNil(r) || r.Op == "iface" {
				return
			}
			if e := ms.Get("err"); e != nil && sameT(r, e) && !x.knownNil(e) {
				return // the error of the bundle, nil or not, is reported
			}
			if ms.Has("done") {
				x.Check("emit.complete", con, ev, ms.Get("err") != nil && x.knownNil(ms.Get("err")), "the messages of a call that failed are sent")
				return
			}
			seen := ms.Get("seen")
			if batch {
				e := ms.Get("err")
				unknown := false
				if e != nil {
					for f, v := range s.facts {
						if v && f.Op == "eq" {
							for i := 0; i < 2; i++ {
								if sameT(f.Args[i], e) && isGlobal(f.Args[1-i], "delivery.ErrUnknownBatch") {
									unknown = true
								}
							}
						}
						if v && f.Op == "call" && f.Name == "errors.Is" && sameT(f.Args[0], e) && isGlobal(f.Args[1], "delivery.ErrUnknownBatch") {
							unknown = true
						}
					}
				}
				x.Check("skip.only", con, ev, unknown && seen != nil && s.Known(seen), "success is reported although the sub-batch was neither sent nor belongs to a skipped block")
			} else {
				x.Check("skip.only", con, ev, seen != nil && s.Known(seen), "success is reported although the block was neither sent nor seen before")
				x.Check("skip.all", con, ev, ms.Has("bdone"), "the sub-batches of a skipped block are not recorded")
			}
		}
	}
}

// sentMessage: one message of the bundle, on its topic, with its key and value.
func (x *Exec) sentMessage(ev *Event, con string) {
	ms, s := x.MS(), x.S
	m := ms.Get("m")
	pm := ev.Val
	fld := func(f string) *Term { return x.fieldV("sarama.ProducerMessage."+f, pm) }
	part := func(t *Term, meth string) bool {
		t = unface(t)
		return m != nil && t.Op == "call" && (t.Name == "(delivery.Message)."+meth || t.Name == "(delivery.ResumptionMessage)."+meth) && sameT(t.Args[0], m)
	}
	topic := fld("Topic")
	okT := ms.Get("topic") != nil && sameT(topic, ms.Get("topic"))
	if c, b, _ := x.class(topic); c == kpT+"reorgTopic" && b != nil {
		okT = s.KnownNot(atomLt(mkLen(topic), cInt(1)))
	}
	x.Check("emit.topic", con, ev, m != nil && okT, "a message is sent on topic %v", topic)
	x.Check("emit.key", con, ev, part(fld("Key"), "Key"), "a message is sent with key %v", fld("Key"))
	x.Check("emit.value", con, ev, part(fld("Value"), "Value"), "a message is sent with value %v", fld("Value"))
	okC := ms.Get("in") != nil && sameT(ev.Chan, ms.Get("in"))
	x.Check("emit.channel", con, ev, okC, "a message is sent on channel %v", ev.Chan)
	ms.bump("n")
}

// seenBlocks: what is recorded as seen comes from block messages on the feed.
func seenBlocks(c *Ctx) {
	ctor := c.Fn("transports.NewKafkaProducer")
	if ctor == nil {
		return
	}
	fns := allAnon(ctor)
	// the variables holding the cache
	cells := map[ssa.Value]bool{}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldClassOf(fa) == kpT+"recentHashes" {
						cells[cellOf(st.Val)] = true
					}
				}
			}
		}
	}
	isCache := func(v ssa.Value) bool {
		if cells[cellOf(v)] {
			return true
		}
		if u, ok := v.(*ssa.UnOp); ok {
			if fa, ok := u.X.(*ssa.FieldAddr); ok && fieldClassOf(fa) == kpT+"recentHashes" {
				return true
			}
		}
		return false
	}
	// every place that adds to the cache takes a hash from one channel
	chans := map[ssa.Value]bool{}
	adds := 0
	for _, fn := range c.P.repoFuncs("transports") {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				f := call.Common().StaticCallee()
				if f == nil || !(isLRU(calleeName(f), "Add") || isLRU(calleeName(f), "ContainsOrAdd") || isLRU(calleeName(f), "PeekOrAdd")) || !isCache(call.Common().Args[0]) {
					continue
				}
				adds++
				ch := recvChan(call.Common().Args[1])
				c.Oblige("seen.source", "hashes recorded by "+calleeName(fn), in.Pos(), ch != nil, nil, "a hash that was not received from the feed is recorded as seen")
				if ch != nil {
					chans[cellOf(ch)] = true
				}
			}
		}
	}
	c.Oblige("seen.source", "hashes seen on the feed", ctor.Pos(), adds > 0, nil, "no hash seen on the feed is recorded")
	for _, g := range goRoots(ctor) {
		sends := c.P.mentions(g, func(in ssa.Instruction) bool {
			switch x := in.(type) {
			case *ssa.Send:
				return chans[cellOf(x.Chan)]
			case *ssa.Select:
				for _, st := range x.States {
					if st.Dir == types.SendOnly && chans[cellOf(st.Chan)] {
						return true
					}
				}
			}
			return false
		})
		if !sends {
			continue
		}
		g := g
		c.FlowFn(g, func(x *Exec, ev *Event) {
			if ev.Kind != EvSend || !chans[cellOf(sentOn(ev))] {
				return
			}
			con := "hashes sent by " + calleeName(g)
			v := unold(ev.Val)
			var key *Term
			if v.Op == "call" && v.Name == "types.BytesToHash" {
				if k, ok := isSliceOf(v.Args[0], 1, 33); ok {
					key = unold(k)
				}
			}
			ok := key != nil && key.Op == "ld" && key.Args[0].Op == "&f" && key.Args[0].Name == "sarama.ConsumerMessage.Key"
			x.Check("seen.hash", con, ev, ok, "%v is passed on as a block hash", v)
			if !ok {
				return
			}
			n, _ := x.E.P.constInt("delivery", "BatchType")
			tb := x.S.load(mk("&i", "", nil, key, cInt(0)), types.Typ[types.Byte])
			x.Check("seen.type", con, ev, x.S.Known(atomEq(tb, cInt(n))), "the hash of a message that is not known to be a block is recorded as seen")
		}, nil)
	}
}

// sentOn: the channel operand of a send event.
func sentOn(ev *Event) ssa.Value {
	switch in := ev.Instr.(type) {
	case *ssa.Send:
		return in.Chan
	case *ssa.Select:
		for _, st := range in.States {
			if st.Dir == types.SendOnly {
				return st.Chan
			}
		}
	}
	return nil
}

// recvChan: v is what was received from a channel; returns it.
func recvChan(v ssa.Value) ssa.Value {
	for i := 0; i < 10; i++ {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.UnOp:
			if x.Op.String() == "<-" {
				return x.X
			}
			// a local variable assigned once from a receive
			if a, ok := x.X.(*ssa.Alloc); ok && x.Op.String() == "*" {
				var val ssa.Value
				n := 0
				for _, r := range *a.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
						n++
						val = st.Val
					}
				}
				if n == 1 {
					v = val
					continue
				}
			}
		case *ssa.Extract:
			switch t := x.Tuple.(type) {
			case *ssa.UnOp:
				if x.Index == 0 {
					return t.X
				}
			case *ssa.Select:
				// index 2+k is the value of the k-th receive
				k := 0
				for _, st := range t.States {
					if st.Dir == types.RecvOnly {
						if x.Index == 2+k {
							return st.Chan
						}
						k++
					}
				}
			}
		}
		return nil
	}
	return nil
}

func init() {
	register("T01", func(c *Ctx) {
		c.Explain = "typestate over every path of the Kafka producer's operations: which messages of the bundle were sent on which topic with which key and value, what is skipped and on which evidence; where the hashes regarded as seen come from"
		o := &runOpts{noInline: func(f *ssa.Function) bool { return pkgOf(f) == "delivery" }}
		c.Flow("transports.KafkaProducer.AddBlock", monKafkaSend(false), o)
		c.Flow("transports.KafkaProducer.SendBatch", monKafkaSend(true), o)
		seenBlocks(c)
		c.Flow("transports.KafkaProducer.PurgeReplayCache", func(x *Exec, ev *Event) {
			con := "caches emptied by PurgeReplayCache"
			for _, f := range []string{"recentHashes", "skipBatches"} {
				if ev.Kind == EvCall && isLRU(ev.Callee, "Purge") {
					if c, b, _ := x.class(ev.Recv); c == kpT+f && sameT(b, rootParam(x, 0)) {
						x.MS().Flag(f)
					}
				}
				if ev.Kind == EvExit {
					x.Check("purge", con+", "+f, ev, x.MS().Has(f), "%s is not emptied", f)
				}
			}
		}, nil)
		c.Min("emit.topic", 2)
		c.Min("emit.all", 2)
		c.Min("skip.only", 2)
		c.Min("skip.all", 1)
		c.Min("seen.hash", 1)
		c.Min("seen.type", 1)
	})
}
