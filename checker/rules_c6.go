package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// isDecodedInt: t is the number decoded (successfully) from the value of m.
func (x *Exec) isDecodedInt(t, m *Term) (isNum, ok bool) {
	r := unold(t)
	for r.Op == "conv" {
		r = r.Args[0]
	}
	sc, d, k := x.decodedFrom(r)
	if d == nil || !isGlobal(sc, "delivery.intSchema") {
		return false, false
	}
	m2, isv := isMsgCall(unold(d), "Value")
	if !isv || !sameT(m2, m) {
		return false, false
	}
	return true, k
}

// mon09: handling of a reorg message by the message processor.
func mon09(x *Exec, ev *Event) {
	trackDecode(x, ev)
	ms := x.MS()
	s := x.S
	v := x.view()
	if v.m == nil {
		return
	}
	if ms.Get("num") == nil {
		for _, k := range ms.Keys("dec:") {
			if !strings.HasSuffix(k, ":data") {
				continue
			}
		}
	}
	isReorg := x.msgIs(v.m, "ReorgType")
	if isReorg {
		ms.Flag("reorg")
	}
	if ev.Kind == EvBranch && x.decodeFailed(v.m) {
		ms.Flag("failed")
	}
	if a, ok := isFeedSend(ev, mpT+"reorgFeed"); ok {
		x.Check("notify.type", "notification on reorg messages only in "+rootName(x), ev, isReorg || ms.Has("reorg"), "reorg subscribers are notified although the message is not known to be a reorg message")
		x.Check("notify.once", "one notification per reorg message in "+rootName(x), ev, !ms.Has("sent"), "reorg subscribers are notified twice for one message")
		ms.Flag("sent")
		a = unold(a)
		good := a.Op == "mkmap" && ms.Get("rmap") == a && !ms.Has("rmapbad")
		x.Check("notify.what", "notification carries number and hash of the message in "+rootName(x), ev, good, "reorg subscribers are notified of %v, not of exactly the decoded number and the hash in the key", a)
		return
	}
	switch ev.Kind {
	case EvMapUpdate:
		if ev.Map.Op == "mkmap" && isFreshObj(ev.Map) {
			if cl, _, _ := x.class(ev.Map); cl == "" {
				k := ev.Key
				num, dec := x.isDecodedInt(k, v.m)
				if !num {
					// the number may have been stored and read back
					if l := x.loc(unold(k)); l.Op == "ld" && l.Args[0].Op == "&f" && l.Args[0].Name == mpT+"lastEmittedNum" && ms.Has("numset") {
						num, dec = true, true
					}
				}
				if num && dec && isHashOf(ev.Val, v.m) && ms.Get("rmap") == nil {
					ms.Set("rmap", ev.Map)
				} else if ms.Get("rmap") == ev.Map || isHashOf(ev.Val, v.m) {
					ms.Flag("rmapbad")
				}
			}
		}
	case EvCall:
		if ev.Callee == "(*lru.Cache).Purge" && isCompletedCache(x, ev.Recv) {
			ms.Flag("fresh:completed")
		}
		if ev.Callee == "lru.New" && ev.Res != nil && ev.Res.Op == "tuple" {
			ms.Set("lruerr", ev.Res.Args[1])
		}
		if ev.Callee == "(*lru.Cache).Add" && isCompletedCache(x, ev.Recv) {
			ms.Del("fresh:completed")
		}
	case EvStore:
		if ev.Addr.Op != "&f" {
			break
		}
		switch ev.Addr.Name {
		case mpT + "completed":
			w := unold(ev.Val)
			ok := w.Op == "opq" || w.Op == "res" || w.Op == "call"
			x.Check("forget.completed", "delivered blocks forgotten only on reorg in "+calleeName(ev.Fn), ev, isReorg, "the memory of delivered blocks is replaced by a message that is not known to be a reorg message")
			if ok && ms.Has("lruerr") {
				ms.Flag("fresh:completed")
			}
		case mpT + "oldBlocks":
			if ev.Val.Op == "mkmap" && s.fresh[ev.Val] {
				ms.Flag("fresh:old")
			}
			x.Check("forget.old", "given-up blocks forgotten only on reorg in "+calleeName(ev.Fn), ev, isReorg, "the memory of given-up blocks is replaced by a message that is not known to be a reorg message")
		case mpT + "lastEmittedNum":
			if isReorg {
				num, ok := x.isDecodedInt(ev.Val, v.m)
				x.Check("last", "last number set from the reorg message", ev, num && ok, "the last number is set to %v, not the successfully decoded number of the message", ev.Val)
				if num && ok {
					ms.Flag("numset")
				}
			}
		}
	case EvMapDelete:
		if cl, _, _ := x.class(ev.Map); cl == mpT+"oldBlocks" && ev.Key == nil {
			ms.Flag("fresh:old")
		}
	case EvRangeDone:
	case EvExit:
		if !isReorg && !ms.Has("reorg") {
			return
		}
		lruFailed := ms.Has("lruerr") && s.KnownNot(atomEq(ms.Get("lruerr"), cNil()))
		if lruFailed || x.keyShort(v.m, 33) {
			return
		}
		failed := ms.Has("failed") || x.decodeFailed(v.m)
		if failed {
			x.Check("undecodable", "undecodable reorg message notifies nobody", ev, !ms.Has("sent"), "reorg subscribers are notified although the message could not be decoded")
			return
		}
		x.Check("effect.completed", "a reorg message forgets the delivered blocks", ev, ms.Has("fresh:completed"), "a reorg message is finished with although delivered blocks are still remembered")
		x.Check("effect.old", "a reorg message forgets the given-up blocks", ev, ms.Has("fresh:old"), "a reorg message is finished with although given-up blocks are still remembered")
		x.Check("effect.num", "a reorg message sets the last number", ev, ms.Has("numset"), "a reorg message is finished with although the last number was not set from it")
		x.Check("effect.notify", "a reorg message notifies the reorg subscribers", ev, ms.Has("sent"), "a reorg message is finished with although reorg subscribers were not notified")
	}
}

// mon09o: the ordering layer passes reorg notices on unchanged.
func mon09o(x *Exec, ev *Event) {
	ms := x.MS()
	num, hash := x.E.paramOfType("int64"), x.E.paramOfType("types.Hash")
	if a, ok := isFeedSend(ev, "delivery.OrderedMessageProcessor.reorgFeed"); ok {
		a = unold(a)
		x.Check("forward.what", "notice forwarded unchanged by "+rootName(x), ev, a.Op == "mkmap" && ms.Get("rmap") == a && !ms.Has("rmapbad"), "reorg subscribers are told %v, not the number and hash of the notice", a)
		ms.Flag("sent")
		return
	}
	switch ev.Kind {
	case EvMapUpdate:
		if ev.Map.Op == "mkmap" {
			if sameT(ev.Key, num) && sameT(ev.Val, hash) && ms.Get("rmap") == nil {
				ms.Set("rmap", ev.Map)
			} else {
				ms.Flag("rmapbad")
			}
		}
	case EvStore:
		if ev.Addr.Op == "&f" && ev.Addr.Name == "delivery.OrderedMessageProcessor.lastHash" {
			x.Check("forward.head", "head moves to the hash of the notice in "+rootName(x), ev, sameT(ev.Val, hash), "the head is set to %v by a reorg notice", ev.Val)
			ms.Flag("head")
		}
	case EvExit:
		x.Check("forward.sent", "notice forwarded by "+rootName(x), ev, ms.Has("sent"), "a reorg notice is not passed on")
		x.Check("forward.head", "head moves to the hash of the notice in "+rootName(x), ev, ms.Has("head"), "a reorg notice leaves the head unchanged")
	}
}

// mon09e: an entry for reorgs reported by a broker hands the reorg over to the
// ordering layer's own goroutine, or handles it.
func mon09e(x *Exec, ev *Event) {
	ms := x.MS()
	num, hash := x.E.paramOfType("int64"), x.E.paramOfType("types.Hash")
	con := "reorg reported by a broker"
	if a, ok := isFeedSend(ev, mpT+"reorgFeed"); ok {
		a = unold(a)
		x.Check("entry", con, ev, a.Op == "mkmap" && ms.Get("rmap") == a && !ms.Has("rmapbad"), "the ordering layer is told %v, not the number and hash reported", a)
		ms.bump("sent")
		return
	}
	switch ev.Kind {
	case EvCall:
		if ev.Callee == "(*delivery.OrderedMessageProcessor).HandleReorg" {
			x.Check("entry", con, ev, len(ev.Args) == 2 && sameT(ev.Args[0], num) && sameT(ev.Args[1], hash), "the ordering layer is told %v, not the number and hash reported", ev.Args)
			ms.bump("sent")
		}
	case EvMapUpdate:
		if ev.Map.Op == "mkmap" {
			if sameT(ev.Key, num) && sameT(ev.Val, hash) && ms.Get("rmap") == nil {
				ms.Set("rmap", ev.Map)
			} else {
				ms.Flag("rmapbad")
			}
		}
	case EvExit:
		x.Check("entry.once", con, ev, ms.Has("sent") && !ms.Has("sent+"), "a reported reorg is not handed on once")
	}
}

// part is a piece of a block known to be missing.
type part struct {
	kind  string // sub, prefix, flag
	terms []*Term
}

func (x *Exec) missingParts() []part {
	var out []part
	s := x.S
	for f, v := range s.facts {
		switch f.Op {
		case "lt":
			c, ok := f.Args[1].Int()
			if !ok || c < 1 || v {
				continue
			}
			if f.Args[0].Op == "len" {
				if cl, _, _ := x.class(f.Args[0].Args[0]); cl == pbT+"pendingBatches" {
					out = append(out, part{"sub", nil})
				}
			}
			if f.Args[0].Op == "at" {
				if cl, _, _ := x.class(f.Args[0].Args[0]); cl == pbT+"prefixes" {
					out = append(out, part{"prefix", []*Term{f.Args[0].Args[1]}})
				}
			}
		case "has":
			if v {
				if cl, _, _ := x.class(f.Args[0]); cl == pbT+"pendingBatches" {
					out = append(out, part{"sub", []*Term{f.Args[1]}})
				}
			}
		case "ld":
			if !v && f.Args[0].Op == "&i" {
				if cl, _, k := x.class(f.Args[0].Args[0]); cl == pbT+"batches[]" {
					out = append(out, part{"flag", []*Term{k, f.Args[0].Args[1]}})
				}
			}
		}
	}
	return out
}

// explains: text res names part p.
func (p part) explains(res *Term) bool {
	lits, args, ok := formattedV(res, "vdsxXq")
	if !ok {
		return false
	}
	text := strings.ToLower(strings.Join(lits, " "))
	has := func(t *Term) bool {
		for _, a := range args {
			for a.Op == "conv" {
				a = a.Args[0]
			}
			if t != nil && sameT(a, t) {
				return true
			}
		}
		return false
	}
	switch p.kind {
	case "sub":
		if len(p.terms) == 0 {
			if strings.Contains(text, "batch") && !strings.Contains(text, "prefix") {
				for _, a := range args {
					if a.Op != "len" {
						return false
					}
				}
				return true
			}
			return false
		}
		return has(p.terms[0])
	case "prefix":
		return has(p.terms[0]) && !strings.Contains(text, "batch")
	case "flag":
		return has(p.terms[0]) && has(p.terms[1]) && strings.Contains(text, "batch")
	}
	return false
}

// mon10 checks Ready and the diagnosis at their exits.
func mon10(pbOf func(x *Exec) *Term, diag bool) func(x *Exec, ev *Event) {
	return func(x *Exec, ev *Event) {
		ms := x.MS()
		if (ev.Kind == EvBranch || ev.Kind == EvLeave) && !diag && x.notReadyWitness() {
			ms.Flag("nr") // nothing changes the block here
		}
		if ev.Kind != EvExit {
			return
		}
		pb := pbOf(x)
		name := rootName(x)
		res := unold(ev.Res)
		if !diag {
			for _, want := range []bool{true, false} {
				n := x.S.clone()
				if b, isc := res.Bool(); isc {
					if b != want {
						continue
					}
				} else if !n.Assume(res, want) {
					continue
				}
				y := &Exec{E: x.E, S: n}
				if want {
					why, ok := y.gate(pb)
					x.Check("ready.true", name+" says complete", ev, ok, "%s says a block is complete although %s", name, why)
				} else {
					x.Check("ready.false", name+" says incomplete", ev, ms.Has("nr") || y.notReadyWitness(), "%s says a block is incomplete although no part of it is known to be missing", name)
				}
			}
			return
		}
		if c, isc := res.Str(); isc && strings.ToLower(c) == "ready" {
			why, ok := x.gate(pb)
			x.Check("diag.ready", name+" says ready", ev, ok, "%s says a block is ready although %s", name, why)
			return
		}
		if c, isc := res.Str(); isc && c == "not found" {
			ok := false
			hash := x.E.paramOfType("types.Hash")
			for f, b := range x.S.facts {
				if f.Op == "has" && !b && sameT(f.Args[1], hash) {
					if cl, _, _ := x.class(f.Args[0]); cl == mpT+"pendingBatches" {
						ok = true
					}
				}
				if f.Op == "eq" && b && f.Args[1].IsNil() && f.Args[0].Op == "at" && sameT(f.Args[0].Args[1], hash) {
					ok = true
				}
			}
			x.Check("diag.unknown", name+" says not found", ev, ok, "%s says a block is not found although it may be under assembly", name)
			return
		}
		ok := false
		for _, p := range x.missingParts() {
			if p.explains(res) {
				ok = true
			}
		}
		x.Check("diag.part", name+" names a missing part", ev, ok, "%s answers %v, which does not name a part known to be missing", name, trunc(res.String(), 160))
	}
}

// mon11: a block that is complete when a message has been processed is delivered.
func mon11(x *Exec, ev *Event) {
	ms := x.MS()
	v := x.view()
	if _, ok := isFeedSend(ev, mpT+"feed"); ok {
		ms.Flag("sent")
		return
	}
	latch := func() {
		if x.notReadyWitness() {
			ms.Flag("nr")
		}
	}
	switch ev.Kind {
	case EvBranch, EvLeave:
		if ms.Has("prog") {
			latch()
		}
	case EvExit:
		if !ms.Has("prog") || ms.Has("sent") {
			return
		}
		latch()
		gone := false
		if b, k := v.hashFact(mpT + "pendingBatches"); k && !b {
			gone = true
		}
		x.Check("deliver", "a block completed by a message is delivered in "+rootName(x), ev, ms.Has("nr") || gone, "a message that may have completed its block is finished with without the block being delivered or found incomplete")
	}
	f := x.eff(ev)
	if f == nil {
		return
	}
	switch f.Kind {
	case "prefix+", "prefix-", "sb-", "flag", "mp.pend+", "sb+", "batches+":
		ms.Flag("prog")
		ms.Del("nr")
	}
}

func init() {
	irrRes := resumptionClasses
	recAll := []string{pbT + "prefixes", pbT + "batches", pbT + "batches[]", pbT + "pendingBatches"}
	register("C09", func(c *Ctx) {
		c.Explain = "typestate over the reorg branch of message processing: what is reset, what is announced, and on which messages"
		irr := append([]string{mpT + "trackedPrefixes", pbT + "prefixes", pbT + "Values", pbT + "Deletes", pbT + "batches", pbT + "pendingBatches", pbT + "pendingMessages", mpT + "pendingMessages", mpT + "evictCh", pbT + "waitCh", pbT + "failedReconstructPanic"}, irrRes...)
		c.Flow("delivery.MessageProcessor.ProcessMessage", mon09, &runOpts{irrelevant: irr, forall: []string{"none"}})
		handler := "(*delivery.OrderedMessageProcessor).HandleReorg"
		for _, fn := range c.P.reorgEntries() {
			if calleeName(fn) == handler {
				c.FlowFn(fn, mon09o, &runOpts{})
			} else {
				c.FlowFn(fn, mon09e, &runOpts{noInline: func(f *ssa.Function) bool { return calleeName(f) == handler }})
			}
		}
		// every notice received by the ordering layer is handed on with its own pair
		n := 0
		for _, cs := range c.P.callsTo(func(n string) bool { return strings.HasSuffix(n, "OrderedMessageProcessor).HandleReorg") }) {
			if pkgOf(cs.Fn) != "delivery" {
				continue
			}
			n++
			args := cs.In.Common().Args
			ok := len(args) == 3 && rangePair(args[1], args[2])
			c.Oblige("forward.pair", "notice handed on in "+calleeName(cs.Fn), c.P.pos(cs.In), ok, nil, "the ordering layer is not handed the number and hash of one entry of the notice")
		}
		c.Oblige("forward.pair", "notices are received by the ordering layer", 0, n > 0, nil, "reorg notices are not handed to the ordering layer")
		c.Min("notify", 2)
		c.Min("effect", 3)
		c.Min("forward", 3)
	})
	register("C10", func(c *Ctx) {
		c.Explain = "universally and existentially quantified facts at every exit of the completeness test and of the diagnosis"
		self := func(x *Exec) *Term { return x.E.paramOfType("*delivery.PendingBatch") }
		byHash := func(x *Exec) *Term {
			mp, h := x.E.paramOfType("*delivery.MessageProcessor"), x.E.paramOfType("types.Hash")
			return mkAt(x.fieldV(mpT+"pendingBatches", mp), h, nil)
		}
		o := &runOpts{forall: recAll}
		c.Flow("delivery.PendingBatch.Ready", mon10(self, false), o)
		c.Flow("delivery.PendingBatch.whyNotReady", mon10(self, true), o)
		c.Flow("delivery.MessageProcessor.WhyNotReady", mon10(byHash, true), o)
		c.Min("ready.true", 1)
		c.Min("ready.false", 1)
		c.Min("diag.ready", 2)
		c.Min("diag.part", 2)
	})
	register("C11", func(c *Ctx) {
		c.Explain = "at every exit of message processing after something was recorded: delivered, found incomplete, or no longer pending"
		irr := append([]string{mpT + "oldBlocks", mpT + "completed", mpT + "lastEmittedNum", mpT + "reorgThreshold", mpT + "resumption", mpT + "evictCh", pbT + "Number", pbT + "waitCh", mpT + "trackedPrefixes", pbT + "Values", pbT + "Deletes", mpT + "pendingMessages"}, irrRes...)
		c.Flow("delivery.MessageProcessor.ProcessMessage", mon11, &runOpts{irrelevant: irr, forall: []string{"none"}})
		c.Min("deliver", 1)
	})
	_ = ssa.NaiveForm
	_ = types.Typ
}

// rangePair: k and v are the key and the value of one step of a range loop.
func rangePair(k, v ssa.Value) bool {
	ek, ok1 := k.(*ssa.Extract)
	ev, ok2 := v.(*ssa.Extract)
	return ok1 && ok2 && ek.Tuple == ev.Tuple && ek.Index == 1 && ev.Index == 2
}
