package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// matchTerms: the ways of asking whether expression re matches key.
func matchTerms(re, key *Term) []*Term {
	b := types.Typ[types.Bool]
	return []*Term{
		mk("call", "(*regexp.Regexp).MatchString", b, re, key),
		mk("call", "(*regexp.Regexp).Match", b, re, mk("conv", "[]byte", nil, key)),
	}
}

// isTrackedRe: t is an element of mp.trackedPrefixes.
func (x *Exec) isTrackedRe(t *Term) bool {
	t = unold(t)
	if t.Op != "ld" || t.Args[0].Op != "&i" {
		return false
	}
	c, _, _ := x.class(t.Args[0].Args[0])
	return c == mpT+"trackedPrefixes"
}

// tracked: some tracked expression is known to match key.
func (x *Exec) tracked(key *Term) bool {
	for f, v := range x.S.facts {
		if !v {
			continue
		}
		switch f.Op {
		case "exists":
			cl, _, _ := x.class(f.Args[0])
			if cl != mpT+"trackedPrefixes" || f.Args[1].Op != "call" {
				continue
			}
			for _, m := range matchTerms(mk("hole", "E0", f.Args[1].Args[0].Typ), key) {
				if f.Args[1] == m || f.Args[1].Name == m.Name && f.Args[1].Args[0].Op == "hole" && f.Args[1].Args[0].Name == "E0" && sameT(f.Args[1].Args[1], m.Args[1]) {
					return true
				}
			}
		case "call":
			if strings.HasPrefix(f.Name, "(*regexp.Regexp).Match") && x.isTrackedRe(f.Args[0]) {
				for _, m := range matchTerms(f.Args[0], key) {
					if m.Name == f.Name && sameT(f.Args[1], m.Args[1]) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (x *Exec) untrackedKey(key *Term) bool {
	for c := range x.trackedContainers() {
		if x.forallHolds(c, func(n *State, e, k *Term) bool {
			for _, m := range matchTerms(e, key) {
				if n.KnownNot(m) {
					return true
				}
			}
			return false
		}) {
			return true
		}
	}
	return false
}

func mon05(x *Exec, ev *Event) {
	trackDecode(x, ev)
	ms := x.MS()
	s := x.S
	latch := func() {
		if h := ms.Get("hkey"); h != nil {
			if !ms.Has("trk") && x.tracked(h) {
				ms.Flag("trk")
			}
		}
	}
	const rel = "entries of a block header"
	switch ev.Kind {
	case EvBranch, EvLeave:
		latch()
	case EvRangeKey:
		if x.isHeaderUpdates(ev.Val) {
			ms.Set(loopSlot("h", ev.Ctx, ev.Hdr), ev.Key)
			ms.Set("hkey", ev.Key)
			ms.Set("hel", mkAt(ev.Val, ev.Key, nil))
			for _, k := range []string{"trk", "hv", "hd", "hc", "hs"} {
				ms.Del(k)
			}
			return
		}
	case EvRangeDone:
		if x.isHeaderUpdates(ev.Val) {
			ms.Flag("regdone")
		}
	case EvLoopBack, EvLoopExit:
		if h := ms.Get(loopSlot("h", ev.Ctx, ev.Hdr)); h != nil {
			if ev.Kind == EvLoopBack && !x.untrackedKey(h) {
				el := ms.Get("hel")
				val := mk("fld", "delivery.BatchRecord.Value", types.NewSlice(types.Typ[types.Byte]), el)
				del := mk("fld", "delivery.BatchRecord.Delete", types.Typ[types.Bool], el)
				cnt := mk("fld", "delivery.BatchRecord.Count", types.Typ[types.Int], el)
				sub := mk("fld", "delivery.BatchRecord.Subbatch", nil, el)
				x.Check("if.value", "value of a tracked entry is kept", ev, ms.Has("hv") || s.Known(atomLt(mkLen(val), cInt(1))) || s.Known(atomEq(val, cNil())), "the value of a header entry that may match a tracked prefix is not recorded")
				x.Check("if.delete", "deletion of a tracked entry is kept", ev, ms.Has("hd") || s.KnownNot(del), "the deletion of a header entry that may match a tracked prefix is not recorded")
				x.Check("if.count", "count of a tracked entry is expected", ev, ms.Has("hc") || s.Known(atomEq(cnt, cInt(0))) || s.Known(atomLt(cnt, cInt(1))), "the message count of a header entry that may match a tracked prefix is not expected")
				x.Check("if.subbatch", "sub-batch of a tracked entry is expected", ev, ms.Has("hs") || x.knownZeroHash(sub), "the sub-batch of a header entry that may match a tracked prefix is not expected")
			}
			for _, k := range []string{"hkey", "hel", "trk", "hv", "hd", "hc", "hs"} {
				ms.Del(k)
			}
			ms.Del(loopSlot("h", ev.Ctx, ev.Hdr))
			return
		}
	case EvExit:
		if ms.Has("created") {
			x.Check("all", "every header entry is looked at", ev, ms.Has("regdone"), "a block header is finished with before all its entries were looked at")
		}
	}
	f := x.eff(ev)
	if f == nil {
		return
	}
	if f.Kind == "mp.pend+" {
		ms.Flag("created")
	}
	h := ms.Get("hkey")
	if h == nil {
		return
	}
	latch()
	fn := "?"
	if ev.Fn != nil {
		fn = calleeName(ev.Fn)
	}
	el := ms.Get("hel")
	_ = rel
	chk := func(slot, what string) {
		ms.Flag(slot)
		x.Check("onlyif."+what, "header entries used in "+fn, ev, ms.Has("trk"), "a header entry contributes a %s although no tracked prefix is known to match its key", what)
	}
	isSub := sameT(f.Key, mk("fld", "delivery.BatchRecord.Subbatch", nil, el))
	switch {
	case f.Kind == "values+" && sameT(f.Key, h):
		chk("hv", "value")
	case f.Kind == "deletes+" && sameT(f.Key, h):
		chk("hd", "deletion")
	case f.Kind == "prefix+" && sameT(f.Key, h):
		chk("hc", "count")
	case f.Kind == "sb+" && isSub:
		chk("hs", "sub-batch")
	}
}

// pbOfMsg: pb is the block under assembly that message m names.
func (x *Exec) pbOfMsg(pb, m *Term) bool {
	p := unold(pb)
	if p.Op == "at" && isHashOf(p.Args[1], m) {
		if c, _, _ := x.class(p.Args[0]); c == mpT+"pendingBatches" {
			return true
		}
	}
	if h := unold(x.fieldV(pbT+"Hash", pb)); isHashOf(h, m) {
		return true
	}
	for l, v := range x.S.mem {
		if (v == pb || unold(v) == p) && l.Op == "at" && isHashOf(l.Args[1], m) {
			if c, _, _ := x.class(l.Args[0]); c == mpT+"pendingBatches" {
				return true
			}
		}
	}
	// a message retained by that block
	m = unold(m)
	if m.Op == "at" {
		if c, b, _ := x.class(m.Args[0]); c == pbT+"pendingMessages" && b != nil && (sameT(b, pb)) {
			return true
		}
		a := unold(m.Args[0])
		if a.Op == "ld" && a.Args[0].Op == "&f" && a.Args[0].Name == pbT+"pendingMessages" && sameT(a.Args[0].Args[0], pb) {
			return true
		}
	}
	return false
}

func mon06(x *Exec, ev *Event) {
	trackDecode(x, ev)
	ms := x.MS()
	s := x.S
	v := x.view()
	fn := "?"
	if ev.Fn != nil {
		fn = calleeName(ev.Fn)
	}
	switch ev.Kind {
	case EvRangeKey:
		if x.isHeaderUpdates(ev.Val) {
			ms.Set(loopSlot("h", ev.Ctx, ev.Hdr), ev.Key)
			ms.Set("hkey", ev.Key)
			ms.Set("hel", mkAt(ev.Val, ev.Key, nil))
			return
		}
		switch cl, _, _ := x.class(ev.Val); cl {
		case "delivery.SubBatchRecord.Updates":
			ms.Set(loopSlot("u", ev.Ctx, ev.Hdr), tTrue)
			ms.Set("uk", ev.Key)
			ms.Set("uv", mkAt(ev.Val, ev.Key, nil))
		case "delivery.SubBatchRecord.Delete":
			ms.Set(loopSlot("d", ev.Ctx, ev.Hdr), tTrue)
			ms.Set("dk", ev.Res)
		}
	case EvLoopBack, EvLoopExit:
		for _, k := range []struct{ p, a, b string }{{"h", "hkey", "hel"}, {"u", "uk", "uv"}, {"d", "dk", "dk"}} {
			if ms.Has(loopSlot(k.p, ev.Ctx, ev.Hdr)) {
				ms.Del(k.a)
				ms.Del(k.b)
				ms.Del(loopSlot(k.p, ev.Ctx, ev.Hdr))
			}
		}
	}
	f := x.eff(ev)
	if f == nil {
		return
	}
	header := func(t *Term, class string) bool {
		t = unold(t)
		cl := ""
		if t.Op == "fld" {
			cl = t.Name
		} else if t.Op == "ld" && t.Args[0].Op == "&f" {
			cl = t.Args[0].Name
		}
		if cl != class {
			return false
		}
		sc, data, ok := x.decodedFrom(t)
		m, isv := isMsgCall(data, "Value")
		return ok && isGlobal(sc, "delivery.batchSchema") && isv && sameT(m, v.m)
	}
	record := func(t *Term) bool { // decoded from the value of a sub-batch message of f.PB
		sc, data, ok := x.decodedFrom(t)
		m, isv := isMsgCall(data, "Value")
		return ok && isGlobal(sc, "delivery.updateSchema") && isv && x.pbOfMsg(f.PB, m) && x.msgIs(m, "SubBatchMsgType")
	}
	switch f.Kind {
	case "mp.pend+":
		pb := f.Val
		x.Check("header.key", "block registered under its own hash in "+fn, ev, isHashOf(f.Key, v.m), "a block is registered under %v, which is not the hash in its header key", f.Key)
		n := x.fieldV(pbT+"Number", pb)
		x.Check("header.number", "number of the block in "+fn, ev, header(n, "delivery.Batch.Number"), "the number of the block is %v, not the one in its successfully decoded header", n)
		p := x.fieldV(pbT+"ParentHash", pb)
		x.Check("header.parent", "parent of the block in "+fn, ev, header(p, "delivery.Batch.ParentHash"), "the parent of the block is %v, not the one in its successfully decoded header", p)
		h := x.fieldV(pbT+"Hash", pb)
		x.Check("header.hash", "hash of the block in "+fn, ev, isHashOf(h, v.m), "the hash of the block is %v, not the one in its header key", h)
		w := s.bigVal(x.fieldV(pbT+"Weight", pb))
		x.Check("header.weight", "weight of the block in "+fn, ev, w.Op == "call" && w.Name == "(*big.Int).SetBytes" && header(w.Args[0], "delivery.Batch.Weight"), "the weight of the block is %v, not the one in its successfully decoded header", w)
		for _, c := range []string{"Values", "Deletes", "prefixes", "batches", "pendingBatches", "pendingMessages"} {
			m := x.fieldV(pbT+c, pb)
			x.Check("header.empty", c+" of a new block in "+fn, ev, m.Op == "mkmap" && s.fresh[m], "%s of a new block is %v, not a new empty map", c, m)
		}
	case "pbq+":
		x.Check("own.retained", "messages retained in a block belong to it, in "+fn, ev, x.pbOfMsg(f.PB, f.Val), "message %v is retained in a block it does not belong to", f.Val)
	case "values+":
		ok, why := false, "its key is neither that of the message nor of a header or sub-batch entry"
		if hk := ms.Get("hkey"); hk != nil && sameT(f.Key, hk) {
			ok = sameT(f.Val, mk("fld", "delivery.BatchRecord.Value", nil, ms.Get("hel"))) || x.isEntry(f.Val, ms.Get("hel"), "delivery.BatchRecord.Value")
			why = "its value is not the one of the header entry"
			if ok && v.m != nil && !x.pbOfMsg(f.PB, v.m) {
				ok, why = false, "the block is not the one of the header"
			}
		} else if uk := ms.Get("uk"); uk != nil && sameT(f.Key, uk) {
			ok = sameT(f.Val, ms.Get("uv")) && record(ms.Get("uv"))
			why = "it is not the entry of a decoded sub-batch message of this block"
		} else if m, isp := msgPath(unold(f.Key)); isp {
			mv, isv := isMsgCall(unold(f.Val), "Value")
			ok = isv && sameT(m, mv) && x.msgIs(m, "BatchMsgType") && x.pbOfMsg(f.PB, m)
			why = "it is not the value of an update message of this block"
		}
		x.Check("value", "value recorded in "+fn, ev, ok, "%v is recorded under %v: %s", f.Val, f.Key, why)
	case "deletes+":
		ok, why := false, "its key is neither that of the message nor of a header or sub-batch entry"
		if hk := ms.Get("hkey"); hk != nil && sameT(f.Key, hk) {
			ok = x.entryTrue(ms.Get("hel"), "delivery.BatchRecord.Delete")
			why = "the header entry does not announce a deletion"
			if ok && v.m != nil && !x.pbOfMsg(f.PB, v.m) {
				ok, why = false, "the block is not the one of the header"
			}
		} else if dk := ms.Get("dk"); dk != nil && sameT(f.Key, dk) {
			ok = record(dk)
			why = "it is not the entry of a decoded sub-batch message of this block"
		} else if m, isp := msgPath(unold(f.Key)); isp {
			ok = x.msgIs(m, "BatchDeleteMsgType") && x.pbOfMsg(f.PB, m)
			why = "it does not come from a deletion message of this block"
		}
		x.Check("deletion", "deletion recorded in "+fn, ev, ok, "a deletion of %v is recorded: %s", f.Key, why)
	case "values-", "deletes-":
		x.Check("removed", f.Kind+" in "+fn, ev, false, "content recorded in a block is removed again")
	case "flag", "prefix+":
		// the block counted off is the one of the message: C01
	}
}

// isEntry: t is field class of header entry el.
func (x *Exec) isEntry(t, el *Term, class string) bool {
	t = unold(t)
	if t.Op == "fld" && t.Name == class {
		return sameT(t.Args[0], el)
	}
	return false
}

func (x *Exec) entryTrue(el *Term, class string) bool {
	for f, v := range x.S.facts {
		if v && x.isEntry(f, el, class) {
			return true
		}
	}
	return false
}

// contentWriters: who may write what makes up a block.
func contentWriters(c *Ctx, rule string, flowFns map[string]bool) {
	for _, fld := range []string{"Number", "Weight", "ParentHash", "Hash"} {
		ws := c.P.writesTo(pbT + fld)
		for _, w := range ws {
			c.Oblige(rule, fld+" written in "+calleeName(w.Fn), c.P.pos(w.In), w.Fresh && w.Kind == "store", nil, "%s of an existing block is changed", fld)
		}
	}
	for _, fld := range []string{"Values", "Deletes"} {
		for _, w := range c.P.writesTo(pbT + fld) {
			ok := w.Kind == "store" && w.Fresh || w.Kind == "update" && (flowFns[calleeName(w.Fn)] || pkgOf(w.Fn) == "transports")
			c.Oblige(rule, fld+" written in "+calleeName(w.Fn), c.P.pos(w.In), ok, nil, "%s of a block are changed outside message processing", fld)
		}
	}
	// weights are shared between blocks and the head: nothing may do arithmetic into them
	for _, cs := range c.P.callsTo(func(n string) bool { return strings.HasPrefix(n, "(*big.Int).") }) {
		m, _ := bigMethod(ccName(cs.In.Common()))
		if bigObs[m] {
			continue
		}
		args := cs.In.Common().Args
		bad := false
		for f := range loadedFields(args[0]) {
			if strings.HasPrefix(f, "delivery.") || strings.HasPrefix(f, "transports.") {
				bad = true
			}
		}
		for _, o := range origins(args[0]) {
			if call, ok := o.(*ssa.Call); ok {
				if sf := call.Call.StaticCallee(); sf != nil && c.P.inRepo(sf) {
					bad = true // a helper may return the weight of a block
				}
			}
			if _, ok := o.(*ssa.Parameter); ok {
				bad = true
			}
		}
		c.Oblige(rule, "arithmetic into a shared weight in "+calleeName(cs.Fn), c.P.pos(cs.In), !bad, nil, "the result of %s is stored into a number that may be the weight of a block", m)
	}
}

func init() {
	mpRoot := "delivery.MessageProcessor.ProcessMessage"
	common := []string{pbT + "failedReconstructPanic", mpT + "failedReconstructPanic", pbT + "waitCh", mpT + "lastEmittedNum", mpT + "oldBlocks", mpT + "completed", "(*lru.Cache).Contains", mpT + "reorgThreshold", mpT + "pendingMessages", mpT + "evictCh"}
	register("C05", func(c *Ctx) {
		c.Explain = "typestate over every path of header processing: which header entries contribute, against the outcome of the tracked-prefix tests on that path"
		irr := append(append([]string{pbT + "batches", pbT + "pendingMessages"}, common...), resumptionClasses...)
		c.Flow(mpRoot, mon05, &runOpts{irrelevant: irr, forall: []string{mpT + "trackedPrefixes"}})
		n := 0
		for _, w := range c.P.writesTo(mpT + "trackedPrefixes") {
			ok := w.Kind == "store" && w.Fresh && loadedFields(w.Val)["delivery.ConsumerConfig.TrackedPrefixes"]
			c.Oblige("config", "tracked prefixes set in "+calleeName(w.Fn), c.P.pos(w.In), ok, nil, "the tracked prefixes are not exactly those of the configuration")
			n++
		}
		c.Oblige("config", "tracked prefixes are taken from the configuration", 0, n > 0, nil, "nothing sets the tracked prefixes")
		for _, w := range c.P.writesTo("delivery.ConsumerConfig.TrackedPrefixes") {
			c.Oblige("config", "configured prefixes changed in "+calleeName(w.Fn), c.P.pos(w.In), false, nil, "the configured tracked prefixes are changed")
		}
		c.Min("onlyif", 4)
		c.Min("if", 4)
	})
	register("C06", func(c *Ctx) {
		c.Explain = "provenance of everything written into a block, on every path of message processing, plus who may write block content at all"
		irr := append(append([]string{mpT + "trackedPrefixes"}, common...), resumptionClasses...)
		c.Flow(mpRoot, mon06, &runOpts{irrelevant: irr, forall: []string{"none"}})
		contentWriters(c, "writers", c.Funcs)
		c.Min("header", 11)
		c.Min("value", 2)
		c.Min("deletion", 2)
		c.Min("writers", 6)
	})
}
