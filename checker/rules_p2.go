package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sliceStart: how many unset elements a new message slice starts with.
func (x *Exec) sliceStart(t *Term) (int64, bool) {
	n := x.normSlice(t)
	if n.IsNil() || n.Op == "list" && len(n.Args) == 0 {
		return 0, true
	}
	if n.Op == "mkslice" {
		if v, ok := n.Args[0].Int(); ok {
			return v, true
		}
	}
	if n.Op == "list" {
		for _, a := range n.Args {
			if !zeroT(a) {
				return 0, false
			}
		}
		return int64(len(n.Args)), true
	}
	if n.Op == "slice" && n.Args[0].Op == "alloc" && n.Args[2].Name != "none" {
		if v, ok := n.Args[2].Int(); ok && x.S.fresh[n.Args[0]] {
			return v, true
		}
	}
	return 0, false
}

// monSendBatch: P02, P03, P04, P05 over Producer.SendBatch.
func monSendBatch(x *Exec, ev *Event) {
	trackEncode(x, ev)
	ms := x.MS()
	s := x.S
	batch, deletes, update := rootParam(x, 1), rootParam(x, 2), rootParam(x, 3)
	fn := x.fnEv(ev)
	pendMap := func(m *Term) bool { c, _, _ := x.class(m); return c == prT+"pendingBatches" }
	ct := func(n string) int64 { v, _ := x.E.P.constInt("delivery", n); return v }
	// the record of what is being sent
	isInfoField := func(t *Term, f string) bool {
		t = unold(t)
		if t.Op != "ld" || t.Args[0].Op != "&f" || t.Args[0].Name != "delivery.batchInfo."+f {
			return false
		}
		b := unold(t.Args[0].Args[0])
		if b.Op != "at" || !sameT(b.Args[1], batch) {
			return false
		}
		return pendMap(b.Args[0])
	}
	if !ms.Has("lin:n:0") && !ms.Has("init") {
		ms.Flag("init")
		ms.linSet("n", cInt(0))
	}
	if ms.Has("init") && !ms.Has("known") {
		for f, v := range s.facts {
			if f.Op == "has" && v && sameT(f.Args[1], batch) && pendMap(f.Args[0]) {
				ms.Flag("known")
			}
			if f.Op == "eq" && !v {
				for i := 0; i < 2; i++ {
					if a := unold(f.Args[i]); a.Op == "at" && sameT(a.Args[1], batch) && pendMap(a.Args[0]) && f.Args[1-i].IsNil() {
						ms.Flag("known")
					}
				}
			}
		}
	}
	norm := func(t *Term) *Term {
		if t == nil {
			return nil
		}
		return x.normSlice(t)
	}
	same := func(a, b *Term) bool {
		a, b = norm(a), norm(b)
		return a != nil && b != nil && (a == b && !a.junk || sameT(a, b))
	}
	topicMap := func(m *Term) bool {
		if m == nil || m.Typ == nil {
			return false
		}
		mt, ok := m.Typ.Underlying().(*types.Map)
		return ok && isMessageSlice(mt.Elem())
	}
	emitted := func(m *Term, where string) {
		key, val := x.fieldV("delivery.message.key", m), x.fieldV("delivery.message.value", m)
		typ, parts, kok := x.keyParts(key)
		isb := func(i int, f func(h *Term) bool) bool {
			if i >= len(parts) {
				return false
			}
			h, ok := hashBytes(parts[i])
			return ok && f(h)
		}
		blk := isb(0, func(h *Term) bool { return isInfoField(h, "block") })
		bat := isb(1, func(h *Term) bool { return sameT(h, batch) })
		switch {
		case kok && typ == ct("SubBatchHeaderType"):
			x.ckOn("P02 P03 P05", "header.key", "sub-batch header in "+fn, ev, blk && bat && len(parts) == 2, "the key of the sub-batch header is %v", key)
			x.ckOn("P02", "header.one", "sub-batch header in "+fn, ev, !ms.Has("hdr"), "a sub-batch header is emitted twice")
			ms.Flag("hdr")
			n, ok := x.avroInt(val)
			x.ckOn("P02 P05", "header.value", "sub-batch header in "+fn, ev, ok, "the value of the sub-batch header is not an encoded number")
			if ok {
				ms.linSet("h", n)
				for _, k := range ms.Keys("lin:n:") {
					if sameT(ms.Get(k), n) {
						ms.Flag("hn")
					}
				}
				// the length of the messages collected, less the place of the header
				if ch := ms.Get("chain"); ch != nil {
					b1, k1 := linear(n)
					b2, k2 := linear(mkLen(ch))
					if ms.Has("holes") {
						k2--
					}
					if b1 != nil && b2 != nil && sameT(b1, b2) && k1 == k2 {
						ms.Flag("hn")
					}
				}
			}
		case kok && typ == ct("SubBatchMsgType"):
			x.ckOn("P02 P03 P05", "message.key", "numbered messages in "+fn, ev, blk && bat && len(parts) == 3, "the key of a sub-batch message is %v", key)
			ms.Del("hn")
			if len(parts) == 3 {
				n, ok := x.avroInt(parts[2])
				x.ckOn("P02 P03", "message.index", "numbered messages in "+fn, ev, ok && ms.linIs("n", n), "a sub-batch message is numbered %v, which is not the next number", n)
			}
			ms.linInc("n", 1)
			sc, rec, ok := x.encoded(val)
			x.ckOn("P02 P03 P05", "message.value", "numbered messages in "+fn, ev, ok && isGlobal(sc, "delivery.updateSchema"), "the value of a sub-batch message is not an encoded record")
			if rec == nil {
				return
			}
			dl, up := x.fieldV(sbrT+"Delete", rec), x.fieldV(sbrT+"Updates", rec)
			if !zeroT(dl) {
				x.ckOn("P02", "deletes", "deletions sent in "+fn, ev, sameT(dl, deletes) && !ms.Has("dels"), "deletions are sent as %v", dl)
				ms.Flag("dels")
			}
			if !zeroT(up) && !(up.Op == "mkmap" && s.fresh[up]) {
				k := ms.Get("k")
				if k == nil {
					x.ckOn("P02 P03", "updates", "updates sent in "+fn, ev, false, "several updates are sent in one record, whose encoding depends on map order")
					return
				}
				v := mkAt(update, k, nil)
				got := x.Read(mkAt(up, k, nil))
				ok := k != nil && up.Op == "mkmap" && sameT(got, x.Read(v))
				x.ckOn("P02", "updates", "updates sent in "+fn, ev, ok, "an update is sent as %v", got)
				nk := 0
				for l := range s.mem {
					if l.Op == "at" && l.Args[0] == up {
						nk++
					}
				}
				x.ckOn("P03", "single", "updates sent in "+fn, ev, ok && nk == 1, "a record with several updates is encoded in map iteration order")
				ms.bump("sent")
				x.ckOn("P03", "order", "updates sent in "+fn, ev, ms.Has("ordered"), "updates are numbered in an order that differs between producers")
			}
		default:
			x.ckOn("P02 P05", "message.key", "messages built in "+fn, ev, false, "a message with key %v is emitted", key)
		}
	}
	switch ev.Kind {
	case EvRangeKey:
		ka := ms.Get("kall")
		switch {
		case sameT(ev.Val, update):
			ms.Flag(loopSlot("Lu", ev.Ctx, ev.Hdr))
			ms.Set("k", ev.Key)
			ms.Del("ordered")
			for _, n := range []string{"sent", "coll", "sent+", "coll+"} {
				ms.Del(n)
			}
			ms.Flag("any")
		case ka != nil && same(ev.Val, ka):
			ms.Flag(loopSlot("Lk", ev.Ctx, ev.Hdr))
			ms.Set("k", ev.Res)
			if ms.Has("sorted") {
				ms.Flag("ordered")
			} else {
				ms.Del("ordered")
			}
			ms.Del("sent")
			ms.Del("sent+")
			x.ckOn("P02", "keys", "keys of the updates in "+fn, ev, !ms.Has("allsent"), "the updates are sent a second time")
		}
		return
	case EvRangeDone:
		ka := ms.Get("kall")
		switch {
		case sameT(ev.Val, update):
			if !ms.Has("any") {
				ms.Flag("noupd")
			}
			if ms.Has("icoll") {
				if kc := ms.Get("kc"); kc != nil {
					ms.Set("kall", kc)
				}
			}
			if ms.Has("isent") {
				ms.Flag("allsent")
			}
		case ka != nil && same(ev.Val, ka):
			ms.Flag("allsent")
		}
		return
	case EvLoopBack, EvLoopExit:
		if ms.Has(loopSlot("Lu", ev.Ctx, ev.Hdr)) {
			if ev.Kind == EvLoopBack {
				sent, coll := ms.once("sent"), ms.once("coll")
				x.ckOn("P02", "each", "updates processed in "+fn, ev, sent != coll && !(ms.Has("sent") && ms.Has("coll")), "an update is not sent (or its key kept to be sent) exactly once")
				if sent {
					ms.Flag("isent")
				}
				if coll {
					ms.Flag("icoll")
				}
			} else if !ms.Has("noupd") && !ms.Has("kall") && !ms.Has("allsent") {
				ms.Flag("partial")
			}
			for _, n := range []string{"k", "sent", "coll", "sent+", "coll+", "ordered"} {
				ms.Del(n)
			}
			ms.DelPrefix("enc:")
			ms.Del(loopSlot("Lu", ev.Ctx, ev.Hdr))
		}
		if ms.Has(loopSlot("Lk", ev.Ctx, ev.Hdr)) {
			if ev.Kind == EvLoopBack {
				x.ckOn("P02", "each", "updates sent in "+fn, ev, ms.once("sent"), "an update is not sent exactly once")
			}
			for _, n := range []string{"k", "sent", "sent+", "ordered"} {
				ms.Del(n)
			}
			ms.DelPrefix("enc:")
			ms.Del(loopSlot("Lk", ev.Ctx, ev.Hdr))
		}
		return
	case EvMapDelete:
		if pendMap(ev.Map) {
			x.ckOn("P02 P04", "forget", "sub-batches forgotten in "+fn, ev, ev.Key != nil && sameT(ev.Key, batch), "another sub-batch than the one sent is forgotten")
			ms.Flag("eff")
			if ev.Key != nil && sameT(ev.Key, batch) {
				ms.Flag("forgot")
			}
		}
		return
	case EvStore:
		if ev.Addr.Op == "&f" && strings.HasPrefix(ev.Addr.Name, prT) {
			x.ckOn("P04", "state", "producer state written in "+fn, ev, false, "sending a sub-batch changes %s of the producer", ev.Addr.Name)
		}
		if ev.Addr.Op == "&f" && strings.HasPrefix(ev.Addr.Name, "delivery.batchInfo.") && !(isFreshObj(ev.Addr.Args[0])) {
			x.ckOn("P02 P04", "state", "sub-batch record written in "+fn, ev, false, "sending a sub-batch changes a registered sub-batch")
		}
		if ev.Addr.Op == "&i" {
			b := ev.Addr.Args[0]
			ch := ms.Get("chain")
			if ka := ms.Get("kall"); ka != nil && same(b, ka) {
				ms.Del("kall")
			}
			if h, ok := x.sliceStart(b); ch == nil && ok && h == 1 && (b.Op == "mkslice" || norm(b).Op == "mkslice") && ev.Val != nil && (ev.Val.Typ != nil && isMessageType(ev.Val.Typ) || isMessageType(ev.Addr.Typ)) {
				ms.Set("chain", b)
				ms.Flag("holes")
				ch = b
			}
			if ch != nil && (same(b, ch) || norm(ch).Op == "append" && same(b, norm(ch))) {
				i, ok := ev.Addr.Args[1].Int()
				x.ckOn("P02", "bundle", "messages placed in "+fn, ev, ok && i == 0 && ms.Has("holes") && !ms.Has("filled"), "a message overwrites element %v of the bundle", ev.Addr.Args[1])
				ms.Flag("filled")
				emitted(ev.Val, "placed")
			} else if isMessageType(ev.Addr.Typ) || ev.Val != nil && ev.Val.Typ != nil && isMessageType(ev.Val.Typ) {
				if !isFreshObj(b) || b.Op == "mkslice" {
					x.ckOn("P02", "bundle", "messages placed in "+fn, ev, b.Op == "alloc", "a message is placed in %v, which is not the bundle", b)
				}
			}
		}
		return
	case EvMapUpdate:
		if pendMap(ev.Map) {
			ms.Flag("eff")
			x.ckOn("P02 P04", "state", "sub-batches registered in "+fn, ev, false, "sending a sub-batch registers one")
			return
		}
		if topicMap(ev.Map) {
			x.ckOn("P02", "topic", "topic of the sub-batch in "+fn, ev, isInfoField(ev.Key, "topic"), "messages of the sub-batch go to topic %v instead of the topic chosen when its block was added", ev.Key)
			ch := ms.Get("chain")
			if ch == nil {
				h, ok := x.sliceStart(ev.Val)
				x.ckOn("P02", "bundle", "bundle started in "+fn, ev, ok && h <= 1, "the messages start with %v", ev.Val)
				ms.Set("chain", ev.Val)
				if h > 0 {
					ms.Flag("holes")
				}
			} else {
				x.ckOn("P02", "bundle", "messages kept in "+fn, ev, same(ev.Val, ch), "the messages collected are replaced by %v", ev.Val)
			}
			if t := ms.Get("tm"); t != nil {
				x.ckOn("P02", "bundle", "one bundle in "+fn, ev, sameT(t, ev.Map), "messages are collected in different bundles")
			}
			ms.Set("tm", ev.Map)
			ms.Set("stored", ev.Val)
		}
		return
	}
	if isMsgAppend(ev) {
		// the header put in front of the messages collected
		if ch := ms.Get("chain"); len(ev.Args) == 2 {
			rest := ev.Args[1]
			h, isStart := x.sliceStart(rest)
			if ch != nil && same(rest, ch) || ch == nil && isStart && h == 0 {
				if l := x.normSlice(ev.Args[0]); l.Op == "list" && len(l.Args) > 0 && !ms.Has("holes") {
					for _, m := range l.Args {
						emitted(m, "added")
					}
					ms.Set("chain", ev.Res)
					return
				}
			}
		}
		base, els, ok := x.newElems(ev)
		x.ckOn("P02", "bundle", "messages added in "+fn, ev, ok, "messages are added in a way the analysis cannot follow")
		if !ok {
			return
		}
		ch := ms.Get("chain")
		if ch == nil {
			h, ok := x.sliceStart(base)
			x.ckOn("P02", "bundle", "bundle started in "+fn, ev, ok && h <= 1, "the messages start with %v", base)
			if h > 0 {
				ms.Flag("holes")
			}
		} else {
			x.ckOn("P02", "bundle", "messages added in "+fn, ev, same(base, ch), "messages are added to %v, which is not the bundle", base)
		}
		for _, m := range els {
			emitted(m, "added")
		}
		ms.Set("chain", ev.Res)
		return
	}
	if ev.Kind == EvCall && ev.Callee == "builtin append" {
		base, els, ok := x.newElems(ev)
		if k := ms.Get("k"); ok && k != nil && len(els) == 1 && sameT(els[0], k) && !ms.Has("kall") {
			kc := ms.Get("kc")
			if kc == nil {
				if h, ok := x.sliceStart(base); !ok || h != 0 {
					return
				}
			} else if !same(base, kc) {
				return
			}
			ms.Set("kc", ev.Res)
			ms.bump("coll")
		}
		return
	}
	if ev.Kind == EvCall && len(ev.Args) > 0 {
		a := ev.Args[0]
		ka := ms.Get("kall")
		if ka != nil && (same(a, ka) || a.Op == "conv" && same(a.Args[0], ka)) {
			switch {
			case ev.Callee == "sort.Strings" || ev.Callee == "slices.Sort" || ev.Callee == "sort.Sort" || ev.Callee == "sort.Stable":
				ms.Flag("sorted")
			case (ev.Callee == "sort.Slice" || ev.Callee == "sort.SliceStable") && len(ev.Args) == 2 && x.plainLess(ev.Args[1]):
				ms.Flag("sorted")
			case ev.Callee == "sort.Slice" || ev.Callee == "sort.SliceStable":
			case strings.HasPrefix(ev.Callee, "strings.") || strings.HasPrefix(ev.Callee, "log15.") || strings.HasPrefix(ev.Callee, "builtin len"):
			default:
				ms.Del("sorted")
			}
		}
		return
	}
	if ev.Kind == EvExit && len(ev.Args) == 2 {
		res, err := ev.Args[0], ev.Args[1]
		failed := !err.IsNil() && !s.Known(atomEq(err, cNil()))
		if failed {
			x.ckOn("P04", "rejected", "error returns of "+fn, ev, zeroT(res), "a rejected sub-batch returns messages")
			x.ckOn("P04", "rejected.state", "error returns of "+fn, ev, !ms.Has("eff"), "a rejected sub-batch changes the producer")
			return
		}
		x.ckOn("P02 P04", "unknown", "accepted sub-batches", ev, ms.Has("known"), "a sub-batch is accepted although it was not registered")
		x.ckOn("P02 P04", "once", "accepted sub-batches", ev, ms.Has("forgot"), "a sub-batch that was sent stays registered and can be sent again")
		x.ckOn("P02", "header.emitted", "sub-batch header", ev, ms.Has("hdr"), "a sub-batch is sent without its header")
		same1 := ms.Has("hn")
		for _, k := range ms.Keys("lin:h:") {
			if ms.linIs("n", ms.Get(k)) {
				same1 = true
			}
		}
		x.ckOn("P02", "header.count", "sub-batch header", ev, same1, "the count in the sub-batch header is not the number of messages emitted")
		x.ckOn("P02", "deletes.sent", "deletions of the sub-batch", ev, ms.Has("dels") || zeroT(deletes) || s.Known(atomLt(mkLen(deletes), cInt(1))), "the deletions of a sub-batch are not sent")
		x.ckOn("P02", "updates.sent", "updates of the sub-batch", ev, ms.Has("noupd") || ms.Has("allsent") || s.Known(atomLt(mkLen(update), cInt(1))), "the updates of a sub-batch are not all sent")
		x.ckOn("P02", "bundle.full", "bundle of the sub-batch", ev, !ms.Has("holes") || ms.Has("filled"), "the bundle contains an unset message")
		x.ckOn("P02", "bundle.returned", "bundle of the sub-batch", ev, x.returnsBundle(res, isInfoField), "the messages returned are not all those collected for the topic of the sub-batch")
	}
}

func (x *Exec) returnsBundle(res *Term, isInfoField func(*Term, string) bool) bool {
	ms := x.MS()
	tm, ch, st := ms.Get("tm"), ms.Get("chain"), ms.Get("stored")
	if tm == nil || ch == nil || st == nil || !sameT(res, tm) {
		return false
	}
	if sameT(st, ch) || x.normSlice(st) == x.normSlice(ch) {
		return true
	}
	for l, v := range x.S.mem {
		if l.Op == "at" && sameT(l.Args[0], tm) && sameT(v, ch) && isInfoField(l.Args[1], "topic") {
			return true
		}
	}
	return false
}

func (t *Term) IntOr() (int64, bool) {
	if t == nil {
		return 0, false
	}
	return t.Int()
}

// plainLess: the comparison function of a sort compares the two elements themselves.
func (x *Exec) plainLess(t *Term) bool {
	if t.Op != "closure" {
		return false
	}
	f := x.E.P.fnByName[t.Name]
	return f != nil && plainLessFn(f)
}

func plainLessFn(f *ssa.Function) bool {
	if len(f.Params) != 2 || len(f.Blocks) != 1 {
		return false
	}
	b := f.Blocks[0]
	r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
	if !ok || len(r.Results) != 1 {
		return false
	}
	op, ok := r.Results[0].(*ssa.BinOp)
	if !ok || op.Op != token.LSS && op.Op != token.GTR {
		return false
	}
	idx := func(v ssa.Value) (ssa.Value, bool) {
		u, ok := v.(*ssa.UnOp)
		if !ok {
			return nil, false
		}
		ia, ok := u.X.(*ssa.IndexAddr)
		if !ok {
			return nil, false
		}
		return ia.Index, true
	}
	a, ok1 := idx(op.X)
	c, ok2 := idx(op.Y)
	return ok1 && ok2 && a != c && (a == f.Params[0] || a == f.Params[1]) && (c == f.Params[0] || c == f.Params[1])
}
