package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	mpT = "delivery.MessageProcessor."
	pbT = "delivery.PendingBatch."
)

var resumptionClasses = []string{mpT + "resumption", pbT + "resumption", pbT + "resumptionDefaults", "(delivery.ResumptionMessage).Offset", "(delivery.ResumptionMessage).Source"}

func loopSlot(pfx string, ctx *Ctxt, hdr *ssa.BasicBlock) string {
	return fmt.Sprintf("%s:%d.%d", pfx, ctx.id, hdr.Index)
}

// isFeedSend: Send on the given feed field; returns what is sent.
func isFeedSend(ev *Event, class string) (*Term, bool) {
	if ev.Kind == EvCall && ev.Callee == "(*types.Feed).Send" && ev.Recv != nil && ev.Recv.Op == "&f" && ev.Recv.Name == class && len(ev.Args) == 1 {
		return ev.Args[0], true
	}
	return nil, false
}

// gate: every part announced for pb is known to have arrived.
func (x *Exec) gate(pb *Term) (string, bool) {
	s := x.S
	sb := x.fieldV(pbT+"pendingBatches", pb)
	if !s.Known(atomLt(mkLen(sb), cInt(1))) && !(s.fresh[sb]) {
		return "announced sub-batches may still be without their header", false
	}
	pf := x.fieldV(pbT+"prefixes", pb)
	if !x.forallHolds(pf, func(n *State, e, k *Term) bool { return n.Known(atomLt(e, cInt(1))) }) {
		return "a tracked prefix may still expect messages", false
	}
	ba := x.fieldV(pbT+"batches", pb)
	if !x.forallHolds(ba, func(n *State, e, k *Term) bool {
		y := &Exec{E: x.E, S: n}
		return y.forallHolds(e, func(n2 *State, e2, k2 *Term) bool { return n2.Known(e2) })
	}) {
		return "a numbered sub-batch message may still be missing", false
	}
	return "", true
}

// notReadyWitness: some part of pb is known to be missing right now.
func (x *Exec) notReadyWitness() bool {
	s := x.S
	for f, v := range s.facts {
		switch f.Op {
		case "lt":
			c, ok := f.Args[1].Int()
			if !ok || c < 1 || v {
				continue
			}
			if f.Args[0].Op == "len" {
				if cl, _, _ := x.class(f.Args[0].Args[0]); cl == pbT+"pendingBatches" {
					return true
				}
			}
			if f.Args[0].Op == "at" {
				if cl, _, _ := x.class(f.Args[0].Args[0]); cl == pbT+"prefixes" {
					return true
				}
			}
		case "ld":
			if !v && f.Args[0].Op == "&i" {
				if cl, _, _ := x.class(f.Args[0].Args[0]); cl == pbT+"batches[]" {
					return true
				}
			}
		}
	}
	return false
}

// headerEntry returns the Batch.Updates container when the loop iterates it.
func (x *Exec) isHeaderUpdates(c *Term) bool {
	cl, b, _ := x.class(c)
	if cl != "delivery.Batch.Updates" || b == nil {
		return false
	}
	return true
}

func asmNoise(fn *ssa.Function) bool { return false }

// subUpdate: t is update.<f> of a SubBatchRecord decoded from a message.
func (x *Exec) subRecField(t *Term, f string) (data *Term, schema *Term, ok bool) {
	cl, _, _ := x.class(t)
	if cl != "delivery.SubBatchRecord."+f {
		return nil, nil, false
	}
	sc, d, k := x.decodedFrom(t)
	return d, sc, k
}

// recordMon follows the pairing between what is recorded in a block and what is
// counted off; shared by C01 and C02. It reports under the given property rules.
type recRules struct {
	pairing  bool // C01: progress only together with recording
	dup      bool // C02: nothing is recorded twice
	gate     bool // C01: delivery gate
	register bool // C01: header registration
	liveness bool // C11
}

func (r recRules) mon(x *Exec, ev *Event) {
	trackDecode(x, ev)
	ms := x.MS()
	s := x.S
	fn := "?"
	if ev.Fn != nil {
		fn = calleeName(ev.Fn)
	}
	settled := func(what string) {
		if !r.pairing {
			return
		}
		if ms.Has("pdec") {
			x.Check("pairing.prefix", "expected message counted off is recorded", ev, false, "a message expected for a prefix was counted off but its key was not recorded in the block before %s", what)
			ms.Del("pdec")
		}
		if ms.Has("unp") {
			x.Check("pairing.subbatch", "sub-batch header counted off registers its messages", ev, false, "a sub-batch stopped being awaited but its numbered messages were not registered before %s", what)
			ms.Del("unp")
		}
		if ms.Has("flag") && !(ms.Has("cpU") && ms.Has("cpD")) {
			x.Check("pairing.flag", "numbered message counted off is copied into the block", ev, false, "a numbered sub-batch message was marked as received but its updates and deletions were not all copied before %s", what)
			ms.Del("flag")
		}
	}
	newMsg := func() {
		for _, k := range []string{"pdec", "prec", "pfv", "pfd", "unp", "unpk", "alc", "flag", "cpU", "cpD", "cuk", "cuok", "cubad", "cdk", "cdok", "cdbad", "nseen"} {
			ms.Del(k)
		}
	}
	if pb, ok := isFeedSend(ev, mpT+"feed"); ok {
		settled("the block was delivered")
		if r.gate {
			why, ok := x.gate(pb)
			if g := ms.Get("gok"); !ok && g != nil && sameT(unold(g), unold(pb)) {
				ok = true
			}
			x.Check("gate", "delivery in "+rootName(x), ev, ok, "a block is delivered although %s", why)
		}
		if r.register && ms.Has("created") {
			x.Check("register.loop", "header entries are all registered before delivery", ev, ms.Has("regdone"), "a block is delivered before all header entries were registered")
		}
		ms.Flag("sent")
		return
	}
	switch ev.Kind {
	case EvRangeKey:
		if x.isHeaderUpdates(ev.Val) {
			ms.Set(loopSlot("h", ev.Ctx, ev.Hdr), ev.Key)
			ms.Set("hkey", ev.Key)
			ms.Set("hel", mkAt(ev.Val, ev.Key, nil))
			ms.Del("hc")
			ms.Del("hs")
			return
		}
		cl, _, _ := x.class(ev.Val)
		switch cl {
		case pbT + "pendingMessages":
			settled("the next retained message")
			newMsg()
		case "delivery.SubBatchRecord.Updates":
			ms.Set(loopSlot("cu", ev.Ctx, ev.Hdr), ev.Key)
			ms.Set("cuk", ev.Key)
		case "delivery.SubBatchRecord.Delete":
			ms.Set(loopSlot("cd", ev.Ctx, ev.Hdr), ev.Res)
			ms.Set("cdk", ev.Res)
		}
	case EvLoopBack:
		if h := ms.Get(loopSlot("h", ev.Ctx, ev.Hdr)); h != nil {
			if r.register {
				el := ms.Get("hel")
				tracked := !x.untracked(h)
				if tracked && el != nil {
					cnt := mk("fld", "delivery.BatchRecord.Count", types.Typ[types.Int], el)
					if !ms.Has("hc") {
						x.Check("register.count", "announced message count is expected", ev, s.Known(atomEq(cnt, cInt(0))) || s.Known(atomLt(cnt, cInt(1))), "a tracked header entry announces a message count that is not registered as expected")
					} else {
						x.Check("register.count", "announced message count is expected", ev, true, "")
					}
					if !ms.Has("hs") {
						x.Check("register.subbatch", "announced sub-batch is expected", ev, x.knownZeroHash(mk("fld", "delivery.BatchRecord.Subbatch", nil, el)), "a tracked header entry announces a sub-batch that is not registered as expected")
					} else {
						x.Check("register.subbatch", "announced sub-batch is expected", ev, true, "")
					}
				}
			}
			for _, k := range []string{"hkey", "hel", "hc", "hs"} {
				ms.Del(k)
			}
			ms.Del(loopSlot("h", ev.Ctx, ev.Hdr))
			return
		}
		if k := ms.Get(loopSlot("cu", ev.Ctx, ev.Hdr)); k != nil {
			if !ms.Has("cuok") {
				ms.Flag("cubad")
			}
			ms.Del("cuok")
			ms.Del("cuk")
			ms.Del(loopSlot("cu", ev.Ctx, ev.Hdr))
		}
		if k := ms.Get(loopSlot("cd", ev.Ctx, ev.Hdr)); k != nil {
			if !ms.Has("cdok") {
				ms.Flag("cdbad")
			}
			ms.Del("cdok")
			ms.Del("cdk")
			ms.Del(loopSlot("cd", ev.Ctx, ev.Hdr))
		}
	case EvRangeDone:
		if x.isHeaderUpdates(ev.Val) {
			_, d, ok := x.decodedFrom(ev.Val)
			if ok && d != nil {
				ms.Flag("regdone")
			}
			return
		}
		cl, _, _ := x.class(ev.Val)
		switch cl {
		case "delivery.SubBatchRecord.Updates":
			if !ms.Has("cubad") {
				ms.Flag("cpU")
			}
			ms.Del("cubad")
		case "delivery.SubBatchRecord.Delete":
			if !ms.Has("cdbad") {
				ms.Flag("cpD")
			}
			ms.Del("cdbad")
		}
	case EvExit:
		settled("the message was finished with")
		if r.register && ms.Has("created") {
			x.Check("register.loop", "header entries are all registered before delivery", ev, ms.Has("regdone"), "processing of a header ends before all its entries were registered")
		}
	}
	f := x.eff(ev)
	if f == nil {
		return
	}
	switch f.Kind {
	case "prefix+", "sb+", "batches+", "field:prefix", "field:sb", "field:batches":
		ms.Del("gok")
	}
	switch f.Kind {
	case "mp.pend-":
		// the block may be taken off the pending set before it is handed over
		if r.gate {
			if b := s.readMap(f.Map, f.Key, types.Typ[types.UnsafePointer]); b != nil {
				if _, ok := x.gate(b); ok {
					ms.Set("gok", b)
				}
			}
		}
	case "mp.pend+":
		ms.Flag("created")
		if r.dup {
			x.Check("dup.header", "block created once in "+fn, ev, s.KnownNot(mkHas(f.Map, f.Key)), "a block header replaces a block that may already be under assembly")
		}
	case "prefix+":
		if hk := ms.Get("hkey"); hk != nil && sameT(f.Key, hk) {
			el := ms.Get("hel")
			cnt := mk("fld", "delivery.BatchRecord.Count", types.Typ[types.Int], el)
			good := sameT(f.Val, cnt)
			if r.register {
				x.Check("register.count", "announced message count is expected", ev, good, "the count registered for a prefix is %v, not the announced one", f.Val)
			}
			ms.Flag("hc")
			return
		}
		old := s.readMap(f.Map, f.Key, types.Typ[types.Int])
		dec := mkBin("-", old, cInt(1), types.Typ[types.Int])
		isDec := f.Val == dec
		rs := map[*Term]bool{}
		okRoot := x.E.roots(f.Key, map[*Term]bool{}, rs)
		if r.pairing {
			x.Check("pairing.decrement", "expected counts only go down by one in "+fn, ev, isDec, "an expected message count is set to %v", f.Val)
			x.Check("pairing.key", "count belongs to a prefix of the message key in "+fn, ev, okRoot && len(rs) > 0, "the count of prefix %v is changed, which is not derived from the key of the message", f.Key)
			if isDec {
				x.Check("pairing.positive", "only positive counts go down in "+fn, ev, s.KnownNot(atomLt(old, cInt(1))), "a count that may already be zero is decremented")
			}
			if ms.Has("pdec") {
				x.Check("pairing.prefix", "expected message counted off is recorded", ev, false, "one message is counted off twice")
			}
		}
		var path *Term
		for t := range rs {
			path = t
		}
		if len(rs) == 1 && path != nil {
			m, _ := msgPath(path)
			fresh := s.KnownNot(mkHas(x.fieldV(pbT+"Values", f.PB), path))
			freshD := s.KnownNot(mkHas(x.fieldV(pbT+"Deletes", f.PB), path))
			_ = m
			if ms.Has("prec") && sameT(ms.Get("prec"), path) {
				ms.Del("prec")
				return
			}
			ms.Set("pdec", path)
			if fresh {
				ms.Flag("pfv")
			} else {
				ms.Del("pfv")
			}
			if freshD {
				ms.Flag("pfd")
			} else {
				ms.Del("pfd")
			}
		} else if r.pairing {
			x.Check("pairing.key", "count belongs to a prefix of the message key in "+fn, ev, false, "the count of prefix %v cannot be related to one message key", f.Key)
		}
	case "prefix-":
		if r.pairing {
			x.Check("pairing.decrement", "expected counts only go down by one in "+fn, ev, s.Known(atomLt(s.readMap(f.Map, f.Key, types.Typ[types.Int64]), cInt(1))), "an expectation is removed that may not be satisfied")
		}
	case "values+", "deletes+":
		if hk := ms.Get("hkey"); hk != nil && sameT(f.Key, hk) {
			return
		}
		if k := ms.Get("cuk"); k != nil && f.Kind == "values+" && sameT(f.Key, k) {
			ms.Flag("cuok")
			if r.dup {
				x.Check("dup.sub", "sub-batch content copied once in "+fn, ev, ms.Has("nseen") || x.subNotSeen(f.PB), "the content of a sub-batch message is copied although that message may already be recorded")
			}
			return
		}
		if k := ms.Get("cdk"); k != nil && f.Kind == "deletes+" && sameT(f.Key, k) {
			ms.Flag("cdok")
			if r.dup {
				x.Check("dup.sub", "sub-batch content copied once in "+fn, ev, ms.Has("nseen") || x.subNotSeen(f.PB), "the content of a sub-batch message is copied although that message may already be recorded")
			}
			return
		}
		if _, ok := msgPath(f.Key); ok {
			abs := s.KnownNot(mkHas(f.Map, f.Key))
			if d := ms.Get("pdec"); d != nil && sameT(d, f.Key) {
				if f.Kind == "values+" && ms.Has("pfv") || f.Kind == "deletes+" && ms.Has("pfd") {
					abs = true
				}
				ms.Del("pdec")
				ms.Del("pfv")
				ms.Del("pfd")
				if r.pairing {
					x.Check("pairing.prefix", "expected message counted off is recorded", ev, true, "")
				}
			} else {
				ms.Set("prec", f.Key)
			}
			if r.pairing || r.dup {
				x.Check("dup.key", "a key message counts once in "+fn+" ("+f.Kind+")", ev, abs, "a %s is recorded (and counted off) for a key that may already be recorded: a duplicate would be counted again", map[string]string{"values+": "value", "deletes+": "deletion"}[f.Kind])
			}
			return
		}
		if r.dup {
			x.Check("dup.other", "unexpected write in "+fn+" "+f.Kind, ev, false, "the block content is written with key %v, which is not the key of the message", f.Key)
		}
	case "sb+":
		el := ms.Get("hel")
		if el != nil {
			if r.register {
				x.Check("register.subbatch", "announced sub-batch is expected", ev, sameT(f.Key, mk("fld", "delivery.BatchRecord.Subbatch", nil, el)), "the sub-batch registered is %v, not the announced one", f.Key)
			}
			ms.Flag("hs")
		}
	case "sb-":
		if r.pairing {
			_, okid := msgBatchID(unold(f.Key))
			x.Check("pairing.subid", "sub-batch counted off is the one of the message in "+fn, ev, okid, "sub-batch %v stops being awaited, which is not the one named by the message", f.Key)
		}
		if ms.Has("alc") && sameT(ms.Get("alc"), f.Key) {
			ms.Del("alc")
		} else {
			ms.Set("unp", f.Key)
			if s.Known(mkHas(f.Map, f.Key)) {
				ms.Flag("unpk")
			} else {
				ms.Del("unpk")
			}
		}
	case "batches+":
		if r.pairing {
			l := mkLen(f.Val)
			_, data, ok := x.decodedFrom(l)
			m, isv := isMsgCall(data, "Value")
			m2, okid := msgBatchID(unold(f.Key))
			x.Check("pairing.size", "numbered messages expected = count in the header message, in "+fn, ev, ok && isv && okid && sameT(m, m2), "the numbered messages expected for sub-batch %v come to %v, which is not the successfully decoded count of its header message", f.Key, l)
			if fr := s.fresh[f.Val]; !fr {
				x.Check("pairing.fresh", "numbered messages all start as missing in "+fn, ev, f.Val.Op == "mkslice" && fr, "the received-flags of a sub-batch do not start out cleared")
			}
		}
		if r.dup {
			has := s.Known(mkHas(x.fieldV(pbT+"pendingBatches", f.PB), f.Key)) || ms.Has("unp") && sameT(ms.Get("unp"), f.Key) && ms.Has("unpk")
			x.Check("dup.subheader", "sub-batch registered once in "+fn, ev, has, "a repeated sub-batch header resets which of its messages were received")
		}
		if ms.Has("unp") && sameT(ms.Get("unp"), f.Key) {
			ms.Del("unp")
			ms.Del("unpk")
			if r.pairing {
				x.Check("pairing.subbatch", "sub-batch header counted off registers its messages", ev, true, "")
			}
		} else {
			ms.Set("alc", f.Key)
		}
	case "batches-":
		if r.pairing {
			x.Check("pairing.batches", "registered sub-batches are kept in "+fn, ev, false, "a registered sub-batch is forgotten")
		}
	case "flag":
		if x.subNotSeen(f.PB) {
			ms.Flag("nseen")
		}
		if !r.pairing {
			return
		}
		b, isb := f.Val.Bool()
		x.Check("pairing.flagval", "received-flags are only ever set in "+fn, ev, isb && b, "a received-flag is set to %v", f.Val)
		m, okid := msgBatchID(unold(f.Outer))
		sc, data, okd := x.decodedFrom(f.Key)
		okidx := false
		if okd && isGlobal(sc, "delivery.intSchema") {
			if k, ok := isSliceOf(unold(data), 65, -1); ok {
				if m2, ok := isMsgCall(k, "Key"); ok && sameT(m2, m) {
					okidx = true
				}
			}
		}
		x.Check("pairing.index", "flag position is the index in the message key, in "+fn, ev, okid && okidx, "the received-flag of sub-batch %v at %v does not belong to the message being processed", f.Outer, f.Key)
		// the message content was decoded
		x.Check("pairing.decoded", "only decoded sub-batch messages are marked received, in "+fn, ev, x.subDecoded(m), "a numbered sub-batch message is marked as received although its value may not have been decoded")
		if ms.Has("cpU") && ms.Has("cpD") {
			x.Check("pairing.flag", "numbered message counted off is copied into the block", ev, true, "")
		}
		ms.Flag("flag")
	case "field:prefix", "field:batches", "field:sb", "field:values", "field:deletes":
		if isFreshObj(f.PB) && (s.fresh[f.PB] || f.PB.Op == "alloc") && (isFreshObj(f.Val)) {
			return
		}
		if r.pairing {
			x.Check("pairing.replace", "containers of a block under assembly are not replaced in "+fn, ev, false, "%s of a block under assembly is replaced", strings.TrimPrefix(f.Kind, "field:"))
		}
	}
}

// untracked: the header key is known to match none of the tracked prefixes.
func (x *Exec) untracked(key *Term) bool {
	for c := range x.trackedContainers() {
		if x.forallHolds(c, func(n *State, e, k *Term) bool {
			return n.KnownNot(mk("call", "(*regexp.Regexp).MatchString", types.Typ[types.Bool], e, key))
		}) {
			return true
		}
	}
	return false
}

func (x *Exec) trackedContainers() map[*Term]bool {
	out := map[*Term]bool{}
	for f := range x.S.facts {
		f.Any(func(t *Term) bool {
			if t.Op == "ld" && t.Args[0].Op == "&f" && t.Args[0].Name == mpT+"trackedPrefixes" {
				out[t] = true
			}
			return false
		})
	}
	return out
}

func (x *Exec) knownZeroHash(t *Term) bool {
	for f, v := range x.S.facts {
		if v && f.Op == "eq" && (f.Args[0] == t && f.Args[1].IsZero() || f.Args[1] == t && f.Args[0].IsZero()) {
			return true
		}
	}
	return false
}

// subDecoded: a SubBatchRecord was decoded from the value of msg, successfully.
func (x *Exec) subDecoded(m *Term) bool {
	ms := x.MS()
	for _, k := range ms.Keys("dec:") {
		if !strings.HasSuffix(k, ":data") {
			continue
		}
		p := strings.TrimSuffix(k, "data")
		if dm, ok := isMsgCall(ms.Get(k), "Value"); ok && (m == nil || sameT(dm, m)) {
			if isGlobal(ms.Get(p+"schema"), "delivery.updateSchema") && x.S.Known(atomEq(ms.Get(p+"err"), cNil())) {
				return true
			}
		}
	}
	return false
}

// subNotSeen: some received-flag of the block is known to be unset (the one of the
// message being copied).
func (x *Exec) subNotSeen(pb *Term) bool {
	for f, v := range x.S.facts {
		if !v && f.Op == "ld" && f.Args[0].Op == "&i" {
			if cl, _, _ := x.class(f.Args[0].Args[0]); cl == pbT+"batches[]" {
				return true
			}
		}
	}
	return false
}

func rootName(x *Exec) string { return calleeName(x.E.Root) }

var recIrr = append([]string{mpT + "oldBlocks", mpT + "completed", mpT + "lastEmittedNum", mpT + "reorgThreshold", mpT + "resumption", mpT + "pendingMessages", pbT + "failedReconstructPanic", pbT + "Number", mpT + "evictCh", "(*lru.Cache).Contains", pbT + "waitCh", mpT + "failedReconstructPanic"}, resumptionClasses...)
var recAll = []string{pbT + "prefixes", pbT + "batches", pbT + "batches[]", pbT + "pendingBatches", mpT + "trackedPrefixes"}

func init() {
	register("C01", func(c *Ctx) {
		c.Explain = "path-sensitive typestate over the inlined SSA of the message processor"
		r := recRules{pairing: true, gate: true, register: true}
		c.Flow("delivery.MessageProcessor.ProcessMessage", r.mon, &runOpts{irrelevant: recIrr, forall: recAll})
	})
	register("C02", func(c *Ctx) {
		r := recRules{dup: true}
		c.Flow("delivery.MessageProcessor.ProcessMessage", r.mon, &runOpts{irrelevant: recIrr, forall: recAll})
	})
}
