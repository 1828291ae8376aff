package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// view is the message processor's view of the root invocation: receiver, message,
// block hash of the message.
type view struct {
	x           *Exec
	mp, m, hash *Term
}

func (e *Engine) paramOfType(short string) *Term {
	for _, p := range e.Root.Params {
		if shortType(p.Type()) == short {
			return mkParam("param", p.Name(), p.Type())
		}
	}
	return nil
}

func (x *Exec) view() view {
	e := x.E
	if e.vw == nil {
		e.vw = &view{mp: e.paramOfType("*delivery.MessageProcessor"), m: e.paramOfType("delivery.ResumptionMessage")}
		if e.vw.m != nil {
			none := mk("const", "none", nil)
			_ = none
		}
	}
	v := *e.vw
	v.x = x
	return v
}

// isHash: t is the block hash carried in the key of message m.
func isHashOf(t, m *Term) bool {
	h, ok := msgHash(unold(t))
	return ok && sameT(h, m)
}

// hashFact looks for what is known about membership of m's hash in a container class.
func (v view) hashFact(class string) (val, known bool) {
	for f, b := range v.x.S.facts {
		if f.Op == "has" && isHashOf(f.Args[1], v.m) {
			if c, _, _ := v.x.class(f.Args[0]); c == class {
				return b, true
			}
		}
		if f.Op == "eq" && f.Args[1].IsNil() && f.Args[0].Op == "at" && isHashOf(f.Args[0].Args[1], v.m) {
			if c, _, _ := v.x.class(f.Args[0].Args[0]); c == class {
				return !b, true
			}
		}
	}
	return false, false
}

// lruFact: what is known about mp.completed containing m's hash.
func (v view) lruFact() (val, known bool) {
	for f, b := range v.x.S.facts {
		if f.Op == "call" && f.Name == "(*lru.Cache).Contains" && isHashOf(f.Args[1], v.m) {
			if l := v.x.loc(f.Args[0]); l.Op == "ld" && l.Args[0].Op == "&f" && l.Args[0].Name == mpT+"completed" {
				return b, true
			}
		}
	}
	return false, false
}

func keyLen(m *Term) *Term { return mkLen(msgCall("Key", m)) }

// keyShort: the key of m is known to be shorter than n.
func (x *Exec) keyShort(m *Term, n int64) bool {
	return x.S.Known(atomLt(keyLen(m), cInt(n)))
}

// decodeFailed: decoding (part of) message m is known to have failed.
func (x *Exec) decodeFailed(m *Term) bool {
	ms := x.MS()
	for _, k := range ms.Keys("dec:") {
		if !strings.HasSuffix(k, ":data") {
			continue
		}
		p := strings.TrimSuffix(k, "data")
		if sameT(msgOf(ms.Get(k)), m) && x.S.KnownNot(atomEq(ms.Get(p+"err"), cNil())) {
			return true
		}
	}
	return false
}

// msgOf: the message some bytes were taken from.
func msgOf(t *Term) *Term {
	t = unold(t)
	for t != nil {
		if m, ok := isMsgCall(t, "Key"); ok {
			return m
		}
		if m, ok := isMsgCall(t, "Value"); ok {
			return m
		}
		switch t.Op {
		case "slice", "conv":
			t = t.Args[0]
		default:
			return nil
		}
	}
	return nil
}

// indexBad: the decoded index of message m is known to lie outside the announced range.
func (x *Exec) indexBad(m *Term) bool {
	for f, v := range x.S.facts {
		if f.Op != "lt" {
			continue
		}
		_, data, ok := x.decodedFrom(f.Args[0])
		if ok && sameT(msgOf(data), m) {
			if c, isc := f.Args[1].Int(); isc && c <= 0 && v {
				return true // index < 0
			}
			if !v && f.Args[1].Op == "len" {
				return true // index >= len
			}
		}
		_, data, ok = x.decodedFrom(f.Args[1])
		if ok && v && sameT(msgOf(data), m) && f.Args[0].Op == "len" {
			return true // len < index
		}
	}
	return false
}

// flagKnownSet: a received-flag of a sub-batch is known to be set.
func (x *Exec) flagKnownSet() bool {
	for f, v := range x.S.facts {
		if v && f.Op == "ld" && f.Args[0].Op == "&i" {
			if cl, _, _ := x.class(f.Args[0].Args[0]); cl == pbT+"batches[]" {
				return true
			}
		}
	}
	return false
}

// subUnknown: the sub-batch message m belongs to is known not to be registered.
func (x *Exec) subUnknown(m *Term) bool {
	for f, v := range x.S.facts {
		if f.Op == "has" && !v {
			if cl, _, _ := x.class(f.Args[0]); cl == pbT+"batches" {
				if b, ok := msgBatchID(unold(f.Args[1])); ok && sameT(b, m) {
					return true
				}
			}
		}
		if f.Op == "eq" && v && f.Args[1].IsNil() && f.Args[0].Op == "at" {
			if cl, _, _ := x.class(f.Args[0].Args[0]); cl == pbT+"batches" {
				if b, ok := msgBatchID(unold(f.Args[0].Args[1])); ok && sameT(b, m) {
					return true
				}
			}
		}
	}
	return false
}

func (x *Exec) malformed(m *Term) bool {
	return x.keyShort(m, 65) || x.decodeFailed(m) || x.indexBad(m)
}

// processes: does calling fn record messages in a block?
func (p *Program) processesMessages(f *ssa.Function) bool {
	return f != nil && p.inRepo(f) && p.ModSet(f).maps[pbT+"Values"]
}

func mon03(x *Exec, ev *Event) {
	trackDecode(x, ev)
	ms := x.MS()
	s := x.S
	v := x.view()
	if v.m == nil {
		return
	}
	fn := "?"
	if ev.Fn != nil {
		fn = calleeName(ev.Fn)
	}
	// what is known about a message that excuses it from being recorded is latched while
	// the facts about it are at hand
	latch := func(m *Term, p string) {
		if m == nil {
			return
		}
		if x.malformed(m) {
			ms.Flag(p + "bad")
		}
		if x.flagKnownSet() {
			ms.Flag(p + "set")
		}
		if x.subUnknown(m) {
			ms.Flag(p + "unk")
		}
	}
	handledAs := func(m *Term, p string) bool {
		return x.msgIsNot(m, "SubBatchMsgType") || ms.Has("app") || ms.Has(p+"bad") || ms.Has(p+"set") || x.malformed(m) || x.flagKnownSet()
	}
	handled := func(m *Term) bool {
		if sameT(m, v.m) {
			return handledAs(m, "m:")
		}
		return handledAs(m, "e:")
	}
	switch ev.Kind {
	case EvBranch:
		if c := ms.Get("cur"); c != nil {
			latch(c, "e:")
		} else {
			latch(v.m, "m:")
		}
		if !ms.Has("bk+") && !ms.Has("bk-") {
			if b, k := v.hashFact(mpT + "pendingBatches"); k {
				if b {
					ms.Flag("bk+")
				} else {
					ms.Flag("bk-")
				}
			}
		}
		if b, k := v.lruFact(); k && b {
			ms.Flag("ignored")
		}
		if b, k := v.hashFact(mpT + "oldBlocks"); k && b {
			ms.Flag("ignored")
		}
		if !ms.Has("qdel") {
			if b, k := v.hashFact(mpT + "pendingMessages"); k && !b {
				ms.Flag("noq")
			}
		}
	case EvRangeKey:
		switch cl, _, _ := x.class(ev.Val); cl {
		case pbT + "pendingMessages":
			ms.Set(loopSlot("pq", ev.Ctx, ev.Hdr), mkAt(ev.Val, ev.Key, nil))
			ms.Set("cur", mkAt(ev.Val, ev.Key, nil))
			ms.Set("curk", ev.Key)
			ms.Del("app")
			ms.DelPrefix("e:")
		case mpT + "pendingMessages[]":
			ms.Set(loopSlot("q", ev.Ctx, ev.Hdr), mkAt(ev.Val, ev.Key, nil))
			ms.Set("qcur", mkAt(ev.Val, ev.Key, nil))
			ms.Set("qcurk", ev.Key)
			ms.Del("rp")
		}
	case EvLoopBack:
		if e := ms.Get(loopSlot("pq", ev.Ctx, ev.Hdr)); e != nil {
			x.Check("retained.apply", "each message retained for a sub-batch is applied in "+fn, ev, handled(e) || x.subUnknown(e) || ms.Has("e:unk"), "a message retained for a sub-batch is passed over when the header of its sub-batch arrives")
			for _, k := range []string{"cur", "curk", "app"} {
				ms.Del(k)
			}
			ms.DelPrefix("e:")
			ms.Del(loopSlot("pq", ev.Ctx, ev.Hdr))
		}
		if e := ms.Get(loopSlot("q", ev.Ctx, ev.Hdr)); e != nil {
			x.Check("early.apply", "each early message is processed in "+fn, ev, ms.Has("rp"), "a message that arrived before its block header is passed over when the header arrives")
			for _, k := range []string{"qcur", "qcurk", "rp"} {
				ms.Del(k)
			}
			ms.Del(loopSlot("q", ev.Ctx, ev.Hdr))
		}
	case EvLoopExit:
		for _, k := range []string{"pq", "q"} {
			ms.Del(loopSlot(k, ev.Ctx, ev.Hdr))
		}
		if len(ms.Keys("pq:")) == 0 {
			ms.Del("cur")
			ms.Del("curk")
			ms.DelPrefix("e:")
		}
		if len(ms.Keys("q:")) == 0 {
			ms.Del("qcur")
			ms.Del("qcurk")
		}
	case EvRangeDone:
		switch cl, _, _ := x.class(unold(ev.Val)); cl {
		case pbT + "pendingMessages":
			if ms.Has("reg") {
				ms.Flag("pbqdone")
			}
		case mpT + "pendingMessages[]":
			if ms.Has("created") {
				ms.Flag("qdone")
			}
		}
	case EvCall, EvEnter:
		if q := ms.Get("qcur"); q != nil {
			for _, a := range ev.Args {
				if sameT(a, q) && x.E.P.processesMessages(ev.CalleeF) {
					ms.Flag("rp")
				}
			}
		}
	case EvExit:
		m := v.m
		other := x.msgIs(m, "BatchType") || x.msgIs(m, "ReorgType")
		if !other {
			other = true
			for _, k := range []string{"SubBatchHeaderType", "SubBatchMsgType", "BatchMsgType", "BatchDeleteMsgType"} {
				if !x.msgIsNot(m, k) {
					other = false
				}
			}
		}
		if !other {
			ok := ms.Has("bk+") || ms.Has("ignored") || ms.Has("queued") || x.keyShort(m, 33)
			x.Check("early.queue", "a message of an unknown block is retained", ev, ok, "a message is finished with although its block is not known to be under assembly, delivered or given up, and it was not retained")
		}
		if x.msgIs(m, "SubBatchMsgType") && ms.Has("bk+") {
			x.Check("retained.queue", "a message of an unknown sub-batch is retained", ev, handled(m) || ms.Has("kept"), "a sub-batch message is finished with although it was neither recorded nor retained for its sub-batch header")
		}
		if ms.Has("reg") {
			x.Check("retained.replay", "a sub-batch header applies the retained messages", ev, ms.Has("pbqdone"), "a sub-batch header is finished with before all messages retained for it were looked at")
		}
		if ms.Has("created") {
			x.Check("early.replay", "a block header applies the early messages", ev, ms.Has("qdone") || ms.Has("noq"), "a block header is finished with before all early messages of the block were processed")
		}
		if ms.Has("qdel") {
			x.Check("early.drop", "early messages are only forgotten once processed", ev, ms.Has("qdone") || ms.Has("noq"), "the early messages of a block are forgotten although not all of them were processed")
		}
	}
	f := x.eff(ev)
	if f == nil {
		return
	}
	switch f.Kind {
	case "mp.pend+":
		ms.Flag("created")
	case "batches+":
		ms.Flag("reg")
		ms.Del("pbqdone")
	case "flag":
		ms.Flag("app")
	case "mp.qmsg+":
		k, okk := msgKeyStr(unold(f.Key))
		x.Check("early.slot", "early messages are retained under their own key and block in "+fn, ev, okk && sameT(k, f.Val) && isHashOf(f.Outer, f.Val), "an early message is retained under %v of block %v, which are not its key and block", f.Key, f.Outer)
		if sameT(f.Val, v.m) {
			ms.Flag("queued")
		}
	case "mp.q+":
		absent := s.KnownNot(mkHas(f.Map, f.Key)) || s.Known(atomEq(mkAt(f.Map, f.Key, nil), cNil()))
		x.Check("early.keep", "the early messages of a block are not replaced in "+fn, ev, absent, "the early messages of a block may be replaced by an empty collection")
	case "mp.q-":
		ms.Flag("qdel")
		if f.Key == nil || !isHashOf(f.Key, v.m) {
			x.Check("early.drop", "early messages are only forgotten once processed", ev, false, "early messages of block %v are forgotten while another block is processed", f.Key)
		}
	case "mp.qmsg-":
		ok := ms.Has("rp") && (sameT(f.Key, ms.Get("qcurk")))
		x.Check("early.drop", "early messages are only forgotten once processed", ev, ok, "an early message is forgotten although it was not processed")
	case "pbq+":
		k, okk := msgKeyStr(unold(f.Key))
		x.Check("retained.slot", "messages are retained under their own key in "+fn, ev, okk && sameT(k, f.Val), "a message is retained under key %v, which is not its own", f.Key)
		if sameT(f.Val, v.m) {
			ms.Flag("kept")
		}
	case "pbq-":
		e := ms.Get("cur")
		ok := false
		if e != nil && f.Key != nil {
			k, okk := msgKeyStr(unold(f.Key))
			ok = (sameT(f.Key, ms.Get("curk")) || okk && sameT(k, e)) && handled(e)
		} else if f.Key != nil {
			if k, okk := msgKeyStr(unold(f.Key)); okk {
				ok = handled(k)
			}
		}
		x.Check("retained.drop", "retained messages are only forgotten once recorded in "+fn, ev, ok, "a message retained for a sub-batch is forgotten although it may not have been recorded")
	case "field:mp.q", "field:mp.qmsg", "field:pbq":
		if f.PB != nil && isFreshObj(f.PB) && s.fresh[f.PB] {
			return
		}
		x.Check("retained.replace", "collections of retained messages are not replaced in "+fn, ev, false, "the collection of retained messages is replaced")
	}
}

// twiceThreshold: t is at least twice the configured reorg threshold.
func (x *Exec) twiceThreshold(t *Term) bool {
	co, base, k, ok := scaled(unold(t))
	if !ok || base == nil || k < 0 || co < 2 {
		return false
	}
	n := ""
	if base.Op == "ld" && base.Args[0].Op == "&f" {
		n = base.Args[0].Name
	}
	return n == mpT+"reorgThreshold" || n == "delivery.ConsumerConfig.ReorgThreshold" || n == "delivery.OrderedMessageProcessor.reorgThreshold"
}

// scaled writes t as co*base+k.
func scaled(t *Term) (co int64, base *Term, k int64, ok bool) {
	if c, isc := t.Int(); isc {
		return 0, nil, c, true
	}
	switch {
	case t.Op == "conv":
		return scaled(t.Args[0])
	case t.Op == "bin" && t.Name == "*":
		c1, b1, k1, o1 := scaled(t.Args[0])
		c2, b2, k2, o2 := scaled(t.Args[1])
		if o1 && o2 && b1 == nil {
			return c2 * k1, b2, k2 * k1, true
		}
		if o1 && o2 && b2 == nil {
			return c1 * k2, b1, k1 * k2, true
		}
		return 0, nil, 0, false
	case t.Op == "bin" && (t.Name == "+" || t.Name == "-"):
		c1, b1, k1, o1 := scaled(t.Args[0])
		c2, b2, k2, o2 := scaled(t.Args[1])
		if !o1 || !o2 {
			return 0, nil, 0, false
		}
		if t.Name == "-" {
			c2, k2 = -c2, -k2
		}
		if b1 == nil || b2 == nil || b1 == b2 {
			b := b1
			if b == nil {
				b = b2
			}
			return c1 + c2, b, k1 + k2, true
		}
		return 0, nil, 0, false
	case t.Op == "bin" && t.Name == "<<":
		c1, b1, k1, o1 := scaled(t.Args[0])
		if n, isc := t.Args[1].Int(); isc && o1 && n >= 0 && n < 32 {
			return c1 << uint(n), b1, k1 << uint(n), true
		}
		return 0, nil, 0, false
	}
	return 1, t, 0, true
}

// blockKey: key names block pb: it is the hash under which pb is registered or its
// own Hash field.
func (x *Exec) blockKey(key, pb *Term) bool {
	if key == nil || pb == nil {
		return false
	}
	k, p := unold(key), unold(pb)
	if p.Op == "at" && p.Args[1] == k {
		return true
	}
	if unold(x.fieldV(pbT+"Hash", pb)) == k {
		return true
	}
	if k.Op == "ld" && k.Args[0].Op == "&f" && k.Args[0].Name == pbT+"Hash" && k.Args[0].Args[0] == p {
		return true
	}
	for l, v := range x.S.mem {
		if v == pb && l.Op == "at" && unold(l.Args[1]) == k {
			return true
		}
	}
	return false
}

func isCompletedCache(x *Exec, recv *Term) bool {
	if recv == nil {
		return false
	}
	l := x.loc(unold(recv))
	return l.Op == "ld" && l.Args[0].Op == "&f" && l.Args[0].Name == mpT+"completed"
}

func mon04(x *Exec, ev *Event) {
	trackDecode(x, ev)
	ms := x.MS()
	s := x.S
	v := x.view()
	root := rootName(x)
	fn := "?"
	if ev.Fn != nil {
		fn = calleeName(ev.Fn)
	}
	if pb, ok := isFeedSend(ev, mpT+"feed"); ok {
		if ms.Has("pb") {
			x.Check("once", "one delivery per block in "+root, ev, false, "a second block is delivered before the first was finished with")
		}
		ms.Set("pb", pb)
		for k := range map[string]bool{"hash": true} {
			_ = k
		}
		if ms.Has("addk") && x.blockKey(ms.Get("addk"), pb) {
			ms.Flag("added")
		}
		if ms.Has("delk") && x.blockKey(ms.Get("delk"), pb) {
			ms.Flag("deleted")
		}
		if v.m != nil {
			ok := ms.Has("nc") && ms.Has("no")
			x.Check("suppress", "delivery in "+root, ev, ok, "a block is delivered although it may have been delivered or given up before")
			_, isAt := unold(pb).Op, false
			p := unold(pb)
			isAt = p.Op == "at" || p.Op == "alloc" || p.Op == "phi"
			x.Check("pending", "delivered block is the one under assembly in "+root, ev, isAt, "the delivered block %v is not the one registered for the message's hash", pb)
		}
		return
	}
	switch ev.Kind {
	case EvBranch:
		if v.m != nil && !ms.Has("nc") {
			if b, k := v.lruFact(); k && !b {
				ms.Flag("nc")
			}
		}
		if v.m != nil && !ms.Has("no") {
			if b, k := v.hashFact(mpT + "oldBlocks"); k && !b {
				ms.Flag("no")
			}
		}
	case EvRangeKey:
		if cl, _, _ := x.class(ev.Val); cl == mpT+"pendingBatches" {
			ms.Set(loopSlot("ev", ev.Ctx, ev.Hdr), tTrue)
			ms.Set("evk", ev.Key)
			ms.Set("evp", mkAt(ev.Val, ev.Key, nil))
		}
	case EvLoopBack, EvLoopExit:
		if ms.Has(loopSlot("ev", ev.Ctx, ev.Hdr)) {
			if ms.Has("evd") != ms.Has("evo") {
				x.Check("giveup", "blocks given up are remembered and the others kept in "+fn, ev, false, "a block is given up without being remembered as old, or remembered as old without being given up")
			} else if ms.Has("evd") {
				x.Check("giveup", "blocks given up are remembered and the others kept in "+fn, ev, true, "")
			}
			for _, k := range []string{"evk", "evp", "evd", "evo"} {
				ms.Del(k)
			}
			ms.Del(loopSlot("ev", ev.Ctx, ev.Hdr))
		}
	case EvCall:
		switch ev.Callee {
		case "(*lru.Cache).Add":
			if isCompletedCache(x, ev.Recv) {
				ms.Set("addk", ev.Args[0])
				if pb := ms.Get("pb"); pb != nil {
					ok := x.blockKey(ev.Args[0], pb)
					x.Check("remember", "delivered block is remembered in "+root, ev, ok, "what is remembered after a delivery is %v, not the hash of the delivered block", ev.Args[0])
					if ok {
						ms.Flag("added")
					}
				} else if v.m != nil && !isHashOf(ev.Args[0], v.m) {
					x.Check("remember", "delivered block is remembered in "+root, ev, false, "%v is remembered as delivered, which is not the hash of the message", ev.Args[0])
				}
			}
		case "(*lru.Cache).Remove", "(*lru.Cache).Purge", "(*lru.Cache).Resize", "(*lru.Cache).RemoveOldest":
			if isCompletedCache(x, ev.Recv) {
				x.Check("forget", "delivered blocks are not forgotten in "+fn, ev, v.m != nil && x.msgIs(v.m, "ReorgType"), "delivered blocks are forgotten")
			}
		case "lru.New", "lru.NewWithEvict":
			ms.Set("newlru", ev.Args[0])
		}
	case EvStore:
		if ev.Addr.Op == "&f" && ev.Addr.Name == mpT+"completed" {
			okSize := ms.Has("newlru") && x.twiceThreshold(ms.Get("newlru"))
			x.Check("window", "remembered window is at least twice the reorg threshold in "+fn, ev, okSize, "the number of delivered blocks remembered is %v, which is not at least twice the reorg threshold", ms.Get("newlru"))
			if v.m != nil {
				x.Check("forget", "delivered blocks are not forgotten in "+fn, ev, x.msgIs(v.m, "ReorgType"), "the delivered blocks are forgotten although no reorg message is processed")
			}
		}
	case EvExit:
		if pb := ms.Get("pb"); pb != nil {
			x.Check("remember", "delivered block is remembered in "+root, ev, ms.Has("added"), "a block is delivered but its hash is not remembered, so it can be delivered again")
			x.Check("unpend", "delivered block stops being pending in "+root, ev, ms.Has("deleted"), "a block is delivered but stays pending, so it can be delivered again")
		} else {
			if ms.Has("addk") {
				x.Check("remember", "delivered block is remembered in "+root, ev, false, "a block is remembered as delivered although it was not delivered")
			}
			if ms.Has("delk") && v.m != nil {
				x.Check("lost", "a block under assembly is only dropped when delivered in "+root, ev, false, "a block under assembly is dropped without having been delivered")
			}
		}
	}
	f := x.eff(ev)
	if f == nil {
		return
	}
	if f.Kind == "mp.pend-" {
		if k := ms.Get("evk"); k != nil && sameT(f.Key, k) {
			ms.Flag("evd")
			return
		}
		ms.Set("delk", f.Key)
		if pb := ms.Get("pb"); pb != nil {
			if x.blockKey(f.Key, pb) {
				ms.Flag("deleted")
			} else {
				x.Check("lost", "a block under assembly is only dropped when delivered in "+root, ev, false, "block %v is dropped while another one is delivered", f.Key)
			}
		}
		return
	}
	if v.m == nil {
		return
	}
	switch f.Kind {
	case "mp.old+":
		if k := ms.Get("evk"); k != nil && sameT(f.Key, k) {
			ms.Flag("evo")
			num := mk("ld", "", types.Typ[types.Int64], mk("&f", pbT+"Number", nil, ms.Get("evp")))
			older := false
			for a, b := range s.facts {
				if a.Op == "lt" && b && sameT(a.Args[0], num) && a.Args[1].Op == "opq" {
					older = true
				}
			}
			x.Check("giveup.older", "only blocks below the eviction number are given up in "+fn, ev, older, "a block is given up although its number may not be below the eviction number")
		} else {
			x.Check("giveup", "blocks given up are remembered and the others kept in "+fn, ev, false, "block %v is remembered as given up although it was not among the evicted ones", f.Key)
		}
	case "mp.old-":
		x.Check("forget.old", "given up blocks are not forgotten in "+fn, ev, x.msgIs(v.m, "ReorgType"), "a block given up is forgotten")
	case "field:mp.old":
		if !(isFreshObj(f.PB) && s.fresh[f.PB]) {
			x.Check("forget.old", "given up blocks are not forgotten in "+fn, ev, x.msgIs(v.m, "ReorgType"), "the blocks given up are forgotten although no reorg message is processed")
		}
	case "mp.pend+", "mp.qmsg+", "values+", "deletes+", "prefix+", "sb+", "sb-", "batches+", "flag", "pbq+":
		ok := ms.Has("nc") && ms.Has("no")
		x.Check("suppress", f.Kind+" in "+fn, ev, ok, "a message is used although its block may have been delivered or given up before")
	}
}

func init() {
	mpRoot := "delivery.MessageProcessor.ProcessMessage"
	common := []string{pbT + "failedReconstructPanic", mpT + "failedReconstructPanic", pbT + "waitCh", mpT + "lastEmittedNum"}
	c03Irr := append(append([]string{mpT + "reorgThreshold", pbT + "Number", pbT + "prefixes", pbT + "Values", pbT + "Deletes", pbT + "pendingBatches", mpT + "trackedPrefixes"}, common...), resumptionClasses...)
	register("C03", func(c *Ctx) {
		c.Explain = "typestate over every path of the message processor: what happens to a message that cannot be applied yet, and to the retained ones when their header arrives"
		c.Flow(mpRoot, mon03, &runOpts{irrelevant: c03Irr, forall: []string{pbT + "batches[]"}})
		c.Min("early", 6)
		c.Min("retained", 5)
	})
	c04Irr := append(append([]string{pbT + "prefixes", pbT + "Values", pbT + "Deletes", pbT + "pendingBatches", pbT + "batches", pbT + "pendingMessages", mpT + "trackedPrefixes", mpT + "pendingMessages"}, common[:3]...), resumptionClasses...)
	register("C04", func(c *Ctx) {
		c.Explain = "typestate: delivery, remembering and unregistering go together on every path; every use of a message is preceded by the two suppression tests"
		o := &runOpts{irrelevant: c04Irr, forall: []string{"none"}}
		c.Flow(mpRoot, mon04, o)
		c.Flow("delivery.MessageProcessor.ProcessCompleteBatch", mon04, o)
		c.Flow("delivery.NewMessageProcessor", mon04, o)
		c.Min("remember", 2)
		c.Min("unpend", 2)
		c.Min("suppress", 6)
		c.Min("window", 2)
		c.Min("giveup", 1)
	})
}

var _ = fmt.Sprint
