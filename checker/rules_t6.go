package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var _ = types.Typ
var _ = strings.HasPrefix

// consumerLoop: the goroutine of the websocket consumer that reads messages.
func consumerLoop(c *Ctx) *ssa.Function {
	f := c.Fn("transports.websocketConsumer.Start")
	if f == nil {
		return nil
	}
	for _, g := range goRoots(f) {
		if c.P.mentions(g, callsSuffix("Conn).ReadMessage")) {
			return g
		}
	}
	c.Oblige("anchor", "message loop", f.Pos(), false, nil, "the goroutine that reads the messages of the websocket was not found")
	return nil
}

// ---------- T06: the encoders ----------

// carries: message m carries block src as encoded by the fields of the
// parameters or of a block; get gives the source of a field.
func (x *Exec) carries(ev *Event, con string, m *Term, get func(f string) *Term, batches func(t *Term) bool) {
	ms := x.MS()
	_ = ms
	b := x.fieldV(rmT+"Batch", m)
	for _, f := range []string{"Number", "Hash", "ParentHash", "Weight"} {
		v := unold(unface(x.fieldV(tbT+f, b)))
		for v.Op == "conv" {
			v = v.Args[0]
		}
		x.ckOn("T06", "encode."+f, con, ev, get(f) != nil && sameT(v, unface(get(f))), "the %s is sent as %v", f, v)
	}
	for _, f := range []string{"Values", "Deletes"} {
		v := x.fieldV(tbT+f, b)
		x.ckOn("T06", "encode."+f, con, ev, get(f) != nil && x.copied(get(f), v), "not all %s are sent: %v", strings.ToLower(f), v)
	}
	v := x.fieldV(tbT+"Batches", b)
	x.ckOn("T06", "encode.Batches", con, ev, batches(v), "the sub-batches are sent as %v", v)
}

func isResultMessage(t *Term) bool {
	return t != nil && t.Typ != nil && shortType(t.Typ) == "*transports.resultMessage"
}

func (x *Exec) msgType(m *Term) string {
	t, _ := x.fieldV(rmT+"Type", m).Str()
	return t
}

// fedMessage: the event sends a message on the feed of the producer.
func fedMessage(ev *Event) *Term {
	if ev.Kind == EvCall && ev.Callee == "(*types.Feed).Send" && len(ev.Args) == 1 {
		return unface(ev.Args[0])
	}
	return nil
}

func (x *Exec) ownField(t *Term, class string) bool {
	c, b, _ := x.class(t)
	return c == class && b != nil && sameT(b, rootParam(x, 0))
}

func monWsAddBlock(x *Exec, ev *Event) {
	ms := x.MS()
	x.trackCopies(ev, isData)
	con := "blocks sent by AddBlock"
	P := map[string]int{"Number": 1, "Hash": 2, "ParentHash": 3, "Weight": 4, "Values": 5, "Deletes": 6, "Batches": 7}
	get := func(f string) *Term { return rootParam(x, P[f]) }
	expected := func(t *Term) bool { return x.ownField(t, "transports.websocketProducer.expectedBatches") }
	switch ev.Kind {
	case EvRangeKey:
		if sameT(ev.Val, get("Batches")) {
			ms.Set("b", ev.Res)
			ms.Set("bL", cStr(loopSlot("", ev.Ctx, ev.Hdr)))
			ms.Del("reg")
		}
	case EvRangeDone:
		if sameT(ev.Val, get("Batches")) {
			ms.Flag("bdone")
		}
	case EvLoopBack:
		if n, _ := ms.Get("bL").StrOr(); ms.Has("bL") && n == loopSlot("", ev.Ctx, ev.Hdr) {
			x.ckOn("T06", "register", con, ev, ms.Has("reg"), "a sub-batch of a block is not registered")
			ms.DelAll("b", "bL", "reg")
		}
	case EvMapUpdate:
		if expected(ev.Map) {
			b := ms.Get("b")
			x.ckOn("T06", "register", con, ev, b != nil && sameT(ev.Key, b) && sameT(ev.Val, get("Hash")), "sub-batch %v is registered for block %v", ev.Key, ev.Val)
			ms.Flag("reg")
		}
	case EvMapDelete:
		if expected(ev.Map) {
			x.ckOn("T06", "register", con, ev, false, "the registration of %v is removed", ev.Key)
		}
	case EvCall:
		if m := fedMessage(ev); m != nil {
			ms.bump("sent")
			x.ckOn("T06", "encode.type", con, ev, isResultMessage(m) && x.msgType(m) == "batch", "a block is sent as message %v", m)
			x.carries(ev, con, m, get, func(v *Term) bool { return sameT(v, get("Batches")) })
		}
	case EvExit:
		if !x.knownNonNil(ev.Args[0]) {
			x.ckOn("T06", "send.once", con, ev, ms.once("sent"), "a block is not sent exactly once")
			x.ckOn("T06", "register", con, ev, ms.Has("bdone") || x.S.Known(atomLt(mkLen(get("Batches")), cInt(1))), "not all sub-batches of a block are registered")
		}
	}
}

func monWsSendBatch(x *Exec, ev *Event) {
	ms := x.MS()
	x.trackCopies(ev, isData)
	con := "sub-batches sent by SendBatch"
	id, del, upd := rootParam(x, 1), rootParam(x, 2), rootParam(x, 3)
	expected := func(t *Term) bool { return x.ownField(t, "transports.websocketProducer.expectedBatches") }
	known := func() (*Term, bool, bool) {
		l := ms.Get("look")
		if l == nil {
			return nil, false, false
		}
		if l.Op != "at" || ms.Has("was") {
			return l, ms.Has("was"), false
		}
		v, k := x.S.Query(mkHas(l.Args[0], l.Args[1]))
		return l, k && v, k && !v
	}
	if _, yes, _ := known(); yes {
		ms.Flag("was")
	}
	switch ev.Kind {
	case EvLookup:
		if expected(ev.Map) && sameT(ev.Key, id) {
			ms.Set("look", mkAt(ev.Map, ev.Key, ev.Map.Typ.Underlying().(*types.Map).Elem()))
		}
	case EvMapUpdate, EvMapDelete:
		if expected(ev.Map) {
			x.ckOn("T06", "unregister", con, ev, ev.Kind == EvMapDelete && sameT(ev.Key, id), "the registration of sub-batch %v changes", ev.Key)
			ms.Flag("del")
		}
	case EvCall:
		if m := fedMessage(ev); m != nil {
			ms.bump("sent")
			x.ckOn("T06", "encode.type", con, ev, isResultMessage(m) && x.msgType(m) == "subbatch", "a sub-batch is sent as message %v", m)
			sb := x.fieldV(rmT+"SubBatch", m)
			l, yes, _ := known()
			h := x.fieldV(sbT+"Hash", sb)
			x.ckOn("T06", "encode.Hash", con, ev, l != nil && yes && sameT(h, l), "a sub-batch is sent for block %v", h)
			x.ckOn("T06", "encode.BatchId", con, ev, sameT(x.fieldV(sbT+"BatchId", sb), id), "a sub-batch is sent as %v", x.fieldV(sbT+"BatchId", sb))
			x.ckOn("T06", "encode.Values", con, ev, x.copied(upd, x.fieldV(sbT+"Values", sb)), "not all values of a sub-batch are sent")
			d := x.fieldV(sbT+"Deletes", sb)
			x.ckOn("T06", "encode.Deletes", con, ev, sameT(d, del) || x.copied(del, d), "not all deletes of a sub-batch are sent")
		}
	case EvExit:
		_, yes, no := known()
		r := ev.Args[0]
		switch {
		case x.knownNil(r):
			x.ckOn("T06", "send.once", con, ev, ms.once("sent") && yes, "a sub-batch is not sent exactly once")
		case isGlobal(r, "delivery.ErrUnknownBatch"):
			x.ckOn("T06", "unknown", con, ev, no && !ms.Has("sent"), "a sub-batch that a block registered is refused")
		default:
			x.ckOn("T06", "unknown", con, ev, no && !ms.Has("sent"), "a sub-batch is refused with %v", r)
		}
		if ms.Has("del") {
			x.ckOn("T06", "unregister", con, ev, ms.Has("sent"), "a sub-batch is forgotten without being sent")
		}
	}
}

func monWsReorg(x *Exec, ev *Event) {
	ms := x.MS()
	con := "reorgs sent by Reorg"
	switch ev.Kind {
	case EvCall:
		if m := fedMessage(ev); m != nil {
			ms.bump("sent")
			b := x.fieldV(rmT+"Batch", m)
			x.ckOn("T06", "encode.type", con, ev, isResultMessage(m) && x.msgType(m) == "reorg", "a reorg is sent as message %v", m)
			x.ckOn("T06", "encode.Number", con, ev, sameT(unface(x.fieldV(tbT+"Number", b)), rootParam(x, 1)), "a reorg is sent with number %v", x.fieldV(tbT+"Number", b))
			x.ckOn("T06", "encode.Hash", con, ev, sameT(x.fieldV(tbT+"Hash", b), rootParam(x, 2)), "a reorg is sent with hash %v", x.fieldV(tbT+"Hash", b))
		}
	case EvExit:
		if !x.knownNonNil(ev.Args[1]) {
			x.ckOn("T06", "send.once", con, ev, ms.once("sent"), "a reorg is not sent exactly once")
		}
	}
}

func (x *Exec) blockSource(b *Term) func(f string) *Term {
	return func(f string) *Term {
		if b == nil {
			return nil
		}
		return x.fieldV(wpbT+f, b)
	}
}

func monStreamsBlock(x *Exec, ev *Event) {
	ms := x.MS()
	x.trackCopies(ev, isData)
	con := "blocks sent by StreamsBlock"
	switch ev.Kind {
	case EvCall:
		if strings.HasSuffix(ev.Callee, "StreamsResumption).GetBlock") {
			ms.Set("block", ev.Res)
			n := unface(ev.Args[len(ev.Args)-1])
			x.ckOn("T06", "block.number", con, ev, sameT(n, rootParam(x, 2)), "block %v is looked up", n)
		}
	case EvExit:
		b := ms.Get("block")
		if x.knownNonNil(ev.Args[1]) || ev.Args[1].Op == "iface" {
			x.ckOn("T06", "block.missing", con, ev, b != nil && x.knownNil(b), "a block that was found is not sent")
			return
		}
		m := unface(ev.Args[0])
		x.ckOn("T06", "encode.type", con, ev, isResultMessage(m) && x.msgType(m) == "batch", "a block is sent as message %v", m)
		x.carries(ev, con, m, x.blockSource(b), x.emptyMap)
	}
}

func monHistory(x *Exec, ev *Event) {
	ms := x.MS()
	x.trackCopies(ev, isData)
	con := "historical blocks of a stream"
	switch ev.Kind {
	case EvRecv:
		if ev.Val != nil && ev.Val.Typ != nil && shortType(ev.Val.Typ) == "*delivery.PendingBatch" {
			ms.Set("b", ev.Val)
			ms.Set("bL", cStr(x.enclosingLoop(ev.Ctx, ev.Instr)))
			ms.DelAll("sent", "sent+", "ok")
			if ev.Key != nil {
				ms.Set("ok", ev.Key)
			}
		}
	case EvLoopBack, EvLoopExit:
		if n, _ := ms.Get("bL").StrOr(); ms.Has("b") && n == loopSlot("", ev.Ctx, ev.Hdr) {
			if ev.Kind == EvLoopBack {
				x.ckOn("T06", "history.all", con, ev, ms.once("sent"), "a historical block is not sent exactly once")
			}
			ms.DelAll("b", "bL", "sent", "sent+", "ok")
		}
	case EvSend:
		if !isResultMessage(unface(ev.Val)) {
			return
		}
		m := unface(ev.Val)
		if x.msgType(m) == "ready" {
			return
		}
		ms.bump("sent")
		b := ms.Get("b")
		x.ckOn("T06", "encode.type", con, ev, x.msgType(m) == "batch", "a block is sent as message %v", m)
		x.carries(ev, con, m, x.blockSource(b), x.emptyMap)
	}
}

// wireStructs: the fields of the messages keep their names on the wire.
func wireStructs(c *Ctx) {
	want := map[string]map[string]string{
		"resultMessage":     {"Type": "type", "Batch": "batch", "SubBatch": "subbatch"},
		"TransportBatch":    {"Number": "number", "Weight": "weight", "Hash": "hash", "ParentHash": "parent", "Values": "values", "Deletes": "deletes", "Batches": "batches"},
		"transportSubbatch": {"Hash": "hash", "BatchId": "batchid", "Values": "values", "Deletes": "deletes"},
	}
	for n, fs := range want {
		var st *types.Struct
		pos := token.NoPos
		for _, pk := range c.P.Prog.AllPackages() {
			if pk.Pkg.Name() != "transports" || !strings.Contains(pk.Pkg.Path(), "cardinal-streams") {
				continue
			}
			if o := pk.Pkg.Scope().Lookup(n); o != nil {
				st, _ = o.Type().Underlying().(*types.Struct)
				pos = o.Pos()
			}
		}
		if st == nil {
			c.Oblige("wire.name", n, pos, false, nil, "the message struct %s was not found", n)
			continue
		}
		seen := map[string]string{}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			tag := strings.Split(reflect.StructTag(st.Tag(i)).Get("json"), ",")[0]
			if tag == "" {
				tag = f.Name()
			}
			if w, ok := fs[f.Name()]; ok {
				c.Oblige("wire.name", n+"."+f.Name(), f.Pos(), tag == w && f.Exported(), nil, "field %s of %s is called %q on the wire, not %q", f.Name(), n, tag, w)
				delete(fs, f.Name())
			}
			l := strings.ToLower(tag)
			c.Oblige("wire.distinct", n, f.Pos(), seen[l] == "", nil, "fields %s and %s of %s share the name %q", seen[l], f.Name(), n, tag)
			seen[l] = f.Name()
		}
		for f := range fs {
			c.Oblige("wire.name", n+"."+f, pos, false, nil, "%s has no field %s", n, f)
		}
	}
}

// historyRoot: the goroutine of a stream that sends the historical blocks.
func historyRoot(c *Ctx) *ssa.Function {
	f := c.Fn("transports.websocketStreamsService.Streams")
	if f == nil {
		return nil
	}
	for _, g := range goRoots(f) {
		if c.P.mentions(g, func(in ssa.Instruction) bool {
			u, ok := in.(*ssa.UnOp)
			if !ok || u.Op != token.ARROW {
				return false
			}
			ch, ok := u.X.Type().Underlying().(*types.Chan)
			return ok && shortType(ch.Elem()) == "*delivery.PendingBatch"
		}) {
			return g
		}
	}
	c.Oblige("anchor", "history", f.Pos(), false, nil, "the goroutine that sends the historical blocks was not found")
	return nil
}

func dumpEvents(x *Exec, ev *Event) {
	k := map[EvKind]string{EvStore: "store", EvMapUpdate: "mapupd", EvMapDelete: "mapdel", EvCall: "call", EvSend: "send", EvRecv: "recv", EvGo: "go", EvClose: "close", EvRangeKey: "rkey", EvRangeDone: "rdone", EvLoopBack: "back", EvLoopExit: "lexit", EvExit: "exit", EvLookup: "lookup"}[ev.Kind]
	if k == "" {
		return
	}
	p := x.E.P.Fset.Position(ev.Pos)
	fmt.Printf("%d %s callee=%s recv=%v args=%v res=%v addr=%v map=%v key=%v val=%v chan=%v hdr=%v\n", p.Line, k, ev.Callee, ev.Recv, ev.Args, ev.Res, ev.Addr, ev.Map, ev.Key, ev.Val, ev.Chan, ev.Hdr)
}

// ---------- copies ----------

// trackCopies follows loops that copy a container into a map or a list. After
// the loop the slot "cp:<loop>" holds pair(container, copy); the copy of an
// empty container is "*".
func (x *Exec) trackCopies(ev *Event, want func(c *Term) bool) {
	ms := x.MS()
	switch ev.Kind {
	case EvRangeKey:
		L := loopSlot("cp", ev.Ctx, ev.Hdr)
		ms.DelAll("H"+L, L)
		if want != nil && !want(ev.Val) {
			return
		}
		ms.Set("C"+L, ev.Val)
		ms.Set("K"+L, ev.Key)
		ms.Set("E"+L, ev.Res)
	case EvMapUpdate:
		for _, c := range ms.Keys("Ccp:") {
			L := c[1:]
			k, e := ms.Get("K"+L), ms.Get("E"+L)
			if k == nil {
				continue
			}
			hit := false
			if isMapTerm(ms.Get(c)) {
				hit = sameT(ev.Key, k) && (sameT(unface(ev.Val), unface(e)) || isUnit(ev.Val.Typ))
			} else {
				hit = sameT(ev.Key, e)
			}
			if hit {
				if ms.Has("H" + L) {
					ms.Flag("B" + L)
				}
				ms.Set("H"+L, ev.Map)
			}
		}
	case EvCall:
		if ev.Callee != "builtin append" {
			return
		}
		base, els, ok := x.newElems(ev)
		if !ok || len(els) != 1 {
			return
		}
		for _, c := range ms.Keys("Ccp:") {
			L := c[1:]
			k, e := ms.Get("K"+L), ms.Get("E"+L)
			if k == nil || !(isMapTerm(ms.Get(c)) && sameT(els[0], k) || !isMapTerm(ms.Get(c)) && sameT(unface(els[0]), unface(e))) {
				continue
			}
			if ms.Has("H" + L) {
				ms.Flag("B" + L)
			}
			ms.Set("H"+L, ev.Res)
			if ch := ms.Get("M" + L); ch != nil {
				if !sameT(base, ch) {
					ms.Flag("B" + L)
				}
			} else if n, k := mkLen(base).Int(); !(k && n == 0) && !x.S.Known(atomLt(mkLen(base), cInt(1))) && !(rootObj(base).Op != "mkslice" && x.S.fresh[rootObj(base)]) && !(base.Op == "phi" && x.startsEmpty(base, map[*Term]bool{})) {
				ms.Flag("B" + L)
			}
			ms.Set("M"+L, ev.Res)
		}
	case EvLoopBack:
		L := loopSlot("cp", ev.Ctx, ev.Hdr)
		if !ms.Has("C" + L) {
			return
		}
		h := ms.Get("H" + L)
		if h == nil {
			ms.Flag("B" + L)
		} else if m := ms.Get("M" + L); m != nil && !sameT(m, h) {
			ms.Flag("B" + L)
		} else {
			ms.Set("M"+L, h)
		}
		ms.DelAll("H"+L, "K"+L, "E"+L)
	case EvRangeDone:
		L := loopSlot("cp", ev.Ctx, ev.Hdr)
		if want != nil && !want(ev.Val) {
			return
		}
		m := ms.Get("M" + L)
		if m == nil {
			m = cStr("*")
		}
		ms.Del(L)
		if !ms.Has("B" + L) {
			ms.Set(L, mk("pair", "", nil, ev.Val, m))
		}
		ms.DelAll("C"+L, "H"+L, "K"+L, "E"+L, "M"+L, "B"+L)
	case EvLoopExit:
		L := loopSlot("cp", ev.Ctx, ev.Hdr)
		ms.DelAll("C"+L, "H"+L, "K"+L, "E"+L, "M"+L, "B"+L)
	}
}

func isUnit(t types.Type) bool {
	if t == nil {
		return false
	}
	st, ok := t.Underlying().(*types.Struct)
	return ok && st.NumFields() == 0
}

// copied: all of container c was copied into m (m nil: into anything).
func (x *Exec) copied(c, m *Term) bool {
	if c == nil {
		return false
	}
	if x.S.Known(atomLt(mkLen(c), cInt(1))) || x.knownNil(c) {
		return true
	}
	ms := x.MS()
	for _, k := range ms.Keys("cp:") {
		p := ms.Get(k)
		if p.Op != "pair" || !sameT(p.Args[0], c) {
			continue
		}
		if s, ok := p.Args[1].Str(); ok && s == "*" {
			return true
		}
		if m == nil || sameT(p.Args[1], m) {
			return true
		}
	}
	return false
}

// inCopy: the map update copies an element of a container accepted by pred.
func (x *Exec) inCopy(ev *Event, pred func(c *Term) bool) bool {
	ms := x.MS()
	for _, c := range ms.Keys("Ccp:") {
		L := c[1:]
		k, e := ms.Get("K"+L), ms.Get("E"+L)
		if k == nil || !pred(ms.Get(c)) {
			continue
		}
		if isMapTerm(ms.Get(c)) {
			if sameT(ev.Key, k) && (sameT(unface(ev.Val), unface(e)) || isUnit(ev.Val.Typ)) {
				return true
			}
		} else if sameT(ev.Key, e) {
			return true
		}
	}
	return false
}

// enclosingLoop: the innermost loop around an instruction, through its callers.
func (x *Exec) enclosingLoop(ctx *Ctxt, in ssa.Instruction) string {
	for ctx != nil && in != nil {
		var best *ssa.BasicBlock
		n := 0
		for h, body := range x.E.P.loops(in.Parent()) {
			if body[in.Block()] && (best == nil || len(body) < n) {
				best, n = h, len(body)
			}
		}
		if best != nil {
			return loopSlot("", ctx, best)
		}
		in, ctx = ctx.site, ctx.parent
	}
	return ""
}

// ---------- T05, T06: the websocket consumer ----------

const (
	wcT  = "transports.websocketConsumer."
	tbT  = "transports.TransportBatch."
	sbT  = "transports.transportSubbatch."
	rmT  = "transports.resultMessage."
	wpbT = "delivery.PendingBatch."
)

// wsMap: which of the consumer's maps a term is.
func wsMap(t *Term) string {
	if t == nil || t.Typ == nil {
		return ""
	}
	m, ok := t.Typ.Underlying().(*types.Map)
	if !ok {
		return ""
	}
	k, v := shortType(m.Key()), shortType(m.Elem())
	switch {
	case k == "types.Hash" && v == "*delivery.PendingBatch":
		return "B"
	case k == "types.Hash" && v == "*transports.transportSubbatch":
		return "S"
	case k == "types.Hash" && v == "map[types.Hash]struct{}":
		return "P"
	case k == "types.Hash" && isUnit(m.Elem()):
		return "N"
	case k == "string" && isUnit(m.Elem()):
		return "deletes"
	case k == "string" && (v == "[]byte" || v == "[]uint8"):
		return "values"
	}
	return ""
}

// isData: values (string to bytes) or deletes (strings).
func isData(c *Term) bool {
	if c.Typ == nil {
		return false
	}
	switch t := c.Typ.Underlying().(type) {
	case *types.Map:
		v := shortType(t.Elem())
		return shortType(t.Key()) == "string" && (v == "[]byte" || v == "[]uint8" || strings.HasSuffix(v, "hexutil.Bytes") || isUnit(t.Elem()))
	case *types.Slice:
		return shortType(t.Elem()) == "string"
	}
	return false
}

func monConsumer(x *Exec, ev *Event) {
	ms, s := x.MS(), x.S
	x.trackCopies(ev, isData)
	item := ms.Get("item")
	sub := func(f string) *Term { // item.Batch or item.SubBatch
		if item == nil {
			return nil
		}
		return x.fieldV(rmT+f, item)
	}
	isB := func(t *Term, f string) bool { return item != nil && structField(unface(t), tbT+f, sub("Batch")) }
	isS := func(t *Term, f string) bool {
		return item != nil && structField(unface(t), sbT+f, sub("SubBatch"))
	}
	pb := ms.Get("pb")
	isPBHash := func(t *Term) bool {
		return isB(t, "Hash") || pb != nil && structField(t, wpbT+"Hash", pb)
	}
	typ := func(n string) bool {
		return item != nil && s.Known(atomEq(x.fieldV(rmT+"Type", item), cStr(n)))
	}
	// nothing is (something is) waited for by the block of the message
	waitsFor := func() *Term {
		p, h := ms.Get("P"), ms.Get("Ph")
		if p == nil || h == nil {
			return nil
		}
		return x.S.readMap(p, h, p.Typ.Underlying().(*types.Map).Elem())
	}
	emptyP := func() bool {
		if ms.Has("wasempty") {
			return true
		}
		w := waitsFor()
		return w != nil && (s.fresh[w] || s.Known(atomLt(mkLen(w), cInt(1))))
	}
	con := "messages of the websocket consumer"
	started := func(what string) bool {
		ok := item != nil
		for _, k := range ms.Keys("err:") {
			ok = ok && x.knownNil(ms.Get(k))
		}
		x.ckOn("T05", "decoded", con, ev, ok, "%s on a message that may not have been decoded", what)
		return ok
	}
	reset := func() {
		for k := range ms.F {
			delete(ms.F, k)
		}
	}
	end := func() {
		defer reset()
		if item == nil {
			if m := ms.Get("msg"); m != nil && (ms.Has("env") || len(ms.Keys("err:")) == 1 && x.knownNil(ms.Get("err:read"))) {
				ok := s.Known(atomLt(mkLen(m), cInt(1)))
				for _, k := range ms.Keys("err:") {
					ok = ok || x.knownNonNil(ms.Get(k))
				}
				for f, v := range s.facts {
					if !v && f.Op == "eq" && f.Any(func(t *Term) bool {
						return (t.Op == "&f" || t.Op == "fld") && (strings.HasSuffix(t.Name, "SubscriptionResponseRaw.Method") || strings.HasSuffix(t.Name, ".ID"))
					}) {
						ok = true
					}
				}
				x.ckOn("T05 T06", "message.dropped", con, ev, ok, "a message of the subscription is dropped")
			}
			return
		}
		bad := false
		for _, k := range ms.Keys("err:") {
			bad = bad || x.knownNonNil(ms.Get(k))
		}
		if bad {
			return
		}
		done := ms.Has("delivered")
		kind := ""
		for _, k := range []string{"batch", "subbatch", "reorg", "ready"} {
			if typ(k) {
				kind = k
			}
		}
		waits := func() bool {
			w := waitsFor()
			return w != nil && !ms.Has("wasempty") && s.KnownNot(atomLt(mkLen(w), cInt(1)))
		}
		// a message without its block or sub-batch has nothing to pass on
		switch {
		case kind == "batch" && (x.knownNil(x.fieldV(rmT+"Batch", item)) || x.knownNil(x.fieldV(tbT+"Weight", x.fieldV(rmT+"Batch", item)))),
			kind == "reorg" && x.knownNil(x.fieldV(rmT+"Batch", item)),
			kind == "subbatch" && x.knownNil(x.fieldV(rmT+"SubBatch", item)):
			kind = ""
		}
		switch kind {
		case "batch":
			x.ckOn("T06", "handled.batch", "handler of batch messages", ev, ms.Has("pb"), "a block message is not turned into a block")
			x.ckOn("T05", "block.fate", con, ev, done || ms.Has("inB") && (ms.Has("anyreg") || waits()), "a block is neither passed on nor kept until its sub-batches arrive")
			if ms.Has("resetP") {
				x.ckOn("T05", "block.stale", con, ev, ms.Has("inB") || ms.Has("noB"), "an older copy of the block stays without the sub-batches it waits for")
			}
			x.ckOn("T05", "block.fate", con, ev, !done || !ms.Has("inB") || ms.Has("anyreg"), "a block that was passed on is kept")
		case "subbatch":
			stored := ms.Has("inS")
			merged := ms.Has("sv") && ms.Has("sd")
			x.ckOn("T06", "handled.subbatch", "handler of subbatch messages", ev, stored || merged, "a sub-batch message is dropped")
			x.ckOn("T05", "sub.fate", con, ev, stored && !done || merged && ms.Has("delN"), "a sub-batch is neither kept nor merged into its block")
			x.ckOn("T05", "sub.deliver", con, ev, !merged || done && emptyP() || !done && waits(), "a block whose last sub-batch arrived is not passed on")
			x.ckOn("T05", "sub.deliver", con, ev, !done || ms.Has("delB"), "a block that was passed on is kept")
		case "reorg":
			x.ckOn("T06", "handled.reorg", "handler of reorg messages", ev, ms.Has("reorg") && !ms.Has("reorg+"), "a reorg message is not handled once")
		case "ready":
			x.ckOn("T06 T13", "handled.ready", "handler of ready messages", ev, ms.Has("ready") || x.announced(), "a ready message is dropped")
		}
		if ms.Has("ln") || ms.Has("lh") {
			a, b := ms.Get("ln"), ms.Get("lh")
			x.ckOn("T05", "position.pair", con, ev, a != nil && b != nil && sameT(a, b) && done && sameT(a, ms.Get("dpb")), "the reconnect position is not the number and hash of the block that was passed on")
		}
	}
	switch ev.Kind {
	case EvRangeKey:
		if isB(ev.Val, "Batches") {
			ms.Set("nL", cStr(loopSlot("", ev.Ctx, ev.Hdr)))
			ms.Set("name", ev.Res)
			ms.DelAll("reg", "mv", "md", "delS")
		}
	case EvRangeDone:
		if isB(ev.Val, "Batches") {
			ms.Flag("namesdone")
		}
		// a stored sub-batch was merged
		c := unold(ev.Val)
		if n := ms.Get("name"); n != nil {
			if b := baseOf(c, sbT+"Values"); b != nil && x.isStored(b, n) {
				ms.Set("mv", ev.Val)
			}
			if b := baseOf(c, sbT+"Deletes"); b != nil && x.isStored(b, n) {
				ms.Set("md", ev.Val)
			}
		}
		if wpb := ms.Get("wpb"); wpb != nil {
			if isS(ev.Val, "Values") && x.copied(ev.Val, x.fieldV(wpbT+"Values", wpb)) {
				ms.Flag("sv")
			}
			if isS(ev.Val, "Deletes") && x.copied(ev.Val, x.fieldV(wpbT+"Deletes", wpb)) {
				ms.Flag("sd")
			}
		}
	case EvLookup:
		switch wsMap(ev.Map) {
		case "P":
			if isPBHash(ev.Key) || isS(ev.Key, "Hash") {
				ms.Set("P", ev.Map)
				ms.Set("Ph", ev.Key)
			}
		case "B":
			if isS(ev.Key, "Hash") {
				ms.Set("wpb", mkAt(ev.Map, ev.Key, ev.Map.Typ.Underlying().(*types.Map).Elem()))
				ms.Set("B", ev.Map)
			}
		}
	case EvLoopBack, EvLoopExit:
		L := loopSlot("", ev.Ctx, ev.Hdr)
		if n, ok := ms.Get("nL").StrOr(); ok && n == L {
			if ev.Kind == EvLoopBack && ms.Has("name") {
				v, d := ms.Get("mv"), ms.Get("md")
				merged := v != nil && d != nil && pb != nil && x.copied(v, x.fieldV(wpbT+"Values", pb)) && x.copied(d, x.fieldV(wpbT+"Deletes", pb))
				x.ckOn("T05", "name", con, ev, merged != ms.Has("reg"), "a sub-batch that a block names is neither merged into it nor waited for")
				x.ckOn("T05", "name.forgotten", con, ev, !ms.Has("delS") || merged, "a sub-batch is forgotten without being merged")
			}
			for _, k := range ms.Keys("cp:") {
				c := unold(ms.Get(k).Args[0])
				for _, f := range []string{"Values", "Deletes"} {
					if b := baseOf(c, sbT+f); b != nil && b.Op == "at" {
						ms.Del(k)
					}
				}
			}
			ms.DelAll("name", "reg", "mv", "md", "delS", "nL")
			return
		}
		if n, ok := ms.Get("mL").StrOr(); ok && n == L {
			end()
		}
	case EvCall:
		switch {
		case strings.HasSuffix(ev.Callee, "Conn).ReadMessage"):
			reset()
			ms.Set("mL", cStr(x.enclosingLoop(ev.Ctx, ev.Instr)))
			if ev.Res.Op == "tuple" {
				ms.Set("msg", ev.Res.Args[1])
				ms.Set("err:read", ev.Res.Args[2])
			}
		case strings.HasSuffix(ev.Callee, "rpc.NewCall"):
			l, ok := s.sliceElems(ev.Args[len(ev.Args)-1])
			is := func(i int, f string) bool {
				if !ok || len(l.Args) != 3 {
					return false
				}
				c, _, _ := x.class(unface(l.Args[i]))
				return c == wcT+f
			}
			x.ckOn("T05", "position.request", con, ev, is(1, "lastNum") && is(2, "lastHash"), "the subscription does not start at the reconnect position: %v", l)
		case ev.Callee == "json.Unmarshal":
			ms.Set("err:"+x.E.site(s.top(), ev.Instr), ev.Res)
			d := unface(ev.Args[1])
			if d.Typ != nil && shortType(d.Typ) == "*transports.resultMessage" {
				ms.Set("item", d)
			} else if d.Typ != nil && strings.HasSuffix(shortType(d.Typ), "rpc.SubscriptionResponseRaw") {
				ms.Flag("env")
				ms.Set("keep", d)
			} else {
				ms.Set("keep", d)
			}
		case ev.Callee == "(*delivery.OrderedMessageProcessor).ProcessCompleteBatch":
			started("a block is passed on")
			d := ev.Args[0]
			x.ckOn("T05", "deliver.once", con, ev, !ms.Has("delivered"), "a block is passed on twice")
			ms.Flag("delivered")
			ms.Set("dpb", d)
			if pb != nil && sameT(d, pb) {
				x.ckOn("T05", "deliver.complete", con, ev, ms.Has("namesdone") || s.Known(atomLt(mkLen(x.fieldV(tbT+"Batches", sub("Batch"))), cInt(1))), "a block is passed on before all sub-batches it names were considered")
				x.ckOn("T05", "deliver.complete", con, ev, !ms.Has("anyreg") || emptyP(), "a block is passed on although sub-batches it names are missing")
				x.blockFields(ev, pb, sub("Batch"))
			} else {
				w := ms.Get("wpb")
				x.ckOn("T05", "deliver.complete", con, ev, w != nil && sameT(d, w) && ms.Has("sv") && ms.Has("sd") && ms.Has("delN") && emptyP(), "a waiting block is passed on before its last sub-batch was merged")
			}
		case x.isReorgEntry(ev.Callee):
			started("a reorg is passed on")
			ms.bump("reorg")
			x.ckOn("T06", "reorg.args", con, ev, len(ev.Args) == 2 && isB(ev.Args[0], "Number") && isB(ev.Args[1], "Hash") && typ("reorg"), "a reorg is handled with %v", ev.Args)
		}
	case EvRecv:
		if c, _, _ := x.class(ev.Chan); c == wcT+"ready" { // it was announced before
			ms.Flag("ready")
		}
	case EvClose:
		if c, _, _ := x.class(ev.Chan); c == wcT+"ready" {
			started("readiness is announced")
			ms.Flag("ready")
			x.ckOn("T06 T13", "ready.type", con, ev, typ("ready"), "readiness is announced for another message")
		}
	}
	x.consumerMaps(ev, con, pb, isB, isS, isPBHash, emptyP, started)
}

// isReorgEntry: the ordering layer is told of a reorg (C09 decides what it
// makes of it).
func (x *Exec) isReorgEntry(callee string) bool {
	for _, fn := range x.E.P.reorgEntries() {
		if calleeName(fn) == callee {
			return true
		}
	}
	return false
}

// reorgEntries: the exported methods of the ordering layer that take the
// number and hash of a reorg.
func (p *Program) reorgEntries() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range p.repoFuncs("delivery") {
		sig := fn.Signature
		if sig.Recv() == nil || fn.Parent() != nil || shortType(sig.Recv().Type()) != "*delivery.OrderedMessageProcessor" || sig.Params().Len() != 2 || sig.Results().Len() != 0 {
			continue
		}
		if shortType(sig.Params().At(0).Type()) == "int64" && shortType(sig.Params().At(1).Type()) == "types.Hash" && token.IsExported(fn.Name()) {
			out = append(out, fn)
		}
	}
	return out
}

// consumerMaps: writes to the maps of the consumer, to a block and to the
// reconnect position.
func (x *Exec) consumerMaps(ev *Event, con string, pb *Term, isB, isS func(t *Term, f string) bool, isPBHash func(t *Term) bool, emptyP func() bool, started func(string) bool) {
	ms, s := x.MS(), x.S
	wpb := ms.Get("wpb")
	var m string
	if ev.Map != nil {
		m = wsMap(ev.Map)
	}
	ofP := func(t *Term, key func(*Term) bool) bool { // t is P[key]
		if in := ms.Get("inner"); in != nil && sameT(t, in) {
			return true
		}
		u := unold(t)
		return u.Op == "at" && wsMap(u.Args[0]) == "P" && key(u.Args[1])
	}
	subHash := func(t *Term) bool { return isS(t, "Hash") }
	name := ms.Get("name")
	switch ev.Kind {
	case EvMapUpdate:
		switch m {
		case "B":
			started("a block is kept")
			x.ckOn("T05", "keep.block", con, ev, pb != nil && isPBHash(ev.Key) && sameT(ev.Val, pb), "%v is kept for hash %v", ev.Val, ev.Key)
			if pb != nil && !ms.Has("inB") {
				x.blockFields(ev, pb, x.fieldV(rmT+"Batch", ms.Get("item")))
			}
			ms.Flag("inB")
		case "S":
			started("a sub-batch is kept")
			absent := false
			if b := ms.Get("B"); b != nil && wpb != nil {
				absent = s.KnownNot(mkHas(wpb.Args[0], wpb.Args[1])) || x.knownNil(wpb)
			}
			x.ckOn("T05", "keep.sub", con, ev, isS(ev.Key, "BatchId") && ms.Has("item") && sameT(ev.Val, x.fieldV(rmT+"SubBatch", ms.Get("item"))), "%v is kept for sub-batch %v", ev.Val, ev.Key)
			x.ckOn("T05", "keep.sub", con, ev, absent, "a sub-batch is kept although its block waits for it")
			ms.Flag("inS")
		case "P":
			started("the waiting list changes")
			x.ckOn("T05", "wait.list", con, ev, pb != nil && isPBHash(ev.Key) && x.emptyMap(ev.Val), "the waiting list of %v becomes %v", ev.Key, ev.Val)
			ms.Flag("resetP")
			ms.Set("inner", ev.Val)
			ms.Set("P", ev.Map)
			ms.Set("Ph", ev.Key)
			ms.DelAll("anyreg", "wasempty")
		case "N":
			started("the waiting list changes")
			x.ckOn("T05", "wait.list", con, ev, name != nil && sameT(ev.Key, name) && ofP(ev.Map, isPBHash), "%v is added to the waiting list %v", ev.Key, ev.Map)
			ms.Flag("reg")
			ms.Flag("anyreg")
		case "values", "deletes":
			f := "Values"
			if m == "deletes" {
				f = "Deletes"
			}
			ok := x.inCopy(ev, func(c *Term) bool {
				if isB(c, f) || isS(c, f) {
					return true
				}
				b := baseOf(unold(c), sbT+f)
				return b != nil && name != nil && x.isStored(b, name)
			})
			into := ok
			if pb != nil {
				into = into && sameT(ev.Map, x.fieldV(wpbT+f, pb))
			} else if wpb != nil {
				into = into && sameT(ev.Map, x.fieldV(wpbT+f, wpb))
			}
			x.ckOn("T05 T06", "content", con, ev, into, "%v is set to %v in %v", ev.Key, ev.Val, ev.Map)
		}
	case EvMapDelete:
		switch m {
		case "B":
			started("a block is forgotten")
			if pb != nil {
				x.ckOn("T05", "forget.block", con, ev, isPBHash(ev.Key) && !ms.Has("delivered") && !ms.Has("reg") || isPBHash(ev.Key) && emptyP(), "the block %v is forgotten", ev.Key)
				ms.Del("inB")
				ms.Flag("noB")
			} else {
				x.ckOn("T05", "forget.block", con, ev, subHash(ev.Key) && emptyP(), "a block is forgotten although sub-batches it names are missing")
				ms.Flag("delB")
			}
		case "S":
			started("a sub-batch is forgotten")
			if name != nil && sameT(ev.Key, name) {
				ms.Flag("delS")
			} else {
				x.ckOn("T05", "forget.sub", con, ev, isS(ev.Key, "BatchId") && !ms.Has("inS"), "the sub-batch %v is forgotten", ev.Key)
			}
		case "P":
			started("the waiting list changes")
			ok := (pb != nil && isPBHash(ev.Key) || pb == nil && subHash(ev.Key))
			x.ckOn("T05", "wait.list", con, ev, ok && (emptyP() || pb != nil && !ms.Has("anyreg")), "the waiting list of %v is dropped", ev.Key)
			ms.Flag("wasempty")
			if pb != nil {
				ms.Flag("resetP")
			}
		case "N":
			started("the waiting list changes")
			x.ckOn("T05", "wait.list", con, ev, pb == nil && isS(ev.Key, "BatchId") && ofP(ev.Map, subHash), "%v is removed from the waiting list %v", ev.Key, ev.Map)
			ms.Flag("delN")
		case "values", "deletes":
			x.ckOn("T05 T06", "content", con, ev, false, "%v is removed from %v", ev.Key, ev.Map)
		}
	case EvStore:
		if ev.Addr.Op != "&f" {
			return
		}
		b := ev.Addr.Args[0]
		switch ev.Addr.Name {
		case wpbT + "Hash":
			if isFreshObj(b) && isB(ev.Val, "Hash") {
				ms.Set("pb", b)
			}
		case wcT + "lastNum", wcT + "lastHash":
			started("the reconnect position moves")
			f, n := "Number", "ln"
			if ev.Addr.Name == wcT+"lastHash" {
				f, n = "Hash", "lh"
			}
			v := unface(ev.Val)
			var o *Term
			switch {
			case pb != nil && (isB(ev.Val, f) || structField(v, wpbT+f, pb)):
				o = pb
			case wpb != nil && (structField(v, wpbT+f, wpb) || f == "Hash" && subHash(ev.Val)):
				o = wpb
			}
			x.ckOn("T05", "position.block", con, ev, o != nil, "the reconnect position is moved to %v", ev.Val)
			if o != nil {
				ms.Set(n, o)
			}
			none := false
			for f := range s.fresh {
				none = none || wsMap(f) == "B"
			}
			for fct, val := range s.facts {
				if val && fct.Op == "lt" && fct.Args[0].Op == "len" && wsMap(fct.Args[0].Args[0]) == "B" && s.Known(fct) {
					none = true
				}
			}
			x.ckOn("T05", "position.waiting", con, ev, none, "the reconnect position moves although blocks before it may wait for sub-batches")
		}
	}
}

// emptyMap: a map without entries.
func (x *Exec) emptyMap(t *Term) bool {
	return t.IsNil() || x.S.fresh[t] || x.S.Known(atomLt(mkLen(t), cInt(1)))
}

// blockFields: the block carries what its message does.
func (x *Exec) blockFields(ev *Event, pb, tb *Term) {
	con := "block decoded from a block message"
	is := func(t *Term, f string) bool { return structField(unface(t), tbT+f, tb) }
	for _, f := range []string{"Number", "Hash", "ParentHash"} {
		v := x.fieldV(wpbT+f, pb)
		x.ckOn("T06", "decode."+f, con, ev, is(v, f), "the %s of a block is decoded as %v", f, v)
	}
	w := unold(x.fieldV(wpbT+"Weight", pb))
	ok := is(w, "Weight")
	if w.Op == "call" && strings.HasSuffix(w.Name, "hexutil.Big).ToInt") {
		ok = is(w.Args[0], "Weight")
	}
	x.ckOn("T06", "decode.Weight", con, ev, ok, "the weight of a block is decoded as %v", w)
	for _, f := range []string{"Values", "Deletes"} {
		v := x.fieldV(wpbT+f, pb)
		x.ckOn("T05 T06", "decode."+f, con, ev, isFreshObj(v) && x.copied(x.fieldV(tbT+f, tb), v), "not all %s of a block message are copied", strings.ToLower(f))
	}
}

func isFlagAddr(a *Term) bool {
	return a.Op == "fv" || a.Op == "alloc" || a.Op == "&f" && strings.HasPrefix(a.Name, wcT)
}

// announced: a flag is set that is only ever set when readiness is announced.
func (x *Exec) announced() bool {
	for f, v := range x.S.facts {
		if v && f.Op == "ld" && isFlagAddr(f.Args[0]) {
			return true
		}
		// a flag of the goroutine's own, or a Once that is done
		if v && (f.Op == "phi" && f.Typ == types.Typ[types.Bool] || f.Op == "call" && f.Name == "once") {
			return true
		}
	}
	for k, v := range x.S.mem {
		if k.Op == "ld" && v != nil && v.isTrue() && isFlagAddr(k.Args[0]) {
			return true
		}
	}
	for _, fr := range x.S.frames {
		for k, v := range fr.env {
			if p, ok := k.(*ssa.Phi); ok && v != nil && v.isTrue() && p.Comment != "&&" && p.Comment != "||" {
				return true
			}
		}
	}
	return false
}

// baseOf: t is base.<class>.
func baseOf(t *Term, class string) *Term {
	switch t.Op {
	case "fld":
		if t.Name == class {
			return t.Args[0]
		}
	case "ld":
		if t.Args[0].Op == "&f" && t.Args[0].Name == class {
			return t.Args[0].Args[0]
		}
	}
	return nil
}

// isStored: b is the sub-batch kept under name n.
func (x *Exec) isStored(b, n *Term) bool {
	b = unold(b)
	return b.Op == "at" && wsMap(b.Args[0]) == "S" && sameT(b.Args[1], n)
}
func init() {
	for _, p := range []string{"T05", "T06"} {
		p := p
		o6 := &runOpts{forall: []string{"-"}}
		register(p, func(c *Ctx) {
			f := consumerLoop(c)
			if f == nil {
				return
			}
			c.FlowFn(f, monConsumer, &runOpts{noInline: func(f *ssa.Function) bool { return pkgOf(f) == "delivery" }, forall: []string{"-"}, irrelevant: []string{wcT + "conn", wcT + "quit", wcT + "lastNum", wcT + "lastHash"}})
			if p == "T06" {
				c.Flow("transports.websocketProducer.AddBlock", monWsAddBlock, o6)
				c.Flow("transports.websocketProducer.SendBatch", monWsSendBatch, o6)
				c.Flow("transports.websocketProducer.Reorg", monWsReorg, o6)
				c.Flow("transports.websocketStreamsService.StreamsBlock", monStreamsBlock, o6)
				if h := historyRoot(c); h != nil {
					c.FlowFn(h, monHistory, o6)
				}
				c.Flow("transports.TransportBatch.ToPendingBatch", func(x *Exec, ev *Event) {
					x.trackCopies(ev, isData)
					if ev.Kind == EvExit {
						x.blockFields(ev, unold(ev.Args[0]), rootParam(x, 0))
					}
				}, o6)
				for _, w := range c.P.writesTo(rmT + "Type") {
					v, _ := w.Val.(*ssa.Const)
					ok := false
					t := "?"
					if v != nil && v.Value != nil && v.Value.Kind() == constant.String {
						t = constant.StringVal(v.Value)
						ok = t == "batch" || t == "subbatch" || t == "reorg" || t == "ready"
					}
					if v == nil {
						continue // given by the caller: the senders are checked one by one
					}
					c.Oblige("type.handled", "message type "+t, w.In.Pos(), ok, nil, "messages of type %s are sent, for which the consumer has no handler", t)
				}
				wireStructs(c)
				c.Min("type.handled", 1)
				c.Min("handled", 4)
				for _, n := range []string{"encode.Number", "encode.Hash", "encode.ParentHash", "encode.Weight", "encode.Batches"} {
					c.Min(n, 3)
				}
				c.Min("encode.Values", 4)
				c.Min("encode.Deletes", 4)
				c.Min("send.once", 3)
				c.Min("history.all", 1)
				c.Min("decode.Values", 1)
				c.Min("reorg.args", 1)
				c.Min("content", 1)
			}
			if p == "T05" {
				c.Flow("transports.newWebsocketConsumer", func(x *Exec, ev *Event) {
					if ev.Kind != EvExit || x.knownNonNil(ev.Args[1]) {
						return
					}
					o := unface(ev.Args[0])
					for i, f := range []string{"omp", "", "lastNum", "lastHash"} {
						if f != "" {
							v := x.fieldV(wcT+f, o)
							x.Check("position.start", "fields of a new consumer, "+f, ev, sameT(unface(v), rootParam(x, i)), "%s starts as %v", f, v)
						}
					}
				}, o6)
				c.Min("position.request", 1)
				for _, r := range []string{"decoded", "block.fate", "block.stale", "sub.fate", "sub.deliver", "position.pair", "position.block", "position.waiting", "name", "deliver.complete", "keep.block", "keep.sub", "wait.list", "content", "forget.block"} {
					c.Min(r, 1)
				}
			}
		})
	}
	if os.Getenv("CHK_EV") != "" {
		register("EV", func(c *Ctx) {
			f := consumerLoop(c)
			if os.Getenv("CHK_EV") != "1" {
				n, k, _ := strings.Cut(os.Getenv("CHK_EV"), "#")
				f = c.Fn(n)
				if k != "" {
					f = goRoots(f)[int(k[0]-'0')]
				}
			}
			c.FlowFn(f, dumpEvents, &runOpts{noInline: func(g *ssa.Function) bool { return pkgOf(g) == "delivery" || g.Name() == "Start" }, forall: []string{"-"}})
		})
	}
}
