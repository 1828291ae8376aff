package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Producer rules: what AddBlock and SendBatch emit, count, register and return.

const (
	prT  = "delivery.Producer."
	rpT  = "delivery.regexpPair."
	btT  = "delivery.Batch."
	brT  = "delivery.BatchRecord."
	sbrT = "delivery.SubBatchRecord."
)

// keyParts resolves a message key to its type and components.
func (x *Exec) keyParts(t *Term) (int64, []*Term, bool) {
	if t == nil {
		return 0, nil, false
	}
	switch {
	case t.Op == "call" && strings.HasSuffix(t.Name, "MessageType).GetKey") && len(t.Args) >= 1:
		n, ok := t.Args[0].Int()
		if !ok {
			return 0, nil, false
		}
		if len(t.Args) == 1 || t.Args[1].IsNil() {
			return n, nil, true
		}
		if t.Args[1].Op == "list" {
			return n, t.Args[1].Args, true
		}
		if l, ok := x.S.sliceElems(t.Args[1]); ok {
			return n, l.Args, true
		}
	case t.Op == "append":
		n, ps, ok := x.keyParts(t.Args[0])
		if ok {
			return n, append(append([]*Term{}, ps...), t.Args[1]), true
		}
	}
	return 0, nil, false
}

// hashBytes: t is the 32 bytes of hash h.
func hashBytes(t *Term) (*Term, bool) {
	if t != nil && t.Op == "call" && (t.Name == "(types.Hash).Bytes" || t.Name == "(*types.Hash).Bytes") {
		return t.Args[0], true
	}
	return nil, false
}

func isBytesOf(t, k *Term) bool {
	return t != nil && (t.Op == "conv" && sameT(t.Args[0], k) || sameT(t, k))
}

func isMessageType(t types.Type) bool {
	if t == nil {
		return false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && (n.Obj().Name() == "message" || n.Obj().Name() == "Message") && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == "delivery"
}

func isMessageSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && isMessageType(s.Elem())
}

// trackEncode records what was encoded into which byte slice.
func trackEncode(x *Exec, ev *Event) {
	if ev.Kind != EvCall || ev.Callee != "avro.Marshal" || len(ev.Args) != 2 || ev.Res == nil || ev.Res.Op != "tuple" {
		return
	}
	ms := x.MS()
	p := fmt.Sprintf("enc:%d:", ev.Res.Args[0].id)
	ms.Set(p+"data", ev.Res.Args[0])
	ms.Set(p+"schema", ev.Args[0])
	ms.Set(p+"obj", ev.Args[1])
	ms.Set(p+"err", ev.Res.Args[1])
}

// encoded: t is the successful encoding of an object.
func (x *Exec) encoded(t *Term) (schema, obj *Term, ok bool) {
	ms := x.MS()
	for _, k := range ms.Keys("enc:") {
		if !strings.HasSuffix(k, ":data") || !sameT(ms.Get(k), t) {
			continue
		}
		p := strings.TrimSuffix(k, "data")
		return ms.Get(p + "schema"), ms.Get(p + "obj"), x.S.Known(atomEq(ms.Get(p+"err"), cNil()))
	}
	return nil, nil, false
}

// avroInt: t is the avro encoding of integer n.
func (x *Exec) avroInt(t *Term) (*Term, bool) {
	sc, o, ok := x.encoded(t)
	if ok && isGlobal(sc, "delivery.intSchema") {
		return o, true
	}
	return nil, false
}

// schemaField: t is field f (topic or regexp) of an element of p.schema; returns the element.
func (x *Exec) schemaField(t *Term, f string) (*Term, bool) {
	t = unold(t)
	if t.Op == "fld" && t.Name == rpT+f {
		e := t.Args[0]
		if e.Op == "ld" && e.Args[0].Op == "&i" {
			if c, _, _ := x.class(e.Args[0].Args[0]); c == prT+"schema" {
				return e, true
			}
		}
	}
	if t.Op == "ld" && t.Args[0].Op == "&f" && t.Args[0].Name == rpT+f {
		a := t.Args[0].Args[0]
		if a.Op == "&i" {
			if c, _, _ := x.class(a.Args[0]); c == prT+"schema" {
				return mk("ld", "", nil, a), true
			}
		}
	}
	return nil, false
}

// matchOf: t is FindString(r.regexp, key) for a schema entry r; returns r.
func (x *Exec) matchOf(t, key *Term) (*Term, bool) {
	t = unold(t)
	if t.Op == "call" && t.Name == "(*regexp.Regexp).FindString" && len(t.Args) == 2 && sameT(t.Args[1], key) {
		return x.schemaField(t.Args[0], "regexp")
	}
	return nil, false
}

// noMatch: no schema entry matches key.
func (x *Exec) noMatch(key *Term) bool {
	ok := false
	seen := map[*Term]bool{}
	try := func(c *Term) {
		if ok || seen[c] {
			return
		}
		seen[c] = true
		if cl, _, _ := x.class(c); cl != prT+"schema" {
			return
		}
		if v, k := x.S.Query(atomLt(mkLen(c), cInt(1))); k && v {
			ok = true
			return
		}
		ok = x.forallHolds(c, func(n *State, e, k *Term) bool {
			for f, v := range n.facts {
				if m := emptyFind(f); m != nil && v && sameT(m.Args[1], key) {
					if r := m.Args[0]; r.Contains(e) || r.Op == "ld" && r.Contains(k) {
						return true
					}
				}
				if f.Op == "call" && !v && strings.HasPrefix(f.Name, "(*regexp.Regexp).Match") && isBytesOf(f.Args[1], key) && f.Args[0].Contains(e) {
					return true
				}
			}
			return false
		})
	}
	for f, v := range x.S.facts {
		if f.Op == "forall" && v {
			try(f.Args[0])
		}
		if f.Op == "lt" && f.Args[0].Op == "len" {
			try(f.Args[0].Args[0])
		}
	}
	return ok
}

// emptyFind: f says that FindString found nothing; returns the call.
func emptyFind(f *Term) *Term {
	if f.Op == "lt" && f.Args[0].Op == "len" && f.Args[0].Args[0].Op == "call" && f.Args[0].Args[0].Name == "(*regexp.Regexp).FindString" {
		if n, ok := f.Args[1].Int(); ok && n == 1 {
			return f.Args[0].Args[0]
		}
	}
	if f.Op == "eq" {
		for i := 0; i < 2; i++ {
			if m := f.Args[i]; m.Op == "call" && m.Name == "(*regexp.Regexp).FindString" && f.Args[1-i].IsZero() {
				return m
			}
		}
	}
	return nil
}

// recField: field i of a BatchRecord value.
func recField(v *Term, class string) *Term {
	if v.Op == "ld" && v.Args[0].Op == "alloc" {
		return nil
	}
	idx := map[string]int{"Value": 0, "Count": 1, "Subbatch": 2, "Delete": 3}[class]
	typ := v.Typ
	if st, ok := isStruct(typ); ok {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == class {
				return fieldOf(v, brT+class, i, st.Field(i).Type())
			}
		}
	}
	return fieldOf(v, brT+class, idx, nil)
}

func zeroT(t *Term) bool { return t == nil || t.IsZero() || t.IsNil() }

type prodParams struct{ p, number, hash, parent, weight, updates, deletes, batches *Term }

func (x *Exec) fnEv(ev *Event) string {
	if ev.Fn != nil {
		return calleeName(ev.Fn)
	}
	return "?"
}

// param finds the parameter value of the root function by position.
func rootParam(x *Exec, i int) *Term {
	if i < len(x.E.Root.Params) {
		return x.S.frames[0].env0(x, i)
	}
	return junkT
}

func (f *Frame) env0(x *Exec, i int) *Term {
	return mkParam("param", x.E.Root.Params[i].Name(), x.E.Root.Params[i].Type())
}

// sameList compares slices up to the way an empty one is written.
func (x *Exec) normSlice(t *Term) *Term {
	if t == nil {
		return nil
	}
	if l, ok := x.S.sliceElems(t); ok {
		if len(l.Args) == 0 {
			return mk("list", "", nil)
		}
		return l
	}
	if t.Op == "mkslice" {
		if n, ok := t.Args[0].Int(); ok && n == 0 {
			return mk("list", "", nil)
		}
	}
	if t.Op == "slice" && t.Args[2].Name != "none" {
		if n, ok := t.Args[2].Int(); ok && n == 0 {
			return mk("list", "", nil)
		}
	}
	return t
}

// newElems: what a call of append adds.
func (x *Exec) newElems(ev *Event) (base *Term, els []*Term, ok bool) {
	if ev.Kind != EvCall || ev.Callee != "builtin append" || len(ev.Args) == 0 {
		return nil, nil, false
	}
	if len(ev.Args) == 1 {
		return ev.Args[0], nil, true
	}
	l, ok := x.S.sliceElems(ev.Args[1])
	if !ok {
		return ev.Args[0], nil, false
	}
	return ev.Args[0], l.Args, true
}

func (x *Exec) ckp(rule, construct string, ev *Event, ok bool, f string, a ...interface{}) {
	x.Check(rule, construct, ev, ok, f, a...)
}

func on(c *Ctx, ids string) bool {
	for _, i := range strings.Fields(ids) {
		if i == c.Prop {
			return true
		}
	}
	return false
}

// ck evaluates an obligation when the property being checked is among ids.
func (x *Exec) ckOn(ids, rule, construct string, ev *Event, ok bool, f string, a ...interface{}) {
	if on(x.E.C, ids) {
		x.Check(rule, construct, ev, ok, f, a...)
	}
}

// appendOf: is the event a growing of a []Message?
func isMsgAppend(ev *Event) bool {
	if ev.Kind != EvCall || ev.Callee != "builtin append" {
		return false
	}
	v, ok := ev.Instr.(ssa.Value)
	return ok && isMessageSlice(v.Type())
}

// monAddBlock: P01, P03, P04, P05 over Producer.AddBlock.
func monAddBlock(x *Exec, ev *Event) {
	trackEncode(x, ev)
	ms := x.MS()
	s := x.S
	hash, parent := rootParam(x, 2), rootParam(x, 3)
	srcs := map[string]*Term{"upd": rootParam(x, 5), "del": rootParam(x, 6), "bat": rootParam(x, 7)}
	fn := x.fnEv(ev)
	src := func(c *Term) string {
		for n, t := range srcs {
			if sameT(c, t) {
				return n
			}
		}
		if cm := ms.Get("counts"); cm != nil && sameT(c, cm) {
			return "cnt"
		}
		if st := ms.Get("stage"); st != nil && sameT(c, st) {
			return "stg"
		}
		return ""
	}
	cname := map[string]string{"upd": "updates", "del": "deletes", "bat": "sub-batches", "cnt": "counts", "stg": "registered sub-batches"}
	iter := []string{"k", "v", "kind", "n", "n+", "cn", "cn+", "hd", "hd+", "bi", "r", "cr", "ck", "stg"}
	isCountMap := func(m *Term) bool {
		t := m.Typ
		if t == nil {
			return false
		}
		mt, ok := t.Underlying().(*types.Map)
		return ok && types.Identical(mt.Key(), types.Typ[types.String]) && isIntType(mt.Elem())
	}
	recMap := func(m *Term) bool { c, _, _ := x.class(m); return c == btT+"Updates" }
	topicMap := func(m *Term) bool {
		if m == nil || m.Typ == nil {
			return false
		}
		mt, ok := m.Typ.Underlying().(*types.Map)
		return ok && isMessageSlice(mt.Elem())
	}
	pendClass := func(m *Term) bool { c, _, _ := x.class(m); return c == prT+"pendingBatches" }
	isInfo := func(m *Term) bool {
		if m == nil || m.Typ == nil {
			return false
		}
		mt, ok := m.Typ.Underlying().(*types.Map)
		return ok && strings.HasSuffix(shortType(mt.Elem()), "delivery.batchInfo")
	}
	defTopic := func(t *Term) bool {
		t = unold(t)
		return t.Op == "ld" && t.Args[0].Op == "&f" && t.Args[0].Name == prT+"defaultTopic" && t.Args[0].Args[0] == rootParam(x, 0)
	}
	sameEntry := func() {
		if r, cr := ms.Get("r"), ms.Get("cr"); r != nil && cr != nil {
			x.ckOn("P01", "matched.topic", cname[kindOf(ms)]+" with schema entry", ev, sameT(r, cr), "an entry is counted under the prefix of one schema entry and emitted on the topic of another")
		}
	}
	if cm := ms.Get("counts"); ev.Kind == EvRangeStart && cm == nil && isCountMap(ev.Val) && ev.Val.Op == "mkmap" {
		ms.Set("counts", ev.Val) // nothing was counted on this path
	}
	switch ev.Kind {
	case EvRangeKey:
		k := src(ev.Val)
		if k == "" || ms.Has("kind") {
			return
		}
		ms.Flag(loopSlot("L"+k, ev.Ctx, ev.Hdr))
		for _, n := range iter {
			ms.Del(n)
		}
		ms.Set("k", ev.Key)
		ms.Set("v", ev.Res)
		ms.Set("kind", cStr(k))
		if k == "cnt" {
			ms.Flag("counted")
		}
		return
	case EvRangeDone:
		if k := src(ev.Val); k != "" {
			if k == "cnt" || k == "stg" {
				ms.Flag("done:" + k)
				return
			}
			// a pass over the entries does each of its duties for all of them or for none
			for _, d := range []struct{ n, rule, what string }{{"act", "each", "processed"}, {"hd", "subbatch", "announced in the header"}, {"reg", "register.each", "registered"}, {"z", "zero", "compared with the zero identifier"}} {
				y, n := ms.Has("y:"+k+":"+d.n), ms.Has("n:"+k+":"+d.n)
				if d.n == "z" {
					if !n {
						ms.Flag("done:" + k + ":z")
					}
				} else {
					x.ckOn("P01", d.rule, cname[k]+" processed in "+fn, ev, !(y && n), "some %s are not %s", cname[k], d.what)
					if d.n == "reg" {
						x.ckOn("P02", d.rule, cname[k]+" processed in "+fn, ev, !(y && n), "some %s are not %s", cname[k], d.what)
					}
					if y || !n {
						ms.Flag("done:" + k + ":" + d.n)
					}
				}
			}
			ms.DelPrefix("y:" + k)
			ms.DelPrefix("n:" + k)
		}
	case EvLoopBack, EvLoopExit:
		for _, k := range []string{"upd", "del", "bat", "cnt", "stg"} {
			if !ms.Has(loopSlot("L"+k, ev.Ctx, ev.Hdr)) {
				continue
			}
			if ev.Kind == EvLoopBack {
				x.addBlockIter(ev, k, fn, defTopic)
			}
			for _, n := range iter {
				ms.Del(n)
			}
			ms.DelPrefix("enc:")
			ms.Del("last")
			ms.Del(loopSlot("L"+k, ev.Ctx, ev.Hdr))
		}
		return
	case EvStore:
		if ev.Addr.Op == "&f" && strings.HasPrefix(ev.Addr.Name, btT) && ms.Has("hdr") {
			x.ckOn("P01 P05", "header", "block header is complete when it is encoded", ev, false, "the block header is changed after it was encoded")
		}
		if ev.Addr.Op == "&f" && strings.HasPrefix(ev.Addr.Name, prT) {
			x.ckOn("P04", "state", "producer state written in "+fn, ev, false, "adding a block changes %s of the producer", ev.Addr.Name)
		}
		return
	case EvMapUpdate:
		switch {
		case recMap(ev.Map):
			x.ckOn("P01 P05", "header", "block header is complete when it is encoded", ev, !ms.Has("hdr"), "an entry is added to the block header after it was encoded")
			kind, _ := ms.Get("kind").StrOr()
			key := ms.Get("k")
			rec := ev.Val
			val, cnt, sub, del := recField(rec, "Value"), recField(rec, "Count"), recField(rec, "Subbatch"), recField(rec, "Delete")
			ok := key != nil && sameT(ev.Key, key)
			x.ckOn("P01 P03 P05", "entry.key", "header entries written in "+fn+" for "+cname[kind], ev, ok, "a header entry is stored under %v, which is not the key being processed", ev.Key)
			switch kind {
			case "upd":
				x.ckOn("P01 P05", "entry.value", "unmatched update in the header in "+fn, ev, sameT(val, ms.Get("v")) && zeroT(cnt) && zeroT(sub) && del.isFalse(), "an update without schema entry is not announced as exactly its value")
			case "del":
				x.ckOn("P01 P05", "entry.delete", "unmatched deletion in the header in "+fn, ev, zeroT(val) && zeroT(cnt) && zeroT(sub) && del.isTrue(), "a deletion without schema entry is not announced as exactly a deletion")
			case "bat":
				x.ckOn("P01 P05", "entry.subbatch", "sub-batch in the header in "+fn, ev, zeroT(val) && zeroT(cnt) && sameT(sub, ms.Get("v")) && del.isFalse(), "a sub-batch is not announced with exactly its identifier")
			case "cnt":
				x.ckOn("P01 P05", "entry.count", "message count in the header in "+fn, ev, zeroT(val) && sameT(cnt, ms.Get("v")) && zeroT(sub) && del.isFalse(), "a message count is not announced as exactly the number counted: %v typ %v sub %v cnt %v del %v", rec, rec.Typ, sub, cnt, del)
			}
			// collisions
			other := false
			for _, k := range ms.Keys("wrote:") {
				if k != "wrote:"+kind {
					other = true
				}
			}
			x.ckOn("P04", "collision", "header entry for "+cname[kind]+" in "+fn, ev, !other || s.KnownNot(mkHas(ev.Map, ev.Key)), "a header entry may replace another one with the same key")
			ms.Flag("wrote:" + kind)
			ms.linInc("hd", 1)
			ms.bump("hd")
			return
		case topicMap(ev.Map):
			v := x.normSlice(ev.Val)
			if l := ms.Get("last"); l != nil && sameT(ev.Val, l) {
				ms.Del("last")
				base := x.normSlice(ms.Get("lbase"))
				cur := x.normSlice(s.readMap(ev.Map, ev.Key, nil))
				if zeroT(cur) {
					cur = mk("list", "", nil)
				}
				if zeroT(base) {
					base = mk("list", "", nil)
				}
				x.ckOn("P01", "bundle", "messages kept in "+fn, ev, sameT(base, cur) || base == cur, "the messages already collected for a topic are replaced")
				kind, _ := ms.Get("lkind").StrOr()
				switch kind {
				case "upd", "del":
					r := ms.Get("r")
					if e, ok := x.schemaField(ev.Key, "topic"); ok && r == nil {
						ms.Set("r", e)
						sameEntry()
					} else {
						x.ckOn("P01", "topic", "topic of the message for "+cname[kind]+" in "+fn, ev, false, "a message goes to topic %v, which is not the topic of a schema entry", ev.Key)
					}
				case "hdr":
					x.ckOn("P01 P05", "topic", "topic of the block header in "+fn, ev, defTopic(ev.Key), "the block header goes to topic %v instead of the default topic", ev.Key)
				}
				if t := ms.Get("tm"); t == nil {
					ms.Set("tm", ev.Map)
				} else {
					x.ckOn("P01", "bundle", "one bundle in "+fn, ev, sameT(t, ev.Map), "messages are collected in different bundles")
				}
				return
			}
			empty := v.Op == "list" && len(v.Args) == 0 || v.IsNil()
			cur := x.normSlice(s.readMap(ev.Map, ev.Key, nil))
			absent := s.fresh[ev.Map] || s.KnownNot(mkHas(ev.Map, ev.Key)) || zeroT(cur) || cur.Op == "list" && len(cur.Args) == 0
			x.ckOn("P01", "bundle", "messages kept in "+fn, ev, empty && absent, "the messages collected for a topic are set to %v", ev.Val)
			return
		case pendClass(ev.Map):
			kind, _ := ms.Get("kind").StrOr()
			switch kind {
			case "bat":
				x.ckOn("P01 P02", "register", "sub-batch registered in "+fn, ev, sameT(ev.Key, ms.Get("v")), "a sub-batch is registered under %v, not under its identifier", ev.Key)
				ms.Set("bi", ev.Val)
				ms.Flag("eff")
			case "stg":
				x.ckOn("P01 P02", "register", "sub-batch registered in "+fn, ev, sameT(ev.Key, ms.Get("k")) && sameT(ev.Val, ms.Get("v")), "a sub-batch is registered as something else than what was prepared for it")
				ms.Flag("stg")
				ms.Flag("eff")
			default:
				x.ckOn("P04 P02", "register", "sub-batch registered in "+fn, ev, false, "a sub-batch is registered outside of the processing of the sub-batches")
				ms.Flag("eff")
			}
			return
		case isInfo(ev.Map):
			if k, _ := ms.Get("kind").StrOr(); k == "bat" {
				x.ckOn("P01 P02", "register", "sub-batch prepared in "+fn, ev, sameT(ev.Key, ms.Get("v")), "a sub-batch is registered under %v, not under its identifier", ev.Key)
				ms.Set("bi", ev.Val)
				ms.Set("stage", ev.Map)
			}
			return
		case isCountMap(ev.Map):
			old := s.readMap(ev.Map, ev.Key, types.Typ[types.Int])
			inc := sameT(ev.Val, mkBin("+", old, cInt(1), types.Typ[types.Int]))
			x.ckOn("P01", "count.step", "messages counted in "+fn, ev, inc, "a count is set to %v, not increased by one", ev.Val)
			x.ckOn("P01", "count.late", "counts complete when announced in "+fn, ev, !ms.Has("counted") && !ms.Has("done:cnt"), "a message is counted after the counts were announced")
			ms.bump("cn")
			ms.Set("counts", ev.Map)
			key := ms.Get("k")
			if key != nil {
				if r, ok := x.matchOf(ev.Key, key); ok {
					ms.Set("cr", r)
					x.ckOn("P01", "matched.prefix", cname[kindOf(ms)]+" with schema entry", ev, s.KnownNot(atomLt(mkLen(ev.Key), cInt(1))), "an entry is counted under a prefix that was not matched")
					sameEntry()
					return
				}
			}
			x.ckOn("P01", "count.key", "messages counted in "+fn, ev, false, "a message is counted under %v, which is not the prefix matched by a schema entry", ev.Key)
			return
		}
		return
	case EvMapDelete:
		if pendClass(ev.Map) {
			ms.Flag("eff")
			x.ckOn("P04 P02", "register", "sub-batch forgotten in "+fn, ev, false, "adding a block forgets a sub-batch")
		}
		if recMap(ev.Map) || topicMap(ev.Map) || isCountMap(ev.Map) {
			x.ckOn("P01 P04", "bundle", "nothing is dropped in "+fn, ev, false, "an announced entry, a count or a message is deleted again")
		}
		return
	}
	if isMsgAppend(ev) {
		base, els, ok := x.newElems(ev)
		x.ckOn("P01 P05", "message", "messages built in "+fn, ev, ok && len(els) == 1, "messages are added to the bundle in a way the analysis cannot follow")
		if !ok || len(els) != 1 {
			return
		}
		m := els[0]
		key, val := x.fieldV("delivery.message.key", m), x.fieldV("delivery.message.value", m)
		typ, parts, kok := x.keyParts(key)
		kind := ""
		kd, _ := ms.Get("kind").StrOr()
		k := ms.Get("k")
		ct := func(n string) int64 { v, _ := x.E.P.constInt("delivery", n); return v }
		blk := false
		if len(parts) > 0 {
			h, hok := hashBytes(parts[0])
			blk = hok && sameT(h, hash)
		}
		switch {
		case kok && kd == "upd" && typ == ct("BatchMsgType"):
			kind = "upd"
			x.ckOn("P01 P03 P05", "message.key", "message for an update in "+fn, ev, blk && len(parts) == 2 && isBytesOf(parts[1], k), "the key of the message for an update is %v", key)
			x.ckOn("P01 P03 P05", "message.value", "message for an update in "+fn, ev, sameT(val, ms.Get("v")), "the message for an update carries %v instead of its value", val)
		case kok && kd == "del" && typ == ct("BatchDeleteMsgType"):
			kind = "del"
			x.ckOn("P01 P03 P05", "message.key", "message for a deletion in "+fn, ev, blk && len(parts) == 2 && isBytesOf(parts[1], k), "the key of the message for a deletion is %v", key)
			x.ckOn("P01 P03 P05", "message.value", "message for a deletion in "+fn, ev, zeroT(val), "the message for a deletion carries a value %v", val)
		case kok && kd == "" && typ == ct("BatchType"):
			kind = "hdr"
			x.ckOn("P01 P03 P05", "message.key", "block header in "+fn, ev, blk && len(parts) == 1, "the key of the block header is %v", key)
			x.ckOn("P01", "header", "one block header", ev, !ms.Has("hdr2"), "a second block header is emitted")
			ms.Flag("hdr2")
			sc, b, eok := x.encoded(val)
			x.ckOn("P01 P05", "message.value", "block header in "+fn, ev, eok && isGlobal(sc, "delivery.batchSchema") && ms.Has("hdr") && sameT(b, ms.Get("hdr")), "the value of the block header is not the encoded block")
		default:
			x.ckOn("P01 P05", "message.key", "messages built in "+fn, ev, false, "a message with key %v is emitted for %s", key, cname[kd])
		}
		if kind == "upd" || kind == "del" {
			ms.bump("n")
		}
		x.ckOn("P01", "bundle", "messages added in "+fn, ev, !ms.Has("last"), "a message is built but not put into the bundle")
		ms.Set("last", ev.Res)
		ms.Set("lbase", base)
		ms.Set("lkind", cStr(kind))
		return
	}
	if ev.Kind == EvCall && ev.Callee == "avro.Marshal" && isGlobal(ev.Args[0], "delivery.batchSchema") {
		b := ev.Args[1]
		for _, k := range []string{"upd", "del", "bat"} {
			d := map[string]string{"upd": ":act", "del": ":act", "bat": ":hd"}[k]
			x.ckOn("P01", "header", "block header announces all "+cname[k], ev, ms.Has("done:"+k+d) || zeroT(srcs[k]) || s.Known(atomLt(mkLen(srcs[k]), cInt(1))), "the block header is encoded before all %s were processed", cname[k])
		}
		x.ckOn("P01", "header", "block header announces all counts", ev, ms.Has("done:cnt"), "the block header is encoded before all counts were announced")
		f := func(n string) *Term { return x.fieldV(btT+n, b) }
		x.ckOn("P01 P05", "field", "number in the block header", ev, sameT(f("Number"), rootParam(x, 1)), "the block header carries number %v", f("Number"))
		x.ckOn("P01 P05", "field", "parent in the block header", ev, sameT(f("ParentHash"), parent), "the block header carries parent %v", f("ParentHash"))
		w := f("Weight")
		x.ckOn("P01 P05", "field", "weight in the block header", ev, w.Op == "call" && strings.HasSuffix(w.Name, "Bytes") && len(w.Args) == 1 && sameT(w.Args[0], rootParam(x, 4)), "the block header carries weight %v", w)
		ms.Set("hdr", b)
		return
	}
	if ev.Kind == EvExit && len(ev.Args) == 2 {
		res, err := ev.Args[0], ev.Args[1]
		failed := !s.Known(atomEq(err, cNil()))
		if err.IsNil() {
			failed = false
		}
		if failed {
			x.ckOn("P04", "rejected", "error returns of "+fn, ev, zeroT(res), "a rejected block returns messages")
			x.ckOn("P04", "rejected.state", "error returns of "+fn, ev, !ms.Has("eff"), "a sub-batch of a block that is rejected stays registered and can be sent later")
		} else {
			x.ckOn("P01", "emitted", "block header is emitted", ev, ms.Has("hdr2") && !ms.Has("last"), "a block is accepted without emitting its header")
			x.ckOn("P01", "emitted", "the collected messages are returned", ev, ms.Has("tm") && sameT(res, ms.Get("tm")), "the messages returned are not the ones collected")
			nobat := zeroT(srcs["bat"]) || s.Known(atomLt(mkLen(srcs["bat"]), cInt(1)))
			x.ckOn("P04", "zero", "sub-batch identifiers", ev, nobat || ms.Has("done:bat:z"), "a sub-batch with the zero identifier is accepted")
			x.ckOn("P01 P02", "register.all", "every sub-batch is registered", ev, nobat || ms.Has("done:bat:reg"), "sub-batches announced in the header are not all registered, so they cannot be sent")
			if ms.Has("stage") {
				x.ckOn("P01 P02", "register.all", "every sub-batch is registered", ev, ms.Has("done:stg"), "sub-batches announced in the header are not all registered, so they cannot be sent")
			}
		}
	}
}

func kindOf(ms *MS) string { k, _ := ms.Get("kind").StrOr(); return k }

// bump counts 0, 1, more.
func (m *MS) bump(n string) {
	if m.Has(n) {
		m.Flag(n + "+")
	} else {
		m.Flag(n)
	}
}

func (m *MS) once(n string) bool { return m.Has(n) && !m.Has(n+"+") }

func (t *Term) StrOr() (string, bool) {
	if t == nil {
		return "", false
	}
	return t.Str()
}
func (t *Term) isTrue() bool  { b, ok := t.boolOr(); return ok && b }
func (t *Term) isFalse() bool { b, ok := t.boolOr(); return t == nil || t.IsZero() || ok && !b }
func (t *Term) boolOr() (bool, bool) {
	if t == nil {
		return false, false
	}
	return t.Bool()
}

// addBlockIter: end of the processing of one entry.
func (x *Exec) addBlockIter(ev *Event, kind, fn string, defTopic func(*Term) bool) {
	ms := x.MS()
	s := x.S
	k := ms.Get("k")
	one := func(n string) int64 {
		switch {
		case ms.Has(n + "+"):
			return 2
		case ms.Has(n):
			return 1
		}
		return 0
	}
	switch kind {
	case "upd", "del":
		what := map[string]string{"upd": "an update", "del": "a deletion"}[kind]
		if one("n") == 0 && one("cn") == 0 && one("hd") == 0 {
			ms.Flag("n:" + kind + ":act")
			return
		}
		ms.Flag("y:" + kind + ":act")
		if x.noMatch(k) {
			x.ckOn("P01", "unmatched", what+" without schema entry", ev, one("n") == 0 && one("cn") == 0 && one("hd") == 1, "%s that matches no schema entry is not placed in the header exactly once (messages %d, counts %d, header entries %d)", what, one("n"), one("cn"), one("hd"))
			return
		}
		x.ckOn("P01", "matched", what+" with schema entry", ev, one("n") == 1 && one("cn") == 1 && one("hd") == 0, "%s that may match a schema entry is not emitted and counted exactly once (messages %d, counts %d, header entries %d)", what, one("n"), one("cn"), one("hd"))
	case "bat":
		mark := func(n string, ok bool) {
			if ok {
				ms.Flag("y:bat:" + n)
			} else {
				ms.Flag("n:bat:" + n)
			}
		}
		x.ckOn("P01", "subbatch", "sub-batches announced", ev, one("hd") <= 1, "a sub-batch is announced in the header twice")
		mark("hd", one("hd") == 1)
		v := ms.Get("v")
		nz := false
		for f, b := range s.facts {
			if !b && f.Op == "eq" && (sameT(f.Args[0], v) && f.Args[1].IsZero() || sameT(f.Args[1], v) && f.Args[0].IsZero()) {
				nz = true
			}
		}
		mark("z", nz)
		bi := ms.Get("bi")
		mark("reg", bi != nil)
		if bi != nil {
			b, t := x.fieldV("delivery.batchInfo.block", bi), x.fieldV("delivery.batchInfo.topic", bi)
			x.ckOn("P02", "register.block", "block of a sub-batch", ev, sameT(b, rootParam(x, 2)), "a sub-batch is registered for block %v", b)
			ok := false
			if e, is := x.schemaField(t, "topic"); is {
				// the entry must have matched
				for f, b := range s.facts {
					if m := emptyFind(f); m != nil && !b {
						if r, is := x.matchOf(m, k); is && sameT(r, e) {
							ok = true
						}
					}
					if f.Op == "call" && b && strings.HasPrefix(f.Name, "(*regexp.Regexp).Match") && isBytesOf(f.Args[1], k) {
						if r, m := x.schemaField(f.Args[0], "regexp"); m && sameT(r, e) {
							ok = true
						}
					}
				}
			} else if defTopic(t) {
				ok = x.noMatch(k)
			}
			x.ckOn("P01 P02", "register.topic", "topic of a sub-batch", ev, ok, "a sub-batch is registered for topic %v, which is neither the topic of the schema entry it matches nor, for want of one, the default", t)
		}
	case "cnt":
		x.ckOn("P01", "counts", "counts announced", ev, one("hd") == 1, "a prefix with emitted messages is not announced in the header")
	case "stg":
		x.ckOn("P01 P02", "register.each", "prepared sub-batches registered", ev, ms.Has("stg"), "a sub-batch announced in the header is not registered, so it cannot be sent")
	}
}

var prodPure = map[string]bool{"(delivery.MessageType).GetKey": true, "delivery.MessageType.GetKey": true}
