package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// msgDerived: the value is (computed from) the bytes of a message, or was decoded from it.
func (x *Exec) msgDerived(t *Term) bool {
	if t == nil {
		return false
	}
	if t.Any(func(y *Term) bool {
		if y.Op != "call" {
			return false
		}
		_, k := isMsgCall(y, "Key")
		_, v := isMsgCall(y, "Value")
		return k || v
	}) {
		return true
	}
	if _, d, _ := x.decodedFrom(t); d != nil {
		return true
	}
	return false
}

// inBounds: lo <= i (exclusive: i < len(b)) is known on this path.
func (x *Exec) inBounds(b, i *Term, incl bool) bool {
	s := x.S
	l := mkLen(b)
	if c, ok := i.Int(); ok {
		if c < 0 {
			return false
		}
		if !incl {
			c++
		}
		return c == 0 || s.knownLess(l, cInt(c), false)
	}
	if x.E.P.idxTerm(i) { // index of a counted loop: never negative
	} else if !s.KnownNot(atomLt(i, cInt(0))) {
		return false
	}
	if i == l && incl {
		return true
	}
	if incl {
		return s.knownLess(l, i, false) || s.knownLess(i, l, true)
	}
	return s.knownLess(i, l, true)
}

// knownLess: a < b is known to have the given truth value.
func (s *State) knownLess(a, b *Term, want bool) bool {
	t, pol, dec := canonCmp("<", a, b)
	if dec != 0 {
		return (dec > 0) == want
	}
	v, k := s.Query(t)
	return k && (v == pol) == want
}

func (p *Program) idxTerm(i *Term) bool {
	if b, k := linear(i); b != nil && k >= 0 && k <= 1 {
		i = b
	}
	return i.Op == "phi" || i.Op == "rkey"
}

func absent(t *Term) bool { return t == nil || t.IsNil() || t.Op == "const" && t.Name == "none" }

// stringWalk checks the loops that climb a path: each round gets strictly closer to a
// value the loop stops at.
func stringWalk(x *Exec, ev *Event, rule string) {
	ms := x.MS()
	if ev.Kind == EvRecv {
		ms.Flag("received")
	}
	if ev.Kind != EvLoopBack || ev.Hdr == nil {
		return
	}
	fr := x.S.top()
	li := x.E.P.loopInfo(fr.fn, ev.Hdr)
	if li.rangeNext != nil || li.idx != nil {
		return
	}
	if ms.Has("received") {
		// What others sent gets less
		ms.Del("received")
		return
	}
	pi := -1
	for i, p := range ev.Hdr.Preds {
		if p == fr.block {
			pi = i
		}
	}
	what := "loop in " + calleeName(fr.fn)
	ok, why := false, "no value that gets smaller in every round was found"
	for _, in := range ev.Hdr.Instrs {
		ph, isphi := in.(*ssa.Phi)
		if !isphi {
			break
		}
		n := x.E.val(x.S, ph.Edges[pi])
		cur := fr.env[ph]
		switch {
		case isStringType(ph.Type()):
			if n.IsConst() {
				ok = true
				continue
			}
			d := unold(n)
			if d.Op == "call" && d.Name == "path.Dir" {
				a := d.Args[len(d.Args)-1]
				dot, root := x.S.KnownNot(atomEq(a, cStr("."))), x.S.KnownNot(atomEq(a, cStr("/")))
				if cur != nil && !sameT(a, cur) {
					why = "the value is not climbed from the previous one"
					continue
				}
				if dot && root {
					ok = true
				} else {
					why = "path.Dir of \"/\" is \"/\" again (and of \".\" is \".\"): the loop does not stop at both"
				}
			} else if d.Op == "slice" {
				ok = true
			}
		case isIntType(ph.Type()):
			if b, k := linear(n); b != nil && k != 0 && cur != nil && b == cur {
				ok = true
			}
		}
	}
	x.Check(rule, what, ev, ok, "%s may never end: %s", what, why)
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

var crashCalls = map[string]bool{"os.Exit": true, "log.Fatal": true, "log.Fatalf": true, "log.Panic": true, "log.Panicf": true, "log.Crit": true, "runtime.Goexit": true, "regexp.MustCompile": true, "syscall.Exit": true}

func mon08(x *Exec, ev *Event) {
	trackDecode(x, ev)
	s := x.S
	v := x.view()
	fn := "?"
	if ev.Fn != nil {
		fn = calleeName(ev.Fn)
	}
	ms := x.MS()
	stringWalk(x, ev, "hang")
	switch ev.Kind {
	case EvRangeKey:
		switch cl, _, _ := x.class(ev.Val); cl {
		case pbT + "pendingMessages":
			ms.Set("cur", mkAt(ev.Val, ev.Key, nil))
			ms.Set(loopSlot("pq", ev.Ctx, ev.Hdr), tTrue)
		}
	case EvLoopBack, EvLoopExit:
		if ms.Has(loopSlot("pq", ev.Ctx, ev.Hdr)) {
			ms.Del(loopSlot("pq", ev.Ctx, ev.Hdr))
			ms.Del("cur")
		}
	case EvIndex:
		if isArrayPtr(ev.Val) || ev.Val.Op == "alloc" {
			return
		}
		if x.msgDerived(ev.Val) || x.msgDerived(ev.Key) {
			what := describe(ev.Val)
			x.Check("bounds", "index into "+what+" in "+fn, ev, x.inBounds(ev.Val, ev.Key, false), "%v is indexed at %v, which a malformed message can put out of range", ev.Val, ev.Key)
		}
	case EvSlice:
		if !x.msgDerived(ev.Val) && !x.msgDerived(ev.Args[0]) && !x.msgDerived(ev.Args[1]) {
			return
		}
		lo, hi := ev.Args[0], ev.Args[1]
		ok := true
		if !absent(hi) {
			ok = x.inBounds(ev.Val, hi, true)
			if !absent(lo) {
				a, isa := lo.Int()
				b, isb := hi.Int()
				if isa && isb {
					ok = ok && a <= b && a >= 0
				} else if isa {
					ok = ok && !(a < 0) && s.KnownNot(atomLt(hi, lo))
				}
			}
		} else if !absent(lo) {
			ok = x.inBounds(ev.Val, lo, true)
		}
		x.Check("bounds", "slice of "+describe(ev.Val)+" in "+fn, ev, ok, "%v is sliced %v:%v although a malformed message may be shorter", ev.Val, lo, hi)
	case EvMakeSlice:
		if x.msgDerived(ev.Val) {
			_, _, ok := x.decodedFrom(ev.Val)
			x.Check("alloc", "size of collection made in "+fn, ev, ok && s.KnownNot(atomLt(ev.Val, cInt(0))), "a collection is made with size %v, which a malformed message can make negative (or which may not have been decoded)", ev.Val)
		}
	case EvDeref:
		if ev.Val.IsNil() {
			x.Check("nil", "block of the message exists in "+fn, ev, false, "the block of a message is used although it is not known")
		}
		if t := ev.Val; t.Op == "at" && !x.E.P.idxTerm(t.Args[1]) {
			if cl, _, _ := x.class(t.Args[0]); cl == mpT+"pendingBatches" {
				x.Check("nil", "block of the message exists in "+fn, ev, s.KnownNot(atomEq(t, cNil())) || s.Known(mkHas(t.Args[0], t.Args[1])), "the block of a message is used although it may not be known")
			}
		}
	case EvMapUpdate:
		if ev.Map.IsNil() && nilMapMatters(ev.Instr) {
			x.Check("nil", "collection written to exists in "+fn, ev, false, "an entry is added to a collection that does not exist")
		}
		if t := ev.Map; t.Op == "at" {
			cl, _, _ := x.class(t)
			x.Check("nil", "collection written to exists ("+cl+") in "+fn, ev, s.KnownNot(atomEq(t, cNil())) || s.Known(mkHas(t.Args[0], t.Args[1])) || x.E.P.idxTerm(t.Args[1]), "an entry is added to a collection that may not exist")
		}
	case EvPanic:
		ok := false
		for f, b := range s.facts {
			if b && f.Op == "ld" && f.Args[0].Op == "&f" && strings.HasSuffix(f.Args[0].Name, ".failedReconstructPanic") {
				ok = true
			}
		}
		x.Check("panic", "explicit panic in "+fn, ev, ok, "a message can make %s panic", fn)
	case EvCall:
		if crashCalls[ev.Callee] || strings.HasSuffix(ev.Callee, ".MustCompile") {
			x.Check("panic", ev.Callee+" in "+fn, ev, false, "a message can end the process through %s", ev.Callee)
		}
		if ev.Callee == "avro.Unmarshal" && len(ev.Args) == 3 {
			x.Check("decoder", "decoding in "+fn, ev, ev.Args[2].Op == "alloc" || ev.Args[2].Op == "opq", "a message is decoded into %v", ev.Args[2])
		}
	}
	f := x.eff(ev)
	if f == nil {
		return
	}
	switch f.Kind {
	case "prefix+", "values+", "deletes+", "flag", "sb-", "sb+", "batches+", "mp.pend+":
		m := ms.Get("cur")
		if m == nil {
			m = v.m
		}
		bad := x.keyShort(m, 33) || x.decodeUnknown(m)
		x.Check("marks", f.Kind+" in "+fn, ev, !bad, "a message that may not have been decoded (or whose key is too short) changes the state of a block")
	}
}

// decodeUnknown: something was decoded from m and it is not known to have succeeded.
func (x *Exec) decodeUnknown(m *Term) bool {
	ms := x.MS()
	for _, k := range ms.Keys("dec:") {
		if !strings.HasSuffix(k, ":data") {
			continue
		}
		p := strings.TrimSuffix(k, "data")
		if sameT(msgOf(ms.Get(k)), m) && !x.S.Known(atomEq(ms.Get(p+"err"), cNil())) {
			return true
		}
	}
	return false
}

func isArrayPtr(t *Term) bool {
	if t == nil || t.Typ == nil {
		return false
	}
	u := t.Typ.Underlying()
	if p, ok := u.(*types.Pointer); ok {
		u = p.Elem().Underlying()
	}
	_, ok := u.(*types.Array)
	return ok
}

// describe names the kind of thing a term is, without instance detail.
func describe(t *Term) string {
	t = unold(t)
	if _, ok := isMsgCall(t, "Key"); ok {
		return "message key"
	}
	if _, ok := isMsgCall(t, "Value"); ok {
		return "message value"
	}
	switch t.Op {
	case "at":
		return "entry of " + describe(t.Args[0])
	case "ld":
		if t.Args[0].Op == "&f" {
			return fieldOnly(t.Args[0].Name)
		}
		return describe(t.Args[0])
	case "slice", "conv":
		return describe(t.Args[0])
	}
	return t.Op
}

var irr08 []string

// nilMapMatters: the map written to is one whose contents the analysis follows.
func nilMapMatters(in ssa.Instruction) bool {
	mu, ok := in.(*ssa.MapUpdate)
	if !ok {
		return false
	}
	for f := range loadedFields(mu.Map) {
		for _, i := range irr08 {
			if i == f {
				return false
			}
		}
		return true
	}
	for _, o := range origins(mu.Map) {
		switch o := o.(type) {
		case *ssa.Lookup, *ssa.Const:
			return true
		case *ssa.Extract:
			if _, ok := o.Tuple.(*ssa.Lookup); ok {
				return true
			}
		}
	}
	return false
}

func init() {
	register("C08", func(c *Ctx) {
		c.Explain = "interval facts along every path of message processing: each index, slice and size computed from message bytes is shown in range, each lookup result non-nil before use, each decode successful before any effect; every loop has a measure"
		irr08 = append([]string{mpT + "oldBlocks", mpT + "completed", mpT + "lastEmittedNum", mpT + "reorgThreshold", mpT + "resumption", mpT + "evictCh", pbT + "Number", pbT + "waitCh", mpT + "trackedPrefixes", pbT + "prefixes", pbT + "Values", pbT + "Deletes"}, resumptionClasses...)
		for _, r := range []string{"delivery.MessageProcessor.ProcessMessage", "delivery.PendingBatch.ApplyMessage"} {
			c.Flow(r, mon08, &runOpts{irrelevant: irr08, forall: []string{"none"}})
		}
		mon08Decoder(c)
		c.Min("bounds", 4)
		c.Min("decode.complete", 1)
		c.Min("alloc", 1)
		c.Min("hang", 1)
		c.Min("nil", 1)
		c.Min("marks", 4)
	})
	_ = token.NoPos
}
