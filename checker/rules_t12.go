package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- T12: what arrives from a broker or a peer crashes nothing ----------
//
// Roots: every function or goroutine of the transports that receives messages.
// On each path: what is received is used only if the channel had it; pointers
// found in decoded messages, or looked up by what they say, are used only if
// they are known to exist; indices and slices of them are in range.

func isConsumerMessage(t types.Type) bool {
	if c, ok := t.Underlying().(*types.Chan); ok {
		return shortType(c.Elem()) == "*sarama.ConsumerMessage"
	}
	return false
}

// receivesMessages: messages enter the program in f.
func receivesMessages(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.UnOp:
				if in.Op.String() == "<-" && isConsumerMessage(in.X.Type()) {
					return true
				}
			case *ssa.Select:
				for _, st := range in.States {
					if st.Dir == types.RecvOnly && isConsumerMessage(st.Chan.Type()) {
						return true
					}
				}
			case *ssa.Call:
				n := ccName(&in.Call)
				if strings.HasSuffix(n, "websocket.Conn).ReadMessage") || strings.HasSuffix(n, "websocket.Conn).ReadJSON") || strings.HasSuffix(n, "websocket.Conn).NextReader") {
					return true
				}
				if strings.HasSuffix(n, ").GetBlock") {
					return true
				}
			}
		}
	}
	return false
}

func monT12(root string) func(x *Exec, ev *Event) {
	return func(x *Exec, ev *Event) {
		trackDecode(x, ev)
		ms, s := x.MS(), x.S
		fn := root
		// foreign: the value comes from a message.
		var foreign func(t *Term) bool
		foreign = func(t *Term) bool {
			return t != nil && t.Any(func(y *Term) bool {
				switch y.Op {
				case "call":
					_, k := isMsgCall(y, "Key")
					_, v := isMsgCall(y, "Value")
					return k || v
				case "alloc":
					return ms.Has(fmt.Sprintf("dec:%d:err", y.id))
				case "opq":
					return ms.Has("rx:"+y.String()) || ms.Has("raw:"+y.String())
				}
				return false
			})
		}
		exists := func(t *Term) bool {
			if x.knownNonNil(t) || s.fresh[t] || t.Op == "alloc" || t.Op == "&f" || t.Op == "&i" {
				return true
			}
			if ok := ms.Get("rx:" + t.String()); ok != nil && ok != tTrue && s.Known(ok) {
				return true
			}
			t = unold(t)
			if ms.Has("ex:" + t.String()) {
				return true
			}
			return t.Op == "at" && isMapTerm(t.Args[0]) && s.Known(mkHas(t.Args[0], t.Args[1]))
		}
		use := func(t *Term) {
			t = unold(t)
			if t.IsNil() || t.Op != "at" && s.Known(atomEq(t, cNil())) {
				x.Check("msg.nil", "value used in "+fn, ev, false, "something that does not exist is used")
				return
			}
			if t.Typ == nil {
				return
			}
			if _, ok := t.Typ.Underlying().(*types.Pointer); !ok {
				return
			}
			switch t.Op {
			case "alloc", "&f", "&i", "fv", "param":
				return
			}
			if !foreign(t) {
				return
			}
			x.Check("msg.nil", describeMsg(t)+" in "+fn, ev, exists(t), "%v is used, which a message (or the end of the messages) can leave out", t)
		}
		switch ev.Kind {
		case EvMapUpdate, EvMapDelete:
			// what was found stays what it was
			for f, v := range s.facts {
				if v && f.Op == "has" && pointerMap(f.Args[0]) && sameT(f.Args[0], ev.Map) {
					ms.Flag("ex:" + mkAt(f.Args[0], f.Args[1], nil).String())
				}
				if !v && f.Op == "eq" {
					for _, a := range f.Args {
						if a.Op == "at" && pointerMap(a.Args[0]) && sameT(a.Args[0], ev.Map) && x.knownNonNil(a) {
							ms.Flag("ex:" + mkAt(a.Args[0], a.Args[1], nil).String())
						}
					}
				}
			}
		case EvLookup:
			ms.Del("ex:" + mkAt(ev.Map, ev.Key, nil).String())
		}
		switch ev.Kind {
		case EvRecv:
			if ev.Val != nil && ev.Chan != nil && ev.Chan.Typ != nil && isConsumerMessage(ev.Chan.Typ) {
				k := ev.Key
				if k == nil {
					k = tTrue
				}
				ms.Set("rx:"+ev.Val.String(), k)
			}
		case EvRangeKey:
			if ev.Val != nil && ev.Val.Typ != nil && isConsumerMessage(ev.Val.Typ) && ev.Res != nil {
				ms.Set("rx:"+ev.Res.String(), tTrue)
				s.Assume(atomEq(ev.Res, cNil()), false)
			}
		case EvCall:
			if ev.Res != nil && ev.Res.Op == "tuple" && strings.HasSuffix(ev.Callee, "Conn).ReadMessage") {
				ms.DelPrefix("ex:")
				ms.Flag("raw:" + ev.Res.Args[1].String())
			}
			if ev.Res != nil && strings.HasSuffix(ev.Callee, ").GetBlock") {
				ms.Set("rx:"+ev.Res.String(), tTrue)
			}
			if ev.Callee == "(*hexutil.Big).ToInt" {
				use(ev.Recv)
			}
			if crashCalls[ev.Callee] || strings.HasSuffix(ev.Callee, ".MustCompile") {
				x.Check("msg.panic", ev.Callee+" in "+fn, ev, false, "a message can end the process through %s", ev.Callee)
			}
		case EvDeref, EvLoad:
			use(ev.Val)
		case EvIndex:
			if isArrayPtr(ev.Val) || ev.Val.Op == "alloc" {
				return
			}
			if foreign(ev.Val) || foreign(ev.Key) {
				if len(x.S.loops) > 0 && x.E.P.idxTerm(ev.Key) && x.inBounds(ev.Val, ev.Key, false) {
					return
				}
				x.Check("msg.bounds", "index into "+describeMsg(ev.Val)+" in "+fn, ev, x.inBounds(ev.Val, ev.Key, false), "%v is indexed at %v, which a malformed message can put out of range", ev.Val, ev.Key)
			}
		case EvSlice:
			if !foreign(ev.Val) && !foreign(ev.Args[0]) && !foreign(ev.Args[1]) {
				return
			}
			lo, hi := ev.Args[0], ev.Args[1]
			ok := true
			if !absent(hi) {
				ok = x.inBounds(ev.Val, hi, true)
				if !absent(lo) {
					a, isa := lo.Int()
					b, isb := hi.Int()
					ok = ok && isa && a >= 0 && (isb && a <= b || !isb && s.KnownNot(atomLt(hi, lo)))
				}
			} else if !absent(lo) {
				ok = x.inBounds(ev.Val, lo, true)
			}
			x.Check("msg.bounds", "slice of "+describeMsg(ev.Val)+" in "+fn, ev, ok, "%v is sliced %v:%v although a malformed message may be shorter", ev.Val, lo, hi)
		case EvMakeSlice:
			if foreign(ev.Val) && ev.Val.Op != "len" {
				x.Check("msg.alloc", "size of collection made in "+fn, ev, s.KnownNot(atomLt(ev.Val, cInt(0))), "a collection is made with size %v, which a message can make negative", ev.Val)
			}
		case EvAssert:
			if foreign(ev.Val) {
				x.Check("msg.type", "type assertion in "+fn, ev, s.Known(ev.Key), "the type of %v is up to the message", ev.Val)
			}
		case EvMapUpdate:
			if ev.Map.IsNil() {
				x.Check("msg.map", "collection written to in "+fn, ev, false, "an entry is added to a collection that does not exist")
			}
			if t := unold(ev.Map); t.Op == "at" && isMapTerm(t) {
				x.Check("msg.map", "collection written to in "+fn, ev, x.knownNonNil(t) || s.fresh[t] || s.Known(mkHas(t.Args[0], t.Args[1])), "an entry is added to a collection that may not exist")
			}
			// what is kept has to exist for those who find it
			if v := ev.Val; v != nil && v.Typ != nil && foreign(v) {
				if _, ok := v.Typ.Underlying().(*types.Pointer); ok {
					x.Check("msg.kept", describeMsg(v)+" in "+fn, ev, exists(v), "%v is kept, which a message can leave out", v)
				}
			}
		case EvPanic:
			x.Check("msg.panic", "explicit panic in "+fn, ev, false, "a message can make %s panic", fn)
		}
	}
}

func pointerMap(t *Term) bool {
	if t.Typ == nil {
		return false
	}
	m, ok := t.Typ.Underlying().(*types.Map)
	if !ok {
		return false
	}
	_, ok = m.Elem().Underlying().(*types.Pointer)
	return ok
}

func describeMsg(t *Term) string {
	t = unold(t)
	if _, ok := isMsgCall(t, "Key"); ok {
		return "message key"
	}
	switch t.Op {
	case "ld":
		if t.Args[0].Op == "&f" {
			return t.Args[0].Name
		}
		return describeMsg(t.Args[0])
	case "at":
		return "entry of " + describeMsg(t.Args[0])
	case "slice", "conv", "fld":
		return describeMsg(t.Args[0])
	}
	return t.Op
}

func init() {
	register("T12", func(c *Ctx) {
		c.Explain = "nil, range and type facts along every path of every function and goroutine of the transports that receives messages, with sources (received messages, decoded values, lookups by what they contain) tracked into their uses"
		gos := map[*ssa.Function]bool{}
		fns := c.P.repoFuncs("transports")
		for _, f := range fns {
			for _, g := range goRoots(f) {
				gos[g] = true
			}
		}
		done := map[*ssa.Function]bool{}
		for _, f := range fns {
			if !receivesMessages(f) {
				continue
			}
			r := f
			for !gos[r] && r.Parent() != nil {
				r = r.Parent()
			}
			if done[r] {
				continue
			}
			done[r] = true
			c.FlowFn(r, monT12(fnLabel(r)), &runOpts{forall: []string{"-"}, noInline: func(g *ssa.Function) bool {
				// no message gets into an address; the processing of a message is C08's
				if g.Parent() == nil && c.P.mentions(g, func(in ssa.Instruction) bool {
					ci, ok := in.(ssa.CallInstruction)
					return ok && ccName(ci.Common()) == "url.Parse"
				}) && !receivesMessages(g) {
					return true
				}
				return pkgOf(g) == "delivery" && !(g.Signature.Recv() == nil && g.Parent() == nil && c.P.mentions(g, func(in ssa.Instruction) bool {
					ci, ok := in.(ssa.CallInstruction)
					return ok && ccName(ci.Common()) == "avro.Unmarshal"
				}))
			}})
		}
		c.Min("msg.nil", 3)
		c.Min("msg.bounds", 4)
	})
}
