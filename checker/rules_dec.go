package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---------- decoding ----------
//
// A decoder is a function of the repository that passes its schema, data and
// destination on to avro.Unmarshal. Everything else sees calls to it as calls to
// avro.Unmarshal, and C08 checks that it only accepts complete values, which
// avro.Unmarshal does not (it takes a value that ends early as it is, and makes
// collections of any size the value claims to have).

var decoderFns map[*ssa.Function]bool

func paramsOf(call *ssa.CallCommon, f *ssa.Function) bool {
	if len(call.Args) != 3 || len(f.Params) != 3 {
		return false
	}
	for i, a := range call.Args {
		if a != ssa.Value(f.Params[i]) {
			return false
		}
	}
	return true
}

func findDecoders(fns []*ssa.Function) {
	decoderFns = map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for _, f := range fns {
			if decoderFns[f] || f.Parent() != nil || f.Signature.Recv() != nil {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(*ssa.Call); ok && paramsOf(&c.Call, f) && ccName(&c.Call) == "avro.Unmarshal" {
						decoderFns[f] = true
						changed = true
					}
				}
			}
		}
	}
}

func isAvroSchema(t types.Type) bool { return shortType(t) == "avro.Schema" }
func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

// validators: functions that take a schema and bytes and return an error.
func (p *Program) validators() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.All {
		if f.Parent() != nil || decoderFns[f] {
			continue
		}
		sch, data := false, false
		for _, q := range f.Params {
			sch = sch || isAvroSchema(q.Type())
			data = data || isByteSlice(q.Type())
		}
		r := f.Signature.Results()
		if sch && data && r.Len() > 0 && shortType(r.At(r.Len()-1).Type()) == "error" {
			out = append(out, f)
		}
	}
	return out
}

// mon08Decoder: a value is only decoded when it is known to be complete.
func mon08Decoder(c *Ctx) {
	vals := map[*ssa.Function]bool{}
	for _, v := range c.P.validators() {
		vals[v] = true
	}
	for _, cs := range c.P.callsTo(func(n string) bool { return n == "avro.Unmarshal" }) {
		if f := cs.In.Common().StaticCallee(); f != nil && decoderFns[f] {
			continue // judged there
		}
		if !decoderFns[cs.Fn] {
			c.Oblige("decode.complete", "decoding in "+calleeName(cs.Fn), cs.In.Pos(), false, nil, "a value is decoded without being known to be complete: one that ends early is taken as it is, and one that claims to be large can end the process")
		}
	}
	for _, f := range c.P.All {
		if !decoderFns[f] {
			continue
		}
		c.Flow(calleeName(f), func(x *Exec, ev *Event) {
			if ev.Kind != EvCall {
				return
			}
			ms := x.MS()
			if ev.CalleeF != nil && vals[ev.CalleeF] {
				sch, data := false, false
				for _, a := range ev.Args {
					sch = sch || sameT(a, rootParam(x, 0))
					data = data || sameT(a, rootParam(x, 1))
				}
				if sch && data && ev.Res != nil {
					r := ev.Res
					if r.Op == "tuple" {
						r = r.Args[len(r.Args)-1]
					}
					ms.Set("checked", r)
				}
			}
			if ci, ok := ev.Instr.(ssa.CallInstruction); ok && ev.Callee == "avro.Unmarshal" && !decoderFns[ci.Common().StaticCallee()] {
				w := ms.Get("checked")
				x.Check("decode.complete", "decoding in "+calleeName(x.E.Root), ev, w != nil && x.knownNil(w), "a value is decoded without being known to be complete: one that ends early is taken as it is, and one that claims to be large can end the process")
			}
		}, &runOpts{forall: []string{"-"}, noInline: func(f *ssa.Function) bool { return vals[f] }})
	}
	// what is checked never crashes, ends, and gets through the value
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || !c.P.inRepo(f) || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					add(call.Common().StaticCallee())
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					add(mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	for v := range vals {
		add(v)
	}
	for _, f := range c.P.All {
		if !seen[f] {
			continue
		}
		f := f
		c.FlowFn(f, func(x *Exec, ev *Event) { monValidator(x, ev, vals) }, &runOpts{forall: []string{"-"}, noInline: func(g *ssa.Function) bool { return seen[g] && g.Parent() == nil }})
	}
}

func monValidator(x *Exec, ev *Event, vals map[*ssa.Function]bool) {
	ms, s := x.MS(), x.S
	con := calleeName(x.E.Root)
	isData := func(t *Term) bool { return t != nil && t.Typ != nil && isByteSlice(t.Typ) }
	switch ev.Kind {
	case EvCall:
		switch ev.Callee {
		case "(*avro.FixedSchema).Size":
			s.Assume(atomLt(ev.Res, cInt(0)), false)
		case "binary.Varint", "binary.Uvarint":
			if ev.Res != nil && ev.Res.Op == "tuple" && len(ev.Args) == 1 {
				// never reads more than there is
				if t, pol, dec := canonCmp("<", mkLen(ev.Args[0]), ev.Res.Args[1]); dec == 0 {
					s.Assume(t, !pol)
				}
			}
		}
	case EvIndex:
		if isData(ev.Val) {
			x.Check("bounds", "index in "+con, ev, x.inBounds(ev.Val, ev.Key, false), "%v is indexed at %v, which a malformed value can put out of range", ev.Val, ev.Key)
		}
	case EvSlice:
		if !isData(ev.Val) {
			return
		}
		lo, hi := ev.Args[0], ev.Args[1]
		ok := absent(hi) || x.inBounds(ev.Val, hi, true)
		ok = ok && (absent(lo) || x.inBounds(ev.Val, lo, true) || lo.Op == "call" && x.inBounds(ev.Val, lo, true))
		x.Check("bounds", "slice in "+con, ev, ok, "%v is sliced %v:%v although a malformed value may be shorter", ev.Val, lo, hi)
	case EvLoopExit, EvRangeDone, EvLoopBack:
		ms.Flag("loop")
	case EvExit:
		if n := len(ev.Args); vals[x.E.Root] && n > 1 && x.knownNil(ev.Args[n-1]) && isData(ev.Args[0]) {
			same := false
			for i, q := range x.E.Root.Params {
				same = same || isByteSlice(q.Type()) && sameT(ev.Args[0], rootParam(x, i))
			}
			x.Check("decode.progress", "value skipped in "+con, ev, !same || ms.Has("loop"), "a value is taken for complete without being looked at")
		}
	}
}
