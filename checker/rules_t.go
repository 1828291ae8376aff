package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	mxP = "transports.muxProducer.producers"
	mxC = "transports.muxConsumer.consumers"
)

// hdrPhis: the loop variables of hdr with the value each takes on the edge from
// the current block.
func (x *Exec) hdrPhis(hdr *ssa.BasicBlock, f func(p *ssa.Phi, old, new *Term)) {
	fr := x.S.top()
	ms := x.MS()
	for i, p := range hdr.Preds {
		if p != fr.block {
			continue
		}
		for _, in := range hdr.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				return
			}
			old := ms.Get("ph:" + x.E.site(fr, ph))
			if old == nil {
				old = junkT
			}
			f(ph, old, x.E.val(x.S, ph.Edges[i]))
		}
	}
}

func (x *Exec) knownNil(t *Term) bool    { return t.IsNil() || x.S.Known(atomEq(t, cNil())) }
func (x *Exec) knownNonNil(t *Term) bool { return !t.IsNil() && x.S.KnownNot(atomEq(t, cNil())) }

// errOf: the error among the results of a call, and the other result.
func errOf(res *Term, n int) (err, val *Term) {
	if res == nil {
		return nil, nil
	}
	if res.Op == "tuple" {
		if len(res.Args) == 0 {
			return nil, nil
		}
		return res.Args[len(res.Args)-1], res.Args[0]
	}
	return res, nil
}

type muxOp struct {
	class, iface, method string
	args                 int  // how many root parameters are passed on
	err                  int  // index of the error result, -1 without one
	fails                bool // a failing member makes the operation report an error
	allFail              bool // the operation fails only if every member failed
	min                  bool // result 0 is not above any member's
	fns                  bool // result 0 calls what the members returned
	sum                  bool // the result is the sum over the members
}

// keepPhis remembers the values of the loop variables at the start of an iteration.
func (x *Exec) keepPhis(hdr *ssa.BasicBlock) {
	fr := x.S.top()
	for _, in := range hdr.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			return
		}
		if v, ok := fr.env[ph]; ok && !v.junk {
			x.MS().Set("ph:"+x.E.site(fr, ph), v)
		}
	}
}

// monMux: an operation of a multiplexer is performed once on every member.
func monMux(o muxOp) func(x *Exec, ev *Event) {
	return func(x *Exec, ev *Event) {
		ms, s := x.MS(), x.S
		name := o.iface + "." + o.method
		con := "members reached by " + calleeName(x.E.Root)
		member := func(c *Term) bool {
			cl, b, _ := x.class(c)
			return cl == o.class && b != nil
		}
		L := ""
		if ev.Hdr != nil {
			L = loopSlot("L", ev.Ctx, ev.Hdr)
		}
		switch ev.Kind {
		case EvStore:
			a := ev.Addr
			bad := a.Op == "&f" && a.Name == o.class
			if a.Op == "&i" {
				b := a.Args[0]
				for b.Op == "slice" {
					b = b.Args[0]
				}
				bad = bad || member(b)
			}
			if bad {
				x.Check("mux.list", con, ev, false, "%s changes the list of members", name)
			}
		case EvRangeKey:
			if member(ev.Val) {
				ms.Flag(L)
				ms.Set("e", ev.Res)
				for _, n := range []string{"n", "n+", "err", "fn"} {
					ms.Del(n)
				}
				ms.DelPrefix("app:")
				x.keepPhis(ev.Hdr)
			}
		case EvRangeDone:
			if member(ev.Val) {
				x.Check("mux.each", con, ev, !(ms.Has("some") && ms.Has("none")), "%s is called on some members only", name)
				if ms.Has("some") || !ms.Has("none") {
					ms.Flag("done")
				}
				ms.Del("some")
				ms.Del("none")
			}
		case EvCall:
			switch {
			case ev.Callee == "("+o.iface+")."+o.method:
				e := ms.Get("e")
				x.Check("mux.member", con, ev, e != nil && sameT(ev.Recv, e), "%s is called on %v, which is not the member being visited", name, ev.Recv)
				ok := len(ev.Args) == o.args
				for i := 0; ok && i < o.args; i++ {
					ok = sameT(ev.Args[i], rootParam(x, i+1))
				}
				x.Check("mux.args", con, ev, ok, "%s does not get the arguments of the operation", name)
				ms.bump("n")
				if o.sum {
					ms.Set("val", ev.Res)
				}
				if o.err >= 0 {
					err, val := errOf(ev.Res, o.err)
					ms.Set("err", err)
					if val != nil {
						ms.Set("val", val)
					}
				}
			case ev.Callee == "builtin append" && ms.Has("e"):
				if _, els, ok := x.newElems(ev); ok {
					for _, e := range els {
						if err := ms.Get("err"); err != nil && sameT(e, err) {
							ms.Set("app:e", err)
							if !x.knownNonNil(err) {
								ms.Flag("maybe")
							}
						} else if v := ms.Get("val"); v != nil && sameT(e, v) {
							ms.Flag("fn")
						} else if x.knownNonNil(e) && isErrT(e) {
							if err := ms.Get("err"); err != nil {
								ms.Set("app:e", err)
							}
						}
					}
				}
			}
		case EvLoopBack, EvLoopExit:
			if !ms.Has(L) {
				return
			}
			if ev.Kind == EvLoopBack {
				x.Check("mux.once", con, ev, !ms.Has("n+"), "%s is called twice on a member", name)
				if ms.Has("n") {
					ms.Flag("some")
				} else {
					ms.Flag("none")
				}
				if err := ms.Get("err"); err != nil {
					nil_, bad := x.knownNil(err), x.knownNonNil(err)
					if !nil_ {
						ms.Flag("failed")
					}
					if !bad {
						ms.Flag("okd")
					}
					if o.fns && !bad {
						x.Check("mux.fns", con, ev, ms.Has("fn"), "what %s of a member returned is dropped", name)
					}
					x.hdrPhis(ev.Hdr, func(p *ssa.Phi, old, nw *Term) {
						id := x.E.site(s.top(), p)
						if isIntType(p.Type()) {
							b, k := linear(nw)
							d := int64(-1)
							if sameT(nw, old) {
								d = 0
							} else if b != nil && sameT(b, old) {
								d = k
							} else if a, ok := old.Int(); ok {
								if c, ok := nw.Int(); ok {
									d = c - a
								}
							}
							if !(d == 0 && nil_ || d == 1 && bad) {
								ms.Flag("notfails:" + id)
							}
							if !(d == 0 && bad || d == 1 && nil_) {
								ms.Flag("notoks:" + id)
							}
						}
						if o.min {
							v := ms.Get("val")
							if !nil_ && !sameT(nw, old) {
								ms.Flag("notmin:" + id) // the number of a member that failed
							}
							if v != nil && !bad && !(sameT(nw, v) || s.KnownNot(atomLt(v, nw))) {
								ms.Flag("notmin:" + id)
							}
							if !(sameT(nw, old) || s.Known(atomLt(nw, old)) || s.KnownNot(atomLt(old, nw))) {
								ms.Flag("notmin:" + id)
							}
						}
					})
				}
			}
			if ev.Kind == EvLoopBack && o.sum {
				x.hdrPhis(ev.Hdr, func(p *ssa.Phi, old, nw *Term) {
					v, ok := ms.Get("val"), false
					nw = unold(nw)
					if nw.Op == "bin" && nw.Name == "+" {
						for i := 0; i < 2; i++ {
							ok = ok || v != nil && sameT(nw.Args[i], old) && sameT(nw.Args[1-i], v)
						}
					}
					if n, k := old.Int(); k && n == 0 && v != nil && sameT(nw, v) {
						ok = true
					}
					if !ok {
						ms.Flag("notsum:" + x.E.site(s.top(), p))
					}
				})
			}
			ms.DelPrefix("app:")
			ms.DelPrefix("ph:")
			for _, n := range []string{"e", "n", "n+", "err", "fn", "val", L} {
				ms.Del(n)
			}
		case EvExit:
			x.Check("mux.all", con, ev, ms.Has("done"), "%s may be skipped for some members", name)
			if o.sum {
				v := unold(ev.Args[0])
				n, k := v.Int()
				id := x.phiName(v)
				x.Check("mux.sum", con, ev, k && n == 0 || id != "" && !ms.Has("notsum:"+id), "the number reported is not the sum over the members but %v", v)
			}
			if o.err < 0 || len(ev.Args) <= o.err {
				return
			}
			r := ev.Args[o.err]
			if o.fails && ms.Has("failed") {
				ok := x.knownNonNil(r)
				if !ok && r.Op == "ld" && r.Args[0].Op == "&i" && !ms.Has("maybe") {
					ok = true
				}
				if !ok {
					ok = ms.Has("joined") && sameT(r, ms.Get("joined"))
				}
				x.Check("mux.error", con, ev, ok, "the error of a member is lost: the result is %v", r)
			}
			if o.allFail && ms.Has("okd") && !x.knownNil(r) {
				ok := false
				for f, v := range s.facts {
					if !v || f.Op != "eq" {
						continue
					}
					for i := 0; i < 2; i++ {
						a, b := f.Args[i], f.Args[1-i]
						if a.Op != "phi" {
							continue
						}
						id := x.phiName(a)
						if id != "" && b.Op == "len" && member(b.Args[0]) && !ms.Has("notfails:"+id) {
							ok = true
						}
						if n, k := b.Int(); id != "" && k && n == 0 && !ms.Has("notoks:"+id) {
							ok = true
						}
					}
				}
				for f, v := range s.facts {
					if f.Op != "lt" {
						continue
					}
					a, b := f.Args[0], f.Args[1]
					// !(fails < len)   or   oks < 1
					if !v && a.Op == "phi" && b.Op == "len" && member(b.Args[0]) && x.phiName(a) != "" && !ms.Has("notfails:"+x.phiName(a)) {
						ok = true
					}
					if c, k := b.Int(); v && k && c == 1 && a.Op == "phi" && x.phiName(a) != "" && !ms.Has("notoks:"+x.phiName(a)) {
						ok = true
					}
				}
				x.Check("mux.allfail", con, ev, ok, "the operation may fail although a member succeeded")
			}
			if o.min && len(ev.Args) > 0 {
				v := ev.Args[0]
				if v.Op == "phi" {
					if id := x.phiName(v); id != "" {
						x.Check("mux.min", con, ev, !ms.Has("notmin:"+id), "the number reported may be above that of a member")
					}
				} else if !v.IsConst() {
					x.Check("mux.min", con, ev, false, "the number reported is %v", v)
				}
			}
			if o.fns {
				f := ev.Args[0]
				x.Check("mux.fns", con, ev, f.Op == "closure" || f.Op == "func", "the function returned is %v", f)
				if ms.Has("okd") {
					some := false
					for _, a := range f.Args {
						some = some || a.Typ != nil && strings.HasSuffix(a.Typ.Underlying().String(), "[]func()")
					}
					x.Check("mux.fns", con, ev, some, "the function returned does not run those of the members that succeeded")
				}
				if f.Op == "closure" {
					if fn := x.E.P.fnByName[f.Name]; fn != nil {
						x.E.C.muxFns[fn] = true
					}
				}
			}
		}
	}
}

func isErrT(t *Term) bool { return t.Typ != nil && t.Typ.String() == "error" }

// phiName: the site of a loop variable.
func (x *Exec) phiName(t *Term) string {
	if t.Op == "phi" {
		return t.Name
	}
	return ""
}

// monCallAll: every function of the captured slice is called.
func monCallAll(x *Exec, ev *Event) {
	ms := x.MS()
	con := "functions called by " + calleeName(x.E.Root)
	isFns := func(c *Term) bool { return c.Typ != nil && c.Typ.Underlying().String() == "[]func()" }
	L := ""
	if ev.Hdr != nil {
		L = loopSlot("L", ev.Ctx, ev.Hdr)
	}
	switch ev.Kind {
	case EvRangeKey:
		if isFns(ev.Val) {
			ms.Flag(L)
			ms.Set("e", ev.Res)
			ms.Del("n")
			ms.Del("n+")
		}
	case EvRangeDone:
		if isFns(ev.Val) {
			ms.Flag("done")
		}
	case EvCall:
		if ev.Callee == "dynamic" {
			x.Check("mux.fns", con, ev, ms.Get("e") != nil && ev.Recv != nil && sameT(ev.Recv, ms.Get("e")), "%v is called", ev.Recv)
			ms.bump("n")
		}
	case EvLoopBack:
		if ms.Has(L) {
			x.Check("mux.fns", con, ev, ms.Has("n") && !ms.Has("n+"), "a function is not called exactly once")
			for _, n := range []string{"e", "n", "n+", L} {
				ms.Del(n)
			}
		}
	case EvExit:
		x.Check("mux.fns", con, ev, ms.Has("done"), "some functions are not called")
	}
}

func init() {
	register("T02", func(c *Ctx) {
		c.Explain = "typestate over every path of every multiplexer operation: performed exactly once, with the operation's arguments, on every element of the member list; errors remembered and reported"
		P, C := "transports.Producer", "transports.Consumer"
		mp, mc := "transports.muxProducer.", "transports.muxConsumer."
		for _, o := range []muxOp{
			{class: mxP, iface: P, method: "AddBlock", args: 7, err: 0, fails: true},
			{class: mxP, iface: P, method: "SendBatch", args: 3, err: 0, fails: true},
			{class: mxP, iface: P, method: "Reorg", args: 2, err: 1, fails: true, fns: true},
			{class: mxP, iface: P, method: "SetHealth", args: 1, err: -1},
			{class: mxP, iface: P, method: "PurgeReplayCache", err: -1},
			{class: mxP, iface: P, method: "ProducerCount", args: 1, err: -1, sum: true},
			{class: mxP, iface: P, method: "LatestBlockFromFeed", err: 1, min: true},
			{class: mxC, iface: C, method: "Start", err: 0, allFail: true},
			{class: mxC, iface: C, method: "Close", err: -1},
			{class: mxC, iface: C, method: "ProducerCount", args: 1, err: -1, sum: true},
		} {
			root := mp
			if o.iface == C {
				root = mc
			}
			c.Flow(root+o.method, monMux(o), nil)
		}
		build := func(root *ssa.Function) *runOpts {
			return &runOpts{noInline: func(f *ssa.Function) bool {
				return resultsAre(f, P) || resultsAre(f, C) || pkgOf(f) == "delivery"
			}}
		}
		bp, pp := "transports.BrokerParams.", "transports.ProducerBrokerParams."
		c.Flow("transports.ResolveMuxProducer", monMuxBuild(P, mxP, []string{pp + "URL", pp + "DefaultTopic", pp + "Schema"}, []int{1}), build(nil))
		c.Flow("transports.ResolveMuxConsumer", monMuxBuild(C, mxC, []string{bp + "URL", bp + "DefaultTopic", bp + "Topics", bp + "Rollback"}, []int{1}), build(nil))
		for f := range c.muxFns {
			c.FlowFn(f, monCallAll, nil)
		}
		c.Min("mux.all", 10)
		c.Min("mux.error", 3)
		c.Min("mux.allfail", 1)
		c.Min("mux.fns", 2)
		c.Min("mux.min", 1)
		c.Min("mux.sum", 2)
	})
}

// resultsAre: fn returns (pkg.T, error).
func resultsAre(fn *ssa.Function, t string) bool {
	if fn == nil {
		return false
	}
	r := fn.Signature.Results()
	return r.Len() == 2 && shortType(r.At(0).Type()) == t && r.At(1).Type().String() == "error"
}

func structField(t *Term, class string, of *Term) bool {
	t = unold(t)
	if of == nil {
		return false
	}
	switch t.Op {
	case "fld":
		return t.Name == class && sameT(t.Args[0], of)
	case "ld":
		return t.Args[0].Op == "&f" && t.Args[0].Name == class && sameT(t.Args[0].Args[0], of)
	}
	return false
}

// monMuxBuild: every broker of the parameter list gives one member.
func monMuxBuild(iface, list string, fields []string, params []int) func(x *Exec, ev *Event) {
	return func(x *Exec, ev *Event) {
		ms := x.MS()
		con := "members built by " + calleeName(x.E.Root)
		L := ""
		if ev.Hdr != nil {
			L = loopSlot("L", ev.Ctx, ev.Hdr)
		}
		bps := rootParam(x, 0)
		switch ev.Kind {
		case EvRangeKey:
			if sameT(ev.Val, bps) {
				ms.Flag(L)
				ms.Set("e", ev.Res)
				ms.Set("i", ev.Key)
				for _, n := range []string{"c", "err", "kept", "kept+"} {
					ms.Del(n)
				}
			}
		case EvRangeDone:
			if sameT(ev.Val, bps) {
				ms.Flag("done")
			}
		case EvCall:
			if ev.CalleeF != nil && ev.CalleeF != x.E.Root && resultsAre(ev.CalleeF, iface) {
				e := ms.Get("e")
				x.Check("mux.build", con, ev, e != nil && !ms.Has("c"), "a member is created outside of the loop over the brokers, or twice")
				for _, f := range fields {
					ok := false
					for _, a := range ev.Args {
						ok = ok || structField(a, f, e) || e != nil && sameT(a, e)
					}
					x.Check("mux.build.args", con+", "+fieldOnly(f), ev, ok, "the member is created without the %s of its broker", fieldOnly(f))
				}
				for _, i := range params {
					ok := false
					for _, a := range ev.Args {
						ok = ok || sameT(a, rootParam(x, i))
					}
					x.Check("mux.build.args", con+", "+x.E.Root.Params[i].Name(), ev, ok, "the member is created without %s", x.E.Root.Params[i].Name())
				}
				if ev.Res.Op == "tuple" {
					ms.Set("c", ev.Res.Args[0])
					ms.Set("err", ev.Res.Args[1])
				}
			}
			if ev.Callee == "builtin append" {
				if base, els, ok := x.newElems(ev); ok && len(els) == 1 && ms.Has("c") && sameT(els[0], ms.Get("c")) {
					ch := ms.Get("chain")
					if ch == nil {
						n, k := mkLen(base).Int()
						if !k {
							k = x.S.Known(atomLt(mkLen(base), cInt(1)))
						}
						ok = k && n == 0
					} else {
						ok = sameT(base, ch)
					}
					x.Check("mux.build", con, ev, ok, "members built before are lost")
					ms.bump("kept")
					ms.Set("chain", ev.Res)
				}
			}
		case EvStore:
			if c := ms.Get("c"); c != nil && ev.Addr.Op == "&i" && ev.Addr.Args[0].Op != "alloc" && sameT(ev.Val, c) {
				b := ev.Addr.Args[0]
				x.Check("mux.build", con, ev, sameT(ev.Addr.Args[1], ms.Get("i")) && sameT(mkLen(b), mkLen(bps)), "a member is put at place %v of %v", ev.Addr.Args[1], b)
				ms.bump("kept")
				ms.Set("chain", b)
			}
		case EvLoopBack, EvLoopExit:
			if !ms.Has(L) {
				return
			}
			if ev.Kind == EvLoopBack {
				x.Check("mux.build", con, ev, ms.Has("kept") && !ms.Has("kept+"), "a broker does not become a member exactly once")
				err := ms.Get("err")
				x.Check("mux.build", con, ev, err != nil && x.knownNil(err), "a broker that cannot be resolved is ignored")
			}
			for _, n := range []string{"e", "i", "c", "err", "kept", "kept+", L} {
				ms.Del(n)
			}
		case EvExit:
			if len(ev.Args) != 2 || x.knownNonNil(ev.Args[1]) {
				return
			}
			x.Check("mux.build", con, ev, ms.Has("done"), "the multiplexer is returned before all brokers were resolved")
			m := ev.Args[0]
			v := x.fieldV(list, m)
			empty := x.S.Known(atomLt(mkLen(bps), cInt(1)))
			x.Check("mux.build", con, ev, empty || ms.Get("chain") != nil && sameT(v, ms.Get("chain")), "the multiplexer gets members %v", v)
		}
	}
}
