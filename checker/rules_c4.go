package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// collect lists everything that may have been appended to a slice, following loop
// variables; ok is false when part of it is unknown.
func (e *Engine) collect(t *Term) (elems []*Term, ok bool) {
	seen := map[*Term]bool{}
	ok = true
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case "list":
			elems = append(elems, t.Args...)
		case "append":
			walk(t.Args[0])
			walk(t.Args[1])
		case "phi":
			if len(e.phiSrc[t]) == 0 {
				ok = false
			}
			for v := range e.phiSrc[t] {
				if v.junk {
					ok = false
					continue
				}
				walk(v)
			}
		case "mkslice":
			if c, isc := mkLen(t).Int(); !isc || c != 0 {
				ok = false
			}
		case "const":
			if !t.IsNil() {
				ok = false
			}
		case "old":
			walk(t.Args[0])
		default:
			ok = false
		}
	}
	walk(t)
	return
}

// formatted splits a formatted string into its literal parts and arguments.
func formatted(t *Term) (lits []string, args []*Term, ok bool) { return formattedV(t, "vds") }

func formattedV(t *Term, verbs string) (lits []string, args []*Term, ok bool) {
	t = unold(t)
	switch {
	case t.Op == "call" && t.Name == "fmt.Sprintf" && len(t.Args) == 2:
		f, isc := t.Args[0].Str()
		if !isc || t.Args[1].Op != "list" {
			return nil, nil, false
		}
		cur := ""
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				cur += string(f[i])
				continue
			}
			i++
			for len(verbs) > 3 && i < len(f) && strings.IndexByte("#+0123456789", f[i]) >= 0 {
				i++
			}
			if i >= len(f) {
				return nil, nil, false
			}
			switch {
			case f[i] == '%':
				cur += "%"
			case strings.IndexByte(verbs, f[i]) >= 0:
				if len(args) >= len(t.Args[1].Args) {
					return nil, nil, false
				}
				lits = append(lits, cur)
				cur = ""
				args = append(args, t.Args[1].Args[len(args)])
			default:
				return nil, nil, false
			}
		}
		if len(args) != len(t.Args[1].Args) {
			return nil, nil, false
		}
		return append(lits, cur), args, true
	case t.Op == "bin" && t.Name == "+":
		l1, a1, o1 := formattedV(t.Args[0], verbs)
		l2, a2, o2 := formattedV(t.Args[1], verbs)
		if !o1 || !o2 {
			return nil, nil, false
		}
		lits = append(append([]string{}, l1[:len(l1)-1]...), l1[len(l1)-1]+l2[0])
		lits = append(lits, l2[1:]...)
		return lits, append(append([]*Term{}, a1...), a2...), true
	case t.Op == "call" && (t.Name == "strconv.FormatInt" && len(t.Args) == 2 || t.Name == "strconv.Itoa"):
		if len(t.Args) == 2 {
			if b, isc := t.Args[1].Int(); !isc || b != 10 {
				return nil, nil, false
			}
		}
		return []string{"", ""}, []*Term{t.Args[0]}, true
	}
	if c, isc := t.Str(); isc {
		return []string{c}, nil, true
	}
	return []string{"", ""}, []*Term{t}, true
}

// isEntryOf: t is the text k=v.
func isEntryOf(t, k, v *Term) bool {
	lits, args, ok := formatted(t)
	if !ok || len(args) != 2 || strings.Join(lits, "|") != "|=|" {
		return false
	}
	strip := func(t *Term) *Term {
		for t.Op == "conv" {
			t = t.Args[0]
		}
		return t
	}
	return sameT(strip(args[0]), k) && sameT(strip(args[1]), v)
}

// covered: the block's resumption position for the source of m is known to be at or
// before m.
func (x *Exec) covered(m *Term) bool {
	src, off := msgCall("Source", m), msgCall("Offset", m)
	for f, v := range x.S.facts {
		if f.Op != "has" || !v || !sameT(f.Args[1], src) {
			continue
		}
		if c, _, _ := x.class(f.Args[0]); c != pbT+"resumption" {
			continue
		}
		cur := x.S.readMap(f.Args[0], f.Args[1], types.Typ[types.Int64])
		for _, c := range []*Term{cur, mkAt(f.Args[0], f.Args[1], nil)} {
			if sameT(c, off) || x.S.KnownNot(atomLt(off, c)) {
				return true
			}
		}
	}
	return false
}

func (x *Exec) furthest(m *Term) bool {
	src, off := msgCall("Source", m), msgCall("Offset", m)
	for f, v := range x.S.facts {
		if f.Op != "has" || !v || !sameT(f.Args[1], src) {
			continue
		}
		if c, _, _ := x.class(f.Args[0]); c != mpT+"resumption" {
			continue
		}
		cur := x.S.readMap(f.Args[0], f.Args[1], types.Typ[types.Int64])
		for _, c := range []*Term{cur, mkAt(f.Args[0], f.Args[1], nil)} {
			if sameT(c, off) || x.S.KnownNot(atomLt(c, off)) {
				return true
			}
		}
	}
	return false
}

func mon07(x *Exec, ev *Event) {
	trackDecode(x, ev)
	ms := x.MS()
	s := x.S
	v := x.view()
	fn := "?"
	if ev.Fn != nil {
		fn = calleeName(ev.Fn)
	}
	curMsg := func() *Term {
		if c := ms.Get("cur"); c != nil {
			return c
		}
		return v.m
	}
	latch := func() {
		m := curMsg()
		if !ms.Has("cov") && x.covered(m) {
			ms.Flag("cov")
		}
		if !ms.Has("adv") && x.furthest(v.m) {
			ms.Flag("adv")
		}
	}
	done := func(what string) {
		latch()
		if ms.Has("contrib") {
			x.Check("covered", "messages that contribute are covered by the resumption position ("+what+")", ev, ms.Has("cov"), "a message contributed to a block but the block's resumption position for its source may be beyond it")
		}
	}
	switch ev.Kind {
	case EvBranch, EvLeave:
		latch()
	case EvRangeKey:
		cl, _, _ := x.class(ev.Val)
		switch cl {
		case pbT + "pendingMessages":
			done("message")
			ms.Del("contrib")
			ms.Del("cov")
			ms.Set(loopSlot("pq", ev.Ctx, ev.Hdr), tTrue)
			ms.Set("cur", mkAt(ev.Val, ev.Key, nil))
		case mpT + "resumption":
			ms.Set(loopSlot("rc", ev.Ctx, ev.Hdr), tTrue)
			ms.Set("rk", ev.Key)
			ms.Set("rv", mkAt(ev.Val, ev.Key, nil))
			ms.Del("rc")
		}
	case EvLoopBack, EvLoopExit:
		if ms.Has(loopSlot("pq", ev.Ctx, ev.Hdr)) {
			done("retained message")
			ms.Del("contrib")
			ms.Del("cov")
			ms.Del(loopSlot("pq", ev.Ctx, ev.Hdr))
			ms.Del("cur")
			ms.Flag("rootdone")
		}
		if ms.Has(loopSlot("rc", ev.Ctx, ev.Hdr)) {
			if ev.Kind == EvLoopBack && !ms.Has("rc") {
				ms.Flag("rcbad")
			}
			for _, k := range []string{"rk", "rv"} {
				ms.Del(k)
			}
			ms.Del(loopSlot("rc", ev.Ctx, ev.Hdr))
		}
	case EvRangeDone:
		if cl, _, _ := x.class(unold(ev.Val)); cl == mpT+"resumption" {
			if !ms.Has("rcbad") {
				ms.Flag("copied")
			}
			ms.Del("rcbad")
		}
	case EvExit:
		if !ms.Has("rootdone") {
			done("message")
		}
		x.Check("advance", "every message advances the position of its source", ev, ms.Has("adv") || x.keyShort(v.m, 33), "a message is processed without its position being recorded")
	}
	// a copy of the recorded positions
	if ev.Kind == EvMapUpdate && ev.Map.Op == "mkmap" && ms.Has("rk") {
		if sameT(ev.Key, ms.Get("rk")) && sameT(ev.Val, ms.Get("rv")) {
			ms.Set("rc", ev.Map)
			ms.Set("copy", ev.Map)
		}
	}
	f := x.eff(ev)
	if f == nil {
		return
	}
	switch f.Kind {
	case "mp.pend+":
		ms.Flag("contrib")
		d := x.fieldV(pbT+"resumptionDefaults", f.Val)
		ok := d.Op == "mkmap" && (ms.Has("copied") && (ms.Get("copy") == nil || sameT(ms.Get("copy"), d)))
		x.Check("defaults", "other sources are reported at the furthest position seen, in "+fn, ev, ok, "the positions reported for sources without messages are %v, not a complete copy of the furthest positions seen", d)
		r := x.fieldV(pbT+"resumption", f.Val)
		x.Check("fresh", "positions of a new block start out empty, in "+fn, ev, r.Op == "mkmap" && (s.fresh[r] || ms.Get("resok") == r && !ms.Has("resbad")), "the positions of a new block are %v", r)
	case "values+", "deletes+", "flag", "batches+", "sb-":
		ms.Flag("contrib")
	case "prefix+":
		if ms.Get("hkey") == nil {
			ms.Flag("contrib")
		}
	case "res+":
		m, oks := isMsgCall(unold(f.Key), "Source")
		m2, oko := isMsgCall(unold(f.Val), "Offset")
		good := oks && oko && sameT(m, m2)
		x.Check("own", "position recorded in "+fn, ev, good, "position %v is recorded for source %v", f.Val, f.Key)
		if f.Map.Op == "mkmap" {
			if good && sameT(m, curMsg()) {
				ms.Set("resok", f.Map)
			} else {
				ms.Flag("resbad")
			}
		}
		cur := s.readMap(f.Map, f.Key, types.Typ[types.Int64])
		at := mkAt(f.Map, f.Key, nil)
		less := s.KnownNot(mkHas(f.Map, f.Key)) || s.Known(atomLt(f.Val, at)) || s.Known(atomLt(f.Val, cur)) || s.KnownNot(atomLt(at, f.Val)) || s.KnownNot(atomLt(cur, f.Val)) || s.fresh[f.Map]
		x.Check("min", "the earliest position is kept in "+fn, ev, less, "the position of a source may move past a message that contributed to the block")
		if good && sameT(m, curMsg()) && x.pbOfMsg(f.PB, m) {
			ms.Flag("cov")
		}
	case "res-", "resdef-", "resdef+", "field:res", "field:resdef":
		if strings.HasPrefix(f.Kind, "field:") && isFreshObj(f.PB) && (s.fresh[f.PB] || f.PB.Op == "alloc") {
			return
		}
		if f.Kind == "resdef+" && ms.Has("rk") && sameT(f.Key, ms.Get("rk")) {
			return
		}
		x.Check("keep", "recorded positions are kept, in "+fn, ev, false, "recorded positions of a block are changed (%s)", f.Kind)
	case "mp.res+":
		m, oks := isMsgCall(unold(f.Key), "Source")
		m2, oko := isMsgCall(unold(f.Val), "Offset")
		good := oks && oko && sameT(m, m2)
		x.Check("own", "furthest position recorded in "+fn, ev, good, "position %v is recorded for source %v", f.Val, f.Key)
		cur := s.readMap(f.Map, f.Key, types.Typ[types.Int64])
		at := mkAt(f.Map, f.Key, nil)
		more := s.KnownNot(mkHas(f.Map, f.Key)) || s.Known(atomLt(at, f.Val)) || s.Known(atomLt(cur, f.Val)) || s.KnownNot(atomLt(f.Val, at)) || s.KnownNot(atomLt(f.Val, cur))
		x.Check("max", "the furthest position is kept in "+fn, ev, more, "the furthest position of a source may move backwards")
		if good && sameT(m, v.m) {
			ms.Flag("adv")
		}
	case "mp.res-", "field:mp.res":
		if f.Kind == "field:mp.res" && f.PB != nil && isFreshObj(f.PB) {
			return
		}
		x.Check("keep", "recorded positions are kept, in "+fn, ev, false, "the furthest positions are forgotten")
	}
}

// mergePosition: a position of the block is put into a map of its own, in which
// its own positions replace the default ones.
func (x *Exec) mergePosition(ev *Event, pb *Term, own func(ok bool)) bool {
	ms := x.MS()
	if !(x.S.fresh[ev.Map] || isFreshObj(ev.Map)) || !ms.Has("k") || !sameT(ev.Key, ms.Get("k")) || !sameT(ev.Val, ms.Get("v")) && !sameT(ev.Val, mkAt(x.fieldV(pbT+"resumption", pb), ev.Key, nil)) {
		return false
	}
	if M := ms.Get("M"); M != nil && !sameT(M, ev.Map) {
		return false
	}
	ms.Set("M", ev.Map)
	res := x.fieldV(pbT+"resumption", pb)
	switch w, _ := ms.Get("w").Str(); w {
	case "resumption":
		ms.Flag("own.M")
	case "resumptionDefaults":
		own(!ms.Has("own") || x.S.KnownNot(mkHas(res, ev.Key)) || x.S.KnownNot(mkHas(ev.Map, ev.Key)))
	default:
		return false
	}
	return true
}

func (x *Exec) mergeDone(ev *Event, all bool) {
	ms := x.MS()
	if M := ms.Get("M"); M != nil && sameT(M, ev.Val) && all {
		ms.Flag("M.done")
	}
}

// mergeOK: positions that were merged were all written.
func (x *Exec) mergeOK() bool {
	ms := x.MS()
	return !ms.Has("M") || ms.Has("M.done") && !ms.Has("own.direct")
}

// monRes checks how the positions of a block are written out.
func monRes(x *Exec, ev *Event) {
	ms := x.MS()
	pb := x.E.paramOfType("*delivery.PendingBatch")
	if pb == nil {
		return
	}
	switch ev.Kind {
	case EvRangeKey:
		cl, b, _ := x.class(ev.Val)
		if (cl == pbT+"resumption" || cl == pbT+"resumptionDefaults") && sameT(b, pb) {
			ms.Set(loopSlot("r", ev.Ctx, ev.Hdr), cStr(strings.TrimPrefix(cl, pbT)))
			ms.Set("k", ev.Key)
			ms.Set("v", mkAt(ev.Val, ev.Key, nil))
			ms.Set("w", cStr(strings.TrimPrefix(cl, pbT)))
			ms.Del("e")
			ms.Del("sup")
			if cl == pbT+"resumption" {
				ms.Flag("own")
			}
		} else if M := ms.Get("M"); M != nil && sameT(M, ev.Val) {
			ms.Set(loopSlot("r", ev.Ctx, ev.Hdr), cStr("merged"))
			ms.Set("k", ev.Key)
			ms.Set("v", mkAt(ev.Val, ev.Key, nil))
			ms.Set("w", cStr("merged"))
			ms.Del("e")
		}
	case EvMapUpdate:
		if x.mergePosition(ev, pb, func(ok bool) {
			x.Check("token.own", "the block's own position wins", ev, ok, "the default position of a source may be written although the block has its own position for it")
		}) {
			if ms.Has("e") {
				ms.Flag("twice")
			}
			ms.Flag("e")
		}
	case EvBranch:
		if k := ms.Get("k"); k != nil {
			if w, _ := ms.Get("w").Str(); w == "resumptionDefaults" {
				res := x.fieldV(pbT+"resumption", pb)
				if x.S.Known(mkHas(res, k)) {
					ms.Flag("sup")
				}
			}
		}
	case EvCall:
		if ev.Callee == "builtin append" && ms.Has("k") && len(ev.Args) == 2 {
			if l, ok := x.S.sliceElems(ev.Args[1]); ok && len(l.Args) == 1 && isEntryOf(l.Args[0], ms.Get("k"), ms.Get("v")) {
				w, _ := ms.Get("w").Str()
				if ms.Has("e") {
					ms.Flag("twice")
				}
				if w == "resumption" {
					ms.Flag("own.direct")
				}
				if w == "resumptionDefaults" {
					res := x.fieldV(pbT+"resumption", pb)
					x.Check("token.own", "the block's own position wins", ev, x.S.KnownNot(mkHas(res, ms.Get("k"))), "the default position of a source may be written although the block has its own position for it")
				}
				ms.Flag("e")
			}
		}
	case EvLoopBack:
		if w := ms.Get(loopSlot("r", ev.Ctx, ev.Hdr)); w != nil {
			n, _ := w.Str()
			x.Check("token.entries", "every entry of "+n+" is written once", ev, (ms.Has("e") || n == "resumptionDefaults" && ms.Has("sup")) && !ms.Has("twice"), "a recorded position of %s is not written as source=offset exactly once", n)
			for _, k := range []string{"k", "v", "w", "e", "sup", "twice"} {
				ms.Del(k)
			}
			ms.Del(loopSlot("r", ev.Ctx, ev.Hdr))
		}
	case EvLoopExit:
		ms.Del(loopSlot("r", ev.Ctx, ev.Hdr))
	case EvRangeDone:
		cl, b, _ := x.class(unold(ev.Val))
		if b != nil && sameT(b, pb) {
			ms.Flag("done:" + cl)
		}
		x.mergeDone(ev, ms.Has("done:"+pbT+"resumption") && ms.Has("done:"+pbT+"resumptionDefaults"))
	case EvExit:
		x.Check("token.all", "all positions are written", ev, ms.Has("done:"+pbT+"resumption") && ms.Has("done:"+pbT+"resumptionDefaults") && x.mergeOK(), "not all recorded positions are written into the token")
		r := unold(ev.Res)
		ok := false
		if r.Op == "call" && r.Name == "strings.Join" {
			if sep, isc := r.Args[1].Str(); isc && sep == ";" {
				es, all := x.E.collect(r.Args[0])
				ok = all
				for _, e := range es {
					lits, args, k := formatted(e)
					if !k || len(args) != 2 || strings.Join(lits, "|") != "|=|" {
						ok = false
					}
				}
			}
		}
		x.Check("token.format", "entries are joined with ;", ev, ok, "the token is %v, not the entries joined with ;", r)
	}
}

func init() {
	mpRoot := "delivery.MessageProcessor.ProcessMessage"
	register("C07", func(c *Ctx) {
		c.Explain = "typestate over message processing: which messages contributed, and what is known about the recorded positions of their sources at that point; plus who may write positions"
		irr := []string{pbT + "failedReconstructPanic", mpT + "failedReconstructPanic", pbT + "waitCh", mpT + "lastEmittedNum", mpT + "reorgThreshold", mpT + "evictCh", mpT + "trackedPrefixes", pbT + "Number"}
		c.Flow(mpRoot, mon07, &runOpts{irrelevant: irr, forall: []string{"none"}})
		c.Flow("delivery.PendingBatch.Resumption", monRes, &runOpts{})
		for _, fld := range []string{pbT + "resumption", pbT + "resumptionDefaults", mpT + "resumption"} {
			for _, w := range c.P.writesTo(fld) {
				ok := w.Kind == "store" && w.Fresh || w.Kind == "update" && c.Funcs[calleeName(w.Fn)]
				c.Oblige("writers", fld+" written in "+calleeName(w.Fn), c.P.pos(w.In), ok, nil, "recorded positions are changed outside message processing")
			}
		}
		c.Min("covered", 2)
		c.Min("own", 2)
		c.Min("min", 1)
		c.Min("max", 1)
		c.Min("token", 4)
		c.Min("defaults", 1)
	})
	_ = ssa.NaiveForm
}
