package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- T09: the dispatch of Kafka messages ----------

const kmT = "transports.KafkaResumptionMessage."

func isPtrTo(t types.Type, n string) bool { return t != nil && shortType(t) == "*"+n }

func chanElem(t types.Type) string {
	if t == nil {
		return ""
	}
	c, ok := t.Underlying().(*types.Chan)
	if !ok {
		return ""
	}
	return shortType(c.Elem())
}

// receives: fn itself receives from (or ranges over) a channel of elem.
func receives(elem string) func(in ssa.Instruction) bool {
	return func(in ssa.Instruction) bool {
		switch u := in.(type) {
		case *ssa.UnOp:
			return u.Op.String() == "<-" && chanElem(u.X.Type()) == elem
		case *ssa.Select:
			for _, st := range u.States {
				if st.Dir == types.RecvOnly && chanElem(st.Chan.Type()) == elem {
					return true
				}
			}
		}
		return false
	}
}

type kafkaRoles struct {
	reader, dispatch, closer, beats map[*ssa.Function]bool
	messages                        map[ssa.Value]bool // the channel between the readers and the dispatcher
	heartbeats                      map[ssa.Value]bool
	parts                           map[ssa.Value]bool // the partition consumers
}

// boundArgs: the values handed to a goroutine, as arguments or captured.
func (x *Exec) boundArgs(ev *Event) []*Term {
	out := append([]*Term{}, ev.Args...)
	if ev.Recv != nil {
		out = append(out, ev.Recv)
	}
	g, ok := ev.Instr.(*ssa.Go)
	if !ok {
		return out
	}
	if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok {
		for _, b := range mc.Bindings {
			v := x.E.val(x.S, b)
			out = append(out, v)
			if p, ok := b.Type().Underlying().(*types.Pointer); ok {
				out = append(out, x.S.load(v, p.Elem()))
			}
		}
	}
	return out
}

// monReader: a partition reader passes on every message once.
func (r *kafkaRoles) monReader(x *Exec, ev *Event) {
	ms := x.MS()
	con := "partition reader of a Kafka consumer"
	switch ev.Kind {
	case EvRecv:
		if !isPtrTo(ev.Val.Typ, "sarama.ConsumerMessage") {
			return
		}
		ms.Set("cur", ev.Val)
		ms.Del("ok")
		if ev.Key != nil {
			ms.Set("ok", ev.Key)
		}
		ms.DelAll("sent", "sent+")
		ms.Set("loop", cStr(x.enclosingLoop(ev.Ctx, ev.Instr)))
		x.Check("reader.source", con, ev, ms.Get("src") != nil && sameT(ev.Chan, ms.Get("src")), "a reader receives from %v", ev.Chan)
	case EvSend:
		if !r.messages[originOf(cellOf(sentOn(ev)))] {
			return
		}
		ms.bump("sent")
		x.Check("reader.message", con, ev, ms.Get("cur") != nil && sameT(ev.Val, ms.Get("cur")) && ev.Blocking, "%v is passed on", ev.Val)
		x.Check("reader.finished", con, ev, !ms.Has("done"), "a message is passed on by a reader that counts as finished")
	case EvLoopBack:
		if l, ok := ms.Get("loop").StrOr(); ok && ev.Hdr != nil && loopSlot("", ev.Ctx, ev.Hdr) == l {
			x.Check("reader.once", con, ev, ms.once("sent"), "a message is not passed on exactly once")
		}
	case EvCall:
		if strings.HasSuffix(ev.Callee, "sarama.PartitionConsumer).Messages") {
			ms.Set("src", ev.Res)
		}
		if strings.HasSuffix(ev.Callee, "sync.WaitGroup).Done") && x.fieldLock(ev.Recv) == kcT+"shutdownWg" {
			ms.bump("done")
		}
	case EvExit:
		x.Check("reader.finished", con, ev, ms.once("done"), "a reader does not report exactly once that it has finished")
		ok := ms.Get("ok")
		x.Check("reader.end", con, ev, ok != nil && x.S.KnownNot(ok) && !ms.Has("sent"), "a reader stops although its partition may have more messages")
	}
}

// monCloser: the message channel is closed after every reader has finished.
func (r *kafkaRoles) monCloser(x *Exec, ev *Event) {
	ms := x.MS()
	con := "shutdown of a Kafka consumer"
	L := ""
	if ev.Hdr != nil {
		L = loopSlot("L", ev.Ctx, ev.Hdr)
	}
	switch ev.Kind {
	case EvRangeKey:
		if isPCs(ev.Val) {
			x.Check("stop.partitions", con, ev, r.parts[x.cell(ev.Val)], "the consumers stopped are %v", ev.Val)
			ms.Flag(L)
			ms.Set("e", ev.Res)
			ms.DelAll("n", "n+")
		}
	case EvRangeDone:
		if isPCs(ev.Val) {
			ms.Flag("all")
		}
	case EvCall:
		switch {
		case strings.HasSuffix(ev.Callee, "sarama.PartitionConsumer).Close"), strings.HasSuffix(ev.Callee, "sarama.PartitionConsumer).AsyncClose"):
			if e := ms.Get("e"); e != nil && sameT(ev.Recv, e) {
				ms.bump("n")
			}
		case strings.HasSuffix(ev.Callee, "sync.WaitGroup).Wait"):
			if x.fieldLock(ev.Recv) == kcT+"shutdownWg" {
				x.Check("stop.partitions", con, ev, ms.Has("all"), "readers are waited for before their partitions are stopped")
				ms.Flag("waited")
			}
		}
	case EvLoopBack:
		if ms.Has(L) {
			x.Check("stop.partitions", con, ev, ms.once("n"), "a partition is not stopped exactly once")
			ms.DelAll("e", "n", "n+", L)
		}
	case EvClose:
		if r.messages[x.cell(ev.Chan)] {
			x.Check("stop.order", con, ev, ms.Has("waited") && ms.Has("all"), "the message channel is closed before every partition reader has finished")
			ms.bump("closed")
		}
	case EvExit:
		x.Check("stop.closed", con, ev, ms.once("closed"), "the message channel is not closed")
	}
}

func isPCs(t *Term) bool {
	if t == nil || t.Typ == nil {
		return false
	}
	s, ok := t.Typ.Underlying().(*types.Slice)
	return ok && shortType(s.Elem()) == "sarama.PartitionConsumer"
}

// monBeats: every heartbeat is recorded.
func (r *kafkaRoles) monBeats(x *Exec, ev *Event) {
	ms := x.MS()
	con := "heartbeats of a Kafka consumer"
	switch ev.Kind {
	case EvRecv:
		if ev.Val.Typ == nil || shortType(ev.Val.Typ) != "types.Hash" {
			return
		}
		ms.Set("cur", ev.Val)
		ms.DelAll("n", "n+")
		ms.Set("loop", cStr(x.enclosingLoop(ev.Ctx, ev.Instr)))
	case EvCall:
		if strings.HasSuffix(ev.Callee, "transports.pingTracker).update") {
			ms.bump("n")
			x.Check("beat.recorded", con, ev, ms.Get("cur") != nil && sameT(ev.Args[0], ms.Get("cur")) && x.fieldLock(ev.Recv) == kcT+"pt", "%v is recorded as a heartbeat in %v", ev.Args[0], ev.Recv)
		}
	case EvLoopBack:
		if l, ok := ms.Get("loop").StrOr(); ok && ev.Hdr != nil && loopSlot("", ev.Ctx, ev.Hdr) == l {
			x.Check("beat.recorded", con, ev, ms.once("n"), "a heartbeat is not recorded exactly once")
			ms.DelAll("loop", "cur")
		}
	}
}

// monDispatch: every message is processed once, by its type.
func (r *kafkaRoles) monDispatch(x *Exec, ev *Event) {
	ms, s := x.MS(), x.S
	con := "messages dispatched by a Kafka consumer"
	cur := ms.Get("cur")
	var key, tb *Term
	if cur != nil {
		key = s.load(mk("&f", "sarama.ConsumerMessage.Key", nil, cur), types.NewSlice(types.Typ[types.Byte]))
		tb = s.load(mk("&i", "", nil, key, cInt(0)), types.Typ[types.Byte])
	}
	typ := func(n string) *Term {
		c, _ := x.E.P.constInt("delivery", n)
		return atomEq(tb, cInt(c))
	}
	received := func(what string) bool {
		ok := ms.Get("ok")
		return x.Check("block.received", con, ev, cur != nil && (ok == nil || s.Known(ok)), "%s without a message that was received", what)
	}
	nonEmpty := func() bool { return key != nil && s.KnownNot(atomLt(mkLen(key), cInt(1))) }
	handled := func() {
		ms.bump("h")
	}
	isKC := func(t *Term, f string) bool {
		cl, b, _ := x.class(t)
		return cl == kcT+f && b != nil && isPtrTo(b.Typ, "transports.KafkaConsumer") && r.own(x, b)
	}
	reorgKC := func() (is, isnt bool) {
		for f, v := range s.facts {
			if cl, b, _ := x.class(f); cl == kcT+"isReorg" && r.own(x, b) {
				return v, !v
			}
		}
		return
	}
	isHash := func(v *Term) bool {
		v = unold(v)
		if v.Op != "call" || v.Name != "types.BytesToHash" {
			return false
		}
		a := unold(v.Args[0])
		b, ok := isSliceOf(a, 1, -1)
		if !ok {
			b, ok = isSliceOf(a, 1, 33)
		}
		if !ok && a.Op == "slice" {
			lo, lok := a.Args[1].Int()
			b, ok = a.Args[0], lok && lo == 1 && sameT(a.Args[2], mkLen(key))
		}
		return ok && sameT(b, key)
	}
	beat := func(v *Term) {
		if !received("a heartbeat is recorded") {
			return
		}
		x.Check("beat.type", con, ev, s.Known(typ("PingType")), "a message that is not known to be a heartbeat is recorded as one")
		x.Check("beat.producer", con, ev, isHash(v), "the heartbeat is recorded for %v", v)
		handled()
	}
	switch ev.Kind {
	case EvRecv:
		if chanElem(ev.Chan.Typ) == "struct{}" {
			if isKC(ev.Chan, "quit") {
				ms.Flag("quit")
				if !ms.Has("loop") {
					ms.Set("loop", cStr(x.enclosingLoop(ev.Ctx, ev.Instr)))
				}
				return
			}
		}
		if rk := ms.Get("rekc"); rk != nil {
			cl, b, _ := x.class(ev.Chan)
			if cl == kcT+"ready" && b != nil && sameT(b, rk) || ms.Get("readych") != nil && sameT(ev.Chan, ms.Get("readych")) {
				x.Check("reorg.order", con, ev, ms.Has("restarted"), "a reorg consumer is waited for before it is started")
				ms.Flag("reready")
			}
		}
		if !isPtrTo(ev.Val.Typ, "sarama.ConsumerMessage") {
			return
		}
		x.Check("dispatch.source", con, ev, r.messages[originOf(cellOf(recvOn(x, ev)))], "messages are received from %v", ev.Chan)
		ms.DelAll("h", "h+", "rekc", "readych", "reready", "restarted", "reclosed", "done")
		ms.Set("cur", ev.Val)
		ms.Del("ok")
		if ev.Key != nil {
			ms.Set("ok", ev.Key)
		}
		ms.Set("loop", cStr(x.enclosingLoop(ev.Ctx, ev.Instr)))
	case EvCall:
		switch {
		case strings.HasSuffix(ev.Callee, "delivery.OrderedMessageProcessor).ProcessMessage"):
			if !received("something is processed as block data") {
				return
			}
			a := unface(ev.Args[0])
			x.Check("block.message", con, ev, sameT(x.fieldV(kmT+"msg", a), cur) && isPtrTo(a.Typ, "transports.KafkaResumptionMessage"), "%v is processed", ev.Args[0])
			x.Check("block.processor", con, ev, isKC(ev.Recv, "omp"), "the message is processed by %v", ev.Recv)
			x.Check("block.empty", con, ev, nonEmpty(), "a message that may be empty is processed as block data")
			is, _ := reorgKC()
			x.Check("block.type", con, ev, s.KnownNot(typ("PingType")) && s.KnownNot(typ("ReorgCompleteType")) && (s.KnownNot(typ("ReorgType")) || is), "a message that may be a heartbeat or the notice of a reorg is processed as block data")
			handled()
		case strings.HasSuffix(ev.Callee, "transports.pingTracker).update"):
			beat(ev.Args[0])
		case strings.HasSuffix(ev.Callee, "transports.KafkaConsumer).Start"):
			if !received("a reorg is followed") {
				return
			}
			_, isnt := reorgKC()
			x.Check("reorg.type", con, ev, nonEmpty() && s.Known(typ("ReorgType")) && isnt, "a reorg topic is consumed although the message is not known to announce a reorg")
			rk := ev.Recv
			ms.Set("rekc", rk)
			cl, b, _ := x.class(x.fieldV(kcT+"omp", rk))
			x.Check("reorg.consumer", con+", omp", ev, cl == kcT+"omp" && r.own(x, b), "the blocks of the reorg are processed by %v", x.fieldV(kcT+"omp", rk))
			cl, b, _ = x.class(x.fieldV(kcT+"client", rk))
			x.Check("reorg.consumer", con+", client", ev, cl == kcT+"client" && r.own(x, b), "the reorg is read from %v", x.fieldV(kcT+"client", rk))
			x.Check("reorg.consumer", con+", isReorg", ev, s.Known(x.fieldV(kcT+"isReorg", rk)) || x.fieldV(kcT+"isReorg", rk).isTrue(), "the consumer of a reorg topic does not know it")
			for _, f := range []string{"quit", "ready"} {
				v := x.fieldV(kcT+f, rk)
				x.Check("reorg.consumer", con+", "+f, ev, v.Op == "mkchan" || x.knownNonNil(v), "the %s channel of the consumer is %v", f, v)
			}
			rb, rok := x.fieldV(kcT+"rollback", rk).Int()
			x.Check("reorg.first", con, ev, (rok && rb < 0 || !zeroT(x.fieldV(kcT+"startHash", rk)) && x.nonZero(x.fieldV(kcT+"startHash", rk))) && x.emptyMap(x.fieldV(kcT+"resumption", rk)), "the reorg topic may not be read from its first message")
			tok := false
			var tl []*Term
			if l, ok := s.sliceElems(x.fieldV(kcT+"topics", rk)); ok {
				tl = l.Args
			}
			if len(tl) == 1 {
				p := x.strParts(tl[0])
				if len(p) == 3 && litIs(p[1], "-re-") {
					c1, b1, _ := x.class(p[0])
					h := unold(p[2])
					if h.Op == "hex" {
						h = unold(h.Args[0])
					}
					hb, hok := isSliceOf(h, 1, -1)
					tok = c1 == kcT+"defaultTopic" && r.own(x, b1) && hok && sameT(hb, key)
				}
			}
			x.Check("reorg.topic", con, ev, tok, "the topics of the reorg are %v", tl)
			ms.Set("restarted", ev.Res)
			handled()
		case strings.HasSuffix(ev.Callee, "transports.KafkaConsumer).Ready"):
			if rk := ms.Get("rekc"); rk != nil && sameT(ev.Recv, rk) {
				ms.Set("readych", ev.Res)
			}
		case strings.HasSuffix(ev.Callee, "transports.KafkaConsumer).Close"):
			if rk := ms.Get("rekc"); rk != nil && sameT(ev.Recv, rk) {
				x.Check("reorg.order", con, ev, ms.Has("reready"), "a reorg consumer is closed before it is caught up")
				ms.Flag("reclosed")
			}
		case strings.HasSuffix(ev.Callee, "sync.WaitGroup).Done"):
			if cur == nil {
				return
			}
			x.Check("reorg.done", con, ev, s.Known(typ("ReorgCompleteType")), "a reorg counts as complete on a message that does not say so")
			ms.bump("done")
			x.Check("reorg.done", con, ev, ms.once("done"), "a reorg counts as complete twice")
			handled()
		case strings.HasSuffix(ev.Callee, "sync.WaitGroup).Add"):
			if cur == nil {
				return
			}
			is, _ := reorgKC()
			n, ok := ev.Args[0].Int()
			x.Check("reorg.begin", con, ev, s.Known(typ("ReorgType")) && is && ok && n == 1, "a reorg counts as begun on a message that does not say so")
		}
	case EvSend:
		if r.heartbeats[originOf(cellOf(sentOn(ev)))] {
			x.Check("beat.lost", con, ev, ev.Blocking, "a heartbeat may be dropped")
			beat(ev.Val)
		}
	case EvClose:
		x.Check("stop.order", con, ev, !r.messages[x.cell(ev.Chan)], "the message channel is closed by the goroutine that receives from it")
	case EvGo:
		g := ev.Instr.(*ssa.Go).Call.StaticCallee()
		if r.closer[g] {
			x.Check("stop.asked", con, ev, ms.Has("quit") && !ms.Has("stopping"), "the consumer is stopped without being asked to")
			ms.Del("quit")
		}
	case EvLoopBack:
		l, _ := ms.Get("loop").StrOr()
		if ev.Hdr == nil || loopSlot("", ev.Ctx, ev.Hdr) != l {
			return
		}
		x.Check("stop.asked", con, ev, !ms.Has("quit"), "the consumer is not stopped when asked to")
		ms.Del("quit")
		if cur == nil {
			return
		}
		ok := ms.Get("ok")
		x.Check("dispatch.end", con, ev, ok == nil || s.Known(ok), "the dispatcher carries on after the message channel was closed")
		switch {
		case ms.Has("h+"):
			x.Check("dispatch.once", con, ev, false, "a message is processed twice")
		case ms.Has("h"):
			x.Check("dispatch.once", con, ev, true, "")
		default:
			empty := s.Known(atomLt(mkLen(key), cInt(1)))
			x.Check("dispatch.once", con, ev, empty || s.Known(typ("ReorgCompleteType")), "a message is not processed")
		}
		if rk := ms.Get("restarted"); rk != nil {
			failed := x.knownNonNil(rk)
			x.Check("reorg.order", con, ev, failed || ms.Has("reready") && ms.Has("reclosed"), "the consumer of a reorg topic is not waited for and closed")
		}
		ms.DelAll("cur", "ok", "h", "h+", "rekc", "readych", "reready", "restarted", "reclosed", "done")
	case EvExit:
		ok := ms.Get("ok")
		x.Check("dispatch.end", con, ev, ok != nil && s.KnownNot(ok) && !ms.Has("h"), "the dispatcher ends although messages may still come")
	}
}

// own: the consumer the goroutine belongs to, not one it creates.
func (r *kafkaRoles) own(x *Exec, b *Term) bool {
	if b == nil {
		return false
	}
	b = unold(b)
	return b.Op != "alloc"
}

// nonZero: the term is known not to be the zero value.
func (x *Exec) nonZero(t *Term) bool {
	for f, v := range x.S.facts {
		if f.Op == "eq" && !v && (sameT(f.Args[0], t) && zeroT(f.Args[1]) || sameT(f.Args[1], t) && zeroT(f.Args[0])) {
			return true
		}
	}
	return false
}

// recvOn: the channel a message was received from.
func recvOn(x *Exec, ev *Event) ssa.Value {
	switch u := ev.Instr.(type) {
	case *ssa.UnOp:
		return u.X
	case *ssa.Select:
		for _, st := range u.States {
			if st.Dir == types.RecvOnly && chanElem(st.Chan.Type()) == chanElem(ev.Chan.Typ) {
				return st.Chan
			}
		}
	}
	return nil
}

func init() {
	register("T09", func(c *Ctx) {
		c.Explain = "typestate over every path of the goroutines of a Kafka consumer (partition readers, dispatcher, heartbeats, shutdown) and of the function that starts them"
		f := c.Fn("transports.KafkaConsumer.Start")
		if f == nil {
			return
		}
		r := &kafkaRoles{map[*ssa.Function]bool{}, map[*ssa.Function]bool{}, map[*ssa.Function]bool{}, map[*ssa.Function]bool{}, map[ssa.Value]bool{}, map[ssa.Value]bool{}, map[ssa.Value]bool{}}
		o := &runOpts{forall: []string{"-"}, noInline: func(f *ssa.Function) bool {
			n := calleeName(f)
			return pkgOf(f) == "delivery" || strings.HasSuffix(n, "KafkaConsumer).Start") || strings.HasSuffix(n, "KafkaConsumer).Close") || strings.HasSuffix(n, "KafkaConsumer).Ready") || strings.HasSuffix(n, "pingTracker).update")
		}}
		roots := goRoots(f)
		isMsg := receives("*sarama.ConsumerMessage")
		var others []*ssa.Function
		for _, g := range roots {
			switch {
			case c.P.mentions(g, callsSuffix("OrderedMessageProcessor).ProcessMessage")) && c.P.mentions(g, isMsg):
				r.dispatch[g] = true
			case c.P.mentions(g, isMsg):
				r.reader[g] = true
			case c.P.mentions(g, receives("types.Hash")):
				r.beats[g] = true
			case c.P.mentions(g, callsSuffix("sarama.PartitionConsumer).Close")) || c.P.mentions(g, callsSuffix("sarama.PartitionConsumer).AsyncClose")):
				r.closer[g] = true
			default:
				others = append(others, g)
			}
		}
		c.Oblige("anchor", "goroutines", f.Pos(), len(r.dispatch) == 1 && len(r.reader) == 1 && len(r.closer) == 1 && len(r.beats) == 1, nil, "a Kafka consumer has %d dispatchers, %d readers, %d heartbeat recorders and %d ways to shut down", len(r.dispatch), len(r.reader), len(r.beats), len(r.closer))
		for _, fn := range append(allAnon(f), roots...) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch u := in.(type) {
					case *ssa.MakeChan:
						switch chanElem(u.Type()) {
						case "*sarama.ConsumerMessage":
							r.messages[u] = true
						case "types.Hash":
							r.heartbeats[u] = true
						}
					case *ssa.Alloc:
						if p, ok := u.Type().Underlying().(*types.Pointer); ok {
							if s, ok := p.Elem().Underlying().(*types.Slice); ok && shortType(s.Elem()) == "sarama.PartitionConsumer" {
								r.parts[u] = true
							}
						}
					}
				}
			}
		}
		c.Oblige("anchor", "message channel", f.Pos(), len(r.messages) == 1 && len(r.heartbeats) <= 1, nil, "there are %d channels for messages and %d for heartbeats", len(r.messages), len(r.heartbeats))
		for g := range r.reader {
			c.FlowFn(g, r.monReader, o)
		}
		for g := range r.closer {
			c.FlowFn(g, r.monCloser, o)
		}
		for g := range r.beats {
			c.FlowFn(g, r.monBeats, o)
		}
		for g := range r.dispatch {
			c.FlowFn(g, r.monDispatch, o)
		}
		c.FlowFn(f, r.monStart(others), o)
		c.Flow("transports.pingTracker.update", func(x *Exec, ev *Event) {
			con := "heartbeat table"
			switch ev.Kind {
			case EvCall:
				if ev.Callee == "time.Now" {
					x.MS().Set("now", ev.Res)
				}
			case EvMapUpdate:
				x.Check("beat.recorded", con, ev, sameT(ev.Key, rootParam(x, 1)), "a heartbeat is recorded for %v", ev.Key)
				x.Check("beat.time", con, ev, x.MS().Get("now") != nil && sameT(ev.Val, x.MS().Get("now")), "the time recorded for a heartbeat is %v", ev.Val)
				x.MS().Flag("up")
			case EvExit:
				x.Check("beat.recorded", con, ev, x.MS().Has("up"), "a heartbeat is not recorded")
			}
		}, o)
		c.Flow("transports.KafkaConsumer.Close", func(x *Exec, ev *Event) {
			ms := x.MS()
			con := "closing a Kafka consumer"
			kc := rootParam(x, 0)
			switch ev.Kind {
			case EvSend:
				cl, b, _ := x.class(ev.Chan)
				x.Check("close.asks", con, ev, cl == kcT+"quit" && b != nil && sameT(b, kc) && ev.Blocking && !ms.Has("waited"), "the request to stop is sent on %v", ev.Chan)
				ms.bump("asked")
				x.Check("close.asks", con, ev, ms.once("asked"), "the request to stop is sent twice")
			case EvClose:
				cl, _, _ := x.class(ev.Chan)
				x.Check("close.asks", con, ev, cl != kcT+"quit", "the dispatcher would be asked to stop over and over")
			case EvCall:
				if strings.HasSuffix(ev.Callee, "sync.WaitGroup).Wait") && x.fieldLock(ev.Recv) == kcT+"shutdownWg" {
					ms.Flag("waited")
				}
			case EvExit:
				x.Check("close.waits", con, ev, ms.Has("waited"), "Close returns although partition readers may still be running")
			}
		}, o)
		c.Min("close.asks", 1)
		c.Min("block.type", 1)
		c.Min("dispatch.once", 1)
		c.Min("beat.type", 1)
		c.Min("reorg.topic", 1)
		c.Min("reorg.done", 1)
		c.Min("reader.once", 1)
		c.Min("stop.order", 1)
		c.Min("stop.asked", 1)
		c.Min("start.reader", 1)
		c.Min("start.all", 1)
	})
}

// monStart: one reader for each partition that is consumed, registered with
// the shutdown group before it starts.
func (r *kafkaRoles) monStart(others []*ssa.Function) func(x *Exec, ev *Event) {
	return func(x *Exec, ev *Event) {
		ms := x.MS()
		con := "start of a Kafka consumer"
		switch ev.Kind {
		case EvCall:
			switch {
			case strings.HasSuffix(ev.Callee, "sarama.Consumer).ConsumePartition"):
				ms.DelAll("reader", "reader+", "kept", "app", "appv")
				if ev.Res.Op == "tuple" {
					ms.Set("pc", ev.Res.Args[0])
					ms.Set("err", ev.Res.Args[1])
				}
				ms.Set("loop", cStr(x.enclosingLoop(ev.Ctx, ev.Instr)))
			case strings.HasSuffix(ev.Callee, "sync.WaitGroup).Add") && x.fieldLock(ev.Recv) == kcT+"shutdownWg":
				n, ok := ev.Args[0].Int()
				x.Check("start.counted", con, ev, ok && n == 1 && !ms.Has("counted"), "readers are counted wrongly")
				ms.Flag("counted")
			case ev.Callee == "builtin append":
				if pc := ms.Get("pc"); pc != nil {
					_, els, _ := x.newElems(ev)
					for _, e := range els {
						if sameT(e, pc) {
							ms.Flag("app")
							ms.Set("appv", ev.Res)
						}
					}
				}
			}
		case EvStore:
			if st, ok := ev.Instr.(*ssa.Store); ok && r.parts[cellOf(st.Addr)] {
				switch {
				case ms.Has("app") && sameT(ev.Val, ms.Get("appv")):
					ms.Flag("kept")
				case ms.Has("any"):
					x.Check("start.kept", con, ev, false, "the list of partition consumers is replaced by %v", ev.Val)
				}
			}
		case EvGo:
			g := ev.Instr.(*ssa.Go).Call.StaticCallee()
			switch {
			case r.reader[g]:
				pc, err := ms.Get("pc"), ms.Get("err")
				in := false
				for _, a := range x.boundArgs(ev) {
					in = in || pc != nil && sameT(a, pc)
				}
				x.Check("start.reader", con, ev, in && err != nil && x.knownNil(err), "a reader is started for something that is not a partition just opened")
				x.Check("start.counted", con, ev, ms.Has("counted"), "a reader is started before the shutdown group counts it")
				ms.Del("counted")
				ms.bump("reader")
				ms.Flag("any")
			default:
				ms.bump("go:" + calleeName(g))
			}
		case EvLoopBack:
			if l, ok := ms.Get("loop").StrOr(); ok && ev.Hdr != nil && loopSlot("", ev.Ctx, ev.Hdr) == l {
				x.Check("start.reader", con, ev, ms.once("reader"), "a partition that was opened does not get exactly one reader")
				x.Check("start.kept", con, ev, ms.Has("kept"), "a partition that was opened is not kept, and so never stopped")
				ms.DelAll("reader", "reader+", "kept", "app", "appv", "pc", "err", "loop", "counted")
			}
		case EvExit:
			if !ev.Args[0].IsNil() && !x.knownNil(ev.Args[0]) {
				return
			}
			var gs []*ssa.Function
			for g := range r.dispatch {
				gs = append(gs, g)
			}
			for g := range r.beats {
				gs = append(gs, g)
			}
			gs = append(gs, others...)
			for _, g := range gs {
				x.Check("start.all", con, ev, ms.once("go:"+calleeName(g)), "%s is not started exactly once", fmt.Sprint(calleeName(g)))
			}
		}
	}
}
