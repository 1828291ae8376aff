package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- T04: resumption tokens ----------

// strParts flattens the building of a string into literals and values.
func (x *Exec) strParts(t *Term) []*Term {
	var out []*Term
	lit := func(s string) {
		if s == "" {
			return
		}
		if n := len(out); n > 0 {
			if p, ok := out[n-1].Str(); ok {
				out[n-1] = cStr(p + s)
				return
			}
		}
		out = append(out, cStr(s))
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		t = unold(t)
		if s, ok := t.Str(); ok {
			lit(s)
			return
		}
		switch t.Op {
		case "bin":
			if t.Name == "+" {
				walk(t.Args[0])
				walk(t.Args[1])
				return
			}
		case "conv":
			if t.Args[0].Op == "call" || t.Args[0].Op == "conv" {
				walk(t.Args[0])
				return
			}
		case "call":
			switch t.Name {
			case "strconv.Itoa":
				w := t.Args[0]
				for w.Op == "conv" {
					w = w.Args[0]
				}
				out = append(out, w)
				return
			case "strconv.FormatInt", "strconv.FormatUint":
				if b, ok := t.Args[1].Int(); ok && b == 10 {
					w := t.Args[0]
					for w.Op == "conv" {
						w = w.Args[0]
					}
					out = append(out, w)
					return
				}
			case "encoding/hex.EncodeToString", "hex.EncodeToString":
				out = append(out, mk("hex", "", types.Typ[types.String], t.Args[0]))
				return
			case "fmt.Sprintf":
				f, ok := t.Args[0].Str()
				var as []*Term
				if len(t.Args) > 1 {
					if t.Args[1].Op != "list" {
						break
					}
					as = t.Args[1].Args
				}
				if !ok {
					break
				}
				var tmp []*Term
				save := out
				out = nil
				good := true
				for len(f) > 0 && good {
					i := strings.IndexByte(f, '%')
					if i < 0 {
						lit(f)
						break
					}
					lit(f[:i])
					if i+1 >= len(f) {
						good = false
						break
					}
					switch f[i+1] {
					case '%':
						lit("%")
					case 'v', 's', 'd':
						if len(as) == 0 {
							good = false
							break
						}
						walk(as[0])
						as = as[1:]
					case 'x':
						if len(as) == 0 {
							good = false
							break
						}
						out = append(out, mk("hex", "", types.Typ[types.String], as[0]))
						as = as[1:]
					default:
						good = false
					}
					f = f[i+2:]
				}
				tmp = out
				out = save
				if good && len(as) == 0 {
					for _, y := range tmp {
						if s, ok := y.Str(); ok {
							lit(s)
						} else {
							out = append(out, y)
						}
					}
					return
				}
			}
		}
		out = append(out, t)
	}
	walk(t)
	return out
}

func litIs(t *Term, s string) bool { c, ok := t.Str(); return ok && c == s }

// isMsgField: t is field f of the Kafka message the receiver wraps.
func isMsgField(t *Term, f string, recv *Term) bool {
	t = unold(t)
	if t.Op != "ld" || t.Args[0].Op != "&f" || t.Args[0].Name != "sarama.ConsumerMessage."+f {
		return false
	}
	m := t.Args[0].Args[0]
	return m.Op == "ld" && m.Args[0].Op == "&f" && m.Args[0].Name == "transports.KafkaResumptionMessage.msg" && sameT(m.Args[0].Args[0], recv)
}

func monAccessor(field string) func(x *Exec, ev *Event) {
	return func(x *Exec, ev *Event) {
		if ev.Kind == EvExit {
			x.Check("message.field", "Kafka message "+field, ev, len(ev.Args) == 1 && isMsgField(ev.Args[0], field, rootParam(x, 0)), "the %s of a message is given as %v", field, ev.Args)
		}
	}
}

// chainOf follows a list built by append: base must be what was built before.
func (x *Exec) chainOK(base *Term) bool {
	if ch := x.MS().Get("chain"); ch != nil {
		return sameT(base, ch)
	}
	if n, ok := mkLen(base).Int(); ok {
		return n == 0
	}
	return x.S.Known(atomLt(mkLen(base), cInt(1))) || rootObj(base).Op != "mkslice" && x.S.fresh[rootObj(base)] || base.Op == "phi" && x.startsEmpty(base, map[*Term]bool{})
}

// startsEmpty: base is a loop variable that starts as an empty list and is
// only ever appended to (nothing was appended on this path so far).
func (x *Exec) startsEmpty(t *Term, seen map[*Term]bool) bool {
	if t.Op == "append" || t.Op == "list" {
		return true // what an append on another path gave
	}
	if n, ok := mkLen(t).Int(); ok {
		return n == 0
	}
	if t.Op != "phi" {
		return false
	}
	if seen[t] {
		return true
	}
	seen[t] = true
	for src := range x.E.phiSrc[t] {
		if !x.startsEmpty(src, seen) {
			return false
		}
	}
	return len(x.E.phiSrc[t]) > 0
}

func joined(t *Term, chain *Term, sep string) bool {
	t = unold(t)
	for t.Op == "conv" {
		t = t.Args[0]
	}
	if t.Op != "call" || t.Name != "strings.Join" || !litIs(t.Args[1], sep) {
		return false
	}
	return chain == nil || sameT(t.Args[0], chain)
}

// monTokenWrite: PendingBatch.Resumption.
func monTokenWrite(x *Exec, ev *Event) {
	ms := x.MS()
	con := "tokens written for a block"
	switch ev.Kind {
	case EvRangeKey:
		if c, _, _ := x.class(ev.Val); c == pbT+"resumption" || c == pbT+"resumptionDefaults" {
			ms.Set("k", ev.Key)
			ms.Set("v", ev.Res)
			ms.Set("c", ev.Val)
			ms.Set("w", cStr(strings.TrimPrefix(c, pbT)))
			ms.Del("n")
			ms.Del("n+")
			if c == pbT+"resumption" {
				ms.Flag("own")
			}
			ms.Flag(loopSlot("L", ev.Ctx, ev.Hdr))
		} else if M := ms.Get("M"); M != nil && sameT(M, ev.Val) {
			ms.Set("k", ev.Key)
			ms.Set("v", ev.Res)
			ms.Set("c", ev.Val)
			ms.Set("w", cStr("merged"))
			ms.Del("n")
			ms.Del("n+")
			ms.Flag(loopSlot("L", ev.Ctx, ev.Hdr))
		}
	case EvMapUpdate:
		if x.mergePosition(ev, rootParam(x, 0), func(ok bool) {
			x.Check("token.all", con, ev, ok, "a default replaces a position of the block")
		}) {
			ms.bump("n")
		}
	case EvRangeDone:
		if c, b, _ := x.class(ev.Val); b != nil && sameT(b, rootParam(x, 0)) {
			if c == pbT+"resumption" {
				ms.Flag("done1")
			} else if c == pbT+"resumptionDefaults" {
				ms.Flag("done2")
			}
		}
		x.mergeDone(ev, ms.Has("done1") && ms.Has("done2"))
	case EvLoopBack, EvLoopExit:
		if L := loopSlot("L", ev.Ctx, ev.Hdr); ms.Has(L) {
			if ev.Kind == EvLoopBack {
				// a default is left out only if there is a position for its source
				res := x.fieldV(pbT+"resumption", rootParam(x, 0))
				over := x.S.Known(mkHas(res, ms.Get("k"))) && !sameT(ms.Get("c"), res)
				x.Check("token.all", con, ev, !ms.Has("n+") && (ms.Has("n") || over), "a position is left out of the token")
			}
			for _, n := range []string{"k", "v", "c", "w", "n", "n+", L} {
				ms.Del(n)
			}
		}
	case EvCall:
		if ev.Callee == "builtin append" {
			base, els, ok := x.newElems(ev)
			if !ok {
				return
			}
			for _, e := range els {
				p := x.strParts(e)
				k, v := ms.Get("k"), ms.Get("v")
				x.Check("token.format", con, ev, k != nil && len(p) == 3 && sameT(p[0], k) && litIs(p[1], "=") && sameT(p[2], v), "a position is written as %v", p)
				ms.bump("n")
				if c := ms.Get("c"); c != nil && sameT(c, x.fieldV(pbT+"resumption", rootParam(x, 0))) {
					ms.Flag("own.direct")
				}
			}
			x.Check("token.format", con, ev, x.chainOK(base), "positions are lost")
			ms.Set("chain", ev.Res)
		}
	case EvExit:
		r := ev.Args[0]
		x.Check("token.all", con, ev, ms.Has("done1") && ms.Has("done2") && x.mergeOK(), "positions are left out of the token")
		x.Check("token.join", con, ev, joined(r, ms.Get("chain"), ";") || ms.Get("chain") == nil && zeroT(r), "the token of a block is %v", r)
	}
}

// monTokenTime: the token for a point in time.
func monTokenTime(x *Exec, ev *Event) {
	ms := x.MS()
	con := "tokens written for a time"
	topics := rootParam(x, 1)
	L := ""
	if ev.Hdr != nil {
		L = loopSlot("L", ev.Ctx, ev.Hdr)
	}
	isParts := func(c *Term) bool { return c != nil && ms.Get("parts") != nil && sameT(c, ms.Get("parts")) }
	switch ev.Kind {
	case EvRangeKey:
		if sameT(ev.Val, topics) {
			ms.Flag(L + ":t")
			ms.Set("topic", ev.Res)
			for _, n := range []string{"parts", "pdone"} {
				ms.Del(n)
			}
		} else if isParts(ev.Val) {
			ms.Flag(L + ":p")
			ms.Set("part", ev.Res)
			for _, n := range []string{"off", "err", "kept", "kept+"} {
				ms.Del(n)
			}
		}
	case EvRangeDone:
		if sameT(ev.Val, topics) {
			ms.Flag("done")
		} else if isParts(ev.Val) {
			ms.Flag("pdone")
		}
	case EvCall:
		switch {
		case strings.HasSuffix(ev.Callee, "sarama.Client).Partitions"):
			x.Check("token.args", con, ev, ms.Get("topic") != nil && sameT(ev.Args[0], ms.Get("topic")), "the partitions of %v are visited", ev.Args[0])
			ms.Set("parts", ev.Res.Args[0])
			ms.Set("perr", ev.Res.Args[1])
		case strings.HasSuffix(ev.Callee, "sarama.Client).GetOffset"):
			ok := ms.Get("part") != nil && sameT(ev.Args[0], ms.Get("topic")) && sameT(ev.Args[1], ms.Get("part")) && sameT(ev.Args[2], rootParam(x, 2))
			x.Check("token.args", con, ev, ok, "the position is asked of %v", ev.Args)
			ms.Set("off", ev.Res.Args[0])
			ms.Set("err", ev.Res.Args[1])
		case ev.Callee == "builtin append":
			base, els, ok := x.newElems(ev)
			if !ok {
				return
			}
			for _, e := range els {
				p := x.strParts(e)
				good := ms.Get("off") != nil && len(p) == 5 && sameT(p[0], ms.Get("topic")) && litIs(p[1], ":") && sameT(p[2], ms.Get("part")) && litIs(p[3], "=") && sameT(p[4], ms.Get("off"))
				x.Check("token.format", con, ev, good, "a position is written as %v", p)
				x.Check("token.error", con, ev, ms.Get("err") != nil && x.knownNil(ms.Get("err")), "a position that could not be read is written")
				ms.bump("kept")
			}
			x.Check("token.format", con, ev, x.chainOK(base), "positions are lost")
			ms.Set("chain", ev.Res)
		}
	case EvLoopBack, EvLoopExit:
		if ms.Has(L + ":p") {
			if ev.Kind == EvLoopBack {
				x.Check("token.all", con, ev, ms.Has("kept") && !ms.Has("kept+"), "a partition is left out of the token")
			}
			for _, n := range []string{"part", "off", "err", "kept", "kept+", L + ":p"} {
				ms.Del(n)
			}
		} else if ms.Has(L + ":t") {
			if ev.Kind == EvLoopBack {
				x.Check("token.all", con, ev, ms.Has("pdone") && ms.Get("perr") != nil && x.knownNil(ms.Get("perr")), "a topic is left out of the token")
			}
			for _, n := range []string{"topic", "parts", "perr", "pdone", L + ":t"} {
				ms.Del(n)
			}
		}
	case EvExit:
		if len(ev.Args) != 2 || x.knownNonNil(ev.Args[1]) {
			return
		}
		x.Check("token.all", con, ev, ms.Has("done"), "topics are left out of the token")
		x.Check("token.join", con, ev, joined(ev.Args[0], ms.Get("chain"), ";"), "the token is %v", ev.Args[0])
	}
}

// splitOf: t is piece i of the text cut at sep.
func splitOf(t *Term, sep string, i int64) (*Term, bool) {
	t = unold(t)
	if t.Op == "call" && (t.Name == "strings.Cut#0" && i == 0 || t.Name == "strings.Cut#1" && i == 1) {
		return t.Args[0], litIs(t.Args[1], sep)
	}
	if t.Op == "ld" && t.Args[0].Op == "&i" {
		n, ok := t.Args[0].Args[1].Int()
		c := t.Args[0].Args[0]
		if ok && n == i && c.Op == "call" && (c.Name == "strings.Split" || c.Name == "strings.SplitN") {
			return c.Args[0], litIs(c.Args[1], sep)
		}
	}
	return nil, false
}

// monTokenRead: the token as a Kafka consumer reads it.
func monTokenRead(x *Exec, ev *Event) {
	ms := x.MS()
	con := "tokens read by " + calleeName(x.E.Root)
	var tok *Term
	for i, p := range x.E.Root.Params {
		if p.Type().String() == "[]byte" {
			tok = rootParam(x, i)
		}
	}
	if tok == nil {
		return
	}
	L := ""
	if ev.Hdr != nil {
		L = loopSlot("L", ev.Ctx, ev.Hdr)
	}
	isToks := func(c *Term) bool {
		c = unold(c)
		if c.Op != "call" || c.Name != "strings.Split" || !litIs(c.Args[1], ";") {
			return false
		}
		s := c.Args[0]
		for s.Op == "conv" {
			s = s.Args[0]
		}
		return sameT(s, tok)
	}
	switch ev.Kind {
	case EvRangeKey:
		if isToks(ev.Val) {
			ms.Flag(L)
			ms.Set("e", ev.Res)
			ms.Del("n")
			ms.Del("n+")
		}
	case EvRangeDone:
		if isToks(ev.Val) {
			ms.Flag("done")
		}
	case EvMapUpdate:
		e := ms.Get("e")
		if e == nil {
			return
		}
		k, okk := splitOf(ev.Key, "=", 0)
		v := unold(ev.Val)
		wide := true
		for v.Op == "conv" {
			wide = wide && v.Typ != nil && (v.Typ.String() == "int64" || v.Typ.String() == "int")
			v = v.Args[0]
		}
		okv := false
		if v.Op == "call" && strings.HasSuffix(v.Name, "#0") && parsers[strings.TrimSuffix(v.Name, "#0")] {
			s, ok := splitOf(v.Args[0], "=", 1)
			er := mk("call", strings.TrimSuffix(v.Name, "#0")+"#1", nil, v.Args...)
			okv = wide && ok && sameT(s, e) && x.S.Known(atomEq(er, cNil()))
			if len(v.Args) > 1 {
				if b, ok := v.Args[1].Int(); !ok || b != 10 {
					okv = false
				}
			}
			if len(v.Args) > 2 {
				if b, ok := v.Args[2].Int(); !ok || b != 0 && b != 64 {
					okv = false
				}
			}
		}
		x.Check("token.read", con, ev, okk && sameT(k, e) && okv, "a position is read as %v = %v", ev.Key, ev.Val)
		ms.bump("n")
		ms.Set("m", ev.Map)
	case EvLoopBack, EvLoopExit:
		if ms.Has(L) {
			if ev.Kind == EvLoopBack {
				// a token without the separator is skipped, nothing else
				x.Check("token.read", con, ev, ms.Has("n") && !ms.Has("n+") || x.notPair(ms.Get("e")), "a position in the token is skipped")
			}
			for _, n := range []string{"e", "n", "n+", L} {
				ms.Del(n)
			}
		}
	case EvExit:
		if len(ev.Args) != 2 || x.knownNonNil(ev.Args[1]) {
			return
		}
		x.Check("token.read", con, ev, ms.Has("done"), "the consumer is created before the token was read")
		r := ev.Args[0]
		m := x.fieldV("transports.KafkaConsumer.resumption", r)
		x.Check("token.keep", con, ev, ms.Get("m") == nil || sameT(m, ms.Get("m")), "the positions read are not the consumer's")
		for i, p := range x.E.Root.Params {
			switch p.Name() {
			case "rollback":
				x.Check("token.keep", con+", rollback", ev, sameT(x.fieldV("transports.KafkaConsumer.rollback", r), rootParam(x, i)), "the consumer's rollback is another")
			case "lastHash":
				x.Check("token.keep", con+", last hash", ev, sameT(x.fieldV("transports.KafkaConsumer.startHash", r), rootParam(x, i)), "the consumer's last hash is another")
			case "topics":
				x.Check("token.keep", con+", topics", ev, sameT(x.fieldV("transports.KafkaConsumer.topics", r), rootParam(x, i)), "the consumer's topics are others")
			}
		}
	}
}

// notPair: the token is known not to have the form key=value.
func (x *Exec) notPair(e *Term) bool {
	if e == nil {
		return false
	}
	for f, v := range x.S.facts {
		switch f.Op {
		case "eq":
			for i := 0; i < 2; i++ {
				a, b := f.Args[i], f.Args[1-i]
				n, ok := b.Int()
				if a.Op == "len" && ok {
					c := unold(a.Args[0])
					if c.Op == "call" && (c.Name == "strings.Split" || c.Name == "strings.SplitN") && sameT(c.Args[0], e) && litIs(c.Args[1], "=") && (n == 2) != v {
						return true
					}
				}
			}
			for i := 0; i < 2; i++ {
				if sameT(f.Args[i], e) && v && litIs(f.Args[1-i], "") {
					return true
				}
			}
		case "lt":
			if f.Args[0].Op == "len" {
				c := unold(f.Args[0].Args[0])
				n, ok := f.Args[1].Int()
				if ok && c.Op == "call" && strings.HasPrefix(c.Name, "strings.Split") && sameT(c.Args[0], e) && (v && n <= 2 || !v && n > 2) {
					return true
				}
			}
		case "call":
			if !v && (f.Name == "strings.Cut#2" || f.Name == "strings.Contains") && sameT(f.Args[0], e) {
				return true
			}
		}
	}
	return x.S.Known(atomLt(mkLen(e), cInt(1)))
}

const kcT = "transports.KafkaConsumer."

// monStartOffset: where a partition is consumed from.
func monStartOffset(x *Exec, ev *Event) {
	ms, s := x.MS(), x.S
	kc := rootParam(x, 0)
	con := "partitions started by " + calleeName(x.E.Root)
	L := ""
	if ev.Hdr != nil {
		L = loopSlot("L", ev.Ctx, ev.Hdr)
	}
	isTopics := func(c *Term) bool {
		cl, b, _ := x.class(c)
		return cl == kcT+"topics" && b != nil
	}
	isParts := func(c *Term) bool { return ms.Get("parts") != nil && sameT(c, ms.Get("parts")) }
	switch ev.Kind {
	case EvRangeKey:
		if isTopics(ev.Val) {
			ms.Flag(L + ":t")
			ms.Set("topic", ev.Res)
		} else if isParts(ev.Val) {
			ms.Flag(L + ":p")
			ms.Set("part", ev.Res)
			ms.DelPrefix("try")
		}
	case EvLoopBack, EvLoopExit:
		if ms.Has(L + ":p") {
			for _, n := range []string{"part", "tried", L + ":p", "newest", "nerr"} {
				ms.Del(n)
			}
			ms.DelPrefix("try")
		} else if ms.Has(L + ":t") {
			for _, n := range []string{"topic", "parts", L + ":t"} {
				ms.Del(n)
			}
		}
	case EvCall:
		switch {
		case strings.HasSuffix(ev.Callee, "sarama.Consumer).Partitions"):
			x.Check("start.partitions", con, ev, ms.Get("topic") != nil && sameT(ev.Args[0], ms.Get("topic")), "the partitions of %v are consumed", ev.Args[0])
			ms.Set("parts", ev.Res.Args[0])
		case strings.HasSuffix(ev.Callee, "sarama.Client).GetOffset"):
			if n, ok := ev.Args[2].Int(); ok && n == -1 {
				ms.Set("newest", ev.Res.Args[0])
			}
		case strings.HasSuffix(ev.Callee, "sarama.Consumer).ConsumePartition"):
			t, p := ms.Get("topic"), ms.Get("part")
			x.Check("start.partitions", con, ev, t != nil && p != nil && sameT(ev.Args[0], t) && sameT(ev.Args[1], p), "partition %v of %v is consumed", ev.Args[1], ev.Args[0])
			off := unold(ev.Args[2])
			// the recorded position, if any
			m := x.fieldV(kcT+"resumption", kc)
			var R, has *Term
			for f := range s.facts {
				if f.Op == "has" && sameT(f.Args[0], m) {
					q := x.strParts(f.Args[1])
					if len(q) == 3 && t != nil && sameT(q[0], t) && litIs(q[1], ":") && p != nil && sameT(q[2], p) {
						has = f
						R = s.readMap(m, f.Args[1], nil)
					}
				}
			}
			rb := x.fieldV(kcT+"rollback", kc)
			if !x.Check("start.key", con, ev, has != nil, "a partition is consumed without looking up its recorded position under topic:partition") {
				return
			}
			n, isC := off.Int()
			switch {
			case isC && n == -2:
				x.Check("start.never-later", con, ev, true, "")
			case s.Known(has) && !s.Known(atomLt(R, cInt(0))):
				b, k := linear(off)
				exact := off.Op == "bin" && off.Name == "-" && sameT(off.Args[0], R) && sameT(off.Args[1], rb)
				back := exact && s.KnownNot(atomLt(R, rb))
				atPos := sameT(off, R) && ms.Has("tryR")
				_ = b
				_ = k
				x.Check("start.never-later", con, ev, back || atPos, "with position %v recorded the partition is consumed from %v", R, off)
				if exact {
					ms.Flag("tryR")
				}
			default:
				// nothing recorded: from the start, unless tracking starts now
				z := false
				sh := x.fieldV(kcT+"startHash", kc)
				for f, v := range s.facts {
					if f.Op == "eq" && v && (sameT(f.Args[0], sh) && zeroT(f.Args[1]) || sameT(f.Args[1], sh) && zeroT(f.Args[0])) {
						z = true
					}
				}
				x.Check("start.oldest", con, ev, z && s.KnownNot(atomLt(rb, cInt(0))), "with nothing recorded, but a block to continue from, the partition is consumed from %v", off)
			}
		}
	}
}

func init() {
	register("T04", func(c *Ctx) {
		c.Explain = "the text of every resumption token as built on every path (literals and values), against how the consumer takes it apart; the offset every partition is consumed from against the recorded position on every path"
		c.Flow("transports.KafkaResumptionMessage.Source", func(x *Exec, ev *Event) {
			if ev.Kind == EvExit {
				p := x.strParts(ev.Args[0])
				r := rootParam(x, 0)
				x.Check("token.source", "source of a Kafka message", ev, len(p) == 3 && isMsgField(p[0], "Topic", r) && litIs(p[1], ":") && isMsgField(p[2], "Partition", r), "the source of a message is written as %v", p)
			}
		}, nil)
		c.Flow("transports.KafkaResumptionMessage.Offset", monAccessor("Offset"), nil)
		c.Flow("delivery.PendingBatch.Resumption", monTokenWrite, nil)
		c.Flow("transports.kafkaResumptionForTimestamp", monTokenTime, &runOpts{noInline: func(f *ssa.Function) bool { return calleeName(f) == "transports.ParseKafkaURL" }})
		c.Flow("transports.ResumptionForTimestamp", monResumptionFor, &runOpts{noInline: func(f *ssa.Function) bool { return resultsAre(f, "[]byte") }})
		ni := func(f *ssa.Function) bool {
			return pkgOf(f) == "delivery" || calleeName(f) == "transports.ParseKafkaURL"
		}
		c.Flow("transports.kafkaConsumerWithOMP", monTokenRead, &runOpts{noInline: ni})
		c.Flow("transports.KafkaConsumer.Start", monStartOffset, &runOpts{noInline: ni})
		c.Min("token.format", 2)
		c.Min("token.read", 1)
		c.Min("token.join", 3)
		c.Min("start.never-later", 1)
		c.Min("start.oldest", 1)
	})
}
