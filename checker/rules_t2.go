package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- T08: URL schemes ----------

const cardinalPfx = "cardinal://"

// trimmed: t is derived from url with the "cardinal://" prefix removed.
func trimmed(t, url *Term) bool {
	t = unold(t)
	return t.Any(func(y *Term) bool {
		if y.Op != "call" || len(y.Args) < 2 || !(y.Name == "strings.TrimPrefix" || strings.HasPrefix(y.Name, "strings.CutPrefix#0")) {
			return false
		}
		p, ok := y.Args[1].Str()
		if !ok || p != cardinalPfx {
			return false
		}
		u := y.Args[0]
		return sameT(u, url)
	})
}

// schemes: the protocol names the URL is known to start with on this path.
func (x *Exec) schemes(url *Term) map[string]bool {
	out := map[string]bool{}
	if url == nil {
		return out
	}
	for f, v := range x.S.facts {
		if !v {
			continue
		}
		switch {
		case f.Op == "eq":
			for i := 0; i < 2; i++ {
				if c, ok := f.Args[i].Str(); ok && isScheme(f.Args[1-i]) && trimmed(f.Args[1-i], url) {
					out[c] = true
				}
			}
		case f.Op == "call" && f.Name == "strings.HasPrefix" && trimmed(f.Args[0], url):
			if c, ok := f.Args[1].Str(); ok && strings.HasSuffix(c, "://") {
				out[strings.TrimSuffix(c, "://")] = true
			}
		}
	}
	return out
}

// isScheme: t is what precedes "://".
func isScheme(t *Term) bool {
	t = unold(t)
	switch t.Op {
	case "ld":
		if t.Args[0].Op == "&i" {
			i, ok := t.Args[0].Args[1].Int()
			c := t.Args[0].Args[0]
			if !ok || i != 0 || c.Op != "call" || !(c.Name == "strings.Split" || c.Name == "strings.SplitN") {
				return false
			}
			if c.Name == "strings.SplitN" {
				if n, ok := c.Args[2].Int(); !ok || n >= 0 && n < 2 {
					return false
				}
			}
			s, ok := c.Args[1].Str()
			return ok && s == "://"
		}
		return t.Args[0].Op == "&f" && t.Args[0].Name == "url.URL.Scheme"
	case "call":
		if t.Name == "strings.Cut#0" {
			s, ok := t.Args[1].Str()
			return ok && s == "://"
		}
	case "slice":
		return t.Args[1].Name == "none" && t.Args[2].Op == "call" && t.Args[2].Name == "strings.Index" && sameT(t.Args[2].Args[0], t.Args[0])
	}
	return false
}

func transportOf(t *Term) string {
	if t == nil || t.Typ == nil {
		return ""
	}
	switch strings.TrimPrefix(strings.TrimLeft(shortType(t.Typ), "*"), "transports.") {
	case "KafkaProducer", "KafkaConsumer":
		return "kafka"
	case "websocketProducer", "websocketConsumer":
		return "ws"
	case "nullConsumer":
		return "null"
	}
	return ""
}

func monDispatch(supported []string) func(x *Exec, ev *Event) {
	return func(x *Exec, ev *Event) {
		con := "URLs resolved by " + calleeName(x.E.Root)
		url := rootParam(x, 0)
		sc := func(t string) bool {
			s := x.schemes(url)
			return s[t] || t == "ws" && s["wss"]
		}
		sink := func(tr string, u *Term) {
			x.Check("url.scheme", con+" for "+tr, ev, sc(tr), "the %s transport is used without the URL being known to be a %s URL", tr, tr)
			x.Check("url.address", con+" for "+tr, ev, trimmed(u, url), "the %s transport is given %v, which still has the cardinal:// prefix", tr, u)
		}
		switch ev.Kind {
		case EvCall:
			switch ev.Callee {
			case "transports.ParseKafkaURL", "transports.CreateTopicIfDoesNotExist":
				sink("kafka", ev.Args[0])
			case "url.Parse":
				sink("ws", ev.Args[0])
			}
		case EvStore:
			if ev.Addr.Op == "&f" && ev.Addr.Name == "transports.websocketConsumer.url" {
				sink("ws", ev.Val)
			}
		case EvExit:
			if len(ev.Args) != 2 {
				return
			}
			r, err := ev.Args[0], ev.Args[1]
			s := x.schemes(url)
			any := false
			for _, p := range supported {
				any = any || sc(p)
			}
			if zeroT(r) {
				x.Check("url.unknown", con, ev, x.knownNonNil(err), "neither a transport nor an error is returned")
				return
			}
			tr := transportOf(r)
			if x.knownNonNil(err) && tr == "" && !any {
				return
			}
			x.Check("url.unknown", con, ev, any, "a transport is returned for a URL of an unknown scheme")
			x.Check("url.type", con, ev, tr != "" && sc(tr), "a URL known to be %v gets %v", s, r)
			for _, p := range append([]string{"wss"}, supported...) {
				if s[p] && len(s) == 1 && (p == tr || p == "wss" && tr == "ws") {
					x.Check("url.supported."+p+"."+x.E.Root.Name(), con+" for "+p, ev, true, "")
				}
			}
		}
	}
}

// monResumptionFor: ResumptionForTimestamp joins the token of every Kafka broker.
func monResumptionFor(x *Exec, ev *Event) {
	ms := x.MS()
	con := "brokers visited by " + calleeName(x.E.Root)
	bps := rootParam(x, 0)
	L := ""
	if ev.Hdr != nil {
		L = loopSlot("L", ev.Ctx, ev.Hdr)
	}
	url := func() *Term {
		e := ms.Get("e")
		if e == nil {
			return nil
		}
		return fieldOf(e, "transports.BrokerParams.URL", 0, nil)
	}
	switch ev.Kind {
	case EvRangeKey:
		if sameT(ev.Val, bps) {
			ms.Flag(L)
			ms.Set("e", ev.Res)
			for _, n := range []string{"c", "err", "kept", "kept+"} {
				ms.Del(n)
			}
		}
	case EvRangeDone:
		if sameT(ev.Val, bps) {
			ms.Flag("done")
		}
	case EvCall:
		if ev.CalleeF != nil && ev.Repo && resultsAre(ev.CalleeF, "[]byte") && len(ev.Args) == 3 {
			u := url()
			x.Check("url.scheme", con, ev, u != nil && x.schemes(u)["kafka"], "the Kafka transport is asked about a URL that is not known to be a kafka URL")
			x.Check("url.address", con, ev, u != nil && trimmed(ev.Args[0], u), "the Kafka transport is given %v, which still has the cardinal:// prefix", ev.Args[0])
			x.Check("token.args", con, ev, structField(ev.Args[1], "transports.BrokerParams.Topics", ms.Get("e")) && sameT(ev.Args[2], rootParam(x, 1)), "the position is not computed for the topics of the broker and the time given")
			ms.Set("c", ev.Res.Args[0])
			ms.Set("err", ev.Res.Args[1])
		}
		if ev.Callee == "builtin append" {
			if base, els, ok := x.newElems(ev); ok && len(els) == 1 && ms.Has("c") && sameT(els[0], ms.Get("c")) {
				ch := ms.Get("chain")
				x.Check("token.join", con, ev, ch == nil || sameT(base, ch), "tokens of earlier brokers are lost")
				ms.bump("kept")
				ms.Set("chain", ev.Res)
			}
		}
	case EvLoopBack, EvLoopExit:
		if !ms.Has(L) {
			return
		}
		if ev.Kind == EvLoopBack {
			s := x.schemes(url())
			x.Check("url.unknown", con, ev, s["kafka"] || s["null"], "a broker of an unknown scheme is passed over")
			if s["kafka"] {
				x.Check("token.join", con, ev, ms.Has("kept") && !ms.Has("kept+"), "the token of a Kafka broker is not part of the result")
				err := ms.Get("err")
				x.Check("token.error", con, ev, err != nil && x.knownNil(err), "an error is ignored")
			}
		}
		for _, n := range []string{"e", "c", "err", "kept", "kept+", L} {
			ms.Del(n)
		}
	case EvExit:
		if len(ev.Args) != 2 || x.knownNonNil(ev.Args[1]) {
			return
		}
		x.Check("token.join", con, ev, ms.Has("done"), "the token is returned before all brokers were visited")
		r := unold(ev.Args[0])
		ok := r.Op == "call" && r.Name == "bytes.Join"
		if ok {
			sep := unold(r.Args[1])
			for sep.Op == "conv" {
				sep = sep.Args[0]
			}
			c, isC := sep.Str()
			ok = isC && c == ";"
			if ch := ms.Get("chain"); ch != nil {
				ok = ok && sameT(r.Args[0], ch)
			}
		}
		x.Check("token.join", con, ev, ok, "the tokens of several brokers are returned as %v", r)
	}
}

func t08() {
	register("T08", func(c *Ctx) {
		c.Explain = "path-sensitive dataflow over the resolvers: which scheme the URL is known to have on every path that reaches a transport or returns, and which address the transport is given"
		o := &runOpts{noInline: func(f *ssa.Function) bool {
			n := calleeName(f)
			return pkgOf(f) == "delivery" || n == "transports.ParseKafkaURL" || n == "transports.CreateTopicIfDoesNotExist" || strings.HasSuffix(n, "websocketProducer).Serve") || strings.HasSuffix(n, "websocketProducer.Serve")
		}}
		c.Flow("transports.ResolveProducer", monDispatch([]string{"kafka"}), o)
		c.Flow("transports.ResolveProducerWithResumer", monDispatch([]string{"kafka", "ws"}), o)
		c.Flow("transports.ResolveConsumer", monDispatch([]string{"kafka", "ws", "null"}), o)
		c.Flow("transports.ResumptionForTimestamp", monResumptionFor, &runOpts{noInline: func(f *ssa.Function) bool { return resultsAre(f, "[]byte") }})
		c.Min("url.scheme", 6)
		c.Min("url.address", 6)
		for _, n := range []string{"kafka.ResolveProducer", "kafka.ResolveProducerWithResumer", "ws.ResolveProducerWithResumer", "wss.ResolveProducerWithResumer", "kafka.ResolveConsumer", "ws.ResolveConsumer", "wss.ResolveConsumer", "null.ResolveConsumer"} {
			c.Min("url.supported."+n, 1)
		}
		c.Min("url.unknown", 4)
	})
}

func init() { t08() }
