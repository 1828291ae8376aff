package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- T03: broker URL options ----------

const (
	kNum  = iota // a number, used as given
	kMS          // a number of milliseconds
	kFlag        // "1" switches on
	kEnum        // a choice of names
	kUser        // credentials in the URL
)

type urlOpt struct {
	opt   string
	kind  int
	field string
	def   string            // constant used otherwise ("" leaves the client's default)
	enum  map[string]string // choice -> constant
}

// cfgPath: the setting of a *sarama.Config an address denotes ("Producer.Retry.Max").
func cfgPath(a *Term) (string, *Term) {
	var parts []string
	for a.Op == "&f" {
		parts = append([]string{fieldOnly(a.Name)}, parts...)
		if a.Args[0].Op != "&f" {
			if !strings.HasPrefix(a.Name, "sarama.Config.") {
				return "", nil
			}
			return strings.Join(parts, "."), a.Args[0]
		}
		a = a.Args[0]
	}
	return "", nil
}

func isOpt(t *Term, opt string) bool {
	t = unold(t)
	if t.Op != "call" || t.Name != "(url.Values).Get" || len(t.Args) != 2 {
		return false
	}
	o, ok := t.Args[1].Str()
	return ok && o == opt
}

func mentionsOpt(t *Term) string {
	r := ""
	t.Any(func(y *Term) bool {
		if y.Op == "call" && y.Name == "(url.Values).Get" && len(y.Args) == 2 {
			if o, ok := y.Args[1].Str(); ok {
				r = o
				return true
			}
		}
		return false
	})
	return r
}

// optIs: the option is known to have (not to have) the given value.
func (x *Exec) optIs(opt, val string) (is, isnt bool) {
	for f, v := range x.S.facts {
		if f.Op != "eq" {
			continue
		}
		for i := 0; i < 2; i++ {
			if !isOpt(f.Args[i], opt) {
				continue
			}
			c, ok := f.Args[1-i].Str()
			if !ok {
				continue
			}
			if c == val {
				is, isnt = is || v, isnt || !v
			} else if v {
				isnt = true
			}
		}
	}
	return
}

var parsers = map[string]bool{"strconv.Atoi": true, "strconv.ParseInt": true, "strconv.ParseUint": true}

// optNum: t is the option read as a number; reports whether reading it succeeded.
func (x *Exec) optNum(t *Term, opt string) (num, okKnown bool) {
	t = unold(t)
	for t.Op == "conv" {
		t = t.Args[0]
	}
	if t.Op != "call" || !strings.HasSuffix(t.Name, "#0") || !parsers[strings.TrimSuffix(t.Name, "#0")] || !isOpt(t.Args[0], opt) {
		return false, false
	}
	if len(t.Args) > 1 {
		if b, ok := t.Args[1].Int(); !ok || b != 10 {
			return false, false
		}
	}
	e := mk("call", strings.TrimSuffix(t.Name, "#0")+"#1", nil, t.Args...)
	return true, x.S.Known(atomEq(e, cNil()))
}

func saramaConst(p *Program, n string) (*Term, bool) {
	for _, sp := range p.Prog.AllPackages() {
		if sp.Pkg.Name() == "sarama" {
			if c, ok := sp.Members[n].(*ssa.NamedConst); ok {
				return cVal(c.Value.Value, c.Type()), true
			}
		}
	}
	return nil, false
}

func monURLOpt(o urlOpt) func(x *Exec, ev *Event) {
	return func(x *Exec, ev *Event) {
		ms := x.MS()
		if !ms.Has("keep") {
			ms.Set("keep", rootParam(x, 0))
		}
		con := o.opt + " -> " + o.field
		konst := func(n string) *Term {
			if c, ok := saramaConst(x.E.P, n); ok {
				return c
			}
			var i int64
			if _, err := fmt.Sscanf(n, "%d", &i); err == nil {
				return cInt(i)
			}
			return cStr(n)
		}
		untouched := func(v *Term) bool { return ms.Get("cfg0") != nil && unold(v) == unold(ms.Get("cfg0")) }
		_ = untouched
		eqK := func(v *Term, n string) bool {
			v = unold(v)
			for v.Op == "conv" {
				v = v.Args[0]
			}
			k := konst(n)
			return v == k
		}
		switch ev.Kind {
		case EvStore:
			if p, base := cfgPath(ev.Addr); p != "" {
				if p == o.field {
					if x.wasOn(base, p) {
						ms.Flag("was")
					}
					ms.Flag("set")
					ms.Set("base", base)
				} else if m := mentionsOpt(ev.Val); m == o.opt && o.kind != kUser {
					x.Check("option.only", con, ev, false, "the option %s is used for %s", o.opt, p)
				}
			}
			if o.kind == kFlag && o.field == "" && ev.Addr.Op == "global" && strings.HasSuffix(ev.Addr.Name, "sarama.Logger") {
				is, _ := x.optIs(o.opt, "1")
				x.Check("option.only", con, ev, is, "the client's log is switched on without being asked for")
				ms.Flag("set")
			}
		case EvExit:
			if len(ev.Args) != 2 {
				return
			}
			cfg := ev.Args[1]
			if o.opt == "credentials" {
				x.Check("brokers.all", "brokers of the URL", ev, isBrokerList(ev.Args[0]), "the brokers of the URL are given as %v", ev.Args[0])
			}
			if o.field == "" {
				is, isnt := x.optIs(o.opt, "1")
				x.Check("option.effect", con, ev, is && ms.Has("set") || isnt && !ms.Has("set"), "the option %s has no effect", o.opt)
				return
			}
			if ms.Has("set") {
				x.Check("option.client", con, ev, sameT(ms.Get("base"), cfg), "the setting is made on a configuration that is not returned")
			}
			v, found := x.cfgValue(cfg, o.field)
			switch o.kind {
			case kNum, kMS:
				val := v
				if found && o.kind == kMS {
					t := unold(v)
					val = junkT
					if t.Op == "bin" && t.Name == "*" {
						for i := 0; i < 2; i++ {
							if n, ok := t.Args[i].Int(); ok && n == 1000000 {
								val = t.Args[1-i]
							}
						}
					}
				}
				num, okn := false, false
				if found {
					num, okn = x.optNum(val, o.opt)
				}
				if num {
					x.Check("option.effect", con, ev, okn, "the setting %s is taken from %s although that may not be a number", o.field, o.opt)
					return
				}
				x.Check("option.effect", con, ev, !x.optGood(o.opt), "a number given as %s does not become %s", o.opt, o.field)
				x.Check("option.default", con, ev, o.def == "" && !found || found && o.def != "" && eqK(v, o.def), "without %s the setting %s is %v", o.opt, o.field, v)
			case kFlag:
				is, isnt := x.optIs(o.opt, "1")
				b, isb := false, false
				if found {
					b, isb = unold(v).Bool()
				}
				if found && !isb { // config.X = query == "1"
					t := unold(v)
					isb = t.Op == "eq" && (isOpt(t.Args[0], o.opt) || isOpt(t.Args[1], o.opt))
					x.Check("option.effect", con, ev, isb, "the setting %s is %v", o.field, v)
					return
				}
				switch {
				case is:
					x.Check("option.effect", con, ev, found && b, "%s=1 does not switch %s on", o.opt, o.field)
				default:
					x.Check("option.default", con, ev, !found || !b || ms.Has("was"), "%s is switched on without %s=1", o.field, o.opt)
					_ = isnt
				}
			case kEnum:
				hit := false
				var names []string
				for c := range o.enum {
					names = append(names, c)
				}
				sort.Strings(names)
				for _, c := range names {
					if is, _ := x.optIs(o.opt, c); is {
						hit = true
						x.Check("option.effect", con+" ("+c+")", ev, found && eqK(v, o.enum[c]), "%s=%s gives %s %v", o.opt, c, o.field, v)
					}
				}
				if !hit {
					x.Check("option.default", con, ev, o.def == "" && !found || found && eqK(v, o.def), "without %s the setting %s is %v", o.opt, o.field, v)
				}
			case kUser:
				has, hasnt := x.userInfo()
				ok := false
				switch {
				case !found:
					ok = hasnt
				case o.opt == "user":
					ok = has && isUserCall(v, "(*url.Userinfo).Username")
				case o.opt == "password":
					ok = has && isUserCall(v, "(*url.Userinfo).Password#0")
				default:
					b, _ := unold(v).Bool()
					ok = has && b
				}
				x.Check("option.effect", con, ev, ok, "the credentials of the URL give %s %v", o.field, v)
			}
		}
	}
}

func isUserCall(t *Term, n string) bool {
	t = unold(t)
	return t.Op == "call" && t.Name == n
}

// userInfo: is the URL known to have (not to have) credentials?
func (x *Exec) userInfo() (has, hasnt bool) {
	for f, v := range x.S.facts {
		if f.Op != "eq" {
			continue
		}
		for i := 0; i < 2; i++ {
			a := unold(f.Args[i])
			if a.Op == "ld" && a.Args[0].Op == "&f" && a.Args[0].Name == "url.URL.User" && f.Args[1-i].IsNil() {
				has, hasnt = has || !v, hasnt || v
			}
		}
	}
	return
}

// optGood: the option is known to be a number on this path.
func (x *Exec) optGood(opt string) bool {
	for f, v := range x.S.facts {
		if f.Op == "eq" && v {
			for i := 0; i < 2; i++ {
				a := f.Args[i]
				if f.Args[1-i].IsNil() && a.Op == "call" && parsers[strings.TrimSuffix(a.Name, "#1")] && isOpt(a.Args[0], opt) {
					return true
				}
			}
		}
	}
	return false
}

// wasOn: the setting is known to have been on by default.
func (x *Exec) wasOn(cfg *Term, path string) bool {
	for f, v := range x.S.facts {
		if f = unold(f); v && f.Op == "ld" {
			if p, b := cfgPath(f.Args[0]); p == path && sameT(b, cfg) {
				return true
			}
		}
	}
	return false
}

// isBrokerList: all of the hosts of the URL, separated by commas.
func isBrokerList(t *Term) bool {
	t = unold(t)
	if t.Op != "call" || t.Name != "strings.Split" || !litIs(t.Args[1], ",") {
		return false
	}
	h := unold(t.Args[0])
	return h.Op == "ld" && h.Args[0].Op == "&f" && h.Args[0].Name == "url.URL.Host"
}

// cfgValue: what a setting of the configuration was set to.
func (x *Exec) cfgValue(cfg *Term, path string) (*Term, bool) {
	for k, v := range x.S.mem {
		if k.Op != "ld" {
			continue
		}
		if p, b := cfgPath(k.Args[0]); p == path && sameT(b, cfg) {
			return v, true
		}
	}
	return nil, false
}

var urlOpts = []urlOpt{
	{opt: "tls", kind: kFlag, field: "Net.TLS.Enable"},
	{opt: "fetch.default", kind: kNum, field: "Consumer.Fetch.Default"},
	{opt: "max.waittime", kind: kMS, field: "Consumer.MaxWaitTime"},
	{opt: "compression.codec", kind: kEnum, field: "Producer.Compression", def: "CompressionSnappy", enum: map[string]string{
		"gzip": "CompressionGZIP", "none": "CompressionNone", "lz4": "CompressionLZ4", "zstd": "CompressionZSTD", "snappy": "CompressionSnappy"}},
	{opt: "message.send.max.retries", kind: kNum, field: "Producer.Retry.Max", def: "100"},
	{opt: "request.required.acks", kind: kNum, field: "Producer.RequiredAcks", def: "WaitForAll"},
	{opt: "retry.backoff.ms", kind: kMS, field: "Producer.Retry.Backoff"},
	{opt: "net.maxopenrequests", kind: kNum, field: "Net.MaxOpenRequests"},
	{opt: "idempotent", kind: kFlag, field: "Producer.Idempotent"},
	{opt: "log", kind: kFlag},
	{opt: "user", kind: kUser, field: "Net.SASL.User"},
	{opt: "password", kind: kUser, field: "Net.SASL.Password"},
	{opt: "credentials", kind: kUser, field: "Net.SASL.Enable"},
	{opt: "sasl.mechanism", kind: kEnum, field: "Net.SASL.Mechanism", enum: map[string]string{
		"SCRAM-SHA-256": "SASLTypeSCRAMSHA256", "SCRAM-SHA-512": "SASLTypeSCRAMSHA512", "GSSAPI": "SASLTypeGSSAPI"}},
}

func init() {
	register("T03", func(c *Ctx) {
		c.Explain = "per option, path-sensitive dataflow over ParseKafkaURL: the value of its setting on every path against what the option is known to be there; who else sets it; which hash each SCRAM client is made with"
		for _, o := range urlOpts {
			o := o
			c.Flow("transports.ParseKafkaURL", monURLOpt(o), &runOpts{irrFn: func(t *Term) bool {
				if m := mentionsOpt(t); m != "" && m != o.opt {
					return true
				}
				if t.Op == "ld" {
					if p, _ := cfgPath(t.Args[0]); p != "" && p != o.field {
						return true
					}
				}
				return false
			}})
		}
		scramRules(c)
		c.Min("brokers.all", 1)
		c.Min("option.effect", 12)
		c.Min("scram.client", 2)
		c.Min("scram.hash", 2)
		c.Min("client.config", 4)
		c.Min("option.default", 5)
	})
}

// ssaCfgPath: the setting of a sarama.Config an address denotes, statically.
func ssaCfgPath(v ssa.Value) string {
	p := ""
	for {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok {
			return ""
		}
		cl := fieldClass(fa.X.Type(), fa.Field)
		if p == "" {
			p = fieldOnly(cl)
		} else {
			p = fieldOnly(cl) + "." + p
		}
		if strings.HasPrefix(cl, "sarama.Config.") {
			return p
		}
		v = fa.X
	}
}

type scramFn struct {
	fn   *ssa.Function
	clo  *Term
	st   *State
	hash string
}

func scramRules(c *Ctx) {
	// who else sets the settings
	for _, f := range c.P.All {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					p := ssaCfgPath(st.Addr)
					if p == "" || c.Funcs[calleeName(f)] {
						continue
					}
					for _, o := range urlOpts {
						if o.field != "" && (o.field == p || strings.HasPrefix(o.field, p+".")) {
							c.Oblige("option.only", p+" set in "+calleeName(f), c.P.pos(in), false, nil, "%s is set outside of the URL options", p)
						}
					}
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok || !strings.HasPrefix(ccName(ci.Common()), "sarama.New") {
					continue
				}
				for _, a := range ci.Common().Args {
					if shortType(a.Type()) != "*sarama.Config" {
						continue
					}
					good := true
					for _, o := range origins(a) {
						ex, ok := o.(*ssa.Extract)
						k := false
						if ok {
							if call, ok := ex.Tuple.(*ssa.Call); ok {
								k = ccName(&call.Call) == "transports.ParseKafkaURL" && ex.Index == 1
							}
						}
						if u, ok := o.(*ssa.UnOp); ok {
							o = u.X
						}
						switch o.(type) {
						case *ssa.Parameter, *ssa.FreeVar:
							k = true
						}
						good = good && k
					}
					c.Oblige("client.config", ccName(ci.Common())+" in "+calleeName(f), c.P.pos(in), good, nil, "a client is created with a configuration that does not come from the broker URL")
				}
			}
		}
	}
	// SCRAM clients
	want := map[string]string{"SCRAM-SHA-256": "sha256", "SCRAM-SHA-512": "sha512"}
	opt := "sasl.mechanism"
	var fns []scramFn
	seen := map[string]bool{}
	c.Flow("transports.ParseKafkaURL", func(x *Exec, ev *Event) {
		ms := x.MS()
		if !ms.Has("keep") {
			ms.Set("keep", rootParam(x, 0))
		}
		if ev.Kind != EvExit || len(ev.Args) != 2 {
			return
		}
		v, found := x.cfgValue(ev.Args[1], "Net.SASL.SCRAMClientGeneratorFunc")
		for m, h := range want {
			is, _ := x.optIs(opt, m)
			if !is {
				continue
			}
			x.Check("scram.client", m, ev, found, "the mechanism %s comes without a SCRAM client", m)
			if !found {
				continue
			}
			v = unold(v)
			fn := x.E.P.fnByName[v.Name]
			x.Check("scram.client", m, ev, (v.Op == "closure" || v.Op == "func") && fn != nil, "the SCRAM client of %s is made by %v", m, v)
			if k := fmt.Sprintf("%d %s", v.id, h); fn != nil && !seen[k] {
				seen[k] = true
				fns = append(fns, scramFn{fn, v, x.S.clone(), h})
			}
		}
	}, &runOpts{irrFn: func(t *Term) bool {
		if m := mentionsOpt(t); m != "" && m != opt {
			return true
		}
		if t.Op == "ld" {
			if p, _ := cfgPath(t.Args[0]); p != "" && p != "Net.SASL.SCRAMClientGeneratorFunc" {
				return true
			}
		}
		return false
	}})
	for _, f := range fns {
		f := f
		c.FlowFn(f.fn, func(x *Exec, ev *Event) {
			if ev.Kind != EvExit || len(ev.Args) != 1 {
				return
			}
			r := ev.Args[0]
			g := x.fieldV("transports.XDGSCRAMClient.HashGeneratorFcn", r)
			ok := false
			if g.Op == "ld" && g.Args[0].Op == "global" {
				ok = c.P.hashGlobal(fieldOnly(g.Args[0].Name), f.hash)
			} else if g.Op == "func" || g.Op == "closure" {
				ok = makesHash(x.E.P.fnByName[g.Name], f.hash)
			}
			x.Check("scram.hash", "client for "+f.hash, ev, ok, "the SCRAM client of the %s mechanism is made with %v", f.hash, g)
		}, &runOpts{init: func(e *Engine, s *State) {
			if f.clo.Op != "closure" {
				return
			}
			for i, v := range f.fn.FreeVars {
				if i < len(f.clo.Args) {
					s.frames[0].env[v] = f.clo.Args[i]
				}
			}
			for k, v := range f.st.mem {
				s.mem[k] = v
			}
		}})
	}
	c.Flow("transports.XDGSCRAMClient.Begin", func(x *Exec, ev *Event) {
		con := "conversation begun by the SCRAM client"
		ms := x.MS()
		switch ev.Kind {
		case EvCall:
			if strings.HasSuffix(ev.Callee, "HashGeneratorFcn).NewClient") || strings.HasSuffix(ev.Callee, "HashGeneratorFcn.NewClient") {
				ms.Flag("n")
				h := ev.Recv
				ok := h != nil && h.Op == "ld" && h.Args[0].Op == "&f" && h.Args[0].Name == "transports.XDGSCRAMClient.HashGeneratorFcn" && len(ev.Args) == 3
				for i := 0; ok && i < 3; i++ {
					ok = sameT(ev.Args[i], rootParam(x, i+1))
				}
				x.Check("scram.begin", con, ev, ok, "the SCRAM client is made from %v with %v", h, ev.Args)
			}
		case EvExit:
			x.Check("scram.begin", con, ev, ms.Has("n"), "no conversation is begun")
		}
	}, nil)
}

// makesHash: fn returns the given hash.
func makesHash(fn *ssa.Function, pkg string) bool {
	if fn == nil {
		return false
	}
	if pkgOf(fn) == pkg && fn.Name() == "New" {
		return true
	}
	n, ok := 0, true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if r, isR := in.(*ssa.Return); isR {
				n++
				for _, o := range origins(r.Results[0]) {
					c, isC := o.(*ssa.Call)
					ok = ok && isC && ccName(&c.Call) == pkg+".New"
				}
			}
		}
	}
	return ok && n > 0
}

// hashGlobal: the package variable is only ever a function making the given hash.
func (p *Program) hashGlobal(name, pkg string) bool {
	n, ok := 0, true
	for _, f := range append([]*ssa.Function{p.SPkgs["transports"].Func("init")}, p.All...) {
		if f == nil || n > 0 && f.Name() == "init" && f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, isSt := in.(*ssa.Store)
				if !isSt {
					continue
				}
				g, isG := st.Addr.(*ssa.Global)
				if !isG || g.Name() != name {
					continue
				}
				n++
				for _, o := range origins(st.Val) {
					switch y := o.(type) {
					case *ssa.Function:
						ok = ok && makesHash(y, pkg)
					case *ssa.MakeClosure:
						ok = ok && makesHash(y.Fn.(*ssa.Function), pkg)
					default:
						ok = false
					}
				}
			}
		}
	}
	return ok && n == 1
}
