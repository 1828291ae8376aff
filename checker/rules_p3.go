package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// monGetKey: a key is the type byte followed by all components in order.
func monGetKey(x *Exec, ev *Event) {
	ms := x.MS()
	mt, comps := rootParam(x, 0), rootParam(x, 1)
	const cn = "message keys built by GetKey"
	isType := func(t *Term) bool {
		t = unold(t)
		return t == mt || t.Op == "conv" && t.Args[0] == mt
	}
	// a loop that only looks at the components
	startsOK := func(t *Term) bool {
		n := x.normSlice(t)
		return n.Op == "list" && len(n.Args) == 1 && isType(n.Args[0])
	}
	switch ev.Kind {
	case EvRangeKey:
		if sameT(ev.Val, comps) {
			ms.Flag(loopSlot("L", ev.Ctx, ev.Hdr))
			ms.Set("e", ev.Res)
			ms.Del("n")
		}
	case EvRangeDone:
		if sameT(ev.Val, comps) {
			x.Check("key.components", cn, ev, !(ms.Has("some") && ms.Has("none")), "a key component is not added")
			if ms.Has("some") || !ms.Has("none") {
				ms.Flag("done")
			}
			ms.Del("some")
			ms.Del("none")
		}
	case EvLoopBack, EvLoopExit:
		if ms.Has(loopSlot("L", ev.Ctx, ev.Hdr)) {
			if ev.Kind == EvLoopBack {
				x.Check("key.components", cn, ev, !ms.Has("n+"), "a key component is added twice")
				if ms.Has("n") {
					ms.Flag("some")
				} else {
					ms.Flag("none")
				}
			}
			ms.Del("n")
			ms.Del("n+")
			ms.Del("e")
			ms.Del(loopSlot("L", ev.Ctx, ev.Hdr))
		}
	case EvStore:
		if ev.Addr.Op == "&i" {
			i, ok := ev.Addr.Args[1].Int()
			if ok && i == 0 && isType(ev.Val) && isFreshObj(ev.Addr.Args[0]) {
				ms.Set("start", ev.Addr.Args[0])
				return
			}
			if ch := ms.Get("chain"); ch != nil && sameT(ev.Addr.Args[0], ch) {
				x.Check("key.components", cn, ev, false, "a byte of the key is overwritten")
			}
		}
	case EvCall:
		if ev.Callee != "builtin append" || len(ev.Args) != 2 {
			return
		}
		ch := ms.Get("chain")
		base := ev.Args[0]
		ok := false
		if ch != nil {
			ok = sameT(base, ch)
		} else {
			ok = startsOK(base)
			if st := ms.Get("start"); st != nil && sameT(base, st) {
				if n, k := mkLen(base).Int(); k && n == 1 {
					ok = true
				}
			}
			if n := x.normSlice(base); n.Op == "list" && len(n.Args) == 0 || n.IsNil() {
				if l, k := x.S.sliceElems(ev.Args[1]); k && len(l.Args) == 1 && isType(l.Args[0]) {
					ms.Set("chain", ev.Res)
					return
				}
			}
		}
		e := ms.Get("e")
		switch {
		case ok && e != nil && sameT(ev.Args[1], e):
			ms.bump("n")
			ms.Set("chain", ev.Res)
		case ok && ev.Args[1].Op == "call" && ev.Args[1].Name == "bytes.Join" && sameT(ev.Args[1].Args[0], comps) && zeroT(ev.Args[1].Args[1]):
			ms.Flag("done")
			ms.Set("chain", ev.Res)
		default:
			x.Check("key.components", cn, ev, false, "%v is added to %v", ev.Args[1], base)
		}
	case EvExit:
		ch := ms.Get("chain")
		r := ev.Res
		ok := ch != nil && sameT(r, ch) || ch == nil && (startsOK(r) || ms.Get("start") != nil && sameT(r, ms.Get("start")))
		x.Check("key.result", cn, ev, ok && ms.Has("done"), "the key returned is %v, not the type byte followed by all components", r)
	}
}

// monReorgMsg: the message announcing a reorg.
func monReorgMsg(typ string) func(x *Exec, ev *Event) {
	return func(x *Exec, ev *Event) {
		trackEncode(x, ev)
		if ev.Kind != EvExit || len(ev.Args) != 1 {
			return
		}
		m := ev.Args[0]
		key, val := x.fieldV("delivery.message.key", m), x.fieldV("delivery.message.value", m)
		n, parts, ok := x.keyParts(key)
		want, _ := x.E.P.constInt("delivery", typ)
		h := (*Term)(nil)
		if ok && len(parts) == 1 {
			h, _ = hashBytes(parts[0])
		}
		x.Check("reorg.key", typ+" message", ev, ok && n == want && h != nil && sameT(h, rootParam(x, 2)), "the key of the %s message is %v", typ, key)
		i, ok := x.avroInt(val)
		num := rootParam(x, 1)
		x.Check("reorg.value", typ+" message", ev, ok && (sameT(i, num) || i.Op == "conv" && sameT(i.Args[0], num)), "the %s message does not carry the number", typ)
	}
}

// globalInit: the constant passed to avro.MustParse for a package variable.
func (p *Program) globalInit(pkg, name string) (string, bool) {
	sp := p.SPkgs[pkg]
	if sp == nil {
		return "", false
	}
	init := sp.Func("init")
	g, _ := sp.Members[name].(*ssa.Global)
	if init == nil || g == nil {
		return "", false
	}
	n := 0
	res := ""
	for _, f := range p.All {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || st.Addr != ssa.Value(g) {
					continue
				}
				n++
				if c, ok := st.Val.(*ssa.Call); ok && ccName(&c.Call) == "avro.MustParse" {
					if k, ok := c.Call.Args[0].(*ssa.Const); ok && k.Value.Kind() == constant.String {
						res = constant.StringVal(k.Value)
					}
				}
			}
		}
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok || st.Addr != ssa.Value(g) || res != "" {
				continue
			}
			n++
			if c, ok := st.Val.(*ssa.Call); ok && ccName(&c.Call) == "avro.MustParse" {
				if k, ok := c.Call.Args[0].(*ssa.Const); ok && k.Value.Kind() == constant.String {
					res = constant.StringVal(k.Value)
				}
			}
		}
	}
	return res, n == 1 && res != ""
}

var specTable = []struct {
	section, konst string
	value          int64
}{
	{"Batch", "BatchType", 0}, {"SubBatchHeader", "SubBatchHeaderType", 1}, {"SubBatchMsg", "SubBatchMsgType", 2}, {"BatchMsg", "BatchMsgType", 3},
	{"BatchDeleteMsg", "BatchDeleteMsgType", 4}, {"Reorg", "ReorgType", 5}, {"ReorgComplete", "ReorgCompleteType", 6},
}

func schemaSame(a, b string) bool {
	var x, y interface{}
	if json.Unmarshal([]byte(a), &x) != nil || json.Unmarshal([]byte(b), &y) != nil {
		return strings.Trim(strings.TrimSpace(a), `"`) == strings.Trim(strings.TrimSpace(b), `"`)
	}
	return reflect.DeepEqual(x, y)
}

func wireFormat(c *Ctx) {
	spec, err := os.ReadFile(filepath.Join(c.P.Dir, "SPEC.md"))
	sections := map[string]string{}
	if err == nil {
		cur := ""
		for _, l := range strings.Split(string(spec), "\n") {
			if strings.HasPrefix(l, "#### ") {
				cur = strings.TrimSpace(strings.TrimPrefix(l, "#### "))
			} else if strings.HasPrefix(l, "### ") || strings.HasPrefix(l, "## ") {
				cur = ""
			}
			if cur != "" {
				sections[cur] += l + "\n"
			}
		}
	}
	pre := regexp.MustCompile("Prefix Byte:\\*\\s*`\\\\x([0-9a-fA-F]{2})`")
	blk := regexp.MustCompile("(?s)```\\s*(\\{.*?\\})\\s*```")
	for _, t := range specTable {
		want := t.value
		if m := pre.FindStringSubmatch(sections[t.section]); m != nil {
			fmt.Sscanf(m[1], "%x", &want)
		}
		v, ok := c.P.constInt("delivery", t.konst)
		c.Oblige("type-byte", t.konst, 0, ok && v == want, nil, "%s is %d, the published prefix byte is %d", t.konst, v, want)
	}
	seen := map[int64]string{}
	for _, n := range []string{"BatchType", "SubBatchHeaderType", "SubBatchMsgType", "BatchMsgType", "BatchDeleteMsgType", "ReorgType", "ReorgCompleteType", "PingType"} {
		v, ok := c.P.constInt("delivery", n)
		if !ok {
			continue
		}
		c.Oblige("type-byte", n+" is distinct", 0, seen[v] == "", nil, "%s and %s share the type byte %d", n, seen[v], v)
		seen[v] = n
	}
	for _, g := range []struct{ global, section string }{{"batchSchema", "Batch"}, {"updateSchema", "SubBatchMsg"}} {
		s, ok := c.P.globalInit("delivery", g.global)
		m := blk.FindStringSubmatch(sections[g.section])
		c.Oblige("schema", g.global, 0, ok && m != nil && schemaSame(s, m[1]), nil, "the schema %s is not the one published for %s in SPEC.md", g.global, g.section)
	}
	s, ok := c.P.globalInit("delivery", "intSchema")
	c.Oblige("schema", "intSchema", 0, ok && schemaSame(s, `"int"`), nil, "numbers are not encoded as an Avro int")
	// field tags
	for _, f := range []struct{ typ, field, tag string }{
		{"Batch", "Number", "num"}, {"Batch", "Weight", "weight"}, {"Batch", "ParentHash", "parent"}, {"Batch", "Updates", "updates"},
		{"BatchRecord", "Value", "value"}, {"BatchRecord", "Count", "count"}, {"BatchRecord", "Subbatch", "subbatch"}, {"BatchRecord", "Delete", "delete"},
		{"SubBatchRecord", "Delete", "delete"}, {"SubBatchRecord", "Updates", "updates"},
	} {
		good := false
		if sp := c.P.SPkgs["delivery"]; sp != nil {
			if t := sp.Type(f.typ); t != nil {
				if st, ok := isStruct(t.Type()); ok {
					n := 0
					for i := 0; i < st.NumFields(); i++ {
						if tag := reflect.StructTag(st.Tag(i)).Get("avro"); tag == f.tag {
							n++
							good = st.Field(i).Name() == f.field
						}
					}
					good = good && n == 1
				}
			}
		}
		c.Oblige("tag", f.typ+"."+f.field, 0, good, nil, "the schema field %q is not exactly the field %s of %s", f.tag, f.field, f.typ)
	}
	// every (de)serialisation uses the schema of the type it handles
	want := map[string]string{"batchSchema": "Batch", "updateSchema": "SubBatchRecord", "intSchema": "int"}
	for _, cs := range c.P.callsTo(func(n string) bool { return n == "avro.Marshal" || n == "avro.Unmarshal" }) {
		if pkgOf(cs.Fn) != "delivery" || decoderFns[cs.Fn] {
			continue
		}
		args := cs.In.Common().Args
		g := ""
		for _, o := range origins(args[0]) {
			if u, ok := o.(*ssa.UnOp); ok {
				if gl, ok := u.X.(*ssa.Global); ok {
					g = gl.Name()
				}
			}
		}
		obj := args[len(args)-1]
		tn := ""
		for _, o := range origins(obj) {
			t := o.Type()
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			n := strings.TrimPrefix(strings.TrimLeft(shortType(t), "*"), "delivery.")
			if tn != "" && tn != n {
				tn = "several types"
			} else {
				tn = n
			}
		}
		c.Oblige("schema.use", "schemas used in "+calleeName(cs.Fn)+" for "+tn, c.P.pos(cs.In), g != "" && want[g] == tn, nil, "a %s is coded with %s", tn, g)
	}
}

// producerState: who may change what a producer remembers.
func producerState(c *Ctx) {
	n := 0
	for _, w := range c.P.writesTo(prT + "pendingBatches") {
		f := calleeName(w.Fn)
		ok := c.Funcs[f] || w.Fresh && w.Kind == "store"
		c.Oblige("writers", "registered sub-batches changed in "+f, c.P.pos(w.In), ok, nil, "the registered sub-batches of a producer are changed outside of AddBlock and SendBatch")
		n++
	}
	for _, k := range []string{"topic", "block"} {
		for _, w := range c.P.writesTo("delivery.batchInfo." + k) {
			f := calleeName(w.Fn)
			c.Oblige("writers", "sub-batch "+k+" changed in "+f, c.P.pos(w.In), c.Funcs[f] || w.Fresh, nil, "the %s of a registered sub-batch is changed after its block was added", k)
		}
	}
	for _, k := range []string{"schema", "defaultTopic"} {
		for _, w := range c.P.writesTo(prT + k) {
			f := calleeName(w.Fn)
			c.Oblige("writers", "producer "+k+" changed in "+f, c.P.pos(w.In), w.Fresh, nil, "the %s of a producer is changed after its creation", k)
			n++
		}
	}
	c.Oblige("coverage", "producer state", 0, n >= 3, nil, "the writes to the producer state are no longer found")
}

var nondet = []string{"time.Now", "time.Since", "time.After", "rand.", "(*rand.", "os.", "runtime.", "uuid.", "unsafe.", "atomic.", "net.", "(*sync."}

// deterministic: nothing reachable from the root depends on anything but its input.
func deterministic(c *Ctx, roots ...string) {
	seen := map[*ssa.Function]bool{}
	var work []*ssa.Function
	for _, r := range roots {
		if f := c.Fn(r); f != nil {
			work = append(work, f)
		}
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[f] {
			continue
		}
		seen[f] = true
		c.Funcs[calleeName(f)] = true
		work = append(work, f.AnonFuncs...)
		bad := ""
		pos := f.Pos()
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch y := in.(type) {
				case *ssa.Go, *ssa.Select, *ssa.Send:
					bad, pos = "concurrency", c.P.pos(in)
				case *ssa.UnOp:
					if g, ok := y.X.(*ssa.Global); ok && y.Op.String() == "*" && c.P.globalWritten(g) {
						bad, pos = "the mutable package variable "+g.Name(), c.P.pos(in)
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					n := ccName(ci.Common())
					if hasAnyPrefix(n, nondet) {
						bad, pos = n, c.P.pos(in)
					}
					if strings.HasPrefix(n, "fmt.Sprint") {
						for _, a := range ci.Common().Args {
							if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && strings.Contains(constant.StringVal(k.Value), "%p") {
								bad, pos = "an address", c.P.pos(in)
							}
						}
					}
					if g := ci.Common().StaticCallee(); g != nil && c.P.inRepo(g) {
						work = append(work, g)
					}
				}
			}
		}
		c.Oblige("deterministic", "what "+calleeName(f)+" depends on", pos, bad == "", nil, "the messages of a producer may depend on %s", bad)
	}
}

// globalWritten: a package variable that is changed after initialisation.
func (p *Program) globalWritten(g *ssa.Global) bool {
	for _, f := range p.All {
		if f.Name() == "init" && f.Synthetic != "" || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
					return true
				}
			}
		}
	}
	return false
}

// monNewProducer: P06 over NewProducer.
func monNewProducer(x *Exec, ev *Event) {
	ms := x.MS()
	s := x.S
	schema := rootParam(x, 1)
	fn := x.fnEv(ev)
	strip := func(t *Term) *Term {
		t = unold(t)
		for t.Op == "call" && (t.Name == "strings.TrimPrefix" || t.Name == "strings.TrimLeft") && len(t.Args) == 2 {
			if p, ok := t.Args[1].Str(); !ok || p != "^" {
				return junkT
			}
			ms.Flag("trim")
			t = unold(t.Args[0])
		}
		return t
	}
	// noOverlap: HasPrefix between the two expressions (anchors removed) is known to be false
	noOverlap := func(i, j *Term) bool {
		if i == j || s.Known(atomEq(i, j)) {
			return true
		}
		for f, v := range s.facts {
			if v || f.Op != "call" || f.Name != "strings.HasPrefix" {
				continue
			}
			a, b := f.Args[0], f.Args[1]
			if a.Op != "call" || b.Op != "call" {
				continue // the anchor must not tell the expressions apart
			}
			a, b = strip(a), strip(b)
			if sameT(a, i) && sameT(b, j) || sameT(a, j) && sameT(b, i) {
				return true
			}
		}
		return false
	}
	anchored := func(t, k *Term) bool {
		// "^(?:" + k + ")"
		var parts []*Term
		var flat func(t *Term)
		flat = func(t *Term) {
			if t.Op == "bin" && t.Name == "+" {
				flat(t.Args[0])
				flat(t.Args[1])
				return
			}
			if l := len(parts); l > 0 {
				if a, ok := parts[l-1].Str(); ok {
					if b, ok := t.Str(); ok {
						parts[l-1] = cStr(a + b)
						return
					}
				}
			}
			parts = append(parts, t)
		}
		flat(unold(t))
		if len(parts) == 1 && parts[0].Op == "call" && parts[0].Name == "fmt.Sprintf" && len(parts[0].Args) == 2 && parts[0].Args[1].Op == "list" && len(parts[0].Args[1].Args) == 1 {
			f, _ := parts[0].Args[0].Str()
			if i := strings.Index(f, "%s"); i >= 0 && !strings.Contains(f[i+2:], "%") && !strings.Contains(f[:i], "%") {
				parts = []*Term{cStr(f[:i]), parts[0].Args[1].Args[0], cStr(f[i+2:])}
			}
		}
		if len(parts) != 3 || !(sameT(parts[1], k) || sameT(strip(parts[1]), k)) {
			return false
		}
		a, ok1 := parts[0].Str()
		b, ok2 := parts[2].Str()
		return ok1 && ok2 && b == ")" && (a == "^(?:" || a == "^(" || a == `\A(?:` || a == `\A(`)
	}
	pair := func(re, topic *Term, ev *Event) {
		k := ms.Get("k")
		if k == nil {
			x.Check("entry", "schema entries in "+fn, ev, false, "a schema entry is created outside of the loop over the schema")
			return
		}
		okr := re.Op == "call" && strings.HasPrefix(re.Name, "regexp.Compile") && anchored(re.Args[0], k)
		errk := false
		if okr {
			e := mk("call", "regexp.Compile#1", nil, re.Args[0])
			for f, v := range s.facts {
				if f.Op == "eq" && v && (f.Args[0].IsNil() || f.Args[1].IsNil()) {
					a := f.Args[0]
					if a.IsNil() {
						a = f.Args[1]
					}
					if a.Op == "call" && a.Name == e.Name && sameT(a.Args[0], re.Args[0]) {
						errk = true
					}
				}
			}
		}
		x.Check("anchored", "schema expressions compiled in "+fn, ev, okr, "a schema expression is matched as %v, which is not anchored at the start of the key as a whole", re)
		x.Check("invalid", "schema expressions compiled in "+fn, ev, !okr || errk, "an invalid schema expression is accepted")
		t := unold(topic)
		x.Check("topic", "topics of schema entries in "+fn, ev, t.Op == "at" && sameT(t.Args[0], schema) && sameT(t.Args[1], k), "the topic of a schema entry is %v", topic)
		ms.bump("made")
	}
	if !ms.Has("init") {
		ms.Flag("init")
		ms.linSet("n", cInt(0))
	}
	switch ev.Kind {
	case EvRangeKey:
		if sameT(ev.Val, schema) {
			if !ms.Has("k") {
				ms.Flag(loopSlot("Lo", ev.Ctx, ev.Hdr))
				ms.Set("k", ev.Key)
				ms.Del("made")
				ms.Del("made+")
				ms.Del("ov")
				return
			}
			ms.Flag(loopSlot("Li", ev.Ctx, ev.Hdr))
			ms.Set("j", ev.Key)
			return
		}
	case EvRangeDone:
		if sameT(ev.Val, schema) {
			if ms.Has("k") {
				ms.Flag("ov")
			} else {
				if ms.Has("ovpass") {
					ms.Flag("ovall")
				}
				ms.Flag("any")
				if !ms.Has("iterd") {
					ms.Flag("empty")
				}
			}
		}
	case EvLoopBack, EvLoopExit:
		if ms.Has(loopSlot("Li", ev.Ctx, ev.Hdr)) {
			if ev.Kind == EvLoopBack {
				i, j := ms.Get("k"), ms.Get("j")
				x.Check("overlap", "pairs of schema expressions in "+fn, ev, i != nil && j != nil && noOverlap(i, j), "two schema expressions may be accepted although one is a prefix of the other")
			}
			ms.Del("j")
			ms.Del(loopSlot("Li", ev.Ctx, ev.Hdr))
			return
		}
		if ms.Has(loopSlot("Lo", ev.Ctx, ev.Hdr)) {
			if ev.Kind == EvLoopBack {
				if ms.Has("ov") {
					ms.Flag("ovpass")
				}
				if ms.Has("made") {
					ms.Flag("madeany")
					x.Check("overlap.all", "schema expressions accepted in "+fn, ev, ms.Has("ov") || ms.Has("ovall"), "a schema expression is accepted without comparing it with all others")
					x.Check("entry", "schema entries in "+fn, ev, ms.once("made"), "a schema entry is created twice")
				} else {
					x.Check("entry", "schema entries in "+fn, ev, ms.Has("ov"), "a schema expression is dropped")
				}
				ms.Flag("iterd")
			}
			for _, n := range []string{"k", "j", "made", "made+", "ov"} {
				ms.Del(n)
			}
			ms.Del(loopSlot("Lo", ev.Ctx, ev.Hdr))
			ms.Del("pr")
			ms.Del("pt")
			return
		}
	case EvStore:
		if ev.Addr.Op == "&i" {
			if isNamedT(ev.Val.Typ, "regexpPair") || ev.Val.Op == "struct" && ev.Val.Name == "delivery.regexpPair" {
				b := ev.Addr.Args[0]
				if b.Op == "alloc" { // an element to be appended
					return
				}
				x.Check("entry.place", "schema entries in "+fn, ev, ms.linIs("n", ev.Addr.Args[1]), "a schema entry is placed at %v, which is not the next position", ev.Addr.Args[1])
				ms.linInc("n", 1)
				if ev.Val.Op == "struct" {
					x.pairOf(ev.Val, pair, ev)
				}
				ms.Set("arr", b)
			}
			return
		}
		if ev.Addr.Op == "&f" && strings.HasPrefix(ev.Addr.Name, rpT) {
			a := ev.Addr.Args[0]
			if a.Op == "&i" && a.Args[0].Op != "alloc" {
				// s[i].field = v
				if strings.HasSuffix(ev.Addr.Name, "regexp") {
					ms.Set("pr", ev.Val)
				} else {
					ms.Set("pt", ev.Val)
				}
				if ms.Has("pr") && ms.Has("pt") {
					x.Check("entry.place", "schema entries in "+fn, ev, ms.linIs("n", a.Args[1]), "a schema entry is placed at %v, which is not the next position", a.Args[1])
					ms.linInc("n", 1)
					pair(ms.Get("pr"), ms.Get("pt"), ev)
					ms.Set("arr", a.Args[0])
				}
			}
		}
	case EvCall:
		if ev.Callee == "builtin append" {
			if v, ok := ev.Instr.(ssa.Value); ok {
				if sl, ok := v.Type().Underlying().(*types.Slice); ok && isNamedT(sl.Elem(), "regexpPair") {
					base, els, ok := x.newElems(ev)
					ch := ms.Get("arr")
					if ch == nil {
						n, k := x.sliceStart(base)
						ok = ok && k && n == 0
					} else {
						ok = ok && sameT(base, ch)
					}
					x.Check("entry.place", "schema entries in "+fn, ev, ok && len(els) == 1, "schema entries are lost")
					for _, e := range els {
						x.pairOf(e, pair, ev)
					}
					ms.Set("arr", ev.Res)
				}
			}
		}
	case EvExit:
		if len(ev.Args) != 2 {
			return
		}
		res, err := ev.Args[0], ev.Args[1]
		if !err.IsNil() && !s.Known(atomEq(err, cNil())) {
			x.Check("refused", "error returns of "+fn, ev, zeroT(res), "a refused schema still gives a producer")
			return
		}
		empty := ms.Has("empty") || s.Known(atomLt(mkLen(schema), cInt(1)))
		x.Check("all", "producers created", ev, ms.Has("any") && (empty || ms.Has("madeany")), "a producer is created before all schema expressions were examined")
		sc := x.fieldV(prT+"schema", res)
		x.Check("schema", "schema of the producer", ev, empty || ms.Get("arr") != nil && sameT(sc, ms.Get("arr")), "the producer gets schema %v", sc)
		x.Check("schema", "default topic of the producer", ev, sameT(x.fieldV(prT+"defaultTopic", res), rootParam(x, 0)), "the producer gets another default topic")
	}
}

func (x *Exec) pairOf(v *Term, pair func(re, topic *Term, ev *Event), ev *Event) {
	var re, tp *Term
	if st, ok := isStruct(v.Typ); ok {
		for i := 0; i < st.NumFields(); i++ {
			f := fieldOf(v, rpT+st.Field(i).Name(), i, st.Field(i).Type())
			switch st.Field(i).Name() {
			case "regexp":
				re = f
			case "topic":
				tp = f
			}
		}
	}
	if re == nil || tp == nil {
		re, tp = junkT, junkT
	}
	pair(re, tp, ev)
}

func isNamedT(t types.Type, name string) bool {
	if t == nil {
		return false
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == name
}

func init() {
	add, send := "delivery.Producer.AddBlock", "delivery.Producer.SendBatch"
	oa := func() *runOpts { return &runOpts{pureRepo: prodPure, forall: []string{prT + "schema"}} }
	os_ := func() *runOpts { return &runOpts{pureRepo: prodPure, forall: []string{"none"}} }
	register("P01", func(c *Ctx) {
		c.Explain = "typestate over every path of Producer.AddBlock: per update, deletion, sub-batch and count what is emitted, counted and announced; who else may change the producer"
		c.Flow(add, monAddBlock, oa())
		c.Min("matched", 2)
		c.Min("unmatched", 2)
		c.Min("message.key", 3)
		c.Min("header", 4)
		c.Min("field", 3)
	})
	register("P02", func(c *Ctx) {
		c.Explain = "typestate over every path of Producer.SendBatch (numbering as a loop-carried linear value, each update and deletion once, header count) and of the registration in AddBlock"
		c.Flow(send, monSendBatch, os_())
		c.Flow(add, monAddBlock, oa())
		producerState(c)
		c.Min("message.index", 1)
		c.Min("header.count", 1)
		c.Min("each", 1)
		c.Min("register.topic", 1)
	})
	register("P03", func(c *Ctx) {
		c.Explain = "provenance of every key and part value on every path of AddBlock, SendBatch, Reorg and ReorgDone: only the arguments, in an order fixed by sorting; nothing reachable reads time, randomness, identity or mutable package state"
		c.Flow(send, monSendBatch, os_())
		c.Flow(add, monAddBlock, oa())
		c.Flow("delivery.Producer.Reorg", monReorgMsg("ReorgType"), os_())
		c.Flow("delivery.Producer.ReorgDone", monReorgMsg("ReorgCompleteType"), os_())
		c.Flow("delivery.MessageType.GetKey", monGetKey, nil)
		deterministic(c, add, send, "delivery.Producer.Reorg", "delivery.Producer.ReorgDone")
		c.Min("order", 1)
		c.Min("single", 1)
		c.Min("message.key", 3)
		c.Min("deterministic", 5)
	})
	register("P04", func(c *Ctx) {
		c.Explain = "typestate over every path of AddBlock and SendBatch: error returns carry no messages and follow no change of the producer; entries are only added where none is; accepted sub-batches are unregistered"
		c.Flow(add, monAddBlock, oa())
		c.Flow(send, monSendBatch, os_())
		producerState(c)
		c.Min("rejected", 2)
		c.Min("collision", 3)
		c.Min("zero", 1)
		c.Min("once", 1)
	})
	register("P05", func(c *Ctx) {
		c.Explain = "constants, schemas and tags against SPEC.md; the layout of every key the producer builds and of every key and value the consumer takes apart, on every path; schema used at every coding site"
		wireFormat(c)
		c.Flow(add, monAddBlock, oa())
		c.Flow(send, monSendBatch, os_())
		c.Flow("delivery.Producer.Reorg", monReorgMsg("ReorgType"), os_())
		c.Flow("delivery.Producer.ReorgDone", monReorgMsg("ReorgCompleteType"), os_())
		c.Flow("delivery.MessageType.GetKey", monGetKey, nil)
		common := []string{pbT + "failedReconstructPanic", mpT + "failedReconstructPanic", pbT + "waitCh", mpT + "lastEmittedNum"}
		irr := append(append([]string{mpT + "trackedPrefixes"}, common...), resumptionClasses...)
		c.Flow("delivery.MessageProcessor.ProcessMessage", mon06, &runOpts{irrelevant: irr, forall: []string{"none"}})
		r := recRules{pairing: true, register: true}
		c.Flow("delivery.MessageProcessor.ProcessMessage", r.mon, &runOpts{irrelevant: recIrr, forall: recAll})
		c.Min("pairing", 3)
		c.Min("type-byte", 14)
		c.Min("schema", 3)
		c.Min("tag", 10)
		c.Min("message.key", 3)
		c.Min("key", 2)
		c.Min("reorg", 4)
	})
	register("P06", func(c *Ctx) {
		c.Explain = "typestate over every path of NewProducer: every pair of expressions compared, every expression compiled as an anchored group with its error tested, in its own place with its own topic; nobody else sets them"
		c.Flow("delivery.NewProducer", monNewProducer, &runOpts{forall: []string{""}})
		for _, k := range []string{"regexp", "topic"} {
			for _, w := range c.P.writesTo(rpT + k) {
				f := calleeName(w.Fn)
				c.Oblige("writers", "schema entry "+k+" changed in "+f, c.P.pos(w.In), c.Funcs[f], nil, "the %s of a schema entry is changed outside of NewProducer", k)
			}
		}
		for _, w := range c.P.writesTo(prT + "schema") {
			f := calleeName(w.Fn)
			c.Oblige("writers", "schema changed in "+f, c.P.pos(w.In), c.Funcs[f] && w.Fresh, nil, "the schema of a producer is changed outside of NewProducer")
		}
		c.Min("anchored", 1)
		c.Min("overlap", 1)
		c.Min("invalid", 1)
	})
	_ = sort.Strings
}
