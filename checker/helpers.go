package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// unold removes the "value before the last change" markers from a term.
func unold(t *Term) *Term {
	memo := map[*Term]*Term{}
	var f func(x *Term) *Term
	f = func(x *Term) *Term {
		if r, ok := memo[x]; ok {
			return r
		}
		r := x
		if x.Op == "old" {
			r = f(x.Args[0])
		} else if len(x.Args) > 0 {
			var na []*Term
			for i, a := range x.Args {
				b := f(a)
				if b != a && na == nil {
					na = append([]*Term{}, x.Args...)
				}
				if na != nil {
					na[i] = b
				}
			}
			if na != nil {
				r = rebuild(x, na)
			}
		}
		memo[x] = r
		return r
	}
	return f(t)
}

func sameT(a, b *Term) bool {
	return a != nil && b != nil && !a.junk && !b.junk && (a == b || unold(a) == unold(b))
}

// loc finds the location (field or map entry) that holds object m.
func (x *Exec) loc(m *Term) *Term {
	switch m.Op {
	case "ld", "at", "fld":
		return m
	case "old":
		return x.loc(m.Args[0])
	}
	var best *Term
	for k, v := range x.S.mem {
		if v != m || k.Op == "ld" && k.Args[0].Op != "&f" && k.Args[0].Op != "&i" {
			continue
		}
		if best == nil || (k.Op == "ld" && best.Op != "ld") || (k.Op == best.Op && k.id < best.id) {
			best = k
		}
	}
	if best != nil {
		return best
	}
	return m
}

// class names the struct field a map or slice lives in ("pkg.T.f"; "pkg.T.f[]" for
// an entry of a map field) and the struct it belongs to.
func (x *Exec) class(m *Term) (string, *Term, *Term) {
	l := x.loc(m)
	switch l.Op {
	case "ld":
		if l.Args[0].Op == "&f" {
			return l.Args[0].Name, l.Args[0].Args[0], nil
		}
	case "fld":
		return l.Name, l.Args[0], nil
	case "at":
		c, b, _ := x.class(l.Args[0])
		if c != "" {
			return c + "[]", b, l.Args[1]
		}
	case "mkmap":
		if in := x.E.mapSite[l]; in != nil {
			if c := staticFieldOf(in.(ssa.Value), 0); c != "" {
				return c, nil, nil
			}
		}
	}
	return "", nil, nil
}

// staticFieldOf: the struct field a freshly made map is stored into, if unique.
func staticFieldOf(v ssa.Value, depth int) string {
	if v.Referrers() == nil || depth > 3 {
		return ""
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Val == v {
				if fa, ok := r.Addr.(*ssa.FieldAddr); ok {
					return fieldClass(fa.X.Type(), fa.Field)
				}
				if a, ok := r.Addr.(*ssa.Alloc); ok && a.Referrers() != nil {
					for _, rr := range *a.Referrers() {
						if u, ok := rr.(*ssa.UnOp); ok {
							if c := staticFieldOf(u, depth+1); c != "" {
								return c
							}
						}
					}
				}
			}
		case *ssa.Phi:
			if c := staticFieldOf(r, depth+1); c != "" {
				return c
			}
		case *ssa.Return:
			fn := r.Parent()
			for i, res := range r.Results {
				if res != v || fn.Referrers() == nil {
					continue
				}
				for _, ref := range *fn.Referrers() {
					if c, ok := ref.(*ssa.Call); ok && c.Call.Value == ssa.Value(fn) {
						if len(r.Results) == 1 {
							if s := staticFieldOf(c, depth+1); s != "" {
								return s
							}
						} else {
							for _, cr := range *c.Referrers() {
								if ex, ok := cr.(*ssa.Extract); ok && ex.Index == i {
									if s := staticFieldOf(ex, depth+1); s != "" {
										return s
									}
								}
							}
						}
					}
				}
			}
		}
	}
	return ""
}

// Eff is an effect on the assembly state.
type Eff struct {
	Kind     string
	PB       *Term // the struct the container belongs to
	Map      *Term
	Key, Val *Term
	Outer    *Term // key of the enclosing map entry
}

var asmClass = map[string]string{
	"delivery.MessageProcessor.pendingBatches":    "mp.pend",
	"delivery.MessageProcessor.pendingMessages":   "mp.q",
	"delivery.MessageProcessor.pendingMessages[]": "mp.qmsg",
	"delivery.MessageProcessor.oldBlocks":         "mp.old",
	"delivery.MessageProcessor.resumption":        "mp.res",
	"delivery.PendingBatch.Values":                "values",
	"delivery.PendingBatch.Deletes":               "deletes",
	"delivery.PendingBatch.prefixes":              "prefix",
	"delivery.PendingBatch.batches":               "batches",
	"delivery.PendingBatch.pendingBatches":        "sb",
	"delivery.PendingBatch.pendingMessages":       "pbq",
	"delivery.PendingBatch.resumption":            "res",
	"delivery.PendingBatch.resumptionDefaults":    "resdef",
}

// eff classifies an event as an effect on the assembly state; nil when it is none.
func (x *Exec) eff(ev *Event) *Eff {
	switch ev.Kind {
	case EvMapUpdate, EvMapDelete:
		c, b, k := x.class(ev.Map)
		n, ok := asmClass[c]
		if !ok {
			if c == "" && !(isFreshObj(ev.Map) && !x.S.esc[ev.Map]) {
				return &Eff{Kind: "unresolved", Map: ev.Map, Key: ev.Key, Val: ev.Val}
			}
			return nil
		}
		s := "+"
		if ev.Kind == EvMapDelete {
			s = "-"
		}
		return &Eff{Kind: n + s, PB: b, Map: ev.Map, Key: ev.Key, Val: ev.Val, Outer: k}
	case EvStore:
		if ev.Addr.Op == "&i" {
			c, b, k := x.class(ev.Addr.Args[0])
			if c == "delivery.PendingBatch.batches[]" {
				return &Eff{Kind: "flag", PB: b, Map: ev.Addr.Args[0], Key: ev.Addr.Args[1], Val: ev.Val, Outer: k}
			}
			return nil
		}
		if ev.Addr.Op == "&f" {
			if n, ok := asmClass[ev.Addr.Name]; ok {
				return &Eff{Kind: "field:" + n, PB: ev.Addr.Args[0], Val: ev.Val}
			}
			if strings.HasPrefix(ev.Addr.Name, "delivery.PendingBatch.") || strings.HasPrefix(ev.Addr.Name, "delivery.MessageProcessor.") {
				return &Eff{Kind: "field:" + fieldOnly(ev.Addr.Name), PB: ev.Addr.Args[0], Val: ev.Val}
			}
		}
	}
	return nil
}

func field(class string, base *Term, typ types.Type) *Term {
	return mk("ld", "", typ, mk("&f", class, nil, base))
}

// fieldV: current value of base.class.
func (x *Exec) fieldV(class string, base *Term) *Term {
	a := mk("&f", class, nil, base)
	var typ types.Type
	if base.Typ != nil {
		if st, ok := isStruct(deref(base.Typ)); ok {
			for i := 0; i < st.NumFields(); i++ {
				if fieldClass(base.Typ, i) == class {
					typ = st.Field(i).Type()
				}
			}
		}
	}
	return x.S.load(a, typ)
}

func msgCall(name string, m *Term) *Term {
	return mk("call", "(delivery.ResumptionMessage)."+name, nil, m)
}

// isMsgCall: t is msg.<name>() ; returns msg.
func isMsgCall(t *Term, name string) (*Term, bool) {
	if t != nil && t.Op == "call" && t.Name == "(delivery.ResumptionMessage)."+name && len(t.Args) == 1 {
		return t.Args[0], true
	}
	return nil, false
}

func isSliceOf(t *Term, lo, hi int64) (*Term, bool) {
	if t == nil || t.Op != "slice" {
		return nil, false
	}
	l := int64(0)
	ok := true
	if t.Args[1].Name != "none" {
		l, ok = t.Args[1].Int()
	}
	if !ok || l != lo {
		return nil, false
	}
	if hi < 0 {
		if t.Args[2].Name != "none" {
			return nil, false
		}
	} else {
		h, ok := t.Args[2].Int()
		if !ok || h != hi {
			return nil, false
		}
	}
	return t.Args[0], true
}

// msgPath: t is string(msg.Key()[33:]); returns msg.
func msgPath(t *Term) (*Term, bool) {
	if t != nil && t.Op == "conv" && t.Name == "string" {
		if k, ok := isSliceOf(t.Args[0], 33, -1); ok {
			return isMsgCall(k, "Key")
		}
	}
	if t != nil && t.Op == "slice" { // string(key)[33:]
		if k, ok := isSliceOf(t, 33, -1); ok {
			if k.Op == "conv" {
				k = k.Args[0]
			}
			return isMsgCall(k, "Key")
		}
	}
	return nil, false
}

// msgHash: t is BytesToHash(msg.Key()[1:33]).
func msgHash(t *Term) (*Term, bool) {
	if t != nil && t.Op == "call" && t.Name == "types.BytesToHash" {
		if k, ok := isSliceOf(t.Args[0], 1, 33); ok {
			return isMsgCall(k, "Key")
		}
	}
	return nil, false
}

// msgBatchID: t is BytesToHash(msg.Key()[33:65]) (or [33:] for a sub-batch header).
func msgBatchID(t *Term) (*Term, bool) {
	if t != nil && t.Op == "call" && t.Name == "types.BytesToHash" {
		if k, ok := isSliceOf(t.Args[0], 33, 65); ok {
			return isMsgCall(k, "Key")
		}
		if k, ok := isSliceOf(t.Args[0], 33, -1); ok {
			return isMsgCall(k, "Key")
		}
	}
	return nil, false
}

// msgKeyStr: t is string(msg.Key()).
func msgKeyStr(t *Term) (*Term, bool) {
	if t != nil && t.Op == "conv" && t.Name == "string" {
		return isMsgCall(t.Args[0], "Key")
	}
	return nil, false
}

func msgTypeByte(m *Term) *Term {
	return mk("ld", "", types.Typ[types.Byte], mk("&i", "", nil, msgCall("Key", m), cInt(0)))
}

// msgIs: is the type byte of msg known to be one of the given values?
func (x *Exec) msgIs(m *Term, k string) bool {
	v, ok := x.E.P.constInt("delivery", k)
	if !ok {
		return false
	}
	return x.S.Known(atomEq(msgTypeByte(m), cInt(v)))
}
func (x *Exec) msgIsNot(m *Term, k string) bool {
	v, ok := x.E.P.constInt("delivery", k)
	if !ok {
		return false
	}
	return x.S.KnownNot(atomEq(msgTypeByte(m), cInt(v)))
}

func (p *Program) constInt(pkg, name string) (int64, bool) {
	sp := p.SPkgs[pkg]
	if sp == nil {
		return 0, false
	}
	c := sp.Const(name)
	if c == nil {
		return 0, false
	}
	return cVal(c.Value.Value, c.Type()).Int()
}

// trackDecode records avro/json decode calls: which data was decoded into which object.
func trackDecode(x *Exec, ev *Event) {
	if ev.Kind == EvLoopBack || ev.Kind == EvLoopExit {
		// what was decoded inside the loop body is finished with
		ms := x.MS()
		n := len(x.S.loops)
		if ev.Kind == EvLoopBack {
			// loops of inner functions have been left already
		}
		for _, k := range ms.Keys("dec:") {
			if !strings.HasSuffix(k, ":lvl") {
				continue
			}
			if l, _ := ms.Get(k).Int(); l >= int64(n) {
				ms.DelPrefix(strings.TrimSuffix(k, "lvl"))
			}
		}
		return
	}
	if ev.Kind != EvCall {
		return
	}
	var data, dst, schema *Term
	switch ev.Callee {
	case "avro.Unmarshal":
		if len(ev.Args) != 3 {
			return
		}
		schema, data, dst = ev.Args[0], ev.Args[1], ev.Args[2]
	case "json.Unmarshal":
		if len(ev.Args) != 2 {
			return
		}
		schema, data, dst = cStr("json"), ev.Args[0], ev.Args[1]
	default:
		return
	}
	ms := x.MS()
	for i := 0; ; i++ {
		r := dst
		if r.Op == "alloc" {
			n := fmt.Sprintf("dec:%d:", r.id)
			ms.Set(n+"schema", schema)
			ms.Set(n+"data", data)
			ms.Set(n+"err", ev.Res)
			ms.Set(n+"lvl", cInt(int64(len(x.S.loops))))
		}
		return
	}
}

// decodedFrom: t is (part of) an object decoded by a call that is known to have
// succeeded; returns the schema and the decoded data.
func (x *Exec) decodedFrom(t *Term) (schema, data *Term, okKnown bool) {
	t = unold(t)
	r := t
	for {
		switch r.Op {
		case "ld", "&f", "&i", "fld", "at", "slice", "conv", "len":
			r = r.Args[0]
			continue
		}
		break
	}
	if r.Op != "alloc" {
		return nil, nil, false
	}
	n := fmt.Sprintf("dec:%d:", r.id)
	ms := x.MS()
	if !ms.Has(n + "err") {
		return nil, nil, false
	}
	schema, data = ms.Get(n+"schema"), ms.Get(n+"data")
	ok := x.S.Known(atomEq(ms.Get(n+"err"), cNil()))
	return schema, data, ok
}

func isGlobal(t *Term, name string) bool {
	return t != nil && t.Op == "ld" && t.Args[0].Op == "global" && t.Args[0].Name == name
}

// forallHolds: is pred known for every element of container c?
func (x *Exec) forallHolds(c *Term, pred func(s *State, elem, key *Term) bool) bool {
	s := x.S
	if s.fresh[c] && c.Op == "mkmap" || c.IsNil() {
		return true
	}
	if v, k := s.Query(atomLt(mkLen(c), cInt(1))); k && v {
		return true
	}
	n := s.clone()
	var elem, key *Term
	if isMapTerm(c) {
		key = mk("opq", "anykey", nil)
		elem = mkAt(c, key, nil)
	} else {
		key = mk("opq", "anyidx", types.Typ[types.Int])
		var et types.Type
		if t, ok := contElem(c); ok {
			et = t
		}
		elem = mk("ld", "", et, mk("&i", "", nil, c, key))
	}
	found := false
	for f, v := range s.facts {
		if v && f.Op == "forall" && f.Args[0] == c {
			n.instantiate(f.Args[1], elem, key)
			found = true
		}
	}
	if !found {
		return false
	}
	return pred(n, elem, key)
}

func fnParamMsg(f *ssa.Function) bool {
	for _, p := range f.Params {
		if n, ok := p.Type().(*types.Named); ok && (n.Obj().Name() == "ResumptionMessage" || n.Obj().Name() == "Message") {
			return true
		}
	}
	return false
}

// roots strips a prefix candidate down to the key paths it was derived from
// (path.Dir, a leading "/" removed, a "/" appended).
func (e *Engine) roots(t *Term, seen map[*Term]bool, out map[*Term]bool) bool {
	t = unold(t)
	if seen[t] {
		return true
	}
	seen[t] = true
	if _, ok := msgPath(t); ok {
		out[t] = true
		return true
	}
	if c, ok := t.Str(); ok && (c == "." || c == "") {
		return true // the end of the walk towards the root
	}
	switch t.Op {
	case "call":
		switch t.Name {
		case "path.Dir", "strings.TrimPrefix", "strings.TrimLeft", "strings.TrimSuffix", "path.Clean", "strings.TrimRight", "strings.Trim":
			return e.roots(t.Args[0], seen, out)
		}
	case "bin":
		if t.Name == "+" {
			if _, ok := t.Args[1].Str(); ok {
				return e.roots(t.Args[0], seen, out)
			}
		}
	case "slice":
		if t.Args[1].Name == "none" {
			return e.roots(t.Args[0], seen, out)
		}
	case "phi":
		src := e.phiSrc[t]
		if len(src) == 0 {
			return false
		}
		for v := range src {
			if v.junk {
				continue
			}
			if !e.roots(v, seen, out) {
				return false
			}
		}
		return true
	}
	return false
}
