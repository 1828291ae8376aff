package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed symbolic name for a value or an address. Two program
// values that get the same Term are the same value on the path analysed. Terms
// are names used by the dataflow facts; nothing is ever executed or solved.
type Term struct {
	id    int
	Op    string
	Name  string
	Args  []*Term
	Typ   types.Type
	depth int
	junk  bool
	leafs map[*Term]bool // site leaves (alloc, opq, rkey, phi, ...)
}

const maxDepth = 26

var (
	termTab  = map[string]*Term{}
	termList []*Term
)

var siteOps = map[string]bool{"alloc": true, "mkmap": true, "mkchan": true, "mkslice": true, "opq": true, "rkey": true, "phi": true, "old": true, "junk": true}

func mk(op, name string, typ types.Type, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if t, ok := termTab[k]; ok {
		if t.Typ == nil && typ != nil {
			t.Typ = typ
		}
		return t
	}
	d := 0
	junk := op == "junk"
	for _, a := range args {
		if a.depth > d {
			d = a.depth
		}
		if a.junk {
			junk = true
		}
	}
	d++
	if d > maxDepth && op != "tuple" {
		j := mk("junk", "deep", typ)
		termTab[k] = j
		return j
	}
	t := &Term{id: len(termList), Op: op, Name: name, Args: args, Typ: typ, depth: d, junk: junk}
	if siteOps[op] {
		t.leafs = map[*Term]bool{t: true}
	}
	for _, a := range args {
		if op == "old" {
			break
		}
		for l := range a.leafs {
			if t.leafs == nil {
				t.leafs = map[*Term]bool{}
			}
			t.leafs[l] = true
		}
	}
	termList = append(termList, t)
	termTab[k] = t
	return t
}

func cInt(i int64) *Term  { return mk("const", "i"+strconv.FormatInt(i, 10), types.Typ[types.Int]) }
func cBool(b bool) *Term  { return mk("const", fmt.Sprintf("b%v", b), types.Typ[types.Bool]) }
func cStr(s string) *Term { return mk("const", "s"+s, types.Typ[types.String]) }
func cNil() *Term         { return mk("const", "nil", nil) }
func cZero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return cBool(false)
		case u.Info()&types.IsInteger != 0:
			return cInt(0)
		case u.Info()&types.IsString != 0:
			return cStr("")
		}
	case *types.Pointer, *types.Map, *types.Slice, *types.Chan, *types.Signature, *types.Interface:
		return cNil()
	}
	return mk("const", "zero:"+types.TypeString(t, nil), t)
}

func cVal(v constant.Value, t types.Type) *Term {
	if v == nil {
		return cZero(t)
	}
	switch v.Kind() {
	case constant.Bool:
		return cBool(constant.BoolVal(v))
	case constant.String:
		return cStr(constant.StringVal(v))
	case constant.Int:
		if i, ok := constant.Int64Val(v); ok {
			return cInt(i)
		}
	}
	return mk("const", "v"+v.ExactString(), t)
}

func (t *Term) Int() (int64, bool) {
	if t != nil && t.Op == "const" && strings.HasPrefix(t.Name, "i") {
		i, err := strconv.ParseInt(t.Name[1:], 10, 64)
		return i, err == nil
	}
	return 0, false
}
func (t *Term) Str() (string, bool) {
	if t != nil && t.Op == "const" && strings.HasPrefix(t.Name, "s") {
		return t.Name[1:], true
	}
	return "", false
}
func (t *Term) Bool() (bool, bool) {
	if t != nil && t.Op == "const" && strings.HasPrefix(t.Name, "b") {
		return t.Name == "btrue", true
	}
	return false, false
}
func (t *Term) IsNil() bool   { return t != nil && t.Op == "const" && t.Name == "nil" }
func (t *Term) IsConst() bool { return t != nil && t.Op == "const" }
func (t *Term) IsZero() bool {
	if !t.IsConst() {
		return false
	}
	return t.Name == "nil" || t.Name == "i0" || t.Name == "s" || t.Name == "bfalse" || strings.HasPrefix(t.Name, "zero:")
}

func (t *Term) Contains(s *Term) bool {
	if t == s {
		return true
	}
	for _, a := range t.Args {
		if a.Contains(s) {
			return true
		}
	}
	return false
}

func (t *Term) Any(f func(*Term) bool) bool {
	if f(t) {
		return true
	}
	for _, a := range t.Args {
		if a.Any(f) {
			return true
		}
	}
	return false
}

func rebuild(t *Term, args []*Term) *Term {
	if t.Op == "bin" {
		return mkBin(t.Name, args[0], args[1], t.Typ)
	}
	return mk(t.Op, t.Name, t.Typ, args...)
}

// substF rewrites t bottom-up; f returns non-nil to replace a (rebuilt) term.
func substF(t *Term, f func(*Term) *Term, memo map[*Term]*Term) *Term {
	if r, ok := memo[t]; ok {
		return r
	}
	r := f(t)
	if r == nil {
		r = t
		if len(t.Args) > 0 && t.Op != "old" {
			var na []*Term
			for i, a := range t.Args {
				b := substF(a, f, memo)
				if b != a && na == nil {
					na = append([]*Term{}, t.Args...)
				}
				if na != nil {
					na[i] = b
				}
			}
			if na != nil {
				r = rebuild(t, na)
			}
		}
	}
	memo[t] = r
	return r
}

func shortType(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// String renders a term for messages.
func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	a := func(i int) string { return t.Args[i].String() }
	switch t.Op {
	case "const":
		if s, ok := t.Str(); ok {
			return strconv.Quote(s)
		}
		if strings.HasPrefix(t.Name, "i") || strings.HasPrefix(t.Name, "b") {
			return t.Name[1:]
		}
		return t.Name
	case "param", "fv", "global":
		return t.Name
	case "&f":
		return "&" + a(0) + "." + fieldOnly(t.Name)
	case "&i":
		return "&" + a(0) + "[" + a(1) + "]"
	case "ld":
		s := a(0)
		if strings.HasPrefix(s, "&") {
			return s[1:]
		}
		return "*" + s
	case "fld":
		return a(0) + "." + fieldOnly(t.Name)
	case "idx", "at":
		return a(0) + "[" + a(1) + "]"
	case "has":
		return a(1) + " in " + a(0)
	case "bin":
		return "(" + a(0) + " " + t.Name + " " + a(1) + ")"
	case "lt":
		return "(" + a(0) + " < " + a(1) + ")"
	case "eq":
		return "(" + a(0) + " == " + a(1) + ")"
	case "slice":
		lo, hi := "", ""
		if t.Args[1].Name != "none" {
			lo = a(1)
		}
		if t.Args[2].Name != "none" {
			hi = a(2)
		}
		return a(0) + "[" + lo + ":" + hi + "]"
	case "alloc", "mkmap", "mkchan", "mkslice", "opq", "rkey", "phi", "closure":
		n := t.Name
		if i := strings.LastIndex(n, "~"); i >= 0 {
			n = n[i+1:]
		}
		return t.Op + "@" + n
	case "old":
		return "old(" + a(0) + ")"
	case "junk":
		return "?"
	}
	var ss []string
	for i := range t.Args {
		ss = append(ss, a(i))
	}
	n := t.Name
	if i := strings.LastIndex(n, "/"); i >= 0 {
		n = n[i+1:]
	}
	return t.Op + ":" + n + "(" + strings.Join(ss, ", ") + ")"
}

func fieldOnly(n string) string {
	if i := strings.LastIndex(n, "."); i >= 0 {
		return n[i+1:]
	}
	return n
}

func isIntType(t types.Type) bool {
	if t == nil {
		return true
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func mkLen(x *Term) *Term {
	if s, ok := x.Str(); ok {
		return cInt(int64(len(s)))
	}
	if x.IsNil() {
		return cInt(0)
	}
	if x.Op == "mkslice" && len(x.Args) > 0 {
		return x.Args[0]
	}
	if x.Op == "conv" {
		return mkLen(x.Args[0])
	}
	if x.Op == "bin" && x.Name == "+" && x.Typ != nil && isStringType(x.Typ) {
		return mkBin("+", mkLen(x.Args[0]), mkLen(x.Args[1]), types.Typ[types.Int])
	}
	if x.Op == "list" {
		return cInt(int64(len(x.Args)))
	}
	if x.Op == "append" {
		return mkBin("+", mkLen(x.Args[0]), mkLen(x.Args[1]), types.Typ[types.Int])
	}
	if x.Op == "slice" && x.Args[0].Op == "alloc" && x.Args[0].Typ != nil && x.Args[2].Name == "none" {
		if pt, ok := x.Args[0].Typ.Underlying().(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok {
				if x.Args[1].Name == "none" {
					return cInt(at.Len())
				}
				return mkBin("-", cInt(at.Len()), x.Args[1], types.Typ[types.Int])
			}
		}
	}
	if x.Op == "slice" {
		lo, hi := x.Args[1], x.Args[2]
		if hi.Name != "none" {
			if lo.Name == "none" {
				return hi
			}
			return mkBin("-", hi, lo, types.Typ[types.Int])
		}
		if l, ok := lo.Int(); ok && l == 0 || lo.Name == "none" {
			if x.Args[0].Op != "alloc" {
				return mkLen(x.Args[0])
			}
		} else if ok && l > 0 && x.Args[0].Op != "alloc" {
			return mkBin("-", mkLen(x.Args[0]), cInt(l), types.Typ[types.Int])
		}
	}
	return mk("len", "", types.Typ[types.Int], x)
}

// linear: split t into base + constant
func linear(t *Term) (*Term, int64) {
	if i, ok := t.Int(); ok {
		return nil, i
	}
	if t.Op == "bin" && (t.Name == "+" || t.Name == "-") && isIntType(t.Typ) {
		if c, ok := t.Args[1].Int(); ok {
			b, k := linear(t.Args[0])
			if t.Name == "-" {
				c = -c
			}
			return b, k + c
		}
	}
	return t, 0
}

func mkLinear(b *Term, k int64, typ types.Type) *Term {
	if b == nil {
		return cInt(k)
	}
	if k == 0 {
		return b
	}
	if k < 0 {
		return mk("bin", "-", typ, b, cInt(-k))
	}
	return mk("bin", "+", typ, b, cInt(k))
}

func mkBin(op string, x, y *Term, typ types.Type) *Term {
	switch op {
	case "==", "!=", "<", "<=", ">", ">=":
		a, pol, k := canonCmp(op, x, y)
		if k != 0 {
			return cBool(k > 0)
		}
		if pol {
			return a
		}
		return mk("not", "", types.Typ[types.Bool], a)
	}
	if isIntType(typ) {
		xi, xok := x.Int()
		yi, yok := y.Int()
		if xok && yok {
			switch op {
			case "+":
				return cInt(xi + yi)
			case "-":
				return cInt(xi - yi)
			case "*":
				return cInt(xi * yi)
			case "/":
				if yi != 0 {
					return cInt(xi / yi)
				}
			case "&":
				return cInt(xi & yi)
			case "|":
				return cInt(xi | yi)
			case "<<":
				if yi >= 0 && yi < 62 {
					return cInt(xi << uint(yi))
				}
			}
		}
		if op == "<<" && yok && yi >= 0 && yi < 62 {
			return mkBin("*", x, cInt(1<<uint(yi)), typ)
		}
		if op == "+" && xok && !yok {
			x, y = y, x
			xi, xok, yi, yok = yi, yok, xi, xok
		}
		if (op == "+" || op == "-") && yok {
			b, k := linear(x)
			if op == "-" {
				yi = -yi
			}
			return mkLinear(b, k+yi, typ)
		}
		if op == "+" && x == y { // x+x = 2*x
			return mkBin("*", x, cInt(2), typ)
		}
		if op == "*" && xok && !yok {
			x, y = y, x
		}
		if op == "-" && x == y && !x.junk {
			return cInt(0)
		}
		if op == "+" && x.id > y.id {
			if _, ok := y.Int(); !ok {
				x, y = y, x
			}
		}
	} else {
		xs, ok1 := x.Str()
		ys, ok2 := y.Str()
		if op == "+" && ok1 && ok2 {
			return cStr(xs + ys)
		}
	}
	return mk("bin", op, typ, x, y)
}

func mkNot(t *Term) *Term {
	if b, ok := t.Bool(); ok {
		return cBool(!b)
	}
	if t.Op == "not" {
		return t.Args[0]
	}
	return mk("not", "", types.Typ[types.Bool], t)
}

func atomEq(x, y *Term) *Term {
	if y.IsConst() && !x.IsConst() {
		return mk("eq", "", types.Typ[types.Bool], x, y)
	}
	if x.IsConst() && !y.IsConst() {
		return mk("eq", "", types.Typ[types.Bool], y, x)
	}
	if x.id > y.id {
		x, y = y, x
	}
	return mk("eq", "", types.Typ[types.Bool], x, y)
}
func atomLt(x, y *Term) *Term { return mk("lt", "", types.Typ[types.Bool], x, y) }

func nonNilOp(t *Term) bool {
	switch t.Op {
	case "alloc", "mkmap", "mkchan", "mkslice", "closure", "&f", "&i", "func", "global":
		return true
	case "ld":
		return t.Args[0].Op == "global" && sentinelErr[t.Args[0].Name]
	}
	return false
}

// sentinelErr: package variables that hold an error and are never reassigned.
var sentinelErr = map[string]bool{}

func isCmpCall(t *Term) bool {
	return t.Op == "call" && (strings.HasSuffix(t.Name, ").Cmp") || t.Name == "bytes.Compare" || t.Name == "strings.Compare" || t.Name == "cmp.Compare")
}

// canonCmp normalises a comparison to (atom, polarity); k = +1/-1 when decided.
func canonCmp(op string, x, y *Term) (*Term, bool, int) {
	dec := func(b bool) (*Term, bool, int) {
		if b {
			return nil, false, 1
		}
		return nil, false, -1
	}
	switch op {
	case "!=":
		a, p, k := canonCmp("==", x, y)
		return a, !p, -k
	case ">":
		return canonCmp("<", y, x)
	case "<=":
		a, p, k := canonCmp("<", y, x)
		return a, !p, -k
	case ">=":
		a, p, k := canonCmp("<", x, y)
		return a, !p, -k
	}
	if op == "==" {
		if x == y && !x.junk {
			return dec(true)
		}
		if x.IsConst() && y.IsConst() {
			if !x.junk && !strings.HasPrefix(x.Name, "v") && !strings.HasPrefix(y.Name, "v") {
				return dec(x.Name == y.Name)
			}
		}
		if y.IsNil() && nonNilOp(x) || x.IsNil() && nonNilOp(y) {
			return dec(false)
		}
		if x.Op == "alloc" && y.Op == "alloc" {
			return dec(false)
		}
		for i := 0; i < 2; i++ {
			if b, ok := y.Bool(); ok {
				if x.Op == "not" {
					return canonNot(x, b)
				}
				return x, b, 0
			}
			if s, ok := y.Str(); ok && s == "" {
				return canonCmp("<", mkLen(x), cInt(1))
			}
			x, y = y, x
		}
		// linear normalisation
		xb, xk := linear(x)
		yb, yk := linear(y)
		if xk != 0 || yk != 0 {
			if xb != nil && yb != nil && xb == yb && !xb.junk {
				return dec(xk == yk)
			}
			if xb == nil {
				xb, xk, yb, yk = yb, yk, xb, xk
			}
			if yb == nil && xb != nil {
				if xk != 0 {
					return canonCmp("==", xb, cInt(yk-xk))
				}
			} else if xb != nil {
				x, y = xb, mkLinear(yb, yk-xk, y.Typ)
				if xb.id > yb.id {
					x, y = yb, mkLinear(xb, xk-yk, x.Typ)
				}
				return mk("eq", "", types.Typ[types.Bool], x, y), true, 0
			}
		}
		if x.IsConst() {
			x, y = y, x
		}
		if c, ok := y.Int(); ok {
			if isCmpCall(x) {
				n := len(x.Args)
				p, q := x.Args[n-2], x.Args[n-1]
				switch c {
				case 0:
					return canonCmp("==", p, q)
				case 1:
					return atomLt(q, p), true, 0
				case -1:
					return atomLt(p, q), true, 0
				}
				return dec(false)
			}
			if x.Op == "len" && c == 0 {
				return atomLt(x, cInt(1)), true, 0
			}
			if x.Op == "len" && c < 0 {
				return dec(false)
			}
		}
		return atomEq(x, y), true, 0
	}
	// op == "<"
	if x == y && !x.junk {
		return dec(false)
	}
	xs, ok1 := x.Str()
	ys, ok2 := y.Str()
	if ok1 && ok2 {
		return dec(xs < ys)
	}
	xb, xk := linear(x)
	yb, yk := linear(y)
	switch {
	case xb == nil && yb == nil:
		return dec(xk < yk)
	case xb == nil: // c < y+yk  ->  c-yk < y  ->  !(y < c-yk+1)
		a, p, k := ltConst(yb, xk-yk+1)
		return a, !p, -k
	case yb == nil: // x+xk < c -> x < c-xk
		return ltConst(xb, yk-xk)
	}
	if xb == yb && !xb.junk {
		return dec(xk < yk)
	}
	if xk == yk && xk != 0 {
		return canonCmp("<", xb, yb)
	}
	if xk != 0 || yk != 0 {
		// x+a < y+b  ->  x < y+(b-a); canonical const on the right
		return atomLt(xb, mkLinear(yb, yk-xk, y.Typ)), true, 0
	}
	return atomLt(x, y), true, 0
}

func ltConst(x *Term, c int64) (*Term, bool, int) {
	if isCmpCall(x) {
		n := len(x.Args)
		p, q := x.Args[n-2], x.Args[n-1]
		switch {
		case c <= -1:
			return nil, false, -1
		case c == 0:
			return atomLt(p, q), true, 0
		case c == 1:
			return atomLt(q, p), false, 0
		default:
			return nil, false, 1
		}
	}
	if x.Op == "len" || x.Op == "cap" {
		if c <= 0 {
			return nil, false, -1
		}
		if a := x.Args[0]; x.Op == "len" && a.Op == "call" && a.Name == "fmt.Sprintf" && len(a.Args) > 0 {
			// the literal text of the format is always there
			if f, ok := a.Args[0].Str(); ok {
				n := int64(0)
				for i := 0; i < len(f); i++ {
					if f[i] == '%' {
						break
					}
					n++
				}
				if n >= c {
					return nil, false, -1
				}
			}
		}
	}
	if x.Typ != nil {
		if b, ok := x.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 && c <= 0 {
			return nil, false, -1
		}
	}
	return atomLt(x, cInt(c)), true, 0
}

func canonNot(t *Term, pol bool) (*Term, bool, int) {
	for t.Op == "not" {
		t = t.Args[0]
		pol = !pol
	}
	if b, ok := t.Bool(); ok {
		if b == pol {
			return nil, false, 1
		}
		return nil, false, -1
	}
	return t, pol, 0
}

func opName(op token.Token) string { return op.String() }

func sortedTerms(m map[*Term]bool) []*Term {
	r := make([]*Term, 0, len(m))
	for t := range m {
		r = append(r, t)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

var paramNames = map[string]map[string]string{}

// mkParam: parameters of the same name and another type are other terms.
func mkParam(op, name string, typ types.Type) *Term {
	ts := types.TypeString(typ, nil)
	m := paramNames[name]
	if m == nil {
		m = map[string]string{}
		paramNames[name] = m
	}
	n, ok := m[ts]
	if !ok {
		n = name + strings.Repeat("'", len(m))
		m[ts] = n
	}
	return mk(op, n, typ)
}
