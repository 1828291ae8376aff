package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Obl is one obligation: a rule instantiated at one construct of the source.
type Obl struct {
	Rule, Construct string
	Pos             token.Pos
	Paths           int
	Failed          bool
	Msg             string
	Trace           []string
}

// Ctx collects what one property check did.
type Ctx struct {
	only    map[string]bool // rules that count, when rules of another property are reused
	P       *Program
	Prop    string
	Tier    string
	Obls    map[string]*Obl
	Funcs   map[string]bool
	States  int
	Steps   int
	Paths   int
	Sites   int
	Runs    []string
	Assume  []string
	Notes   []string
	Explain string
	muxFns  map[*ssa.Function]bool
	Rules   []string
	helpers map[*ssa.Function]string
	oFuncs  map[string]bool
}

func NewCtx(p *Program, prop, tier string) *Ctx {
	return &Ctx{P: p, Prop: prop, Tier: tier, Obls: map[string]*Obl{}, Funcs: map[string]bool{}, muxFns: map[*ssa.Function]bool{}}
}

// Oblige records one instance of a rule; ok must hold on every path.
func (c *Ctx) Oblige(rule, construct string, pos token.Pos, ok bool, trace []string, format string, args ...interface{}) {
	if c.only != nil && !c.only[rule] && !(rule == "coverage" && c.only[construct]) {
		return
	}
	k := rule + "|" + construct
	o := c.Obls[k]
	if o == nil {
		o = &Obl{Rule: rule, Construct: construct, Pos: pos}
		c.Obls[k] = o
	}
	o.Paths++
	if !ok && !o.Failed {
		o.Failed = true
		o.Pos = pos
		o.Msg = fmt.Sprintf(format, args...)
		o.Trace = trace
	}
}

// Oblige1 records an instance of a rule that is decided once.
func (c *Ctx) Oblige1(rule, construct string, ok bool, format string, args ...interface{}) bool {
	c.Oblige(rule, construct, token.NoPos, ok, nil, format, args...)
	return ok
}

// Min fails the check when a rule has fewer instances than confirmed by hand.
func (c *Ctx) Min(rule string, n int) {
	k := 0
	for _, o := range c.Obls {
		if o.Rule == rule || strings.HasPrefix(o.Rule, rule+".") {
			k++
		}
	}
	c.Oblige("coverage", rule, token.NoPos, k >= n, nil, "rule %s matched %d construct(s), at least %d expected: the code it governs is no longer found", rule, k, n)
}

func (c *Ctx) Rule(s string) { c.Rules = append(c.Rules, s) }

// Fn resolves a function and fails the check when it is missing.
func (c *Ctx) Fn(name string) *ssa.Function {
	f := c.P.Func(name)
	if f == nil {
		c.Oblige("anchor", name, token.NoPos, false, nil, "function %s was not found", name)
	}
	return f
}

type runOpts struct {
	irrFn      func(*Term) bool
	irrelevant []string // field classes whose facts the rule does not need
	forall     []string // field classes over which quantified facts are kept (all when empty)
	noInline   func(*ssa.Function) bool
	init       func(e *Engine, s *State)
	maxStates  int
	pureRepo   map[string]bool
}

// Flow runs the path-sensitive dataflow from root with monitor m.
func (c *Ctx) Flow(rootName string, m func(x *Exec, ev *Event), o *runOpts) *Engine {
	root := c.Fn(rootName)
	if root == nil {
		return nil
	}
	return c.FlowFn(root, m, o)
}

type monFunc func(x *Exec, ev *Event)

func (f monFunc) Event(x *Exec, ev *Event) { f(x, ev) }

func (c *Ctx) FlowFn(root *ssa.Function, m func(x *Exec, ev *Event), o *runOpts) *Engine {
	e := NewEngine(c.P, root, monFunc(m))
	e.C = c
	if o != nil {
		e.NoInline = o.noInline
		e.initState = o.init
		e.pureRepo = o.pureRepo
		if o.maxStates > 0 {
			e.MaxSteps = o.maxStates
		}
		if len(o.forall) > 0 {
			e.forallOf = map[string]bool{}
			for _, k := range o.forall {
				e.forallOf[k] = true
			}
		}
		if o.irrFn != nil {
			memo := map[*Term]bool{}
			e.irrelevant = func(t *Term) bool {
				r, ok := memo[t]
				if !ok {
					r = o.irrFn(t)
					memo[t] = r
				}
				return r
			}
		}
		if len(o.irrelevant) > 0 {
			irr := map[string]bool{}
			for _, s := range o.irrelevant {
				irr[s] = true
			}
			memo := map[*Term]bool{}
			e.irrelevant = func(t *Term) bool {
				if r, ok := memo[t]; ok {
					return r
				}
				r := t.Any(func(x *Term) bool {
					return x.Op == "&f" && irr[x.Name] || x.Op == "call" && irr[x.Name] || x.Op == "fld" && irr[x.Name]
				})
				memo[t] = r
				return r
			}
		}
	}
	t := time.Now()
	if os.Getenv("CHK_HIST") != "" {
		e.hist = map[string]int{}
		e.histF = map[string]map[string]int{}
	}
	e.Run()
	if e.hist != nil {
		e.dumpHist()
	}
	c.States += e.States
	c.Steps += e.Steps
	c.Paths += e.Exits
	c.Sites += len(e.Calls)
	for f := range e.Funcs {
		c.Funcs[calleeName(f)] = true
	}
	c.Runs = append(c.Runs, fmt.Sprintf("%s: %d abstract states, %d instructions, %d path ends, %d functions inlined, %.1fs", calleeName(root), e.States, e.Steps, e.Exits, len(e.Funcs), time.Since(t).Seconds()))
	c.Oblige("fixpoint", calleeName(root), root.Pos(), !e.Overflow, nil, "the dataflow did not reach a fixpoint within %d states: undecided", e.MaxSteps)
	return e
}

// Check evaluates an obligation in the current abstract state.
func (x *Exec) Check(rule, construct string, ev *Event, ok bool, format string, args ...interface{}) bool {
	var tr []string
	k := rule + "|" + construct
	if !ok {
		if o := x.E.C.Obls[k]; o == nil || !o.Failed {
			tr = x.S.trace()
		}
	}
	pos := token.NoPos
	if ev != nil {
		pos = ev.Pos
	}
	x.E.C.Oblige(rule, construct, pos, ok, tr, format, args...)
	return ok
}

func (s *State) trace() []string {
	var tr []string
	for st := s.tr; st != nil && len(tr) < 80; st = st.parent {
		if st.note != "" {
			tr = append(tr, st.note)
		}
	}
	for i, j := 0, len(tr)-1; i < j; i, j = i+1, j-1 {
		tr[i], tr[j] = tr[j], tr[i]
	}
	return tr
}

type propCheck struct {
	id  string
	run func(c *Ctx)
}

var registry = map[string]func(c *Ctx){}

func register(id string, f func(c *Ctx)) { registry[id] = f }

type known struct{ prop, rule, construct, what string }

// known_findings.txt lines: "known: property=C01 rule=<rule> construct=<construct> <what fails>"
func loadKnown(path string) ([]known, error) {
	b, err := os.ReadFile(path)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		f := strings.SplitN(strings.TrimSpace(strings.TrimPrefix(l, "known:")), " ", 4)
		if len(f) < 4 {
			return nil, fmt.Errorf("malformed known-findings line %q", l)
		}
		cut := func(s, p string) string { return strings.TrimPrefix(s, p) }
		out = append(out, known{cut(f[0], "property="), cut(f[1], "rule="), cut(f[2], "construct="), f[3]})
	}
	return out, nil
}

// runCheck runs one property check and returns the exit status.
func runCheck(id, tier, repo, out string, quiet bool) int {
	start := time.Now()
	var c *Ctx
	func() {
		defer func() {
			if r := recover(); r != nil {
				if c == nil {
					c = NewCtx(nil, id, tier)
				}
				c.Oblige("analyser", "panic", token.NoPos, false, strings.Split(string(debug.Stack()), "\n"), "the analyser failed: %v", r)
			}
		}()
		p, err := Load(repo)
		c = NewCtx(p, id, tier)
		if err != nil {
			c.Oblige("load", "repository", token.NoPos, false, nil, "%v", err)
			return
		}
		f := registry[id]
		if f == nil {
			c.Oblige("analyser", id, token.NoPos, false, nil, "no check registered for %s", id)
			return
		}
		f(c)
	}()
	return c.finish(repo, out, start, quiet)
}

func (c *Ctx) failures() []*Obl {
	var fs []*Obl
	for _, o := range c.Obls {
		if o.Failed {
			fs = append(fs, o)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].Rule+fs[i].Construct < fs[j].Rule+fs[j].Construct })
	return fs
}

func (c *Ctx) where(pos token.Pos) string {
	if c.P == nil || !pos.IsValid() {
		return "-"
	}
	return c.P.where(pos)
}

func (c *Ctx) finish(repo, out string, start time.Time, quiet bool) int {
	kn, err := loadKnown(filepath.Join(out, "known_findings.txt"))
	if err != nil {
		c.Oblige("known-findings", "file", token.NoPos, false, nil, "%v", err)
	}
	fs := c.failures()
	var viol []*Obl
	matched := map[string]string{}
	for _, o := range fs {
		k := -1
		for i, x := range kn {
			if x.prop == c.Prop && x.rule == o.Rule && x.construct == o.Construct {
				k = i
			}
		}
		if k >= 0 {
			matched[o.Rule+"|"+o.Construct] = kn[k].what
			continue
		}
		viol = append(viol, o)
	}
	var keys []string
	for k := range matched {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.Prop, matched[k])
	}
	disch := 0
	for _, o := range c.Obls {
		if !o.Failed {
			disch++
		}
	}
	rep := filepath.Join(out, "evidence", c.Prop+".violation.txt")
	os.MkdirAll(filepath.Join(out, "evidence"), 0o755)
	os.Remove(rep)
	var vtexts []string
	if len(viol) > 0 {
		var sb strings.Builder
		for _, o := range viol {
			fmt.Fprintf(&sb, "%s: rule %s at %s: %s\n", c.where(o.Pos), o.Rule, o.Construct, o.Msg)
			for _, t := range o.Trace {
				fmt.Fprintf(&sb, "    %s\n", t)
			}
			vtexts = append(vtexts, fmt.Sprintf("%s: rule %s at %s: %s", c.where(o.Pos), o.Rule, o.Construct, trunc(o.Msg, 400)))
		}
		os.WriteFile(rep, []byte(sb.String()), 0o644)
	}
	var fns []string
	for f := range c.Funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	var obls []map[string]interface{}
	var oks []string
	for k := range c.Obls {
		oks = append(oks, k)
	}
	sort.Strings(oks)
	for _, k := range oks {
		o := c.Obls[k]
		if len(obls) < 400 {
			obls = append(obls, map[string]interface{}{"rule": o.Rule, "construct": o.Construct, "at": c.where(o.Pos), "evaluations": o.Paths, "discharged": !o.Failed})
		}
	}
	if vtexts == nil {
		vtexts = []string{}
	}
	var known []string
	for _, k := range keys {
		known = append(known, k+": "+matched[k])
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{
		"property": c.Prop, "tier": c.Tier, "seed": seed, "level": "other",
		"coverage": map[string]interface{}{
			"explanation":   c.Explain,
			"obligations":   len(c.Obls),
			"discharged":    disch,
			"rules":         c.Rules,
			"functions":     fns,
			"abstract_runs": c.Runs,
			"states":        c.States,
			"instances":     obls,
			"known":         known,
			"notes":         c.Notes,
			"violations":    vtexts,
		},
		"wall_s":      time.Since(start).Seconds(),
		"assumptions": c.Assume,
		"violations":  len(viol),
	}
	if c.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(out, "evidence", c.Prop+".json"), append(b, '\n'), 0o644)
	if !quiet {
		fmt.Printf("%s (%s): %d obligations, %d discharged, %d functions, %d abstract states, %.1fs\n", c.Prop, c.Tier, len(c.Obls), disch, len(fns), c.States, time.Since(start).Seconds())
	}
	if len(viol) > 0 {
		for _, o := range viol {
			fmt.Printf("  %s: rule %s at %s: %s\n", c.where(o.Pos), o.Rule, o.Construct, trunc(o.Msg, 600))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, rep)
		return 1
	}
	return 0
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
