package main

// The frame of the property checks: rule instances, findings, evidence.

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Finding struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Detail    string `json:"detail"`
	Undecided bool   `json:"undecided,omitempty"`
}

type Check struct {
	validation *Term // number of validation samples of training runs, if fixed
	id        string
	w         *World
	instances []string // rule instances decided
	finds     []Finding
	seen      map[string]bool
	obls      int
	fns       map[string]bool
	events    int
	scope     []string
	rules     map[string]int
	cur       string
}

type property struct {
	id    string
	level string
	run   func(c *Check)
	rule  string
	min   int // least number of rule instances confirmed on the reference tree
}

var registry []*property

func register(id, rule string, min int, run func(c *Check)) {
	registry = append(registry, &property{id: id, level: "other", run: run, rule: rule, min: min})
}

// expect records a decided rule instance.
func (c *Check) expect(rule, construct string, ok bool, detail string, args ...interface{}) bool {
	c.rules[rule]++
	c.instances = append(c.instances, rule+" @ "+construct)
	if !ok {
		c.report(rule, construct, fmt.Sprintf(detail, args...), false)
	}
	return ok
}

func (c *Check) report(rule, construct, detail string, und bool) {
	k := rule + "|" + construct
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	c.finds = append(c.finds, Finding{rule, construct, detail, und})
}

// scoped runs a part of a check; what cannot be decided is reported there.
func (c *Check) scoped(construct string, f func()) {
	if only := os.Getenv("NNONLY"); only != "" && construct != only && c.cur == "loading" {
		return
	}
	old := c.cur
	c.cur = construct
	defer func() {
		c.cur = old
		if r := recover(); r != nil {
			if u, ok := r.(undecided); ok {
				c.report("undecided", construct, u.why, true)
				return
			}
			c.report("undecided", construct, fmt.Sprintf("analysis failed: %v\n%s", r, debug.Stack()), true)
		}
	}()
	f()
}

func (c *Check) where(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	p := c.w.prog.Fset.Position(fn.Pos())
	return fmt.Sprintf("%s (%s:%d)", fn.RelString(c.w.pkg.Pkg), shortFile(p.Filename), p.Line)
}

// anchor finds a function by its exported name.
func (c *Check) anchor(name string) *ssa.Function {
	fn := c.w.fn(name)
	if fn == nil || fn.Blocks == nil {
		panic(undecided{"the function " + name + " does not exist any more"})
	}
	return fn
}

func (c *Check) note(ev *Eval) {
	for f := range ev.visited {
		c.fns[c.where(f)] = true
	}
	c.obls += len(ev.obls)
	c.events += len(ev.events)
}

// Run is one analysed entry point.
type Run struct {
	needed *Term // where the calls must happen (all, if nil)
	c    *Check
	fn   *ssa.Function
	b    *Builder
	ev   *Eval
	args []*Term
	f    *Facts
	st0  *State
	val  *Term
	st   *State
	pc   *Term

	lastTrialFailed bool
}

type runOpts struct {
	over   map[string]*Term
	facts  func(r *Run) []*Term
	hook   func(ev *Eval, fr *frame, ins ssa.CallInstruction, fn *ssa.Function, name string, args []*Term) (*Term, bool)
	b      *Builder
	args   []*Term
	st     *State
	nosnap bool
	prefix string
	ev     *Eval
	key    string
	faults *faultPlan
	sigma  *Subst
}

// run analyses a function for all arguments.
func (c *Check) run(name string, o runOpts) *Run {
	fn := c.anchor(name)
	return c.runFn(fn, o)
}

func (c *Check) runFn(fn *ssa.Function, o runOpts) *Run {
	r := &Run{c: c, fn: fn}
	r.b = o.b
	if r.b == nil {
		r.b = newBuilder(c.w)
	}
	for k, v := range o.over {
		r.b.over[k] = v
	}
	r.ev = o.ev
	if r.ev == nil {
		r.ev = newEval(c.w)
	}
	r.ev.hook = o.hook
	r.ev.nosnap = o.nosnap
	r.ev.faults = o.faults
	r.ev.sigma = o.sigma
	p := o.prefix
	if p == "" {
		p = "a"
	}
	for i, prm := range fn.Params {
		if i < len(o.args) && o.args[i] != nil {
			r.args = append(r.args, o.args[i])
			continue
		}
		r.args = append(r.args, r.b.val(prm.Type(), fmt.Sprintf("%s%d", p, i), nil))
	}
	r.st0 = o.st
	if r.st0 == nil {
		r.st0 = newState()
	}
	r.f = &Facts{}
	if o.facts != nil {
		r.f = r.f.With(o.facts(r)...)
	}
	r.val, r.st, r.pc = r.ev.Call(fn, r.args, nil, r.st0.clone(), r.f, o.key)
	c.note(r.ev)
	if len(r.ev.issues) > 0 {
		panic(undecided{strings.Join(sortedKeys(r.ev.issues), "; ")})
	}
	return r
}

func (r *Run) ret(i int) *Term {
	if r.val == nil {
		panic(undecided{"the function never returns"})
	}
	if r.fn.Signature.Results().Len() == 1 {
		return r.val
	}
	return field(r.val, i)
}

func (r *Run) errIdx() int {
	n := r.fn.Signature.Results().Len()
	if n == 0 || r.fn.Signature.Results().At(n-1).Type().String() != "error" {
		return -1
	}
	return n - 1
}

// noErr is the condition that no error is returned.
func (r *Run) noErr() *Term {
	i := r.errIdx()
	if i < 0 {
		return True
	}
	return boolOf(IsNil(r.ret(i)))
}

func (r *Run) mat(name string) *MatInfo {
	m := r.b.info[name]
	if m == nil {
		panic(undecided{"parameter " + name + " of " + r.fn.String() + " is not a matrix"})
	}
	return m
}

// ---------- common rules ----------

// mustReturn: under the facts the function returns normally, without panic.
func (r *Run) mustReturn(rule string, f *Facts) {
	r.noPanic(rule, f)
	r.c.expect(rule+".returns", r.c.where(r.fn), f.Entails(r.pc), "may not return normally for some arguments")
}

// noPanic: every operation that could panic is safe.
func (r *Run) noPanic(rule string, f *Facts) {
	for _, o := range r.ev.obls {
		ok := o.ok
		if !ok && o.facts != nil && f != nil {
			g := o.facts.With(allConds(f)...)
			ok = g.Entails(o.cond) || g.Contradictory()
		}
		if !ok && o.facts != nil {
			ok = o.facts.ProvesByCases(o.cond)
		}
		if !ok {
			r.c.report(rule+"."+o.kind, r.c.where(o.fn)+" at "+r.ev.pos(o.instr), fmt.Sprintf("operation may panic (%s) when called from %s: cannot show %v", o.kind, r.c.where(r.fn), o.cond), false)
		}
	}
	r.c.rules[rule+".safe-operation"] += len(r.ev.obls)
	r.c.instances = append(r.c.instances, rule+".safe-operations @ "+r.c.where(r.fn))
}

func allConds(f *Facts) []*Term {
	var out []*Term
	for f != nil {
		out = append(out, f.conds...)
		f = f.parent
	}
	return out
}

// unchanged: no storage that existed before the call is changed.
func (r *Run) unchanged(rule string, f *Facts, except func(*Family) bool) {
	for _, fam := range sortedFams(r.st.mem) {
		if !fam.param {
			continue
		}
		if except != nil && except(fam) {
			continue
		}
		now, old := r.st.mem[fam], r.st0.content(fam)
		ok := now == old || EqualF(f, now, old)
		r.c.expect(rule+".unchanged", r.c.where(r.fn)+" on "+fam.name, ok, "storage %s of an argument may be changed: %v", fam.name, now)
	}
	r.c.rules[rule+".unchanged-run"]++
	r.c.instances = append(r.c.instances, rule+".effects @ "+r.c.where(r.fn))
}

// wellFormed: a returned matrix has consistent dimensions.
func (r *Run) wellFormed(rule string, f *Facts, v *Term, what string, fresh bool) {
	c := r.c
	con := c.where(r.fn) + " " + what
	rows, cols, m := matParts(c.w, v)
	rows, cols, m = f.Simp(rows), f.Simp(cols), f.Simp(m)
	c.expect(rule+".positive", con, f.Entails(And(Le(One, rows), Le(One, cols))), "dimensions %v x %v are not shown positive", rows, cols)
	c.expect(rule+".rows", con, EqualF(f, slen(m), rows), "has %v stored rows but declares %v", slen(m), rows)
	i := num(sym("?i", true))
	g := f.With(Le(Zero, i), Lt(i, rows))
	row := rowAt(c.w, r.st, g, v, i)
	c.expect(rule+".cols", con, EqualF(g, slen(row), cols), "a row has %v cells but %v are declared", slen(row), cols)
	if fresh {
		r.fresh(rule, f, v, what)
	}
}

// fresh: the storage of a matrix was allocated by the call, each row on its own.
func (r *Run) fresh(rule string, f *Facts, v *Term, what string) {
	c := r.c
	con := c.where(r.fn) + " " + what
	rows, _, m := matParts(c.w, v)
	rows = f.Simp(rows)
	i := num(sym("?i", true))
	i2 := num(sym("?i2", true))
	g := f.With(Le(Zero, i), Lt(i, rows))
	own := func(ref *Term) bool {
		for _, cs := range cases(ref) {
			if f.With(cs.c).Contradictory() {
				continue
			}
			if cs.v.op != ORef || cs.v.fam().param {
				return false
			}
		}
		return true
	}
	c.expect(rule+".own-rows", con, own(sref(f.Simp(m))), "the row table is not allocated by the function: %v", sref(f.Simp(m)))
	row := rowAt(c.w, r.st, g, v, i)
	c.expect(rule+".own-cells", con, own(sref(row)), "a row is stored outside the function's own storage: %v", sref(row))
	g2 := g.With(Lt(i, i2), Lt(i2, rows))
	row2 := rowAt(c.w, r.st, g2, v, i2)
	same := EqV(sref(g2.Simp(row)), sref(row2))
	ok := g2.Entails(Not(boolOf(same)))
	if !ok {
		// parts of one array that do not overlap
		a, b := g2.Simp(row), row2
		ok = g2.Entails(Or(Le(Add(soff(a), slen(a)), soff(b)), Le(Add(soff(b), slen(b)), soff(a))))
	}
	c.expect(rule+".distinct-rows", con, ok, "two rows may share their cells")
}

// cellIs: every cell of a matrix has the given value.
func (r *Run) cellIs(rule string, f *Facts, v, rows, cols *Term, what string, spec func(i, j *Term) *Term) bool {
	c := r.c
	con := c.where(r.fn) + " " + what
	R, C, _ := matParts(c.w, v)
	ok := c.expect(rule+".shape", con, EqualF(f, R, rows) && EqualF(f, C, cols), "shape is %v x %v, should be %v x %v", f.Simp(R), f.Simp(C), rows, cols)
	if !ok {
		return false
	}
	i, j := num(sym("?i", true)), num(sym("?j", true))
	g := f.With(Le(Zero, i), Lt(i, rows), Le(Zero, j), Lt(j, cols))
	got := cellAt(c.w, r.st, g, v, i, j)
	var want *Term
	under(g, func() { want = g.Simp(spec(i, j)) })
	return c.expect(rule+".cells", con, EqualF(g, got, want), "cell (i,j) is %v, should be %v", got, want)
}

func (r *Run) accepted(rule string, f *Facts, what string) {
	r.c.expect(rule+".accepted", r.c.where(r.fn)+" "+what, f.Proves(r.noErr()), "an error may be returned for valid arguments")
}
func (r *Run) refused(rule string, f *Facts, what string) {
	r.c.expect(rule+".refused", r.c.where(r.fn)+" "+what, f.Proves(Not(r.noErr())), "no error is returned although %s: error if %v", what, f.Simp(Not(r.noErr())))
}

// ---------- driver ----------

func runCheck(id string) int {
	var p *property
	for _, q := range registry {
		if q.id == id {
			p = q
		}
	}
	if p == nil {
		fmt.Printf("unknown property %s\n", id)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, "none")
		return 1
	}
	t0 := time.Now()
	c := &Check{id: id, seen: map[string]bool{}, fns: map[string]bool{}, rules: map[string]int{}}
	limit := 800 * time.Second
	done := make(chan bool, 1)
	go func() {
		c.scoped("loading", func() {
			w, err := loadWorld(repoDir())
			if err != nil {
				panic(undecided{"the module cannot be loaded: " + err.Error()})
			}
			c.w = w
			w.initGlobals()
			p.run(c)
			if len(c.instances) < p.min {
				c.report("coverage", "analysis", fmt.Sprintf("only %d rule instances were found, at least %d are expected", len(c.instances), p.min), true)
			}
		})
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(limit):
		fmt.Printf("analysis exceeded %v\n", limit)
		c = &Check{id: id, finds: []Finding{{"undecided", "analysis", "time limit exceeded", true}}, rules: map[string]int{}}
	}
	return c.finish(p, time.Since(t0))
}

func outDir() string {
	if d := os.Getenv("NN_OUT"); d != "" {
		return d
	}
	return "/verif/evidence"
}

func (c *Check) finish(p *property, wall time.Duration) int {
	dir := outDir()
	os.MkdirAll(dir, 0o755)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	var fns []string
	for f := range c.fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	inst := append([]string(nil), c.instances...)
	ev := map[string]interface{}{
		"property": c.id, "tier": tier, "seed": seed, "level": p.level, "wall_s": wall.Seconds(),
		"violations": len(c.finds),
		"coverage": map[string]interface{}{
			"explanation":            p.rule,
			"functions_analysed":     fns,
			"rule_instances":         inst,
			"rule_instance_count":    len(inst),
			"instances_per_rule":     c.rules,
			"panic_obligations":      c.obls,
			"effects_recorded":       c.events,
			"terms_in_value_graph":   len(termIndex),
			"undecided_or_violating": c.finds,
		},
		"assumptions": []string{
			"float64 arithmetic is taken as real arithmetic (no rounding, overflow or NaN); int and int64 do not overflow",
			"matrices passed in satisfy the representation invariant decided by M05 and distinct arguments do not overlap",
			"the behaviour of the Go standard library and golang.org/x/exp/rand is as modelled in analyzer/stdlib.go",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, c.id+".json"), b, 0o644)
	replay := filepath.Join(dir, c.id+".findings.txt")
	if len(c.finds) == 0 {
		os.Remove(replay)
		fmt.Printf("property %s holds: %d rule instances, %d functions, %d safety obligations, %.1fs\n", c.id, len(inst), len(fns), c.obls, wall.Seconds())
		return 0
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s\nrule: %s\n\n", c.id, p.rule)
	for _, f := range c.finds {
		kind := "violated"
		if f.Undecided {
			kind = "not decided"
		}
		d := f.Detail
		if len(d) > 3000 {
			d = d[:3000] + "..."
		}
		fmt.Fprintf(&sb, "%s: %s\n  at %s\n  %s\n", kind, f.Rule, f.Construct, d)
	}
	os.WriteFile(replay, []byte(sb.String()), 0o644)
	s := sb.String()
	if len(s) > 6000 {
		s = s[:6000] + "...\n"
	}
	fmt.Print(s)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, replay)
	return 1
}
