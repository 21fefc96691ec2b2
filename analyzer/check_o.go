package main

import (
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// O01-O04: the optimizers. The hidden state of an optimizer is generalised from
// the objects its constructor and its first steps produce, and the
// generalisation is shown to be preserved by every further step.

func init() {
	register("O01", "closed form of the parameters and of the history after the first and after an arbitrary further step", 30, func(c *Check) { checkRule(c, "SGDOptimizer", "O01") })
	register("O02", "closed form of the parameters and of the moments after the first and after an arbitrary further step", 20, func(c *Check) { checkRule(c, "AdamOptimizer", "O02") })
	register("O03", "mismatched gradients return an error with no store to parameters or history, and no operation that can panic", 20, checkO03)
	register("O04", "the object built from a type and the values of a constructed optimizer equals that optimizer field by field; unknown types return an error", 20, checkO04)
}

type optCase struct {
	kind  string
	names []string // hyperparameters in constructor order
	hyper map[string]*Term
	facts []*Term
	label string
}

func hyper(name string) *Term {
	s := sym("hyper:"+name, false)
	return num(s)
}

// optCases distinguishes zero and positive decay and momentum.
func optCases(kind string) []*optCase {
	var out []*optCase
	for _, dec := range []bool{false, true} {
		for _, mom := range []bool{false, true} {
			if kind == "AdamOptimizer" && mom {
				continue
			}
			o := &optCase{kind: kind, hyper: map[string]*Term{}}
			add := func(n string, v *Term) {
				o.names = append(o.names, n)
				o.hyper[n] = v
			}
			lr := hyper("rate")
			o.facts = append(o.facts, Lt(Zero, lr))
			add("LearningRate", lr)
			k := Zero
			o.label = "no decay"
			if dec {
				k = hyper("decay")
				o.facts = append(o.facts, Lt(Zero, k))
				o.label = "decay"
			}
			add("Decay", k)
			if kind == "SGDOptimizer" {
				m := Zero
				if mom {
					m = hyper("momentum")
					o.facts = append(o.facts, Lt(Zero, m))
					o.label += ", momentum"
				}
				add("Momentum", m)
			} else {
				add("Epsilon", hyper("epsilon"))
				add("Beta1", hyper("beta1"))
				add("Beta2", hyper("beta2"))
				for _, n := range []string{"Beta1", "Beta2"} {
					o.facts = append(o.facts, Le(Zero, o.hyper[n]), Lt(o.hyper[n], One))
				}
				o.facts = append(o.facts, Lt(Zero, o.hyper["Epsilon"]))
			}
			out = append(out, o)
		}
	}
	return out
}

func (o *optCase) args() []*Term {
	var r []*Term
	for _, n := range o.names {
		r = append(r, o.hyper[n])
	}
	return r
}

// stepOver fixes the shapes: parameters and gradients agree (or not).
func stepOver(fit bool) map[string]*Term {
	I, O := dim("I"), dim("O")
	m := map[string]*Term{"a1.Rows": I, "a1.Cols": O, "a2.Rows": One, "a2.Cols": O}
	if fit {
		m["a3.Rows"], m["a3.Cols"] = I, O
		m["a4.Rows"], m["a4.Cols"] = One, O
	}
	return m
}

type optRun struct {
	*Run
	o   *optCase
	fam *Family
	t   *Term
}

// newOpt is the object the constructor makes.
func (c *Check) newOpt(o *optCase) (*Run, *Term) {
	r := c.run("New"+o.kind, runOpts{prefix: "h", args: o.args(), facts: func(*Run) []*Term { return o.facts }})
	f := r.f.With(r.pc, r.noErr())
	return r, f.Simp(r.ret(0))
}

// step runs Update on an optimizer object with parameters a1, a2 and gradients
// a3, a4.
func (c *Check) step(o *optCase, obj *Term, b *Builder, st *State, fit bool, label string, more ...*Term) *optRun {
	fam := newFamily("optimizer", famCell, 0, c.w.pkg.Type(o.kind).Type())
	fam.param = true
	st = st.clone()
	st.mem[fam] = obj
	r := c.run(o.kind+".Update", runOpts{b: b, over: stepOver(fit), args: []*Term{Ptr(nil, Ref(fam))}, st: st, key: label, facts: func(*Run) []*Term {
		return append(append([]*Term{}, o.facts...), more...)
	}})
	return &optRun{Run: r, o: o, fam: fam}
}

// generalState replaces what the first step changed by unknown history: matrices
// by unknown matrices of the same shape, other fields by the first guess that
// level selects (constant, counted, powers, unknown).
func (c *Check) generalState(o *optCase, o0, o1 *Term, r1 *optRun, t *Term, level map[int]int) (func(t *Term) *Term, *Builder, []*histField) {
	s := structOf(c.w, o.kind)
	b := newBuilder(c.w)
	W, B := r1.mat("a1"), r1.mat("a2")
	var fs []func(t *Term) *Term
	var hist []*histField
	f := r1.f.With(r1.pc)
	fixed := func(x *Term) func(*Term) *Term { return func(*Term) *Term { return x } }
	for i := 0; i < s.NumFields(); i++ {
		fl := s.Field(i)
		x0, x1 := field(o0, i), f.Simp(field(o1, i))
		if isNamed(fl.Type(), c.w.pkg.Pkg, "Matrix") {
			R, C, _ := matParts(c.w, x1)
			R, C = f.Simp(R), f.Simp(C)
			if R == Zero {
				fs = append(fs, fixed(x0))
				continue
			}
			h := &histField{name: fl.Name(), n: i}
			switch {
			case EqualF(f, R, W.rows) && EqualF(f, C, W.cols):
				h.weights = true
			case EqualF(f, R, B.rows) && EqualF(f, C, B.cols):
			default:
				panic(undecided{"the history " + fl.Name() + " has the shape " + R.String() + " x " + C.String()})
			}
			b.over["hist."+fl.Name()+".Rows"], b.over["hist."+fl.Name()+".Cols"] = R, C
			fs = append(fs, fixed(b.val(fl.Type(), "hist."+fl.Name(), nil)))
			h.mat = b.info["hist."+fl.Name()]
			hist = append(hist, h)
			continue
		}
		cands := []func(*Term) *Term{fixed(x1)}
		if isInteger(fl.Type()) || isFloat(fl.Type()) {
			if d := f.Simp(Sub(x1, x0)); d != Zero {
				cands = append(cands, func(t *Term) *Term { return Add(x0, Mul(d, t)) })
			}
		}
		if isFloat(fl.Type()) {
			if x0 != Zero && x1 != x0 {
				q := f.Simp(Div(x1, x0))
				cands = append(cands, func(t *Term) *Term { return Mul(x0, Pow(q, t)) })
			}
			cands = append(cands, func(t *Term) *Term { return nil })
		}
		if level[i] >= len(cands) {
			panic(undecided{"cannot generalise the field " + fl.Name() + ": " + x0.String() + " then " + x1.String()})
		}
		g := cands[level[i]]
		if g(t) == nil {
			g = fixed(num(sym("hist."+fl.Name(), false)))
			hist = append(hist, &histField{name: fl.Name(), n: i, float: true})
		}
		fs = append(fs, g)
	}
	return func(t *Term) *Term {
		var v []*Term
		for _, g := range fs {
			v = append(v, g(t))
		}
		return Tuple(v...)
	}, b, hist
}

// history generalises until a further step preserves the general state.
func (c *Check) history(o *optCase, o0 *Term, r1 *optRun, t *Term) (*Term, *Builder, []*histField, *optRun) {
	level := map[int]int{}
	for {
		gen, b, hist := c.generalState(o, o0, r1.st.content(r1.fam), r1, t, level)
		r := c.step(o, gen(t), b, newState(), true, "t", Le(One, t))
		if c.preserved(r, gen(Add(t, One)), hist, level) {
			return gen(t), b, hist, r
		}
	}
}

type histField struct {
	name    string
	n       int
	mat     *MatInfo
	weights bool
	float   bool
}

// rate is the learning rate of step t.
func (o *optCase) rate(t *Term) *Term {
	return Div(o.hyper["LearningRate"], Add(One, Mul(o.hyper["Decay"], t)))
}

func checkRule(c *Check, kind, rule string) {
	for _, o := range optCases(kind) {
		o := o
		c.scoped(kind+" with "+o.label, func() {
			r0, o0 := c.newOpt(o)
			r0.accepted(rule, r0.f, "valid settings")
			// the first step
			r1 := c.step(o, o0, nil, r0.st, true, "1")
			zero := func(*histField, *Term, *Term) *Term { return Zero }
			c.checkStep(rule, r1, Zero, nil, zero, o0)
			// any further step
			t := num(sym("t", true))
			setLo(varAtom(t), One)
			gen, _, hist, rt := c.history(o, o0, r1, t)
			c.checkStep(rule, rt, t, hist, func(h *histField, i, j *Term) *Term { return h.mat.cell(nil, i, j) }, gen)
		})
	}
}

// checkStep compares the parameters after a step with the update rule.
func (c *Check) checkStep(rule string, r *optRun, t *Term, hist []*histField, old func(h *histField, i, j *Term) *Term, before *Term) {
	r.mustReturn(rule, r.f)
	r.noPanic(rule, nil)
	r.accepted(rule, r.f, "matching gradients")
	rate := r.o.rate(t)
	for p, name := range []string{"weights", "biases"} {
		P, G := r.mat(itoaKey("a", 1+p)), r.mat(itoaKey("a", 3+p))
		now := deref(r.st, r.args[1+p])
		var cands []*histField
		for _, h := range hist {
			if h.mat != nil && (h.weights == (p == 0) || EqualF(r.f, h.mat.rows, P.rows) && EqualF(r.f, h.mat.cols, P.cols)) {
				cands = append(cands, h)
			}
		}
		if len(cands) == 0 {
			cands = []*histField{nil}
		}
		// the value of the history after the step
		post := func(h *histField, i, j *Term) *Term {
			if h == nil {
				return nil
			}
			return cellAt(c.w, r.st, r.f.With(Le(Zero, i), Lt(i, P.rows), Le(Zero, j), Lt(j, P.cols)), field(r.st.content(r.fam), h.n), i, j)
		}
		i, j := num(sym("?i", true)), num(sym("?j", true))
		f := r.f.With(Le(Zero, i), Lt(i, P.rows), Le(Zero, j), Lt(j, P.cols))
		prev := func(h *histField, i, j *Term) *Term {
			if h == nil {
				return Zero
			}
			return old(h, i, j)
		}
		keeps := func(h *histField, want *Term) bool {
			return h == nil || EqualF(f, post(h, i, j), want)
		}
		spec := func(i, j *Term) *Term { return nil }
		g := func(i, j *Term) *Term { return G.cell(nil, i, j) }
		if r.o.kind == "SGDOptimizer" {
			m := r.o.hyper["Momentum"]
			vel := func(h *histField) func(i, j *Term) *Term {
				return func(i, j *Term) *Term {
					return Sub(Mul(m, prev(h, i, j)), Mul(rate, g(i, j)))
				}
			}
			pick := cands[0]
			found := false
			for _, h := range cands {
				if keeps(h, vel(h)(i, j)) {
					pick, found = h, true
					break
				}
			}
			if m != Zero && hist != nil {
				c.expect(rule+".velocity", c.where(r.fn)+" "+name, found && pick != nil, "no history of the %s is updated to momentum times itself minus the rate times the gradient", name)
			}
			spec = func(i, j *Term) *Term { return Add(P.cell(nil, i, j), vel(pick)(i, j)) }
		} else {
			b1, b2 := r.o.hyper["Beta1"], r.o.hyper["Beta2"]
			m1 := func(h *histField) func(i, j *Term) *Term {
				return func(i, j *Term) *Term { return Add(Mul(b1, prev(h, i, j)), Mul(Sub(One, b1), g(i, j))) }
			}
			m2 := func(h *histField) func(i, j *Term) *Term {
				return func(i, j *Term) *Term { return Add(Mul(b2, prev(h, i, j)), Mul(Sub(One, b2), powInt(g(i, j), 2))) }
			}
			var h1, h2 *histField
			for _, h := range cands {
				if h1 == nil && keeps(h, m1(h)(i, j)) {
					h1 = h
				} else if h2 == nil && keeps(h, m2(h)(i, j)) {
					h2 = h
				}
			}
			if hist != nil {
				c.expect(rule+".moments", c.where(r.fn)+" "+name, h1 != nil && h2 != nil, "no history of the %s is updated as the first and second moment averages", name)
			}
			t1 := Add(t, One)
			spec = func(i, j *Term) *Term {
				mh := Div(m1(h1)(i, j), Sub(One, Pow(b1, t1)))
				vh := Div(m2(h2)(i, j), Sub(One, Pow(b2, t1)))
				return Sub(P.cell(nil, i, j), Div(Mul(rate, mh), Add(Sqrt(vh), r.o.hyper["Epsilon"])))
			}
		}
		r.cellIs(rule, r.f, now, P.rows, P.cols, name+" in step "+t.String(), spec)
	}
	// the history belongs to the optimizer alone
	s := structOf(c.w, r.o.kind)
	now := r.st.content(r.fam)
	used := map[*Family]string{}
	for i := 0; i < s.NumFields(); i++ {
		fl := s.Field(i)
		if !isNamed(fl.Type(), c.w.pkg.Pkg, "Matrix") {
			continue
		}
		_, _, m := matParts(c.w, r.f.With(r.pc).Simp(field(now, i)))
		own := func(ref *Term, what string) {
			for _, cs := range cases(ref) {
				if cs.v.op != ORef || r.f.With(cs.c).Contradictory() {
					continue
				}
				fm := cs.v.fam()
				ok := !fm.param || len(fm.name) > 5 && fm.name[:5] == "hist."
				c.expect(rule+".own-history", c.where(r.fn)+" "+fl.Name(), ok, "the history %s is kept in storage of the caller (%s)", fl.Name(), fm.name)
				if o, dup := used[fm]; dup && o != fl.Name() && ok {
					c.expect(rule+".own-history", c.where(r.fn)+" "+fl.Name(), false, "the histories %s and %s share storage", fl.Name(), o)
				}
				used[fm] = fl.Name()
			}
		}
		own(sref(m), "table")
		R, _, _ := matParts(c.w, field(now, i))
		k := num(sym("?i", true))
		g := r.f.With(r.pc, Le(Zero, k), Lt(k, R))
		if !g.Contradictory() {
			own(sref(rowAt(c.w, r.st, g, field(now, i), k)), "row")
		}
	}
	// gradients are not changed
	r.unchanged(rule, r.f.With(r.pc), func(fm *Family) bool {
		return fm == r.fam || fm == r.mat("a1").celF || fm == r.mat("a2").celF || len(fm.name) > 5 && fm.name[:5] == "hist."
	})
}

func itoaKey(p string, n int) string { return p + itoa(n) }

// preserved: after the step the object is again in the general state, for t+1.
// Fields that are not get their next guess.
func (c *Check) preserved(r *optRun, want *Term, hist []*histField, level map[int]int) bool {
	s := structOf(c.w, r.o.kind)
	f := r.f.With(r.pc, r.noErr())
	now := r.st.content(r.fam)
	isHist := map[int]*histField{}
	for _, h := range hist {
		isHist[h.n] = h
	}
	all := true
	for i := 0; i < s.NumFields(); i++ {
		a, b := f.Simp(field(now, i)), field(want, i)
		h := isHist[i]
		switch {
		case h != nil && h.mat != nil:
			R, C, _ := matParts(c.w, a)
			if !EqualF(f, R, h.mat.rows) || !EqualF(f, C, h.mat.cols) {
				panic(undecided{"the history " + h.name + " changes its shape to " + R.String() + " x " + C.String()})
			}
		case h != nil:
		case a == b || EqualF(f, a, b) || sameTuple(f, a, b):
		default:
			level[i]++
			all = false
		}
	}
	return all
}

func checkO03(c *Check) {
	for _, kind := range []string{"SGDOptimizer", "AdamOptimizer"} {
		for _, o := range optCases(kind) {
			o := o
			c.scoped(kind+" with "+o.label, func() {
				r0, o0 := c.newOpt(o)
				f1 := c.step(o, o0, nil, r0.st, true, "0")
				t := num(sym("t", true))
				setLo(varAtom(t), One)
				gen, b, _, _ := c.history(o, o0, f1, t)
				for k, obj := range []*Term{o0, gen} {
					var r *optRun
					if k == 0 {
						r = c.step(o, obj, nil, r0.st, false, "1")
					} else {
						r = c.step(o, obj, b, newState(), false, "t", Le(One, t))
					}
					W, B, dW, dB := r.mat("a1"), r.mat("a2"), r.mat("a3"), r.mat("a4")
					valid := And(EqN(W.rows, dW.rows), EqN(W.cols, dW.cols), EqN(B.rows, dB.rows), EqN(B.cols, dB.cols))
					r.mustReturn("O03", r.f)
					r.noPanic("O03", nil)
					r.accepted("O03", r.f.With(valid), "matching gradients")
					bad := r.f.With(Not(valid))
					r.refused("O03", bad, "the gradients do not match")
					r.unchangedIn("O03", bad)
				}
			})
		}
	}
}

// unchangedIn: under the facts nothing that existed before is changed.
func (r *Run) unchangedIn(rule string, f *Facts) {
	for _, fam := range sortedFams(r.st.mem) {
		if !fam.param {
			continue
		}
		now, old := r.st.mem[fam], r.st0.content(fam)
		ok := now == old || EqualF(f, now, old) || sameTuple(f, now, old)
		r.c.expect(rule+".unchanged", r.c.where(r.fn)+" on "+fam.name, ok, "%s is changed although an error is returned", fam.name)
	}
	r.c.rules[rule+".unchanged-run"]++
	r.c.instances = append(r.c.instances, rule+".effects @ "+r.c.where(r.fn))
}

func sameTuple(f *Facts, a, b *Term) bool {
	if b.op != OTuple {
		return false
	}
	for i := range b.a {
		if x := field(a, i); x != b.a[i] && !EqualF(f, x, b.a[i]) && !sameTuple(f, x, b.a[i]) {
			return false
		}
	}
	return true
}

// constant is the value of a named constant of the package.
func (w *World) constant(name string) *Term {
	k, ok := w.pkg.Members[name].(*ssa.NamedConst)
	if !ok {
		panic(undecided{"the constant " + name + " does not exist any more"})
	}
	return constInt(k.Value.Value)
}

func constInt(v constant.Value) *Term {
	n, ok := constant.Int64Val(constant.ToInt(v))
	if !ok {
		panic(undecided{"not an integer constant"})
	}
	return numInt(n)
}

// optValues runs getValues on an optimizer object.
func (c *Check) optValues(o *optCase, r0 *Run, o0 *Term) (*Term, *Run) {
	fam := newFamily("optimizer", famCell, 0, c.w.pkg.Type(o.kind).Type())
	fam.param = true
	st := r0.st.clone()
	st.mem[fam] = o0
	r := c.run(o.kind+".getValues", runOpts{args: []*Term{Ptr(nil, Ref(fam))}, st: st, key: "values", facts: func(*Run) []*Term { return o.facts }})
	r.noPanic("O04", nil)
	return r.ret(0), r
}

func checkO04(c *Check) {
	types := map[string]string{"SGDOptimizer": "SGDOptimizerType", "AdamOptimizer": "AdamOptimizerType"}
	for _, kind := range []string{"SGDOptimizer", "AdamOptimizer"} {
		for _, o := range optCases(kind) {
			o := o
			c.scoped(kind+" with "+o.label, func() {
				r0, o0 := c.newOpt(o)
				vals, rv := c.optValues(o, r0, o0)
				r := c.run("NewOptimizerFromType", runOpts{args: []*Term{c.w.constant(types[kind]), vals}, st: rv.st, key: "build", facts: func(*Run) []*Term { return o.facts }})
				r.mustReturn("O04", r.f)
				r.noPanic("O04", nil)
				r.accepted("O04", r.f, "a known type")
				r.unchanged("O04", r.f, nil)
				f := r.f.With(r.pc, r.noErr())
				v := f.Simp(r.ret(0))
				where := c.where(r.fn) + " " + kind
				if !c.expect("O04.type", where, v.op == OIface && isPtrTo(v.x, c.w, kind), "the optimizer built for %s is %v", types[kind], v) {
					return
				}
				p := v.a[0]
				ok := p.op == OPtr && p.a[0].op == ORef && !p.a[0].fam().param
				c.expect("O04.own", where, ok, "the optimizer is not a new object")
				if !ok {
					return
				}
				obj := f.Simp(deref(r.st, p))
				s := structOf(c.w, kind)
				differ := ""
				for i := 0; i < s.NumFields(); i++ {
					a, b := field(obj, i), field(o0, i)
					same := a == b || EqualF(f, a, b) || sameTuple(f, a, b)
					if s.Field(i).Exported() {
						c.expect("O04.hyperparameters", where+" "+s.Field(i).Name(), same, "is %v, the constructor gives %v", a, b)
					} else if !same {
						differ = s.Field(i).Name()
					}
				}
				if differ != "" {
					// the hidden state differs: then it must make no difference
					r1 := c.step(o, o0, nil, r0.st, true, "1")
					r2 := c.step(o, obj, nil, r.st, true, "1")
					for n := 1; n <= 2; n++ {
						P := r1.mat(itoaKey("a", n))
						want := deref(r1.st, r1.args[n])
						r2.cellIs("O04", r2.f, deref(r2.st, r2.args[n]), P.rows, P.cols, "parameters after a step", func(i, j *Term) *Term { return cellAt(c.w, r1.st, r1.f, want, i, j) })
					}
					x, y := r1.st.content(r1.fam), r2.st.content(r2.fam)
					for i := 0; i < s.NumFields(); i++ {
						if isNamed(s.Field(i).Type(), c.w.pkg.Pkg, "Matrix") {
							continue
						}
						a, b := r1.f.Simp(field(x, i)), r2.f.Simp(field(y, i))
						c.expect("O04.state", where+" "+s.Field(i).Name(), a == b || EqualF(r2.f, a, b), "differs from the constructed optimizer's: %v instead of %v", b, a)
					}
				} else {
					c.instances = append(c.instances, "O04.state @ "+where)
				}
			})
		}
	}
	c.scoped("unknown types", func() {
		r := c.run("NewOptimizerFromType", runOpts{})
		var bad []*Term
		for _, t := range []string{"SGDOptimizerType", "AdamOptimizerType"} {
			bad = append(bad, Not(EqN(r.args[0], c.w.constant(t))))
		}
		r.mustReturn("O04", r.f)
		r.noPanic("O04", nil)
		r.refused("O04", r.f.With(bad...), "the type is unknown")
		r.accepted("O04", r.f.With(Not(And(bad...))), "a known type")
	})
}

func isPtrTo(x interface{}, w *World, kind string) bool {
	t, ok := x.(types.Type)
	if !ok {
		return false
	}
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isNamed(p.Elem(), w.pkg.Pkg, kind)
}
