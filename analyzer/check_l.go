package main

// L01-L09: the layers.

import "go/types"

func init() {
	register("L01", "closed form of every output cell of each forward pass equals the activation of the affine map", 12, checkL01)
	register("L02", "closed form of every cell of the three gradients of a backward pass after a forward pass equals the derivative", 42, checkL02)
	register("L03", "no store of a layer pass reaches the storage of a matrix argument, of the parameters or of a setting", 24, checkL03)
	register("L05", "every exponent is shown non-positive and every divisor at least one for arbitrary inputs", 3, checkL05)
	register("L06", "closed form of the fused gradients equals the derivative of the batch-average cross-entropy for one-hot targets", 4, checkL06)
	register("L07", "errors exactly for mismatched widths and sample counts, and no operation that can panic", 40, checkL07)
	register("L10", "closed form of every cell of each activation function and activation gradient called on its own, no store reaching an argument", 40, checkL10)
	register("L09", "constructors return an error exactly for invalid settings and otherwise an object with the given settings", 50, checkL09)
}

type layerKind struct {
	name, ctor string
	forward    []string
}

func layerKinds() []layerKind {
	return []layerKind{
		{"HiddenLayer", "NewLayer", []string{"Forward"}},
		{"LinearLayer", "NewLinearLayer", []string{"Forward"}},
		{"SigmoidLayer", "NewSigmoidLayer", []string{"Forward"}},
		{"LeakyLayer", "NewLeakyLayer", []string{"Forward"}},
		{"SoftmaxLayer", "NewSoftmaxLayer", []string{"Forward"}},
		{"DropoutLayer", "NewDropoutLayer", []string{"Forward", "ForwardNoDropout"}},
	}
}

// layerOver fixes the shapes of a layer: inputs I, outputs O, and of a batch
// of N samples with upstream gradients.
func layerOver(fit bool) map[string]*Term {
	I, O := dim("I"), dim("O")
	o := map[string]*Term{
		"a0.InputSize": I, "a0.OutputSize": O,
		"a0.Weights.Rows": I, "a0.Weights.Cols": O,
		"a0.Biases.Rows": One, "a0.Biases.Cols": O,
	}
	s := sym("slope", false)
	setLo(s, Zero)
	o["a0.Slope"] = num(s)
	d := sym("rate", false)
	setLo(d, Zero)
	setHi(d, One)
	o["a0.Dropout"] = num(d)
	if fit {
		N := dim("N")
		o["a1.Rows"], o["a1.Cols"] = N, I
		o["a2.Rows"], o["a2.Cols"] = N, O
		o["a3.Rows"], o["a3.Cols"] = N, O
	}
	return o
}

// affine is z = XW + B.
func affine(r *Run) func(i, j *Term) *Term {
	X, W, B := r.mat("a1"), r.mat("a0.Weights"), r.mat("a0.Biases")
	return func(i, j *Term) *Term {
		k := num(fresh("?k", true))
		return Add(SumR(k, Zero, X.cols, Mul(X.cell(nil, i, k), W.cell(nil, k, j))), B.cell(nil, Zero, j))
	}
}

func relu(z *Term) *Term { return Ite(Lt(Zero, z), z, Zero) }

// activation is the specified activation of the outputs.
func activation(kind string, z func(i, j *Term) *Term, O *Term) func(i, j *Term) *Term {
	return func(i, j *Term) *Term {
		switch kind {
		case "HiddenLayer", "DropoutLayer":
			return relu(z(i, j))
		case "LinearLayer":
			return z(i, j)
		case "SigmoidLayer":
			return Inv(Add(One, Exp(Neg(z(i, j)))))
		case "LeakyLayer":
			return Ite(Lt(z(i, j), Zero), Mul(num(sym("slope", false)), z(i, j)), z(i, j))
		case "SoftmaxLayer":
			k := num(fresh("?k", true))
			return Div(Exp(z(i, j)), SumR(k, Zero, O, Exp(z(i, k))))
		}
		panic(undecided{"no specification for " + kind})
	}
}

func (r *Run) layerForward(rule string, kind string) {
	r.mustReturn(rule, r.f)
	r.accepted(rule, r.f, "a matching input")
	O := r.mat("a0.Weights").cols
	r.cellIs(rule, r.f, r.ret(0), r.mat("a1").rows, O, "output", activation(kind, affine(r), O))
}

func checkL01(c *Check) {
	for _, k := range layerKinds() {
		k := k
		m := k.forward[len(k.forward)-1]
		c.scoped(k.name+"."+m, func() {
			r := c.run(k.name+"."+m, runOpts{over: layerOver(true)})
			r.layerForward("L01", k.name)
		})
	}
}

// after runs a second operation on the state and objects left by the first.
func (r *Run) after(name string, args []*Term, facts ...*Term) *Run {
	r2 := r.c.run(name, runOpts{b: r.b, args: args, st: r.st, key: "2", facts: func(*Run) []*Term {
		return append(append(allConds(r.f), r.pc, r.noErr()), facts...)
	}})
	return r2
}

func checkL02(c *Check) {
	for _, k := range layerKinds() {
		k := k
		fwd := k.forward[len(k.forward)-1]
		c.scoped(k.name, func() {
			r1 := c.run(k.name+"."+fwd, runOpts{over: layerOver(true)})
			r1.layerForward("L02", k.name)
			r := r1.after(k.name+".Backward", r1.args)
			X, W := r.mat("a1"), r.mat("a0.Weights")
			I, O, N := X.cols, W.cols, X.rows
			r.mustReturn("L02", r.f)
			r.accepted("L02", r.f, "matching input and gradient")
			D := r.mat("a2")
			z := affine(r)
			y := activation(k.name, z, O)
			delta := func(alt bool) func(i, j *Term) *Term {
				return func(i, j *Term) *Term {
					g := D.cell(nil, i, j)
					pos := Lt(Zero, z(i, j))
					if alt {
						pos = Le(Zero, z(i, j))
					}
					switch k.name {
					case "HiddenLayer", "DropoutLayer":
						return Ite(pos, g, Zero)
					case "LinearLayer":
						return g
					case "LeakyLayer":
						return Ite(pos, g, Mul(num(sym("slope", false)), g))
					case "SigmoidLayer":
						return Mul(g, Mul(y(i, j), Sub(One, y(i, j))))
					}
					q := num(fresh("?q", true))
					return Mul(y(i, j), Sub(g, SumR(q, Zero, O, Mul(D.cell(nil, i, q), y(i, q)))))
				}
			}
			alts := []bool{false}
			if k.name == "HiddenLayer" || k.name == "DropoutLayer" || k.name == "LeakyLayer" {
				alts = []bool{true, false}
			}
			for n, alt := range alts {
				r.gradients("L02", delta(alt), I, O, N, n < len(alts)-1)
				if !r.lastTrialFailed {
					break
				}
			}
		})
	}
}

// gradients compares the three results of a backward pass with those of the
// given derivative with respect to z. In a trial nothing is reported.
func (r *Run) gradients(rule string, delta func(i, j *Term) *Term, I, O, N *Term, trial bool) {
	c := r.c
	X, W := r.mat("a1"), r.mat("a0.Weights")
	saved := c.finds
	n := len(c.finds)
	seen := map[string]bool{}
	for k := range c.seen {
		seen[k] = true
	}
	s := num(fresh("?s", true))
	ok := r.cellIs(rule, r.f, r.ret(0), I, O, "weight gradient", func(a, b *Term) *Term {
		return SumR(s, Zero, N, Mul(X.cell(nil, s, a), delta(s, b)))
	})
	ok = r.cellIs(rule, r.f, r.ret(1), One, O, "bias gradient", func(a, b *Term) *Term {
		return SumR(s, Zero, N, delta(s, b))
	}) && ok
	ok = r.cellIs(rule, r.f, r.ret(2), N, I, "input gradient", func(a, b *Term) *Term {
		return SumR(s, Zero, O, Mul(delta(a, s), W.cell(nil, b, s)))
	}) && ok
	r.lastTrialFailed = !ok
	if !ok && trial {
		c.finds = saved[:n]
		c.seen = seen
	}
}

// cacheFamily tells whether storage belongs to an unexported field of the
// receiver.
func cacheFamily(w *World, kind, name string) bool {
	return len(name) > 3 && name[:3] == "a0." && name[3] >= 'a' && name[3] <= 'z'
}

func (r *Run) layerUnchanged(rule, kind string) {
	c := r.c
	self := r.args[0]
	fam := sref(Slice(self.a[0], Zero, Zero)).fam()
	r.unchanged(rule, r.f.With(r.pc), func(f *Family) bool { return f == fam || cacheFamily(c.w, kind, f.name) })
	// the exported fields of the receiver
	now, old := r.st.mem[fam], r.st0.content(fam)
	if now == nil {
		now = old
	}
	st := structOf(c.w, kind)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Exported() {
			continue
		}
		a, b := field(now, i), field(old, i)
		c.expect(rule+".settings", c.where(r.fn)+" on "+f.Name(), a == b || EqualF(r.f.With(r.pc), a, b), "the field %s may be changed to %v", f.Name(), a)
	}
}

func checkL03(c *Check) {
	for _, k := range layerKinds() {
		ms := append(append([]string{}, k.forward...), "Backward")
		if k.name == "SoftmaxLayer" {
			ms = append(ms, "BackwardCrossEntropy")
		}
		for _, m := range ms {
			k, m := k, m
			c.scoped(k.name+"."+m, func() {
				r := c.run(k.name+"."+m, runOpts{over: layerOver(false)})
				r.layerUnchanged("L03", k.name)
			})
		}
	}
}

func checkL05(c *Check) {
	c.scoped("SoftmaxLayer", func() {
		r := c.run("SoftmaxLayer.Forward", runOpts{over: layerOver(true)})
		r.mustReturn("L05", r.f)
		r.noPanic("L05", nil)
		n := 0
		for _, e := range r.ev.events {
			where := c.where(e.fn) + " at " + r.ev.pos(e.instr)
			switch e.kind {
			case "exp":
				n++
				c.expect("L05.exp", where, e.facts.Entails(Le(e.args[0], Zero)) || e.facts.Contradictory(), "exponential of %v, which may be positive and overflow", e.facts.Simp(e.args[0]))
			case "fdiv":
				n++
				c.expect("L05.div", where, atLeastOne(e.facts, e.args[1]) || e.facts.Contradictory(), "division by %v, which is not shown to be at least one", e.facts.Simp(e.args[1]))
			}
		}
		if n < 2 {
			c.report("L05.operations", c.where(r.fn), "the exponentials and the division of softmax were not found", true)
		}
		c.rules["L05.operations"] += n
		c.instances = append(c.instances, "L05.finite-arithmetic @ "+c.where(r.fn))
		// each row is a distribution
		O := r.mat("a0.Weights").cols
		i, j := num(sym("?i", true)), num(sym("?j", true))
		f := r.f.With(Le(Zero, i), Lt(i, r.mat("a1").rows))
		var total *Term
		cell := cellAt(c.w, r.st, f.With(Le(Zero, j), Lt(j, O)), r.ret(0), i, j)
		under(f, func() { total = SumR(j, Zero, O, cell) })
		c.expect("L05.total", c.where(r.fn), EqualF(f, total, One), "a row adds up to %v", total)
		g := f.With(Le(Zero, j), Lt(j, O))
		c.expect("L05.nonnegative", c.where(r.fn), g.Entails(Le(Zero, cell)), "a cell is %v, which may be negative", cell)
	})
}

// atLeastOne shows d >= 1; a maximum is attained somewhere in its range, and a
// sum of non-negative terms is at least the term at that place.
func atLeastOne(f *Facts, d *Term) bool {
	d = f.Simp(d)
	if f.Entails(Le(One, d)) {
		return true
	}
	ok := true
	for _, cs := range cases(d) {
		g := f.With(cs.c)
		if g.Contradictory() || g.Entails(Le(One, cs.v)) {
			continue
		}
		ok = ok && attained(g, cs.v)
	}
	return ok
}

func attained(f *Facts, d *Term) bool {
	var maxes []*Term
	seen := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == OMaxF && len(t.a) == 3 {
			maxes = append(maxes, t)
			return
		}
		for _, a := range t.a {
			rec(a)
		}
		for _, m := range t.p {
			for _, x := range m.f {
				rec(x.t)
			}
		}
	}
	rec(d)
	for _, m := range maxes {
		if !f.Entails(Lt(m.a[0], m.a[1])) {
			continue
		}
		k := num(fresh("?top", true))
		v, body := openBody(m, m.a[2])
		d2 := replaceAtom(d, m, Subst1(body, v, k))
		g := f.With(Le(m.a[0], k), Lt(k, m.a[1]))
		if d2.op != OPoly || len(d2.p) != 1 {
			continue
		}
		for _, x := range d2.p[0].f {
			if x.t.op != OSum || x.e != 1 || x.t.n != 1 {
				continue
			}
			vs, his, b := openSum(x.t)
			in := g.With(Le(Zero, vs[0]), Lt(vs[0], his[0]))
			if !in.Entails(Le(Zero, b)) || !g.Entails(Lt(k, his[0])) || !g.Entails(Le(Zero, k)) {
				continue
			}
			low := replaceAtom(d2, x.t, Subst1(b, vs[0], k))
			// the factor of the sum must not be negative
			rest := Div(d2, num(x.t))
			if g.Entails(Le(Zero, rest)) && (EqualF(g, low, One) || g.Entails(Le(One, low))) {
				return true
			}
		}
	}
	return false
}

func checkL06(c *Check) {
	c.scoped("SoftmaxLayer.BackwardCrossEntropy", func() {
		over := layerOver(true)
		O := over["a0.OutputSize"]
		over["a2.cell"] = ind(EqN(phIdx, App(oneHotClass("cls", O), ph(0))))
		r := c.run("SoftmaxLayer.BackwardCrossEntropy", runOpts{over: over})
		X, W, Y, Q := r.mat("a1"), r.mat("a0.Weights"), r.mat("a2"), r.mat("a3")
		N := X.rows
		r.mustReturn("L06", r.f)
		r.accepted("L06", r.f, "matching shapes")
		// d(mean cross entropy)/dz = (softmax - target)/N
		r.gradients("L06", func(i, j *Term) *Term {
			return Div(Sub(Q.cell(nil, i, j), Y.cell(nil, i, j)), N)
		}, X.cols, W.cols, N, false)
	})
}

func checkL07(c *Check) {
	for _, k := range layerKinds() {
		for _, fwd := range k.forward {
			k, fwd := k, fwd
			c.scoped(k.name+"."+fwd, func() {
				r := c.run(k.name+"."+fwd, runOpts{over: layerOver(false)})
				I := r.mat("a0.Weights").rows
				X := r.mat("a1")
				r.mustReturn("L07", r.f)
				r.noPanic("L07", nil)
				r.accepted("L07", r.f.With(EqN(X.cols, I)), "a matching input")
				r.refused("L07", r.f.With(Not(EqN(X.cols, I))), "the input width differs")
				r.wellFormedIf("L07", r.f.With(EqN(X.cols, I)))
			})
			c.scoped(k.name+".Backward after "+fwd, func() {
				r1 := c.run(k.name+"."+fwd, runOpts{over: layerOver(false)})
				// the backward pass gets an input of any shape
				r := r1.after(k.name+".Backward", []*Term{r1.args[0], r1.b.val(c.w.pkg.Type("Matrix").Type(), "b1", nil)})
				I, O := r.mat("a0.Weights").rows, r.mat("a0.Weights").cols
				X, D, X0 := r.mat("b1"), r.mat("a2"), r.mat("a1")
				valid := And(EqN(X.cols, I), EqN(D.cols, O), EqN(X.rows, D.rows))
				r.mustReturn("L07", r.f)
				r.noPanic("L07", nil)
				r.accepted("L07", r.f.With(valid, EqN(X0.rows, X.rows)), "matching shapes")
				r.refused("L07", r.f.With(Not(valid)), "the shapes do not match")
			})
		}
		c.scoped(k.name+".Backward of a new layer", func() {
			r0 := c.run(k.ctor, runOpts{prefix: "c"})
			obj := r0.ret(0)
			f := newFamily("layer", famCell, 0, c.w.pkg.Type(k.name).Type())
			st := r0.st.clone()
			st.mem[f] = obj
			X := r0.b.val(c.w.pkg.Type("Matrix").Type(), "a1", nil)
			D := r0.b.val(c.w.pkg.Type("Matrix").Type(), "a2", nil)
			r0.st = st
			r := r0.after(k.name+".Backward", []*Term{Ptr(nil, Ref(f)), X, D})
			r.mustReturn("L07", r.f)
			r.noPanic("L07", nil)
		})
		if k.name == "SoftmaxLayer" {
			c.scoped("SoftmaxLayer.BackwardCrossEntropy", func() {
				r := c.run("SoftmaxLayer.BackwardCrossEntropy", runOpts{over: layerOver(false)})
				I, O := r.mat("a0.Weights").rows, r.mat("a0.Weights").cols
				X, Y, Q := r.mat("a1"), r.mat("a2"), r.mat("a3")
				valid := And(EqN(X.cols, I), EqN(Y.cols, O), EqN(Q.cols, O), EqN(X.rows, Y.rows), EqN(Y.rows, Q.rows))
				r.mustReturn("L07", r.f)
				r.noPanic("L07", nil)
				r.accepted("L07", r.f.With(valid), "matching shapes")
				r.refused("L07", r.f.With(Not(valid)), "the shapes do not match")
			})
		}
	}
}

// wellFormedIf: the first result is a matrix of consistent dimensions where
// no error is returned.
func (r *Run) wellFormedIf(rule string, f *Facts) {
	r.wellFormed(rule, f.With(r.noErr()), r.ret(0), "result", false)
}

type ctorCase struct {
	fn, kind string
	valid    func(a []*Term) *Term
	set      []string // field per argument
	layer    bool
}

func ctorCases() []ctorCase {
	var cs []ctorCase
	dims := func(a []*Term) *Term { return And(Le(One, a[0]), Le(One, a[1])) }
	io := []string{"InputSize", "OutputSize"}
	cs = append(cs,
		ctorCase{"NewLayer", "HiddenLayer", dims, io, true},
		ctorCase{"NewLinearLayer", "LinearLayer", dims, io, true},
		ctorCase{"NewSigmoidLayer", "SigmoidLayer", dims, io, true},
		ctorCase{"NewSoftmaxLayer", "SoftmaxLayer", dims, io, true},
		ctorCase{"NewLeakyLayer", "LeakyLayer", func(a []*Term) *Term { return And(dims(a), Le(Zero, a[2])) }, append(io[:2:2], "Slope"), true},
		ctorCase{"NewDropoutLayer", "DropoutLayer", func(a []*Term) *Term { return And(dims(a), Le(Zero, a[2]), Le(a[2], One)) }, append(io[:2:2], "Dropout"), true},
	)
	for _, n := range lossNames() {
		cs = append(cs, ctorCase{"New" + n, n, func(a []*Term) *Term { return Le(One, a[0]) }, []string{"Size"}, false})
	}
	opt := func(a []*Term) *Term { return And(Lt(Zero, a[0]), Le(Zero, a[1])) }
	cs = append(cs,
		ctorCase{"NewSGDOptimizer", "SGDOptimizer", func(a []*Term) *Term { return And(opt(a), Le(Zero, a[2])) }, []string{"LearningRate", "Decay", "Momentum"}, false},
		ctorCase{"NewAdamOptimizer", "AdamOptimizer", opt, []string{"LearningRate", "Decay", "Epsilon", "Beta1", "Beta2"}, false},
	)
	return cs
}

func checkL09(c *Check) {
	for _, k := range ctorCases() {
		k := k
		c.scoped(k.fn, func() {
			r := c.run(k.fn, runOpts{})
			valid := k.valid(r.args)
			r.mustReturn("L09", r.f)
			r.noPanic("L09", nil)
			r.refused("L09", r.f.With(Not(valid)), "a setting is invalid")
			f := r.f.With(valid)
			r.accepted("L09", f, "valid settings")
			obj := f.Simp(r.ret(0))
			self := &Run{c: c, fn: r.fn, st: r.st, args: []*Term{obj}}
			for i, n := range k.set {
				got := f.Simp(self.objField(k.kind, n, r.st))
				c.expect("L09.settings", c.where(r.fn)+" "+n, EqualF(f, got, r.args[i]), "the object holds %v", got)
			}
			if !k.layer {
				return
			}
			I, O := r.args[0], r.args[1]
			for _, n := range []string{"Weights", "Biases"} {
				sh := [2]*Term{I, O}
				if n == "Biases" {
					sh[0] = One
				}
				m := self.objField(k.kind, n, r.st)
				r.cellIs("L09", f, m, sh[0], sh[1], n, func(i, j *Term) *Term { return Zero })
				r.wellFormed("L09", f, m, n, true)
			}
		})
	}
}

func structOf(w *World, name string) *types.Struct {
	t := w.pkg.Type(name)
	if t == nil {
		panic(undecided{"the type " + name + " does not exist any more"})
	}
	return t.Type().Underlying().(*types.Struct)
}

// checkL10: the activation functions and their gradients as functions of
// their own, for matrices of any shape.
func checkL10(c *Check) {
	N, C := dim("N"), dim("C")
	two := map[string]*Term{"a0.Rows": N, "a0.Cols": C, "a1.Rows": N, "a1.Cols": C}
	slope := func(at string) map[string]*Term {
		o := map[string]*Term{}
		for k, v := range two {
			o[k] = v
		}
		s := sym("slope", false)
		setLo(s, Zero)
		o[at] = num(s)
		return o
	}
	sl := num(sym("slope", false))
	sig := func(x *Term) *Term { return Inv(Add(One, Exp(Neg(x)))) }
	for _, s := range []struct {
		name string
		over map[string]*Term
		kink bool
		spec func(r *Run, alt bool, i, j *Term) *Term
	}{
		{"RELU", nil, false, func(r *Run, alt bool, i, j *Term) *Term { return relu(r.mat("a0").cell(nil, i, j)) }},
		{"Sigmoid", nil, false, func(r *Run, alt bool, i, j *Term) *Term { return sig(r.mat("a0").cell(nil, i, j)) }},
		{"LeakyRELU", slope("a1"), false, func(r *Run, alt bool, i, j *Term) *Term {
			x := r.mat("a0").cell(nil, i, j)
			return Ite(Lt(x, Zero), Mul(sl, x), x)
		}},
		{"Softmax", nil, false, func(r *Run, alt bool, i, j *Term) *Term {
			A := r.mat("a0")
			k := num(fresh("?k", true))
			return Div(Exp(A.cell(nil, i, j)), SumR(k, Zero, A.cols, Exp(A.cell(nil, i, k))))
		}},
		{"RELUPrime", two, true, func(r *Run, alt bool, i, j *Term) *Term {
			g, x := r.mat("a0").cell(nil, i, j), r.mat("a1").cell(nil, i, j)
			if alt {
				return Ite(Lt(x, Zero), Zero, g)
			}
			return Ite(Lt(Zero, x), g, Zero)
		}},
		{"SigmoidPrime", two, false, func(r *Run, alt bool, i, j *Term) *Term {
			y := sig(r.mat("a0").cell(nil, i, j))
			return Mul(r.mat("a1").cell(nil, i, j), Mul(y, Sub(One, y)))
		}},
		{"LeakyRELUPrime", slope("a2"), true, func(r *Run, alt bool, i, j *Term) *Term {
			g, x := r.mat("a0").cell(nil, i, j), r.mat("a1").cell(nil, i, j)
			if alt {
				return Ite(Lt(x, Zero), Mul(sl, g), g)
			}
			return Ite(Lt(Zero, x), g, Mul(sl, g))
		}},
	} {
		s := s
		c.scoped(s.name, func() {
			r := c.run(s.name, runOpts{over: s.over})
			A := r.mat("a0")
			r.mustReturn("L10", r.f)
			r.wellFormed("L10", r.f, r.ret(0), "result", true)
			r.unchanged("L10", r.f.With(r.pc), nil)
			// at the kink either of the two slopes is a derivative
			if s.kink {
				ok := r.trial(func() bool {
					return r.cellIs("L10", r.f, r.ret(0), A.rows, A.cols, "result", func(i, j *Term) *Term { return s.spec(r, true, i, j) })
				})
				if ok {
					return
				}
			}
			r.cellIs("L10", r.f, r.ret(0), A.rows, A.cols, "result", func(i, j *Term) *Term { return s.spec(r, false, i, j) })
		})
	}
}

// trial runs a comparison and drops what it reports when it fails.
func (r *Run) trial(f func() bool) bool {
	c := r.c
	n := len(c.finds)
	seen := map[string]bool{}
	for k := range c.seen {
		seen[k] = true
	}
	if f() {
		return true
	}
	c.finds, c.seen = c.finds[:n], seen
	return false
}
