package main

// T01-T09: the model. Layers, losses and optimizers are objects of every kind,
// distinguished by case; their passes are replaced by their contracts (L01-L07,
// S01-S04, O01-O03): each call is recorded and returns its own unknown result.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// chain is the value that is vs[k] when the kind is k.
func chain(kind *Term, vs []*Term) *Term {
	out := vs[len(vs)-1]
	for k := len(vs) - 2; k >= 0; k-- {
		out = Ite(EqN(kind, numInt(int64(k))), vs[k], out)
	}
	return out
}

func ranged(name string, n int) *Term {
	s := sym(name, true)
	setLo(s, Zero)
	setHi(s, numInt(int64(n-1)))
	return s
}

var (
	inSym    = sym("inputs", true)
	outSym   = sym("outputs", true)
	rowsSym  = sym("rows", true)
	lyrKind  = ranged("layerkind", 6)
	optKind  = ranged("optkind", 2)
	lossKind = ranged("losskind", 4)
	failFwd  = sym("fails:forward", false)
	failBwd  = sym("fails:backward", false)
	failLoss = sym("fails:loss", false)
)

func init() {
	setLo(inSym, One)
	setLo(outSym, One)
	setLo(rowsSym, One)
}

func kindOf(k *Term) *Term { return App(lyrKind, k) }

// model describes the unknown model a0.
type model struct {
	c       *Check
	b       *Builder
	L       *Term
	fams    map[string]*Family
	loss    *Term
	self    *Term
	st      *State
	opt     map[string]*Family
	failing string
	loaded  map[string]*Family
	files   bool // the encoding and decoding of a model is replaced too
}

// layerAt is the layer object number k.
func (m *model) layerAt(k *Term) *Term {
	var vs []*Term
	for _, lk := range layerKinds() {
		vs = append(vs, m.iface(lk.name, Ptr(nil, Ref(m.fams[lk.name], k))))
	}
	return chain(kindOf(k), vs)
}

func (m *model) iface(kind string, p *Term) *Term {
	return mk(Term{op: OIface, x: canonType(types.NewPointer(m.c.w.pkg.Type(kind).Type())), a: []*Term{p}})
}

// newModelWorld describes layers of all kinds.
func (c *Check) newModelWorld() *model {
	m := &model{c: c, b: newBuilder(c.w), fams: map[string]*Family{}, opt: map[string]*Family{}}
	b := m.b
	k := ph(0)
	for _, lk := range layerKinds() {
		p := "layer." + lk.name
		b.over[p+".InputSize"] = App(inSym, k)
		b.over[p+".OutputSize"] = App(outSym, k)
		b.over[p+".Weights.Rows"] = App(inSym, k)
		b.over[p+".Weights.Cols"] = App(outSym, k)
		b.over[p+".Biases.Rows"] = One
		b.over[p+".Biases.Cols"] = App(outSym, k)
		t := c.w.pkg.Type(lk.name).Type()
		f := b.paramFam(p, famCell, 1, t)
		f.init = b.val(t, p, []*Term{k})
		m.fams[lk.name] = f
	}
	return m
}

// model makes the unknown model: L layers and, if finalized, as many optimizers
// and a loss.
func (c *Check) model(final bool, min int64) *model {
	m := c.newModelWorld()
	b := m.b
	ls := sym("L", true)
	if min > 0 {
		ls = sym("L1", true)
	}
	setLo(ls, numInt(min))
	m.L = num(ls)
	t := c.w.pkg.Type("Model").Type()
	over := func(n string, v *Term) { b.over["a0."+n] = v }
	over("ModelSize", m.L)
	b.over["len(a0.Layers)"] = m.L
	b.over["a0.Layers[]"] = m.layerAt(phIdx)
	if final {
		b.over["len(a0.Optimizers)"] = m.L
		var vs []*Term
		for _, o := range []string{"SGDOptimizer", "AdamOptimizer"} {
			f := b.paramFam("optimizer."+o, famCell, 1, c.w.pkg.Type(o).Type())
			f.init = b.val(c.w.pkg.Type(o).Type(), "optimizer."+o, []*Term{ph(0)})
			m.opt[o] = f
			vs = append(vs, m.iface(o, Ptr(nil, Ref(f, phIdx))))
		}
		b.over["a0.Optimizers[]"] = chain(num(optKind), vs)
		var ls []*Term
		for _, l := range lossNames() {
			f := b.paramFam("loss."+l, famCell, 0, c.w.pkg.Type(l).Type())
			f.init = b.val(c.w.pkg.Type(l).Type(), "loss."+l, nil)
			ls = append(ls, m.iface(l, Ptr(nil, Ref(f))))
		}
		m.loss = chain(num(lossKind), ls)
		over("Loss", m.loss)
		over("LossType", num(lossKind))
	}
	f := b.paramFam("model", famCell, 0, t)
	f.init = b.val(t, "a0", nil)
	m.self = Ptr(nil, Ref(f))
	return m
}

func (m *model) field(st *State, name string) *Term {
	return objField(m.c.w, "Model", name, st, m.self)
}

// recvOf tells which method of which object is called.
func recvOf(fn *ssa.Function) (kind, name string) {
	r := fn.Signature.Recv()
	if r == nil {
		return "", fn.Name()
	}
	t := r.Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name(), fn.Name()
	}
	return "", fn.Name()
}

// outMat is the unknown matrix a pass returns.
func (m *model) outMat(name string, al []*Term, rows, cols *Term) *Term {
	if mi := m.b.info[name]; mi == nil {
		m.b.over[name+".Rows"], m.b.over[name+".Cols"] = rows, cols
		m.b.val(m.c.w.pkg.Type("Matrix").Type(), name, phsN(len(al)))
	}
	return subst(m.b.info[name].val, al)
}

func subst(t *Term, al []*Term) *Term {
	s := newSub()
	for k := range al {
		s.set(ph(k), al[k])
	}
	if len(al) == 1 {
		s.set(phIdx, al[0])
	}
	return s.Do(t)
}

func errVal(name string, cond *Term, args ...*Term) *Term {
	return Ite(cond, handle("error:"+name, args...), Nil)
}

// layerHook replaces the passes of layers, losses and optimizers.
func (m *model) layerHook(ev *Eval, fr *frame, ins ssa.CallInstruction, fn *ssa.Function, name string, args []*Term) (*Term, bool) {
	if fn == nil {
		return nil, false
	}
	kind, name := recvOf(fn)
	if kind == "" || len(args) == 0 {
		return nil, false
	}
	self := fr.facts().Simp(args[0])
	if self.op != OPtr || self.a[0].op != ORef {
		return nil, false
	}
	fam := self.a[0].fam()
	if !fam.param {
		return nil, false
	}
	zero := zeroVal(m.c.w.pkg.Type("Matrix").Type())
	N := num(samples)
	ow := App(outSym, ph(0))
	iw := App(inSym, ph(0))
	switch {
	case strings.HasPrefix(fam.name, "layer."):
		k := self.a[0].a[0]
		out := func(n string, rows, cols, bad *Term) *Term {
			return Ite(bad, zero, m.outMat(n, []*Term{k}, rows, cols))
		}
		switch name {
		case "Init":
			ev.event("layer", name, fr, ins, nil, nil, k)
			return Tuple(), true
		case "Forward", "ForwardNoDropout":
			ev.event("layer", name, fr, ins, nil, nil, append([]*Term{k}, args[1:]...)...)
			bad := BApp(failFwd, k)
			return Tuple(out("out", N, ow, bad), errVal("forward", bad, k)), true
		case "Backward", "BackwardCrossEntropy":
			ev.event("layer", name, fr, ins, nil, nil, append([]*Term{k}, args[1:]...)...)
			bad := BApp(failBwd, k)
			return Tuple(out("dW", iw, ow, bad), out("dB", One, ow, bad), out("dX", N, iw, bad), errVal("backward", bad, k)), true
		}
	case strings.HasPrefix(fam.name, "loss."):
		switch name {
		case "Forward":
			ev.event("loss", name, fr, ins, nil, nil, args[1:]...)
			bad := BApp(failLoss)
			return Tuple(Ite(bad, Zero, num(lossVal)), errVal("loss", bad)), true
		case "Backward":
			ev.event("loss", name, fr, ins, nil, nil, args[1:]...)
			bad := BApp(failLoss)
			return Tuple(Ite(bad, zero, m.outMat("dOut", nil, N, App(outSym, Sub(m.L, One)))), errVal("loss", bad)), true
		}
	}
	return nil, false
}

var (
	samples = sym("samples", true)
	lossVal = sym("lossvalue", false)
)

func init() { setLo(samples, One) }

// ---------- traces ----------

// call is a recorded call with the condition under which it happens, over the
// iteration numbers of its loops.
type call struct {
	e    *Event
	vars []*Term
	exec []*Term
	sub  *Subst // of renamed calls
}

func (r *Run) calls(match func(e *Event) bool) []*call {
	var out []*call
	for _, e := range r.ev.events {
		if !match(e) {
			continue
		}
		cl := &call{e: e}
		cl.exec = append(cl.exec, allConds(e.facts)...)
		for _, l := range e.loops {
			cl.vars = append(cl.vars, l.t)
			cl.exec = append(cl.exec, Le(Zero, l.t))
			if l.hi != nil && (l.early == nil || l.early == False) {
				cl.exec = append(cl.exec, Lt(l.t, l.hi))
			}
			if l.early != nil && l.early != False {
				v := num(fresh("?e", true))
				cl.exec = append(cl.exec, Not(Exists(v, l.t, Subst1(l.early, l.t, v))))
			}
		}
		if r.f.With(cl.exec...).Contradictory() {
			continue
		}
		out = append(out, cl)
	}
	return out
}

// at is the condition under which the call happens for the position want.
func (cl *call) at(pos, want []*Term) *Term {
	c := True
	s := newSub()
	var rest []int
	used := map[*Term]bool{}
	for i, p := range pos {
		done := false
		for _, v := range cl.vars {
			if used[v] || !p.hasVar(varAtom(v)) {
				continue
			}
			if k, rem, ok := coefOf(p, v); ok && (k == One || k == Neg(One)) {
				x := Sub(want[i], rem)
				if k != One {
					x = Neg(x)
				}
				for _, w := range cl.vars {
					if x.hasVar(varAtom(w)) {
						ok = false
					}
				}
				if ok {
					s.set(v, x)
					used[v] = true
					done = true
					break
				}
			}
		}
		if !done {
			rest = append(rest, i)
		}
	}
	for _, i := range rest {
		c = And(c, EqN(pos[i], want[i]))
	}
	for _, x := range cl.exec {
		c = And(c, x)
	}
	c = s.Do(c)
	for _, v := range cl.vars {
		if c.hasVar(varAtom(v)) {
			return False // not determined by the position
		}
	}
	return c
}

// exactly shows that the calls happen once for every position in range for
// which alive holds, and for no other.
func (r *Run) exactly(rule, what string, cs []*call, pos func(cl *call) []*Term, vars []*Term, inRange, alive *Term) {
	c := r.c
	where := c.where(r.fn) + " " + what
	// every position
	f := r.f.With(inRange, alive)
	if r.needed != nil {
		f = f.With(r.needed)
	}
	any := False
	for _, cl := range cs {
		any = Or(any, f.Simp(cl.at(pos(cl), vars)))
	}
	c.expect(rule+".every", where, f.ProvesByCases(any), "is not called for every position: called if %v", f.Simp(any))
	to := func(t *Term, p []*Term) *Term {
		s := newSub()
		for i := range vars {
			s.set(vars[i], p[i])
		}
		return s.Do(t)
	}
	for n, cl := range cs {
		p := pos(cl)
		g := r.f.With(cl.exec...)
		at := c.where(cl.e.fn) + " at " + r.ev.pos(cl.e.instr) + " " + what
		c.expect(rule+".only", at, g.ProvesByCases(to(inRange, p)), "is called outside its range: at %v", p)
		c.expect(rule+".stops", at, g.ProvesByCases(to(alive, p)), "is called although an earlier step failed: %v", g.Simp(to(alive, p)))
		// at most once
		for k := n; k < len(cs); k++ {
			if k == n {
				// the position determines the iteration
				ok := len(cl.vars) == 0 || cl.at(p, vars) != False
				c.expect(rule+".once", at, ok, "may be called several times for the same position %v", p)
				continue
			}
			o := cs[k].renamed()
			var q []*Term
			for _, x := range pos(cs[k]) {
				q = append(q, o.sub.Do(x))
			}
			h := r.f.With(cl.exec...).With(o.at(q, p))
			c.expect(rule+".once", at, h.Refuted(), "may be called twice for the same position (also %s): %v AND %v", r.ev.pos(o.e.instr), cl.exec, o.at(q, p))
		}
	}
}

// renamed is the call with other iteration numbers.
func (cl *call) renamed() *call {
	o := &call{e: cl.e, sub: newSub()}
	for _, v := range cl.vars {
		w := num(fresh("?t", true))
		o.sub.set(v, w)
		o.vars = append(o.vars, w)
	}
	for _, x := range cl.exec {
		o.exec = append(o.exec, o.sub.Do(x))
	}
	return o
}

// sameMat: a matrix has the given shape and cells, read in a state.
func (r *Run) sameMat(rule, where string, f *Facts, st *State, v *Term, want *MatInfo, al []*Term) {
	c := r.c
	R, C, _ := matParts(c.w, v)
	rows, cols := subst(want.rows, al), subst(want.cols, al)
	if !c.expect(rule, where, EqualF(f, R, rows) && EqualF(f, C, cols), "has shape %v x %v instead of %v x %v", f.Simp(R), f.Simp(C), rows, cols) {
		return
	}
	i, j := num(sym("?i", true)), num(sym("?j", true))
	g := f.With(Le(Zero, i), Lt(i, rows), Le(Zero, j), Lt(j, cols))
	got, exp := cellAt(c.w, st, g, v, i, j), g.Simp(want.cell(al, i, j))
	c.expect(rule, where, EqualF(g, got, exp), "has cells %v instead of %v", got, exp)
}

func noFail(sym_ *Term, n *Term) *Term {
	v := num(fresh("?e", true))
	return Not(Exists(v, n, BApp(sym_, v)))
}

// forwardChain checks the passes of a forward run on X.
func (m *model) forwardChain(r *Run, rule string, X *MatInfo, training *Term) {
	c := r.c
	layers := r.calls(func(e *Event) bool { return e.kind == "layer" })
	K := num(sym("?k", true))
	r.exactly(rule, "layer pass", layers, func(cl *call) []*Term { return cl.e.args[:1] }, []*Term{K}, And(Le(Zero, K), Lt(K, m.L)), noFail(failFwd, K))
	for _, cl := range layers {
		k := cl.e.args[0]
		where := c.where(cl.e.fn) + " at " + r.ev.pos(cl.e.instr) + " " + cl.e.name
		f := r.f.With(cl.exec...)
		if g := f.With(EqN(k, Zero)); !g.Contradictory() {
			r.sameMat(rule+".input", where+" of the first layer", g, cl.e.st, cl.e.args[1], X, nil)
		}
		if g := f.With(Le(One, k)); !g.Contradictory() {
			r.sameMat(rule+".input", where+" of a later layer", g, cl.e.st, cl.e.args[1], m.b.info["out"], []*Term{Sub(k, One)})
		}
		drop := EqN(kindOf(k), numInt(5))
		var ok bool
		if cl.e.name == "Forward" {
			ok = f.With(drop).Entails(training)
		} else {
			ok = f.With(drop).Entails(Not(training))
		}
		c.expect(rule+".dropout", where, ok || f.With(drop).Contradictory(), "dropout layers are run with the wrong pass")
	}
}

func (m *model) forwardOver(key string) {
	m.b.over[key+".Rows"] = num(samples)
}

func checkT03(c *Check) {
	c.scoped("Model.Forward", func() {
		m := c.model(true, 1)
		m.forwardOver("a1")
		r := c.run("Model.Forward", runOpts{b: m.b, args: []*Term{m.self}, hook: m.layerHook})
		r.mustReturn("T03", r.f)
		r.noPanic("T03", nil)
		X := r.mat("a1")
		m.forwardChain(r, "T03", X, boolOf(r.args[2]))
		good := noFail(failFwd, m.L)
		r.accepted("T03", r.f.With(good), "all passes succeed")
		r.refused("T03", r.f.With(Not(good)), "a layer fails")
		f := r.f.With(good)
		out := f.Simp(r.ret(0))
		if c.expect("T03.outputs", c.where(r.fn), EqualF(f, slen(out), Add(m.L, One)), "returns %v matrices", slen(out)) {
			at := func(k *Term, g *Facts) *Term { return r.elemAt(out, k, g, c.w.pkg.Type("Matrix").Type()) }
			r.sameMat("T03.outputs", c.where(r.fn)+" first output", f, r.st, at(Zero, f), X, nil)
			K := num(sym("?k", true))
			g := f.With(Le(One, K), Le(K, m.L))
			r.sameMat("T03.outputs", c.where(r.fn)+" later output", g, r.st, at(K, g), m.b.info["out"], []*Term{Sub(K, One)})
		}
		r.unchanged("T03", r.f, nil)
	})
}

func init() {
	register("T03", "layer calls recorded over all paths and iterations: each layer exactly once, on the previous output, with the right dropout pass; closed form of the returned list and of the error condition", 40, checkT03)
	register("T04", "layer and loss calls recorded over all paths and iterations: each layer exactly once from last to first on its own input and the next input gradient; closed form of the returned list and of the error condition", 40, checkT04)
}

// matAt is element k of a slice of matrices.
func (r *Run) elemAt(v, k *Term, f *Facts, t types.Type) *Term {
	return f.Simp(lift([]*Term{v}, func(a []*Term) *Term {
		if sref(a[0]) == Nil {
			return zeroVal(t)
		}
		return r.ev.loadElem(r.st, sref(a[0]), Add(soff(a[0]), k), t)
	}))
}

func checkT04(c *Check) {
	c.scoped("Model.Backward", func() {
		m := c.model(true, 1)
		N := num(samples)
		m.b.over["len(a1)"] = Add(m.L, One)
		m.b.over["a1[].Rows"] = N
		m.b.over["a1[].Cols"] = Ite(EqN(phIdx, Zero), App(inSym, Zero), App(outSym, Sub(phIdx, One)))
		m.b.over["a2.Rows"], m.b.over["a2.Cols"] = N, App(outSym, Sub(m.L, One))
		r := c.run("Model.Backward", runOpts{b: m.b, args: []*Term{m.self}, hook: m.layerHook})
		r.mustReturn("T04", r.f)
		r.noPanic("T04", nil)
		outs, Y := m.b.info["a1[]"], r.mat("a2")
		K := num(sym("?k", true))
		last := Sub(m.L, One)
		fused := And(EqN(kindOf(last), numInt(4)), EqN(num(lossKind), numInt(2)))
		lossOK := Or(fused, Not(BApp(failLoss)))
		// layers after k succeeded
		after := func(n *Term) *Term {
			v := num(fresh("?e", true))
			return Not(Exists(v, n, BApp(failBwd, Sub(last, v))))
		}
		isLayer := func(e *Event) bool { return e.kind == "layer" }
		layers := r.calls(isLayer)
		r.exactly("T04", "layer pass", layers, func(cl *call) []*Term { return cl.e.args[:1] }, []*Term{K}, And(Le(Zero, K), Lt(K, m.L)), And(lossOK, after(Sub(last, K))))
		for _, cl := range layers {
			e := cl.e
			k := e.args[0]
			where := c.where(e.fn) + " at " + r.ev.pos(e.instr) + " " + e.name
			f := r.f.With(cl.exec...)
			isFused := e.name == "BackwardCrossEntropy"
			cond := And(fused, EqN(k, last))
			if isFused {
				c.expect("T04.fused", where, f.Entails(cond), "the fused pass is used although the last layer is no softmax layer or the loss no cross-entropy loss")
				r.sameMat("T04.fused-target", where, f, e.st, e.args[2], Y, nil)
				r.sameMat("T04.fused-output", where, f, e.st, e.args[3], outs, []*Term{m.L})
			} else {
				c.expect("T04.fused", where, f.Entails(Not(cond)), "the fused pass is not used for a softmax layer with cross-entropy loss")
				if g := f.With(EqN(k, last)); !g.Contradictory() {
					r.sameMat("T04.loss-gradient", where, g, e.st, e.args[2], m.b.info["dOut"], nil)
				}
				if g := f.With(Lt(k, last)); !g.Contradictory() {
					r.sameMat("T04.gradient", where, g, e.st, e.args[2], m.b.info["dX"], []*Term{Add(k, One)})
				}
			}
			r.sameMat("T04.input", where, f, e.st, e.args[1], outs, []*Term{k})
		}
		losses := r.calls(func(e *Event) bool { return e.kind == "loss" })
		r.exactly("T04", "loss gradient", losses, func(cl *call) []*Term { return nil }, nil, Not(fused), True)
		for _, cl := range losses {
			where := c.where(cl.e.fn) + " at " + r.ev.pos(cl.e.instr)
			f := r.f.With(cl.exec...)
			c.expect("T04.loss", where, cl.e.name == "Backward", "the loss value is computed instead of its gradient")
			r.sameMat("T04.loss", where, f, cl.e.st, cl.e.args[0], outs, []*Term{m.L})
			r.sameMat("T04.loss", where, f, cl.e.st, cl.e.args[1], Y, nil)
		}
		good := And(lossOK, after(m.L))
		r.accepted("T04", r.f.With(good), "all passes succeed")
		r.refused("T04", r.f.With(Not(good)), "a step fails")
		f := r.f.With(good)
		out := f.Simp(r.ret(0))
		if c.expect("T04.result", c.where(r.fn), EqualF(f, slen(out), m.L), "returns %v gradients", slen(out)) {
			g := f.With(Le(Zero, K), Lt(K, m.L))
			v := r.elemAt(out, K, g, c.w.pkg.Type("Gradients").Type())
			s := structOf(c.w, "Gradients")
			for i := 0; i < s.NumFields(); i++ {
				want := map[string]string{"DWeights": "dW", "DBiases": "dB"}[s.Field(i).Name()]
				if want != "" {
					r.sameMat("T04.result", c.where(r.fn)+" "+s.Field(i).Name(), g, r.st, field(v, i), m.b.info[want], []*Term{Sub(last, K)})
				}
			}
		}
		r.unchanged("T04", r.f, nil)
	})
}

func init() {
	register("T01", "closed form of the model after adding a layer of any kind: appended last exactly when it fits, unchanged otherwise", 12, checkT01)
	register("T02", "closed form of the model after finalising: settings, and one new optimizer object per layer; no store on the refusing paths", 20, checkT02)
	register("T07", "no dropout pass, random draw or store to existing storage on any path of evaluation and prediction", 20, checkT07)
	register("T08", "closed form of loss, accuracy and prediction over the final output, and layer calls as in a forward pass", 20, checkT08)
}

func checkT01(c *Check) {
	c.scoped("Model.AddLayer", func() {
		m := c.model(false, 0)
		lay := m.layerAt(m.L) // a layer that is not in the model
		r := c.run("Model.AddLayer", runOpts{b: m.b, args: []*Term{m.self, lay}})
		r.mustReturn("T01", r.f)
		r.noPanic("T01", nil)
		in, out := App(inSym, m.L), App(outSym, m.L)
		was := func(n string) *Term { return m.field(r.st0, n) }
		now := func(f *Facts, n string) *Term { return f.Simp(m.field(r.st, n)) }
		fits := Or(EqN(m.L, Zero), EqN(was("OutputSize"), in))
		good, bad := r.f.With(fits), r.f.With(Not(fits))
		r.accepted("T01", good, "a layer that fits")
		r.refused("T01", bad, "the layer does not fit")
		where := c.where(r.fn)
		r.unchangedIn("T01", bad)
		s := structOf(c.w, "Model")
		for i := 0; i < s.NumFields(); i++ {
			n := s.Field(i).Name()
			got := now(good, n)
			var want *Term
			switch n {
			case "Layers":
				continue
			case "ModelSize":
				want = Add(m.L, One)
			case "OutputSize":
				want = out
			case "InputSize":
				want = Ite(EqN(m.L, Zero), in, was(n))
			default:
				want = was(n)
			}
			c.expect("T01.fields", where+" "+n, got == want || EqualF(good, got, want), "becomes %v, should be %v", got, want)
		}
		ls := now(good, "Layers")
		c.expect("T01.length", where, EqualF(good, slen(ls), Add(m.L, One)), "the model has %v layers afterwards", slen(ls))
		K := num(sym("?k", true))
		for _, k := range []*Term{m.L, K} {
			g, what := good, "new layer"
			if k == K {
				what = "earlier layer"
				g = good.With(Le(Zero, K), Lt(K, m.L))
			}
			got := r.elemAt(ls, k, g, c.w.pkg.Type("Layer").Type())
			want := g.Simp(m.layerAt(k))
			c.expect("T01.layers", where+" "+what, got == want || EqualF(g, got, want), "layer k becomes %v", got)
		}
		// the layers themselves are left alone
		r.unchanged("T01", r.f, func(f *Family) bool { return f.name == "model" || f.name == "a0.Layers" })
	})
	c.scoped("NewModel", func() {
		r := c.run("NewModel", runOpts{})
		r.mustReturn("T01", r.f)
		r.noPanic("T01", nil)
		v := r.f.Simp(r.ret(0))
		s := structOf(c.w, "Model")
		for i := 0; i < s.NumFields(); i++ {
			x := field(v, i)
			switch s.Field(i).Name() {
			case "ModelSize":
				c.expect("T01.empty", c.where(r.fn), x == Zero, "a new model has size %v", x)
			case "Layers", "Optimizers":
				c.expect("T01.empty", c.where(r.fn), slen(x) == Zero, "a new model has %v entries in %s", slen(x), s.Field(i).Name())
			}
		}
	})
}

func checkT02(c *Check) {
	c.scoped("Model.Finalize", func() {
		m := c.model(false, 0)
		// the loss and the optimizer given
		var vs []*Term
		size := sym("losssize", true)
		setLo(size, One)
		for _, l := range lossNames() {
			m.b.over["loss."+l+".Size"] = num(size)
			f := m.b.paramFam("loss."+l, famCell, 0, c.w.pkg.Type(l).Type())
			f.init = m.b.val(c.w.pkg.Type(l).Type(), "loss."+l, nil)
			vs = append(vs, m.iface(l, Ptr(nil, Ref(f))))
		}
		loss := chain(num(lossKind), vs)
		vs = nil
		optTypes := []string{"SGDOptimizer", "AdamOptimizer"}
		hyp := map[string]bool{"LearningRate": true, "Decay": true, "Momentum": true, "Epsilon": true, "Beta1": true, "Beta2": true}
		for _, o := range optTypes {
			f := m.b.paramFam("given."+o, famCell, 0, c.w.pkg.Type(o).Type())
			f.init = m.b.val(c.w.pkg.Type(o).Type(), "given."+o, nil)
			m.opt[o] = f
			vs = append(vs, m.iface(o, Ptr(nil, Ref(f))))
		}
		opt := chain(num(optKind), vs)
		r := c.run("Model.Finalize", runOpts{b: m.b, args: []*Term{m.self, loss, opt}})
		r.mustReturn("T02", r.f)
		r.noPanic("T02", nil)
		where := c.where(r.fn)
		was := func(n string) *Term { return m.field(r.st0, n) }
		at, prec := r.args[3], r.args[4]
		types_ := []string{"RegressionAccuracyType", "CategoricalAccuracyType", "BinaryCategoricalAccuracyType"}
		known := False
		for _, t := range types_ {
			known = Or(known, EqN(at, c.w.constant(t)))
		}
		valid := And(EqN(was("OutputSize"), num(size)), Le(Zero, prec), known)
		good, bad := r.f.With(valid).With(c.accuracyBounds(at)...), r.f.With(Not(valid))
		r.accepted("T02", good, "matching loss and valid accuracy settings")
		r.refused("T02", bad, "the request is invalid")
		r.unchangedIn("T02", bad)
		s := structOf(c.w, "Model")
		lossCodes := map[string]string{"MeanSquaredLoss": "MeanSquaredLossType", "MeanAbsoluteLoss": "MeanAbsoluteLossType", "CrossEntropyLoss": "CrossEntropyLossType", "BinaryCrossEntropyLoss": "BinaryCrossEntropyLossType"}
		var codes []*Term
		for _, l := range lossNames() {
			codes = append(codes, c.w.constant(lossCodes[l]))
		}
		optCodes := []*Term{c.w.constant("SGDOptimizerType"), c.w.constant("AdamOptimizerType")}
		for i := 0; i < s.NumFields(); i++ {
			n := s.Field(i).Name()
			got := good.Simp(m.field(r.st, n))
			want := was(n)
			switch n {
			case "OptimizerValues", "Optimizers":
				continue
			case "Loss":
				want = loss
			case "LossType":
				want = chain(num(lossKind), codes)
			case "AccuracyType":
				want = at
			case "AccuracyPercision":
				want = prec
			case "OptimizerType":
				want = chain(num(optKind), optCodes)
			}
			c.expect("T02.fields", where+" "+n, got == want || EqualF(good, got, want), "becomes %v, should be %v", got, want)
		}
		// one new optimizer object per layer
		os := good.Simp(m.field(r.st, "Optimizers"))
		c.expect("T02.optimizers", where+" count", EqualF(good, slen(os), m.L), "there are %v optimizers for %v layers", slen(os), m.L)
		K, K2 := num(sym("?k", true)), num(sym("?k2", true))
		for n, o := range optTypes {
			g := good.With(EqN(num(optKind), numInt(int64(n))), Le(Zero, K), Lt(K, m.L))
			x := r.elemAt(os, K, g, c.w.pkg.Type("Optimizer").Type())
			if !c.expect("T02.optimizers", where+" "+o, x.op == OIface && isPtrTo(x.x, c.w, o), "layer k gets the optimizer %v", x) {
				continue
			}
			p := x.a[0]
			if !c.expect("T02.own", where+" "+o, p.op == OPtr && len(p.ints) == 0 && p.a[0].op == ORef && !p.a[0].fam().param, "layer k gets an existing optimizer %v", p) {
				continue
			}
			y := newSub().set(K, K2).Do(x.a[0])
			same := g.With(Le(Zero, K2), Lt(K2, m.L), Not(EqN(K, K2)), boolOf(EqV(p.a[0], y.a[0])))
			c.expect("T02.own", where+" "+o+" distinct", same.Refuted(), "two layers may share the optimizer object %v", p)
			obj := g.Simp(deref(r.st, p))
			st := structOf(c.w, o)
			given := m.opt[o].init
			for i := 0; i < st.NumFields(); i++ {
				fl := st.Field(i)
				v := g.Simp(field(obj, i))
				switch {
				case hyp[fl.Name()]:
					c.expect("T02.hyperparameters", where+" "+o+"."+fl.Name(), EqualF(g, v, field(given, i)), "is %v", v)
				case isNamed(fl.Type(), c.w.pkg.Pkg, "Matrix"):
					R, _, _ := matParts(c.w, v)
					c.expect("T02.fresh", where+" "+o+"."+fl.Name(), R == Zero, "a new optimizer already has a history")
				}
			}
		}
		// the recorded hyperparameters
		vals := good.Simp(m.field(r.st, "OptimizerValues"))
		for n, o := range optTypes {
			st := structOf(c.w, o)
			g := good.With(EqN(num(optKind), numInt(int64(n))))
			mp := g.Simp(vals)
			if !c.expect("T02.values", where+" "+o, mp.op == ORef, "the recorded hyperparameters are %v", mp) {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				key, ok := valueKeys[st.Field(i).Name()]
				if !ok || !hyp[st.Field(i).Name()] {
					continue
				}
				e := g.Simp(r.st.at(mp.fam(), mp.a, Str(key)))
				c.expect("T02.values", where+" "+o+" "+key, field(e, 0) == True && EqualF(g, field(e, 1), field(m.opt[o].init, i)), "the recorded value is %v", e)
			}
		}
		r.unchanged("T02", r.f, func(f *Family) bool { return f.name == "model" })
	})
}

var valueKeys = map[string]string{"LearningRate": "learningRate", "Decay": "decay", "Momentum": "momentum", "Epsilon": "epsilon", "Beta1": "beta1", "Beta2": "beta2"}

// evaluation runs one of the model's evaluating functions over the layers'
// contracts.
func (c *Check) evaluation(rule, name string) (*model, *Run) {
	m := c.model(true, 1)
	m.forwardOver("a1")
	if name != "Model.Predict" {
		m.b.over["a2.Rows"], m.b.over["a2.Cols"] = num(samples), App(outSym, Sub(m.L, One))
	}
	r := c.run(name, runOpts{b: m.b, args: []*Term{m.self}, hook: m.layerHook})
	r.mustReturn(rule, r.f)
	r.noPanic(rule, nil)
	return m, r
}

// accuracyBounds follow from an accuracy type being one of the known ones.
func (c *Check) accuracyBounds(at *Term) []*Term {
	var lo, hi *Term
	for _, t := range accuracyTypes {
		k := c.w.constant(t)
		n, ok := k.constInt()
		if !ok {
			return nil
		}
		if l, _ := knownInt2(lo); lo == nil || n < l {
			lo = k
		}
		if h, _ := knownInt2(hi); hi == nil || n > h {
			hi = k
		}
	}
	return []*Term{Le(lo, at), Le(at, hi)}
}

func knownInt2(t *Term) (int64, bool) {
	if t == nil {
		return 0, false
	}
	return t.constInt()
}

var accuracyTypes = []string{"RegressionAccuracyType", "CategoricalAccuracyType", "BinaryCategoricalAccuracyType"}

var evaluations = []string{"Model.CalculateLoss", "Model.CalculateAccuracy", "Model.Predict"}

func checkT07(c *Check) {
	for _, n := range evaluations {
		n := n
		c.scoped(n, func() {
			m, r := c.evaluation("T07", n)
			cs := r.calls(func(e *Event) bool { return e.kind == "layer" })
			c.expect("T07.layers", c.where(r.fn), len(cs) > 0, "no layer is run")
			for _, cl := range cs {
				k := cl.e.args[0]
				f := r.f.With(cl.exec...).With(EqN(kindOf(k), numInt(5)))
				where := c.where(cl.e.fn) + " at " + r.ev.pos(cl.e.instr) + " from " + c.where(r.fn)
				c.expect("T07.no-dropout", where, cl.e.name == "ForwardNoDropout" || f.Refuted(), "dropout layers run their %s pass", cl.e.name)
			}
			r.noRandom("T07")
			r.unchanged("T07", r.f, nil)
			_ = m
		})
	}
	// the passes that are used
	for _, lk := range layerKinds() {
		lk := lk
		pass := lk.forward[len(lk.forward)-1]
		c.scoped(lk.name+"."+pass, func() {
			r := c.run(lk.name+"."+pass, runOpts{over: layerOver(false)})
			r.noRandom("T07")
			r.layerUnchanged("T07", lk.name)
		})
	}
	for _, l := range lossNames() {
		l := l
		c.scoped(l, func() {
			r := c.run(l+".Forward", runOpts{over: lossOver(false, false)})
			r.noRandom("T07")
			r.unchanged("T07", r.f, nil)
		})
	}
}

// noRandom: nothing random is drawn.
func (r *Run) noRandom(rule string) {
	c := r.c
	c.rules[rule+".no-random"]++
	c.instances = append(c.instances, rule+".no-random @ "+c.where(r.fn))
	for _, e := range r.ev.events {
		switch e.kind {
		case "draw", "seed", "reseed", "entropy":
			if !e.facts.Contradictory() {
				c.report(rule+".no-random", c.where(e.fn)+" at "+r.ev.pos(e.instr)+" from "+c.where(r.fn), "a random choice ("+e.kind+") is made", false)
			}
		}
	}
}

func checkT08(c *Check) {
	for _, n := range evaluations {
		n := n
		c.scoped(n, func() {
			m, r := c.evaluation("T08", n)
			X := r.mat("a1")
			at := m.field(r.st0, "AccuracyType")
			if n != "Model.CalculateLoss" {
				// an unknown accuracy type may be refused before anything is run
				r.needed = False
				for _, t := range accuracyTypes {
					r.needed = Or(r.needed, EqN(at, c.w.constant(t)))
				}
			}
			m.forwardChain(r, "T08", X, False)
			chained := noFail(failFwd, m.L)
			r.refused("T08", r.f.With(Not(chained)), "a layer fails")
			ok := r.f.With(chained)
			where := c.where(r.fn)
			last := Sub(m.L, One)
			out := m.b.info["out"]
			if n == "Model.CalculateLoss" {
				cs := r.calls(func(e *Event) bool { return e.kind == "loss" })
				r.exactly("T08", "loss", cs, func(cl *call) []*Term { return nil }, nil, chained, True)
				for _, cl := range cs {
					f := r.f.With(cl.exec...)
					at := c.where(cl.e.fn) + " at " + r.ev.pos(cl.e.instr)
					c.expect("T08.loss", at, cl.e.name == "Forward", "the loss gradient is computed instead of its value")
					r.sameMat("T08.loss", at+" output", f, cl.e.st, cl.e.args[0], out, []*Term{last})
					r.sameMat("T08.loss", at+" targets", f, cl.e.st, cl.e.args[1], r.mat("a2"), nil)
				}
				fails := BApp(failLoss)
				r.refused("T08", ok.With(fails), "the loss fails")
				g := ok.With(Not(fails))
				r.accepted("T08", g, "all passes succeed")
				got := g.Simp(r.ret(0))
				c.expect("T08.value", where, EqualF(g, got, num(lossVal)), "returns %v", got)
				return
			}
			known := False
			i, j := num(sym("?i", true)), num(sym("?j", true))
			H := func(i, j *Term) *Term { return out.cell([]*Term{last}, i, j) }
			N, O := num(samples), App(outSym, last)
			for k, t := range accuracyTypes {
				is := EqN(at, c.w.constant(t))
				known = Or(known, is)
				g := ok.With(is)
				r.accepted("T08", g, "a model of "+t)
				w := where + " " + t
				if n == "Model.Predict" {
					best := argFold(OArgMax, "", Zero, O, j, H(i, j))
					v := g.Simp(r.ret(0))
					switch k {
					case 0:
						r.sameMat("T08.prediction", w, g, r.st, v, out, []*Term{last})
					case 1:
						r.cellIs("T08", g, v, N, One, "best classes", func(a, _ *Term) *Term { return Subst1(best, i, a) })
					case 2:
						r.cellIs("T08", g, v, N, O, "thresholded outputs", func(a, b *Term) *Term { return ind(Le(numFrac(1, 2), H(a, b))) })
					}
					continue
				}
				Y := r.mat("a2")
				var want *Term
				under(g, func() {
					switch k {
					case 0:
						p := m.field(r.st0, "AccuracyPercision")
						want = Div(SumR(i, Zero, N, SumR(j, Zero, O, ind(Lt(Abs(Sub(H(i, j), Y.cell(nil, i, j))), p)))), Mul(N, O))
					case 1:
						best := argFold(OArgMax, "", Zero, O, j, H(i, j))
						want = Div(SumR(i, Zero, N, ind(EqN(Y.cell(nil, i, best), One))), N)
					case 2:
						want = Div(SumR(i, Zero, N, SumR(j, Zero, O, ind(EqN(ind(Le(numFrac(1, 2), H(i, j))), Y.cell(nil, i, j))))), Mul(N, O))
					}
					want = g.Simp(want)
				})
				got := g.Simp(r.ret(0))
				c.expect("T08.accuracy", w, EqualF(g, got, want), "returns %v, should be %v", got, want)
			}
			r.refused("T08", ok.With(Not(known)), "the accuracy type is unknown")
		})
	}
}

func init() {
	register("T10", "recorded layer initialisations: closed form of the positions they run for, over all layers; no other store", 4, checkT10)
}

func checkT10(c *Check) {
	for _, final := range []bool{false, true} {
		final := final
		c.scoped("Model.InitLayers", func() {
			m := c.model(final, 0)
			r := c.run("Model.InitLayers", runOpts{b: m.b, args: []*Term{m.self}, hook: m.layerHook})
			r.mustReturn("T10", r.f)
			var cs []*call
			for _, cl := range r.calls(ofKind("layer")) {
				if c.expect("T10.init-only", c.where(cl.e.fn)+" at "+r.ev.pos(cl.e.instr), cl.e.name == "Init", "layers are run while they are initialised") {
					cs = append(cs, cl)
				}
			}
			K := num(sym("?k", true))
			pos := func(cl *call) []*Term { return []*Term{cl.e.args[0]} }
			r.exactly("T10", "initialisation", cs, pos, []*Term{K}, And(Le(Zero, K), Lt(K, m.L)), True)
			r.unchanged("T10", r.f, nil)
		})
	}
}
