package main

// T05, T06, T09: training. The passes of the model and the updates of the
// optimizers are replaced by their contracts (T03, T04, O01-O03, T07, T08); every
// call is recorded with its arguments, its loops and its condition. A run in
// which no step fails gives the schedule; what happens when a step fails is
// shown by one further run for every call site, in which exactly one call made
// there, in unknown iterations, fails. As nothing before the first failing call
// depends on later ones, this covers every history.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("T05", "closed form of the rows handed to every training pass over all epochs and batches: first batch starts at row zero, each next one where the last ended, the last one ends at the last row; backward passes get the target rows of the same range", 10, checkT05)
	register("T06", "calls of a training run recorded over all epochs and batches: one forward and one backward pass per batch and one update per layer, matched by the objects they are given; one run per call site with one failing call shows that nothing follows and an error is returned", 20, checkT06)
	register("T11", "recorded evaluations and log lines of a training run: closed form of the condition under which the line of an epoch is written, its operands matched by value with the epoch and the evaluations it reports", 20, checkT11)
	register("T09", "closed form of the error condition for impossible requests; no pass or update is reachable", 4, checkT09)
}

// failAt are the iterations of the call that fails.
func failAt(i int) *Term {
	s := sym(fmt.Sprintf("F%d", i), true)
	setLo(s, Zero)
	return num(s)
}

// fitHook replaces the passes of the model and of the optimizers.
func (m *model) fitHook(ev *Eval, fr *frame, ins ssa.CallInstruction, fn *ssa.Function, name string, args []*Term) (*Term, bool) {
	if fn == nil {
		return nil, false
	}
	kind, name := recvOf(fn)
	if len(args) == 0 {
		return nil, false
	}
	self := fr.facts().Simp(args[0])
	if self.op != OPtr || self.a[0].op != ORef || !self.a[0].fam().param {
		return nil, false
	}
	fam := self.a[0].fam()
	var al []*Term
	for _, l := range ev.open {
		al = append(al, l.t)
	}
	id := fr.ctx + "/" + ev.w.instrID(ins)
	unknown := func(what string, t types.Type, n *Term) *Term {
		key := what + id
		if m.b.over["len("+key+")"] == nil {
			m.b.over["len("+key+")"] = n
			m.b.over["val:"+key] = m.b.val(t, key, phsN(len(al)))
		}
		return subst(m.b.over["val:"+key], al)
	}
	bad := False
	if m.failing == id {
		bad = True
		for i, x := range al {
			bad = And(bad, EqN(x, failAt(i)))
		}
	}
	switch {
	case kind == "Model" && self == m.self:
		switch name {
		case "Forward":
			out := unknown("outs", types.NewSlice(m.c.w.pkg.Type("Matrix").Type()), Add(m.L, One))
			ev.event("forward", id, fr, ins, nil, out, args[1:]...)
			return Tuple(Ite(bad, Slice(Nil, Zero, Zero), out), errVal("forward"+id, bad, al...)), true
		case "Backward":
			out := unknown("grads", types.NewSlice(m.c.w.pkg.Type("Gradients").Type()), m.L)
			ev.event("backward", id, fr, ins, nil, out, args[1:]...)
			return Tuple(Ite(bad, Slice(Nil, Zero, Zero), out), errVal("backward"+id, bad, al...)), true
		case "CalculateLoss", "CalculateAccuracy":
			v := num(App(sym("value"+id, false), al...))
			ev.event("evaluate", id, fr, ins, nil, v, args[1], args[2], Str(name))
			return Tuple(Ite(bad, Zero, v), errVal(name+id, bad, al...)), true
		}
	case strings.HasPrefix(fam.name, "optimizer.") && name == "Update":
		ev.event("update", id, fr, ins, nil, nil, append([]*Term{self.a[0].a[0]}, args[1:]...)...)
		return errVal("update", bad, al...), true
	}
	return nil, false
}

// fit runs Fit on well-formed data. A call at the site failing fails once.
func (c *Check) fit(batched bool, failing string) (*model, *Run) {
	m := c.model(true, 1)
	m.failing = failing
	N := num(samples)
	m.b.over["a1.Rows"], m.b.over["a2.Rows"] = N, N
	B := Zero
	if batched {
		B = batchSize()
	}
	if m.b.over["a6.Rows"] == nil && c.validation != nil {
		m.b.over["a5.Rows"], m.b.over["a6.Rows"] = c.validation, c.validation
	}
	r := c.run("Model.Fit", runOpts{b: m.b, args: []*Term{m.self, nil, nil, nil, B, nil, nil, nil}, hook: m.fitHook})
	return m, r
}

func batchSize() *Term {
	bs := sym("batchsize", true)
	setLo(bs, One)
	return num(bs)
}

func ofKind(k string) func(e *Event) bool { return func(e *Event) bool { return e.kind == k } }

// epochOf and batchOf are the iteration numbers of a call.
func (cl *call) epochOf() *Term { return cl.loop(0) }
func (cl *call) batchOf() *Term { return cl.loop(1) }
func (cl *call) loop(i int) *Term {
	if i >= len(cl.vars) {
		return Zero
	}
	return cl.vars[i]
}

// in is the condition under which the call happens in the given iterations.
func (cl *call) in(its ...*Term) *Term {
	s := newSub()
	c := True
	for i, x := range its {
		if i < len(cl.vars) {
			s.set(cl.vars[i], x)
		} else {
			c = And(c, EqN(x, Zero))
		}
	}
	for _, x := range cl.exec {
		c = And(c, s.Do(x))
	}
	return c
}

func (cl *call) subst(its ...*Term) *Subst {
	s := newSub()
	for i, x := range its {
		if i < len(cl.vars) {
			s.set(cl.vars[i], x)
		}
	}
	return s
}

// rowsOf tells which rows of M the matrix v holds: the first and how many.
func (r *Run) rowsOf(f *Facts, st *State, v *Term, M *MatInfo) (first, n *Term, why string) {
	w := r.c.w
	R, C, _ := matParts(w, v)
	n = f.Simp(R)
	if !EqualF(f, C, M.cols) {
		return nil, n, fmt.Sprintf("has %v columns", f.Simp(C))
	}
	i, j := num(sym("?i", true)), num(sym("?j", true))
	g := f.With(Le(Zero, i), Lt(i, n), Le(Zero, j), Lt(j, M.cols))
	got := cellAt(w, st, g, v, i, j)
	if got.op == OPoly && len(got.p) == 1 && len(got.p[0].f) == 1 {
		if a := got.p[0].f[0].t; a.op == OApp {
			for _, x := range a.a[1:] {
				if c, s, ok := coefOf(x, i); ok && c == One && !s.hasVar(varAtom(j)) && EqualF(g, got, M.cell(nil, x, j)) {
					return s, n, ""
				}
			}
		}
	}
	return nil, n, fmt.Sprintf("has cells %v", got)
}

// batch is the range of rows a forward pass is given.
type batch struct {
	cl       *call
	first, n *Term
}

func (c *Check) eachBatching(rule string, do func(what string, batched bool)) {
	for _, b := range []bool{false, true} {
		what := "Model.Fit without batches"
		if b {
			what = "Model.Fit in batches"
		}
		b := b
		c.scoped(what, func() { do(what, b) })
	}
}

func checkT05(c *Check) {
	c.eachBatching("T05", func(what string, batched bool) {
		m, r := c.fit(batched, "")
		r.mustReturn("T05", r.f)
		r.noPanic("T05", nil)
		_ = m
		X, Y := r.mat("a1"), r.mat("a2")
		N, epochs := num(samples), r.args[3]
		E := num(sym("?e", true))
		var bs []*batch
		for _, cl := range r.calls(ofKind("forward")) {
			at := what + ": " + c.where(cl.e.fn) + " at " + r.ev.pos(cl.e.instr)
			if !c.expect("T05.loops", at, len(cl.vars) == 1 || len(cl.vars) == 2, "runs inside %d loops", len(cl.vars)) {
				return
			}
			f := r.f.With(cl.exec...)
			s, n, why := r.rowsOf(f, cl.e.st, cl.e.args[0], X)
			if !c.expect("T05.rows", at, s != nil, "the batch is no range of input rows: it %s", why) {
				return
			}
			c.expect("T05.epochs", at, f.ProvesByCases(Lt(cl.epochOf(), epochs)), "runs more often than once per epoch")
			c.expect("T05.size", at, f.ProvesByCases(Le(One, n)), "the batch may be empty: %v rows", n)
			if batched {
				c.expect("T05.size", at, f.ProvesByCases(Le(n, batchSize())), "the batch may be too large: %v rows", n)
			}
			bs = append(bs, &batch{cl, s, n})
		}
		where := what + ": " + c.where(r.fn)
		if !c.expect("T05.trains", where, len(bs) > 0, "no forward pass is run") {
			return
		}
		any := False
		for _, b := range bs {
			any = Or(any, r.f.Simp(b.cl.in(E, Zero)))
		}
		c.expect("T05.every-epoch", where, r.f.With(Le(Zero, E), Lt(E, epochs)).ProvesByCases(any), "an epoch may run without any batch: batches run if %v", any)
		for k, b := range bs {
			cl := b.cl
			at := what + ": " + c.where(cl.e.fn) + " at " + r.ev.pos(cl.e.instr)
			e, t := cl.epochOf(), cl.batchOf()
			f := r.f.With(cl.exec...)
			// the first batch of the epoch
			g := f
			if t != Zero {
				g = f.With(EqN(t, Zero))
			}
			for _, o := range bs[:k] {
				g = g.With(Not(o.cl.in(e, Zero)))
			}
			c.expect("T05.first", at, g.ProvesByCases(EqN(b.first, Zero)), "the first batch starts at row %v", g.Simp(b.first))
			end := Add(b.first, b.n)
			if len(cl.vars) == 2 {
				// earlier iterations run as well
				g := f.With(Le(One, t))
				c.expect("T05.consecutive", at, g.ProvesByCases(cl.in(e, Sub(t, One))), "iterations may be left out")
				// the next batch of the loop
				g = f.With(cl.in(e, Add(t, One)))
				next := cl.subst(e, Add(t, One)).Do(b.first)
				c.expect("T05.next", at, g.ProvesByCases(EqN(next, end)), "the next batch starts at row %v instead of %v", g.Simp(next), g.Simp(end))
				f = f.With(Not(cl.in(e, Add(t, One))))
			}
			for _, o := range bs[k+1:] {
				g := f.With(o.cl.in(e, Zero))
				next := o.cl.subst(e, Zero).Do(o.first)
				c.expect("T05.next", at, g.ProvesByCases(EqN(next, end)), "the next batch (%s) starts at row %v instead of %v", r.ev.pos(o.cl.e.instr), g.Simp(next), g.Simp(end))
				f = f.With(Not(o.cl.in(e, Zero)))
			}
			c.expect("T05.last", at, f.ProvesByCases(EqN(end, N)), "the last batch ends before row %v", f.Simp(end))
		}
		// the targets
		for _, cl := range r.calls(ofKind("backward")) {
			at := what + ": " + c.where(cl.e.fn) + " at " + r.ev.pos(cl.e.instr)
			f := r.f.With(cl.exec...)
			done := false
			for _, b := range bs {
				if !sameLoops(b.cl, cl) {
					continue
				}
				g := f.With(b.cl.exec...)
				if g.ProvesByCases(False) {
					continue
				}
				done = true
				s, n, why := r.rowsOf(g, cl.e.st, cl.e.args[1], Y)
				if c.expect("T05.targets", at, s != nil, "the targets are no range of target rows: they are a matrix that %s", why) {
					c.expect("T05.targets", at, g.ProvesByCases(EqN(s, b.first)) && g.ProvesByCases(EqN(n, b.n)), "input rows %v (%v rows) are trained with target rows %v (%v rows)", b.first, b.n, s, n)
				}
			}
			c.expect("T05.paired", at, done, "no forward pass is run in the same iteration")
		}
	})
}

// sameLoops: the calls are made in the iterations of the same loops.
func sameLoops(a, b *call) bool {
	if len(a.vars) != len(b.vars) {
		return false
	}
	for i := range a.vars {
		if a.vars[i] != b.vars[i] {
			return false
		}
	}
	return true
}

func checkT06(c *Check) {
	c.eachBatching("T06", func(what string, batched bool) {
		m, r := c.fit(batched, "")
		r.mustReturn("T06", r.f)
		r.noPanic("T06", nil)
		r.accepted("T06", r.f, "no step fails")
		r.unchanged("T06", r.f, nil)
		fws, bws, ups := r.calls(ofKind("forward")), r.calls(ofKind("backward")), r.calls(ofKind("update"))
		where := what + ": " + c.where(r.fn)
		if !c.expect("T06.trains", where, len(fws) > 0 && len(bws) > 0 && len(ups) > 0, "there are %d forward, %d backward and %d update calls", len(fws), len(bws), len(ups)) {
			return
		}
		at := func(cl *call) string { return what + ": " + c.where(cl.e.fn) + " at " + r.ev.pos(cl.e.instr) }
		for n, fw := range fws {
			f := r.f.With(fw.exec...)
			c.expect("T06.training", at(fw), f.Entails(boolOf(fw.e.args[1])), "the forward pass is run without dropout")
			for _, o := range fws[n+1:] {
				if sameLoops(fw, o) {
					c.expect("T06.once", at(fw), f.With(o.exec...).ProvesByCases(False), "a second forward pass is run for the same batch")
				}
			}
			// its backward pass
			any := False
			for _, bw := range bws {
				if sameLoops(fw, bw) && bw.e.seq > fw.e.seq {
					any = Or(any, bw.in())
				}
			}
			c.expect("T06.backward-every", at(fw), f.ProvesByCases(any), "no backward pass follows the forward pass")
		}
		for n, bw := range bws {
			f := r.f.With(bw.exec...)
			for _, o := range bws[n+1:] {
				if sameLoops(bw, o) {
					c.expect("T06.once", at(bw), f.With(o.exec...).ProvesByCases(False), "a second backward pass is run for the same batch")
				}
			}
			outs := f.Simp(bw.e.args[0])
			ok := false
			for _, fw := range fws {
				if sameLoops(fw, bw) && fw.e.seq < bw.e.seq && outs == fw.e.res && !f.With(fw.exec...).ProvesByCases(False) {
					ok = true
				}
			}
			c.expect("T06.outputs", at(bw), ok, "the backward pass is given %v instead of the outputs of the batch's forward pass", outs)
			// every layer is updated
			inside := func(cl *call) bool {
				if cl.e.seq < bw.e.seq || len(cl.vars) < len(bw.vars) {
					return false
				}
				for i := range bw.vars {
					if bw.vars[i] != cl.vars[i] {
						return false
					}
				}
				return true
			}
			K := num(sym("?k", true))
			pos := func(cl *call) []*Term { return append(append([]*Term(nil), bw.vars...), cl.e.args[0]) }
			var its []*Term
			for i := range bw.vars {
				its = append(its, num(sym(fmt.Sprintf("?at%d", i), true)))
			}
			want := append(append([]*Term(nil), its...), K)
			var mine []*call
			for _, u := range ups {
				if inside(u) {
					mine = append(mine, u)
				}
			}
			r.exactly("T06", "update after "+at(bw), mine, pos, want, And(Le(Zero, K), Lt(K, m.L), bw.in(its...)), True)
			for _, u := range mine {
				m.updateArgs(r, at(u), u, bw)
			}
		}
		for _, u := range ups {
			ok := false
			for _, bw := range bws {
				f := r.f.With(u.exec...)
				if len(u.vars) > len(bw.vars) || sameLoops(u, bw) {
					same := true
					for i := range bw.vars {
						same = same && u.vars[i] == bw.vars[i]
					}
					if same && f.ProvesByCases(bw.in()) {
						ok = true
					}
				}
			}
			c.expect("T06.update-only", at(u), ok, "an update is made outside the iterations of a backward pass")
		}
	})
	c.scoped("Model.Fit failing", func() {
		// the call sites
		_, r := c.fit(true, "")
		var sites []string
		seen := map[string]bool{}
		for _, k := range []string{"forward", "backward", "update", "evaluate"} {
			for _, cl := range r.calls(ofKind(k)) {
				if !seen[cl.e.name] {
					seen[cl.e.name] = true
					sites = append(sites, cl.e.name)
				}
			}
		}
		for _, s := range sites {
			s := s
			c.scoped("Model.Fit failing at "+s, func() { c.failingFit(s) })
		}
	})
}

// updateArgs: the update is given the layer's own parameters, its own gradients
// and the layer's optimizer.
func (m *model) updateArgs(r *Run, where string, u, bw *call) {
	c := m.c
	f := r.f.With(u.exec...)
	k := u.e.args[0]
	for i, p := range []string{"Weights", "Biases"} {
		var vs []*Term
		for _, lk := range layerKinds() {
			fld := objFieldPtr(c.w, lk.name, p, u.e.st, Ptr(nil, Ref(m.fams[lk.name], k)))
			vs = append(vs, fld)
		}
		want := f.Simp(chain(kindOf(k), vs))
		got := f.Simp(u.e.args[1+i])
		c.expect("T06.parameters", where+" "+p, got == want, "layer k's optimizer is given %v instead of %v", got, want)
	}
	st := structOf(c.w, "Gradients")
	for i, n := range []string{"DWeights", "DBiases"} {
		g := r.elemAt(bw.e.res, Sub(Sub(m.L, One), k), f, c.w.pkg.Type("Gradients").Type())
		var want *Term
		for x := 0; x < st.NumFields(); x++ {
			if st.Field(x).Name() == n {
				want = f.Simp(field(g, x))
			}
		}
		got := f.Simp(u.e.args[3+i])
		c.expect("T06.gradients", where+" "+n, got == want || EqualF(f, got, want), "layer k's optimizer is given %v instead of %v", got, want)
	}
}

// failingFit: one call at the site fails, in iterations F.
func (c *Check) failingFit(site string) {
	_, r := c.fit(true, site)
	var at []*call
	for _, cl := range r.calls(func(e *Event) bool { return e.name == site }) {
		at = append(at, cl)
	}
	r.mustReturn("T06", r.f)
	if len(at) == 0 {
		c.expect("T06.stops", c.where(r.fn), false, "the failing call at %s is not found", site)
		return
	}
	var its []*Term
	for i := range at[0].vars {
		its = append(its, failAt(i))
	}
	happens := False
	for _, cl := range at {
		happens = Or(happens, cl.in(its...))
	}
	f := r.f.With(happens)
	where := c.where(at[0].e.fn) + " at " + r.ev.pos(at[0].e.instr)
	c.expect("T06.error", where, f.ProvesByCases(Not(r.noErr())), "no error is returned when this call fails: error if %v", f.Simp(Not(r.noErr())))
	for _, k := range []string{"forward", "backward", "update", "evaluate"} {
		for _, cl := range r.calls(ofKind(k)) {
			n := 0
			for n < len(cl.vars) && n < len(its) && cl.vars[n] == at[0].vars[n] {
				n++
			}
			strict := cl.e.seq > at[0].e.seq && cl.e.name != site
			// not later than the failing call
			before := False
			eq := True
			for i := 0; i < n; i++ {
				before = Or(before, And(eq, Lt(cl.vars[i], its[i])))
				eq = And(eq, EqN(cl.vars[i], its[i]))
			}
			if !strict {
				before = Or(before, eq)
			}
			g := f.With(cl.exec...)
			c.expect("T06.stops", where+" then "+k+" at "+r.ev.pos(cl.e.instr), g.ProvesByCases(before), "training continues after a failure")
		}
	}
}

func checkT09(c *Check) {
	for _, x := range []string{"different numbers of samples", "negative batch size"} {
		x := x
		c.scoped("Model.Fit with "+x, func() {
			m := c.model(true, 1)
			B := num(sym("anybatch", true))
			r := c.run("Model.Fit", runOpts{b: m.b, args: []*Term{m.self, nil, nil, nil, B, nil, nil, nil}, hook: m.fitHook, facts: func(r *Run) []*Term {
				if x == "negative batch size" {
					return []*Term{Lt(B, Zero)}
				}
				return []*Term{Not(EqN(r.mat("a1").rows, r.mat("a2").rows))}
			}})
			r.mustReturn("T09", r.f)
			r.noPanic("T09", r.f)
			r.refused("T09", r.f, x)
			r.unchanged("T09", r.f, nil)
			for _, k := range []string{"forward", "backward", "update"} {
				for _, cl := range r.calls(ofKind(k)) {
					c.expect("T09.first", c.where(r.fn)+" "+k+" at "+r.ev.pos(cl.e.instr), r.f.With(cl.exec...).ProvesByCases(False), "training starts although the request is refused")
				}
			}
		})
	}
}

// checkT11: what a training run reports.
func checkT11(c *Check) {
	for _, val := range []bool{false, true} {
		val := val
		c.eachBatching("T11", func(what string, batched bool) {
			c.validation = Zero
			if val {
				v := sym("valsamples", true)
				setLo(v, One)
				c.validation = num(v)
				what += " with validation data"
			}
			defer func() { c.validation = nil }()
			_, r := c.fit(batched, "")
			r.mustReturn("T11", r.f)
			where := what + ": " + c.where(r.fn)
			epochs, every := r.args[3], r.args[7]
			E := num(sym("?e", true))
			due := And(Le(Zero, E), Lt(E, epochs), Not(EqN(every, Zero)), EqN(Imod(E, every), Zero))
			sets := []struct {
				name string
				x, y *MatInfo
				n    *Term
			}{{"training data", r.mat("a1"), r.mat("a2"), num(samples)}}
			if val {
				sets = append(sets, struct {
					name string
					x, y *MatInfo
					n    *Term
				}{"validation data", r.mat("a5"), r.mat("a6"), c.validation})
			}
			info := r.calls(func(e *Event) bool { return e.kind == "logmsg" && r.isGlobal(r.f, e.args[0], "InfoLogger") })
			evs := r.calls(ofKind("evaluate"))
			used := map[*call]bool{}
			for _, s := range sets {
				// the evaluations of this data
				var lines []*call
				for _, l := range info {
					ops := r.logOperands(l)
					f := r.f.With(l.exec...)
					found := map[string]bool{}
					for _, e := range evs {
						if !sameLoops(e, l) || e.e.seq > l.e.seq || !hasTerm(ops, e.e.res) {
							continue
						}
						if !r.wholeOf(f, e.e.st, e.e.args[0], s.x) || !r.wholeOf(f, e.e.st, e.e.args[1], s.y) {
							continue
						}
						if !f.ProvesByCases(e.in()) {
							continue
						}
						late := true
						for _, u := range r.calls(ofKind("update")) {
							if u.e.seq > e.e.seq {
								late = false
							}
						}
						if late {
							found[e.e.args[2].name] = true
						}
					}
					if found["CalculateLoss"] && found["CalculateAccuracy"] && hasTerm(ops, l.epochOf()) {
						lines = append(lines, l)
						used[l] = true
					}
				}
				pos := func(cl *call) []*Term { return []*Term{cl.epochOf()} }
				r.exactly("T11", s.name+" in "+where, lines, pos, []*Term{E}, due, True)
			}
			for _, l := range info {
				c.expect("T11.lines", what+": "+c.where(l.e.fn)+" at "+r.ev.pos(l.e.instr), used[l], "a line of training progress reports something else than the epoch and the loss and accuracy after it: %v", r.logOperands(l))
			}
		})
	}
}

// wholeOf: v holds exactly the rows of M.
func (r *Run) wholeOf(f *Facts, st *State, v *Term, M *MatInfo) bool {
	s, n, _ := r.rowsOf(f, st, v, M)
	return s != nil && EqualF(f, s, Zero) && EqualF(f, n, M.rows)
}

// logOperands are the values in a log message.
func (r *Run) logOperands(cl *call) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term)
	add = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		out = append(out, t)
		if t.op == OIface || t.op == OStrT {
			for _, a := range t.a {
				add(a)
			}
		}
	}
	f := r.f.With(cl.exec...)
	for _, a := range cl.e.args[1:] {
		a = f.Simp(a)
		add(a)
		if a.op == OSlice {
			n, ok := knownInt(f.Simp(slen(a)))
			for i := int64(0); ok && i < n && i < 16; i++ {
				r2 := *r
				r2.st = cl.e.st
				add(f.Simp(r2.elemAt(a, numInt(i), f, types.NewInterfaceType(nil, nil))))
			}
		}
	}
	return out
}

func hasTerm(ts []*Term, t *Term) bool {
	for _, x := range ts {
		if x == t {
			return true
		}
	}
	return false
}

// isGlobal: the value a package variable has at the start.
func (r *Run) isGlobal(f *Facts, v *Term, name string) bool {
	g, ok := r.c.w.pkg.Members[name].(*ssa.Global)
	if !ok {
		return false
	}
	fam := r.c.w.globalFam(g)
	return f.Simp(v) == f.Simp(r.st0.at(fam, nil, nil))
}
