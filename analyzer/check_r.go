package main

// Random draws: L04 and L08.

import (
	"sort"
	"strings"
)

func init() {
	register("L04", "the mask of a training pass is one independent uniform draw per unit with the specified acceptance measure, and forward and backward use the same factor", 12, checkL04)
	register("L08", "every weight becomes its own normal draw times sqrt(2/inputs) from a generator seeded anew, and nothing else changes", 30, checkL08)
}

// drawAtoms lists the random numbers a term contains.
func drawAtoms(t *Term, prefix string) []*Term {
	var r []*Term
	seen := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if (t.op == OApp || t.op == OSym) && strings.HasPrefix(symName(t), prefix) {
			r = append(r, t)
		}
		as := t.a
		if t.op == OApp || t.op == OBApp {
			as = t.a[1:]
		}
		for _, a := range as {
			rec(a)
		}
		for _, m := range t.p {
			for _, x := range m.f {
				rec(x.t)
			}
		}
	}
	rec(t)
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

func symName(t *Term) string {
	if t.op == OApp {
		t = t.a[0]
	}
	return t.name
}

// seededAnew checks the generators of all draws of a run: they are created
// once, before the loops that draw, from a seed that changes from run to run.
func (r *Run) seededAnew(rule string, kind string) {
	c := r.c
	n := 0
	for _, e := range r.ev.events {
		where := c.where(e.fn) + " at " + r.ev.pos(e.instr)
		switch e.kind {
		case "reseed":
			n++
			c.report(rule+".generator", where, "a generator is reseeded", false)
		case "draw":
			n++
			gen := e.args[0]
			if gen.op != OIface || !isHandle(gen, "rng") || gen == globalRNG {
				c.report(rule+".generator", where, "draws from a shared or unknown generator: "+gen.String(), false)
				continue
			}
			src := gen
			for isHandle(src, "rng") && len(src.a) > 0 {
				src = src.a[0]
			}
			if !isHandle(src, "rngsrc") || len(src.a) < 2 {
				c.report(rule+".generator", where, "draws from a generator of unknown origin: "+gen.String(), false)
				continue
			}
			c.expect(rule+".generator-once", where, len(src.a) == 2, "a new generator is created inside the loop that draws")
			c.expect(rule+".seed", where, freshSeed(src.a[1]), "the seed %v does not differ from one use to the next", src.a[1])
			c.expect(rule+".distribution", where, e.name == kind, "the number is drawn by %s, should be by %s", e.name, kind)
		}
	}
	c.expect(rule+".draws", c.where(r.fn), n > 0, "nothing is drawn")
}

// freshSeed: the seed is a fine-grained clock reading, possibly converted,
// shifted or negated.
func freshSeed(s *Term) bool {
	for {
		if at := asAtomOf(s); at != nil && at.op == OWrap {
			s = at.a[0]
			continue
		}
		break
	}
	if s.op != OPoly {
		return false
	}
	hit := 0
	for _, m := range s.p {
		clock := false
		for _, x := range m.f {
			if as := drawAtoms(x.t, "now"); len(as) > 0 {
				clock = true
				fine := x.t.op == OApp && (strings.HasPrefix(symName(x.t), "now9:") || strings.HasPrefix(symName(x.t), "now6:"))
				if !fine || x.e != 1 || len(m.f) != 1 {
					return false
				}
			}
		}
		if clock {
			if !m.c.IsInt() {
				return false
			}
			hit++
		}
	}
	return hit == 1
}

func asAtomOf(t *Term) *Term {
	if t.op == OPoly {
		return t.asAtom()
	}
	return t
}

// ownDraw: the random number is another one for every other position (i,j).
func ownDraw(f *Facts, u, i, j, rows, cols *Term) bool {
	if u.op != OApp {
		return false
	}
	i2, j2 := num(fresh("?i", true)), num(fresh("?j", true))
	same := True
	s := newSub().set(i, i2).set(j, j2)
	for _, a := range u.a[1:] {
		if a.op == OPoly && a.isInt {
			same = And(same, EqN(a, s.Do(a)))
		}
	}
	g := f.With(Le(Zero, i2), Lt(i2, rows), Le(Zero, j2), Lt(j2, cols))
	return g.With(same).Entails(And(EqN(i, i2), EqN(j, j2)))
}

func checkL08(c *Check) {
	for _, k := range layerKinds() {
		k := k
		c.scoped(k.name+".Init", func() {
			r := c.run(k.name+".Init", runOpts{over: layerOver(false)})
			r.mustReturn("L08", r.f)
			r.noPanic("L08", nil)
			W := r.mat("a0.Weights")
			I, O := W.rows, W.cols
			i, j := num(sym("?i", true)), num(sym("?j", true))
			f := r.f.With(Le(Zero, i), Lt(i, I), Le(Zero, j), Lt(j, O))
			w := r.objField(k.name, "Weights", r.st)
			R, C, _ := matParts(c.w, w)
			c.expect("L08.shape", c.where(r.fn), EqualF(f, R, I) && EqualF(f, C, O), "the weights become %v x %v", R, C)
			got := cellAt(c.w, r.st, f, w, i, j)
			us := drawAtoms(got, "Normal:")
			if c.expect("L08.draw", c.where(r.fn), len(us) == 1, "a weight becomes %v, which is not one normal draw", got) {
				u := us[0]
				c.expect("L08.scale", c.where(r.fn), EqualF(f, got, Mul(num(u), Sqrt(Div(numInt(2), I)))), "a weight becomes %v, should be a draw times sqrt(2/inputs)", got)
				c.expect("L08.own-draw", c.where(r.fn), ownDraw(f, u, i, j, I, O), "two weights may share the draw %v", u)
			}
			r.seededAnew("L08", "NormFloat64")
			// nothing else
			B := r.mat("a0.Biases")
			r.unchanged("L08", r.f, func(fm *Family) bool {
				return fm == W.celF || fm == W.rowsF || fm.name == "a0" || fm.name == "a0.Weights"
			})
			st := structOf(c.w, k.name)
			for n := 0; n < st.NumFields(); n++ {
				fl := st.Field(n)
				if fl.Name() == "Weights" || fl.Name() == "Biases" || !fl.Exported() {
					continue
				}
				fam := r.args[0].a[0].fam()
				a, b := field(r.st.content(fam), n), field(r.st0.content(fam), n)
				c.expect("L08.settings", c.where(r.fn)+" on "+fl.Name(), a == b || EqualF(r.f, a, b), "the field %s becomes %v", fl.Name(), a)
			}
			r.cellIs("L08", r.f, r.objField(k.name, "Biases", r.st), One, O, "biases", func(i, j *Term) *Term { return B.cell(nil, Zero, j) })
		})
	}
}

// objField reads a (pointer to a) matrix field of the receiver.
func (r *Run) objField(kind, name string, st *State) *Term {
	return objField(r.c.w, kind, name, st, r.args[0])
}

func objField(w *World, kind, name string, st *State, self *Term) *Term {
	t := structOf(w, kind)
	for n := 0; n < t.NumFields(); n++ {
		if t.Field(n).Name() == name {
			return deref(st, field(deref(st, self), n))
		}
	}
	panic(undecided{kind + " has no field " + name})
}

// objFieldPtr is the field itself.
func objFieldPtr(w *World, kind, name string, st *State, self *Term) *Term {
	t := structOf(w, kind)
	for n := 0; n < t.NumFields(); n++ {
		if t.Field(n).Name() == name {
			return field(deref(st, self), n)
		}
	}
	panic(undecided{kind + " has no field " + name})
}

// deref reads what a pointer points to (other values are returned as they are).
func deref(st *State, p *Term) *Term {
	return lift([]*Term{p}, func(x []*Term) *Term {
		if x[0].op != OPtr {
			return x[0]
		}
		v := st.at(x[0].a[0].fam(), x[0].a[0].a, nil)
		for _, k := range x[0].ints {
			v = field(v, k)
		}
		return v
	})
}

// ---------- dropout ----------

func checkL04(c *Check) {
	c.scoped("DropoutLayer", func() {
		r1 := c.run("DropoutLayer.Forward", runOpts{over: layerOver(true)})
		r1.mustReturn("L04", r1.f)
		r1.noPanic("L04", nil)
		r1.accepted("L04", r1.f, "a matching input")
		r1.finiteMath("L04", nil)
		r1.seededAnew("L04", "Float64")
		N, W := r1.mat("a1").rows, r1.mat("a0.Weights")
		I, O := W.rows, W.cols
		rate := num(sym("rate", false))
		i, j := num(sym("?i", true)), num(sym("?j", true))
		R, C, _ := matParts(c.w, r1.ret(0))
		where := c.where(r1.fn)
		if !c.expect("L04.shape", where, EqualF(r1.f, R, N) && EqualF(r1.f, C, O), "the output is %v x %v", R, C) {
			return
		}
		f := r1.f.With(Le(Zero, i), Lt(i, N), Le(Zero, j), Lt(j, O))
		z := affine(r1)
		out := cellAt(c.w, r1.st, f, r1.ret(0), i, j)
		c.expect("L04.off", where, EqualF(f.With(Le(z(i, j), Zero)), out, Zero), "a unit with non-positive input outputs %v", out)
		c.expect("L04.all-dropped", where, EqualF(f.With(EqN(rate, One)), out, Zero), "with rate 1 a unit outputs %v", out)
		on := f.With(Lt(Zero, z(i, j)), Lt(rate, One))
		got := on.Simp(out)
		us := drawAtoms(got, "U:")
		if !c.expect("L04.draw", where, len(us) == 1, "a unit outputs %v, which is not decided by one uniform draw", got) {
			return
		}
		u := us[0]
		c.expect("L04.own-draw", where, ownDraw(f, u, i, j, N, O), "two units may share the draw %v", u)
		keep := False
		kept := Div(z(i, j), Sub(One, rate))
		for _, cs := range cases(got) {
			g := on.With(cs.c)
			switch {
			case g.Contradictory():
			case EqualF(g, cs.v, kept):
				keep = Or(keep, cs.c)
			default:
				c.expect("L04.kept", where, EqualF(g, cs.v, Zero), "a unit outputs %v, should be zero or its value divided by 1-rate", cs.v)
			}
		}
		uni := num(fresh("?u", false))
		c.expect("L04.probability", where, measureIs(on, replaceAtom(keep, u, uni), uni, Sub(One, rate), 0), "a unit is kept when %v, which does not have probability 1-rate", keep)
		// the backward pass
		r := r1.after("DropoutLayer.Backward", r1.args)
		r.mustReturn("L04", r.f)
		r.noPanic("L04", nil)
		r.accepted("L04", r.f, "matching input and gradient")
		D := r.mat("a2")
		keepAt := func(a, b *Term) *Term { return newSub().set(i, a).set(j, b).Do(keep) }
		delta := func(alt bool) func(a, b *Term) *Term {
			return func(a, b *Term) *Term {
				pos := Lt(Zero, z(a, b))
				if alt {
					pos = Le(Zero, z(a, b))
				}
				g := Ite(And(keepAt(a, b), Lt(rate, One)), Div(D.cell(nil, a, b), Sub(One, rate)), Zero)
				return Ite(pos, g, Zero)
			}
		}
		r.gradients("L04", delta(true), I, O, N, true)
		if r.lastTrialFailed {
			r.gradients("L04", delta(false), I, O, N, false)
		}
	})
}

// measureIs: the condition on a number drawn uniformly from [0,1) holds with
// probability p.
func measureIs(f *Facts, cond, u, p *Term, depth int) bool {
	if depth > 12 {
		return false
	}
	f2 := f.With(Le(Zero, u), Lt(u, One))
	cond = boolOf(f2.Simp(cond))
	uv := varAtom(u)
	if debugEval {
		println("measureIs", cond.String(), depth)
	}
	split := func(a *Term) bool {
		for _, lit := range []*Term{a, Not(a)} {
			g := f.With(lit)
			if g.Contradictory() {
				continue
			}
			if !measureIs(g, cond, u, p, depth+1) {
				return false
			}
		}
		return true
	}
	var cuts []*Term
	for _, a := range condAtoms(cond) {
		if !a.hasVar(uv) {
			return split(boolOf(a))
		}
		if a.op != OLt0 && a.op != OEq0 || a.a[0].op != OPoly {
			return false
		}
		co, rest, ok := linCoef(a.a[0], u)
		if !ok || rest.hasVar(uv) {
			return false
		}
		cuts = append(cuts, Neg(Div(rest, numRat(co))))
	}
	// order the thresholds, limited to [0,1]
	pts := []*Term{Zero}
	for _, t := range cuts {
		if f.Holds(Le(t, Zero)) || f.Holds(Le(One, t)) {
			continue
		}
		if !f.Holds(Lt(Zero, t)) {
			return split(Lt(Zero, t))
		}
		if !f.Holds(Lt(t, One)) {
			return split(Lt(t, One))
		}
		k := len(pts)
		dup := false
		for n, q := range pts {
			if EqualF(f, q, t) {
				dup = true
				break
			}
			if !f.Holds(Lt(q, t)) {
				if f.Holds(Lt(t, q)) {
					k = n
					break
				}
				return split(Lt(q, t))
			}
		}
		if !dup {
			pts = append(pts[:k], append([]*Term{t}, pts[k:]...)...)
		}
	}
	pts = append(pts, One)
	total := Zero
	for n := 0; n+1 < len(pts); n++ {
		switch f.With(Lt(pts[n], u), Lt(u, pts[n+1])).Simp(cond) {
		case True:
			total = Add(total, Sub(pts[n+1], pts[n]))
		case False:
		default:
			return false
		}
	}
	if debugEval {
		println("measure", total.String(), p.String(), depth)
	}
	return EqualF(f, total, p)
}
