package main

// A01-A05: accuracy metrics, output functions, one-hot encoding, shuffling.

import "strings"

func init() {
	register("A01", "closed form of each metric's result over all cells equals the count of matching cells divided by the number of cells (samples)", 4, checkA01)
	register("A02", "closed form of every cell of the best-class and threshold results equals first-arg-max / threshold at 0.5", 4, checkA02)
	register("A03", "closed form of the one-hot result, and an error exactly when the size or some truncated label is out of range, without possible panics", 3, checkA03)
	register("A04", "rows of inputs and targets are rearranged only by one and the same permutation over all samples", 4, checkA04)
	register("A05", "effect analysis: metrics and output functions write no argument storage and return storage of their own", 9, checkA05)
}

func ind(c *Term) *Term { return Ite(c, One, Zero) }

func checkA01(c *Check) {
	i, j := num(sym("?i", true)), num(sym("?j", true))
	metric := func(name string, spec func(r *Run, H, Y *MatInfo) *Term) {
		c.scoped(name, func() {
			r := c.run(name, runOpts{facts: shapeFacts("a0", "a1")})
			H, Y := r.mat("a0"), r.mat("a1")
			r.mustReturn("A01", r.f)
			r.noPanic("A01", nil)
			got := r.f.Simp(r.ret(0))
			var want *Term
			under(r.f, func() { want = r.f.Simp(spec(r, H, Y)) })
			c.expect("A01.value", c.where(r.fn), EqualF(r.f, got, want), "returns %v, should be %v", got, want)
		})
	}
	metric("RegressionAccuracy", func(r *Run, H, Y *MatInfo) *Term {
		p := r.args[2]
		return Div(SumR(i, Zero, Y.rows, SumR(j, Zero, Y.cols, ind(Lt(Abs(Sub(H.cell(nil, i, j), Y.cell(nil, i, j))), p)))), Mul(Y.rows, Y.cols))
	})
	metric("CategoricalAccuracy", func(r *Run, H, Y *MatInfo) *Term {
		best := argFold(OArgMax, "", Zero, H.cols, j, H.cell(nil, i, j))
		return Div(SumR(i, Zero, Y.rows, ind(EqN(Y.cell(nil, i, best), One))), Y.rows)
	})
	metric("BinaryCategoricalAccuracy", func(r *Run, H, Y *MatInfo) *Term {
		return Div(SumR(i, Zero, Y.rows, SumR(j, Zero, Y.cols, ind(EqN(ind(Le(numFrac(1, 2), H.cell(nil, i, j))), Y.cell(nil, i, j))))), Mul(Y.rows, Y.cols))
	})
}

func checkA02(c *Check) {
	k := num(sym("?k", true))
	c.scoped("RowMax", func() {
		r := c.run("RowMax", runOpts{})
		X := r.mat("a0")
		r.mustReturn("A02", r.f)
		r.noPanic("A02", nil)
		r.cellIs("A02", r.f, r.ret(0), X.rows, One, "best class", func(i, j *Term) *Term {
			return argFold(OArgMax, "", Zero, X.cols, k, X.cell(nil, i, k))
		})
	})
	c.scoped("OutputBinaryValues", func() {
		r := c.run("OutputBinaryValues", runOpts{})
		X := r.mat("a0")
		r.mustReturn("A02", r.f)
		r.noPanic("A02", nil)
		r.cellIs("A02", r.f, r.ret(0), X.rows, X.cols, "thresholded", func(i, j *Term) *Term {
			return ind(Le(numFrac(1, 2), X.cell(nil, i, j)))
		})
	})
}

func checkA03(c *Check) {
	name := "SparseToOneHot"
	s := num(sym("?s", true))
	c.scoped(name, func() {
		r := c.run(name, runOpts{over: map[string]*Term{"a0.Cols": One}})
		X := r.mat("a0")
		n := r.args[1]
		r.mustReturn("A03", r.f)
		r.noPanic("A03", nil)
		label := func(i *Term) *Term { return Trunc(X.cell(nil, i, Zero)) }
		bad := Exists(s, X.rows, Not(rng(label(s), n)))
		c.expect("A03.refuses-size", c.where(r.fn), r.f.With(Le(n, Zero)).Entails(Not(r.noErr())), "a size below one is accepted")
		i := num(sym("?i", true))
		setLo(varAtom(i), Zero)
		c.expect("A03.refuses-label", c.where(r.fn), r.f.With(Le(One, n), rng(i, X.rows), Not(rng(label(i), n))).Proves(Not(r.noErr())), "a label outside the classes is accepted")
		c.expect("A03.accepts", c.where(r.fn), r.f.With(Le(One, n), Not(bad)).Entails(r.noErr()), "valid labels are refused")
		r.cellIs("A03", r.f.With(Le(One, n), Not(bad)), r.ret(0), X.rows, n, "one-hot rows", func(i, j *Term) *Term {
			return ind(EqN(j, label(i)))
		})
	})
}

func checkA04(c *Check) {
	name := "ShuffleDataset"
	c.scoped(name, func() {
		r := c.run(name, runOpts{facts: func(r *Run) []*Term { return []*Term{EqN(r.mat("a0").rows, r.mat("a1").rows)} }})
		r.mustReturn("A04", r.f)
		r.noPanic("A04", nil)
		i, j := num(sym("?i", true)), num(sym("?j", true))
		var perms []*Term
		for k := 0; k < 2; k++ {
			M := r.mat("a" + itoa(k))
			what := []string{"inputs", "targets"}[k]
			R, C, _ := matParts(c.w, r.ret(k))
			c.expect("A04.shape", c.where(r.fn)+" "+what, EqualF(r.f, R, M.rows) && EqualF(r.f, C, M.cols), "the shape of the %s changes to %v x %v", what, R, C)
			g := r.f.With(rng(i, M.rows), rng(j, M.cols))
			got := cellAt(c.w, r.st, g, r.ret(k), i, j)
			// the cell must be M(p(i), j) for a permutation p
			ok := false
			a := got.asAtomSafe()
			if a != nil && a.op == OApp && len(a.a) == 3 && a.a[0].name == "a"+itoa(k) && a.a[2] == j {
				p := a.a[1].asAtomSafe()
				if p != nil && p.op == OApp && (strings.HasPrefix(p.a[0].name, "permutation:") || strings.HasPrefix(p.a[0].name, "perm:")) {
					if p.a[len(p.a)-1] == i {
						ok = true
						perms = append(perms, p)
						if b, has := permBound[p.a[0].id]; has {
							full := b.op == OPoly && EqualF(r.f, b, M.rows)
							c.expect("A04.range", c.where(r.fn)+" "+what, full, "only %v of %v samples are shuffled", b, M.rows)
						}
						if st, has := permSteps[p.a[0].id]; has {
							full := exchangesAll(r.f, st, p.a[1], M.rows)
							c.expect("A04.range", c.where(r.fn)+" "+what, full, "the exchanges do not cover all samples: %v times %v and %v", p.a[1], st[0], st[1])
						}
					}
				}
			}
			c.expect("A04.rows", c.where(r.fn)+" "+what, ok, "row i of the %s becomes %v, not a permuted row", what, got)
		}
		if len(perms) == 2 {
			c.expect("A04.same", c.where(r.fn), perms[0] == perms[1], "inputs and targets are permuted differently: %v and %v", perms[0], perms[1])
		}
	})
}

func checkA05(c *Check) {
	run := func(name string, over map[string]*Term, facts func(r *Run) []*Term, mat bool) {
		c.scoped(name, func() {
			r := c.run(name, runOpts{over: over, facts: facts})
			r.unchanged("A05", r.f.With(r.pc), nil)
			if mat {
				r.fresh("A05", r.f.With(r.noErr()), r.ret(0), "result")
			}
		})
	}
	run("RegressionAccuracy", nil, shapeFacts("a0", "a1"), false)
	run("CategoricalAccuracy", nil, shapeFacts("a0", "a1"), false)
	run("BinaryCategoricalAccuracy", nil, shapeFacts("a0", "a1"), false)
	run("RowMax", nil, nil, true)
	run("OutputBinaryValues", nil, nil, true)
	run("Clip", nil, nil, true)
	run("SparseToOneHot", map[string]*Term{"a0.Cols": One}, nil, true)
}

// exchangesAll tells whether n exchanges of the positions given for every step
// cover all rows: one position runs through the rows, the other one is drawn from
// all rows, or from those up to or those from the first position.
func exchangesAll(f *Facts, pos [2]*Term, n, rows *Term) bool {
	s := num(sym("@swapstep", true))
	last := Sub(rows, One)
	f = f.With(Le(One, rows))
	is := func(x *Term, ys ...*Term) bool {
		for _, y := range ys {
			if EqualF(f, x, y) {
				return true
			}
		}
		return false
	}
	for k := 0; k < 2; k++ {
		a, b := pos[k], pos[1-k]
		if co, _, ok := coefOf(a, s); !ok || co != One && co != Neg(One) {
			continue
		}
		g := f.With(Le(numInt(2), rows))
		eq := func(x *Term, ys ...*Term) bool {
			for _, y := range ys {
				if EqualF(g, x, y) {
					return true
				}
			}
			return false
		}
		from, to := Subst1(a, varAtom(s), Zero), Subst1(a, varAtom(s), Sub(g.Simp(n), One))
		down := eq(from, last) && eq(to, Zero, One)
		up := eq(from, Zero, One) && eq(to, last, Sub(last, One))
		if !down && !up {
			continue
		}
		var draw *Term
		for _, x := range appsOf(b) {
			if strings.HasPrefix(x.a[0].name, "Intn:") {
				draw = x
			}
		}
		if draw == nil {
			continue
		}
		lo := Sub(b, num(draw))
		if lo.hasVar(draw.a[0]) {
			continue
		}
		hi := Add(lo, Sub(draw.a[1], One))
		switch {
		case is(lo, Zero) && is(hi, last):
			return true
		case down && is(lo, Zero) && is(hi, a, Sub(a, One)):
			return true
		case up && is(hi, last) && is(lo, a, Add(a, One)):
			return true
		case up && eq(from, One) && is(lo, Zero) && is(hi, a, Sub(a, One)):
			return true
		case up && is(lo, Zero) && is(hi, a):
			return true
		}
	}
	return false
}
