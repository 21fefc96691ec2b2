package main

// M01-M07: the matrix functions.

func rng(v, n *Term) *Term { return And(Le(Zero, v), Lt(v, n)) }

func init() {
	register("M01", "closed form of every cell of the result, from the recurrences of the function's loops, equals the specified operation on the operands' cells", 10, checkM01)
	register("M02", "closed form of every cell of product, transpose and axis sums equals the inner product / swapped cell / total", 6, checkM02)
	register("M03", "effect analysis: no argument storage is written on any path, results live in storage allocated by the call", 20, checkM03)
	register("M04", "an error is returned exactly under the stated conditions, no operation can panic for any argument, and no storage is written on error paths", 28, checkM04)
	register("M05", "successful results have positive dimensions, as many rows as declared and rows of the declared width", 30, checkM05)
	register("M06", "accessors return the stored cells and writers change exactly the named cells", 10, checkM06)
	register("M07", "the result of Equals is true exactly for equal shapes and cells", 2, checkM07)
	register("M08", "closed form of every cell of a copy and of a clipped matrix, which live in storage of their own", 10, checkM08)
}

type sameShape struct{ a, b string }

func shapeFacts(a, b string) func(r *Run) []*Term {
	return func(r *Run) []*Term {
		return []*Term{EqN(r.mat(a).rows, r.mat(b).rows), EqN(r.mat(a).cols, r.mat(b).cols)}
	}
}

func checkM01(c *Check) {
	for _, s := range []struct {
		name string
		op   func(a, b *Term) *Term
	}{
		{"Matrix.Add", Add},
		{"Matrix.Sub", Sub},
	} {
		s := s
		c.scoped(s.name, func() {
			r := c.run(s.name, runOpts{facts: shapeFacts("a0", "a1")})
			A, B := r.mat("a0"), r.mat("a1")
			r.mustReturn("M01", r.f)
			r.accepted("M01", r.f, "equal shapes")
			r.cellIs("M01", r.f, r.ret(0), A.rows, A.cols, "result", func(i, j *Term) *Term {
				return s.op(A.cell(nil, i, j), B.cell(nil, i, j))
			})
		})
	}
	x := num(sym("a1", false))
	for _, s := range []struct {
		name string
		op   func(a *Term) *Term
	}{
		{"Matrix.Neg", Neg},
		{"Matrix.AddScalar", func(a *Term) *Term { return Add(a, x) }},
		{"Matrix.MulScalar", func(a *Term) *Term { return Mul(a, x) }},
		{"Matrix.PowScalar", func(a *Term) *Term { return Pow(a, x) }},
	} {
		s := s
		c.scoped(s.name, func() {
			r := c.run(s.name, runOpts{over: map[string]*Term{"a1": x}})
			A := r.mat("a0")
			r.mustReturn("M01", r.f)
			r.cellIs("M01", r.f, r.ret(0), A.rows, A.cols, "result", func(i, j *Term) *Term { return s.op(A.cell(nil, i, j)) })
		})
	}
}

func checkM02(c *Check) {
	k := num(sym("?k", true))
	c.scoped("Matrix.Dot", func() {
		r := c.run("Matrix.Dot", runOpts{facts: func(r *Run) []*Term { return []*Term{EqN(r.mat("a0").cols, r.mat("a1").rows)} }})
		A, B := r.mat("a0"), r.mat("a1")
		r.mustReturn("M02", r.f)
		r.accepted("M02", r.f, "compatible shapes")
		r.cellIs("M02", r.f, r.ret(0), A.rows, B.cols, "product", func(i, j *Term) *Term {
			return SumR(k, Zero, A.cols, Mul(A.cell(nil, i, k), B.cell(nil, k, j)))
		})
	})
	c.scoped("Matrix.T", func() {
		r := c.run("Matrix.T", runOpts{})
		A := r.mat("a0")
		r.mustReturn("M02", r.f)
		r.cellIs("M02", r.f, r.ret(0), A.cols, A.rows, "transpose", func(i, j *Term) *Term { return A.cell(nil, j, i) })
	})
	for ax := int64(0); ax < 2; ax++ {
		ax := ax
		c.scoped("Matrix.Sum", func() {
			r := c.run("Matrix.Sum", runOpts{over: map[string]*Term{"a1": numInt(ax)}})
			A := r.mat("a0")
			r.mustReturn("M02", r.f)
			n, m := A.cols, A.rows
			if ax == 1 {
				n, m = A.rows, A.cols
			}
			r.cellIs("M02", r.f, r.ret(0), One, n, "sum along axis "+itoa(int(ax)), func(i, j *Term) *Term {
				return SumR(k, Zero, m, func() *Term {
					if ax == 0 {
						return A.cell(nil, k, j)
					}
					return A.cell(nil, j, k)
				}())
			})
		})
	}
}

type opCase struct {
	name  string
	label string
	over  map[string]*Term
	facts func(r *Run) []*Term
	isMat bool
}

func matrixOps() []opCase {
	return []opCase{
		{"Matrix.Add", "", nil, nil, true},
		{"Matrix.Sub", "", nil, nil, true},
		{"Matrix.Neg", "", nil, nil, true},
		{"Matrix.AddScalar", "", nil, nil, true},
		{"Matrix.MulScalar", "", nil, nil, true},
		{"Matrix.PowScalar", "", nil, nil, true},
		{"Matrix.Dot", "", nil, nil, true},
		{"Matrix.T", "", nil, nil, true},
		{"Matrix.Sum", "axis 0", map[string]*Term{"a1": Zero}, nil, true},
		{"Matrix.Sum", "axis 1", map[string]*Term{"a1": One}, nil, true},
		{"Matrix.Copy", "", nil, nil, true},
		{"Matrix.Equals", "", nil, nil, false},
	}
}

func checkM03(c *Check) {
	for _, o := range matrixOps() {
		o := o
		c.scoped(o.name, func() {
			r := c.run(o.name, runOpts{over: o.over, facts: o.facts})
			r.unchanged("M03", r.f.With(r.pc), nil)
			if o.isMat {
				f := r.f.With(r.noErr())
				r.fresh("M03", f, r.ret(0), "result "+o.label)
			}
		})
	}
}

func checkM04(c *Check) {
	decide := func(name string, valid func(r *Run) *Term) {
		c.scoped(name, func() {
			r := c.run(name, runOpts{})
			v := valid(r)
			r.mustReturn("M04", r.f)
			r.noPanic("M04", nil)
			ok, bad := r.f.With(v), r.f.With(Not(v))
			r.accepted("M04", ok, "valid arguments")
			r.refused("M04", bad, "the arguments are invalid")
			r.unchanged("M04", r.f.With(Not(r.noErr())), nil)
		})
	}
	arg := func(r *Run, i int) *Term { return r.args[i] }
	decide("NewMatrix", func(r *Run) *Term { return And(Le(One, arg(r, 0)), Le(One, arg(r, 1))) })
	idx := func(r *Run) *Term { A := r.mat("a0"); return And(rng(arg(r, 1), A.rows), rng(arg(r, 2), A.cols)) }
	decide("Matrix.Get", idx)
	decide("Matrix.Set", idx)
	decide("Matrix.GetRow", func(r *Run) *Term { return rng(arg(r, 1), r.mat("a0").rows) })
	decide("Matrix.GetColumn", func(r *Run) *Term { return rng(arg(r, 1), r.mat("a0").cols) })
	decide("Matrix.SetRow", func(r *Run) *Term {
		return And(rng(arg(r, 1), r.mat("a0").rows), EqN(slen(arg(r, 2)), r.mat("a0").cols))
	})
	decide("Matrix.SetColumn", func(r *Run) *Term {
		return And(rng(arg(r, 1), r.mat("a0").cols), EqN(slen(arg(r, 2)), r.mat("a0").rows))
	})
	same := func(r *Run) *Term {
		return And(EqN(r.mat("a0").rows, r.mat("a1").rows), EqN(r.mat("a0").cols, r.mat("a1").cols))
	}
	decide("Matrix.Add", same)
	decide("Matrix.Sub", same)
	decide("Matrix.Dot", func(r *Run) *Term { return EqN(r.mat("a0").cols, r.mat("a1").rows) })
	c.scoped("NewMatrixFromSlice", func() {
		r := c.run("NewMatrixFromSlice", runOpts{})
		r.mustReturn("M04", r.f)
		r.noPanic("M04", nil)
		r.unchanged("M04", r.f, nil)
		// rectangular slices are accepted
		n := num(sym("?width", true))
		setLo(varAtom(n), One)
		r = c.run("NewMatrixFromSlice", runOpts{over: map[string]*Term{"len(a0[])": n}, facts: func(r *Run) []*Term { return []*Term{Le(One, slen(r.args[0]))} }})
		r.accepted("M04", r.f, "a rectangular slice")
	})
}

func checkM05(c *Check) {
	for _, o := range matrixOps() {
		o := o
		if !o.isMat {
			continue
		}
		c.scoped(o.name, func() {
			r := c.run(o.name, runOpts{over: o.over})
			r.wellFormed("M05", r.f.With(r.noErr()), r.ret(0), "result "+o.label, true)
		})
	}
	c.scoped("NewMatrix", func() {
		r := c.run("NewMatrix", runOpts{})
		f := r.f.With(r.noErr())
		r.wellFormed("M05", f, r.ret(0), "result", true)
		R, C, _ := matParts(c.w, r.ret(0))
		c.expect("M05.declared", c.where(r.fn), EqualF(f, R, r.args[0]) && EqualF(f, C, r.args[1]), "the matrix is %v x %v", R, C)
		r.cellIs("M05", f, r.ret(0), r.args[0], r.args[1], "result", func(i, j *Term) *Term { return Zero })
	})
	c.scoped("NewMatrixFromSlice", func() {
		r := c.run("NewMatrixFromSlice", runOpts{})
		f := r.f.With(r.noErr())
		r.wellFormed("M05", f, r.ret(0), "result", false)
		s := r.args[0]
		R, C, _ := matParts(c.w, r.ret(0))
		i, j := num(sym("?i", true)), num(sym("?j", true))
		g := f.With(rng(i, R), rng(j, C))
		got := cellAt(c.w, r.st, g, r.ret(0), i, j)
		row := r.st0.at(sref(s).fam(), sref(s).a, i)
		want := r.st0.at(sref(row).fam(), sref(row).a, j)
		c.expect("M05.cells", c.where(r.fn), EqualF(f, R, slen(s)) && EqualF(g, got, want), "cell (i,j) is %v", got)
		g2 := f.With(rng(i, slen(s)))
		c.expect("M05.ragged", c.where(r.fn), EqualF(g2, slen(row), C) && f.Entails(Le(One, slen(s))), "a ragged or empty slice is accepted")
	})
}

func (r *Run) onlyChanges(rule string, f *Facts, m *MatInfo, hitc func(i, j *Term) *Term, val func(i, j *Term) *Term) {
	i, j := ph(0), phIdx
	old := r.st0.content(m.celF)
	now := r.st.content(m.celF)
	g := f.With(rng(i, m.rows), rng(j, m.cols))
	want := Ite(hitc(i, j), val(i, j), old)
	r.c.expect(rule+".written", r.c.where(r.fn), EqualF(g, now, want), "cell (i,j) becomes %v, should be %v", g.Simp(now), g.Simp(want))
	r.unchanged(rule, f, func(x *Family) bool { return x == m.celF })
}

func checkM06(c *Check) {
	c.scoped("Matrix.Get", func() {
		r := c.run("Matrix.Get", runOpts{})
		A := r.mat("a0")
		f := r.f.With(rng(r.args[1], A.rows), rng(r.args[2], A.cols))
		r.accepted("M06", f, "valid indices")
		c.expect("M06.read", c.where(r.fn), EqualF(f, r.ret(0), A.cell(nil, r.args[1], r.args[2])), "returns %v", f.Simp(r.ret(0)))
		r.unchanged("M06", r.f, nil)
	})
	readSlice := func(name string, n func(A *MatInfo) *Term, valid func(A *MatInfo, a *Term) *Term, spec func(A *MatInfo, a, k *Term) *Term) {
		c.scoped(name, func() {
			r := c.run(name, runOpts{})
			A := r.mat("a0")
			f := r.f.With(valid(A, r.args[1]))
			r.accepted("M06", f, "valid indices")
			s := f.Simp(r.ret(0))
			c.expect("M06.length", c.where(r.fn), EqualF(f, slen(s), n(A)), "returns %v values", slen(s))
			k := num(sym("?k", true))
			g := f.With(rng(k, n(A)))
			got := g.Simp(r.ev.loadElem(r.st, sref(s), Add(soff(s), k), nil))
			c.expect("M06.read", c.where(r.fn), EqualF(g, got, spec(A, r.args[1], k)), "element k is %v", got)
			r.unchanged("M06", r.f, nil)
		})
	}
	readSlice("Matrix.GetRow", func(A *MatInfo) *Term { return A.cols }, func(A *MatInfo, a *Term) *Term { return rng(a, A.rows) }, func(A *MatInfo, a, k *Term) *Term { return A.cell(nil, a, k) })
	readSlice("Matrix.GetColumn", func(A *MatInfo) *Term { return A.rows }, func(A *MatInfo, a *Term) *Term { return rng(a, A.cols) }, func(A *MatInfo, a, k *Term) *Term { return A.cell(nil, k, a) })
	c.scoped("Matrix.Set", func() {
		r := c.run("Matrix.Set", runOpts{})
		A := r.mat("a0")
		f := r.f.With(rng(r.args[1], A.rows), rng(r.args[2], A.cols))
		r.accepted("M06", f, "valid indices")
		r.onlyChanges("M06", f, A, func(i, j *Term) *Term { return And(EqN(i, r.args[1]), EqN(j, r.args[2])) }, func(i, j *Term) *Term { return r.args[3] })
	})
	elem := func(r *Run, k *Term) *Term {
		s := r.args[2]
		return r.st0.at(sref(s).fam(), sref(s).a, k)
	}
	c.scoped("Matrix.SetRow", func() {
		r := c.run("Matrix.SetRow", runOpts{facts: func(r *Run) []*Term { return []*Term{EqN(slen(r.args[2]), r.mat("a0").cols)} }})
		A := r.mat("a0")
		f := r.f.With(rng(r.args[1], A.rows))
		r.accepted("M06", f, "valid arguments")
		r.rowWritten(f, A, func(i, j *Term) *Term { return Ite(EqN(i, r.args[1]), elem(r, j), A.cell(nil, i, j)) })
	})
	c.scoped("Matrix.SetColumn", func() {
		r := c.run("Matrix.SetColumn", runOpts{facts: func(r *Run) []*Term { return []*Term{EqN(slen(r.args[2]), r.mat("a0").rows)} }})
		A := r.mat("a0")
		f := r.f.With(rng(r.args[1], A.cols))
		r.accepted("M06", f, "valid arguments")
		r.rowWritten(f, A, func(i, j *Term) *Term { return Ite(EqN(j, r.args[1]), elem(r, i), A.cell(nil, i, j)) })
	})
	c.scoped("NewMatrix", func() {
		r := c.run("NewMatrix", runOpts{})
		r.fresh("M06", r.f.With(r.noErr()), r.ret(0), "result")
	})
}

// rowWritten: the cells of the receiver read through its (possibly new) row
// table, which must not point into an argument.
func (r *Run) rowWritten(f *Facts, m *MatInfo, spec func(i, j *Term) *Term) {
	c := r.c
	i, j := num(sym("?i", true)), num(sym("?j", true))
	g := f.With(rng(i, m.rows), rng(j, m.cols))
	// the receiver's matrix value after the call
	p := r.args[0]
	now := m.val
	if p.op == OPtr {
		now = r.st.at(p.a[0].fam(), p.a[0].a, nil)
	}
	R, C, _ := matParts(c.w, now)
	c.expect("M06.shape", c.where(r.fn), EqualF(f, R, m.rows) && EqualF(f, C, m.cols), "the shape changes to %v x %v", R, C)
	got := cellAt(c.w, r.st, g, now, i, j)
	c.expect("M06.written", c.where(r.fn), EqualF(g, got, g.Simp(spec(i, j))), "cell (i,j) becomes %v, should be %v", got, g.Simp(spec(i, j)))
	row := rowAt(c.w, r.st, g, now, i)
	ok := true
	for _, cs := range cases(sref(row)) {
		if g.With(cs.c).Contradictory() {
			continue
		}
		if cs.v.op != ORef || cs.v.fam().param && cs.v.fam() != m.celF {
			ok = false
		}
	}
	c.expect("M06.own", c.where(r.fn), ok, "the matrix keeps the caller's slice as its row")
	c.expect("M06.row-length", c.where(r.fn), EqualF(g, slen(row), m.cols), "a row has %v cells", slen(row))
	r.unchanged("M06", f, func(x *Family) bool {
		return x == m.celF || x == m.rowsF || p.op == OPtr && x == p.a[0].fam()
	})
}

func checkM07(c *Check) {
	name := "Matrix.Equals"
	c.scoped(name, func() {
		r := c.run(name, runOpts{})
		r.mustReturn("M07", r.f)
		r.noPanic("M07", nil)
		A, B := r.mat("a0"), r.mat("a1")
		res := boolOf(r.ret(0))
		same := And(EqN(A.rows, B.rows), EqN(A.cols, B.cols))
		c.expect("M07.shapes", c.where(r.fn)+" different shapes", r.f.With(Not(same)).Entails(Not(res)), "true although the shapes differ: %v", res)
		i, j := num(sym("?i", true)), num(sym("?j", true))
		f := r.f.With(res, rng(i, A.rows), rng(j, A.cols))
		c.expect("M07.true-means-equal", c.where(r.fn), f.Entails(EqN(A.cell(nil, i, j), B.cell(nil, i, j))), "true although cells differ: %v", res)
		// equal cells give true: both matrices hold the same function of the indices
		cell := App(sym("a1", false), ph(0), phIdx)
		r2 := c.run(name, runOpts{over: map[string]*Term{"a0.cell": cell}, facts: shapeFacts("a0", "a1")})
		c.expect("M07.equal-means-true", c.where(r.fn), r2.f.Entails(boolOf(r2.ret(0))), "false although all cells are equal: %v", r2.ret(0))
	})
}

// checkM08: Copy and Clip.
func checkM08(c *Check) {
	c.scoped("Matrix.Copy", func() {
		r := c.run("Matrix.Copy", runOpts{})
		A := r.mat("a0")
		r.mustReturn("M08", r.f)
		r.cellIs("M08", r.f, r.ret(0), A.rows, A.cols, "copy", func(i, j *Term) *Term { return A.cell(nil, i, j) })
		r.wellFormed("M08", r.f, r.ret(0), "copy", true)
		r.unchanged("M08", r.f.With(r.pc), nil)
	})
	c.scoped("Clip", func() {
		r := c.run("Clip", runOpts{})
		A := r.mat("a0")
		r.mustReturn("M08", r.f)
		r.cellIs("M08", r.f, r.ret(0), A.rows, A.cols, "clipped matrix", func(i, j *Term) *Term { return clip(A.cell(nil, i, j)) })
		r.wellFormed("M08", r.f, r.ret(0), "clipped matrix", true)
		r.unchanged("M08", r.f.With(r.pc), nil)
	})
}
