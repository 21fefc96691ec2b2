package main

// S01-S04: the loss functions.

func init() {
	register("S01", "closed form of each loss value over the whole batch equals the specified average", 4, checkS01)
	register("S02", "closed form of every cell of each gradient equals the derivative of the specified loss, which the loss value is shown to be", 12, checkS02)
	register("S03", "every logarithm argument is shown positive and every divisor non-zero for all predictions in [0,1]", 8, checkS03)
	register("S04", "errors exactly for mismatched shapes, no operation that can panic, and no argument storage written", 20, checkS04)
}

var (
	clipLo = numFrac(1, 10000000)
	clipHi = numFrac(9999999, 10000000)
)

func lossNames() []string {
	return []string{"MeanSquaredLoss", "MeanAbsoluteLoss", "CrossEntropyLoss", "BinaryCrossEntropyLoss"}
}

func clip(x *Term) *Term { return Ite(Lt(x, clipLo), clipLo, Ite(Lt(clipHi, x), clipHi, x)) }

func dim(name string) *Term {
	s := sym(name, true)
	setLo(s, One)
	return num(s)
}

// lossOver gives predictions and targets of one shape, the loss size matching.
func lossOver(onehot, inside bool) map[string]*Term {
	N, C := dim("N"), dim("C")
	o := map[string]*Term{"a1.Rows": N, "a2.Rows": N, "a1.Cols": C, "a2.Cols": C, "a0.Size": C}
	if onehot {
		o["a2.cell"] = ind(EqN(phIdx, App(oneHotClass("cls", C), ph(0))))
	}
	if inside {
		s := sym("p", false)
		setLo(s, clipLo)
		setHi(s, clipHi)
		o["a1.cell"] = App(s, ph(0), phIdx)
	}
	return o
}

// oneHotClass is the unknown class of each sample.
func oneHotClass(name string, C *Term) *Term {
	s := sym(name, true)
	setLo(s, Zero)
	bounds[s.id] = bound{lo: func([]*Term) *Term { return Zero }, hi: func([]*Term) *Term { return Sub(C, One) }}
	return s
}

// lossSpec is the specified loss value.
func lossSpec(f *Facts, name string, P, Y *MatInfo) *Term {
	i, j := num(sym("?i", true)), num(sym("?j", true))
	N, C := P.rows, P.cols
	in := f.With(Le(Zero, i), Lt(i, N), Le(Zero, j), Lt(j, C))
	p, y := P.cell(nil, i, j), Y.cell(nil, i, j)
	avg := func(x *Term) *Term { return Div(SumR(i, Zero, N, SumR(j, Zero, C, in.Simp(x))), Mul(N, C)) }
	switch name {
	case "MeanSquaredLoss":
		return avg(powInt(Sub(p, y), 2))
	case "MeanAbsoluteLoss":
		return avg(Abs(Sub(p, y)))
	case "CrossEntropyLoss":
		cls := App(oneHotClass("cls", C), i)
		return Neg(Div(SumR(i, Zero, N, Log(in.Simp(clip(P.cell(nil, i, cls))))), N))
	case "BinaryCrossEntropyLoss":
		q := clip(p)
		return Neg(avg(Add(Mul(y, Log(q)), Mul(Sub(One, y), Log(Sub(One, q))))))
	}
	panic(undecided{"no specification for " + name})
}

func lossValue(c *Check, rule, name string, inside bool) {
	onehot := name == "CrossEntropyLoss"
	r := c.run(name+".Forward", runOpts{over: lossOver(onehot, inside)})
	P, Y := r.mat("a1"), r.mat("a2")
	r.mustReturn(rule, r.f)
	r.accepted(rule, r.f, "equal shapes")
	got := r.f.Simp(r.ret(0))
	var want *Term
	under(r.f, func() { want = r.f.Simp(lossSpec(r.f, name, P, Y)) })
	c.expect(rule+".value", c.where(r.fn), EqualF(r.f, got, want), "the loss is %v, should be %v", got, want)
}

func checkS01(c *Check) {
	for _, name := range lossNames() {
		name := name
		c.scoped(name, func() { lossValue(c, "S01", name, false) })
	}
}

func checkS02(c *Check) {
	for _, name := range lossNames() {
		name := name
		ce := name == "CrossEntropyLoss" || name == "BinaryCrossEntropyLoss"
		onehot := name == "CrossEntropyLoss"
		c.scoped(name, func() {
			lossValue(c, "S02", name, ce)
			r := c.run(name+".Backward", runOpts{over: lossOver(onehot, ce)})
			P, Y := r.mat("a1"), r.mat("a2")
			N, C := P.rows, P.cols
			r.mustReturn("S02", r.f)
			r.accepted("S02", r.f, "equal shapes")
			r.cellIs("S02", r.f, r.ret(0), N, C, "gradient", func(i, j *Term) *Term {
				p, y := P.cell(nil, i, j), Y.cell(nil, i, j)
				d := Sub(p, y)
				switch name {
				case "MeanSquaredLoss":
					return Div(Mul(numInt(2), d), Mul(N, C))
				case "MeanAbsoluteLoss":
					return Div(Ite(Lt(Zero, d), One, Ite(Lt(d, Zero), Neg(One), Zero)), Mul(N, C))
				case "CrossEntropyLoss":
					return Neg(Div(Div(y, p), N))
				}
				return Neg(Div(Sub(Div(y, p), Div(Sub(One, y), Sub(One, p))), Mul(N, C)))
			})
		})
	}
}

func checkS03(c *Check) {
	for _, name := range []string{"CrossEntropyLoss", "BinaryCrossEntropyLoss"} {
		for _, m := range []string{"Forward", "Backward"} {
			name, m := name, m
			c.scoped(name+"."+m, func() {
				over := lossOver(name == "CrossEntropyLoss", false)
				s := sym("prob", false)
				setLo(s, Zero)
				setHi(s, One)
				over["a1.cell"] = App(s, ph(0), phIdx)
				if name == "BinaryCrossEntropyLoss" {
					y := sym("bit", true)
					setLo(y, Zero)
					setHi(y, One)
					over["a2.cell"] = App(y, ph(0), phIdx)
				}
				r := c.run(name+"."+m, runOpts{over: over})
				r.mustReturn("S03", r.f)
				r.finiteMath("S03", nil)
			})
		}
	}
}

// finiteMath: logarithms of positive numbers, divisions by non-zero ones,
// exponentials of non-positive ones where asked.
func (r *Run) finiteMath(rule string, exps func(e *Event) bool) {
	c := r.c
	n := 0
	for _, e := range r.ev.events {
		where := c.where(e.fn) + " at " + r.ev.pos(e.instr)
		f := e.facts
		switch e.kind {
		case "log":
			n++
			c.expect(rule+".log", where, f.Entails(Lt(Zero, e.args[0])) || f.Contradictory(), "logarithm of %v, which may not be positive", f.Simp(e.args[0]))
		case "sqrt":
			n++
			c.expect(rule+".sqrt", where, f.Entails(Le(Zero, e.args[0])) || f.Contradictory(), "root of %v, which may be negative", f.Simp(e.args[0]))
		case "fdiv":
			n++
			c.expect(rule+".div", where, f.Entails(Not(EqN(e.args[1], Zero))) || f.Contradictory(), "division by %v, which may be zero", f.Simp(e.args[1]))
		case "exp":
			if exps != nil {
				n++
				exps(e)
			}
		}
	}
	c.rules[rule+".operations"] += n
	c.instances = append(c.instances, rule+".finite-arithmetic @ "+c.where(r.fn))
}

func checkS04(c *Check) {
	for _, name := range lossNames() {
		for _, m := range []string{"Forward", "Backward"} {
			name, m := name, m
			c.scoped(name+"."+m, func() {
				r := c.run(name+"."+m, runOpts{})
				P, Y := r.mat("a1"), r.mat("a2")
				size := r.b.val(intType, "a0.Size", nil)
				valid := And(EqN(P.cols, size), EqN(Y.cols, size), EqN(P.rows, Y.rows))
				r.mustReturn("S04", r.f)
				r.noPanic("S04", nil)
				r.accepted("S04", r.f.With(valid), "equal shapes of the loss's width")
				r.refused("S04", r.f.With(Not(valid)), "the shapes do not match")
				r.unchanged("S04", r.f.With(r.pc), nil)
			})
		}
	}
}
