package main

// Binding terms (sums, maxima, existential conditions, folds) and substitution.

import (
	"math/big"
	"strings"
)

func bv(n int, isInt bool) *Term { return mk(Term{op: OBV, n: n, isInt: isInt}) }

// ---------- substitution ----------

type Subst struct {
	m    map[int]*Term               // symbol or bound variable -> value
	fn   map[int]func([]*Term) *Term // function symbol -> definition
	ids  []int32                     // sorted ids of the symbols above
	bvLo int                         // smallest bound-variable height replaced (0: none)
	memo map[int]*Term
}

func newSub() *Subst {
	return &Subst{m: map[int]*Term{}, fn: map[int]func([]*Term) *Term{}, memo: map[int]*Term{}}
}

func (s *Subst) addID(id int) {
	for i, x := range s.ids {
		if int(x) == id {
			return
		}
		if int(x) > id {
			s.ids = append(s.ids[:i], append([]int32{int32(id)}, s.ids[i:]...)...)
			return
		}
	}
	s.ids = append(s.ids, int32(id))
}

func (s *Subst) set(v, val *Term) *Subst {
	if v.op == OPoly {
		v = v.asAtom()
	}
	s.m[v.id] = val
	if v.op == OBV {
		if s.bvLo == 0 || v.n < s.bvLo {
			s.bvLo = v.n
		}
	} else if v.op == OSym {
		s.addID(v.id)
	} else {
		for _, x := range v.vars {
			s.addID(int(x))
		}
	}
	return s
}

func (s *Subst) setFn(f *Term, def func([]*Term) *Term) *Subst {
	s.fn[f.id] = def
	s.addID(f.id)
	return s
}

// Subst1 replaces one symbol.
func Subst1(t, v, val *Term) *Term { return newSub().set(v, val).Do(t) }

func (s *Subst) affects(t *Term) bool {
	return t.hasAnyVar(s.ids) || (s.bvLo > 0 && t.h >= s.bvLo)
}

func (s *Subst) all(ts []*Term) []*Term {
	out := make([]*Term, len(ts))
	for i, t := range ts {
		out[i] = s.Do(t)
	}
	return out
}

// Do applies the substitution.
func (s *Subst) Do(t *Term) *Term {
	if !s.affects(t) {
		return t
	}
	if r, ok := s.memo[t.id]; ok {
		return r
	}
	r := s.do(t)
	s.memo[t.id] = r
	return r
}

func (s *Subst) do(t *Term) *Term {
	if v, ok := s.m[t.id]; ok {
		return v
	}
	switch t.op {
	case OSym, OBV:
		return t
	case OIte:
		return Ite(s.Do(t.a[0]), s.Do(t.a[1]), s.Do(t.a[2]))
	case OPoly:
		var keep []mono
		r := Zero
		for _, m := range t.p {
			touched := false
			for _, f := range m.f {
				if s.affects(f.t) || f.t.op == OInd {
					touched = true
					break
				}
			}
			if !touched {
				keep = append(keep, m)
				continue
			}
			prod := numRat(m.c)
			for _, f := range m.f {
				var v *Term
				if f.t.op == OInd {
					prod = Ite(s.Do(f.t.a[0]), prod, Zero)
					continue
				}
				if f.t.op == OInvB {
					v = powInt(Inv(s.Do(f.t.a[0])), -f.e)
				} else {
					v = powInt(numOf(s.Do(f.t)), f.e)
				}
				prod = Mul(prod, v)
			}
			r = Add(r, prod)
		}
		if len(keep) > 0 {
			r = Add(mkPoly(keep), r)
		}
		return r
	case OApp:
		if def, ok := s.fn[t.a[0].id]; ok {
			return def(s.all(t.a[1:]))
		}
		return App(t.a[0], s.all(t.a[1:])...)
	case OBApp:
		if def, ok := s.fn[t.a[0].id]; ok {
			return def(s.all(t.a[1:]))
		}
		return BApp(t.a[0], s.all(t.a[1:])...)
	case OOpaque, OStrT:
		if len(t.a) > 0 && t.a[0].op == OSym {
			if def, ok := s.fn[t.a[0].id]; ok {
				return def(s.all(t.a[1:]))
			}
			a := append([]*Term{t.a[0]}, s.all(t.a[1:])...)
			return rebuild(t, a)
		}
	case OSum:
		vars, his, body := openSum(t)
		h2 := make([]*Term, len(his))
		for i := range his {
			h2[i] = s.Do(his[i])
		}
		return SumN(vars, h2, s.Do(body))
	case OMaxF, OMinF:
		v, body := openBody(t, t.a[len(t.a)-1])
		var init *Term
		if len(t.a) == 4 {
			init = s.Do(t.a[3-1])
		}
		return maxFold(t.op, init, s.Do(t.a[0]), s.Do(t.a[1]), v, s.Do(body))
	case OArgMax, OArgMin:
		v, body := openBody(t, t.a[len(t.a)-1])
		return argFold(t.op, t.name, s.Do(t.a[0]), s.Do(t.a[1]), v, s.Do(body))
	case OExists:
		v, body := openBody(t, t.a[1])
		return Exists(v, s.Do(t.a[0]), s.Do(body))
	case OFirst:
		v, body := openBody(t, t.a[1])
		return First(v, s.Do(t.a[0]), s.Do(body))
	case OProd:
		v, body := openBody(t, t.a[1])
		return ProdF(v, s.Do(t.a[0]), s.Do(body))
	case OFold:
		vars, tu := openFold(t)
		return foldTerm(t.n, s.Do(t.a[0]), s.Do(t.a[1]), vars, s.Do(tu))
	}
	return rebuild(t, s.all(t.a))
}

// rebuild applies a term's constructor to new arguments (non-binding terms).
func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case OInvB:
		return a[0]
	case OExp:
		return Exp(a[0])
	case OLog:
		return Log(a[0])
	case OSqrt:
		return Sqrt(a[0])
	case OPow:
		return Pow(a[0], a[1])
	case OTrunc:
		return Trunc(a[0])
	case OFloor:
		return Floor(a[0])
	case OIdiv:
		return Idiv(a[0], a[1])
	case OWrap:
		return Wrap(t.n, a[0])
	case OInd:
		return Ite(a[0], One, Zero)
	case OLt0:
		return Lt(a[0], Zero)
	case OEq0:
		return EqN(a[0], Zero)
	case OIsNil:
		return IsNil(a[0])
	case OStrEq, OSameV:
		return EqV(a[0], a[1])
	case OTypeIs:
		return TypeIsT(a[0], t.x)
	case OTuple:
		return Tuple(a...)
	case OSlice:
		return lift([]*Term{a[0]}, func(x []*Term) *Term { return Slice(x[0], a[1], a[2]) })
	case OPtr:
		return lift(a, func(x []*Term) *Term {
			if x[0] == Nil {
				return Nil
			}
			return mk(Term{op: OPtr, ints: t.ints, a: x})
		})
	case ORef:
		return lift(a, func(x []*Term) *Term { return mk(Term{op: ORef, x: t.x, a: x}) })
	case OIface:
		return lift(a, func(x []*Term) *Term { return mk(Term{op: OIface, x: t.x, a: x}) })
	case OFunc:
		return mk(Term{op: OFunc, x: t.x, name: t.name, a: a})
	case OStrT:
		return StrT(t.name, a...)
	case OOpaque:
		return Opaque(t.name, a...)
	case OMapV:
		return lift(a, func(x []*Term) *Term { return mk(Term{op: OMapV, a: x, name: t.name}) })
	}
	panic(undecided{"internal: rebuild of " + t.String()})
}

func TypeIsT(v *Term, ty interface{}) *Term {
	return lift([]*Term{v}, func(x []*Term) *Term {
		if x[0].op == OIface {
			return boolT(x[0].x == ty)
		}
		if x[0] == Nil {
			return False
		}
		return boolOf(mk(Term{op: OTypeIs, a: []*Term{x[0]}, x: ty}))
	})
}

// Wrap is a conversion to an n-bit integer (negative n: signed).
func Wrap(n int, a *Term) *Term {
	return lift([]*Term{numOf(a)}, func(x []*Term) *Term {
		p := x[0]
		lo, hi := wrapRange(n)
		if p.isConst() && p.constVal().IsInt() {
			v := new(big.Int).Set(p.constVal().Num())
			mod := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
			v.Sub(v, lo)
			v.Mod(v, mod)
			v.Add(v, lo)
			return numRat(new(big.Rat).SetInt(v))
		}
		if at := p.asAtom(); at != nil && at.op == OWrap {
			l2, h2 := wrapRange(at.n)
			if l2.Cmp(lo) >= 0 && h2.Cmp(hi) <= 0 {
				return p
			}
		}
		if at := p.asAtom(); at != nil && p.isInt {
			l2, h2 := staticBounds(at)
			if l2 != nil && h2 != nil && l2.Cmp(new(big.Rat).SetInt(lo)) >= 0 && h2.Cmp(new(big.Rat).SetInt(hi)) <= 0 {
				return p
			}
		}
		return num(mk(Term{op: OWrap, n: n, a: []*Term{p}, isInt: true}))
	})
}

// staticBounds are the constant bounds of an unknown.
func staticBounds(at *Term) (lo, hi *big.Rat) {
	var b bound
	var args []*Term
	switch at.op {
	case OSym:
		b = bounds[at.id]
	case OApp:
		b = bounds[at.a[0].id]
		args = at.a[1:]
	default:
		return nil, nil
	}
	if b.lo != nil {
		if l := b.lo(args); l != nil && l.isConst() {
			lo = l.constVal()
		}
	}
	if b.hi != nil {
		if h := b.hi(args); h != nil && h.isConst() {
			hi = h.constVal()
		}
	}
	return
}

func wrapRange(n int) (lo, hi *big.Int) {
	if n < 0 {
		b := uint(-n - 1)
		hi = new(big.Int).Lsh(big.NewInt(1), b)
		lo = new(big.Int).Neg(hi)
		hi = new(big.Int).Sub(hi, big.NewInt(1))
		return
	}
	return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(n)), big.NewInt(1))
}

// ---------- binders ----------

// closeOver replaces the variables by bound variables above every height in
// the terms, returning the closed terms and the top height.
func closeOver(vars []*Term, ts ...*Term) ([]*Term, int) {
	h := 0
	for _, t := range ts {
		if t.h > h {
			h = t.h
		}
	}
	s := newSub()
	for i, v := range vars {
		at := v
		if v.op == OPoly {
			at = v.asAtom()
		}
		s.set(at, num(bv(h+1+i, at.isInt)))
	}
	out := make([]*Term, len(ts))
	for i, t := range ts {
		out[i] = s.doInner(t)
	}
	return out, h + len(vars)
}

// doInner keeps indicator factors of a polynomial as factors.
func (s *Subst) doInner(t *Term) *Term {
	if t.op != OPoly {
		return s.Do(t)
	}
	r := Zero
	for _, m := range t.p {
		prod := mkPoly([]mono{{m.c, nil}})
		for _, f := range m.f {
			if f.t.op == OInd {
				c := s.Do(f.t.a[0])
				prod = Mul(prod, indOf(c))
				continue
			}
			if f.t.op == OInvB {
				prod = Mul(prod, powInt(Inv(s.Do(f.t.a[0])), -f.e))
				continue
			}
			prod = Mul(prod, powInt(numOf(s.Do(f.t)), f.e))
		}
		r = Add(r, toInd(prod))
	}
	return r
}

// indOf is a boolean diagram as a polynomial over indicators.
func indOf(c *Term) *Term {
	switch {
	case c == True:
		return One
	case c == False:
		return Zero
	case c.op == OIte:
		i := num(mk(Term{op: OInd, a: []*Term{c.a[0]}}))
		return Add(leafMul(i, indOf(c.a[1])), leafMul(Sub(One, i), indOf(c.a[2])))
	}
	return num(mk(Term{op: OInd, a: []*Term{c}}))
}

// toInd turns a numeric diagram into a polynomial over indicators.
func toInd(t *Term) *Term {
	memo := map[int]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t.op != OIte {
			return numOf(t)
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		i := num(mk(Term{op: OInd, a: []*Term{t.a[0]}}))
		a, b := rec(t.a[1]), rec(t.a[2])
		r := leafAdd(b, leafMul(i, leafAdd(a, leafScale(b, big.NewRat(-1, 1)))))
		memo[t.id] = r
		return r
	}
	return rec(t)
}

func openBody(t, body *Term) (*Term, *Term) {
	top := t.ints[0]
	v := fresh("k", true)
	var out *Term
	under(noFacts, func() { out = newSub().set(bv(top, true), num(v)).Do(body) })
	return num(v), out
}

var noFacts = &Facts{}

func openSum(t *Term) (vars, his []*Term, body *Term) {
	k := t.n
	top := t.ints[0]
	s := newSub()
	for i := 0; i < k; i++ {
		v := num(fresh("k", true))
		vars = append(vars, v)
		s.set(bv(top-k+1+i, true), v)
	}
	for i := 0; i < k; i++ {
		his = append(his, s.Do(t.a[i]))
	}
	body = s.Do(t.a[k])
	return
}

// linCoef writes p as c*v + rest with v not in rest; ok is false when v occurs
// in another way.
func linCoef(p, v *Term) (c *big.Rat, rest *Term, ok bool) {
	at := v
	if v.op == OPoly {
		at = v.asAtom()
	}
	var r []mono
	for _, m := range p.p {
		isV := false
		for _, f := range m.f {
			if f.t == at {
				if len(m.f) != 1 || f.e != 1 {
					return nil, nil, false
				}
				isV = true
			} else if f.t.hasVar(at) {
				return nil, nil, false
			}
		}
		if isV {
			c = m.c
		} else {
			r = append(r, m)
		}
	}
	if c == nil {
		return nil, nil, false
	}
	return c, mkPoly(r), true
}

// solveEq solves the condition atom p == 0 for v, if it determines v as an
// integer polynomial.
func solveEq(atom, v *Term) *Term {
	if atom.op != OEq0 || atom.a[0].op != OPoly {
		return nil
	}
	c, rest, ok := linCoef(atom.a[0], v)
	if !ok {
		return nil
	}
	sol := leafScale(rest, new(big.Rat).Neg(new(big.Rat).Inv(c)))
	if !sol.isInt {
		return nil
	}
	return sol
}

// condAtoms lists the condition atoms of a diagram (including those inside
// tuples and slices).
func condAtoms(t *Term) []*Term {
	seen := map[int]bool{}
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		switch t.op {
		case OIte:
			if !seen[-t.a[0].id] {
				seen[-t.a[0].id] = true
				out = append(out, t.a[0])
			}
			rec(t.a[1])
			rec(t.a[2])
		case OTuple:
			for _, a := range t.a {
				rec(a)
			}
		case OSlice:
			rec(t.a[1])
			rec(t.a[2])
		}
	}
	rec(t)
	return out
}

func varAtom(v *Term) *Term {
	if v.op == OPoly {
		return v.asAtom()
	}
	return v
}

func dependsOn(t *Term, vars []*Term) bool {
	for _, v := range vars {
		if t.hasVar(varAtom(v)) {
			return true
		}
	}
	return false
}

// SumR is the sum of body for lo <= v < hi (zero when empty; hi >= lo is
// assumed by callers).
func SumR(v, lo, hi, body *Term) *Term {
	if lo != Zero {
		body = Subst1(body, v, Add(v, lo))
		hi = Sub(hi, lo)
	}
	return SumN([]*Term{v}, []*Term{hi}, body)
}

// SumN is a sum over several variables, each from zero up to its bound.
func SumN(vars, his []*Term, body *Term) *Term {
	body = numOf(body)
	// constant small ranges are expanded
	for i, h := range his {
		if c, ok := h.constInt(); ok && c <= 4 {
			rest := append(append([]*Term{}, vars[:i]...), vars[i+1:]...)
			restH := append(append([]*Term{}, his[:i]...), his[i+1:]...)
			r := Zero
			for k := int64(0); k < c; k++ {
				s := newSub().set(vars[i], numInt(k))
				hh := make([]*Term, len(restH))
				for j := range restH {
					hh[j] = s.Do(restH[j])
				}
				r = Add(r, SumN(rest, hh, s.Do(body)))
			}
			return r
		}
	}
	if len(vars) == 0 {
		return body
	}
	for i, h := range his {
		if h.op == OIte && !dependsOn(h.a[0], vars) {
			h1 := append([]*Term(nil), his...)
			h1[i] = h.a[1]
			h0 := append([]*Term(nil), his...)
			h0[i] = h.a[2]
			return Ite(boolOf(h.a[0]), SumN(vars, h1, body), SumN(vars, h0, body))
		}
	}
	// conditions decided by the ranges
	if body.op == OIte {
		g := ambient
		for i, v := range vars {
			if his[i].op == OPoly {
				g = g.With(Le(Zero, v), Lt(v, his[i]))
			}
		}
		body = numOf(g.Simp(body))
	}
	// conditions not depending on the variables move out
	for _, c := range condAtoms(body) {
		if !dependsOn(c, vars) {
			return Ite(boolOf(c), SumN(vars, his, Cof(body, c, true)), SumN(vars, his, Cof(body, c, false)))
		}
	}
	p := toInd(body)
	r := Zero
	for _, m := range p.p {
		r = Add(r, sumMono(vars, his, m))
	}
	return r
}

func sumMono(vars, his []*Term, m mono) *Term {
	// inner sums join the outer ones
	for i, f := range m.f {
		if f.t.op == OSum && f.e >= 1 && f.e <= 3 && dependsOn(f.t, vars) && len(vars) < 4 {
			iv, ih, ib := openSum(f.t)
			rest := append(append([]fac{}, m.f[:i]...), m.f[i+1:]...)
			if f.e > 1 {
				rest = append(append(append([]fac{}, m.f[:i]...), fac{f.t, f.e - 1}), m.f[i+1:]...)
			}
			prod := Mul(ib, mkIndMono(mono{m.c, rest}))
			return SumN(append(append([]*Term{}, vars...), iv...), append(append([]*Term{}, his...), ih...), prod)
		}
	}
	// an equality with a variable selects one summand
	for _, f := range m.f {
		if f.t.op != OInd || f.t.a[0].op != OEq0 {
			continue
		}
		for vi, v := range vars {
			sol := solveEq(f.t.a[0], v)
			if sol == nil {
				continue
			}
			dep := false
			for j, h := range his {
				if j != vi && h.hasVar(varAtom(v)) {
					dep = true
				}
			}
			if dep && dependsOn(sol, vars) {
				continue
			}
			rest := append(append([]*Term{}, vars[:vi]...), vars[vi+1:]...)
			s := newSub().set(v, sol)
			var restH []*Term
			for j, h := range his {
				if j != vi {
					restH = append(restH, s.Do(h))
				}
			}
			prod := numRat(m.c)
			for _, g := range m.f {
				if g.t == f.t {
					continue
				}
				if g.t.op == OInd {
					prod = Ite(s.Do(g.t.a[0]), prod, Zero)
				} else {
					prod = Mul(prod, s.Do(mkPoly([]mono{{ratOne, []fac{g}}})))
				}
			}
			cond := And(Le(Zero, sol), Lt(sol, his[vi]))
			cond = decideCond(cond, rest, restH)
			return SumN(rest, restH, Ite(cond, prod, Zero))
		}
	}
	// split into connected components
	n := len(vars)
	comp := make([]int, n)
	for i := range comp {
		comp[i] = i
	}
	var find func(i int) int
	find = func(i int) int {
		if comp[i] != i {
			comp[i] = find(comp[i])
		}
		return comp[i]
	}
	depVars := func(t *Term) []int {
		var r []int
		for i, v := range vars {
			if t.hasVar(varAtom(v)) {
				r = append(r, i)
			}
		}
		return r
	}
	union := func(d []int) {
		for i := 1; i < len(d); i++ {
			comp[find(d[i])] = find(d[0])
		}
	}
	for _, f := range m.f {
		union(depVars(f.t))
	}
	for i, h := range his {
		d := depVars(h)
		union(append([]int{i}, d...))
	}
	result := numRat(m.c)
	facsOf := map[int][]fac{}
	for _, f := range m.f {
		d := depVars(f.t)
		if len(d) == 0 {
			if f.t.op == OInd {
				result = Ite(boolOf(f.t.a[0]), result, Zero)
			} else {
				result = Mul(result, mkPoly([]mono{{ratOne, []fac{f}}}))
			}
			continue
		}
		r := find(d[0])
		facsOf[r] = append(facsOf[r], f)
	}
	done := map[int]bool{}
	for i := range vars {
		r := find(i)
		if done[r] {
			continue
		}
		done[r] = true
		var vs, hs []*Term
		for j := range vars {
			if find(j) == r {
				vs = append(vs, vars[j])
				hs = append(hs, his[j])
			}
		}
		fs := facsOf[r]
		if len(fs) == 0 && len(vs) == 1 {
			result = Mul(result, hs[0])
			continue
		}
		result = Mul(result, num(sumAtom(vs, hs, fs)))
	}
	return result
}

// mkIndMono is a monomial with indicator factors as a diagram.
func mkIndMono(m mono) *Term {
	var plain []fac
	var inds []*Term
	for _, f := range m.f {
		if f.t.op == OInd {
			inds = append(inds, f.t.a[0])
		} else {
			plain = append(plain, f)
		}
	}
	r := mkPoly([]mono{{m.c, plain}})
	for _, c := range inds {
		r = Ite(boolOf(c), r, Zero)
	}
	return r
}

// sumAtom builds the canonical atom of a connected sum of a product.
func sumAtom(vars, his []*Term, fs []fac) *Term {
	body := mkPoly([]mono{{ratOne, fs}})
	k := len(vars)
	var best, odd *Term
	try := func(vs, hs []*Term, body *Term) {
		all := append(append([]*Term{}, hs...), body)
		closed, top := closeOver(vs, all...)
		// indicators may simplify when closed; then the body is no monomial
		t := mk(Term{op: OSum, n: k, ints: []int{top}, a: closed})
		if cb := closed[k]; len(cb.p) != 1 || cb.p[0].c.Cmp(ratOne) != 0 {
			if odd == nil {
				odd = t
			}
			return
		}
		if best == nil || t.id < best.id {
			best = t
		}
	}
	perms := permutations(k)
	flips := 1
	if k <= 2 {
		flips = 1 << uint(k)
	}
	for f := 0; f < flips; f++ {
		b := body
		ok := true
		if f != 0 {
			s := newSub()
			for i := 0; i < k; i++ {
				if f&(1<<uint(i)) != 0 {
					if dependsOn(his[i], vars) {
						ok = false
						break
					}
					for j := range his {
						if his[j].hasVar(varAtom(vars[i])) {
							ok = false
						}
					}
					s.set(vars[i], Sub(Sub(his[i], One), vars[i]))
				}
			}
			if !ok {
				continue
			}
			b = s.doInner(body)
			if len(b.p) != 1 || b.p[0].c.Cmp(ratOne) != 0 {
				continue
			}
		}
		for _, p := range perms {
			vs := make([]*Term, k)
			hs := make([]*Term, k)
			for i, j := range p {
				vs[i] = vars[j]
				hs[i] = his[j]
			}
			// bounds may only refer to earlier variables
			valid := true
			for i := range hs {
				for j := i; j < k; j++ {
					if hs[i].hasVar(varAtom(vs[j])) {
						valid = false
					}
				}
			}
			if valid {
				try(vs, hs, b)
			}
		}
	}
	if best == nil {
		best = odd
	}
	if best == nil {
		panic(undecided{"cyclic summation bounds"})
	}
	return best
}

func permutations(n int) [][]int {
	if n == 1 {
		return [][]int{{0}}
	}
	var out [][]int
	var rec func(cur []int, used int)
	rec = func(cur []int, used int) {
		if len(cur) == n {
			out = append(out, append([]int(nil), cur...))
			return
		}
		for i := 0; i < n; i++ {
			if used&(1<<uint(i)) == 0 {
				rec(append(cur, i), used|1<<uint(i))
			}
		}
	}
	rec(nil, 0)
	return out
}

// Exists is the condition that body holds for some 0 <= v < hi.
func Exists(v, hi, body *Term) *Term {
	body = boolOf(body)
	if body == False {
		return False
	}
	if c, ok := hi.constInt(); ok && c <= 4 {
		r := False
		for k := int64(0); k < c; k++ {
			r = Or(r, Subst1(body, v, numInt(k)))
		}
		return r
	}
	if d := eachDecided(v, hi, body); d != nil {
		for _, x := range d {
			if x {
				return True
			}
		}
		return False
	}
	if hi.op == OIte {
		return Ite(boolOf(hi.a[0]), Exists(v, hi.a[1], body), Exists(v, hi.a[2], body))
	}
	if body.op == OIte && hi.op == OPoly {
		body = boolOf(ambient.With(Le(Zero, v), Lt(v, hi)).Simp(body))
	}
	if body == False {
		return False
	}
	if body == True {
		return Lt(Zero, hi)
	}
	va := varAtom(v)
	for _, c := range condAtoms(body) {
		if !c.hasVar(va) {
			return Ite(boolOf(c), Exists(v, hi, Cof(body, c, true)), Exists(v, hi, Cof(body, c, false)))
		}
	}
	for _, c := range condAtoms(body) {
		if sol := solveEq(c, v); sol != nil && Cof(body, c, false) == False {
			cond := And(Le(Zero, sol), Lt(sol, hi))
			cond = decideCond(cond, nil, nil)
			return And(cond, Subst1(Cof(body, c, true), v, sol))
		}
	}
	if x := extreme(v, hi, body); x != nil {
		return And(Lt(Zero, hi), Subst1(body, v, x))
	}
	if _, ok := atMaximum(v, hi, body); ok {
		return Lt(Zero, hi)
	}
	if hi.op == OPoly && setsFirstApart(v, body) {
		return Or(And(Lt(Zero, hi), Subst1(body, v, Zero)), Exists(v, Sub(hi, One), Subst1(body, v, Add(v, One))))
	}
	closed, top := closeOver([]*Term{v}, body)
	return boolOf(mk(Term{op: OExists, ints: []int{top}, a: []*Term{hi, closed[0]}}))
}

// setsFirstApart tells whether a condition makes a difference between position
// zero and all others, and decides it there.
func setsFirstApart(v, body *Term) bool {
	if !firstAtom(v, body) {
		return false
	}
	z := Subst1(body, v, Zero)
	return z == True || z == False
}

// atMaximum tells whether the condition is that e is as large as its maximum over
// 0 <= v < hi.
func atMaximum(v, hi, body *Term) (e *Term, ok bool) {
	for _, c := range condAtoms(body) {
		if c.op != OEq0 && c.op != OLt0 || c.a[0].op != OPoly {
			continue
		}
		for _, m := range c.a[0].p {
			if len(m.f) != 1 || m.f[0].e != 1 || m.f[0].t.op != OMaxF {
				continue
			}
			mx := m.f[0].t
			if len(mx.a) != 3 || mx.hasVar(varAtom(v)) || mx.a[0] != Zero || mx.a[1] != hi {
				continue
			}
			w, e := openBody(mx, mx.a[2])
			e = Subst1(e, w, v)
			if body == EqN(e, num(mx)) || body == Le(num(mx), e) {
				return e, true
			}
		}
	}
	return nil, false
}

func firstAtom(v, body *Term) bool {
	eq, lt := EqN(v, Zero), Lt(v, One)
	for _, c := range condAtoms(body) {
		if b := boolOf(c); b == eq || b == lt {
			return true
		}
	}
	return false
}

// eachDecided tells, for a few positions, where a decided condition holds.
func eachDecided(v, hi, body *Term) []bool {
	n, ok := hi.constInt()
	if !ok || n < 0 || n > 16 {
		return nil
	}
	var out []bool
	for k := int64(0); k < n; k++ {
		switch Subst1(body, v, numInt(k)) {
		case True:
			out = append(out, true)
		case False:
			out = append(out, false)
		default:
			return nil
		}
	}
	return out
}

// extreme is the position in 0 <= v < hi at which a linear condition holds if it
// holds at all.
func extreme(v, hi, body *Term) *Term {
	a, pos, ok := litOf(body)
	if !ok || a.op != OLt0 || a.a[0].op != OPoly || hi.op != OPoly || !v.isInt {
		return nil
	}
	for _, m := range hi.p {
		for _, x := range m.f {
			if x.t.op == OSym && strings.HasPrefix(x.t.name, "inf:") {
				return nil
			}
		}
	}
	c, r, ok := coefOf(a.a[0], v)
	if !ok || !c.isConst() || c == Zero || r.hasVar(varAtom(v)) {
		return nil
	}
	if (c.constVal().Sign() > 0) == pos {
		return Zero
	}
	return Sub(hi, One)
}

// First is the least 0 <= v < hi with body.
func First(v, hi, body *Term) *Term {
	body = boolOf(body)
	for k, x := range eachDecided(v, hi, body) {
		if x {
			return numInt(int64(k))
		}
	}
	if hi.op == OIte {
		// the value matters only where there is one
		return Ite(boolOf(hi.a[0]), First(v, hi.a[1], body), First(v, hi.a[2], body))
	}
	if c, ok := hi.constInt(); ok && c <= 0 {
		return Zero
	}
	if body.op == OIte && hi.op == OPoly {
		body = boolOf(ambient.With(Le(Zero, v), Lt(v, hi)).Simp(body))
	}
	for _, c := range condAtoms(body) {
		// only one position is possible
		if sol := solveEq(c, v); sol != nil && Cof(body, c, false) == False && !sol.hasVar(varAtom(v)) {
			return sol
		}
	}
	if body == True || extreme(v, num(sym("?hi", true)), body) == Zero {
		return Zero
	}
	if e, ok := atMaximum(v, hi, body); ok {
		return argFold(OArgMax, "", Zero, hi, v, e)
	}
	if hi.op == OPoly {
		if setsFirstApart(v, body) {
			return Ite(boolOf(Subst1(body, v, Zero)), Zero, Add(One, First(v, Sub(hi, One), Subst1(body, v, Add(v, One)))))
		}
		for _, c := range condAtoms(body) {
			if c.hasVar(varAtom(v)) {
				continue
			}
			x, y := Cof(body, c, true), Cof(body, c, false)
			if firstAtom(v, body) {
				return Ite(boolOf(c), First(v, hi, x), First(v, hi, y))
			}
		}
	}
	closed, top := closeOver([]*Term{v}, body)
	return num(mk(Term{op: OFirst, ints: []int{top}, a: []*Term{hi, closed[0]}, isInt: true}))
}

func ProdF(v, hi, body *Term) *Term {
	if !body.hasVar(varAtom(v)) {
		return Pow(body, hi)
	}
	closed, top := closeOver([]*Term{v}, body)
	return num(mk(Term{op: OProd, ints: []int{top}, a: []*Term{hi, closed[0]}}))
}

// maxFold is the maximum of init (if not nil) and body for lo <= v < hi.
func maxFold(op Op, init, lo, hi, v, body *Term) *Term {
	if op == OMinF {
		if init != nil {
			init = Neg(init)
		}
		return Neg(maxFold(OMaxF, init, lo, hi, v, Neg(body)))
	}
	return lift([]*Term{lo, hi}, func(x []*Term) *Term {
		lo, hi := x[0], x[1]
		if lo != Zero {
			return maxFold(op, init, Zero, Sub(hi, lo), v, Subst1(body, v, Add(v, lo)))
		}
		if init != nil {
			if Subst1(body, v, Sub(lo, One)) == init {
				return maxFold(op, nil, Sub(lo, One), hi, v, body)
			}
			if Subst1(body, v, lo) == init && decideCond(Lt(lo, hi), nil, nil) == True {
				return maxFold(op, nil, lo, hi, v, body)
			}
			if d := decideCond(Lt(lo, hi), nil, nil); d == False {
				return init
			}
		} else {
			d, ok := Sub(hi, lo).constInt()
			if ok && d == 1 {
				return Subst1(body, v, lo)
			}
		}
		isInt := body.isInt
		closed, top := closeOver([]*Term{v}, body)
		a := []*Term{lo, hi, closed[0]}
		if init != nil {
			a = []*Term{lo, hi, init, closed[0]}
		}
		return num(mk(Term{op: op, ints: []int{top}, a: a, isInt: isInt}))
	})
}

// argFold is the first (name "") or last (name "last") lo <= v < hi at which
// body is largest (smallest).
func argFold(op Op, name string, lo, hi, v, body *Term) *Term {
	if op == OArgMin {
		op, body = OArgMax, Neg(body)
	}
	return lift([]*Term{lo, hi}, func(x []*Term) *Term {
		lo, hi := x[0], x[1]
		if lo != Zero {
			return Add(lo, argFold(op, name, Zero, Sub(hi, lo), v, Subst1(body, v, Add(v, lo))))
		}
		if d, ok := Sub(hi, lo).constInt(); ok && d == 1 {
			return lo
		}
		if name == "last" {
			// the first one from the other end
			end := Sub(hi, One)
			return Sub(end, argFold(op, "", Zero, hi, v, Subst1(body, v, Sub(end, v))))
		}
		closed, top := closeOver([]*Term{v}, body)
		return num(mk(Term{op: op, name: name, ints: []int{top}, a: []*Term{lo, hi, closed[0]}, isInt: true}))
	})
}

// foldTerm is component n of the state reached from init after hi steps; vars
// are the step index followed by the state components.
func foldTerm(n int, init, hi *Term, vars []*Term, body *Term) *Term {
	closed, top := closeOver(vars, body)
	isInt := init.a[n].isInt && body.op == OTuple && body.a[n].isInt
	return num(mk(Term{op: OFold, n: n, ints: []int{top}, a: []*Term{init, hi, closed[0]}, isInt: isInt}))
}

func openFold(t *Term) ([]*Term, *Term) {
	k := len(t.a[0].a) + 1
	top := t.ints[0]
	s := newSub()
	var vars []*Term
	for i := 0; i < k; i++ {
		isInt := i == 0
		if i > 0 {
			isInt = findBVInt(t.a[2], top-k+1+i)
		}
		v := num(fresh("k", isInt))
		vars = append(vars, v)
		s.set(bv(top-k+1+i, isInt), v)
	}
	return vars, s.Do(t.a[2])
}

// findBVInt tells whether the bound variable of the given height is an integer.
func findBVInt(t *Term, n int) bool {
	b := bv(n, true)
	seen := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == b {
			return true
		}
		if t.h < n || seen[t.id] {
			return false
		}
		seen[t.id] = true
		for _, a := range t.a {
			if rec(a) {
				return true
			}
		}
		for _, m := range t.p {
			for _, f := range m.f {
				if rec(f.t) {
					return true
				}
			}
		}
		return false
	}
	return rec(t)
}
