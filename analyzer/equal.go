package main

// Equality of terms under facts, by normal forms, case distinction on the
// condition atoms, congruence, and clearing of denominators.

import (
	"fmt"
	"math/big"
	"os"
)

type eqCtx struct{ budget int }

// EqualUnder tells whether two terms are equal under the facts.
func EqualUnder(f *Facts, a, b *Term) bool {
	c := &eqCtx{budget: 4000}
	return c.eq(f, a, b, 0)
}

func (c *eqCtx) eq(f *Facts, a, b *Term, d int) bool {
	if a == b {
		return true
	}
	c.budget--
	if c.budget < 0 || d > 40 {
		return false
	}
	if a.op == OTuple && b.op == OTuple && len(a.a) == len(b.a) {
		for i := range a.a {
			if !c.eq(f, a.a[i], b.a[i], d+1) {
				return false
			}
		}
		return true
	}
	if a.op == OSlice && b.op == OSlice {
		return c.eq(f, a.a[0], b.a[0], d+1) && c.eq(f, a.a[1], b.a[1], d+1) && c.eq(f, a.a[2], b.a[2], d+1)
	}
	if v := topAtom(a, b); v != nil {
		switch f.Decide(v) {
		case 1:
			return c.eq(f, cofTop(a, v, true), cofTop(b, v, true), d)
		case -1:
			return c.eq(f, cofTop(a, v, false), cofTop(b, v, false), d)
		}
		f1 := f.WithLit(v, true)
		if !f1.Contradictory() && !c.eq(f1, cofTop(a, v, true), cofTop(b, v, true), d+1) {
			return false
		}
		f0 := f.WithLit(v, false)
		if !f0.Contradictory() && !c.eq(f0, cofTop(a, v, false), cofTop(b, v, false), d+1) {
			return false
		}
		return true
	}
	if isNumTerm(a) && isNumTerm(b) {
		r := false
		under(f, func() { r = c.zero(f, Sub(a, b), d) })
		if !r {
			f.flatten()
			if len(f.univ) > 0 {
				e := EqN(a, b)
				r = f.Holds(e)
				if !r && d < 40 {
					if s := f.openInstance(e); s != nil {
						f1, f0 := f.With(s), f.With(Not(s))
						if a1, b1 := f1.Simp(a), f1.Simp(b); f1.Contradictory() || c.eq(f1, a1, b1, d+20) {
							a0, b0 := f0.Simp(a), f0.Simp(b)
							r = f0.Contradictory() || c.eq(f0, a0, b0, d+20)
						}
					}
				}
			}
		}
		return r
	}
	if isBoolTerm(a) || isBoolTerm(b) {
		// distinct constants: only fine if the facts are contradictory
		return f.Contradictory()
	}
	return c.eqAtom(f, a, b, d) || f.Contradictory()
}

// eqAtom compares two atoms or structured leaves of the same kind.
func (c *eqCtx) eqAtom(f *Facts, a, b *Term, d int) bool {
	if a == b {
		return true
	}
	c.budget--
	if c.budget < 0 || d > 40 {
		return false
	}
	if a.op != b.op || a.name != b.name || len(a.a) != len(b.a) || a.x != b.x {
		return false
	}
	switch a.op {
	case OTrue, OFalse, OSym, OBV, OPoly, OIte, OStr, ONil:
		return false
	case OSum:
		if a.n != b.n {
			return false
		}
		va, ha, ba := openSum(a)
		vb, hb, bb := openSum(b)
		for _, p := range permutations(a.n) {
			s := newSub()
			for i, j := range p {
				s.set(vb[j], va[i])
			}
			ok := true
			for i, j := range p {
				if !c.eq(f, ha[i], s.Do(hb[j]), d+1) {
					ok = false
				}
			}
			if !ok {
				continue
			}
			g := f
			for i := range va {
				g = g.With(Le(Zero, va[i]), Lt(va[i], ha[i]))
			}
			if c.eq(g, ba, s.Do(bb), d+1) {
				return true
			}
		}
		return false
	case OExists, OFirst, OProd:
		if !c.eq(f, a.a[0], b.a[0], d+1) {
			return false
		}
		va, ba := openBody(a, a.a[1])
		vb, bb := openBody(b, b.a[1])
		bb = Subst1(bb, vb, va)
		return c.eq(f.With(Le(Zero, va), Lt(va, a.a[0])), ba, bb, d+1)
	case OMaxF, OMinF, OArgMax, OArgMin:
		n := len(a.a) - 1
		for i := 0; i < n; i++ {
			if !c.eq(f, a.a[i], b.a[i], d+1) {
				return false
			}
		}
		va, ba := openBody(a, a.a[n])
		vb, bb := openBody(b, b.a[n])
		bb = Subst1(bb, vb, va)
		return c.eq(f.With(Le(a.a[0], va), Lt(va, a.a[1])), ba, bb, d+1)
	case OFold:
		return false
	case OPtr:
		if len(a.ints) != len(b.ints) {
			return false
		}
		for i := range a.ints {
			if a.ints[i] != b.ints[i] {
				return false
			}
		}
	case OWrap:
		if a.n != b.n {
			return false
		}
	}
	for i := range a.a {
		if !c.eq(f, a.a[i], b.a[i], d+1) {
			return false
		}
	}
	return true
}

func polyAtoms(p *Term) []*Term {
	seen := map[int]bool{}
	var r []*Term
	for _, m := range p.p {
		for _, f := range m.f {
			if !seen[f.t.id] {
				seen[f.t.id] = true
				r = append(r, f.t)
			}
		}
	}
	return r
}

// replaceAtom replaces an atom everywhere.
func replaceAtom(t, from, to *Term) *Term {
	s := newSub()
	s.m[from.id] = to
	for _, v := range from.vars {
		s.addID(int(v))
	}
	if len(from.vars) == 0 {
		return t
	}
	return s.Do(t)
}

// zero tells whether a numeric term vanishes under the facts.
func (c *eqCtx) zero(f *Facts, p *Term, d int) bool {
	c.budget--
	if c.budget < 0 || d > 40 {
		return false
	}
	if p.op != OPoly {
		return c.eq(f, p, Zero, d+1)
	}
	if len(p.p) == 0 {
		return true
	}
	// equalities known on this path
	f.flatten()
	for _, e := range f.eqs {
		from, to := pickEq(e)
		if from == nil {
			continue
		}
		q := replaceAtom(p, from, to)
		if q != p {
			if q.op == OPoly && len(q.p) == 0 {
				return true
			}
			// continue with the replaced form and without this equality
			if c.zero(f.without(e), q, d+1) {
				return true
			}
			break
		}
	}
	// linear reasoning
	if p.isInt || allPlain(p) {
		le, lt := false, true
		_ = le
		if f.infeasible(p, &lt) {
			if f.infeasible(Neg(p), &lt) {
				return true
			}
		}
	}
	// congruence between atoms
	at := polyAtoms(p)
	for i := range at {
		for j := i + 1; j < len(at); j++ {
			if simpleAtom(at[i]) || at[i].op != at[j].op {
				continue
			}
			if at[i].op == OInvB {
				continue
			}
			if c.eqAtom(f, at[i], at[j], d+1) {
				q := replaceAtom(p, at[j], num(at[i]))
				if q != p {
					return c.zero(f, q, d+1)
				}
			}
		}
	}
	// conditions inside sums that the facts decide
	if q := c.combineSums(f, p, d); q != nil && q != p {
		return c.zero(f, q, d+1)
	}
	// denominators
	if q := clearDenoms(p); q != p {
		return c.zero(f, q, d+1)
	}
	return f.Contradictory()
}

func allPlain(p *Term) bool {
	for _, a := range polyAtoms(p) {
		if !simpleAtom(a) {
			return false
		}
	}
	return true
}

func simpleAtom(t *Term) bool {
	switch t.op {
	case OSym, OBV:
		return true
	case OApp:
		// arguments may be equal under the facts
		for _, a := range t.a[1:] {
			if !a.isConst() {
				return false
			}
		}
		return true
	}
	return false
}

// pickEq picks an atom to eliminate with the equality e == 0.
func pickEq(e *Term) (*Term, *Term) {
	var best *Term
	var bc *big.Rat
	for _, m := range e.p {
		if len(m.f) != 1 || m.f[0].e != 1 {
			continue
		}
		t := m.f[0].t
		if t.op != OSym && t.op != OApp && t.op != OTrunc && t.op != OIdiv {
			continue
		}
		if e.isInt && new(big.Rat).Abs(m.c).Cmp(ratOne) != 0 {
			continue
		}
		occ := 0
		for _, m2 := range e.p {
			for _, x := range m2.f {
				if x.t == t || containsTerm(x.t, t) {
					occ++
				}
			}
		}
		if occ != 1 {
			continue
		}
		if best == nil || rankEq(t) > rankEq(best) || (rankEq(t) == rankEq(best) && t.id > best.id) {
			best, bc = t, m.c
		}
	}
	if best == nil {
		return nil, nil
	}
	r := Zero
	for _, m := range e.p {
		if len(m.f) == 1 && m.f[0].t == best {
			continue
		}
		r = leafAdd(r, mkPoly([]mono{m}))
	}
	return best, leafScale(r, new(big.Rat).Neg(new(big.Rat).Inv(bc)))
}

func rankEq(t *Term) int {
	switch t.op {
	case OTrunc, OIdiv:
		return 3
	case OApp:
		return 2
	}
	return 1
}

func containsTerm(t, x *Term) bool {
	if t == x {
		return true
	}
	for _, v := range x.vars {
		i := false
		for _, w := range t.vars {
			if w == v {
				i = true
			}
		}
		if !i {
			return false
		}
	}
	found := false
	seen := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if found || seen[t.id] {
			return
		}
		seen[t.id] = true
		if t == x {
			found = true
			return
		}
		for _, a := range t.a {
			rec(a)
		}
		for _, m := range t.p {
			for _, q := range m.f {
				rec(q.t)
			}
		}
	}
	rec(t)
	return found
}

// without drops an equality (already applied) from the facts.
func (f *Facts) without(e *Term) *Facts {
	f.flatten()
	g := &Facts{flatOK: true}
	g.flat, g.strict, g.neqs, g.univ, g.allc = f.flat, f.strict, f.neqs, f.univ, f.allc
	for _, x := range f.eqs {
		if x != e {
			g.eqs = append(g.eqs, x)
		}
	}
	// keep the eliminated equality as two inequalities
	g.flat = append(append([]*Term{}, g.flat...), e, Neg(e))
	g.strict = append(append([]bool{}, g.strict...), false, false)
	return g
}

// combineSums merges sums over the same ranges and drops them when the merged
// summand vanishes.
func (c *eqCtx) combineSums(f *Facts, p *Term, d int) *Term {
	type item struct {
		m    mono
		s    *Term
		rest *Term
	}
	groups := map[string][]item{}
	var order []string
	var others []mono
	for _, m := range p.p {
		var s *Term
		var rest []fac
		for _, x := range m.f {
			if s == nil && x.t.op == OSum && x.e == 1 {
				s = x.t
				continue
			}
			rest = append(rest, x)
		}
		if s == nil {
			others = append(others, m)
			continue
		}
		k := ""
		for i := 0; i < s.n; i++ {
			k += itoa(s.a[i].id) + ","
			if s.a[i].h > 0 {
				k += "!"
			}
		}
		if len(groups[k]) == 0 {
			order = append(order, k)
		}
		groups[k] = append(groups[k], item{m, s, mkPoly([]mono{{m.c, rest}})})
	}
	if len(order) == 0 {
		return nil
	}
	out := mkPoly(others)
	changed := false
	for _, k := range order {
		g := groups[k]
		var vars, his []*Term
		total := Zero
		seen := map[int]bool{}
		for i, it := range g {
			v, h, b := openSum(it.s)
			if i == 0 {
				vars, his = v, h
				shapes(b, seen)
			} else {
				b = align(b, v, vars, his, seen)
			}
			total = Add(total, Mul(it.rest, b))
		}
		ff := f
		for i := range vars {
			ff = ff.With(Le(Zero, vars[i]), Lt(vars[i], his[i]))
		}
		// simplify the summand under the facts
		simp := ff.Simp(total)
		if os.Getenv("NNEQ") != "" {
			fmt.Println("SUMS", d, c.budget, simp)
		}
		if simp == Zero || c.eq(ff, simp, Zero, d+1) {
			changed = true
			continue
		}
		if simp != total {
			n := SumN(vars, his, simp)
			orig := Zero
			for _, it := range g {
				orig = Add(orig, Mul(it.rest, num(it.s)))
			}
			if n != orig {
				out = Add(out, n)
				changed = true
				continue
			}
		}
		for _, it := range g {
			out = Add(out, mkPoly([]mono{it.m}))
		}
	}
	if !changed {
		// sums whose bounds differ: split the longer one
		if q := c.splitSums(f, p); q != nil {
			return q
		}
		return nil
	}
	return out
}

// shapes collects the applications inside a term.
func shapes(t *Term, out map[int]bool) {
	seen := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == OApp || t.op == OBApp {
			out[t.id] = true
		}
		for _, a := range t.a {
			rec(a)
		}
		for _, m := range t.p {
			for _, x := range m.f {
				rec(x.t)
			}
		}
	}
	rec(t)
}

// align renames the summation variables of a summand (reordering them and
// reversing their ranges) so that it shares most with the summands seen.
func align(b *Term, v, vars, his []*Term, seen map[int]bool) *Term {
	k := len(v)
	plain := true
	for _, h := range his {
		plain = plain && !dependsOn(h, vars)
	}
	var best *Term
	score := -1
	perms := [][]int{make([]int, k)}
	for i := range perms[0] {
		perms[0][i] = i
	}
	flips := 1
	if plain {
		perms = permutations(k)
		if k <= 2 {
			flips = 1 << uint(k)
		}
	}
	for _, p := range perms {
		ok := true
		for j := range v {
			ok = ok && his[j] == his[p[j]]
		}
		if !ok {
			continue
		}
		for f := 0; f < flips; f++ {
			s := newSub()
			for j := range v {
				x := vars[p[j]]
				if f&(1<<uint(j)) != 0 {
					x = Sub(Sub(his[j], One), x)
				}
				s.set(v[j], x)
			}
			nb := s.Do(b)
			mine := map[int]bool{}
			shapes(nb, mine)
			n := 0
			for id := range mine {
				if seen[id] {
					n++
				}
			}
			if n > score {
				best, score = nb, n
			}
		}
	}
	shapes(best, seen)
	return best
}

// splitSums rewrites a sum up to n as one up to m plus the rest, when another
// sum ends at m.
func (c *eqCtx) splitSums(f *Facts, p *Term) *Term {
	var sums []*Term
	for _, a := range polyAtoms(p) {
		if a.op == OSum && a.n == 1 {
			sums = append(sums, a)
		}
	}
	if len(sums) > 6 {
		return nil
	}
	for _, s := range sums {
		for _, t := range sums {
			if s == t || s.a[0] == t.a[0] {
				continue
			}
			diff := Sub(s.a[0], t.a[0])
			if !f.Holds(Lt(Zero, diff)) || !f.Holds(Le(Zero, t.a[0])) {
				continue
			}
			if k, ok := diff.constInt(); !ok && len(sums) < 3 || ok && k > 8 {
				continue
			}
			v, _, b := openSum(s)
			r := Add(SumN(v, []*Term{t.a[0]}, b), SumN(v, []*Term{diff}, Subst1(b, v[0], Add(v[0], t.a[0]))))
			return replaceAtom(p, s, r)
		}
	}
	return nil
}

// clearDenoms multiplies a polynomial with its denominators (taken to be
// non-zero).
func clearDenoms(p *Term) *Term {
	min := map[*Term]int{}
	var order []*Term
	for _, m := range p.p {
		for _, x := range m.f {
			if x.e < 0 {
				if _, ok := min[x.t]; !ok {
					order = append(order, x.t)
				}
				if x.e < min[x.t] {
					min[x.t] = x.e
				}
			}
		}
	}
	if len(order) == 0 {
		return p
	}
	out := Zero
	for _, m := range p.p {
		exp := map[*Term]int{}
		var f []fac
		for _, x := range m.f {
			if _, ok := min[x.t]; ok {
				exp[x.t] = x.e
			} else {
				f = append(f, x)
			}
		}
		r := mkPoly([]mono{{m.c, f}})
		for _, t := range order {
			e := exp[t] - min[t]
			if e == 0 {
				continue
			}
			base := num(t)
			if t.op == OInvB {
				base = t.a[0]
			}
			r = Mul(r, powInt(base, e))
		}
		out = Add(out, r)
	}
	return out
}
