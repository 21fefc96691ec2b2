package main

// Facts: what is known on the current path, and a linear-inequality domain
// (Fourier-Motzkin elimination) that decides condition atoms under them.

import (
	"math/big"
	"os"
	"sort"
)

type Facts struct {
	parent *Facts
	conds  []*Term // diagrams known to hold
	memo   map[int]int8
	contra int8
	rw     []rewrite
	// flattened views, built on demand
	flat    []*Term // polynomials q with q <= 0 (integers) or strict (see strict)
	strict  []bool
	eqs     []*Term
	neqs    []*Term
	univ    []*Term // OExists atoms known to be false
	allc    []*Term
	flatOK  bool
	symMemo map[int]*Term
	busy    map[int]bool // quotients whose axioms are being decided
}

var ambient = &Facts{}

// bounds of symbols and function values: lo <= value <= hi (nil: none)
type bound struct{ lo, hi func(args []*Term) *Term }

var bounds = map[int]bound{}

func setLo(f *Term, lo *Term) {
	b := bounds[f.id]
	b.lo = func([]*Term) *Term { return lo }
	bounds[f.id] = b
}
func setHi(f *Term, hi *Term) {
	b := bounds[f.id]
	b.hi = func([]*Term) *Term { return hi }
	bounds[f.id] = b
}

// With adds a condition.
func (f *Facts) With(conds ...*Term) *Facts {
	var cs []*Term
	for _, c := range conds {
		c = boolOf(c)
		if c != True {
			cs = append(cs, c)
		}
	}
	if len(cs) == 0 {
		return f
	}
	return &Facts{parent: f, conds: cs}
}

func (f *Facts) WithLit(a *Term, val bool) *Facts {
	c := boolOf(a)
	if !val {
		c = Not(c)
	}
	return f.With(c)
}

func under(f *Facts, do func()) {
	old := ambient
	ambient = f
	defer func() { ambient = old }()
	do()
}

func (f *Facts) flatten() {
	if f.flatOK {
		return
	}
	f.flatOK = true
	if f.parent != nil {
		f.parent.flatten()
		f.flat = append(f.flat, f.parent.flat...)
		f.strict = append(f.strict, f.parent.strict...)
		f.eqs = append(f.eqs, f.parent.eqs...)
		f.neqs = append(f.neqs, f.parent.neqs...)
		f.univ = append(f.univ, f.parent.univ...)
		f.allc = append(f.allc, f.parent.allc...)
	}
	old := f.allc
	for _, c := range f.conds {
		f.addCond(c)
	}
	f.propagate(old)
	f.orient(len(old))
}

var orienting = 0

// rewrite replaces an integer variable by what an equation says it is.
type rewrite struct{ v, by *Term }

// orient makes replacements out of the new equations and applies them to the
// conditions.
func (f *Facts) orient(from int) {
	if f.parent != nil {
		f.rw = f.parent.rw
	}
	n := len(f.rw)
	have := len(f.eqs)
	start := 0
	if f.parent != nil {
		start = len(f.parent.eqs)
	}
	for _, e := range f.eqs[start:have] {
		p := f.rewritten(e)
		if p.op != OPoly || !p.isInt {
			continue
		}
		var best *Term
		for _, m := range p.p {
			if len(m.f) != 1 || m.f[0].e != 1 || m.f[0].t.op != OSym || !m.c.IsInt() || m.c.Num().CmpAbs(bigOne) != 0 {
				continue
			}
			v := m.f[0].t
			_, r, ok := coefOf(p, num(v))
			if !ok || r.hasVar(v) {
				continue
			}
			if best == nil || v.id > best.id {
				best = v
			}
		}
		if best == nil {
			continue
		}
		c, r, _ := coefOf(p, num(best))
		by := Neg(r)
		if c != One {
			by = r
		}
		f.rw = append(f.rw[:len(f.rw):len(f.rw)], rewrite{num(best), by})
	}
	if len(f.rw) == 0 {
		return
	}
	conds := f.allc
	if len(f.rw) == n {
		conds = f.allc[from:]
	}
	// rewriting may need the facts again
	if orienting > 2 {
		return
	}
	orienting++
	defer func() { orienting-- }()
	for _, c := range conds {
		if x := boolOf(f.rewritten(c)); x != c {
			f.addCond(x)
		}
	}
}

func (f *Facts) rewritten(t *Term) *Term {
	for _, r := range f.rw {
		if t.hasVar(varAtom(r.v)) {
			t = Subst1(t, r.v, r.by)
		}
	}
	return t
}

var bigOne = big.NewInt(1)

// litOf recognises a condition that is an atom or its negation.
func litOf(c *Term) (atom *Term, val, ok bool) {
	if c.op != OIte || c.a[1].op == OIte || c.a[2].op == OIte {
		return nil, false, false
	}
	return c.a[0], c.a[1] == True, true
}

// propagate reduces the earlier conditions by the literals that are new, and
// the new conditions by all literals.
func (f *Facts) propagate(old []*Term) {
	for round := 0; round < 3; round++ {
		lits := map[*Term]bool{}
		var eqs []*Term
		newLit := false
		for i, c := range f.allc {
			if a, v, ok := litOf(c); ok {
				lits[a] = v
				if v && a.op == OEq0 && a.a[0].op == OPoly && a.a[0].isInt {
					eqs = append(eqs, a.a[0])
				}
				if i >= len(old) {
					newLit = true
				}
			}
		}
		if len(lits) == 0 {
			return
		}
		from := len(old)
		if newLit {
			from = 0
		}
		old = f.allc
		for _, c := range old[from:] {
			if _, _, ok := litOf(c); ok || c.op != OIte {
				continue
			}
			r := c
			for _, a := range condAtoms(c) {
				v, ok := lits[a]
				if !ok && a.op == OEq0 {
					for _, e := range eqs {
						if k, is := Sub(a.a[0], e).constInt(); is && k != 0 {
							v, ok = false, true
						} else if k, is := Add(a.a[0], e).constInt(); is && k != 0 {
							v, ok = false, true
						}
					}
				}
				if ok {
					r = boolOf(Cof(r, a, v))
				}
			}
			if r != c && r != True {
				f.addCond(r)
			}
		}
		if len(f.allc) == len(old) {
			return
		}
	}
}

func (f *Facts) addCond(c *Term) {
	if c == True {
		return
	}
	f.allc = append(f.allc, c)
	as := condAtoms(c)
	for _, a := range as {
		// p < 0 or p == 0
		if a.op != OLt0 || Cof(c, a, true) == False || len(as) < 2 {
			continue
		}
		rest := Cof(c, a, false)
		if rest == False {
			continue
		}
		for _, e := range as {
			if e.op == OEq0 && (e.a[0] == a.a[0] || e.a[0] == Neg(a.a[0])) && Cof(rest, e, false) == False && a.a[0].op == OPoly {
				f.flat = append(f.flat, a.a[0])
				f.strict = append(f.strict, false)
			}
		}
	}
	for _, a := range as {
		if Cof(c, a, false) == False {
			f.addLit(a, true)
		} else if Cof(c, a, true) == False {
			f.addLit(a, false)
		}
	}
}

func (f *Facts) addLit(a *Term, val bool) {
	switch a.op {
	case OLt0:
		p := a.a[0]
		if p.op != OPoly {
			return
		}
		if val {
			if p.isInt {
				f.flat = append(f.flat, leafAdd(p, One))
				f.strict = append(f.strict, false)
			} else {
				f.flat = append(f.flat, p)
				f.strict = append(f.strict, true)
			}
		} else {
			f.flat = append(f.flat, Neg(p))
			f.strict = append(f.strict, false)
		}
	case OEq0:
		if a.a[0].op != OPoly {
			return
		}
		if val {
			f.eqs = append(f.eqs, a.a[0])
		} else {
			f.neqs = append(f.neqs, a.a[0])
		}
	case OExists:
		if !val {
			f.univ = append(f.univ, a)
		}
	}
}

// Contradictory reports whether the facts are known to be unsatisfiable.
func (f *Facts) Contradictory() bool {
	f.flatten()
	lits := map[*Term]bool{}
	for _, c := range f.allc {
		if c == False {
			return true
		}
		if a, v, ok := litOf(c); ok {
			if o, has := lits[a]; has && o != v {
				return true
			}
			lits[a] = v
		}
	}
	if f.contra == 0 {
		f.contra = 1
		if f.infeasible(nil, nil) || f.conflict() {
			f.contra = 2
		}
	}
	return f.contra == 2
}

// Refuted is Contradictory with the universal facts instantiated at the terms of
// the known conditions.
func (f *Facts) Refuted() bool { return f.refuted(1) }

func (f *Facts) refuted(splits int) bool {
	g := f
	skolem := map[*Term]bool{}
	for round := 0; round < 3; round++ {
		if g.Contradictory() {
			return true
		}
		// witnesses of what is known to exist
		for _, c := range g.allc {
			if a, val, ok := litOf(c); ok && val && a.op == OExists && !skolem[a] && len(skolem) < 3 {
				skolem[a] = true
				v, body := openBody(a, a.a[1])
				w := num(fresh("?w", true))
				g = g.With(Le(Zero, w), Lt(w, a.a[0]), Subst1(body, v, w))
			}
		}
		if g.Contradictory() {
			return true
		}
		if len(g.univ) == 0 {
			return false
		}
		var conds []*Term
		have := map[*Term]bool{}
		for _, c := range g.allc {
			have[c] = true
		}
		done := map[*Term]bool{}
		for _, c := range g.allc {
			for _, a := range condAtoms(c) {
				if a.op == OExists || done[a] || len(done) > 40 {
					continue
				}
				done[a] = true
				if h := g.instantiate(a, 0); h != nil {
					for _, x := range h.conds {
						if !have[x] {
							have[x] = true
							conds = append(conds, x)
						}
					}
				}
			}
		}
		if len(conds) == 0 {
			break
		}
		g = g.With(conds...)
	}
	if splits == 0 {
		return false
	}
	// a universal fact that starts just after a position that is spoken of
	for _, c := range g.allc {
		for _, a := range condAtoms(c) {
			if a.op == OExists {
				continue
			}
			if x := g.edge(a); x != nil {
				return g.With(x).refuted(splits-1) && g.With(Not(x)).refuted(splits-1)
			}
		}
	}
	return false
}

// refutedAt is Refuted for a condition that was just added, where the universal
// facts say something about its terms.
func (f *Facts) refutedAt(b *Term) bool {
	g := f
	done := map[*Term]bool{}
	have := map[*Term]bool{}
	front := []*Term{b}
	for round := 0; round < 2; round++ {
		if g.Contradictory() {
			return true
		}
		g.flatten()
		if len(g.univ) == 0 {
			return false
		}
		var conds []*Term
		for _, c := range front {
			for _, a := range condAtoms(c) {
				if a.op == OExists || done[a] {
					continue
				}
				done[a] = true
				if h := g.instantiate(a, 0); h != nil {
					for _, x := range h.conds {
						if !have[x] {
							have[x] = true
							conds = append(conds, x)
						}
					}
				}
			}
		}
		if len(conds) == 0 {
			return false
		}
		g = g.With(conds...)
		front = conds
	}
	return g.Contradictory()
}

// stripped drops what is decided from the start of the conditions.
func (f *Facts) stripped() *Facts {
	f.flatten()
	have := map[*Term]bool{}
	for _, c := range f.allc {
		have[c] = true
	}
	var more []*Term
	for _, c := range f.allc {
		x := c
		for x.op == OIte {
			d := int8(0)
			if x == c {
				// c itself must not decide its own first condition
				if _, _, ok := litOf(c); ok {
					break
				}
			}
			d = f.Decide(x.a[0])
			if d == 1 {
				x = x.a[1]
			} else if d == -1 {
				x = x.a[2]
			} else {
				break
			}
		}
		if x = boolOf(x); x != c && !have[x] && x != True {
			have[x] = true
			more = append(more, x)
		}
	}
	return f.With(more...)
}

// cuts are conditions that split the facts into cases.
func (f *Facts) cuts() []*Term {
	f.flatten()
	var out []*Term
	seen := map[*Term]bool{}
	for _, c := range f.allc {
		if _, _, ok := litOf(c); ok || c.op != OIte || seen[c.a[0]] {
			continue
		}
		seen[c.a[0]] = true
		if f.Decide(c.a[0]) == 0 && len(out) < 4 {
			out = append(out, boolOf(c.a[0]))
		}
	}
	return out
}

// ProvesByCases is Proves with the facts split into cases.
func (f *Facts) ProvesByCases(c *Term) bool { return f.provesCases(c, 3) }

func (f *Facts) provesCases(c *Term, depth int) bool {
	f = f.stripped()
	if f.Proves(c) {
		return true
	}
	if depth == 0 {
		return false
	}
	for _, a := range f.cuts() {
		if f.With(a).provesCases(c, depth-1) && f.With(Not(a)).provesCases(c, depth-1) {
			return true
		}
	}
	return false
}

var debugProve = os.Getenv("NNPROVE") != ""

// Proves is Entails by refutation of every path to false.
func (f *Facts) Proves(c *Term) bool {
	if f.Entails(c) {
		return true
	}
	x := f.Simp(boolOf(c))
	n := 0
	var rec func(f *Facts, x *Term) bool
	rec = func(f *Facts, x *Term) bool {
		n++
		if x == True {
			return true
		}
		if x.op != OIte || n > 200 {
			if !f.Refuted() && debugProve {
				println("OPEN", x.String())
				for _, c := range f.allc {
					println("   |", c.String())
				}
			}
			return f.Refuted()
		}
		t, e := f.WithLit(x.a[0], true), f.WithLit(x.a[0], false)
		return rec(t, t.Simp(x.a[1])) && rec(e, e.Simp(x.a[2]))
	}
	return rec(f, x)
}

// conflict reports whether a condition is refuted by the ones before it.
func (f *Facts) conflict() bool {
	g := f.parent
	if g == nil {
		g = &Facts{}
	} else if g.Contradictory() {
		return true
	}
	for _, c := range f.conds {
		if g.Simp(c) == False {
			return true
		}
		g = g.With(c)
	}
	return false
}

// Decide tells whether a condition atom is implied (1), refuted (-1) or open (0).
func (f *Facts) Decide(a *Term) int8 {
	if f.memo == nil {
		f.memo = map[int]int8{}
	}
	if r, ok := f.memo[a.id]; ok {
		return r
	}
	f.memo[a.id] = 0
	r := f.decide(a)
	f.memo[a.id] = r
	return r
}

func (f *Facts) decide(a *Term) int8 {
	f.flatten()
	for _, c := range f.allc {
		if Cof(c, a, false) == False {
			return 1
		}
		if Cof(c, a, true) == False {
			return -1
		}
	}
	if len(f.rw) > 0 {
		if x := f.rewritten(boolOf(a)); x != boolOf(a) {
			switch f.Simp(x) {
			case True:
				return 1
			case False:
				return -1
			}
		}
	}
	switch a.op {
	case OLt0, OEq0:
		if r := f.decideArith(a, nil); r != 0 {
			return r
		}
	case OExists:
		// a range that is empty, or a body that is decided
		v, body := openBody(a, a.a[1])
		g := f.With(Le(Zero, v), Lt(v, a.a[0]))
		b := g.Simp(body)
		if b == False || len(f.univ) > 0 && b != True && g.With(b).refutedAt(b) {
			return -1
		}
		if b == True && f.DecideCond(Lt(Zero, a.a[0])) == True {
			return 1
		}
	}
	if cs := f.firsts(a); cs != nil {
		if r := f.With(cs...).decideNoInst(a); r != 0 {
			return r
		}
	}
	if len(f.univ) > 0 {
		g := f.instantiate(a, 0)
		for d := 0; g != nil && d < 3; d++ {
			if r := g.decideNoInst(a); r != 0 {
				return r
			}
			if len(g.univ) == len(f.univ) {
				break
			}
			g = g.instantiate(a, len(f.univ))
		}
	}
	return 0
}

func contains(a, t *Term) bool {
	found := false
	eachTerm(a, map[*Term]bool{}, func(x *Term) { found = found || x == t })
	return found
}

// firsts are the conditions that the least positions in a meet, where there is one.
func (f *Facts) firsts(a *Term) []*Term {
	var conds []*Term
	for _, x := range f.allc {
		e, val, ok := litOf(x)
		if !ok || !val || e.op != OExists {
			continue
		}
		t := mk(Term{op: OFirst, ints: e.ints, a: e.a, isInt: true})
		if contains(a, t) {
			v, body := openBody(e, e.a[1])
			conds = append(conds, f.decideBool(Subst1(body, v, num(t))))
		}
	}
	return conds
}

func (f *Facts) decideNoInst(a *Term) int8 {
	f.flatten()
	for _, c := range f.allc {
		if Cof(c, a, false) == False {
			return 1
		}
		if Cof(c, a, true) == False {
			return -1
		}
	}
	if a.op == OLt0 || a.op == OEq0 {
		return f.decideArith(a, nil)
	}
	return 0
}

var instantiating int

// instantiate adds the instances of universal facts at the index terms that
// occur in the atom.
func (f *Facts) instantiate(a *Term, from int) *Facts {
	if instantiating >= 2 {
		return nil // building an instance makes further ones: not without end
	}
	instantiating++
	defer func() { instantiating-- }()
	cands := map[int]*Term{}
	seen := map[int]bool{}
	var apps []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.id] || t.h > 0 && t.op == OBV {
			return
		}
		seen[t.id] = true
		if t.op == OApp || t.op == OBApp {
			apps = append(apps, t)
			for _, x := range t.a[1:] {
				if x.op == OPoly && x.isInt && x.h == 0 {
					cands[x.id] = x
				}
			}
		}
		if t.op == OSym && t.isInt {
			cands[num(t).id] = num(t)
		}
		for _, x := range t.a {
			rec(x)
		}
		for _, m := range t.p {
			for _, x := range m.f {
				rec(x.t)
			}
		}
	}
	rec(a)
	var list []*Term
	for _, c := range cands {
		list = append(list, c)
	}
	sort.Slice(list, func(i, j int) bool { return list[i].id < list[j].id })
	if len(list) > 12 {
		list = list[:12]
	}
	var conds []*Term
	for _, u := range f.univ[from:] {
		for _, k := range append(list[:len(list):len(list)], matches(u, apps)...) {
			if f.decideBool(And(Le(Zero, k), Lt(k, u.a[0]))) != True {
				continue
			}
			v, body := openBody(u, u.a[1])
			inst := f.decideBool(Not(Subst1(body, v, k)))
			if inst != True {
				conds = append(conds, inst)
			}
		}
	}
	if conds == nil {
		return nil
	}
	return f.With(conds...)
}

// edge is the condition that an application lies just before the range of a
// universal fact, where it may lie there or in the range.
func (f *Facts) edge(e *Term) *Term {
	apps := appsOf(e)
	for _, u := range f.univ {
		for _, k := range matches(u, apps) {
			if k.h > 0 {
				continue
			}
			if y := EqN(k, Neg(One)); f.Simp(y).op == OIte && f.Holds(And(Le(Neg(One), k), Lt(k, u.a[0]))) {
				return y
			}
		}
	}
	return nil
}

// openInstance is a condition that decides whether a universal fact covers an
// application in the given equation.
func (f *Facts) openInstance(e *Term) *Term {
	apps := appsOf(e)
	for _, u := range f.univ {
		for _, k := range matches(u, apps) {
			if k.h > 0 {
				continue
			}
			if x := f.Simp(And(Le(Zero, k), Lt(k, u.a[0]))); x.op == OIte {
				if y := EqN(k, Neg(One)); f.Holds(Le(Neg(One), k)) && f.Simp(y) != False {
					return y
				}
				return boolOf(x.a[0])
			}
		}
	}
	return nil
}

// appsOf are the applications in a term.
func appsOf(a *Term) []*Term {
	var apps []*Term
	seen := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.id] || t.h > 0 && t.op == OBV {
			return
		}
		seen[t.id] = true
		if t.op == OApp || t.op == OBApp {
			apps = append(apps, t)
		}
		for _, x := range t.a {
			rec(x)
		}
		for _, m := range t.p {
			for _, x := range m.f {
				rec(x.t)
			}
		}
	}
	rec(a)
	return apps
}

// matches are the values of the bound variable of u for which an application in
// its body becomes one of the given applications.
func matches(u *Term, apps []*Term) []*Term {
	if len(apps) == 0 {
		return nil
	}
	v, body := openBody(u, u.a[1])
	va := varAtom(v)
	var out []*Term
	seen := map[int]bool{}
	have := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.id] || !t.hasVar(va) {
			return
		}
		seen[t.id] = true
		if t.op == OApp || t.op == OBApp {
			for i, x := range t.a[1:] {
				if x == v || !x.hasVar(va) {
					continue
				}
				c, r, ok := coefOf(x, v)
				if !ok || c != One && c != Neg(One) || r.hasVar(va) {
					continue
				}
				for _, o := range apps {
					if o.op == t.op && o.a[0] == t.a[0] && len(o.a) == len(t.a) && o.a[i+1].op == OPoly && o.a[i+1].h == 0 {
						k := Sub(o.a[i+1], r)
						if c != One {
							k = Neg(k)
						}
						if !have[k] && len(out) < 12 {
							have[k] = true
							out = append(out, k)
						}
					}
				}
			}
		}
		for _, x := range t.a {
			rec(x)
		}
		for _, m := range t.p {
			for _, x := range m.f {
				rec(x.t)
			}
		}
	}
	rec(body)
	return out
}

func (f *Facts) decideBool(c *Term) *Term {
	// like DecideCond, without instantiating universal facts
	if c.op != OIte {
		return c
	}
	switch f.decideNoInst(c.a[0]) {
	case 1:
		return f.decideBool(c.a[1])
	case -1:
		return f.decideBool(c.a[2])
	}
	a := f.WithLit(c.a[0], true).decideBool(c.a[1])
	b := f.WithLit(c.a[0], false).decideBool(c.a[2])
	return Ite(boolOf(c.a[0]), a, b)
}

func (f *Facts) decideArith(a *Term, _ []*Term) int8 {
	p := a.a[0]
	if p.op != OPoly {
		return 0
	}
	isInt := p.isInt
	one := func(q *Term, strict bool) bool { return f.infeasible(q, &strict) }
	if a.op == OLt0 {
		// implied: p >= 0 infeasible
		if one(Neg(p), false) {
			return 1
		}
		// refuted: p < 0 infeasible
		if isInt {
			if one(leafAdd(p, One), false) {
				return -1
			}
		} else if one(p, true) {
			return -1
		}
		return 0
	}
	// equality
	var lt, gt bool
	if isInt {
		lt = one(leafAdd(p, One), false)
		gt = one(leafAdd(Neg(p), One), false)
	} else {
		lt = one(p, true)
		gt = one(Neg(p), true)
	}
	if lt && gt {
		return 1
	}
	// disequality: p == 0 infeasible
	if f.infeasibleEq(p) {
		return -1
	}
	return 0
}

// ---------- simplification ----------

// Simp simplifies the conditions of a diagram under the facts.
func (f *Facts) Simp(t *Term) *Term {
	switch t.op {
	case OTuple:
		out := make([]*Term, len(t.a))
		for i := range t.a {
			out[i] = f.Simp(t.a[i])
		}
		return mk(Term{op: OTuple, a: out})
	case OSlice:
		return Slice(t.a[0], f.Simp(t.a[1]), f.Simp(t.a[2]))
	case OIface:
		if len(t.a) == 1 && (t.a[0].op == OTuple || t.a[0].op == OIte) {
			return mk(Term{op: OIface, x: t.x, a: []*Term{f.Simp(t.a[0])}})
		}
		return t
	case OIte:
	default:
		return t
	}
	if f.symMemo == nil {
		f.symMemo = map[int]*Term{}
	}
	if r, ok := f.symMemo[t.id]; ok {
		return r
	}
	var r *Term
	switch f.Decide(t.a[0]) {
	case 1:
		r = f.Simp(t.a[1])
	case -1:
		r = f.Simp(t.a[2])
	default:
		a := f.WithLit(t.a[0], true).Simp(t.a[1])
		b := f.WithLit(t.a[0], false).Simp(t.a[2])
		r = Ite(boolOf(t.a[0]), a, b)
	}
	f.symMemo[t.id] = r
	return r
}

func (f *Facts) DecideCond(c *Term) *Term { return f.Simp(c) }

// Holds tells whether a condition is implied.
func (f *Facts) Holds(c *Term) bool { return f.Simp(c) == True }

// decideCond simplifies a condition under the ambient facts and the ranges of
// the given variables.
func decideCond(c *Term, vars, his []*Term) *Term {
	if c == True || c == False {
		return c
	}
	f := ambient
	for i, v := range vars {
		f = f.With(Le(Zero, v), Lt(v, his[i]))
	}
	return f.Simp(c)
}

// ---------- linear arithmetic ----------

var monoIDs = map[string]int{}
var monoOf = map[int][]fac{}

var monoBuf []byte

func monoID(f []fac) int {
	monoBuf = appendMono(monoBuf[:0], f)
	if i, ok := monoIDs[string(monoBuf)]; ok {
		return i
	}
	k := string(monoBuf)
	i := len(monoIDs) + 1
	monoIDs[k] = i
	monoOf[i] = append([]fac(nil), f...)
	return i
}

func linOf(p *Term, strict bool) *lin {
	l := &lin{c: map[int]*big.Rat{}, k: new(big.Rat), strict: strict}
	for _, m := range p.p {
		if len(m.f) == 0 {
			l.k = m.c
			continue
		}
		l.c[monoID(m.f)] = m.c
	}
	return l
}

// infeasible tells whether the facts together with q <= 0 (or q < 0) have no
// solution.
func (f *Facts) infeasible(q *Term, strict *bool) bool {
	f.flatten()
	var goal []*Term
	var gs []bool
	if q != nil {
		if q.op != OPoly {
			return false
		}
		if q.isConst() {
			s := q.constVal().Sign()
			return s > 0 || (s == 0 && *strict)
		}
		goal = append(goal, q)
		gs = append(gs, *strict)
	}
	return f.solve(goal, gs, nil)
}

func (f *Facts) infeasibleEq(p *Term) bool {
	f.flatten()
	return f.solve([]*Term{p, Neg(p)}, []bool{false, false}, nil)
}

// solve runs the elimination on the facts, the goal and derived axioms.
func (f *Facts) solve(goal []*Term, gs []bool, depth []int) bool {
	ps := append([]*Term{}, goal...)
	st := append([]bool{}, gs...)
	ps = append(ps, f.flat...)
	st = append(st, f.strict...)
	for _, e := range f.eqs {
		ps = append(ps, e, Neg(e))
		st = append(st, false, false)
	}
	nGoal := len(goal)
	// relevance: constraints connected to the goal through monomials' atoms
	atoms := map[int]bool{}
	if nGoal == 0 {
		nGoal = len(ps)
	}
	used := make([]bool, len(ps))
	addAtoms := func(p *Term) bool {
		ch := false
		var rec func(t *Term)
		rec = func(t *Term) {
			if t.op == OPoly {
				for _, m := range t.p {
					for _, x := range m.f {
						rec(x.t)
					}
				}
				return
			}
			if !atoms[t.id] {
				atoms[t.id] = true
				ch = true
			}
			switch t.op {
			case OIdiv, OTrunc, OFloor, OWrap:
				for _, a := range t.a {
					if a.op == OPoly {
						rec(a)
					}
				}
			}
		}
		rec(p)
		return ch
	}
	var axP []*Term
	var axS []bool
	axDone := map[int]bool{}
	var sel []*Term
	var selS []bool
	for i := 0; i < nGoal; i++ {
		used[i] = true
		addAtoms(ps[i])
		sel = append(sel, ps[i])
		selS = append(selS, st[i])
	}
	for round := 0; round < 6; round++ {
		ch := false
		for i, p := range ps {
			if used[i] {
				continue
			}
			hit := false
			for _, m := range p.p {
				for _, x := range m.f {
					if atoms[x.t.id] {
						hit = true
					}
				}
			}
			if hit {
				used[i] = true
				sel = append(sel, p)
				selS = append(selS, st[i])
				addAtoms(p)
				ch = true
			}
		}
		// axioms of the atoms
		var ids []int
		for id := range atoms {
			if !axDone[id] {
				ids = append(ids, id)
			}
		}
		sort.Ints(ids)
		for _, id := range ids {
			axDone[id] = true
			p, s := f.axioms(id, atoms)
			for i := range p {
				if p[i].isConst() {
					continue
				}
				axP = append(axP, p[i])
				axS = append(axS, s[i])
				addAtoms(p[i])
				ch = true
			}
		}
		if !ch {
			break
		}
		if len(sel) > 80 {
			break
		}
	}
	sel = append(sel, axP...)
	selS = append(selS, axS...)
	// maximum lemmas: an element of the range is at most the maximum
	for _, t := range termsByIDs(atoms) {
		if t.op == OMaxF && len(t.a) == 3 {
			for _, c := range termsByIDs(atoms) {
				if c == t {
					continue
				}
				for _, k := range indexCands(c) {
					v, body := openBody(t, t.a[2])
					el := Subst1(body, v, k)
					if el.op != OPoly {
						continue
					}
					if !f.holdsLinear(Le(t.a[0], k)) || !f.holdsLinear(Lt(k, t.a[1])) {
						continue
					}
					sel = append(sel, Sub(el, num(t)))
					selS = append(selS, false)
				}
			}
		}
	}
	// disequalities strengthen inequalities between integers
	for _, n := range f.neqs {
		if !n.isInt {
			// n >= 0 and n != 0: n > 0
			if !addsNothing(n, atoms) {
				continue
			}
			if fmInfeasible(append(append([]*Term{}, sel...), n), append(append([]bool{}, selS...), true)) {
				sel = append(sel, Neg(n))
				selS = append(selS, true)
			} else if fmInfeasible(append(append([]*Term{}, sel...), Neg(n)), append(append([]bool{}, selS...), true)) {
				sel = append(sel, n)
				selS = append(selS, true)
			}
			continue
		}
		if fmInfeasible(append(append([]*Term{}, sel...), leafAdd(n, One)), append(append([]bool{}, selS...), false)) {
			// n >= 0, so n >= 1
			sel = append(sel, leafAdd(Neg(n), One))
			selS = append(selS, false)
		} else if fmInfeasible(append(append([]*Term{}, sel...), leafAdd(Neg(n), One)), append(append([]bool{}, selS...), false)) {
			sel = append(sel, leafAdd(n, One))
			selS = append(selS, false)
		}
	}
	if fmInfeasible(sel, selS) {
		return true
	}
	// products: multiply linear constraints by non-negative atoms so that
	// they speak about the products that occur
	prods := map[int][]fac{}
	for _, p := range sel {
		for _, m := range p.p {
			deg := 0
			for _, x := range m.f {
				deg += x.e
				if x.e < 0 {
					deg = 99
				}
			}
			if deg >= 2 && deg <= 3 {
				prods[monoID(m.f)] = m.f
			}
		}
	}
	if len(prods) == 0 {
		return false
	}
	mults := map[int]*Term{}
	for _, pf := range prods {
		for _, x := range pf {
			mults[x.t.id] = x.t
		}
	}
	var ml []*Term
	for _, t := range mults {
		ml = append(ml, t)
	}
	sort.Slice(ml, func(i, j int) bool { return ml[i].id < ml[j].id })
	var extra []*Term
	var extraS []bool
	for _, t := range ml {
		tp := num(t)
		// t >= 0 ?
		neg := leafAdd(tp, One)
		ns := false
		if !t.isInt {
			neg, ns = tp, true
		}
		if !fmInfeasible(append(append([]*Term{}, sel...), neg), append(append([]bool{}, selS...), ns)) {
			continue
		}
		pos := fmInfeasible(append(append([]*Term{}, sel...), tp), append(append([]bool{}, selS...), false))
		for i, p := range sel {
			if len(extra) > 60 {
				break
			}
			q := leafMul(p, tp)
			if q.op != OPoly {
				continue
			}
			ok := false
			for _, m := range q.p {
				if _, in := prods[monoID(m.f)]; in {
					ok = true
				}
			}
			if ok {
				extra = append(extra, q)
				extraS = append(extraS, selS[i] && pos)
			}
		}
	}
	if len(extra) == 0 {
		return false
	}
	return fmInfeasible(append(sel, extra...), append(selS, extraS...))
}

// addsNothing tells whether the atoms of a polynomial are all among those seen.
func addsNothing(p *Term, atoms map[int]bool) bool {
	for _, a := range polyAtoms(p) {
		if !atoms[a.id] {
			return false
		}
	}
	return true
}

// holdsLinear decides a condition by the facts' inequalities only.
func (f *Facts) holdsLinear(c *Term) bool {
	if c == True {
		return true
	}
	if c.op != OIte {
		return false
	}
	return f.decideBool(c) == True
}

func termsByIDs(m map[int]bool) []*Term {
	var ids []int
	for id := range m {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	var r []*Term
	for _, id := range ids {
		if t := lookupTerm(id); t != nil {
			r = append(r, t)
		}
	}
	return r
}

// indexCands lists index terms occurring in an atom.
func indexCands(t *Term) []*Term {
	var r []*Term
	seen := map[int]bool{}
	var rec func(t *Term, d int)
	rec = func(t *Term, d int) {
		if seen[t.id] || d > 6 {
			return
		}
		seen[t.id] = true
		if t.op == OApp {
			for _, a := range t.a[1:] {
				if a.op == OPoly && a.isInt && a.h == 0 && !a.isConst() {
					r = append(r, a)
				}
			}
		}
		for _, a := range t.a {
			rec(a, d+1)
		}
		for _, m := range t.p {
			for _, x := range m.f {
				rec(x.t, d+1)
			}
		}
	}
	rec(t, 0)
	if len(r) > 6 {
		r = r[:6]
	}
	return r
}

// axioms gives the inequalities an atom satisfies by its meaning.
func (f *Facts) axioms(id int, atoms map[int]bool) ([]*Term, []bool) {
	t := lookupTerm(id)
	var ps []*Term
	var ss []bool
	add := func(p *Term, strict bool) {
		if p.op == OPoly {
			ps = append(ps, p)
			ss = append(ss, strict)
		}
	}
	tn := num(t)
	addBound := func(b bound, args []*Term) {
		if b.lo != nil {
			if l := b.lo(args); l != nil {
				add(Sub(l, tn), false)
			}
		}
		if b.hi != nil {
			if h := b.hi(args); h != nil {
				add(Sub(tn, h), false)
			}
		}
	}
	switch t.op {
	case OSym:
		if b, ok := bounds[t.id]; ok {
			addBound(b, nil)
		}
	case OApp:
		if b, ok := bounds[t.a[0].id]; ok {
			addBound(b, t.a[1:])
		}
	case OWrap:
		lo, hi := wrapRange(t.n)
		add(Sub(numRat(new(big.Rat).SetInt(lo)), tn), false)
		add(Sub(tn, numRat(new(big.Rat).SetInt(hi))), false)
		if x := t.a[0]; x.op == OPoly && !f.busy[id] {
			if f.busy == nil {
				f.busy = map[int]bool{}
			}
			f.busy[id] = true
			in := f.holdsLinear(Le(numRat(new(big.Rat).SetInt(lo)), x)) && f.holdsLinear(Le(x, numRat(new(big.Rat).SetInt(hi))))
			delete(f.busy, id)
			if in {
				add(Sub(tn, x), false)
				add(Sub(x, tn), false)
			}
		}
	case OFirst:
		add(Neg(tn), false)
		add(Add(Sub(tn, t.a[0]), One), false)
	case OArgMax, OArgMin:
		add(Sub(t.a[0], tn), false)
		add(Add(Sub(tn, t.a[1]), One), false)
	case OExp:
		add(Neg(tn), true)
	case OSqrt:
		add(Neg(tn), false)
	case OSum:
		if signAtom(t)&sgnNeg == 0 {
			add(Neg(tn), false)
		}
	case OTrunc:
		x := t.a[0]
		add(Sub(Sub(x, One), tn), true)
		add(Sub(Sub(tn, One), x), true)
	case OFloor:
		x := t.a[0]
		add(Sub(tn, x), false)
		add(Sub(Sub(x, One), tn), true)
	case OIdiv:
		a, b := t.a[0], t.a[1]
		if a.op == OPoly && b.op == OPoly && !f.busy[id] {
			if f.busy == nil {
				f.busy = map[int]bool{}
			}
			f.busy[id] = true
			pos := f.holdsLinear(Lt(Zero, b)) && f.holdsLinear(Le(Zero, a))
			delete(f.busy, id)
			if pos {
				add(Neg(tn), false)
				qb := Mul(tn, b)
				add(Sub(qb, a), false)
				add(Add(Sub(Sub(a, qb), b), One), false)
			}
		}
	}
	return ps, ss
}

func lookupTerm(id int) *Term { return termIndex[id] }
