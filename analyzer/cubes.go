package main

// Disjunctive facts: when a question is not decided under the conjunction of
// the known conditions, their diagrams are opened case by case.

func (f *Facts) nonLiteral() []*Term {
	f.flatten()
	var r []*Term
	for _, c := range f.allc {
		if c.op == OIte && !isBoolAtomTerm(c) {
			r = append(r, c)
		}
	}
	return r
}

func isBoolAtomTerm(c *Term) bool {
	// a single literal
	return c.op == OIte && (c.a[1] == True && c.a[2] == False || c.a[1] == False && c.a[2] == True)
}

// cubes enumerates refinements of the facts that decide every condition; nil
// when there are too many.
func (f *Facts) cubes(limit int) ([]*Facts, bool) {
	d := True
	for _, c := range f.nonLiteral() {
		d = And(d, c)
	}
	if d == True {
		return []*Facts{f}, true
	}
	var out []*Facts
	ok := true
	var rec func(g *Facts, d *Term)
	rec = func(g *Facts, d *Term) {
		if !ok || d == False {
			return
		}
		if d == True {
			if !g.Contradictory() {
				out = append(out, g)
				if len(out) > limit {
					ok = false
				}
			}
			return
		}
		a := d.a[0]
		switch g.Decide(a) {
		case 1:
			rec(g.WithLit(a, true), cofTop(d, a, true))
			return
		case -1:
			rec(g.WithLit(a, false), cofTop(d, a, false))
			return
		}
		g1 := g.WithLit(a, true)
		if !g1.Contradictory() {
			rec(g1, cofTop(d, a, true))
		}
		g0 := g.WithLit(a, false)
		if !g0.Contradictory() {
			rec(g0, cofTop(d, a, false))
		}
	}
	rec(f, d)
	return out, ok
}

// Entails decides an implication with case distinction on the facts.
func (f *Facts) Entails(c *Term) bool {
	c = boolOf(c)
	if f.Holds(c) || f.Contradictory() {
		return true
	}
	n := f.With(Not(c))
	cs, ok := n.cubes(400)
	if !ok {
		return n.Contradictory()
	}
	for _, g := range cs {
		if !g.Contradictory() {
			return false
		}
	}
	return true
}

// EqualF decides equality with case distinction on the facts.
func EqualF(f *Facts, a, b *Term) bool {
	if EqualUnder(f, a, b) {
		return true
	}
	if len(f.nonLiteral()) == 0 {
		return false
	}
	cs, ok := f.cubes(400)
	if !ok {
		return false
	}
	for _, g := range cs {
		if !EqualUnder(g, a, b) {
			return false
		}
	}
	return true
}
