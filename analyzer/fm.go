package main

// Fourier-Motzkin elimination.

import (
	"math/big"
	"sort"
)

// row is sum c[i]*x_i + k <= 0 (or < 0), with small integer coefficients.
type row struct {
	c      []int64
	k      int64
	strict bool
}

const rowMax = 1 << 30

// normRow divides by the greatest common divisor; false when numbers get large.
func normRow(r *row) bool {
	var g int64
	for _, x := range r.c {
		g = gcd64(g, x)
		if g == 1 {
			break
		}
	}
	g = gcd64(g, r.k)
	if g > 1 {
		for i := range r.c {
			r.c[i] /= g
		}
		r.k /= g
	}
	for _, x := range r.c {
		if x > rowMax || x < -rowMax {
			return false
		}
	}
	return r.k <= rowMax && r.k >= -rowMax
}

func gcd64(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// rowSet keeps the strongest constraint for every direction.
type rowSet struct {
	rows []*row
	at   map[string]int
	buf  []byte
}

// add reports whether the row is contradictory by itself.
func (s *rowSet) add(r *row) bool {
	var g int64
	for _, x := range r.c {
		g = gcd64(g, x)
	}
	if g == 0 {
		return r.k > 0 || r.k == 0 && r.strict
	}
	b := s.buf[:0]
	for _, x := range r.c {
		y := x / g
		for {
			b = append(b, byte(y&0x7f))
			if y >= -32 && y < 32 {
				break
			}
			b[len(b)-1] |= 0x80
			y >>= 7
		}
	}
	s.buf = b
	if i, ok := s.at[string(b)]; ok {
		o := s.rows[i]
		// compare r.k/g with o.k/go
		og := int64(0)
		for _, x := range o.c {
			og = gcd64(og, x)
		}
		a, c := r.k*og, o.k*g
		if a > c || a == c && r.strict && !o.strict {
			s.rows[i] = r
		}
		return false
	}
	s.at[string(b)] = len(s.rows)
	s.rows = append(s.rows, r)
	return false
}

// constraint is a polynomial constraint with integer coefficients over monomials.
type constraint struct {
	ids []int
	c   []int64
	k   int64
	ok  bool // numbers are small enough
}

var constraints [2]map[*Term]*constraint

// constraintOf brings p <= 0 (or p < 0) to integer coefficients, tightened when
// all its values are integers.
func constraintOf(p *Term, strict bool) *constraint {
	n := 0
	if strict {
		n = 1
	}
	if constraints[n] == nil {
		constraints[n] = map[*Term]*constraint{}
	}
	if c, ok := constraints[n][p]; ok {
		return c
	}
	r := &constraint{ok: true}
	constraints[n][p] = r
	if !strict {
		// integer tightening of q + c <= 0
		q, c, isInt := normScale(p)
		if isInt {
			p = leafAdd(q, numRat(new(big.Rat).SetInt(ceilRat(c))))
		}
	}
	l := int64(1)
	for _, m := range p.p {
		d := m.c.Denom()
		if !d.IsInt64() || d.Int64() > rowMax {
			r.ok = false
			return r
		}
		l = l / gcd64(l, d.Int64()) * d.Int64()
		if l > rowMax {
			r.ok = false
			return r
		}
	}
	for _, m := range p.p {
		if !m.c.Num().IsInt64() {
			r.ok = false
			return r
		}
		x := m.c.Num().Int64()
		if x > rowMax || x < -rowMax {
			r.ok = false
			return r
		}
		x *= l / m.c.Denom().Int64()
		if len(m.f) == 0 {
			r.k = x
		} else {
			r.ids = append(r.ids, monoID(m.f))
			r.c = append(r.c, x)
		}
	}
	return r
}

var fmMemo = map[string]bool{}

// fmInfeasible tells whether the constraints p <= 0 (or p < 0) have no rational
// solution, after integer tightening of the given constraints.
func fmInfeasible(ps []*Term, strict []bool) bool {
	keys := make([]int, 0, len(ps))
	for i, p := range ps {
		if p.op != OPoly {
			continue
		}
		if p.isConst() {
			s := p.constVal().Sign()
			if s > 0 || (s == 0 && strict[i]) {
				return true
			}
			continue
		}
		k := 2 * p.id
		if strict[i] {
			k++
		}
		keys = append(keys, k)
	}
	sort.Ints(keys)
	b := make([]byte, 0, 4*len(keys))
	last := -1
	for _, k := range keys {
		if k != last {
			b = append(b, byte(k), byte(k>>8), byte(k>>16), byte(k>>24))
		}
		last = k
	}
	if r, ok := fmMemo[string(b)]; ok {
		return r
	}
	r := fmRows(ps, strict)
	fmMemo[string(b)] = r
	return r
}

func fmRows(ps []*Term, strict []bool) bool {
	index := map[int]int{}
	var cs []*constraint
	var ss []bool
	for i, p := range ps {
		if p.op != OPoly || p.isConst() {
			continue
		}
		c := constraintOf(p, strict[i])
		if !c.ok {
			return fmInfeasibleBig(ps, strict)
		}
		for _, id := range c.ids {
			if _, ok := index[id]; !ok {
				index[id] = len(index)
			}
		}
		cs = append(cs, c)
		ss = append(ss, strict[i])
	}
	n := len(index)
	set := &rowSet{at: map[string]int{}}
	for i, c := range cs {
		r := &row{c: make([]int64, n), k: c.k, strict: ss[i]}
		for j, id := range c.ids {
			r.c[index[id]] = c.c[j]
		}
		if !normRow(r) {
			return fmInfeasibleBig(ps, strict)
		}
		if set.add(r) {
			return true
		}
	}
	pos, neg := make([]int, n), make([]int, n)
	for steps := 0; steps < 60; steps++ {
		for v := 0; v < n; v++ {
			pos[v], neg[v] = 0, 0
		}
		for _, r := range set.rows {
			for v, c := range r.c {
				if c > 0 {
					pos[v]++
				} else if c < 0 {
					neg[v]++
				}
			}
		}
		best, bestCost := -1, 1<<30
		for v := 0; v < n; v++ {
			if pos[v]+neg[v] == 0 {
				continue
			}
			if cost := pos[v]*neg[v] - pos[v] - neg[v]; cost < bestCost {
				best, bestCost = v, cost
			}
		}
		if best < 0 {
			return false
		}
		next := &rowSet{at: map[string]int{}}
		var ups, downs []*row
		for _, r := range set.rows {
			switch {
			case r.c[best] == 0:
				next.add(r)
			case r.c[best] > 0:
				ups = append(ups, r)
			default:
				downs = append(downs, r)
			}
		}
		if len(next.rows)+len(ups)*len(downs) > 600 {
			return false
		}
		for _, u := range ups {
			for _, d := range downs {
				a, b := -d.c[best], u.c[best]
				r := &row{c: make([]int64, n), strict: u.strict || d.strict}
				for v := range r.c {
					r.c[v] = u.c[v]*a + d.c[v]*b
				}
				r.k = u.k*a + d.k*b
				if !normRow(r) {
					return fmInfeasibleBig(ps, strict)
				}
				if next.add(r) {
					return true
				}
			}
		}
		set = next
		if len(set.rows) == 0 {
			return false
		}
	}
	return false
}

type lin struct {
	c      map[int]*big.Rat
	k      *big.Rat
	strict bool
}

// fmInfeasibleBig is Fourier-Motzkin elimination over the rationals with integer
// tightening of the input constraints.
func fmInfeasibleBig(ps []*Term, strict []bool) bool {
	var cs []*lin
	seen := map[string]bool{}
	for i, p := range ps {
		if p.op != OPoly {
			continue
		}
		if p.isConst() {
			s := p.constVal().Sign()
			if s > 0 || (s == 0 && strict[i]) {
				return true
			}
			continue
		}
		if !strict[i] {
			// integer tightening of q + c <= 0
			q, c, isInt := normScale(p)
			if isInt {
				cc := new(big.Rat).SetInt(ceilRat(c))
				p = leafAdd(q, numRat(cc))
			}
		}
		l := linOf(p, strict[i])
		k := linKey(l)
		if seen[k] {
			continue
		}
		seen[k] = true
		cs = append(cs, l)
	}
	for steps := 0; steps < 60; steps++ {
		// count occurrences
		pos := map[int]int{}
		neg := map[int]int{}
		for _, l := range cs {
			for v, c := range l.c {
				if c.Sign() > 0 {
					pos[v]++
				} else {
					neg[v]++
				}
			}
		}
		best, bestCost := -1, 1<<30
		var vs []int
		for v := range pos {
			vs = append(vs, v)
		}
		for v := range neg {
			if _, ok := pos[v]; !ok {
				vs = append(vs, v)
			}
		}
		sort.Ints(vs)
		for _, v := range vs {
			cost := pos[v]*neg[v] - pos[v] - neg[v]
			if cost < bestCost {
				best, bestCost = v, cost
			}
		}
		if best < 0 {
			return false
		}
		var ups, downs, rest []*lin
		for _, l := range cs {
			c := l.c[best]
			switch {
			case c == nil:
				rest = append(rest, l)
			case c.Sign() > 0:
				ups = append(ups, l)
			default:
				downs = append(downs, l)
			}
		}
		if len(rest)+len(ups)*len(downs) > 600 {
			return false
		}
		seen := map[string]bool{}
		for _, l := range rest {
			seen[linKey(l)] = true
		}
		for _, u := range ups {
			for _, d := range downs {
				n := &lin{c: map[int]*big.Rat{}, k: new(big.Rat), strict: u.strict || d.strict}
				a := new(big.Rat).Neg(d.c[best]) // > 0
				b := u.c[best]                   // > 0
				for v, c := range u.c {
					if v != best {
						n.c[v] = new(big.Rat).Mul(c, a)
					}
				}
				for v, c := range d.c {
					if v == best {
						continue
					}
					x := new(big.Rat).Mul(c, b)
					if y, ok := n.c[v]; ok {
						x.Add(x, y)
					}
					if x.Sign() == 0 {
						delete(n.c, v)
					} else {
						n.c[v] = x
					}
				}
				n.k.Add(new(big.Rat).Mul(u.k, a), new(big.Rat).Mul(d.k, b))
				if len(n.c) == 0 {
					s := n.k.Sign()
					if s > 0 || (s == 0 && n.strict) {
						return true
					}
					continue
				}
				k := linKey(n)
				if !seen[k] {
					seen[k] = true
					rest = append(rest, n)
				}
			}
		}
		cs = rest
		if len(cs) == 0 {
			return false
		}
	}
	return false
}

func linKey(l *lin) string {
	var vs []int
	for v := range l.c {
		vs = append(vs, v)
	}
	sort.Ints(vs)
	// scale by the absolute value of the first coefficient
	s := new(big.Rat).Inv(new(big.Rat).Abs(l.c[vs[0]]))
	b := make([]byte, 0, 64)
	for _, v := range vs {
		b = append(b, []byte(itoa(v))...)
		b = append(b, ':')
		b = append(b, []byte(new(big.Rat).Mul(l.c[v], s).RatString())...)
		b = append(b, ' ')
	}
	b = append(b, []byte(new(big.Rat).Mul(l.k, s).RatString())...)
	if l.strict {
		b = append(b, '<')
	}
	return string(b)
}
