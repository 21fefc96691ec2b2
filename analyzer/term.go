package main

// Hash-consed terms of the abstract value domain: canonical polynomials over
// atoms at the leaves of ordered decision diagrams over condition atoms.

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"
)

type Op uint8

const (
	OTrue Op = iota
	OFalse
	OIte  // a[0] condition atom, a[1] then, a[2] else
	OPoly // numeric leaf
	// numeric atoms
	OSym   // named symbol
	OBV    // bound variable, n = height
	OApp   // uninterpreted function: a[0] = OSym naming it, a[1:] arguments
	OInvB  // wrapper of a multi-term polynomial, used with negative exponents only
	OExp   // e^a[0]
	OLog   // log a[0]
	OSqrt  // sqrt a[0]
	OPow   // a[0]^a[1]
	OTrunc // truncation of a real to an integer
	OFloor
	OIdiv // truncated integer quotient
	OWrap // conversion to n-bit integer (n<0: signed)
	OSum  // a = his..., body; n = number of binders (heights h..h+n-1)
	OMaxF // maximum: a = lo, hi, body
	OArgMax
	OMinF
	OArgMin
	OFirst // least index in [0,hi) with condition: a = hi, cond
	OFold  // generic fold: a = init tuple, hi, body tuple ; n = component
	OProd  // product: a = hi, body
	OInd   // indicator of a condition atom (inside sums only)
	// boolean atoms
	OLt0    // a[0] < 0
	OEq0    // a[0] == 0
	OBApp   // uninterpreted predicate: a[0] = OSym naming it
	OIsNil  // a[0] is nil
	OExists // a = hi, body
	OStrEq
	OTypeIs // dynamic type of a[0] is x
	OSameV  // equality of opaque values
	// structured values
	OTuple
	OSlice // ref, off, len
	OPtr   // ref, idx? ; path in ints
	ORef   // x = *Family, a = allocation indices
	ONil
	OIface  // x = types.Type, a[0] value
	OStr    // constant string
	OStrT   // symbolic string operation: name, args
	OFunc   // x = *ssa.Function or builtin marker; a = bindings
	OOpaque // opaque value of any other kind: name, args
	OMapV   // map value: a[0] = ref
	OUndef
)

type Term struct {
	id    int
	op    Op
	name  string
	n     int
	ints  []int
	a     []*Term
	p     []mono
	x     interface{}
	isInt bool
	vars  []int32
	h     int    // height: maximal bound-variable height inside
	skel  uint64 // structural hash ignoring the identity of variables
}

type fac struct {
	t *Term
	e int
}
type mono struct {
	c *big.Rat
	f []fac
}

var (
	hcons  = map[string]*Term{}
	nterms = 0
	xids   = map[interface{}]int{}
)

func xid(x interface{}) int {
	if x == nil {
		return 0
	}
	if i, ok := xids[x]; ok {
		return i
	}
	i := len(xids) + 1
	xids[x] = i
	return i
}

var keyBuf []byte

func mk(t Term) *Term {
	b := keyBuf[:0]
	b = append(b, byte(t.op)+32)
	b = append(b, t.name...)
	b = append(b, '|')
	b = strconv.AppendInt(b, int64(t.n), 10)
	if t.isInt {
		b = append(b, 'i')
	}
	b = append(b, '|')
	b = strconv.AppendInt(b, int64(xid(t.x)), 10)
	for _, i := range t.ints {
		b = append(b, ';')
		b = strconv.AppendInt(b, int64(i), 10)
	}
	for _, a := range t.a {
		b = append(b, ',')
		b = strconv.AppendInt(b, int64(a.id), 10)
	}
	if t.op == OPoly {
		for i := range t.p {
			b = append(b, '+')
			b = appendRat(b, t.p[i].c)
			b = appendMono(b, t.p[i].f)
		}
	}
	keyBuf = b
	if r, ok := hcons[string(b)]; ok {
		return r
	}
	k := string(b)
	nt := t
	nterms++
	nt.id = nterms
	// variables and heights
	add := func(c *Term) {
		nt.vars = mergeVars(nt.vars, c.vars)
		if c.h > nt.h {
			nt.h = c.h
		}
	}
	for _, a := range t.a {
		add(a)
	}
	if t.op == OPoly {
		for i := range t.p {
			for _, f := range t.p[i].f {
				add(f.t)
			}
		}
	}
	switch t.op {
	case OSym:
		nt.vars = []int32{int32(nt.id)}
	case OBV:
		nt.h = t.n
	case OSum:
		nt.h += 0 // binder heights are part of the body or counted explicitly
	}
	if nt.op == OSum || nt.op == OMaxF || nt.op == OArgMax || nt.op == OMinF || nt.op == OArgMin || nt.op == OFirst || nt.op == OExists || nt.op == OProd || nt.op == OFold {
		// binder heights stored in ints[0] = top height used
		if len(nt.ints) > 0 && nt.ints[0] > nt.h {
			nt.h = nt.ints[0]
		}
	}
	nt.skel = skelOf(&nt)
	r := &nt
	hcons[k] = r
	termIndex = append(termIndex, r)
	if nterms > termLimit {
		if os.Getenv("NNSTACK") != "" {
			panic("grew")
		}
		panic(undecided{"the summary grew too large"})
	}
	return r
}

var termIndex = []*Term{nil}

func itoa(i int) string { return strconv.Itoa(i) }

var termLimit = 6000000

type undecided struct{ why string }

func mergeVars(a, b []int32) []int32 {
	if len(b) == 0 {
		return a
	}
	if len(a) == 0 {
		return b
	}
	// subset check
	i, j := 0, 0
	sub := true
	for j < len(b) {
		for i < len(a) && a[i] < b[j] {
			i++
		}
		if i >= len(a) || a[i] != b[j] {
			sub = false
			break
		}
		j++
	}
	if sub {
		return a
	}
	r := make([]int32, 0, len(a)+len(b))
	i, j = 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i] < b[j]):
			r = append(r, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	return r
}

func (t *Term) hasVar(v *Term) bool {
	id := int32(v.id)
	i := sort.Search(len(t.vars), func(i int) bool { return t.vars[i] >= id })
	return i < len(t.vars) && t.vars[i] == id
}

func (t *Term) hasAnyVar(vs []int32) bool {
	i, j := 0, 0
	for i < len(t.vars) && j < len(vs) {
		switch {
		case t.vars[i] < vs[j]:
			i++
		case t.vars[i] > vs[j]:
			j++
		default:
			return true
		}
	}
	return false
}

var (
	True  = mk(Term{op: OTrue})
	False = mk(Term{op: OFalse})
	Nil   = mk(Term{op: ONil})
	Zero  = mkPoly(nil)
	One   = numInt(1)
)

var symCount = 0

// fresh creates a new symbol.
func fresh(name string, isInt bool) *Term {
	symCount++
	return mk(Term{op: OSym, name: fmt.Sprintf("%s'%d", name, symCount), isInt: isInt})
}

func sym(name string, isInt bool) *Term { return mk(Term{op: OSym, name: name, isInt: isInt}) }

func boolT(b bool) *Term {
	if b {
		return True
	}
	return False
}

// ---------- polynomials ----------

func monoKey(f []fac) string { return string(appendMono(nil, f)) }

func appendMono(b []byte, f []fac) []byte {
	for _, x := range f {
		b = append(b, '*')
		b = strconv.AppendInt(b, int64(x.t.id), 10)
		b = append(b, '^')
		b = strconv.AppendInt(b, int64(x.e), 10)
	}
	return b
}

func appendRat(b []byte, c *big.Rat) []byte {
	if c.IsInt() && c.Num().IsInt64() {
		return strconv.AppendInt(b, c.Num().Int64(), 10)
	}
	return append(b, c.RatString()...)
}

func lessFacs(a, b []fac) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i].t.id != b[i].t.id {
			return a[i].t.id < b[i].t.id
		}
		if a[i].e != b[i].e {
			return a[i].e < b[i].e
		}
	}
	return len(a) < len(b)
}

func mkPoly(ms []mono) *Term {
	isInt := true
	for i := range ms {
		if !ms[i].c.IsInt() {
			isInt = false
			break
		}
		for _, f := range ms[i].f {
			if f.e < 0 || !f.t.isInt {
				isInt = false
			}
		}
	}
	return mk(Term{op: OPoly, p: ms, isInt: isInt})
}

// polyFrom normalises a list of monomials.
func polyFrom(ms []mono) *Term {
	if len(ms) == 1 {
		if ms[0].c.Sign() == 0 {
			return mkPoly(nil)
		}
		return mkPoly(ms)
	}
	idx := map[string]int{}
	var out []mono
	for _, m := range ms {
		k := monoKey(m.f)
		if i, ok := idx[k]; ok {
			out[i].c = new(big.Rat).Add(out[i].c, m.c)
		} else {
			idx[k] = len(out)
			out = append(out, mono{m.c, m.f})
		}
	}
	res := out[:0]
	for _, m := range out {
		if m.c.Sign() != 0 {
			res = append(res, m)
		}
	}
	sort.Slice(res, func(i, j int) bool { return lessFacs(res[i].f, res[j].f) })
	return mkPoly(append([]mono(nil), res...))
}

func numRat(r *big.Rat) *Term {
	if r.Sign() == 0 {
		return mkPoly(nil)
	}
	return mkPoly([]mono{{r, nil}})
}
func numInt(i int64) *Term { return numRat(new(big.Rat).SetInt64(i)) }
func numFrac(a, b int64) *Term {
	return numRat(new(big.Rat).SetFrac64(a, b))
}

// num wraps a numeric atom as a polynomial.
func num(atom *Term) *Term {
	switch atom.op {
	case OPoly, OIte:
		return atom
	}
	return mkPoly([]mono{{ratOne, []fac{{atom, 1}}}})
}

var ratOne = big.NewRat(1, 1)
var ratZero = new(big.Rat)

func (t *Term) isConst() bool {
	return t.op == OPoly && (len(t.p) == 0 || (len(t.p) == 1 && len(t.p[0].f) == 0))
}
func (t *Term) constVal() *big.Rat {
	if len(t.p) == 0 {
		return ratZero
	}
	return t.p[0].c
}
func (t *Term) constInt() (int64, bool) {
	if t.isConst() && t.constVal().IsInt() && t.constVal().Num().IsInt64() {
		return t.constVal().Num().Int64(), true
	}
	return 0, false
}

// asAtom returns the single atom a polynomial consists of, if it does.
func (t *Term) asAtom() *Term {
	if t.op == OPoly && len(t.p) == 1 && len(t.p[0].f) == 1 && t.p[0].f[0].e == 1 && t.p[0].c.Cmp(ratOne) == 0 {
		return t.p[0].f[0].t
	}
	return nil
}

func leafAdd(a, b *Term) *Term {
	if len(a.p) == 0 {
		return b
	}
	if len(b.p) == 0 {
		return a
	}
	key := [2]int{a.id, b.id}
	if r, ok := leafAddMemo[key]; ok {
		return r
	}
	r := leafMerge(a, b)
	leafAddMemo[key] = r
	return r
}

var leafAddMemo = map[[2]int]*Term{}

// leafMerge merges the sorted lists.
func leafMerge(a, b *Term) *Term {
	out := make([]mono, 0, len(a.p)+len(b.p))
	i, j := 0, 0
	for i < len(a.p) || j < len(b.p) {
		switch {
		case j >= len(b.p):
			out = append(out, a.p[i])
			i++
		case i >= len(a.p):
			out = append(out, b.p[j])
			j++
		default:
			ka, kb := a.p[i].f, b.p[j].f
			if lessFacs(ka, kb) {
				out = append(out, a.p[i])
				i++
			} else if lessFacs(kb, ka) {
				out = append(out, b.p[j])
				j++
			} else {
				c := new(big.Rat).Add(a.p[i].c, b.p[j].c)
				if c.Sign() != 0 {
					out = append(out, mono{c, ka})
				}
				i++
				j++
			}
		}
	}
	return mkPoly(out)
}

func leafScale(a *Term, c *big.Rat) *Term {
	if c.Sign() == 0 {
		return Zero
	}
	if c.Cmp(ratOne) == 0 {
		return a
	}
	out := make([]mono, len(a.p))
	for i, m := range a.p {
		out[i] = mono{new(big.Rat).Mul(m.c, c), m.f}
	}
	return mkPoly(out)
}

// mulFacs multiplies two factor lists. extra collects polynomial factors that
// result from simplification; zero reports a vanishing product.
func mulFacs(a, b []fac) (out []fac, extra []*Term, zero bool) {
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i].t.id < b[j].t.id):
			out = append(out, a[i])
			i++
		case i >= len(a) || b[j].t.id < a[i].t.id:
			out = append(out, b[j])
			j++
		default:
			e := a[i].e + b[j].e
			if a[i].t.op == OInd && e > 1 {
				e = 1
			}
			if e != 0 {
				out = append(out, fac{a[i].t, e})
			}
			i++
			j++
		}
	}
	res := out[:0:0]
	var lt, eq map[int]bool
	for _, f := range out {
		switch f.t.op {
		case OSqrt:
			if f.e >= 2 || f.e <= -2 {
				q := f.e / 2
				extra = append(extra, powInt(f.t.a[0], q))
				if f.e%2 != 0 {
					res = append(res, fac{f.t, f.e % 2})
				}
				continue
			}
		case OInvB:
			if f.e > 0 {
				extra = append(extra, powInt(f.t.a[0], f.e))
				continue
			}
		case OInd:
			c := f.t.a[0]
			if c.op == OLt0 {
				if lt == nil {
					lt = map[int]bool{}
				}
				lt[c.a[0].id] = true
			} else if c.op == OEq0 {
				if eq == nil {
					eq = map[int]bool{}
				}
				eq[c.a[0].id] = true
			}
		}
		res = append(res, f)
	}
	for k := range lt {
		if eq[k] {
			return nil, nil, true
		}
	}
	return res, extra, false
}

func leafMul(a, b *Term) *Term {
	if len(a.p) == 0 || len(b.p) == 0 {
		return Zero
	}
	if a.isConst() {
		return leafScale(b, a.constVal())
	}
	if b.isConst() {
		return leafScale(a, b.constVal())
	}
	var ms []mono
	var extras *Term
	for _, x := range a.p {
		for _, y := range b.p {
			f, extra, zero := mulFacs(x.f, y.f)
			if zero {
				continue
			}
			c := new(big.Rat).Mul(x.c, y.c)
			if extra != nil {
				t := mkPoly([]mono{{c, f}})
				for _, e := range extra {
					t = Mul(t, e)
				}
				if extras == nil {
					extras = t
				} else {
					extras = Add(extras, t)
				}
				continue
			}
			ms = append(ms, mono{c, f})
		}
	}
	r := polyFrom(ms)
	if extras != nil {
		r = Add(r, extras)
	}
	return r
}

func powInt(t *Term, n int) *Term {
	if n == 0 {
		return One
	}
	if n < 0 {
		return Inv(powInt(t, -n))
	}
	r := t
	for i := 1; i < n; i++ {
		r = Mul(r, t)
	}
	return r
}

func leafInv(a *Term) *Term {
	if len(a.p) == 0 {
		return mk(Term{op: OPoly, p: []mono{{ratOne, []fac{{mk(Term{op: OOpaque, name: "1/0"}), 1}}}}})
	}
	if len(a.p) == 1 {
		m := a.p[0]
		f := make([]fac, 0, len(m.f))
		var extra []*Term
		for _, x := range m.f {
			if x.t.op == OInvB { // 1/(1/q) = q
				extra = append(extra, powInt(x.t.a[0], -x.e))
				continue
			}
			f = append(f, fac{x.t, -x.e})
		}
		r := mkPoly([]mono{{new(big.Rat).Inv(m.c), f}})
		for _, e := range extra {
			r = Mul(r, e)
		}
		return r
	}
	// factor out the leading coefficient and the common monomial
	common := commonFactor(a)
	c := a.p[0].c
	var rest *Term
	{
		ms := make([]mono, len(a.p))
		inv := invFacs(common)
		for i, m := range a.p {
			f, extra, _ := mulFacs(m.f, inv)
			if extra != nil {
				f = m.f
			}
			ms[i] = mono{new(big.Rat).Quo(m.c, c), f}
		}
		rest = polyFrom(ms)
		if len(rest.p) != len(a.p) {
			rest = nil
		} else if rest.p[0].c.Cmp(ratOne) != 0 {
			c2 := rest.p[0].c
			rest = leafScale(rest, new(big.Rat).Inv(c2))
			c = new(big.Rat).Mul(c, c2)
		}
	}
	if rest == nil {
		rest, c, common = a, ratOne, nil
	}
	at := mk(Term{op: OInvB, a: []*Term{rest}})
	base := mkPoly([]mono{{new(big.Rat).Inv(c), []fac{{at, -1}}}})
	if len(common) == 0 {
		return base
	}
	return leafMul(base, mkPoly([]mono{{ratOne, invFacs(common)}}))
}

func invFacs(f []fac) []fac {
	r := make([]fac, len(f))
	for i, x := range f {
		r[i] = fac{x.t, -x.e}
	}
	return r
}

// commonFactor returns the largest monomial dividing every term (negative
// exponents are factored out completely).
func commonFactor(a *Term) []fac {
	if len(a.p) == 0 {
		return nil
	}
	min := map[*Term]int{}
	for _, f := range a.p[0].f {
		min[f.t] = f.e
	}
	for _, m := range a.p[1:] {
		seen := map[*Term]int{}
		for _, f := range m.f {
			seen[f.t] = f.e
			if _, ok := min[f.t]; !ok && f.e < 0 {
				min[f.t] = 0
			}
		}
		for t, e := range min {
			if seen[t] < e {
				min[t] = seen[t]
			}
		}
	}
	// an atom absent from a term counts as exponent zero there
	for t := range min {
		for _, m := range a.p {
			e := 0
			for _, f := range m.f {
				if f.t == t {
					e = f.e
				}
			}
			if e < min[t] {
				min[t] = e
			}
		}
	}
	var r []fac
	for t, e := range min {
		if e != 0 && t.op != OInd {
			r = append(r, fac{t, e})
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].t.id < r[j].t.id })
	return r
}

// ---------- decision diagrams ----------

func atomKey(a *Term) (int, int) {
	switch a.op {
	case OLt0:
		return a.a[0].id, 0
	case OEq0:
		return a.a[0].id, 1
	}
	return a.id, 2
}

func atomLess(a, b *Term) bool {
	x, k := atomKey(a)
	y, l := atomKey(b)
	if x != y {
		return x < y
	}
	return k < l
}

// node builds a decision node for a condition atom that precedes all atoms of
// its branches.
func node(v, hi, lo *Term) *Term {
	if v.op == OLt0 && hi.op == OIte && hi.a[0].op == OEq0 && hi.a[0].a[0] == v.a[0] {
		hi = hi.a[2]
	}
	if hi == lo {
		return hi
	}
	if hi.op == OTuple && lo.op == OTuple && len(hi.a) == len(lo.a) {
		out := make([]*Term, len(hi.a))
		for i := range hi.a {
			out[i] = Ite(v, hi.a[i], lo.a[i])
		}
		return mk(Term{op: OTuple, a: out})
	}
	if hi.op == OSlice && lo.op == OSlice && hi.a[0] == lo.a[0] {
		return Slice(hi.a[0], Ite(v, hi.a[1], lo.a[1]), Ite(v, hi.a[2], lo.a[2]))
	}
	if hi.op == OIface && lo.op == OIface && hi.x == lo.x && hi.a[0].op == OTuple && lo.a[0].op == OTuple {
		return mk(Term{op: OIface, x: hi.x, a: []*Term{node(v, hi.a[0], lo.a[0])}})
	}
	return mk(Term{op: OIte, a: []*Term{v, hi, lo}, isInt: hi.isInt && lo.isInt})
}

func topAtom(ts ...*Term) *Term {
	var v *Term
	for _, t := range ts {
		if t.op == OIte && (v == nil || atomLess(t.a[0], v)) {
			v = t.a[0]
		}
	}
	return v
}

func isBoolAtom(t *Term) bool {
	switch t.op {
	case OLt0, OEq0, OBApp, OIsNil, OExists, OStrEq, OTypeIs, OSameV:
		return true
	}
	return false
}

// boolOf turns a condition atom into a boolean diagram.
func boolOf(a *Term) *Term {
	if isBoolAtom(a) {
		return mk(Term{op: OIte, a: []*Term{a, True, False}})
	}
	return a
}

// cofTop is the cofactor with respect to an atom not below the top one.
func cofTop(t, v *Term, val bool) *Term {
	if t.op == OIte && t.a[0] == v {
		if val {
			return t.a[1]
		}
		return t.a[2]
	}
	if val && v.op == OLt0 && t.op == OIte && t.a[0].op == OEq0 && t.a[0].a[0] == v.a[0] {
		return t.a[2]
	}
	return t
}

type key3 [3]int

var iteMemo = map[key3]*Term{}

// Ite is the general if-then-else of a boolean term and two values.
func Ite(c, a, b *Term) *Term {
	c = boolOf(c)
	switch {
	case c == True:
		return a
	case c == False:
		return b
	case a == b:
		return a
	}
	if a.op == OTuple && b.op == OTuple && len(a.a) == len(b.a) {
		out := make([]*Term, len(a.a))
		for i := range a.a {
			out[i] = Ite(c, a.a[i], b.a[i])
		}
		return mk(Term{op: OTuple, a: out})
	}
	k := key3{c.id, a.id, b.id}
	if r, ok := iteMemo[k]; ok {
		return r
	}
	v := topAtom(c, a, b)
	hi := Ite(cofTop(c, v, true), cofTop(a, v, true), cofTop(b, v, true))
	lo := Ite(cofTop(c, v, false), cofTop(a, v, false), cofTop(b, v, false))
	r := node(v, hi, lo)
	iteMemo[k] = r
	return r
}

func And(xs ...*Term) *Term {
	r := True
	for _, x := range xs {
		r = Ite(r, boolOf(x), False)
	}
	return r
}
func Or(xs ...*Term) *Term {
	r := False
	for _, x := range xs {
		r = Ite(r, True, boolOf(x))
	}
	return r
}
func Not(x *Term) *Term { return Ite(x, False, True) }

var cofMemo = map[key3]*Term{}

// Cof is the cofactor of a diagram with respect to any atom.
func Cof(t, v *Term, val bool) *Term {
	if t.op == OTuple {
		out := make([]*Term, len(t.a))
		for i := range t.a {
			out[i] = Cof(t.a[i], v, val)
		}
		return mk(Term{op: OTuple, a: out})
	}
	if t.op == OSlice {
		return Slice(t.a[0], Cof(t.a[1], v, val), Cof(t.a[2], v, val))
	}
	if t.op != OIte {
		return t
	}
	b := 0
	if val {
		b = 1
	}
	if t.a[0] == v {
		return t.a[2-b]
	}
	if atomLess(v, t.a[0]) && !(v.op == OLt0) && !(v.op == OEq0) {
		// all atoms of t come later
		return t
	}
	// exclusivity of < and ==
	if val && ((v.op == OLt0 && t.a[0].op == OEq0) || (v.op == OEq0 && t.a[0].op == OLt0)) && v.a[0] == t.a[0].a[0] {
		return Cof(t.a[2], v, val)
	}
	k := key3{t.id, v.id, b}
	if r, ok := cofMemo[k]; ok {
		return r
	}
	r := Ite(boolOf(t.a[0]), Cof(t.a[1], v, val), Cof(t.a[2], v, val))
	cofMemo[k] = r
	return r
}

// Restrict simplifies f given that the condition care holds.
func Restrict(f, care *Term) *Term {
	if care == True || care == False {
		return f
	}
	switch f.op {
	case OTuple:
		out := make([]*Term, len(f.a))
		for i := range f.a {
			out[i] = Restrict(f.a[i], care)
		}
		return mk(Term{op: OTuple, a: out})
	case OSlice:
		return Slice(f.a[0], Restrict(f.a[1], care), Restrict(f.a[2], care))
	case OIte:
	default:
		return f
	}
	memo := map[[2]int]*Term{}
	var rec func(f, c *Term) *Term
	rec = func(f, c *Term) *Term {
		if f.op != OIte || c == True {
			return f
		}
		k := [2]int{f.id, c.id}
		if r, ok := memo[k]; ok {
			return r
		}
		var r *Term
		v := topAtom(f, c)
		c1, c0 := cofTop(c, v, true), cofTop(c, v, false)
		f1, f0 := cofTop(f, v, true), cofTop(f, v, false)
		switch {
		case c1 == False:
			r = rec(f0, c0)
		case c0 == False:
			r = rec(f1, c1)
		case f1 == f0:
			r = rec(f, Ite(c1, True, c0))
		default:
			r = Ite(boolOf(v), rec(f1, c1), rec(f0, c0))
		}
		memo[k] = r
		return r
	}
	return rec(f, care)
}

// lift applies f to the leaves of diagrams.
func lift(args []*Term, f func([]*Term) *Term) *Term {
	v := topAtom(args...)
	if v == nil {
		return f(args)
	}
	if len(args) == 1 {
		memo := map[int]*Term{}
		var rec func(t *Term) *Term
		rec = func(t *Term) *Term {
			if t.op != OIte {
				return f([]*Term{t})
			}
			if r, ok := memo[t.id]; ok {
				return r
			}
			r := Ite(boolOf(t.a[0]), rec(t.a[1]), rec(t.a[2]))
			memo[t.id] = r
			return r
		}
		return rec(args[0])
	}
	hi := make([]*Term, len(args))
	lo := make([]*Term, len(args))
	for i, a := range args {
		hi[i] = cofTop(a, v, true)
		lo[i] = cofTop(a, v, false)
	}
	return Ite(boolOf(v), lift(hi, f), lift(lo, f))
}

type key2 [2]int

var addMemo = map[key2]*Term{}
var mulMemo = map[key2]*Term{}

func Add(a, b *Term) *Term {
	a, b = numOf(a), numOf(b)
	if a.op == OPoly && b.op == OPoly {
		return leafAdd(a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	k := key2{a.id, b.id}
	if r, ok := addMemo[k]; ok {
		return r
	}
	v := topAtom(a, b)
	r := Ite(boolOf(v), Add(cofTop(a, v, true), cofTop(b, v, true)), Add(cofTop(a, v, false), cofTop(b, v, false)))
	addMemo[k] = r
	return r
}

func Mul(a, b *Term) *Term {
	a, b = numOf(a), numOf(b)
	if a.op == OPoly && b.op == OPoly {
		return leafMul(a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	k := key2{a.id, b.id}
	if r, ok := mulMemo[k]; ok {
		return r
	}
	v := topAtom(a, b)
	r := Ite(boolOf(v), Mul(cofTop(a, v, true), cofTop(b, v, true)), Mul(cofTop(a, v, false), cofTop(b, v, false)))
	mulMemo[k] = r
	return r
}

// numOf makes sure a numeric term is in polynomial form.
func numOf(t *Term) *Term {
	switch t.op {
	case OPoly, OIte:
		return t
	case OSym, OBV, OApp, OInvB, OExp, OLog, OSqrt, OPow, OTrunc, OFloor, OIdiv, OWrap, OSum, OMaxF, OArgMax, OMinF, OArgMin, OFirst, OFold, OProd, OInd, OOpaque:
		return num(t)
	case OUndef:
		return num(mk(Term{op: OOpaque, name: "undefined"}))
	}
	panic(undecided{"a non-numeric value is used as a number: " + t.String()})
}

var negMemo = map[*Term]*Term{}

func Neg(a *Term) *Term {
	if a.op != OPoly {
		return Mul(numInt(-1), a)
	}
	if r, ok := negMemo[a]; ok {
		return r
	}
	r := Mul(numInt(-1), a)
	negMemo[a] = r
	return r
}
func Sub(a, b *Term) *Term { return Add(a, Neg(b)) }
func Inv(a *Term) *Term {
	return lift([]*Term{numOf(a)}, func(x []*Term) *Term { return leafInv(x[0]) })
}
func Div(a, b *Term) *Term { return Mul(a, Inv(b)) }

// ---------- comparisons ----------

func gcdInt(a, b *big.Int) *big.Int {
	return new(big.Int).GCD(nil, nil, new(big.Int).Abs(a), new(big.Int).Abs(b))
}

func mixHash(h, x uint64) uint64 {
	h ^= x + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	return h
}

func strHash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func skelOf(t *Term) uint64 {
	h := mixHash(uint64(t.op)+1, 17)
	switch t.op {
	case OBV:
		return mixHash(77, 77)
	case OSym:
		if strings.Contains(t.name, "'") {
			return mixHash(77, 77)
		}
		return mixHash(h, strHash(t.name))
	case OPoly:
		var s uint64
		for i := range t.p {
			s += mixHash(monoSkel(t.p[i].f), strHash(t.p[i].c.RatString()))
		}
		return mixHash(h, s)
	case OIte:
		h = mixHash(h, t.a[0].skel)
		return mixHash(h, t.a[1].skel+t.a[2].skel)
	}
	h = mixHash(h, strHash(t.name))
	h = mixHash(h, uint64(xid(t.x)))
	for _, a := range t.a {
		h = mixHash(h, a.skel)
	}
	return h
}

func monoSkel(f []fac) uint64 {
	var s uint64 = 3
	for _, x := range f {
		s += mixHash(x.t.skel, uint64(x.e+1000))
	}
	return s
}

// leadIdx is the index of the monomial whose coefficient fixes the sign of a
// comparison: chosen by structure, so that renaming variables keeps it.
func leadIdx(q *Term) int {
	best := 0
	var bs uint64
	for i := range q.p {
		s := monoSkel(q.p[i].f)
		if i == 0 || s < bs {
			best, bs = i, s
		}
	}
	return best
}

// primitive scales p by a positive rational: integer terms get coprime integer
// coefficients of the non-constant part; real terms a leading coefficient of
// absolute value one.
func normScale(p *Term) (*Term, *big.Rat, bool) {
	// returns nonconstant part q (scaled), constant c (scaled), allInt
	var nc []mono
	c := new(big.Rat)
	allInt := true
	for _, m := range p.p {
		if len(m.f) == 0 {
			c.Set(m.c)
			continue
		}
		nc = append(nc, m)
		for _, f := range m.f {
			if f.e < 0 || !f.t.isInt {
				allInt = false
			}
		}
	}
	if allInt {
		l := big.NewInt(1)
		for _, m := range nc {
			g := gcdInt(l, m.c.Denom())
			l = new(big.Int).Div(new(big.Int).Mul(l, m.c.Denom()), g)
		}
		g := new(big.Int)
		for _, m := range nc {
			v := new(big.Rat).Mul(m.c, new(big.Rat).SetInt(l))
			g = gcdInt(g, v.Num())
		}
		s := new(big.Rat).SetFrac(l, g)
		return leafScale(mkPoly(nc), s), new(big.Rat).Mul(c, s), true
	}
	s := new(big.Rat).Inv(new(big.Rat).Abs(nc[leadIdx(&Term{p: nc})].c))
	return leafScale(mkPoly(nc), s), new(big.Rat).Mul(c, s), false
}

func floorRat(r *big.Rat) *big.Int {
	q := new(big.Int)
	m := new(big.Int)
	q.DivMod(r.Num(), r.Denom(), m) // Euclidean: denominators are positive
	return q
}
func ceilRat(r *big.Rat) *big.Int {
	return new(big.Int).Neg(floorRat(new(big.Rat).Neg(r)))
}

// ltZero is the condition p < 0 of a polynomial leaf.
func ltZero(p *Term) *Term {
	if p.isConst() {
		return boolT(p.constVal().Sign() < 0)
	}
	if s := signOf(p); s != sgnUnknown {
		if s&sgnNeg == 0 {
			return False
		}
		if s == sgnNeg {
			return True
		}
	}
	q, c, isInt := normScale(p)
	if isInt {
		// q + c < 0  <=>  q <= ceil(-c)-1  <=>  q - ceil(-c) < 0
		k := ceilRat(new(big.Rat).Neg(c))
		if q.p[leadIdx(q)].c.Sign() < 0 {
			// -q' < k  <=>  q' > -k <=> not (q' < -k+1)
			q2 := leafScale(q, big.NewRat(-1, 1))
			kk := new(big.Int).Sub(big.NewInt(1), k)
			return Not(boolOf(mk(Term{op: OLt0, a: []*Term{leafAdd(q2, numRat(new(big.Rat).SetInt(new(big.Int).Neg(kk))))}})))
		}
		return boolOf(mk(Term{op: OLt0, a: []*Term{leafAdd(q, numRat(new(big.Rat).SetInt(new(big.Int).Neg(k))))}}))
	}
	t := leafAdd(q, numRat(c))
	if q.p[leadIdx(q)].c.Sign() < 0 {
		t = leafScale(t, big.NewRat(-1, 1))
		return And(Not(boolOf(mk(Term{op: OLt0, a: []*Term{t}}))), Not(boolOf(mk(Term{op: OEq0, a: []*Term{t}}))))
	}
	return boolOf(mk(Term{op: OLt0, a: []*Term{t}}))
}

func eqZero(p *Term) *Term {
	if p.isConst() {
		return boolT(p.constVal().Sign() == 0)
	}
	if s := signOf(p); s != sgnUnknown && s&sgnZero == 0 {
		return False
	}
	q, c, isInt := normScale(p)
	if isInt && !c.IsInt() {
		return False
	}
	t := leafAdd(q, numRat(c))
	if q.p[leadIdx(q)].c.Sign() < 0 {
		t = leafScale(t, big.NewRat(-1, 1))
	}
	return boolOf(mk(Term{op: OEq0, a: []*Term{t}}))
}

func Lt(a, b *Term) *Term {
	return lift([]*Term{Sub(a, b)}, func(x []*Term) *Term { return ltZero(x[0]) })
}
func Le(a, b *Term) *Term { return Not(Lt(b, a)) }
func EqN(a, b *Term) *Term {
	return lift([]*Term{Sub(a, b)}, func(x []*Term) *Term { return eqZero(x[0]) })
}

// signs that hold for all real values of the atoms
type sgn int

const (
	sgnNeg     sgn = 1
	sgnZero    sgn = 2
	sgnPos     sgn = 4
	sgnUnknown sgn = 7
)

func (s sgn) mul(o sgn) sgn {
	var r sgn
	for _, a := range []sgn{sgnNeg, sgnZero, sgnPos} {
		if s&a == 0 {
			continue
		}
		for _, b := range []sgn{sgnNeg, sgnZero, sgnPos} {
			if o&b == 0 {
				continue
			}
			switch {
			case a == sgnZero || b == sgnZero:
				r |= sgnZero
			case a == b:
				r |= sgnPos
			default:
				r |= sgnNeg
			}
		}
	}
	return r
}
func (s sgn) add(o sgn) sgn {
	switch {
	case s == sgnZero:
		return o
	case o == sgnZero:
		return s
	}
	pos := s&sgnPos != 0 || o&sgnPos != 0
	neg := s&sgnNeg != 0 || o&sgnNeg != 0
	if pos && neg {
		return sgnUnknown
	}
	r := (s & o & sgnZero)
	if pos {
		r |= sgnPos
	}
	if neg {
		r |= sgnNeg
	}
	return r
}

func signAtom(t *Term) sgn {
	switch t.op {
	case OExp:
		return sgnPos
	case OSqrt:
		return sgnPos | sgnZero
	case OInd:
		return sgnPos | sgnZero
	case OInvB:
		return signOf(t.a[0])
	case OSum:
		s := signOf(t.a[len(t.a)-1])
		return s | sgnZero
	case OFirst, OArgMax, OArgMin:
		return sgnPos | sgnZero
	}
	return sgnUnknown
}

func signOf(p *Term) sgn {
	switch p.op {
	case OIte:
		return signOf(p.a[1]) | signOf(p.a[2])
	case OPoly:
	default:
		return signAtom(p)
	}
	r := sgnZero
	for _, m := range p.p {
		s := sgnPos
		if m.c.Sign() < 0 {
			s = sgnNeg
		}
		for _, f := range m.f {
			fs := signAtom(f.t)
			e := f.e
			if e < 0 {
				e = -e
				fs &^= sgnZero // a division's divisor is taken to be non-zero
			}
			if e%2 == 0 {
				if fs&sgnNeg != 0 {
					fs = fs&^sgnNeg | sgnPos
				}
			}
			s = s.mul(fs)
		}
		r = r.add(s)
		if r == sgnUnknown {
			return r
		}
	}
	return r
}

// ---------- other constructors ----------

func Tuple(xs ...*Term) *Term { return mk(Term{op: OTuple, a: xs}) }

func Slice(ref, off, n *Term) *Term { return mk(Term{op: OSlice, a: []*Term{ref, off, n}}) }

func Exp(a *Term) *Term {
	return lift([]*Term{numOf(a)}, func(x []*Term) *Term {
		r := One
		for _, m := range x[0].p {
			if len(m.f) == 1 && m.f[0].t.op == OLog && m.f[0].e == 1 && m.c.IsInt() {
				r = Mul(r, powInt(m.f[0].t.a[0], int(m.c.Num().Int64())))
				continue
			}
			arg := mkPoly([]mono{{new(big.Rat).SetFrac(big.NewInt(1), m.c.Denom()), m.f}})
			if !m.c.Num().IsInt64() {
				arg = mkPoly([]mono{m})
				r = Mul(r, num(mk(Term{op: OExp, a: []*Term{arg}})))
				continue
			}
			e := m.c.Num().Int64()
			if e > 64 || e < -64 {
				arg = mkPoly([]mono{m})
				e = 1
			}
			r = leafMul(r, mkPoly([]mono{{ratOne, []fac{{mk(Term{op: OExp, a: []*Term{arg}}), int(e)}}}}))
		}
		return r
	})
}

func Log(a *Term) *Term {
	return lift([]*Term{numOf(a)}, func(x []*Term) *Term {
		p := x[0]
		if p == One {
			return Zero
		}
		if at := p.asAtom(); at != nil && at.op == OExp {
			return at.a[0]
		}
		if len(p.p) == 1 && len(p.p[0].f) == 1 && p.p[0].c.Cmp(ratOne) == 0 && p.p[0].f[0].t.op == OExp {
			return leafScale(p.p[0].f[0].t.a[0], new(big.Rat).SetInt64(int64(p.p[0].f[0].e)))
		}
		return num(mk(Term{op: OLog, a: []*Term{p}}))
	})
}

func ratSqrt(r *big.Rat) (*big.Rat, bool) {
	if r.Sign() < 0 {
		return nil, false
	}
	n := new(big.Int).Sqrt(r.Num())
	d := new(big.Int).Sqrt(r.Denom())
	if new(big.Int).Mul(n, n).Cmp(r.Num()) == 0 && new(big.Int).Mul(d, d).Cmp(r.Denom()) == 0 {
		return new(big.Rat).SetFrac(n, d), true
	}
	return nil, false
}

func Sqrt(a *Term) *Term {
	return lift([]*Term{numOf(a)}, func(x []*Term) *Term {
		p := x[0]
		if len(p.p) == 0 {
			return Zero
		}
		common := commonFactor(p)
		rest := p
		out := One
		if len(common) > 0 {
			rest = leafMul(p, mkPoly([]mono{{ratOne, invFacs(common)}}))
			for _, f := range common {
				if f.e%2 == 0 && signAtom(f.t)&sgnNeg == 0 {
					out = leafMul(out, mkPoly([]mono{{ratOne, []fac{{f.t, f.e / 2}}}}))
				} else if f.t.op == OInvB {
					out = Mul(out, powInt(num(mk(Term{op: OSqrt, a: []*Term{f.t.a[0]}})), f.e))
				} else {
					out = Mul(out, powInt(num(mk(Term{op: OSqrt, a: []*Term{num(f.t)}})), f.e))
				}
			}
		}
		if rest.isConst() {
			c := rest.constVal()
			if s, ok := ratSqrt(c); ok {
				return leafMul(out, numRat(s))
			}
			// sqrt(p/q) = sqrt(p*q)/q
			pq := new(big.Int).Mul(c.Num(), c.Denom())
			at := num(mk(Term{op: OSqrt, a: []*Term{numRat(new(big.Rat).SetInt(pq))}}))
			return leafMul(out, leafScale(at, new(big.Rat).SetFrac(big.NewInt(1), c.Denom())))
		}
		return leafMul(out, num(mk(Term{op: OSqrt, a: []*Term{rest}})))
	})
}

func Pow(a, b *Term) *Term {
	return lift([]*Term{numOf(a), numOf(b)}, func(x []*Term) *Term {
		p, e := x[0], x[1]
		if e.isConst() {
			c := e.constVal()
			if c.IsInt() && c.Num().IsInt64() && c.Num().Int64() >= -8 && c.Num().Int64() <= 8 {
				return powInt(p, int(c.Num().Int64()))
			}
			if c.Cmp(big.NewRat(1, 2)) == 0 {
				return Sqrt(p)
			}
			if c.Cmp(big.NewRat(-1, 2)) == 0 {
				return Inv(Sqrt(p))
			}
		}
		if p == One {
			return One
		}
		// split off the constant integer part of the exponent
		var k int64
		for _, m := range e.p {
			if len(m.f) == 0 && m.c.IsInt() && m.c.Num().IsInt64() {
				k = m.c.Num().Int64()
			}
		}
		if k != 0 && k >= -8 && k <= 8 {
			return Mul(Pow(p, leafAdd(e, numInt(-k))), powInt(p, int(k)))
		}
		return num(mk(Term{op: OPow, a: []*Term{p, e}}))
	})
}

func Trunc(a *Term) *Term {
	return lift([]*Term{numOf(a)}, func(x []*Term) *Term {
		p := x[0]
		if p.isInt {
			return p
		}
		if p.isConst() {
			c := p.constVal()
			q := new(big.Int).Quo(c.Num(), c.Denom())
			return numRat(new(big.Rat).SetInt(q))
		}
		return num(mk(Term{op: OTrunc, a: []*Term{p}, isInt: true}))
	})
}

func Floor(a *Term) *Term {
	return lift([]*Term{numOf(a)}, func(x []*Term) *Term {
		p := x[0]
		if p.isInt {
			return p
		}
		if p.isConst() {
			return numRat(new(big.Rat).SetInt(floorRat(p.constVal())))
		}
		return num(mk(Term{op: OFloor, a: []*Term{p}, isInt: true}))
	})
}

// Idiv is Go's integer division.
func Idiv(a, b *Term) *Term {
	return lift([]*Term{numOf(a), numOf(b)}, func(x []*Term) *Term {
		p, q := x[0], x[1]
		if q == One {
			return p
		}
		if p.isConst() && len(p.p) == 0 {
			return Zero
		}
		if p.isConst() && q.isConst() && q.constVal().Sign() != 0 {
			return numRat(new(big.Rat).SetInt(new(big.Int).Quo(p.constVal().Num(), q.constVal().Num())))
		}
		if len(q.p) == 1 {
			// exact division
			d := leafMul(p, leafInv(q))
			if d.isInt {
				return d
			}
		}
		if p == q {
			return One
		}
		return num(mk(Term{op: OIdiv, a: []*Term{p, q}, isInt: true}))
	})
}

func Imod(a, b *Term) *Term { return Sub(a, Mul(b, Idiv(a, b))) }

func Max2(a, b *Term) *Term { return Ite(Lt(a, b), b, a) }
func Min2(a, b *Term) *Term { return Ite(Lt(b, a), b, a) }
func Abs(a *Term) *Term     { return Ite(Lt(a, Zero), Neg(a), a) }

// App applies an uninterpreted numeric function.
func App(f *Term, args ...*Term) *Term {
	return lift(args, func(x []*Term) *Term {
		return num(mk(Term{op: OApp, a: append([]*Term{f}, x...), isInt: f.isInt}))
	})
}

func BApp(f *Term, args ...*Term) *Term {
	return lift(args, func(x []*Term) *Term {
		return boolOf(mk(Term{op: OBApp, a: append([]*Term{f}, x...)}))
	})
}

func Str(s string) *Term { return mk(Term{op: OStr, name: s}) }

func IsNil(t *Term) *Term {
	return lift([]*Term{t}, func(x []*Term) *Term {
		switch x[0].op {
		case ONil:
			return True
		case OIface, OPtr, ORef, OFunc, OMapV:
			return False
		case OSlice:
			return boolT(x[0].a[0] == Nil)
		}
		return boolOf(mk(Term{op: OIsNil, a: []*Term{x[0]}}))
	})
}

// EqV compares two values of any kind.
func EqV(a, b *Term) *Term {
	if a == b {
		return True
	}
	return lift([]*Term{a, b}, func(x []*Term) *Term {
		a, b := x[0], x[1]
		switch {
		case a == b:
			return True
		case a == Nil:
			return IsNil(b)
		case b == Nil:
			return IsNil(a)
		case a.op == OTuple && b.op == OTuple && len(a.a) == len(b.a):
			r := True
			for i := range a.a {
				r = And(r, EqV(a.a[i], b.a[i]))
			}
			return r
		case isNumTerm(a) && isNumTerm(b):
			return EqN(a, b)
		case isBoolTerm(a) && isBoolTerm(b):
			return Ite(a, b, Not(b))
		case a.op == OStr && b.op == OStr:
			return boolT(a.name == b.name)
		}
		if a.op == OIface && b.op == OIface {
			if a.x != b.x || len(a.a) != len(b.a) {
				return False
			}
			r := True
			for i := range a.a {
				r = And(r, EqV(a.a[i], b.a[i]))
			}
			return r
		}
		if isStrTerm(a) && isStrTerm(b) {
			if a.id > b.id {
				a, b = b, a
			}
			return boolOf(mk(Term{op: OStrEq, a: []*Term{a, b}}))
		}
		if a.op == ORef && b.op == ORef {
			if a.x != b.x || len(a.a) != len(b.a) {
				return False
			}
			r := True
			for i := range a.a {
				r = And(r, EqN(a.a[i], b.a[i]))
			}
			return r
		}
		if a.op == OPtr && b.op == OPtr {
			if a.a[0].op == ORef && b.a[0].op == ORef && a.a[0].x != b.a[0].x {
				return False
			}
			if diffFields(a.ints, b.ints) {
				return False
			}
		}
		if a.id > b.id {
			a, b = b, a
		}
		return boolOf(mk(Term{op: OSameV, a: []*Term{a, b}}))
	})
}

// diffFields: the paths part at some field, so neither contains the other.
func diffFields(a, b []int) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return true
		}
	}
	return false
}

func isNumTerm(t *Term) bool {
	switch t.op {
	case OPoly:
		return true
	case OIte:
		return isNumTerm(t.a[1])
	}
	return false
}
func isBoolTerm(t *Term) bool {
	switch t.op {
	case OTrue, OFalse:
		return true
	case OIte:
		return isBoolTerm(t.a[1])
	}
	return false
}
func isStrTerm(t *Term) bool {
	switch t.op {
	case OStr, OStrT:
		return true
	case OIte:
		return isStrTerm(t.a[1])
	}
	return false
}

// StrT is a symbolic string.
func StrT(name string, args ...*Term) *Term {
	return lift(args, func(x []*Term) *Term { return mk(Term{op: OStrT, name: name, a: x}) })
}

// Opaque is an opaque value.
func Opaque(name string, args ...*Term) *Term {
	return lift(args, func(x []*Term) *Term { return mk(Term{op: OOpaque, name: name, a: x}) })
}

// ---------- printing ----------

var printDepth = 8

func init() {
	if n, err := strconv.Atoi(os.Getenv("NNDEPTH")); err == nil {
		printDepth = n
	}
}

func (t *Term) String() string {
	s := t.str(printDepth)
	if len(s) > 200*printDepth {
		s = s[:1500] + "…"
	}
	return s
}

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d < 0 {
		return "…"
	}
	args := func(ts []*Term) string {
		var r []string
		for _, a := range ts {
			r = append(r, a.str(d-1))
		}
		return strings.Join(r, ", ")
	}
	switch t.op {
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OIte:
		if t.a[1] == True && t.a[2] == False {
			return t.a[0].str(d)
		}
		if t.a[1] == False && t.a[2] == True {
			return "!(" + t.a[0].str(d) + ")"
		}
		return "if(" + t.a[0].str(d-1) + " ? " + t.a[1].str(d-1) + " : " + t.a[2].str(d-1) + ")"
	case OPoly:
		if len(t.p) == 0 {
			return "0"
		}
		var r []string
		for _, m := range t.p {
			var f []string
			if m.c.Cmp(ratOne) != 0 || len(m.f) == 0 {
				f = append(f, m.c.RatString())
			}
			for _, x := range m.f {
				s := x.t.str(d - 1)
				if x.e != 1 {
					s += fmt.Sprintf("^%d", x.e)
				}
				f = append(f, s)
			}
			r = append(r, strings.Join(f, "*"))
		}
		s := strings.Join(r, " + ")
		if len(r) > 1 {
			s = "(" + s + ")"
		}
		return s
	case OSym:
		return strings.SplitN(t.name, "'", 2)[0]
	case OBV:
		return fmt.Sprintf("k%d", t.n)
	case OApp, OBApp:
		return t.a[0].str(0) + "(" + args(t.a[1:]) + ")"
	case OLt0:
		return t.a[0].str(d-1) + " < 0"
	case OEq0:
		return t.a[0].str(d-1) + " == 0"
	case OInd:
		return "[" + t.a[0].str(d-1) + "]"
	case OStr:
		return strconv.Quote(t.name)
	case OInvB:
		return t.a[0].str(d - 1)
	case ONil:
		return "nil"
	case ORef:
		return t.x.(*Family).name + "[" + args(t.a) + "]"
	}
	names := map[Op]string{OExp: "exp", OLog: "log", OSqrt: "sqrt", OPow: "pow", OTrunc: "int", OFloor: "floor", OIdiv: "div", OWrap: "wrap", OSum: "sum", OMaxF: "max", OArgMax: "argmax", OMinF: "min", OArgMin: "argmin", OFirst: "first", OFold: "fold", OProd: "prod", OIsNil: "isnil", OExists: "exists", OStrEq: "streq", OTypeIs: "typeis", OSameV: "same", OTuple: "tuple", OSlice: "slice", OPtr: "ptr", OIface: "iface", OStrT: "str", OFunc: "func", OOpaque: "opaque", OMapV: "map", OUndef: "undef"}
	s := names[t.op]
	if t.name != "" {
		s += ":" + t.name
	}
	if len(t.ints) > 0 && t.op == OPtr {
		s += fmt.Sprint(t.ints)
	}
	return s + "(" + args(t.a) + ")"
}
