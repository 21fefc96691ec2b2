package main

// Loop summaries: every value or storage leaf changed by a loop gets a closed
// form in the iteration number, derived from its recurrence.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

type leaf struct {
	phi    *ssa.Phi
	fam    *Family
	typ    types.Type
	li     int
	kind   leafKind
	args   []*Term // placeholders of the family
	f      *Term   // symbol of the current value
	cur    *Term
	init   *Term
	status int // 0 invariant, 1 current, 2 closed
	closed *Term
	next   *Term
	grown  bool
	isRef  bool
}

func (l *leaf) value() *Term {
	switch l.status {
	case 1:
		return l.cur
	case 2:
		return l.closed
	}
	return l.init
}

func (l *leaf) String() string {
	if l.phi != nil {
		return fmt.Sprintf("%s/%d", l.phi.Comment, l.li)
	}
	return fmt.Sprintf("%s/%d", l.fam.name, l.li)
}

func refLeaves(t types.Type) []bool {
	// which leaves are slice references
	var r []bool
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			r = append(r, refLeaves(u.Field(i).Type())...)
		}
		return r
	case *types.Slice:
		return []bool{true, false, false}
	case *types.Array:
		for i := int64(0); i < u.Len(); i++ {
			r = append(r, refLeaves(u.Elem())...)
		}
		return r
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			r = append(r, refLeaves(u.At(i).Type())...)
		}
		return r
	}
	return []bool{false}
}

var loopCount = 0

// inductionStep recognises phis that change by a constant.
func inductionStep(l *Loop, p *ssa.Phi) (int64, bool) {
	if !isInteger(p.Type()) {
		return 0, false
	}
	var step int64
	found := false
	for j, pred := range p.Block().Preds {
		if !l.blocks[pred] {
			continue
		}
		b, ok := p.Edges[j].(*ssa.BinOp)
		if !ok || b.X != ssa.Value(p) {
			return 0, false
		}
		c, ok := b.Y.(*ssa.Const)
		if !ok || c.Value == nil {
			return 0, false
		}
		s := c.Int64()
		if b.Op == token.SUB {
			s = -s
		} else if b.Op != token.ADD {
			return 0, false
		}
		if found && s != step {
			return 0, false
		}
		step, found = s, true
	}
	return step, found
}

// neverWraps tells whether a counter is only stepped by one while it is below
// (above) another value of its type.
func neverWraps(l *Loop, p *ssa.Phi, step int64) bool {
	br, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok || !l.blocks[l.header.Succs[0]] || l.blocks[l.header.Succs[1]] {
		return false
	}
	b, ok := br.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	return step == 1 && (b.Op == token.LSS && b.X == ssa.Value(p) || b.Op == token.GTR && b.Y == ssa.Value(p)) ||
		step == -1 && (b.Op == token.GTR && b.X == ssa.Value(p) || b.Op == token.LSS && b.Y == ssa.Value(p))
}

func (ev *Eval) runLoop(fr *frame, li *LoopInfo, l *Loop, st0 *State, pc0 *Term, base *Facts, phiInit map[*ssa.Phi]*Term) []edge {
	if n, rg, keys := ev.constTrips(fr, l, st0, phiInit, base.With(pc0)); n >= 0 {
		return ev.unroll(fr, li, l, n, rg, keys, st0, pc0, base, phiInit)
	}
	key := fr.ctx + "/loop" + fmt.Sprint(l.header.Index) + fr.fn.RelString(ev.w.pkg.Pkg)
	depth := len(ev.open)
	t := num(sym(fmt.Sprintf("t%d.%s", depth, key), true))
	setLo(varAtom(t), Zero)
	tv := varAtom(t)
	lc := &LoopCtx{t: t, loop: l, ctx: key}
	ev.open = append(ev.open, lc)
	defer func() { ev.open = ev.open[:len(ev.open)-1] }()
	ibase := base.With(pc0).With(Le(Zero, t))
	baseFacts := base.With(pc0)

	leaves := map[string]*leaf{}
	var order []*leaf
	addLeaves := func(k string, phi *ssa.Phi, fam *Family, typ types.Type, init *Term, args []*Term) []*leaf {
		var out []*leaf
		kinds := leavesOf(typ)
		vals := comps(typ, init)
		refs := refLeaves(typ)
		for i := range kinds {
			name := fmt.Sprintf("%s|%d", k, i)
			lf, ok := leaves[name]
			if !ok {
				f := sym("cur:"+key+"|"+name, kinds[i] == lkInt)
				lf = &leaf{phi: phi, fam: fam, typ: typ, li: i, kind: kinds[i], args: args, f: f, init: vals[i], isRef: refs[i]}
				lf.cur = leafFn(kinds[i], f, args)
				if kinds[i] == lkInt {
					if n := intBits(typ); n != 0 {
						lo, hi := wrapRange(n)
						setLo(f, numRat(new(big.Rat).SetInt(lo)))
						setHi(f, numRat(new(big.Rat).SetInt(hi)))
					}
				}
				leaves[name] = lf
				order = append(order, lf)
			}
			out = append(out, lf)
		}
		return out
	}
	phiLeaves := map[*ssa.Phi][]*leaf{}
	famLeaves := map[*Family][]*leaf{}
	var phis []*ssa.Phi
	for _, ins := range l.header.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		k := "phi" + p.Name()
		ls := addLeaves(k, p, nil, p.Type(), phiInit[p], nil)
		phiLeaves[p] = ls
		if step, ok := inductionStep(l, p); ok {
			ls[0].status = 2
			ls[0].closed = Add(ls[0].init, Mul(numInt(step), t))
			if !neverWraps(l, p, step) {
				ls[0].closed = wrapTo(p.Type(), ls[0].closed)
			}
		}
	}

	nilFix := func(lf *leaf) bool {
		// a nil slice that is appended to in the loop starts as an empty one
		if !lf.isRef || lf.grown {
			return false
		}
		hasNil := false
		for _, g := range cases(lf.init) {
			if g.v == Nil {
				hasNil = true
			}
		}
		if !hasNil || lf.next == nil {
			return false
		}
		var elem types.Type
		et := sliceElemAt(lf.typ, lf.li)
		if et == nil {
			return false
		}
		elem = et
		if lf.fam != nil && lf.fam.nal > 0 {
			return false
		}
		if lf.fam != nil && lf.fam.kind != famCell {
			return false
		}
		// only when the next value is an append result
		app := false
		for _, g := range cases(lf.next) {
			if g.v.op == ORef && g.v.fam().name == "append" {
				app = true
			}
		}
		if !app {
			return false
		}
		saved := ev.open
		ev.open = ev.open[:len(ev.open)-1]
		_, ref, _ := ev.allocFam(key+"/grow/"+lf.String(), "append", famElems, elem)
		ev.open = saved
		lf.init = lift([]*Term{lf.init}, func(a []*Term) *Term {
			if a[0] == Nil {
				return ref
			}
			return a[0]
		})
		lf.grown = true
		return true
	}

	var out regionOut
	var hdr *State
	iterate := func() {
		hdr = st0.clone()
		for f, ls := range famLeaves {
			vs := make([]*Term, len(ls))
			ch := false
			for i, lf := range ls {
				vs[i] = lf.value()
				if lf.status != 0 || lf.grown {
					ch = true
				}
			}
			if ch {
				hdr.mem[f] = build(contentType(f), vs)
			}
		}
		hp := map[*ssa.Phi]*Term{}
		for _, p := range phis {
			var vs []*Term
			for _, lf := range phiLeaves[p] {
				vs = append(vs, lf.value())
			}
			hp[p] = build(p.Type(), vs)
		}
		out = ev.runRegion(fr, li, l, []edge{{nil, l.header, True, hdr}}, ibase, hp)
		ev.nRuns++
	}

	const maxRounds = 14
	var latch *State
	stay := False
	stayed := false
	for round := 0; ; round++ {
		if round > maxRounds {
			panic(undecided{"the loop in " + fr.fn.String() + " has no closed form"})
		}
		nev, nob := len(ev.events), len(ev.obls)
		iss := map[string]bool{}
		for k := range ev.issues {
			iss[k] = true
		}
		iterate()
		stay = False
		if len(out.backs) == 0 {
			break // the body is never repeated
		}
		latch, stay = ev.mergeStates(out.backs)
		lfacts := ibase.With(stay)
		// next values
		for _, p := range phis {
			v := lfacts.Simp(ev.phiValue(fr, p, out.backs, stay))
			for i, c := range comps(p.Type(), v) {
				phiLeaves[p][i].next = c
			}
		}
		for _, f := range sortedFams(latch.mem) {
			c := latch.mem[f]
			h := hdr.content(f)
			_, known := famLeaves[f]
			if c == h && !known {
				continue
			}
			if !known {
				famLeaves[f] = addLeaves(fmt.Sprintf("fam%d", f.id), nil, f, contentType(f), st0.content(f), f.phs())
			}
			for i, x := range comps(contentType(f), c) {
				famLeaves[f][i].next = lfacts.Simp(x)
			}
		}
		changed := false
		var pending []*leaf
		for _, lf := range order {
			if lf.next == nil {
				continue
			}
			switch lf.status {
			case 0:
				if lf.next == lf.init {
					continue
				}
				if sameUnder(lfacts, lf.next, lf.init) {
					continue
				}
				if nilFix(lf) {
					changed = true
					continue
				}
				if debugEval {
					fmt.Printf("  [%s] leaf %s changes: %v -> %v\n", key, lf, lf.init, lf.next)
				}
				lf.status = 1
				changed = true
			case 1:
				pending = append(pending, lf)
			}
		}
		rollback := func() {
			ev.events = ev.events[:nev]
			ev.obls = ev.obls[:nob]
			ev.issues = iss
		}
		if changed {
			rollback()
			continue
		}
		if len(pending) == 0 {
			// an exit taken when the counter equals a bound: the counter is not above it
			if reach := ev.notPassed(out.exits, stay, t, ibase, order); reach != True && !ibase.Holds(reach) {
				ibase = ibase.With(reach)
				rollback()
				continue
			}
			flag := false
			for _, lf := range order {
				flag = flag || lf.status == 2 && lf.phi != nil && endsLoop(l, lf.phi)
			}
			if !flag || stayed {
				break
			}
			// a flag that ends the loop: it had not been set in the iterations before
			stayed = true
			s := num(fresh("s", true))
			setLo(varAtom(s), Zero)
			var before *Term
			under(ibase, func() { before = Not(Exists(s, t, Not(Subst1(stay, tv, s)))) })
			if ibase.Holds(before) {
				break
			}
			ibase = ibase.With(before)
			rollback()
			continue
		}
		rollback()
		// closed forms are used after the last iteration too: only the iterations
		// before are known to have continued
		efacts := ibase
		var free []*Term
		for _, c := range conjuncts(stay) {
			ok := true
			for _, lf := range order {
				if lf.status == 1 && c.hasVar(lf.f) {
					ok = false
				}
			}
			if ok {
				free = append(free, c)
			}
		}
		if len(free) > 0 {
			efacts = ibase.With(Or(EqN(t, Zero), Subst1(And(free...), varAtom(t), Sub(t, One))))
		}
		under(efacts, func() { ev.solve(pending, t, lfacts, efacts, key) })
	}

	// exits
	var res []edge
	ids := ev.outsideValues(fr, l)
	emit := func(e edge, at *Term, cond *Term, extra *Facts) {
		if cond == False {
			return
		}
		n := e.st.clone()
		if n.over == nil {
			n.over = map[interface{}]*Term{}
		}
		for _, v := range ids {
			if x, ok := fr.env[v]; ok {
				if _, has := n.over[v]; !has {
					n.over[v] = x
				}
			}
		}
		f := base.With(And(pc0, cond))
		if extra != nil {
			f = extra
		}
		under(f, func() {
			s := newSub().set(tv, at)
			for k, c := range n.mem {
				if c.hasVar(tv) {
					n.mem[k] = s.Do(c)
				}
			}
			for k, c := range n.over {
				if c.hasVar(tv) {
					n.over[k] = f.Simp(s.Do(c))
				}
			}
		})
		res = append(res, edge{e.from, e.to, And(pc0, cond), n})
	}
	if stay == False {
		lc.hi = One
		for _, e := range out.exits {
			under(baseFacts, func() {
				emit(e, Zero, Subst1(e.cond, tv, Zero), nil)
			})
		}
		return res
	}
	prim, k := ev.primaryExit(out.exits, stay, t, ibase)
	var N *Term
	if prim < 0 {
		N = num(sym("inf:"+key, true))
		setLo(varAtom(N), One)
	} else {
		N = k
		under(baseFacts, func() {
			if !baseFacts.Holds(Le(Zero, N)) {
				N = Max2(Zero, N)
			}
			N = baseFacts.Simp(N)
		})
	}
	lc.hi = N
	ex := False
	for i, e := range out.exits {
		if i != prim {
			ex = Or(ex, e.cond)
		}
	}
	hi := N
	under(baseFacts, func() {
		g := ibase.With(Le(t, N))
		ex = g.Simp(ex)
		if ex != False && prim >= 0 {
			// can an early exit still happen in the last iteration?
			if And(g.With(EqN(t, N)).Simp(Subst1(ex, tv, N)), True) != False {
				hi = Add(N, One)
			}
		}
	})
	if ex == False {
		if prim < 0 {
			return nil // never leaves
		}
		e := out.exits[prim]
		under(baseFacts, func() {
			c := baseFacts.Simp(Subst1(e.cond, tv, N))
			emit(e, N, c, nil)
		})
		return res
	}
	lc.early = ex
	under(baseFacts, func() {
		any := Exists(t, hi, ex)
		if prim < 0 {
			any = True
		}
		any = boolOf(baseFacts.Simp(any))
		first := First(t, hi, ex)
		if prim >= 0 && any != True {
			e := out.exits[prim]
			c := And(Not(any), baseFacts.With(Not(any)).Simp(Subst1(e.cond, tv, N)))
			emit(e, N, c, nil)
		}
		for i, e := range out.exits {
			if i == prim {
				continue
			}
			g := base.With(And(pc0, any)).With(Le(Zero, first), Lt(first, hi), Subst1(ex, tv, first))
			exf := g.Simp(Subst1(ex, tv, first))
			c := g.Simp(Subst1(e.cond, tv, first))
			if And(exf, Not(c)) == False {
				c = True
			} else if exf != False {
				c = Restrict(c, exf)
			}
			emit(e, first, And(any, c), g.With(c))
		}
	})
	return res
}

// endsLoop tells whether a boolean variable alone decides about leaving the loop.
func endsLoop(l *Loop, p *ssa.Phi) bool {
	if b, ok := p.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
		return false
	}
	for _, r := range *p.Referrers() {
		if u, ok := r.(*ssa.UnOp); ok && u.Op == token.NOT {
			for _, q := range *u.Referrers() {
				if i, ok := q.(*ssa.If); ok && leaves(l, i) {
					return true
				}
			}
		}
		if i, ok := r.(*ssa.If); ok && leaves(l, i) {
			return true
		}
	}
	return false
}

func leaves(l *Loop, i *ssa.If) bool {
	if !l.blocks[i.Block()] {
		return false
	}
	for _, s := range i.Block().Succs {
		if !l.blocks[s] {
			return true
		}
	}
	return false
}

func sliceElemAt(t types.Type, li int) types.Type {
	n := 0
	var found types.Type
	var rec func(t types.Type)
	rec = func(t types.Type) {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				rec(u.Field(i).Type())
			}
		case *types.Slice:
			if n == li {
				found = u.Elem()
			}
			n += 3
		case *types.Array:
			for i := int64(0); i < u.Len(); i++ {
				rec(u.Elem())
			}
		case *types.Tuple:
			for i := 0; i < u.Len(); i++ {
				rec(u.At(i).Type())
			}
		default:
			n++
		}
	}
	rec(t)
	return found
}

// outsideValues lists the values computed in a loop that are used after it.
func (ev *Eval) outsideValues(fr *frame, l *Loop) []ssa.Value {
	var r []ssa.Value
	for _, b := range fr.fn.Blocks {
		if !l.blocks[b] {
			continue
		}
		for _, ins := range b.Instrs {
			v, ok := ins.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, u := range *v.Referrers() {
				ub := u.Block()
				if p, ok := u.(*ssa.Phi); ok && !l.blocks[ub] {
					for j, e := range p.Edges {
						_ = j
						if e == v {
							r = append(r, v)
							break
						}
					}
					break
				}
				if !l.blocks[ub] {
					r = append(r, v)
					break
				}
			}
		}
	}
	return r
}

func sameUnder(f *Facts, a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op == OIte || b.op == OIte {
		x, y := f.Simp(a), f.Simp(b)
		if x == y {
			return true
		}
		a, b = x, y
	}
	if a.op == OPoly && b.op == OPoly {
		return f.Holds(EqN(a, b))
	}
	if a.op == OIte || b.op == OIte {
		return f.Holds(boolOf(EqV(a, b)))
	}
	return false
}

// coefOf writes p = c*v + r with c, r free of v.
func coefOf(p, v *Term) (c, r *Term, ok bool) {
	va := varAtom(v)
	var cm, rm []mono
	for _, m := range p.p {
		deg := 0
		var rest []fac
		for _, f := range m.f {
			if f.t == va {
				deg += f.e
				continue
			}
			if f.t.hasVar(va) {
				return nil, nil, false
			}
			rest = append(rest, f)
		}
		switch deg {
		case 0:
			rm = append(rm, m)
		case 1:
			cm = append(cm, mono{m.c, rest})
		default:
			return nil, nil, false
		}
	}
	return polyFrom(cm), polyFrom(rm), true
}

// primaryExit finds the exit that is taken from some iteration number on.
func (ev *Eval) primaryExit(exits []edge, stay, t *Term, f *Facts) (int, *Term) {
	return ev.primaryCases(exits, stay, t, f, 3)
}

// primaryCases distinguishes cases that do not depend on the iteration.
func (ev *Eval) primaryCases(exits []edge, stay, t *Term, f *Facts, depth int) (int, *Term) {
	if i, k := ev.primaryDirect(exits, stay, t, f); i >= 0 || depth == 0 {
		return i, k
	}
	tv := varAtom(t)
	seen := map[*Term]bool{}
	for _, e := range exits {
		for _, a := range condAtoms(e.cond) {
			if a.hasVar(tv) || seen[a] {
				continue
			}
			seen[a] = true
			var at [2]int
			var n [2]*Term
			for v := 0; v < 2; v++ {
				var es []edge
				for _, x := range exits {
					es = append(es, edge{x.from, x.to, boolOf(Cof(x.cond, a, v == 0)), x.st})
				}
				at[v], n[v] = ev.primaryCases(es, boolOf(Cof(stay, a, v == 0)), t, f.WithLit(a, v == 0), depth-1)
				if at[v] < 0 {
					break
				}
			}
			if at[0] >= 0 && at[0] == at[1] && n[1] != nil {
				return at[0], Ite(boolOf(a), n[0], n[1])
			}
		}
	}
	return -1, nil
}

// notPassed is the condition that the counter has not passed the bounds at
// which the loop ends: it comes by each value from zero on, and staying in the
// loop excludes the bound itself.
func (ev *Eval) notPassed(exits []edge, stay, t *Term, f *Facts, order []*leaf) *Term {
	tv := varAtom(t)
	res := True
	for _, e := range exits {
		for _, a := range condAtoms(e.cond) {
			if a.op != OEq0 || !a.hasVar(tv) || a.a[0].op != OPoly || And(stay, boolOf(a)) != False {
				continue
			}
			c, r, ok := coefOf(a.a[0], t)
			if !ok || c != One && c != Neg(One) || r.hasVar(tv) {
				continue
			}
			n := r
			if c == One {
				n = Neg(r)
			}
			fixed := true
			for _, lf := range order {
				fixed = fixed && !n.hasVar(lf.f)
			}
			if fixed && f.Holds(Le(Zero, n)) {
				res = And(res, Le(t, n))
			}
		}
	}
	return res
}

func (ev *Eval) primaryDirect(exits []edge, stay, t *Term, f *Facts) (int, *Term) {
	tv := varAtom(t)
	for i, e := range exits {
		for _, a := range condAtoms(e.cond) {
			if !a.hasVar(tv) || (a.op != OLt0 && a.op != OEq0) {
				continue
			}
			var lit *Term
			pos := false
			if Cof(e.cond, a, false) == False {
				lit, pos = boolOf(a), true
			} else if Cof(e.cond, a, true) == False {
				lit = Not(boolOf(a))
			} else {
				continue
			}
			if And(stay, lit) != False {
				continue
			}
			p := a.a[0]
			if p.op != OPoly {
				continue
			}
			c, r, ok := coefOf(p, t)
			if !ok {
				continue
			}
			if a.op == OEq0 {
				if !pos {
					continue
				}
				if c == One {
					return i, Neg(r)
				}
				if c == Neg(One) {
					return i, r
				}
				continue
			}
			if pos {
				// c*t + r < 0 for all large t: c < 0; least t with (-c) t > r
				n := Neg(c)
				if !f.Holds(Lt(Zero, n)) {
					continue
				}
				if n == One {
					return i, Add(r, One)
				}
				if r.isInt && n.isInt {
					return i, Add(Idiv(r, n), One)
				}
				continue
			}
			// c*t + r >= 0 from some t on: c > 0; least t >= -r/c
			if !f.Holds(Lt(Zero, c)) {
				continue
			}
			if c == One {
				return i, Neg(r)
			}
			if r.isInt && c.isInt {
				return i, Idiv(Add(Neg(r), Sub(c, One)), c)
			}
		}
	}
	return -1, nil
}

// ---------- recurrences ----------

func (ev *Eval) solve(pending []*leaf, t *Term, facts, efacts *Facts, key string) {
	isCur := map[int]bool{}
	for _, lf := range pending {
		isCur[lf.f.id] = true
	}
	curFree := func(x *Term) bool {
		for _, v := range x.vars {
			if isCur[int(v)] {
				return false
			}
		}
		return true
	}
	progress := true
	solved := false
	left := append([]*leaf(nil), pending...)
	if ev.coupled(left, t, facts) {
		solved = true
		var rest []*leaf
		for _, lf := range left {
			if lf.status == 1 {
				rest = append(rest, lf)
				continue
			}
			delete(isCur, lf.f.id)
		}
		for _, o := range rest {
			for _, lf := range left {
				if lf.status == 2 && o.next.hasVar(lf.f) {
					lf := lf
					o.next = facts.Simp(newSub().setFn(lf.f, func(args []*Term) *Term {
						u := newSub()
						for i, a := range lf.args {
							u.set(a, args[i])
						}
						return u.Do(lf.closed)
					}).Do(o.next))
				}
			}
		}
		left = rest
	}
	for progress && len(left) > 0 {
		progress = false
		var rest []*leaf
		for _, lf := range left {
			c := ev.solveLeaf(lf, t, facts, efacts, curFree)
			if c == nil {
				rest = append(rest, lf)
				continue
			}
			if debugEval {
				fmt.Printf("  [%s] solved %s: %v\n", key, lf, c)
			}
			lf.status = 2
			lf.closed = c
			progress, solved = true, true
			delete(isCur, lf.f.id)
			// use the closed form in the remaining recurrences
			def := func(args []*Term) *Term {
				s := newSub()
				for i, a := range lf.args {
					s.set(a, args[i])
				}
				return s.Do(c)
			}
			for _, o := range left {
				if o != lf && o.status == 1 && o.next.hasVar(lf.f) {
					o.next = facts.Simp(newSub().setFn(lf.f, def).Do(o.next))
				}
			}
		}
		left = rest
	}
	if len(left) > 0 && !solved {
		// no closed form: the value is unknown
		for _, lf := range left {
			if debugEval {
				fmt.Printf("  [%s] UNSOLVED %s: %v\n", key, lf, lf.next)
			}
			h := sym("unknown:"+key+"|"+lf.String(), lf.kind == lkInt)
			lf.status = 2
			lf.closed = leafFn(lf.kind, h, append(append([]*Term(nil), lf.args...), t))
		}
	}
}

// solveLeaf finds the value of a leaf after t iterations. facts hold in an
// iteration that continues, efacts after t iterations.
func (ev *Eval) solveLeaf(lf *leaf, t *Term, facts, efacts *Facts, curFree func(*Term) bool) *Term {
	if r := ev.solveNext(lf, lf.next, t, facts, efacts, curFree); r != nil {
		return r
	}
	if lf.args != nil {
		if R := ownValue(lf, lf.next, facts); R != lf.next {
			return ev.solveNext(lf, R, t, facts, efacts, curFree)
		}
	}
	return nil
}

// ownValue recognises the location's own value where it is read at an index that
// equals the location's under the conditions of the write.
func ownValue(lf *leaf, R *Term, facts *Facts) *Term {
	var rec func(x *Term, f *Facts) *Term
	rec = func(x *Term, f *Facts) *Term {
		if !x.hasVar(lf.f) {
			return x
		}
		if x.op == OIte {
			a := boolOf(x.a[0])
			return Ite(a, rec(x.a[1], f.With(a)), rec(x.a[2], f.With(Not(a))))
		}
		return newSub().setFn(lf.f, func(args []*Term) *Term {
			for i, a := range args {
				if a != lf.args[i] && !f.Holds(EqN(a, lf.args[i])) {
					return leafFn(lf.kind, lf.f, args)
				}
			}
			return lf.cur
		}).Do(x)
	}
	return rec(R, facts)
}

func (ev *Eval) solveNext(lf *leaf, R, t *Term, facts, efacts *Facts, curFree func(*Term) bool) *Term {
	tv := varAtom(t)
	self := lf.cur
	s := num(fresh("s", true))
	setLo(varAtom(s), Zero)
	back := func(x *Term) *Term { return Subst1(x, tv, s) }
	prev := func(x *Term) *Term { return Subst1(x, tv, Sub(t, One)) }

	if curFree(R) {
		if lf.args == nil || !R.hasVar(tv) || true {
			r := R
			if R.hasVar(tv) {
				r = prev(R)
			}
			return Ite(Lt(Zero, t), r, lf.init)
		}
	}
	if lf.kind == lkNum || lf.kind == lkInt {
		D := Sub(R, self)
		if D.op == OIte {
			D = facts.Simp(D)
		}
		if curFree(D) {
			if !D.hasVar(tv) {
				return Add(lf.init, Mul(D, t))
			}
			return Add(lf.init, SumR(s, Zero, t, back(D)))
		}
		// maximum / minimum
		if r := ev.solveMax(lf, R, lf.init, t, facts, curFree, back, s); r != nil {
			return r
		}
		if i1, r1, ok := peeled(lf, R, t, facts); ok {
			if curFree(i1) {
				if r := ev.solveMax(lf, facts.With(Le(Zero, t)).Simp(r1), i1, t, facts, curFree, back, s); r != nil {
					return Ite(Lt(Zero, t), prev(r), lf.init)
				}
			}
		}
		// product
		if R.op == OPoly && len(R.p) > 0 {
			if g := Div(R, self); g.op == OPoly && curFree(g) {
				return Mul(lf.init, ProdF(s, t, back(g)))
			}
		}
		// x' = min(x+c, n): stays below
		if r := ev.solveCapped(lf, R, t, efacts, curFree); r != nil {
			return r
		}
	}
	if lf.kind == lkBool {
		if sa := self.a; self.op == OIte && len(sa) == 3 {
			at := sa[0]
			hi, lo := Cof(R, at, true), Cof(R, at, false)
			if curFree(hi) && curFree(lo) {
				if hi == True {
					return Or(lf.init, Exists(s, t, back(lo)))
				}
				if lo == False {
					return And(lf.init, Not(Exists(s, t, Not(back(hi)))))
				}
			}
		}
	}
	// conditional writes
	W, V := splitWrite(R, self)
	if W != nil {
		if r := ev.solveWrite(lf, W, V, t, facts, efacts, curFree, s); r != nil {
			return r
		}
	}
	if r := ev.solveSwap(lf, R, t, facts, curFree); r != nil {
		return r
	}
	return nil
}

// splitWrite separates the condition under which a leaf is written from the
// written value.
func splitWrite(R, self *Term) (*Term, *Term) {
	var W *Term
	memo := map[int]*Term{}
	selfBool := isBoolTerm(self)
	var rec func(x *Term) *Term
	rec = func(x *Term) *Term {
		if x == self {
			return False
		}
		if x.op != OIte {
			return True
		}
		if r, ok := memo[x.id]; ok {
			return r
		}
		r := Ite(boolOf(x.a[0]), rec(x.a[1]), rec(x.a[2]))
		memo[x.id] = r
		return r
	}
	if selfBool && self.op == OIte {
		// boolean leaf: unchanged where the value follows the current one
		at := self.a[0]
		hi, lo := Cof(R, at, true), Cof(R, at, false)
		W = Not(And(hi, Not(lo)))
		// written value: must not depend on the current one where written
		V := Restrict(hi, W)
		return W, V
	}
	W = rec(R)
	if W == False {
		return nil, nil
	}
	return W, Restrict(R, W)
}

func (ev *Eval) solveWrite(lf *leaf, W, V, t *Term, facts, efacts *Facts, curFree func(*Term) bool, s *Term) *Term {
	tv := varAtom(t)
	// the only iteration that writes the location
	var tau *Term
	for _, c := range condAtoms(W) {
		if c.op != OEq0 || !c.hasVar(tv) {
			continue
		}
		if Cof(W, c, false) != False {
			continue
		}
		if sol := solveEq(c, t); sol != nil && !sol.hasVar(tv) {
			tau = sol
			break
		}
	}
	if tau != nil {
		inRange := And(Le(Zero, tau), Lt(tau, t))
		Wt := Subst1(W, tv, tau)
		Vt := Subst1(V, tv, tau)
		if !curFree(V) || !curFree(W) {
			// current values at the writing iteration: locations not yet written
			may := Wt
			for {
				var cur *Term
				for _, c := range condAtoms(may) {
					if !curFree(c) {
						cur = c
						break
					}
				}
				if cur == nil {
					break
				}
				may = Or(boolOf(Cof(may, cur, true)), boolOf(Cof(may, cur, false)))
			}
			g := efacts.With(Le(Zero, tau), may)
			ok := true
			def := func(args []*Term) *Term {
				sub := newSub()
				for i, a := range lf.args {
					sub.set(a, args[i])
				}
				tq := sub.Do(tau)
				wq := sub.Do(may)
				initq := sub.Do(lf.init)
				// the location args is written in iteration tq (if wq)
				if g.Simp(And(wq, Lt(tq, tau))) == False {
					return initq
				}
				ok = false
				return initq
			}
			under(g, func() {
				s := newSub().setFn(lf.f, def)
				Vt, Wt = s.Do(Vt), And(may, boolOf(s.Do(Wt)))
			})
			if !ok || !curFree(Vt) || !curFree(Wt) {
				return nil
			}
		}
		return Ite(And(inRange, Wt), Vt, lf.init)
	}
	if !curFree(V) || !curFree(W) {
		return nil
	}
	// iteration ranges of one variable: floor(ph/c) style writes handled as the last write
	if !W.hasVar(tv) {
		r := V
		if V.hasVar(tv) {
			r = Subst1(V, tv, Sub(t, One))
		}
		return Ite(And(Lt(Zero, t), W), r, lf.init)
	}
	if r := ev.blockWrite(lf, W, V, t, facts); r != nil {
		return r
	}
	if facts.With(Le(One, t)).Simp(W) == True {
		// every iteration but the first always writes
		p := Sub(t, One)
		return Ite(And(Lt(Zero, t), Subst1(W, tv, p)), Subst1(V, tv, p), lf.init)
	}
	// last write
	u := Sub(Sub(t, One), s)
	Wu := Subst1(W, tv, u)
	any := Exists(s, t, Subst1(W, tv, s))
	last := Sub(Sub(t, One), First(s, t, Wu))
	return Ite(any, Subst1(V, tv, last), lf.init)
}

// blockWrite handles writes of consecutive blocks: lo(t) <= ph < lo(t)+c with
// lo linear in t with coefficient c.
func (ev *Eval) blockWrite(lf *leaf, W, V, t *Term, facts *Facts) *Term {
	tv := varAtom(t)
	for _, c := range condAtoms(W) {
		if c.op != OLt0 || !c.hasVar(tv) {
			continue
		}
		co, r, ok := coefOf(c.a[0], t)
		if !ok || co == Zero {
			continue
		}
		// candidates for the iteration: floor of -r/co
		n := co
		q := Neg(r)
		if facts.Simp(Lt(n, Zero)) == True {
			n, q = Neg(n), Neg(q)
		}
		if facts.Simp(Lt(Zero, n)) != True {
			continue
		}
		for _, off := range []int64{0, -1, 1} {
			x := Add(q, numInt(off))
			tau := Idiv(x, n)
			// W(t) must imply t == tau (for x >= 0)
			g := facts.With(W, Le(Zero, x))
			if g.Holds(EqN(t, tau)) && facts.With(W).Holds(Le(Zero, x)) {
				Wt := Subst1(W, tv, tau)
				return Ite(And(Le(Zero, x), Lt(tau, t), Wt), Subst1(V, tv, tau), lf.init)
			}
		}
	}
	return nil
}

func (ev *Eval) solveMax(lf *leaf, R, init, t *Term, facts *Facts, curFree func(*Term) bool, back func(*Term) *Term, s *Term) *Term {
	self := lf.cur
	take, e := twoWay(R, self)
	if take == nil || !curFree(e) || e.op != OPoly {
		return nil
	}
	op := OUndef
	switch take {
	case Lt(self, e), Le(self, e):
		op = OMaxF
	case Lt(e, self), Le(e, self):
		op = OMinF
	default:
		return nil
	}
	if (op == OMaxF && isNegHuge(init)) || (op == OMinF && isPosHuge(init)) {
		return Ite(Lt(Zero, t), maxFold(op, nil, Zero, t, s, back(e)), init)
	}
	return lift([]*Term{init}, func(x []*Term) *Term { return maxFold(op, x[0], Zero, t, s, back(e)) })
}

func isNegHuge(t *Term) bool {
	return t == negInf || t.isConst() && t.constVal().Cmp(hugeNeg) < 0
}
func isPosHuge(t *Term) bool {
	return t == posInf || t.isConst() && t.constVal().Cmp(hugePos) > 0
}

var hugePos = new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(300), nil))
var hugeNeg = new(big.Rat).Neg(hugePos)

func (ev *Eval) solveCapped(lf *leaf, R, t *Term, facts *Facts, curFree func(*Term) bool) *Term {
	self := lf.cur
	if R.op != OIte || R.a[0].op != OLt0 {
		return nil
	}
	for k := 1; k <= 2; k++ {
		n := R.a[k]
		inc := R.a[3-k]
		c := Sub(inc, self)
		if n.op != OPoly || !curFree(n) || !curFree(c) || n.hasVar(varAtom(t)) || c.hasVar(varAtom(t)) {
			continue
		}
		cond := boolOf(R.a[0]) // k==1: n when cond
		if k == 2 {
			cond = Not(cond)
		}
		// n is taken when inc > n (or >=)
		if (cond == Lt(n, inc) || cond == Le(n, inc)) && facts.Holds(Le(Zero, c)) {
			// min(init + c*t, n) provided init <= n
			if facts.Holds(Le(lf.init, n)) {
				return Min2(Add(lf.init, Mul(c, t)), n)
			}
		}
	}
	return nil
}

// permSteps are the positions exchanged in step "@swapstep" of a permutation.
var permSteps = map[int][2]*Term{}

// solveSwap recognises the exchange of two locations in every iteration.
func (ev *Eval) solveSwap(lf *leaf, R, t *Term, facts *Facts, curFree func(*Term) bool) *Term {
	if lf.fam == nil || lf.fam.kind != famElems {
		return nil
	}
	tv := varAtom(t)
	idx := lf.args[len(lf.args)-1]
	al := lf.args[:len(lf.args)-1]
	at := func(i *Term) *Term { return leafFn(lf.kind, lf.f, append(append([]*Term(nil), al...), i)) }
	var eqs []*Term
	for _, c := range condAtoms(R) {
		if c.op == OEq0 {
			if sol := solveEq(c, idx); sol != nil && curFree(sol) && !sol.hasVar(varAtom(idx)) {
				eqs = append(eqs, sol)
			}
		}
	}
	for i := range eqs {
		for j := i + 1; j < len(eqs); j++ {
			a, b := eqs[i], eqs[j]
			ia, ib := EqN(idx, a), EqN(idx, b)
			ok := false
			for _, want := range []*Term{
				Ite(ia, at(b), Ite(ib, at(a), lf.cur)),
				Ite(ib, at(a), Ite(ia, at(b), lf.cur)),
				// with both positions the same, either of the equal values
				Ite(ia, Ite(ib, at(a), at(b)), Ite(ib, at(a), lf.cur)),
				Ite(ia, Ite(ib, at(b), at(b)), Ite(ib, Ite(ia, at(b), at(a)), lf.cur)),
			} {
				ok = ok || want == R || facts.Simp(want) == facts.Simp(R)
			}
			if ok {
				// the permutation reached after t exchanges
				if a.id > b.id {
					a, b = b, a
				}
				s := sym("@swapstep", true)
				k := Tuple(Subst1(a, tv, num(s)), Subst1(b, tv, num(s)))
				pf := sym(fmt.Sprintf("perm:%d", k.id), true)
				permSteps[pf.id] = [2]*Term{k.a[0], k.a[1]}
				setLo(pf, Zero)
				pi := App(pf, t, idx)
				sub := newSub().set(idx, pi)
				return sub.Do(lf.init)
			}
		}
	}
	return nil
}

// peeled removes the special treatment of the first iteration: x_1 is computed
// from the initial value, and the recurrence holds from the second iteration on.
func peeled(lf *leaf, next *Term, t *Term, facts *Facts) (init, rest *Term, ok bool) {
	if !next.hasVar(varAtom(t)) {
		return nil, nil, false
	}
	g := facts.With(Le(One, t))
	r1 := g.Simp(next)
	if r1 == next {
		return nil, nil, false
	}
	z := newSub().set(t, Zero)
	r0 := z.Do(next)
	s := newSub().setFn(lf.f, func(args []*Term) *Term {
		u := newSub()
		for i, a := range lf.args {
			u.set(a, args[i])
		}
		return u.Do(lf.init)
	})
	r0 = s.Do(r0)
	if r0.hasVar(lf.f) {
		return nil, nil, false
	}
	return r0, Subst1(r1, t, Add(t, One)), true
}

// coupled solves recurrences that depend on each other: the position of a
// maximum together with the maximum, or the position alone.
func (ev *Eval) coupled(left []*leaf, t *Term, facts *Facts) bool {
	done := false
	for _, ix := range left {
		if ix.status != 1 || ix.kind != lkInt && ix.kind != lkNum || !mayBePosition(ix, t) {
			continue
		}
		for _, mx := range left {
			if mx.status != 1 || mx.kind != lkNum && mx.kind != lkInt {
				continue
			}
			if r := ev.solveArg(ix, mx, t, facts); r != nil {
				if debugEval {
					fmt.Printf("  solved position %s: %v\n", ix, r)
				}
				ix.status, ix.closed = 2, r
				done = true
				break
			}
		}
	}
	return done
}

// mayBePosition: the value becomes the iteration number (plus something) or
// stays.
func mayBePosition(ix *leaf, t *Term) bool {
	seen := map[*Term]bool{}
	others, pos := 0, false
	var rec func(x *Term)
	rec = func(x *Term) {
		if seen[x] || x == ix.cur {
			return
		}
		seen[x] = true
		if x.op == OIte {
			rec(x.a[1])
			rec(x.a[2])
			return
		}
		others++
		if x.op == OPoly && x.isInt {
			if c, _, ok := coefOf(x, t); ok && (c == One || c == Neg(One)) {
				pos = true
			}
		}
	}
	rec(ix.next)
	return pos && others <= 3
}

// solveArg solves ix as the position at which the recurrence mx takes its
// value (mx == ix: the position refers to the value directly).
func (ev *Eval) solveArg(ix, mx *leaf, t *Term, facts *Facts) *Term {
	try := func(ixi, ixn, mxi, mxn *Term, f *Facts) *Term {
		return solveArgRec(ix, mx, ixi, ixn, mxi, mxn, t, f)
	}
	if r := try(ix.init, ix.next, mx.init, mx.next, facts); r != nil {
		return r
	}
	// the first iteration is special
	mi, mn, ok := peeled(mx, mx.next, t, facts)
	if !ok {
		return nil
	}
	ii, in := mi, mn
	if ix != mx {
		if ii, in, ok = peeled(ix, ix.next, t, facts); !ok {
			ii, in = ix.next, ix.next
			s := newSub().setFn(ix.f, func(args []*Term) *Term {
				u := newSub()
				for i, a := range ix.args {
					u.set(a, args[i])
				}
				return u.Do(ix.init)
			}).setFn(mx.f, func(args []*Term) *Term {
				u := newSub()
				for i, a := range mx.args {
					u.set(a, args[i])
				}
				return u.Do(mx.init)
			})
			ii = s.Do(Subst1(ix.next, t, Zero))
			in = Subst1(ix.next, t, Add(t, One))
			if ii.hasVar(ix.f) || ii.hasVar(mx.f) {
				return nil
			}
		}
	}
	g := facts.With(Le(Zero, t))
	r := try(ii, g.Simp(in), mi, g.Simp(mn), g)
	if r == nil {
		return nil
	}
	return Ite(Lt(Zero, t), Subst1(r, t, Sub(t, One)), ix.init)
}

func solveArgRec(ix, mx *leaf, ixInit, ixNext, mxInit, mxNext *Term, t *Term, facts *Facts) *Term {
	tv := varAtom(t)
	free := func(x *Term) bool { return !x.hasVar(ix.f) && !x.hasVar(mx.f) }
	take, V := twoWay(ixNext, ix.cur)
	if take == nil || !free(V) {
		return nil
	}
	if !V.hasVar(tv) || !V.isInt {
		return nil
	}
	c, rest, ok := coefOf(V, t)
	if !ok || c != One && c != Neg(One) {
		return nil
	}
	// the value compared with, as a function of the position or as mx
	var e, cur *Term
	if mx != ix {
		w, v := twoWay(mxNext, mx.cur)
		if w != take || !free(v) {
			return nil
		}
		e = v
		cur = mx.cur
	} else {
		// take is e(t) against E(self) with E(V(t)) = e(t)
		as := condAtoms(take)
		if len(as) == 0 || as[0].op != OLt0 && as[0].op != OEq0 {
			return nil
		}
		p := as[0].a[0]
		if p.op != OPoly {
			return nil
		}
		var self []mono
		for _, m := range p.p {
			dep := false
			for _, x := range m.f {
				if x.t.hasVar(ix.f) {
					dep = true
				}
			}
			if dep {
				self = append(self, m)
			}
		}
		E := polyFrom(self)
		if E.hasVar(tv) {
			return nil
		}
		neg := false
		for {
			x := E
			if neg {
				x = Neg(E)
			}
			s := newSub().setFn(ix.f, func(args []*Term) *Term {
				u := newSub()
				for i, a := range ix.args {
					u.set(a, args[i])
				}
				return u.Do(V)
			})
			ex := s.Do(x)
			if free(ex) && (take == Lt(ex, x) || take == Le(ex, x) || take == Lt(x, ex) || take == Le(x, ex)) {
				e, cur = ex, x
				si := newSub().setFn(ix.f, func(args []*Term) *Term {
					u := newSub()
					for i, a := range ix.args {
						u.set(a, args[i])
					}
					return u.Do(ixInit)
				})
				mxInit = si.Do(x)
				break
			}
			if neg {
				return nil
			}
			neg = true
		}
	}
	op, name := OUndef, ""
	switch take {
	case Lt(cur, e):
		op = OArgMax
	case Le(cur, e):
		op, name = OArgMax, "last"
	case Lt(e, cur):
		op = OArgMin
	case Le(e, cur):
		op, name = OArgMin, "last"
	default:
		return nil
	}
	s := num(fresh("s", true))
	body := Subst1(e, t, s)
	for _, v0 := range []*Term{Zero, Neg(One)} {
		if Subst1(V, t, v0) == ixInit && Subst1(e, t, v0) == mxInit {
			lo := v0
			r := argFold(op, name, lo, t, s, body)
			if v0 == Zero {
				return Ite(Lt(Zero, t), Add(rest, Mul(c, r)), ixInit)
			}
			return Add(rest, Mul(c, r))
		}
	}
	if op == OArgMax && isNegHuge(mxInit) || op == OArgMin && isPosHuge(mxInit) {
		return Ite(Lt(Zero, t), Add(rest, Mul(c, argFold(op, name, Zero, t, s, body))), ixInit)
	}
	// the first candidate is a position that is visited later
	if t0 := Mul(c, Sub(ixInit, rest)); name == "last" && t0.isInt && !t0.hasVar(tv) && Subst1(e, t, t0) == mxInit {
		r := Add(rest, Mul(c, argFold(op, name, Zero, t, s, body)))
		better := Le(mxInit, body)
		if op == OArgMin {
			better = Le(body, mxInit)
		}
		return Ite(And(Le(Zero, t0), Lt(t0, t)), r, Ite(Exists(s, t, better), r, ixInit))
	}
	return nil
}

// twoWay splits a value that is either the current one or one other value.
func twoWay(R, self *Term) (W, V *Term) {
	if R.op != OIte {
		return nil, nil
	}
	ok := true
	memo := map[int]*Term{}
	var rec func(x *Term) *Term
	rec = func(x *Term) *Term {
		if x == self {
			return False
		}
		if x.op != OIte {
			if V != nil && V != x {
				ok = false
			}
			V = x
			return True
		}
		if r, h := memo[x.id]; h {
			return r
		}
		r := Ite(boolOf(x.a[0]), rec(x.a[1]), rec(x.a[2]))
		memo[x.id] = r
		return r
	}
	W = rec(R)
	if !ok || V == nil || W == True || W == False {
		return nil, nil
	}
	return W, V
}

// conjuncts gives literals that a condition implies.
func conjuncts(c *Term) []*Term {
	var r []*Term
	for _, a := range condAtoms(c) {
		if Cof(c, a, false) == False {
			r = append(r, boolOf(a))
		} else if Cof(c, a, true) == False {
			r = append(r, Not(boolOf(a)))
		}
	}
	return r
}
