package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// maxTrips bounds the loops that are followed iteration by iteration.
const maxTrips = 12

// constTrips is the number of iterations of a loop that counts to a known
// small number or passes over a map of known keys (the keys are returned).
func (ev *Eval) constTrips(fr *frame, l *Loop, st *State, phiInit map[*ssa.Phi]*Term, f *Facts) (int, *ssa.Range, []*Term) {
	br, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok || !l.blocks[l.header.Succs[0]] || l.blocks[l.header.Succs[1]] {
		return -1, nil, nil
	}
	if x, ok := br.Cond.(*ssa.Extract); ok {
		if n, ok := x.Tuple.(*ssa.Next); ok && x.Index == 0 && !n.IsString {
			r := n.Iter.(*ssa.Range)
			if keys, ok := ev.knownKeys(fr, l, n, r, st, f); ok {
				return len(keys), r, keys
			}
		}
		return -1, nil, nil
	}
	b, ok := br.Cond.(*ssa.BinOp)
	if !ok {
		return -1, nil, nil
	}
	// value before the loop: constant, or (for the counter) start and step
	var at func(v ssa.Value) (start, step int64, ok bool)
	at = func(v ssa.Value) (int64, int64, bool) {
		if c, ok := v.(*ssa.Const); ok && c.Value != nil && isInteger(c.Type()) {
			return c.Int64(), 0, true
		}
		in, isIns := v.(ssa.Instruction)
		if !isIns || !l.blocks[in.Block()] {
			if c, ok := v.(*ssa.Call); ok {
				k, ok := ev.literalLen(fr, c, st, f)
				return k, 0, ok
			}
			return 0, 0, false
		}
		switch x := v.(type) {
		case *ssa.Phi:
			if x.Block() != l.header {
				return 0, 0, false
			}
			step, ok := inductionStep(l, x)
			if !ok {
				return 0, 0, false
			}
			k, ok := knownInt(f.Simp(phiInit[x]))
			return k, step, ok
		case *ssa.BinOp:
			if x.Op != token.ADD && x.Op != token.SUB {
				return 0, 0, false
			}
			a, s, ok := at(x.X)
			if !ok {
				return 0, 0, false
			}
			c, s2, ok := at(x.Y)
			if !ok {
				return 0, 0, false
			}
			if x.Op == token.SUB {
				c, s2 = -c, -s2
			}
			return a + c, s + s2, true
		case *ssa.Call:
			if len(x.Call.Args) == 1 {
				if in, isIns := x.Call.Args[0].(ssa.Instruction); isIns && l.blocks[in.Block()] {
					return 0, 0, false
				}
				k, ok := ev.literalLen(fr, x, st, f)
				return k, 0, ok
			}
		}
		return 0, 0, false
	}
	x, xs, ok := at(b.X)
	if !ok {
		return -1, nil, nil
	}
	y, ys, ok := at(b.Y)
	if !ok || xs == 0 && ys == 0 {
		return -1, nil, nil
	}
	holds := func(x, y int64) bool {
		switch b.Op {
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		case token.GEQ:
			return x >= y
		case token.NEQ:
			return x != y
		}
		return false
	}
	for n := 0; n <= maxTrips; n++ {
		if !holds(x, y) {
			return n, nil, nil
		}
		x, y = x+xs, y+ys
	}
	return -1, nil, nil
}

// literalLen is the length of a list that is written out in the source.
func (ev *Eval) literalLen(fr *frame, c *ssa.Call, st *State, f *Facts) (int64, bool) {
	bi, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || bi.Name() != "len" {
		return 0, false
	}
	if _, ok := c.Call.Args[0].Type().Underlying().(*types.Slice); !ok {
		return 0, false
	}
	switch c.Call.Args[0].(type) {
	case *ssa.Slice, *ssa.Parameter:
	default:
		return 0, false // grown since
	}
	v := f.Simp(ev.valIn(fr, c.Call.Args[0], st))
	r := sref(v)
	if r == nil || r.op != ORef {
		return 0, false
	}
	switch r.fam().name {
	case "slicelit", "varargs", "complit":
		return knownInt(f.Simp(slen(v)))
	}
	return 0, false
}

func knownInt(t *Term) (int64, bool) {
	if t.op != OPoly {
		return 0, false
	}
	return t.constInt()
}

// knownKeys are the keys of a map that a loop passes over, if they are known and
// their order makes no difference to the loop.
func (ev *Eval) knownKeys(fr *frame, l *Loop, n *ssa.Next, r *ssa.Range, st *State, f *Facts) ([]*Term, bool) {
	var key ssa.Value
	for _, u := range *n.Referrers() {
		if x, ok := u.(*ssa.Extract); ok && x.Index == 1 {
			if key != nil {
				return nil, false
			}
			key = x
		}
	}
	stores, loads := false, false
	for b := range l.blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Phi:
				if b == l.header {
					return nil, false
				}
			case *ssa.MapUpdate:
				if key == nil || x.Key != key || x.Map == r.X {
					return nil, false
				}
			case *ssa.Call:
				bi, ok := x.Call.Value.(*ssa.Builtin)
				if !ok || bi.Name() == "delete" && (key == nil || x.Call.Args[1] != key || x.Call.Args[0] == r.X) {
					return nil, false
				}
				if ok && (bi.Name() == "append" || bi.Name() == "copy") {
					return nil, false
				}
			case *ssa.Store:
				if e, ok := x.Addr.(*ssa.Extract); !ok || e.Tuple != ssa.Value(n) || e.Index != 2 {
					return nil, false
				}
				stores = true
			case *ssa.UnOp:
				loads = loads || x.Op == token.MUL
			case *ssa.Send, *ssa.Defer, *ssa.Go, *ssa.Return, *ssa.Panic:
				return nil, false
			}
			if len(b.Succs) > 0 {
				for _, s := range b.Succs {
					if !l.blocks[s] && b != l.header {
						return nil, false // leaves early
					}
				}
			}
		}
	}
	if stores && loads {
		return nil, false // a later pass may read what an earlier one wrote
	}
	mt, ok := r.X.Type().Underlying().(*types.Map)
	if !ok || !isString(mt.Key()) {
		return nil, false
	}
	m := f.Simp(ev.valIn(fr, r.X, st))
	names := map[string]bool{}
	for _, g := range cases(m) {
		if g.v == Nil {
			continue
		}
		if g.v.op != ORef {
			return nil, false
		}
		fam := g.v.fam()
		h := f.With(g.c)
		content := h.Simp(field(st.at(fam, g.v.a, fam.keyPH()), 0))
		seen := map[int]bool{}
		var rec func(t *Term)
		rec = func(t *Term) {
			if seen[t.id] {
				return
			}
			seen[t.id] = true
			if t.op == OStr {
				names[t.name] = true
			}
			for _, x := range t.a {
				rec(x)
			}
		}
		rec(content)
		if h.Simp(Subst1(content, fam.keyPH(), Str("\x00another key"))) != False {
			return nil, false
		}
	}
	var list []string
	for s := range names {
		list = append(list, s)
	}
	sort.Strings(list)
	var keys []*Term
	for _, s := range list {
		keys = append(keys, Str(s))
	}
	if len(keys) > maxTrips {
		return nil, false
	}
	for _, g := range cases(m) {
		if !stores || g.v == Nil {
			continue
		}
		// the pointers stored through are all different
		h := f.With(g.c)
		var ps []*Term
		for _, k := range keys {
			e := st.at(g.v.fam(), g.v.a, k)
			if h.Simp(field(e, 0)) == False {
				continue
			}
			p := h.Simp(field(e, 1))
			if p.op != OPtr {
				return nil, false
			}
			for _, q := range ps {
				if h.Simp(EqV(p, q)) != False {
					return nil, false
				}
			}
			ps = append(ps, p)
		}
	}
	return keys, true
}

// hasKey is the condition that a key is in the map a loop passes over.
func (ev *Eval) hasKey(fr *frame, rg *ssa.Range, st *State, f *Facts, k *Term) *Term {
	return boolOf(f.Simp(lift([]*Term{f.Simp(ev.valIn(fr, rg.X, st))}, func(a []*Term) *Term {
		if a[0] == Nil {
			return False
		}
		return field(st.at(a[0].fam(), a[0].a, k), 0)
	})))
}

// unroll follows the iterations of a loop one by one.
func (ev *Eval) unroll(fr *frame, li *LoopInfo, l *Loop, n int, rg *ssa.Range, keys []*Term, st0 *State, pc0 *Term, base *Facts, phiInit map[*ssa.Phi]*Term) []edge {
	if debugEval {
		fmt.Println("unroll", fr.fn, n, rg != nil)
	}
	ctx := fr.ctx
	defer func() { fr.ctx = ctx }()
	if rg != nil {
		if ev.keyNow == nil {
			ev.keyNow = map[*ssa.Range]*Term{}
		}
		defer delete(ev.keyNow, rg)
	}
	ids := ev.outsideValues(fr, l)
	var res []edge
	f := base.With(pc0)
	pc, st, phis := pc0, st0, phiInit
	for i := 0; i <= n; i++ {
		fr.ctx = fmt.Sprintf("%s/it%d", ctx, i)
		if rg != nil {
			ev.keyNow[rg] = Nil
			if i < n {
				ev.keyNow[rg] = keys[i]
			}
		}
		hdr := st.clone()
		for k := range hdr.over {
			if v, ok := k.(ssa.Instruction); ok && l.blocks[v.Block()] && v.Parent() == fr.fn {
				delete(hdr.over, k)
			}
		}
		has := True
		if rg != nil && i < n {
			if has = ev.hasKey(fr, rg, hdr, f, keys[i]); has == False {
				continue
			}
		}
		out := ev.runRegion(fr, li, l, []edge{{nil, l.header, True, hdr.clone()}}, f.With(has), phis)
		for _, e := range out.exits {
			x := e.st.clone()
			if x.over == nil {
				x.over = map[interface{}]*Term{}
			}
			for _, v := range ids {
				if t, ok := fr.env[v]; ok {
					if _, has := x.over[v]; !has {
						x.over[v] = t
					}
				}
			}
			if c := And(pc, e.cond); c != False {
				res = append(res, edge{e.from, e.to, c, x})
			}
		}
		if len(out.backs) == 0 {
			break
		}
		if i == n {
			panic(undecided{"the loop in " + fr.fn.String() + " runs longer than expected"})
		}
		if has != True {
			for k := range out.backs {
				out.backs[k].cond = And(has, out.backs[k].cond)
			}
			out.backs = append(out.backs, edge{nil, l.header, Not(has), hdr})
		}
		latch, stay := ev.mergeStates(out.backs)
		g := f.With(stay)
		next := map[*ssa.Phi]*Term{}
		for p := range phis {
			next[p] = g.Simp(ev.phiValue(fr, p, out.backs, stay))
		}
		phis, st, f, pc = next, latch, g, And(pc, stay)
	}
	return res
}
