package main

// Byte streams: what a function writes to a buffer, or reads from one, as a tree
// of items and loops, and the comparison of two such trees.

import (
	"go/types"
	"strings"
)

// snode is a loop (t is set) or an item of a stream.
type snode struct {
	t, hi, early *Term
	body         []*snode

	what  string // num, str, layer, len
	size  *Term  // in bytes
	order string // little or big
	typ   types.Type
	val   *Term
	vars  []*Term // loop variables around the item
	e     *Event
	each  func(m *matcher, r *snode, f *Facts) // how to match the repetitions of a layout
}

func (n *snode) loop() bool { return n.t != nil }

// stream collects what happens to a buffer.
func (c *Check) stream(r *Run, kind string, buf *Term) []*snode {
	var evs []*Event
	for _, e := range r.ev.events {
		if e.kind != kind && !(kind == "read" && e.kind == "buflen") {
			continue
		}
		b := e.args[0]
		if b != buf {
			// another buffer, unless it is not known which
			other := b.op == OPtr && b.a[0].op == ORef && b.a[0].fam() != buf.a[0].fam()
			if !other {
				c.report("undecided", c.where(e.fn)+" at "+r.ev.pos(e.instr), "it is not known which buffer is used: "+b.String(), true)
			}
			continue
		}
		if e.kind == "write" && e.name == "reset" {
			c.report("undecided", c.where(e.fn)+" at "+r.ev.pos(e.instr), "the buffer is reset", true)
			continue
		}
		evs = append(evs, e)
	}
	return c.streamOf(r, evs, 0)
}

func (c *Check) streamOf(r *Run, evs []*Event, depth int) []*snode {
	var out []*snode
	for i := 0; i < len(evs); {
		e := evs[i]
		if len(e.loops) <= depth {
			out = append(out, c.items(r, e)...)
			i++
			continue
		}
		l := e.loops[depth]
		j := i
		for j < len(evs) && len(evs[j].loops) > depth && evs[j].loops[depth].t == l.t {
			j++
		}
		out = append(out, &snode{t: l.t, hi: l.hi, early: l.early, body: c.streamOf(r, evs[i:j], depth+1), e: e})
		i = j
	}
	return out
}

func loopVars(e *Event) []*Term {
	var v []*Term
	for _, l := range e.loops {
		v = append(v, l.t)
	}
	return v
}

// items are the items one operation writes or reads.
func (c *Check) items(r *Run, e *Event) []*snode {
	at := func(n *snode) *snode {
		n.e = e
		if n.vars == nil {
			n.vars = loopVars(e)
		}
		return n
	}
	if e.kind == "buflen" {
		return []*snode{at(&snode{what: "len", val: e.res})}
	}
	if e.name == "layer" {
		v := e.res
		if e.kind == "write" {
			v = e.args[1]
		}
		return []*snode{at(&snode{what: "layer", val: v, size: num(sym("layersize", true))})}
	}
	val := e.res
	if e.kind == "write" {
		val = e.args[1]
	}
	if e.name == "raw" {
		switch {
		case isString(e.typ):
			return c.strItems(r, e, val, at)
		case isInteger(e.typ):
			return []*snode{at(&snode{what: "num", size: One, typ: e.typ, val: val})}
		}
		if e.kind == "read" {
			return []*snode{at(&snode{what: "str", size: e.args[2], val: val})}
		}
		fr := &frame{fn: e.fn, st: e.st, pc: True, base: e.facts}
		if n, ok := e.facts.Simp(slen(val)).constInt(); ok && n <= 4096 {
			var out []*snode
			for k := int64(0); k < n; k++ {
				b := e.facts.Simp(r.ev.loadElem(e.st, sref(val), Add(soff(val), numInt(k)), types.Typ[types.Uint8]))
				out = append(out, at(&snode{what: "num", size: One, typ: types.Typ[types.Uint8], val: b}))
			}
			return out
		}
		return c.strItems(r, e, r.ev.bytesToString(fr, val), at)
	}
	one := func(t types.Type, v *Term, vars []*Term) []*snode {
		var out []*snode
		vs := comps(t, v)
		for i, lt := range leafTypesOf(t) {
			n, _ := fixedSize(lt)
			out = append(out, at(&snode{what: "num", size: numInt(n), order: e.name, typ: lt, val: vs[i], vars: vars}))
		}
		return out
	}
	if s, ok := e.typ.Underlying().(*types.Slice); ok {
		if e.kind == "read" {
			k := num(sym("@i", true))
			vars := append(loopVars(e), k)
			if intBits(s.Elem()) == 8 {
				return []*snode{at(&snode{what: "str", size: e.args[2], val: val})}
			}
			return []*snode{{t: k, hi: e.args[2], early: False, e: e, body: one(s.Elem(), val, vars)}}
		}
		k := num(fresh("w", true))
		el := r.ev.loadElem(e.st, sref(val), Add(soff(val), k), s.Elem())
		el = e.facts.With(Le(Zero, k), Lt(k, slen(val))).Simp(el)
		return []*snode{{t: k, hi: e.facts.Simp(slen(val)), early: False, e: e, body: one(s.Elem(), el, nil)}}
	}
	return one(e.typ, val, nil)
}

// strItems splits constant texts into bytes.
func (c *Check) strItems(r *Run, e *Event, s *Term, at func(*snode) *snode) []*snode {
	s = e.facts.Simp(s)
	if s.op == OStr {
		return constBytes(s.name, at)
	}
	if s.op == OStrT && s.name == "cat" {
		return append(c.strItems(r, e, s.a[0], at), c.strItems(r, e, s.a[1], at)...)
	}
	return []*snode{at(&snode{what: "str", size: strLen(s), val: s})}
}

func constBytes(s string, at func(*snode) *snode) []*snode {
	var out []*snode
	for k := 0; k < len(s); k++ {
		out = append(out, at(&snode{what: "num", size: One, typ: types.Typ[types.Uint8], val: numInt(int64(s[k]))}))
	}
	return out
}

// matcher lines up two streams: what is written and what is read, or the
// published layout and what is written.
type matcher struct {
	c     *Check
	r     *Run // the run of the second stream
	rule  string
	where string
	sigma *Subst // what the values read are
	spec  bool   // the second stream is written too: compare the values
	layer func(m *matcher, w, r *snode, val *Term, f *Facts)
	tail  *Term // size of unknown data following
	ok    bool
	n     int
}

func (m *matcher) fail(n *snode, und bool, why string) {
	m.ok = false
	at := m.where
	if n != nil && n.e != nil {
		at = m.c.where(n.e.fn) + " at " + m.r.ev.pos(n.e.instr)
	}
	m.c.report(m.rule, at, why, und)
}

// conds are the conditions of an item under a substitution.
func conds(n *snode, s *Subst) []*Term {
	var out []*Term
	if n.e == nil || n.e.facts == nil {
		return nil
	}
	for _, x := range allConds(n.e.facts) {
		out = append(out, s.Do(x))
	}
	return out
}

// executed tells whether an item is reached: 1 yes, -1 no, 0 unknown.
func executed(n *snode, s *Subst, f *Facts) int {
	if n.loop() {
		r := -1
		for _, b := range n.body {
			if executed(b, s, f) != -1 {
				r = 1
			}
		}
		return r
	}
	cs := conds(n, s)
	all := true
	for _, x := range cs {
		if x != True && !f.Proves(x) {
			all = false
			break
		}
	}
	if all {
		return 1
	}
	g := f.With(cs...)
	if g.Contradictory() || g.Refuted() {
		return -1
	}
	return 0
}

func copySub(s *Subst) *Subst {
	n := newSub()
	for k, v := range s.m {
		n.m[k] = v
	}
	for k, v := range s.fn {
		n.fn[k] = v
	}
	n.ids = append([]int32(nil), s.ids...)
	return n
}

// sizeOf is the number of bytes of a stream.
func sizeOf(ns []*snode, s *Subst) *Term {
	r := Zero
	for _, n := range ns {
		if n.loop() {
			v := num(fresh("z", true))
			b := copySub(s)
			b.set(n.t, v)
			r = Add(r, SumR(v, Zero, s.Do(n.hi), sizeOf(n.body, b)))
			continue
		}
		r = Add(r, s.Do(n.size))
	}
	return r
}

// seq matches two sequences. bind gives the loop variables of the first in
// terms of those of the second; after is the size of what follows.
func (m *matcher) seq(ws, rs []*snode, bind *Subst, f *Facts, after *Term) {
	for m.ok {
		// items that are not reached, and loops that do not run
		if len(rs) > 0 {
			r := rs[0]
			x := executed(r, m.sigma, f)
			if !r.loop() && x == 0 {
				var open []*Term
				for _, y := range conds(r, m.sigma) {
					if !f.Proves(y) {
						open = append(open, y)
					}
				}
				m.fail(r, true, "it is not shown that this step always happens: "+Tuple(open...).String())
				return
			}
			if x == -1 {
				rs = rs[1:]
				continue
			}
			if r.loop() {
				if r.hi == nil {
					m.fail(r, true, "the number of repetitions is not known")
					return
				}
				hi := m.sigma.Do(r.hi)
				if f.Proves(Le(hi, Zero)) {
					rs = rs[1:]
					continue
				}
				if len(r.body) == 0 {
					rs = rs[1:]
					continue
				}
			} else if r.what == "len" {
				m.assign(r, Add(Add(sizeOf(ws, bind), after), m.tail))
				rs = rs[1:]
				continue
			}
		}
		if len(ws) > 0 {
			w := ws[0]
			x := executed(w, bind, f)
			if !w.loop() && x == 0 {
				m.fail(w, true, "it is not shown that this item is always written")
				return
			}
			if x == -1 && !(w.loop() && len(w.body) == 0) {
				ws = ws[1:]
				continue
			}
			if w.loop() {
				if w.hi == nil {
					m.fail(w, true, "the number of repetitions is not known")
					return
				}
				hi := bind.Do(w.hi)
				if f.Proves(Le(hi, Zero)) {
					ws = ws[1:]
					continue
				}
			}
		}
		// loops with a single repetition
		w1 := len(ws) > 0 && ws[0].loop() && f.Proves(EqN(bind.Do(ws[0].hi), One))
		r1 := len(rs) > 0 && rs[0].loop() && f.Proves(EqN(m.sigma.Do(rs[0].hi), One))
		if w1 && !r1 {
			bind = copySub(bind).set(ws[0].t, Zero)
			ws = append(append([]*snode{}, ws[0].body...), ws[1:]...)
			continue
		}
		if r1 && !w1 {
			f = f.With(EqN(rs[0].t, Zero))
			rs = append(append([]*snode{}, rs[0].body...), rs[1:]...)
			continue
		}
		switch {
		case len(ws) == 0 && len(rs) == 0:
			return
		case len(ws) == 0:
			if m.spec {
				m.fail(rs[0], false, "more is written than the published layout has")
			} else {
				m.fail(rs[0], false, "more is read than was written")
			}
			return
		case len(rs) == 0:
			if m.spec {
				m.fail(nil, false, "a part of the published layout is not written: "+ws[0].describe())
			} else {
				m.fail(ws[0], false, "this is written, but not read back")
			}
			return
		}
		w, r := ws[0], rs[0]
		if w.loop() != r.loop() {
			m.fail(r, false, "a repeated part is matched by a single one: "+w.describe()+" and "+r.describe())
			return
		}
		if w.loop() {
			wh, rh := bind.Do(w.hi), m.sigma.Do(r.hi)
			if !EqualF(f, wh, rh) {
				m.fail(r, false, "repeated "+f.Simp(rh).String()+" times instead of "+f.Simp(wh).String()+" times")
				return
			}
			g := f.With(Le(Zero, r.t), Lt(r.t, rh))
			b := copySub(bind).set(w.t, r.t)
			if w.early != nil && !g.With(b.Do(w.early)).Refuted() {
				m.fail(w, false, "the repetition may end early: "+g.Simp(b.Do(w.early)).String())
				return
			}
			// what follows: the rest of this repetition, then what is after it
			v := num(fresh("z", true))
			rest := Zero
			if !m.spec {
				b2 := copySub(bind).set(w.t, v)
				rest = Add(SumR(v, Add(r.t, One), rh, sizeOf(w.body, b2)), Add(sizeOf(ws[1:], bind), after))
			}
			if w.each != nil {
				w.each(m, r, g)
			} else {
				m.seq(w.body, r.body, b, g, rest)
			}
			if !m.ok {
				return
			}
			if r.early != nil && !g.With(m.sigma.Do(r.early)).Refuted() {
				m.fail(r, false, "the repetition may end early: "+g.Simp(m.sigma.Do(r.early)).String())
				return
			}
			ws, rs = ws[1:], rs[1:]
			continue
		}
		ws, rs = m.pair(ws, rs, bind, f)
	}
}

func (n *snode) describe() string {
	if n.loop() {
		return "a loop"
	}
	if n.size != nil {
		return n.what + " of " + n.size.String() + " bytes"
	}
	return n.what
}

// pair matches the first items.
func (m *matcher) pair(ws, rs []*snode, bind *Subst, f *Facts) ([]*snode, []*snode) {
	w, r := ws[0], rs[0]
	m.n++
	if w.what == "layer" || r.what == "layer" {
		if w.what != r.what {
			m.fail(r, false, "a layer is matched by "+w.describe()+" and "+r.describe())
			return nil, nil
		}
		m.layer(m, w, r, bind.Do(w.val), f)
		return ws[1:], rs[1:]
	}
	rsz := m.sigma.Do(r.size)
	wsz := bind.Do(w.size)
	switch {
	case r.what == "str" && w.what == "str":
		if !EqualF(f, rsz, wsz) {
			m.fail(r, false, "has length "+f.Simp(rsz).String()+" instead of "+f.Simp(wsz).String())
			return nil, nil
		}
		m.value(w, r, bind.Do(w.val), f)
		return ws[1:], rs[1:]
	case r.what == "str":
		// a text read from several bytes
		n, ok := f.Simp(rsz).constInt()
		if !ok {
			m.fail(r, false, "has length "+f.Simp(rsz).String()+", but "+w.describe()+" was written")
			return nil, nil
		}
		var sb strings.Builder
		k := 0
		for ; k < len(ws) && int64(sb.Len()) < n; k++ {
			x := ws[k]
			v, isC := (*Term)(nil), false
			if x.what == "num" && x.size == One {
				v = f.Simp(bind.Do(x.val))
				isC = v.isConst()
			}
			if !isC {
				m.fail(r, false, "a text of "+f.Simp(rsz).String()+" bytes is read over "+x.describe())
				return nil, nil
			}
			ci, _ := v.constInt()
			sb.WriteByte(byte(ci))
		}
		if int64(sb.Len()) != n {
			m.fail(r, false, "a text of "+f.Simp(rsz).String()+" bytes is read, but fewer were written")
			return nil, nil
		}
		m.value(w, r, Str(sb.String()), f)
		return ws[k:], rs[1:]
	case w.what == "str":
		m.fail(r, false, "a number of "+rsz.String()+" bytes stands for a text of "+f.Simp(wsz).String()+" bytes")
		return nil, nil
	}
	if rsz != wsz {
		m.fail(r, false, "has "+rsz.String()+" bytes instead of "+wsz.String())
		return nil, nil
	}
	if rsz != One && w.order != r.order {
		m.fail(r, false, "has byte order "+r.order+" instead of "+w.order)
		return nil, nil
	}
	if isFloat(w.typ) != isFloat(r.typ) || isInteger(w.typ) != isInteger(r.typ) {
		m.fail(r, false, "is taken as "+r.typ.String()+" instead of "+w.typ.String())
		return nil, nil
	}
	v := bind.Do(w.val)
	if n := intBits(r.typ); n != 0 && n != intBits(w.typ) {
		v = Wrap(n, v)
	}
	m.value(w, r, v, f)
	return ws[1:], rs[1:]
}

// value compares a value that is written or fixes one that is read.
func (m *matcher) value(w, r *snode, v *Term, f *Facts) {
	if !m.spec {
		m.assign(r, v)
		return
	}
	ok := v == r.val || (isStrTerm(v) && f.Proves(boolOf(EqV(v, r.val)))) || (isNumTerm(v) && isNumTerm(r.val) && EqualF(f, v, r.val))
	if !ok {
		m.fail(r, false, "writes "+f.Simp(r.val).String()+" instead of "+f.Simp(v).String())
	}
}

// assign fixes the value of what a step reads.
func (m *matcher) assign(r *snode, v *Term) {
	at := r.val
	if a := at.asAtomSafe(); a != nil {
		at = a
	}
	if len(at.a) == 0 || at.a[0].op != OSym {
		m.fail(r, true, "the value read is not a single unknown: "+r.val.String())
		return
	}
	params := at.a[1:]
	if at.op == OStrT {
		params = params[:len(params)-1]
	}
	var atoms []*Term
	for _, p := range params {
		a := p.asAtomSafe()
		if a == nil || a.op != OSym {
			m.fail(r, true, "a step depends on "+p.String())
			return
		}
		atoms = append(atoms, a)
	}
	for _, x := range r.vars {
		found := false
		for _, a := range atoms {
			if varAtom(x) == a {
				found = true
			}
		}
		if !found && v.hasVar(varAtom(x)) {
			m.fail(r, true, "a step does not depend on its repetition")
			return
		}
	}
	m.sigma.setFn(at.a[0], func(args []*Term) *Term {
		s := newSub()
		for i, a := range atoms {
			s.set(a, args[i])
		}
		return s.Do(v)
	})
	m.sigma.memo = map[int]*Term{}
}

// match lines up what is written with what is read and gives the values read.
func (c *Check) match(rule, where string, ws, rs []*snode, r *Run, f *Facts, layer func(m *matcher, w, r *snode, val *Term, f *Facts)) *matcher {
	tail := sym("trailing", true)
	setLo(tail, Zero)
	m := &matcher{c: c, r: r, rule: rule, where: where, sigma: newSub(), layer: layer, tail: num(tail), ok: true}
	m.sigma.setFn(byteF, func(a []*Term) *Term { return byteOf(a[0], a[1]) })
	m.seq(ws, rs, newSub(), f, Zero)
	c.expect(rule, where, m.ok, "what is written and what is read do not agree")
	return m
}

// conforms compares what is written with a layout.
func (c *Check) conforms(rule, where string, spec, ws []*snode, r *Run, f *Facts, layer func(m *matcher, w, r *snode, val *Term, f *Facts)) *matcher {
	m := &matcher{c: c, r: r, rule: rule, where: where, sigma: newSub(), spec: true, layer: layer, tail: Zero, ok: true}
	m.seq(spec, ws, newSub(), f, Zero)
	c.expect(rule, where, m.ok, "what is written does not follow the published layout")
	return m
}
