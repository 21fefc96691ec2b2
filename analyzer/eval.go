package main

// The dataflow analysis: a forward pass over the SSA form of a function that
// assigns every value a term of the abstract domain. Control-flow joins merge
// values under their gating conditions, loops are summarised by solving their
// recurrences (loops.go), calls within the module are analysed in context.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Oblig struct {
	kind  string
	fn    *ssa.Function
	instr ssa.Instruction
	ok    bool
	cond  *Term
	ctx   string
	facts *Facts
}

type LoopCtx struct {
	t     *Term
	hi    *Term
	early *Term
	loop  *Loop
	ctx   string
}

type Event struct {
	kind  string
	name  string
	args  []*Term
	typ   types.Type
	res   *Term
	facts *Facts
	loops []*LoopCtx
	fn    *ssa.Function
	instr ssa.Instruction
	ctx   string
	st    *State
	seq   int
}

type Eval struct {
	keyNow map[*ssa.Range]*Term // the key of an unrolled map iteration
	w       *World
	events  []*Event
	obls    []*Oblig
	fams    map[string]*Family
	dry     int
	open    []*LoopCtx
	depth   int
	stack   []*ssa.Function
	hook    func(ev *Eval, fr *frame, c ssa.CallInstruction, fn *ssa.Function, name string, args []*Term) (*Term, bool)
	visited map[*ssa.Function]bool
	issues  map[string]bool
	nRuns   int
	nosnap  bool
	faults  *faultPlan
	sigma   *Subst
}

func newEval(w *World) *Eval {
	return &Eval{w: w, fams: map[string]*Family{}, visited: map[*ssa.Function]bool{}, issues: map[string]bool{}}
}

func (ev *Eval) issue(why string) {
	if ev.dry == 0 {
		ev.issues[why] = true
	}
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	ctx    string
	defers []*ssa.Defer
	dconds []*Term
	// current point
	st   *State
	pc   *Term
	base *Facts
	fmem map[int]*Facts
	fmb  *Facts
}

func (fr *frame) facts() *Facts {
	if fr.fmb != fr.base || fr.fmem == nil {
		fr.fmem = map[int]*Facts{}
		fr.fmb = fr.base
	}
	if f, ok := fr.fmem[fr.pc.id]; ok {
		return f
	}
	f := fr.base.With(fr.pc)
	fr.fmem[fr.pc.id] = f
	return f
}

type edge struct {
	from, to *ssa.BasicBlock
	cond     *Term
	st       *State
}

type retRec struct {
	cond *Term
	st   *State
	val  *Term
}

type regionOut struct {
	rets  []retRec
	exits []edge
	backs []edge
}

func (ev *Eval) family(key string, mkf func() *Family) *Family {
	if f, ok := ev.fams[key]; ok {
		return f
	}
	f := mkf()
	ev.fams[key] = f
	return f
}

func (ev *Eval) openTs() []*Term {
	var r []*Term
	for _, l := range ev.open {
		r = append(r, l.t)
	}
	return r
}

// allocFam makes a fresh family for an allocation at the given context.
func (ev *Eval) allocFam(key, name string, kind famKind, elem types.Type) (*Family, *Term, []*Term) {
	ts := ev.openTs()
	f := ev.family(key+"#"+strconv.Itoa(len(ts)), func() *Family { return newFamily(name, kind, len(ts), elem) })
	return f, Ref(f, ts...), ts
}

// resetFam gives a just allocated object its initial content.
func (ev *Eval) resetFam(st *State, f *Family, ts []*Term, v *Term) {
	c := True
	for i := range ts {
		c = And(c, EqN(ph(i), ts[i]))
	}
	st.mem[f] = Ite(c, v, st.content(f))
}

func (ev *Eval) pos(i ssa.Instruction) string {
	if i == nil {
		return "?"
	}
	p := ev.w.prog.Fset.Position(i.Pos())
	if !p.IsValid() && i.Parent() != nil {
		p = ev.w.prog.Fset.Position(i.Parent().Pos())
	}
	return fmt.Sprintf("%s:%d", shortFile(p.Filename), p.Line)
}

func shortFile(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		return s[i+1:]
	}
	return s
}

func (ev *Eval) oblige(kind string, fr *frame, in ssa.Instruction, cond *Term) {
	if ev.dry > 0 || cond == True {
		if ev.dry == 0 {
			ev.obls = append(ev.obls, &Oblig{kind, fr.fn, in, true, cond, fr.ctx, nil})
		}
		return
	}
	f := fr.facts()
	ok := f.Holds(cond)
	if !ok && f.Contradictory() {
		ok = true
	}
	ev.obls = append(ev.obls, &Oblig{kind, fr.fn, in, ok, cond, fr.ctx, f})
}

func (ev *Eval) event(kind, name string, fr *frame, in ssa.Instruction, typ types.Type, res *Term, args ...*Term) {
	if ev.dry > 0 {
		return
	}
	e := &Event{kind: kind, name: name, args: args, typ: typ, res: res, facts: fr.facts(), loops: append([]*LoopCtx(nil), ev.open...), fn: fr.fn, instr: in, ctx: fr.ctx, seq: len(ev.events)}
	if !ev.nosnap {
		e.st = fr.st.clone()
	}
	ev.events = append(ev.events, e)
}

var debugEval = os.Getenv("NNDEBUG") != ""

// Call analyses a function in the given context.
func (ev *Eval) Call(fn *ssa.Function, args, free []*Term, st *State, facts *Facts, ctx string) (*Term, *State, *Term) {
	if fn.Blocks == nil {
		panic(undecided{"no body for " + fn.String()})
	}
	ev.depth++
	defer func() { ev.depth-- }()
	if ev.depth > 60 {
		panic(undecided{"call depth exceeded in " + fn.String()})
	}
	for _, g := range ev.stack {
		if g == fn {
			n := 0
			for _, h := range ev.stack {
				if h == fn {
					n++
				}
			}
			if n > 3 {
				panic(undecided{"recursion through " + fn.String()})
			}
		}
	}
	ev.stack = append(ev.stack, fn)
	defer func() { ev.stack = ev.stack[:len(ev.stack)-1] }()
	ev.visited[fn] = true
	fr := &frame{fn: fn, env: map[ssa.Value]*Term{}, ctx: ctx}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		} else {
			panic(undecided{"missing argument in call of " + fn.String()})
		}
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = free[i]
	}
	li := ev.w.loops(fn)
	st0 := st.clone()
	out := ev.runRegion(fr, li, nil, []edge{{nil, fn.Blocks[0], True, st0}}, facts, nil)
	if len(out.rets) == 0 {
		return nil, st, False
	}
	pc := False
	for _, r := range out.rets {
		pc = Or(pc, r.cond)
	}
	var sts []edge
	for _, r := range out.rets {
		sts = append(sts, edge{cond: r.cond, st: r.st})
	}
	ms, _ := ev.mergeStates(sts)
	val := out.rets[len(out.rets)-1].val
	for i := len(out.rets) - 2; i >= 0; i-- {
		val = Ite(Restrict(out.rets[i].cond, pc), out.rets[i].val, val)
	}
	ms.over = st.over
	return val, ms, pc
}

func (ev *Eval) mergeStates(es []edge) (*State, *Term) {
	pc := False
	for _, e := range es {
		pc = Or(pc, e.cond)
	}
	if len(es) == 1 {
		return es[0].st.clone(), pc
	}
	n := newState()
	keys := map[*Family]*Term{}
	for _, e := range es {
		for f := range e.st.mem {
			keys[f] = nil
		}
	}
	gates := make([]*Term, len(es))
	for i := range es {
		gates[i] = Restrict(es[i].cond, pc)
	}
	for _, f := range sortedFams(keys) {
		last := es[len(es)-1].st.content(f)
		same := true
		for _, e := range es {
			if e.st.content(f) != last {
				same = false
			}
		}
		v := last
		if !same {
			for i := len(es) - 2; i >= 0; i-- {
				v = Ite(gates[i], es[i].st.content(f), v)
			}
		}
		n.mem[f] = v
	}
	ov := map[interface{}]bool{}
	for _, e := range es {
		for k := range e.st.over {
			ov[k] = true
		}
	}
	if len(ov) > 0 {
		n.over = map[interface{}]*Term{}
		for k := range ov {
			var v *Term
			for i := len(es) - 1; i >= 0; i-- {
				x, ok := es[i].st.over[k]
				if !ok {
					continue
				}
				if v == nil {
					v = x
				} else {
					v = Ite(gates[i], x, v)
				}
			}
			n.over[k] = v
		}
	}
	return n, pc
}

// runRegion analyses a function body (loop nil) or one iteration of a loop.
func (ev *Eval) runRegion(fr *frame, li *LoopInfo, loop *Loop, in []edge, base *Facts, headerPhis map[*ssa.Phi]*Term) regionOut {
	var out regionOut
	incoming := map[*ssa.BasicBlock][]edge{}
	start := in[0].to
	incoming[start] = in
	savedBase, savedPC, savedSt := fr.base, fr.pc, fr.st
	defer func() { fr.base, fr.pc, fr.st = savedBase, savedPC, savedSt }()
	emit := func(e edge) {
		if e.cond == False {
			return
		}
		if loop != nil {
			if e.to == loop.header {
				out.backs = append(out.backs, e)
				return
			}
			if !loop.blocks[e.to] {
				out.exits = append(out.exits, e)
				return
			}
		}
		incoming[e.to] = append(incoming[e.to], e)
	}
	for _, b := range li.rpo {
		if loop != nil && !loop.blocks[b] {
			continue
		}
		es := incoming[b]
		if len(es) == 0 {
			continue
		}
		inner := li.loopOf[b]
		if inner != loop {
			if inner != nil && inner.header == b && inner.parent == loop {
				st, pc := ev.mergeStates(es)
				fr.base, fr.pc, fr.st = base, pc, st
				phis := map[*ssa.Phi]*Term{}
				for _, ins := range b.Instrs {
					p, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					phis[p] = ev.phiValue(fr, p, es, pc)
				}
				for _, e := range ev.runLoop(fr, li, inner, st, pc, base, phis) {
					emit(e)
				}
			}
			continue // block of an inner loop, analysed with its header
		}
		var st *State
		var pc *Term
		if b == start {
			st, pc = ev.mergeStates(es)
			if headerPhis != nil {
				for p, v := range headerPhis {
					fr.env[p] = v
				}
			}
		} else {
			st, pc = ev.mergeStates(es)
		}
		fr.base, fr.pc, fr.st = base, pc, st
		if !(b == start && headerPhis != nil) {
			var vals []*Term
			var ps []*ssa.Phi
			for _, ins := range b.Instrs {
				p, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				ps = append(ps, p)
				vals = append(vals, ev.phiValue(fr, p, es, pc))
			}
			for i, p := range ps {
				fr.env[p] = fr.facts().Simp(vals[i])
			}
		}
		ev.runBlock(fr, b, emit, &out)
	}
	return out
}

func (ev *Eval) phiValue(fr *frame, p *ssa.Phi, es []edge, pc *Term) *Term {
	var v *Term
	for i := len(es) - 1; i >= 0; i-- {
		e := es[i]
		for j, pred := range p.Block().Preds {
			if pred == e.from {
				x := ev.valIn(fr, p.Edges[j], e.st)
				if v == nil {
					v = x
				} else if x != v {
					v = Ite(Restrict(e.cond, pc), x, v)
				}
				break
			}
		}
	}
	if v == nil {
		panic(undecided{"phi without incoming value"})
	}
	return v
}

func (ev *Eval) val(fr *frame, v ssa.Value) *Term { return ev.valIn(fr, v, fr.st) }

func (ev *Eval) valIn(fr *frame, v ssa.Value, st *State) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x)
	case *ssa.Global:
		return Ptr(nil, Ref(ev.w.globalFam(x)))
	case *ssa.Function:
		return mk(Term{op: OFunc, x: x})
	case *ssa.Builtin:
		return mk(Term{op: OFunc, x: x})
	}
	if st.over != nil {
		if r, ok := st.over[v]; ok {
			return r
		}
	}
	r, ok := fr.env[v]
	if !ok {
		panic(undecided{"value " + v.Name() + " of " + fr.fn.String() + " is not defined on this path"})
	}
	return r
}

func constTerm(c *ssa.Const) *Term {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return boolT(constant.BoolVal(c.Value))
	case constant.String:
		return Str(constant.StringVal(c.Value))
	case constant.Int, constant.Float:
		return numRat(constRat(c.Value, t))
	}
	panic(undecided{"constant " + c.String()})
}

func constRat(v constant.Value, t types.Type) *big.Rat {
	if k, ok := basicKind(t); ok && k == lkInt {
		r, _ := new(big.Rat).SetString(constant.ToInt(v).ExactString())
		return r
	}
	f, _ := constant.Float64Val(v)
	// the shortest decimal that denotes the same floating-point number
	s := strconv.FormatFloat(f, 'g', -1, 64)
	// prefer simple fractions such as 1/3 kept exact
	if r, ok := new(big.Rat).SetString(s); ok {
		return r
	}
	panic(undecided{"constant " + v.String()})
}

// under evaluates with the current facts as ambient facts.
func (ev *Eval) runBlock(fr *frame, b *ssa.BasicBlock, emit func(edge), out *regionOut) {
	for _, ins := range b.Instrs {
		if fr.pc == False {
			return
		}
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := boolOf(fr.facts().Simp(ev.val(fr, x.Cond)))
			tc, fc := And(fr.pc, c), And(fr.pc, Not(c))
			if tc != False && tc != fr.pc && fr.base.With(tc).Contradictory() {
				tc, fc = False, fr.pc
			} else if fc != False && fc != fr.pc && fr.base.With(fc).Contradictory() {
				fc, tc = False, fr.pc
			}
			st2 := fr.st
			if tc != False && fc != False {
				st2 = fr.st.clone()
			}
			emit(edge{b, b.Succs[0], tc, fr.st})
			emit(edge{b, b.Succs[1], fc, st2})
			return
		case *ssa.Jump:
			emit(edge{b, b.Succs[0], fr.pc, fr.st})
			return
		case *ssa.Return:
			var vs []*Term
			for _, r := range x.Results {
				vs = append(vs, ev.val(fr, r))
			}
			var v *Term
			if len(vs) == 1 {
				v = vs[0]
			} else {
				v = Tuple(vs...)
			}
			out.rets = append(out.rets, retRec{fr.pc, fr.st, v})
			return
		case *ssa.Panic:
			ev.oblige("panic", fr, x, False)
			return
		default:
			under(fr.facts(), func() { ev.instr(fr, ins) })
		}
	}
}

func (ev *Eval) set(fr *frame, v ssa.Value, t *Term) {
	fr.env[v] = t
	if fr.st.over != nil {
		delete(fr.st.over, v)
	}
}

func intBits(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Int8:
		return -8
	case types.Int16:
		return -16
	case types.Int32:
		return -32
	case types.Uint8:
		return 8
	case types.Uint16:
		return 16
	case types.Uint32:
		return 32
	case types.Uint64, types.Uint, types.Uintptr:
		return 64
	}
	return 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

var negInf = num(sym("-inf", false))
var posInf = num(sym("+inf", false))

func (ev *Eval) less(a, b *Term) *Term {
	return lift([]*Term{a, b}, func(x []*Term) *Term {
		a, b := x[0], x[1]
		switch {
		case a == b:
			return False
		case a == negInf || b == posInf:
			return True
		case b == negInf || a == posInf:
			return False
		}
		return Lt(a, b)
	})
}

func (ev *Eval) instr(fr *frame, ins ssa.Instruction) {
	key := func() string { return fr.ctx + "/" + ev.w.instrID(ins) }
	switch x := ins.(type) {
	case *ssa.Alloc:
		et := x.Type().Underlying().(*types.Pointer).Elem()
		if at, ok := et.Underlying().(*types.Array); ok {
			f, ref, ts := ev.allocFam(key(), x.Comment, famElems, at.Elem())
			f.pos = ev.pos(x)
			ev.resetFam(fr.st, f, ts, zeroVal(at.Elem()))
			ev.set(fr, x, Ptr(nil, ref))
			return
		}
		f, ref, ts := ev.allocFam(key(), x.Comment, famCell, et)
		f.pos = ev.pos(x)
		ev.resetFam(fr.st, f, ts, zeroVal(et))
		ev.set(fr, x, Ptr(nil, ref))
	case *ssa.BinOp:
		ev.set(fr, x, ev.binop(fr, x))
	case *ssa.UnOp:
		v := ev.val(fr, x.X)
		switch x.Op {
		case token.MUL:
			ev.oblige("nil", fr, x, Not(IsNil(v)))
			ev.set(fr, x, ev.load(fr, v, x.Type(), key()))
		case token.SUB:
			ev.set(fr, x, wrapTo(x.Type(), Neg(v)))
		case token.NOT:
			ev.set(fr, x, Not(v))
		default:
			panic(undecided{"operator " + x.Op.String()})
		}
	case *ssa.Call:
		ev.set(fr, x, ev.call(fr, x, x.Common()))
	case *ssa.ChangeInterface:
		ev.set(fr, x, ev.val(fr, x.X))
	case *ssa.ChangeType:
		ev.set(fr, x, ev.val(fr, x.X))
	case *ssa.Convert:
		ev.set(fr, x, ev.convert(fr, x, key()))
	case *ssa.Extract:
		ev.set(fr, x, field(ev.val(fr, x.Tuple), x.Index))
	case *ssa.Field:
		ev.set(fr, x, field(ev.val(fr, x.X), x.Field))
	case *ssa.FieldAddr:
		v := ev.val(fr, x.X)
		ev.oblige("nil", fr, x, Not(IsNil(v)))
		ev.set(fr, x, lift([]*Term{v}, func(a []*Term) *Term {
			if a[0].op == OPtr {
				return mk(Term{op: OPtr, ints: append(append([]int(nil), a[0].ints...), x.Field), a: a[0].a})
			}
			if a[0] == Nil {
				return Nil
			}
			return Opaque("fieldaddr"+strconv.Itoa(x.Field), a[0])
		}))
	case *ssa.Index:
		v := ev.val(fr, x.X)
		i := ev.val(fr, x.Index)
		switch u := x.X.Type().Underlying().(type) {
		case *types.Array:
			ev.oblige("index", fr, x, And(Le(Zero, i), Lt(i, numInt(u.Len()))))
			if c, ok := i.constInt(); ok {
				ev.set(fr, x, field(v, int(c)))
				return
			}
			r := field(v, int(u.Len()-1))
			for k := u.Len() - 2; k >= 0; k-- {
				r = Ite(EqN(i, numInt(k)), field(v, int(k)), r)
			}
			ev.set(fr, x, r)
		default: // string
			ev.oblige("index", fr, x, And(Le(Zero, i), Lt(i, strLen(v))))
			ev.set(fr, x, byteAt(v, i))
		}
	case *ssa.IndexAddr:
		v := ev.val(fr, x.X)
		i := ev.val(fr, x.Index)
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			at := pt.Elem().Underlying().(*types.Array)
			ev.oblige("index", fr, x, And(Le(Zero, i), Lt(i, numInt(at.Len()))))
			ev.set(fr, x, lift([]*Term{v}, func(a []*Term) *Term {
				if a[0].op == OPtr && len(a[0].a) == 1 && len(a[0].ints) == 0 {
					return Ptr(nil, a[0].a[0], i)
				}
				panic(undecided{"address of an element of an embedded array"})
			}))
			return
		}
		ev.oblige("index", fr, x, And(Le(Zero, i), Lt(i, slen(v))))
		ev.set(fr, x, lift([]*Term{v}, func(a []*Term) *Term {
			if a[0] == Nil || a[0].op == OSlice && a[0].a[0] == Nil {
				return Nil
			}
			return Ptr(nil, sref(a[0]), Add(soff(a[0]), i))
		}))
	case *ssa.Lookup:
		if isString(x.X.Type()) {
			v, i := ev.val(fr, x.X), ev.val(fr, x.Index)
			ev.oblige("index", fr, x, And(Le(Zero, i), Lt(i, strLen(v))))
			ev.set(fr, x, byteAt(v, i))
			return
		}
		mt := x.X.Type().Underlying().(*types.Map)
		c := ev.mapAt(fr, ev.val(fr, x.X), ev.val(fr, x.Index), mt)
		v := Ite(field(c, 0), field(c, 1), zeroVal(mt.Elem()))
		if x.CommaOk {
			ev.set(fr, x, Tuple(v, field(c, 0)))
		} else {
			ev.set(fr, x, v)
		}
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, ev.val(fr, b))
		}
		ev.set(fr, x, mk(Term{op: OFunc, x: x.Fn.(*ssa.Function), a: bs}))
	case *ssa.MakeInterface:
		v := ev.val(fr, x.X)
		ev.set(fr, x, lift([]*Term{v}, func(a []*Term) *Term {
			return mk(Term{op: OIface, x: canonType(x.X.Type()), a: a})
		}))
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		f, ref, ts := ev.allocFam(key(), "map", famMap, mt.Elem())
		f.key = mt.Key()
		f.pos = ev.pos(x)
		ev.resetFam(fr.st, f, ts, f.zero())
		ev.set(fr, x, ref)
	case *ssa.MakeSlice:
		n := ev.val(fr, x.Len)
		et := x.Type().Underlying().(*types.Slice).Elem()
		f, ref, ts := ev.allocFam(key(), "make", famElems, et)
		f.pos = ev.pos(x)
		ev.oblige("makeslice", fr, x, Le(Zero, n))
		ev.event("make", et.String(), fr, x, et, ref, n)
		ev.resetFam(fr.st, f, ts, zeroVal(et))
		ev.set(fr, x, Slice(ref, Zero, n))
	case *ssa.MapUpdate:
		m, k, v := ev.val(fr, x.Map), ev.val(fr, x.Key), ev.val(fr, x.Value)
		ev.oblige("nilmap", fr, x, Not(IsNil(m)))
		mt := x.Map.Type().Underlying().(*types.Map)
		ev.mapUpdate(fr, m, k, v, mt)
	case *ssa.Range:
		ev.set(fr, x, Opaque("range", ev.val(fr, x.X)))
	case *ssa.Next:
		ev.set(fr, x, ev.next(fr, x))
	case *ssa.Slice:
		ev.set(fr, x, ev.slice(fr, x))
	case *ssa.Store:
		p := ev.val(fr, x.Addr)
		ev.oblige("nil", fr, x, Not(IsNil(p)))
		ev.store(fr, p, ev.val(fr, x.Val))
	case *ssa.TypeAssert:
		ev.set(fr, x, ev.typeAssert(fr, x))
	case *ssa.Defer:
		fr.defers = append(fr.defers, x)
		fr.dconds = append(fr.dconds, fr.pc)
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			d := fr.defers[i]
			c := Restrict(fr.dconds[i], fr.pc)
			if c == True {
				ev.call(fr, d, &d.Call)
				continue
			}
			if And(fr.dconds[i], fr.pc) == False {
				continue
			}
			ev.guarded(fr, c, func() *Term { return ev.call(fr, d, &d.Call) })
		}
	default:
		panic(undecided{fmt.Sprintf("instruction %T in %s", ins, fr.fn)})
	}
}

// guarded runs an action under an extra condition and merges its effects.
func (ev *Eval) guarded(fr *frame, c *Term, do func() *Term) *Term {
	before, pc := fr.st, fr.pc
	fr.st = before.clone()
	fr.pc = And(pc, c)
	v := do()
	ret := fr.pc
	ms, _ := ev.mergeStates([]edge{{cond: And(pc, Not(c)), st: before}, {cond: ret, st: fr.st}})
	fr.st = ms
	fr.pc = Or(And(pc, Not(c)), ret)
	return v
}

func wrapTo(t types.Type, v *Term) *Term {
	if n := intBits(t); n != 0 {
		return Wrap(n, v)
	}
	return v
}

// wrapIn leaves out the wrapping where the value is known to be in range.
func wrapIn(fr *frame, t types.Type, v *Term) *Term {
	n := intBits(t)
	w := wrapTo(t, v)
	if n == 0 || w == v || n > 32 || v.op != OPoly {
		return w
	}
	lo, hi := wrapRange(n)
	f := fr.facts()
	if f.Holds(Le(numRat(new(big.Rat).SetInt(lo)), v)) && f.Holds(Le(v, numRat(new(big.Rat).SetInt(hi)))) {
		return v
	}
	return w
}

func (ev *Eval) binop(fr *frame, x *ssa.BinOp) *Term {
	a, b := ev.val(fr, x.X), ev.val(fr, x.Y)
	t := x.X.Type()
	switch x.Op {
	case token.EQL:
		return EqV(a, b)
	case token.NEQ:
		return Not(EqV(a, b))
	}
	if isString(t) {
		switch x.Op {
		case token.ADD:
			return strCat(a, b)
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			f := sym("strless", false)
			switch x.Op {
			case token.LSS:
				return BApp(f, a, b)
			case token.GTR:
				return BApp(f, b, a)
			case token.LEQ:
				return Not(BApp(f, b, a))
			}
			return Not(BApp(f, a, b))
		}
		panic(undecided{"string operator " + x.Op.String()})
	}
	switch x.Op {
	case token.LSS:
		return ev.less(a, b)
	case token.GTR:
		return ev.less(b, a)
	case token.LEQ:
		return Not(ev.less(b, a))
	case token.GEQ:
		return Not(ev.less(a, b))
	case token.ADD:
		return wrapIn(fr, x.Type(), Add(numOf(a), numOf(b)))
	case token.SUB:
		return wrapIn(fr, x.Type(), Sub(numOf(a), numOf(b)))
	case token.MUL:
		return wrapTo(x.Type(), Mul(numOf(a), numOf(b)))
	case token.QUO:
		if isInteger(t) {
			ev.oblige("div", fr, x, Not(EqN(b, Zero)))
			return wrapTo(x.Type(), Idiv(a, b))
		}
		ev.event("fdiv", "", fr, x, nil, nil, a, b)
		return Div(numOf(a), numOf(b))
	case token.REM:
		ev.oblige("div", fr, x, Not(EqN(b, Zero)))
		return wrapTo(x.Type(), Imod(a, b))
	case token.SHL, token.SHR:
		if c, ok := b.constInt(); ok && c >= 0 && c < 62 {
			if x.Op == token.SHL {
				return wrapTo(x.Type(), Mul(a, numInt(1<<uint(c))))
			}
			return num(mk(Term{op: OFloor, a: []*Term{Div(a, numInt(1<<uint(c)))}, isInt: true}))
		}
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if isBoolTerm(a) {
			break
		}
		return App(sym("bit"+x.Op.String(), true), a, b)
	}
	if x.Op == token.SHL || x.Op == token.SHR {
		return App(sym("bit"+x.Op.String(), true), a, b)
	}
	panic(undecided{"operator " + x.Op.String()})
}

// ---------- strings ----------

var strLenF = sym("strlen", true)
var byteF = sym("byteof", true)

func init() {
	setLo(strLenF, Zero)
	setLo(byteF, Zero)
	setHi(byteF, numInt(255))
}

func strLen(s *Term) *Term {
	return lift([]*Term{s}, func(x []*Term) *Term {
		switch {
		case x[0].op == OStr:
			return numInt(int64(len(x[0].name)))
		case x[0].op == OStrT && x[0].name == "raw":
			return x[0].a[len(x[0].a)-1]
		case x[0].op == OStrT && x[0].name == "cat":
			return Add(strLen(x[0].a[0]), strLen(x[0].a[1]))
		}
		return App(strLenF, x[0])
	})
}

func byteAt(s, i *Term) *Term {
	if c, ok := i.constInt(); ok && s.op == OStr && c >= 0 && int(c) < len(s.name) {
		return numInt(int64(s.name[c]))
	}
	return App(byteF, s, i)
}

func strCat(a, b *Term) *Term {
	return lift([]*Term{a, b}, func(x []*Term) *Term {
		if x[0].op == OStr && x[1].op == OStr {
			return Str(x[0].name + x[1].name)
		}
		if x[0].op == OStr && x[0].name == "" {
			return x[1]
		}
		if x[1].op == OStr && x[1].name == "" {
			return x[0]
		}
		return StrT("cat", x[0], x[1])
	})
}

func (ev *Eval) convert(fr *frame, x *ssa.Convert, key string) *Term {
	v := ev.val(fr, x.X)
	from, to := x.X.Type().Underlying(), x.Type().Underlying()
	switch {
	case isInteger(from) && isInteger(to):
		if n := intBits(to); n != 0 {
			if intBits(from) == n {
				return v
			}
			w := Wrap(n, v)
			if at := w.asAtomSafe(); at != nil && at.op == OWrap {
				lo, hi := rangeOfInt(to)
				if f := fr.facts(); lo != nil && f.Proves(Le(lo, v)) && f.Proves(Le(v, hi)) {
					return v
				}
			}
			return w
		}
		return v // int and int64 hold every narrower value; uint64 values are taken as in range
	case isInteger(from) && isFloat(to):
		return v
	case isFloat(from) && isFloat(to):
		if b := to.(*types.Basic); b.Kind() == types.Float32 {
			return App(sym("float32", false), v)
		}
		return v
	case isFloat(from) && isInteger(to):
		return wrapTo(to, Trunc(v))
	case isString(to):
		if s, ok := from.(*types.Slice); ok && intBits(s.Elem()) == 8 {
			return ev.bytesToString(fr, v)
		}
	case isString(from):
		if s, ok := to.(*types.Slice); ok && intBits(s.Elem()) == 8 {
			f, ref, ts := ev.allocFam(key, "bytes", famElems, s.Elem())
			ev.resetFam(fr.st, f, ts, App(byteF, v, phIdx))
			return Slice(ref, Zero, strLen(v))
		}
	}
	panic(undecided{"conversion from " + from.String() + " to " + to.String()})
}

func (ev *Eval) bytesToString(fr *frame, v *Term) *Term {
	i := num(fresh("b", true))
	return lift([]*Term{v}, func(a []*Term) *Term {
		if sref(a[0]) == Nil {
			return Str("")
		}
		c := fr.facts().With(Le(Zero, i), Lt(i, slen(a[0]))).Simp(ev.loadElem(fr.st, sref(a[0]), Add(soff(a[0]), i), types.Typ[types.Uint8]))
		var text func(c *Term, f *Facts) *Term
		text = func(c *Term, f *Facts) *Term {
			if c.op == OIte && !c.a[0].hasVar(varAtom(i)) {
				return Ite(c.a[0], text(c.a[1], f.With(c.a[0])), text(c.a[2], f.With(Not(c.a[0]))))
			}
			if at := c.asAtomSafe(); at != nil && at.op == OApp && at.a[0] == byteF {
				s, j := at.a[1], at.a[2]
				if j == i && f.Holds(EqN(strLen(s), slen(a[0]))) {
					return s
				}
				return StrT("sub", s, Sub(j, i), slen(a[0]))
			}
			return StrT("frombytes", sref(a[0]), soff(a[0]), slen(a[0]))
		}
		return text(c, fr.facts())
	})
}

func (t *Term) asAtomSafe() *Term {
	if t.op != OPoly {
		return nil
	}
	return t.asAtom()
}

// ---------- memory ----------

func (ev *Eval) loadElem(st *State, ref, idx *Term, t types.Type) *Term {
	return lift([]*Term{ref}, func(a []*Term) *Term {
		if a[0].op == ORef {
			f := a[0].fam()
			return st.at(f, a[0].a, idx)
		}
		return havocVal(t, "deref", a[0], idx)
	})
}

func (ev *Eval) load(fr *frame, p *Term, t types.Type, key string) *Term {
	if p.op == OIte {
		p = fr.facts().Simp(p)
	}
	v := lift([]*Term{p}, func(a []*Term) *Term {
		x := a[0]
		if x.op != OPtr || x.a[0].op != ORef {
			if x != Nil {
				ev.issue("read through an unresolved pointer " + x.String())
			}
			return havocVal(t, "deref", x)
		}
		f := x.a[0].fam()
		if f.kind == famElems && len(x.a) == 1 {
			panic(undecided{"load of a whole array"})
		}
		var idx *Term
		if len(x.a) > 1 {
			idx = x.a[1]
		}
		c := fr.st.at(f, x.a[0].a, idx)
		c = fr.facts().Simp(c)
		return projPath(c, x.ints)
	})
	return fr.facts().Simp(v)
}

func (ev *Eval) store(fr *frame, p, v *Term) {
	p = fr.facts().Simp(p)
	for _, g := range cases(p) {
		x := g.v
		if x == Nil {
			continue
		}
		if x.op != OPtr || x.a[0].op != ORef {
			ev.issue("write through an unresolved pointer " + x.String())
			continue
		}
		f := x.a[0].fam()
		var idx *Term
		if len(x.a) > 1 {
			idx = x.a[1]
		}
		if f.kind == famElems && idx == nil {
			// whole array
			if v.op != OTuple {
				panic(undecided{"store of a whole array"})
			}
			for k, e := range v.a {
				ev.writeLoc(fr.st, f, x.a[0].a, numInt(int64(k)), nil, e, g.c)
			}
			continue
		}
		ev.writeLoc(fr.st, f, x.a[0].a, idx, x.ints, v, g.c)
	}
}

func (ev *Eval) writeLoc(st *State, f *Family, al []*Term, idx *Term, path []int, v, cond *Term) {
	old := st.content(f)
	nv := v
	if len(path) > 0 {
		nv = updatePath(old, path, v)
	}
	st.mem[f] = Ite(And(cond, hit(f, al, idx)), nv, old)
}

// ---------- maps ----------

func (ev *Eval) mapAt(fr *frame, m, k *Term, mt *types.Map) *Term {
	m = fr.facts().Simp(m)
	v := lift([]*Term{m}, func(a []*Term) *Term {
		if a[0] == Nil {
			return Tuple(False, zeroVal(mt.Elem()), Zero)
		}
		if a[0].op != ORef {
			ev.issue("read of an unresolved map")
			return Tuple(BApp(sym("maphas", false), a[0], k), havocVal(mt.Elem(), "mapval", a[0], k), App(sym("maplen", true), a[0]))
		}
		return fr.st.at(a[0].fam(), a[0].a, k)
	})
	return fr.facts().Simp(v)
}

func mapContentType(f *Family) types.Type {
	return types.NewTuple(types.NewVar(0, nil, "has", types.Typ[types.Bool]), types.NewVar(0, nil, "val", f.elem), types.NewVar(0, nil, "len", types.Typ[types.Int]))
}

func contentType(f *Family) types.Type {
	if f.kind == famMap {
		return mapContentType(f)
	}
	return f.elem
}

func (ev *Eval) mapLen(fr *frame, m *Term) *Term {
	m = fr.facts().Simp(m)
	return lift([]*Term{m}, func(a []*Term) *Term {
		if a[0] == Nil {
			return Zero
		}
		if a[0].op != ORef {
			return App(sym("maplen", true), a[0])
		}
		return field(fr.st.at(a[0].fam(), a[0].a, nil), 2)
	})
}

func (ev *Eval) mapUpdate(fr *frame, m, k, v *Term, mt *types.Map) {
	m = fr.facts().Simp(m)
	for _, g := range cases(m) {
		if g.v.op != ORef {
			if g.v != Nil {
				ev.issue("write to an unresolved map")
			}
			continue
		}
		f := g.v.fam()
		al := g.v.a
		hasK := field(fr.st.at(f, al, k), 0)
		old := fr.st.content(f)
		objC := And(g.c, hit(f, al, nil))
		newLen := Ite(hasK, field(old, 2), Add(field(old, 2), One))
		here := EqV(f.keyPH(), k)
		nv := Tuple(Or(here, field(old, 0)), Ite(here, v, field(old, 1)), newLen)
		fr.st.mem[f] = Ite(objC, nv, old)
	}
}

func (ev *Eval) mapDelete(fr *frame, m, k *Term) {
	m = fr.facts().Simp(m)
	for _, g := range cases(m) {
		if g.v.op != ORef {
			if g.v != Nil {
				ev.issue("write to an unresolved map")
			}
			continue
		}
		f := g.v.fam()
		al := g.v.a
		hasK := field(fr.st.at(f, al, k), 0)
		old := fr.st.content(f)
		objC := And(g.c, hit(f, al, nil))
		here := EqV(f.keyPH(), k)
		nv := Tuple(And(Not(here), field(old, 0)), Ite(here, zeroVal(f.elem), field(old, 1)), Ite(hasK, Sub(field(old, 2), One), field(old, 2)))
		fr.st.mem[f] = Ite(objC, nv, old)
	}
}

var mapKeyNumF = sym("mapkeyn", true)

// ranged0 is what an iterator passes over.
func ranged0(it *Term) *Term {
	return lift([]*Term{it}, func(a []*Term) *Term { return a[0].a[0] })
}

// next is the step of an iteration over a map or string.
func (ev *Eval) next(fr *frame, x *ssa.Next) *Term {
	it := ev.val(fr, x.Iter)
	if rg, ok := x.Iter.(*ssa.Range); ok && ev.keyNow[rg] != nil {
		k := ev.keyNow[rg]
		mt := rg.X.Type().Underlying().(*types.Map)
		if k == Nil {
			return Tuple(False, zeroVal(mt.Key()), zeroVal(mt.Elem()))
		}
		return Tuple(True, k, field(ev.mapAt(fr, ranged0(it), k, mt), 1))
	}
	if len(ev.open) == 0 {
		panic(undecided{"iterator outside a loop"})
	}
	t := ev.open[len(ev.open)-1].t
	if x.IsString {
		s := ranged0(it)
		return Tuple(Lt(t, strLen(s)), t, byteAt(s, t))
	}
	m := fr.facts().Simp(ranged0(it))
	mt := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
	return lift([]*Term{m}, func(a []*Term) *Term {
		n := ev.mapLen(fr, a[0])
		var id *Term = a[0]
		var k *Term
		if isString(mt.Key()) {
			k = StrT("mapkey", id, t)
		} else if isInteger(mt.Key()) {
			k = App(mapKeyNumF, id, t)
		} else {
			k = Opaque("mapkey", id, t)
		}
		ev.event("maprange", "", fr, x, nil, nil, a[0])
		c := ev.mapAt(fr, a[0], k, mt)
		return Tuple(Lt(t, n), k, field(c, 1))
	})
}

// ---------- slices ----------

func (ev *Eval) slice(fr *frame, x *ssa.Slice) *Term {
	v := ev.val(fr, x.X)
	get := func(s ssa.Value) *Term {
		if s == nil {
			return nil
		}
		return ev.val(fr, s)
	}
	lo, hi := get(x.Low), get(x.High)
	if lo == nil {
		lo = Zero
	}
	if isString(x.X.Type()) {
		n := strLen(v)
		if hi == nil {
			hi = n
		}
		ev.oblige("slice", fr, x, And(Le(Zero, lo), Le(lo, hi), Le(hi, n)))
		if lo == Zero && hi == n {
			return v
		}
		return StrT("sub", v, lo, Sub(hi, lo))
	}
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		at := pt.Elem().Underlying().(*types.Array)
		if hi == nil {
			hi = numInt(at.Len())
		}
		ev.oblige("slice", fr, x, And(Le(Zero, lo), Le(lo, hi), Le(hi, numInt(at.Len()))))
		return lift([]*Term{v}, func(a []*Term) *Term {
			if a[0].op != OPtr || len(a[0].a) != 1 || len(a[0].ints) != 0 {
				panic(undecided{"slice of an embedded array"})
			}
			return mkSlice(a[0].a[0], lo, Sub(hi, lo))
		})
	}
	n := slen(v)
	if hi == nil {
		hi = n
	}
	ev.oblige("slice", fr, x, And(Le(Zero, lo), Le(lo, hi), Le(hi, n)))
	return lift([]*Term{v}, func(a []*Term) *Term {
		return mkSlice(sref(a[0]), Add(soff(a[0]), lo), Sub(hi, lo))
	})
}

func (ev *Eval) appendTo(fr *frame, s, e *Term, et types.Type, key string) *Term {
	facts := fr.facts()
	n2 := slen(e)
	n2 = facts.Simp(n2)
	if n2 == Zero {
		return s
	}
	s = facts.Simp(s)
	// source elements, read before the write
	before := fr.st.clone()
	srcAt := func(i *Term) *Term {
		return lift([]*Term{e}, func(a []*Term) *Term {
			if sref(a[0]) == Nil {
				return zeroVal(et)
			}
			if sref(a[0]).op == OStrT || sref(a[0]).op == OStr {
				return byteAt(sref(a[0]), i)
			}
			return ev.loadElem(before, sref(a[0]), Add(soff(a[0]), i), et)
		})
	}
	nc, isConst := n2.constInt()
	put := func(f *Family, al []*Term, at, cond *Term) {
		if isConst && nc <= 4 {
			for k := int64(0); k < nc; k++ {
				ev.writeLoc(fr.st, f, al, Add(at, numInt(k)), nil, facts.Simp(srcAt(numInt(k))), cond)
			}
			return
		}
		rel := Sub(phIdx, at)
		in := And(cond, hit(f, al, nil), Le(Zero, rel), Lt(rel, n2))
		fr.st.mem[f] = Ite(in, srcAt(rel), fr.st.content(f))
	}
	var out *Term
	cs := cases(s)
	for i := len(cs) - 1; i >= 0; i-- {
		g := cs[i]
		ref, off, n := sref(g.v), soff(g.v), slen(g.v)
		var r *Term
		switch {
		case ref.op == ORef && !ref.fam().param:
			f := ref.fam()
			put(f, ref.a, Add(off, n), g.c)
			r = Slice(ref, off, Add(n, n2))
		default:
			f, nref, ts := ev.allocFam(key, "append", famElems, et)
			f.pos = ev.pos(nil)
			var cp *Term
			switch {
			case ref == Nil:
				cp = zeroVal(et)
			case ref.op == ORef:
				inr := And(Le(Zero, phIdx), Lt(phIdx, n))
				cp = Ite(inr, before.at(ref.fam(), ref.a, Add(off, phIdx)), zeroVal(et))
			default:
				ev.issue("append to an unresolved slice")
				cp = havocVal(et, "deref", ref, phIdx)
			}
			if cp == fr.st.content(f) || g.c == True {
				ev.resetFam(fr.st, f, ts, cp)
			} else {
				c := g.c
				for k := range ts {
					c = And(c, EqN(ph(k), ts[k]))
				}
				fr.st.mem[f] = Ite(c, cp, fr.st.content(f))
			}
			put(f, ts, n, g.c)
			r = Slice(nref, Zero, Add(n, n2))
		}
		if out == nil {
			out = r
		} else {
			out = Ite(g.c, r, out)
		}
	}
	return out
}

func (ev *Eval) copySlice(fr *frame, d, s *Term, et types.Type) *Term {
	facts := fr.facts()
	var srcLen *Term
	str := isStrTerm(s)
	if str {
		srcLen = strLen(s)
	} else {
		srcLen = slen(s)
	}
	n := facts.Simp(Min2(slen(d), srcLen))
	before := fr.st.clone()
	d = facts.Simp(d)
	for _, g := range cases(d) {
		ref, off := sref(g.v), soff(g.v)
		if ref == Nil {
			continue
		}
		if ref.op != ORef {
			ev.issue("copy to an unresolved slice")
			continue
		}
		f := ref.fam()
		rel := Sub(phIdx, off)
		var sv *Term
		if str {
			sv = byteAt(s, rel)
		} else {
			sv = lift([]*Term{s}, func(a []*Term) *Term {
				if sref(a[0]) == Nil {
					return zeroVal(et)
				}
				return ev.loadElem(before, sref(a[0]), Add(soff(a[0]), rel), et)
			})
		}
		in := And(g.c, hit(f, ref.a, nil), Le(Zero, rel), Lt(rel, n))
		fr.st.mem[f] = Ite(in, sv, fr.st.content(f))
	}
	return n
}

// ---------- interfaces ----------

func typeIs(v *Term, t types.Type) *Term {
	ct := canonType(t)
	return lift([]*Term{v}, func(a []*Term) *Term {
		switch a[0].op {
		case OIface:
			if types.IsInterface(t) {
				return boolT(types.Implements(a[0].x.(types.Type), t.Underlying().(*types.Interface)))
			}
			return boolT(a[0].x == interface{}(ct))
		case ONil:
			return False
		}
		if types.IsInterface(t) {
			return Not(IsNil(a[0]))
		}
		return TypeIsT(a[0], ct)
	})
}

func (ev *Eval) typeAssert(fr *frame, x *ssa.TypeAssert) *Term {
	v := fr.facts().Simp(ev.val(fr, x.X))
	ok := fr.facts().Simp(typeIs(v, x.AssertedType))
	var r *Term
	if types.IsInterface(x.AssertedType) {
		r = Ite(ok, v, Nil)
	} else {
		r = lift([]*Term{v}, func(a []*Term) *Term {
			if a[0].op == OIface {
				if a[0].x == interface{}(canonType(x.AssertedType)) {
					return a[0].a[0]
				}
				return zeroVal(x.AssertedType)
			}
			if a[0] == Nil {
				return zeroVal(x.AssertedType)
			}
			return Opaque("dyn", a[0])
		})
		if x.CommaOk {
			r = Ite(ok, r, zeroVal(x.AssertedType))
		}
	}
	if x.CommaOk {
		return Tuple(r, ok)
	}
	ev.oblige("typeassert", fr, x, ok)
	return r
}

// ---------- calls ----------

func (ev *Eval) call(fr *frame, ins ssa.CallInstruction, c *ssa.CallCommon) *Term {
	key := fr.ctx + "/" + ev.w.instrID(ins)
	var args []*Term
	for _, a := range c.Args {
		args = append(args, ev.val(fr, a))
	}
	if c.IsInvoke() {
		recv := fr.facts().Simp(ev.val(fr, c.Value))
		ev.oblige("nil", fr, ins, Not(IsNil(recv)))
		return ev.perCase(fr, recv, func(r *Term) *Term {
			if r.op == OIface {
				if dt, ok := r.x.(types.Type); ok {
					fn := ev.w.prog.LookupMethod(dt, c.Method.Pkg(), c.Method.Name())
					if fn != nil {
						return ev.invokeFn(fr, ins, fn, nil, append([]*Term{r.a[0]}, args...), key)
					}
				}
			}
			if r == Nil {
				fr.pc = False
				return nil
			}
			if ev.hook != nil {
				if v, ok := ev.hook(ev, fr, ins, nil, c.Method.Name(), append([]*Term{r}, args...)); ok {
					return v
				}
			}
			return ev.externalInvoke(fr, ins, c, r, args, key)
		})
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return ev.builtin(fr, ins, c, b.Name(), args, key)
	}
	fv := fr.facts().Simp(ev.val(fr, c.Value))
	return ev.perCase(fr, fv, func(f *Term) *Term {
		if f.op == OFunc {
			if fn, ok := f.x.(*ssa.Function); ok {
				return ev.invokeFn(fr, ins, fn, f.a, args, key)
			}
		}
		if f == Nil {
			ev.oblige("nil", fr, ins, False)
			fr.pc = False
			return nil
		}
		panic(undecided{"call of an unresolved function value"})
	})
}

// perCase runs an action for every case of a value and merges the effects.
func (ev *Eval) perCase(fr *frame, v *Term, do func(*Term) *Term) *Term {
	cs := cases(v)
	if len(cs) == 1 {
		return do(cs[0].v)
	}
	st0, pc0 := fr.st, fr.pc
	var es []edge
	var vals []*Term
	for _, g := range cs {
		pc := And(pc0, g.c)
		if pc == False {
			continue
		}
		fr.st, fr.pc = st0.clone(), pc
		r := do(g.v)
		if fr.pc == False {
			continue
		}
		es = append(es, edge{cond: fr.pc, st: fr.st})
		vals = append(vals, r)
	}
	if len(es) == 0 {
		fr.st, fr.pc = st0, False
		return nil
	}
	ms, pc := ev.mergeStates(es)
	var out *Term
	for i := len(es) - 1; i >= 0; i-- {
		if out == nil {
			out = vals[i]
		} else if vals[i] != nil {
			out = Ite(Restrict(es[i].cond, pc), vals[i], out)
		}
	}
	fr.st, fr.pc = ms, pc
	return out
}

func (ev *Eval) invokeFn(fr *frame, ins ssa.CallInstruction, fn *ssa.Function, free, args []*Term, key string) *Term {
	if ev.hook != nil {
		if v, ok := ev.hook(ev, fr, ins, fn, fn.Name(), args); ok {
			return v
		}
	}
	if fn.Blocks != nil && ev.w.inModule(fn) {
		v, st, pc := ev.Call(fn, args, free, fr.st, fr.facts(), key)
		st.over = fr.st.over
		fr.st = st
		fr.pc = And(fr.pc, pc)
		if v == nil {
			return Tuple()
		}
		return v
	}
	return ev.external(fr, ins, fn, args, key)
}

func (ev *Eval) builtin(fr *frame, ins ssa.CallInstruction, c *ssa.CallCommon, name string, args []*Term, key string) *Term {
	switch name {
	case "len", "cap":
		t := c.Args[0].Type().Underlying()
		switch u := t.(type) {
		case *types.Basic:
			return strLen(args[0])
		case *types.Map:
			return ev.mapLen(fr, args[0])
		case *types.Array:
			return numInt(u.Len())
		case *types.Pointer:
			return numInt(u.Elem().Underlying().(*types.Array).Len())
		}
		if name == "cap" {
			// at least the length; unknown otherwise
			return Add(slen(args[0]), App(extraCap, args[0]))
		}
		return slen(args[0])
	case "append":
		st := c.Args[0].Type().Underlying().(*types.Slice)
		e := args[1]
		if isStrTerm(e) {
			e = Slice(e, Zero, strLen(e))
		}
		return ev.appendTo(fr, args[0], e, st.Elem(), key)
	case "copy":
		st := c.Args[0].Type().Underlying().(*types.Slice)
		return ev.copySlice(fr, args[0], args[1], st.Elem())
	case "delete":
		ev.mapDelete(fr, args[0], args[1])
		return Tuple()
	case "clear":
		panic(undecided{"clear"})
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			if name == "max" {
				r = Ite(ev.less(r, a), a, r)
			} else {
				r = Ite(ev.less(a, r), a, r)
			}
		}
		return fr.facts().Simp(r)
	case "print", "println":
		return Tuple()
	case "recover":
		return Nil
	case "ssa:wrapnilchk":
		return args[0]
	}
	panic(undecided{"builtin " + name})
}

var extraCap = sym("extracap", true)

func init() { setLo(extraCap, Zero) }

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
