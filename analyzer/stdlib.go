package main

// Models of the library functions the analysed module may call.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// handle is a non-nil opaque object.
func handle(kind string, args ...*Term) *Term { return mk(Term{op: OIface, x: "h:" + kind, a: args}) }

func isHandle(t *Term, kind string) bool {
	s, ok := t.x.(string)
	return t.op == OIface && ok && s == "h:"+kind
}

func errTerm(args ...*Term) *Term { return handle("error", args...) }

// failure makes the outcome of a fallible operation: an atom and the error.
func (ev *Eval) failure(key string) (*Term, *Term) {
	at := BApp(sym("fails:"+key, false), ev.openTs()...)
	if ev.faults != nil {
		at = ev.faults.cond(ev, key, false)
	}
	return at, Ite(at, errTerm(append([]*Term{Str(key)}, ev.openTs()...)...), Nil)
}

// faultPlan restricts which operations fail: none, or one site at one iteration.
type faultPlan struct {
	site  string
	short bool
	at    []*Term
	sites []*faultSite
	known map[string]*faultSite
}

type faultSite struct {
	key   string
	loops int
	short bool // it can also read less than asked for
	where string
}

func newFaults(site *faultSite, short bool) *faultPlan {
	p := &faultPlan{short: short, known: map[string]*faultSite{}}
	if site != nil {
		p.site = site.key
		for i := 0; i < site.loops; i++ {
			s := sym(fmt.Sprintf("F%d", i), true)
			setLo(s, Zero)
			p.at = append(p.at, num(s))
		}
	}
	return p
}

func (p *faultPlan) record(ev *Eval, key string, short bool) {
	s := p.known[key]
	if s == nil {
		s = &faultSite{key: key, loops: len(ev.openTs()), where: key}
		p.known[key] = s
		p.sites = append(p.sites, s)
	}
	s.short = s.short || short
}

func (p *faultPlan) cond(ev *Eval, key string, short bool) *Term {
	p.record(ev, key, short)
	if key != p.site || short != p.short {
		return False
	}
	c := True
	for i, t := range ev.openTs() {
		if i < len(p.at) {
			c = And(c, EqN(t, p.at[i]))
		}
	}
	return c
}

// endFam tells, when short reads are analysed, that the data has ended.
func (ev *Eval) endFam() *Family {
	return ev.family("ghost:end", func() *Family {
		f := newFamily("end of data", famCell, 0, types.Typ[types.Bool])
		f.init = False
		return f
	})
}

// readFailure is the outcome of reading n bytes from a buffer.
func (ev *Eval) readFailure(fr *frame, key string, n *Term) (*Term, *Term) {
	fail, _ := ev.failure(key)
	if ev.faults != nil && ev.faults.short {
		fail = fr.facts().Simp(fr.st.content(ev.endFam()))
	}
	if c := Lt(Zero, n); c != True {
		fail = And(c, fail)
	}
	if fail == False {
		return False, Nil
	}
	return fail, Ite(fail, errTerm(append([]*Term{Str(key)}, ev.openTs()...)...), Nil)
}

// shortRead is the number of bytes a read of n0 bytes returns when it succeeds.
func (ev *Eval) shortRead(fr *frame, key string, n0, lo, fail *Term) (n, short *Term) {
	short = BApp(sym("short:"+key, false), ev.openTs()...)
	if ev.faults != nil {
		short = ev.faults.cond(ev, key, true)
	}
	short = And(short, And(Not(fail), Lt(lo, n0)))
	if short == False {
		return n0, False
	}
	nf := sym("nread"+lo.String()+":"+key, true)
	bounds[nf.id] = bound{lo: func([]*Term) *Term { return lo }, hi: belowFirstArg}
	ns := App(nf, append([]*Term{n0}, ev.openTs()...)...)
	if ev.faults != nil {
		f := ev.endFam()
		fr.st.mem[f] = Or(short, fr.st.content(f))
	}
	return Ite(short, ns, n0), short
}

func (ev *Eval) ioEvent(op string, fr *frame, ins ssa.Instruction, fail *Term, args ...*Term) {
	ev.event("io", op, fr, ins, nil, fail, args...)
}

func (ev *Eval) freshNum(name, key string, isInt bool, lo, hi *Term, extra ...*Term) *Term {
	f := sym(name+":"+key, isInt)
	if lo != nil {
		setLo(f, lo)
	}
	if hi != nil {
		setHi(f, hi)
	}
	return App(f, append(append([]*Term(nil), extra...), ev.openTs()...)...)
}

func extName(fn *ssa.Function) string {
	n := fn.String()
	n = strings.TrimPrefix(n, "(")
	n = strings.Replace(n, ")", "", 1)
	return n
}

var float64Bits = sym("float64bits", true)
var rngCall = map[string]bool{"Float64": true, "NormFloat64": true, "ExpFloat64": true, "Intn": true, "Int63n": true, "Int31n": true, "Int": true, "Int63": true, "Int31": true, "Uint32": true, "Uint64": true, "Perm": true, "Shuffle": true, "Seed": true, "Float32": true, "Uint64n": true}

var globalRNG = handle("globalrng")

func (ev *Eval) external(fr *frame, ins ssa.CallInstruction, fn *ssa.Function, args []*Term, key string) *Term {
	name := extName(fn)
	facts := fr.facts()
	two := func(f func(a, b *Term) *Term) *Term { return facts.Simp(f(numOf(args[0]), numOf(args[1]))) }
	one := func(f func(a *Term) *Term) *Term {
		return facts.Simp(lift([]*Term{args[0]}, func(x []*Term) *Term { return f(x[0]) }))
	}
	switch name {
	case "math.Max":
		return two(func(a, b *Term) *Term { return Ite(ev.less(a, b), b, a) })
	case "math.Min":
		return two(func(a, b *Term) *Term { return Ite(ev.less(b, a), b, a) })
	case "math.Abs":
		return one(Abs)
	case "math.Exp":
		r := one(Exp)
		ev.event("exp", "", fr, ins, nil, r, args[0])
		return r
	case "math.Exp2":
		ev.event("exp", "", fr, ins, nil, nil, args[0])
		return one(func(a *Term) *Term { return Pow(numInt(2), a) })
	case "math.Expm1":
		r := one(Exp)
		ev.event("exp", "", fr, ins, nil, r, args[0])
		return Sub(r, One)
	case "math.Log":
		ev.event("log", "", fr, ins, nil, nil, args[0])
		return one(Log)
	case "math.Log1p":
		x := Add(One, args[0])
		ev.event("log", "", fr, ins, nil, nil, x)
		return facts.Simp(lift([]*Term{x}, func(x []*Term) *Term { return Log(x[0]) }))
	case "math.Sqrt":
		ev.event("sqrt", "", fr, ins, nil, nil, args[0])
		return one(Sqrt)
	case "math.Pow":
		return facts.Simp(lift([]*Term{args[0], args[1]}, func(x []*Term) *Term { return Pow(x[0], x[1]) }))
	case "math.Floor":
		return one(Floor)
	case "math.Ceil":
		return one(func(a *Term) *Term { return Neg(Floor(Neg(a))) })
	case "math.Trunc":
		return one(Trunc)
	case "math.Copysign":
		a, s := args[0], args[1]
		return Ite(Lt(s, Zero), Neg(Abs(a)), Abs(a))
	case "math.Signbit":
		return Lt(args[0], Zero)
	case "math.Mod":
		ev.event("fdiv", "", fr, ins, nil, nil, args[0], args[1])
		return App(sym("math.Mod", false), args...)
	case "math.FMA":
		return Add(Mul(args[0], args[1]), args[2])
	case "math.Tanh":
		// through the exponential: (e^x - e^-x) / (e^x + e^-x)
		return one(func(a *Term) *Term {
			return Div(Sub(Exp(a), Exp(Neg(a))), Add(Exp(a), Exp(Neg(a))))
		})
	case "math.Hypot":
		return facts.Simp(lift(args, func(x []*Term) *Term { return Sqrt(Add(Mul(x[0], x[0]), Mul(x[1], x[1]))) }))
	case "math.Inf":
		return Ite(Le(Zero, args[0]), posInf, negInf)
	case "math.NaN":
		return num(sym("NaN", false))
	case "math.IsNaN":
		return lift(args[:1], func(x []*Term) *Term { return boolT(x[0] == num(sym("NaN", false))) })
	case "math.IsInf":
		s := args[1]
		return lift(args[:1], func(x []*Term) *Term {
			switch x[0] {
			case posInf:
				return Le(Zero, s)
			case negInf:
				return Le(s, Zero)
			}
			return False
		})
	case "math.Float64bits":
		return App(float64Bits, args[0])
	case "math.Float64frombits":
		return lift(args[:1], func(x []*Term) *Term {
			if a := x[0].asAtomSafe(); a != nil && a.op == OApp && a.a[0] == float64Bits {
				return a.a[1]
			}
			return App(sym("float64frombits", false), x[0])
		})
	case "errors.New", "fmt.Errorf":
		return errTerm(append([]*Term{Str(key)}, ev.openTs()...)...)
	case "errors.Is":
		return BApp(sym("errors.Is", false), args...)
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		return StrT("sprintf", append(append([]*Term{Str(key)}, ev.openTs()...), ev.operands(fr, args)...)...)
	case "fmt.Print", "fmt.Println", "fmt.Printf":
		return Tuple(ev.freshNum("n", key, true, Zero, nil), Nil)
	case "strconv.Itoa":
		return StrT("itoa", args[0])
	case "log.New":
		return handle("logger", append([]*Term{Str(key), args[0]}, ev.openTs()...)...)
	case "log.Printf", "log.Println", "log.Print":
		return Tuple()
	case "time.Now":
		return handle("time", append([]*Term{Str(key)}, ev.openTs()...)...)
	case "time.Since", "time.Time.Sub":
		ev.event("entropy", name, fr, ins, nil, nil)
		return ev.freshNum("duration", key, true, nil, nil)
	case "time.Time.UnixNano", "time.Time.Unix", "time.Time.UnixMilli", "time.Time.UnixMicro", "time.Time.Nanosecond":
		g := 3
		switch name {
		case "time.Time.UnixNano":
			g = 9
		case "time.Time.UnixMicro":
			g = 6
		case "time.Time.Unix":
			g = 0
		}
		ev.event("entropy", name, fr, ins, nil, nil)
		return App(sym(fmt.Sprintf("now%d:%s", g, key), true), args...)
	case "sort.Strings", "slices.Sort":
		return ev.sortStrings(fr, args[0])
	case "sort.Slice", "sort.SliceStable", "sort.Sort":
		panic(undecided{"sorting with a caller-defined order"})
	case "encoding/binary.Write":
		return ev.binaryWrite(fr, ins, args, key)
	case "encoding/binary.Read":
		return ev.binaryRead(fr, ins, args, key)
	case "encoding/binary.Size":
		return ev.freshNum("size", key, true, nil, nil)
	case "bytes.NewBuffer", "bytes.NewReader":
		f, ref, ts := ev.allocFam(key, "buffer", famCell, types.Typ[types.Int])
		f.pos = ev.pos(ins)
		_ = ts
		ev.event("newbuf", name, fr, ins, nil, ref, args[0])
		ev.resetFam(fr.st, f, ts, Tuple(args[0]))
		return Ptr(nil, ref)
	case "bytes.NewBufferString":
		f, ref, ts := ev.allocFam(key, "buffer", famCell, types.Typ[types.Int])
		ev.resetFam(fr.st, f, ts, Tuple(args[0]))
		return Ptr(nil, ref)
	case "bytes.Equal":
		return EqV(ev.bytesToString(fr, args[0]), ev.bytesToString(fr, args[1]))
	case "math.Lgamma":
		return Tuple(App(sym("lgamma", false), args[0]), One)
	case "math.Tan", "math.Sin", "math.Cos", "math.Round", "math.Log2", "math.Log10", "math.Cbrt", "math.Sinh", "math.Cosh":
		if name == "math.Log2" || name == "math.Log10" {
			ev.event("log", "", fr, ins, nil, nil, args[0])
		}
		return App(sym(name, false), args[0])
	case "strings.Repeat", "strings.ToLower", "strings.ToUpper", "strings.TrimSpace":
		return StrT(name, args...)
	case "sync.Mutex.Lock", "sync.Mutex.Unlock", "sync.RWMutex.Lock", "sync.RWMutex.Unlock":
		return Tuple()
	}
	short := name[strings.LastIndex(name, "/")+1:]
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	}
	if strings.HasPrefix(short, "*") {
		short = short[1:]
	}
	switch {
	case pkg == "math/rand" || pkg == "golang.org/x/exp/rand" || pkg == "math/rand/v2":
		return ev.randCall(fr, ins, fn, args, key)
	case strings.HasPrefix(name, "*log.Logger."):
		ev.oblige("nil", fr, ins, Not(IsNil(args[0])))
		ev.event("logmsg", name, fr, ins, nil, nil, args...)
		if fn.Signature.Results().Len() == 0 {
			if strings.Contains(name, "Fatal") || strings.Contains(name, "Panic") {
				ev.oblige("panic", fr, ins, False)
				fr.pc = False
			}
			return Tuple()
		}
		if name == "*log.Logger.Writer" {
			return handle("writer", args[0])
		}
	case strings.HasPrefix(name, "*bytes.Buffer.") || strings.HasPrefix(name, "*bytes.Reader."):
		if r := ev.bufferCall(fr, ins, fn, strings.TrimPrefix(strings.TrimPrefix(name, "*bytes.Buffer."), "*bytes.Reader."), args, key); r != nil {
			return r
		}
	case pkg == "os" || pkg == "io" || pkg == "io/ioutil" || strings.HasPrefix(name, "*os.File."):
		if r := ev.osCall(fr, ins, fn, name, args, key); r != nil {
			return r
		}
	case strings.HasPrefix(name, "encoding/binary.littleEndian.") || strings.HasPrefix(name, "encoding/binary.bigEndian."):
		if r := ev.endianCall(fr, ins, name, args, key); r != nil {
			return r
		}
	}
	return ev.unknownCall(fr, ins, fn.Signature, name, args, key)
}

// unknownCall gives unknown results; the memory reachable from the arguments
// must not be needed precisely any more.
func (ev *Eval) unknownCall(fr *frame, ins ssa.CallInstruction, sig *types.Signature, name string, args []*Term, key string) *Term {
	for _, a := range args {
		for _, g := range cases(a) {
			if g.v.op == OPtr || g.v.op == ORef || g.v.op == OSlice && g.v.a[0] != Nil {
				ev.issue("storage passed to the unmodelled function " + name)
			}
		}
	}
	var vals []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		if types.Identical(t, types.Universe.Lookup("error").Type()) {
			fail, err := ev.failure(key)
			ev.ioEvent(name, fr, ins, fail, args...)
			vals = append(vals, err)
			continue
		}
		vals = append(vals, havocVal(t, fmt.Sprintf("result%d:%s", i, key), ev.openTs()...))
	}
	ev.event("unknown", name, fr, ins, nil, nil, args...)
	if len(vals) == 1 {
		return vals[0]
	}
	return Tuple(vals...)
}

func (ev *Eval) externalInvoke(fr *frame, ins ssa.CallInstruction, c *ssa.CallCommon, recv *Term, args []*Term, key string) *Term {
	name := c.Method.Name()
	if isHandle(recv, "rngsrc") || isHandle(recv, "rng") {
		return ev.randMethod(fr, ins, name, recv, args, key)
	}
	if isHandle(recv, "error") && name == "Error" {
		return StrT("errtext", recv)
	}
	if isHandle(recv, "fileinfo") && name == "Size" {
		return App(fileSizeF, recv)
	}
	if isHandle(recv, "file") {
		if r := ev.fileMethod(fr, ins, name, append([]*Term{recv}, args...), key); r != nil {
			return r
		}
	}
	if strings.HasPrefix(c.Method.FullName(), "(error)") {
		return StrT("errtext", recv)
	}
	return ev.unknownCall(fr, ins, c.Method.Type().(*types.Signature), c.Method.FullName(), args, key)
}

// ---------- random numbers ----------

var uniformF = map[*Term]bool{}

func (ev *Eval) randCall(fr *frame, ins ssa.CallInstruction, fn *ssa.Function, args []*Term, key string) *Term {
	name := fn.Name()
	recv := fn.Signature.Recv()
	switch {
	case recv == nil && name == "NewSource":
		ev.event("seed", fn.String(), fr, ins, nil, nil, args...)
		return handle("rngsrc", append([]*Term{Str(key), args[0]}, ev.openTs()...)...)
	case recv == nil && name == "New":
		return ev.rngOf(args[0], key)
	case recv == nil:
		return ev.randMethod(fr, ins, name, globalRNG, args, key)
	}
	ev.oblige("nil", fr, ins, Not(IsNil(args[0])))
	return ev.randMethod(fr, ins, name, args[0], args[1:], key)
}

func (ev *Eval) rngOf(src *Term, key string) *Term {
	return lift([]*Term{src}, func(x []*Term) *Term { return handle("rng", x[0]) })
}

func (ev *Eval) randMethod(fr *frame, ins ssa.CallInstruction, name string, gen *Term, args []*Term, key string) *Term {
	facts := fr.facts()
	draw := func(v *Term) *Term {
		ev.event("draw", name, fr, ins, nil, v, append([]*Term{gen}, args...)...)
		return v
	}
	switch name {
	case "Seed":
		ev.event("reseed", name, fr, ins, nil, nil, append([]*Term{gen}, args...)...)
		return Tuple()
	case "Float64", "Float32":
		v := ev.freshNum("U", key, false, Zero, One)
		return draw(v)
	case "NormFloat64":
		return draw(ev.freshNum("Normal", key, false, nil, nil))
	case "ExpFloat64":
		return draw(ev.freshNum("Expo", key, false, Zero, nil))
	case "Intn", "Int63n", "Int31n", "IntN", "Uint64n":
		ev.oblige("panic", fr, ins, Lt(Zero, args[0]))
		f := sym("Intn:"+key, true)
		setLo(f, Zero)
		bounds[f.id] = bound{lo: func([]*Term) *Term { return Zero }, hi: belowFirstArg}
		return draw(App(f, append([]*Term{args[0]}, ev.openTs()...)...))
	case "Int", "Int63", "Int31", "Uint32", "Uint64":
		return draw(ev.freshNum("RandInt", key, true, Zero, nil))
	case "Perm":
		ev.oblige("makeslice", fr, ins, Le(Zero, args[0]))
		f, ref, ts := ev.allocFam(key, "perm", famElems, types.Typ[types.Int])
		f.pos = ev.pos(ins)
		pf := ev.permFn(key, args[0])
		ev.resetFam(fr.st, f, ts, App(pf, append(append([]*Term(nil), ts...), phIdx)...))
		draw(App(pf, append(append([]*Term(nil), ts...), phIdx)...))
		return Slice(ref, Zero, args[0])
	case "Shuffle":
		return ev.shuffle(fr, ins, gen, args, key)
	}
	_ = facts
	panic(undecided{"random number method " + name})
}

var permBound = map[int]*Term{} // permutation function -> size

func (ev *Eval) permFn(key string, n *Term) *Term {
	pf := sym("permutation:"+key, true)
	permBound[pf.id] = n
	bounds[pf.id] = bound{lo: func([]*Term) *Term { return Zero }}
	if !n.hasAnyVar(varsOf(ev.openTs())) {
		nn := n
		bounds[pf.id] = bound{lo: func([]*Term) *Term { return Zero }, hi: func([]*Term) *Term { return Sub(nn, One) }}
	}
	return pf
}

func varsOf(ts []*Term) []int32 {
	var r []int32
	for _, t := range ts {
		r = mergeVars(r, t.vars)
	}
	return r
}

// shuffle analyses one exchange with symbolic positions; when it exchanges
// two elements of each storage it touches, the whole is a permutation.
func (ev *Eval) shuffle(fr *frame, ins ssa.CallInstruction, gen *Term, args []*Term, key string) *Term {
	n := args[0]
	ev.oblige("panic", fr, ins, Le(Zero, n))
	fv := args[1]
	if fv.op != OFunc {
		panic(undecided{"shuffle with an unresolved function"})
	}
	fn := fv.x.(*ssa.Function)
	i := num(sym("swapi:"+key, true))
	j := num(sym("swapj:"+key, true))
	facts := fr.facts().With(Le(Zero, j), Le(j, i), Lt(i, n))
	before := fr.st
	var after *State
	var pc *Term
	_, after, pc = ev.Call(fn, []*Term{i, j}, fv.a, before.clone(), facts, key)
	if pc != True && !facts.Holds(pc) {
		panic(undecided{"the shuffle callback may not return"})
	}
	pf := ev.permFn(key, n)
	ts := ev.openTs()
	pi := App(pf, append(append([]*Term(nil), ts...), phIdx)...)
	ev.event("draw", "Shuffle", fr, ins, nil, pi, gen, n)
	st := before.clone()
	for _, f := range sortedFams(after.mem) {
		c0, c1 := before.content(f), after.content(f)
		if c0 == c1 {
			continue
		}
		if f.kind != famElems {
			if ev.deadAfter(f, key) {
				continue
			}
			ev.issue("the shuffle callback changes " + f.name)
			continue
		}
		at := func(x *Term) *Term { return Subst1(c0, varAtom(phIdx), x) }
		swap := Ite(EqN(phIdx, i), at(j), Ite(EqN(phIdx, j), at(i), c0))
		g := facts
		var cond *Term
		// the storage that is exchanged: restrict to the allocation that changes
		ok := EqualUnder(g, c1, swap)
		if !ok {
			W := Not(EqV(c1, c0))
			_ = W
			// same exchange, only for some allocation indices
			conds := condAtoms(c1)
			cond = True
			for _, a := range conds {
				if a.op == OEq0 && !a.hasVar(varAtom(phIdx)) && a.hasAnyVar(varsOf(phsAl(f))) {
					cond = And(cond, boolOf(a))
				}
			}
			ok = EqualUnder(g, c1, Ite(cond, swap, c0))
		}
		if !ok {
			// unknown order of the elements
			ev.issue("the shuffle callback does not exchange two elements of " + f.name)
			st.mem[f] = havocVal(f.elem, "shuffled:"+key, f.phs()...)
			continue
		}
		perm := Subst1(c0, varAtom(phIdx), pi)
		inr := And(Le(Zero, phIdx), Lt(phIdx, n))
		if cond != nil {
			inr = And(inr, cond)
		}
		st.mem[f] = Ite(inr, perm, c0)
	}
	fr.st = st
	return Tuple()
}

func phsAl(f *Family) []*Term {
	var r []*Term
	for i := 0; i < f.nal; i++ {
		r = append(r, ph(i))
	}
	return r
}

// deadAfter: storage allocated by the call itself.
func (ev *Eval) deadAfter(f *Family, key string) bool {
	for k, g := range ev.fams {
		if g == f && strings.HasPrefix(k, key+"/") {
			return true
		}
	}
	return false
}

// ---------- sorting ----------

func (ev *Eval) sortStrings(fr *frame, s *Term) *Term {
	facts := fr.facts()
	s = facts.Simp(s)
	for _, g := range cases(s) {
		ref, off, n := sref(g.v), soff(g.v), slen(g.v)
		if ref == Nil {
			continue
		}
		if ref.op != ORef {
			panic(undecided{"sort of an unresolved slice"})
		}
		f := ref.fam()
		k := num(fresh("k", true))
		e := facts.With(Le(Zero, k), Lt(k, n)).Simp(fr.st.at(f, ref.a, Add(off, k)))
		var nv *Term
		rel := Sub(phIdx, off)
		if e.op == OStrT && e.name == "mapkey" && e.a[1] == k {
			nv = StrT("sortedkey", e.a[0], rel)
			if ks, ok := ev.literalKeys(fr, e.a[0]); ok && len(ks) > 0 && facts.Proves(EqN(n, numInt(int64(len(ks))))) {
				nv = Str(ks[len(ks)-1])
				for i := len(ks) - 2; i >= 0; i-- {
					nv = Ite(EqN(rel, numInt(int64(i))), Str(ks[i]), nv)
				}
			}
		} else {
			nv = StrT("sorted", Subst1(e, varAtom(k), num(sym("@sortidx", true))), n, rel)
		}
		in := And(g.c, hit(f, ref.a, nil), Le(Zero, rel), Lt(rel, n))
		fr.st.mem[f] = Ite(in, nv, fr.st.content(f))
	}
	return Tuple()
}

// literalKeys are the keys of a map, in order, when they are a known set of texts.
func (ev *Eval) literalKeys(fr *frame, m *Term) ([]string, bool) {
	if m.op != ORef || m.fam().kind != famMap {
		return nil, false
	}
	k := StrT("anykey", num(fresh("k", true)))
	f := fr.facts()
	has := f.Simp(field(fr.st.at(m.fam(), m.a, k), 0))
	lits := map[string]bool{}
	var walk func(t *Term)
	seen := map[*Term]bool{}
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OStr {
			lits[t.name] = true
		}
		for _, a := range t.a {
			walk(a)
		}
	}
	walk(has)
	var no []*Term
	var out []string
	for _, s := range sortedKeys(lits) {
		no = append(no, Not(EqV(k, Str(s))))
		switch f.Simp(field(fr.st.at(m.fam(), m.a, Str(s)), 0)) {
		case True:
			out = append(out, s)
		case False:
		default:
			return nil, false
		}
	}
	if f.With(no...).Simp(has) != False {
		return nil, false
	}
	return out, true
}

// ---------- binary encoding ----------

func fixedSize(t types.Type) (int64, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.Int8, types.Uint8:
			return 1, true
		case types.Int16, types.Uint16:
			return 2, true
		case types.Int32, types.Uint32, types.Float32:
			return 4, true
		case types.Int64, types.Uint64, types.Float64:
			return 8, true
		}
		return 0, false
	case *types.Array:
		n, ok := fixedSize(u.Elem())
		return n * u.Len(), ok
	case *types.Struct:
		var s int64
		for i := 0; i < u.NumFields(); i++ {
			n, ok := fixedSize(u.Field(i).Type())
			if !ok {
				return 0, false
			}
			s += n
		}
		return s, true
	}
	return 0, false
}

func bufRef(w *Term) (*Term, bool) {
	// writer or reader argument -> in-memory buffer
	if w.op == OIface && len(w.a) > 0 {
		if t, ok := w.x.(types.Type); ok {
			s := types.TypeString(t, nil)
			if s == "*bytes.Buffer" || s == "*bytes.Reader" {
				return w.a[0], true
			}
		}
	}
	return w, false
}

func orderName(o *Term) string {
	if o.op == OIface {
		if t, ok := o.x.(types.Type); ok {
			s := types.TypeString(t, nil)
			switch {
			case strings.Contains(s, "ittleEndian"):
				return "little"
			case strings.Contains(s, "igEndian"):
				return "big"
			}
		}
		if s, ok := o.x.(string); ok {
			switch {
			case strings.Contains(s, "LittleEndian"):
				return "little"
			case strings.Contains(s, "BigEndian"):
				return "big"
			}
		}
	}
	return "?"
}

// oneIface joins the cases of an interface that all hold the same type.
func oneIface(v *Term) *Term {
	if v.op != OIte {
		return v
	}
	a, b := oneIface(v.a[1]), oneIface(v.a[2])
	if a.op == OIface && b.op == OIface && a.x == b.x && len(a.a) == 1 && len(b.a) == 1 {
		if _, ok := a.x.(types.Type); ok {
			return mk(Term{op: OIface, x: a.x, a: []*Term{Ite(boolOf(v.a[0]), a.a[0], b.a[0])}})
		}
	}
	return v
}

func (ev *Eval) binaryWrite(fr *frame, ins ssa.CallInstruction, args []*Term, key string) *Term {
	w := fr.facts().Simp(args[0])
	buf, mem := bufRef(w)
	data := oneIface(fr.facts().Simp(args[2]))
	if data.op != OIface {
		panic(undecided{"binary.Write of an unresolved value"})
	}
	dt, ok := data.x.(types.Type)
	if !ok {
		panic(undecided{"binary.Write of an unresolved value"})
	}
	v := data.a[0]
	if p, isPtr := dt.Underlying().(*types.Pointer); isPtr {
		ev.oblige("nil", fr, ins, Not(IsNil(v)))
		v = ev.load(fr, v, p.Elem(), key)
		dt = p.Elem()
	}
	elem := dt
	if s, isSl := dt.Underlying().(*types.Slice); isSl {
		elem = s.Elem()
	}
	if _, ok := fixedSize(elem); !ok {
		err := errTerm(Str(key))
		ev.ioEvent("binary.Write of "+dt.String(), fr, ins, True, buf)
		return err
	}
	fail, err := ev.failure(key)
	if mem {
		fail, err = False, Nil
	} else {
		ev.ioEvent("binary.Write", fr, ins, fail, buf)
	}
	ev.event("write", orderName(args[1]), fr, ins, dt, nil, buf, v)
	return err
}

func rangeOfInt(t types.Type) (lo, hi *Term) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return nil, nil
	}
	p := func(e uint) *Term {
		return numRat(new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), e)))
	}
	switch b.Kind() {
	case types.Int8:
		return Neg(p(7)), Sub(p(7), One)
	case types.Int16:
		return Neg(p(15)), Sub(p(15), One)
	case types.Int32:
		return Neg(p(31)), Sub(p(31), One)
	case types.Int64, types.Int:
		return Neg(p(63)), Sub(p(63), One)
	case types.Uint8:
		return Zero, Sub(p(8), One)
	case types.Uint16:
		return Zero, Sub(p(16), One)
	case types.Uint32:
		return Zero, Sub(p(32), One)
	case types.Uint64, types.Uint:
		return Zero, Sub(p(64), One)
	}
	return nil, nil
}

// leafTypesOf lists the basic types a fixed-size value is made of.
func leafTypesOf(t types.Type) []types.Type {
	var out []types.Type
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, leafTypesOf(u.Field(i).Type())...)
		}
	case *types.Array:
		for i := int64(0); i < u.Len(); i++ {
			out = append(out, leafTypesOf(u.Elem())...)
		}
	default:
		out = append(out, t)
	}
	return out
}

// known replaces what is read by what is known to have been written.
func (ev *Eval) known(t *Term) *Term {
	if ev.sigma != nil {
		return ev.sigma.Do(t)
	}
	return t
}

// byteOf is a byte of a string that may depend on conditions.
func byteOf(s, i *Term) *Term {
	return lift([]*Term{s, i}, func(x []*Term) *Term { return byteAt(x[0], x[1]) })
}

// readVal is a value of unknown bytes.
func (ev *Eval) readVal(t types.Type, key string, extra ...*Term) *Term {
	ks := leavesOf(t)
	leafTypes := leafTypesOf(t)
	var ls []*Term
	for i, k := range ks {
		f := sym(fmt.Sprintf("read:%s.%d", key, i), k == lkInt)
		lo, hi := rangeOfInt(leafTypes[i])
		if lo != nil {
			bounds[f.id] = bound{lo: func([]*Term) *Term { return lo }, hi: func([]*Term) *Term { return hi }}
		}
		ls = append(ls, ev.known(leafFn(k, f, append(append([]*Term(nil), ev.openTs()...), extra...))))
	}
	return build(t, ls)
}

func (ev *Eval) binaryRead(fr *frame, ins ssa.CallInstruction, args []*Term, key string) *Term {
	r := fr.facts().Simp(args[0])
	buf, _ := bufRef(r)
	data := oneIface(fr.facts().Simp(args[2]))
	dt, ok := types.Type(nil), false
	if data.op == OIface {
		dt, ok = data.x.(types.Type)
	}
	if !ok {
		panic(undecided{"binary.Read into an unresolved value"})
	}
	p := data.a[0]
	amount := One
	if _, isSl := dt.Underlying().(*types.Slice); isSl {
		amount = slen(p)
	}
	fail, err := ev.readFailure(fr, key, amount)
	switch u := dt.Underlying().(type) {
	case *types.Pointer:
		if _, ok := fixedSize(u.Elem()); !ok {
			ev.ioEvent("binary.Read into "+dt.String(), fr, ins, True, buf)
			return errTerm(Str(key))
		}
		ev.oblige("nil", fr, ins, Not(IsNil(p)))
		v := ev.readVal(u.Elem(), key)
		old := ev.load(fr, p, u.Elem(), key)
		ev.store(fr, p, Ite(fail, old, v))
		ev.ioEvent("binary.Read", fr, ins, fail, buf)
		ev.event("read", orderName(args[1]), fr, ins, u.Elem(), v, buf, fail)
		return err
	case *types.Slice:
		if _, ok := fixedSize(u.Elem()); !ok {
			ev.ioEvent("binary.Read into "+dt.String(), fr, ins, True, buf)
			return errTerm(Str(key))
		}
		v := ev.readSlice(fr, p, u.Elem(), key, slen(p), fail)
		ev.ioEvent("binary.Read", fr, ins, fail, buf)
		ev.event("read", orderName(args[1]), fr, ins, dt, v, buf, fail, slen(p))
		return err
	}
	ev.ioEvent("binary.Read into "+dt.String(), fr, ins, True, buf)
	return errTerm(Str(key))
}

// readSlice fills the first n elements of a slice with unknown values.
func (ev *Eval) readSlice(fr *frame, s *Term, et types.Type, key string, n, fail *Term) *Term {
	k := num(sym("@i", true))
	if intBits(et) == 8 {
		raw := ev.known(StrT("raw", append(append([]*Term{sym("rawread:"+key, false)}, ev.openTs()...), n)...))
		ev.fillSlice(fr, s, func(rel *Term) *Term { return byteOf(raw, rel) }, n, fail)
		return raw
	}
	ev.fillSlice(fr, s, func(rel *Term) *Term { return ev.readVal(et, key, rel) }, n, fail)
	return ev.readVal(et, key, k)
}

func (ev *Eval) fillSlice(fr *frame, s *Term, elem func(rel *Term) *Term, n, fail *Term) {
	s = fr.facts().Simp(s)
	for _, g := range cases(s) {
		ref, off := sref(g.v), soff(g.v)
		if ref == Nil {
			continue
		}
		if ref.op != ORef {
			ev.issue("read into an unresolved slice")
			continue
		}
		f := ref.fam()
		rel := Sub(phIdx, off)
		in := And(g.c, Not(fail), hit(f, ref.a, nil), Le(Zero, rel), Lt(rel, n))
		fr.st.mem[f] = Ite(in, elem(rel), fr.st.content(f))
	}
}

var bufLenF = sym("buflen", true)
var fileSizeF = sym("filesize", true)

func init() {
	setLo(bufLenF, Zero)
	setLo(fileSizeF, Zero)
}

func (ev *Eval) bufferCall(fr *frame, ins ssa.CallInstruction, fn *ssa.Function, name string, args []*Term, key string) *Term {
	buf := fr.facts().Simp(args[0])
	ev.oblige("nil", fr, ins, Not(IsNil(buf)))
	byteT := types.Typ[types.Uint8]
	switch name {
	case "Write":
		ev.event("write", "raw", fr, ins, types.NewSlice(byteT), nil, buf, args[1])
		return Tuple(slen(args[1]), Nil)
	case "WriteString":
		ev.event("write", "raw", fr, ins, types.Typ[types.String], nil, buf, args[1])
		return Tuple(strLen(args[1]), Nil)
	case "WriteByte":
		ev.event("write", "raw", fr, ins, byteT, nil, buf, args[1])
		return Nil
	case "Read":
		n0 := slen(args[1])
		fail, err := ev.readFailure(fr, key, n0)
		n, short := ev.shortRead(fr, key, n0, One, fail)
		v := ev.readSlice(fr, args[1], byteT, key, n, fail)
		// a short read gives different bytes from a complete one
		ev.ioEvent("Buffer.Read", fr, ins, fail, buf)
		ev.event("read", "raw", fr, ins, types.NewSlice(byteT), v, buf, fail, n0, short)
		return Tuple(Ite(fail, Zero, n), err)
	case "ReadByte":
		fail, err := ev.readFailure(fr, key, One)
		v := ev.readVal(byteT, key)
		ev.ioEvent("Buffer.ReadByte", fr, ins, fail, buf)
		ev.event("read", "raw", fr, ins, byteT, v, buf, fail)
		return Tuple(Ite(fail, Zero, v), err)
	case "Next":
		n0 := args[1]
		ev.oblige("slice", fr, ins, Le(Zero, n0))
		n, short := ev.shortRead(fr, key, n0, Zero, False)
		f, ref, ts := ev.allocFam(key, "next", famElems, byteT)
		ev.resetFam(fr.st, f, ts, Zero)
		s := Slice(ref, Zero, n)
		v := ev.readSlice(fr, s, byteT, key, n, False)
		ev.event("read", "raw", fr, ins, types.NewSlice(byteT), v, buf, False, n0, short)
		return s
	case "Len":
		v := ev.known(ev.freshNum("buflen", key, true, Zero, nil))
		ev.event("buflen", "", fr, ins, nil, v, buf)
		return v
	case "Bytes":
		v := ev.known(ev.freshNum("buflen", key, true, Zero, nil))
		ev.event("buflen", "", fr, ins, nil, v, buf)
		return Slice(Opaque("bufbytes", buf, v), Zero, v)
	case "String":
		return StrT("bufstring", buf)
	case "Reset", "Truncate":
		ev.event("write", "reset", fr, ins, nil, nil, buf)
		return Tuple()
	case "Grow":
		ev.oblige("panic", fr, ins, Le(Zero, args[1]))
		ev.event("make", "uint8", fr, ins, byteT, nil, args[1])
		return Tuple()
	case "WriteTo":
		fail, err := ev.failure(key)
		w := fr.facts().Simp(args[1])
		ev.ioEvent("WriteTo", fr, ins, fail, w, Slice(Opaque("bufbytes", buf), Zero, App(bufLenF, buf)))
		return Tuple(App(bufLenF, buf), err)
	case "ReadFrom":
		fail, err := ev.failure(key)
		r := fr.facts().Simp(args[1])
		ev.ioEvent("ReadAll", fr, ins, fail, r)
		n := ev.freshNum("readlen", key, true, Zero, nil)
		for _, g := range cases(buf) {
			if g.v.op == OPtr && g.v.a[0].op == ORef {
				ev.event("newbuf", "ReadFrom", fr, ins, nil, g.v.a[0], Slice(Opaque("filedata", fileOf(r)), Zero, n))
			}
		}
		return Tuple(n, err)
	}
	return nil
}

// ---------- files ----------

func fileOf(f *Term) *Term {
	if f.op == OIface && len(f.a) > 0 {
		if t, ok := f.x.(types.Type); ok && types.TypeString(t, nil) == "*os.File" {
			return f.a[0]
		}
	}
	return f
}

func (ev *Eval) osCall(fr *frame, ins ssa.CallInstruction, fn *ssa.Function, name string, args []*Term, key string) *Term {
	byteT := types.Typ[types.Uint8]
	switch name {
	case "os.Open", "os.Create", "os.OpenFile", "os.CreateTemp":
		fail, err := ev.failure(key)
		f := handle("file", append([]*Term{Str(key)}, ev.openTs()...)...)
		ev.ioEvent(name, fr, ins, fail, append([]*Term{f}, args...)...)
		return Tuple(Ite(fail, Nil, f), err)
	case "os.ReadFile", "io/ioutil.ReadFile":
		fail, err := ev.failure(key)
		h := handle("file", append([]*Term{Str(key)}, ev.openTs()...)...)
		ev.ioEvent(name, fr, ins, fail, append([]*Term{h}, args...)...)
		n := ev.freshNum("readlen", key, true, Zero, nil)
		f, ref, ts := ev.allocFam(key, "filedata", famElems, byteT)
		ev.resetFam(fr.st, f, ts, App(byteF, StrT("filedata", h), phIdx))
		ev.event("readall", name, fr, ins, nil, ref, h)
		return Tuple(Ite(fail, Slice(Nil, Zero, Zero), Slice(ref, Zero, n)), err)
	case "io.ReadAll", "io/ioutil.ReadAll":
		fail, err := ev.failure(key)
		h := fileOf(fr.facts().Simp(args[0]))
		ev.ioEvent(name, fr, ins, fail, h)
		n := ev.freshNum("readlen", key, true, Zero, nil)
		f, ref, ts := ev.allocFam(key, "filedata", famElems, byteT)
		ev.resetFam(fr.st, f, ts, App(byteF, StrT("filedata", h), phIdx))
		ev.event("readall", name, fr, ins, nil, ref, h)
		return Tuple(Ite(fail, Slice(Nil, Zero, Zero), Slice(ref, Zero, n)), err)
	case "os.WriteFile", "io/ioutil.WriteFile":
		fail, err := ev.failure(key)
		ev.ioEvent(name, fr, ins, fail, args...)
		return err
	case "os.Remove", "os.Rename", "os.Truncate":
		fail, err := ev.failure(key)
		ev.ioEvent(name, fr, ins, fail, args...)
		return err
	case "io.ReadFull", "io.ReadAtLeast":
		r := fileOf(fr.facts().Simp(args[0]))
		n := slen(args[1])
		b, ok := bufRef(r)
		var fail, err *Term
		if ok {
			fail, err = ev.readFailure(fr, key, n)
		} else {
			fail, err = ev.failure(key)
		}
		ev.ioEvent(name, fr, ins, fail, r)
		if ok {
			v := ev.readSlice(fr, args[1], byteT, key, n, fail)
			ev.event("read", "raw", fr, ins, types.NewSlice(byteT), v, b, fail, n)
			return Tuple(Ite(fail, Zero, n), err)
		}
		ev.fillSlice(fr, args[1], func(rel *Term) *Term { return App(byteF, StrT("filedata", r), rel) }, n, fail)
		ev.event("readfull", name, fr, ins, nil, sref(args[1]), r, n)
		return Tuple(Ite(fail, ev.freshNum("nread", key, true, Zero, nil), n), err)
	case "io.Copy":
		fail, err := ev.failure(key)
		if b, ok := bufRef(fr.facts().Simp(args[0])); ok {
			r := fr.facts().Simp(args[1])
			if _, ok := bufRef(r); ok {
				return nil
			}
			ev.ioEvent("ReadAll", fr, ins, fail, r)
			n := ev.freshNum("readlen", key, true, Zero, nil)
			for _, g := range cases(b) {
				if g.v.op == OPtr && g.v.a[0].op == ORef {
					ev.event("newbuf", "io.Copy", fr, ins, nil, g.v.a[0], Slice(Opaque("filedata", fileOf(r)), Zero, n))
				}
			}
			return Tuple(n, err)
		}
		ev.ioEvent(name, fr, ins, fail, args...)
		return Tuple(ev.freshNum("n", key, true, Zero, nil), err)
	case "io.WriteString":
		fail, err := ev.failure(key)
		w := fr.facts().Simp(args[0])
		if b, ok := bufRef(w); ok {
			ev.event("write", "raw", fr, ins, types.Typ[types.String], nil, b, args[1])
			return Tuple(strLen(args[1]), Nil)
		}
		ev.ioEvent(name, fr, ins, fail, args...)
		return Tuple(ev.freshNum("n", key, true, Zero, nil), err)
	case "os.Stat":
		fail, err := ev.failure(key)
		ev.ioEvent(name, fr, ins, fail, args...)
		return Tuple(Ite(fail, Nil, handle("fileinfo", args[0])), err)
	}
	if strings.HasPrefix(name, "*os.File.") {
		return ev.fileMethod(fr, ins, strings.TrimPrefix(name, "*os.File."), args, key)
	}
	return nil
}

func (ev *Eval) fileMethod(fr *frame, ins ssa.CallInstruction, name string, args []*Term, key string) *Term {
	f := fr.facts().Simp(args[0])
	byteT := types.Typ[types.Uint8]
	fail, err := ev.failure(key)
	switch name {
	case "Close", "Sync", "Truncate", "Chmod":
		ev.ioEvent("File."+name, fr, ins, fail, args...)
		return err
	case "Write", "WriteString":
		ev.ioEvent("File."+name, fr, ins, fail, args...)
		n := slen
		if name == "WriteString" {
			n = strLen
		}
		return Tuple(Ite(fail, ev.freshNum("n", key, true, Zero, nil), n(args[1])), err)
	case "Stat":
		ev.ioEvent("File.Stat", fr, ins, fail, args...)
		return Tuple(Ite(fail, Nil, handle("fileinfo", f)), err)
	case "Read":
		ev.ioEvent("File.Read", fr, ins, fail, args...)
		nf := sym("nread:"+key, true)
		bounds[nf.id] = bound{lo: func([]*Term) *Term { return Zero }, hi: firstArg}
		n := App(nf, append([]*Term{slen(args[1])}, ev.openTs()...)...)
		ev.readSlice(fr, args[1], byteT, key, n, fail)
		ev.event("fileread", "partial", fr, ins, nil, sref(args[1]), f)
		return Tuple(Ite(fail, Zero, n), err)
	case "Name":
		return StrT("filename", f)
	case "Seek":
		ev.ioEvent("File.Seek", fr, ins, fail, args...)
		return Tuple(ev.freshNum("n", key, true, Zero, nil), err)
	}
	return nil
}

// endianCall models the direct conversions of encoding/binary.
func (ev *Eval) endianCall(fr *frame, ins ssa.CallInstruction, name string, args []*Term, key string) *Term {
	order := "big"
	if strings.Contains(name, "littleEndian") {
		order = "little"
	}
	m := name[strings.LastIndex(name, ".")+1:]
	w := int64(0)
	switch {
	case strings.HasSuffix(m, "16"):
		w = 2
	case strings.HasSuffix(m, "32"):
		w = 4
	case strings.HasSuffix(m, "64"):
		w = 8
	}
	enc := sym(fmt.Sprintf("%sbyte%d", order, w), true)
	setLo(enc, Zero)
	setHi(enc, numInt(255))
	switch {
	case strings.HasPrefix(m, "PutUint"):
		s := args[1]
		ev.oblige("index", fr, ins, Le(numInt(w), slen(s)))
		v := args[2]
		ev.fillSlice(fr, s, func(rel *Term) *Term { return App(enc, v, rel) }, numInt(w), False)
		return Tuple()
	case strings.HasPrefix(m, "Uint"):
		s := args[1]
		ev.oblige("index", fr, ins, Le(numInt(w), slen(s)))
		var bs []*Term
		for k := int64(0); k < w; k++ {
			bs = append(bs, fr.facts().Simp(ev.loadElem(fr.st, sref(s), Add(soff(s), numInt(k)), types.Typ[types.Uint8])))
		}
		f := sym(fmt.Sprintf("%suint%d", order, w), true)
		setLo(f, Zero)
		return App(f, bs...)
	}
	return nil
}

func firstArg(a []*Term) *Term {
	if len(a) == 0 {
		return nil
	}
	return a[0]
}

func belowFirstArg(a []*Term) *Term {
	if len(a) == 0 {
		return nil
	}
	return Sub(a[0], One)
}

// operands are the values given to a formatting function, where they are known.
func (ev *Eval) operands(fr *frame, args []*Term) []*Term {
	var out []*Term
	if len(args) == 0 {
		return nil
	}
	f := fr.facts()
	v := f.Simp(args[len(args)-1])
	if v.op != OSlice || sref(v).op != ORef {
		return nil
	}
	n, ok := knownInt(f.Simp(slen(v)))
	off, ok2 := knownInt(f.Simp(v.a[1]))
	fam := sref(v).fam()
	if !ok || !ok2 || n > 8 || fam.kind != famElems {
		return nil
	}
	for i := int64(0); i < n; i++ {
		x := f.Simp(fr.st.at(fam, sref(v).a, numInt(off+i)))
		if x.op == OIface && x.a[0].op != OIte && (isNumTerm(x.a[0]) || isStrTerm(x.a[0])) {
			out = append(out, x.a[0])
		}
	}
	return out
}
