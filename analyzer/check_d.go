package main

// D01-D08: layer and model data. The bytes a function writes are a tree of items
// and loops (stream.go); decoding is analysed on exactly these bytes.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("D07", "closed form of what every object reports of itself; decoding analysed on data with an arbitrary type code, case by case", 40, checkD07)
	register("D02", "what encoding a finalised model writes, lined up with what decoding reads; closed form of the decoded model on these bytes compared field by field, layer by layer and optimizer by optimizer", 60, checkD02)
	register("D03", "decoding of arbitrary bytes with every read failing or coming short, one site at a time: all operations are safe and every allocation is covered by the bytes left", 60, checkD03)
	register("D05", "order and conditions of the file operations of a save: nothing is opened or truncated unless the encoding succeeded, success only after a complete write and close", 4, checkD05)
	register("D06", "every fallible operation failing, one site at a time: an error is returned and no later step happens; provenance of the bytes decoded from a file", 30, checkD06)
	register("D04", "dependence of every written value, size, repetition and condition: only on the model and loop counters, never on map order, time, random draws or other state", 10, checkD04)
	register("D08", "what encoding writes, as a tree of fields and loops, compared with the published layout: order, size, byte order and value of every field", 5, checkD08)
	register("D01", "what encoding writes, as a tree of fields and loops, lined up with what decoding reads; closed form of the decoded layer on these bytes compared field by field and cell by cell", 20, checkD01)
}

// maxSize is the largest size the format can hold.
var maxSize = numRat(new(big.Rat).SetInt64(1<<31 - 1))

func storableSizes() {
	setHi(inSym, maxSize)
	setHi(outSym, maxSize)
}

var layerCodes = map[string]int64{"HiddenLayer": 0, "LinearLayer": 1, "SigmoidLayer": 2, "LeakyLayer": 3, "SoftmaxLayer": 4, "DropoutLayer": 5}

// newBuffer is an in-memory buffer handed to the functions under analysis.
func (c *Check) newBuffer(b *Builder) *Term {
	t := types.NewPointer(c.w.prog.ImportedPackage("bytes").Type("Buffer").Type())
	return b.val(t, "buf", nil)
}

// encodeLayer runs the encoder on saved layer data.
func (c *Check) encodeLayer(m *model, data *Term, st *State) (*Run, *Term) {
	fam := newFamily("data", famCell, 0, c.w.pkg.Type("SavedLayerData").Type())
	fam.param = true
	st = st.clone()
	st.mem[fam] = data
	buf := c.newBuffer(m.b)
	r := c.run("SavedLayerData.SerializeLayer", runOpts{b: m.b, args: []*Term{Ptr(nil, Ref(fam)), buf}, st: st, key: "save", faults: newFaults(nil, false)})
	return r, buf
}

// decodeLayer lines up the decoder with the bytes written and runs it on them.
func (c *Check) decodeLayer(rule string, m *model, ws []*snode, buf *Term, st *State, f *Facts) *Run {
	opts := runOpts{b: m.b, args: []*Term{buf}, st: st, key: "load", faults: newFaults(nil, false), facts: func(*Run) []*Term { return allConds(f) }}
	r0 := c.run("LoadLayer", opts)
	mt := c.match(rule+".stream", c.where(r0.fn), ws, c.stream(r0, "read", buf), r0, r0.f, nil)
	if !mt.ok {
		return nil
	}
	c.instances = append(c.instances, rule+".fields @ "+c.where(r0.fn)+" "+itoa(mt.n)+" items lined up")
	opts.sigma = mt.sigma
	return c.run("LoadLayer", opts)
}

func checkD01(c *Check) {
	storableSizes()
	for _, lk := range layerKinds() {
		lk := lk
		c.scoped(lk.name, func() {
			m := c.newModelWorld()
			K := num(sym("?k", true))
			layer := m.iface(lk.name, Ptr(nil, Ref(m.fams[lk.name], K)))
			r1 := c.run("NewSavedLayerData", runOpts{b: m.b, args: []*Term{layer}, key: "data"})
			r1.mustReturn("D01", r1.f)
			r1.noPanic("D01", nil)
			r2, buf := c.encodeLayer(m, r1.ret(0), r1.st)
			r2.mustReturn("D01", r2.f)
			r2.noPanic("D01", nil)
			r2.accepted("D01", r2.f, "layers with parameters of their sizes")
			ws := c.stream(r2, "write", buf)
			r := c.decodeLayer("D01", m, ws, buf, r2.st, r2.f.With(r2.noErr()))
			if r == nil {
				return
			}
			r.mustReturn("D01", r.f)
			r.noPanic("D01", nil)
			r.accepted("D01", r.f, "the bytes written")
			c.sameLayer("D01", r, m, lk.name, r.f, r.ret(0), K, r1.st)
		})
	}
}

// sameLayer: a decoded layer is like layer K of the model.
func (c *Check) sameLayer(rule string, r *Run, m *model, kind string, f *Facts, v, K *Term, st0 *State) {
	v = f.Simp(v)
	where := c.where(r.fn) + " " + kind
	if !c.expect(rule+".type", where, v.op == OIface && isPtrTo(v.x, c.w, kind), "the layer decoded is %v", v) {
		return
	}
	p := v.a[0]
	if !c.expect(rule+".own", where, p.op == OPtr && len(p.ints) == 0 && p.a[0].op == ORef && !p.a[0].fam().param, "the layer decoded is not a new object: %v", p) {
		return
	}
	self := Ptr(nil, Ref(m.fams[kind], K))
	for _, n := range []string{"InputSize", "OutputSize", "Slope", "Dropout"} {
		if !hasField(structOf(c.w, kind), n) {
			continue
		}
		got, want := f.Simp(objField(c.w, kind, n, r.st, p)), f.Simp(objField(c.w, kind, n, st0, self))
		c.expect(rule+".settings", where+" "+n, EqualF(f, got, want), "is %v, was %v", got, want)
	}
	for _, n := range []string{"Weights", "Biases"} {
		got := f.Simp(objFieldPtr(c.w, kind, n, r.st, p))
		want := f.Simp(objFieldPtr(c.w, kind, n, st0, self))
		if !c.expect(rule+".parameters", where+" "+n, got.op == OPtr && got.a[0].op == ORef && !got.a[0].fam().param, "the parameters decoded are %v", got) {
			continue
		}
		gm, wm := f.Simp(deref(r.st, got)), f.Simp(deref(st0, want))
		gr, gc, _ := matParts(c.w, gm)
		wr, wc, _ := matParts(c.w, wm)
		if !c.expect(rule+".parameters", where+" "+n+" shape", EqualF(f, gr, wr) && EqualF(f, gc, wc), "has shape %v x %v, was %v x %v", gr, gc, wr, wc) {
			continue
		}
		r.wellFormed(rule, f, gm, kind+" "+n, true)
		i, j := num(sym("?i", true)), num(sym("?j", true))
		g := f.With(Le(Zero, i), Lt(i, wr), Le(Zero, j), Lt(j, wc))
		a, b := cellAt(c.w, r.st, g, gm, i, j), cellAt(c.w, st0, g, wm, i, j)
		c.expect(rule+".parameters", where+" "+n+" cells", EqualF(g, a, b), "cell (i,j) is %v, was %v", a, b)
	}
	wp, bp := f.Simp(objFieldPtr(c.w, kind, "Weights", r.st, p)), f.Simp(objFieldPtr(c.w, kind, "Biases", r.st, p))
	wm, bm := f.Simp(deref(r.st, wp)), f.Simp(deref(r.st, bp))
	i, j := num(sym("?i", true)), num(sym("?j", true))
	wr, _, _ := matParts(c.w, wm)
	br, _, _ := matParts(c.w, bm)
	g := f.With(Le(Zero, i), Lt(i, wr), Le(Zero, j), Lt(j, br))
	x, y := sref(rowAt(c.w, r.st, g, wm, i)), sref(rowAt(c.w, r.st, g, bm, j))
	c.expect(rule+".separate", where, wp != bp && g.Proves(Not(boolOf(EqV(x, y)))), "weights and biases share their storage")
}

func hasField(s *types.Struct, n string) bool {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == n {
			return true
		}
	}
	return false
}

var lossCodes = map[string]string{"MeanSquaredLoss": "MeanSquaredLossType", "MeanAbsoluteLoss": "MeanAbsoluteLossType", "CrossEntropyLoss": "CrossEntropyLossType", "BinaryCrossEntropyLoss": "BinaryCrossEntropyLossType"}
var optCodes = map[string]string{"SGDOptimizer": "SGDOptimizerType", "AdamOptimizer": "AdamOptimizerType"}

func optNames() []string { return []string{"SGDOptimizer", "AdamOptimizer"} }

func (m *model) known(r *Run, v *Term, key string) *Term {
	e := r.f.Simp(v)
	if e.op != ORef {
		return Tuple(False, Zero)
	}
	return r.f.Simp(r.st.at(e.fam(), e.a, Str(key)))
}

// thinCallee is the function an exported function passes its arguments on to.
func thinCallee(fn *ssa.Function) *ssa.Function {
	if len(fn.Blocks) != 1 {
		return nil
	}
	var call *ssa.Call
	for _, ins := range fn.Blocks[0].Instrs {
		switch x := ins.(type) {
		case *ssa.Call:
			if call != nil {
				return nil
			}
			call = x
		case *ssa.Return, *ssa.Extract, *ssa.DebugRef:
		default:
			return nil
		}
	}
	if call == nil || call.Call.IsInvoke() || len(call.Call.Args) != len(fn.Params) {
		return nil
	}
	for i, a := range call.Call.Args {
		if a != ssa.Value(fn.Params[i]) {
			return nil
		}
	}
	return call.Call.StaticCallee()
}

// isFn tells whether fn is the named function or does its work.
func (c *Check) isFn(fn *ssa.Function, name string) bool {
	a := c.anchor(name)
	for i := 0; a != nil && i < 3; i++ {
		if a == fn {
			return true
		}
		a = thinCallee(a)
	}
	return false
}

// dataHook replaces the encoding and decoding of the layers of a model, which
// D01 decides, by single items.
func (m *model) dataHook(ev *Eval, fr *frame, ins ssa.CallInstruction, fn *ssa.Function, name string, args []*Term) (*Term, bool) {
	if fn == nil || len(args) == 0 {
		return nil, false
	}
	switch {
	case len(args) == 2 && m.c.isFn(fn, "SavedLayerData.SerializeLayer"):
		p := fr.facts().Simp(args[0])
		v := ev.load(fr, p, m.c.w.pkg.Type("SavedLayerData").Type(), "")
		ev.event("write", "layer", fr, ins, nil, nil, fr.facts().Simp(args[1]), v)
		return m.outcome(ev, fr, ins, "SerializeLayer", args[1]), true
	case len(args) == 1 && m.c.isFn(fn, "LoadLayer"):
		id := fr.ctx + "/" + ev.w.instrID(ins)
		k := App(sym("layerread:"+id, true), ev.openTs()...)
		v := m.loadedAt(ev.known(k))
		fail := m.outcome(ev, fr, ins, "LoadLayer", args[0])
		ev.event("read", "layer", fr, ins, nil, k, fr.facts().Simp(args[0]), Not(IsNil(fail)))
		return Tuple(Ite(IsNil(fail), v, Nil), fail), true
	case len(args) == 2 && m.files && m.c.isFn(fn, "SavedModelData.Serialize"):
		fail := m.outcome(ev, fr, ins, "Serialize", args[1])
		ev.event("encode", "", fr, ins, nil, Not(IsNil(fail)), fr.facts().Simp(args[1]))
		return fail, true
	case len(args) == 1 && m.files && m.c.isFn(fn, "LoadModel"):
		fail := m.outcome(ev, fr, ins, "LoadModel", args[0])
		ev.event("decode", "", fr, ins, nil, Not(IsNil(fail)), fr.facts().Simp(args[0]))
		t := m.c.w.pkg.Type("Model").Type()
		id := fr.ctx + "/" + ev.w.instrID(ins)
		return Tuple(Ite(IsNil(fail), havocVal(t, "model:"+id, ev.openTs()...), zeroVal(t)), fail), true
	}
	return nil, false
}

// outcome is the error of a step that may fail.
func (m *model) outcome(ev *Eval, fr *frame, ins ssa.CallInstruction, name string, buf *Term) *Term {
	key := name + ":" + fr.ctx + "/" + ev.w.instrID(ins)
	fail, err := ev.failure(key)
	ev.ioEvent(name, fr, ins, fail, fr.facts().Simp(buf))
	return err
}

// loadedAt is a layer decoded from the data of layer k.
func (m *model) loadedAt(k *Term) *Term {
	if m.loaded == nil {
		m.loaded = map[string]*Family{}
		x := ph(0)
		for _, lk := range layerKinds() {
			p := "loaded." + lk.name
			m.b.over[p+".InputSize"] = App(inSym, x)
			m.b.over[p+".OutputSize"] = App(outSym, x)
			t := m.c.w.pkg.Type(lk.name).Type()
			f := m.b.paramFam(p, famCell, 1, t)
			f.init = m.b.val(t, p, []*Term{x})
			m.loaded[lk.name] = f
		}
	}
	var vs []*Term
	for _, lk := range layerKinds() {
		vs = append(vs, m.iface(lk.name, Ptr(nil, Ref(m.loaded[lk.name], k))))
	}
	return chain(kindOf(k), vs)
}

func checkD07(c *Check) {
	storableSizes()
	// what the objects report
	for _, lk := range layerKinds() {
		lk := lk
		c.scoped(lk.name, func() {
			m := c.newModelWorld()
			K := num(sym("?k", true))
			p := Ptr(nil, Ref(m.fams[lk.name], K))
			r := c.run("NewSavedLayerData", runOpts{b: m.b, args: []*Term{m.iface(lk.name, p)}, key: "data"})
			r.mustReturn("D07", r.f)
			r.noPanic("D07", nil)
			v := r.f.Simp(r.ret(0))
			s := structOf(c.w, "SavedLayerData")
			want := map[string]*Term{"Type": numInt(layerCodes[lk.name]), "Inputs": App(inSym, K), "Outputs": App(outSym, K)}
			for _, n := range []string{"Slope", "Dropout"} {
				if hasField(structOf(c.w, lk.name), n) {
					want[n] = objField(c.w, lk.name, n, r.st0, p)
				}
			}
			for i := 0; i < s.NumFields(); i++ {
				n := s.Field(i).Name()
				if w := want[n]; w != nil {
					got := r.f.Simp(field(v, i))
					c.expect("D07.reports", c.where(r.fn)+" "+lk.name+" "+n, EqualF(r.f, got, w), "is %v, should be %v", got, w)
				}
			}
		})
	}
	for _, l := range lossNames() {
		l := l
		c.scoped(l, func() {
			m := c.newModelWorld()
			r := c.run(l+".getValues", runOpts{b: m.b})
			r.mustReturn("D07", r.f)
			r.noPanic("D07", nil)
			for k, w := range map[string]*Term{"type": c.w.constant(lossCodes[l]), "size": objField(c.w, l, "Size", r.st0, r.args[0])} {
				got := m.known(r, r.ret(0), k)
				c.expect("D07.reports", c.where(r.fn)+" "+k, field(got, 0) == True && EqualF(r.f, field(got, 1), w), "is %v, should be %v", got, w)
			}
		})
	}
	for _, o := range optNames() {
		o := o
		c.scoped(o, func() {
			m := c.newModelWorld()
			r := c.run(o+".getValues", runOpts{b: m.b})
			r.mustReturn("D07", r.f)
			r.noPanic("D07", nil)
			want := map[string]*Term{"type": c.w.constant(optCodes[o])}
			for n, k := range valueKeys {
				if hasField(structOf(c.w, o), n) {
					want[k] = objField(c.w, o, n, r.st0, r.args[0])
				}
			}
			for k, w := range want {
				got := m.known(r, r.ret(0), k)
				c.expect("D07.reports", c.where(r.fn)+" "+k, field(got, 0) == True && EqualF(r.f, field(got, 1), w), "is %v, should be %v", got, w)
			}
		})
	}
	// the codes are distinct
	for _, names := range []map[string]string{lossCodes, optCodes} {
		seen := map[*Term]string{}
		for n, k := range names {
			v := c.w.constant(k)
			c.expect("D07.distinct", k, seen[v] == "", "has the same code as that of %s", seen[v])
			seen[v] = n
		}
	}
	c.scoped("layer codes", func() { c.layerCodesDecode() })
	c.scoped("loss and optimizer codes", func() { c.modelCodesDecode() })
}

// layerData is data of a layer of any type and size.
func (m *model) layerData() *Term {
	I, O := num(inSym), num(outSym)
	m.b.over["data.Inputs"], m.b.over["data.Outputs"] = I, O
	m.b.over["data.Weights.Rows"], m.b.over["data.Weights.Cols"] = I, O
	m.b.over["data.Biases.Rows"], m.b.over["data.Biases.Cols"] = One, O
	return m.b.val(m.c.w.pkg.Type("SavedLayerData").Type(), "data", nil)
}

// layerCodesDecode: data with any type code.
func (c *Check) layerCodesDecode() {
	m := c.newModelWorld()
	data := m.layerData()
	code := structField(c.w, "SavedLayerData", data, "Type")
	r2, buf := c.encodeLayer(m, data, newState())
	r2.mustReturn("D07", r2.f)
	r2.noPanic("D07", nil)
	f := r2.f.With(r2.noErr())
	r := c.decodeLayer("D07", m, c.stream(r2, "write", buf), buf, r2.st, f)
	if r == nil {
		return
	}
	r.mustReturn("D07", r.f)
	r.noPanic("D07", nil)
	other := r.f
	for _, lk := range layerKinds() {
		k := numInt(layerCodes[lk.name])
		g := r.f.With(EqN(code, k))
		other = other.With(Not(EqN(code, k)))
		r.accepted("D07", g, "the code of "+lk.name)
		v := g.Simp(r.ret(0))
		c.expect("D07.decodes", c.where(r.fn)+" "+lk.name, v.op == OIface && isPtrTo(v.x, c.w, lk.name), "code %v becomes %v", k, v)
	}
	r.refused("D07", other, "the type code is unknown")
}

// loadOf lines up LoadModel with the data written and runs it on them.
func (c *Check) loadOf(rule string, m *model, ws []*snode, buf *Term, st *State, f *Facts, layer func(mt *matcher, w, r *snode, val *Term, f *Facts)) *Run {
	opts := runOpts{b: m.b, args: []*Term{buf}, st: st, key: "load", faults: newFaults(nil, false), hook: m.dataHook, facts: func(*Run) []*Term { return allConds(f) }}
	r0 := c.run("LoadModel", opts)
	var mt *matcher
	mt = c.match(rule+".stream", c.where(r0.fn), ws, c.stream(r0, "read", buf), r0, r0.f, layer)
	if !mt.ok {
		return nil
	}
	c.instances = append(c.instances, rule+".fields @ "+c.where(r0.fn)+" "+itoa(mt.n)+" items lined up")
	opts.sigma = mt.sigma
	return c.run("LoadModel", opts)
}

// encodeModel runs the encoder on saved model data.
func (c *Check) encodeModel(m *model, data *Term, st *State, f *Facts) (*Run, *Term) {
	fam := newFamily("modeldata", famCell, 0, c.w.pkg.Type("SavedModelData").Type())
	fam.param = true
	st = st.clone()
	st.mem[fam] = data
	buf := c.newBuffer(m.b)
	r := c.run("SavedModelData.Serialize", runOpts{b: m.b, args: []*Term{Ptr(nil, Ref(fam)), buf}, st: st, key: "save", faults: newFaults(nil, false), hook: m.dataHook, facts: func(*Run) []*Term { return allConds(f) }})
	return r, buf
}

// modelCodesDecode: data of a model with one layer and any type codes.
func (c *Check) modelCodesDecode() {
	m := c.newModelWorld()
	O := App(outSym, Zero)
	m.b.over["data.Version"] = Str(c.w.text("VERSION"))
	m.b.over["data.ModelSize"] = One
	m.b.over["len(data.Layers)"] = One
	m.b.over["data.InputSize"], m.b.over["data.OutputSize"] = App(inSym, Zero), O
	m.b.over["data.OptimizerValues"] = Nil
	data := m.b.val(c.w.pkg.Type("SavedModelData").Type(), "data", nil)
	get := func(n string) *Term { return structField(c.w, "SavedModelData", data, n) }
	at := get("AccuracyType")
	known := False
	for _, t := range []string{"RegressionAccuracyType", "CategoricalAccuracyType", "BinaryCategoricalAccuracyType"} {
		known = Or(known, EqN(at, c.w.constant(t)))
	}
	f := (&Facts{}).With(known, Le(Zero, get("AccuracyPercision"))).With(c.accuracyBounds(at)...)
	r2, buf := c.encodeModel(m, data, newState(), f)
	r2.mustReturn("D07", r2.f)
	r2.noPanic("D07", nil)
	r2.accepted("D07", r2.f, "data of one layer")
	r := c.loadOf("D07", m, c.stream(r2, "write", buf), buf, r2.st, r2.f, func(mt *matcher, w, r *snode, val *Term, f *Facts) { mt.assign(r, Zero) })
	if r == nil {
		return
	}
	r.mustReturn("D07", r.f)
	r.noPanic("D07", nil)
	v := r.ret(0)
	mf := func(g *Facts, n string) *Term { return g.Simp(structField(c.w, "Model", g.Simp(v), n)) }
	lc, oc := get("LossType"), get("OptimizerType")
	okLoss, okOpt := False, False
	for _, l := range lossNames() {
		okLoss = Or(okLoss, EqN(lc, c.w.constant(lossCodes[l])))
	}
	for _, o := range optNames() {
		okOpt = Or(okOpt, EqN(oc, c.w.constant(optCodes[o])))
	}
	where := c.where(r.fn)
	r.accepted("D07", r.f.With(okLoss, okOpt), "known codes")
	for _, l := range lossNames() {
		g := r.f.With(okOpt, EqN(lc, c.w.constant(lossCodes[l])))
		x := mf(g, "Loss")
		if !c.expect("D07.decodes", where+" "+l, x.op == OIface && isPtrTo(x.x, c.w, l), "code %v becomes %v", c.w.constant(lossCodes[l]), x) {
			continue
		}
		sz := g.Simp(objField(c.w, l, "Size", r.st, x.a[0]))
		c.expect("D07.decodes", where+" "+l+" size", EqualF(g, sz, O), "the loss has size %v", sz)
	}
	for _, o := range optNames() {
		g := r.f.With(okLoss, EqN(oc, c.w.constant(optCodes[o])))
		os := mf(g, "Optimizers")
		c.expect("D07.decodes", where+" "+o+" count", EqualF(g, slen(os), One), "there are %v optimizers", slen(os))
		x := r.elemAt(os, Zero, g, c.w.pkg.Type("Optimizer").Type())
		c.expect("D07.decodes", where+" "+o, x.op == OIface && isPtrTo(x.x, c.w, o), "code %v becomes %v", c.w.constant(optCodes[o]), x)
	}
	r.refused("D07", r.f.With(okOpt, Not(okLoss)), "the loss code is unknown")
	r.refused("D07", r.f.With(okLoss, Not(okOpt)), "the optimizer code is unknown")
}

// structField is a named field of a struct value.
func structField(w *World, typ string, v *Term, name string) *Term {
	s := structOf(w, typ)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return field(v, i)
		}
	}
	panic(undecided{typ + " has no field " + name + " any more"})
}

// text is the value of a named text of the package.
func (w *World) text(name string) string {
	k, ok := w.pkg.Members[name].(*ssa.NamedConst)
	if !ok || k.Value.Value.Kind() != constant.String {
		panic(undecided{"the constant " + name + " does not exist any more"})
	}
	return constant.StringVal(k.Value.Value)
}

func num8(v *Term) *snode {
	return &snode{what: "num", size: One, typ: types.Typ[types.Int8], val: Wrap(-8, v)}
}
func num32(v *Term) *snode {
	return &snode{what: "num", size: numInt(4), order: "little", typ: types.Typ[types.Int32], val: Wrap(-32, v)}
}
func num64(v *Term) *snode {
	return &snode{what: "num", size: numInt(8), order: "little", typ: types.Typ[types.Float64], val: v}
}
func fixedText(s string) []*snode { return constBytes(s, func(n *snode) *snode { return n }) }

// eachOf is the repeated part of a layout.
func eachOf(n *Term, body func(t *Term) []*snode) *snode {
	t := num(fresh("spec", true))
	return &snode{t: t, hi: n, early: False, body: body(t)}
}

func checkD08(c *Check) {
	storableSizes()
	c.scoped("layer layout", func() {
		m := c.newModelWorld()
		data := m.layerData()
		st := newState()
		r, buf := c.encodeLayer(m, data, st)
		r.mustReturn("D08", r.f)
		r.noPanic("D08", nil)
		r.accepted("D08", r.f, "data of matching sizes")
		get := func(n string) *Term { return structField(c.w, "SavedLayerData", data, n) }
		W, B := get("Weights"), get("Biases")
		matrix := func(M *Term) *snode {
			R, C, _ := matParts(c.w, M)
			return eachOf(R, func(i *Term) []*snode {
				return []*snode{eachOf(C, func(j *Term) []*snode {
					f := r.f.With(Le(Zero, i), Lt(i, R), Le(Zero, j), Lt(j, C))
					return []*snode{num64(cellAt(c.w, r.st0, f, M, i, j))}
				})}
			})
		}
		spec := append(fixedText("LA"), num8(get("Type")), num32(get("Inputs")), num32(get("Outputs")), num64(get("Slope")), num64(get("Dropout")), matrix(W), matrix(B))
		mt := c.conforms("D08.layer", c.where(r.fn), spec, c.stream(r, "write", buf), r, r.f.With(r.noErr()), nil)
		c.instances = append(c.instances, "D08.fields @ "+c.where(r.fn)+" "+itoa(mt.n)+" items")
	})
	c.scoped("model layout", func() {
		m := c.newModelWorld()
		v := c.w.text("VERSION")
		c.expect("D08.version", "VERSION", len(v) == 5, "the version %q does not have 5 bytes", v)
		L := sym("L", true)
		setLo(L, Zero)
		m.b.over["data.Version"] = Str(v)
		m.b.over["data.ModelSize"], m.b.over["len(data.Layers)"] = num(L), num(L)
		data := m.b.val(c.w.pkg.Type("SavedModelData").Type(), "data", nil)
		get := func(n string) *Term { return structField(c.w, "SavedModelData", data, n) }
		r, buf := c.encodeModel(m, data, newState(), nil)
		r.mustReturn("D08", r.f)
		r.noPanic("D08", nil)
		vals := get("OptimizerValues")
		count := field(r.st0.at(vals.fam(), vals.a, Str("")), 2)
		values := eachOf(count, func(t *Term) []*snode { return []*snode{num8(Zero)} })
		values.each = func(m *matcher, w *snode, f *Facts) { c.hyperparameters(m, w, f, vals, count, r.st0) }
		layers := eachOf(num(L), func(t *Term) []*snode { return []*snode{{what: "layer", val: t, size: One}} })
		spec := append(fixedText("NNML"), fixedText(v)...)
		spec = append(spec, num8(num(L)), num32(get("InputSize")), num32(get("OutputSize")), num8(get("LossType")), num8(get("AccuracyType")), num64(get("AccuracyPercision")), num8(get("OptimizerType")), num8(count), values, layers)
		ls := get("Layers")
		mt := c.conforms("D08.model", c.where(r.fn), spec, c.stream(r, "write", buf), r, r.f.With(r.noErr()), func(m *matcher, w, r2 *snode, val *Term, f *Facts) {
			want := f.Simp(r.st0.at(sref(ls).fam(), sref(ls).a, val))
			if got := f.Simp(r2.val); got != want && !sameTuple(f, got, want) {
				m.fail(r2, false, "the layer written is not the next one")
			}
		})
		c.instances = append(c.instances, "D08.fields @ "+c.where(r.fn)+" "+itoa(mt.n)+" items")
	})
}

// hyperparameters: length, name and value of every entry of a map.
func (c *Check) hyperparameters(m *matcher, w *snode, f *Facts, vals, count *Term, st *State) {
	var it []*snode
	for _, b := range w.body {
		switch x := executed(b, m.sigma, f); {
		case b.loop() || x == 0:
			m.fail(b, true, "it is not shown that this is always written")
			return
		case x == 1:
			it = append(it, b)
		}
	}
	if len(it) != 3 {
		m.fail(w, false, "an entry has "+itoa(len(it))+" parts instead of length, name and value")
		return
	}
	n, k, v := it[0], it[1], it[2]
	key := f.Simp(k.val)
	entry := key.op == OStrT && (key.name == "mapkey" || key.name == "sortedkey") && key.a[0] == vals
	if !entry || k.what != "str" || (!EqualF(f, key.a[1], w.t) && !EqualF(f, key.a[1], Sub(Sub(count, One), w.t))) {
		m.fail(k, false, "the names written are not those of the hyperparameters, each once: "+key.String())
		return
	}
	if n.what != "num" || n.size != One || !EqualF(f, n.val, Wrap(-8, strLen(key))) && !EqualF(f, n.val, strLen(key)) {
		m.fail(n, false, "the length of the name is written as "+n.val.String())
	}
	e := st.at(vals.fam(), vals.a, key)
	has := boolOf(field(e, 0))
	if v.what != "num" || v.order != "little" || !isFloat(v.typ) || v.size != numInt(8) || !EqualF(f.With(has), f.With(has).Simp(v.val), f.Simp(field(e, 1))) {
		m.fail(v, false, "the value of the hyperparameter is written as "+v.val.String())
	}
	m.n += 3
}

// finalised is a model of L chained layers that has been finalised.
func (c *Check) finalised(rule string, opt string, empty bool) (*model, *Run) {
	storableSizes()
	m := c.model(false, 1)
	in, out := App(inSym, Zero), App(outSym, Sub(m.L, One))
	if empty {
		m.L = Zero
		in, out = Zero, Zero
		m.b.over["a0.ModelSize"], m.b.over["len(a0.Layers)"] = Zero, Zero
	}
	m.b.over["a0.InputSize"], m.b.over["a0.OutputSize"] = in, out
	f := m.self.a[0].fam()
	f.init = m.b.val(c.w.pkg.Type("Model").Type(), "a0", nil)
	var vs []*Term
	for _, l := range lossNames() {
		m.b.over["loss."+l+".Size"] = out
		lf := m.b.paramFam("loss."+l, famCell, 0, c.w.pkg.Type(l).Type())
		lf.init = m.b.val(c.w.pkg.Type(l).Type(), "loss."+l, nil)
		vs = append(vs, m.iface(l, Ptr(nil, Ref(lf))))
	}
	of := m.b.paramFam("given", famCell, 0, c.w.pkg.Type(opt).Type())
	of.init = m.b.val(c.w.pkg.Type(opt).Type(), "given", nil)
	m.opt[opt] = of
	v := fresh("v", true)
	chained := Not(Exists(num(v), Sub(m.L, One), Not(EqN(App(outSym, num(v)), App(inSym, Add(num(v), One))))))
	r := c.run("Model.Finalize", runOpts{b: m.b, args: []*Term{m.self, chain(num(lossKind), vs), m.iface(opt, Ptr(nil, Ref(of)))}, key: "finalize", facts: func(r *Run) []*Term {
		known := False
		for _, t := range []string{"RegressionAccuracyType", "CategoricalAccuracyType", "BinaryCategoricalAccuracyType"} {
			known = Or(known, EqN(r.args[3], c.w.constant(t)))
		}
		return append(c.accuracyBounds(r.args[3]), chained, Le(Zero, r.args[4]), known)
	}})
	r.accepted(rule, r.f, "valid settings")
	return m, r
}

func checkD02(c *Check) {
	for _, o := range optNames() {
		for _, empty := range []bool{false, true} {
			o, empty := o, empty
			what := o
			if empty {
				what += ", no layers"
			}
			c.scoped(what, func() { c.modelSurvives(o, empty) })
		}
	}
}

func (c *Check) modelSurvives(opt string, empty bool) {
	m, r1 := c.finalised("D02", opt, empty)
	mv := r1.f.Simp(r1.st.content(m.self.a[0].fam()))
	r2 := c.run("NewSavedModelData", runOpts{b: m.b, args: []*Term{mv}, st: r1.st, key: "data", facts: func(*Run) []*Term { return allConds(r1.f) }})
	r2.mustReturn("D02", r2.f)
	r2.noPanic("D02", nil)
	r3, buf := c.encodeModel(m, r2.ret(0), r2.st, r2.f)
	r3.mustReturn("D02", r3.f)
	r3.noPanic("D02", nil)
	f := r3.f.With(r3.noErr())
	if !c.expect("D02.encodes", c.where(r3.fn), !f.With(EqN(m.L, One)).Refuted() || empty && !f.Refuted(), "every model is refused") {
		return
	}
	// the data of one layer
	K := num(sym("?k", true))
	rl := c.run("NewSavedLayerData", runOpts{b: m.b, args: []*Term{m.layerAt(K)}, st: r1.st, key: "layerdata", facts: func(*Run) []*Term { return allConds(r1.f) }})
	one := rl.f.Simp(rl.ret(0))
	r := c.loadOf("D02", m, c.stream(r3, "write", buf), buf, r3.st, f, func(mt *matcher, w, r *snode, val *Term, g *Facts) {
		val = g.Simp(val)
		in := g.Simp(structField(c.w, "SavedLayerData", val, "Inputs"))
		at := in.asAtomSafe()
		if at == nil || at.op != OApp || at.a[0] != inSym {
			mt.fail(w, true, "the layer written has the input size "+in.String())
			return
		}
		k := at.a[1]
		if want := g.Simp(Subst1(one, varAtom(K), k)); val != want && !sameTuple(g, val, want) {
			mt.fail(w, false, "what is written is not the data of a layer of the model")
			return
		}
		mt.assign(r, k)
	})
	if r == nil {
		return
	}
	r.mustReturn("D02", r.f)
	r.noPanic("D02", nil)
	r.accepted("D02", r.f, "the bytes written")
	c.sameModel("D02", r, m, opt, r.f.With(r.noErr()), mv, r1.st)
}

// sameModel: a decoded model is like the model written.
func (c *Check) sameModel(rule string, r *Run, m *model, opt string, f *Facts, want *Term, st0 *State) {
	got := f.Simp(r.ret(0))
	where := c.where(r.fn)
	s := structOf(c.w, "Model")
	for i := 0; i < s.NumFields(); i++ {
		n := s.Field(i).Name()
		x, y := f.Simp(field(got, i)), f.Simp(field(want, i))
		switch n {
		case "ModelSize", "InputSize", "OutputSize", "LossType", "AccuracyType", "AccuracyPercision", "OptimizerType":
			c.expect(rule+".fields", where+" "+n, EqualF(f, x, y), "is %v, was %v", x, y)
		case "OptimizerValues":
			if !c.expect(rule+".hyperparameters", where, x.op == ORef && y.op == ORef, "the values are %v, were %v", x, y) {
				continue
			}
			st := structOf(c.w, opt)
			for j := 0; j < st.NumFields(); j++ {
				key, ok := valueKeys[st.Field(j).Name()]
				if !ok {
					continue
				}
				a, b := f.Simp(r.st.at(x.fam(), x.a, Str(key))), f.Simp(st0.at(y.fam(), y.a, Str(key)))
				c.expect(rule+".hyperparameters", where+" "+key, f.Proves(boolOf(field(a, 0))) && EqualF(f, field(a, 1), field(b, 1)), "is %v, was %v", a, b)
			}
		case "Loss":
			for k, l := range lossNames() {
				g := f.With(EqN(num(lossKind), numInt(int64(k))))
				v := g.Simp(x)
				if !c.expect(rule+".loss", where+" "+l, v.op == OIface && isPtrTo(v.x, c.w, l), "the loss is %v", v) {
					continue
				}
				sz := g.Simp(objField(c.w, l, "Size", r.st, v.a[0]))
				c.expect(rule+".loss", where+" "+l+" size", EqualF(g, sz, structField(c.w, "Model", want, "OutputSize")), "the loss has size %v", sz)
			}
		case "Layers":
			if !c.expect(rule+".layers", where+" count", EqualF(f, slen(x), m.L), "there are %v layers, there were %v", slen(x), m.L) || m.L == Zero {
				continue
			}
			K := num(sym("?k", true))
			g := f.With(Le(Zero, K), Lt(K, m.L))
			v := r.elemAt(x, K, g, c.w.pkg.Type("Layer").Type())
			w := g.Simp(m.loadedAt(K))
			c.expect(rule+".layers", where+" order and contents", v == w || EqualF(g, v, w), "layer k is %v", v)
		case "Optimizers":
			if !c.expect(rule+".optimizers", where+" count", EqualF(f, slen(x), m.L), "there are %v optimizers for %v layers", slen(x), m.L) || m.L == Zero {
				continue
			}
			c.freshOptimizers(rule, r, m, opt, f, x)
		}
	}
	for _, n := range sortedFamNames(m.loaded) {
		fam := m.loaded[n]
		c.expect(rule+".layers", where+" "+n, r.st.content(fam) == fam.init, "a decoded layer is changed afterwards")
	}
}

func sortedFamNames(m map[string]*Family) []string {
	var out []string
	for _, lk := range layerKinds() {
		if m[lk.name] != nil {
			out = append(out, lk.name)
		}
	}
	return out
}

// freshOptimizers: every layer has a new optimizer with the hyperparameters given and no history.
func (c *Check) freshOptimizers(rule string, r *Run, m *model, opt string, f *Facts, os *Term) {
	where := c.where(r.fn)
	K := num(sym("?k", true))
	g := f.With(Le(Zero, K), Lt(K, m.L))
	v := r.elemAt(os, K, g, c.w.pkg.Type("Optimizer").Type())
	if !c.expect(rule+".optimizers", where, v.op == OIface && isPtrTo(v.x, c.w, opt), "layer k gets the optimizer %v", v) {
		return
	}
	obj := g.Simp(deref(r.st, v.a[0]))
	s := structOf(c.w, opt)
	for i := 0; i < s.NumFields(); i++ {
		n := s.Field(i).Name()
		x := g.Simp(field(obj, i))
		switch {
		case valueKeys[n] != "":
			want := field(m.opt[opt].init, i)
			c.expect(rule+".optimizers", where+" "+n, EqualF(g, x, want), "is %v, was %v", x, want)
		case isNamed(s.Field(i).Type(), c.w.pkg.Pkg, "Matrix"):
			R, _, _ := matParts(c.w, x)
			c.expect(rule+".history", where+" "+n, R == Zero, "a decoded optimizer already has a history")
		case isInteger(s.Field(i).Type()) && !isBoolType(s.Field(i).Type()):
			c.expect(rule+".history", where+" "+n, x == Zero, "a decoded optimizer already has a history: %v", x)
		}
	}
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

// eachTerm visits a term and everything it is made of.
func eachTerm(t *Term, seen map[*Term]bool, visit func(*Term)) {
	if t == nil || seen[t] {
		return
	}
	seen[t] = true
	visit(t)
	for _, a := range t.a {
		eachTerm(a, seen, visit)
	}
	for _, m := range t.p {
		for _, x := range m.f {
			eachTerm(x.t, seen, visit)
		}
	}
}

// deterministic: what is written depends on nothing but the model.
func (c *Check) deterministic(r *Run, buf *Term, inputs []*Term, b *Builder) {
	allowed := map[*Term]bool{byteF: true, float64Bits: true, strLenF: true}
	pure := map[string]bool{"float32": true, "strless": true, "lgamma": true, "float64frombits": true, "NaN": true, "maplen": true, "posinf": true, "neginf": true}
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if t.op == OSym {
			allowed[t] = true
		}
	}
	for _, t := range inputs {
		eachTerm(t, seen, add)
	}
	for _, f := range b.fams {
		eachTerm(f.init, seen, add)
	}
	bad := func(t *Term, own map[*Term]bool) string {
		why := ""
		eachTerm(t, map[*Term]bool{}, func(x *Term) {
			switch {
			case why != "":
			case x.op == OSym && (pure[x.name] || strings.HasPrefix(x.name, "math.")):
			case x.op == OSym && !allowed[x] && !own[x] && !strings.HasPrefix(x.name, "bigbyte") && !strings.HasPrefix(x.name, "littlebyte"):
				why = x.name
			case x.op == OStrT && (x.name == "sprintf" || x.name == "mapkey" || x.name == "raw" || x.name == "errtext"):
				why = x.name
			case x.op == OOpaque && (x.name == "mapkey" || x.name == "bufbytes"):
				why = x.name
			}
		})
		return why
	}
	where := c.where(r.fn)
	check := func(e *Event, what string, own map[*Term]bool, t *Term) {
		if t == nil {
			return
		}
		why := bad(t, own)
		at := where
		if e != nil {
			at = c.where(e.fn) + " at " + r.ev.pos(e.instr)
		}
		c.expect("D04.depends", at+" "+what, why == "", "depends on %s: %v", why, t)
	}
	check(nil, "outcome", nil, r.noErr())
	n := 0
	var walk func(ns []*snode, own map[*Term]bool)
	walk = func(ns []*snode, own map[*Term]bool) {
		for _, x := range ns {
			if x.loop() {
				o := map[*Term]bool{varAtom(x.t): true}
				for k := range own {
					o[k] = true
				}
				check(x.e, "repetition", own, x.hi)
				check(x.e, "end of the repetition", o, x.early)
				walk(x.body, o)
				continue
			}
			n++
			for _, v := range x.vars {
				own[varAtom(v)] = true
			}
			check(x.e, "value", own, x.val)
			check(x.e, "size", own, x.size)
			for _, t := range conds(x, newSub()) {
				check(x.e, "condition", own, t)
			}
		}
	}
	walk(c.stream(r, "write", buf), map[*Term]bool{num(sym("layersize", true)).asAtomSafe(): true})
	c.expect("D04.items", where, n > 0, "nothing is written")
}

func checkD04(c *Check) {
	storableSizes()
	for _, lk := range layerKinds() {
		lk := lk
		c.scoped(lk.name, func() {
			m := c.newModelWorld()
			layer := m.iface(lk.name, Ptr(nil, Ref(m.fams[lk.name], num(sym("?k", true)))))
			r1 := c.run("NewSavedLayerData", runOpts{b: m.b, args: []*Term{layer}, key: "data"})
			r, buf := c.encodeLayer(m, r1.ret(0), r1.st)
			c.deterministic(r, buf, []*Term{layer}, m.b)
		})
	}
	c.scoped("model", func() {
		m := c.model(true, 0)
		mv := m.self.a[0].fam().init
		r1 := c.run("NewSavedModelData", runOpts{b: m.b, args: []*Term{mv}, key: "data"})
		r1.noPanic("D04", nil)
		r, buf := c.encodeModel(m, r1.ret(0), r1.st, nil)
		c.deterministic(r, buf, []*Term{mv}, m.b)
	})
}

// failing runs a function once for every site, with only that site failing.
func (c *Check) failing(name string, opts runOpts, short bool, each func(r *Run, site *faultSite)) {
	opts.faults = newFaults(nil, false)
	r0 := c.run(name, opts)
	done := map[string]bool{}
	var sites []*faultSite
	sites = append(sites, r0.ev.faults.sites...)
	for i := 0; i < len(sites); i++ {
		s := sites[i]
		if done[s.key] {
			continue
		}
		done[s.key] = true
		for _, sh := range []bool{false, true} {
			if sh && (!short || !s.short) {
				continue
			}
			opts.faults = newFaults(s, sh)
			t0 := time.Now()
			r := c.run(name, opts)
			t1 := time.Now()
			each(r, s)
			if os.Getenv("NNTIME") != "" {
				fmt.Fprintf(os.Stderr, "%s site %s short=%v run %.1f each %.1f\n", name, s.key, sh, t1.Sub(t0).Seconds(), time.Since(t1).Seconds())
			}
			sites = append(sites, r.ev.faults.sites...)
		}
	}
}

// failed are the steps that fail in a run, with what is known when they do.
func (r *Run) failed() (es []*Event, fs []*Facts) {
	p := r.ev.faults
	for _, cl := range r.calls(func(e *Event) bool { return e.kind == "io" || e.kind == "read" }) {
		c := faultOf(cl.e, p.short)
		if c == nil || c == False {
			continue
		}
		s := newSub()
		for i, v := range cl.vars {
			if i < len(p.at) {
				s.set(v, p.at[i])
			}
		}
		f := r.f
		for _, x := range cl.exec {
			f = f.With(s.Do(x))
		}
		es = append(es, cl.e)
		fs = append(fs, f.With(s.Do(c)))
	}
	return es, fs
}

// faultOf is the condition under which a step fails.
func faultOf(e *Event, short bool) *Term {
	switch {
	case !short && e.kind == "io":
		return e.res
	case short && e.kind == "read" && len(e.args) > 3:
		return e.args[3]
	}
	return nil
}

// noLater: nothing more is read or written after a step failed.
func (r *Run) noLater(rule string, e *Event, f *Facts) {
	p := r.ev.faults
	where := r.c.where(e.fn) + " at " + r.ev.pos(e.instr)
	for _, cl := range r.calls(func(x *Event) bool { return x.kind == "io" && !strings.Contains(x.name, "Close") }) {
		x := cl.e
		n := 0
		for n < len(x.loops) && n < len(e.loops) && x.loops[n].t == e.loops[n].t {
			n++
		}
		cl = cl.renamed()
		bad := false
		h := r.witnessed(f, cl.exec).With(cl.exec...)
		for d := 0; d <= n; d++ {
			g := h
			for i := 0; i < d && i < len(p.at); i++ {
				g = g.With(EqN(cl.vars[i], p.at[i]))
			}
			if d < n {
				if d >= len(p.at) {
					continue
				}
				g = g.With(Lt(p.at[d], cl.vars[d]))
			} else if x.seq <= e.seq {
				continue
			}
			if !g.Contradictory() && !g.Refuted() {
				bad = true
			}
		}
		r.c.expect(rule, where+" then "+r.ev.pos(x.instr), !bad, "%s may still happen after %s failed", x.name, e.name)
	}
}

// decoders are the functions that decode bytes, over layers that are decoded
// independently.
func (c *Check) decoders(do func(name string, m *model, opts runOpts)) {
	for _, n := range []string{"LoadLayer", "LoadModel"} {
		n := n
		c.scoped(n, func() {
			m := c.newModelWorld()
			opts := runOpts{b: m.b, args: []*Term{c.newBuffer(m.b)}, key: "load"}
			if n == "LoadModel" {
				opts.hook = m.dataHook
			}
			do(n, m, opts)
		})
	}
}

func checkD03(c *Check) {
	c.decoders(func(name string, m *model, opts runOpts) {
		opts.faults = newFaults(nil, false)
		r := c.run(name, opts)
		r.mustReturn("D03", r.f)
		r.noPanic("D03", nil)
		c.allocations(r, opts.args[0])
		if name == "LoadLayer" {
			c.decodedLayers(r)
		}
		c.failing(name, opts, true, func(r *Run, s *faultSite) {
			r.mustReturn("D03", r.f)
			r.noPanic("D03", nil)
			es, fs := r.failed()
			for i, e := range es {
				if !r.ev.faults.short {
					r.noLater("D03.stops", e, fs[i])
				}
			}
		})
	})
}

// decodedLayers: a layer that is returned is well formed.
func (c *Check) decodedLayers(r *Run) {
	f := r.f.With(r.noErr())
	where := c.where(r.fn)
	seen := map[string]bool{}
	for _, g := range cases(f.Simp(r.ret(0))) {
		h := f.With(g.c)
		if h.Contradictory() || h.Refuted() {
			continue
		}
		for _, lk := range layerKinds() {
			if g.v.op != OIface || !isPtrTo(g.v.x, c.w, lk.name) {
				continue
			}
			seen[lk.name] = true
			h := h.stripped()
			p := g.v.a[0]
			l := feasible(h, deref(r.st, p))
			get := func(n string) *Term { return feasible(h, deref(r.st, feasible(h, structField(c.w, lk.name, l, n)))) }
			I, O, W, B := get("InputSize"), get("OutputSize"), get("Weights"), get("Biases")
			wr, wc, _ := matParts(c.w, W)
			br, bc, _ := matParts(c.w, B)
			c.expect("D03.sizes", where+" "+lk.name, EqualF(h, wr, I) && EqualF(h, wc, O) && EqualF(h, br, One) && EqualF(h, bc, O) && h.Proves(Le(One, I)) && h.Proves(Le(One, O)), "is accepted with weights of %v x %v and biases of %v x %v for sizes %v and %v", wr, wc, br, bc, I, O)
			r.wellFormed("D03", h, W, lk.name+" weights", true)
			r.wellFormed("D03", h, B, lk.name+" biases", true)
		}
		if g.v == Nil {
			c.expect("D03.sizes", where, false, "no layer is returned although there is no error")
		}
	}
	for _, lk := range layerKinds() {
		c.expect("D03.kinds", where+" "+lk.name, seen[lk.name], "never returned")
	}
}

// feasible leaves out the cases of a value that cannot occur.
func feasible(f *Facts, v *Term) *Term {
	var out *Term
	for _, g := range cases(f.Simp(v)) {
		if f.Proves(Not(g.c)) {
			continue
		}
		if out == nil {
			out = g.v
		} else {
			out = Ite(g.c, g.v, out)
		}
	}
	if out == nil {
		return v
	}
	return out
}

// outer is the condition of an event without its loops.
func outer(e *Event) *Facts {
	f := &Facts{}
	for _, x := range allConds(e.facts) {
		ok := true
		for _, l := range e.loops {
			if x.hasVar(varAtom(l.t)) {
				ok = false
			}
		}
		if ok {
			f = f.With(x)
		}
	}
	return f
}

// allocations: the numbers allocated are no more than the bytes left can hold.
func (c *Check) allocations(r *Run, buf *Term) {
	evs := r.ev.events
	n := 0
	for _, e := range evs {
		if e.kind != "make" || e.typ == nil {
			continue
		}
		if _, isSl := e.typ.Underlying().(*types.Slice); isSl {
			continue // rows, of which there is at least one number each
		}
		size, fixed := fixedSize(e.typ)
		if !fixed {
			continue
		}
		f := outer(e)
		total := Mul(numInt(size), e.args[0])
		for i := len(e.loops) - 1; i >= 0; i-- {
			v := num(fresh("z", true))
			total = SumR(v, Zero, e.loops[i].hi, Subst1(total, varAtom(e.loops[i].t), v))
		}
		n++
		where := c.where(e.fn) + " at " + r.ev.pos(e.instr)
		if r.f.With(allConds(e.facts)...).Proves(Le(Mul(numInt(size), e.args[0]), numInt(4096))) {
			c.instances = append(c.instances, "D03.allocation @ "+where)
			continue
		}
		ok := false
		for _, l := range evs {
			if l.kind != "buflen" || len(l.loops) > 0 || l.seq > e.seq || l.args[0] != buf {
				continue
			}
			var between []*Event
			for _, x := range evs {
				if x.kind == "read" && x.seq > l.seq && x.seq < e.seq && x.args[0] == buf && !(len(x.loops) > 0 && len(e.loops) > 0 && x.loops[0].t == e.loops[0].t) {
					between = append(between, x)
				}
			}
			used := sizeOf(c.streamOf(r, between, 0), newSub())
			if f.Proves(Le(Add(total, used), l.res)) {
				ok = true
			}
		}
		c.expect("D03.allocation", where, ok, "allocates %v bytes for numbers although it is not shown that as many are left", total)
	}
	c.rules["D03.allocation"] += n
}

func checkD06(c *Check) {
	c.decoders(func(name string, m *model, opts runOpts) {
		c.failing(name, opts, true, func(r *Run, s *faultSite) {
			es, fs := r.failed()
			for i, e := range es {
				what := e.name + " fails"
				if r.ev.faults.short {
					what = "fewer bytes are left than " + e.name + " reads"
				}
				r.refusedAt("D06", fs[i], e, what)
			}
		})
	})
	c.scoped("inconsistent data", func() { c.inconsistent() })
	c.scoped("SavedModelData.Serialize", func() {
		m := c.newModelWorld()
		L := sym("L", true)
		setLo(L, Zero)
		m.b.over["data.ModelSize"], m.b.over["len(data.Layers)"] = num(L), num(L)
		data := m.b.val(c.w.pkg.Type("SavedModelData").Type(), "data", nil)
		fam := newFamily("modeldata", famCell, 0, c.w.pkg.Type("SavedModelData").Type())
		fam.param = true
		st := newState()
		st.mem[fam] = data
		opts := runOpts{b: m.b, args: []*Term{Ptr(nil, Ref(fam)), c.newBuffer(m.b)}, st: st, key: "save", hook: m.dataHook}
		n := 0
		c.failing("SavedModelData.Serialize", opts, false, func(r *Run, s *faultSite) {
			es, fs := r.failed()
			for i, e := range es {
				n++
				r.refusedAt("D06", fs[i], e, e.name+" fails")
			}
		})
		c.expect("D06.layers", "SavedModelData.Serialize", n > 0, "no layer is encoded")
	})
	c.scoped("layers of the wrong size", func() {
		m := c.newModelWorld()
		for _, k := range []string{"Inputs", "Outputs", "Weights.Rows", "Weights.Cols", "Biases.Rows", "Biases.Cols"} {
			s := sym("data."+k, true)
			setLo(s, One)
			m.b.over["data."+k] = num(s)
		}
		data := m.b.val(c.w.pkg.Type("SavedLayerData").Type(), "data", nil)
		r, _ := c.encodeLayer(m, data, newState())
		r.mustReturn("D06", r.f)
		get := func(k string) *Term { return m.b.over["data."+k] }
		r.noPanic("D06", nil)
		bad := Or(Or(Not(EqN(get("Inputs"), get("Weights.Rows"))), Not(EqN(get("Outputs"), get("Weights.Cols")))), Or(Not(EqN(get("Biases.Rows"), One)), Not(EqN(get("Outputs"), get("Biases.Cols")))))
		r.refused("D06", r.f.With(bad), "the parameters do not have the sizes of the layer")
	})
	for _, n := range []string{"SaveFile", "LoadFile", "InitLogger"} {
		n := n
		c.scoped(n, func() {
			m, r := c.fileRun(n)
			_ = m
			r.mustReturn("D06", r.f)
			r.noPanic("D06", nil)
			k := 0
			for _, e := range r.ev.events {
				if e.kind != "io" || e.res == False {
					continue
				}
				if n == "LoadFile" && strings.HasSuffix(e.name, "Close") {
					continue // nothing can be lost by closing a file that was read
				}
				k++
				r.refusedAt("D06", r.f.With(append(conds(&snode{e: e}, newSub()), e.res)...), e, e.name+" fails")
			}
			c.expect("D06.steps", c.where(r.fn), k > 0, "no fallible step was found")
			if n == "LoadFile" {
				c.wholeFile(r)
			}
		})
	}
}

func (r *Run) refusedAt(rule string, f *Facts, e *Event, what string) {
	f = r.witnessed(f, []*Term{r.noErr()})
	ok := f.Proves(Not(r.noErr())) || f.Contradictory() || f.Refuted()
	r.c.expect(rule+".reported", r.c.where(e.fn)+" at "+r.ev.pos(e.instr)+" from "+r.c.where(r.fn), ok, "no error is returned although %s", what)
}

// witnessed adds what the failing iteration, or what is given, is an example of
// among the conditions that something exists.
func (r *Run) witnessed(f *Facts, cs []*Term, ws ...*Term) *Facts {
	if r.ev.faults != nil {
		ws = append(ws, r.ev.faults.at...)
	}
	for _, a := range existsAtoms(cs) {
		for _, w := range ws {
			v, body := openBody(a, a.a[1])
			if f.Proves(And(Le(Zero, w), Lt(w, a.a[0]), Subst1(body, v, w))) {
				f = f.With(boolOf(a))
				break
			}
		}
	}
	return f
}

// fileRun analyses a function that uses files, with any step failing.
func (c *Check) fileRun(name string) (*model, *Run) {
	m := c.model(true, 0)
	m.files = true
	var args []*Term
	if name == "SaveFile" {
		args = []*Term{m.self}
	}
	return m, c.run(name, runOpts{b: m.b, args: args, hook: m.dataHook, key: "file"})
}

// inconsistent: data of a model that cannot be finalised.
func (c *Check) inconsistent() {
	m := c.newModelWorld()
	L := sym("L", true)
	setLo(L, Zero)
	setHi(L, maxSize)
	storableSizes()
	m.b.over["data.Version"] = Str(c.w.text("VERSION"))
	m.b.over["data.ModelSize"], m.b.over["len(data.Layers)"] = num(L), num(L)
	m.b.over["data.OptimizerValues"] = Nil
	for _, k := range []string{"InputSize", "OutputSize"} {
		s := sym("data."+k, true)
		setLo(s, Zero)
		setHi(s, maxSize)
		m.b.over["data."+k] = num(s)
	}
	data := m.b.val(c.w.pkg.Type("SavedModelData").Type(), "data", nil)
	get := func(n string) *Term { return structField(c.w, "SavedModelData", data, n) }
	r2, buf := c.encodeModel(m, data, newState(), nil)
	f := r2.f.With(r2.noErr())
	r := c.loadOf("D06", m, c.stream(r2, "write", buf), buf, r2.st, f, func(mt *matcher, w, r *snode, val *Term, f *Facts) { mt.assign(r, r.e.loops[0].t) })
	if r == nil {
		return
	}
	at := get("AccuracyType")
	known := False
	for _, t := range []string{"RegressionAccuracyType", "CategoricalAccuracyType", "BinaryCategoricalAccuracyType"} {
		known = Or(known, EqN(at, c.w.constant(t)))
	}
	w := sym("w", true)
	setLo(w, Zero)
	broken := r.f.With(Le(Add(num(w), numInt(2)), num(L)), Not(EqN(App(outSym, num(w)), App(inSym, Add(num(w), One)))))
	r.refused("D06", r.f.With(Not(known)), "the accuracy type is unknown")
	r.refused("D06", r.f.With(Lt(get("AccuracyPercision"), Zero)), "the accuracy precision is negative")
	r.refused("D06", r.f.With(Le(One, num(L)), Not(EqN(get("OutputSize"), App(outSym, Sub(num(L), One))))), "the output size is not that of the last layer")
	r.refused("D06", r.witnessed(broken, []*Term{r.noErr()}, num(w), Add(num(w), One)), "the layers do not fit together")
}

// wholeFile: what is decoded is all of the file.
func (c *Check) wholeFile(r *Run) {
	where := c.where(r.fn)
	n := 0
	for _, d := range r.ev.events {
		if d.kind != "decode" {
			continue
		}
		n++
		b := d.args[0]
		var src []*Event
		for _, e := range r.ev.events {
			if e.kind == "newbuf" && b.op == OPtr && e.res == b.a[0] && e.seq < d.seq {
				src = append(src, e)
			}
		}
		if !c.expect("D06.contents", where, len(src) == 1, "the origin of the data decoded is not known") {
			continue
		}
		data := src[0].facts.Simp(src[0].args[0])
		file, why := c.fileData(r, src[0], data)
		if !c.expect("D06.contents", where, why == "", "what is decoded is not all of the file: %s", why) {
			continue
		}
		named := false
		for _, e := range r.ev.events {
			if e.kind == "io" && strings.Contains(e.name, "Open") || strings.Contains(e.name, "ReadFile") {
				named = named || len(e.args) > 1 && e.args[0] == file && e.args[1] == r.args[0]
			}
		}
		c.expect("D06.named", where, named, "the file that is read is not the one named")
	}
	c.expect("D06.decodes", where, n > 0, "nothing is decoded")
}

// fileData tells of which file a slice holds all the data.
func (c *Check) fileData(r *Run, at *Event, data *Term) (*Term, string) {
	ref := sref(data)
	if ref.op == OOpaque && ref.name == "filedata" {
		return ref.a[0], ""
	}
	if ref.op != ORef || soff(data) != Zero {
		return nil, "it is taken from " + data.String()
	}
	i := num(sym("?i", true))
	x := at.facts.With(Le(Zero, i), Lt(i, slen(data))).Simp(r.ev.loadElem(at.st, ref, i, types.Typ[types.Uint8])).asAtomSafe()
	if x == nil || x.op != OApp || x.a[0] != byteF || x.a[2] != i || x.a[1].op != OStrT || x.a[1].name != "filedata" {
		return nil, "its bytes are not those of the file"
	}
	h := x.a[1].a[0]
	for _, e := range r.ev.events {
		switch {
		case e.kind == "readall" && e.res == ref:
			return h, ""
		case e.kind == "readfull" && e.res == ref:
			n := e.args[1].asAtomSafe()
			if n != nil && n.op == OApp && n.a[0] == fileSizeF && n.a[1] == handle("fileinfo", h) && e.args[1] == slen(data) {
				return h, ""
			}
		}
	}
	return nil, "its length is " + slen(data).String()
}

func checkD05(c *Check) {
	c.scoped("SaveFile", func() {
		m, r := c.fileRun("SaveFile")
		_ = m
		r.mustReturn("D05", r.f)
		r.noPanic("D05", nil)
		where := c.where(r.fn)
		var enc *Event
		for _, e := range r.ev.events {
			if e.kind == "encode" {
				if enc != nil {
					c.report("undecided", where, "the model is encoded several times", true)
				}
				enc = e
			}
		}
		if !c.expect("D05.encodes", where, enc != nil && len(enc.loops) == 0, "the model is not encoded") {
			return
		}
		encoded := append(conds(&snode{e: enc}, newSub()), Not(enc.res))
		good := r.f.With(r.noErr())
		c.expect("D05.encodes", where+" success", good.Proves(And(encoded...)), "success is reported without encoding the model")
		name := r.args[1]
		var file, temp, tempName *Term
		done := map[string]bool{}
		step := func(e *Event, what string) {
			all := And(append(conds(&snode{e: e}, newSub()), Not(e.res))...)
			if good.Proves(all) {
				done[what] = true
			}
		}
		for _, e := range r.ev.events {
			if e.kind != "io" {
				continue
			}
			at := c.where(e.fn) + " at " + r.ev.pos(e.instr)
			short := e.name[strings.LastIndex(e.name, "/")+1:]
			switch short {
			case "os.Create", "os.OpenFile", "os.WriteFile", "os.Truncate", "ioutil.WriteFile", "os.Remove", "os.Rename":
				f := r.f.With(conds(&snode{e: e}, newSub())...)
				c.expect("D05.order", at, e.seq > enc.seq && f.Entails(And(encoded...)), "%s may happen although the model is not encoded completely", e.name)
			}
			data := func(v *Term) bool { return r.isEncoding(e.facts.Simp(v), enc) }
			arg := func(i int) *Term { return e.facts.Simp(e.args[i]) }
			isFile := func(v *Term) bool { return same(fileOf(e.facts.Simp(v)), file, temp) }
			opened := func() {
				switch {
				case arg(1) == name:
					file = fileOf(e.args[0])
					step(e, "open")
				case short != "os.CreateTemp":
					temp, tempName = fileOf(e.args[0]), arg(1)
				default:
					temp, tempName = fileOf(e.args[0]), StrT("filename", e.args[0])
				}
			}
			written := func(to, what *Term) {
				if !isFile(to) {
					return
				}
				if c.expect("D05.contents", at, data(what), "something else than the encoded model is written to the file") {
					step(e, "write")
				}
			}
			switch short {
			case "os.Create", "os.CreateTemp":
				opened()
			case "os.OpenFile":
				flags, ok := arg(2).constInt()
				c.expect("D05.truncates", at, ok && flags&3 != 0 && flags&0x40 != 0 && flags&0x200 != 0 && flags&0x400 == 0, "the file is opened with the flags %v", arg(2))
				opened()
			case "os.WriteFile", "ioutil.WriteFile":
				if c.expect("D05.contents", at, data(e.args[1]), "something else than the encoded model is written to the file") {
					step(e, "write")
					step(e, "close")
					if arg(0) == name {
						step(e, "open")
					} else {
						tempName = arg(0)
					}
				}
			case "File.Write", "WriteTo":
				written(e.args[0], e.args[1])
			case "io.Copy":
				if b, ok := bufRef(arg(1)); ok {
					written(e.args[0], Slice(Opaque("bufbytes", b), Zero, App(bufLenF, b)))
				} else {
					c.expect("D05.contents", at, !isFile(e.args[0]), "something else than the encoded model is written to the file")
				}
			case "File.WriteString", "io.WriteString":
				b := arg(1)
				if b.op == OStrT && b.name == "bufstring" {
					b = Slice(Opaque("bufbytes", b.a[0]), Zero, App(bufLenF, b.a[0]))
				}
				written(e.args[0], b)
			case "File.Truncate", "File.Seek":
				c.expect("D05.contents", at, !isFile(e.args[0]), "the file is changed after it was written")
			case "File.Close":
				if isFile(e.args[0]) && done["write"] {
					step(e, "close")
				}
			case "os.Rename":
				if tempName != nil && arg(0) == tempName && arg(1) == name && done["write"] && done["close"] {
					step(e, "open")
				} else {
					c.expect("D05.order", at, false, "a file is renamed before it is complete")
				}
			}
		}
		for _, s := range []string{"open", "write", "close"} {
			c.expect("D05.complete", where+" "+s, done[s], "success may be reported although the %s of the whole file did not succeed", s)
		}
	})
}

// isEncoding tells whether a slice holds all that the encoding wrote and nothing else.
func (r *Run) isEncoding(v *Term, enc *Event) bool {
	if v.op != OSlice {
		return false
	}
	ref := sref(v)
	if ref.op != OOpaque || ref.name != "bufbytes" || ref.a[0] != enc.args[0] || soff(v) != Zero {
		return false
	}
	if len(ref.a) > 1 && slen(v) != ref.a[1] || len(ref.a) == 1 && slen(v) != App(bufLenF, ref.a[0]) {
		return false
	}
	for _, x := range r.ev.events {
		switch {
		case x.kind == "buflen" && x.res == slen(v):
			if x.seq < enc.seq {
				return false // taken before encoding
			}
		case (x.kind == "write" || x.kind == "read") && len(x.args) > 0 && x.args[0] == enc.args[0]:
			return false // something else is in the file
		}
	}
	return true
}

func same(v *Term, xs ...*Term) bool {
	for _, x := range xs {
		if x != nil && v == x {
			return true
		}
	}
	return false
}

func sortedTerms(m map[*Term]bool) []*Term {
	var out []*Term
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// existsAtoms are the conditions of a condition that something exists.
func existsAtoms(cs []*Term) []*Term {
	atoms, seen := map[*Term]bool{}, map[*Term]bool{}
	var rec func(c *Term)
	rec = func(c *Term) {
		if seen[c] || c.op != OIte {
			return
		}
		seen[c] = true
		if c.a[0].op == OExists {
			atoms[c.a[0]] = true
		}
		rec(c.a[1])
		rec(c.a[2])
	}
	for _, c := range cs {
		rec(c)
	}
	return sortedTerms(atoms)
}
