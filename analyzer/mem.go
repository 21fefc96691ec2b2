package main

// The memory domain: one family of storage per allocation site and calling
// context, with its content a term over placeholders for the allocation
// (loop) indices and the element index or map key.

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"

	"golang.org/x/tools/go/types/typeutil"
)

type famKind int

const (
	famCell famKind = iota
	famElems
	famMap
)

type Family struct {
	id    int
	name  string
	kind  famKind
	nal   int        // number of allocation indices
	elem  types.Type // type of a cell / an element / a map value
	key   types.Type // map key type
	param bool       // exists before the analysed entry point
	init  *Term      // initial content (nil: zero values)
	pos   string
	size  *Term // number of elements, when known (over placeholders)
}

var families []*Family

func newFamily(name string, kind famKind, nal int, elem types.Type) *Family {
	f := &Family{id: len(families), name: name, kind: kind, nal: nal, elem: elem}
	families = append(families, f)
	return f
}

func (f *Family) String() string { return f.name }

// placeholders
func ph(i int) *Term { return num(sym(fmt.Sprintf("@%d", i), true)) }

var phIdx = num(sym("@i", true))
var phKeyStr = StrT("@key", num(sym("@k", true)))
var phKeyNum = num(sym("@kn", true))

func (f *Family) keyPH() *Term {
	if f.key != nil {
		if b, ok := f.key.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return phKeyStr
		}
	}
	return phKeyNum
}

// phs lists the placeholders of a family's content.
func (f *Family) phs() []*Term {
	var r []*Term
	for i := 0; i < f.nal; i++ {
		r = append(r, ph(i))
	}
	switch f.kind {
	case famElems:
		r = append(r, phIdx)
	case famMap:
		r = append(r, f.keyPH())
	}
	return r
}

func (f *Family) zero() *Term {
	if f.init != nil {
		return f.init
	}
	if f.kind == famMap {
		return Tuple(False, zeroVal(f.elem), Zero)
	}
	return zeroVal(f.elem)
}

// leaf kinds of a flattened type
type leafKind int

const (
	lkNum leafKind = iota
	lkInt
	lkBool
	lkStr
	lkOpaque
)

var canonTypes typeutil.Map

func canonType(t types.Type) types.Type {
	if c := canonTypes.At(t); c != nil {
		return c.(types.Type)
	}
	canonTypes.Set(t, t)
	return t
}

func basicKind(t types.Type) (leafKind, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return lkBool, true
	case b.Info()&types.IsInteger != 0:
		return lkInt, true
	case b.Info()&types.IsFloat != 0:
		return lkNum, true
	case b.Info()&types.IsString != 0:
		return lkStr, true
	}
	return lkOpaque, true
}

// leavesOf flattens a type.
func leavesOf(t types.Type) []leafKind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		k, _ := basicKind(t)
		return []leafKind{k}
	case *types.Struct:
		var r []leafKind
		for i := 0; i < u.NumFields(); i++ {
			r = append(r, leavesOf(u.Field(i).Type())...)
		}
		return r
	case *types.Slice:
		return []leafKind{lkOpaque, lkInt, lkInt}
	case *types.Array:
		var r []leafKind
		if u.Len() > 64 {
			panic(undecided{"large array value"})
		}
		for i := int64(0); i < u.Len(); i++ {
			r = append(r, leavesOf(u.Elem())...)
		}
		return r
	case *types.Tuple:
		var r []leafKind
		for i := 0; i < u.Len(); i++ {
			r = append(r, leavesOf(u.At(i).Type())...)
		}
		return r
	}
	return []leafKind{lkOpaque}
}

func zeroVal(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch k, _ := basicKind(t); k {
		case lkBool:
			return False
		case lkStr:
			return Str("")
		case lkInt, lkNum:
			return Zero
		}
		return Nil
	case *types.Struct:
		var a []*Term
		for i := 0; i < u.NumFields(); i++ {
			a = append(a, zeroVal(u.Field(i).Type()))
		}
		return Tuple(a...)
	case *types.Slice:
		return Slice(Nil, Zero, Zero)
	case *types.Array:
		var a []*Term
		for i := int64(0); i < u.Len(); i++ {
			a = append(a, zeroVal(u.Elem()))
		}
		return Tuple(a...)
	}
	return Nil
}

// comps flattens a value of a type into its leaves.
func comps(t types.Type, v *Term) []*Term {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var r []*Term
		for i := 0; i < u.NumFields(); i++ {
			r = append(r, comps(u.Field(i).Type(), field(v, i))...)
		}
		return r
	case *types.Slice:
		return []*Term{sref(v), soff(v), slen(v)}
	case *types.Array:
		var r []*Term
		for i := int64(0); i < u.Len(); i++ {
			r = append(r, comps(u.Elem(), field(v, int(i)))...)
		}
		return r
	case *types.Tuple:
		var r []*Term
		for i := 0; i < u.Len(); i++ {
			r = append(r, comps(u.At(i).Type(), field(v, i))...)
		}
		return r
	}
	return []*Term{v}
}

// build assembles a value from its leaves.
func build(t types.Type, leaves []*Term) *Term {
	v, rest := buildRec(t, leaves)
	if len(rest) != 0 {
		panic("build: leaves left over")
	}
	return v
}

func buildRec(t types.Type, l []*Term) (*Term, []*Term) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var a []*Term
		for i := 0; i < u.NumFields(); i++ {
			var v *Term
			v, l = buildRec(u.Field(i).Type(), l)
			a = append(a, v)
		}
		return Tuple(a...), l
	case *types.Slice:
		return mkSlice(l[0], l[1], l[2]), l[3:]
	case *types.Array:
		var a []*Term
		for i := int64(0); i < u.Len(); i++ {
			var v *Term
			v, l = buildRec(u.Elem(), l)
			a = append(a, v)
		}
		return Tuple(a...), l
	case *types.Tuple:
		var a []*Term
		for i := 0; i < u.Len(); i++ {
			var v *Term
			v, l = buildRec(u.At(i).Type(), l)
			a = append(a, v)
		}
		return Tuple(a...), l
	}
	return l[0], l[1:]
}

func mkSlice(ref, off, n *Term) *Term {
	return lift([]*Term{ref}, func(x []*Term) *Term { return Slice(x[0], off, n) })
}

func field(v *Term, i int) *Term {
	return lift([]*Term{v}, func(x []*Term) *Term {
		switch x[0].op {
		case OTuple:
			if i >= len(x[0].a) {
				panic(undecided{"internal: field of a shorter tuple"})
			}
			return x[0].a[i]
		}
		if os.Getenv("NNSTACK") != "" {
			debug.PrintStack()
		}
		panic(undecided{"field of an opaque value " + x[0].String()})
	})
}

func slicePart(v *Term, k int) *Term {
	return lift([]*Term{v}, func(x []*Term) *Term {
		switch {
		case x[0].op == OSlice:
			return x[0].a[k]
		case x[0] == Nil && k > 0:
			return Zero
		case x[0] == Nil:
			return Nil
		}
		panic(undecided{"slice parts of an opaque value " + x[0].String()})
	})
}
func sref(v *Term) *Term { return slicePart(v, 0) }
func soff(v *Term) *Term { return slicePart(v, 1) }
func slen(v *Term) *Term { return slicePart(v, 2) }

// leafFn applies a function symbol giving a value of the leaf kind.
func leafFn(k leafKind, f *Term, args []*Term) *Term {
	switch k {
	case lkNum, lkInt:
		return App(f, args...)
	case lkBool:
		return BApp(f, args...)
	case lkStr:
		return StrT("f", append([]*Term{f}, args...)...)
	}
	return Opaque("f", append([]*Term{f}, args...)...)
}

// havocVal is an unknown value of a type that depends on the arguments.
func havocVal(t types.Type, name string, args ...*Term) *Term {
	var ls []*Term
	for i, k := range leavesOf(t) {
		f := sym(fmt.Sprintf("%s.%d", name, i), k == lkInt)
		ls = append(ls, leafFn(k, f, args))
	}
	return build(t, ls)
}

// ---------- state ----------

type State struct {
	mem  map[*Family]*Term
	over map[interface{}]*Term // values that left loops
}

func newState() *State { return &State{mem: map[*Family]*Term{}} }

func (s *State) clone() *State {
	n := &State{mem: make(map[*Family]*Term, len(s.mem))}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	if len(s.over) > 0 {
		n.over = make(map[interface{}]*Term, len(s.over))
		for k, v := range s.over {
			n.over[k] = v
		}
	}
	return n
}

func (s *State) content(f *Family) *Term {
	if c, ok := s.mem[f]; ok {
		return c
	}
	return f.zero()
}

// at is the content of a family at allocation indices and an element index/key.
func (s *State) at(f *Family, al []*Term, idx *Term) *Term {
	c := s.content(f)
	sub := newSub()
	for i := range al {
		sub.set(ph(i), al[i])
	}
	if idx != nil {
		if f.kind == famMap {
			sub.set(f.keyPH(), idx)
		} else {
			sub.set(phIdx, idx)
		}
	}
	return sub.Do(c)
}

func Ref(f *Family, al ...*Term) *Term {
	return lift(al, func(x []*Term) *Term { return mk(Term{op: ORef, x: f, a: x}) })
}

func (t *Term) fam() *Family { return t.x.(*Family) }

func Ptr(path []int, ref *Term, idx ...*Term) *Term {
	a := append([]*Term{ref}, idx...)
	return lift(a, func(x []*Term) *Term {
		if x[0] == Nil {
			return Nil
		}
		return mk(Term{op: OPtr, ints: path, a: x})
	})
}

type guarded struct {
	c *Term
	v *Term
}

// cases lists the leaves of a diagram with their conditions.
func cases(t *Term) []guarded {
	var out []guarded
	m := map[int]*Term{}
	var order []*Term
	var rec func(t, c *Term)
	rec = func(t, c *Term) {
		if c == False {
			return
		}
		if t.op == OIte {
			rec(t.a[1], And(c, boolOf(t.a[0])))
			rec(t.a[2], And(c, Not(boolOf(t.a[0]))))
			return
		}
		if o, ok := m[t.id]; ok {
			m[t.id] = Or(o, c)
		} else {
			m[t.id] = c
			order = append(order, t)
		}
	}
	rec(t, True)
	for _, o := range order {
		out = append(out, guarded{m[o.id], o})
	}
	return out
}

func updatePath(old *Term, path []int, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	return lift([]*Term{old}, func(x []*Term) *Term {
		if x[0].op != OTuple {
			panic(undecided{"write to a field of an opaque value"})
		}
		a := append([]*Term(nil), x[0].a...)
		a[path[0]] = updatePath(a[path[0]], path[1:], v)
		return Tuple(a...)
	})
}

func projPath(v *Term, path []int) *Term {
	for _, i := range path {
		v = field(v, i)
	}
	return v
}

// hit is the condition that the placeholders denote the given location.
func hit(f *Family, al []*Term, idx *Term) *Term {
	c := True
	for i := range al {
		c = And(c, EqN(ph(i), al[i]))
	}
	if idx != nil {
		if f.kind == famMap {
			c = And(c, EqV(f.keyPH(), idx))
		} else {
			c = And(c, EqN(phIdx, idx))
		}
	}
	return c
}

func sortedFams(m map[*Family]*Term) []*Family {
	var r []*Family
	for f := range m {
		r = append(r, f)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}
