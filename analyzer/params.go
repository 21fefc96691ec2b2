package main

// Symbolic entry states: unknown values of the analysed types, with the
// representation invariant of matrices (property M05).

import (
	"fmt"
	"go/types"
)

type Builder struct {
	w    *World
	over map[string]*Term
	fams map[string]*Family
	info map[string]*MatInfo
}

// MatInfo names the parts of a symbolic matrix.
type MatInfo struct {
	name        string
	rows, cols  *Term // over the allocation indices given at creation
	rowsF, celF *Family
	cell        func(al []*Term, i, j *Term) *Term
	val         *Term
}

func newBuilder(w *World) *Builder {
	return &Builder{w: w, over: map[string]*Term{}, fams: map[string]*Family{}, info: map[string]*MatInfo{}}
}

func (b *Builder) paramFam(name string, kind famKind, nal int, elem types.Type) *Family {
	f := newFamily(name, kind, nal, elem)
	f.param = true
	b.fams[name] = f
	return f
}

func isNamed(t types.Type, pkg *types.Package, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() == pkg
}

func (b *Builder) isMatrix(t types.Type) bool { return isNamed(t, b.w.pkg.Pkg, "Matrix") }

func phsN(n int) []*Term {
	var r []*Term
	for i := 0; i < n; i++ {
		r = append(r, ph(i))
	}
	return r
}

func (b *Builder) leaf(k leafKind, name string, al []*Term) *Term {
	if v, ok := b.over[name]; ok {
		return v
	}
	f := sym(name, k == lkInt)
	return leafFn(k, f, al)
}

// val is an unknown value of a type; al are the indices it depends on.
func (b *Builder) val(t types.Type, name string, al []*Term) *Term {
	if v, ok := b.over[name]; ok {
		return v
	}
	if b.isMatrix(t) {
		return b.matrix(t, name, al)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		k, _ := basicKind(t)
		if k == lkInt {
			f := sym(name, true)
			if lo, hi := rangeOfInt(t); lo != nil && intBits(t) != 0 {
				if _, ok := bounds[f.id]; !ok {
					bounds[f.id] = bound{lo: func([]*Term) *Term { return lo }, hi: func([]*Term) *Term { return hi }}
				}
			}
		}
		return b.leaf(k, name, al)
	case *types.Struct:
		var a []*Term
		for i := 0; i < u.NumFields(); i++ {
			a = append(a, b.val(u.Field(i).Type(), name+"."+u.Field(i).Name(), al))
		}
		return Tuple(a...)
	case *types.Pointer:
		et := u.Elem()
		if n, ok := et.(*types.Named); ok && (n.Obj().Pkg() == nil || n.Obj().Pkg() != b.w.pkg.Pkg) {
			if types.TypeString(et, nil) == "bytes.Buffer" {
				f := b.paramFam(name, famCell, len(al), types.Typ[types.Int])
				f.init = Tuple(Opaque("bufinit", phsN(len(al))...))
				return Ptr(nil, Ref(f, al...))
			}
			return handle("param:"+name, al...)
		}
		kind := famCell
		f := b.paramFam(name, kind, len(al), et)
		f.init = b.val(et, name, phsN(len(al)))
		return Ptr(nil, Ref(f, al...))
	case *types.Slice:
		f := b.paramFam(name, famElems, len(al), u.Elem())
		f.init = b.val(u.Elem(), name+"[]", append(phsN(len(al)), phIdx))
		n, ok := b.over["len("+name+")"]
		if !ok {
			ls := sym("len("+name+")", true)
			setLo(ls, Zero)
			n = App(ls, al...)
			if len(al) == 0 {
				n = num(ls)
			}
		}
		return Slice(Ref(f, al...), Zero, n)
	case *types.Map:
		f := b.paramFam(name, famMap, len(al), u.Elem())
		f.key = u.Key()
		ps := phsN(len(al))
		has := BApp(sym("has:"+name, false), append(append([]*Term(nil), ps...), f.keyPH())...)
		ln := sym("maplen("+name+")", true)
		setLo(ln, Zero)
		f.init = Tuple(has, b.val(u.Elem(), name+"[k]", append(append([]*Term(nil), ps...), f.keyPH())), App(ln, ps...))
		return Ref(f, al...)
	case *types.Interface:
		return Opaque("param:"+name, al...)
	case *types.Array:
		var a []*Term
		for i := int64(0); i < u.Len(); i++ {
			a = append(a, b.val(u.Elem(), fmt.Sprintf("%s[%d]", name, i), al))
		}
		return Tuple(a...)
	}
	return Opaque("param:"+name, al...)
}

func dimTerm(b *Builder, name string, al []*Term) *Term {
	if v, ok := b.over[name]; ok {
		return v
	}
	f := sym(name, true)
	setLo(f, One)
	if len(al) == 0 {
		return num(f)
	}
	return App(f, al...)
}

func (b *Builder) matrix(t types.Type, name string, al []*Term) *Term {
	u := t.Underlying().(*types.Struct)
	var rows, cols *Term
	mi := &MatInfo{name: name}
	rows = dimTerm(b, name+".Rows", al)
	cols = dimTerm(b, name+".Cols", al)
	var a []*Term
	n := len(al)
	for i := 0; i < u.NumFields(); i++ {
		fl := u.Field(i)
		switch fl.Name() {
		case "Rows":
			a = append(a, rows)
		case "Cols":
			a = append(a, cols)
		case "M":
			rt := fl.Type().Underlying().(*types.Slice).Elem()
			ct := rt.Underlying().(*types.Slice).Elem()
			rf := b.paramFam(name+".M", famElems, n, rt)
			cf := b.paramFam(name+".M[]", famElems, n+1, ct)
			pc := phsN(n)
			// the number of columns over the placeholders
			pcols := dimTerm(b, name+".Cols", pc)
			rf.init = Slice(Ref(cf, append(append([]*Term(nil), pc...), phIdx)...), Zero, pcols)
			g := sym(name, false)
			cellAt := func(al []*Term, i, j *Term) *Term {
				return App(g, append(append([]*Term(nil), al...), i, j)...)
			}
			if v, ok := b.over[name+".cell"]; ok {
				// content given over ph0.. (allocation, row) and phIdx
				cf.init = v
				cellAt = func(al []*Term, i, j *Term) *Term {
					s := newSub()
					for k := range al {
						s.set(ph(k), al[k])
					}
					return s.set(ph(len(al)), i).set(phIdx, j).Do(v)
				}
			} else {
				cf.init = cellAt(pc, ph(n), phIdx)
			}
			mi.rowsF, mi.celF, mi.cell = rf, cf, cellAt
			a = append(a, Slice(Ref(rf, al...), Zero, rows))
		default:
			a = append(a, b.val(fl.Type(), name+"."+fl.Name(), al))
		}
	}
	mi.rows, mi.cols = rows, cols
	mi.val = Tuple(a...)
	b.info[name] = mi
	return mi.val
}

// matParts reads a matrix value: rows, cols and the cell content in a state.
func matParts(w *World, v *Term) (rows, cols, m *Term) {
	t := w.pkg.Type("Matrix").Type().Underlying().(*types.Struct)
	for i := 0; i < t.NumFields(); i++ {
		switch t.Field(i).Name() {
		case "Rows":
			rows = field(v, i)
		case "Cols":
			cols = field(v, i)
		case "M":
			m = field(v, i)
		}
	}
	return
}

// rowAt is the slice of a row of a matrix value in a state.
func rowAt(w *World, st *State, f *Facts, v, i *Term) *Term {
	_, _, m := matParts(w, v)
	m = f.Simp(m)
	r := lift([]*Term{m}, func(a []*Term) *Term {
		if sref(a[0]).op != ORef {
			return Slice(Nil, Zero, Zero)
		}
		return st.at(sref(a[0]).fam(), sref(a[0]).a, Add(soff(a[0]), i))
	})
	return f.Simp(r)
}

// cellAt is a cell of a matrix value in a state.
func cellAt(w *World, st *State, f *Facts, v, i, j *Term) *Term {
	r := rowAt(w, st, f, v, i)
	c := lift([]*Term{r}, func(a []*Term) *Term {
		if sref(a[0]).op != ORef {
			return num(sym("nostorage", false))
		}
		return st.at(sref(a[0]).fam(), sref(a[0]).a, Add(soff(a[0]), j))
	})
	return f.Simp(c)
}

var intType types.Type = types.Typ[types.Int]
