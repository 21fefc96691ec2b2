package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// initGlobals analyses the package initialiser: a variable that is written
// nowhere else keeps its initial value.
func (w *World) initGlobals() {
	w.globalInit = map[*ssa.Global]*Term{}
	written := map[*ssa.Global]bool{}
	nonNil := map[*ssa.Global]bool{}
	for _, fn := range w.allFns {
		if fn.Name() == "init" && fn.Pkg == w.pkg && fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Pkg != w.pkg {
						continue
					}
					if u, ok := ins.(*ssa.UnOp); ok && u.X == ssa.Value(g) {
						continue // a read
					}
					if st, ok := ins.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
						written[g] = true
						continue
					}
					written[g] = true
				}
			}
		}
	}
	init := w.pkg.Func("init")
	if init == nil || init.Blocks == nil {
		return
	}
	func() {
		defer func() { recover() }()
		ev := newEval(w)
		ev.hook = func(ev *Eval, fr *frame, ins ssa.CallInstruction, fn *ssa.Function, name string, args []*Term) (*Term, bool) {
			if fn != nil && fn.Name() == "init" {
				return Tuple(), true // initialisers of other packages
			}
			return nil, false
		}
		st := newState()
		guard := w.pkg.Var("init$guard")
		if guard != nil {
			f := w.globalFam(guard)
			st.mem[f] = False
		}
		_, st2, pc := ev.Call(init, nil, nil, st, &Facts{}, "init")
		if pc != True {
			return
		}
		for _, m := range w.pkg.Members {
			g, ok := m.(*ssa.Global)
			if !ok || g == guard {
				continue
			}
			f := w.globalFam(g)
			c, ok := st2.mem[f]
			if !ok {
				c = zeroVal(f.elem)
			}
			if !written[g] {
				w.globalInit[g] = c
				f.init = c
				continue
			}
			if _, isPtr := f.elem.Underlying().(*types.Pointer); isPtr && Not(IsNil(c)) == True {
				nonNil[g] = true
			}
		}
	}()
	// variables that start non-nil and are only assigned non-nil values (G01
	// decides this for the loggers) are taken as non-nil objects
	for g := range nonNil {
		f := w.globalFam(g)
		f.init = handle("global:" + g.Name())
	}
}
