package main

// Loading of the analysed module and per-function loop structure.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type World struct {
	prog       *ssa.Program
	pkg        *ssa.Package
	pkgs       []*packages.Package
	main       *packages.Package
	liMemo     map[*ssa.Function]*LoopInfo
	idMemo     map[ssa.Instruction]string
	globals    map[*ssa.Global]*Family
	globalInit map[*ssa.Global]*Term
	modPath    string
	allFns     []*ssa.Function
}

func loadWorld(dir string) (*World, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:  dir,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	w := &World{liMemo: map[*ssa.Function]*LoopInfo{}, idMemo: map[ssa.Instruction]string{}, globals: map[*ssa.Global]*Family{}, pkgs: pkgs}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
		if p.Module != nil {
			w.modPath = p.Module.Path
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	w.prog = prog
	for i, p := range pkgs {
		if p.PkgPath == w.modPath {
			w.pkg = spkgs[i]
			w.main = p
		}
	}
	if w.pkg == nil {
		return nil, fmt.Errorf("package nn not found in %s", dir)
	}
	all := ssautil.AllFunctions(prog)
	for f := range all {
		if w.inModule(f) && f.Blocks != nil {
			w.allFns = append(w.allFns, f)
		}
	}
	sort.Slice(w.allFns, func(i, j int) bool { return w.allFns[i].String() < w.allFns[j].String() })
	return w, nil
}

func (w *World) inModule(f *ssa.Function) bool {
	if f.Synthetic != "" && f.Blocks != nil && f.Pkg == nil {
		// wrappers, bound methods and instantiations
		if f.Object() != nil && f.Object().Pkg() != nil {
			if f.Object().Pkg() == w.pkg.Pkg {
				return true
			}
		}
		return true
	}
	if f.Pkg != nil {
		return f.Pkg == w.pkg || strings.HasPrefix(f.Pkg.Pkg.Path(), w.modPath)
	}
	if f.Parent() != nil {
		return w.inModule(f.Parent())
	}
	if o := f.Origin(); o != nil && o != f {
		return w.inModule(o)
	}
	return false
}

func (w *World) instrID(i ssa.Instruction) string {
	if s, ok := w.idMemo[i]; ok {
		return s
	}
	fn := i.Parent()
	name := fn.RelString(w.pkg.Pkg)
	for _, b := range fn.Blocks {
		for k, x := range b.Instrs {
			w.idMemo[x] = fmt.Sprintf("%s:%d.%d", name, b.Index, k)
		}
	}
	if s, ok := w.idMemo[i]; ok {
		return s
	}
	return fmt.Sprintf("%s:%p", name, i)
}

func (w *World) globalFam(g *ssa.Global) *Family {
	if f, ok := w.globals[g]; ok {
		return f
	}
	et := g.Type().Underlying().(*types.Pointer).Elem()
	kind := famCell
	if at, ok := et.Underlying().(*types.Array); ok {
		kind = famElems
		et = at.Elem()
	}
	f := newFamily("global "+g.Name(), kind, 0, et)
	f.param = true
	var args []*Term
	if kind == famElems {
		args = []*Term{phIdx}
	}
	if g.Pkg != w.pkg {
		switch et.Underlying().(type) {
		case *types.Pointer, *types.Interface:
			f.init = handle("ext:" + g.String())
		default:
			f.init = havocVal(et, "global."+g.String(), args...)
		}
	} else if c, ok := w.globalInit[g]; ok {
		f.init = c
	} else {
		f.init = havocVal(et, "global."+g.String(), args...)
	}
	w.globals[g] = f
	return f
}

// function lookup by source name
func (w *World) fn(name string) *ssa.Function {
	if i := strings.Index(name, "."); i >= 0 {
		tn, mn := name[:i], name[i+1:]
		t := w.pkg.Type(tn)
		if t == nil {
			return nil
		}
		for _, ty := range []types.Type{types.NewPointer(t.Type()), t.Type()} {
			ms := w.prog.MethodSets.MethodSet(ty)
			for k := 0; k < ms.Len(); k++ {
				if ms.At(k).Obj().Name() == mn {
					return w.prog.MethodValue(ms.At(k))
				}
			}
		}
		return nil
	}
	return w.pkg.Func(name)
}

func (w *World) typ(name string) types.Type {
	t := w.pkg.Type(name)
	if t == nil {
		return nil
	}
	return t.Type()
}

// ---------- loops ----------

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *Loop
	depth  int
}

type LoopInfo struct {
	rpo    []*ssa.BasicBlock
	loopOf map[*ssa.BasicBlock]*Loop
	irred  bool
}

func (w *World) loops(fn *ssa.Function) *LoopInfo {
	if li, ok := w.liMemo[fn]; ok {
		return li
	}
	li := &LoopInfo{loopOf: map[*ssa.BasicBlock]*Loop{}}
	w.liMemo[fn] = li
	// reverse postorder and back edges
	state := map[*ssa.BasicBlock]int{}
	var post []*ssa.BasicBlock
	heads := map[*ssa.BasicBlock]*Loop{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		state[b] = 1
		for _, s := range b.Succs {
			if state[s] == 0 {
				dfs(s)
			} else if state[s] == 1 {
				if !s.Dominates(b) {
					li.irred = true
				}
			}
		}
		state[b] = 2
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.rpo = append(li.rpo, post[i])
	}
	if li.irred {
		panic(undecided{"irreducible control flow in " + fn.String()})
	}
	var order []*Loop
	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := heads[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					heads[s] = l
					order = append(order, l)
				}
				// natural loop of b -> s
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	sort.Slice(order, func(i, j int) bool { return len(order[i].blocks) > len(order[j].blocks) })
	for i, l := range order {
		for j := i - 1; j >= 0; j-- {
			if order[j] != l && order[j].blocks[l.header] {
				l.parent = order[j]
				break
			}
		}
		for b := range l.blocks {
			li.loopOf[b] = l // larger loops first, so the innermost wins
		}
	}
	return li
}
