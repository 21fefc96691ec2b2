package main

// G01, G02: loggers and shared state.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("G01", "every logger a message is written to traces back to a package variable that is set before main and is only ever assigned freshly made loggers; closed form of the loggers, their writers and the error after configuring logging", 14, checkG01)
	register("G02", "interprocedural flow of addresses of package-level storage (through fields, elements, parameters, results and closures): no store, map update or mutating library call reaches it outside the configuration of logging and package initialisation; no call of a library function that changes process-global state", 60, checkG02)
}

// ---------- who may configure logging ----------

// callersOf lists the static call sites of a function; ok is false when the
// function is also used in another way.
func (w *World) callersOf(fn *ssa.Function) (calls []ssa.CallInstruction, ok bool) {
	ok = true
	for _, f := range w.allFns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if *op != ssa.Value(fn) {
						continue
					}
					if c, isCall := ins.(ssa.CallInstruction); isCall && c.Common().Value == ssa.Value(fn) && !c.Common().IsInvoke() {
						used := false
						for _, a := range c.Common().Args {
							if a == ssa.Value(fn) {
								used = true
							}
						}
						if !used {
							calls = append(calls, c)
							continue
						}
					}
					if mc, isMC := ins.(*ssa.MakeClosure); isMC && mc.Fn == ssa.Value(fn) {
						all := true
						for _, r := range *mc.Referrers() {
							c, isCall := r.(ssa.CallInstruction)
							if isCall && c.Common().Value == ssa.Value(mc) {
								calls = append(calls, c)
								continue
							}
							if _, dbg := r.(*ssa.DebugRef); !dbg {
								all = false
							}
						}
						if all {
							continue
						}
					}
					ok = false
				}
			}
		}
	}
	return calls, ok
}

func isInit(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Name() == "init" && fn.Synthetic != "" || strings.HasPrefix(fn.Name(), "init#")
}

// helpersOf adds the unexported functions called from nowhere else.
func (w *World) helpersOf(set map[*ssa.Function]bool) {
	for {
		n := len(set)
		for _, fn := range w.allFns {
			if set[fn] || token.IsExported(fn.Name()) {
				continue
			}
			calls, ok := w.callersOf(fn)
			if !ok || len(calls) == 0 {
				continue
			}
			all := true
			for _, c := range calls {
				if !set[c.Parent()] {
					all = false
				}
			}
			if all {
				set[fn] = true
			}
		}
		if len(set) == n {
			return
		}
	}
}

func (w *World) configurers() map[*ssa.Function]bool {
	cfg := map[*ssa.Function]bool{}
	if fn := w.pkg.Func("InitLogger"); fn != nil {
		cfg[fn] = true
	}
	for _, fn := range w.allFns {
		if isInit(fn) {
			cfg[fn] = true
		}
	}
	w.helpersOf(cfg)
	return cfg
}

func isLoggerPtr(t types.Type) bool {
	return types.TypeString(t, nil) == "*log.Logger"
}

func (c *Check) instr(ins ssa.Instruction) string {
	p := c.w.prog.Fset.Position(ins.Pos())
	return fmt.Sprintf("%s at %s:%d", ins.Parent().RelString(c.w.pkg.Pkg), shortFile(p.Filename), p.Line)
}

func checkG01(c *Check) {
	w := c.w
	var globals []*ssa.Global
	for _, m := range w.pkg.Members {
		if g, ok := m.(*ssa.Global); ok && isLoggerPtr(g.Type().Underlying().(*types.Pointer).Elem()) {
			globals = append(globals, g)
		}
	}
	sort.Slice(globals, func(i, j int) bool { return globals[i].Name() < globals[j].Name() })
	good := map[*ssa.Global]bool{}
	cfg := w.configurers()
	for _, g := range globals {
		g := g
		c.scoped("variable "+g.Name(), func() {
			f := w.globalFam(g)
			set := f.init != nil && (isHandle(f.init, "global:"+g.Name()) || isHandle(f.init, "logger"))
			c.expect("G01.set-at-start", "variable "+g.Name(), set, "the logger is nil until logging is configured")
			ok := set
			for _, fn := range w.allFns {
				for _, b := range fn.Blocks {
					for _, ins := range b.Instrs {
						for _, op := range ins.Operands(nil) {
							if *op != ssa.Value(g) {
								continue
							}
							if u, isU := ins.(*ssa.UnOp); isU && u.Op == token.MUL {
								continue
							}
							if _, dbg := ins.(*ssa.DebugRef); dbg {
								continue
							}
							st, isSt := ins.(*ssa.Store)
							if isSt && st.Addr == ssa.Value(g) {
								ok = c.expect("G01.assigned", c.instr(ins)+" of "+g.Name(), cfg[fn] && w.freshLogger(st.Val, map[ssa.Value]bool{}), "the logger variable is assigned outside the configuration of logging, or something else than a new logger") && ok
								continue
							}
							ok = c.expect("G01.assigned", c.instr(ins)+" of "+g.Name(), false, "the address of the logger variable is taken") && ok
						}
					}
				}
			}
			good[g] = ok
		})
	}
	c.scoped("log calls", func() {
		for _, fn := range w.allFns {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					call, ok := ins.(ssa.CallInstruction)
					if !ok {
						continue
					}
					callee := call.Common().StaticCallee()
					if callee == nil || callee.Pkg == nil || callee.Pkg.Pkg.Path() != "log" {
						continue
					}
					c.fns[c.where(fn)] = true
					n := callee.Name()
					where := c.instr(ins) + " " + n
					fatal := strings.HasPrefix(n, "Fatal") || strings.HasPrefix(n, "Panic")
					c.expect("G01.survives", where, !fatal, "logging ends the program")
					if callee.Signature.Recv() == nil {
						if n != "New" && n != "Default" && !fatal {
							// the standard logger writes to standard error unasked
							c.expect("G01.discarded", where, isInit(fn), "writes to the process's standard logger although no output was asked for")
						}
						continue
					}
					c.expect("G01.usable", where, w.usableLogger(call.Common().Args[0], good, map[ssa.Value]bool{}), "the logger is not shown to exist")
					if strings.HasPrefix(n, "Set") {
						c.expect("G01.reconfigured", where, cfg[fn], "the logger is changed outside the configuration of logging")
					}
				}
			}
		}
	})
	c.scoped("output to the terminal", func() {
		// messages must not bypass the loggers
		for _, fn := range w.allFns {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					call, ok := ins.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if bi, isB := call.Common().Value.(*ssa.Builtin); isB && (bi.Name() == "print" || bi.Name() == "println") {
						c.expect("G01.discarded", c.instr(ins), w.fnIsProgram(fn), "prints although no output was asked for")
					}
					if callee := call.Common().StaticCallee(); callee != nil && callee.Pkg != nil && callee.Pkg.Pkg.Path() == "fmt" && strings.HasPrefix(callee.Name(), "Print") {
						c.expect("G01.discarded", c.instr(ins), w.fnIsProgram(fn), "prints although no output was asked for")
					}
				}
			}
		}
	})
	c.scoped("InitLogger", func() {
		r := c.run("InitLogger", runOpts{})
		r.mustReturn("G01", r.f)
		r.noPanic("G01", nil)
		verbose, useFile := boolOf(r.args[0]), boolOf(r.args[1])
		std := func(n string) *Term { return handle("ext:" + n) }
		opens := map[*Term]*Event{}
		for _, e := range r.ev.events {
			if e.kind == "io" && len(e.args) > 0 && isHandle(e.args[0], "file") && strings.HasPrefix(e.name, "os.") {
				opens[e.args[0]] = e
			}
			if e.kind == "io" && e.name == "File.Close" {
				f := r.f.With(allConds(e.facts)...)
				c.expect("G01.file-open", c.instr(e.instr), f.Proves(Not(r.noErr())), "the log file is closed although the loggers write to it")
			}
		}
		for _, g := range globals {
			fam := w.globalFam(g)
			v := r.st.content(fam)
			con := c.where(r.fn) + " " + g.Name()
			for _, cs := range []struct {
				what string
				cond *Term
				want func(v *Term) bool
			}{
				{"a quiet configuration", And(Not(useFile), Not(verbose)), func(v *Term) bool { return v == std("io.Discard") }},
				{"a verbose configuration", And(Not(useFile), verbose), func(v *Term) bool { return v == std("os.Stdout") || v == std("os.Stderr") }},
				{"a log file", useFile, func(v *Term) bool {
					e := opens[v]
					return e != nil && len(e.args) > 1 && e.args[1] == r.args[2]
				}},
			} {
				for _, k := range cases(v) {
					f := r.f.With(cs.cond, r.noErr(), k.c)
					if f.Contradictory() || f.Refuted() {
						continue
					}
					if !c.expect("G01.installed", con+" for "+cs.what, isHandle(k.v, "logger"), "the logger is %v", k.v) {
						continue
					}
					for _, wr := range cases(f.Simp(k.v.a[1])) {
						f := f.With(wr.c)
						if f.Contradictory() || f.Refuted() {
							continue
						}
						c.expect("G01.output", con+" for "+cs.what, cs.want(unwrapIface(wr.v)), "writes to %v", wr.v)
					}
				}
			}
			for _, k := range cases(v) {
				f := r.f.With(Not(r.noErr()), k.c)
				if f.Contradictory() || f.Refuted() {
					continue
				}
				ok := isHandle(k.v, "global:"+g.Name())
				if isHandle(k.v, "logger") {
					ok = true
					for _, wr := range cases(f.Simp(k.v.a[1])) {
						if unwrapIface(wr.v) == Nil && !f.With(wr.c).Contradictory() && !f.With(wr.c).Refuted() {
							ok = false
						}
					}
				}
				c.expect("G01.after-error", con, ok, "after a failed configuration the logger is unusable: %v", k.v)
			}
		}
	})
}

// unwrapIface removes the interface around a file or writer.
func unwrapIface(v *Term) *Term {
	for v.op == OIface && len(v.a) == 1 {
		if _, ok := v.x.(types.Type); !ok {
			break
		}
		v = v.a[0]
	}
	return v
}

// fnIsProgram: the function belongs to a program of the module, not to the library.
func (w *World) fnIsProgram(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Pkg != nil && fn.Pkg.Pkg.Name() == "main"
}

// freshLogger: the value is a logger made by log.New on every path.
func (w *World) freshLogger(v ssa.Value, seen map[ssa.Value]bool) bool {
	return w.loggerFrom(v, seen, func(ssa.Value) bool { return false })
}

func (w *World) usableLogger(v ssa.Value, good map[*ssa.Global]bool, seen map[ssa.Value]bool) bool {
	return w.loggerFrom(v, seen, func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
		g, ok := u.X.(*ssa.Global)
		return ok && good[g]
	})
}

func (w *World) loggerFrom(v ssa.Value, seen map[ssa.Value]bool, base func(ssa.Value) bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	rec := func(x ssa.Value) bool { return w.loggerFrom(x, seen, base) }
	if base(v) {
		return true
	}
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !rec(e) {
				return false
			}
		}
		return true
	case *ssa.Call:
		fn := v.Call.StaticCallee()
		if fn == nil {
			return false
		}
		if fn.Pkg != nil && fn.Pkg.Pkg.Path() == "log" && (fn.Name() == "New" || fn.Name() == "Default") {
			return true
		}
		return w.resultsOf(fn, 0, rec)
	case *ssa.Extract:
		if cl, ok := v.Tuple.(*ssa.Call); ok {
			if fn := cl.Call.StaticCallee(); fn != nil {
				return w.resultsOf(fn, v.Index, rec)
			}
		}
	case *ssa.ChangeType:
		return rec(v.X)
	case *ssa.Parameter:
		fn := v.Parent()
		if token.IsExported(fn.Name()) {
			return false
		}
		calls, ok := w.callersOf(fn)
		if !ok || len(calls) == 0 {
			return false
		}
		k := -1
		for i, p := range fn.Params {
			if p == v {
				k = i
			}
		}
		for _, cl := range calls {
			if !rec(cl.Common().Args[k]) {
				return false
			}
		}
		return true
	case *ssa.FreeVar:
		fn := v.Parent()
		for i, fv := range fn.FreeVars {
			if fv != v || fn.Referrers() == nil {
				continue
			}
			_ = i
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			// a local variable
			if al, ok := v.X.(*ssa.Alloc); ok {
				n := 0
				for _, r := range *al.Referrers() {
					switch r := r.(type) {
					case *ssa.Store:
						if r.Addr != ssa.Value(al) || !rec(r.Val) {
							return false
						}
						n++
					case *ssa.UnOp, *ssa.DebugRef:
					default:
						return false
					}
				}
				return n > 0
			}
		}
	}
	return false
}

func (w *World) resultsOf(fn *ssa.Function, idx int, rec func(ssa.Value) bool) bool {
	if fn.Blocks == nil || !w.inModule(fn) {
		return false
	}
	n := 0
	for _, b := range fn.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			n++
			if idx >= len(r.Results) || !rec(r.Results[idx]) {
				return false
			}
		}
	}
	return n > 0
}

// ---------- G02 ----------

// sharedFlow follows addresses of package-level storage.
type sharedFlow struct {
	w       *World
	c       *Check
	val     map[ssa.Value]string // value -> the package variable it may point into
	heap    map[string]string    // content class -> likewise
	res     map[string]string    // function result
	changed bool
	byName  map[string][]*ssa.Function
	bySig   map[string][]*ssa.Function
}

func hasRefs(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasRefs(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasRefs(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if hasRefs(u.At(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

func (s *sharedFlow) mark(v ssa.Value, g string) {
	if g == "" || s.val[v] != "" || !hasRefs(v.Type()) {
		return
	}
	if _, isConst := v.(*ssa.Const); isConst {
		return
	}
	s.val[v] = g
	s.changed = true
}

func (s *sharedFlow) markHeap(k, g string) {
	if g != "" && s.heap[k] == "" {
		s.heap[k] = g
		s.changed = true
	}
}

func (s *sharedFlow) markRes(k, g string) {
	if g != "" && s.res[k] == "" {
		s.res[k] = g
		s.changed = true
	}
}

func tkey(t types.Type) string { return types.TypeString(t, nil) }

// contentKeys are the classes of storage an address of type T covers.
func (s *sharedFlow) contentKeys(addr ssa.Value) []string {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		t := a.X.Type().Underlying().(*types.Pointer).Elem()
		keys := []string{fmt.Sprintf("%s.%d", tkey(t), a.Field)}
		return append(keys, s.typeKeys(a.Type().Underlying().(*types.Pointer).Elem())...)
	case *ssa.IndexAddr:
		et := a.Type().Underlying().(*types.Pointer).Elem()
		return append([]string{"elem:" + tkey(et)}, s.typeKeys(et)...)
	}
	t := addr.Type().Underlying().(*types.Pointer).Elem()
	return append([]string{"cell:" + tkey(t)}, s.typeKeys(t)...)
}

func (s *sharedFlow) typeKeys(t types.Type) []string {
	var out []string
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if hasRefs(st.Field(i).Type()) {
				out = append(out, fmt.Sprintf("%s.%d", tkey(t), i))
				out = append(out, s.typeKeys(st.Field(i).Type())...)
			}
		}
	}
	if at, ok := t.Underlying().(*types.Array); ok && hasRefs(at.Elem()) {
		out = append(out, "elem:"+tkey(at.Elem()))
		out = append(out, s.typeKeys(at.Elem())...)
	}
	return out
}

// heldBy: whether the initial, never changed content of a variable holds references.
func (s *sharedFlow) holdsRefs(g *ssa.Global) bool {
	c, ok := s.w.globalInit[g]
	if !ok {
		return true
	}
	found := false
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || found {
			return
		}
		seen[t] = true
		switch t.op {
		case ORef, OOpaque, OPtr, OFunc:
			found = true
		case OIface:
			if _, ok := t.x.(string); ok {
				found = true
			}
		}
		for _, a := range t.a {
			walk(a)
		}
	}
	walk(c)
	return found
}

func (s *sharedFlow) callees(call *ssa.CallCommon) []*ssa.Function {
	if fn := call.StaticCallee(); fn != nil {
		return []*ssa.Function{fn}
	}
	if call.IsInvoke() {
		var out []*ssa.Function
		it, _ := call.Value.Type().Underlying().(*types.Interface)
		for _, f := range s.byName[call.Method.Name()] {
			if it == nil || f.Signature.Recv() != nil && types.Implements(f.Signature.Recv().Type(), it) {
				out = append(out, f)
			}
		}
		return out
	}
	return s.bySig[tkey(call.Value.Type().Underlying())]
}

func (s *sharedFlow) step(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				if g := s.of(x.Val); g != "" {
					for _, k := range s.contentKeys(x.Addr) {
						s.markHeap(k, g)
					}
				}
			case *ssa.MapUpdate:
				t := x.Map.Type().Underlying().(*types.Map)
				s.markHeap("map:"+tkey(t.Elem()), s.of(x.Value))
				s.markHeap("mapkey:"+tkey(t.Key()), s.of(x.Key))
			case *ssa.Send:
				s.markHeap("chan:"+tkey(x.X.Type()), s.of(x.X))
			case *ssa.Return:
				for i, r := range x.Results {
					s.markRes(fmt.Sprintf("%s#%d", fn.String(), i), s.of(r))
				}
			case *ssa.MakeClosure:
				f := x.Fn.(*ssa.Function)
				for i, v := range x.Bindings {
					s.mark(f.FreeVars[i], s.of(v))
				}
			}
			if call, ok := ins.(ssa.CallInstruction); ok {
				s.call(call)
			}
			if v, ok := ins.(ssa.Value); ok {
				s.value(v)
			}
		}
	}
}

func (s *sharedFlow) of(v ssa.Value) string {
	if g, ok := v.(*ssa.Global); ok {
		return g.String()
	}
	return s.val[v]
}

func (s *sharedFlow) value(v ssa.Value) {
	from := func(xs ...ssa.Value) {
		for _, x := range xs {
			s.mark(v, s.of(x))
		}
	}
	switch x := v.(type) {
	case *ssa.Phi:
		from(x.Edges...)
	case *ssa.FieldAddr:
		from(x.X)
	case *ssa.IndexAddr:
		from(x.X)
	case *ssa.Slice:
		from(x.X)
	case *ssa.Field:
		from(x.X)
	case *ssa.Index:
		from(x.X)
	case *ssa.ChangeType:
		from(x.X)
	case *ssa.ChangeInterface:
		from(x.X)
	case *ssa.MakeInterface:
		from(x.X)
	case *ssa.Convert:
		if _, isStr := x.X.Type().Underlying().(*types.Basic); !isStr {
			if _, toStr := x.Type().Underlying().(*types.Basic); !toStr {
				from(x.X)
			}
		}
	case *ssa.TypeAssert:
		from(x.X)
	case *ssa.SliceToArrayPointer:
		from(x.X)
	case *ssa.Extract:
		if cl, ok := x.Tuple.(*ssa.Call); ok {
			for _, f := range s.callees(cl.Common()) {
				s.mark(v, s.res[fmt.Sprintf("%s#%d", f.String(), x.Index)])
				if f.Blocks == nil || !s.w.inModule(f) {
					s.mark(v, s.of(cl))
				}
			}
			return
		}
		from(x.Tuple)
	case *ssa.Lookup:
		if m, ok := x.X.Type().Underlying().(*types.Map); ok {
			from(x.X)
			s.mark(v, s.heap["map:"+tkey(m.Elem())])
		}
	case *ssa.Next:
		from(x.Iter)
		if r, ok := x.Iter.(*ssa.Range); ok {
			if m, ok := r.X.Type().Underlying().(*types.Map); ok {
				s.mark(v, s.heap["map:"+tkey(m.Elem())])
				s.mark(v, s.heap["mapkey:"+tkey(m.Key())])
			}
		}
	case *ssa.Range:
		from(x.X)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			if g, ok := x.X.(*ssa.Global); ok {
				if s.holdsRefs(g) {
					s.mark(v, g.String())
				}
				return
			}
			from(x.X)
			for _, k := range s.contentKeys(x.X) {
				s.mark(v, s.heap[k])
			}
		case token.ARROW:
			s.mark(v, s.heap["chan:"+tkey(x.Type())])
			from(x.X)
		}
	case *ssa.Call:
		for _, f := range s.callees(x.Common()) {
			if f.Blocks != nil && s.w.inModule(f) {
				s.mark(v, s.res[fmt.Sprintf("%s#%d", f.String(), 0)])
				continue
			}
			if keepsArgs(f) {
				from(x.Call.Args...)
			}
		}
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			from(x.Call.Args[0])
		}
	}
}

// keepsArgs: the result of a library function may refer to its arguments.
func keepsArgs(f *ssa.Function) bool {
	if f.Pkg == nil {
		return true
	}
	switch f.Pkg.Pkg.Path() {
	case "fmt", "errors", "math", "strconv", "strings", "sort":
		return false
	case "log":
		// a logger is its own object
		return false
	}
	return true
}

func (s *sharedFlow) call(call ssa.CallInstruction) {
	cc := call.Common()
	for _, f := range s.callees(cc) {
		if f.Blocks == nil || !s.w.inModule(f) {
			continue
		}
		args := cc.Args
		if cc.IsInvoke() {
			args = append([]ssa.Value{cc.Value}, args...)
		}
		for i, a := range args {
			if i < len(f.Params) {
				s.mark(f.Params[i], s.of(a))
			}
		}
	}
	if bi, ok := cc.Value.(*ssa.Builtin); ok && (bi.Name() == "append" || bi.Name() == "copy") && len(cc.Args) > 1 {
		if t, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
			// the elements are copied, not the storage: only references in them count
			if hasRefs(t.Elem()) && s.of(cc.Args[1]) != "" {
				s.markHeap("elem:"+tkey(t.Elem()), s.of(cc.Args[1]))
			}
		}
	}
}

// processWide are library functions that change the state of the process.
func processWide(f *ssa.Function) string {
	if f.Pkg == nil {
		return ""
	}
	p, n := f.Pkg.Pkg.Path(), f.Name()
	recv := f.Signature.Recv() != nil
	switch {
	case (p == "math/rand" || p == "golang.org/x/exp/rand") && !recv && n == "Seed":
		return "reseeds the generator all code shares"
	case p == "os" && !recv && (n == "Setenv" || n == "Unsetenv" || n == "Clearenv" || n == "Chdir" || n == "Exit"):
		return "changes the process"
	case p == "log" && !recv && (strings.HasPrefix(n, "Set") || strings.HasPrefix(n, "Fatal")):
		return "changes the standard logger"
	case p == "runtime" && n == "GOMAXPROCS", p == "runtime/debug" && strings.HasPrefix(n, "Set"), p == "syscall", p == "os/signal", p == "flag" && !recv:
		return "changes the process"
	}
	return ""
}

// readsOnly: the library function does not change what its arguments refer to,
// or does so safely from several goroutines.
func readsOnly(f *ssa.Function) bool {
	if f.Pkg == nil {
		return false
	}
	p, n := f.Pkg.Pkg.Path(), f.Name()
	recv := ""
	if r := f.Signature.Recv(); r != nil {
		recv = types.TypeString(r.Type(), nil)
	}
	switch p {
	case "fmt", "errors", "math", "strconv", "strings", "unicode", "unicode/utf8", "time", "cmp":
		return true
	case "log":
		return !strings.HasPrefix(n, "Set")
	case "encoding/binary":
		return n == "Write" || n == "Size"
	case "sort":
		return strings.HasPrefix(n, "Search") || strings.HasSuffix(n, "AreSorted") || n == "IsSorted" || n == "SliceIsSorted"
	case "slices":
		return n == "Contains" || n == "Index" || n == "Clone" || n == "Equal" || strings.HasPrefix(n, "Binary") || n == "Max" || n == "Min"
	case "maps":
		return n == "Keys" || n == "Values" || n == "Clone" || n == "Equal"
	case "bytes":
		return recv == "" && (n == "Equal" || n == "Compare" || n == "HasPrefix" || n == "NewReader")
	case "sync":
		return n == "Lock" || n == "Unlock" || n == "RLock" || n == "RUnlock"
	case "os", "io":
		return recv == "" || n == "Write" || n == "WriteString" || n == "Name"
	}
	return false
}

func checkG02(c *Check) {
	w := c.w
	s := &sharedFlow{w: w, c: c, val: map[ssa.Value]string{}, heap: map[string]string{}, res: map[string]string{}, byName: map[string][]*ssa.Function{}, bySig: map[string][]*ssa.Function{}}
	for _, fn := range w.allFns {
		s.byName[fn.Name()] = append(s.byName[fn.Name()], fn)
		k := tkey(fn.Signature)
		if fn.Signature.Recv() == nil {
			s.bySig[k] = append(s.bySig[k], fn)
		}
	}
	cfg := w.configurers()
	for {
		s.changed = false
		for _, fn := range w.allFns {
			s.step(fn)
		}
		if !s.changed {
			break
		}
	}
	stores := 0
	for _, fn := range w.allFns {
		if isInit(fn) || w.fnIsProgram(fn) {
			continue
		}
		c.fns[c.where(fn)] = true
		n := 0
		before := len(c.finds)
		bad := func(ins ssa.Instruction, g, what string) {
			c.report("G02.shared", c.instr(ins), what+" package-level storage of "+g, false)
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					n++
					g := s.of(x.Addr)
					if g == "" {
						continue
					}
					if gl, ok := x.Addr.(*ssa.Global); ok && cfg[fn] && isLoggerPtr(gl.Type().Underlying().(*types.Pointer).Elem()) {
						continue
					}
					bad(ins, g, "writes")
				case *ssa.MapUpdate:
					n++
					if g := s.of(x.Map); g != "" {
						bad(ins, g, "writes a map in")
					}
				case *ssa.Send:
					n++
					if g := s.of(x.Chan); g != "" {
						bad(ins, g, "sends on a channel in")
					}
				case ssa.CallInstruction:
					cc := x.Common()
					if bi, ok := cc.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "copy", "append", "delete", "clear", "close":
							n++
							if g := s.of(cc.Args[0]); g != "" {
								bad(ins, g, "changes by "+bi.Name())
							}
						}
						continue
					}
					callee := cc.StaticCallee()
					if callee == nil {
						if cc.IsInvoke() && s.of(cc.Value) != "" {
							// a method of a shared object
							known := false
							for _, f := range s.callees(cc) {
								if w.inModule(f) {
									known = true
								}
							}
							if !known && cc.Method.Pkg() != nil && cc.Method.Pkg().Path() != "io" && cc.Method.Name() != "Error" && cc.Method.Name() != "String" {
								n++
								bad(ins, s.of(cc.Value), "calls a method that may change")
							}
						}
						continue
					}
					if w.inModule(callee) && callee.Blocks != nil {
						continue
					}
					n++
					if why := processWide(callee); why != "" {
						c.report("G02.process", c.instr(ins), callee.String()+" "+why, false)
						continue
					}
					if readsOnly(callee) {
						continue
					}
					for _, a := range cc.Args {
						if g := s.of(a); g != "" {
							bad(ins, g, "passes to "+callee.String()+", which may change it,")
						}
					}
				}
			}
		}
		stores += n
		c.rules["G02.effect"] += n
		c.expect("G02.function", c.where(fn), len(c.finds) == before, "see the construct reported")
	}
	c.obls = stores
}
