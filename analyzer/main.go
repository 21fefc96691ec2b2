package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"time"
)

func main() {
	debug.SetGCPercent(400)
	if p := os.Getenv("NNPROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		go func() { time.Sleep(60 * time.Second); pprof.StopCPUProfile(); f.Close() }()
	}
	if len(os.Args) > 2 && os.Args[1] == "check" {
		rc := runCheck(os.Args[2])
		pprof.StopCPUProfile()
		os.Exit(rc)
	}
	if len(os.Args) > 2 && os.Args[1] == "dump" {
		dump(os.Args[2])
	}
}

func repoDir() string {
	if d := os.Getenv("NN_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func dump(name string) {
	defer func() {
		if r := recover(); r != nil {
			fmt.Println("PANIC", r)
			if _, ok := r.(undecided); !ok || os.Getenv("NNSTACK") != "" {
				debug.PrintStack()
			}
		}
	}()
	t0 := time.Now()
	w, err := loadWorld(repoDir())
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	fmt.Println("loaded", time.Since(t0))
	t0 = time.Now()
	fn := w.fn(name)
	if fn == nil {
		fmt.Println("no such function", w.pkg, len(w.allFns), w.pkg.Members)
		return
	}
	b := newBuilder(w)
	ev := newEval(w)
	if os.Getenv("NNFAULT") != "" {
		ev.faults = newFaults(nil, false)
	}
	var args []*Term
	for _, p := range fn.Params {
		args = append(args, b.val(p.Type(), p.Name(), nil))
	}
	st := newState()
	v, st2, pc := ev.Call(fn, args, nil, st, &Facts{}, "")
	fmt.Println("val:", v)
	fmt.Println("pc:", pc)
	for _, f := range sortedFams(st2.mem) {
		if st2.mem[f] != st.content(f) {
			fmt.Printf("  %s(%d) %v := %v\n", f.name, f.id, f.phs(), st2.mem[f])
		}
	}
	bad := 0
	for _, o := range ev.obls {
		if !o.ok {
			bad++
			fmt.Println("  obligation", o.kind, ev.pos(o.instr), o.cond)
		}
	}
	fmt.Println("obligations", len(ev.obls), "open", bad, "events", len(ev.events), "issues", sortedKeys(ev.issues))
	if os.Getenv("NNEVENTS") != "" {
		for _, e := range ev.events {
			fmt.Println("  event", e.kind, e.name, e.typ, e.args, e.res)
		}
	}
	fmt.Println(time.Since(t0))
}
