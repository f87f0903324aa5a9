package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// initGlobals interprets the package initialiser once to learn the contents of
// package variables.
func (p *Prog) initGlobals() {
	e := NewEngine(p)
	e.inInit = true
	e.hooks = append(e.hooks, func(c *Call) ([]Out, bool) {
		if c.fn != nil && c.fn.Name() == "init" && c.fn.Pkg != p.Pkg {
			return c.ret(nil), true
		}
		return nil, false
	})
	st := newState()
	st.heap["G:"+p.Pkg.Var("init$guard").String()] = Obj{elemType(p.Pkg.Var("init$guard").Type()), VBool(false)}
	for _, m := range p.Pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			T := elemType(g.Type())
			st.heap["G:"+g.String()] = Obj{T, zero(T)}
		}
	}
	for n := range st.heap {
		e.roots[n] = true
	}
	outs := e.run(p.Pkg.Func("init"), nil, nil, st)
	if len(outs) != 1 {
		p.initUnd = append(p.initUnd, fmt.Sprintf("package initialiser has %d outcomes", len(outs)))
		return
	}
	p.base = outs[0].st.heap
	p.basef = outs[0].st.facts
	for u := range e.undec {
		p.initUnd = append(p.initUnd, u)
	}
	sort.Strings(p.initUnd)
}

func (e *Engine) state() *State {
	s := newState()
	s.base, s.basef = e.p.base, e.p.basef
	return s
}

func debugFn(p *Prog, name string) {
	for fn := range p.All {
		if fn.RelString(p.Types) != name {
			continue
		}
		e := NewEngine(p)
		e.debug = os.Getenv("DBG")
		st := e.state()
		var args []Value
		for _, q := range fn.Params {
			v := st.mk(q.Type(), "§"+q.Name())
			if u, ok := v.(VUnk); ok && os.Getenv("NIL") == "" {
				st.setFact(u.ID, Fact{Nil: 2})
			}
			args = append(args, v)
		}
		for _, o := range e.run(fn, args, nil, st) {
			fmt.Printf("RETURN %s\n%s\n", vkey(o.v), o.st)
		}
		for _, k := range sortedKeys(e.undec) {
			fmt.Println("UNDECIDED", k)
		}
		for _, k := range sortedKeys(e.oblig) {
			o := e.oblig[k]
			if !o.Met {
				fmt.Println("UNMET", o.Rule, o.Fn, o.Pos, o.What, o.Detail)
			}
		}
		fmt.Println("steps", e.Steps, "joins", e.Joins)
	}
}

func main() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(8 << 30)
	if len(os.Args) >= 3 && os.Args[1] == "check" {
		os.Exit(runCheck(os.Args[2], repoDir()))
	}
	p, err := Load(repoDir())
	if err != nil {
		panic(err)
	}
	p.initGlobals()
	for _, u := range p.initUnd {
		fmt.Println("INIT", u)
	}
	if os.Args[1] == "debug" {
		debugFn(p, os.Args[2])
	}
	if os.Args[1] == "globals" {
		for _, k := range sortedKeys(p.base) {
			fmt.Println(k, strings.TrimSpace(vkey(p.base[k].V)))
		}
	}
}

func repoDir() string {
	if d := os.Getenv("ICS_REPO"); d != "" {
		return d
	}
	return "/repo"
}
