package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// root analyses fn with symbolic parameters.
func (an *Analyzer) root(fn *ssa.Function) (exits []Exit, err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(undecided); ok {
				err = u
				return
			}
			panic(r)
		}
	}()
	st := &State{heap: map[*Term]*Term{}, facts: newFacts(), an: an}
	var args, binds []*Term
	for _, p := range fn.Params {
		args = append(args, sym(p.Name(), p.Type()))
	}
	for _, p := range fn.FreeVars {
		binds = append(binds, sym("free:"+p.Name(), p.Type()))
	}
	return an.exec(fn, args, binds, st, nil, fn.Name()), nil
}

func (an *Analyzer) dump(f *ssa.Function) {
	ex, err := an.root(f)
	fmt.Println("==", f, len(ex), err)
	for i, e := range ex {
		fmt.Printf("-- exit %d %s %s\n", i, e.Kind, an.pos(e.Pos))
		for _, l := range e.St.path {
			fmt.Println("   if", l)
		}
		for _, ev := range e.St.events {
			if ev.Kind == "proved" {
				continue
			}
			fmt.Println("   ev", ev)
			for k, alt := range ev.Alts {
				fmt.Println("      alt", k, ev.Guard[k])
				for _, x := range alt {
					fmt.Println("         ", x)
				}
			}
		}
		for a, v := range e.St.heap {
			if rootOf(a).Op != OpObj {
				fmt.Println("   ", a, ":=", v)
			}
		}
		for _, r := range e.Res {
			fmt.Println("   ret", r)
		}
	}
}

func (an *Analyzer) dumpTemplates(f *ssa.Function) {
	ex, err := an.root(f)
	fmt.Println("==", f, len(ex), err)
	gen := sym(f.Params[0].Name(), f.Params[0].Type())
	fa := fieldAddr(gen, "Field")
	seen := map[string]bool{}
	for _, e := range ex {
		v := e.St.heap[fa]
		if v == nil {
			fmt.Println("  - no emission", e.Kind, e.St.path)
			continue
		}
		s := ""
		for _, l := range e.St.path {
			s += "[" + an.showHole(litTerm(l)) + "]"
		}
		s += "\n     " + an.showTemplate(an.template(v), "     ")
		if !seen[s] {
			fmt.Println("  - " + s)
		}
		seen[s] = true
	}
}
