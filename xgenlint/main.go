package main

import (
	"fmt"
	"os"
	"time"
)

func main() {
	t0 := time.Now()
	dir := os.Getenv("XGEN_REPO")
	if dir == "" {
		dir = "/repo"
	}
	an, err := load(dir)
	if len(os.Args) > 2 && os.Args[1] == "check" {
		status := 0
		for _, id := range os.Args[2:] {
			found := false
			for _, c := range checks {
				if c.ID == id || id == "all" {
					found = true
					t := time.Now()
					if len(os.Args) == 3 && id != "all" {
						t = t0
					}
					if finish(c, an, runCheck(c, an, err), t) != 0 {
						status = 1
					}
				}
			}
			if !found {
				fmt.Println("no check", id)
				status = 1
			}
		}
		os.Exit(status)
	}
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	fmt.Println("loaded", time.Since(t0), len(an.funcs), len(tables), an.optionsMod, an.handlerMod, an.stackElems, an.notes)
	if len(os.Args) > 1 && os.Args[1] == "all" {
		for _, f := range an.funcs {
			t := time.Now()
			ex, err := an.root(f)
			ev, hz := 0, 0
			for _, e := range ex {
				ev += len(e.St.events)
				for _, x := range e.St.events {
					if x.Kind == "hazard" {
						hz++
					}
				}
			}
			fmt.Println(f.Name(), len(ex), err, "events", ev, "hazards", hz, time.Since(t).Round(time.Millisecond))
		}
	}
	if len(os.Args) > 1 && os.Args[1] == "hz" {
		for _, f := range an.funcs {
			ex, _ := an.root(f)
			seen := map[string]bool{}
			for _, e := range ex {
				eachEvent(e.St.events, func(ev, in *Event) {
					if ev.Kind == "hazard" {
						k := an.pos(ev.Pos) + " " + ev.Note + " " + fmt.Sprint(ev.Args)
						if !seen[k] {
							seen[k] = true
							fmt.Println(f.Name(), k)
							fmt.Println("      ", in != nil, e.St.path[:min(ev.Depth, len(e.St.path))])
						}
					}
				})
			}
		}
	}
	if len(os.Args) > 2 && os.Args[1] == "dump" {
		for _, f := range an.funcs {
			if f.Name() == os.Args[2] {
				an.dump(f)
			}
		}
	}
	if len(os.Args) > 2 && os.Args[1] == "tmpl" {
		for _, f := range an.funcs {
			if f.Name() == os.Args[2] {
				an.dumpTemplates(f)
			}
		}
	}
	if len(os.Args) > 1 && os.Args[1] == "inst" {
		t := time.Now()
		for _, l := range langs {
			fmt.Println(l, len(an.builtins(l)), an.builtins(l)["string"], an.builtins(l)["time"], an.builtinTable(l) != nil)
		}
		for _, e := range an.emitters() {
			bad := map[string]int{}
			for _, in := range e.Insts {
				if in.Err != nil {
					bad[in.Err.Error()]++
				}
			}
			fmt.Println(e.name(), e.err, len(e.exits), len(e.Insts), len(e.Silent), e.Odd, bad)
			if len(os.Args) > 2 && e.name() == os.Args[2] {
				for _, in := range e.Insts {
					fmt.Printf("   %d %s twice=%v\n%s\n  err=%v\n", in.Exit, in.desc(), in.Twice, in.text(), in.Err)
				}
			}
		}
		fmt.Println(time.Since(t))
	}
	fmt.Println(time.Since(t0))
}
