package main

// The command line: C27.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C27", "The partitions of main are evaluated for command lines with and without each option and for every language: which exit with which status, what they print, and what they hand to the parser of which file; the partitions of the function listing the input are checked to list every file.", ruleC27)
}

// initValues: constants the package initialisers store into variables, keyed
// by the term of the variable's initial content.
func (an *Analyzer) initValues(p *ssa.Package) map[*Term]*Term {
	out := map[*Term]*Term{}
	if p == nil || p.Func("init") == nil {
		return out
	}
	st := &State{heap: map[*Term]*Term{}, facts: newFacts(), an: an}
	for _, g := range p.Members {
		gl, ok := g.(*ssa.Global)
		if !ok || an.mutated[gl] == "" {
			continue
		}
		// not stored: zero
		t := gl.Type().(*types.Pointer).Elem()
		if s := structOf(t); s != nil {
			for i := 0; i < s.NumFields(); i++ {
				out[st.load(fieldAddr(an.globalAddr(gl), s.Field(i).Name()), s.Field(i).Type())] = zeroVal(s.Field(i).Type())
			}
		} else if _, ok := t.Underlying().(*types.Basic); ok {
			out[st.load(an.globalAddr(gl), t)] = zeroVal(t)
		}
	}
	for _, b := range p.Func("init").Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			c, ok := s.Val.(*ssa.Const)
			if !ok || c.Value == nil {
				continue
			}
			switch a := s.Addr.(type) {
			case *ssa.Global:
				out[st.load(an.globalAddr(a), c.Type())] = constTerm(c)
			case *ssa.FieldAddr:
				if g, ok := a.X.(*ssa.Global); ok {
					out[st.load(fieldAddr(an.globalAddr(g), fieldName(a.X.Type(), a.Field)), c.Type())] = constTerm(c)
				}
			}
		}
	}
	return out
}

type cmdline struct{ i, o, l, p string }

func (c cmdline) String() string { return fmt.Sprintf("-i %q -o %q -l %q -p %q", c.i, c.o, c.l, c.p) }

func ruleC27(an *Analyzer, r *Report) {
	r.rule("missing or unsupported option, failed listing or failed parse => exit status not zero and no word of being done")
	r.rule("otherwise => every listed file is parsed and the status is zero")
	r.rule("the options of every parser are those of the command line; no package name means schema")
	r.rule("every file below an input directory is listed")
	ex, err := an.mainExits()
	if err != nil {
		r.undecided("main: %v", err)
		return
	}
	fl := map[string]*Term{}
	for _, n := range []string{"i", "o", "l", "p", "h", "v"} {
		fl[n] = flagTerm(ex, n)
	}
	for _, n := range []string{"i", "o", "l", "p"} {
		if fl[n] == nil {
			r.violate("flags", "main/-"+n, "", "there is no option -%s", n)
			return
		}
	}
	inits := an.initValues(an.cmd)
	mk1 := func(cl cmdline) *conc {
		c := an.newConc()
		for k, v := range inits {
			c.m[k] = v
		}
		c.m[fl["i"]], c.m[fl["o"]], c.m[fl["l"]], c.m[fl["p"]] = cs(cl.i), cs(cl.o), cs(cl.l), cs(cl.p)
		for _, n := range []string{"h", "v"} {
			if t := fl[n]; t != nil {
				for _, e := range []types.Type{types.Typ[types.Bool]} {
					c.m[mk(t.Op, t.S, t.I, e, t.Args...)] = tFalse
				}
			}
		}
		return c
	}
	// without failures
	errFree := func(c *conc, x *Exit) {
		eachEvent(x.St.events, func(ev *Event, _ *Event) {
			if e := an.errTerm(ev); e != nil {
				c.m[e] = tNil
			}
		})
	}
	status := func(x *Exit) (int64, bool) {
		if x.Kind == "return" {
			return 0, true
		}
		if x.Kind == "panic" {
			return 2, true
		}
		if len(x.Res) == 1 {
			return x.Res[0].num()
		}
		return 0, false
	}
	printsDone := func(x *Exit) bool {
		d := false
		eachEvent(x.St.events, func(ev *Event, _ *Event) {
			if ev.Kind == "call" && (strings.HasPrefix(ev.Fn, "fmt.Print") || strings.HasPrefix(ev.Fn, "fmt.Fprint") || ev.Fn == "write") {
				for _, a := range ev.Args {
					walkTerm(a, func(t *Term) bool {
						if s, ok := t.str(); ok && strings.EqualFold(strings.TrimSpace(s), "done") {
							d = true
						}
						return !d
					})
				}
			}
		})
		return d
	}
	good := []cmdline{}
	for _, l := range langs {
		good = append(good, cmdline{"in", "dst", l, "pk"}, cmdline{"in/a.xsd", "d/e", l, ""}, cmdline{"In/A b.XSD", "D.go/E_f-g", l, "My.Pkg_Name-2"})
	}
	if main := an.cmd.Func("main"); main != nil {
		for _, w := range an.harvestOf(main).pathWords() {
			good = append(good, cmdline{"in/" + w, "dst", "Go", "p"}, cmdline{"in", "dst/" + w, "Go", "p"}, cmdline{"in", "dst", "Go", w}, cmdline{"in", "dst", "Go", "p" + w})
		}
	}
	bad := []cmdline{{"", "dst", "Go", "pk"}, {"in", "dst", "", "pk"}, {"", "dst", "", ""}, {"in", "dst", "Python", "pk"}, {"in", "dst", "go", ""}, {"in", "dst", "Typescript", ""}}
	for i := range ex {
		x := &ex[i]
		where := an.pos(x.Pos)
		st, ok := status(x)
		if !ok {
			r.undecided("main: exit status %s", showTerm(x.Res[0]))
			continue
		}
		r.count("partitions", 1)
		if st != 0 && printsDone(x) {
			r.violate("done", "main", where, "done is printed although the status is %d", st)
		}
		for _, cl := range bad {
			if c := mk1(cl); compatible(c, x.St.path) {
				r.count("command_lines", 1)
				if st == 0 || printsDone(x) {
					r.violate("bad options", "main/"+cl.String(), where, "the command line %s exits with status 0 or prints done", cl)
				}
			}
		}
		for _, cl := range good {
			c := mk1(cl)
			c0 := mk1(cl)
			errFree(c0, x)
			if !compatible(c, x.St.path) {
				continue
			}
			r.count("command_lines", 1)
			if st != 0 {
				if compatible(c0, x.St.path) {
					r.violate("good options", "main", where, "the command line %s exits with status %d although nothing failed: %s", cl, st, pathString(x.St.path))
				}
				continue
			}
			// success: nothing failed and everything was done
			an.cmdSuccess(r, x, c, cl, where)
		}
	}
	r.require(r.Counts["parsers"], "parser run by main")
	an.listing(r)
}

func (an *Analyzer) cmdSuccess(r *Report, x *Exit, c *conc, cl cmdline, where string) {
	var list *Term
	for _, ev := range x.St.events {
		if ev.Kind == "call" && ev.Fn == "xgen.GetFileList" {
			e := an.errTerm(ev)
			if x.St.facts.known(mkEq(e, tNil)) != 1 {
				r.violate("listing failure", "main", an.pos(ev.Pos), "the input cannot be listed and the status is zero")
			}
			if a, ok := c.eval(ev.Args[0]).str(); !ok || a != cl.i {
				r.violate("input", "main", an.pos(ev.Pos), "the input %s is listed instead of %q", showTerm(c.eval(ev.Args[0])), cl.i)
			}
			list = mk(OpRes, "", 0, ev0Type(ev, an), ev.Res)
		}
	}
	if list == nil {
		r.violate("input", "main", where, "the status is zero without listing the input when %s", pathString(x.St.path))
		return
	}
	done := false
	for _, ev := range x.St.events {
		if ev.Kind == "call" && ev.Fn == "xgen.Parse" {
			e := an.errTerm(ev)
			if x.St.facts.known(mkEq(e, tNil)) != 1 {
				r.violate("parse failure", "main", an.pos(ev.Pos), "a schema fails to process and the status is zero")
			}
		}
		if ev.Kind != "loop" {
			continue
		}
		over := ev.Loop.Over
		if over == nil || !isRes(stripSorted(over), list) {
			continue
		}
		parses := false
		for k, alt := range ev.Alts {
			n := 0
			fs, ok := x.St.facts.within(ev, k)
			for _, l := range ev.Guard[k] {
				if c.lit(l) == 0 {
					ok = false
				}
			}
			if !ok {
				continue
			}
			for _, y := range alt {
				if y.Kind != "call" || y.Fn != "xgen.Parse" {
					continue
				}
				n++
				parses = true
				r.count("parsers", 1)
				e := an.errTerm(y)
				if fs.known(mkEq(e, tNil)) != 1 && !failureRecorded(x, ev, e) {
					r.violate("parse failure", "main", an.pos(y.Pos), "a schema fails to process and the status is zero")
				}
				an.cmdOptions(r, y, c, cl, ev.Loop)
			}
			if n != 1 && !skipsNonSchema(ev.Guard[k]) {
				r.violate("every file", "main", an.pos(ev.Loop.Pos), "a listed file is parsed %d times when %s", n, pathString(ev.Guard[k]))
			}
		}
		if parses {
			done = true
			if !ev.Loop.Full {
				r.violate("every file", "main", an.pos(ev.Loop.Pos), "not every listed file is parsed")
			}
			if cutLoop(ev, x) {
				r.violate("every file", "main", where, "the status is zero before every listed file was parsed")
			}
		}
	}
	if !done {
		r.violate("every file", "main", where, "the status is zero without parsing the listed files when %s", pathString(x.St.path))
	}
}

// failureRecorded: the loop remembers that a parse failed, and the partition
// excludes it.
func failureRecorded(x *Exit, loop *Event, e *Term) bool {
	for _, l := range x.St.path {
		h := false
		walkTerm(l.A, func(t *Term) bool {
			if t.Op == OpFold && t.S == loop.Loop.ID {
				for _, a := range t.Args[2:] {
					for _, g := range a.Args {
						if contains(g, e) {
							h = true
						}
					}
				}
			}
			return true
		})
		if h {
			return true
		}
	}
	return false
}

func skipsNonSchema(g []Lit) bool {
	for _, l := range g {
		s := l.A.String()
		if !l.V && strings.Contains(strings.ToLower(s), ".xsd") || l.V && strings.Contains(s, "IsDir") {
			return true
		}
	}
	return false
}

func ev0Type(ev *Event, an *Analyzer) types.Type {
	if f := an.byRole["GetFileList"]; f != nil {
		return f.Signature.Results().At(0).Type()
	}
	return nil
}

func isRes(t, res *Term) bool {
	return t == res || t.Op == OpRes && t.Args[0] == res.Args[0] && t.I == res.I
}

func stripSorted(t *Term) *Term {
	for t.Op == OpSorted {
		t = t.Args[0]
	}
	return t
}

func (an *Analyzer) cmdOptions(r *Report, ev *Event, c *conc, cl cmdline, li *LoopInfo) {
	want := map[string]string{"InputDir": cl.i, "OutputDir": cl.o, "Lang": cl.l, "Package": cl.p}
	if cl.p == "" {
		want["Package"] = "schema"
	}
	for _, n := range []string{"InputDir", "OutputDir", "Lang", "Package"} {
		v := c.eval(ev.Snap[n])
		r.count("options_checked", 1)
		if s, ok := v.str(); !ok || s != want[n] {
			if n == "Package" && cl.p == "" && v == tEmpty {
				continue // the generators take schema themselves
			}
			if !ok && v.Op == OpHavoc {
				r.undecided("main: %s is %s", n, showTerm(v))
				continue
			}
			r.violate("options", "main/"+n, an.pos(ev.Pos), "for %s the parser's %s is %s instead of %q", cl, n, showTerm(v), want[n])
		}
	}
	elem := mkElem(li.Over, mk(OpIter, li.ID, 0, nil), nil)
	fp := ev.Snap["FilePath"]
	if fp != elem && !(fp.Op == OpElem && isIterOf(fp, li)) {
		r.violate("options", "main/FilePath", an.pos(ev.Pos), "the parser reads %s instead of the listed file", showTerm(fp))
	}
	if x := c.eval(ev.Snap["Extract"]); x != tFalse {
		r.violate("options", "main/Extract", an.pos(ev.Pos), "the parser only extracts: %s", showTerm(x))
	}
}

func isIterOf(t *Term, li *LoopInfo) bool {
	x, _ := lin(t.Args[1])
	return x != nil && x.Op == OpIter && x.S == li.ID && stripSorted(t.Args[0]) == stripSorted(li.Over)
}

// listing: GetFileList lists every file.
func (an *Analyzer) listing(r *Report) {
	f := an.byRole["GetFileList"]
	if f == nil {
		return
	}
	ex, err := an.root(f)
	if err != nil {
		r.undecided("%s: %v", f.Name(), err)
		return
	}
	path := sym(f.Params[0].Name(), f.Params[0].Type())
	for i := range ex {
		x := &ex[i]
		if !an.succeeds(x) {
			continue
		}
		r.count("listings", 1)
		isDir := -1
		for _, l := range x.St.path {
			if l.A.Op == OpApp && strings.HasSuffix(l.A.S, ".IsDir") {
				isDir = 0
				if l.V {
					isDir = 1
				}
			}
		}
		if isDir != 1 && !contains(x.Res[0], path) {
			r.violate("listing", f.Name(), an.pos(x.Pos), "an input that is a file is not listed when %s", pathString(x.St.path))
		}
		if isDir != 0 {
			var walk *Event
			eachEvent(x.St.events, func(ev *Event, _ *Event) {
				if ev.Kind == "call" && (ev.Fn == "path/filepath.Walk" || ev.Fn == "path/filepath.WalkDir") {
					walk = ev
				}
			})
			if walk == nil {
				if isDir == 1 {
					r.undecided("%s: how directories are listed", f.Name())
				}
				continue
			}
			if !contains(walk.Args[0], path) {
				r.violate("listing", f.Name(), an.pos(walk.Pos), "%s is walked instead of the input", showTerm(walk.Args[0]))
			}
			an.walker(r, f, walk.Args[1])
		}
	}
}

func (an *Analyzer) walker(r *Report, f *ssa.Function, t *Term) {
	if t.Op != OpClosure && t.Op != OpFn {
		r.undecided("%s: callback %s", f.Name(), showTerm(t))
		return
	}
	w := t.X.(*ssa.Function)
	ex, err := an.root(w)
	if err != nil || len(w.Params) < 2 {
		r.undecided("%s: %v", w.Name(), err)
		return
	}
	p := sym(w.Params[0].Name(), w.Params[0].Type())
	for i := range ex {
		x := &ex[i]
		if x.Kind != "return" {
			continue
		}
		res := x.Res[0]
		if strings.Contains(res.String(), "Skip") {
			dirOnly := false
			for _, l := range x.St.path {
				if strings.Contains(l.A.String(), w.Params[0].Name()) {
					dirOnly = true
				}
			}
			_ = dirOnly
			r.violate("listing", w.Name()+"/skip", an.pos(x.Pos), "a part of the input directory is skipped when %s", pathString(x.St.path))
			continue
		}
		if !an.succeeds(x) {
			continue
		}
		r.count("listings", 1)
		listed := false
		for a, v := range x.St.heap {
			if rootOf(a).Op != OpObj && contains(v, p) {
				listed = true
			}
		}
		for _, ev := range x.St.events {
			if ev.Kind == "store" && contains(ev.Args[1], p) || ev.Kind == "push" || ev.Kind == "mapput" && contains(ev.Args[1], p) {
				listed = true
			}
		}
		if !listed && !skipsNonSchema(x.St.path) {
			r.violate("listing", w.Name(), an.pos(x.Pos), "a file below the input directory is not listed when %s", pathString(x.St.path))
		}
	}
}
