package main

// Rules about effects, errors and resources: C15, C16, C26, C28, C29, C30, C33.

import (
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C15", "Every function the parser or the generators can reach is searched for sources of nondeterminism; every loop over a map is summarised, and what it produces must be insensitive to the order of iteration or sorted by a total order before it is used; generators may not read state left by earlier runs.", ruleC15)
	register("C16", "For every function of the library that can fail and every partition of it, each fallible call on the partition must be known to have succeeded, or the partition must return an error; successful partitions of Parse must have seen the decoder report the end of the document.", ruleC16)
	register("C26", "Every call out of the module that the library can reach is compared with the effects the library may have; calls that create directories or files must name its own output.", ruleC26)
	register("C28", "Every partition in which a file was opened must close that file.", ruleC28)
	register("C29", "The text each generator's successful partitions write must begin with the identifying comment, followed in Go and Java by the clause of the requested package, or of schema when none is.", ruleC29)
	register("C30", "Whenever a partition reads a token from an XML decoder, the decoder must hold a character-set reader that decodes by the declared label.", ruleC30)
	register("C33", "The output path Parse gives its generator is evaluated for representative layouts of input and output trees and must equal the output location joined with the path below the input root; its directory must be prepared before the generator runs; the generator's file name is that path plus the extension.", ruleC33)
}

// libFuncs: the functions the library's entry points can reach.
func (an *Analyzer) libFuncs() []*ssa.Function {
	if an.libCache != nil {
		return an.libCache
	}
	seen := map[*ssa.Function]bool{}
	var work []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] && an.inModule(f) {
			seen[f] = true
			work = append(work, f)
		}
	}
	for _, f := range an.funcs {
		if f.Pkg != an.xgen || f.Parent() != nil || f.Signature.Recv() == nil {
			continue
		}
		p, ok := f.Signature.Recv().Type().(*types.Pointer)
		if ok && (types.Identical(p.Elem(), an.optType) || types.Identical(p.Elem(), an.genType)) {
			add(f)
		}
	}
	add(an.byRole["GetFileList"])
	add(an.xgen.Func("NewParser"))
	addType := func(t types.Type) {
		ms := an.prog.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			add(an.prog.MethodValue(ms.At(i)))
		}
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops [12]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if o == nil || *o == nil {
						continue
					}
					if g, ok := (*o).(*ssa.Function); ok {
						add(g)
						if g.Synthetic != "" && an.inModule(g) {
							add(g)
						}
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					add(mc.Fn.(*ssa.Function))
				}
				if mi, ok := in.(*ssa.MakeInterface); ok {
					t := mi.X.Type()
					n, _ := t.(*types.Named)
					if p, ok := t.(*types.Pointer); ok {
						n, _ = p.Elem().(*types.Named)
					}
					if n != nil && n.Obj().Pkg() == an.xgen.Pkg {
						addType(t)
					}
				}
			}
		}
	}
	for _, f := range an.funcs {
		if seen[f] {
			an.libCache = append(an.libCache, f)
		}
	}
	return an.libCache
}

// extRef is a reference from the module to a function outside it.
type extRef struct {
	in    *ssa.Function
	name  string
	pos   token.Pos
	call  bool
	instr ssa.Instruction
}

func (an *Analyzer) externals(fs []*ssa.Function) (out []extRef) {
	for _, f := range fs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				pos := in.Pos()
				if ci, ok := in.(ssa.CallInstruction); ok {
					cc := ci.Common()
					if cc.IsInvoke() {
						out = append(out, extRef{f, "(" + typeKey(cc.Value.Type()) + ")." + cc.Method.Name(), pos, true, in})
					} else if g := cc.StaticCallee(); g == nil {
						if _, ok := cc.Value.(*ssa.Builtin); !ok {
							out = append(out, extRef{f, "dynamic", pos, true, in})
						}
					}
				}
				var ops [12]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if o == nil || *o == nil {
						continue
					}
					g, ok := (*o).(*ssa.Function)
					if !ok || an.inModule(g) {
						continue
					}
					if g.Origin() != nil {
						g = g.Origin()
					}
					out = append(out, extRef{f, strings.TrimSuffix(strings.TrimSuffix(g.String(), "$bound"), "$thunk"), pos, true, in})
				}
			}
		}
	}
	return out
}

// ---- C15

// nondeterministic functions
var ndetFns = []string{"time.Now", "time.Since", "time.Until", "time.Tick", "time.After", "time.NewTimer", "math/rand.", "(*math/rand.", "math/rand/v2.", "crypto/rand.", "hash/maphash.", "(*hash/maphash.", "os.Getenv", "os.LookupEnv", "os.Environ", "os.ExpandEnv", "os.Getpid", "os.Getppid", "os.Getuid", "os.Geteuid", "os.Getgid", "os.Hostname", "os.Getwd", "os.TempDir", "os.MkdirTemp", "os.CreateTemp", "os.UserHomeDir", "os.Executable", "os.Getpagesize", "io/ioutil.TempDir", "io/ioutil.TempFile", "runtime.", "os/user.", "(reflect.Value).Pointer", "(reflect.Value).UnsafePointer", "(reflect.Value).UnsafeAddr", "(reflect.Value).MapRange", "(reflect.Value).MapKeys", "(io/fs.FileInfo).ModTime", "(os.FileInfo).ModTime", "flag.", "maps.Keys", "maps.Values", "maps.All", "(*sync.Map).Range", "debug/", "runtime/debug."}

func matches(name string, list []string) bool {
	for _, p := range list {
		if name == p || (strings.HasSuffix(p, ".") || strings.HasSuffix(p, "/")) && strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// startsEmpty: a file opened for writing is cut to nothing, or new.
func (an *Analyzer) startsEmpty(r *Report, f *ssa.Function, x *Exit, ev *Event) {
	fl, ok := ev.Args[1].num()
	if !ok {
		r.undecided("%s: flags %s of os.OpenFile", f.Name(), showTerm(ev.Args[1]))
		return
	}
	if int(fl)&(os.O_WRONLY|os.O_RDWR) == 0 || int(fl)&(os.O_TRUNC|os.O_EXCL) != 0 {
		return
	}
	emptied := false
	eachEvent(x.St.events, func(e *Event, _ *Event) {
		if e.Kind == "call" && (e.Fn == "(*os.File).Truncate" || e.Fn == "os.Truncate" || e.Fn == "os.Remove") {
			emptied = true
		}
	})
	if !emptied && an.succeeds(x) {
		r.violate("left over", f.Name()+"/"+shortFn(ev.Fn), an.pos(ev.Pos), "%s writes over, or behind, what an earlier run left in the file", f.Name())
	}
}

func ruleC15(an *Analyzer, r *Report) {
	r.rule("no function of the library uses time, randomness, the environment, the process, addresses, goroutines or channels")
	r.rule("what a loop over a map produces does not depend on the order of iteration, or is sorted by a total order before use")
	r.rule("state left by earlier runs in package variables is not read")
	r.rule("files written start empty: what an earlier run left in them does not survive")
	lib := an.libFuncs()
	r.count("functions", len(lib))
	for _, x := range an.externals(lib) {
		r.count("external_references", 1)
		if matches(x.name, ndetFns) {
			r.violate("source", x.in.Name()+"/"+x.name, an.pos(x.pos), "%s uses %s, whose result differs between runs", x.in.Name(), x.name)
		}
		if strings.HasPrefix(x.name, "fmt.") {
			if ci, ok := x.instr.(ssa.CallInstruction); ok {
				for _, a := range ci.Common().Args {
					if c, ok := a.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String && strings.Contains(constant.StringVal(c.Value), "%p") {
						r.violate("source", x.in.Name()+"/%p", an.pos(x.pos), "%s formats an address", x.in.Name())
					}
				}
			}
		}
	}
	for _, f := range lib {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch y := in.(type) {
				case *ssa.Go, *ssa.Select, *ssa.Send, *ssa.MakeChan:
					r.violate("source", f.Name()+"/concurrency", an.pos(in.Pos()), "%s runs concurrently with what it produces", f.Name())
				case *ssa.Convert:
					if bt, ok := y.Type().Underlying().(*types.Basic); ok && (bt.Kind() == types.Uintptr || bt.Kind() == types.UnsafePointer) {
						r.violate("source", f.Name()+"/address", an.pos(in.Pos()), "%s uses an address as a number", f.Name())
					}
				}
			}
		}
	}
	sorted := map[*ssa.Function]bool{}
	for _, f := range lib {
		if len(f.Blocks) == 0 {
			continue
		}
		n := 0
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if rg, ok := in.(*ssa.Range); ok {
					if _, isMap := rg.X.Type().Underlying().(*types.Map); isMap {
						n++
					}
				}
			}
		}
		r.count("map_ranges", n)
		ex, err := an.root(f)
		if err != nil {
			r.undecided("%s: %v", f.Name(), err)
			continue
		}
		for i := range ex {
			an.orderFree(r, f, &ex[i])
			eachEvent(ex[i].St.events, func(ev *Event, _ *Event) {
				if ev.Kind == "call" && ev.Fn == "os.OpenFile" {
					an.startsEmpty(r, f, &ex[i], ev)
				}
				if ev.Kind == "sort" {
					an.totalOrder(r, f, ev, sorted)
				}
			})
		}
	}
	// state left by earlier runs
	for g, where := range an.mutated {
		if g.Pkg != an.xgen {
			continue
		}
		r.count("mutable_globals", 1)
		an.freshGlobal(r, g, where)
	}
}

// orderFree: a partition's outcome does not depend on the order of maps.
func (an *Analyzer) orderFree(r *Report, f *ssa.Function, x *Exit) {
	ids := map[string]bool{}
	eachEvent(x.St.events, func(ev *Event, _ *Event) {
		if ev.Kind == "loop" && an.isMapLoop(ev) {
			ids[ev.Loop.ID] = true
		}
	})
	sortedLists := map[*Term]bool{}
	bare := func(t *Term) *Term {
		for t.Op == OpIface || t.Op == OpConv || t.Op == OpSorted {
			t = t.Args[0]
		}
		return t
	}
	eachEvent(x.St.events, func(ev *Event, _ *Event) {
		if ev.Kind == "sort" {
			sortedLists[bare(ev.Args[0])] = true
		}
		if ev.Kind != "loop" || !ids[ev.Loop.ID] && !(overUnsorted(ev.Loop, ids) && !sortedLists[bare(ev.Loop.Over)]) {
			return
		}
		if !ids[ev.Loop.ID] {
			ids[ev.Loop.ID] = true // what it produces is in that order as well
		}
		r.count("map_loops", 1)
		id := ev.Loop.ID
		where := an.pos(ev.Loop.Pos)
		construct := f.Name() + "/" + funcOfLoop(ev.Loop)
		for _, alt := range ev.Alts {
			for _, y := range alt {
				switch y.Kind {
				case "maprange", "proved", "pcall", "hazard", "mapput", "mapdelete", "store", "sort", "push":
					if y.Kind == "push" {
						r.violate("map order", construct, where, "values are pushed in the order of a map's iteration")
					}
					if y.Kind == "mapput" && !keyed(y.Args[1], ev.Loop) {
						r.violate("map order", construct, where, "entries are written under %s in the order of a map's iteration", showTerm(y.Args[1]))
					}
				case "call":
					if readOnly(y.Fn) {
						continue
					}
					r.violate("map order", construct, where, "%s runs in the order of a map's iteration", shortFn(y.Fn))
				}
			}
		}
		uses := func(t *Term) *Term {
			var bad *Term
			walkTerm(t, func(y *Term) bool {
				if bad != nil || y.Op == OpSorted || y.Op == OpLen {
					return false
				}
				if (y.Op == OpRep || y.Op == OpListRep) && y.S == id {
					bad = y
					return false
				}
				if y.Op == OpFold && y.S == id && !commutes(y) {
					bad = y
					return false
				}
				return true
			})
			return bad
		}
		bad := func(t *Term, what string) {
			if t == nil {
				return
			}
			if b := uses(t); b != nil {
				r.violate("map order", construct, where, "%s depends on the order of a map's iteration: %s", what, showTerm(b))
			}
		}
		for _, v := range x.Res {
			bad(v, "the result of "+f.Name())
		}
		for a, v := range x.St.heap {
			if rootOf(a).Op != OpObj {
				bad(v, "the state "+f.Name()+" leaves")
			}
		}
		eachEvent(x.St.events, func(y *Event, _ *Event) {
			if y.Kind == "call" {
				for _, a := range y.Args {
					bad(a, "an argument of "+shortFn(y.Fn))
				}
			}
			for n, v := range y.Snap {
				bad(v, n+" in a call of "+shortFn(y.Fn))
			}
		})
		if cutLoop(ev, x) || mapCut(ev, x) {
			it := func(t *Term) bool {
				h := false
				walkTerm(t, func(y *Term) bool {
					if (y.Op == OpKey || y.Op == OpVal || y.Op == OpIter) && strings.HasPrefix(y.S, id) {
						h = true
					}
					return !h
				})
				return h
			}
			for _, v := range x.Res {
				if it(v) {
					r.violate("map order", construct, where, "the first entry of a map's iteration that qualifies is taken: %s", showTerm(v))
				}
			}
			for a, v := range x.St.heap {
				if rootOf(a).Op != OpObj && it(v) {
					r.violate("map order", construct, where, "the first entry of a map's iteration that qualifies is taken: %s", showTerm(v))
				}
			}
		}
	})
}

func funcOfLoop(li *LoopInfo) string {
	if li.fn != nil {
		return li.fn.Name()
	}
	return "loop"
}

func (an *Analyzer) isMapLoop(ev *Event) bool {
	if ev.Loop.Kind == "map" {
		return true
	}
	for _, g := range ev.Guard {
		for _, l := range g {
			if l.A.Op == OpOk && strings.HasSuffix(l.A.S, "|map") && strings.HasPrefix(l.A.S, ev.Loop.ID+"|") {
				return true
			}
		}
	}
	return false
}

// overUnsorted: a loop over a list in the order of one of the given loops.
func overUnsorted(li *LoopInfo, ids map[string]bool) bool {
	bad := false
	if li.Over != nil {
		walkTerm(li.Over, func(y *Term) bool {
			if y.Op == OpSorted || y.Op == OpLen {
				return false
			}
			if y.Op == OpListRep && ids[y.S] {
				bad = true
			}
			return !bad
		})
	}
	return bad
}

// mapCut: the partition left a loop over a map before its end.
func mapCut(ev *Event, x *Exit) bool {
	for _, l := range x.St.path {
		if l.V && l.A.Op == OpOk && strings.HasPrefix(l.A.S, ev.Loop.ID+"|") {
			return true
		}
	}
	return false
}

// keyed: a different key for every iteration.
func keyed(k *Term, li *LoopInfo) bool {
	for k.Op == OpConv || k.Op == OpIface {
		k = k.Args[0]
	}
	return k.Op == OpKey && strings.HasPrefix(k.S, li.ID)
}

// readOnly: external functions that only look.
func readOnly(fn string) bool {
	return matches(fn, []string{"os.Stat", "os.Lstat", "(reflect.Value).", "(reflect.Type)."})
}

// commutes: the order in which the alternatives of a fold are applied does
// not change its value.
func commutes(f *Term) bool {
	lv := f.Args[1]
	for _, a := range f.Args[2:] {
		v := a.Args[0]
		if v == lv {
			continue
		}
		// the guard must not look at the accumulated value, unless every
		// alternative stores the same constant
		dep := false
		for _, g := range a.Args[1:] {
			if contains(g, lv) {
				dep = true
			}
		}
		if v.isConst() {
			same := true
			for _, b := range f.Args[2:] {
				if w := b.Args[0]; w != lv && w != v {
					same = false
				}
			}
			if !same {
				return false
			}
			continue
		}
		if dep {
			return false
		}
		switch {
		case v.Op == OpAdd && v.Args[0] == lv:
		case v.Op == OpArith && (v.S == "+" || v.S == "*" || v.S == "|" || v.S == "&" || v.S == "^") && !isStringTerm(v):
			n := 0
			for _, y := range v.Args {
				if contains(y, lv) {
					n++
					if y != lv {
						return false
					}
				}
			}
			if n != 1 {
				return false
			}
		case v.Op == OpMapPut && v.Args[0] == lv && v.Args[1].Op == OpKey && strings.HasPrefix(v.Args[1].S, f.S) && !contains(v.Args[2], lv):
		default:
			return false
		}
	}
	return true
}

// totalOrder: what is sorted is ordered totally, so that the result does not
// depend on the order of the input.
func (an *Analyzer) totalOrder(r *Report, f *ssa.Function, ev *Event, done map[*ssa.Function]bool) {
	r.count("sorts", 1)
	var less *ssa.Function
	fromMap := false
	l := ev.Args[0]
	walkTerm(l, func(t *Term) bool {
		if t.Op == OpKey || t.Op == OpVal {
			fromMap = true
		}
		return true
	})
	if !fromMap {
		return // the order of the input is fixed
	}
	switch ev.Fn {
	case "sort.Strings", "sort.Ints", "slices.Sort":
		return
	case "sort.Sort", "sort.Stable":
		if l.Op != OpIface {
			r.undecided("%s sorts %s", f.Name(), showTerm(l))
			return
		}
		sel := an.prog.MethodSets.MethodSet(l.T).Lookup(an.xgen.Pkg, "Less")
		if sel == nil {
			sel = an.prog.MethodSets.MethodSet(l.T).Lookup(nil, "Less")
		}
		if sel != nil {
			less = an.prog.MethodValue(sel)
		}
		if less != nil && !an.inModule(less) {
			if n, ok := l.T.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sort" {
				return // StringSlice and the like
			}
		}
	default:
		if len(ev.Args) > 1 {
			c := ev.Args[1]
			if c.Op == OpClosure || c.Op == OpFn {
				less, _ = c.X.(*ssa.Function)
			}
		}
	}
	if less == nil || less.Blocks == nil {
		r.undecided("%s: order of %s", f.Name(), ev.Fn)
		return
	}
	if done[less] {
		return
	}
	done[less] = true
	ex, err := an.root(less)
	if err != nil {
		r.undecided("%s: %v", less.Name(), err)
		return
	}
	n := len(less.Params)
	if n < 2 {
		r.undecided("%s: not a comparison", less.Name())
		return
	}
	i, j := sym(less.Params[n-2].Name(), less.Params[n-2].Type()), sym(less.Params[n-1].Name(), less.Params[n-1].Type())
	// the elements compared
	ei, ej := map[*Term]bool{}, map[*Term]bool{}
	collect := func(t *Term) {
		walkTerm(t, func(y *Term) bool {
			if y.Op == OpElem && y.Args[1] == i || y == i {
				ei[y] = true
			}
			if y.Op == OpElem && y.Args[1] == j || y == j {
				ej[y] = true
			}
			return y.Op != OpElem
		})
	}
	for k := range ex {
		for _, l := range ex[k].St.path {
			collect(l.A)
		}
		for _, v := range ex[k].Res {
			collect(v)
		}
	}
	var et types.Type
	for t := range ei {
		if t.T != nil && t != i {
			et = t.T
		}
	}
	if et == nil && !types.Identical(less.Params[n-1].Type(), types.Typ[types.Int]) {
		et = less.Params[n-1].Type()
	}
	if et == nil {
		if l.Op == OpIface {
			if sl, ok := l.T.Underlying().(*types.Slice); ok {
				et = sl.Elem()
			}
		} else if l.T != nil {
			if sl, ok := l.T.Underlying().(*types.Slice); ok {
				et = sl.Elem()
			}
		}
	}
	dom := domain(et)
	if dom == nil {
		r.undecided("%s: elements of type %v", less.Name(), et)
		return
	}
	val := make([][]bool, len(dom))
	for a := range dom {
		val[a] = make([]bool, len(dom))
		for b := range dom {
			c := an.newConc()
			for t := range ei {
				c.m[t] = dom[a]
			}
			for t := range ej {
				c.m[t] = dom[b]
			}
			res := -1
			for k := range ex {
				ok := ex[k].Kind == "return"
				for _, l := range ex[k].St.path {
					if c.lit(l) != 1 {
						ok = false
					}
				}
				if !ok {
					continue
				}
				v := c.eval(ex[k].Res[0])
				if bv, isB := v.boolean(); isB {
					res = 0
					if bv {
						res = 1
					}
				} else if num, isN := v.num(); isN { // three-way comparison
					res = 0
					if num < 0 {
						res = 1
					}
				}
			}
			if res < 0 {
				r.undecided("%s: comparing %s and %s", less.Name(), dom[a], dom[b])
				return
			}
			val[a][b] = res == 1
			r.count("comparisons", 1)
		}
	}
	where := an.pos(less.Pos())
	for a := range dom {
		for b := range dom {
			if a != b && val[a][b] == val[b][a] {
				r.violate("total order", less.Name(), where, "the order of %s and %s is not fixed, so it follows the order of a map's iteration", dom[a], dom[b])
				return
			}
			for c := range dom {
				if val[a][b] && val[b][c] && !val[a][c] {
					r.violate("total order", less.Name(), where, "the order is not transitive: %s, %s, %s", dom[a], dom[b], dom[c])
					return
				}
			}
		}
	}
}

// domain lists a few values of a type.
func domain(t types.Type) []*Term {
	if t == nil {
		return nil
	}
	if s := structOf(t); s != nil {
		out := [][]*Term{nil}
		for i := 0; i < s.NumFields(); i++ {
			d := domain(s.Field(i).Type())
			if d == nil {
				return nil
			}
			var nx [][]*Term
			for _, o := range out {
				for _, v := range d {
					nx = append(nx, append(append([]*Term{}, o...), v))
				}
			}
			out = nx
			if len(out) > 64 {
				return nil
			}
		}
		var ts []*Term
		for _, o := range out {
			ts = append(ts, mkStruct(t, o))
		}
		return ts
	}
	b, ok := t.Underlying().(*types.Basic)
	switch {
	case ok && b.Info()&types.IsString != 0:
		return []*Term{cs("a"), cs("ab"), cs("B")}
	case ok && b.Info()&types.IsInteger != 0:
		return []*Term{ci(0), ci(1), ci(2)}
	case ok && b.Info()&types.IsBoolean != 0:
		return []*Term{tFalse, tTrue}
	}
	return nil
}

// freshGlobal: a package variable that changes is set anew before it is read
// in every run that uses it.
func (an *Analyzer) freshGlobal(r *Report, g *ssa.Global, where string) {
	users := map[*ssa.Function]bool{}
	for _, f := range an.libFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops [12]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if o != nil && *o == ssa.Value(g) {
						users[f] = true
					}
				}
			}
		}
	}
	addr := an.globalAddr(g)
	reads := func(x *Exit, init *Term) bool {
		bad := false
		see := func(t *Term) {
			if t != nil && contains(t, init) {
				bad = true
			}
		}
		for _, l := range x.St.path {
			see(l.A)
		}
		for _, v := range x.Res {
			see(v)
		}
		for a, v := range x.St.heap {
			if a != addr {
				see(v)
			}
		}
		return bad
	}
	init := func(f *ssa.Function) *Term {
		st := &State{heap: map[*Term]*Term{}, facts: newFacts(), an: an}
		return st.load(addr, g.Type().(*types.Pointer).Elem())
	}
	// the generators start afresh
	gens := 0
	for _, lang := range langs {
		f := an.method(an.genType, "Gen"+lang)
		if f == nil {
			continue
		}
		uses := users[f]
		for u := range users {
			if strings.Contains(u.Name(), lang) {
				uses = true
			}
		}
		if !uses {
			continue
		}
		ex, err := an.root(f)
		if err != nil {
			r.undecided("%s: %v", f.Name(), err)
			continue
		}
		gens++
		for i := range ex {
			x := &ex[i]
			for _, ev := range x.St.events {
				if ev.Kind == "store" && ev.Args[0] == addr {
					break
				}
				if ev.Kind == "loop" {
					r.violate("fresh state", f.Name()+"/"+g.Name(), an.pos(ev.Pos), "%s generates code before %s is set anew, so an earlier run shows", f.Name(), g.Name())
				}
			}
			if reads(x, init(f)) {
				r.violate("fresh state", f.Name()+"/"+g.Name(), an.pos(x.Pos), "%s uses the value an earlier run left in %s", f.Name(), g.Name())
			}
		}
	}
	// nothing else reads it
	for _, role := range []string{"Parse", "GetValueType"} {
		users[an.byRole[role]] = users[an.byRole[role]] || false
	}
	for f := range users {
		if f == nil || !users[f] {
			continue
		}
		if p := f.Signature.Recv(); p != nil && an.isOptionsType(p.Type()) {
			r.violate("fresh state", f.Name()+"/"+g.Name(), where, "%s uses %s, which an earlier run may have changed", f.Name(), g.Name())
		}
	}
	r.count("generators_resetting", gens)
}

func (an *Analyzer) isOptionsType(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && types.Identical(p.Elem(), an.optType)
}

// ---- C16

// errTerms: the error results of an event.
func (an *Analyzer) errTerm(ev *Event) *Term {
	switch ev.Kind {
	case "call":
		if k, ok := an.callErrIndex[ev.Res]; ok && k >= 0 {
			return mk(OpRes, "", int64(k), types.Universe.Lookup("error").Type(), ev.Res)
		}
	case "pcall":
		return ev.Res
	}
	return nil
}

func errorResult(sig *types.Signature) int {
	for i := sig.Results().Len() - 1; i >= 0; i-- {
		if isErrorType(sig.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

func isEOF(t *Term) bool { return strings.HasSuffix(t.String(), "global:io.EOF") }

// eofOf: the literal says that an error is the end of the input.
func eofOf(l Lit) *Term {
	if !l.V {
		return nil
	}
	if l.A.Op == OpEq {
		for i := 0; i < 2; i++ {
			if isEOF(l.A.Args[i]) {
				return l.A.Args[1-i]
			}
		}
	}
	if l.A.Op == OpApp && l.A.S == "errors.Is" && len(l.A.Args) == 2 && isEOF(l.A.Args[1]) {
		return l.A.Args[0]
	}
	return nil
}

var decoderReads = []string{"(*encoding/xml.Decoder).Token", "(*encoding/xml.Decoder).RawToken"}

// handled: the outcome of a fallible call is dealt with on the partition.
func (an *Analyzer) handled(ev *Event, e *Term, f *Facts, path []Lit) bool {
	if f.known(mkEq(e, tNil)) == 1 {
		return true
	}
	for _, l := range path {
		if x := eofOf(l); x == e && has(decoderReads, ev.Fn) {
			return true
		}
		if l.A.Op == OpApp && (l.A.S == "os.IsNotExist" || l.A.S == "os.IsExist" || l.A.S == "errors.Is" || l.A.S == "os.IsPermission") && contains(l.A, e) {
			// that a directory to be made is there already
			if l.V && (ev.Fn == "os.Mkdir" || ev.Fn == "os.MkdirAll") && l.A.S != "os.IsNotExist" && l.A.S != "os.IsPermission" {
				return true
			}
		}
		if strings.HasPrefix(ev.Fn, "strconv.") && len(ev.Args) > 0 && l.V && l.A.Op == OpEq {
			for i := 0; i < 2; i++ {
				if l.A.Args[i] == ev.Args[0] && l.A.Args[1-i].isConst() {
					return true // the text is known not to be a number
				}
			}
		}
	}
	return false
}

func isClose(fn string) bool { return fn == "(*os.File).Close" || fn == "(io.Closer).Close" }

func ruleC16(an *Analyzer, r *Report) {
	r.rule("on every partition of a function with an error result: each fallible call is known to have succeeded, or an error is returned, or the error is one the code expects (end of document, something not there, the word unbounded)")
	r.rule("a successful partition of Parse has seen the end of the document as reported by a strict decoder")
	r.rule("callbacks with an error parameter return it")
	for _, f := range an.libFuncs() {
		ri := errorResult(f.Signature)
		if ri < 0 || len(f.Blocks) == 0 || an.roles[f] == "Emitter" {
			continue
		}
		ex, err := an.root(f)
		if err != nil {
			r.undecided("%s: %v", f.Name(), err)
			continue
		}
		r.count("functions", 1)
		for i := range ex {
			x := &ex[i]
			if x.Kind != "return" || ri >= len(x.Res) {
				continue
			}
			r.count("partitions", 1)
			res := x.Res[ri]
			if x.St.facts.known(mkEq(res, tNil)) == 0 || knownNonNil(res) {
				continue
			}
			an.errorsHandled(r, f, x, res, x.St.events, x.St.facts, x.St.path, nil)
			an.callbackError(r, f, x, res)
			an.reflectError(r, f, x, res)
			an.documentEnd(r, f, x, res)
		}
	}
	for _, x := range an.externals(an.libFuncs()) {
		if x.name == "(*encoding/xml.Decoder).RawToken" {
			r.violate("strict decoding", x.in.Name()+"/RawToken", an.pos(x.pos), "raw tokens are read, which does not detect unbalanced elements")
		}
	}
	r.require(r.Counts["obligations"], "fallible call")
}

func (an *Analyzer) errorsHandled(r *Report, f *ssa.Function, x *Exit, res *Term, evs []*Event, facts *Facts, path []Lit, in *Event) {
	closed := map[*Term]bool{}
	reading := map[*Term]bool{}
	eachEvent(x.St.events, func(ev *Event, _ *Event) {
		if ev.Kind == "call" && (ev.Fn == "os.Open" || strings.HasSuffix(ev.Fn, "http.Get")) {
			reading[ev.Res] = true
		}
	})
	for _, ev := range evs {
		if ev.Kind == "loop" {
			for k, alt := range ev.Alts {
				p := append(append([]Lit{}, path...), ev.Guard[k]...)
				if fs, ok := facts.within(ev, k); ok {
					an.errorsHandled(r, f, x, res, alt, fs, p, ev)
				}
			}
			continue
		}
		e := an.errTerm(ev)
		if e == nil {
			continue
		}
		if ev.Fn == "path/filepath.Rel" {
			continue // computed from the two paths alone: that there is no relative path is an answer
		}
		if strings.HasPrefix(ev.Fn, "fmt.Print") || ev.Fn == "write" && strings.Contains(ev.Args[0].String(), "global:os.Std") {
			continue
		}
		if isClose(ev.Fn) && len(ev.Args) > 0 && ev.Args[0].Op == OpRes {
			file := ev.Args[0].Args[0]
			if reading[file] {
				continue // nothing is lost when a file that was read cannot be closed
			}
			if closed[file] {
				continue // closed again by a deferred call
			}
			closed[file] = true
		}
		if ev.Fn == "xgen.callFuncByName" && an.emitterDispatch(ev) {
			continue
		}
		if ev.Kind == "pcall" && res.Op == OpNil && f.Signature.Results().Len() == 1 && types.Identical(f.Signature.Results().At(0).Type(), types.Typ[types.Bool]) {
			continue
		}
		if (ev.Fn == "os.Stat" || ev.Fn == "os.Lstat") && len(ev.Args) > 0 && an.madeIfMissing(f)[ev.Pos] {
			continue // looking whether a directory is there decides only whether to make it
		}
		r.count("obligations", 1)
		if an.handled(ev, e, facts, path) {
			continue
		}
		if carries(res, e, in) {
			continue
		}
		r.violate("unreported failure", f.Name()+"/"+shortFn(ev.Fn)+"/"+siteName(ev), an.pos(ev.Pos), "%s may fail and %s still reports success when %s", shortFn(ev.Fn), f.Name(), pathString(path))
	}
}

// madeIfMissing gives the calls of os.Stat in f that ask for a directory which
// f makes on some partition where it is not there.
func (an *Analyzer) madeIfMissing(f *ssa.Function) map[token.Pos]bool {
	if m, ok := an.madeCache[f]; ok {
		return m
	}
	m := map[token.Pos]bool{}
	if an.madeCache == nil {
		an.madeCache = map[*ssa.Function]map[token.Pos]bool{}
	}
	an.madeCache[f] = m
	ex, err := an.root(f)
	if err != nil {
		return m
	}
	for i := range ex {
		var stats []*Event
		eachEvent(ex[i].St.events, func(ev *Event, _ *Event) {
			switch ev.Fn {
			case "os.Stat", "os.Lstat":
				stats = append(stats, ev)
			case "os.Mkdir", "os.MkdirAll":
				for _, s := range stats {
					if len(s.Args) > 0 && len(ev.Args) > 0 && s.Args[0] == ev.Args[0] {
						m[s.Pos] = true
					}
				}
			}
		})
	}
	return m
}

// siteName distinguishes the calls of one function made in one function by
// what they are given.
func siteName(ev *Event) string {
	if len(ev.Args) == 0 {
		return ""
	}
	a := ev.Args[0]
	for a.Op == OpRes || a.Op == OpCall {
		if a.Op == OpCall {
			return shortFn(strings.SplitN(a.S, "@", 2)[0])
		}
		a = a.Args[0]
	}
	return ""
}

// carries: the returned error is e unless it is an earlier one.
func carries(res, e *Term, loop *Event) bool {
	if res == e {
		return true
	}
	if loop == nil {
		if res.Op == OpFold || res.Op == OpConst || res.Op == OpNil {
			return false
		}
		return contains(res, e)
	}
	ok := false
	walkTerm(res, func(t *Term) bool {
		if t.Op == OpFold && t.S == loop.Loop.ID {
			kept := true
			found := false
			for _, a := range t.Args[2:] {
				switch {
				case contains(a.Args[0], e):
					found = true
					first := contains(a.Args[0], t.Args[1])
					for _, g := range a.Args[1:] {
						if g == mkEq(t.Args[1], tNil) {
							first = true
						}
					}
					if !first {
						kept = false
					}
				case a.Args[0] != t.Args[1]:
					kept = false
				}
			}
			if found && kept {
				ok = true
			}
		}
		return true
	})
	return ok
}

// emitterDispatch: a call by name that reaches only emitters without results.
func (an *Analyzer) emitterDispatch(ev *Event) bool {
	d := an.dispatchOf(ev, nil)
	if d == nil || d.bad != "" || d.lang == "" || d.elem == nil {
		return false
	}
	for _, k := range nodeKinds {
		f := an.method(an.genType, d.lang+k)
		if f != nil && f.Signature.Results().Len() > 0 {
			return false
		}
	}
	return true
}

func (an *Analyzer) callbackError(r *Report, f *ssa.Function, x *Exit, res *Term) {
	if f.Parent() == nil {
		return
	}
	for _, p := range f.Params {
		if !isErrorType(p.Type()) {
			continue
		}
		e := sym(p.Name(), p.Type())
		r.count("obligations", 1)
		if x.St.facts.known(mkEq(e, tNil)) != 1 && res != e {
			r.violate("unreported failure", f.Name()+"/callback", an.pos(x.Pos), "the failure given to %s is dropped when %s", f.Name(), pathString(x.St.path))
		}
	}
}

// reflectError: what a method called by reflection returns is returned.
func (an *Analyzer) reflectError(r *Report, f *ssa.Function, x *Exit, res *Term) {
	for _, ev := range x.St.events {
		if ev.Kind != "call" || ev.Fn != "(reflect.Value).Call" {
			continue
		}
		out := mk(OpRes, "", 0, nil, ev.Res)
		rel := func(t *Term) bool {
			h := false
			walkTerm(t, func(y *Term) bool {
				if y.Op == OpRes && y.Args[0] == ev.Res {
					h = true
				}
				return !h
			})
			return h
		}
		_ = out
		r.count("obligations", 1)
		if rel(res) {
			continue
		}
		ok := false
		for _, l := range x.St.path {
			if !rel(l.A) {
				continue
			}
			switch {
			case l.V && l.A.Op == OpEq && (l.A.Args[0].Op == OpLen || l.A.Args[1].Op == OpLen) && (l.A.Args[0] == ci(0) || l.A.Args[1] == ci(0)):
				ok = true
			case l.V && l.A.Op == OpApp && strings.HasSuffix(l.A.S, ".IsNil"):
				ok = true
			case l.V && l.A.Op == OpEq && (l.A.Args[0] == tNil || l.A.Args[1] == tNil):
				ok = true
			case !l.V && (l.A.Op == OpTypeIs || l.A.Op == OpLt):
				ok = true
			}
		}
		if !ok {
			r.violate("unreported failure", f.Name()+"/reflect", an.pos(ev.Pos), "the error a method called by name returns is dropped when %s", pathString(x.St.path))
		}
	}
}

// documentEnd: a successful parse has read the whole document.
func (an *Analyzer) documentEnd(r *Report, f *ssa.Function, x *Exit, res *Term) {
	reads := false
	var last *Event
	eachEvent(x.St.events, func(ev *Event, _ *Event) {
		if ev.Kind == "call" && has(decoderReads, ev.Fn) {
			reads = true
			last = ev
			if s := ev.Snap["Strict"]; s == tFalse {
				r.violate("strict decoding", f.Name(), an.pos(ev.Pos), "the decoder is told to accept malformed documents")
			}
			if e := ev.Snap["Entity"]; e != nil && e != tNil {
				r.violate("strict decoding", f.Name()+"/Entity", an.pos(ev.Pos), "the decoder is told to accept entities the document doesn't declare: %s", showTerm(e))
			}
		}
	})
	if !reads {
		if f == an.byRole["Parse"] && res == tNil {
			n := 0
			for _, l := range x.St.path {
				// directories, and files that were parsed before, have nothing to read
				if l.V && (strings.Contains(l.A.String(), "IsDir") || strings.Contains(l.A.String(), "ParseFile")) {
					n++
				}
			}
			if n == 0 {
				r.violate("end of document", f.Name(), an.pos(x.Pos), "Parse succeeds without reading the schema when %s", pathString(x.St.path))
			}
		}
		return
	}
	r.count("documents_read", 1)
	for _, l := range x.St.path {
		if e := eofOf(l); e != nil {
			h := false
			walkTerm(e, func(y *Term) bool {
				if y.Op == OpCall && strings.HasPrefix(y.S, "(*encoding/xml.Decoder).") {
					h = true
				}
				return !h
			})
			if h {
				return
			}
		}
	}
	r.violate("end of document", f.Name(), an.pos(last.Pos), "%s succeeds without the decoder having reported the end of the document when %s", f.Name(), pathString(x.St.path))
}

// ---- C26

var harmlessPkgs = []string{"fmt.Sprint", "fmt.Errorf", "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln", "fmt.Append", "strings.", "strconv.", "unicode.", "unicode/utf8.", "unicode/utf16.", "sort.", "slices.", "maps.", "reflect.", "regexp.", "bytes.", "bufio.", "errors.", "path.", "path/filepath.", "encoding/xml.", "encoding/", "net/url.", "go/format.", "go/token.", "go/scanner.", "go/ast.", "go/parser.", "container/list.", "container/", "golang.org/x/net/html/charset.", "golang.org/x/text/", "math.", "math/bits.", "sync.", "sync/atomic.", "time.", "cmp.", "io.", "io/fs.", "hash/", "html.", "text/template.", "context.", "internal/", "iter.", "unique.", "runtime.Error", "go/printer."}
var readFns = []string{"os.Open", "os.Stat", "os.Lstat", "os.ReadFile", "os.ReadDir", "os.Readlink", "os.IsNotExist", "os.IsExist", "os.IsPermission", "os.Getwd", "os.SameFile", "os.DirFS", "io/ioutil.ReadFile", "io/ioutil.ReadAll", "io/ioutil.ReadDir", "io/ioutil.NopCloser",
	"(*os.File).Close", "(*os.File).Read", "(*os.File).ReadAt", "(*os.File).Stat", "(*os.File).Name", "(*os.File).Readdir", "(*os.File).Readdirnames", "(*os.File).ReadDir", "(*os.File).Seek", "(*os.File).Sync", "(*os.File).Fd", "(*os.File).Truncate",
	"(*os.File).Write", "(*os.File).WriteString", "(*os.File).ReadFrom", "(*os.File).WriteAt", "(*os.PathError).Error", "(*os.PathError).Unwrap", "(*io/fs.PathError).Error", "os.IsPathSeparator"}
var outputFns = []string{"os.Create", "os.OpenFile", "os.WriteFile", "io/ioutil.WriteFile", "os.MkdirAll", "os.Mkdir"}

func allowedEffect(name string) bool {
	n := strings.TrimLeft(name, "(*")
	for _, p := range harmlessPkgs {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return has(readFns, name) || has(outputFns, name) || strings.HasPrefix(name, "(error)") || strings.HasPrefix(n, "os.FileInfo)") || strings.HasPrefix(n, "io/fs.FileInfo)")
}

var forbidden = []string{"os.", "os/exec.", "os/signal.", "net.", "net/", "syscall.", "log.", "plugin.", "runtime.", "golang.org/x/sys", "flag.", "testing.", "fmt.Print", "fmt.Scan", "debug/", "io/ioutil.", "embed."}

func ruleC26(an *Analyzer, r *Report) {
	r.rule("the library calls only functions that compute, read files and directories, or write its own output")
	r.rule("generators create exactly one file, named like the schema's output path with the language's extension; only directories of the output path are created")
	lib := an.libFuncs()
	r.count("functions", len(lib))
	for _, x := range an.externals(lib) {
		r.count("external_references", 1)
		if x.name == "dynamic" || allowedEffect(x.name) && x.name != "fmt.Print" && x.name != "fmt.Println" && x.name != "fmt.Printf" {
			continue
		}
		if strings.HasSuffix(x.name, ".init") {
			continue
		}
		n := strings.TrimLeft(x.name, "(*")
		bad := false
		for _, p := range forbidden {
			if strings.HasPrefix(n, p) {
				bad = true
			}
		}
		if bad {
			r.violate("effect", x.in.Name()+"/"+x.name, an.pos(x.pos), "%s uses %s", x.in.Name(), x.name)
		} else if !strings.HasPrefix(x.name, "(") {
			r.undecided("effect of %s in %s", x.name, x.in.Name())
		}
	}
	for _, f := range lib {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops [12]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if o == nil || *o == nil {
						continue
					}
					if g, ok := (*o).(*ssa.Global); ok && g.Pkg != an.xgen && g.Pkg != nil {
						switch g.Pkg.Pkg.Path() + "." + g.Name() {
						case "os.Stdout", "os.Stderr", "os.Stdin", "os.Args":
							r.violate("effect", f.Name()+"/os."+g.Name(), an.pos(in.Pos()), "%s uses os.%s", f.Name(), g.Name())
						}
						if st, ok := in.(*ssa.Store); ok && st.Addr == *o {
							r.violate("effect", f.Name()+"/"+g.Name(), an.pos(in.Pos()), "%s changes %s.%s", f.Name(), g.Pkg.Pkg.Path(), g.Name())
						}
					}
				}
			}
		}
	}
	an.outputFiles(r)
	r.require(r.Counts["files_created"], "output file")
}

// outputs: for each place that creates files or directories, what it names.
func (an *Analyzer) outputFiles(r *Report) {
	gens := map[*ssa.Function]string{}
	for _, lang := range langs {
		if f := an.method(an.genType, "Gen"+lang); f != nil {
			gens[f] = lang
		}
	}
	// every function is looked at on its own or inlined in these
	for _, f := range an.libFuncs() {
		if len(f.Blocks) == 0 {
			continue
		}
		lang, isGen := gens[f]
		if !isGen && (an.roles[f] == "Emitter" || f.Signature.Recv() == nil || f != an.byRole["Parse"] && f != an.byRole["GetValueType"] && !an.isHandler(f)) {
			continue
		}
		ex, err := an.root(f)
		if err != nil {
			r.undecided("%s: %v", f.Name(), err)
			continue
		}
		for i := range ex {
			x := &ex[i]
			n := 0
			eachEvent(x.St.events, func(ev *Event, in *Event) {
				if ev.Kind != "call" || !has(outputFns, ev.Fn) {
					return
				}
				construct := f.Name() + "/" + shortFn(ev.Fn)
				mkdir := strings.HasPrefix(ev.Fn, "os.Mkdir")
				if mkdir {
					r.count("directories_created", 1)
					an.dirBelowOutput(r, f, x, ev)
					return
				}
				r.count("files_created", 1)
				if !isGen {
					r.violate("output", construct, an.pos(ev.Pos), "%s creates a file %s", f.Name(), showTerm(ev.Args[0]))
					return
				}
				if in != nil {
					r.violate("output", construct, an.pos(ev.Pos), "%s creates files in a loop", f.Name())
				}
				n++
				an.ownFile(r, f, lang, x, ev)
			})
			if n > 1 {
				r.violate("output", f.Name(), an.pos(x.Pos), "%s creates %d files", f.Name(), n)
			}
			if isGen && n != 1 && an.succeeds(x) {
				r.violate("output", f.Name(), an.pos(x.Pos), "%s succeeds after creating %d files when %s", f.Name(), n, pathString(x.St.path))
			}
		}
	}
}

func (an *Analyzer) isHandler(f *ssa.Function) bool {
	return f.Signature.Recv() != nil && an.isOptionsType(f.Signature.Recv().Type()) && (strings.HasPrefix(f.Name(), "On") || strings.HasPrefix(f.Name(), "End"))
}

var sampleFiles = []string{"out/a.xsd", "out/x/a.xsd", "out/a", "out/a.b.xsd", "/tmp/o/A-b.xsd", "out/a.go", "out/a.h", "out/a.java", "out/a.rs", "out/a.ts", "out/ago", "out/c.ts.xsd", "out/x.java/d.xsd", "out/go",
	"out/A.GO", "out/A.H", "out/A.Java", "out/A.RS", "out/A.TS", "out/a.go.java", "out/a.java.rs", "out/a.rs.ts", "out/a.ts.h", "out/a.h.go", "out/.go", "out/.ts", "out/a.go ", "out/a.java.", "out/ a.xsd", "out/a.xsd ", "out/a.gox", "out/a.tsx", "out/a.hh", "a"}

// ownFile: the file is the generator's path with the extension.
func (an *Analyzer) ownFile(r *Report, f *ssa.Function, lang string, x *Exit, ev *Event) {
	gen := sym(f.Params[0].Name(), f.Params[0].Type())
	st := &State{heap: map[*Term]*Term{}, facts: newFacts(), an: an}
	file := st.load(fieldAddr(gen, "File"), types.Typ[types.String])
	samples := sampleFiles[:len(sampleFiles):len(sampleFiles)]
	for _, w := range an.harvestOf(f).pathWords() {
		samples = append(samples, "out/a"+w, "out/"+w+"a", "out/a"+w+"a", "out/"+w+"/a.xsd", "out/a"+w+extensions[lang])
	}
	for _, s := range samples {
		c := an.newConc().with(file, cs(s))
		if !compatible(c, x.St.path) {
			continue
		}
		want := s
		if !strings.HasSuffix(s, extensions[lang]) {
			want += extensions[lang]
		}
		r.count("paths_evaluated", 1)
		p := c.eval(ev.Args[0])
		got, ok := p.str()
		if !ok {
			r.undecided("%s: path %s", f.Name(), showTerm(p))
			return
		}
		if got != want {
			r.violate("output", f.Name()+"/"+shortFn(ev.Fn), an.pos(ev.Pos), "the code for %s is written to %s instead of %s", s, got, want)
			return
		}
	}
}

type layout struct{ in, file, out, want string }

var layouts = []layout{
	{"in", "in/a.xsd", "out", "out/a.xsd"},
	{"in", "in/x/b.xsd", "out", "out/x/b.xsd"},
	{"in", "in/in/b.xsd", "out", "out/in/b.xsd"},
	{"in/", "in/x/y/c-d.xsd", "out/", "out/x/y/c-d.xsd"},
	{"/d/in", "/d/in/x_y/b.c.xsd", "/e/out", "/e/out/x_y/b.c.xsd"},
	{"/d/in", "/d/in/x/in.xsd", "/e/out", "/e/out/x/in.xsd"},
	{"s", "s/s.xsd", "s", "s/s.xsd"},
	{"a.xsd", "a.xsd", "gen", "gen"},
	{"in", "in/Out/UPPER.XSD", "o.d", "o.d/Out/UPPER.XSD"},
	{"in", "in/dir.xsd/a.xsd", "out", "out/dir.xsd/a.xsd"},
	{"in/", "in/in.xsd", "out", "out/in.xsd"},
	{"in/", "in/nine.xsd", "out", "out/nine.xsd"},
	{"./in", "in/nine.xsd", "out", "out/nine.xsd"},
	{"./in/", "in/x/nine.xsd", "out", "out/x/nine.xsd"},
	{".", "a/b.xsd", "out", "out/a/b.xsd"},
	{"../in", "../in/a.xsd", "../out", "../out/a.xsd"},
	{"in", "in/..x/a.xsd", "out", "out/..x/a.xsd"},
	{"in", "in/.x/.a.xsd", "out", "out/.x/.a.xsd"},
	{"in", "in/ x/a b.xsd ", "out", "out/ x/a b.xsd "},
	{"in ", "in /x /a.xsd", " out", " out/x /a.xsd"},
	{"in", "in/x%20y/é_+~&,;'$.xsd", "out", "out/x%20y/é_+~&,;'$.xsd"},
	{"in", "in/x.go/a", "out", "out/x.go/a"},
	{"in.xsd", "in.xsd/out/in.xsd", "out.xsd", "out.xsd/out/in.xsd"},
}

func (an *Analyzer) layoutConc(f *ssa.Function, l layout) *conc {
	opt := sym(f.Params[0].Name(), f.Params[0].Type())
	st := &State{heap: map[*Term]*Term{}, facts: newFacts(), an: an}
	str := types.Typ[types.String]
	return an.newConc().with(st.load(fieldAddr(opt, "InputDir"), str), cs(l.in)).with(st.load(fieldAddr(opt, "FilePath"), str), cs(l.file)).with(st.load(fieldAddr(opt, "OutputDir"), str), cs(l.out))
}

func (an *Analyzer) dirBelowOutput(r *Report, f *ssa.Function, x *Exit, ev *Event) {
	if f != an.byRole["Parse"] {
		r.violate("output", f.Name()+"/"+shortFn(ev.Fn), an.pos(ev.Pos), "%s creates the directory %s", f.Name(), showTerm(ev.Args[0]))
		return
	}
	for _, l := range layouts {
		c := an.layoutConc(f, l)
		if !compatible(c, x.St.path) {
			continue
		}
		d, ok := c.eval(ev.Args[0]).str()
		if !ok {
			r.undecided("%s: directory %s", f.Name(), showTerm(ev.Args[0]))
			return
		}
		dir := filepath.Clean(filepath.Dir(l.want))
		if d = filepath.Clean(d); d != dir && d != filepath.Clean(l.out) && !strings.HasPrefix(d, filepath.Clean(l.out)+"/") && !strings.HasPrefix(dir+"/", d+"/") {
			r.violate("output", f.Name()+"/"+shortFn(ev.Fn), an.pos(ev.Pos), "for %s the directory %s is created", l.file, d)
			return
		}
	}
}

// ---- C28

func ruleC28(an *Analyzer, r *Report) {
	r.rule("file opened on a partition => closed on the partition, directly or by a deferred call, unless it is the partition's result")
	for _, f := range an.libFuncs() {
		if len(f.Blocks) == 0 {
			continue
		}
		ex, err := an.root(f)
		if err != nil {
			r.undecided("%s: %v", f.Name(), err)
			continue
		}
		for i := range ex {
			x := &ex[i]
			if x.Kind != "return" {
				continue
			}
			var rec func(evs []*Event, facts *Facts)
			rec = func(evs []*Event, facts *Facts) {
				for k, ev := range evs {
					if ev.Kind == "loop" {
						for j, alt := range ev.Alts {
							if fs, ok := facts.within(ev, j); ok {
								rec(alt, fs)
							}
						}
						continue
					}
					if ev.Kind != "call" || ev.Fn != "os.Open" && ev.Fn != "os.Create" && ev.Fn != "os.OpenFile" && !strings.HasPrefix(ev.Fn, "os.CreateTemp") {
						continue
					}
					if e := an.errTerm(ev); e != nil && facts.known(mkEq(e, tNil)) == 0 {
						continue
					}
					r.count("open_files", 1)
					returned := false
					for _, v := range x.Res {
						walkTerm(v, func(t *Term) bool {
							if t.Op == OpRes && t.Args[0] == ev.Res && t.I == 0 {
								returned = true
							}
							return !returned && t.Op != OpApp && t.Op != OpCall
						})
					}
					if returned {
						continue
					}
					closed := false
					for _, y := range evs[k+1:] {
						if y.Kind == "call" && isClose(y.Fn) && len(y.Args) > 0 && closesFile(y.Args[0], ev.Res) {
							closed = true
						}
					}
					if !closed {
						r.violate("close", f.Name()+"/"+shortFn(ev.Fn), an.pos(ev.Pos), "the file opened here is not closed when %s", pathString(x.St.path))
					}
				}
			}
			rec(x.St.events, x.St.facts)
		}
	}
	r.require(r.Counts["open_files"], "opened file")
}

func closesFile(t, call *Term) bool {
	for t.Op == OpIface || t.Op == OpConv {
		t = t.Args[0]
	}
	return t.Op == OpRes && t.Args[0] == call && t.I == 0
}

// ---- C29

const identifying = "// Code generated by xgen. DO NOT EDIT.\n"

func ruleC29(an *Analyzer, r *Report) {
	r.rule("text written = identifying line ...; Go and Java: followed by the package clause of the requested package, or of schema")
	for _, lang := range langs {
		f := an.method(an.genType, "Gen"+lang)
		if f == nil {
			continue
		}
		ex, err := an.root(f)
		if err != nil {
			r.undecided("%s: %v", f.Name(), err)
			continue
		}
		gen := sym(f.Params[0].Name(), f.Params[0].Type())
		st := &State{heap: map[*Term]*Term{}, facts: newFacts(), an: an}
		pkg := st.load(fieldAddr(gen, "Package"), types.Typ[types.String])
		for i := range ex {
			x := &ex[i]
			if !an.succeeds(x) || !createsAny(x) {
				continue
			}
			where := an.pos(x.Pos)
			t := an.sourceText(x)
			if t == nil {
				r.violate("identified", f.Name(), where, "%s succeeds without writing code when %s", f.Name(), pathString(x.St.path))
				continue
			}
			for _, p := range append([]string{"", "schema", "my_pkg", "Foo", "com.example.Foo_1", "a1", "main", "my-pkg", "xml", "Schema", "schema2", "x.y-z", "internal"}, an.harvestOf(f).strs...) {
				if strings.ContainsAny(p, " \t\r\n;/\"'") {
					continue
				}
				c := an.newConc().with(pkg, cs(p))
				if !compatible(c, x.St.path) {
					continue
				}
				r.count("headers", 1)
				parts := concatParts(c.eval(t))
				head, _ := "", 0
				if len(parts) > 0 {
					head, _ = parts[0].str()
				}
				if !strings.HasPrefix(head, identifying) {
					r.violate("identified", f.Name(), where, "the generated file starts with %q", firstLine(head))
					continue
				}
				if lang != "Go" && lang != "Java" {
					continue
				}
				want := "package " + p
				if p == "" {
					want = "package schema"
				}
				rest := strings.TrimLeft(strings.TrimPrefix(head, identifying), " \r\n\t")
				if lang == "Java" {
					want += ";"
				}
				ok := strings.HasPrefix(rest, want) && (len(rest) == len(want) || strings.ContainsAny(rest[len(want):len(want)+1], " \r\n\t;"))
				if !ok {
					if len(parts) > 0 && parts[0].Op != OpConst || len(rest) == 0 && len(parts) > 1 {
						r.violate("package clause", f.Name(), where, "the identifying line is followed by %s instead of %q", showTerm(parts[min(1, len(parts)-1)]), want)
					} else {
						r.violate("package clause", f.Name(), where, "the identifying line is followed by %q instead of %q for package %q", firstLine(rest), want, p)
					}
				}
			}
		}
	}
	r.require(r.Counts["headers"], "generated text")
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	if len(s) > 80 {
		return s[:80]
	}
	return s
}

func createsAny(x *Exit) bool {
	for _, ev := range x.St.events {
		if ev.Kind == "call" && createsFile(ev.Fn) {
			return true
		}
	}
	return false
}

// ---- C30

func ruleC30(an *Analyzer, r *Report) {
	r.rule("decoder read => its CharsetReader is set before, to a reader that decodes by the label")
	good := map[*Term]string{}
	for _, f := range an.libFuncs() {
		if len(f.Blocks) == 0 {
			continue
		}
		uses := false
		for _, x := range an.externals([]*ssa.Function{f}) {
			if strings.HasPrefix(x.name, "encoding/xml.Unmarshal") {
				r.violate("charset", f.Name()+"/Unmarshal", an.pos(x.pos), "xml.Unmarshal decodes UTF-8 only")
			}
			if strings.HasPrefix(x.name, "(*encoding/xml.Decoder).") || x.name == "encoding/xml.NewDecoder" {
				uses = true
			}
		}
		if !uses && f != an.byRole["Parse"] {
			continue
		}
		ex, err := an.root(f)
		if err != nil {
			r.undecided("%s: %v", f.Name(), err)
			continue
		}
		for i := range ex {
			eachEvent(ex[i].St.events, func(ev *Event, _ *Event) {
				if ev.Kind != "call" || !strings.HasPrefix(ev.Fn, "(*encoding/xml.Decoder).") || len(ev.Args) == 0 || ev.Snap == nil {
					return
				}
				d := ev.Args[0]
				if d.Op == OpSym {
					return // a helper that reads from the decoder it is given: looked at where it is called
				}
				r.count("decoder_reads", 1)
				cr := ev.Snap["CharsetReader"]
				if cr == nil || cr == tNil {
					r.violate("charset", f.Name(), an.pos(ev.Pos), "the decoder reads without a character-set reader, so only UTF-8 schemas can be read")
					return
				}
				why, seen := good[cr]
				if !seen {
					why = an.charsetReader(r, cr)
					good[cr] = why
				}
				if why != "" {
					r.violate("charset", f.Name(), an.pos(ev.Pos), "the decoder's character-set reader %s", why)
				}
			})
		}
	}
	r.require(r.Counts["decoder_reads"], "read from an XML decoder")
}

// charsetReader: "" when the function decodes by the label it is given.
func (an *Analyzer) charsetReader(r *Report, t *Term) string {
	if t.Op != OpFn && t.Op != OpClosure {
		r.undecided("character-set reader %s", showTerm(t))
		return ""
	}
	fn := t.X.(*ssa.Function)
	decodes := func(n string) bool {
		return n == "golang.org/x/net/html/charset.NewReaderLabel" || n == "golang.org/x/net/html/charset.NewReader"
	}
	if decodes(fn.String()) {
		return ""
	}
	if !an.inModule(fn) || fn.Blocks == nil || len(fn.Params) != 2 {
		r.undecided("character-set reader %s", fn)
		return ""
	}
	ex, err := an.root(fn)
	if err != nil {
		r.undecided("%s: %v", fn.Name(), err)
		return ""
	}
	label, in := sym(fn.Params[0].Name(), fn.Params[0].Type()), sym(fn.Params[1].Name(), fn.Params[1].Type())
	dec := 0
	for i := range ex {
		x := &ex[i]
		if x.Kind != "return" || !an.succeeds(x) {
			continue
		}
		ok := false
		walkTerm(x.Res[0], func(y *Term) bool {
			if (y.Op == OpCall || y.Op == OpApp) && (decodes(strings.SplitN(y.S, "@", 2)[0])) && len(y.Args) == 2 {
				if contains(y.Args[0], label) && contains(y.Args[1], in) || contains(y.Args[1], label) && contains(y.Args[0], in) {
					ok = true
				}
			}
			return true
		})
		if ok {
			dec++
			continue
		}
		// the input may be passed on when the label says UTF-8
		utf8 := false
		for _, l := range x.St.path {
			if l.V && contains(l.A, label) && strings.Contains(strings.ToLower(l.A.String()), "utf-8") {
				utf8 = true
			}
		}
		if !utf8 {
			return "does not decode by the declared label when " + pathString(x.St.path)
		}
	}
	if dec == 0 {
		return "never decodes by the declared label"
	}
	return ""
}

// ---- C33

func ruleC33(an *Analyzer, r *Report) {
	r.rule("path given to the generator = Join(OutputDir, FilePath below InputDir), evaluated for representative layouts")
	r.rule("its directory is prepared before the generator runs")
	r.rule("file created by the generator = path, with the extension unless it is there")
	parse := an.byRole["Parse"]
	if parse == nil {
		r.violate("anchor", "Parse", "", "no method Parse")
		return
	}
	ex, err := an.root(parse)
	if err != nil {
		r.undecided("Parse: %v", err)
		return
	}
	// paths of the lengths, and names, that the code compares paths with
	var more []layout
	hv := an.harvestOf(parse)
	for _, n := range hv.sizes(0, 1<<12) {
		if n > 8 {
			d, w := fill(n-4), fill(n-len("out/x/.xsd"))
			more = append(more, layout{"in", "in/" + d + "/a.xsd", "out", "out/" + d + "/a.xsd"}, layout{"in", "in/" + d + "a.xsd", "out", "out/" + d + "a.xsd"}, layout{"in", "in/x/" + w + ".xsd", "out", "out/x/" + w + ".xsd"})
		}
	}
	for _, w := range hv.pathWords() {
		more = append(more, layout{"in", "in/a" + w, "out", "out/a" + w}, layout{"in", "in/" + w + "a.xsd", "out", "out/" + w + "a.xsd"}, layout{"in", "in/x" + w + "/a.xsd", "out", "out/x" + w + "/a.xsd"})
	}
	for _, w := range hv.names(0) {
		more = append(more, layout{"in", "in/" + w + "/a.xsd", "out", "out/" + w + "/a.xsd"}, layout{"in", "in/x/" + w + ".xsd", "out", "out/x/" + w + ".xsd"}, layout{w, w + "/a.xsd", "out", "out/a.xsd"}, layout{"in", "in/a.xsd", w, w + "/a.xsd"})
	}
	for i := range ex {
		x := &ex[i]
		for k, ev := range x.St.events {
			if d := an.dispatchOf(ev, nil); d == nil || ev.Snap == nil || ev.Snap["StructAST"] == nil {
				continue
			}
			file := ev.Snap["File"]
			for _, l := range append(layouts[:len(layouts):len(layouts)], more...) {
				c := an.layoutConc(parse, l)
				if !compatible(c, x.St.path) {
					continue
				}
				r.count("layouts_evaluated", 1)
				got, ok := c.eval(file).str()
				if !ok {
					r.undecided("Parse: output path %s", showTerm(c.eval(file)))
					break
				}
				if filepath.Clean(got) != l.want {
					r.violate("output path", "Parse", an.pos(ev.Pos), "schema %s below %s with output %s is generated to %s instead of %s", l.file, l.in, l.out, got, l.want)
					break
				}
				if !an.prepared(c, x.St.events[:k], x.St.path, filepath.Dir(l.want)) {
					r.violate("directory", "Parse", an.pos(ev.Pos), "the directory %s of %s is not prepared before the generator runs", filepath.Dir(l.want), got)
					break
				}
			}
		}
	}
	for _, lang := range langs {
		f := an.method(an.genType, "Gen"+lang)
		if f == nil {
			continue
		}
		gx, err := an.root(f)
		if err != nil {
			r.undecided("%s: %v", f.Name(), err)
			continue
		}
		for i := range gx {
			for _, ev := range gx[i].St.events {
				if ev.Kind == "call" && createsFile(ev.Fn) {
					an.ownFile(r, f, lang, &gx[i], ev)
				}
			}
		}
	}
	r.require(r.Counts["layouts_evaluated"], "generator run by Parse")
}

// prepared: the directory is known to exist or has been created.
func (an *Analyzer) prepared(c *conc, evs []*Event, path []Lit, dir string) bool {
	for _, ev := range evs {
		if ev.Kind != "call" || len(ev.Args) == 0 {
			continue
		}
		d, ok := c.eval(ev.Args[0]).str()
		if !ok || filepath.Clean(d) != dir {
			continue
		}
		switch ev.Fn {
		case "os.MkdirAll":
			if m, ok := ev.Args[1].num(); !ok || m&0300 == 0300 {
				return true
			}
		case "os.Stat", "os.Lstat":
			e := an.errTerm(ev)
			for _, l := range path {
				if !l.V && l.A.Op == OpApp && (l.A.S == "os.IsNotExist" || l.A.S == "errors.Is") && contains(l.A, e) {
					return true
				}
				if l.V && l.A == mkEq(e, tNil) {
					return true
				}
			}
		}
	}
	return false
}
