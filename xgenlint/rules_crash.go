package main

// C17: nothing the parser or the generators do on a document can panic.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C17", "Every operation of the library that can panic (nil dereference, type assertion, index, slice, nil map, call by reflection) is an obligation in every partition that performs it, discharged by what the partition knows, by nesting invariants proved inductive over all handlers, or by the types of everything callable by name.", ruleC17)
}

// nestInv: whenever the field is set (positive or true) the stack holds
// something.
type nestInv struct {
	field, stack string
}

func (v nestInv) String() string { return v.field + " => " + v.stack + " not empty" }

// crashRoots: functions whose arguments can be anything: exported ones, those
// reached by name or as values, those not analysed at their call sites.
func (an *Analyzer) crashRoots() []*ssa.Function {
	called := map[*ssa.Function]bool{}
	value := map[*ssa.Function]bool{}
	for _, f := range an.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if cl, ok := in.(ssa.CallInstruction); ok {
					callee = cl.Common().Value
					if g := cl.Common().StaticCallee(); g != nil {
						called[g] = true
					}
				}
				var ops [12]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if o == nil || *o == nil || *o == callee {
						continue
					}
					if g, ok := (*o).(*ssa.Function); ok {
						value[g] = true
					}
				}
			}
		}
	}
	var out []*ssa.Function
	for _, f := range an.libFuncs() {
		if f.Synthetic != "" || f.Blocks == nil {
			continue
		}
		exported := f.Object() != nil && f.Object().Exported()
		if !exported && f.Parent() == nil && !value[f] && called[f] && an.roles[f] == "" && an.stackRecv(f) == false {
			continue // analysed where it is called
		}
		out = append(out, f)
	}
	return out
}

func (an *Analyzer) stackRecv(f *ssa.Function) bool {
	r := f.Signature.Recv()
	if r == nil || an.stackType == nil {
		return false
	}
	p, ok := r.Type().(*types.Pointer)
	return ok && types.Identical(p.Elem(), an.stackType)
}

// eventHandlers: the methods a document can reach by the names of its elements.
func (an *Analyzer) eventHandlers() []*ssa.Function {
	var out []*ssa.Function
	if an.optType == nil {
		return nil
	}
	ms := an.prog.MethodSets.MethodSet(types.NewPointer(an.optType))
	for i := 0; i < ms.Len(); i++ {
		o := ms.At(i).Obj()
		if o.Exported() && (strings.HasPrefix(o.Name(), "On") || strings.HasPrefix(o.Name(), "End")) {
			if f := an.prog.MethodValue(ms.At(i)); f != nil {
				out = append(out, f)
			}
		}
	}
	return out
}

func ruleC17(an *Analyzer, r *Report) {
	r.rule("every operation that can panic is proved not to in every partition that performs it")
	r.rule("nesting invariants (a counter or flag is set => a stack is not empty) hold at the start of a document and are preserved by every handler")
	r.rule("a method called by name is given arguments it accepts, and gives back nothing or an error")
	r.rule("entries of the parse result whose type is asked for are not nil")
	r.rule("stacks exist before the first handler runs, maps written during a run exist in every parser and generator the library builds")
	r.rule("the library does not end the process")
	inv := an.nestInvariants(r)
	for _, v := range inv {
		r.sample("invariant: %s", v)
	}
	r.count("invariants", len(inv))
	for _, f := range an.crashRoots() {
		ex, err := an.root(f)
		if err != nil {
			r.undecided("%s: %v", f.Name(), err)
			continue
		}
		r.count("functions", 1)
		for i := range ex {
			x := &ex[i]
			r.count("partitions", 1)
			eachEventIn(x.St.events, nil, func(ev *Event, ctx []altCtx) {
				switch ev.Kind {
				case "proved":
					r.count("proved", 1)
				case "hazard":
					r.count("obligations", 1)
					if an.discharged(f, x, ev, ctx, inv) {
						return
					}
					path := x.St.path[:min(ev.Depth, len(x.St.path))]
					r.violate(ev.Note, f.Name()+"/"+ev.Note, an.pos(ev.Pos), "%s%s when %s", ev.Note, hazardArgs(ev), pathString(path))
				case "call", "pcall":
					if bad := an.panickingCall(x, ev); bad != "" {
						r.violate("panicking call", f.Name()+"/"+shortFn(ev.Fn), an.pos(ev.Pos), "%s", bad)
					}
				}
			})
		}
	}
	an.byNameSafe(r)
	an.nilEntries(r)
	an.allSetUp(r)
	r.require(r.Counts["partitions"], "partition")
}

func hazardArgs(ev *Event) string {
	s := ""
	for i, a := range ev.Args {
		if i == 0 {
			s = " of "
		} else {
			s += ", "
		}
		s += showTerm(a)
	}
	return s
}

type altCtx struct {
	loop *Event
	alt  int
}

// eachEventIn visits events with the loop alternatives they happen in.
func eachEventIn(evs []*Event, ctx []altCtx, f func(ev *Event, ctx []altCtx)) {
	for _, ev := range evs {
		f(ev, ctx)
		for k, alt := range ev.Alts {
			eachEventIn(alt, append(ctx[:len(ctx):len(ctx)], altCtx{ev, k}), f)
		}
	}
}

// ---- discharging

func (an *Analyzer) discharged(f *ssa.Function, x *Exit, ev *Event, ctx []altCtx, inv []nestInv) bool {
	// the partition cannot be reached
	fs := newFacts()
	depth := ev.Depth
	if len(ctx) > 0 {
		depth = ctx[0].loop.Depth
	}
	lits := append([]Lit{}, x.St.path[:min(depth, len(x.St.path))]...)
	for _, c := range ctx {
		lits = append(lits, c.loop.Guard[c.alt]...)
	}
	for _, l := range lits {
		if !fs.assume(l.A, l.V) {
			return true
		}
	}
	if len(f.Params) > 0 && an.isOptionsPtr(sym(f.Params[0].Name(), f.Params[0].Type())) {
		if !an.applyInv(fs, sym(f.Params[0].Name(), f.Params[0].Type()), inv) {
			return true
		}
	}
	switch ev.Note {
	case "index out of range", "slice out of range":
		b := ev.Args[0]
		// sort.Interface: positions are given within the length
		if (f.Name() == "Less" || f.Name() == "Swap") && len(f.Params) == 3 && an.lenIsLen(f) {
			if b == sym(f.Params[0].Name(), f.Params[0].Type()) && len(ev.Args) == 2 {
				for _, p := range f.Params[1:] {
					if ev.Args[1] == sym(p.Name(), p.Type()) {
						return true
					}
				}
			}
		}
		if an.lessIndex(f, ev.Args) {
			return true
		}
		// the printed type of an entry of the parse result
		if b.Op == OpApp && strings.HasSuffix(b.S, ".String") && b.Args[0].Op == OpApp && b.Args[0].S == "reflect.TypeOf" && len(ev.Args) == 3 {
			if n, ok := ev.Args[1].num(); ok && n >= 0 && n <= int64(an.minKindName()) && ev.Args[2] == mkLen(b) {
				return true
			}
		}
	case "type assertion not proved":
		// what a method called by name gives back: byNameSafe looks at them all
		if f == an.byRole["callFuncByName"] && ev.Args[0].Op == OpApp && ev.Args[0].S == "(reflect.Value).Interface" && strings.Contains(ev.Args[0].String(), "[0]") {
			return true
		}
	case "nil dereference":
		// a result of a library function that reported no error
		if t := ev.Args[0]; t.Op == OpApp && !strings.Contains(t.S, "#") {
			e := mk(OpApp, t.S+"#1", 0, errorType(), t.Args...)
			if fs.known(mkEq(e, tNil)) == 1 {
				return true
			}
		}
	}
	return false
}

// lessIndex: a comparison given to sort.Slice together with the list it looks
// at is given positions of that list.
func (an *Analyzer) lessIndex(f *ssa.Function, args []*Term) bool {
	if f.Parent() == nil || len(f.Params) != 2 || len(args) != 2 {
		return false
	}
	if args[1] != sym(f.Params[0].Name(), f.Params[0].Type()) && args[1] != sym(f.Params[1].Name(), f.Params[1].Type()) {
		return false
	}
	uses := 0
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != f {
				continue
			}
			var cell ssa.Value
			for i, fv := range f.FreeVars {
				fs := sym("free:"+fv.Name(), fv.Type())
				if args[0] == fs || args[0].Op == OpDeref && args[0].Args[0] == fs {
					cell = mc.Bindings[i]
				}
			}
			if cell == nil {
				return false
			}
			for _, ref := range *mc.Referrers() {
				cl, ok := ref.(ssa.CallInstruction)
				if _, dbg := ref.(*ssa.DebugRef); dbg {
					continue
				}
				if !ok {
					return false
				}
				g := cl.Common().StaticCallee()
				if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != "sort" || (g.Name() != "Slice" && g.Name() != "SliceStable") {
					return false
				}
				mi, ok := cl.Common().Args[0].(*ssa.MakeInterface)
				if !ok {
					return false
				}
				if ld, isLoad := mi.X.(*ssa.UnOp); !(mi.X == cell || isLoad && ld.X == cell) {
					return false
				}
				uses++
			}
		}
	}
	return uses > 0
}

func errorType() types.Type { return types.Universe.Lookup("error").Type() }

// lenIsLen: the type's method Len is the length of the value.
func (an *Analyzer) lenIsLen(f *ssa.Function) bool {
	t := f.Signature.Recv().Type()
	sel := an.prog.MethodSets.MethodSet(t).Lookup(an.xgen.Pkg, "Len")
	if sel == nil {
		return false
	}
	g := an.prog.MethodValue(sel)
	ex, err := an.root(g)
	if err != nil || len(ex) == 0 {
		return false
	}
	for _, x := range ex {
		if len(x.Res) != 1 || x.Res[0] != mkLen(sym(g.Params[0].Name(), g.Params[0].Type())) {
			return false
		}
	}
	return true
}

// minKindName: the shortest printed type of what the handlers add to the
// result.
func (an *Analyzer) minKindName() int {
	n := 1 << 20
	for _, k := range nodeKinds {
		n = min(n, len("*"+an.xgen.Pkg.Name()+"."+k))
	}
	return n
}

func (an *Analyzer) panickingCall(x *Exit, ev *Event) string {
	switch ev.Fn {
	case "os.Exit", "runtime.Goexit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "syscall.Exit":
		return ev.Fn + " ends the process"
	case "regexp.MustCompile", "regexp.MustCompilePOSIX":
		if len(ev.Args) > 0 && !ev.Args[0].isConst() {
			return ev.Fn + " panics unless " + showTerm(ev.Args[0]) + " is an expression"
		}
	case "strings.Repeat", "bytes.Repeat":
		if lo, _ := x.St.facts.bounds(ev.Args[1]); lo < 0 {
			return fmt.Sprintf("%s panics when %s is negative", ev.Fn, showTerm(ev.Args[1]))
		}
	}
	return ""
}

// ---- invariants

func isSet(t *Term) *Term {
	if t.T != nil {
		if b, ok := t.T.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			return t
		}
	}
	if _, ok := t.boolean(); ok {
		return t
	}
	return mkLt(ci(0), t)
}

func (an *Analyzer) stackContent(recv *Term, stack string) *Term {
	st := &State{heap: map[*Term]*Term{}, facts: newFacts(), an: an}
	return st.load(fieldAddr(an.initOf(recv, stack), "$stk"), tMapContent)
}

// applyInv adds what the invariants say about the entry state; false when the
// partition is empty.
func (an *Analyzer) applyInv(fs *Facts, recv *Term, inv []nestInv) bool {
	for _, v := range inv {
		if fs.known(isSet(an.initOf(recv, v.field))) == 1 {
			if !fs.assume(mkEq(mkLen(an.stackContent(recv, v.stack)), ci(0)), false) {
				return false
			}
		}
	}
	return true
}

// nestInvariants finds the largest set of candidate invariants that every
// handler preserves and that hold when a document starts.
func (an *Analyzer) nestInvariants(r *Report) []nestInv {
	s := structOf(an.optType)
	if s == nil {
		return nil
	}
	written := map[string]bool{}
	for _, n := range an.handlerMod {
		written[n] = true
	}
	var inv []nestInv
	for i := 0; i < s.NumFields(); i++ {
		b, ok := s.Field(i).Type().Underlying().(*types.Basic)
		if !ok || !written[s.Field(i).Name()] || b.Info()&(types.IsBoolean|types.IsInteger) == 0 {
			continue
		}
		if !an.clearedAtStart(s.Field(i).Name()) {
			continue
		}
		for _, st := range an.stackFields() {
			inv = append(inv, nestInv{s.Field(i).Name(), st})
		}
	}
	type exits struct {
		recv *Term
		ex   []Exit
	}
	var hs []exits
	for _, h := range an.eventHandlers() {
		ex, err := an.root(h)
		if err != nil {
			r.undecided("%s: %v", h.Name(), err)
			return nil
		}
		hs = append(hs, exits{sym(h.Params[0].Name(), h.Params[0].Type()), ex})
	}
	r.count("handlers", len(hs))
	for changed := true; changed; {
		changed = false
		for k := 0; k < len(inv); k++ {
			kept := true
			for _, h := range hs {
				for i := range h.ex {
					if x := &h.ex[i]; an.succeeds(x) && !an.preserves(x, h.recv, inv[k], inv) {
						kept = false
					}
				}
			}
			if !kept {
				inv = append(inv[:k:k], inv[k+1:]...)
				changed = true
				k--
			}
		}
	}
	return inv
}

func (an *Analyzer) preserves(x *Exit, recv *Term, v nestInv, inv []nestInv) bool {
	fs := x.St.facts.clone()
	if !an.applyInv(fs, recv, inv) {
		return true
	}
	t := x.St.load(fieldAddr(recv, v.field), an.optionsField(v.field))
	set := isSet(fs.canon(t))
	if fs.known(set) == 0 || !fs.assume(set, true) {
		return true
	}
	if set.Op == OpLt { // a counter lowered by one was higher before
		init := an.initOf(recv, v.field)
		if b, o := lin(t); b == init && o < 0 {
			if !fs.assume(mkLt(ci(0), init), true) {
				return true
			}
		}
	}
	if !an.applyInv(fs, recv, inv) {
		return true
	}
	ref := x.St.load(fieldAddr(recv, v.stack), an.optionsField(v.stack))
	base, popped, pushed := x.St.stack(ref)
	n := fs.canon(stkLen(base, popped, pushed))
	if fs.known(mkEq(n, ci(0))) == 0 {
		return true
	}
	lo, _ := fs.bounds(n)
	return lo >= 1
}

// clearedAtStart: Parse clears the field before it reads the document.
func (an *Analyzer) clearedAtStart(field string) bool {
	parse := an.byRole["Parse"]
	if parse == nil {
		return false
	}
	ex, err := an.root(parse)
	if err != nil {
		return false
	}
	opt := sym(parse.Params[0].Name(), parse.Params[0].Type())
	n := 0
	for i := range ex {
		var last *Term
		for _, ev := range ex[i].St.events {
			if ev.Kind == "store" && len(ev.Args) == 2 && ev.Args[0] == fieldAddr(opt, field) {
				last = ev.Args[1]
			}
			if ev.Kind == "loop" {
				n++
				if last != tFalse && last != ci(0) {
					return false
				}
				break
			}
		}
	}
	return n > 0
}

// ---- calls by name

func (an *Analyzer) byNameSafe(r *Report) {
	f := an.byRole["callFuncByName"]
	if f == nil {
		return
	}
	ex, err := an.root(f)
	if err != nil {
		r.undecided("%s: %v", f.Name(), err)
		return
	}
	// what a call by name makes sure of before it calls
	valid, count, types_, calls := true, true, true, 0
	isNil := true
	for i := range ex {
		x := &ex[i]
		var fn, in *Term
		for _, ev := range x.St.events {
			if ev.Kind == "call" && strings.HasPrefix(ev.Fn, "(reflect.Value).Call") {
				fn, in = ev.Args[0], ev.Args[1]
				break
			}
		}
		if fn == nil {
			continue
		}
		calls++
		v, c, t := false, false, false
		for _, l := range x.St.path {
			switch {
			case l.V && l.A.Op == OpApp && l.A.S == "(reflect.Value).IsValid" && l.A.Args[0] == fn:
				v = true
			case !l.V && l.A.Op == OpApp && l.A.S == "(reflect.Value).IsZero" && l.A.Args[0] == fn:
				v = true
			case l.V && l.A.Op == OpEq && contains(l.A, mkLen(in)) && strings.Contains(l.A.String(), ".NumIn(") && contains(l.A, fn):
				c = true
			}
		}
		for _, ev := range x.St.events {
			if ev.Kind != "loop" || ev.Loop == nil || ev.Loop.Over != in || !ev.Loop.Full {
				continue
			}
			all := len(ev.Alts) > 0
			for k := range ev.Alts {
				one := false
				for _, l := range ev.Guard[k] {
					if l.V && l.A.Op == OpApp && strings.HasSuffix(l.A.S, ".AssignableTo") && contains(l.A, fn) && strings.Contains(l.A.String(), ".In(") {
						one = true
					}
					if l.V && l.A.Op == OpEq && contains(l.A, fn) && strings.Contains(l.A.String(), ".In(") && contains(l.A, in) {
						one = true
					}
				}
				all = all && one
			}
			t = t || all
		}
		valid, count, types_ = valid && v, count && c, types_ && t
		for _, l := range x.St.path {
			if l.A.Op == OpApp && l.A.S == "(reflect.Value).IsNil" {
				isNil = true
			}
		}
	}
	if calls == 0 {
		return
	}
	_ = isNil
	r.count("calls_by_name", calls)
	if !valid {
		r.violate("call by name", f.Name()+"/missing", an.pos(f.Pos()), "a method that does not exist is called")
	}
	xmlPkg := "encoding/xml"
	tree := types.NewSlice(types.NewInterfaceType(nil, nil))
	check := func(m *types.Func, args []string) {
		sig := m.Type().(*types.Signature)
		r.count("methods_callable_by_name", 1)
		where := an.pos(m.Pos())
		if sig.Params().Len() != len(args) || sig.Variadic() {
			if !count {
				r.violate("call by name", f.Name()+"/"+m.Name(), where, "%s can be called by name with %d arguments", m.Name(), len(args))
			}
			return
		}
		fits := true
		for i, a := range args {
			t := sig.Params().At(i).Type()
			switch a {
			case "tree":
				fits = fits && (types.Identical(t, tree) || types.IsInterface(t))
			case "StartElement", "EndElement":
				fits = fits && (isNamed(t, xmlPkg, a) || types.IsInterface(t))
			default:
				n := an.namedType(a[1:])
				fits = fits && (n != nil && types.Identical(t, types.NewPointer(n)) || types.IsInterface(t))
			}
		}
		if !fits {
			if !types_ {
				r.violate("call by name", f.Name()+"/"+m.Name(), where, "%s can be called by name with an argument it does not accept (%s)", m.Name(), sig)
			}
			return
		}
		if n := sig.Results().Len(); n > 0 {
			t := sig.Results().At(0).Type()
			if !isErrorType(t) {
				r.violate("call by name", f.Name()+"/"+m.Name()+"/result", where, "%s, callable by name, gives a %s back where an error is expected", m.Name(), t)
			}
		}
	}
	each := func(t *types.Named, f func(m *types.Func)) {
		if t == nil {
			return
		}
		ms := an.prog.MethodSets.MethodSet(types.NewPointer(t))
		for i := 0; i < ms.Len(); i++ {
			if m, ok := ms.At(i).Obj().(*types.Func); ok && m.Exported() {
				f(m)
			}
		}
	}
	each(an.optType, func(m *types.Func) {
		switch {
		case strings.HasPrefix(m.Name(), "On"):
			check(m, []string{"StartElement", "tree"})
		case strings.HasPrefix(m.Name(), "End"):
			check(m, []string{"EndElement", "tree"})
		}
	})
	each(an.genType, func(m *types.Func) {
		if strings.HasPrefix(m.Name(), "Gen") {
			check(m, nil)
			return
		}
		for _, l := range langs {
			for _, k := range nodeKinds {
				if m.Name() == l+k {
					check(m, []string{"*" + k})
				}
			}
		}
	})
}

// ---- nil entries

func (an *Analyzer) nilEntries(r *Report) {
	// who may add nil
	inv := an.nestInvariants(&Report{Counts: map[string]int{}})
	nilAdded := ""
	for _, h := range an.eventHandlers() {
		ex, err := an.root(h)
		if err != nil {
			continue
		}
		recv := sym(h.Params[0].Name(), h.Params[0].Type())
		for i := range ex {
			x := &ex[i]
			v := x.St.heap[fieldAddr(recv, "ProtoTree")]
			if v == nil || !an.succeeds(x) {
				continue
			}
			fs := x.St.facts.clone()
			if !an.applyInv(fs, recv, inv) {
				continue
			}
			walkTerm(v, func(t *Term) bool {
				if t.Op == OpListLit {
					for _, a := range t.Args {
						if a == tNil {
							nilAdded = h.Name()
						}
					}
				}
				return true
			})
		}
	}
	for _, lang := range langs {
		f := an.method(an.genType, "Gen"+lang)
		if f == nil {
			continue
		}
		ex, err := an.root(f)
		if err != nil {
			continue
		}
		for i := range ex {
			eachEventIn(ex[i].St.events, nil, func(ev *Event, ctx []altCtx) {
				if ev.Kind == "loop" {
					return
				}
				for _, a := range ev.Args {
					walkTerm(a, func(t *Term) bool {
						if t.Op != OpApp || t.S != "reflect.TypeOf" {
							return true
						}
						r.count("types_asked_for", 1)
						e := t.Args[0]
						known := false
						for _, l := range x0(ex[i].St.path, ctx) {
							if !l.V && l.A == mkEq(e, tNil) {
								known = true
							}
							if l.V && l.A.Op == OpTypeIs && l.A.Args[0] == e {
								known = true
							}
						}
						if !known && nilAdded != "" {
							r.violate("nil entry", f.Name(), an.pos(ev.Pos), "the type of an entry is asked for without knowing that it is not nil (%s may add nil)", nilAdded)
						}
						return true
					})
				}
			})
		}
	}
}

func x0(path []Lit, ctx []altCtx) []Lit {
	out := append([]Lit{}, path...)
	for _, c := range ctx {
		out = append(out, c.loop.Guard[c.alt]...)
	}
	return out
}

// ---- set up

func (an *Analyzer) allSetUp(r *Report) {
	parse := an.byRole["Parse"]
	if parse == nil {
		r.violate("anchor", "Parse", "", "no method Parse")
		return
	}
	// map fields written while a document is read or code is generated
	writes := func(recvType *types.Named) map[string]bool {
		out := map[string]bool{}
		if recvType == nil {
			return out
		}
		for _, f := range an.libFuncs() {
			if f.Synthetic != "" || len(f.Params) == 0 || f.Signature.Recv() == nil {
				continue
			}
			p, ok := f.Signature.Recv().Type().(*types.Pointer)
			if !ok || !types.Identical(p.Elem(), recvType) {
				continue
			}
			ex, err := an.root(f)
			if err != nil {
				continue
			}
			recv := sym(f.Params[0].Name(), f.Params[0].Type())
			s := structOf(recvType)
			for i := range ex {
				eachEvent(ex[i].St.events, func(ev *Event, _ *Event) {
					if ev.Kind != "mapput" || len(ev.Args) == 0 {
						return
					}
					for j := 0; j < s.NumFields(); j++ {
						n := s.Field(j).Name()
						if _, isMap := s.Field(j).Type().Underlying().(*types.Map); isMap && contains(ev.Args[0], (&State{heap: map[*Term]*Term{}, facts: newFacts(), an: an}).load(fieldAddr(recv, n), s.Field(j).Type())) {
							out[n] = true
						}
					}
				})
			}
		}
		return out
	}
	optMaps, genMaps := writes(an.optType), writes(an.genType)
	missing := func(x *Exit, snap map[string]*Term, maps map[string]bool) string {
		for _, n := range sortedKeys(maps) {
			t := snap[n]
			if t == nil {
				continue
			}
			if t == tNil || x.St.facts.known(mkEq(t, tNil)) == 1 {
				return n
			}
		}
		return ""
	}
	roots := an.crashRoots()
	for _, f := range an.funcs {
		if f.Pkg == an.cmd && f.Name() == "main" && f.Parent() == nil {
			roots = append(roots, f)
		}
	}
	for _, f := range roots {
		ex, err := an.root(f)
		if err != nil {
			continue
		}
		for i := range ex {
			x := &ex[i]
			eachEvent(x.St.events, func(ev *Event, _ *Event) {
				if ev.Kind != "call" || ev.Snap == nil {
					return
				}
				switch {
				case ev.Fn == "xgen.Parse":
					r.count("parsers_built", 1)
					if n := missing(x, ev.Snap, optMaps); n != "" {
						r.violate("nil map", f.Name()+"/"+n, an.pos(ev.Pos), "a parser is run whose %s, written to while it runs, is nil", n)
					}
				case an.dispatchOf(ev, nil) != nil && ev.Snap["StructAST"] != nil:
					r.count("generators_built", 1)
					if n := missing(x, ev.Snap, genMaps); n != "" {
						r.violate("nil map", f.Name()+"/"+n, an.pos(ev.Pos), "a generator is run whose %s, written to while it runs, is nil", n)
					}
				case f == parse && an.dispatchOf(ev, nil) != nil:
					for _, s := range an.stackFields() {
						r.count("stacks_set_up", 1)
						if t := ev.Snap[s]; t == nil || !knownNonNil(t) {
							r.violate("stack set up", "Parse/"+s, an.pos(ev.Pos), "a handler can run before the stack %s exists: it is %s", s, showTerm(t))
						}
					}
				}
			})
		}
	}
}
