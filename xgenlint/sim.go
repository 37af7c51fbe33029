package main

// Evaluation of the partitions of a function for given contents of the lists
// it loops over: the alternatives of a loop's body are applied to one element
// after the other, and the cells the loop carries follow.

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (c *conc) clone() *conc {
	n := c.an.newConc()
	n.lists, n.calls, n.names = c.lists, c.calls, c.names
	for a, b := range c.m {
		n.m[a] = b
	}
	for a, b := range c.choice {
		n.choice[a] = b
	}
	return n
}

// simOut is a partition evaluated for one input; open counts the conditions
// that the input does not settle.
type simOut struct {
	c    *conc
	x    *Exit
	open int
	lits []Lit
}

func (o *simOut) ok() bool {
	if o.x.Kind != "return" {
		return false
	}
	for _, v := range o.x.Res {
		if v.T != nil && isErrorType(v.T) || v == tNil {
			w := o.c.eval(v)
			if w == tNil {
				continue
			}
			if isErrSym(w) || o.x.St.facts.known(mkEq(v, tNil)) == 0 {
				return false
			}
		}
	}
	return true
}

// heap gives the final content of a cell.
func (o *simOut) heap(addr *Term, t types.Type) *Term {
	return o.c.eval(o.x.St.load(addr, t))
}

func errSym() *Term         { return sym("an error", types.Universe.Lookup("error").Type()) }
func isErrSym(t *Term) bool { return t == errSym() }

// exitTerms visits every term of a partition.
func exitTerms(x *Exit, f func(t *Term)) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		f(t)
		for _, a := range t.Args {
			walk(a)
		}
	}
	for _, l := range x.St.path {
		walk(l.A)
	}
	for _, v := range x.Res {
		walk(v)
	}
	for a, v := range x.St.heap {
		walk(a)
		walk(v)
	}
	eachEvent(x.St.events, func(ev *Event, _ *Event) {
		for _, a := range ev.Args {
			walk(a)
		}
		walk(ev.Res)
		for _, v := range ev.Snap {
			walk(v)
		}
		for _, g := range ev.Guard {
			for _, l := range g {
				walk(l.A)
			}
		}
		if ev.Loop != nil {
			walk(ev.Loop.Over)
		}
	})
}

type simExit struct {
	x     *Exit
	carry map[string][]*Term // loop -> folds and repetitions
	names map[*Term]string
}

func prepExit(x *Exit) *simExit {
	s := &simExit{x: x, carry: map[string][]*Term{}, names: map[*Term]string{}}
	exitTerms(x, func(t *Term) {
		switch t.Op {
		case OpFold, OpListRep, OpRep:
			s.carry[t.S] = append(s.carry[t.S], t)
		}
	})
	eachEvent(x.St.events, func(ev *Event, _ *Event) {
		if ev.Res != nil {
			s.names[ev.Res] = ev.Fn
		}
	})
	return s
}

// simulate evaluates the partitions under c.
func (an *Analyzer) simulate(exits []*simExit, c *conc) []*simOut {
	var outs []*simOut
	for _, s := range exits {
		k := c.clone()
		k.names = s.names
		s.events(s.x.St.events, 0, k, s.x.St.path, func(k *conc) {
			o := &simOut{c: k, x: s.x}
			for _, l := range s.x.St.path {
				switch k.lit(l) {
				case 0:
					return
				case -1:
					o.open++
					o.lits = append(o.lits, l)
				}
			}
			outs = append(outs, o)
		})
	}
	return outs
}

// g is what is known to hold of the events: they are those of a partition or of
// an alternative of a loop.
func (s *simExit) events(evs []*Event, i int, c *conc, g []Lit, cont func(*conc)) {
	for ; i < len(evs); i++ {
		if evs[i].Kind == "loop" {
			ev := evs[i]
			s.loop(ev, c, g, func(k *conc) { s.events(evs, i+1, k, g, cont) })
			return
		}
	}
	cont(c)
}

func (s *simExit) loop(ev *Event, c *conc, g []Lit, cont func(*conc)) {
	id := ev.Loop.ID
	n := -1
	if ev.Loop.Over != nil {
		over := c.eval(ev.Loop.Over)
		switch {
		case over.Op == OpListLit:
			n = len(over.Args)
		case over == tNil:
			n = 0
		}
	} else if ev.Loop.Count >= 0 {
		n = int(ev.Loop.Count)
	}
	if n > 1<<10 {
		n = -1
	}
	cut := cutIn(ev, g)
	iter := mk(OpIter, id, 0, types.Typ[types.Int])
	env := map[*Term]*Term{}
	for _, f := range s.cells(ev) {
		switch f.Op {
		case OpFold:
			env[f] = c.eval(f.Args[0])
		case OpRep:
			env[f] = tEmpty
		case OpListRep:
			env[f] = mkListLit(f.T)
		}
	}
	with := func(env map[*Term]*Term, at int) *conc {
		k := c.clone()
		for f, v := range env {
			if f.Op == OpFold {
				k.m[f.Args[1]] = v
			}
		}
		if at >= 0 {
			k.m[iter] = ci(int64(at))
		}
		for lv, f := range ev.Loop.Carry {
			if f.Op == OpFold || k.m[lv] != nil {
				continue
			}
			// text and lists built up: the init and what came so far
			d := c.clone()
			for g, v := range env {
				d.m[g] = v
			}
			k.m[lv] = d.eval(f)
		}
		return k
	}
	final := func(env map[*Term]*Term, at int) {
		k := c.clone()
		if at >= 0 {
			k = with(env, at)
		}
		for f, v := range env {
			k.m[f] = v
		}
		cont(k)
	}
	var step func(j int, env map[*Term]*Term)
	step = func(j int, env map[*Term]*Term) {
		switch {
		case cut && n < 0:
			final(env, -1)
		case cut && j < n:
			final(env, j)
		case !cut && (n < 0 || j == n):
			final(env, -1)
		}
		if n >= 0 && j >= n || n < 0 && j >= 1 {
			return
		}
		for a := range ev.Alts {
			k := with(env, j)
			if !compatible(k, ev.Guard[a]) && !hasLoops(ev.Alts[a]) {
				continue
			}
			s.events(ev.Alts[a], 0, k, ev.Guard[a], func(k *conc) {
				if !compatible(k, ev.Guard[a]) {
					return
				}
				next := map[*Term]*Term{}
				for f, v := range env {
					next[f] = v
					switch {
					case f.Op == OpFold && 2+a < len(f.Args):
						next[f] = k.eval(f.Args[2+a].Args[0])
					case f.Op == OpRep && a < len(f.Args):
						next[f] = mkConcat(v, k.eval(f.Args[a].Args[0]))
					case f.Op == OpListRep && a < len(f.Args):
						next[f] = mkListCat(v, k.eval(f.Args[a].Args[0]))
					}
				}
				step(j+1, next)
			})
		}
	}
	step(0, env)
}

// cells are the cells a loop carries: those that appear after it, and those
// that only its own iterations read.
func (s *simExit) cells(ev *Event) []*Term {
	out := append([]*Term{}, s.carry[ev.Loop.ID]...)
	self := map[*Term]bool{}
	for _, f := range out {
		if f.Op == OpFold {
			self[f.Args[1]] = true
		}
	}
	var more []*Term
	for lv, f := range ev.Loop.Carry {
		if f.Op == OpFold && !self[lv] {
			more = append(more, f)
		}
	}
	sort.Slice(more, func(i, j int) bool { return more[i].ID < more[j].ID })
	return append(out, more...)
}

func hasLoops(evs []*Event) bool {
	for _, ev := range evs {
		if ev.Kind == "loop" {
			return true
		}
	}
	return false
}

// ---- handlers of start and end tags

// tag describes the situation a handler is evaluated in.
type tag struct {
	attrs  [][2]string
	stacks map[string]int
	fields map[string]*Term            // scalar fields of the options
	tops   map[string]map[string]*Term // stack -> field of its top
}

type handler struct {
	f     *ssa.Function
	recv  *Term
	ele   *Term
	exits []*simExit
}

func (an *Analyzer) handlerOf(f *ssa.Function) (*handler, error) {
	ex, err := an.root(f)
	if err != nil {
		return nil, err
	}
	h := &handler{f: f}
	for _, p := range f.Params {
		if an.isOptionsType(p.Type()) && h.recv == nil {
			h.recv = sym(p.Name(), p.Type())
		}
		if strings.HasPrefix(typeKey(p.Type()), "encoding/xml.") {
			h.ele = sym(p.Name(), p.Type())
		}
	}
	for i := range ex {
		h.exits = append(h.exits, prepExit(&ex[i]))
	}
	return h, nil
}

func (an *Analyzer) stackBase(recv *Term, field string) *Term {
	st := &State{heap: map[*Term]*Term{}, facts: newFacts(), an: an}
	return st.load(fieldAddr(an.initOf(recv, field), "$stk"), tMapContent)
}

func (an *Analyzer) stackTop(recv *Term, field string, depth int64) *Term {
	return mk(OpTop, "", depth, nil, an.stackBase(recv, field))
}

// topField is the content a field of a stack's top element had.
func (an *Analyzer) topField(recv *Term, stack, field string) *Term {
	st := &State{heap: map[*Term]*Term{}, facts: newFacts(), an: an}
	return st.load(fieldAddr(an.stackTop(recv, stack, 0), field), an.fieldType(stack, field))
}

func (an *Analyzer) fieldType(kind, field string) types.Type {
	s := structOf(an.kindType(kind))
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == field {
			return s.Field(i).Type()
		}
	}
	return nil
}

func (an *Analyzer) kindType(kind string) types.Type {
	if n := an.namedType(kind); n != nil {
		return n
	}
	return nil
}

// typeOf is what a reference resolves to.
func typeOf(name string) *Term {
	return mk(OpApp, "type", 0, types.Typ[types.String], cs(name))
}

func isTypeOf(t *Term, name string) bool {
	for t.Op == OpApp && t.S == "type" {
		if t.Args[0] == cs(name) {
			return true
		}
		t = t.Args[0]
	}
	return false
}

// attrTerm is an attribute; its name may be given as space\x00local.
func attrTerm(t types.Type, local, value string) *Term {
	s := structOf(t)
	space := ""
	if a, b, ok := strings.Cut(local, "\x00"); ok {
		space, local = a, b
	}
	if s == nil {
		return nil
	}
	var fs []*Term
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		switch {
		case f.Name() == "Value":
			fs = append(fs, cs(value))
		case structOf(f.Type()) != nil:
			n := structOf(f.Type())
			var ns []*Term
			for j := 0; j < n.NumFields(); j++ {
				if n.Field(j).Name() == "Local" {
					ns = append(ns, cs(local))
				} else {
					ns = append(ns, cs(space))
				}
			}
			fs = append(fs, mkStruct(f.Type(), ns))
		default:
			return nil
		}
	}
	return mkStruct(t, fs)
}

// setAttrs fixes the attributes of the element h is called for.
func (an *Analyzer) setAttrs(c *conc, h *handler, attrs [][2]string) bool {
	var elT types.Type
	var listT types.Type
	s := structOf(h.ele.T)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if sl, ok := s.Field(i).Type().Underlying().(*types.Slice); ok && s.Field(i).Name() == "Attr" {
			elT, listT = sl.Elem(), s.Field(i).Type()
		}
	}
	if elT == nil {
		return false
	}
	var ts []*Term
	for _, a := range attrs {
		t := attrTerm(elT, a[0], a[1])
		if t == nil {
			return false
		}
		ts = append(ts, t)
	}
	c.m[mkField(h.ele, "Attr", listT)] = mkListLit(listT, ts...)
	return true
}

func (an *Analyzer) situation(h *handler, t *tag) *conc {
	c := an.newConc()
	c.lists = true
	c.calls = an.handlerCall
	if h.ele != nil && typeKey(h.ele.T) == "encoding/xml.StartElement" {
		an.setAttrs(c, h, t.attrs)
	}
	if t.stacks != nil {
		s := structOf(an.optType)
		for i := 0; i < s.NumFields(); i++ {
			if an.isStackField(s.Field(i)) {
				n := s.Field(i).Name()
				c.m[mkLen(an.stackBase(h.recv, n))] = ci(int64(t.stacks[n]))
			}
		}
	}
	for f, v := range t.fields {
		c.m[an.initOf(h.recv, f)] = v
	}
	for s, fs := range t.tops {
		for f, v := range fs {
			c.m[an.topField(h.recv, s, f)] = v
		}
	}
	return c
}

func (an *Analyzer) isStackField(v *types.Var) bool {
	p, ok := v.Type().Underlying().(*types.Pointer)
	return ok && an.stackType != nil && types.Identical(p.Elem(), an.stackType)
}

// handlerCall gives the results of the calls a handler makes: references
// resolve, numbers are read.
func (an *Analyzer) handlerCall(fn string, i int64, t types.Type, args []*Term) *Term {
	short := shortFn(fn)
	switch short {
	case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint":
		s, ok := args[0].str()
		if !ok {
			return nil
		}
		base, bits := 10, 64
		if len(args) == 3 {
			b, ok1 := args[1].num()
			w, ok2 := args[2].num()
			if !ok1 || !ok2 {
				return nil
			}
			base, bits = int(b), int(w)
		}
		n, err := strconv.ParseInt(s, base, bits)
		if short == "strconv.ParseUint" {
			var u uint64
			u, err = strconv.ParseUint(s, base, bits)
			n = int64(u)
			if u > 1<<62 {
				n = 1 << 62
			}
		}
		if i == 0 {
			return ci(n)
		}
		if err != nil {
			return errSym()
		}
		return tNil
	}
	if f := an.byRole["GetValueType"]; f != nil && short == "xgen."+f.Name() {
		if i == 1 {
			return tNil
		}
		for _, a := range args {
			if a.T != nil && isStringType(a.T) || a.Op == OpConst || a.Op == OpApp {
				if a == tEmpty {
					return tEmpty
				}
				return mk(OpApp, "type", 0, types.Typ[types.String], a)
			}
		}
		return nil
	}
	if t != nil && isErrorType(t) {
		return tNil
	}
	return nil
}
