package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is something a partition did that rules look at.
type Event struct {
	Kind  string // call, push, pop, peek, hazard, mapput, loop, assert, exit, dispatch, store
	Fn    string
	Pos   token.Pos
	Args  []*Term
	Res   *Term
	Note  string
	Loop  *LoopInfo // kind loop
	Alts  [][]*Event
	Guard [][]Lit
	Site  string
	Snap  map[string]*Term // fields of the object a module function is called on
	Depth int              // number of literals on the path when it happened
}

func (e *Event) String() string {
	s := e.Kind + " " + shortFn(e.Fn)
	for _, a := range e.Args {
		s += " " + a.String()
	}
	if e.Note != "" {
		s += " (" + e.Note + ")"
	}
	return s
}

// State is one trace partition.
type State struct {
	heap    map[*Term]*Term
	facts   *Facts
	path    []Lit
	events  []*Event
	an      *Analyzer
	renames []func(*Term) *Term
}

func (st *State) clone() *State {
	h := make(map[*Term]*Term, len(st.heap)+4)
	for k, v := range st.heap {
		h[k] = v
	}
	return &State{heap: h, facts: st.facts.clone(), path: st.path[:len(st.path):len(st.path)], events: st.events[:len(st.events):len(st.events)], an: st.an, renames: st.renames[:len(st.renames):len(st.renames)]}
}

func (st *State) event(e *Event) {
	e.Depth = len(st.path)
	st.events = append(st.events, e)
}

// assume adds a literal; false when the partition is empty.
func (st *State) assume(t *Term, v bool) bool {
	k := st.facts.known(t)
	if k == 1 {
		return v
	}
	if k == 0 {
		return !v
	}
	if t.Op == OpNot {
		return st.assume(t.Args[0], !v)
	}
	if !st.facts.assume(t, v) {
		return false
	}
	st.path = append(st.path, Lit{t, v})
	if t.Op == OpOk && v && strings.HasSuffix(t.S, "|map") {
		// an entry is left: fewer were visited than there are
		id := strings.TrimSuffix(t.S, "|map")
		ms := st.mapContent(t.Args[0])
		own := false
		walkTerm(ms, func(x *Term) bool {
			if x.Op == OpLoopVar && strings.HasPrefix(x.S, id+"~") {
				own = true
			}
			return true
		})
		if n := mkLen(ms); !own && n.Op == OpLen {
			st.facts.addLe(mk(OpIter, id, 0, types.Typ[types.Int]), n, -1)
		}
	}
	return true
}

// ---- zero values

func zeroVal(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return tEmpty
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsNumeric != 0:
			return ci(0)
		}
		return tNil
	case *types.Struct:
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, zeroVal(u.Field(i).Type()))
		}
		return mk(OpStruct, "", 0, t, fs...)
	case *types.Array:
		if u.Len() <= 32 {
			var fs []*Term
			for i := int64(0); i < u.Len(); i++ {
				fs = append(fs, zeroVal(u.Elem()))
			}
			return mkListLit(t, fs...)
		}
		return mk(OpHavoc, "array", 0, t)
	case *types.Tuple:
		return tNil
	}
	return tNil
}

// ---- memory

func isBuf(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	s := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	return s == "strings.Builder" || s == "bytes.Buffer"
}

func fieldAddr(base *Term, name string) *Term {
	return mk(OpFieldAddr, name, 0, nil, base)
}
func indexAddr(base, idx *Term) *Term { return mk(OpIndexAddr, "", 0, nil, base, idx) }

// granular reports struct types stored field by field.
func granular(t types.Type) *types.Struct {
	if isBuf(t) {
		return nil
	}
	return structOf(t)
}

func (st *State) store(addr, v *Term, t types.Type) {
	if s := granular(t); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			st.store(fieldAddr(addr, f.Name()), mkField(v, f.Name(), f.Type()), f.Type())
		}
		if s.NumFields() == 0 {
			st.heap[addr] = v
		}
		return
	}
	if a, ok := t.Underlying().(*types.Array); ok && a.Len() <= 32 {
		for i := int64(0); i < a.Len(); i++ {
			st.store(indexAddr(addr, ci(i)), mkElem(v, ci(i), a.Elem()), a.Elem())
		}
		return
	}
	if isBuf(t) {
		// zero initialisation or copy of a buffer
		if v.Op == OpStruct || v.Op == OpNil {
			v = tEmpty
		}
		st.heap[fieldAddr(addr, "$buf")] = v
		return
	}
	st.heap[addr] = v
}

func (st *State) load(addr *Term, t types.Type) *Term {
	if s := granular(t); s != nil && s.NumFields() > 0 {
		var fs []*Term
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			fs = append(fs, st.load(fieldAddr(addr, f.Name()), f.Type()))
		}
		return mkStruct(t, fs)
	}
	if a, ok := t.Underlying().(*types.Array); ok && a.Len() <= 32 {
		var fs []*Term
		for i := int64(0); i < a.Len(); i++ {
			fs = append(fs, st.load(indexAddr(addr, ci(i)), a.Elem()))
		}
		return mkListLit(t, fs...)
	}
	if isBuf(t) {
		return st.load(fieldAddr(addr, "$buf"), types.Typ[types.String])
	}
	if v, ok := st.heap[addr]; ok {
		return st.facts.canon(v)
	}
	return st.facts.canon(st.init(addr, t))
}

// init is the content a cell had before the analysed function ran.
func (st *State) init(addr *Term, t types.Type) *Term {
	switch addr.Op {
	case OpFieldAddr:
		if addr.S == "$map" {
			if c := st.an.tableContent(addr.Args[0]); c != nil {
				return c
			}
			if addr.Args[0].Op == OpNil {
				return mk(OpMapNew, "", 0, nil)
			}
		}
		base := st.init(addr.Args[0], nil)
		return mkField(base, addr.S, t)
	case OpIndexAddr:
		if addr.Args[0].Op == OpObj {
			return mk(OpHavoc, addr.Args[0].S+addr.Args[1].String(), 0, t)
		}
		return st.elem(addr.Args[0], addr.Args[1], t)
	case OpSym:
		if v := st.an.globalConst(addr); v != nil {
			return v
		}
	}
	return mk(OpDeref, "", 0, t, addr)
}

// elem reads list[idx] with writes made through the slice taken into account.
func (st *State) elem(list, idx *Term, t types.Type) *Term {
	if list.Op == OpObj { // slice of a local array
		return st.load(indexAddr(list, idx), t)
	}
	return mkElem(list, idx, t)
}

func (st *State) mapContent(ref *Term) *Term {
	if ref.Op == OpMapNew || ref.Op == OpMapPut {
		return ref
	}
	return st.load(fieldAddr(ref, "$map"), tMapContent)
}

var tMapContent = types.NewMap(types.Typ[types.String], types.Typ[types.String])

func (st *State) stack(ref *Term) (base *Term, popped int64, pushed []*Term) {
	v := st.load(fieldAddr(ref, "$stk"), tMapContent)
	if v.Op == OpStk {
		return v.Args[0], v.I, v.Args[1:]
	}
	return v, 0, nil
}

func stkLen(base *Term, popped int64, pushed []*Term) *Term {
	if base.Op == OpNil {
		return ci(int64(len(pushed)) - popped)
	}
	return mkAdd(mkLen(base), int64(len(pushed))-popped)
}

func (st *State) setStack(ref, base *Term, popped int64, pushed []*Term) {
	st.heap[fieldAddr(ref, "$stk")] = mkStk(base, popped, append([]*Term{}, pushed...))
}

// ---- frames

type Frame struct {
	fn     *ssa.Function
	ctx    string // call chain
	env    map[ssa.Value]*Term
	up     *Frame
	depth  int
	defers []*deferred
	loops  *loopTab
	called int
}

type deferred struct {
	call *ssa.CallCommon
	fn   *Term
	args []*Term
	pos  token.Pos
}

func (fr *Frame) clone() *Frame {
	e := make(map[ssa.Value]*Term, len(fr.env)+4)
	for k, v := range fr.env {
		e[k] = v
	}
	g := *fr
	g.env = e
	g.defers = append([]*deferred{}, fr.defers...)
	return &g
}

// a configuration: state plus the frame's registers
type conf struct {
	st *State
	fr *Frame
}

func (c conf) clone() conf { return conf{c.st.clone(), c.fr.clone()} }

// Exit of a function.
type Exit struct {
	St   *State
	Res  []*Term
	Kind string // return, panic, exit
	Pos  token.Pos
}

type LoopInfo struct {
	ID           string
	Pos          token.Pos
	Over         *Term  // collection, nil if unknown
	Kind         string // list, map, string, count, other
	Full         bool   // forward over the whole collection, each element once
	Order        string // forward, map, sorted
	Elem         *Term  // element term for deforested loops
	fn           *ssa.Function
	Count        int64
	HasEarlyExit bool
	Carry        map[*Term]*Term // loop-carried cell -> its final value
}

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

type undecided struct{ msg string }

func (u undecided) Error() string { return u.msg }

func giveUp(format string, args ...interface{}) {
	panic(undecided{fmt.Sprintf(format, args...)})
}
