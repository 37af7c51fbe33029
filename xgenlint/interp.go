package main

// The abstract interpreter: executes one SSA function over terms, partitioning
// at branches, summarising each loop once by an optimistic fixpoint over the
// registers and cells it changes, and interpreting in-module callees in place.

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	maxDepth      = 16
	maxPartitions = 20000
)

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type loopTab struct {
	byHeader map[*ssa.BasicBlock]*loop
	all      []*loop
}

func (an *Analyzer) loopsOf(fn *ssa.Function) *loopTab {
	if t, ok := an.loopCache[fn]; ok {
		return t
	}
	t := &loopTab{byHeader: map[*ssa.BasicBlock]*loop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := t.byHeader[s]
				if l == nil {
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					t.byHeader[s] = l
					t.all = append(t.all, l)
				}
				// blocks that reach b without passing s
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	an.loopCache[fn] = t
	return t
}

func (t *loopTab) innermost(b *ssa.BasicBlock) *loop {
	var best *loop
	for _, l := range t.all {
		if l.blocks[b] && (best == nil || len(l.blocks) < len(best.blocks)) {
			best = l
		}
	}
	return best
}

func loopID(fr *Frame, l *loop) string {
	return fmt.Sprintf("%s>%s.%d", fr.ctx, fr.fn.Name(), l.header.Index)
}

type out struct {
	c        conf
	from, to *ssa.BasicBlock // edge leaving the region, or latch when to is its header
	ret      bool
	exit     Exit
}

type walker struct {
	an   *Analyzer
	reg  *loop
	outs []out
}

// exec interprets fn in state st and returns every way it can end.
func (an *Analyzer) exec(fn *ssa.Function, args, binds []*Term, st *State, up *Frame, site string) []Exit {
	if fn.Blocks == nil {
		giveUp("no body for %s", fn)
	}
	depth := 0
	ctx := site
	if up != nil {
		depth = up.depth + 1
		ctx = up.ctx + "/" + site
	}
	if depth > maxDepth {
		giveUp("inlining too deep at %s", fn)
	}
	an.analysed[fn] = true
	fr := &Frame{fn: fn, ctx: ctx, env: map[ssa.Value]*Term{}, up: up, depth: depth, loops: an.loopsOf(fn)}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = binds[i]
	}
	w := &walker{an: an}
	w.step(conf{st, fr}, fn.Blocks[0], 0)
	var ex []Exit
	for _, o := range w.outs {
		if !o.ret {
			giveUp("stray edge in %s", fn)
		}
		ex = append(ex, o.exit)
	}
	return ex
}

func (w *walker) add(o out) {
	w.outs = append(w.outs, o)
	if len(w.outs) > maxPartitions {
		giveUp("more than %d partitions", maxPartitions)
	}
}

// edge follows a control-flow edge.
func (w *walker) edge(c conf, from, to *ssa.BasicBlock) {
	if w.reg != nil {
		if to == w.reg.header || !w.reg.blocks[to] {
			w.add(out{c: c, from: from, to: to})
			return
		}
	}
	if l := c.fr.loops.byHeader[to]; l != nil && !l.blocks[from] {
		w.summarise(c, from, l)
		return
	}
	enterPhis(w.an, c, from, to)
	w.step(c, to, 0)
}

func predIndex(from, to *ssa.BasicBlock) int {
	for i, p := range to.Preds {
		if p == from {
			return i
		}
	}
	giveUp("no such edge")
	return -1
}

func enterPhis(an *Analyzer, c conf, from, to *ssa.BasicBlock) {
	i := predIndex(from, to)
	var phis []*ssa.Phi
	var vals []*Term
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, c.st.facts.canon(an.val(c, p.Edges[i])))
	}
	for k, p := range phis {
		c.fr.env[p] = vals[k]
	}
}

// val is the term of an SSA value.
func (an *Analyzer) val(c conf, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x)
	case *ssa.Global:
		return an.globalAddr(x)
	case *ssa.Function:
		t := mk(OpFn, x.String(), 0, x.Type())
		t.X = x
		return t
	case *ssa.Builtin:
		return mk(OpFn, "builtin."+x.Name(), 0, x.Type())
	}
	if t, ok := c.fr.env[v]; ok {
		return t
	}
	giveUp("no value for %s in %s", v.Name(), c.fr.fn)
	return nil
}

func constTerm(x *ssa.Const) *Term {
	if x.Value == nil {
		return zeroVal(x.Type())
	}
	v := x.Value
	if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		v = constant.ToInt(v)
	}
	return mkConst(v, x.Type())
}

func (an *Analyzer) globalAddr(g *ssa.Global) *Term {
	s := sym("global:"+g.String(), g.Type())
	s.X = g
	return s
}

// step interprets the instructions of b from index i.
func (w *walker) step(c conf, b *ssa.BasicBlock, i int) {
	an := w.an
	an.steps++
	for ; i < len(b.Instrs); i++ {
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			cond := c.st.facts.canon(an.val(c, in.Cond))
			switch c.st.facts.known(cond) {
			case 1:
				w.edge(c, b, b.Succs[0])
			case 0:
				w.edge(c, b, b.Succs[1])
			default:
				if w.diamond(c, b, cond) {
					return
				}
				c2 := c.clone()
				if c.st.assume(cond, true) {
					w.edge(c, b, b.Succs[0])
				}
				if c2.st.assume(cond, false) {
					w.edge(c2, b, b.Succs[1])
				}
			}
			return
		case *ssa.Jump:
			w.edge(c, b, b.Succs[0])
			return
		case *ssa.Return:
			var rs []*Term
			for _, r := range in.Results {
				rs = append(rs, c.st.facts.canon(an.val(c, r)))
			}
			w.add(out{ret: true, c: c, exit: Exit{St: c.st, Res: rs, Kind: "return", Pos: in.Pos()}})
			return
		case *ssa.Panic:
			c.st.event(&Event{Kind: "hazard", Fn: "panic", Pos: in.Pos(), Args: []*Term{an.val(c, in.X)}, Note: "explicit panic"})
			w.add(out{ret: true, c: c, exit: Exit{St: c.st, Kind: "panic", Pos: in.Pos()}})
			return
		case *ssa.Call:
			rs := an.call(c, in)
			if len(rs) == 1 {
				if !rs[0].cont {
					w.add(out{ret: true, c: c, exit: rs[0].exit})
					return
				}
				c = rs[0].c
				continue
			}
			for _, r := range rs {
				if !r.cont {
					w.add(out{ret: true, c: r.c, exit: r.exit})
					continue
				}
				w.step(r.c, b, i+1)
			}
			return
		case *ssa.RunDefers:
			rs := an.runDefers(c)
			if len(rs) == 1 && rs[0].cont {
				c = rs[0].c
				continue
			}
			for _, r := range rs {
				if !r.cont {
					w.add(out{ret: true, c: r.c, exit: r.exit})
					continue
				}
				w.step(r.c, b, i+1)
			}
			return
		default:
			fork := an.instr(c, b.Instrs[i])
			if len(fork) > 0 {
				for _, f := range fork {
					w.step(f, b, i+1)
				}
				return
			}
		}
	}
}

// diamond joins the two arms of a branch that only chooses between nothing
// and nothing: an if whose arms do not change anything.
func (w *walker) diamond(c conf, b *ssa.BasicBlock, cond *Term) bool {
	s0, s1 := b.Succs[0], b.Succs[1]
	if s0 == s1 {
		w.edge(c, b, s0)
		return true
	}
	empty := func(x, to *ssa.BasicBlock) bool {
		if len(x.Preds) != 1 || len(x.Succs) != 1 || x.Succs[0] != to {
			return false
		}
		for _, in := range x.Instrs {
			switch in.(type) {
			case *ssa.Jump, *ssa.DebugRef:
			default:
				return false
			}
		}
		return true
	}
	var join *ssa.BasicBlock
	var p0, p1 *ssa.BasicBlock
	switch {
	case empty(s0, s1):
		join, p0, p1 = s1, s0, b
	case empty(s1, s0):
		join, p0, p1 = s0, b, s1
	case len(s0.Succs) == 1 && len(s1.Succs) == 1 && s0.Succs[0] == s1.Succs[0] && empty(s0, s0.Succs[0]) && empty(s1, s1.Succs[0]):
		join, p0, p1 = s0.Succs[0], s0, s1
	default:
		return false
	}
	// phis must agree
	i0, i1 := predIndex(p0, join), predIndex(p1, join)
	for _, in := range join.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if w.an.val(c, p.Edges[i0]) != w.an.val(c, p.Edges[i1]) {
			return false
		}
	}
	if l := c.fr.loops.byHeader[join]; l != nil || w.reg != nil && !w.reg.blocks[join] {
		return false
	}
	w.edge(c, p0, join)
	return true
}

// ---- loops

type cell struct {
	phi  *ssa.Phi
	addr *Term
	typ  types.Type
	init *Term
	lv   *Term
	ind  bool // induction variable: init + iter
	elem bool // the element the iteration looks at
}

func (w *walker) summarise(c conf, from *ssa.BasicBlock, l *loop) {
	an := w.an
	id := loopID(c.fr, l)
	iter := mk(OpIter, id, 0, types.Typ[types.Int])
	var phis []*cell
	pi := predIndex(from, l.header)
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, &cell{phi: p, init: c.st.facts.canon(an.val(c, p.Edges[pi])), typ: p.Type()})
	}
	heap := map[*Term]*cell{}
	var order []*cell
	nobj := map[*Term]bool{}
	for a := range c.st.heap {
		nobj[rootOf(a)] = true
	}
	var latches, exits []out
	var c0 conf
	for round := 0; ; round++ {
		if round > 40 {
			giveUp("loop in %s does not stabilise", c.fr.fn)
		}
		c0 = c.clone()
		for _, p := range phis {
			switch {
			case p.ind:
				b, o := lin(p.init)
				if b == nil {
					c0.fr.env[p.phi] = mkAdd(iter, o)
				} else {
					c0.fr.env[p.phi] = mk(OpArith, "+", 0, p.typ, p.init, iter)
				}
			case p.lv != nil:
				c0.fr.env[p.phi] = p.lv
			default:
				c0.fr.env[p.phi] = p.init
			}
		}
		for _, h := range order {
			if h.elem {
				delete(c0.st.heap, h.addr)
			} else if h.ind {
				c0.st.heap[h.addr] = mkAdd(iter, h.init.constInt())
			} else {
				c0.st.heap[h.addr] = h.lv
			}
		}
		w2 := &walker{an: an, reg: l}
		w2.step(c0.clone(), l.header, 0)
		latches, exits = nil, nil
		for _, o := range w2.outs {
			if !o.ret && o.to == l.header {
				latches = append(latches, o)
			} else {
				exits = append(exits, o)
			}
		}
		changed := false
		for _, lt := range latches {
			i := predIndex(lt.from, l.header)
			for k, p := range phis {
				v := lt.c.st.facts.canon(an.val(lt.c, p.phi.Edges[i]))
				if p.lv == nil && v != c0.fr.env[p.phi] && lt.c.st.facts.canon(c0.fr.env[p.phi]) != v {
					p.lv = mk(OpLoopVar, fmt.Sprintf("%s~%d", id, k), 0, p.typ)
					changed = true
				}
			}
			for a, v := range lt.c.st.heap {
				old, ok := c0.st.heap[a]
				if ok && old == v || lt.c.st.facts.canon(v) == lt.c.st.facts.canon(old0(old, v)) && ok {
					continue
				}
				if !ok {
					r := rootOf(a)
					if r.Op == OpObj && !nobj[r] {
						continue // allocated in this iteration
					}
					old = c0.st.init(a, v.T)
					if old == v {
						continue
					}
				}
				if heap[a] == nil {
					h := &cell{addr: a, init: old, typ: v.T}
					if ea := elemOf(a); ea != nil && ea.Args[1] == iter && ea.Args[0].Op != OpObj && !contains(ea.Args[0], iter) {
						// the element of this iteration: nothing wrote it before
						h.elem = true
						heap[a] = h
						order = append(order, h)
						continue
					}
					h.lv = mk(OpLoopVar, fmt.Sprintf("%s~@%d", id, a.ID), 0, v.T)
					if strings.HasPrefix(a.S, "$") && a.S != "$buf" {
						h.lv.T = nil
					}
					heap[a] = h
					order = append(order, h)
					changed = true
				}
			}
		}
		if changed {
			continue
		}
		// induction variables
		for _, p := range phis {
			if p.lv == nil || p.ind || len(latches) == 0 {
				continue
			}
			if b, ok := p.typ.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
				continue
			}
			ok := true
			for _, lt := range latches {
				v := an.val(lt.c, p.phi.Edges[predIndex(lt.from, l.header)])
				if v != mkAdd(p.lv, 1) {
					ok = false
				}
			}
			if ok {
				p.ind = true
				changed = true
			}
		}
		if changed {
			// addresses are computed anew from the induction variables
			heap, order = map[*Term]*cell{}, nil
			continue
		}
		for _, h := range order {
			if h.ind || h.elem || len(latches) == 0 {
				continue
			}
			if _, ok := h.init.num(); !ok {
				continue
			}
			ok := true
			for _, lt := range latches {
				if lt.c.st.heap[h.addr] != mkAdd(h.lv, 1) {
					ok = false
				}
			}
			if ok {
				h.ind = true
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	li := an.loopInfo(id, c.fr, l, c0, exits)
	if li.Kind == "count" && li.Count >= 0 && li.Count <= 16 {
		delete(an.loopsSeen, id)
		w.unroll(c, from, l, int(li.Count)+2)
		return
	}
	// final values
	fin := map[*Term]*Term{}
	cut := map[*Term]*Term{}
	mkFin := func(k *cell, get func(out) *Term) {
		if k.lv == nil || k.ind {
			return
		}
		var alts []*Term
		for _, lt := range latches {
			v := get(lt)
			as := []*Term{v}
			for _, g := range lt.c.st.path[len(c0.st.path):] {
				if g.A.Op == OpOk || mentionsIterBound(g.A, iter) {
					continue
				}
				as = append(as, litTerm(g))
			}
			alts = append(alts, mk(OpAlt, "", 0, v.T, as...))
		}
		fin[k.lv] = finalValue(id, k, alts, 0)
		cut[k.lv] = finalValue(id, k, alts, 1)
	}
	for _, p := range phis {
		p := p
		mkFin(p, func(o out) *Term {
			return o.c.st.facts.canon(an.val(o.c, p.phi.Edges[predIndex(o.from, l.header)]))
		})
	}
	mapped := map[*Term]*Term{}
	for _, h := range order {
		h := h
		if h.elem {
			ea := elemOf(h.addr)
			x := ea.Args[0]
			if mapped[x] != nil {
				continue
			}
			var et types.Type
			if x.T != nil {
				if s, ok := x.T.Underlying().(*types.Slice); ok {
					et = s.Elem()
				}
			}
			if et == nil {
				mapped[x] = mk(OpHavoc, id+"elems", 0, x.T)
				continue
			}
			var alts []*Term
			for _, lt := range latches {
				v := lt.c.st.load(ea, et)
				as := []*Term{mkListLit(nil, v)}
				for _, g := range lt.c.st.path[len(c0.st.path):] {
					if g.A.Op == OpOk || mentionsIterBound(g.A, iter) {
						continue
					}
					as = append(as, litTerm(g))
				}
				alts = append(alts, mk(OpAlt, "", 0, nil, as...))
			}
			all := li.Over == x
			if li.Kind == "map" && x.Op == OpApp && x.S == "make" && li.Over != nil && x.Args[0] == mkLen(c0.st.mapContent(li.Over)) {
				all = true // as many places as entries
			}
			if li.Full && all {
				mapped[x] = mk(OpListRep, id, 0, x.T, alts...)
			} else {
				mapped[x] = mk(OpHavoc, id+"elems", 0, x.T)
			}
			continue
		}
		mkFin(h, func(o out) *Term { return o.c.st.facts.canon(o.c.st.heap[h.addr]) })
	}
	li.Carry = fin
	ev := &Event{Kind: "loop", Pos: li.Pos, Loop: li}
	for _, lt := range latches {
		ev.Alts = append(ev.Alts, lt.c.st.events[len(c0.st.events):])
		ev.Guard = append(ev.Guard, lt.c.st.path[len(c0.st.path):])
	}
	for _, o := range exits {
		normal := !o.ret && o.from == l.header
		m := cut
		if normal {
			m = fin
		} else if !o.ret {
			li.HasEarlyExit = true
		}
		s := newSubst(func(t *Term) *Term {
			if t.Op == OpLoopVar {
				if r, ok := m[t]; ok {
					return r
				}
			}
			return nil
		})
		st := o.c.st
		ns := &State{heap: make(map[*Term]*Term, len(st.heap)), facts: st.facts.apply(s), an: an, renames: st.renames}
		el := func(t *Term) *Term { // the list itself, not what was read from it before
			r, ok := mapped[t]
			if !ok {
				return t
			}
			if !normal {
				return mk(OpHavoc, id+"elems", 0, t.T)
			}
			return r
		}
		for a, v := range st.heap {
			if ea := elemOf(a); len(mapped) > 0 && ea != nil && mapped[ea.Args[0]] != nil {
				continue
			}
			ns.heap[s.apply(a)] = el(s.apply(v))
		}
		ns.path = append(ns.path, c0.st.path...)
		for _, g := range st.path[len(c0.st.path):] {
			a := s.apply(g.A)
			v := g.V
			if a.Op == OpNot {
				a, v = a.Args[0], !v
			}
			if a.isConst() || normal && (a.Op == OpOk || mentionsIterBound(a, iter)) {
				continue
			}
			ns.path = append(ns.path, Lit{a, v})
		}
		ns.events = append(ns.events, c0.st.events...)
		ns.events = append(ns.events, ev)
		for _, e := range st.events[len(c0.st.events):] {
			e2 := *e
			e2.Args = nil
			for _, x := range e.Args {
				e2.Args = append(e2.Args, s.apply(x))
			}
			if e.Res != nil {
				e2.Res = s.apply(e.Res)
			}
			if e.Snap != nil {
				e2.Snap = map[string]*Term{}
				for k, x := range e.Snap {
					e2.Snap[k] = s.apply(x)
				}
			}
			ns.events = append(ns.events, &e2)
		}
		if o.ret {
			ex := o.exit
			ex.St = ns
			var rs []*Term
			for _, r := range ex.Res {
				rs = append(rs, el(s.apply(r)))
			}
			ex.Res = rs
			w.add(out{ret: true, c: conf{ns, o.c.fr}, exit: ex})
			continue
		}
		nf := o.c.fr.clone()
		for v, t := range nf.env {
			nf.env[v] = el(s.apply(t))
		}
		w.edge(conf{ns, nf}, o.from, o.to)
	}
	if len(exits) == 0 {
		an.note("loop without exit in %s", c.fr.fn)
	}
}

func old0(old, v *Term) *Term {
	if old == nil {
		return v
	}
	return old
}

func (t *Term) constInt() int64 { n, _ := t.num(); return n }

func litTerm(l Lit) *Term {
	if l.V {
		return l.A
	}
	return mkNot(l.A)
}

// mentionsIterBound: a comparison of the loop's own counter.
func mentionsIterBound(a, iter *Term) bool {
	if a.Op != OpLt && a.Op != OpEq {
		return false
	}
	for _, x := range a.Args {
		if b, _ := lin(x); b == iter {
			return true
		}
	}
	return false
}

// elemOf returns the address of the list element an address lies in.
func elemOf(a *Term) *Term {
	for a.Op == OpFieldAddr {
		a = a.Args[0]
	}
	if a.Op == OpIndexAddr {
		return a
	}
	return nil
}

func rootOf(a *Term) *Term {
	for a.Op == OpFieldAddr || a.Op == OpIndexAddr {
		a = a.Args[0]
	}
	return a
}

// finalValue folds a loop-carried cell.
func finalValue(id string, k *cell, alts []*Term, part int64) *Term {
	lv := k.lv
	isStr, isList := true, true
	var reps, lreps []*Term
	for _, a := range alts {
		v := a.Args[0]
		guards := a.Args[1:]
		if v == lv {
			reps = append(reps, mk(OpAlt, "", 0, nil, append([]*Term{tEmpty}, guards...)...))
			lreps = append(lreps, mk(OpAlt, "", 0, nil, append([]*Term{mkListLit(nil)}, guards...)...))
			continue
		}
		if v.Op == OpConcat && v.Args[0] == lv {
			rest := mkConcat(v.Args[1:]...)
			if contains(rest, lv) {
				isStr = false
			}
			reps = append(reps, mk(OpAlt, "", 0, nil, append([]*Term{rest}, guards...)...))
		} else {
			isStr = false
		}
		if v.Op == OpListCat && v.Args[0] == lv {
			rest := mkListCat(v.Args[1:]...)
			lreps = append(lreps, mk(OpAlt, "", 0, nil, append([]*Term{rest}, guards...)...))
		} else if v.Op == OpListLit || v.Op == OpListCat || v.Op != OpConcat {
			isList = false
		}
		if v.Op != OpListCat {
			isList = false
		}
	}
	allSame := true
	for _, a := range alts {
		if a.Args[0] != lv {
			allSame = false
		}
	}
	switch {
	case allSame:
		return k.init
	case isStr:
		return mkConcat(k.init, mk(OpRep, id, part, types.Typ[types.String], reps...))
	case isList:
		return mkListCat(k.init, mk(OpListRep, id, part, k.typ, lreps...))
	}
	f := mk(OpFold, id, part, k.typ, append([]*Term{k.init, lv}, alts...)...)
	return f
}

// loopInfo recognises what a loop ranges over.
func (an *Analyzer) loopInfo(id string, fr *Frame, l *loop, c0 conf, exits []out) *LoopInfo {
	li := &LoopInfo{ID: id, Kind: "other", fn: fr.fn, Count: -1}
	for _, in := range l.header.Instrs {
		if in.Pos().IsValid() {
			li.Pos = in.Pos()
			break
		}
	}
	if !li.Pos.IsValid() {
	find:
		for b := range l.blocks {
			for _, in := range b.Instrs {
				if in.Pos().IsValid() {
					li.Pos = in.Pos()
					break find
				}
			}
		}
	}
	iter := mk(OpIter, id, 0, types.Typ[types.Int])
	for _, o := range exits {
		if o.ret || o.from != l.header {
			continue
		}
		for _, g := range o.c.st.path[len(c0.st.path):] {
			a := g.A
			switch a.Op {
			case OpOk:
				if !g.V {
					li.Over = a.Args[0]
					li.Full = true
					li.Kind = a.S[strings.LastIndex(a.S, "|")+1:]
					li.Order = li.Kind
				}
			case OpLt, OpEq:
				var x, y = a.Args[0], a.Args[1]
				var bound *Term
				var k int64
				xb, xo := lin(x)
				yb, yo := lin(y)
				switch {
				case a.Op == OpLt && !g.V && xb == iter: // not iter+xo < y
					bound, k = y, -xo
				case a.Op == OpLt && g.V && yb == iter: // x < iter+yo
					bound, k = x, 1-yo
				case a.Op == OpEq && g.V && xb == iter:
					bound, k = y, -xo
				case a.Op == OpEq && g.V && yb == iter:
					bound, k = x, -yo
				default:
					continue
				}
				bb, bo := lin(bound)
				if bb != nil && bb.Op == OpLen {
					li.Over = bb.Args[0]
					li.Kind = "list"
					li.Order = "forward"
					li.Full = k+bo == 0
					walkTerm(bb, func(t *Term) bool {
						if t.Op == OpLoopVar && strings.HasPrefix(t.S, id+"~") {
							li.Full = false
						}
						return true
					})
				} else if bb == nil {
					li.Kind = "count"
					li.Count = bo + k
				}
			}
		}
	}
	an.loopsSeen[id] = li
	return li
}

// unroll executes a loop whose trip count is a small constant.
func (w *walker) unroll(c conf, from *ssa.BasicBlock, l *loop, limit int) {
	ctx := c.fr.ctx
	cur := []out{{c: c, from: from}}
	for k := 0; len(cur) > 0; k++ {
		if k > limit {
			giveUp("unrolling of a loop in %s does not end", c.fr.fn)
		}
		var next []out
		for _, o := range cur {
			o.c.fr.ctx = fmt.Sprintf("%s#%d", ctx, k)
			enterPhis(w.an, o.c, o.from, l.header)
			w2 := &walker{an: w.an, reg: l}
			w2.step(o.c, l.header, 0)
			for _, x := range w2.outs {
				if x.ret {
					w.add(x)
				} else if x.to == l.header {
					next = append(next, x)
				} else {
					x.c.fr.ctx = ctx
					w.edge(x.c, x.from, x.to)
				}
			}
		}
		cur = next
	}
}
