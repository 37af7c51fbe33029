package main

// Constant tables: package-level maps, strings and slices that are never
// written after initialisation. Their content is read off the package
// initialiser by the same interpreter.

import (
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

type Table struct {
	G       *ssa.Global
	Keys    []*Term
	Vals    []*Term
	allTrue bool
}

var tables = map[*Term]*Table{}

func (tb *Table) get(key string) *Term {
	for i, k := range tb.Keys {
		if s, ok := k.str(); ok && s == key {
			return tb.Vals[i]
		}
	}
	return nil
}

func (an *Analyzer) initTables() {
	// which globals are written outside initialisers?
	for _, f := range an.funcs {
		if f.Name() == "init" && f.Parent() == nil && f.Signature.Recv() == nil && f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if g := globalOf(x.Addr); g != nil {
						an.mutated[g] = an.pos(x.Pos())
					}
				case *ssa.MapUpdate:
					for g := range mapOrigins(x.Map, map[ssa.Value]bool{}) {
						an.mutated[g] = an.pos(x.Pos())
					}
				case ssa.CallInstruction:
					if b, ok := x.Common().Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") {
						for g := range mapOrigins(x.Common().Args[0], map[ssa.Value]bool{}) {
							an.mutated[g] = an.pos(x.Pos())
						}
					}
					// address of a global handed out
					for _, a := range x.Common().Args {
						if g, ok := a.(*ssa.Global); ok {
							an.mutated[g] = an.pos(x.Pos())
						}
					}
				}
			}
		}
	}
	for _, pkg := range []*ssa.Package{an.xgen, an.cmd} {
		init := pkg.Func("init")
		if init == nil {
			continue
		}
		st := &State{heap: map[*Term]*Term{}, facts: newFacts(), an: an}
		// the init guard
		if g, ok := pkg.Members["init$guard"].(*ssa.Global); ok {
			st.heap[an.globalAddr(g)] = tFalse
			an.mutated[g] = "guard"
		}
		exits := func() (ex []Exit) {
			defer func() {
				if r := recover(); r != nil {
					if u, ok := r.(undecided); ok {
						an.note("initialiser of %s: %s", pkg, u.msg)
						return
					}
					panic(r)
				}
			}()
			return an.exec(init, nil, nil, st, nil, "init")
		}()
		if len(exits) != 1 {
			an.note("initialiser of %s not evaluated (%d exits)", pkg, len(exits))
			continue
		}
		st = exits[0].St
		for _, m := range pkg.Members {
			g, ok := m.(*ssa.Global)
			if !ok || an.mutated[g] != "" {
				continue
			}
			t := g.Type().Underlying().(*types.Pointer).Elem()
			v := st.load(an.globalAddr(g), t)
			if _, ok := t.Underlying().(*types.Map); ok {
				if v.Op != OpObj {
					continue
				}
				c := st.mapContent(v)
				tb := &Table{G: g, allTrue: true}
				ok := true
				seen := map[*Term]bool{}
				for c.Op == OpMapPut {
					if !c.Args[1].isConst() {
						ok = false
						break
					}
					if !seen[c.Args[1]] {
						seen[c.Args[1]] = true
						tb.Keys = append(tb.Keys, c.Args[1])
						tb.Vals = append(tb.Vals, c.Args[2])
						if b, isB := c.Args[2].boolean(); !isB || !b {
							tb.allTrue = false
						}
					}
					c = c.Args[0]
				}
				if !ok || c.Op != OpMapNew {
					continue
				}
				ct := sym("table:"+g.Name(), t)
				if pkg == an.cmd {
					ct = sym("table:main."+g.Name(), t)
				}
				tables[ct] = tb
				an.globalTable[g] = ct
				continue
			}
			if v.isConst() && v.Op == OpConst {
				an.constGlobals[g] = v
			} else if v.Op == OpListLit {
				an.constGlobals[g] = v
			} else if v.Op == OpApp {
				an.constGlobals[g] = v
			}
		}
	}
}

func globalOf(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			// an element of a slice held in a global
			if _, ok := x.Type().Underlying().(*types.Slice); ok {
				v = x.X
				continue
			}
			if _, ok := x.Type().Underlying().(*types.Map); ok {
				return nil
			}
			return nil
		default:
			return nil
		}
	}
}

// mapOrigins are the globals a map value may come from.
func mapOrigins(v ssa.Value, seen map[ssa.Value]bool) map[*ssa.Global]bool {
	out := map[*ssa.Global]bool{}
	if seen[v] {
		return out
	}
	seen[v] = true
	add := func(m map[*ssa.Global]bool) {
		for g := range m {
			out[g] = true
		}
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok {
			out[g] = true
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			add(mapOrigins(e, seen))
		}
	case *ssa.ChangeType:
		add(mapOrigins(x.X, seen))
	case *ssa.Parameter:
		// any argument passed at a call site of the same function
		fn := x.Parent()
		idx := -1
		for i, p := range fn.Params {
			if p == x {
				idx = i
			}
		}
		if refs := fn.Referrers(); refs != nil {
			for _, r := range *refs {
				if c, ok := r.(ssa.CallInstruction); ok && c.Common().StaticCallee() == fn && idx < len(c.Common().Args) {
					add(mapOrigins(c.Common().Args[idx], seen))
				}
			}
		}
	}
	return out
}

func (an *Analyzer) globalConst(addr *Term) *Term {
	if g, ok := addr.X.(*ssa.Global); ok {
		return an.constGlobals[g]
	}
	return nil
}

// tableContent gives the content term of a constant global map.
func (an *Analyzer) tableContent(ref *Term) *Term {
	if ref.Op == OpDeref && ref.Args[0].Op == OpSym {
		if g, ok := ref.Args[0].X.(*ssa.Global); ok {
			return an.globalTable[g]
		}
	}
	return nil
}

func mkLookupOkT(ms, key *Term) *Term {
	if tb := tables[ms]; tb != nil && key.isConst() {
		for _, k := range tb.Keys {
			if k == key {
				return tTrue
			}
		}
		return tFalse
	}
	return mkLookupOk(ms, key)
}

// tableHas decides membership of a constant key in a constant map literal.
func tableHas(t *Term) int {
	ms, k := t.Args[0], t.Args[1]
	if tb := tables[ms]; tb != nil && k.isConst() {
		for _, key := range tb.Keys {
			if key == k {
				return 1
			}
		}
		return 0
	}
	return -1
}

func chainVals(ms *Term) (vals []*Term, ok bool) {
	if tb := tables[ms]; tb != nil {
		return tb.Vals, true
	}
	for ms.Op == OpMapPut {
		vals = append(vals, ms.Args[2])
		ms = ms.Args[0]
	}
	return vals, ms.Op == OpMapNew
}

// tableBounds bounds an integer looked up in a constant map.
func tableBounds(t *Term) (lo, hi int64, ok bool) {
	if t.Op != OpLookup {
		return
	}
	vals, isT := chainVals(t.Args[0])
	if !isT || len(vals) == 0 {
		return
	}
	lo, hi = 0, 0 // a missing key reads as zero
	for _, v := range vals {
		n, isN := v.num()
		if !isN {
			return 0, 0, false
		}
		if n < lo {
			lo = n
		}
		if n > hi {
			hi = n
		}
	}
	return lo, hi, true
}

// tableMinLen is the shortest row of the table a slice was looked up in,
// when the key is known to be present; -1 if unknown.
func tableMinLen(f *Facts, s *Term) int64 {
	if s.Op != OpLookup {
		return -1
	}
	vals, isT := chainVals(s.Args[0])
	if !isT || f.known(mk(OpLookupOk, "", 0, types.Typ[types.Bool], s.Args[0], s.Args[1])) != 1 {
		return -1
	}
	m := int64(math.MaxInt64)
	for _, v := range vals {
		n, ok := mkLen(v).num()
		if !ok {
			return -1
		}
		if n < m {
			m = n
		}
	}
	return m
}

// finiteValues lists the values a term can have, when it is known to be a key
// of a constant table.
func finiteValues(t *Term, f *Facts) map[*Term]bool {
	for a, v := range f.lit {
		if v && a.Op == OpLookupOk && a.Args[1] == t {
			if tb := tables[a.Args[0]]; tb != nil {
				m := map[*Term]bool{}
				for _, k := range tb.Keys {
					m[k] = true
				}
				return m
			}
		}
	}
	return nil
}
