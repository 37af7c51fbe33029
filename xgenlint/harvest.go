package main

// Constants a function compares things with: the finite domains the rules
// evaluate partitions on are extended by them and their neighbours, so that a
// special case for a particular length, count or name lies in the domain.

import (
	"go/constant"
	"go/token"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

type harvest struct {
	ints []int64
	strs []string
}

// harvestOf collects the constants compared in functions and in the functions
// of the module they call.
func (an *Analyzer) harvestOf(fs ...*ssa.Function) harvest {
	ints, strs := map[int64]bool{}, map[string]bool{}
	seen := map[*ssa.Function]bool{}
	konst := func(v ssa.Value, cmp bool) {
		for {
			if cv, ok := v.(*ssa.MakeInterface); ok {
				v = cv.X
				continue
			}
			break
		}
		k, ok := v.(*ssa.Const)
		if !ok || k.Value == nil {
			return
		}
		switch k.Value.Kind() {
		case constant.Int:
			if n, ok := constant.Int64Val(k.Value); ok && cmp && n > 0 && n <= 1<<20 {
				ints[n] = true
			}
		case constant.String:
			if s := constant.StringVal(k.Value); s != "" && len(s) < 200 {
				strs[s] = true
			}
		}
	}
	var visit func(f *ssa.Function, depth int)
	visit = func(f *ssa.Function, depth int) {
		if f == nil || seen[f] || depth > 8 || len(f.Blocks) == 0 || !an.inModule(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.BinOp:
					switch in.Op {
					case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ, token.REM:
						konst(in.X, true)
						konst(in.Y, true)
					}
				case *ssa.Slice:
					konst(in.Low, true)
					konst(in.High, true)
				case *ssa.Lookup:
					konst(in.Index, false)
				case *ssa.UnOp:
					if g, ok := in.X.(*ssa.Global); ok && in.Op == token.MUL {
						for _, k := range an.smallTable(g) {
							strs[k] = true
						}
					}
				case *ssa.Store:
					// lists of texts to look for
					if _, ok := in.Addr.(*ssa.IndexAddr); ok {
						konst(in.Val, false)
					}
				case *ssa.MapUpdate:
					konst(in.Key, false)
				case *ssa.MakeClosure:
					if g, ok := in.Fn.(*ssa.Function); ok {
						visit(g, depth+1)
					}
				case ssa.CallInstruction:
					g := in.Common().StaticCallee()
					for _, a := range in.Common().Args {
						// texts are looked for in other texts
						if g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "strings" {
							konst(a, false)
						}
					}
					visit(g, depth+1)
				}
			}
		}
	}
	for _, f := range fs {
		visit(f, 0)
	}
	var h harvest
	for n := range ints {
		h.ints = append(h.ints, n)
	}
	for s := range strs {
		h.strs = append(h.strs, s)
	}
	sort.Slice(h.ints, func(i, j int) bool { return h.ints[i] < h.ints[j] })
	sort.Strings(h.strs)
	return h
}

// smallTable gives the texts in a constant package-level variable: the keys of
// a map, the elements of a list, the arguments of a call. Large tables are
// data of the program, not special cases.
func (an *Analyzer) smallTable(g *ssa.Global) []string {
	var out []string
	if t := an.globalTable[g]; t != nil {
		for _, k := range tables[t].Keys {
			if s, ok := k.str(); ok {
				out = append(out, s)
			}
		}
	} else if t := an.constGlobals[g]; t != nil {
		walkTerm(t, func(x *Term) bool {
			if s, ok := x.str(); ok && s != "" && len(s) < 200 {
				out = append(out, s)
			}
			return true
		})
	}
	if len(out) > 24 {
		return nil
	}
	return out
}

// sizes gives the sizes 0..n and those around the constants, up to a bound.
func (h harvest) sizes(n, max int64) []int {
	m := map[int]bool{}
	for i := int64(0); i <= n; i++ {
		m[int(i)] = true
	}
	for _, c := range h.ints {
		for d := int64(-1); d <= 2; d++ {
			if d == 2 && c < 6 {
				continue // lengths where an index is compared
			}
			if c+d >= 0 && c+d <= max {
				m[int(c+d)] = true
			}
		}
	}
	var out []int
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

// names gives names of the lengths around the constants, and those compared with.
func (h harvest) names(max int64) []string {
	var out []string
	for _, n := range h.sizes(0, max) {
		if n > 2 {
			out = append(out, fill(n))
		}
	}
	for _, s := range h.strs {
		if isName(s) {
			out = append(out, s)
		}
	}
	return out
}

// pathWords gives the texts compared with that can be part of a file name,
// and fillers of the lengths around the constants.
func (h harvest) pathWords() []string {
	var out []string
	for _, n := range h.sizes(0, 1<<12) {
		if n > 2 {
			out = append(out, fill(n))
		}
	}
	for _, s := range h.strs {
		ok := len(s) <= 40 && strings.Trim(s, ".") != ""
		for _, r := range s {
			if !(unicode.IsLetter(r) || unicode.IsDigit(r) || strings.ContainsRune("._-~+", r)) {
				ok = false
			}
		}
		if ok {
			out = append(out, s)
		}
	}
	return out
}

// isName: the text can be a name without prefix.
func isName(s string) bool {
	for i, r := range s {
		if !(unicode.IsLetter(r) || r == '_' || i > 0 && (unicode.IsDigit(r) || r == '-' || r == '.')) {
			return false
		}
	}
	return s != ""
}

// bound is the size of a domain, by tier.
func bound(quick, thorough int) int {
	if tier() == "thorough" {
		return thorough
	}
	return quick
}
