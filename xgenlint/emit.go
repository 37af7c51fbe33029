package main

// Emission instances: what an emitter appends to the generated text for one
// declaration, enumerated over its trace partitions, over the choice of one
// child (and of its case), and over the kinds of name a type can be.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Emitter struct {
	Lang, Kind string
	fn         *ssa.Function
	gen, v     *Term
	exits      []Exit
	err        string
	Insts      []*Inst
	Reps       map[string]*RepNode // by loop id
	Silent     []int               // exits without emission
	Odd        []string            // exits whose text is not old text + new text
}

func (e *Emitter) name() string { return e.Lang + e.Kind }

type Inst struct {
	Em    *Emitter
	Exit  int
	Rep   *RepNode // chosen child loop, nil for the declaration alone
	Alt   int
	Twice bool
	Conc  *conc
	Srcs  []*Term // concretised sources
	Nodes []INode
	Decls []*Decl
	Err   error
	Lits  []Lit // facts of the chosen partition and alternative
	Base  *Inst // the same without the child
	Raw   []TNode
}

func (in *Inst) desc() string {
	var s []string
	for _, t := range in.Srcs {
		v := in.Conc.m[t]
		x := "a user type"
		if c, ok := v.str(); ok {
			x = fmt.Sprintf("%q", c)
		}
		s = append(s, t.String()+" = "+x)
	}
	if in.Rep != nil {
		s = append(s, fmt.Sprintf("case %d of children %s", in.Alt, an0(in.Rep)))
	}
	return strings.Join(s, ", ")
}

func an0(r *RepNode) string {
	if r.Loop != nil && r.Loop.Over != nil {
		return r.Loop.Over.String()
	}
	return r.ID
}

func (in *Inst) decl() *Decl {
	if len(in.Decls) > 0 {
		return in.Decls[0]
	}
	return nil
}

// text renders the instance.
func (in *Inst) text() string {
	var b strings.Builder
	for _, n := range in.Nodes {
		if n.Term != nil && !n.Conc {
			b.WriteString("«" + n.Term.String() + "»")
		} else {
			b.WriteString(n.Text)
		}
	}
	return b.String()
}

// isTypeSource: a term naming a type.
func (an *Analyzer) isTypeSource(t *Term) bool {
	switch t.Op {
	case OpApp:
		return t.S == "xgen.getBase"
	case OpField:
		return (t.S == "Base" || t.S == "Type" || t.S == "Ref") && t.T != nil && isStringType(t.T)
	case OpVal:
		return true
	}
	return false
}

// typeSources lists the outermost sources of type names in terms.
func (an *Analyzer) typeSources(ts []*Term, have *conc) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	for _, t := range ts {
		if have != nil {
			t = have.eval(t)
		}
		walkTerm(t, func(x *Term) bool {
			if an.isTypeSource(x) {
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
				return false
			}
			return true
		})
	}
	// raw sources first, so that what is derived from them follows
	sort.SliceStable(out, func(i, j int) bool { return out[i].Op != OpApp && out[j].Op == OpApp })
	return out
}

// typeValues: the names a type source is instantiated with.
func (an *Analyzer) typeValues(lang string) []*Term {
	set := map[string]bool{"": true}
	for _, v := range an.builtins(lang) {
		set[v] = true
	}
	var out []*Term
	for _, k := range sortedKeys(set) {
		out = append(out, cs(k))
	}
	return out
}

// assign enumerates the assignments of type sources; f is called with each.
func (an *Analyzer) assign(lang string, c *conc, terms []*Term, feasible func(*conc) bool, f func(*conc, []*Term), srcs []*Term) {
	ss := an.typeSources(terms, c)
	var next *Term
	for _, s := range ss {
		if _, done := c.m[s]; !done && !isUserSym(s) {
			next = s
			break
		}
	}
	if next == nil {
		if len(srcs) > 0 || feasible(c) {
			f(c, srcs)
		}
		return
	}
	vals := append(an.typeValues(lang), userSym(next))
	for _, v := range vals {
		n := c.with(next, v)
		if !feasible(n) {
			continue
		}
		an.assign(lang, n, terms, feasible, f, append(srcs[:len(srcs):len(srcs)], next))
	}
}

func (an *Analyzer) initField(e *Emitter) *Term {
	st := &State{heap: map[*Term]*Term{}, facts: newFacts(), an: an}
	return st.load(fieldAddr(e.gen, "Field"), types.Typ[types.String])
}

func (an *Analyzer) findEmitter(lang, kind string) *Emitter {
	e := &Emitter{Lang: lang, Kind: kind, Reps: map[string]*RepNode{}}
	e.fn = an.method(an.genType, lang+kind)
	if e.fn == nil || e.fn.Blocks == nil {
		e.err = "no method " + lang + kind
		return e
	}
	if len(e.fn.Params) != 2 {
		e.err = "unexpected parameters"
		return e
	}
	e.gen = sym(e.fn.Params[0].Name(), e.fn.Params[0].Type())
	e.v = sym(e.fn.Params[1].Name(), e.fn.Params[1].Type())
	an.inlineRole["Emitter"] = true
	ex, err := an.root(e.fn)
	an.inlineRole["Emitter"] = false
	if err != nil {
		e.err = err.Error()
		return e
	}
	e.exits = ex
	return e
}

// emitters analyses every emitter once.
func (an *Analyzer) emitters() []*Emitter {
	if an.emCache != nil {
		return an.emCache
	}
	for _, l := range langs {
		for _, k := range nodeKinds {
			e := an.findEmitter(l, k)
			if e.err == "" {
				an.instantiate(e)
			}
			an.emCache = append(an.emCache, e)
		}
	}
	return an.emCache
}

func (an *Analyzer) emitter(lang, kind string) *Emitter {
	for _, e := range an.emitters() {
		if e.Lang == lang && e.Kind == kind {
			return e
		}
	}
	return nil
}

func (an *Analyzer) flatten(ns []TNode, c *conc, times map[string]int) []INode {
	var out []INode
	for _, n := range ns {
		switch {
		case n.Rep != nil:
			k, ok := c.choice[n.Rep.ID]
			if !ok || k >= len(n.Rep.Alts) {
				continue
			}
			for i := 0; i < 1+times[n.Rep.ID]; i++ {
				out = append(out, an.flatten(n.Rep.Alts[k].Nodes, c, nil)...)
			}
		case n.Hole != nil:
			x := c.eval(n.Hole)
			for _, p := range concatParts(x) {
				if s, ok := p.str(); ok {
					out = append(out, INode{Text: s, Term: n.Hole, Conc: true})
				} else {
					out = append(out, INode{Term: p})
				}
			}
		default:
			out = append(out, INode{Text: n.Text})
		}
	}
	return out
}

func concatParts(t *Term) []*Term {
	if t.Op == OpConcat {
		return t.Args
	}
	return []*Term{t}
}

func holes(ns []TNode, withReps bool) []*Term {
	var out []*Term
	for _, n := range ns {
		if n.Hole != nil {
			out = append(out, n.Hole)
		}
		if n.Rep != nil && withReps {
			for _, a := range n.Rep.Alts {
				out = append(out, a.Guards...)
				out = append(out, holes(a.Nodes, true)...)
			}
		}
	}
	return out
}

func reps(ns []TNode) []*RepNode {
	var out []*RepNode
	for _, n := range ns {
		if n.Rep != nil {
			out = append(out, n.Rep)
		}
	}
	return out
}

func (an *Analyzer) instantiate(e *Emitter) {
	init := an.initField(e)
	fa := fieldAddr(e.gen, "Field")
	for i := range e.exits {
		ex := &e.exits[i]
		if ex.Kind != "return" {
			continue
		}
		v := ex.St.heap[fa]
		if v == nil || v == init {
			e.Silent = append(e.Silent, i)
			continue
		}
		ns := an.template(v)
		at := -1
		n := 0
		for k, x := range ns {
			if x.Hole == init {
				at = k
				n++
			}
		}
		bad := n != 1 || at != 0
		for _, h := range holes(ns, true) {
			if h != init && contains(h, init) {
				bad = true
			}
		}
		if bad {
			e.Odd = append(e.Odd, fmt.Sprintf("%s: the text generated so far is not kept in front of the new declaration (%.200s)", an.pos(ex.Pos), v))
			continue
		}
		ns = ns[1:]
		lits := ex.St.path
		var terms []*Term
		for _, l := range lits {
			terms = append(terms, l.A)
		}
		terms = append(terms, holes(ns, false)...)
		feasible := func(c *conc) bool {
			for _, l := range lits {
				if c.lit(l) == 0 {
					return false
				}
				// the generic user type is none with a name of its own
				if l.V && l.A.Op == OpEq {
					x := c.eval(l.A)
					if x.Op == OpEq {
						for j := 0; j < 2; j++ {
							if x.Args[j].isConst() && an.hasUser(x.Args[1-j]) {
								return false
							}
						}
					}
				}
			}
			return true
		}
		an.assign(e.Lang, an.newConc(), terms, feasible, func(c *conc, srcs []*Term) {
			base := an.newInst(e, i, nil, 0, false, c, srcs, ns, lits, nil)
			first := len(e.Insts) == 0 || e.Insts[len(e.Insts)-1].Exit != i
			e.Insts = append(e.Insts, base)
			_ = first
			for _, r := range reps(ns) {
				e.Reps[r.ID] = r
			}
			an.childInsts(e, i, base, ns, lits, an.sameTop(e, i, srcs, base))
		}, nil)
	}
}

// sameTop: children are combined with one representative per partition of
// the declaration's own type (nothing, a built-in name, a user name).
func (an *Analyzer) sameTop(e *Emitter, exit int, srcs []*Term, base *Inst) bool {
	cls := func(in *Inst) string {
		s := ""
		for _, t := range in.Srcs {
			v := in.Conc.m[t]
			switch {
			case v == tEmpty:
				s += "e"
			case v.isConst():
				s += "b"
			default:
				s += "u"
			}
		}
		return s
	}
	for _, x := range e.Insts {
		if x != base && x.Exit == exit && x.Rep == nil && cls(x) == cls(base) {
			return true
		}
	}
	return false
}

// mentions: one of the terms is computed from one of the sources.
func mentions(ts, srcs []*Term) bool {
	for _, t := range ts {
		for _, s := range srcs {
			if contains(t, s) {
				return true
			}
		}
	}
	return false
}

func (an *Analyzer) childInsts(e *Emitter, exit int, base *Inst, ns []TNode, lits []Lit, skip bool) {
	for _, r := range reps(ns) {
		for k, a := range r.Alts {
			if skip && !mentions(append(append([]*Term{}, a.Guards...), holes(a.Nodes, true)...), base.Srcs) {
				continue
			}
			terms := append(append([]*Term{}, a.Guards...), holes(a.Nodes, true)...)
			feasible := func(c *conc) bool {
				for _, g := range a.Guards {
					if c.guard(g) == 0 {
						return false
					}
					if g.Op == OpEq {
						x := c.eval(g)
						if x.Op == OpEq {
							for j := 0; j < 2; j++ {
								if x.Args[j].isConst() && an.hasUser(x.Args[1-j]) {
									return false
								}
							}
						}
					}
				}
				return true
			}
			c0 := base.Conc.choose(r.ID, k)
			first := true
			an.assign(e.Lang, c0, terms, feasible, func(c *conc, srcs []*Term) {
				ls := lits[:len(lits):len(lits)]
				for _, g := range a.Guards {
					ls = append(ls, Lit{g, true})
				}
				all := append(base.Srcs[:len(base.Srcs):len(base.Srcs)], srcs...)
				e.Insts = append(e.Insts, an.newInst(e, exit, r, k, false, c, all, ns, ls, base))
				if first {
					e.Insts = append(e.Insts, an.newInst(e, exit, r, k, true, c, all, ns, ls, base))
					first = false
				}
			}, nil)
		}
	}
}

func (an *Analyzer) newInst(e *Emitter, exit int, r *RepNode, k int, twice bool, c *conc, srcs []*Term, ns []TNode, lits []Lit, base *Inst) *Inst {
	in := &Inst{Em: e, Exit: exit, Rep: r, Alt: k, Twice: twice, Conc: c, Srcs: srcs, Lits: lits, Base: base, Raw: ns}
	times := map[string]int{}
	if twice {
		times[r.ID] = 1
	}
	in.Nodes = an.flatten(ns, c, times)
	in.Decls, in.Err = parseDecl(e.Lang, in.Nodes)
	return in
}

// fact says what the instance's path says about a boolean term.
func (in *Inst) fact(t *Term) int {
	for _, l := range in.Lits {
		a, v := l.A, l.V
		for a.Op == OpNot {
			a, v = a.Args[0], !v
		}
		if a == t {
			if v {
				return 1
			}
			return 0
		}
	}
	if in.Exit < len(in.Em.exits) {
		return in.Em.exits[in.Exit].St.facts.known(t)
	}
	return -1
}

// childSource: the field of the declaration a child loop ranges over, and the
// generic child.
func (an *Analyzer) childSource(e *Emitter, r *RepNode) (field string, elem *Term) {
	if r == nil || r.Loop == nil || r.Loop.Over == nil {
		return "", nil
	}
	o := r.Loop.Over
	for o.Op == OpSorted {
		o = o.Args[0]
	}
	if o.Op == OpListRep && o.I == 0 && len(o.Args) == 1 && len(o.Args[0].Args) == 1 {
		if li := an.loopsSeen[o.S]; li != nil && li.Over != nil && li.Full && !li.HasEarlyExit {
			o = li.Over
		}
	}
	if o.Op == OpField && o.S == "$map" {
		o = o.Args[0]
	}
	f := ""
	x := o
	for x.Op == OpField {
		f = x.S + func() string {
			if f != "" {
				return "." + f
			}
			return ""
		}()
		x = x.Args[0]
	}
	if x.Op == OpDeref {
		x = x.Args[0]
	}
	if x != e.v {
		return "", nil
	}
	return f, o
}

// builtins maps XSD built-in names to their spelling in a language, as
// GetValueType resolves them.
func (an *Analyzer) builtins(lang string) map[string]string {
	if an.builtinCache == nil {
		an.builtinCache = map[string]map[string]string{}
	}
	if m, ok := an.builtinCache[lang]; ok {
		return m
	}
	m := map[string]string{}
	an.builtinCache[lang] = m
	for _, n := range xsdNames {
		if s, _, err := an.resolveBuiltin("xs:"+n, lang); err == "" {
			m[n] = s
		}
	}
	for _, n := range []string{"xml:lang", "xml:space", "xml:base", "xml:id"} {
		if s, _, err := an.resolveBuiltin(n, lang); err == "" {
			m[n] = s
		}
	}
	return m
}

func (an *Analyzer) valueTypeExits() ([]Exit, *ssa.Function, error) {
	if an.gvtDone {
		return an.gvtExits, an.byRole["GetValueType"], an.gvtErr
	}
	an.gvtDone = true
	f := an.byRole["GetValueType"]
	if f == nil {
		an.gvtErr = fmt.Errorf("no GetValueType")
	} else {
		an.gvtExits, an.gvtErr = an.root(f)
	}
	return an.gvtExits, f, an.gvtErr
}

// resolveBuiltin evaluates the resolution of a name for one language on the
// summary of GetValueType.
func (an *Analyzer) resolveBuiltin(value, lang string) (res string, where string, err string) {
	exits, f, e := an.valueTypeExits()
	if e != nil {
		return "", "", e.Error()
	}
	opt := sym(f.Params[0].Name(), f.Params[0].Type())
	st := &State{heap: map[*Term]*Term{}, facts: newFacts(), an: an}
	langT := st.load(fieldAddr(opt, "Lang"), types.Typ[types.String])
	c := an.newConc().with(langT, cs(lang)).with(sym(f.Params[1].Name(), f.Params[1].Type()), cs(value))
	found := false
	for i := range exits {
		ex := &exits[i]
		ok := true
		for _, l := range ex.St.path {
			if c.lit(l) == 0 {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		if ex.Kind != "return" {
			return "", an.pos(ex.Pos), "does not return"
		}
		for _, l := range ex.St.path {
			if c.lit(l) == -1 {
				return "", an.pos(ex.Pos), fmt.Sprintf("resolution depends on %s", l)
			}
		}
		s, isS := c.eval(ex.Res[0]).str()
		if !isS {
			return "", an.pos(ex.Pos), fmt.Sprintf("resolves to %s", c.eval(ex.Res[0]))
		}
		if len(ex.Res) > 1 && c.eval(ex.Res[1]) != tNil {
			return "", an.pos(ex.Pos), "fails"
		}
		if found && s != res {
			return "", an.pos(ex.Pos), "is ambiguous"
		}
		res, where, found = s, an.pos(ex.Pos), true
	}
	if !found {
		return "", "", "has no case"
	}
	return res, where, ""
}

// the built-in data types of XML Schema part 2
var xsdNames = []string{
	"string", "normalizedString", "token", "language", "Name", "NMTOKEN", "NCName", "ID", "IDREF", "ENTITY",
	"anyURI", "QName", "NOTATION", "anyType", "anySimpleType",
	"NMTOKENS", "IDREFS", "ENTITIES",
	"boolean", "base64Binary", "hexBinary",
	"decimal", "float", "double",
	"integer", "nonPositiveInteger", "negativeInteger", "nonNegativeInteger", "positiveInteger",
	"long", "int", "short", "byte", "unsignedLong", "unsignedInt", "unsignedShort", "unsignedByte",
	"duration", "dateTime", "time", "date", "gYearMonth", "gYear", "gMonthDay", "gDay", "gMonth",
}

// builtinTable is the table a language's generator keeps its built-in type
// names in: the one holding most of the names the resolver produces.
func (an *Analyzer) builtinTable(lang string) *Table {
	var best *Table
	score := 0
	vals := map[string]bool{}
	for _, v := range an.builtins(lang) {
		vals[v] = true
	}
	for t, tb := range tables {
		if !strings.HasPrefix(t.S, "table:") || strings.HasPrefix(t.S, "table:main.") {
			continue
		}
		n := 0
		for _, k := range tb.Keys {
			if s, ok := k.str(); ok && vals[s] {
				n++
			}
		}
		// the table the language's own functions consult
		used := strings.HasPrefix(strings.ToLower(strings.TrimPrefix(t.S, "table:")), strings.ToLower(lang))
		if used {
			n += 100
		}
		if n > score && n > 100 {
			best, score = tb, n
		}
	}
	return best
}
