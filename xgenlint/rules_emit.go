package main

// Rules over the emission instances of the thirty emitters: C03 (emitters),
// C04 to C08, C10 to C13, C31.

import (
	"fmt"
	"go/types"
	"strings"
	"unicode"
	"unicode/utf8"
)

// usable reports whether an emitter could be analysed; what could not is noted.
func (r *Report) usable(e *Emitter) bool {
	if e == nil {
		return false
	}
	if e.err != "" {
		r.undecided("%s: %s", e.name(), e.err)
		return false
	}
	r.count("emitters", 1)
	return true
}

// stripDeref ignores pointer indirection.
func stripDeref(t *Term) *Term {
	for t != nil && t.Op == OpDeref {
		t = t.Args[0]
	}
	return t
}

// isFieldOf: t is base.name.
func isFieldOf(t, base *Term, name string) bool {
	return t != nil && base != nil && t.Op == OpField && t.S == name && stripDeref(t.Args[0]) == stripDeref(base)
}

// Child describes the generic child of one loop of a template.
type Child struct {
	Field string // field of the declaration
	Over  *Term
	Elem  *Term // element of a slice
	Map   bool  // entries of a map
}

func (an *Analyzer) child(e *Emitter, r *RepNode) *Child {
	f, o := an.childSource(e, r)
	if f == "" {
		return nil
	}
	c := &Child{Field: f, Over: o}
	visit := func(t *Term) {
		walkTerm(t, func(x *Term) bool {
			if x.Op == OpElem && x.Args[1].Op == OpIter && x.Args[0] == o && c.Elem == nil {
				c.Elem = x
			}
			if (x.Op == OpKey || x.Op == OpVal) && stripMap(x.Args[0]) == stripMap(o) {
				c.Map = true
			}
			return true
		})
	}
	for _, a := range r.Alts {
		for _, g := range a.Guards {
			visit(g)
		}
		for _, h := range holes(a.Nodes, true) {
			visit(h)
		}
	}
	return c
}

func stripMap(t *Term) *Term {
	for t.Op == OpField && t.S == "$map" || t.Op == OpDeref {
		t = t.Args[0]
	}
	return t
}

// own: t is derived from the child.
func (c *Child) own(t *Term) bool {
	if c == nil {
		return false
	}
	if c.Elem != nil && contains(t, c.Elem) {
		return true
	}
	found := false
	if c.Map {
		walkTerm(t, func(x *Term) bool {
			if (x.Op == OpKey || x.Op == OpVal) && stripMap(x.Args[0]) == stripMap(c.Over) {
				found = true
			}
			return !found
		})
	}
	return found
}

// isName: t is the child's own name.
func (c *Child) isName(t *Term) bool {
	if c.Map {
		return t.Op == OpKey && stripMap(t.Args[0]) == stripMap(c.Over)
	}
	return isFieldOf(t, c.Elem, "Name")
}

// typeField: the field of the child that names its type.
func (c *Child) typeField() string {
	if c.Field == "Groups" || c.Field == "AttributeGroup" {
		return "Ref"
	}
	return "Type"
}

// isTypeOf: t is derived from the child's own type and from nothing else of
// the declaration.
func (c *Child) isTypeOf(t *Term) bool {
	found := false
	walkTerm(t, func(x *Term) bool {
		if c.Map && (x.Op == OpKey || x.Op == OpVal) && stripMap(x.Args[0]) == stripMap(c.Over) {
			found = true
		}
		if c.Elem != nil && isFieldOf(x, c.Elem, c.typeField()) {
			found = true
		}
		return !found
	})
	return found
}

func (m *Member) render() string {
	s := partsString(m.Name) + " : " + m.Type.String() + " : " + partsString(m.Tag)
	for _, a := range m.Annots {
		s += "@" + a.Name
		for _, k := range sortedArgs(a.Args) {
			s += "," + k + "=" + partsString(a.Args[k])
		}
		for _, k := range sortedFlags(a.Flag) {
			s += "," + k + "=" + a.Flag[k]
		}
	}
	if m.Optional {
		s += "?"
	}
	return s + "=" + partsString(m.Value)
}

func sortedArgs(m map[string][]Part) []string {
	o := map[string]bool{}
	for k := range m {
		o[k] = true
	}
	return sortedKeys(o)
}

func sortedFlags(m map[string]string) []string {
	o := map[string]bool{}
	for k := range m {
		o[k] = true
	}
	return sortedKeys(o)
}

func members(d *Decl) []*Member {
	if d == nil {
		return nil
	}
	return d.Members
}

// added lists the members the child adds to the declaration; ok is false when
// the declaration changes in another way.
func (in *Inst) added() (ms []*Member, ok bool) {
	if in.Base == nil || in.Base.Err != nil || in.Err != nil || len(in.Decls) != 1 || len(in.Base.Decls) != 1 {
		return nil, false
	}
	a, b := members(in.decl()), members(in.Base.decl())
	if len(a) < len(b) {
		return nil, false
	}
	i := 0
	for i < len(b) && a[i].render() == b[i].render() {
		i++
	}
	j := 0
	for j < len(b)-i && a[len(a)-1-j].render() == b[len(b)-1-j].render() {
		j++
	}
	if i+j < len(b) {
		return nil, false
	}
	return a[i : len(a)-j], true
}

// partTerms are the holes behind pieces of text.
func partTerms(ps []Part) []*Term {
	var ts []*Term
	for _, p := range ps {
		if p.Term != nil {
			ts = append(ts, p.Term)
		}
	}
	return ts
}

// childValue: the name the child's type was instantiated with, if it was.
func (in *Inst) childValue(c *Child) (src, val *Term) {
	base := map[*Term]bool{}
	for _, s := range in.Base.Srcs {
		base[s] = true
	}
	for _, s := range in.Srcs {
		if !base[s] && c.own(s) && c.isTypeOf(s) {
			// the resolved name, if both raw and resolved were chosen
			src, val = s, in.Conc.m[s]
			if val != nil && val.isConst() && val != tEmpty {
				return
			}
		}
	}
	return
}

// place names an instance's child case for messages and keys.
func (e *Emitter) place(c *Child) string { return e.name() + "/" + c.Field }

// listFields are the child lists a declaration kind must emit.
var listFields = map[string][]string{
	"ComplexType":    {"Elements", "Attributes", "Groups", "AttributeGroup"},
	"Group":          {"Elements", "Groups"},
	"AttributeGroup": {"Attributes"},
	"SimpleType":     {"MemberTypes"},
}

func rawReps(ns []TNode) []*RepNode { return reps(ns) }

// exitTemplate is the text one exit appends.
func (an *Analyzer) exitTemplate(e *Emitter, i int) ([]TNode, bool) {
	init := an.initField(e)
	v := e.exits[i].St.heap[fieldAddr(e.gen, "Field")]
	if e.exits[i].Kind != "return" || v == nil || v == init {
		return nil, false
	}
	ns := an.template(v)
	if len(ns) == 0 || ns[0].Hole != init {
		return nil, false
	}
	return ns[1:], true
}

// fieldTerm is v.name for the emitter's declaration.
func (an *Analyzer) declField(e *Emitter, name string) *Term {
	st := &State{heap: map[*Term]*Term{}, facts: newFacts(), an: an}
	t := e.v.T.Underlying().(*types.Pointer).Elem()
	var n *types.Named
	n, _ = t.(*types.Named)
	ft := fieldType(n, name)
	if ft == nil {
		return nil
	}
	return st.load(fieldAddr(e.v, name), ft)
}

// emptyKnown: the exit's facts say the child list is empty.
func (an *Analyzer) emptyKnown(e *Emitter, i int, list *Term, isMap bool) bool {
	f := e.exits[i].St.facts
	x := list
	if isMap {
		st := &State{heap: map[*Term]*Term{}, facts: newFacts(), an: an}
		x = st.mapContent(list)
	}
	l := mkLen(x)
	if _, hi := f.bounds(l); hi == 0 {
		return true
	}
	return f.known(mkEq(list, tNil)) == 1
}

func init() {
	register("C04", "For each of the 30 emitters, every exit of the trace-partitioned abstract interpretation yields a symbolic text template; each child list of the declaration must be repeated over exactly once, fully, forwards, with every alternative adding exactly one parsed member whose identifier is computed from the child's own name and whose type from the child's own type, for every built-in spelling and a generic user type.", ruleC04)
	register("C05", "For every emitter instance with a child, the parsed type expression must contain the sequence form exactly when the child's Plural fact holds (on top of the sequence a built-in spelling has itself).", ruleC05)
	register("C06", "For every emitter instance with an attribute, the parsed member must carry the language's optional form exactly when the attribute's Optional fact holds, with name and type otherwise equal.", ruleC06)
	register("C07", "For every emitter instance with an attribute or element, the parsed struct tag, annotation or serde attribute must contain exactly the child's Name term, unprocessed.", ruleC07)
	register("C08", "For every ComplexType emitter instance, partitioned by the base being absent, built-in or user-defined, the parsed declaration must contain the language's representation of that base and nothing otherwise.", ruleC08)
	register("C11", "Every emission instance must lex and parse under a small grammar of the target language, and every identifier pipeline must map every name over a representative alphabet to an identifier.", ruleC11)
}

func (an *Analyzer) eachEmitter(r *Report, f func(e *Emitter)) {
	n := 0
	for _, e := range an.emitters() {
		if r.usable(e) {
			n++
			f(e)
		}
	}
	if n == 0 {
		r.violate("anchor", "emitters", "", "no emitter <Language><Kind> of CodeGenerator could be analysed")
	}
}

// isChildList: t is one of the child lists of the declaration.
func (an *Analyzer) isChildList(e *Emitter, fields []string, t *Term) bool {
	for _, f := range fields {
		if d := an.declField(e, f); d != nil && stripDeref(t) == stripDeref(d) {
			return true
		}
	}
	return false
}

func ruleC04(an *Analyzer, r *Report) {
	r.rule("each child list is looped over exactly once, over its whole length, in order")
	r.rule("every case of the loop body adds exactly one member to the declaration")
	r.rule("the member's identifier is built from the child's own name only; its type from the child's own type")
	an.eachEmitter(r, func(e *Emitter) {
		fields := listFields[e.Kind]
		if fields == nil {
			return
		}
		for i := range e.exits {
			ns, ok := an.exitTemplate(e, i)
			if !ok {
				continue
			}
			where := an.exitPos(e, i)
			if e.Kind == "SimpleType" && !an.unionExit(e, i) {
				continue
			}
			n := map[string]int{}
			unknown := false
			for _, rep := range rawReps(ns) {
				c := an.child(e, rep)
				if c == nil {
					unknown = true
					if rep.Loop != nil && rep.Loop.Over != nil {
						if o := rep.Loop.Over; o.Op == OpSub && an.isChildList(e, fields, o.Args[0]) {
							r.violate("whole list", e.name(), where, "the loop is over %s, a part of the children", o)
							continue
						}
						r.undecided("%s: loop over %s", e.name(), rep.Loop.Over)
					}
					continue
				}
				n[c.Field]++
				if rep.Cut || rep.Loop.HasEarlyExit {
					r.violate("whole list", e.place(c), where, "the loop over %s can stop before the last child", c.Field)
				} else if !rep.Loop.Full {
					r.violate("whole list", e.place(c), where, "the loop over %s does not cover all children in order", c.Field)
				}
				if len(rep.Alts) == 0 {
					r.violate("member per child", e.place(c), where, "children in %s produce no text", c.Field)
				}
				r.count("child_loops", 1)
			}
			for _, f := range fields {
				t := an.declField(e, f)
				if t == nil {
					r.undecided("%s: no field %s", e.name(), f)
					continue
				}
				switch {
				case n[f] == 1:
				case n[f] > 1:
					r.violate("once", e.name()+"/"+f, where, "the children in %s are emitted %d times", f, n[f])
				case an.emptyKnown(e, i, t, f == "MemberTypes"):
				case unknown:
				default:
					r.violate("every child list", e.name()+"/"+f, where, "the children in %s are not emitted when %s", f, pathString(e.exits[i].St.path))
				}
			}
		}
		for _, in := range e.Insts {
			if in.Rep == nil || in.Err != nil {
				continue
			}
			c := an.child(e, in.Rep)
			if c == nil {
				continue
			}
			where := an.exitPos(e, in.Exit)
			if c.Field == "Restriction.Enum" {
				continue
			}
			if in.Base == nil || in.Base.Err != nil {
				continue
			}
			ms, ok := in.added()
			want := 1
			if in.Twice {
				want = 2
			}
			r.count("instances", 1)
			if !ok || len(ms) != want {
				r.violate("member per child", e.place(c), where, "%d children in %s add %d members (%s)", want, c.Field, len(ms), in.desc())
				continue
			}
			for _, m := range ms {
				an.checkMemberName(r, e, c, in, m, where)
				an.checkMemberType(r, e, c, in, m, where)
			}
		}
	})
	r.require(r.Counts["instances"], "emission instances with a child")
}

func pathString(ls []Lit) string {
	var s []string
	for _, l := range ls {
		s = append(s, l.String())
	}
	x := strings.Join(s, " and ")
	if len(x) > 300 {
		x = x[:300] + "…"
	}
	return x
}

// unionExit: the exit emits a union.
func (an *Analyzer) unionExit(e *Emitter, i int) bool {
	f := e.exits[i].St.facts
	u, l, m := an.declField(e, "Union"), an.declField(e, "List"), an.declField(e, "MemberTypes")
	if u == nil || l == nil || m == nil {
		return false
	}
	if f.known(l) == 1 || f.known(u) != 1 {
		return false
	}
	return !an.emptyKnown(e, i, m, true)
}

func (an *Analyzer) checkMemberName(r *Report, e *Emitter, c *Child, in *Inst, m *Member, where string) {
	ts := partTerms(m.Name)
	if m.Embedded {
		ts = partTerms(m.Type.base().parts())
	}
	own := 0
	for _, t := range ts {
		if c.isName(an.pipe(t).Src) {
			own++
			continue
		}
		if c.own(t) && c.usesName(t) {
			own++ // a rewriting the pipeline notation does not cover
			continue
		}
		r.violate("own name", e.place(c), where, "the identifier of a member in %s is built from %s", c.Field, an.showHole(t))
	}
	if own != 1 {
		r.violate("own name", e.place(c), where, "the identifier %s of a member in %s contains the child's name %d times", partsString(m.Name), c.Field, own)
	}
}

func (c *Child) usesName(t *Term) bool {
	found := false
	walkTerm(t, func(x *Term) bool {
		if c.isName(x) {
			found = true
		}
		return !found
	})
	return found
}

func (an *Analyzer) checkMemberType(r *Report, e *Emitter, c *Child, in *Inst, m *Member, where string) {
	src, val := in.childValue(c)
	if val == nil {
		// no type of the child's own was consulted
		for _, t := range partTerms(m.Type.parts()) {
			if c.own(t) && c.isTypeOf(t) {
				return
			}
		}
		r.violate("own type", e.place(c), where, "the type %s of a member in %s is not computed from the child's own type", m.Type, c.Field)
		return
	}
	if val == tEmpty {
		return
	}
	if s, ok := val.str(); ok {
		got := m.Type
		text := strings.ReplaceAll(typeText(got, e.Lang), " ", "")
		want := s
		if e.Lang == "C" {
			want = strings.TrimSuffix(want, "[]")
		}
		want = strings.ReplaceAll(want, " ", "")
		if !strings.Contains(text, want) {
			r.violate("own type", e.place(c), where, "a member in %s whose type resolves to %q is generated with type %s", c.Field, s, text)
		}
		return
	}
	ok := false
	for _, t := range partTerms(m.Type.base().parts()) {
		if x := an.pipe(t).Src; isUserSym(x) {
			if x.X.(*Term) == src || c.isTypeOf(x.X.(*Term)) {
				ok = true
			} else {
				r.violate("own type", e.place(c), where, "the type of a member in %s is computed from %s", c.Field, x.X.(*Term))
			}
		} else if contains(t, val) || contains(t, src) {
			ok = true
		}
	}
	if !ok {
		r.violate("own type", e.place(c), where, "the type %s of a member in %s does not depend on the child's own type", m.Type, c.Field)
	}
}

// typeText renders a type expression as source text.
func typeText(t *TypeX, lang string) string {
	if t == nil {
		return ""
	}
	var b strings.Builder
	for _, k := range t.Toks {
		b.WriteString(partsString(k.Parts))
	}
	return b.String()
}

// ownSeqs: how many sequence forms a built-in spelling has itself.
func (an *Analyzer) ownSeqs(lang, spelling string) int {
	d, err := parseDecl(lang, []INode{{Text: typeProbe(lang, spelling)}})
	if err != nil || len(d) != 1 || len(d[0].Members) != 1 {
		return 0
	}
	return d[0].Members[0].Type.count("seq", false)
}

func typeProbe(lang, ty string) string {
	switch lang {
	case "Go":
		return "type X struct {\n\tA " + ty + "\n}\n"
	case "C":
		if strings.HasSuffix(ty, "[]") {
			return "typedef struct {\n\t" + strings.TrimSuffix(ty, "[]") + " a[];\n} X;\n"
		}
		return "typedef struct {\n\t" + ty + " a;\n} X;\n"
	case "Java":
		return "public class X {\n\tprotected " + ty + " a;\n}\n"
	case "Rust":
		return "pub struct X {\n\tpub a: " + ty + ",\n}\n"
	case "TypeScript":
		return "export class X {\n\ta: " + ty + ";\n}\n"
	}
	return ""
}

func typeClass(v *Term) string {
	switch {
	case v == nil:
		return "untyped"
	case v == tEmpty:
		return "untyped"
	case v.isConst():
		return "built-in type"
	}
	return "user type"
}

// plurals: a partition that does not know the multiplicity stands for both.
func (an *Analyzer) plurals(r *Report, e *Emitter, what, where string, t *TypeX, val *Term, p int, desc string) {
	for v := 0; v < 2; v++ {
		if p < 0 || p == v {
			an.plural(r, e, what, where, t, val, v, desc)
		}
	}
}

// plural checks one type expression against a multiplicity.
func (an *Analyzer) plural(r *Report, e *Emitter, what, where string, t *TypeX, val *Term, plural int, desc string) {
	own := 0
	class := typeClass(val)
	if val != nil {
		if s, ok := val.str(); ok && s != "" {
			own = an.ownSeqs(e.Lang, s)
			if own > 0 {
				class = "built-in sequence type"
			}
		}
	}
	got := t.count("seq", false)
	want := own + plural
	r.count("multiplicities", 1)
	if got != want {
		r.violate("sequence form", what+"/"+class+map[int]string{0: "/single", 1: "/repeatable"}[plural], where, "type %s has %d sequence forms, %d expected (%s)", t, got, want, desc)
	}
}

func ruleC05(an *Analyzer, r *Report) {
	r.rule("sequence forms of a member's type = own sequence of the built-in spelling + (1 if the child is repeatable)")
	r.rule("a partition that does not distinguish repeatable children must satisfy both cases")
	r.rule("a list simple type and a repeatable top-level element are sequences")
	an.eachEmitter(r, func(e *Emitter) {
		for _, in := range e.Insts {
			if in.Err != nil || in.decl() == nil {
				continue
			}
			where := an.exitPos(e, in.Exit)
			if in.Rep != nil {
				c := an.child(e, in.Rep)
				if c == nil || c.Elem == nil || c.Field != "Elements" && c.Field != "Groups" {
					continue
				}
				ms, ok := in.added()
				if !ok || in.Twice {
					continue
				}
				p := in.fact(elemField(c.Elem, "Plural"))
				_, val := in.childValue(c)
				if c.Field == "Groups" && val != nil && val.isConst() && val != tEmpty {
					continue // a group reference names a group
				}
				for _, m := range ms {
					an.plurals(r, e, e.place(c), where, m.Type, val, p, in.desc())
				}
				continue
			}
			switch e.Kind {
			case "Element":
				p := in.fact(an.declField(e, "Plural"))
				if t, val := in.aliasType(an); t != nil {
					an.plurals(r, e, e.name(), where, t, val, p, in.desc())
				}
			case "SimpleType":
				l := an.declField(e, "List")
				if l == nil || in.fact(l) != 1 || in.hasAST(an) == 1 {
					continue
				}
				if t, val := in.aliasType(an); t != nil {
					an.plural(r, e, e.name()+"/list", where, t, val, 1, in.desc())
				}
			}
		}
	})
	r.require(r.Counts["multiplicities"], "multiplicity of a generated type")
}

// hasAST: does the path say the declaration's name was emitted before?
func (in *Inst) hasAST(an *Analyzer) int {
	for _, l := range in.Em.exits[in.Exit].St.path {
		if l.A.Op == OpLookupOk && strings.Contains(l.A.Args[0].String(), "StructAST") {
			if l.V {
				return 1
			}
			return 0
		}
	}
	return -1
}

// aliasType is the type a declaration without children stands for, and the
// name its own type was instantiated with.
func (in *Inst) aliasType(an *Analyzer) (*TypeX, *Term) {
	d := in.decl()
	var t *TypeX
	switch {
	case d.Kind == "alias":
		t = d.Type
	case d.Kind == "struct":
		var ms []*Member
		for _, m := range d.Members {
			if !isXMLNameMember(m) {
				ms = append(ms, m)
			}
		}
		if len(ms) != 1 {
			return nil, nil
		}
		t = ms[0].Type
	}
	var val *Term
	for _, s := range in.Srcs {
		v := in.Conc.m[s]
		if val == nil || v.isConst() && v != tEmpty {
			val = v
		}
	}
	return t, val
}

func isXMLNameMember(m *Member) bool {
	return partsString(m.Name) == "XMLName" && m.Type != nil && partsString(m.Type.Name) == "xml.Name"
}

// elemField is elem.name of a pointer or struct element.
func elemField(elem *Term, name string) *Term {
	st := &State{heap: map[*Term]*Term{}, facts: newFacts(), an: nil}
	_ = st
	t := elem.T
	var ft types.Type
	if t != nil {
		if s := structOf(t); s != nil {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == name {
					ft = s.Field(i).Type()
				}
			}
		}
	}
	return mkField(elem, name, ft)
}

func ruleC06(an *Analyzer, r *Report) {
	r.rule("optional form present iff Attribute.Optional, for attributes of complex types and attribute groups")
	r.rule("apart from the optional form, optional and required attributes give the same name and type")
	an.eachEmitter(r, func(e *Emitter) {
		if e.Kind != "ComplexType" && e.Kind != "AttributeGroup" {
			return
		}
		pairs := map[string]map[int]*Member{}
		for _, in := range e.Insts {
			if in.Rep == nil || in.Err != nil || in.Twice {
				continue
			}
			c := an.child(e, in.Rep)
			if c == nil || c.Elem == nil || c.Field != "Attributes" {
				continue
			}
			ms, ok := in.added()
			if !ok || len(ms) != 1 {
				continue
			}
			where := an.exitPos(e, in.Exit)
			o := in.fact(elemField(c.Elem, "Optional"))
			if o < 0 {
				r.violate("optionality consulted", e.place(c), where, "an attribute is generated the same whether it is optional or required (%s)", in.desc())
				continue
			}
			r.count("attributes", 1)
			if ms[0].optional(e.Lang) != (o == 1) {
				r.violate("optional form", e.place(c)+map[int]string{1: "/optional", 0: "/required"}[o], where, "member %s is generated with optional form: %v (%s)", ms[0].render(), ms[0].optional(e.Lang), in.desc())
			}
			// pair up with the other optionality
			k := fmt.Sprint(in.Exit)
			for _, s := range in.Srcs {
				k += "|" + in.Conc.m[s].String()
			}
			if pl := in.fact(elemField(c.Elem, "Plural")); pl >= 0 {
				k += fmt.Sprint("|p", pl)
			}
			if pairs[k] == nil {
				pairs[k] = map[int]*Member{}
			}
			if old := pairs[k][o]; old == nil {
				pairs[k][o] = ms[0]
			}
		}
		for _, k := range sortedPairKeys(pairs) {
			a, b := pairs[k][0], pairs[k][1]
			if a == nil || b == nil {
				continue
			}
			r.count("pairs", 1)
			ta, tb := stripOpt(a.Type).String(), stripOpt(b.Type).String()
			if ta != tb || partsString(a.Name) != partsString(b.Name) {
				r.violate("same name and type", e.name()+"/Attributes", "", "required: %s; optional: %s", a.render(), b.render())
			}
		}
	})
	r.require(r.Counts["pairs"], "optional/required attribute pair")
}

func sortedPairKeys(m map[string]map[int]*Member) []string {
	o := map[string]bool{}
	for k := range m {
		o[k] = true
	}
	return sortedKeys(o)
}

func stripOpt(t *TypeX) *TypeX {
	for t != nil && t.Kind == "opt" {
		t = t.Elem
	}
	return t
}

// required bindings: language, declaration kind, child list -> attribute?
type bindReq struct {
	kinds map[string][]string
}

var bindings = map[string]map[string][]string{
	"Go":   {"ComplexType": {"Attributes", "Elements"}, "AttributeGroup": {"Attributes"}},
	"Java": {"ComplexType": {"Attributes", "Elements"}, "AttributeGroup": {"Attributes"}, "Group": {"Elements"}},
	"Rust": {"ComplexType": {"Attributes", "Elements", "Groups", "AttributeGroup"}, "AttributeGroup": {"Attributes"}, "Group": {"Elements", "Groups"}, "SimpleType": {"MemberTypes"}},
}

// binding returns the pieces of the XML name a member is bound to.
func (m *Member) binding(lang string) (name []Part, flags string, ok bool) {
	switch lang {
	case "Go":
		if !m.HasTag {
			return nil, "", false
		}
		// xml:"name,flags"
		state := 0
		for _, p := range m.Tag {
			if p.Term != nil && !p.Conc {
				if state == 1 {
					name = append(name, p)
				} else {
					flags += "«hole»"
				}
				continue
			}
			s := p.Text
			if state == 0 {
				i := strings.Index(s, `xml:"`)
				if i < 0 {
					return nil, "", false
				}
				s = s[i+5:]
				state = 1
			}
			for _, ch := range s {
				switch {
				case ch == '"':
					state = 3
				case ch == ',' && state == 1:
					state = 2
					flags += ","
				case state == 1:
					name = append(name, Part{Text: string(ch), Term: p.Term, Conc: p.Conc})
				case state == 2:
					flags += string(ch)
				}
			}
		}
		return name, flags, true
	case "Java":
		for _, a := range m.Annots {
			if a.Name == "XmlAttribute" || a.Name == "XmlElement" {
				if v, has := a.Args["name"]; has {
					return v, a.Name, true
				}
			}
		}
	case "Rust":
		for _, a := range m.Annots {
			if a.Name == "serde" {
				if v, has := a.Args["rename"]; has {
					return v, "", true
				}
			}
		}
	}
	return nil, "", false
}

func ruleC07(an *Analyzer, r *Report) {
	r.rule("the binding of a member is exactly the term <child>.Name")
	r.rule("Go: attribute flag iff the child is an attribute; Java: XmlAttribute iff the child is an attribute")
	r.rule("Go: a struct whose identifier may differ from its schema name has an XMLName bound to exactly the schema name")
	an.eachEmitter(r, func(e *Emitter) {
		req := bindings[e.Lang][e.Kind]
		for _, in := range e.Insts {
			if in.Err != nil {
				continue
			}
			where := an.exitPos(e, in.Exit)
			if in.Rep == nil {
				if e.Lang == "Go" {
					an.checkXMLName(r, e, in, where)
				}
				continue
			}
			c := an.child(e, in.Rep)
			if c == nil || in.Twice || !has(req, c.Field) {
				continue
			}
			ms, ok := in.added()
			if !ok {
				continue
			}
			for _, m := range ms {
				r.count("bindings", 1)
				name, flags, ok := m.binding(e.Lang)
				if !ok {
					r.violate("binding", e.place(c), where, "member %s has no XML name", m.render())
					continue
				}
				if len(name) != 1 || name[0].Term == nil || !c.isName(name[0].Term) {
					r.violate("verbatim name", e.place(c), where, "member %s is bound to the XML name %q instead of the child's own name as it is", partsString(m.Name), partsString(name))
				}
				isAttr := c.Field == "Attributes"
				switch e.Lang {
				case "Go":
					got := strings.Contains(flags+",", ",attr,")
					if got != isAttr {
						r.violate("attribute flag", e.place(c), where, "flags %q of the binding of a member in %s", flags, c.Field)
					}
					for _, f := range strings.Split(strings.Trim(flags, ","), ",") {
						if f != "" && f != "attr" && f != "omitempty" {
							r.violate("attribute flag", e.place(c), where, "flag %q in the binding of a member in %s", f, c.Field)
						}
					}
				case "Java":
					if (flags == "XmlAttribute") != isAttr {
						r.violate("attribute flag", e.place(c), where, "annotation %s on a member in %s", flags, c.Field)
					}
				}
			}
		}
	})
	r.require(r.Counts["bindings"], "XML bindings")
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// checkXMLName: a Go struct whose identifier differs from the schema name.
func (an *Analyzer) checkXMLName(r *Report, e *Emitter, in *Inst, where string) {
	d := in.decl()
	if d == nil {
		return
	}
	name := an.declField(e, "Name")
	var xn *Member
	for _, m := range d.Members {
		if isXMLNameMember(m) {
			xn = m
		}
	}
	if xn != nil {
		r.count("xmlnames", 1)
		b, _, ok := xn.binding("Go")
		if !ok || len(b) != 1 || b[0].Term != name {
			r.violate("type name", e.name(), where, "XMLName is bound to %q instead of the schema name as it is", partsString(b))
		}
		return
	}
	if d.Kind != "struct" || e.Kind != "ComplexType" && e.Kind != "SimpleType" {
		return
	}
	// without XMLName the path must know identifier and schema name to be equal
	id := tEmpty
	for _, p := range d.Name {
		if p.Term != nil {
			id = mkConcat(id, p.Term)
		} else {
			id = mkConcat(id, cs(p.Text))
		}
	}
	if id == name || in.fact(mkEq(id, name)) == 1 {
		return
	}
	r.violate("type name", e.name(), where, "identifier %s may differ from the schema name, but the struct has no XMLName (%s)", partsString(d.Name), pathString(e.exits[in.Exit].St.path))
}

func ruleC11(an *Analyzer, r *Report) {
	r.rule("every emission instance parses as exactly one declaration of the target language")
	r.rule("identifier pipelines yield identifiers of the target language, with the letters and digits of the name in order, for every name over {a,B,1,.,-,_} up to length 6 (thorough: 8), names with other letters, and names of the lengths the code compares lengths with")
	an.eachEmitter(r, func(e *Emitter) {
		pipes := map[string]bool{}
		for _, in := range e.Insts {
			where := an.exitPos(e, in.Exit)
			kids := ""
			if in.Rep != nil {
				if c := an.child(e, in.Rep); c != nil {
					kids = "/" + c.Field
				}
			}
			r.count("instances", 1)
			if in.Err != nil {
				r.violate("well-formed", e.name()+kids, where, "%v in the text generated for %s: %.400q", in.Err, in.desc(), in.text())
				continue
			}
			if len(in.Decls) != 1 {
				r.violate("one declaration", e.name()+kids, where, "%d declarations in the text generated for %s", len(in.Decls), in.desc())
				continue
			}
			d := in.decl()
			check := func(ps []Part, what string) {
				for i, p := range ps {
					if p.Term == nil || p.Conc {
						continue
					}
					pp := an.pipe(p.Term)
					k := fmt.Sprint(pp.Ops, i > 0)
					if pipes[k] {
						continue
					}
					pipes[k] = true
					r.count("identifier_pipelines", 1)
					if len(pp.Ops) == 0 && (pp.Src.Op == OpApp && pp.Src.S == "itoa") {
						continue
					}
					nameWords(func(w string) bool {
						x, ok := applyOps(w, pp.Ops)
						if !ok {
							r.undecided("%s: identifier rewriting %s", e.name(), pp)
							return false
						}
						if i > 0 {
							x = "a" + x
						}
						if !identifier(e.Lang, x) {
							r.violate("identifier", e.name()+"/"+what, where, "schema name %q gives %s %q", w, what, x)
							return false
						}
						if i == 0 && lettersOf(x) != lettersOf(w) {
							r.violate("whole name", e.name()+"/"+what, where, "%s %q does not have the letters and digits of the schema name %q", what, x, w)
							return false
						}
						return true
					})
				}
			}
			check(d.Name, "type name")
			for _, m := range d.Members {
				if d.Kind == "enum" {
					continue
				}
				check(m.Name, "member name")
				if m.Type != nil {
					check(m.Type.base().Name, "type reference")
				}
			}
			if d.Extends != nil {
				check(d.Extends.base().Name, "base")
			}
			if d.Type != nil {
				check(d.Type.base().Name, "type reference")
			}
		}
		for _, o := range e.Odd {
			r.undecided("%s: %s", e.name(), o)
		}
	})
	r.require(r.Counts["identifier_pipelines"], "identifier pipelines")
	for _, h := range []*helperSem{helperTitle, helperSnake} {
		if h.bad != "" {
			r.undecided("the rewriting of names by %s: %s", h.role, h.bad)
		} else {
			r.count("rewriting_functions_evaluated", 1)
		}
	}
}

func identifier(lang, s string) bool {
	if s == "" {
		return false
	}
	for i, c := range s {
		switch {
		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c == '_':
		case c >= '0' && c <= '9' && i > 0:
		case c >= utf8.RuneSelf && unicode.IsLetter(c):
		case c == '$' && (lang == "Java" || lang == "TypeScript"):
		default:
			return false
		}
	}
	return true
}

// exitPos is the position of an exit, or of its emitter.
func (an *Analyzer) exitPos(e *Emitter, i int) string {
	if p := e.exits[i].Pos; p.IsValid() {
		return an.pos(p)
	}
	return an.pos(e.fn.Pos())
}
