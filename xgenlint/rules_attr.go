package main

// How the attributes of schema elements are read: C18 (order), C19
// (occurrence and use).

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C18", "The effects of the alternatives of every loop over the attributes of an element: which cells they write and read, and whether two alternatives that can both occur commute.", ruleC18)
	register("C19", "The partitions of the handlers of elements, groups, choices and attributes are evaluated for every class of values of maxOccurs and use, in every position they distinguish.", ruleC19)
}

// ---- records

// record is a declaration a handler leaves in the options.
type record struct {
	where string // a stack, or stack.field
	field func(name string) *Term
	index int
	top   bool
}

// collections are the fields of a kind of declaration that hold others.
func (an *Analyzer) collections(parent, kind string) []string {
	s := structOf(an.kindType(parent))
	var out []string
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if sl, ok := s.Field(i).Type().Underlying().(*types.Slice); ok {
			t := sl.Elem()
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			if an.kindType(kind) != nil && types.Identical(t, an.kindType(kind)) {
				out = append(out, s.Field(i).Name())
			}
		}
	}
	return out
}

func (an *Analyzer) stackFields() []string {
	var out []string
	s := structOf(an.optType)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if an.isStackField(s.Field(i)) {
			out = append(out, s.Field(i).Name())
		}
	}
	return out
}

func plain(t *Term) *Term {
	for t != nil && (t.Op == OpIface || t.Op == OpDeref) {
		t = t.Args[0]
	}
	return t
}

// recordOf describes a declaration given by value or by reference.
func (o *simOut) recordOf(an *Analyzer, kind string, t *Term) func(string) *Term {
	return func(name string) *Term {
		v := plain(t)
		ft := an.fieldType(kind, name)
		if v.Op == OpStruct {
			return o.c.eval(mkField(v, name, ft))
		}
		return o.heap(fieldAddr(v, name), ft)
	}
}

// stackOf gives the final content of a stack above what was there, and how
// many of the elements that were there are gone.
func (o *simOut) stackOf(an *Analyzer, recv *Term, field string) (popped int64, pushed []*Term, ok bool) {
	ref := o.x.St.load(fieldAddr(recv, field), an.optionsField(field))
	if ref != an.initOf(recv, field) {
		return 0, nil, false
	}
	base, popped, pushed := o.x.St.stack(ref)
	if base != an.stackBase(recv, field) {
		return 0, nil, false
	}
	return popped, pushed, true
}

// listOf gives the final content of a collection of the top of a stack.
func (o *simOut) listOf(an *Analyzer, recv *Term, stack, field string, depth int64) *Term {
	t := an.fieldType(stack, field)
	l := o.heap(fieldAddr(an.stackTop(recv, stack, depth), field), t)
	if l.Op != OpListLit {
		return l
	}
	// elements stored in place
	old := o.x.St.init(fieldAddr(an.stackTop(recv, stack, depth), field), t)
	elems := append([]*Term{}, l.Args...)
	var addrs []*Term
	for a := range o.x.St.heap {
		addrs = append(addrs, a)
	}
	sort.Slice(addrs, func(i, j int) bool { return addrs[i].ID < addrs[j].ID })
	changed := false
	for _, a := range addrs {
		v := o.x.St.heap[a]
		name := ""
		b := a
		if b.Op == OpFieldAddr {
			name, b = b.S, b.Args[0]
		}
		if b.Op != OpIndexAddr || b.Args[0] != old {
			continue
		}
		i, ok := o.c.eval(b.Args[1]).num()
		if !ok || i < 0 || int(i) >= len(elems) {
			return mk(OpHavoc, "element "+showTerm(b.Args[1]), 0, t)
		}
		changed = true
		if name == "" {
			elems[i] = o.c.eval(v)
			continue
		}
		e := elems[i]
		st := structOf(e.T)
		if e.Op != OpStruct || st == nil {
			return mk(OpHavoc, "element "+showTerm(e), 0, t)
		}
		fs := append([]*Term{}, e.Args...)
		for k := 0; k < st.NumFields(); k++ {
			if st.Field(k).Name() == name {
				fs[k] = o.c.eval(v)
			}
		}
		elems[i] = mkStruct(e.T, fs)
	}
	if changed {
		l = mkListLit(t, elems...)
	}
	return l
}

// records lists the declarations of a kind that are new on their stack or in
// a collection of an open declaration.
func (an *Analyzer) records(o *simOut, recv *Term, kind string, before map[string]int) (out []record, bad string) {
	if _, pushed, ok := o.stackOf(an, recv, kind); !ok {
		bad = "the stack of " + kind
	} else {
		for i, p := range pushed {
			out = append(out, record{where: kind, field: o.recordOf(an, kind, o.c.eval(p)), index: i, top: i == len(pushed)-1})
		}
	}
	for _, s := range an.stackFields() {
		if an.kindType(s) == nil {
			continue
		}
		for _, f := range an.collections(s, kind) {
			l := o.listOf(an, recv, s, f, 0)
			n := before[s+"."+f]
			switch {
			case l == tNil || l == an.topField(recv, s, f):
			case l.Op == OpListLit:
				for i, e := range l.Args {
					if i >= n || e != o.c.eval(an.oldElem(recv, s, f, i)) {
						out = append(out, record{where: s + "." + f, field: o.recordOf(an, kind, e), index: i, top: i >= n})
					}
				}
			default:
				bad = "the content of " + s + "." + f + ": " + showTerm(l)
			}
		}
	}
	return out, bad
}

func (an *Analyzer) oldElem(recv *Term, stack, field string, i int) *Term {
	return mkElem(an.topField(recv, stack, field), ci(int64(i)), nil)
}

// decl makes a declaration with the given fields.
func (an *Analyzer) declTerm(kind string, fields map[string]*Term) *Term {
	t := an.kindType(kind)
	s := structOf(t)
	if s == nil {
		return nil
	}
	var fs []*Term
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		v := fields[f.Name()]
		if v == nil {
			v = zeroOrHavoc(f.Type())
		}
		fs = append(fs, v)
	}
	return mkStruct(t, fs)
}

// ---- C19

type place struct {
	name   string
	kinds  []string
	stacks map[string]int
	fields map[string]*Term
}

func (an *Analyzer) places() []place {
	zero := map[string]*Term{"InGroup": ci(0)}
	return []place{
		{"at the top level", []string{"Element", "Group", "Attribute", "AttributeGroup", "Choice"}, map[string]int{}, zero},
		{"in a complex type", []string{"Element", "Group", "Attribute", "AttributeGroup", "Choice"}, map[string]int{"ComplexType": 1}, zero},
		{"in a nested complex type", []string{"Element", "Group", "Attribute", "AttributeGroup", "Choice"}, map[string]int{"ComplexType": 2}, zero},
		{"in a group", []string{"Element", "Group", "Choice"}, map[string]int{"Group": 1}, map[string]*Term{"InGroup": ci(1)}},
		{"in a group of a group", []string{"Element", "Group", "Choice"}, map[string]int{"Group": 1}, map[string]*Term{"InGroup": ci(2)}},
		{"in an attribute group", []string{"Attribute"}, map[string]int{"AttributeGroup": 1}, zero},
	}
}

// placesFor adds places with as many open declarations as the handler compares
// numbers with.
func (an *Analyzer) placesFor(f *ssa.Function) []place {
	ps := an.places()
	for _, p := range an.places() {
		for _, s := range sortedInts(p.stacks) {
			for _, n := range an.harvestOf(f).sizes(0, 1<<16) {
				if n > 3 {
					q := p
					q.stacks = cloneStacks(p.stacks)
					q.stacks[s] = n
					q.name += fmt.Sprintf(" (%d open)", n)
					ps = append(ps, q)
				}
			}
		}
	}
	return ps
}

func sortedInts(m map[string]int) []string {
	var ks []string
	for k, n := range m {
		if n > 0 {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	return ks
}

// emptyTops gives the open declarations of a place empty collections.
func (an *Analyzer) emptyTops(stacks map[string]int) map[string]map[string]*Term {
	tops := map[string]map[string]*Term{}
	for s, n := range stacks {
		if n == 0 || structOf(an.kindType(s)) == nil {
			continue
		}
		tops[s] = map[string]*Term{}
		st := structOf(an.kindType(s))
		for i := 0; i < st.NumFields(); i++ {
			if _, ok := st.Field(i).Type().Underlying().(*types.Slice); ok {
				tops[s][st.Field(i).Name()] = mkListLit(st.Field(i).Type())
			}
		}
	}
	return tops
}

type occur struct {
	v    string
	want int // 0 once, 1 repeatable, 2 an error
}

var occurs = []occur{
	{"1", 0}, {"0", 0}, {"2", 1}, {"3", 1}, {"9", 1}, {"10", 1}, {"11", 1}, {"99", 1}, {"100", 1}, {"65536", 1}, {"2147483648", 1}, {"unbounded", 1},
	{"", 2}, {"x", 2}, {"1x", 2}, {"Unbounded", 2}, {"unbounded ", 2}, {"1.5", 2},
}

// attributes XSD defines for the elements concerned, other than maxOccurs
var otherAttrs = map[string][]string{
	"Element": {"minOccurs", "id", "nillable", "default", "fixed", "form", "abstract", "block", "final", "substitutionGroup"},
	"Group":   {"minOccurs", "id"},
	"Choice":  {"minOccurs", "id"},
}

func ruleC19(an *Analyzer, r *Report) {
	r.rule("repeatable <=> maxOccurs is 'unbounded' or a number > 1, or the innermost open choice is repeatable; unreadable => error")
	r.rule("optional <=> use is not 'required'")
	r.rule("two occurrences of one name and type in a complex type: repeatable if either is")
	for _, kind := range []string{"Element", "Group", "Choice"} {
		f := an.method(an.optType, "On"+kind)
		if f == nil {
			r.violate("anchor", "On"+kind, "", "there is no handler of %s", kind)
			continue
		}
		h, err := an.handlerOf(f)
		if err != nil {
			r.undecided("On%s: %v", kind, err)
			continue
		}
		base := [][2]string{{"name", "n"}, {"type", "t"}}
		if kind == "Group" {
			base = [][2]string{{"ref", "n"}}
		}
		if kind == "Choice" {
			base = nil
		}
		hv := an.harvestOf(f)
		occurs := occurs
		for _, n := range hv.sizes(0, 1<<20) {
			if n > 3 {
				occurs = append(occurs[:len(occurs):len(occurs)], occur{fmt.Sprint(n), 1})
			}
		}
		for _, p := range an.placesFor(f) {
			if !has(p.kinds, kind) {
				continue
			}
			for ch := 0; ch < 3; ch++ {
				run := func(attrs [][2]string, want int, desc string) {
					st := map[string]int{}
					for k, v := range p.stacks {
						st[k] = v
					}
					tops := an.emptyTops(st)
					if ch > 0 {
						st["Choice"] = 1
						tops["Choice"] = map[string]*Term{"Plural": cb(ch == 2)}
					}
					c := an.situation(h, &tag{attrs: attrs, stacks: st, fields: p.fields, tops: tops})
					desc = fmt.Sprintf("%s with %s, %s%s", kind, desc, p.name, []string{"", ", in a choice", ", in a repeatable choice"}[ch])
					outs := an.simulate(h.exits, c)
					if len(outs) == 0 {
						r.undecided("%s: no partition", desc)
					}
					for _, o := range outs {
						r.count("occurrence_cases", 1)
						where := an.pos(o.x.Pos)
						bad := func(format string, a ...interface{}) {
							if o.open > 0 {
								r.undecided("%s: %s, if %v", desc, fmt.Sprintf(format, a...), o.lits)
								return
							}
							r.violate("occurrence", "On"+kind, where, "%s %s", desc, fmt.Sprintf(format, a...))
						}
						if !o.ok() {
							if want != 2 {
								bad("is an error")
							}
							continue
						}
						if want == 2 {
							bad("is not an error")
							continue
						}
						recs, un := an.records(o, h.recv, kind, nil)
						if un != "" || len(recs) == 0 {
							r.undecided("%s: %s", desc, un)
							continue
						}
						for _, rec := range recs {
							v := rec.field("Plural")
							b, ok := v.boolean()
							if !ok {
								r.undecided("%s: %s", desc, showTerm(v))
								continue
							}
							if wantB := want == 1 || ch == 2; b != wantB {
								bad("is recorded as %s in %s", map[bool]string{true: "repeatable", false: "occurring once"}[b], rec.where)
							}
						}
					}
				}
				for _, oc := range occurs {
					run(append(append([][2]string{}, base...), [2]string{"maxOccurs", oc.v}), oc.want, fmt.Sprintf("maxOccurs=%q", oc.v))
					if oc.want == 1 && kind != "Choice" {
						run(append([][2]string{{"maxOccurs", oc.v}}, base...), oc.want, fmt.Sprintf("maxOccurs=%q before its name", oc.v))
					}
				}
				run(base, 0, "no maxOccurs")
				for _, w := range hv.names(1 << 12) {
					if len(base) == 0 || ch != 0 {
						break
					}
					b := append([][2]string{{base[0][0], w}}, base[1:]...)
					run(append(b[:len(b):len(b)], [2]string{"maxOccurs", "2"}), 1, fmt.Sprintf("maxOccurs=%q and %s=%s", "2", base[0][0], shortText(w)))
					run(b, 0, fmt.Sprintf("no maxOccurs and %s=%s", base[0][0], shortText(w)))
				}
				for _, a := range otherAttrs[kind] {
					for _, v := range []string{"2", "unbounded", "true"} {
						run(append(append([][2]string{}, base...), [2]string{a, v}), 0, fmt.Sprintf("%s=%q and no maxOccurs", a, v))
					}
				}
			}
		}
		if kind == "Element" {
			an.merged(r, h)
		}
	}
	an.usage(r)
	r.require(r.Counts["occurrence_cases"], "case of maxOccurs")
	r.require(r.Counts["use_cases"], "case of use")
}

// merged: the same element twice in one complex type.
func (an *Analyzer) merged(r *Report, h *handler) {
	for i := 0; i < 32; i++ {
		old, now, ch, second, same3 := i&1 != 0, i&2 != 0, i&4 != 0, i&8 != 0, i&16 != 0
		st := map[string]int{"ComplexType": 1}
		tops := an.emptyTops(st)
		colls := an.collections("ComplexType", "Element")
		if len(colls) != 1 {
			r.undecided("the elements of a complex type")
			return
		}
		same := an.declTerm("Element", map[string]*Term{"Name": cs("n"), "Type": typeOf("t"), "Plural": cb(old)})
		list := []*Term{same}
		if second {
			list = []*Term{an.declTerm("Element", map[string]*Term{"Name": cs("m"), "Type": typeOf("t"), "Plural": tFalse}), same}
		}
		if same3 { // and one of this name, but of another type
			list = append([]*Term{an.declTerm("Element", map[string]*Term{"Name": cs("n"), "Type": typeOf("u"), "Plural": tFalse})}, list...)
		}
		tops["ComplexType"][colls[0]] = mkListLit(an.fieldType("ComplexType", colls[0]), list...)
		if ch {
			st["Choice"] = 1
			tops["Choice"] = map[string]*Term{"Plural": tTrue}
		}
		attrs := [][2]string{{"name", "n"}, {"type", "t"}}
		if now {
			attrs = append(attrs, [2]string{"maxOccurs", "unbounded"})
		}
		c := an.situation(h, &tag{attrs: attrs, stacks: st, tops: tops, fields: map[string]*Term{"InGroup": ci(0)}})
		c.m[mkEq(typeOf("t"), typeOf("u"))] = tFalse
		for _, o := range an.simulate(h.exits, c) {
			if !o.ok() {
				continue
			}
			r.count("merge_cases", 1)
			desc := fmt.Sprintf("an element that was repeatable: %v, is again: %v", old, now || ch)
			l := o.listOf(an, h.recv, "ComplexType", colls[0], 0)
			if l.Op != OpListLit {
				r.undecided("%s: %s", desc, showTerm(l))
				continue
			}
			got, other, times := false, false, 0
			for _, e := range l.Args {
				rec := o.recordOf(an, "Element", e)
				b, ok := rec("Plural").boolean()
				n, ok2 := rec("Name").str()
				if !ok || !ok2 {
					r.undecided("%s: %s", desc, showTerm(e))
				}
				if n == "n" && isTypeOf(rec("Type"), "t") {
					got = got || b
					times++
				} else {
					other = other || b
				}
			}
			if want := old || now || ch; got != want || other || times != 1 {
				if o.open > 0 {
					r.undecided("%s: %v", desc, o.lits)
					continue
				}
				if times != 1 {
					r.violate("second occurrence", "OnElement/times", an.pos(o.x.Pos), "%s, and is recorded %d times", desc, times)
				} else if other {
					r.violate("second occurrence", "OnElement/other", an.pos(o.x.Pos), "%s changes another element", desc)
				} else {
					r.violate("second occurrence", "OnElement", an.pos(o.x.Pos), "%s, and ends up repeatable: %v", desc, got)
				}
			}
		}
	}
	r.require(r.Counts["merge_cases"], "case of two occurrences")
}

func (an *Analyzer) usage(r *Report) {
	f := an.method(an.optType, "OnAttribute")
	if f == nil {
		r.violate("anchor", "OnAttribute", "", "there is no handler of attributes")
		return
	}
	h, err := an.handlerOf(f)
	if err != nil {
		r.undecided("OnAttribute: %v", err)
		return
	}
	type ucase struct {
		attrs [][2]string
		want  bool
	}
	base := [][2]string{{"name", "n"}, {"type", "t"}}
	with := func(k, v string) [][2]string { return append(append([][2]string{}, base...), [2]string{k, v}) }
	cases := []ucase{{base, true}}
	for _, v := range []string{"required", "optional", "prohibited", "", "Required", "require", "requiredx"} {
		cases = append(cases, ucase{with("use", v), v != "required"}, ucase{append([][2]string{{"use", v}}, base...), v != "required"})
	}
	for _, a := range []string{"default", "fixed", "form", "id", "ref"} {
		cases = append(cases, ucase{with(a, "required"), true})
		cases = append(cases, ucase{append(with(a, "optional"), [2]string{"use", "required"}), false})
	}
	for _, w := range an.harvestOf(f).names(1 << 12) {
		for _, b := range [][][2]string{{{"name", w}, {"type", "t"}}, {{"name", w}}, {{"ref", w}}} {
			cases = append(cases, ucase{b, true}, ucase{append(b[:len(b):len(b)], [2]string{"use", "required"}), false}, ucase{append([][2]string{{"use", "required"}}, b...), false})
		}
	}
	for _, p := range an.placesFor(f) {
		if !has(p.kinds, "Attribute") {
			continue
		}
		for _, tc := range cases {
			c := an.situation(h, &tag{attrs: tc.attrs, stacks: p.stacks, fields: p.fields, tops: an.emptyTops(p.stacks)})
			desc := fmt.Sprintf("an attribute with %q, %s", tc.attrs, p.name)
			outs := an.simulate(h.exits, c)
			n := 0
			for _, o := range outs {
				if !o.ok() {
					continue
				}
				recs, un := an.records(o, h.recv, "Attribute", nil)
				if un != "" || len(recs) == 0 {
					r.undecided("%s: %s", desc, un)
				}
				n++
				for _, rec := range recs {
					r.count("use_cases", 1)
					b, ok := rec.field("Optional").boolean()
					switch {
					case !ok:
						r.undecided("%s: %s", desc, showTerm(rec.field("Optional")))
					case b != tc.want && o.open == 0:
						r.violate("use", "OnAttribute", an.pos(o.x.Pos), "%s is recorded as optional: %v", desc, b)
					case b != tc.want:
						r.undecided("%s: %v", desc, o.lits)
					}
				}
			}
			if n == 0 {
				r.undecided("%s: no partition", desc)
			}
		}
	}
}

// ---- C18

// attrLoop is one loop over the attributes of an element.
type attrLoop struct {
	h     *handler
	s     *simExit
	ev    *Event
	elem  *Term
	cells []*Term // folds and repetitions
}

func ruleC18(an *Analyzer, r *Report) {
	r.rule("every loop over the attributes looks at all of them, or stops at the only attribute it takes anything from")
	r.rule("two alternatives for attributes of different names do not write the same cell with different values, and neither reads what the other writes")
	r.rule("no attribute is selected by its position")
	for _, f := range an.libFuncs() {
		takes := false
		for _, p := range f.Params {
			if typeKey(p.Type()) == "encoding/xml.StartElement" {
				takes = true
			}
		}
		if !takes || len(f.Blocks) == 0 || f.Parent() != nil {
			continue
		}
		h, err := an.handlerOf(f)
		if err != nil {
			r.undecided("%s: %v", f.Name(), err)
			continue
		}
		if h.ele == nil {
			continue
		}
		r.count("functions", 1)
		an.attrOrder(r, h)
	}
	r.require(r.Counts["functions"], "function taking a start tag")
	r.require(r.Counts["loops"], "loop over attributes")
}

func (an *Analyzer) attrOrder(r *Report, h *handler) {
	s := structOf(h.ele.T)
	var list *Term
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if s.Field(i).Name() == "Attr" {
			list = mkField(h.ele, "Attr", s.Field(i).Type())
		}
	}
	for _, se := range h.exits {
		x := se.x
		// positions
		exitTerms(x, func(t *Term) {
			if t.Op == OpElem && t.Args[0] == list && t.Args[1].Op != OpIter {
				r.violate("position", h.f.Name(), an.pos(x.Pos), "an attribute is selected by its position (%s)", showTerm(t.Args[1]))
			}
			if t.Op == OpSub && t.Args[0] == list {
				r.violate("position", h.f.Name(), an.pos(x.Pos), "only some of the attributes are looked at (%s)", showTerm(t))
			}
		})
		for _, ev := range x.St.events {
			if ev.Kind != "loop" || ev.Loop.Over != list {
				continue
			}
			l := &attrLoop{h: h, s: se, ev: ev, elem: mkElem(list, mk(OpIter, ev.Loop.ID, 0, types.Typ[types.Int]), nil), cells: se.liveCells(ev)}
			r.count("loops", 1)
			an.attrLoop(r, l)
		}
	}
}

// liveCells are the cells a loop carries that matter after it.
func (s *simExit) liveCells(ev *Event) []*Term {
	x := s.x
	seen := map[*Term]bool{}
	objs := map[*Term]bool{}
	live := map[*Term]bool{}
	self := map[*Term]*Term{}
	for _, f := range s.cells(ev) {
		if f.Op == OpFold {
			self[f.Args[1]] = f
		}
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if (t.Op == OpFold || t.Op == OpRep || t.Op == OpListRep) && t.S == ev.Loop.ID {
			live[t] = true
		}
		if f := self[t]; f != nil {
			walk(f)
		}
		if t.Op == OpObj && !objs[t] {
			objs[t] = true
			for a, v := range x.St.heap {
				if rootOf(a) == t {
					walk(v)
				}
			}
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	for _, l := range x.St.path {
		walk(l.A)
	}
	for _, v := range x.Res {
		walk(v)
	}
	for a, v := range x.St.heap {
		if rootOf(a).Op != OpObj {
			walk(a)
			walk(v)
		}
	}
	eachEvent(x.St.events, func(e *Event, in *Event) {
		if e.Kind == "proved" {
			return
		}
		for _, a := range e.Args {
			walk(a)
		}
	})
	for _, g := range ev.Guard {
		for _, l := range g {
			walk(l.A)
		}
	}
	var out []*Term
	for _, f := range s.cells(ev) {
		if live[f] {
			out = append(out, f)
		}
	}
	return out
}

// attrName gives the attribute name the literals ask for: the constant its
// local name equals, or "" when they ask for none.
func (l *attrLoop) attrName(g []Lit) string {
	for _, x := range g {
		if !x.V || x.A.Op != OpEq {
			continue
		}
		for i := 0; i < 2; i++ {
			c, ok := nameTerm(x.A.Args[i])
			if ok && l.isLocal(x.A.Args[1-i]) {
				return c
			}
		}
	}
	return ""
}

// nameTerm: a name that stays the same during the loop, a constant or a
// parameter of the function.
func nameTerm(t *Term) (string, bool) {
	if c, ok := t.str(); ok {
		return c, true
	}
	if t.Op == OpSym {
		return "the name " + t.S, true
	}
	return "", false
}

func (l *attrLoop) isLocal(t *Term) bool {
	return t.Op == OpField && t.S == "Local" && t.Args[0].Op == OpField && t.Args[0].S == "Name" && t.Args[0].Args[0] == l.elem
}

// excludes reports that the literals rule the attribute name out.
func (l *attrLoop) excludes(g []Lit, name string) bool {
	for _, x := range g {
		if x.A.Op != OpEq {
			continue
		}
		for i := 0; i < 2; i++ {
			c, ok := nameTerm(x.A.Args[i])
			if ok && l.isLocal(x.A.Args[1-i]) && (!x.V && c == name || x.V && c != name) {
				return true
			}
		}
	}
	return false
}

// effect is what one alternative does: the cells it changes and their values,
// the calls, stores and map updates it makes.
type effect struct {
	name   string
	guard  []Lit
	writes map[*Term]*Term
	events []*Event
}

func (l *attrLoop) effect(a int) *effect {
	e := &effect{name: l.attrName(l.ev.Guard[a]), guard: l.ev.Guard[a], writes: map[*Term]*Term{}}
	for _, f := range l.cells {
		switch {
		case f.Op == OpFold && 2+a < len(f.Args):
			if v := f.Args[2+a].Args[0]; v != f.Args[1] {
				e.writes[f] = v
			}
		case f.Op != OpFold && a < len(f.Args):
			if v := f.Args[a].Args[0]; !(v == tEmpty || v.Op == OpListLit && len(v.Args) == 0) {
				e.writes[f] = v
			}
		}
	}
	var rec func(evs []*Event)
	rec = func(evs []*Event) {
		for _, ev := range evs {
			switch ev.Kind {
			case "push", "pop", "popnil", "mapput", "mapdelete", "store":
				e.events = append(e.events, ev)
			}
			for _, alt := range ev.Alts {
				rec(alt)
			}
		}
	}
	rec(l.ev.Alts[a])
	return e
}

func (e *effect) none() bool { return len(e.writes) == 0 && len(e.events) == 0 }

// reads reports that t depends on the loop-carried cell.
func readsCell(t, cell *Term) bool {
	if t == nil || cell.Op != OpFold {
		return false
	}
	return contains(t, cell.Args[1])
}

func (e *effect) reads(cell *Term, own *Term) bool {
	for f, v := range e.writes {
		if f != own && readsCell(v, cell) {
			return true
		}
	}
	for _, g := range e.guard {
		if readsCell(g.A, cell) {
			return true
		}
	}
	for _, ev := range e.events {
		for _, a := range ev.Args {
			if readsCell(a, cell) {
				return true
			}
		}
	}
	return false
}

// settles: all the effect does with the flag, which another attribute sets to
// v, is to set it to v too, where it isn't yet.
func (e *effect) settles(cell, v *Term) bool {
	if v != tTrue && v != tFalse || cell.Op != OpFold || len(e.events) > 0 {
		return false
	}
	unset := false
	for _, g := range e.guard {
		if !readsCell(g.A, cell) {
			continue
		}
		if g.A != cell.Args[1] {
			return false
		}
		unset = unset || g.V == (v == tFalse)
	}
	for f, w := range e.writes {
		if f != cell || w != v && (!unset || readsCell(w, cell)) {
			return false
		}
	}
	return true
}

// orLike: the two set the flag to the same value, each under a condition of
// its own, and look at it only to leave it alone when it is set.
func orLike(a, b *effect, cell *Term) bool {
	for _, c := range []*Term{tTrue, tFalse} {
		sa, sb := a.settles(cell, c), b.settles(cell, c)
		if sa && sb || sb && a.writes[cell] == c && !a.reads(cell, cell) || sa && b.writes[cell] == c && !b.reads(cell, cell) {
			return true
		}
	}
	return false
}

func (an *Analyzer) attrLoop(r *Report, l *attrLoop) {
	x := l.s.x
	where := an.pos(l.ev.Loop.Pos)
	name := l.h.f.Name()
	var effs []*effect
	for a := range l.ev.Alts {
		effs = append(effs, l.effect(a))
	}
	iter := mk(OpIter, l.ev.Loop.ID, 0, types.Typ[types.Int])
	if cutLoop(l.ev, x) {
		var g []Lit
		for _, p := range x.St.path {
			if contains(p.A, iter) {
				g = append(g, p)
			}
		}
		an.cutAttr(r, l, g, effs, where)
	} else if !l.ev.Loop.Full {
		r.violate("all attributes", name, where, "not every attribute is looked at")
	}
	for i, a := range effs {
		for _, b := range effs[i+1:] {
			if a.name != "" && a.name == b.name {
				continue // an element has one attribute of a name
			}
			if exclusiveAttrs(a.name, b.name) {
				continue
			}
			r.count("pairs", 1)
			an.commute(r, l, a, b, where)
		}
		an.commuteSelf(r, l, a, where)
	}
}

// exclusiveAttrs: XSD does not allow a reference to have a name or a type.
func exclusiveAttrs(a, b string) bool {
	if b == "ref" {
		a, b = b, a
	}
	return a == "ref" && (b == "name" || b == "type")
}

// cutAttr: the loop is left before its end.
func (an *Analyzer) cutAttr(r *Report, l *attrLoop, g []Lit, effs []*effect, where string) {
	x := l.s.x
	name := l.h.f.Name()
	at := l.attrName(g)
	if !an.succeeds(x) {
		// an error: reported whatever came before
		for _, f := range l.cells {
			for _, p := range g {
				if readsCell(p.A, f) || contains(p.A, f) {
					r.violate("order", name+"/error", where, "whether %q is an error depends on the attributes before it (%s)", at, showTerm(p.A))
				}
			}
		}
		return
	}
	if at == "" {
		for _, e := range effs {
			if !e.none() {
				r.violate("all attributes", name, where, "the loop over the attributes ends early and the rest is not looked at")
				return
			}
		}
		r.undecided("%s: the loop over the attributes ends early", name)
		return
	}
	for _, e := range effs {
		if !e.none() && e.name != at {
			r.violate("all attributes", name+"/"+at, where, "attributes after %s are not looked at", at)
			return
		}
	}
}

func (an *Analyzer) commute(r *Report, l *attrLoop, a, b *effect, where string) {
	name := l.h.f.Name()
	what := func(e *effect) string {
		if e.name == "" {
			return "any other attribute"
		}
		return e.name
	}
	two := []string{what(a), what(b)}
	sort.Strings(two)
	key := name + "/" + strings.Join(two, "+")
	for f, v := range a.writes {
		w, ok := b.writes[f]
		if ok && (l.keyedByName(v, f) && (l.keyedByName(w, f) || keyedEmpty(w, f)) || keyedEmpty(v, f) && l.keyedByName(w, f)) {
			continue
		}
		if orLike(a, b, f) {
			continue
		}
		if ok && v != w {
			r.violate("order", key, where, "%s and %s set the same thing differently (%s, %s): the last one wins", what(a), what(b), showTerm(v), showTerm(w))
		}
		if ok && v == w && !v.isConst() {
			r.violate("order", key, where, "%s and %s set the same thing: the last one wins", what(a), what(b))
		}
		if b.reads(f, f) {
			r.violate("order", key, where, "what is done for %s depends on whether %s came before", what(b), what(a))
		}
	}
	for f := range b.writes {
		if a.reads(f, f) && !orLike(a, b, f) {
			r.violate("order", key, where, "what is done for %s depends on whether %s came before", what(a), what(b))
		}
	}
	for _, p := range a.events {
		for _, q := range b.events {
			if !an.eventsCommute(l, p, q) {
				r.violate("order", key, where, "what is done for %s and for %s touches the same thing (%s, %s)", what(a), what(b), shortFn(p.String()), shortFn(q.String()))
			}
		}
	}
}

// commuteSelf: an alternative that several attributes can take.
func (an *Analyzer) commuteSelf(r *Report, l *attrLoop, a *effect, where string) {
	if a.name != "" {
		return
	}
	name := l.h.f.Name()
	for f, v := range a.writes {
		if l.keyedByName(v, f) {
			continue
		}
		if !v.isConst() && f.Op == OpFold && !contains(v, f.Args[1]) {
			r.violate("order", name, where, "attributes of several names set the same thing: the last one wins (%s)", showTerm(v))
		} else if !v.isConst() {
			r.undecided("%s: %s", name, showTerm(v))
		}
	}
	for _, p := range a.events {
		if !an.eventsCommute(l, p, p) {
			r.violate("order", name, where, "attributes of several names touch the same thing (%s)", shortFn(p.String()))
		}
	}
}

// keyedByName: an entry of a map under the attribute's own name.
func (l *attrLoop) keyedByName(v, cell *Term) bool {
	return v.Op == OpMapPut && cell.Op == OpFold && v.Args[0] == cell.Args[1] && l.isLocal(v.Args[1]) && !contains(v.Args[2], cell.Args[1])
}

func keyedEmpty(v, cell *Term) bool {
	return v.Op == OpMapPut && cell.Op == OpFold && v.Args[0] == cell.Args[1] && v.Args[1] == tEmpty && !contains(v.Args[2], cell.Args[1])
}

// eventsCommute: entries of maps with keys that differ for different
// attributes, and stores to different cells.
func (an *Analyzer) eventsCommute(l *attrLoop, p, q *Event) bool {
	switch {
	case p.Kind == "mapput" && q.Kind == "mapput":
		if len(p.Args) > 1 && len(q.Args) > 1 {
			if p.Args[0] != q.Args[0] {
				return true
			}
			// no attribute has an empty name
			return l.isLocal(p.Args[1]) && (l.isLocal(q.Args[1]) || q.Args[1] == tEmpty) || p.Args[1] == tEmpty && l.isLocal(q.Args[1])
		}
	case p.Kind == "store" && q.Kind == "store":
		return p.Args[0] != q.Args[0] || p != q && p.Args[1] == q.Args[1] && p.Args[1].isConst()
	case p.Kind == "push" && q.Kind == "push":
		return p.Args[0] != q.Args[0]
	case p.Kind != q.Kind:
		return p.Args[0] != q.Args[0]
	}
	return false
}
