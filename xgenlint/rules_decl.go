package main

// C20: declarations and their values are recorded, and none is lost.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C20", "The partitions of the handlers of start and end tags are evaluated in every position they distinguish; the value every stack pop gives is followed to where it ends up; the parse result is followed through every partition.", ruleC20)
}

type declRule struct {
	an *Analyzer
	r  *Report
	h  map[string]*handler
}

func (d *declRule) handler(name string) *handler {
	if h, ok := d.h[name]; ok {
		return h
	}
	d.h[name] = nil
	f := d.an.method(d.an.optType, name)
	if f == nil {
		return nil
	}
	h, err := d.an.handlerOf(f)
	if err != nil {
		d.r.undecided("%s: %v", name, err)
		return nil
	}
	d.h[name] = h
	return h
}

func ruleC20(an *Analyzer, r *Report) {
	r.rule("a start tag processed without error leaves exactly one record of its declaration: in the innermost open declaration that holds its kind, or open on its stack")
	r.rule("an end tag closes the innermost open declaration of its kind: it goes to its parent or to the parse result exactly once, or gives its type to the open element or attribute")
	r.rule("what is taken off a stack, anywhere, ends up in the parse result, in a parent, or as the type of an open element or attribute; the parse result only grows")
	r.rule("enumeration values, item types, member types, restriction and extension bases are recorded in the innermost open type")
	d := &declRule{an, r, map[string]*handler{}}
	d.fit()
	d.starts()
	d.ends()
	d.enumValues()
	d.values()
	d.pops()
	r.require(r.Counts["start_cases"], "start tag case")
	r.require(r.Counts["end_cases"], "end tag case")
	r.require(r.Counts["value_cases"], "value case")
}

// fit: a method named like a handler that takes something else than handlers
// are called with is never called, and its tags are ignored.
func (d *declRule) fit() {
	an := d.an
	var shape string
	n := map[string]int{}
	for pass := 0; pass < 2; pass++ {
		for _, f := range an.funcs {
			if f.Synthetic != "" || f.Parent() != nil || !an.isHandler(f) || an.hasCallers(f) {
				continue
			}
			sig := f.Signature
			var ts []string
			for i := 0; i < sig.Params().Len(); i++ {
				k := typeKey(sig.Params().At(i).Type())
				if strings.HasPrefix(f.Name(), "End") {
					k = strings.Replace(k, "encoding/xml.EndElement", "encoding/xml.StartElement", 1)
				}
				ts = append(ts, k)
			}
			k := strings.Join(ts, ", ")
			if pass == 0 {
				if n[k]++; n[k] > n[shape] {
					shape = k
				}
				continue
			}
			d.r.count("handlers_that_fit", 1)
			if k != shape {
				d.r.violate("called", f.Name(), an.pos(f.Pos()), "%s takes (%s) while the parser calls handlers with (%s): it is never called", f.Name(), k, shape)
			}
		}
	}
}

// otherNames are names other than "n", by number.
var otherNames = [][]string{{}, {"N"}, {"old", "nn"}, {"n.", "o", "n1"}}

func otherName(n, i int) string {
	if n < len(otherNames) {
		return otherNames[n][i]
	}
	return fmt.Sprintf("o-%d", i)
}

func cloneStacks(m map[string]int) map[string]int {
	n := map[string]int{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

// report says that an outcome is wrong, unless the input leaves conditions open.
func (d *declRule) report(o *simOut, rule, key, desc, format string, a ...interface{}) {
	if o.open > 0 {
		d.r.undecided("%s: %s, if %v", desc, fmt.Sprintf(format, a...), o.lits)
		return
	}
	d.r.violate(rule, key, d.an.pos(o.x.Pos), "%s %s", desc, fmt.Sprintf(format, a...))
}

// run evaluates a handler and gives the outcomes that are not errors.
func (d *declRule) run(h *handler, t *tag, desc string) []*simOut {
	c := d.an.situation(h, t)
	var oks []*simOut
	for _, o := range d.an.simulate(h.exits, c) {
		if o.ok() {
			oks = append(oks, o)
		}
	}
	if len(oks) == 0 {
		d.r.undecided("%s: no partition", desc)
	}
	return oks
}

// ---- start tags

func (d *declRule) starts() {
	an := d.an
	type acase struct {
		attrs      [][2]string
		name, typ  string
		ref, typed bool
		special    bool // a name the code compares with
	}
	for _, kind := range []string{"Element", "Attribute", "Group", "AttributeGroup", "Choice"} {
		h := d.handler("On" + kind)
		if h == nil {
			d.r.violate("anchor", "On"+kind, "", "start tags of %s have no handler", kind)
			continue
		}
		var cases []acase
		switch kind {
		case "Element", "Attribute":
			cases = []acase{
				{[][2]string{{"name", "n"}, {"type", "t"}}, "n", "t", false, true, false},
				{[][2]string{{"name", "n"}, {"type", "t"}, {"minOccurs", "0"}, {"id", "i"}, {"use", "optional"}}, "n", "t", false, true, false},
				{[][2]string{{"type", "t"}, {"default", "d"}, {"name", "n"}}, "n", "t", false, true, false},
				{[][2]string{{"ref", "n"}}, "n", "n", true, true, false},
				{[][2]string{{"use", "required"}, {"maxOccurs", "3"}, {"ref", "n"}}, "n", "n", true, true, false},
				{[][2]string{{"name", "n"}}, "n", "", false, false, false},
				{[][2]string{{"ref", "p:n"}}, "", "", true, true, false},
			}
		case "Group", "AttributeGroup":
			cases = []acase{
				{[][2]string{{"name", "n"}}, "n", "", false, false, false},
				{[][2]string{{"id", "i"}, {"name", "n"}}, "n", "", false, false, false},
				{[][2]string{{"ref", "n"}}, "n", "n", true, true, false},
				{[][2]string{{"minOccurs", "0"}, {"ref", "n"}, {"maxOccurs", "1"}}, "n", "n", true, true, false},
				{[][2]string{{"ref", "p:n"}}, "", "", true, true, false},
			}
		default:
			cases = []acase{{nil, "", "", false, false, false}, {[][2]string{{"minOccurs", "0"}, {"maxOccurs", "4"}}, "", "", false, false, false}}
		}
		hv := an.harvestOf(h.f)
		for _, w := range hv.names(1 << 12) {
			if kind != "Choice" {
				cases = append(cases, acase{[][2]string{{"name", w}}, w, "", false, false, true}, acase{[][2]string{{"ref", w}}, w, w, true, true, true})
			}
			if kind == "Element" || kind == "Attribute" {
				cases = append(cases, acase{[][2]string{{"name", w}, {"type", "t"}}, w, "t", false, true, true}, acase{[][2]string{{"name", "n"}, {"type", w}}, "n", w, false, true, true})
			}
		}
		pres := hv.sizes(3, 1<<9)
		for _, p := range an.placesFor(h.f) {
			if !has(p.kinds, kind) {
				continue
			}
			want := kind
			for _, parent := range []string{"ComplexType", "Group"} {
				if p.stacks[parent] > 0 && (kind == "Element" || kind == "Group" || kind == "AttributeGroup") {
					if cs := an.collections(parent, kind); len(cs) == 1 {
						want = parent + "." + cs[0]
					}
					break
				}
			}
			for _, tc := range cases {
				for _, pre := range pres {
					if tc.special && pre > 1 {
						continue
					}
					// what the parent already holds: nothing, or declarations of other names
					if pre > 0 && want == kind {
						continue
					}
					stacks := cloneStacks(p.stacks)
					if kind == "Element" {
						stacks["Choice"] = 0
					}
					tops := an.emptyTops(stacks)
					before := map[string]int{}
					if pre > 0 {
						sf := strings.SplitN(want, ".", 2)
						var old []*Term
						// of the same type: names that differ can mean the same type
						same := typeOf("t")
						for _, a := range tc.attrs {
							if a[0] == "ref" {
								same = typeOf(a[1])
							}
						}
						prefixed := len(tc.attrs) > 0 && strings.Contains(tc.attrs[0][1], ":")
						for i := 0; i < pre; i++ {
							other := otherName(pre, i)
							if prefixed && i < 2 {
								other = []string{"q:n", "qp:n"}[i] // of other namespaces
							}
							old = append(old, an.declTerm(kind, map[string]*Term{"Name": cs(other), "Type": same, "Ref": same}))
						}
						tops[sf[0]][sf[1]] = mkListLit(an.fieldType(sf[0], sf[1]), old...)
						before[want] = pre
					}
					fields := map[string]*Term{"ProtoTree": mkListLit(an.optionsField("ProtoTree"))}
					for k, v := range p.fields {
						fields[k] = v
					}
					desc := fmt.Sprintf("%s with %q, %s beside %d others,", kind, tc.attrs, p.name, pre)
					for _, o := range d.run(h, &tag{attrs: tc.attrs, stacks: stacks, fields: fields, tops: tops}, desc) {
						d.r.count("start_cases", 1)
						recs, un := an.recordsIn(o, h.recv, kind, before, tops)
						if un != "" {
							d.r.undecided("%s: %s", desc, un)
							continue
						}
						n, open := 0, 0
						for _, rec := range recs {
							key := "On" + kind + "/" + rec.where
							switch {
							case rec.where == want:
								n++
								if rec.index < before[want] {
									d.report(o, "overwritten", key, desc, "overwrites another declaration of %s", rec.where)
								}
							case rec.where == kind && kind == "Element" && !tc.typed:
								open++ // kept open for its type
							default:
								d.report(o, "recorded", key, desc, "is recorded in %s instead of %s", rec.where, want)
							}
							if tc.name != "" {
								if s, _ := rec.field("Name").str(); s != tc.name {
									d.report(o, "recorded", key+"/Name", desc, "is recorded under the name %s", showTerm(rec.field("Name")))
								}
								f := "Type"
								if kind == "Group" || kind == "AttributeGroup" {
									f = "Ref"
								}
								v := rec.field(f)
								if tc.typ != "" && !isTypeOf(v, tc.typ) {
									d.report(o, "recorded", key+"/"+f, desc, "is recorded with %s %s", f, showTerm(v))
								}
							}
						}
						switch {
						case n == 0:
							d.report(o, "recorded", "On"+kind+"/"+p.name, desc, "is not recorded in %s", want)
						case n > 1:
							d.report(o, "recorded once", "On"+kind+"/"+p.name, desc, "is recorded %d times in %s", n, want)
						case open > 1:
							d.report(o, "recorded once", "On"+kind+"/"+p.name+"/open", desc, "is kept open %d times", open)
						}
						d.untouched(o, h, kind, stacks, before, want, desc)
					}
				}
			}
		}
	}
	d.openTypes()
	d.sameName()
}

// recordsIn is records with the initial content of the collections replaced.
func (an *Analyzer) recordsIn(o *simOut, recv *Term, kind string, before map[string]int, tops map[string]map[string]*Term) ([]record, string) {
	return an.records(o, recv, kind, before)
}

// untouched: other open declarations keep what they have, and the parse
// result is as before.
func (d *declRule) untouched(o *simOut, h *handler, kind string, stacks map[string]int, before map[string]int, want, desc string) {
	an := d.an
	for _, s := range an.stackFields() {
		popped, pushed, ok := o.stackOf(an, h.recv, s)
		if !ok {
			d.r.undecided("%s: the stack %s", desc, s)
			continue
		}
		if popped > 0 {
			d.report(o, "kept open", h.f.Name()+"/"+s, desc, "closes an open declaration of %s", s)
		}
		if s != kind && len(pushed) > 0 {
			d.report(o, "kept open", h.f.Name()+"/"+s, desc, "opens a declaration of %s", s)
		}
	}
	pt := o.heap(fieldAddr(h.recv, "ProtoTree"), an.optionsField("ProtoTree"))
	if pt.Op != OpListLit || len(pt.Args) != 0 {
		d.report(o, "result", h.f.Name(), desc, "changes the parse result (%s)", showTerm(pt))
	}
	if before[want] > 0 {
		sf := strings.SplitN(want, ".", 2)
		l := o.listOf(an, h.recv, sf[0], sf[1], 0)
		if l.Op == OpListLit && len(l.Args) < before[want] {
			d.report(o, "kept", h.f.Name()+"/"+want, desc, "drops what %s holds", want)
		}
	}
}

// openTypes: start tags of types.
func (d *declRule) openTypes() {
	an := d.an
	if h := d.handler("OnComplexType"); h == nil {
		d.r.violate("anchor", "OnComplexType", "", "start tags of complex types have no handler")
	} else {
		for ct := 0; ct < 3; ct++ {
			for el := 0; el < 3; el++ {
				for named := 0; named < 4; named++ {
					if named == 1 && ct > 0 || named == 1 && el > 0 {
						continue // only a top-level type is named
					}
					var attrs [][2]string
					switch named {
					case 1:
						attrs = [][2]string{{"abstract", "true"}, {"name", "n"}, {"mixed", "true"}}
					case 2:
						attrs = [][2]string{{"mixed", "true"}}
					case 3:
						attrs = [][2]string{{"id", "i"}, {"mixed", "false"}}
					}
					stacks := map[string]int{"ComplexType": ct, "Element": el}
					tops := map[string]map[string]*Term{"Element": {"Name": cs("encl")}}
					fields := map[string]*Term{"InElement": cs("complexType"), "CurrentEle": tEmpty, "InGroup": ci(0), "ProtoTree": mkListLit(an.optionsField("ProtoTree"))}
					desc := fmt.Sprintf("ComplexType with %q below %d complex types and %d elements", attrs, ct, el)
					for _, o := range d.run(h, &tag{attrs: attrs, stacks: stacks, fields: fields, tops: tops}, desc) {
						d.r.count("start_cases", 1)
						popped, pushed, ok := o.stackOf(an, h.recv, "ComplexType")
						if !ok {
							d.r.undecided("%s: the stack", desc)
							continue
						}
						if popped > 0 {
							d.report(o, "kept open", "OnComplexType", desc, "closes an open complex type")
						}
						if len(pushed) != 1 {
							d.report(o, "recorded", "OnComplexType", desc, "opens %d complex types", len(pushed))
							continue
						}
						want := ""
						switch {
						case named == 1:
							want = "n"
						case el > 0:
							want = "encl"
						}
						nm := o.recordOf(an, "ComplexType", o.c.eval(pushed[0]))("Name")
						if s, ok := nm.str(); !ok || s != want {
							d.report(o, "recorded", "OnComplexType/Name", desc, "is recorded under the name %s instead of %q", showTerm(nm), want)
						}
						pt := o.heap(fieldAddr(h.recv, "ProtoTree"), an.optionsField("ProtoTree"))
						if pt.Op != OpListLit || len(pt.Args) != 0 {
							d.report(o, "result", "OnComplexType", desc, "changes the parse result (%s)", showTerm(pt))
						}
					}
				}
			}
		}
	}
	h := d.handler("OnSimpleType")
	if h == nil {
		d.r.violate("anchor", "OnSimpleType", "", "start tags of simple types have no handler")
		return
	}
	for st := 0; st < 2; st++ {
		for _, ct := range []int{0, 1} {
			for named := 0; named < 2; named++ {
				for _, union := range []bool{false, true} {
					if union && (st == 0 || named == 1) {
						continue // a member of a union is anonymous, inside another simple type
					}
					if named == 1 && ct == 1 {
						continue
					}
					var attrs [][2]string
					if named == 1 {
						attrs = [][2]string{{"id", "i"}, {"name", "n"}, {"final", "list"}}
					}
					stacks := map[string]int{"SimpleType": st, "ComplexType": ct}
					tops := map[string]map[string]*Term{"SimpleType": {"Name": cs("old")}}
					fields := map[string]*Term{"InElement": cs("simpleType"), "CurrentEle": tEmpty, "InUnion": cb(union), "ProtoTree": mkListLit(an.optionsField("ProtoTree"))}
					desc := fmt.Sprintf("SimpleType with %q below %d simple types and %d complex types", attrs, st, ct)
					for _, o := range d.run(h, &tag{attrs: attrs, stacks: stacks, fields: fields, tops: tops}, desc) {
						d.r.count("start_cases", 1)
						popped, pushed, ok := o.stackOf(an, h.recv, "SimpleType")
						if !ok {
							d.r.undecided("%s: the stack", desc)
							continue
						}
						if popped > 0 || len(pushed) > 1 {
							d.report(o, "recorded", "OnSimpleType", desc, "closes %d and opens %d simple types", popped, len(pushed))
							continue
						}
						if st == 0 && len(pushed) == 0 {
							d.report(o, "recorded", "OnSimpleType", desc, "opens no simple type")
							continue
						}
						if len(pushed) == 1 {
							if union && d.closes("EndSimpleType", "SimpleType", map[string]int{"SimpleType": st + 1, "ComplexType": ct}, map[string]*Term{"InUnion": tTrue, "CurrentEle": cs("simpleType")}) == 0 {
								d.report(o, "closed", "OnSimpleType/union", desc, "opens a simple type for a member of a union, which the end of the member leaves open")
							}
							nm := o.recordOf(an, "SimpleType", o.c.eval(pushed[0]))("Name")
							want := ""
							if named == 1 {
								want = "n"
							}
							if s, ok := nm.str(); !ok || s != want {
								d.report(o, "recorded", "OnSimpleType/Name", desc, "is recorded under the name %s instead of %q", showTerm(nm), want)
							}
							continue
						}
						// the open one is used again
						nm := o.heap(fieldAddr(an.stackTop(h.recv, "SimpleType", 0), "Name"), types.Typ[types.String])
						if s, _ := nm.str(); s != "old" {
							d.report(o, "overwritten", "OnSimpleType/Name", desc, "renames the simple type that is still open, which is lost")
						}
					}
				}
			}
		}
	}
}

// closes is the least number of declarations an end tag takes off a stack, or
// -1 when that isn't known.
func (d *declRule) closes(handler, stack string, stacks map[string]int, fields map[string]*Term) int64 {
	an := d.an
	h := d.handler(handler)
	if h == nil {
		return 0
	}
	fields["ProtoTree"] = mkListLit(an.optionsField("ProtoTree"))
	c := an.situation(h, &tag{stacks: stacks, fields: fields, tops: an.emptyTops(stacks)})
	if h.ele != nil {
		local := strings.TrimPrefix(handler, "End")
		an.setLocal(c, h, strings.ToLower(local[:1])+local[1:])
	}
	least := int64(-1)
	for _, o := range an.simulate(h.exits, c) {
		if !o.ok() {
			continue
		}
		popped, _, ok := o.stackOf(an, h.recv, stack)
		if !ok {
			return -1
		}
		if least < 0 || popped < least {
			least = popped
		}
	}
	return least
}

// sameName: a second declaration of a name in one complex type.
func (d *declRule) sameName() {
	an := d.an
	h := d.handler("OnElement")
	colls := an.collections("ComplexType", "Element")
	if h == nil || len(colls) != 1 {
		return
	}
	for _, other := range []bool{false, true} {
		t2 := typeOf("t")
		if other {
			t2 = typeOf("u")
		}
		tops := an.emptyTops(map[string]int{"ComplexType": 1})
		tops["ComplexType"][colls[0]] = mkListLit(an.fieldType("ComplexType", colls[0]),
			an.declTerm("Element", map[string]*Term{"Name": cs("m"), "Type": typeOf("t"), "Plural": tTrue}),
			an.declTerm("Element", map[string]*Term{"Name": cs("n"), "Type": t2, "Doc": cs("d")}))
		desc := fmt.Sprintf("Element of a name that occurred before, type differs: %v,", other)
		attrs := [][2]string{{"name", "n"}, {"type", "t"}}
		c := an.situation(h, &tag{attrs: attrs, stacks: map[string]int{"ComplexType": 1}, fields: map[string]*Term{"InGroup": ci(0)}, tops: tops})
		c.m[mkEq(typeOf("t"), typeOf("u"))] = tFalse
		for _, o := range an.simulate(h.exits, c) {
			if !o.ok() {
				continue
			}
			d.r.count("start_cases", 1)
			l := o.listOf(an, h.recv, "ComplexType", colls[0], 0)
			if l.Op != OpListLit {
				d.r.undecided("%s: %s", desc, showTerm(l))
				continue
			}
			seen := map[string]int{}
			doc := false
			for _, e := range l.Args {
				rec := o.recordOf(an, "Element", e)
				if s, ok := rec("Doc").str(); !ok || s == "d" {
					doc = true
				}
				n, _ := rec("Name").str()
				for _, t := range []string{"t", "u"} {
					if isTypeOf(rec("Type"), t) {
						seen[n+":"+t]++
					}
				}
			}
			if !doc {
				d.report(o, "kept", "OnElement/same name/Doc", desc, "drops the documentation of the first one")
			}
			if seen["m:t"] != 1 {
				d.report(o, "kept", "OnElement/same name", desc, "changes another element")
			}
			if seen["n:t"] == 0 || other && seen["n:u"] == 0 {
				d.report(o, "recorded", "OnElement/same name", desc, "is lost, or the first one is")
			}
		}
	}
}

// ---- end tags

type endCase struct {
	handler string
	stacks  map[string]int
	fields  map[string]*Term
	closes  string   // the stack that loses its top, "" when none does
	to      []string // where the top may end up: ProtoTree, Stack.Field, or type:Stack
	key     string
	desc    string
	names   string // what the open declarations are named, "" for a name of their own
}

func (d *declRule) ends() {
	an := d.an
	s := func(kv ...interface{}) map[string]int {
		m := map[string]int{}
		for i := 0; i < len(kv); i += 2 {
			m[kv[i].(string)] = kv[i+1].(int)
		}
		return m
	}
	f := func(kv ...interface{}) map[string]*Term {
		m := map[string]*Term{}
		for i := 0; i < len(kv); i += 2 {
			m[kv[i].(string)] = kv[i+1].(*Term)
		}
		return m
	}
	coll := func(parent, kind string) string {
		if cs := an.collections(parent, kind); len(cs) == 1 {
			return parent + "." + cs[0]
		}
		return parent + ".?"
	}
	agA, ctA := coll("AttributeGroup", "Attribute"), coll("ComplexType", "Attribute")
	st := cs("simpleType")
	gr := cs("group")
	cases := []endCase{
		{"EndAttribute", s("Attribute", 1), f(), "Attribute", []string{"ProtoTree"}, "top", "the end of a top-level attribute", ""},
		{"EndAttribute", s("Attribute", 1, "ComplexType", 1), f(), "Attribute", []string{ctA}, "complex type", "the end of an attribute of a complex type", ""},
		{"EndAttribute", s("Attribute", 1, "ComplexType", 2), f(), "Attribute", []string{ctA}, "complex type", "the end of an attribute of a nested complex type", ""},
		{"EndAttribute", s("Attribute", 1, "AttributeGroup", 1), f(), "Attribute", []string{agA}, "attribute group", "the end of an attribute of an attribute group", ""},
		{"EndAttribute", s("Attribute", 1, "AttributeGroup", 1, "ComplexType", 1), f(), "Attribute", []string{agA, ctA}, "both", "the end of an attribute in an attribute group and a complex type", ""},
		{"EndAttribute", s("Attribute", 2), f(), "Attribute", []string{"ProtoTree"}, "second", "the end of an attribute while another is open", ""},
		{"EndAttribute", s("ComplexType", 1, "Element", 1), f(), "", nil, "none", "the end of an attribute when none is open", ""},
		{"EndElement", s("Element", 1), f("InGroup", ci(0)), "Element", []string{"ProtoTree"}, "top", "the end of a top-level element", ""},
		{"EndElement", s("Element", 2), f("InGroup", ci(0)), "Element", []string{"ProtoTree"}, "second", "the end of a top-level element while another is open", ""},
		{"EndElement", s("Element", 1, "Group", 1), f("InGroup", ci(1)), "Element", []string{"ProtoTree"}, "open in group", "the end of an element left open in a group", ""},
		{"EndElement", s("Attribute", 1), f("InGroup", ci(0)), "", nil, "none", "the end of an element when none is open", ""},
		{"EndElement", s("ComplexType", 1), f("InGroup", ci(0)), "", nil, "complex type", "the end of an element of a complex type", ""},
		{"EndElement", s("Group", 1), f("InGroup", ci(1)), "", nil, "group", "the end of an element of a group", ""},
		{"EndGroup", s("Group", 1), f("InGroup", ci(1), "CurrentEle", gr), "Group", []string{"ProtoTree"}, "top", "the end of a top-level group", ""},
		{"EndGroup", s("Group", 1), f("InGroup", ci(2), "CurrentEle", gr), "", nil, "nested", "the end of a reference to a group in a group", ""},
		{"EndGroup", s("ComplexType", 1), f("InGroup", ci(0), "CurrentEle", cs("complexType")), "", nil, "complex type", "the end of a reference to a group in a complex type", ""},
		{"EndAttributeGroup", s("AttributeGroup", 1), f(), "AttributeGroup", []string{"ProtoTree"}, "top", "the end of a top-level attribute group", ""},
		{"EndAttributeGroup", s("AttributeGroup", 2), f(), "AttributeGroup", []string{"ProtoTree"}, "nested", "the end of an attribute group in an attribute group", ""},
		{"EndAttributeGroup", s("ComplexType", 1), f(), "", nil, "complex type", "the end of a reference to an attribute group in a complex type", ""},
		{"EndComplexType", s("ComplexType", 1), f(), "ComplexType", []string{"ProtoTree"}, "top", "the end of a complex type", ""},
		{"EndComplexType", s("ComplexType", 2, "Element", 1), f(), "ComplexType", []string{"ProtoTree"}, "nested", "the end of a nested complex type", ""},
		{"EndSimpleType", s("SimpleType", 1), f("CurrentEle", st, "InUnion", tFalse), "SimpleType", []string{"ProtoTree"}, "top", "the end of a top-level simple type", ""},
		{"EndSimpleType", s("SimpleType", 1, "Attribute", 1), f("CurrentEle", st, "InUnion", tFalse), "SimpleType", []string{"type:Attribute"}, "attribute", "the end of the simple type of an attribute", ""},
		{"EndSimpleType", s("SimpleType", 1, "Attribute", 1, "ComplexType", 1), f("CurrentEle", st, "InUnion", tFalse), "SimpleType", []string{"type:Attribute"}, "attribute", "the end of the simple type of an attribute of a complex type", ""},
		{"EndSimpleType", s("SimpleType", 1), f("CurrentEle", st, "InUnion", tTrue), "", nil, "member", "the end of a simple type that is a member of a union", ""},
		{"EndSimpleType", s("SimpleType", 1, "ComplexType", 1, "Element", 1), f("CurrentEle", st, "InUnion", tFalse), "SimpleType", []string{"ProtoTree", "type:Element"}, "complex type", "the end of the simple type of an element of a complex type", ""},
		{"EndSimpleType", s("SimpleType", 1, "ComplexType", 1, "Element", 1), f("CurrentEle", tEmpty, "InUnion", tFalse), "SimpleType", []string{"", "ProtoTree", "type:Element"}, "complex type/facets", "the end of the simple type, restricted by facets, of an element of a complex type", ""},
		{"EndSimpleType", s("SimpleType", 0, "Attribute", 1, "ComplexType", 2), f("CurrentEle", tEmpty, "InUnion", tFalse), "", nil, "closed", "the end of a simple type whose facets closed it", ""},
		{"EndRestriction", s("SimpleType", 1, "Attribute", 1), f("CurrentEle", st), "SimpleType", []string{"type:Attribute"}, "attribute", "the end of the restriction of an attribute's type", ""},
		{"EndRestriction", s("SimpleType", 1, "Attribute", 2, "ComplexType", 1), f("CurrentEle", st), "SimpleType", []string{"type:Attribute"}, "attribute", "the end of the restriction of an attribute's type", ""},
		{"EndRestriction", s("SimpleType", 1), f("CurrentEle", st), "", nil, "top", "the end of the restriction of a simple type", ""},
		{"EndRestriction", s("SimpleType", 1, "Element", 1), f("CurrentEle", st), "", nil, "element", "the end of the restriction of an element's type", ""},
		{"EndRestriction", s("ComplexType", 1), f("CurrentEle", st), "", nil, "complex type", "the end of the restriction of a complex type", ""},
		{"EndExtension", s("SimpleType", 1, "Attribute", 1), f("CurrentEle", st), "SimpleType", []string{"type:Attribute"}, "attribute", "the end of an extension with the type of an attribute open", ""},
		{"EndExtension", s("ComplexType", 1), f("CurrentEle", cs("complexType")), "", nil, "complex type", "the end of the extension of a complex type", ""},
		{"EndEnumeration", s("SimpleType", 1, "Attribute", 1), f("CurrentEle", st), "", []string{"type:Attribute"}, "attribute", "the end of an enumeration value of an attribute's type", ""},
		{"EndEnumeration", s("SimpleType", 1, "Element", 1), f("CurrentEle", st), "", []string{"type:Element"}, "element", "the end of an enumeration value of an element's type", ""},
		{"EndEnumeration", s("SimpleType", 1, "Element", 2, "ComplexType", 1), f("CurrentEle", st), "", []string{"type:Element"}, "element", "the end of an enumeration value of the type of an element of a complex type", ""},
		{"EndEnumeration", s("SimpleType", 1), f("CurrentEle", st), "", nil, "top", "the end of an enumeration value of a top-level type", ""},
		{"EndChoice", s("Choice", 1, "ComplexType", 1), f(), "Choice", []string{""}, "choice", "the end of a choice", ""},
		{"EndChoice", s("Choice", 2, "ComplexType", 1), f(), "Choice", []string{""}, "choice", "the end of a choice in a choice", ""},
	}
	d.typedLate()
	for _, tc := range cases {
		h := d.handler(tc.handler)
		if h == nil {
			d.r.violate("anchor", tc.handler, "", "end tags have no handler %s", tc.handler)
			continue
		}
		d.end(h, &tc)
		hv := an.harvestOf(h.f)
		for _, s := range sortedInts(tc.stacks) {
			if s == "SimpleType" && tc.key != "top" {
				continue
			}
			for _, n := range hv.sizes(0, 1<<16) {
				if n < 4 {
					continue
				}
				// more declarations open than above
				more := tc
				more.stacks = cloneStacks(tc.stacks)
				more.stacks[s] = n
				more.desc += fmt.Sprintf(" with %d declarations of %s open", n, s)
				d.end(h, &more)
			}
		}
		for _, w := range hv.names(1 << 12) {
			special := tc
			special.names = w
			special.desc += ", all named " + shortText(w) + ","
			d.end(h, &special)
		}
	}
}

func (d *declRule) end(h *handler, tc *endCase) {
	an := d.an
	old := sym("earlier", types.NewInterfaceType(nil, nil))
	fields := map[string]*Term{"ProtoTree": mkListLit(an.optionsField("ProtoTree"), old)}
	for k, v := range tc.fields {
		fields[k] = v
	}
	if ce := tc.fields["CurrentEle"]; ce == nil {
		fields["CurrentEle"] = tEmpty
	}
	tops := an.emptyTops(tc.stacks)
	for s := range tops {
		for _, n := range []string{"Name", "Type", "Base"} {
			if an.fieldType(s, n) != nil {
				tops[s][n] = cs("the " + n + " of " + s)
				if n == "Name" && tc.names != "" {
					tops[s][n] = cs(tc.names)
				}
			}
		}
	}
	c := an.situation(h, &tag{stacks: tc.stacks, fields: fields, tops: tops})
	if h.ele != nil {
		local := strings.TrimPrefix(tc.handler, "End")
		local = strings.ToLower(local[:1]) + local[1:]
		an.setLocal(c, h, local)
	}
	n := 0
	for _, o := range an.simulate(h.exits, c) {
		if !o.ok() {
			continue
		}
		n++
		d.r.count("end_cases", 1)
		key := tc.handler + "/" + tc.key
		for _, s := range an.stackFields() {
			popped, pushed, ok := o.stackOf(an, h.recv, s)
			if !ok {
				d.r.undecided("%s: the stack %s", tc.desc, s)
				continue
			}
			want := int64(0)
			if s == tc.closes {
				want = 1
			}
			if popped != want && s == tc.closes {
				d.report(o, "closed", key+"/"+s, tc.desc, "closes %d declarations of %s instead of %d", popped, s, want)
			} else if popped != want {
				d.report(o, "kept open", key+"/"+s, tc.desc, "closes %d declarations of %s", popped, s)
			}
			if len(pushed) > 0 {
				d.report(o, "kept open", key+"/"+s, tc.desc, "opens a declaration of %s", s)
			}
		}
		var went []string
		pt := o.heap(fieldAddr(h.recv, "ProtoTree"), an.optionsField("ProtoTree"))
		if pt.Op != OpListLit || len(pt.Args) == 0 || pt.Args[0] != old {
			d.report(o, "result", key, tc.desc, "drops what the parse result holds (%s)", showTerm(pt))
			continue
		}
		for _, v := range pt.Args[1:] {
			w := ""
			for _, s := range an.stackFields() {
				if plain(v) == an.stackTop(h.recv, s, 0) {
					w = s
				}
			}
			switch {
			case w == tc.closes && w != "":
				went = append(went, "ProtoTree")
			case w != "":
				d.report(o, "result", key+"/"+w, tc.desc, "adds the open declaration of %s to the parse result", w)
			default:
				d.report(o, "result", key, tc.desc, "adds %s to the parse result", showTerm(v))
			}
		}
		for _, s := range an.stackFields() {
			if structOf(an.kindType(s)) == nil {
				continue
			}
			for _, kind := range nodeKinds {
				for _, f := range an.collections(s, kind) {
					l := o.listOf(an, h.recv, s, f, 0)
					if l.Op != OpListLit {
						if tc.stacks[s] > 0 {
							d.r.undecided("%s: %s.%s", tc.desc, s, f)
						}
						continue
					}
					for _, e := range l.Args {
						if kind == tc.closes && an.isTopCopy(o, h.recv, kind, e) {
							went = append(went, s+"."+f)
						} else {
							d.report(o, "recorded", key+"/"+s+"."+f, tc.desc, "adds %s to %s.%s", showTerm(e), s, f)
						}
					}
				}
			}
			if s != tc.closes && tc.stacks["SimpleType"] > 0 && (s == "Attribute" || s == "Element") && tc.stacks[s] > 0 {
				v := o.heap(fieldAddr(an.stackTop(h.recv, s, 0), "Type"), types.Typ[types.String])
				if contains(v, cs("the Base of SimpleType")) || isTypeOf(v, "the Base of SimpleType") {
					went = append(went, "type:"+s)
				}
			}
		}
		if tc.closes == "" && len(tc.to) == 0 && len(went) == 0 {
			continue
		}
		if len(went) == 0 {
			went = []string{""}
		}
		if len(went) > 1 || !has(tc.to, went[0]) {
			if went[0] == "" {
				went[0] = "nothing"
			}
			d.report(o, "added", key, tc.desc, "adds the declaration to %s instead of %s", strings.Join(went, " and "), strings.Join(tc.to, " or "))
		}
	}
	if n == 0 {
		d.r.undecided("%s: no partition", tc.desc)
	}
}

// typedLate: an element of a complex type whose type was met after it was
// recorded gets that type.
func (d *declRule) typedLate() {
	an := d.an
	h := d.handler("EndRestriction")
	colls := an.collections("ComplexType", "Element")
	if h == nil || len(colls) != 1 {
		return
	}
	lt := an.fieldType("ComplexType", colls[0])
	for pre := 0; pre < 2; pre++ {
		for _, ct := range []int{1, 2} {
			stacks := map[string]int{"SimpleType": 1, "ComplexType": ct, "Element": 1}
			tops := an.emptyTops(stacks)
			var old []*Term
			for i := 0; i < pre; i++ {
				old = append(old, an.declTerm("Element", map[string]*Term{"Name": cs("m"), "Type": typeOf("t")}))
			}
			tops["ComplexType"][colls[0]] = mkListLit(lt, append(append([]*Term{}, old...), an.declTerm("Element", map[string]*Term{"Name": cs("n"), "Type": tEmpty}))...)
			tops["Element"]["Name"] = cs("n")
			tops["Element"]["Type"] = cs("late")
			fields := map[string]*Term{"CurrentEle": cs("simpleType"), "ProtoTree": mkListLit(an.optionsField("ProtoTree"))}
			desc := fmt.Sprintf("the end of the restriction of the type of an element of a complex type, after %d others,", pre)
			for _, o := range d.run(h, &tag{stacks: stacks, fields: fields, tops: tops}, desc) {
				d.r.count("end_cases", 1)
				l := o.listOf(an, h.recv, "ComplexType", colls[0], 0)
				if l.Op != OpListLit {
					d.r.undecided("%s: %s", desc, showTerm(l))
					continue
				}
				ok := len(l.Args) == pre+1
				for i := 0; ok && i < pre; i++ {
					ok = l.Args[i] == old[i]
				}
				if ok {
					rec := o.recordOf(an, "Element", l.Args[pre])
					ok = rec("Name") == cs("n") && rec("Type") == cs("late")
				}
				if !ok {
					d.report(o, "typed late", "EndRestriction/element", desc, "leaves the elements %s", showTerm(l))
				}
			}
		}
	}
}

// isTopCopy: the value of the top of a stack.
func (an *Analyzer) isTopCopy(o *simOut, recv *Term, kind string, e *Term) bool {
	if plain(e) == an.stackTop(recv, kind, 0) {
		return true
	}
	if e.Op != OpStruct {
		return false
	}
	s := structOf(e.T)
	for i := 0; i < s.NumFields(); i++ {
		if e.Args[i] != o.c.eval(an.topField(recv, kind, s.Field(i).Name())) {
			return false
		}
	}
	return true
}

func (an *Analyzer) setLocal(c *conc, h *handler, local string) {
	s := structOf(h.ele.T)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if n := structOf(s.Field(i).Type()); n != nil && s.Field(i).Name() == "Name" {
			for j := 0; j < n.NumFields(); j++ {
				if n.Field(j).Name() == "Local" {
					c.m[mkField(mkField(h.ele, "Name", s.Field(i).Type()), "Local", n.Field(j).Type())] = cs(local)
				}
			}
		}
	}
}

// ---- values

func (d *declRule) top(h *handler, stack string, path ...string) *Term {
	a := d.an.stackTop(h.recv, stack, 0)
	for _, p := range path {
		a = fieldAddr(a, p)
	}
	return a
}

// enumValues: every enumeration value is added to those of its simple type.
func (d *declRule) enumValues() {
	an, top := d.an, d.top
	str := types.Typ[types.String]
	base := map[string]*Term{"InUnion": tFalse, "CurrentEle": cs("simpleType"), "InGroup": ci(0)}
	if h := d.handler("OnEnumeration"); h == nil {
		d.r.violate("anchor", "OnEnumeration", "", "enumeration values have no handler")
	} else {
		enumT := types.NewSlice(str)
		a := top(h, "SimpleType", "Restriction", "Enum")
		st := &State{heap: map[*Term]*Term{}, facts: newFacts(), an: an}
		hv := an.harvestOf(h.f)
		pres := hv.sizes(2, 1<<12)
		values := [][][2]string{{{"value", "v"}}, {{"id", "i"}, {"value", "v"}}, {{"value", "v"}, {"id", "i"}}, {{"value", ""}}, {{"value", "a b"}}}
		for _, w := range hv.names(1 << 12) {
			values = append(values, [][2]string{{"value", w}})
		}
		for _, more := range []map[string]int{{}, {"Attribute": 1}, {"Element": 1, "ComplexType": 1}, {"ComplexType": 1}} {
			for _, pre := range pres {
				for _, attrs := range values {
					want := ""
					for _, x := range attrs {
						if x[0] == "value" {
							want = x[1]
						}
					}
					stacks := cloneStacks(more)
					stacks["SimpleType"] = 1
					c := an.situation(h, &tag{attrs: attrs, stacks: stacks, fields: base})
					var old []*Term
					for i := 0; i < pre; i++ {
						old = append(old, cs(fmt.Sprintf("old%d", i)))
					}
					if pre == 2 {
						old[1] = cs(want) // a value that is there already
					}
					c.m[st.load(a, enumT)] = mkListLit(enumT, old...)
					desc := fmt.Sprintf("an enumeration with %q after %d values", attrs, pre)
					for _, o := range an.simulate(h.exits, c) {
						if !o.ok() {
							d.report(o, "values", "OnEnumeration/error", desc, "is an error")
							continue
						}
						d.r.count("value_cases", 1)
						l := o.heap(a, enumT)
						ok := l.Op == OpListLit
						if ok {
							got := l.Args
							if pre == 2 && len(got) == pre {
								// recorded already
							} else {
								ok = len(got) == pre+1 && got[len(got)-1] == cs(want)
							}
							for i := 0; ok && i < pre; i++ {
								ok = got[i] == old[i]
							}
						}
						if !ok {
							d.report(o, "values", "OnEnumeration", desc, "leaves the values %s", showTerm(l))
						}
					}
				}
			}
		}
	}
}

func (d *declRule) values() {
	an, top := d.an, d.top
	str := types.Typ[types.String]
	base := map[string]*Term{"InUnion": tFalse, "CurrentEle": cs("simpleType"), "InGroup": ci(0)}
	type vcase struct {
		handler, stack string
		attrs          [][2]string
		fields         map[string]*Term
		check          func(h *handler, o *simOut) string
	}
	isType := func(stack, field, name string) func(h *handler, o *simOut) string {
		return func(h *handler, o *simOut) string {
			v := o.heap(top(h, stack, field), str)
			if !isTypeOf(v, name) {
				return fmt.Sprintf("leaves the %s %s", field, showTerm(v))
			}
			return ""
		}
	}
	isTrue := func(stack, field string) func(h *handler, o *simOut) string {
		return func(h *handler, o *simOut) string {
			if v := o.heap(top(h, stack, field), types.Typ[types.Bool]); v != tTrue {
				return fmt.Sprintf("leaves %s %s", field, showTerm(v))
			}
			return ""
		}
	}
	isName := func(stack, name string) func(h *handler, o *simOut) string {
		return func(h *handler, o *simOut) string {
			if v := o.heap(top(h, stack, "Name"), str); v != cs(name) {
				return fmt.Sprintf("leaves the name %s instead of %s", showTerm(v), name)
			}
			return ""
		}
	}
	members := func(names ...string) func(h *handler, o *simOut) string {
		return func(h *handler, o *simOut) string {
			ref := o.x.St.load(top(h, "SimpleType", "MemberTypes"), an.fieldType("SimpleType", "MemberTypes"))
			m := o.c.eval(o.x.St.mapContent(ref))
			got := map[string]*Term{}
			for m.Op == OpMapPut {
				k, ok := m.Args[1].str()
				if !ok {
					return "has a member " + showTerm(m.Args[1])
				}
				if got[k] == nil {
					got[k] = m.Args[2]
				}
				m = m.Args[0]
			}
			if m.Op != OpMapNew {
				return "leaves the members " + showTerm(m)
			}
			for _, n := range names {
				k := n[strings.Index(n, ":")+1:]
				if got[k] == nil {
					return fmt.Sprintf("does not record the member %s", n)
				}
				if !isTypeOf(got[k], n) {
					return fmt.Sprintf("records the member %s with the type %s", n, showTerm(got[k]))
				}
				delete(got, k)
			}
			for k := range got {
				return fmt.Sprintf("records a member %q", k)
			}
			return ""
		}
	}
	all := func(fs ...func(h *handler, o *simOut) string) func(h *handler, o *simOut) string {
		return func(h *handler, o *simOut) string {
			for _, f := range fs {
				if m := f(h, o); m != "" {
					return m
				}
			}
			return ""
		}
	}
	named := map[string]*Term{"Name": cs("old"), "Base": tEmpty}
	anon := map[string]*Term{"Name": tEmpty, "Base": tEmpty}
	cases := []vcase{
		{"OnList", "SimpleType", [][2]string{{"itemType", "t"}}, named, all(isTrue("SimpleType", "List"), isType("SimpleType", "Base", "t"), isName("SimpleType", "old"))},
		{"OnList", "SimpleType", [][2]string{{"id", "i"}, {"itemType", "t"}}, named, all(isTrue("SimpleType", "List"), isType("SimpleType", "Base", "t"))},
		{"OnList", "SimpleType", nil, named, isTrue("SimpleType", "List")},
		{"OnRestriction", "SimpleType", [][2]string{{"base", "t"}}, named, all(isType("SimpleType", "Base", "t"), isName("SimpleType", "old"))},
		{"OnRestriction", "SimpleType", [][2]string{{"id", "i"}, {"base", "t"}}, anon, isType("SimpleType", "Base", "t")},
		{"OnExtension", "ComplexType", [][2]string{{"base", "t"}}, named, all(isType("ComplexType", "Base", "t"), isName("ComplexType", "old"))},
		{"OnExtension", "ComplexType", [][2]string{{"id", "i"}, {"base", "t"}}, anon, isType("ComplexType", "Base", "t")},
		{"OnUnion", "SimpleType", [][2]string{{"memberTypes", "a"}}, named, all(isTrue("SimpleType", "Union"), members("a"), isName("SimpleType", "old"))},
		{"OnUnion", "SimpleType", [][2]string{{"memberTypes", "a b"}}, named, all(isTrue("SimpleType", "Union"), members("a", "b"))},
		{"OnUnion", "SimpleType", [][2]string{{"id", "i"}, {"memberTypes", "p:a b q:c d"}}, named, all(isTrue("SimpleType", "Union"), members("p:a", "b", "q:c", "d"))},
		{"OnUnion", "SimpleType", [][2]string{{"memberTypes", "a  b"}}, named, members("a", "b")},
		{"OnUnion", "SimpleType", [][2]string{{"memberTypes", "a\n\t\tb"}}, named, members("a", "b")},
		{"OnUnion", "SimpleType", [][2]string{{"memberTypes", " a b "}}, named, members("a", "b")},
		{"OnUnion", "SimpleType", nil, named, isTrue("SimpleType", "Union")},
	}
	if h := d.handler("OnUnion"); h != nil {
		hv := an.harvestOf(h.f)
		for _, n := range hv.sizes(0, 1<<9) {
			if n > 3 {
				var ms []string
				for i := 0; i < n; i++ {
					ms = append(ms, fmt.Sprint("m", i))
				}
				cases = append(cases, vcase{"OnUnion", "SimpleType", [][2]string{{"memberTypes", strings.Join(ms, " ")}}, named, members(ms...)})
			}
		}
	}
	for _, c := range []struct{ handler, stack, attr, field string }{{"OnList", "SimpleType", "itemType", "Base"}, {"OnRestriction", "SimpleType", "base", "Base"}, {"OnExtension", "ComplexType", "base", "Base"}, {"OnUnion", "SimpleType", "memberTypes", ""}} {
		h := d.handler(c.handler)
		if h == nil {
			continue
		}
		for _, w := range an.harvestOf(h.f).names(1 << 12) {
			check := members(w)
			if c.field != "" {
				check = isType(c.stack, c.field, w)
			}
			cases = append(cases, vcase{c.handler, c.stack, [][2]string{{c.attr, w}}, named, check})
		}
	}
	for _, tc := range cases {
		h := d.handler(tc.handler)
		if h == nil {
			d.r.violate("anchor", tc.handler, "", "there is no handler %s", tc.handler)
			continue
		}
		for _, more := range []map[string]int{{}, {"Attribute": 1}, {"Element": 1, "ComplexType": 1}} {
			stacks := cloneStacks(more)
			stacks[tc.stack]++
			tops := map[string]map[string]*Term{tc.stack: tc.fields}
			c := an.situation(h, &tag{attrs: tc.attrs, stacks: stacks, fields: base, tops: tops})
			desc := fmt.Sprintf("%s with %q", strings.TrimPrefix(tc.handler, "On"), tc.attrs)
			n := 0
			for _, o := range an.simulate(h.exits, c) {
				if !o.ok() {
					continue
				}
				n++
				d.r.count("value_cases", 1)
				if m := tc.check(h, o); m != "" {
					d.report(o, "values", tc.handler, desc, "%s", m)
				}
				for _, s := range an.stackFields() {
					if popped, pushed, ok := o.stackOf(an, h.recv, s); !ok || popped > 0 || len(pushed) > 0 {
						d.report(o, "kept open", tc.handler+"/"+s, desc, "opens or closes a declaration of %s", s)
					}
				}
			}
			if n == 0 {
				d.r.undecided("%s: no partition", desc)
			}
		}
	}
}

// ---- what is taken off a stack

func (d *declRule) pops() {
	an := d.an
	for _, f := range an.libFuncs() {
		if f.Signature.Recv() == nil || !an.isOptionsType(f.Signature.Recv().Type()) || !an.isHandler(f) || len(f.Blocks) == 0 {
			continue
		}
		h := d.handler(f.Name())
		if h == nil {
			continue
		}
		for _, se := range h.exits {
			x := se.x
			if !an.succeeds(x) {
				continue
			}
			d.r.count("handler_partitions", 1)
			// the parse result only grows
			pt := x.St.load(fieldAddr(h.recv, "ProtoTree"), an.optionsField("ProtoTree"))
			init := an.initOf(h.recv, "ProtoTree")
			var added []*Term
			switch {
			case pt == init:
			case pt.Op == OpListCat && pt.Args[0] == init:
				for _, a := range pt.Args[1:] {
					if a.Op == OpListLit {
						added = append(added, a.Args...)
					} else {
						d.r.undecided("%s: the parse result becomes %s", f.Name(), showTerm(pt))
					}
				}
			default:
				d.r.violate("result", f.Name()+"/ProtoTree", an.pos(x.Pos), "the parse result becomes %s", showTerm(pt))
			}
			eachEvent(x.St.events, func(ev *Event, in *Event) {
				if ev.Kind != "pop" || len(ev.Args) < 2 {
					return
				}
				d.r.count("pops", 1)
				v := plain(ev.Args[1])
				stack := an.stackName(ev.Args[0])
				if in != nil {
					d.r.undecided("%s: %s is popped in a loop", f.Name(), stack)
					return
				}
				if stack == "Choice" {
					return
				}
				n := 0
				for _, a := range added {
					if plain(a) == v {
						n++
					}
				}
				if n == 0 {
					n = d.flows(h, x, f, stack, v)
				}
				switch {
				case n == 0:
					d.r.violate("taken off", f.Name()+"/"+stack, an.pos(ev.Pos), "a declaration taken off %s is lost", stack)
				case n > 1:
					d.r.violate("taken off", f.Name()+"/"+stack+"/twice", an.pos(ev.Pos), "a declaration taken off %s is added %d times", stack, n)
				}
			})
		}
	}
}

// flows counts the places other than the parse result a popped declaration
// goes to.
func (d *declRule) flows(h *handler, x *Exit, f *ssa.Function, stack string, v *Term) int {
	an := d.an
	whole, part := map[*Term]bool{}, map[*Term]bool{}
	for a, val := range x.St.heap {
		root := rootOf(a)
		if root == v || val == nil {
			continue
		}
		fields := map[string]bool{}
		walkTerm(val, func(t *Term) bool {
			if t == v {
				fields["*"] = true
			}
			b := t
			if t.Op == OpField {
				b = t.Args[0]
				for b.Op == OpDeref {
					b = b.Args[0]
				}
				if b == v {
					fields[t.S] = true
				}
			}
			return true
		})
		if len(fields) == 0 {
			continue
		}
		last := a
		for last.Op == OpIndexAddr {
			last = last.Args[0]
		}
		switch {
		case root.Op != OpObj && has(an.allCollections(stack), last.S):
			whole[a] = true
		case stack == "SimpleType" && fields["Base"] && a.Op == OpFieldAddr && a.S == "Type" && root.Op != OpObj:
			part[a] = true
		case stack == "Element" && fields["Name"] && a.Op == OpFieldAddr && a.S == "Name":
			part[a] = true
		}
	}
	if len(whole) > 0 {
		return len(whole)
	}
	if len(part) > 0 {
		return 1
	}
	return 0
}

func (an *Analyzer) allCollections(kind string) []string {
	var out []string
	for _, s := range an.stackFields() {
		out = append(out, an.collections(s, kind)...)
	}
	return out
}
