package main

// C35: documentation is recorded with the declaration it documents, and stands
// in front of what is generated for that declaration.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C35", "The handler of character data is evaluated for every combination of open declarations and flags and for representative texts, and must leave one Doc or nothing changed; the handlers of anonymous types must take the documentation along; the text of the decoder must reach the handler; the comment in front of every generated declaration is evaluated for representative documentation.", ruleC35)
}

var docTexts = []string{"", " ", " \n\t ", "a", "some text", "\n  some text\n  in two lines  \n"}

func ruleC35(an *Analyzer, r *Report) {
	r.rule("non-blank text changes the Doc of one declaration to the text without the space around it, and nothing else")
	r.rule("that declaration is the attribute, attribute group, element, simple type, complex type or group being declared, or the last attribute or element of the latter two")
	r.rule("blank text changes nothing")
	r.rule("the type of an element with an anonymous type has the documentation of the element")
	r.rule("all character data the decoder gives reaches the handler")
	r.rule("every generated declaration follows a comment that begins with the declared identifier and has every line of the documentation")
	an.docRecorded(r)
	an.docAnonymous(r)
	an.docReaches(r)
	an.docEmitted(r)
}

// docStacks: the stacks of declarations.
var docStacks = []string{"Attribute", "AttributeGroup", "Element", "SimpleType", "ComplexType", "Group"}

func (an *Analyzer) docRecorded(r *Report) {
	f := an.method(an.optType, "OnCharData")
	if f == nil {
		r.violate("anchor", "OnCharData", "", "there is no OnCharData")
		return
	}
	h, err := an.handlerOf(f)
	if err != nil || h.recv == nil {
		r.undecided("OnCharData: %v", err)
		return
	}
	var text *Term
	for _, p := range f.Params {
		if isStringType(p.Type()) {
			text = sym(p.Name(), p.Type())
		}
	}
	if text == nil {
		r.undecided("OnCharData has no text")
		return
	}
	for _, s := range docStacks {
		if an.fieldType(s, "Doc") == nil {
			r.undecided("%s has no Doc", s)
			return
		}
	}
	hv := an.harvestOf(f)
	var more []string
	for _, n := range hv.sizes(0, 1<<16) {
		if n > 2 {
			more = append(more, fill(n))
		}
	}
	for _, w := range hv.strs {
		more = append(more, w, w+"x", "x"+w)
	}
	for bits := 0; bits < 1<<len(docStacks); bits++ {
		texts := docTexts
		if bits&(bits-1) == 0 { // at most one stack isn't empty
			texts = append(texts[:len(texts):len(texts)], more...)
		}
		open := map[string]int{}
		for i, s := range docStacks {
			open[s] = bits >> uint(i) & 1
		}
		for _, cur := range []string{"simpleType", "complexType", "group", "attributeGroup", ""} {
			for variant := 0; variant < 8; variant++ {
				// InAttributeGroup; attributes or enumerated values; elements
				an.docCase(r, h, text, texts, open, cur, variant&1 == 1, variant&2 != 0, variant&4 != 0)
			}
		}
	}
	r.require(r.Counts["text_cases"], "case of character data")
}

func (an *Analyzer) docCase(r *Report, h *handler, text *Term, texts []string, open map[string]int, cur string, inAG, attrs, elems bool) {
	recv := h.recv
	c := an.newConc()
	c.lists = true
	c.calls = an.handlerCall
	for _, s := range an.stackFields() {
		c.m[mkLen(an.stackBase(recv, s))] = ci(int64(open[s]))
	}
	c.m[an.initOf(recv, "InAttributeGroup")] = cb(inAG)
	c.m[an.initOf(recv, "InElement")] = cs("documentation")
	c.m[an.initOf(recv, "InGroup")] = ci(int64(open["Group"]))
	c.m[an.initOf(recv, "InUnion")] = cb(elems && open["SimpleType"] > 0)
	c.m[an.initOf(recv, "CurrentEle")] = cs(cur)
	decls := func(kind string, n int) []*Term {
		var l []*Term
		for i := 0; i < n; i++ {
			l = append(l, an.declTerm(kind, map[string]*Term{"Name": cs(fmt.Sprint("n", i)), "Type": typeOf("t")}))
		}
		return l
	}
	counts := map[string]int{}
	set := func(stack, kind string, n int) {
		for _, f := range an.collections(stack, kind) {
			c.m[an.topField(recv, stack, f)] = mkListLit(an.fieldType(stack, f), decls(kind, n)...)
			counts[stack+"."+f] = n
		}
	}
	for _, s := range []string{"ComplexType", "Group", "AttributeGroup"} {
		na, ne := 0, 0
		if attrs {
			na = 2
		}
		if elems {
			ne = 3
		}
		set(s, "Attribute", na)
		set(s, "Element", ne)
		set(s, "Group", 0)
		set(s, "AttributeGroup", 0)
	}
	// a simple type has enumerated values or not
	rest := an.topField(recv, "SimpleType", "Restriction")
	if rest != nil {
		if s, ok := rest.T.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() != "Enum" {
					continue
				}
				var l []*Term
				if attrs {
					l = []*Term{cs("v")}
				}
				c.m[mkField(rest, "Enum", s.Field(i).Type())] = mkListLit(s.Field(i).Type(), l...)
			}
		}
	}
	top := func(s string) *Term { return an.stackTop(recv, s, 0) }
	var want *Term
	name := ""
	elem := func(stack, field string) bool {
		n := counts[stack+"."+field]
		if n == 0 {
			return false
		}
		want = mk(OpIndexAddr, "", 0, nil, an.topField(recv, stack, field), ci(int64(n-1)))
		name = "last of " + stack + "." + field
		return true
	}
	switch {
	case open["Attribute"] > 0:
		want, name = top("Attribute"), "Attribute"
	case inAG && open["AttributeGroup"] > 0:
		want, name = top("AttributeGroup"), "AttributeGroup"
	case open["Element"] > 0:
		want, name = top("Element"), "Element"
	case cur == "simpleType" && open["SimpleType"] > 0:
		if !attrs {
			want, name = top("SimpleType"), "SimpleType"
		}
	case cur == "complexType" && open["ComplexType"] > 0:
		if !elem("ComplexType", "Attributes") && !elem("ComplexType", "Elements") {
			want, name = top("ComplexType"), "ComplexType"
		}
	case cur == "group" && open["Group"] > 0:
		if !elem("Group", "Elements") {
			want, name = top("Group"), "Group"
		}
	}
	if name == "" {
		name = "nothing"
	}
	for _, w := range texts {
		cc := c.clone()
		cc.m[text] = cs(w)
		an.docText(r, h, cc, w, want, name, fmt.Sprintf("open: %s, current: %q, in an attribute group: %v, attributes or values: %v, elements: %v", showOpen(open), cur, inAG, attrs, elems))
	}
}

func showOpen(open map[string]int) string {
	var o []string
	for s, n := range open {
		if n > 0 {
			o = append(o, s)
		}
	}
	sort.Strings(o)
	if o == nil {
		return "nothing"
	}
	return strings.Join(o, ", ")
}

func (an *Analyzer) docText(r *Report, h *handler, c *conc, w string, want *Term, name, situation string) {
	trimmed := strings.TrimSpace(w)
	outs := an.simulate(h.exits, c)
	if len(outs) == 0 {
		r.undecided("text %s, %s: no partition", shortText(w), situation)
	}
	for _, o := range outs {
		r.count("text_cases", 1)
		where := an.pos(o.x.Pos)
		say := func(what, key, f string, a ...interface{}) {
			if o.open > 0 {
				r.undecided("text %s: %s, if %v", shortText(w), fmt.Sprintf(f, a...), o.lits)
				return
			}
			r.violate(what, "OnCharData/"+key, where, "text %s (%s) %s", shortText(w), situation, fmt.Sprintf(f, a...))
		}
		if !o.ok() {
			say("text handled", "error", "is an error")
			continue
		}
		found := false
		var addrs []*Term
		for a := range o.x.St.heap {
			addrs = append(addrs, a)
		}
		sort.Slice(addrs, func(i, j int) bool { return addrs[i].ID < addrs[j].ID })
		for _, a := range addrs {
			v := o.x.St.heap[a]
			if localCell(a) {
				continue
			}
			got := o.c.eval(v)
			if a.Op == OpFieldAddr && a.S == "Doc" && want != nil && sameAddr(o.c, a.Args[0], want) && trimmed != "" {
				if s, ok := got.str(); !ok || s != trimmed {
					say("text recorded", "text", "is recorded as %s", showTerm(got))
				}
				found = true
				continue
			}
			if a.T != nil || v.T != nil {
				if got == o.c.eval(o.x.St.init(a, v.T)) {
					continue
				}
			}
			say("nothing else", "other/"+fieldOf(a), "changes %s", showTerm(a))
		}
		if want != nil && trimmed != "" && !found {
			say("text recorded", "lost/"+name, "is not recorded: it documents the %s", name)
		}
	}
}

// shortText shows a text, cut when it is long.
func shortText(s string) string {
	if len(s) > 80 {
		return fmt.Sprintf("%q… (%d bytes)", s[:40], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// localCell: the cell belongs to a variable or an object of the handler.
func localCell(a *Term) bool {
	for a.Op == OpFieldAddr || a.Op == OpIndexAddr {
		a = a.Args[0]
	}
	return a.Op == OpObj
}

func fieldOf(a *Term) string {
	if a.Op == OpFieldAddr {
		return a.S
	}
	return "a cell"
}

// sameAddr: both terms stand for the same declaration.
func sameAddr(c *conc, a, b *Term) bool {
	a, b = plain(a), plain(b)
	if a == b {
		return true
	}
	if a.Op == OpIndexAddr && b.Op == OpIndexAddr {
		i, ok := c.eval(a.Args[1]).num()
		j, ok2 := c.eval(b.Args[1]).num()
		return ok && ok2 && i == j && plain(a.Args[0]) == plain(b.Args[0])
	}
	return false
}

// docAnonymous: an anonymous type takes over the name and the documentation
// of the element it is the type of.
func (an *Analyzer) docAnonymous(r *Report) {
	f := an.method(an.optType, "OnComplexType")
	if f == nil {
		r.violate("anchor", "OnComplexType", "", "there is no OnComplexType")
		return
	}
	h, err := an.handlerOf(f)
	if err != nil || h.recv == nil || h.ele == nil {
		r.undecided("OnComplexType: %v", err)
		return
	}
	for depth := 0; depth < 3; depth++ {
		c := an.situation(h, &tag{
			stacks: map[string]int{"ComplexType": depth, "Element": 1},
			tops: map[string]map[string]*Term{"Element": {
				"Name": cs("n"), "Doc": cs("the documentation"), "Type": cs(""),
			}},
		})
		for _, o := range an.simulate(h.exits, c) {
			if !o.ok() {
				continue
			}
			r.count("anonymous_types", 1)
			_, pushed, ok := o.stackOf(an, h.recv, "ComplexType")
			if !ok || len(pushed) != 1 {
				r.undecided("OnComplexType: the stack of complex types")
				continue
			}
			rec := o.recordOf(an, "ComplexType", o.c.eval(pushed[0]))
			if n, ok := rec("Name").str(); !ok || n != "n" {
				continue // C19
			}
			if s, ok := rec("Doc").str(); !ok || s != "the documentation" {
				if o.open > 0 {
					r.undecided("OnComplexType: %v", o.lits)
					continue
				}
				r.violate("anonymous type", "OnComplexType", an.pos(o.x.Pos), "the anonymous type of an element that is documented as %q is documented as %s", "the documentation", showTerm(rec("Doc")))
			}
		}
	}
	r.require(r.Counts["anonymous_types"], "anonymous type")
}

// docReaches: every token of character data is given to the handler.
func (an *Analyzer) docReaches(r *Report) {
	target := an.method(an.optType, "OnCharData")
	if target == nil {
		return
	}
	sites := 0
	for _, f := range an.libFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ta, ok := in.(*ssa.TypeAssert)
				if !ok || !isNamed(ta.AssertedType, "encoding/xml", "CharData") {
					continue
				}
				r.count("character_data_cases", 1)
				var val ssa.Value = ta
				from := b
				if ta.CommaOk {
					val = nil
					for _, ref := range *ta.Referrers() {
						e, ok := ref.(*ssa.Extract)
						if !ok {
							continue
						}
						if e.Index == 0 {
							val = e
						} else {
							for _, u := range *e.Referrers() {
								if i, ok := u.(*ssa.If); ok {
									from = i.Block().Succs[0]
								}
							}
						}
					}
				}
				if val == nil {
					r.violate("text reaches the handler", f.Name()+"/unused", an.pos(ta.Pos()), "character data is not given to OnCharData")
					continue
				}
				// the call must come on every way from there
				blk, where := an.callWith(from, val, target)
				if !blk {
					r.violate("text reaches the handler", f.Name(), where, "character data is not given to OnCharData on every way")
					continue
				}
				sites++
			}
		}
	}
	if sites == 0 && r.Counts["character_data_cases"] == 0 {
		r.violate("text reaches the handler", "Parse", "", "no function tells character data from other tokens")
	}
}

// callWith: every way from the start of a block comes to a call of the target
// with the text of the value before it leaves the loop iteration or the
// function.
func (an *Analyzer) callWith(b *ssa.BasicBlock, val ssa.Value, target *ssa.Function) (bool, string) {
	seen := map[*ssa.BasicBlock]bool{}
	where := ""
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return true
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if c.Common().StaticCallee() == target {
					for _, a := range c.Common().Args {
						if an.textOf(a, val) {
							return true
						}
					}
				}
			}
		}
		where = an.pos(b.Instrs[len(b.Instrs)-1].Pos())
		if len(b.Succs) == 0 {
			return false
		}
		for _, s := range b.Succs {
			if s.Dominates(b) && s != b { // the next round
				return false
			}
			if !walk(s) {
				return false
			}
		}
		return true
	}
	ok := walk(b)
	return ok, where
}

// textOf: the value is the text of the character data.
func (an *Analyzer) textOf(a, val ssa.Value) bool {
	switch x := a.(type) {
	case *ssa.Convert:
		return an.textOf(x.X, val)
	case *ssa.ChangeType:
		return an.textOf(x.X, val)
	case *ssa.Call:
		if f := x.Common().StaticCallee(); f != nil && f.String() == "(encoding/xml.CharData).Copy" {
			return an.textOf(x.Common().Args[0], val)
		}
	}
	return a == val
}

// docEmitted: the comment before a declaration.
func (an *Analyzer) docEmitted(r *Report) {
	words := []string{"", "a", "some words", "one line\nand another", "http://a.b/c?d=e&f#g", "a */ b /* c // d", "100% of %s, {x} [y] <z> \"q\" 'r' `s`; $t @u"}
	var fs []*ssa.Function
	for _, e := range an.emitters() {
		fs = append(fs, e.fn)
	}
	hv := an.harvestOf(fs...)
	var more []string
	for _, n := range hv.sizes(3, 1<<16) {
		if n > 2 {
			more = append(more, fill(n), strings.Repeat("b\n", n-1)+"b")
		}
	}
	for _, w := range hv.strs {
		if strings.TrimSpace(w) == w && !strings.ContainsAny(w, "\n\r") {
			more = append(more, w, w+"x", "x"+w)
		}
	}
	an.eachEmitter(r, func(e *Emitter) {
		seen := map[string]bool{}
		doc := an.declField(e, "Doc")
		if doc == nil {
			r.undecided("%s: the documentation", e.name())
			return
		}
		for _, in := range e.Insts {
			if in.Rep != nil {
				continue
			}
			if in.Err != nil || in.decl() == nil {
				if in.Err == nil && in.text() == "" {
					continue
				}
				continue // C04 and others report what can't be read
			}
			where := an.exitPos(e, in.Exit)
			words := words
			key := ""
			for _, n := range in.Nodes {
				if n.Term != nil && !n.Conc && an.isDoc(n.Term) {
					key += fmt.Sprint(n.Term.ID) + " "
				}
			}
			for _, l := range in.Lits {
				if contains(l.A, doc) {
					key += l.String() + " "
				}
			}
			if !seen[key] {
				seen[key] = true
				words = append(words[:len(words):len(words)], more...)
			}
			for _, w := range words {
				c := in.Conc.clone()
				c.m[doc] = cs(w)
				excluded := false
				for _, l := range in.Lits {
					if c.lit(l) == 0 {
						excluded = true
					}
				}
				if excluded {
					continue
				}
				r.count("comments", 1)
				var ns []INode
				for _, n := range in.Nodes {
					if n.Term != nil && !n.Conc && an.isDoc(n.Term) {
						p := an.pipe(n.Term)
						if p.Src == doc {
							if s, ok := applyOps(w, p.Ops); ok {
								ns = append(ns, INode{Text: s})
								continue
							}
							r.undecided("%s: rewriting of documentation %s", e.name(), p)
						}
					}
					ns = append(ns, n)
				}
				toks, err := lexTemplate(ns)
				if err != nil {
					r.undecided("%s: %v", e.name(), err)
					continue
				}
				var lines [][]Part
				for _, t := range toks {
					if t.Kind == 'n' {
						continue
					}
					if t.Kind != 'c' {
						break
					}
					lines = append(lines, t.Parts)
				}
				name := in.decl().Name
				if len(lines) == 0 {
					r.violate("comment", e.name()+"/none", where, "the declaration of %s has no comment, whatever its documentation (%s)", partsString(name), in.desc())
					break
				}
				first := strings.TrimSpace(partsString(lines[0]))
				id := partsString(name)
				if !strings.HasPrefix(first, id) || len(first) > len(id) && first[len(id)] != ' ' && first[len(id)] != ':' {
					r.violate("comment", e.name()+"/identifier", where, "the comment before the declaration of %s is %q", id, first)
				}
				k := 0
				for i, l := range strings.Split(w, "\n") {
					if l == "" {
						continue
					}
					for k < len(lines) && !strings.HasSuffix(strings.TrimSpace(partsString(lines[k])), l) {
						k++
					}
					if k == len(lines) {
						r.violate("documentation in the comment", e.name(), where, "line %d of documentation %s is not in the comment before the declaration of %s", i+1, shortText(w), id)
						break
					}
					k++
				}
			}
		}
	})
	r.require(r.Counts["comments"], "comment of a declaration")
}
