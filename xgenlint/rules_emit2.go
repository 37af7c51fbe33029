package main

// Rules over the emission instances, continued: C08, C09, C10, C12, C13, C14,
// C31.

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"
)

func init() {
	register("C09", "For every Go emission instance the final values of the two import flags, as terms over their values before, are compared with the packages the instance's parsed types use; for GenGo, every partition's source text is compared with the flags.", ruleC09)
	register("C10", "Every piece of an emission template that derives from documentation must lie in a line comment, and the rewriting applied to it must start a commented line after every line terminator, decided on all words up to length 4 over the characters that matter.", ruleC10)
	register("C12", "For every emitting exit the declared identifier must be looked up in and recorded in the file's identifier counter, and be used unsuffixed only where the counter is known to be zero; each Gen function starts with a fresh counter.", ruleC12)
	register("C13", "Per language, the rewriting pipelines of all declared identifiers and of all references to user types must agree on every name over a representative alphabet; in Go every reference to a user type is one pointer.", ruleC13)
	register("C14", "For every member of a generated Rust struct and every keyword of Rust 2021, the path conditions under which the member's name is emitted must exclude that keyword.", ruleC14)
	register("C31", "Every exit of TypeScriptSimpleType that may carry enumeration values must emit an enum with one entry per value, in order, whose value is the value itself, quoted unless the base is numeric.", ruleC31)
}

// ---- C08

func (m *Member) annot(name string) *Annot {
	for i := range m.Annots {
		if m.Annots[i].Name == name {
			return &m.Annots[i]
		}
	}
	return nil
}

// isValueMember: the member holds the element's text.
func (m *Member) isValueMember(lang string) bool {
	switch lang {
	case "Go":
		b, flags, ok := m.binding("Go")
		return ok && len(b) == 0 && strings.Contains(flags+",", ",chardata,")
	case "Java":
		return m.annot("XmlValue") != nil
	case "Rust":
		a := m.annot("serde")
		return a != nil && partsString(a.Args["rename"]) == "$value"
	case "TypeScript", "C":
		return strings.EqualFold(partsString(m.Name), "value") && len(partTerms(m.Name)) == 0
	}
	return false
}

func typeIsUser(an *Analyzer, t *TypeX, src *Term) bool {
	if t == nil {
		return false
	}
	for _, p := range partTerms(t.base().parts()) {
		if x := an.pipe(p).Src; isUserSym(x) {
			y := x.X.(*Term)
			if y == src || contains(y, src) {
				return true
			}
		} else if contains(p, userSym(src)) {
			return true
		}
	}
	return false
}

func ruleC08(an *Analyzer, r *Report) {
	r.rule("no base: no value member, no embedding, no inheritance")
	r.rule("built-in base: exactly one value member of that type, bound to the element's text")
	r.rule("user-defined base: exactly one embedded (Go), flattened (Rust) member or extends clause (Java, TypeScript) naming it")
	an.eachEmitter(r, func(e *Emitter) {
		if e.Kind != "ComplexType" {
			return
		}
		base := an.declField(e, "Base")
		if base == nil {
			r.undecided("no field Base")
			return
		}
		consulted := false
		for _, in := range e.Insts {
			if in.Rep != nil || in.Err != nil || in.decl() == nil {
				continue
			}
			where := an.exitPos(e, in.Exit)
			d := in.decl()
			val := in.Conc.m[base]
			if val == nil {
				for s, v := range in.Conc.m {
					if contains(s, base) && an.isTypeSource(s) {
						val = v
					}
				}
			}
			if val == nil {
				continue
			}
			consulted = true
			r.count("bases", 1)
			var rest []*Member
			for _, m := range d.Members {
				if !isXMLNameMember(m) {
					rest = append(rest, m)
				}
			}
			switch {
			case val == tEmpty:
				if len(rest) > 0 {
					r.violate("no base", e.name(), where, "a complex type without base and children gets the member %s", rest[0].render())
				}
				if d.Extends != nil {
					r.violate("no base", e.name(), where, "a complex type without base extends %s", d.Extends)
				}
			case val.isConst():
				s, _ := val.str()
				if d.Extends != nil || len(rest) != 1 || !rest[0].isValueMember(e.Lang) {
					r.violate("built-in base", e.name(), where, "a complex type with base %s is generated as %s", s, in.text())
					continue
				}
				got := strings.ReplaceAll(typeText(rest[0].Type, e.Lang), " ", "")
				if got != strings.ReplaceAll(s, " ", "") {
					r.violate("type of the value", e.name(), where, "the value member of a complex type with base %s has type %s", s, got)
				}
			default:
				ok := false
				switch e.Lang {
				case "Java", "TypeScript":
					ok = d.Extends != nil && typeIsUser(an, d.Extends, base) && len(rest) == 0
				case "Go":
					ok = d.Extends == nil && len(rest) == 1 && rest[0].Embedded && typeIsUser(an, rest[0].Type, base)
				case "Rust":
					if len(rest) == 1 {
						if a := rest[0].annot("serde"); a != nil && a.Flag["flatten"] == "true" {
							ok = typeIsUser(an, rest[0].Type, base)
						}
					}
				default:
					ok = len(rest) == 1 && typeIsUser(an, rest[0].Type, base)
				}
				if !ok {
					r.violate("user base", e.name(), where, "a complex type with a user-defined base is generated as %.300s", in.text())
				}
			}
		}
		if !consulted {
			r.violate("base consulted", e.name(), an.pos(e.fn.Pos()), "the declaration generated for a complex type does not depend on its base")
		}
	})
	r.require(r.Counts["bases"], "complex types with a base")
}

// ---- C09

func usesType(in *Inst, name string) bool {
	toks, err := lexTemplate(in.Nodes)
	if err != nil {
		return false
	}
	ps := strings.Split(name, ".")
	for i := 0; i+2 < len(toks); i++ {
		if toks[i].is(ps[0]) && toks[i+1].is(".") && toks[i+2].is(ps[1]) {
			return true
		}
		if toks[i].is(name) {
			return true
		}
	}
	for _, t := range toks {
		if t.is(name) {
			return true
		}
	}
	return false
}

var goImports = []struct{ flag, typ, path string }{
	{"ImportTime", "time.Time", "time"},
	{"ImportEncodingXML", "xml.Name", "encoding/xml"},
}

func ruleC09(an *Analyzer, r *Report) {
	r.rule("an instance using time.Time / xml.Name leaves the flag true; one that does not leaves it as it was")
	r.rule("GenGo: the formatted source imports a package iff the final value of its flag holds on the path")
	for _, k := range nodeKinds {
		e := an.emitter("Go", k)
		if !r.usable(e) {
			continue
		}
		for _, g := range goImports {
			fa := fieldAddr(e.gen, g.flag)
			st := &State{heap: map[*Term]*Term{}, facts: newFacts(), an: an}
			ft := fieldType(an.genType, g.flag)
			if ft == nil {
				r.undecided("no flag %s", g.flag)
				continue
			}
			init := st.load(fa, ft)
			for _, in := range e.Insts {
				if in.Err != nil {
					continue
				}
				where := an.exitPos(e, in.Exit)
				v := e.exits[in.Exit].St.heap[fa]
				if v == nil {
					v = init
				}
				got := in.Conc.eval(v)
				uses := usesType(in, g.typ)
				r.count("flag_values", 1)
				place := e.name() + "/" + g.flag
				switch {
				case uses && got != tTrue && in.fact(init) != 1:
					r.violate("import missing", place, where, "%s is used but %s is left %s (%s)", g.typ, g.flag, got, in.desc())
				case !uses && got == tTrue && in.fact(init) != 1:
					r.violate("import not needed", place, where, "%s is not used but %s is set (%s)", g.typ, g.flag, in.desc())
				case !uses && got == tFalse && in.fact(init) != 0:
					r.violate("import forgotten", place, where, "%s is cleared (%s)", g.flag, in.desc())
				case !uses && got != init && got != tTrue && got != tFalse:
					r.undecided("%s: %s becomes %.200s", e.name(), g.flag, got)
				}
			}
			// declarations that are skipped leave the flags alone
			for _, i := range e.Silent {
				v := e.exits[i].St.heap[fa]
				if v == nil || v == init {
					continue
				}
				r.violate("import not needed", e.name()+"/"+g.flag, an.exitPos(e, i), "%s changes although nothing is generated", g.flag)
			}
		}
	}
	r.require(r.Counts["flag_values"], "Go emission instances")
	fn := an.method(an.genType, "GenGo")
	if fn == nil {
		r.violate("anchor", "GenGo", "", "no method GenGo")
		return
	}
	ex, err := an.root(fn)
	if err != nil {
		r.undecided("GenGo: %v", err)
		return
	}
	gen := sym(fn.Params[0].Name(), fn.Params[0].Type())
	for i := range ex {
		x := &ex[i]
		src := an.sourceText(x)
		if src == nil {
			continue
		}
		text := constText(src)
		for _, g := range goImports {
			fa := fieldAddr(gen, g.flag)
			v := x.St.heap[fa]
			if v == nil {
				v = (&State{heap: map[*Term]*Term{}, facts: newFacts(), an: an}).load(fa, fieldType(an.genType, g.flag))
			}
			k := x.St.facts.known(v)
			imp := strings.Contains(text, `"`+g.path+`"`)
			r.count("import_clauses", 1)
			if k < 0 {
				// the text may depend on the flag without the path knowing it
				if dependsOn(src, v) {
					r.undecided("GenGo: import of %s", g.path)
				} else {
					r.violate("import clause", "GenGo/"+g.flag, an.pos(x.Pos), "the import of %s does not depend on %s", g.path, g.flag)
				}
				continue
			}
			if imp != (k == 1) {
				r.violate("import clause", "GenGo/"+g.flag, an.pos(x.Pos), "%s is imported: %v, but %s is %v", g.path, imp, g.flag, k == 1)
			}
		}
		for _, l := range importPaths(text) {
			if l != "time" && l != "encoding/xml" {
				r.violate("import clause", "GenGo/"+l, an.pos(x.Pos), "package %s is imported", l)
			}
		}
	}
	r.require(r.Counts["import_clauses"], "import clauses of GenGo")
}

func dependsOn(t, x *Term) bool { return contains(t, x) }

func importPaths(s string) []string {
	var out []string
	i := strings.Index(s, "import")
	if i < 0 {
		return nil
	}
	s = s[i:]
	if j := strings.Index(s, ")"); j >= 0 {
		s = s[:j]
	}
	ps := strings.Split(s, `"`)
	for k := 1; k < len(ps); k += 2 {
		out = append(out, ps[k])
	}
	return out
}

// constText concatenates the constant pieces of a text.
func constText(t *Term) string {
	var b strings.Builder
	for _, p := range concatParts(t) {
		if s, ok := p.str(); ok {
			b.WriteString(s)
		} else {
			b.WriteString("\x00")
		}
	}
	return b.String()
}

// sourceText is the source an exit of a Gen function produces: the argument
// of the formatter if there is one, otherwise what is written.
func (an *Analyzer) sourceText(x *Exit) *Term {
	var w, f *Term
	for _, ev := range x.St.events {
		if ev.Kind != "call" {
			continue
		}
		if strings.HasSuffix(ev.Fn, "format.Source") && len(ev.Args) > 0 {
			f = ev.Args[0]
		}
		if (ev.Fn == "write" || strings.HasSuffix(ev.Fn, "WriteFile")) && len(ev.Args) > 1 {
			if w == nil {
				w = ev.Args[1]
			} else {
				w = mkConcat(w, ev.Args[1])
			}
		}
	}
	if f != nil {
		return f
	}
	return w
}

// ---- C10

func (an *Analyzer) isDoc(t *Term) bool {
	found := false
	walkTerm(t, func(x *Term) bool {
		if x.Op == OpField && x.S == "Doc" {
			found = true
		}
		return !found
	})
	return found
}

var docAlphabet = []string{"a", "\n", "\r", "\u2028", "\u2029", "*/", "\\", "\\u000a"}

func ruleC10(an *Analyzer, r *Report) {
	r.rule("documentation appears in line comments only")
	r.rule("after every line terminator of the rewritten documentation the comment marker follows")
	r.rule("the generated text ends the comment's line before the declaration continues")
	term := "\n\r\u2028\u2029"
	an.eachEmitter(r, func(e *Emitter) {
		pipes := map[string]bool{}
		for _, in := range e.Insts {
			where := an.exitPos(e, in.Exit)
			toks, err := lexTemplate(in.Nodes)
			if err != nil {
				r.undecided("%s: %v", e.name(), err)
				continue
			}
			r.count("instances", 1)
			for _, t := range toks {
				for _, p := range t.Parts {
					if p.Term == nil || !an.isDoc(p.Term) {
						continue
					}
					r.count("doc_holes", 1)
					if t.Kind != 'c' || t.Block {
						r.violate("in comment", e.name(), where, "documentation is emitted outside a line comment: %s", t)
						continue
					}
					pp := an.pipe(p.Term)
					k := fmt.Sprint(pp.Ops)
					if pipes[k] {
						continue
					}
					pipes[k] = true
					if !(pp.Src.Op == OpField && pp.Src.S == "Doc") {
						r.undecided("%s: rewriting of documentation %.200s", e.name(), p.Term)
						continue
					}
					an.docWords(bound(4, 6), func(w string) bool {
						x, ok := applyOps(w, pp.Ops)
						if !ok {
							r.undecided("%s: rewriting of documentation %s", e.name(), pp)
							return false
						}
						rest := x
						for {
							i := strings.IndexAny(rest, term)
							if i < 0 {
								break
							}
							rest = strings.TrimLeft(rest[i:], term)
							if rest != "" && !strings.HasPrefix(rest, "//") {
								kind := "line feed"
								for c, n := range map[string]string{"\r": "carriage return", "\u2028": "U+2028", "\u2029": "U+2029"} {
									if strings.Contains(w, c) && !strings.Contains(w, "\n") {
										kind = n
									}
								}
								r.violate("line terminator", e.name()+"/"+kind, where, "documentation %q is rendered as %q", w, x)
							}
						}
						if e.Lang == "C" && strings.HasSuffix(x, "\\") {
							r.violate("line continuation", e.name(), where, "documentation %q ends the comment with a backslash, which continues it on the next line", w)
						}
						if e.Lang == "Java" && hasJavaEscape(x) {
							r.violate("unicode escape", e.name(), where, "documentation %q keeps a Unicode escape that Java reads as a line terminator", w)
						}
						return true
					})
				}
			}
		}
	})
	r.require(r.Counts["doc_holes"], "documentation in emission templates")
}

func hasJavaEscape(s string) bool {
	for i := 0; i+5 < len(s); i++ {
		if s[i] == '\\' && s[i+1] == 'u' {
			n := 0
			for j := i; j >= 0 && s[j] == '\\'; j-- {
				n++
			}
			if n%2 == 1 && strings.HasPrefix(s[i+2:], "000a") {
				return true
			}
		}
	}
	return false
}

func (an *Analyzer) docWords(n int, f func(string) bool) {
	var rec func(p string, left int) bool
	rec = func(p string, left int) bool {
		if p != "" && !f(p) {
			return false
		}
		if left == 0 {
			return true
		}
		for _, a := range docAlphabet {
			if !rec(p+a, left-1) {
				return false
			}
		}
		return true
	}
	rec("", n)
}

// ---- C12

// counterOf finds a map lookup on the identifier in a term.
func counterOf(t, id *Term) *Term {
	var m *Term
	walkTerm(t, func(x *Term) bool {
		if (x.Op == OpLookup || x.Op == OpLookupOk) && x.Args[1] == id && m == nil && !strings.HasPrefix(mapRoot(x.Args[0]).String(), "table:") {
			m = x
		}
		return m == nil
	})
	return m
}

func mapRoot(t *Term) *Term {
	for t.Op == OpMapPut {
		t = t.Args[0]
	}
	return stripMap(t)
}

// numbered is one way of declaring an identifier, by the number of times it
// was declared before.
type numbered struct {
	count, id, put *Term
	name           []Part
	path           []Lit
	where          string
}

// numbering declares the same identifier again and again: the identifiers
// written must differ.
func (an *Analyzer) numbering(r *Report, e *Emitter, nums []numbered) {
	const again = 150
	done := map[string]bool{}
	written := map[string]int{}
	n := int64(0)
	for i := 1; i <= again; i++ {
		next := int64(-1)
		for _, w := range nums {
			c := an.newConc().with(w.count, ci(n)).with(w.id, cs("Xy"))
			possible := true
			for _, l := range w.path {
				if contains(l.A, w.count) && c.lit(l) == 0 {
					possible = false
				}
			}
			if !possible {
				continue
			}
			text := ""
			for _, p := range w.name {
				if p.Term == nil || p.Conc {
					text += p.Text
					continue
				}
				t, ok := c.eval(p.Term).str()
				if !ok {
					return // not known: nothing to compare
				}
				text += t
			}
			m, ok := c.eval(w.put).num()
			if !ok || next >= 0 && next != m {
				return
			}
			next = m
			if k, ok := written[text]; ok && k != i && !done[e.name()] {
				done[e.name()] = true
				r.violate("collision check", e.name()+"/numbers", w.where, "of several declarations whose identifier is Xy, number %d and number %d are both called %s", k, i, text)
			}
			if _, ok := written[text]; !ok {
				written[text] = i
			}
		}
		if next < 0 {
			return
		}
		n = next
	}
	r.count("repeated_declarations", again)
}

func ruleC12(an *Analyzer, r *Report) {
	r.rule("a declared identifier is used unsuffixed only where the counter says it is new, otherwise with a number derived from the counter")
	r.rule("every declared identifier is recorded in the counter")
	r.rule("the counter is a fresh map at the start of every generated file, and not replaced within it")
	counters := map[*Term]string{}
	an.eachEmitter(r, func(e *Emitter) {
		name := an.declField(e, "Name")
		var nums []numbered
		for _, in := range e.Insts {
			if in.Rep != nil || in.Err != nil || in.decl() == nil {
				continue
			}
			where := an.exitPos(e, in.Exit)
			x := &e.exits[in.Exit]
			d := in.decl()
			ts := partTerms(d.Name)
			if len(ts) == 0 {
				r.violate("identifier", e.name(), where, "declared identifier %s does not depend on the schema name", partsString(d.Name))
				continue
			}
			id := ts[0]
			if an.pipe(id).Src != name {
				continue // C13 judges that
			}
			r.count("declarations", 1)
			// the counter's content before and after
			var look *Term
			for _, l := range x.St.path {
				if m := counterOf(l.A, id); m != nil && !strings.Contains(m.Args[0].String(), "StructAST") {
					look = m
				}
			}
			for _, t := range ts[1:] {
				if m := counterOf(t, id); m != nil {
					look = m
				}
			}
			if look == nil {
				r.violate("collision check", e.name(), where, "identifier %s is declared without a check whether it was declared before", an.showHole(id))
				continue
			}
			root := mapRoot(look.Args[0])
			counters[root] = where
			put := false
			var value *Term
			for _, ev := range x.St.events {
				if ev.Kind == "mapput" && stripMap(ev.Args[0]) == root && ev.Args[1] == id {
					put, value = true, ev.Args[2]
					if x.St.facts.known(mkEq(ev.Args[2], ci(0))) == 1 || ev.Args[2] == tFalse {
						put = false
					}
				}
				if ev.Kind == "mapdelete" && stripMap(ev.Args[0]) == root {
					r.violate("recorded", e.name(), where, "an identifier is removed from the counter")
				}
				if ev.Kind == "store" && ev.Args[0] == root {
					r.violate("fresh counter", e.name(), where, "the counter is replaced while a file is generated")
				}
			}
			if !put {
				r.violate("recorded", e.name(), where, "identifier %s is not recorded in the counter", an.showHole(id))
			}
			// unsuffixed: the counter must be known to be zero
			if len(ts) == 1 && len(d.Name) == 1 {
				zero := x.St.facts.known(mkEq(mkLookupTerm(look), ci(0))) == 1
				if look.Op == OpLookupOk && x.St.facts.known(look) == 0 {
					zero = true
				}
				for _, l := range x.St.path {
					if l.A.Op == OpLookupOk && l.A.Args[1] == id && !l.V && mapRoot(l.A.Args[0]) == root {
						zero = true
					}
				}
				if !zero {
					r.violate("collision check", e.name(), where, "identifier %s is declared although it may have been declared before (%s)", an.showHole(id), pathString(x.St.path))
				}
			} else {
				dep := false
				for _, t := range ts[1:] {
					if m := counterOf(t, id); m != nil && mapRoot(m.Args[0]) == root {
						dep = true
					}
				}
				if !dep {
					r.violate("collision check", e.name(), where, "identifier %s of a colliding declaration does not depend on how often it was declared", partsString(d.Name))
				}
			}
			if put && look.Op == OpLookup {
				nums = append(nums, numbered{look, id, value, d.Name, x.St.path, where})
			}
		}
		an.numbering(r, e, nums)
	})
	r.require(r.Counts["declarations"], "declarations")
	for _, l := range langs {
		fn := an.method(an.genType, "Gen"+l)
		if fn == nil {
			continue
		}
		ex, err := an.root(fn)
		if err != nil {
			r.undecided("Gen%s: %v", l, err)
			continue
		}
		for root := range counters {
			if root.Op != OpSym && !strings.HasPrefix(root.String(), "global:") {
				continue
			}
			for i := range ex {
				r.count("files", 1)
				fresh := false
				for _, ev := range ex[i].St.events {
					if ev.Kind == "store" && stripDeref(ev.Args[0]) == root {
						if ev.Args[1].Op == OpObj {
							fresh = true
						} else {
							fresh = false
						}
					}
					if ev.Kind == "call" && ev.Fn == "clear" && stripMap(ev.Args[0]) == root {
						fresh = true
					}
					if ev.Kind == "loop" {
						break
					}
				}
				if ex[i].Kind != "return" || !dispatches(&ex[i]) {
					continue
				}
				if !fresh {
					r.violate("fresh counter", "Gen"+l, an.pos(ex[i].Pos), "generation starts with the identifiers counted for an earlier file")
				}
				for _, ev := range ex[i].St.events {
					for _, alt := range ev.Alts {
						for _, y := range alt {
							if y.Kind == "store" && stripDeref(y.Args[0]) == root {
								r.violate("fresh counter", "Gen"+l, an.pos(y.Pos), "the counter is replaced while a file is generated")
							}
						}
					}
				}
			}
		}
	}
}

// mkLookupTerm turns a presence test into the value lookup.
func mkLookupTerm(t *Term) *Term { return t }

// dispatches: the exit has processed the declarations.
func dispatches(x *Exit) bool {
	for _, ev := range x.St.events {
		if ev.Kind == "loop" {
			for _, alt := range ev.Alts {
				for _, y := range alt {
					if y.Kind == "call" && (y.Fn == "xgen.callFuncByName" || strings.Contains(y.Fn, "CodeGenerator")) {
						return true
					}
				}
			}
		}
	}
	return false
}

// ---- C13

func ruleC13(an *Analyzer, r *Report) {
	r.rule("all declared identifiers and all references of a language use pipelines that agree on every name over {a,B,1,.,-,_} up to length 6")
	r.rule("Go: a reference to a user type has exactly one pointer, one to a built-in type none")
	for _, lang := range langs {
		type use struct {
			ops   []PipeOp
			where string
			place string
		}
		decls := map[string]use{}
		refs := map[string]use{}
		for _, k := range nodeKinds {
			e := an.emitter(lang, k)
			if !r.usable(e) {
				continue
			}
			name := an.declField(e, "Name")
			for _, in := range e.Insts {
				if in.Err != nil || in.decl() == nil {
					continue
				}
				where := an.exitPos(e, in.Exit)
				d := in.decl()
				if in.Rep == nil {
					ts := partTerms(d.Name)
					if len(ts) > 0 {
						p := an.pipe(ts[0])
						if p.Src != name {
							if contains(ts[0], name) {
								r.undecided("%s: identifier %.200s", e.name(), ts[0])
							} else {
								r.violate("declared name", e.name(), where, "a declaration is named after %s instead of its schema name", p)
							}
						} else {
							decls[fmt.Sprint(p.Ops)] = use{p.Ops, where, e.name()}
						}
					}
				}
				var tys []*TypeX
				var place string
				if in.Rep != nil {
					c := an.child(e, in.Rep)
					if c == nil {
						continue
					}
					ms, ok := in.added()
					if !ok {
						continue
					}
					place = e.place(c)
					for _, m := range ms {
						tys = append(tys, m.Type)
					}
				} else {
					place = e.name()
					for _, m := range d.Members {
						if d.Kind != "enum" {
							tys = append(tys, m.Type)
						}
					}
					if d.Extends != nil {
						tys = append(tys, d.Extends)
					}
					if d.Type != nil {
						tys = append(tys, d.Type)
					}
				}
				for _, t := range tys {
					user := false
					for _, h := range partTerms(t.base().parts()) {
						p := an.pipe(h)
						if isUserSym(p.Src) {
							user = true
							r.count("references", 1)
							refs[fmt.Sprint(p.Ops)] = use{p.Ops, where, place}
						} else if an.hasUser(h) || containsUser(h) {
							r.undecided("%s: reference %.200s", place, h)
							user = true
						}
					}
					if lang == "Go" {
						n := t.count("ptr", true)
						if user && n != 1 {
							r.violate("reference form", place, where, "reference %s has %d pointers", t, n)
						}
						if !user && n != 0 {
							r.violate("reference form", place, where, "%s has %d pointers", t, n)
						}
					}
				}
			}
		}
		if len(decls) == 0 || len(refs) == 0 {
			if an.emitter(lang, "ComplexType") != nil && an.emitter(lang, "ComplexType").err == "" {
				r.violate("anchor", lang, "", "no declarations or no references found for %s", lang)
			}
			continue
		}
		var all []use
		for _, k := range sortedUse(decls, func(u use) string { return fmt.Sprint(u.ops) }) {
			all = append(all, decls[k])
		}
		ref0 := all[0]
		for _, u := range all[1:] {
			r.count("pipelines_compared", 1)
			if w, same := sameRewriting(ref0.ops, u.ops); !same {
				r.violate("declarations agree", lang+"/"+u.place, u.where, "schema name %q is declared differently by %s and %s", w, ref0.place, u.place)
			}
		}
		for _, k := range sortedUse(refs, nil) {
			u := refs[k]
			r.count("pipelines_compared", 1)
			if w, same := sameRewriting(ref0.ops, u.ops); !same {
				a, _ := applyOps(w, ref0.ops)
				b, _ := applyOps(w, u.ops)
				r.violate("reference spelled like declaration", lang+"/"+u.place, u.where, "schema type %q is declared as %s and referred to as %s", w, a, b)
			}
		}
	}
	r.require(r.Counts["references"], "references to user types")
}

func sortedUse(m interface{}, _ interface{}) []string {
	o := map[string]bool{}
	for _, k := range mapKeys(m) {
		o[k] = true
	}
	return sortedKeys(o)
}

func containsUser(t *Term) bool {
	found := false
	walkTerm(t, func(x *Term) bool {
		if isUserSym(x) {
			found = true
		}
		return !found
	})
	return found
}

// ---- C14

var rustReserved = strings.Fields("as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try")

func ruleC14(an *Analyzer, r *Report) {
	r.rule("for each field name term and each keyword K: the path conditions contradict 'name = K'")
	r.rule("all field names of Rust structs are rewritten alike, ending in snake case")
	type use struct {
		ops          []PipeOp
		where, place string
	}
	var first *use
	lower := map[string]bool{}
	for _, k := range nodeKinds {
		e := an.emitter("Rust", k)
		if !r.usable(e) {
			continue
		}
		for _, in := range e.Insts {
			if in.Err != nil || in.decl() == nil || in.Twice {
				continue
			}
			where := an.exitPos(e, in.Exit)
			for _, m := range in.decl().Members {
				ts := partTerms(m.Name)
				if len(ts) == 0 {
					if isKeyword(partsString(m.Name)) {
						r.violate("keyword", e.name(), where, "field %s", partsString(m.Name))
					}
					continue
				}
				place := e.name()
				if in.Rep != nil {
					if c := an.child(e, in.Rep); c != nil {
						place = e.place(c)
					}
				}
				r.count("field_names", 1)
				p := an.pipe(ts[0])
				snake := len(p.Ops) > 0 && p.Ops[len(p.Ops)-1].Kind == "snake"
				if !snake {
					if strings.Contains(ts[0].String(), "ToSnakeCase") {
						r.undecided("%s: field name %.200s", place, ts[0])
					} else {
						r.violate("snake case", place, where, "field name %s is not rewritten to snake case", p)
					}
					continue
				}
				if key := fmt.Sprintf("%q", p.Ops); !lower[key] {
					lower[key] = true
					nameWords(func(w string) bool {
						x, ok := applyOps(w, p.Ops)
						if ok && x != strings.ToLower(x) {
							r.violate("snake case", place, where, "the field for %q is named %q", w, x)
						}
						return ok && x == strings.ToLower(x)
					})
				}
				if in.Rep == nil || !an.child(e, in.Rep).own(ts[0]) {
					// the member for the base is named after a type
				} else if first == nil {
					first = &use{p.Ops, where, place}
				} else if w, same := sameRewriting(first.ops, p.Ops); !same {
					r.violate("same rewriting", place, where, "name %q is rewritten differently than by %s (%s, %s)", w, first.place, p, Pipe{ts[0], first.ops})
				}
				pre, suf := "", ""
				for i, q := range m.Name {
					if q.Term == nil {
						if i == 0 {
							pre += q.Text
						} else {
							suf += q.Text
						}
					}
				}
				if len(ts) > 1 {
					continue
				}
				lits := in.pathLits()
				for _, kw := range rustReserved {
					if !strings.HasPrefix(kw, pre) || !strings.HasSuffix(kw, suf) || len(kw) < len(pre)+len(suf) {
						continue
					}
					w := kw[len(pre) : len(kw)-len(suf)]
					r.count("keyword_obligations", 1)
					c := in.Conc.with(ts[0], cs(w))
					excluded := false
					for _, l := range lits {
						if c.lit(l) == 0 {
							excluded = true
							break
						}
					}
					if !excluded {
						r.violate("keyword", place, where, "a field can be named %q", kw)
					}
				}
			}
		}
	}
	r.require(r.Counts["keyword_obligations"], "Rust field names")
}

func isKeyword(s string) bool { return has(rustReserved, s) }

// pathLits are the facts of the instance's partition.
func (in *Inst) pathLits() []Lit {
	return in.Lits
}

// ---- C31

func ruleC31(an *Analyzer, r *Report) {
	e := an.emitter("TypeScript", "SimpleType")
	if !r.usable(e) {
		if e == nil || e.err != "" && strings.HasPrefix(e.err, "no method") {
			r.violate("anchor", "TypeScriptSimpleType", "", "no emitter TypeScriptSimpleType")
		}
		return
	}
	r.rule("a simple type with enumeration values (no list, no union) is generated as an enum")
	r.rule("the enum has one entry per value, in order, whose value is the schema's value")
	r.rule("values are quoted iff the base is not numeric")
	r.rule("the handler of enumeration elements adds each value to those of its simple type")
	(&declRule{an, r, map[string]*handler{}}).enumValues()
	restr := an.declField(e, "Restriction")
	if restr == nil {
		r.undecided("no field Restriction")
		return
	}
	enum := mkField(restr, "Enum", nil)
	st := &State{heap: map[*Term]*Term{}, facts: newFacts(), an: an}
	if s := structOf(restr.T); s != nil {
		enum = st.load(fieldAddr(fieldAddr(e.v, "Restriction"), "Enum"), fieldTypeOf(restr.T, "Enum"))
	}
	list, union := an.declField(e, "List"), an.declField(e, "Union")
	for _, in := range e.Insts {
		f := e.exits[in.Exit].St.facts
		_, hi := f.bounds(mkLen(enum))
		lo, _ := f.bounds(mkLen(enum))
		if hi == 0 || lo < 1 || f.known(list) == 1 || f.known(union) == 1 {
			if lo < 1 && hi > 0 && f.known(list) != 1 && f.known(union) != 1 && in.Rep == nil && in.Err == nil {
				r.violate("enum emitted", e.name(), an.exitPos(e, in.Exit), "a simple type is generated without looking at its enumeration values (%s)", pathString(e.exits[in.Exit].St.path))
			}
			continue
		}
		where := an.exitPos(e, in.Exit)
		if in.Err != nil || in.decl() == nil {
			continue
		}
		d := in.decl()
		if d.Kind != "enum" {
			r.violate("enum emitted", e.name(), where, "a simple type with enumeration values is generated as %s", d.Kind)
			continue
		}
		if in.Rep == nil {
			n := 0
			for _, rep := range reps(in.Raw) {
				c := an.child(e, rep)
				if c == nil {
					r.undecided("%s: loop over something else than the values", e.name())
					n++
					continue
				}
				if c.Field == "Restriction.Enum" {
					n++
					if rep.Cut || rep.Loop.HasEarlyExit || !rep.Loop.Full {
						r.violate("all values", e.name(), where, "the loop over the values does not cover all of them in order")
					}
				}
			}
			if n != 1 {
				r.violate("all values", e.name(), where, "the values are emitted %d times", n)
			}
			if len(d.Members) > 0 {
				r.violate("all values", e.name(), where, "an enum has an entry %s that is no schema value", d.Members[0].render())
			}
			continue
		}
		c := an.child(e, in.Rep)
		if c == nil || c.Field != "Restriction.Enum" {
			continue
		}
		ms, ok := in.added()
		want := 1
		if in.Twice {
			want = 2
		}
		r.count("entries", 1)
		if !ok || len(ms) != want {
			r.violate("all values", e.name(), where, "%d values give %d entries (%s)", want, len(ms), in.desc())
			continue
		}
		var base *Term
		for _, s := range in.Srcs {
			base = in.Conc.m[s]
		}
		numeric := false
		if b, ok := baseStr(base); ok {
			numeric = b == "number" || b == "bigint"
		}
		for _, m := range ms {
			if len(m.Value) != 1 || m.Value[0].Term != c.Elem {
				r.violate("value", e.name(), where, "entry %s does not have exactly the schema's value", m.render())
			}
			if n := partTerms(m.Name); len(n) != 1 || !contains(n[0], c.Elem) {
				r.violate("entry name", e.name(), where, "the name of entry %s is not built from the value", m.render())
			}
			if m.Quoted == numeric {
				r.violate("quoting", e.name(), where, "value of entry %s quoted: %v (%s)", m.render(), m.Quoted, in.desc())
			}
		}
	}
	r.require(r.Counts["entries"], "enum entries")
}

func baseStr(t *Term) (string, bool) {
	if t == nil {
		return "", false
	}
	return t.str()
}

func mapKeys(m interface{}) []string {
	v := reflect.ValueOf(m)
	var out []string
	for _, k := range v.MapKeys() {
		out = append(out, k.String())
	}
	return out
}

func fieldTypeOf(t types.Type, name string) types.Type {
	s := structOf(t)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	return nil
}
