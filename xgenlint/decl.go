package main

// Parsers for the declarations the generators emit: one small grammar per
// target language, over template tokens.

import (
	"fmt"
	"strings"
)

// TypeX is a type expression.
type TypeX struct {
	Kind  string // name, seq, opt, ptr
	Elem  *TypeX
	Name  []Part // name
	Toks  []LTok // all tokens of a name, for multi-word names
	Tmpl  bool   // the wrapper was written by the template
	Extra string
}

func (t *TypeX) base() *TypeX {
	for t != nil && t.Elem != nil {
		t = t.Elem
	}
	return t
}

// seqs counts sequence wrappers written by the template.
func (t *TypeX) count(kind string, tmplOnly bool) int {
	n := 0
	for ; t != nil; t = t.Elem {
		if t.Kind == kind && (t.Tmpl || !tmplOnly) {
			n++
		}
	}
	return n
}

func (t *TypeX) String() string {
	if t == nil {
		return "-"
	}
	switch t.Kind {
	case "name":
		return partsString(t.Name)
	}
	return t.Kind + "(" + t.Elem.String() + ")"
}

// parts lists every piece of the type expression.
func (t *TypeX) parts() []Part {
	var ps []Part
	if t == nil {
		return nil
	}
	for _, k := range t.Toks {
		ps = append(ps, k.Parts...)
	}
	return ps
}

type Annot struct {
	Name string
	Args map[string][]Part // named arguments holding strings
	Flag map[string]string // named arguments holding words
	Raw  []Part
}

type Member struct {
	Name     []Part
	Type     *TypeX
	Annots   []Annot
	Tag      []Part // Go
	HasTag   bool
	Optional bool // marked by the member's own syntax (| null, "optional" comment)
	Embedded bool
	Value    []Part // enum entry
	Quoted   bool
	Comment  [][]Part
}

type Decl struct {
	Lang    string
	Kind    string // struct, alias, enum
	Name    []Part
	Type    *TypeX // alias
	Extends *TypeX
	Members []*Member
	Annots  []Annot
	Comment []LTok // all comments
}

type declParser struct {
	toks []LTok
	p    int
	d    *Decl
	last *Member
	line bool // newlines are significant (Go)
}

type syntaxErr struct{ msg string }

func (p *declParser) fail(f string, a ...interface{}) {
	panic(syntaxErr{fmt.Sprintf(f, a...)})
}

func (p *declParser) skip() {
	for {
		t := p.toks[p.p]
		if t.Kind == 'c' {
			p.d.Comment = append(p.d.Comment, t)
			if p.last != nil {
				p.last.Comment = append(p.last.Comment, t.Parts)
			}
			p.p++
			continue
		}
		if t.Kind == 'n' {
			p.last = nil
			if !p.line {
				p.p++
				continue
			}
		}
		return
	}
}

func (p *declParser) peek() LTok {
	p.skip()
	return p.toks[p.p]
}

func (p *declParser) next() LTok {
	t := p.peek()
	if t.Kind != 'e' {
		p.p++
	}
	return t
}

func (p *declParser) expect(s string) LTok {
	t := p.next()
	if !t.is(s) {
		p.fail("expected %q, found %s", s, t)
	}
	return t
}

func (p *declParser) ident(what string) []Part {
	t := p.next()
	if t.Kind != 'i' {
		p.fail("expected %s, found %s", what, t)
	}
	if err := badIdent(t); err != "" {
		p.fail("%s %s: %s", what, t, err)
	}
	return t.Parts
}

func badIdent(t LTok) string {
	if len(t.Parts) > 0 && (t.Parts[0].Term == nil || t.Parts[0].Conc) && t.Parts[0].Text != "" {
		if r := t.Parts[0].Text[0]; r >= '0' && r <= '9' {
			return "starts with a digit"
		}
	}
	return ""
}

func (p *declParser) newlines() {
	for p.peek().Kind == 'n' {
		p.p++
	}
}

func parseDecl(lang string, ns []INode) (ds []*Decl, err error) {
	toks, err := lexTemplate(ns)
	if err != nil {
		return nil, err
	}
	p := &declParser{toks: toks, line: lang == "Go"}
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(syntaxErr); ok {
				err = fmt.Errorf("%s", s.msg)
				return
			}
			panic(r)
		}
	}()
	for {
		p.d = &Decl{Lang: lang}
		p.last = nil
		p.newlinesAny()
		if p.peek().Kind == 'e' {
			if len(ds) > 0 {
				ds[len(ds)-1].Comment = append(ds[len(ds)-1].Comment, p.d.Comment...)
			}
			return ds, nil
		}
		switch lang {
		case "Go":
			p.goDecl()
		case "C":
			p.cDecl()
		case "Java":
			p.javaDecl()
		case "Rust":
			p.rustDecl()
		case "TypeScript":
			p.tsDecl()
		}
		ds = append(ds, p.d)
	}
}

func (p *declParser) newlinesAny() {
	for p.peek().Kind == 'n' {
		p.p++
	}
}

// ---- types

func (p *declParser) named(first LTok) *TypeX {
	if first.Kind != 'i' {
		p.fail("expected a type, found %s", first)
	}
	if e := badIdent(first); e != "" {
		p.fail("type %s: %s", first, e)
	}
	t := &TypeX{Kind: "name", Name: first.Parts, Toks: []LTok{first}}
	for p.peek().is(".") {
		dot := p.next()
		id := p.next()
		if id.Kind != 'i' {
			p.fail("expected a name after '.', found %s", id)
		}
		t.Toks = append(t.Toks, dot, id)
		t.Name = append(append(append([]Part{}, t.Name...), dot.Parts...), id.Parts...)
	}
	return t
}

func (p *declParser) goType() *TypeX {
	t := p.next()
	switch {
	case t.is("["):
		c := p.expect("]")
		e := p.goType()
		return &TypeX{Kind: "seq", Elem: e, Tmpl: t.fromTemplate(), Toks: append([]LTok{t, c}, e.Toks...)}
	case t.is("*"):
		e := p.goType()
		return &TypeX{Kind: "ptr", Elem: e, Tmpl: t.fromTemplate(), Toks: append([]LTok{t}, e.Toks...)}
	case t.is("interface"):
		a := p.expect("{")
		b := p.expect("}")
		return &TypeX{Kind: "name", Name: []Part{{Text: "interface{}"}}, Toks: []LTok{t, a, b}}
	}
	return p.named(t)
}

var genericSeq = map[string]string{"Array": "seq", "List": "seq", "Vec": "seq", "Option": "opt", "ArrayList": "seq", "Optional": "opt"}

func (p *declParser) genType() *TypeX {
	first := p.next()
	t := p.named(first)
	if p.peek().is("<") {
		lt := p.next()
		e := p.genType()
		gt := p.expect(">")
		name := partsString(first.Parts)
		k := genericSeq[name]
		if k == "" || !plainText(first.Parts) {
			p.fail("generic type %s", first)
		}
		t = &TypeX{Kind: k, Elem: e, Tmpl: first.fromTemplate(), Toks: append(append([]LTok{first, lt}, e.Toks...), gt)}
	}
	for p.peek().is("[") {
		o := p.next()
		c := p.expect("]")
		t = &TypeX{Kind: "seq", Elem: t, Tmpl: o.fromTemplate(), Toks: append(append([]LTok{}, t.Toks...), o, c)}
	}
	return t
}

func plainText(ps []Part) bool {
	for _, p := range ps {
		if p.Term != nil && !p.Conc {
			return false
		}
	}
	return true
}

// ---- Go

func (p *declParser) goDecl() {
	p.expect("type")
	p.d.Name = p.ident("type name")
	if p.peek().is("struct") {
		p.d.Kind = "struct"
		p.next()
		p.expect("{")
		for {
			p.newlinesAny()
			if p.peek().is("}") {
				p.next()
				break
			}
			p.goMember()
		}
	} else {
		p.d.Kind = "alias"
		p.d.Type = p.goType()
	}
	if t := p.next(); t.Kind != 'n' && t.Kind != 'e' {
		p.fail("expected end of line, found %s", t)
	}
}

func (p *declParser) goMember() {
	m := &Member{}
	save := p.p
	t := p.next()
	if t.is("*") || func() bool { n := p.peek(); return n.Kind == 'n' || n.Kind == 's' || n.is(".") }() {
		p.p = save
		m.Embedded = true
		m.Type = p.goType()
	} else {
		if t.Kind != 'i' {
			p.fail("expected a field name, found %s", t)
		}
		if e := badIdent(t); e != "" {
			p.fail("field name %s: %s", t, e)
		}
		m.Name = t.Parts
		m.Type = p.goType()
	}
	if s := p.peek(); s.Kind == 's' {
		if s.Q == '\'' {
			p.fail("quoted tag %s", s)
		}
		m.Tag = s.Parts
		m.HasTag = true
		p.next()
	}
	if t := p.next(); t.Kind != 'n' {
		p.fail("expected end of line after field, found %s", t)
	}
	p.d.Members = append(p.d.Members, m)
}

// ---- C

func (p *declParser) cDecl() {
	p.expect("typedef")
	if p.peek().is("struct") {
		p.next()
		p.d.Kind = "struct"
		p.expect("{")
		for !p.peek().is("}") {
			m := &Member{}
			m.Type, m.Name = p.cVar()
			p.expect(";")
			p.last = m
			p.d.Members = append(p.d.Members, m)
		}
		p.next()
		p.d.Name = p.ident("type name")
		p.expect(";")
		return
	}
	p.d.Kind = "alias"
	p.d.Type, p.d.Name = p.cVar()
	p.expect(";")
}

var cWords = map[string]bool{"unsigned": true, "signed": true, "long": true, "short": true, "int": true, "char": true, "double": true, "float": true, "bool": true, "void": true, "enum": true}

func (p *declParser) cVar() (*TypeX, []Part) {
	var ids []LTok
	for p.peek().Kind == 'i' {
		ids = append(ids, p.next())
	}
	stars := 0
	for p.peek().is("*") {
		stars++
		p.next()
	}
	if stars > 0 && p.peek().Kind == 'i' {
		ids = append(ids, p.next())
	}
	if len(ids) < 2 {
		p.fail("expected a type and a name before %s", p.peek())
	}
	for _, t := range ids {
		if e := badIdent(t); e != "" {
			p.fail("%s: %s", t, e)
		}
	}
	name := ids[len(ids)-1]
	ty := ids[:len(ids)-1]
	if len(ty) > 1 {
		for _, t := range ty {
			if !plainText(t.Parts) || !cWords[partsString(t.Parts)] {
				p.fail("two types or names in a row at %s", t)
			}
		}
	}
	t := &TypeX{Kind: "name", Toks: ty}
	for i, k := range ty {
		if i > 0 {
			t.Name = append(t.Name, Part{Text: " "})
		}
		t.Name = append(t.Name, k.Parts...)
	}
	for ; stars > 0; stars-- {
		t = &TypeX{Kind: "ptr", Elem: t, Tmpl: true, Toks: t.Toks}
	}
	for p.peek().is("[") {
		o := p.next()
		if p.peek().Kind == 'i' {
			p.next()
		}
		c := p.expect("]")
		t = &TypeX{Kind: "seq", Elem: t, Tmpl: o.fromTemplate(), Toks: append(append([]LTok{}, t.Toks...), o, c)}
	}
	return t, name.Parts
}

// ---- Java

func (p *declParser) javaAnnots() []Annot {
	var as []Annot
	for p.peek().is("@") {
		p.next()
		a := Annot{Args: map[string][]Part{}, Flag: map[string]string{}}
		a.Name = partsString(p.ident("annotation"))
		if p.peek().is("(") {
			p.next()
			for !p.peek().is(")") {
				k := partsString(p.ident("annotation argument"))
				if p.peek().is("=") {
					p.next()
					v := p.next()
					switch v.Kind {
					case 's':
						if _, dup := a.Args[k]; dup {
							p.fail("annotation argument %s given twice", k)
						}
						a.Args[k] = v.Parts
						if a.Args[k] == nil {
							a.Args[k] = []Part{}
						}
					case 'i':
						a.Flag[k] = partsString(v.Parts)
					default:
						p.fail("annotation value %s", v)
					}
				} else {
					for p.peek().is(".") {
						p.next()
						p.ident("annotation argument")
					}
				}
				if p.peek().is(",") {
					p.next()
					if p.peek().is(")") {
						p.fail("annotation argument missing")
					}
					continue
				}
				if !p.peek().is(")") {
					p.fail("expected , or ) in annotation, found %s", p.peek())
				}
			}
			p.next()
		}
		as = append(as, a)
	}
	return as
}

func (p *declParser) javaDecl() {
	p.d.Kind = "struct"
	p.d.Annots = p.javaAnnots()
	p.expect("public")
	p.expect("class")
	p.d.Name = p.ident("class name")
	if p.peek().is("extends") {
		p.next()
		p.d.Extends = p.genType()
	}
	p.expect("{")
	for !p.peek().is("}") {
		m := &Member{}
		m.Annots = p.javaAnnots()
		t := p.peek()
		if t.is("protected") || t.is("public") || t.is("private") {
			p.next()
		}
		m.Type = p.genType()
		m.Name = p.ident("field name")
		p.expect(";")
		p.d.Members = append(p.d.Members, m)
	}
	p.next()
}

// ---- Rust

func (p *declParser) rustAttrs() []Annot {
	var as []Annot
	for p.peek().is("#") {
		p.next()
		p.expect("[")
		a := Annot{Args: map[string][]Part{}, Flag: map[string]string{}}
		a.Name = partsString(p.ident("attribute"))
		if p.peek().is("(") {
			p.next()
			for !p.peek().is(")") {
				k := partsString(p.ident("attribute argument"))
				if p.peek().is("=") {
					p.next()
					v := p.next()
					if v.Kind != 's' || v.Q != '"' {
						p.fail("attribute value %s", v)
					}
					a.Args[k] = v.Parts
				} else {
					a.Flag[k] = "true"
				}
				if p.peek().is(",") {
					p.next()
				} else if !p.peek().is(")") {
					p.fail("expected , or ) in attribute, found %s", p.peek())
				}
			}
			p.next()
		}
		p.expect("]")
		as = append(as, a)
	}
	return as
}

func (p *declParser) rustDecl() {
	p.d.Annots = p.rustAttrs()
	p.expect("pub")
	p.expect("struct")
	p.d.Kind = "struct"
	p.d.Name = p.ident("struct name")
	p.expect("{")
	for !p.peek().is("}") {
		m := &Member{}
		m.Annots = p.rustAttrs()
		p.expect("pub")
		m.Name = p.ident("field name")
		p.expect(":")
		m.Type = p.genType()
		p.expect(",")
		p.d.Members = append(p.d.Members, m)
	}
	p.next()
}

// ---- TypeScript

func (p *declParser) tsDecl() {
	p.expect("export")
	k := p.next()
	switch {
	case k.is("type"):
		p.d.Kind = "alias"
		p.d.Name = p.ident("type name")
		p.expect("=")
		p.d.Type = p.genType()
		p.expect(";")
	case k.is("class"), k.is("interface"):
		p.d.Kind = "struct"
		p.d.Name = p.ident("class name")
		if p.peek().is("extends") {
			p.next()
			p.d.Extends = p.genType()
		}
		p.expect("{")
		for !p.peek().is("}") {
			m := &Member{}
			m.Name = p.ident("property name")
			if p.peek().is("?") {
				p.next()
				m.Optional = true
			}
			p.expect(":")
			m.Type = p.genType()
			for p.peek().is("|") {
				p.next()
				p.expect("null")
				m.Optional = true
			}
			p.expect(";")
			p.d.Members = append(p.d.Members, m)
		}
		p.next()
	case k.is("enum"):
		p.d.Kind = "enum"
		p.d.Name = p.ident("enum name")
		p.expect("{")
		for !p.peek().is("}") {
			m := &Member{}
			m.Name = p.ident("enum entry")
			if p.peek().is("=") {
				p.next()
				v := p.next()
				if v.Kind != 's' && v.Kind != 'i' {
					p.fail("enum value %s", v)
				}
				m.Value = v.Parts
				m.Quoted = v.Kind == 's'
			}
			p.d.Members = append(p.d.Members, m)
			if !p.peek().is("}") {
				p.expect(",")
			}
		}
		p.next()
	default:
		p.fail("expected type, class or enum, found %s", k)
	}
}

// optional reports whether the member carries its language's optional form.
func (m *Member) optional(lang string) bool {
	switch lang {
	case "Go":
		return strings.Contains(tagText(m.Tag), ",omitempty")
	case "C":
		for _, c := range m.Comment {
			if strings.Contains(partsString(c), "optional") {
				return true
			}
		}
		return false
	case "Java":
		for _, a := range m.Annots {
			if a.Name == "XmlAttribute" || a.Name == "XmlElement" {
				return a.Flag["required"] != "true"
			}
		}
		return true
	case "Rust":
		return m.Type.count("opt", true) > 0
	case "TypeScript":
		return m.Optional
	}
	return false
}

func tagText(ps []Part) string { return partsString(ps) }
