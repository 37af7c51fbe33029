package main

// Rules over the constant tables, the resolution of type names, and the
// dispatch to the generators: C01, C02, C03, C21.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C01", "For every built-in data type of XML Schema part 2, with and without prefix, and for each language, the summary of Options.GetValueType is evaluated; the resulting spelling must be in the table of built-in types the language's generator consults, have the data type's kind and, for fixed-width integers, its range, and resolve to itself.", ruleC01)
	register("C02", "The accepted languages are computed from the partitions of main; for each, the partitions of Parse must dispatch to a generator method that exists, whose partitions dispatch to emitters of that language only and create a file with that language's extension.", ruleC02)
	register("C03", "Each generator's partitions must loop over the whole parse result once, in order, dispatching every non-nil entry to the emitter of its own kind exactly once, and write text that contains everything emitted; each emitter must append exactly one declaration unless its path says the schema name was emitted before.", ruleC03)

}

// kinds of built-in data types
var xsdKind = map[string]string{}

func init() {
	set := func(k string, names ...string) {
		for _, n := range names {
			xsdKind[n] = k
		}
	}
	set("text", "string", "normalizedString", "token", "language", "Name", "NMTOKEN", "NCName", "ID", "IDREF", "ENTITY", "anyURI", "NOTATION", "xml:lang", "xml:space", "xml:base", "xml:id")
	set("qname", "QName")
	set("any", "anyType", "anySimpleType")
	set("texts", "NMTOKENS", "IDREFS", "ENTITIES")
	set("bool", "boolean")
	set("binary", "base64Binary", "hexBinary")
	set("float", "decimal", "float", "double")
	set("int", "integer", "nonPositiveInteger", "negativeInteger", "nonNegativeInteger", "positiveInteger", "long", "int", "short", "byte", "unsignedLong", "unsignedInt", "unsignedShort", "unsignedByte")
	set("date", "duration", "dateTime", "time", "date", "gYearMonth", "gYear", "gMonthDay", "gDay", "gMonth")
}

// intRange: signedness and width a data type needs; width 0 is unbounded.
var intRange = map[string][2]int{ // {signed, bits}
	"integer": {1, 0}, "nonPositiveInteger": {1, 0}, "negativeInteger": {1, 0}, "nonNegativeInteger": {0, 0}, "positiveInteger": {0, 0},
	"long": {1, 64}, "int": {1, 32}, "short": {1, 16}, "byte": {1, 8},
	"unsignedLong": {0, 64}, "unsignedInt": {0, 32}, "unsignedShort": {0, 16}, "unsignedByte": {0, 8},
}

// spellings: what the types of the target languages are.
// kind, and for integers signed/bits.
type spelling struct {
	kind         string
	signed, bits int
}

var spellings = map[string]map[string]spelling{
	"Go": {
		"string": {"text", 0, 0}, "[]string": {"texts", 0, 0}, "bool": {"bool", 0, 0}, "[]byte": {"binary", 0, 0}, "[]uint8": {"binary", 0, 0}, "xml.Name": {"qname", 0, 0}, "time.Time": {"date", 0, 0}, "interface{}": {"any", 0, 0},
		"float32": {"float", 0, 0}, "float64": {"float", 0, 0},
		"int": {"int", 1, 32}, "int8": {"int", 1, 8}, "int16": {"int", 1, 16}, "int32": {"int", 1, 32}, "int64": {"int", 1, 64}, "byte": {"int", 0, 8},
		"uint": {"int", 0, 32}, "uint8": {"int", 0, 8}, "uint16": {"int", 0, 16}, "uint32": {"int", 0, 32}, "uint64": {"int", 0, 64},
	},
	"TypeScript": {
		"string": {"text", 0, 0}, "Array<string>": {"texts", 0, 0}, "string[]": {"texts", 0, 0}, "boolean": {"bool", 0, 0}, "Uint8Array": {"binary", 0, 0}, "any": {"any", 0, 0}, "Date": {"date", 0, 0},
		"number": {"number", 1, 53}, "bigint": {"int", 1, 128},
	},
	"C": {
		"char": {"text", 0, 0}, "char[]": {"texts", 0, 0}, "bool": {"bool", 0, 0}, "_Bool": {"bool", 0, 0}, "float": {"float", 0, 0}, "double": {"float", 0, 0}, "long double": {"float", 0, 0},
		"signed char": {"int", 1, 8}, "short": {"int", 1, 16}, "int": {"int", 1, 32}, "long": {"int", 1, 64}, "long long": {"int", 1, 64},
		"unsigned char": {"int", 0, 8}, "unsigned short": {"int", 0, 16}, "unsigned int": {"int", 0, 32}, "unsigned": {"int", 0, 32}, "unsigned long": {"int", 0, 64}, "unsigned long long": {"int", 0, 64},
	},
	"Java": {
		"String": {"text", 0, 0}, "List<String>": {"texts", 0, 0}, "Boolean": {"bool", 0, 0}, "boolean": {"bool", 0, 0}, "List<Byte>": {"binary", 0, 0}, "byte[]": {"binary", 0, 0}, "Object": {"any", 0, 0}, "QName": {"qname", 0, 0},
		"Float": {"float", 0, 0}, "Double": {"float", 0, 0}, "float": {"float", 0, 0}, "double": {"float", 0, 0}, "BigDecimal": {"float", 0, 0},
		"Byte": {"int", 1, 8}, "Short": {"int", 1, 16}, "Integer": {"int", 1, 32}, "Long": {"int", 1, 64}, "BigInteger": {"int", 1, 128},
		"byte": {"int", 1, 8}, "short": {"int", 1, 16}, "int": {"int", 1, 32}, "long": {"int", 1, 64},
	},
	"Rust": {
		"String": {"text", 0, 0}, "Vec<String>": {"texts", 0, 0}, "bool": {"bool", 0, 0}, "Vec<u8>": {"binary", 0, 0}, "char": {"text", 0, 0},
		"f32": {"float", 0, 0}, "f64": {"float", 0, 0},
		"i8": {"int", 1, 8}, "i16": {"int", 1, 16}, "i32": {"int", 1, 32}, "i64": {"int", 1, 64}, "i128": {"int", 1, 128}, "isize": {"int", 1, 64},
		"u8": {"int", 0, 8}, "u16": {"int", 0, 16}, "u32": {"int", 0, 32}, "u64": {"int", 0, 64}, "u128": {"int", 0, 128}, "usize": {"int", 0, 64},
	},
}

// fits: may a data type of kind k be represented by a type of kind s?
func kindFits(lang, k, s string) bool {
	if k == s {
		return true
	}
	switch k {
	case "date":
		return s == "text"
	case "qname":
		return s == "text" || s == "any"
	case "any":
		return s == "text"
	case "binary":
		return s == "text" || lang == "C" && s == "texts" // char[]
	case "float", "int":
		return s == "number"
	}
	return false
}

func (s spelling) holds(signed, bits int) bool {
	if bits == 0 {
		return signed == 0 || s.signed == 1
	}
	if s.signed == signed {
		return s.bits >= bits
	}
	return s.signed == 1 && s.bits > bits
}

func ruleC01(an *Analyzer, r *Report) {
	r.rule("kind of the spelling = kind of the data type; range of a fixed-width integer included in the range of the spelling")
	r.rule("every emitter writes the spelling as it is, below at most the sequence and optional forms of the language")
	r.rule("prefix, no prefix and any other prefix resolve alike; resolving the spelling again yields the spelling")
	gvt := an.byRole["GetValueType"]
	if gvt == nil {
		r.violate("anchor", "GetValueType", "", "no function resolves type references")
		return
	}
	for _, lang := range langs {
		an.builtinEmission(r, lang)
		names := append(append([]string{}, xsdNames...), "xml:lang", "xml:space", "xml:base", "xml:id")
		for _, n := range names {
			isXML := strings.HasPrefix(n, "xml:")
			q := "xs:" + n
			if isXML {
				q = n
			}
			construct := lang + "/" + n
			s, where, err := an.resolveBuiltin(q, lang)
			r.count("resolutions", 1)
			if where == "" {
				where = an.pos(gvt.Pos())
			}
			if isXML && (err != "" || s == strings.TrimPrefix(n, "xml:")) {
				continue // not one of the data types
			}
			if _, known := spellings[lang][s]; err != "" || s == n && !known {
				r.violate("resolved", construct, where, "a reference to %s in %s is not resolved as a built-in type: %s %s", q, lang, s, err)
				continue
			}
			if !isXML {
				for _, p := range []string{"", "xsd:", "x:"} {
					if s2, w, e := an.resolveBuiltin(p+n, lang); e != "" || s2 != s {
						r.violate("prefix", construct, w, "%q resolves to %q but %q to %q %s", q, s, p+n, s2, e)
					}
				}
			}
			if sp, ok := spellings[lang][s]; !ok {
				r.undecided("%s: kind of %q unknown", construct, s)
			} else {
				k := xsdKind[n]
				if !kindFits(lang, k, sp.kind) {
					r.violate("kind", construct, where, "%s (%s) resolves to %q (%s)", q, k, s, sp.kind)
				} else if rg, ok := intRange[n]; ok && !sp.holds(rg[0], rg[1]) {
					r.violate("range", construct, where, "%s resolves to %q, which cannot hold all its values", q, s)
				}
			}
			if again, w, e := an.resolveBuiltin(s, lang); e == "" {
				r.count("idempotence", 1)
				if again != s {
					r.violate("idempotent", construct, w, "%s resolves to %q, which itself resolves to %q", q, s, again)
				}
			} else if an.inResolver(s, lang) {
				r.violate("idempotent", construct, w, "%s resolves to %q, whose resolution %s", q, s, e)
			}
		}
	}
	r.require(r.Counts["resolutions"], "built-in resolutions")
}

// builtinEmission: the emitters write built-in spellings as they are.
func (an *Analyzer) builtinEmission(r *Report, lang string) {
	for _, e := range an.emitters() {
		if e.Lang != lang || !r.usable(e) {
			continue
		}
		for _, in := range e.Insts {
			if in.Rep == nil || in.Err != nil || in.Base == nil || in.Base.Err != nil {
				continue
			}
			c := an.child(e, in.Rep)
			if c == nil || c.Field == "Restriction.Enum" {
				continue
			}
			_, val := in.childValue(c)
			if val == nil || val == tEmpty {
				continue
			}
			s, ok := val.str()
			if !ok {
				continue
			}
			ms, _ := in.added()
			for _, m := range ms {
				r.count("emissions", 1)
				if got := typeText(m.Type, lang); !wraps(lang, got, s) {
					r.violate("built in", e.place(c)+"/"+s, an.exitPos(e, in.Exit), "a member in %s of the built-in type %s is generated with type %s", c.Field, s, got)
				}
			}
		}
	}
}

// wraps: text is the built-in spelling s below sequence and optional forms.
func wraps(lang, text, s string) bool {
	sq := func(x string) string { return strings.ReplaceAll(x, " ", "") }
	text, s = sq(text), sq(s)
	if lang == "C" {
		return strings.TrimSuffix(text, "[]") == strings.TrimSuffix(s, "[]")
	}
	for {
		if text == s {
			return true
		}
		n := text
		switch lang {
		case "Go":
			n = strings.TrimPrefix(text, "[]")
		case "TypeScript":
			n = strings.TrimSuffix(text, "|null")
			n = strings.TrimSuffix(n, "|undefined")
			if n == text {
				n = strings.TrimSuffix(n, "[]")
			}
			fallthrough
		default:
			for _, w := range []string{"List<", "Vec<", "Option<", "Array<", "Optional<", "Box<"} {
				if n == text && strings.HasPrefix(text, w) && strings.HasSuffix(text, ">") {
					n = text[len(w) : len(text)-1]
				}
			}
		}
		if n == text {
			return false
		}
		text = n
	}
}

// inResolver: is the spelling itself a key of the resolver's table?
func (an *Analyzer) inResolver(s, lang string) bool {
	exits, f, e := an.valueTypeExits()
	if e != nil {
		return false
	}
	opt := sym(f.Params[0].Name(), f.Params[0].Type())
	st := &State{heap: map[*Term]*Term{}, facts: newFacts(), an: an}
	langT := st.load(fieldAddr(opt, "Lang"), types.Typ[types.String])
	c := an.newConc().with(langT, cs(lang)).with(sym(f.Params[1].Name(), f.Params[1].Type()), cs(s))
	for i := range exits {
		all := true
		for _, l := range exits[i].St.path {
			if c.lit(l) != 1 {
				all = false
			}
		}
		if all {
			return true
		}
	}
	return false
}

// ---- dispatch

// succeeds: the exit may report success.
func (an *Analyzer) succeeds(x *Exit) bool {
	if x.Kind != "return" {
		return false
	}
	for _, v := range x.Res {
		if v.T != nil && isErrorType(v.T) || v == tNil {
			if v == tNil {
				continue
			}
			if x.St.facts.known(mkEq(v, tNil)) == 0 {
				return false
			}
		}
	}
	return true
}

// dispatch describes one call that selects a method by a computed name or a
// direct call of an emitter or generator.
type dispatch struct {
	name string // name of the method, "" when it depends on the type of an element
	lang string // constant part before the type name
	elem *Term  // the entry whose type name completes the method's name
	ev   *Event
	bad  string
}

// typeNameOf: t is the name of the type elem points to.
func typeNameOf(t *Term) *Term {
	typ := func(x *Term) *Term {
		if x.Op == OpApp && x.S == "reflect.TypeOf" {
			return x.Args[0]
		}
		if x.Op == OpApp && strings.HasSuffix(x.S, ".Type") && len(x.Args) == 1 && x.Args[0].Op == OpApp && x.Args[0].S == "reflect.ValueOf" {
			return x.Args[0].Args[0]
		}
		return nil
	}
	str := func(x *Term) *Term {
		if x.Op == OpApp && strings.HasSuffix(x.S, ".String") && len(x.Args) == 1 {
			return typ(x.Args[0])
		}
		return nil
	}
	switch {
	case t.Op == OpApp && strings.HasSuffix(t.S, ".Name") && len(t.Args) == 1:
		x := t.Args[0]
		if x.Op == OpApp && strings.HasSuffix(x.S, ".Elem") && len(x.Args) == 1 {
			return typ(x.Args[0])
		}
		if x.Op == OpApp && strings.HasSuffix(x.S, ".Type") && len(x.Args) == 1 {
			x = x.Args[0]
			if x.Op == OpApp && strings.HasSuffix(x.S, "Indirect") && x.Args[0].Op == OpApp && x.Args[0].S == "reflect.ValueOf" {
				return x.Args[0].Args[0]
			}
		}
	case t.Op == OpSub:
		if lo, ok := t.Args[1].num(); ok && lo == int64(len("*xgen.")) && t.Args[2] == mkLen(t.Args[0]) {
			return str(t.Args[0])
		}
	case t.Op == OpApp && t.S == "strings.TrimPrefix":
		if s, ok := t.Args[1].str(); ok && s == "*xgen." {
			return str(t.Args[0])
		}
	}
	return nil
}

// dispatchOf recognises a dispatch; nil when the event is none.
func (an *Analyzer) dispatchOf(ev *Event, c *conc) *dispatch {
	if ev.Kind != "call" {
		return nil
	}
	for _, p := range []string{"xgen.emit:", "xgen.gen:"} {
		if strings.HasPrefix(ev.Fn, p) {
			d := &dispatch{name: strings.TrimPrefix(ev.Fn, p), ev: ev}
			return d
		}
	}
	if ev.Fn != "xgen.callFuncByName" || len(ev.Args) < 2 {
		return nil
	}
	n := ev.Args[1]
	if c != nil {
		n = c.eval(n)
	}
	d := &dispatch{ev: ev}
	if s, ok := n.str(); ok {
		d.name = s
		return d
	}
	if n.Op == OpConcat && len(n.Args) == 2 {
		if s, ok := n.Args[0].str(); ok {
			d.lang = s
			if d.elem = typeNameOf(n.Args[1]); d.elem != nil {
				return d
			}
			d.bad = n.Args[1].String()
			return d
		}
	}
	d.bad = n.String()
	return d
}

// ---- C02

var extensions = map[string]string{"Go": ".go", "C": ".h", "Java": ".java", "Rust": ".rs", "TypeScript": ".ts"}

// flagTerm is the content of a command line flag in main's partitions.
func flagTerm(ex []Exit, name string) *Term {
	for i := range ex {
		for _, ev := range ex[i].St.events {
			if ev.Kind != "call" || !strings.HasPrefix(ev.Fn, "flag.") && !strings.Contains(ev.Fn, "flag.FlagSet") {
				continue
			}
			for k, a := range ev.Args {
				s, ok := a.str()
				if !ok || s != name || k > 2 {
					continue
				}
				if strings.HasSuffix(ev.Fn, "Var") {
					return mk(OpHavoc, ev.Site, 0, types.Typ[types.String], ev.Args[k-1])
				}
				return mk(OpDeref, "", 0, types.Typ[types.String], mk(OpRes, "", 0, nil, ev.Res))
			}
		}
	}
	return nil
}

func (an *Analyzer) mainExits() ([]Exit, error) {
	var main *ssa.Function
	for _, f := range an.funcs {
		if f.Name() == "main" && f.Pkg != nil && f.Pkg.Pkg.Name() == "main" && f.Parent() == nil {
			main = f
		}
	}
	if main == nil {
		return nil, fmt.Errorf("no main function")
	}
	return an.root(main)
}

// eachEvent visits the events of a partition, loop bodies included.
func eachEvent(evs []*Event, f func(e *Event, inLoop *Event)) {
	var rec func(es []*Event, l *Event)
	rec = func(es []*Event, l *Event) {
		for _, e := range es {
			f(e, l)
			for _, alt := range e.Alts {
				rec(alt, e)
			}
		}
	}
	rec(evs, nil)
}

func compatible(c *conc, path []Lit) bool {
	for _, l := range path {
		if c.lit(l) == 0 {
			return false
		}
	}
	return true
}

func ruleC02(an *Analyzer, r *Report) {
	r.rule("accepted languages = {Go, C, Java, Rust, TypeScript}")
	r.rule("each accepted language dispatches to its own generator, which dispatches to its own emitters and creates a file with its own extension")
	ex, err := an.mainExits()
	if err != nil {
		r.undecided("main: %v", err)
	} else {
		an.acceptedLangs(r, ex)
	}
	parse := an.byRole["Parse"]
	if parse == nil {
		r.violate("anchor", "Parse", "", "no method Parse")
		return
	}
	pex, err := an.root(parse)
	if err != nil {
		r.undecided("Parse: %v", err)
	} else {
		opt := sym(parse.Params[0].Name(), parse.Params[0].Type())
		st := &State{heap: map[*Term]*Term{}, facts: newFacts(), an: an}
		langT := st.load(fieldAddr(opt, "Lang"), types.Typ[types.String])
		extr := st.load(fieldAddr(opt, "Extract"), types.Typ[types.Bool])
		for _, lang := range langs {
			c := an.newConc().with(langT, cs(lang)).with(extr, tFalse)
			for i := range pex {
				x := &pex[i]
				if !an.succeeds(x) || !compatible(c, x.St.path) || !opened(x) {
					continue
				}
				r.count("parse_partitions", 1)
				var ds []*dispatch
				for _, ev := range x.St.events {
					if d := an.dispatchOf(ev, c); d != nil && ev.Snap != nil && ev.Snap["StructAST"] != nil {
						ds = append(ds, d)
					}
				}
				where := an.pos(x.Pos)
				if len(ds) != 1 {
					r.violate("dispatch", "Parse/"+lang, where, "%d generators are run for a schema in %s (%s)", len(ds), lang, pathString(x.St.path))
					continue
				}
				d := ds[0]
				if d.bad != "" {
					r.undecided("Parse: generator %s", d.bad)
					continue
				}
				if d.name != "Gen"+lang {
					r.violate("dispatch", "Parse/"+lang, an.pos(d.ev.Pos), "language %s runs %s", lang, d.name)
				}
				if an.method(an.genType, d.name) == nil {
					r.violate("dispatch", "Parse/"+lang, an.pos(d.ev.Pos), "no method %s of CodeGenerator", d.name)
				}
			}
		}
		r.require(r.Counts["parse_partitions"], "successful partition of Parse")
	}
	for _, lang := range langs {
		fn := an.method(an.genType, "Gen"+lang)
		if fn == nil {
			r.violate("generator", "Gen"+lang, "", "no generator for %s", lang)
			continue
		}
		gx, err := an.root(fn)
		if err != nil {
			r.undecided("Gen%s: %v", lang, err)
			continue
		}
		gen := sym(fn.Params[0].Name(), fn.Params[0].Type())
		st := &State{heap: map[*Term]*Term{}, facts: newFacts(), an: an}
		file := st.load(fieldAddr(gen, "File"), types.Typ[types.String])
		ext := extensions[lang]
		for i := range gx {
			x := &gx[i]
			eachEvent(x.St.events, func(ev *Event, _ *Event) {
				if d := an.dispatchOf(ev, nil); d != nil && d.bad == "" {
					p := d.lang
					if d.name != "" {
						p = strings.TrimSuffix(d.name, kindSuffix(d.name))
					}
					r.count("emitter_dispatches", 1)
					if p != lang {
						r.violate("emitters", "Gen"+lang, an.pos(ev.Pos), "%s generator runs emitters of %q", lang, p)
					}
				}
			})
			for _, in := range []string{"out/a.xsd", "out/a" + ext, "out/a.b.xsd"} {
				c := an.newConc().with(file, cs(in))
				if !compatible(c, x.St.path) {
					continue
				}
				want := in
				if !strings.HasSuffix(in, ext) {
					want += ext
				}
				for _, ev := range x.St.events {
					if ev.Kind != "call" || !createsFile(ev.Fn) {
						continue
					}
					p := c.eval(ev.Args[0])
					r.count("paths", 1)
					s, ok := p.str()
					if !ok {
						r.undecided("Gen%s: path %s", lang, p)
					} else if s != want {
						r.violate("extension", "Gen"+lang, an.pos(ev.Pos), "code for %s in %s is written to %s instead of %s", in, lang, s, want)
					}
				}
			}
		}
	}
	for _, e := range an.emitters() {
		if e.err != "" && strings.HasPrefix(e.err, "no method") {
			r.violate("emitter", e.name(), "", "there is no emitter for %s in %s", e.Kind, e.Lang)
		}
	}
	r.require(r.Counts["emitter_dispatches"], "dispatch to an emitter")
	r.require(r.Counts["paths"], "output file")
}

func kindSuffix(n string) string {
	best := ""
	for _, k := range nodeKinds {
		if strings.HasSuffix(n, k) && len(k) > len(best) {
			best = k
		}
	}
	return best
}

func createsFile(fn string) bool {
	return fn == "os.Create" || fn == "os.OpenFile" || fn == "os.WriteFile" || fn == "io/ioutil.WriteFile"
}

// opened: the partition has opened the schema file.
func opened(x *Exit) bool {
	for _, ev := range x.St.events {
		if ev.Kind == "call" && (ev.Fn == "os.Open" || ev.Fn == "os.ReadFile" || ev.Fn == "io/ioutil.ReadFile" || ev.Fn == "os.OpenFile") {
			return true
		}
	}
	return false
}

func (an *Analyzer) acceptedLangs(r *Report, ex []Exit) {
	l := flagTerm(ex, "l")
	if l == nil {
		r.undecided("main: no flag for the language")
		return
	}
	seen := false
	cands := map[string]bool{"": true, "go": true, "Python": true, "C++": true, "golang": true, "typescript": true, "c": true}
	for _, n := range langs {
		cands[n] = true
	}
	for t, tb := range tables {
		if strings.HasPrefix(t.S, "table:main.") {
			for _, k := range tb.Keys {
				if s, ok := k.str(); ok {
					cands[s] = true
				}
			}
		}
	}
	for i := range ex {
		for _, lt := range ex[i].St.path {
			if contains(lt.A, l) {
				seen = true
				walkTerm(lt.A, func(x *Term) bool {
					if s, ok := x.str(); ok && len(s) < 30 {
						cands[s] = true
					}
					return true
				})
			}
		}
	}
	if !seen {
		r.violate("accepted", "main", "", "the language given on the command line is not checked")
		return
	}
	for _, s := range sortedKeys(cands) {
		c := an.newConc().with(l, cs(s))
		acc := false
		where := ""
		for i := range ex {
			if !compatible(c, ex[i].St.path) {
				continue
			}
			eachEvent(ex[i].St.events, func(e *Event, _ *Event) {
				if e.Kind == "call" && e.Fn == "xgen.Parse" {
					acc = true
					where = an.pos(e.Pos)
				}
			})
		}
		r.count("languages_tried", 1)
		if acc != has(langs, s) {
			if acc {
				r.violate("accepted", "main/"+s, where, "language %q is accepted but has no generator", s)
			} else {
				r.violate("accepted", "main/"+s, "", "language %q is not accepted", s)
			}
		}
	}
}

// ---- C03

func ruleC03(an *Analyzer, r *Report) {
	r.rule("emitters: one declaration appended to the text so far, unless the path says the schema name was emitted")
	r.rule("generators: one full forward loop over the parse result; one dispatch per entry, to the emitter of the entry's kind with that entry")
	r.rule("generators: the text written to the file contains the final text exactly once")
	r.rule("Parse hands the whole parse result to the generator")
	for _, e := range an.emitters() {
		if e.err != "" && strings.HasPrefix(e.err, "no method") {
			r.violate("emitter", e.name(), "", "there is no emitter for %s in %s", e.Kind, e.Lang)
			continue
		}
		if !r.usable(e) {
			continue
		}
		name := an.declField(e, "Name")
		for _, o := range e.Odd {
			r.violate("appended", e.name(), an.pos(e.fn.Pos()), "%s", o)
		}
		for _, i := range e.Silent {
			r.count("silent_partitions", 1)
			if !emittedBefore(&e.exits[i], name) {
				r.violate("emitted", e.name(), an.exitPos(e, i), "nothing is emitted although the name was not emitted before: %s", pathString(e.exits[i].St.path))
			}
		}
		for i := range e.exits {
			x := &e.exits[i]
			if x.Kind == "panic" || x.Kind == "exit" {
				r.violate("emitted", e.name(), an.pos(x.Pos), "emission ends the program")
			}
			eachEvent(x.St.events, func(ev *Event, _ *Event) {
				if ev.Kind == "mapput" && isStructAST(ev.Args[0]) && ev.Args[1] != name {
					r.violate("recorded name", e.name(), an.pos(ev.Pos), "a declaration is recorded as emitted under %s", ev.Args[1])
				}
				if ev.Kind == "mapput" && isStructAST(ev.Args[0]) {
					r.count("records", 1)
				}
			})
		}
		for _, in := range e.Insts {
			if in.Rep != nil || in.Err != nil {
				continue
			}
			r.count("emitting_instances", 1)
			if len(in.Decls) != 1 {
				r.violate("one declaration", e.name(), an.exitPos(e, in.Exit), "%d declarations are emitted for one (%s)", len(in.Decls), in.desc())
			}
		}
	}
	for _, lang := range langs {
		an.generatorLoop(r, lang)
	}
	r.require(r.Counts["generator_partitions"], "generator")
	an.generatorInput(r)
	an.dispatcherBody(r)
}

func isStructAST(m *Term) bool {
	for m.Op == OpMapPut {
		m = m.Args[0]
	}
	m = stripMap(m)
	return m.Op == OpField && m.S == "StructAST" || strings.HasSuffix(m.String(), ".StructAST")
}

// emittedBefore: the path knows that the schema name is in the record of
// emitted declarations.
func emittedBefore(x *Exit, name *Term) bool {
	for _, l := range x.St.path {
		a := l.A
		switch {
		case a.Op == OpLookupOk && l.V && isStructAST(a.Args[0]) && a.Args[1] == name:
			return true
		case a.Op == OpEq && !l.V:
			for i := 0; i < 2; i++ {
				if y := a.Args[i]; y.Op == OpLookup && isStructAST(y.Args[0]) && y.Args[1] == name && a.Args[1-i] == tEmpty {
					return true
				}
			}
		}
	}
	return false
}

func (an *Analyzer) generatorLoop(r *Report, lang string) {
	fn := an.method(an.genType, "Gen"+lang)
	what := "Gen" + lang
	if fn == nil {
		r.violate("generator", what, "", "no generator for %s", lang)
		return
	}
	ex, err := an.root(fn)
	if err != nil {
		r.undecided("%s: %v", what, err)
		return
	}
	gen := sym(fn.Params[0].Name(), fn.Params[0].Type())
	st := &State{heap: map[*Term]*Term{}, facts: newFacts(), an: an}
	tree := st.load(fieldAddr(gen, "ProtoTree"), fieldType(an.genType, "ProtoTree"))
	for i := range ex {
		x := &ex[i]
		if !an.succeeds(x) {
			continue
		}
		where := an.pos(x.Pos)
		r.count("generator_partitions", 1)
		n := 0
		for _, ev := range x.St.events {
			if d := an.dispatchOf(ev, nil); d != nil {
				r.violate("loop", what, an.pos(ev.Pos), "an emitter is run outside the loop over the parse result")
			}
			if ev.Kind != "loop" {
				continue
			}
			any := false
			for _, alt := range ev.Alts {
				for _, y := range alt {
					if an.dispatchOf(y, nil) != nil {
						any = true
					}
					eachEvent([]*Event{y}, func(z *Event, l *Event) {
						if l != nil && an.dispatchOf(z, nil) != nil {
							r.violate("loop", what, an.pos(z.Pos), "emitters are run in a nested loop")
						}
					})
				}
			}
			if !any {
				continue
			}
			n++
			li := ev.Loop
			if li.Over != tree {
				r.violate("loop", what, where, "the loop runs over %s instead of the parse result", showTerm(li.Over))
				continue
			}
			if !li.Full || li.Order != "" && li.Order != "forward" {
				r.violate("whole result", what, an.pos(li.Pos), "the loop does not cover the whole parse result in order")
			}
			if li.HasEarlyExit && cutLoop(ev, x) {
				r.violate("whole result", what, an.pos(li.Pos), "the loop over the parse result can stop early and report success")
			}
			for k, alt := range ev.Alts {
				an.generatorAlt(r, lang, what, li, ev.Guard[k], alt)
			}
		}
		if n != 1 {
			r.violate("whole result", what, where, "%d loops run the emitters over the parse result", n)
		}
		// the text
		fld := x.St.heap[fieldAddr(gen, "Field")]
		if fld == nil {
			fld = st.load(fieldAddr(gen, "Field"), types.Typ[types.String])
		}
		w := 0
		for _, ev := range x.St.events {
			if ev.Kind != "call" || ev.Fn != "write" && !strings.HasSuffix(ev.Fn, "WriteFile") {
				continue
			}
			t := ev.Args[1]
			if c := countTerm(t, fld); c == 1 {
				w++
			} else if c > 1 {
				r.violate("written", what, an.pos(ev.Pos), "the generated text is written %d times", c)
			}
		}
		if w != 1 {
			r.violate("written", what, where, "a successful run writes the generated text %d times", w)
		}
	}
}

func showTerm(t *Term) string {
	if t == nil {
		return "something else"
	}
	return fmt.Sprintf("%.120s", t)
}

// cutLoop: the partition left the loop before its end.
func cutLoop(ev *Event, x *Exit) bool { return cutIn(ev, x.St.path) }

// cutIn: under these conditions the loop was left early.
func cutIn(ev *Event, path []Lit) bool {
	// a partition that left early still holds the loop's condition
	for _, l := range path {
		if l.V && l.A.Op == OpLt && l.A.Args[0].Op == OpIter && l.A.Args[0].S == ev.Loop.ID {
			return true
		}
	}
	return false
}

// countTerm counts occurrences of x in t (as text).
func countTerm(t, x *Term) int {
	if t == x {
		return 1
	}
	if t.Op == OpConcat || t.Op == OpConv || t.Op == OpRes || t.Op == OpCall || t.Op == OpApp || t.Op == OpListLit || t.Op == OpIface {
		n := 0
		for _, a := range t.Args {
			n += countTerm(a, x)
		}
		return n
	}
	return 0
}

func (an *Analyzer) generatorAlt(r *Report, lang, what string, li *LoopInfo, guard []Lit, alt []*Event) {
	elem := mkElem(li.Over, mk(OpIter, li.ID, 0, nil), nil)
	var ds []*dispatch
	for _, y := range alt {
		if d := an.dispatchOf(y, nil); d != nil {
			ds = append(ds, d)
		}
	}
	isNil := false
	kind := ""
	notKinds := 0
	for _, g := range guard {
		if g.A.Op == OpEq && g.V && (g.A.Args[0] == elem && g.A.Args[1] == tNil || g.A.Args[1] == elem && g.A.Args[0] == tNil) {
			isNil = true
		}
		if g.A.Op == OpTypeIs && g.A.Args[0] == elem {
			if p, ok := g.A.T.(*types.Pointer); ok {
				if n, ok := p.Elem().(*types.Named); ok {
					if g.V {
						kind = n.Obj().Name()
					} else {
						notKinds++
					}
				}
			}
		}
	}
	where := an.pos(li.Pos)
	r.count("loop_cases", 1)
	if len(ds) == 0 {
		if isNil {
			return
		}
		if kind == "" && notKinds >= len(nodeKinds) {
			return // an entry of none of the six kinds
		}
		r.violate("every entry", what, where, "an entry of the parse result is skipped when %s", pathString(guard))
		return
	}
	if len(ds) > 1 {
		r.violate("every entry", what, where, "an entry of the parse result is emitted %d times when %s", len(ds), pathString(guard))
		return
	}
	d := ds[0]
	switch {
	case d.bad != "":
		r.undecided("%s: emitter named %s", what, d.bad)
	case d.name != "":
		if d.name != lang+kind {
			r.violate("own emitter", what+"/"+kind, an.pos(d.ev.Pos), "an entry of kind %q is given to %s", kind, d.name)
		} else if len(d.ev.Args) < 2 || !contains(d.ev.Args[len(d.ev.Args)-1], elem) {
			r.violate("own emitter", what+"/"+kind, an.pos(d.ev.Pos), "%s is not given the entry of the parse result", d.name)
		}
	default:
		if d.lang != lang {
			r.violate("own emitter", what, an.pos(d.ev.Pos), "entries are given to %s emitters", d.lang)
		}
		if d.elem != elem {
			r.violate("own emitter", what, an.pos(d.ev.Pos), "the emitter is chosen by the type of %s instead of the entry", showTerm(d.elem))
		}
		if len(d.ev.Args) < 3 || !isSingleValue(d.ev.Args[2], elem) {
			r.violate("own emitter", what, an.pos(d.ev.Pos), "the emitter is called with %s instead of the entry", showTerm(d.ev.Args[len(d.ev.Args)-1]))
		}
		g := stripIface(d.ev.Args[0])
		if !an.isGenPtr(g) {
			r.violate("own emitter", what, an.pos(d.ev.Pos), "the emitter is looked up on %s", showTerm(g))
		}
	}
}

func stripIface(t *Term) *Term {
	for t.Op == OpIface {
		t = t.Args[0]
	}
	return t
}

func isSingleValue(t, elem *Term) bool {
	if t.Op != OpListLit || len(t.Args) != 1 {
		return false
	}
	x := t.Args[0]
	return x.Op == OpApp && x.S == "reflect.ValueOf" && x.Args[0] == elem
}

// generatorInput: Parse gives the generator its whole parse result.
func (an *Analyzer) generatorInput(r *Report) {
	parse := an.byRole["Parse"]
	if parse == nil {
		r.violate("anchor", "Parse", "", "no method Parse")
		return
	}
	ex, err := an.root(parse)
	if err != nil {
		r.undecided("Parse: %v", err)
		return
	}
	opt := sym(parse.Params[0].Name(), parse.Params[0].Type())
	for i := range ex {
		x := &ex[i]
		for _, ev := range x.St.events {
			if d := an.dispatchOf(ev, nil); d == nil || ev.Snap == nil || ev.Snap["StructAST"] == nil {
				continue
			}
			r.count("generator_inputs", 1)
			want := x.St.heap[fieldAddr(opt, "ProtoTree")]
			if got := ev.Snap["ProtoTree"]; want == nil || got != want {
				r.violate("generator input", "Parse", an.pos(ev.Pos), "the generator is given %s instead of the parse result", showTerm(got))
			}
			if f := ev.Snap["Field"]; f != tEmpty {
				r.violate("generator input", "Parse", an.pos(ev.Pos), "the generator starts with text %s", showTerm(f))
			}
			ast := ev.Snap["StructAST"]
			if ast.Op == OpNil {
				r.violate("generator input", "Parse", an.pos(ev.Pos), "the generator has no record of emitted declarations")
			} else if ast.Op != OpObj {
				r.violate("generator input", "Parse", an.pos(ev.Pos), "the generator starts with the record of emitted declarations %s", showTerm(ast))
			}
		}
	}
	r.require(r.Counts["generator_inputs"], "generator run by Parse")
}

// dispatcherBody: calls by name reach the method of that name.
func (an *Analyzer) dispatcherBody(r *Report) {
	fn := an.byRole["callFuncByName"]
	if fn == nil {
		return
	}
	ex, err := an.root(fn)
	if err != nil {
		r.undecided("%s: %v", fn.Name(), err)
		return
	}
	if len(fn.Params) != 3 {
		return
	}
	recv, name, args := sym(fn.Params[0].Name(), fn.Params[0].Type()), sym(fn.Params[1].Name(), fn.Params[1].Type()), sym(fn.Params[2].Name(), fn.Params[2].Type())
	calls := 0
	for i := range ex {
		var c []*Event
		for _, ev := range ex[i].St.events {
			if ev.Kind == "call" && ev.Fn == "(reflect.Value).Call" {
				c = append(c, ev)
			}
		}
		if len(c) == 0 {
			if an.succeeds(&ex[i]) && !knownUncallable(&ex[i], name, args) {
				r.violate("dispatcher", fn.Name(), an.pos(ex[i].Pos), "a call by name does nothing and reports success when %s", pathString(ex[i].St.path))
			}
			continue
		}
		calls++
		r.count("dispatcher_partitions", 1)
		m := c[0].Args[0]
		ok := len(c) == 1 && m.Op == OpApp && m.S == "(reflect.Value).MethodByName" && len(m.Args) == 2 && m.Args[1] == name && contains(m.Args[0], recv) && len(c[0].Args) > 1 && c[0].Args[1] == args
		if !ok {
			r.violate("dispatcher", fn.Name(), an.pos(c[0].Pos), "a call by name does not run exactly the method of that name with the given arguments")
		}
	}
	if calls == 0 {
		r.violate("dispatcher", fn.Name(), an.pos(fn.Pos()), "a call by name never runs a method")
	}
}

// knownUncallable: no such method, or one that does not take the arguments.
func knownUncallable(x *Exit, name, args *Term) bool {
	for _, l := range x.St.path {
		if l.V {
			continue
		}
		s := l.A.String()
		if !contains(l.A, name) {
			continue
		}
		if l.A.Op == OpApp && strings.HasSuffix(l.A.S, ".IsValid") || strings.Contains(s, "NumIn") || strings.Contains(s, "AssignableTo") {
			return true
		}
	}
	for _, l := range x.St.path {
		if l.V && contains(l.A, name) && (l.A.Op == OpEq && strings.Contains(l.A.String(), "reflect")) {
			return true
		}
	}
	return false
}
