package main

// C34: how the parser keeps the books on namespaces, imports and includes,
// and where it looks a reference up.

import (
	"fmt"
	"net/url"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C34", "The handlers of schema, import and include are evaluated for representative attribute lists and earlier contents of the maps, and must leave exactly the entries the declarations stand for; the test for remote locations is evaluated for representative locations; the path terms the resolver reads are evaluated for representative directories; Parse must set the directory first.", ruleC34)
}

// mapOf gives the entries of a map whose content is known.
func mapOf(t *Term) (map[string]*Term, bool) {
	out := map[string]*Term{}
	for t.Op == OpMapPut {
		k, ok := t.Args[1].str()
		if !ok {
			return nil, false
		}
		if out[k] == nil {
			out[k] = t.Args[2]
		}
		t = t.Args[0]
	}
	return out, t.Op == OpMapNew || t == tNil
}

func mapTerm(base *Term, m map[string]*Term) *Term {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		base = mk(OpMapPut, "", 0, base.T, base, cs(k), m[k])
	}
	return base
}

func showMap(m map[string]*Term) string {
	var o []string
	for k, v := range m {
		o = append(o, fmt.Sprintf("%q: %s", k, showTerm(v)))
	}
	sort.Strings(o)
	return "{" + strings.Join(o, ", ") + "}"
}

// remote is what the locations that are not files look like.
func remote(s string) bool {
	if _, err := url.ParseRequestURI(s); err != nil {
		return false
	}
	u, err := url.Parse(s)
	return err == nil && u.Scheme != "" && u.Host != ""
}

var refMaps = []string{"LocalNameNSMap", "NSSchemaLocationMap", "IncludeMap"}

const xmlNS = "http://www.w3.org/XML/1998/namespace"

// refAttr: space, local name, value
type refAttr [3]string

func showAttrs(as []refAttr) string {
	var o []string
	for _, a := range as {
		n := a[1]
		if a[0] != "" {
			n = a[0] + ":" + n
		}
		o = append(o, fmt.Sprintf("%s=%q", n, a[2]))
	}
	if o == nil {
		return "no attributes"
	}
	return strings.Join(o, " ")
}

// evalHandler runs the partitions of a handler of a start tag with the given
// attributes on maps with known contents.
func (an *Analyzer) refHandler(r *Report, name string, attrs []refAttr, before map[string]map[string]*Term, want func(got map[string]map[string]*Term) string) {
	for flags := 0; flags < 8; flags++ {
		an.refCase(r, name, flags, attrs, before, want)
	}
}

func (an *Analyzer) refCase(r *Report, name string, flags int, attrs []refAttr, before map[string]map[string]*Term, want func(got map[string]map[string]*Term) string) {
	f := an.method(an.optType, name)
	if f == nil {
		r.violate("anchor", name, "", "there is no %s", name)
		return
	}
	h, err := an.handlerOf(f)
	if err != nil {
		r.undecided("%s: %v", name, err)
		return
	}
	if h.recv == nil || h.ele == nil {
		r.undecided("%s: parameters", name)
		return
	}
	c := an.newConc()
	c.lists = true
	c.calls = an.handlerCall
	var kv [][2]string
	for _, a := range attrs {
		kv = append(kv, [2]string{a[0] + "\x00" + a[1], a[2]})
	}
	if !an.setAttrs(c, h, kv) {
		r.undecided("%s: attributes", name)
		return
	}
	c.m[an.initOf(h.recv, "FileDir")] = cs("in/sub")
	c.m[an.initOf(h.recv, "FilePath")] = cs("in/sub/a.xsd")
	c.m[an.initOf(h.recv, "InputDir")] = cs("in")
	for i, fld := range []string{"Extract", "InUnion", "InAttributeGroup"} {
		c.m[an.initOf(h.recv, fld)] = cb(flags>>uint(i)&1 == 1)
	}
	st := &State{heap: map[*Term]*Term{}, facts: newFacts(), an: an}
	for _, m := range refMaps {
		c.m[st.mapContent(an.initOf(h.recv, m))] = mapTerm(mk(OpMapNew, "given", 0, nil), before[m])
	}
	outs := an.simulate(h.exits, c)
	if len(outs) == 0 {
		r.undecided("%s with %s: no partition", name, showAttrs(attrs))
	}
	for _, o := range outs {
		r.count("reference_cases", 1)
		desc := name + " with " + showAttrs(attrs)
		if !o.ok() {
			if o.open == 0 {
				r.violate("recorded", name+"/error", an.pos(o.x.Pos), "%s is an error", desc)
			}
			continue
		}
		got := map[string]map[string]*Term{}
		bad := false
		for _, m := range refMaps {
			ref := o.x.St.load(fieldAddr(h.recv, m), an.optionsField(m))
			t := o.c.eval(o.x.St.mapContent(ref))
			g, ok := mapOf(t)
			if !ok {
				r.undecided("%s: %s is %s", desc, m, showTerm(t))
				bad = true
				break
			}
			got[m] = g
		}
		if bad {
			continue
		}
		if msg := want(got); msg != "" {
			if o.open > 0 {
				r.undecided("%s: %s, if %v", desc, msg, o.lits)
				continue
			}
			what := strings.Fields(msg)[0]
			r.violate("recorded", name+"/"+what, an.pos(o.x.Pos), "%s in %s leaves %s", desc, "in/sub/a.xsd", msg)
		}
	}
}

func diffMap(name string, got, want map[string]*Term) string {
	for k, v := range want {
		if got[k] != v {
			return fmt.Sprintf("%s as %s instead of %s", name, showMap(got), showMap(want))
		}
	}
	for k := range got {
		if want[k] == nil {
			return fmt.Sprintf("%s as %s instead of %s", name, showMap(got), showMap(want))
		}
	}
	return ""
}

func terms(kv ...string) map[string]*Term {
	m := map[string]*Term{}
	for i := 0; i+1 < len(kv); i += 2 {
		m[kv[i]] = cs(kv[i+1])
	}
	return m
}

func merge(a map[string]*Term, b map[string]*Term) map[string]*Term {
	m := map[string]*Term{}
	for k, v := range a {
		m[k] = v
	}
	for k, v := range b {
		m[k] = v
	}
	return m
}

func ruleC34(an *Analyzer, r *Report) {
	r.rule("schema: every xmlns:p=\"U\" is recorded as p -> U, xmlns=\"U\" as the namespace of names without prefix, xml as the XML namespace, and nothing else")
	r.rule("import: namespace -> schemaLocation, in either order of the attributes, unless there is one already or it is remote")
	r.rule("include: the directory of the including schema joined with schemaLocation, unless it is remote")
	r.rule("a location is remote if it is a URL with a scheme and a host")
	r.rule("the resolver reads the recorded location joined with the directory of the referring schema; Parse sets that directory before it reads")
	old := map[string]map[string]*Term{
		"LocalNameNSMap":      terms("old", "urn:old"),
		"NSSchemaLocationMap": terms("urn:old", "old.xsd"),
		"IncludeMap":          {"in/old.xsd": tTrue},
	}
	others := func(got, b map[string]map[string]*Term, except string) string {
		for _, m := range refMaps {
			if m != except {
				if d := diffMap(m, got[m], b[m]); d != "" {
					return d
				}
			}
		}
		return ""
	}
	// maps with as many entries as the code compares numbers with
	befores := func(f string) []map[string]map[string]*Term {
		bs := []map[string]map[string]*Term{{}, old}
		for _, n := range an.harvestOf(an.method(an.optType, f)).sizes(0, 1<<10) {
			if n < 2 {
				continue
			}
			b := map[string]map[string]*Term{"LocalNameNSMap": {}, "NSSchemaLocationMap": {}, "IncludeMap": {}}
			for i := 0; i < n; i++ {
				b["LocalNameNSMap"][fmt.Sprint("q", i)] = cs(fmt.Sprint("urn:q", i))
				b["NSSchemaLocationMap"][fmt.Sprint("urn:q", i)] = cs(fmt.Sprint("q", i, ".xsd"))
				b["IncludeMap"][fmt.Sprint("in/q", i, ".xsd")] = tTrue
			}
			bs = append(bs, b)
		}
		return bs
	}
	// schema
	many := []refAttr{{"", "targetNamespace", "urn:t"}}
	for i := 0; i < 9; i++ {
		many = append(many, refAttr{"xmlns", fmt.Sprintf("p%d", i), fmt.Sprintf("urn:%d", i)})
	}
	schemas := [][]refAttr{
		nil,
		{{"xmlns", "xs", "http://www.w3.org/2001/XMLSchema"}},
		{{"xmlns", "xs", "http://www.w3.org/2001/XMLSchema"}, {"", "targetNamespace", "urn:t"}, {"xmlns", "tns", "urn:t"}, {"", "elementFormDefault", "qualified"}},
		{{"", "version", "1"}, {"xmlns", "b", "urn:b"}, {"xmlns", "a", "urn:a"}, {"", "id", "x"}},
		{{"", "xmlns", "http://www.w3.org/2001/XMLSchema"}, {"xmlns", "tns", "urn:t"}},
		{{"xmlns", "tns", "urn:t"}, {"", "xmlns", "urn:d"}, {"xmlns", "q", "urn:t"}},
		{{"xmlns", "xmlns2", "urn:x"}, {"http://www.w3.org/2001/XMLSchema-instance", "schemaLocation", "urn:a a.xsd"}, {"xmlns", "namespace", "urn:n"}, {"xmlns", "schemaLocation", "urn:s"}},
		{{"xmlns", "old", "urn:new"}},
		many,
	}
	hv := an.harvestOf(an.method(an.optType, "OnSchema"))
	for _, n := range hv.sizes(0, 1<<10) {
		if n > 2 {
			var as []refAttr
			for i := 0; i < n; i++ {
				as = append(as, refAttr{"xmlns", fmt.Sprintf("p%d", i), fmt.Sprintf("urn:%d", i)})
			}
			schemas = append(schemas, as)
		}
	}
	for _, w := range hv.names(1 << 12) {
		if strings.HasPrefix(strings.ToLower(w), "xml") {
			continue // reserved: no prefix of this name can be declared
		}
		schemas = append(schemas, []refAttr{{"xmlns", w, "urn:w"}, {"xmlns", "v", w}, {"", w, "x"}, {"", "xmlns", w}})
	}
	for i, w := range an.namespaces("OnSchema") {
		schemas = append(schemas, []refAttr{{"xmlns", fmt.Sprint("v", i), w}}, []refAttr{{"", "xmlns", w}})
	}
	for _, as := range schemas {
		want := map[string]*Term{}
		for _, a := range as {
			if a[0] == "xmlns" {
				want[a[1]] = cs(a[2])
			} else if a[0] == "" && a[1] == "xmlns" {
				want[""] = cs(a[2])
			}
		}
		for _, b := range befores("OnSchema") {
			b := b
			an.refHandler(r, "OnSchema", as, b, func(got map[string]map[string]*Term) string {
				g := merge(got["LocalNameNSMap"], nil)
				w := merge(b["LocalNameNSMap"], want)
				w["xml"] = cs(xmlNS)
				if d := diffMap("LocalNameNSMap", g, w); d != "" {
					return d
				}
				return others(got, b, "LocalNameNSMap")
			})
		}
	}
	// import
	imports := [][]refAttr{
		nil,
		{{"", "namespace", "urn:b"}},
		{{"", "schemaLocation", "b.xsd"}},
		{{"", "namespace", "urn:b"}, {"", "schemaLocation", "b.xsd"}},
		{{"", "schemaLocation", "b.xsd"}, {"", "namespace", "urn:b"}},
		{{"", "id", "i"}, {"", "schemaLocation", "../c/b.xsd"}, {"", "id2", "j"}, {"", "namespace", "urn:b"}},
		{{"", "namespace", "urn:old"}, {"", "schemaLocation", "b.xsd"}},
		{{"", "schemaLocation", "b.xsd"}, {"", "namespace", "urn:old"}},
		{{"", "namespace", "http://example.com/ns"}, {"", "schemaLocation", "d/b.xsd"}},
		{{"", "namespace", "urn:b"}, {"", "schemaLocation", "http://example.com/b.xsd"}},
		{{"", "schemaLocation", "https://example.com/d/b.xsd"}, {"", "namespace", "urn:b"}},
	}
	for _, w := range an.harvestOf(an.method(an.optType, "OnImport")).names(1 << 12) {
		imports = append(imports, []refAttr{{"", "namespace", w}, {"", "schemaLocation", "d/" + w + ".xsd"}}, []refAttr{{"", "schemaLocation", w}, {"", "namespace", "urn:b"}})
	}
	for _, w := range an.namespaces("OnImport") {
		imports = append(imports, []refAttr{{"", "namespace", w}, {"", "schemaLocation", "d/b.xsd"}})
	}
	for _, w := range an.harvestOf(an.method(an.optType, "OnImport")).pathWords() {
		imports = append(imports, []refAttr{{"", "namespace", "urn:b"}, {"", "schemaLocation", "d/b" + w}}, []refAttr{{"", "namespace", "urn:b"}, {"", "schemaLocation", w + "b.xsd"}})
	}
	for _, as := range imports {
		ns, loc := "", ""
		for _, a := range as {
			switch a[1] {
			case "namespace":
				ns = a[2]
			case "schemaLocation":
				loc = a[2]
			}
		}
		for _, b := range befores("OnImport") {
			b := b
			an.refHandler(r, "OnImport", as, b, func(got map[string]map[string]*Term) string {
				w := merge(b["NSSchemaLocationMap"], nil)
				if w[ns] == nil && loc != "" && !remote(loc) {
					w[ns] = cs(loc)
				}
				if d := diffMap("NSSchemaLocationMap", got["NSSchemaLocationMap"], w); d != "" {
					return d
				}
				return others(got, b, "NSSchemaLocationMap")
			})
		}
	}
	// include
	includes := [][]refAttr{
		nil,
		{{"", "schemaLocation", "b.xsd"}},
		{{"", "schemaLocation", "./b.xsd"}},
		{{"", "schemaLocation", "../old.xsd"}},
		{{"", "schemaLocation", "../c/b.xsd"}, {"", "id", "i"}},
		{{"", "id", "i"}, {"", "schemaLocation", "d/e/b.xsd"}},
		{{"", "schemaLocation", "http://example.com/b.xsd"}},
		{{"", "schemaLocation", "https://example.com/d/b.xsd"}, {"", "id", "i"}},
	}
	for _, w := range an.harvestOf(an.method(an.optType, "OnInclude")).names(1 << 12) {
		includes = append(includes, []refAttr{{"", "schemaLocation", w}}, []refAttr{{"", "schemaLocation", "d/" + w + ".xsd"}})
	}
	for _, w := range an.harvestOf(an.method(an.optType, "OnInclude")).pathWords() {
		includes = append(includes, []refAttr{{"", "schemaLocation", "d/b" + w}}, []refAttr{{"", "schemaLocation", w + "b.xsd"}})
	}
	for _, as := range includes {
		loc := ""
		for _, a := range as {
			if a[1] == "schemaLocation" {
				loc = a[2]
			}
		}
		for _, b := range befores("OnInclude") {
			b := b
			an.refHandler(r, "OnInclude", as, b, func(got map[string]map[string]*Term) string {
				w := merge(b["IncludeMap"], nil)
				if loc != "" && !remote(loc) {
					w[filepath.Join("in/sub", loc)] = tTrue
				}
				if d := diffMap("IncludeMap", got["IncludeMap"], w); d != "" {
					return d
				}
				return others(got, b, "IncludeMap")
			})
		}
	}
	r.require(r.Counts["reference_cases"], "declaration of a reference")
	an.remoteLocations(r)
	an.readPaths(r)
	an.directory(r)
}

// namespaces gives names of namespaces: of different forms, and those that a
// handler compares with.
func (an *Analyzer) namespaces(handler string) []string {
	out := []string{xmlNS, "http://www.w3.org/2001/XMLSchema", "http://example.com/ns/", "http://Example.com/NS#", "HTTP://example.com/ns", "urn:b:C", "urn:b?x=1&y", "x", "http://example.com/a/../b.xsd", "http://example.com:80"}
	for _, w := range an.harvestOf(an.method(an.optType, handler)).strs {
		if strings.TrimSpace(w) == w {
			out = append(out, w, "urn:b"+w, w+"b")
		}
	}
	return out
}

func (an *Analyzer) remoteLocations(r *Report) {
	f := an.byRole["isValidURL"]
	if f == nil {
		return // written out where it is needed: evaluated with the handlers
	}
	an.inlineRole["isValidURL"] = true
	ex, err := an.root(f)
	an.inlineRole["isValidURL"] = false
	if err != nil {
		r.undecided("%s: %v", f.Name(), err)
		return
	}
	p := sym(f.Params[0].Name(), f.Params[0].Type())
	ins := []string{"", "a.xsd", "./a.xsd", "../a.xsd", "d/e/a.xsd", "/abs/a.xsd", "/", "a b.xsd", "urn:x:y", "a:b.xsd", "C:/x/a.xsd", "a.xsd#f", "//host/a.xsd",
		"http://example.com/a.xsd", "https://example.com/d/a.xsd", "http://example.com", "ftp://example.com/a.xsd", "HTTP://EXAMPLE.com/a.xsd", "http://example.com:8080/a.xsd?q=1"}
	for _, w := range an.harvestOf(f).names(1 << 16) {
		ins = append(ins, w, "d/"+w+".xsd", "http://example.com/"+w, w+":b", "http://"+w+"/a.xsd")
	}
	for _, in := range ins {
		c := an.newConc()
		c.lists = true
		c.calls = an.handlerCall
		c.m[p] = cs(in)
		n := 0
		for i := range ex {
			x := &ex[i]
			if x.Kind != "return" || !compatible(c, x.St.path) {
				continue
			}
			n++
			open := false
			for _, l := range x.St.path {
				open = open || c.lit(l) < 0
			}
			b, ok := c.eval(x.Res[0]).boolean()
			if !ok || open {
				r.undecided("%s(%s)", f.Name(), shortText(in))
				continue
			}
			r.count("locations_told_apart", 1)
			if b != remote(in) {
				r.violate("remote", f.Name(), an.pos(x.Pos), "the location %s is taken for %s", shortText(in), map[bool]string{true: "a remote one and not followed", false: "a file"}[b])
			}
		}
		if n == 0 {
			r.undecided("%s(%q): no partition", f.Name(), in)
		}
	}
}

// readPaths: the files the resolver reads.
func (an *Analyzer) readPaths(r *Report) {
	ex, f, err := an.valueTypeExits()
	if err != nil || f == nil {
		r.undecided("GetValueType: %v", err)
		return
	}
	opt := sym(f.Params[0].Name(), f.Params[0].Type())
	var value *Term
	for _, p := range f.Params {
		if isStringType(p.Type()) {
			value = sym(p.Name(), p.Type())
		}
	}
	st := &State{heap: map[*Term]*Term{}, facts: newFacts(), an: an}
	files := st.mapContent(an.initOf(opt, "ParseFileMap"))
	type tc struct{ dir, file, loc, val, ns string }
	for _, t := range []tc{{"in/sub", "in/sub/a.xsd", "b.xsd", "p:T", "urn:p"}, {"in/sub", "in/sub/a.xsd", "../c/d/b.xsd", "T", "urn:d"}, {"/x", "/x/a.xsd", "./b.xsd", "q:T", "urn:q"},
		{".", "a.xsd", "c/b.xsd", "p:T", "urn:p"}, {"../in", "../in/a.xsd", "../b.xsd", "T", "urn:d"}} {
		c := an.newConc()
		c.lists = true
		c.calls = an.handlerCall
		c.m[value] = cs(t.val)
		c.m[an.initOf(opt, "FileDir")] = cs(t.dir)
		c.m[an.initOf(opt, "FilePath")] = cs(t.file)
		c.m[an.initOf(opt, "InputDir")] = cs("in")
		c.m[an.initOf(opt, "OutputDir")] = cs("out")
		c.m[st.mapContent(an.initOf(opt, "LocalNameNSMap"))] = mapTerm(mk(OpMapNew, "given", 0, nil), terms("p", "urn:p", "q", "urn:q", "", "urn:d"))
		c.m[st.mapContent(an.initOf(opt, "NSSchemaLocationMap"))] = mapTerm(mk(OpMapNew, "given", 0, nil), merge(terms("urn:p", "w1.xsd", "urn:q", "w2.xsd", "p", "w3.xsd", "", "w4.xsd", "urn:d", "w5.xsd"), terms(t.ns, t.loc)))
		want := filepath.Join(t.dir, t.loc)
		seen := map[string]bool{}
		check := func(what string, v *Term, where string) {
			e := c.eval(v)
			if mentionsKey(e) {
				if e.Op != OpKey && e.Op != OpElem && !seen[what+e.String()] {
					seen[what+e.String()] = true
					r.violate("place", f.Name()+"/"+what+"/included", where, "%s %s instead of the included file itself", what, showTerm(e))
				}
				return
			}
			s, ok := e.str()
			if !ok {
				if !seen[what+e.String()] {
					r.undecided("%s: %s %s", f.Name(), what, showTerm(e))
				}
				seen[what+e.String()] = true
				return
			}
			r.count("places", 1)
			if filepath.Clean(s) != want && !seen[what+s] {
				seen[what+s] = true
				r.violate("place", f.Name()+"/"+what, where, "%s %q instead of %q for %s, where %q is imported by %q", what, s, want, t.val, t.loc, t.file)
			}
		}
		for i := range ex {
			x := &ex[i]
			if !compatible(c, x.St.path) {
				continue
			}
			eachEvent(x.St.events, func(ev *Event, in *Event) {
				if ev.Kind != "call" {
					return
				}
				switch {
				case ev.Fn == "xgen.Parse" && ev.Snap != nil && ev.Snap["FilePath"] != nil:
					check("parses", ev.Snap["FilePath"], an.pos(ev.Pos))
				case ev.Fn == "os.Stat" || ev.Fn == "os.Open" || ev.Fn == "os.ReadFile" || ev.Fn == "os.Lstat":
					if len(ev.Args) > 0 {
						check("looks at", ev.Args[0], an.pos(ev.Pos))
					}
				}
			})
			for _, l := range x.St.path {
				walkTerm(l.A, func(u *Term) bool {
					if (u.Op == OpLookup || u.Op == OpLookupOk) && u.Args[0] == files {
						check("asks for the schema read from", u.Args[1], an.pos(x.Pos))
					}
					return true
				})
			}
		}
	}
	r.require(r.Counts["places"], "file the resolver reads")
}

func mentionsKey(t *Term) bool {
	h := false
	walkTerm(t, func(u *Term) bool {
		if u.Op == OpKey || u.Op == OpElem {
			h = true
		}
		return !h
	})
	return h
}

// directory: Parse sets the directory of the schema before it reads it.
func (an *Analyzer) directory(r *Report) {
	parse := an.byRole["Parse"]
	if parse == nil {
		r.violate("anchor", "Parse", "", "there is no Parse")
		return
	}
	if !an.readsField("FileDir") {
		return // everything goes by FilePath
	}
	self := sym(parse.Params[0].Name(), parse.Params[0].Type())
	ex, err := an.root(parse)
	if err != nil {
		r.undecided("Parse: %v", err)
		return
	}
	for i := range ex {
		x := &ex[i]
		var v *Term
		var li *Event
		for _, ev := range x.St.events {
			if ev.Kind == "loop" && readsTokens(ev) {
				li = ev
				break
			}
			if ev.Kind == "store" && ev.Args[0] == fieldAddr(self, "FileDir") {
				v = ev.Args[1]
			}
		}
		if li == nil {
			continue
		}
		where := an.pos(li.Pos)
		if v == nil {
			r.violate("directory", "Parse", where, "the directory of the schema is not set before it is read when %s", pathString(x.St.path))
			continue
		}
		for _, fp := range []string{"in/sub/a.xsd", "a.xsd", "./a.xsd", "/x/a.xsd", "../a.xsd", "in//b/../a.xsd"} {
			c := an.newConc()
			c.m[an.initOf(self, "FilePath")] = cs(fp)
			if !compatible(c, x.St.path) {
				continue
			}
			e := c.eval(v)
			s, ok := e.str()
			if !ok {
				r.undecided("Parse: the directory is %s", showTerm(e))
				break
			}
			r.count("directories", 1)
			if filepath.Clean(s) != filepath.Dir(fp) {
				r.violate("directory", "Parse", where, "the directory of %q is taken to be %q", fp, s)
			}
		}
	}
	r.require(r.Counts["directories"]+len(r.Undecided), "partition of Parse that reads a document")
}

// readsField: some function other than Parse reads the field of the options.
func (an *Analyzer) readsField(name string) bool {
	for _, f := range an.libFuncs() {
		if f == an.byRole["Parse"] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || !an.isOptionsType(fa.X.Type()) || fieldName(fa.X.Type(), fa.Field) != name {
					continue
				}
				for _, rf := range *fa.Referrers() {
					if u, ok := rf.(*ssa.UnOp); ok && u.X == fa {
						return true
					}
				}
			}
		}
	}
	return false
}
