package main

// The parser's own state and how schemas refer to one another: C21, C22, C23,
// C24, C25, C32.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C21", "The partitions of the function resolving type references and of its helpers are evaluated for every kind of declaration, flag and name (equal, different), and for prefixed and unprefixed names.", ruleC21)
	register("C22", "What every field of the parser's state holds when the first token is read, on every partition of Parse, and which maps the parsers of referenced schemas get.", ruleC22)
	register("C23", "References to package variables are followed through the values derived from them to stores, map updates and external functions that write.", ruleC23)
	register("C24", "The conditions under which a schema is entered from another one, what is recorded when a schema is entered, and the measures of recursive functions and open-ended loops.", ruleC24)
	register("C25", "The options every nested parser and every generator is created with, on every partition that creates one.", ruleC25)
	register("C32", "The partitions of the stack's methods are evaluated against a list of values for every small content.", ruleC32)
}

// ---- C32

type stackWorld struct {
	an    *Analyzer
	recv  *Term
	st    *types.Struct
	vals  []*Term // bottom .. top or top .. bottom of the representation
	field string  // slice representation: the field
	elemT types.Type
	memo  map[*Term]*Term
}

func ruleC32(an *Analyzer, r *Report) {
	r.rule("Push(v) adds v at one end; Peek and Pop give the value at that end, or nothing when there is none")
	r.rule("Pop removes that value and no other; Peek, Len and Empty change nothing")
	r.rule("Len is the number of values; Empty is Len = 0; a new stack is empty")
	if an.stackType == nil {
		r.violate("anchor", "Stack", "", "there is no type Stack")
		return
	}
	an.inlineRole["Stack"] = true
	an.inlineRole["NewStack"] = true
	defer func() { an.inlineRole["Stack"], an.inlineRole["NewStack"] = false, false }()
	end := -1 // index of the top in the representation: 0 front, 1 back
	for _, name := range []string{"Push", "Peek", "Pop", "Len", "Empty"} {
		f := an.method(an.stackType, name)
		if f == nil {
			continue
		}
		ex, err := an.root(f)
		if err != nil {
			r.undecided("%s: %v", name, err)
			continue
		}
		type stackCase struct {
			n       int
			pushNil bool
			equal   bool // the values are equal to each other
		}
		var cases []stackCase
		for _, n := range an.harvestOf(f).sizes(int64(bound(4, 12)), 2000) {
			cases = append(cases, stackCase{n: n}, stackCase{n: n, equal: true})
			if name == "Push" {
				cases = append(cases, stackCase{n: n, pushNil: true})
			}
		}
		for _, sc := range cases {
			n := sc.n
			var hit []stackOut
			unknown := ""
			for i := range ex {
				o := an.runStack(f, &ex[i], n, sc.pushNil, sc.equal)
				if o.unknown != "" {
					unknown = o.unknown
				}
				if o.ok {
					hit = append(hit, o)
				}
			}
			if unknown != "" {
				r.undecided("%s: %s", name, unknown)
				break
			}
			if len(hit) != 1 {
				r.undecided("%s: %d partitions for %d values", name, len(hit), n)
				break
			}
			r.count("cases", 1)
			o := hit[0]
			where := an.pos(o.x.Pos)
			bad := func(f string, a ...interface{}) {
				r.violate("stack", "Stack."+name, where, "with %d values, %s", n, fmt.Sprintf(f, a...))
			}
			var orig []string
			for i := 0; i < n; i++ {
				orig = append(orig, fmt.Sprintf("v%d", i))
			}
			same := strings.Join(o.vals, " ") == strings.Join(orig, " ")
			switch name {
			case "Push":
				switch strings.Join(o.vals, " ") {
				case strings.Join(append(append([]string{}, orig...), "pushed"), " "):
					if n > 0 && end == 0 {
						bad("Push does not always add at the same end")
					}
					if n > 0 {
						end = 1
					}
				case strings.Join(append([]string{"pushed"}, orig...), " "):
					if n > 0 && end == 1 {
						bad("Push does not always add at the same end")
					}
					if n > 0 {
						end = 0
					}
				default:
					bad("Push leaves %v", o.vals)
				}
			case "Peek", "Pop":
				want := "nothing"
				rest := orig
				if n > 0 {
					want, rest = orig[n-1], orig[:n-1]
					if end == 0 {
						want, rest = orig[0], orig[1:]
					}
				}
				if o.res != want {
					bad("%s gives %s instead of %s", name, o.res, want)
				}
				if name == "Peek" && !same {
					bad("Peek leaves %v", o.vals)
				}
				if name == "Pop" && strings.Join(o.vals, " ") != strings.Join(rest, " ") {
					bad("Pop leaves %v instead of %v", o.vals, rest)
				}
			case "Len":
				if o.res != fmt.Sprint(n) || !same {
					bad("Len gives %s and leaves %v", o.res, o.vals)
				}
			case "Empty":
				if o.res != fmt.Sprint(n == 0) || !same {
					bad("Empty gives %s and leaves %v", o.res, o.vals)
				}
			}
		}
	}
	if f := an.byRole["NewStack"]; f != nil {
		ex, err := an.root(f)
		if err != nil {
			r.undecided("NewStack: %v", err)
		}
		for i := range ex {
			eachEvent(ex[i].St.events, func(ev *Event, _ *Event) {
				if ev.Kind == "call" && strings.HasPrefix(ev.Fn, "(*container/list.List).Push") {
					r.violate("stack", "NewStack", an.pos(ev.Pos), "a new stack is not empty")
				}
			})
			if len(ex[i].Res) == 1 && ex[i].Res[0] == tNil {
				r.violate("stack", "NewStack", an.pos(ex[i].Pos), "no stack is created")
			}
			r.count("cases", 1)
		}
	}
	r.require(r.Counts["cases"], "stack operation")
}

type stackOut struct {
	ok      bool
	unknown string
	x       *Exit
	res     string
	vals    []string
}

// runStack evaluates one partition of a stack method for a stack of n values.
func (an *Analyzer) runStack(f *ssa.Function, x *Exit, n int, pushNil, equal bool) (out stackOut) {
	out.x = x
	c := an.newConc()
	recv := sym(f.Params[0].Name(), f.Params[0].Type())
	s := structOf(an.stackType)
	if s == nil {
		out.unknown = "the stack is not a struct"
		return
	}
	st := &State{heap: map[*Term]*Term{}, facts: newFacts(), an: an}
	iface := types.NewInterfaceType(nil, nil)
	var vals, nodes []*Term
	for i := 0; i < n; i++ {
		vals = append(vals, sym(fmt.Sprintf("v%d", i), iface))
		nodes = append(nodes, sym(fmt.Sprintf("node%d", i), types.Typ[types.UnsafePointer]))
	}
	known := map[*Term]string{tNil: "nothing"}
	for i, v := range vals {
		known[v] = fmt.Sprintf("v%d", i)
	}
	nval := map[*Term]*Term{}
	for i, nd := range nodes {
		nval[nd] = vals[i]
	}
	slice := ""
	var sliceInit *Term
	for i := 0; i < s.NumFields(); i++ {
		fd := s.Field(i)
		if _, ok := fd.Type().Underlying().(*types.Slice); ok {
			slice = fd.Name()
			sliceInit = st.load(fieldAddr(recv, slice), fd.Type())
			c.m[sliceInit] = mkListLit(nil, vals...)
		}
	}
	if len(f.Params) > 1 {
		known[sym(f.Params[1].Name(), f.Params[1].Type())] = "pushed"
	}
	// every term an event's result appears in
	resTerms := func(call *Term) []*Term {
		var ts []*Term
		see := func(t *Term) {
			if t == nil {
				return
			}
			walkTerm(t, func(u *Term) bool {
				if u.Op == OpRes && u.Args[0] == call {
					ts = append(ts, u)
				}
				return true
			})
		}
		for _, l := range x.St.path {
			see(l.A)
		}
		for _, v := range x.Res {
			see(v)
		}
		for _, ev := range x.St.events {
			for _, a := range ev.Args {
				see(a)
			}
		}
		return ts
	}
	pos := func(nd *Term) int {
		for i, x := range nodes {
			if x == nd {
				return i
			}
		}
		return -1
	}
	fresh := 0
	for _, ev := range x.St.events {
		if ev.Kind == "hazard" || ev.Kind == "proved" || ev.Kind == "pcall" {
			continue
		}
		if ev.Kind == "store" && slice != "" {
			continue // read off the final heap
		}
		if ev.Kind != "call" {
			out.unknown = "an event " + ev.Kind
			return
		}
		var res *Term
		arg := func(i int) *Term { return c.eval(ev.Args[i]) }
		op := strings.TrimPrefix(strings.TrimPrefix(ev.Fn, "(*container/list.List)."), "(*container/list.Element).")
		if op == ev.Fn {
			out.unknown = "a call of " + ev.Fn
			return
		}
		switch op {
		case "Back", "Front":
			res = tNil
			if len(nodes) > 0 {
				res = nodes[0]
				if op == "Back" {
					res = nodes[len(nodes)-1]
				}
			}
		case "Len":
			res = ci(int64(len(nodes)))
		case "Prev", "Next":
			p := pos(arg(0))
			if p < 0 {
				return // not this partition: a removed or missing element
			}
			if op == "Prev" {
				p--
			} else {
				p++
			}
			res = tNil
			if p >= 0 && p < len(nodes) {
				res = nodes[p]
			}
		case "Remove":
			p := pos(arg(1))
			if p < 0 {
				if arg(1) == tNil {
					return
				}
				out.unknown = "removal of " + showTerm(arg(1))
				return
			}
			res = nval[nodes[p]]
			nodes = append(append([]*Term{}, nodes[:p]...), nodes[p+1:]...)
		case "PushBack", "PushFront":
			fresh++
			nd := sym(fmt.Sprintf("new%d", fresh), types.Typ[types.UnsafePointer])
			nval[nd] = arg(1)
			if op == "PushBack" {
				nodes = append(append([]*Term{}, nodes...), nd)
			} else {
				nodes = append([]*Term{nd}, nodes...)
			}
			res = nd
		case "Init":
			nodes = nil
			continue
		case "MoveToFront", "MoveToBack":
			p := pos(arg(1))
			if p < 0 {
				return
			}
			nd := nodes[p]
			nodes = append(append([]*Term{}, nodes[:p]...), nodes[p+1:]...)
			if op == "MoveToBack" {
				nodes = append(nodes, nd)
			} else {
				nodes = append([]*Term{nd}, nodes...)
			}
			continue
		default:
			out.unknown = "a call of " + ev.Fn
			return
		}
		for _, t := range resTerms(ev.Res) {
			c.m[t] = res
		}
		c.memo = map[*Term]*Term{}
	}
	value := func(t *Term) *Term {
		t = c.eval(t)
		if t.Op == OpIface {
			t = t.Args[0]
		}
		if t.Op == OpField && t.S == "Value" {
			b := t.Args[0]
			for b.Op == OpDeref {
				b = b.Args[0]
			}
			if nval[b] != nil {
				return nval[b]
			}
		}
		return t
	}
	for _, l := range x.St.path {
		a := c.eval(l.A)
		if a.Op == OpEq {
			p, q := a.Args[0], a.Args[1]
			for _, nd := range []*Term{p, q} {
				if nval[nd] != nil && (p == tNil || q == tNil) {
					a = tFalse
				}
			}
			if nval[p] != nil && nval[q] != nil {
				a = cb(p == q)
			}
			for _, v := range []*Term{p, q} {
				if s, ok := known[v]; ok && v != tNil && (p == tNil || q == tNil) {
					a = cb(s == "pushed" && pushNil)
				}
			}
			if p, q := value(p), value(q); p != tNil && q != tNil && known[p] != "" && known[q] != "" {
				a = cb(p == q || equal)
			}
		}
		b, ok := a.boolean()
		if !ok {
			out.unknown = "condition " + showTerm(a)
			return
		}
		if b != l.V {
			return
		}
	}
	if x.Kind != "return" {
		out.unknown = "a partition that does not return"
		return
	}
	name := func(v *Term) string {
		if s, ok := known[v]; ok {
			return s
		}
		if v.Op == OpIface {
			if s, ok := known[v.Args[0]]; ok {
				return s
			}
		}
		return showTerm(v)
	}
	if len(x.Res) == 1 {
		v := value(x.Res[0])
		out.res = name(v)
	}
	if slice != "" {
		v := x.St.heap[fieldAddr(recv, slice)]
		if v == nil {
			v = sliceInit
		}
		v = c.eval(v)
		if v.Op == OpSub {
			v = subList(v)
		}
		if v == nil || v.Op != OpListLit && v != tNil {
			out.unknown = "content"
			return
		}
		if v.Op == OpListLit {
			for _, a := range v.Args {
				out.vals = append(out.vals, name(a))
			}
		}
	} else {
		for _, nd := range nodes {
			out.vals = append(out.vals, name(nval[nd]))
		}
	}
	out.ok = true
	return
}

func subList(v *Term) *Term {
	l := v.Args[0]
	if l.Op != OpListLit {
		return nil
	}
	lo, ok1 := v.Args[1].num()
	hi, ok2 := v.Args[2].num()
	if v.Args[1] == tNil {
		lo, ok1 = 0, true
	}
	if v.Args[2] == tNil {
		hi, ok2 = int64(len(l.Args)), true
	}
	if !ok1 || !ok2 || lo < 0 || hi > int64(len(l.Args)) || lo > hi {
		return nil
	}
	return mkListLit(l.T, l.Args[lo:hi]...)
}

// ---- C23

// external functions that only read what they are given
var readers = []string{"fmt.", "strings.", "(*regexp.Regexp).", "(*strings.Replacer).", "errors.", "reflect.TypeOf", "reflect.ValueOf", "reflect.DeepEqual", "strconv.", "unicode.", "unicode/utf8.", "path/filepath.", "path.", "(error).Error", "len", "os.IsNotExist", "os.IsExist", "bytes.Equal", "bytes.Contains", "(reflect.Value).Len", "(reflect.Value).MapIndex", "sort.SearchStrings", "sort.Search", "(*text/template.Template).Execute", "(*net/http.Client).Get", "io.MultiReader", "io.MultiWriter", "(*os.File).Write"}

func refLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Chan, *types.Interface, *types.Signature:
		return true
	}
	return false
}

func ruleC23(an *Analyzer, r *Report) {
	r.rule("no function of the library stores to a package variable, directly or through a value derived from it")
	r.rule("no function of the library changes the state of the process or of another package")
	lib := an.libFuncs()
	in := map[*ssa.Function]bool{}
	for _, f := range lib {
		in[f] = true
	}
	// values derived from package variables
	taint := map[ssa.Value]map[*ssa.Global]bool{}
	work := []ssa.Value{}
	add := func(v ssa.Value, gs map[*ssa.Global]bool) {
		m := taint[v]
		if m == nil {
			m = map[*ssa.Global]bool{}
			taint[v] = m
		}
		ch := false
		for g := range gs {
			if !m[g] {
				m[g] = true
				ch = true
			}
		}
		if ch {
			work = append(work, v)
		}
	}
	report := func(gs map[*ssa.Global]bool, f *ssa.Function, where string, what string) {
		var ns []string
		for g := range gs {
			if own := g.Pkg == an.xgen; own || g.Pkg != an.cmd {
				n := g.Name()
				if !own {
					n = g.Pkg.Pkg.Path() + "." + n
				}
				ns = append(ns, n)
			}
		}
		sort.Strings(ns)
		for _, n := range ns {
			r.violate("shared state", n, where, "%s %s the package variable %s, which every parser shares", f.Name(), what, n)
		}
	}
	globals := map[*ssa.Global]bool{}
	for _, f := range lib {
		if f.Name() == "init" && f.Synthetic != "" {
			continue
		}
		r.count("functions", 1)
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var ops [16]*ssa.Value
				for _, o := range i.Operands(ops[:0]) {
					if o == nil || *o == nil {
						continue
					}
					if g, ok := (*o).(*ssa.Global); ok {
						globals[g] = true
						add(g, map[*ssa.Global]bool{g: true})
					}
				}
			}
		}
	}
	seenUse := map[ssa.Instruction]bool{}
	for len(work) > 0 {
		v := work[0]
		work = work[1:]
		gs := taint[v]
		var uses []ssa.Instruction
		if g, ok := v.(*ssa.Global); ok {
			for _, f := range lib {
				for _, b := range f.Blocks {
					for _, i := range b.Instrs {
						var ops [16]*ssa.Value
						for _, o := range i.Operands(ops[:0]) {
							if o != nil && *o == ssa.Value(g) {
								uses = append(uses, i)
							}
						}
					}
				}
			}
		} else if v.Referrers() != nil {
			uses = *v.Referrers()
		}
		for _, i := range uses {
			f := i.Parent()
			if f == nil || !in[f] || f.Name() == "init" && f.Synthetic != "" {
				continue
			}
			seenUse[i] = true
			where := an.pos(i.Pos())
			switch x := i.(type) {
			case *ssa.Store:
				if x.Addr == v {
					report(gs, f, where, "stores to")
				} else if refLike(v.Type()) && x.Val == v {
					// kept in a local cell or a field: follow loads of that cell
					if a, ok := x.Addr.(*ssa.Alloc); ok {
						add(a, gs)
					}
				}
			case *ssa.MapUpdate:
				if x.Map == v {
					report(gs, f, where, "adds to")
				}
			case *ssa.Send:
				if x.Chan == v {
					report(gs, f, where, "sends on")
				}
			case *ssa.UnOp:
				if refLike(x.Type()) || x.Op.String() == "<-" {
					if _, local := v.(*ssa.Alloc); local || refLike(x.Type()) {
						add(x, gs)
					}
				}
			case *ssa.FieldAddr, *ssa.IndexAddr:
				if _, local := v.(*ssa.Alloc); !local {
					add(i.(ssa.Value), gs)
				}
			case *ssa.Phi, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.TypeAssert, *ssa.Slice, *ssa.Field, *ssa.Index, *ssa.Extract, *ssa.Lookup:
				val := i.(ssa.Value)
				if refLike(val.Type()) || isTuple(val.Type()) {
					add(val, gs)
				}
			case *ssa.MakeClosure:
				fn := x.Fn.(*ssa.Function)
				for k, bnd := range x.Bindings {
					if bnd == v && k < len(fn.FreeVars) {
						add(fn.FreeVars[k], gs)
					}
				}
			case *ssa.Return:
				for _, g := range lib {
					for _, b := range g.Blocks {
						for _, j := range b.Instrs {
							if cl, ok := j.(*ssa.Call); ok && cl.Call.StaticCallee() == f && (refLike(cl.Type()) || isTuple(cl.Type())) {
								add(cl, gs)
							}
						}
					}
				}
			case ssa.CallInstruction:
				an.sharedCall(r, x, v, gs, f, where, add, report)
			}
		}
	}
	r.count("package_variables", len(globals))
	r.count("uses", len(seenUse))
	for _, x := range an.externals(lib) {
		if matches(x.name, []string{"os.Setenv", "os.Unsetenv", "os.Clearenv", "os.Chdir", "syscall.Umask", "log.SetOutput", "log.SetFlags", "log.SetPrefix", "math/rand.Seed", "flag.Set", "runtime.GOMAXPROCS", "debug.Set", "runtime/debug.Set", "os/signal.", "time.LoadLocation", "mime.AddExtensionType", "expvar.", "net/http.Handle"}) && x.name != "time.LoadLocation" {
			r.violate("process state", x.in.Name()+"/"+x.name, an.pos(x.pos), "%s changes state all parsers share: %s", x.in.Name(), x.name)
		}
	}
	r.require(r.Counts["functions"], "library function")
}

func isTuple(t types.Type) bool { _, ok := t.(*types.Tuple); return ok }

func (an *Analyzer) sharedCall(r *Report, x ssa.CallInstruction, v ssa.Value, gs map[*ssa.Global]bool, f *ssa.Function, where string, add func(ssa.Value, map[*ssa.Global]bool), report func(map[*ssa.Global]bool, *ssa.Function, string, string)) {
	cc := x.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "delete", "clear", "copy":
			if len(cc.Args) > 0 && cc.Args[0] == v {
				report(gs, f, where, "changes")
			}
		case "append":
			if len(cc.Args) > 0 && cc.Args[0] == v {
				if val, ok := x.(ssa.Value); ok {
					add(val, gs)
				}
			}
		case "close":
			report(gs, f, where, "closes")
		}
		return
	}
	if cc.Value == v && !cc.IsInvoke() {
		return // calling a function held in a variable
	}
	callee := cc.StaticCallee()
	if callee != nil && an.inModule(callee) {
		for k, a := range cc.Args {
			if a == v && k < len(callee.Params) && refLike(callee.Params[k].Type()) {
				add(callee.Params[k], gs)
			}
		}
		return
	}
	name := ""
	if cc.IsInvoke() {
		name = "(" + typeKey(cc.Value.Type()) + ")." + cc.Method.Name()
		if cc.Value == v && (isErrorType(cc.Value.Type()) || cc.Method.Name() == "Error" || cc.Method.Name() == "String") {
			return
		}
	} else if callee != nil {
		g := callee
		if g.Origin() != nil {
			g = g.Origin()
		}
		name = g.String()
	} else {
		return
	}
	if matches(name, readers) {
		return
	}
	// own variables only: what other packages do with their own is theirs
	own := map[*ssa.Global]bool{}
	for g := range gs {
		if g.Pkg == an.xgen {
			own[g] = true
		}
	}
	for g := range own {
		t := g.Type().(*types.Pointer).Elem()
		if _, ok := t.Underlying().(*types.Signature); ok {
			delete(own, g)
		}
		if isErrorType(t) {
			delete(own, g)
		}
	}
	if len(own) == 0 {
		return
	}
	if v == nil {
		return
	}
	for _, a := range cc.Args {
		if a == v {
			if b, ok := v.Type().Underlying().(*types.Interface); ok && b.NumMethods() == 0 && callee != nil && strings.HasPrefix(name, "fmt.") {
				return
			}
		}
	}
	report(own, f, where, "hands to "+shortFn(name))
}

// ---- nested parsers

type nested struct {
	f     *ssa.Function
	x     *Exit
	ev    *Event
	loop  *Event
	path  []Lit
	facts *Facts
	recv  *Term // the options of the function the parser is created in
}

func (an *Analyzer) nestedParsers(r *Report, do func(n *nested)) {
	for _, f := range an.libFuncs() {
		if len(f.Blocks) == 0 || f == an.byRole["Parse"] {
			continue
		}
		calls := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == an.byRole["Parse"] {
					calls = true
				}
			}
		}
		// inlined helpers are seen in their callers; helpers that are given
		// the options are seen on their own as well
		var recv *Term
		for _, p := range f.Params {
			if an.isOptionsType(p.Type()) && recv == nil {
				recv = sym(p.Name(), p.Type())
			}
		}
		if recv == nil || !calls && f.Signature.Recv() == nil && an.roles[f] == "" {
			continue
		}
		if f.Signature.Recv() == nil && f != an.byRole["GetValueType"] && an.hasCallers(f) {
			continue
		}
		if f.Signature.Recv() != nil && f != an.byRole["GetValueType"] && !an.isHandler(f) && an.hasCallers(f) {
			continue // a helper: seen where it is called
		}
		ex, err := an.root(f)
		if err != nil {
			r.undecided("%s: %v", f.Name(), err)
			continue
		}
		for i := range ex {
			x := &ex[i]
			var rec func(evs []*Event, facts *Facts, path []Lit, loop *Event)
			rec = func(evs []*Event, facts *Facts, path []Lit, loop *Event) {
				for _, ev := range evs {
					if ev.Kind == "loop" {
						for k, alt := range ev.Alts {
							if fs, ok := facts.within(ev, k); ok {
								rec(alt, fs, append(append([]Lit{}, path...), ev.Guard[k]...), ev)
							}
						}
						continue
					}
					if ev.Kind == "call" && ev.Fn == "xgen.Parse" && ev.Snap != nil {
						do(&nested{f, x, ev, loop, path, facts, recv})
					}
				}
			}
			rec(x.St.events, x.St.facts, x.St.path, nil)
		}
	}
}

func (an *Analyzer) hasCallers(f *ssa.Function) bool {
	for _, g := range an.libFuncs() {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == f {
					return true
				}
			}
		}
	}
	return false
}

// initial content of a field of the options.
func (an *Analyzer) initOf(recv *Term, field string) *Term {
	st := &State{heap: map[*Term]*Term{}, facts: newFacts(), an: an}
	return st.load(fieldAddr(recv, field), an.optionsField(field))
}

func (n *nested) site() string {
	fp := n.ev.Snap["FilePath"]
	kind := "lookup"
	if n.ev.Snap["Extract"] != tTrue {
		kind = "generate"
	}
	if n.loop != nil {
		kind += "-loop"
	}
	_ = fp
	return n.f.Name() + "/" + kind
}

func fieldChosen(n *nested, v *Term) *Term { return n.facts.canon(v) }

func ruleC25(an *Analyzer, r *Report) {
	r.rule("a parser created while resolving references that generates code gets Lang, Package, OutputDir and InputDir of the options it is created from; one that only looks types up gets Lang")
	r.rule("the generator gets Lang and Package of the options, and nothing changes Lang, Package, OutputDir and InputDir")
	run := []string{"Lang", "Package", "OutputDir", "InputDir"}
	an.nestedParsers(r, func(n *nested) {
		need := run
		if fieldChosen(n, n.ev.Snap["Extract"]) == tTrue {
			need = []string{"Lang"}
		}
		r.count("nested_parsers", 1)
		for _, fld := range need {
			got, want := n.ev.Snap[fld], an.initOf(n.recv, fld)
			if got == nil {
				continue
			}
			r.count("options_checked", 1)
			if n.facts.canon(got) == n.facts.canon(want) {
				continue
			}
			if got.Op == OpHavoc && !got.isConst() {
				r.undecided("%s: %s is %s", n.site(), fld, showTerm(got))
				continue
			}
			r.violate("options", n.site()+"/"+fld, an.pos(n.ev.Pos), "the parser of a referenced schema gets %s = %s instead of that of the run", fld, showTerm(got))
		}
	})
	r.require(r.Counts["nested_parsers"], "parser of a referenced schema")
	parse := an.byRole["Parse"]
	if parse == nil {
		return
	}
	ex, err := an.root(parse)
	if err != nil {
		r.undecided("Parse: %v", err)
		return
	}
	recv := sym(parse.Params[0].Name(), parse.Params[0].Type())
	for i := range ex {
		x := &ex[i]
		eachEvent(x.St.events, func(ev *Event, _ *Event) {
			if d := an.dispatchOf(ev, nil); d == nil || ev.Snap == nil || ev.Snap["StructAST"] == nil {
				return
			}
			r.count("generators", 1)
			for _, fld := range []string{"Lang", "Package"} {
				got, want := ev.Snap[fld], an.initOf(recv, fld)
				if got == nil || x.St.facts.canon(got) == x.St.facts.canon(want) {
					continue
				}
				if got.Op == OpHavoc {
					r.undecided("Parse: the generator's %s is %s", fld, showTerm(got))
					continue
				}
				r.violate("options", "Parse/generator/"+fld, an.pos(ev.Pos), "the generator gets %s = %s instead of that of the run", fld, showTerm(got))
			}
		})
	}
	// nothing changes them
	for _, f := range an.libFuncs() {
		var opts *Term
		for _, p := range f.Params {
			if an.isOptionsType(p.Type()) {
				opts = sym(p.Name(), p.Type())
			}
		}
		if opts == nil || len(f.Blocks) == 0 {
			continue
		}
		written := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && an.isOptionsType(fa.X.Type()) && has(run, fieldName(fa.X.Type(), fa.Field)) {
					for _, rf := range *fa.Referrers() {
						if s, ok := rf.(*ssa.Store); ok && s.Addr == fa {
							written = true
						}
					}
				}
			}
		}
		if !written {
			continue
		}
		ex, err := an.root(f)
		if err != nil {
			r.undecided("%s: %v", f.Name(), err)
			continue
		}
		for i := range ex {
			for _, fld := range run {
				v := ex[i].St.heap[fieldAddr(opts, fld)]
				want := an.initOf(opts, fld)
				if v != nil && ex[i].St.facts.canon(v) != ex[i].St.facts.canon(want) {
					if fld == "Package" && ex[i].St.facts.known(mkEq(want, tEmpty)) == 1 {
						continue // a default
					}
					r.violate("options", f.Name()+"/"+fld, an.pos(ex[i].Pos), "%s changes the run's %s to %s", f.Name(), fld, showTerm(v))
				}
			}
		}
	}
}

// ---- C24

func cleanKey(t *Term) *Term {
	for t.Op == OpApp && t.S == "path/filepath.Clean" {
		in := t.Args[0]
		if in.Op == OpApp && (in.S == "path/filepath.Join" || in.S == "path/filepath.Clean") {
			t = in
			continue
		}
		break
	}
	return t
}

// entered: the literal says the schema recorded under the key has not been
// entered: the map and the key.
func notEntered(l Lit) (m, k *Term, ok bool) {
	switch {
	case l.A.Op == OpLookupOk && !l.V, l.A.Op == OpLookup && !l.V:
		return l.A.Args[0], l.A.Args[1], true
	case l.A.Op == OpEq && l.V && l.A.Args[0].Op == OpLookup && l.A.Args[1] == tFalse:
		return l.A.Args[0].Args[0], l.A.Args[0].Args[1], true
	case l.A.Op == OpEq && l.V && l.A.Args[1].Op == OpLookup && l.A.Args[0] == tFalse:
		return l.A.Args[1].Args[0], l.A.Args[1].Args[1], true
	}
	return nil, nil, false
}

// lookupOnly: what a parser may do that only looks types up.
func (an *Analyzer) lookupOnly(r *Report, x *Exit, runMaps map[*Term]string) {
	r.count("lookup_partitions", 1)
	eachEvent(x.St.events, func(ev *Event, in *Event) {
		switch ev.Kind {
		case "call":
			for _, a := range ev.Args {
				if a == nil {
					continue
				}
				if a.Op == OpIface {
					a = a.Args[0]
				}
				if an.isGenPtr(a) {
					r.violate("lookup generates", "Parse/"+ev.Fn, an.pos(ev.Pos), "a parser that only looks types up runs a generator when %s", pathString(x.St.path))
					return
				}
			}
		case "mapput":
			if n := runMaps[stripMap(ev.Args[0])]; n == "ParseFileMap" && ev.Args[2] != tFalse {
				r.violate("lookup records", "Parse/"+n, an.pos(ev.Pos), "a parser that only looks types up records its file in %s, so that it is never generated", n)
			}
		}
	})
}

func ruleC24(an *Analyzer, r *Report) {
	r.rule("a parser that only looks types up enters no schema")
	r.rule("such a parser runs no generator and records no file as entered")
	r.rule("a parser created to generate code is entered only when the map of the run does not hold its file yet, and Parse records the file in that map, under the same key, before reading it")
	r.rule("the map of the run is handed on and never emptied")
	r.rule("recursive functions descend in a parameter; loops over anything but a collection or the document advance")
	parse := an.byRole["Parse"]
	if parse == nil {
		r.violate("anchor", "Parse", "", "there is no Parse")
		return
	}
	self := sym(parse.Params[0].Name(), parse.Params[0].Type())
	// what Parse records: field -> key
	recorded := map[string]*Term{}
	ex, err := an.root(parse)
	if err != nil {
		r.undecided("Parse: %v", err)
		return
	}
	extract := an.initOf(self, "Extract")
	mapFields := map[*Term]string{}
	for i, s := 0, structOf(an.optType); i < s.NumFields(); i++ {
		if _, ok := s.Field(i).Type().Underlying().(*types.Map); ok {
			mapFields[an.initOf(self, s.Field(i).Name())] = s.Field(i).Name()
		}
	}
	first := true
	for i := range ex {
		x := &ex[i]
		read := false
		for _, ev := range x.St.events {
			if ev.Kind == "loop" && readsTokens(ev) {
				read = true
			}
		}
		if read && x.St.facts.known(extract) != 0 {
			an.lookupOnly(r, x, mapFields)
		}
		if !read || x.St.facts.known(extract) == 1 {
			continue
		}
		r.count("parse_partitions", 1)
		here := map[string]*Term{}
		for _, ev := range x.St.events {
			if ev.Kind == "loop" && readsTokens(ev) {
				break
			}
			if ev.Kind == "mapput" {
				if n := mapFields[stripMap(ev.Args[0])]; n != "" && ev.Args[2] != tFalse {
					here[n] = ev.Args[1]
				}
			}
		}
		if first {
			recorded = here
			first = false
			continue
		}
		for n, k := range recorded {
			if here[n] != k {
				delete(recorded, n)
			}
		}
	}
	if first {
		r.violate("anchor", "Parse", "", "no partition of Parse reads a document")
		return
	}
	// entries
	an.nestedParsers(r, func(n *nested) {
		r.count("entries", 1)
		where := an.pos(n.ev.Pos)
		if n.facts.known(an.initOf(n.recv, "Extract")) != 0 {
			r.violate("lookup enters", n.site(), where, "a parser that only looks types up enters a schema when %s", pathString(n.path))
		}
		if n.ev.Args[0] == n.recv {
			r.violate("re-entry", n.site(), where, "the parser is run again on its own options")
			return
		}
		ext := fieldChosen(n, n.ev.Snap["Extract"])
		if ext == tTrue {
			return
		}
		fp := n.ev.Snap["FilePath"]
		var why string
		for _, l := range n.path {
			m, k, ok := notEntered(l)
			if !ok {
				continue
			}
			fld := ""
			for _, name := range mapFields {
				if stripMap(m) == an.initOf(n.recv, name) || m == an.initOf(n.recv, name) {
					fld = name
				}
			}
			if fld == "" {
				continue
			}
			key := recorded[fld]
			if key == nil {
				why = fmt.Sprintf("Parse does not record the file in %s before reading it", fld)
				continue
			}
			got := newSubst(func(t *Term) *Term {
				if t == an.initOf(self, "FilePath") {
					return fp
				}
				return nil
			}).apply(key)
			if cleanKey(got) != cleanKey(k) {
				why = fmt.Sprintf("%s is asked for %s but Parse records %s", fld, showTerm(k), showTerm(got))
				continue
			}
			if n.ev.Snap[fld] != an.initOf(n.recv, fld) {
				r.violate("map of the run", n.site()+"/"+fld, where, "the nested parser gets another %s than the run's: %s", fld, showTerm(n.ev.Snap[fld]))
				continue
			}
			if key == an.initOf(self, "FilePath") {
				r.violate("key", "Parse/"+fld, an.pos(parse.Pos()), "the file is recorded in %s under its unclean name, so that the first schema can be entered again from one it imports", fld)
			}
			why = "ok"
			break
		}
		if why != "ok" {
			if why == "" {
				why = "nothing on the path says that it was not entered before"
			}
			r.violate("entered once", n.site(), where, "a schema may be entered for generation again: %s", why)
		}
	})
	r.require(r.Counts["entries"], "entry into a referenced schema")
	// nothing is forgotten
	for _, f := range an.libFuncs() {
		if len(f.Blocks) == 0 {
			continue
		}
		var recv *Term
		for _, p := range f.Params {
			if an.isOptionsType(p.Type()) {
				recv = sym(p.Name(), p.Type())
			}
		}
		if recv == nil {
			continue
		}
		fx, err := an.root(f)
		if err != nil {
			continue
		}
		for i := range fx {
			for fld := range recorded {
				if v := fx[i].St.heap[fieldAddr(recv, fld)]; v != nil && v != an.initOf(recv, fld) && v.Op != OpHavoc {
					if fx[i].St.facts.known(mkEq(an.initOf(recv, fld), tNil)) == 1 {
						continue
					}
					r.violate("map of the run", f.Name()+"/"+fld, an.pos(fx[i].Pos), "%s replaces the record of entered schemas", f.Name())
				}
			}
			eachEvent(fx[i].St.events, func(ev *Event, _ *Event) {
				if ev.Kind == "mapdelete" {
					for fld := range recorded {
						if stripMap(ev.Args[0]) == an.initOf(recv, fld) {
							r.violate("map of the run", f.Name()+"/"+fld, an.pos(ev.Pos), "%s removes from the record of entered schemas", f.Name())
						}
					}
				}
			})
		}
	}
	an.recursion(r)
	an.openLoops(r)
}

func readsTokens(ev *Event) bool {
	t := false
	eachEvent([]*Event{ev}, func(y *Event, _ *Event) {
		if y.Kind == "call" && strings.HasPrefix(y.Fn, "(*encoding/xml.Decoder).") {
			t = true
		}
	})
	return t
}

// recursion: functions calling themselves other than through Parse.
func (an *Analyzer) recursion(r *Report) {
	lib := an.libFuncs()
	idx := map[*ssa.Function]int{}
	for i, f := range lib {
		idx[f] = i
	}
	callees := map[*ssa.Function][]ssa.CallInstruction{}
	for _, f := range lib {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && g != an.byRole["Parse"] {
						if _, ok := idx[g]; ok {
							callees[f] = append(callees[f], c)
						}
					}
				}
			}
		}
	}
	reaches := func(from, to *ssa.Function) bool {
		seen := map[*ssa.Function]bool{}
		var rec func(f *ssa.Function) bool
		rec = func(f *ssa.Function) bool {
			if f == to {
				return true
			}
			if seen[f] {
				return false
			}
			seen[f] = true
			for _, c := range callees[f] {
				if rec(c.Common().StaticCallee()) {
					return true
				}
			}
			return false
		}
		return rec(from)
	}
	r.count("functions", len(lib))
	for _, f := range lib {
		for _, c := range callees[f] {
			g := c.Common().StaticCallee()
			if !reaches(g, f) {
				continue
			}
			r.count("recursive_calls", 1)
			if descends(f, c) {
				continue
			}
			if g == f && followsNames(c) {
				r.violate("recursion", f.Name(), an.pos(c.Pos()), "%s calls itself with a name it looked up: declarations that refer to each other never end it", f.Name())
				continue
			}
			r.undecided("%s: recursion through %s", f.Name(), g.Name())
		}
	}
}

// descends: an argument is a part of the corresponding parameter.
func descends(f *ssa.Function, c ssa.CallInstruction) bool {
	var part func(v ssa.Value, d int) (ssa.Value, bool)
	part = func(v ssa.Value, d int) (ssa.Value, bool) {
		if d > 8 {
			return nil, false
		}
		switch x := v.(type) {
		case *ssa.Slice:
			if x.Low != nil || x.High != nil {
				b, _ := part(x.X, d+1)
				if b == nil {
					b = x.X
				}
				return b, true
			}
			return part(x.X, d+1)
		case *ssa.BinOp:
			if x.Op.String() == "-" {
				return x.X, true
			}
		case *ssa.UnOp:
			return part(x.X, d+1)
		case *ssa.FieldAddr:
			b, _ := part(x.X, d+1)
			if b == nil {
				b = x.X
			}
			return b, true
		case *ssa.IndexAddr:
			b, _ := part(x.X, d+1)
			if b == nil {
				b = x.X
			}
			return b, true
		case *ssa.TypeAssert:
			return part(x.X, d+1)
		case *ssa.Extract:
			return part(x.Tuple, d+1)
		}
		return nil, false
	}
	for k, a := range c.Common().Args {
		b, ok := part(a, 0)
		if !ok {
			continue
		}
		if p, isP := b.(*ssa.Parameter); isP && c.Common().StaticCallee() == f && k < len(f.Params) && types.Identical(a.Type(), f.Params[k].Type()) && p.Parent() == f {
			if _, isOpt := p.Type().Underlying().(*types.Pointer); isOpt && isStringType(a.Type()) {
				continue
			}
			return true
		}
	}
	return false
}

// followsNames: a string argument is read from a declaration.
func followsNames(c ssa.CallInstruction) bool {
	for _, a := range c.Common().Args {
		if !isStringType(a.Type()) {
			continue
		}
		v := a
		for i := 0; i < 8; i++ {
			switch x := v.(type) {
			case *ssa.UnOp:
				v = x.X
				continue
			case *ssa.Call:
				if len(x.Call.Args) > 0 {
					v = x.Call.Args[0]
					continue
				}
			case *ssa.FieldAddr:
				return true
			}
			break
		}
	}
	return false
}

// openLoops: loops that are not over a collection.
func (an *Analyzer) openLoops(r *Report) {
	done := map[string]bool{}
	for _, f := range an.libFuncs() {
		if len(f.Blocks) == 0 {
			continue
		}
		ex, err := an.root(f)
		if err != nil {
			continue
		}
		for i := range ex {
			eachEvent(ex[i].St.events, func(ev *Event, _ *Event) {
				if ev.Kind != "loop" || done[ev.Loop.ID] {
					return
				}
				done[ev.Loop.ID] = true
				r.count("loops", 1)
				if ev.Loop.Kind != "other" || readsTokens(ev) {
					return
				}
				r.count("open_loops", 1)
				// a name that is looked up again and again
				why := ""
				chase := func(t *Term) {
					walkTerm(t, func(u *Term) bool {
						if u.Op == OpApp && u.S == "xgen.getBase" || u.Op == OpLookup || u.Op == OpLookupOk {
							for _, a := range u.Args {
								if mentionsLoopVar(a, ev.Loop.ID) {
									why = showTerm(u)
								}
							}
						}
						return why == ""
					})
				}
				advances := false
				for k, alt := range ev.Alts {
					for _, l := range ev.Guard[k] {
						chase(l.A)
						walkTerm(l.A, func(u *Term) bool {
							if u.Op == OpLt {
								advances = true
							}
							return true
						})
					}
					for _, y := range alt {
						if y.Kind == "pop" || y.Kind == "mapput" {
							advances = true
						}
					}
				}
				if why != "" && !advances {
					r.violate("loop", f.Name(), an.pos(ev.Loop.Pos), "the loop follows %s until it ends, which it never does when declarations refer to each other", why)
					return
				}
				if growsEachRound(ev) {
					r.count("growing_searches", 1)
					return
				}
				r.undecided("%s: loop at %s", f.Name(), an.pos(ev.Loop.Pos))
			})
		}
	}
}

// growsEachRound: the loop goes round again only when the round has put a key
// of a collection into a set that did not hold it; nothing is taken out of the
// set. There are finitely many such keys (schema files that exist).
func growsEachRound(ev *Event) bool {
	for k := range ev.Alts {
		var cond, next *Term
		for _, l := range ev.Guard[k] {
			if f := ev.Loop.Carry[l.A]; l.V && l.A.Op == OpLoopVar && f != nil && f.Op == OpFold && 2+k < len(f.Args) {
				cond, next = l.A, f.Args[2+k].Args[0]
			}
		}
		if cond == nil || !grown(next, ev, k, nil) {
			return false
		}
	}
	return len(ev.Alts) > 0
}

// grown: when v, a cell after the alternative, is true, the set is larger.
func grown(v *Term, ev *Event, k int, sets map[*Term]bool) bool {
	if v == tFalse {
		return true
	}
	// sets: cells that hold what the enclosing rounds put into them
	if sets == nil {
		sets = map[*Term]bool{}
		for lv, f := range ev.Loop.Carry {
			if f.Op == OpFold && 2+k < len(f.Args) {
				if n := f.Args[2+k].Args[0]; n.Op == OpFold && n.Args[0] == lv {
					sets[n.Args[1]] = true
				} else if n.Op == OpMapPut && n.Args[0] == lv {
					sets[lv] = true
				}
			}
		}
	}
	if v == tTrue {
		for _, l := range ev.Guard[k] {
			if l.V || l.A.Op != OpLookup && l.A.Op != OpLookupOk || !sets[l.A.Args[0]] {
				continue
			}
			m, key := l.A.Args[0], l.A.Args[1]
			if f := ev.Loop.Carry[m]; f != nil && f.Op == OpFold && 2+k < len(f.Args) {
				n := f.Args[2+k].Args[0]
				if n.Op == OpMapPut && n.Args[0] == m && n.Args[1] == key && (l.A.Op == OpLookupOk || n.Args[2] == tTrue) && (key.Op == OpKey || key.Op == OpElem) {
					return true
				}
			}
		}
		return false
	}
	if v.Op == OpFold {
		var in *Event
		for _, e := range ev.Alts[k] {
			if e.Kind == "loop" && e.Loop.ID == v.S {
				in = e
			}
		}
		if in == nil || v.Args[0] != tFalse {
			return false
		}
		for a := range in.Alts {
			if 2+a >= len(v.Args) {
				return false
			}
			if n := v.Args[2+a].Args[0]; n != v.Args[1] && !grown(n, in, a, sets) {
				return false
			}
		}
		return true
	}
	return false
}

func mentionsLoopVar(t *Term, id string) bool {
	h := false
	walkTerm(t, func(u *Term) bool {
		if u.Op == OpLoopVar && strings.HasPrefix(u.S, id+"~") {
			h = true
		}
		return !h
	})
	return h
}

// ---- C22

func ruleC22(an *Analyzer, r *Report) {
	r.rule("when the first token is read every stack, flag and result field of the options holds a new or constant value")
	r.rule("the parser of a referenced schema has options of its own, with new maps of prefixes and locations")
	parse := an.byRole["Parse"]
	if parse == nil {
		r.violate("anchor", "Parse", "", "there is no Parse")
		return
	}
	self := sym(parse.Params[0].Name(), parse.Params[0].Type())
	state := map[string]bool{}
	for _, n := range an.handlerMod {
		state[n] = true
	}
	s := structOf(an.optType)
	for i := 0; i < s.NumFields(); i++ {
		if p, ok := s.Field(i).Type().Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), an.stackType) {
			state[s.Field(i).Name()] = true
		}
	}
	ex, err := an.root(parse)
	if err != nil {
		r.undecided("Parse: %v", err)
		return
	}
	for i := range ex {
		x := &ex[i]
		var before []*Event
		var li *Event
		for _, ev := range x.St.events {
			if ev.Kind == "loop" && readsTokens(ev) {
				li = ev
				break
			}
			before = append(before, ev)
		}
		if li == nil {
			continue
		}
		r.count("parse_partitions", 1)
		objs := map[*Term]string{}
		for _, n := range sortedKeys(state) {
			var v *Term
			for _, ev := range before {
				if ev.Kind == "store" && ev.Args[0] == fieldAddr(self, n) {
					v = ev.Args[1]
				}
			}
			r.count("fields", 1)
			where := an.pos(li.Pos)
			switch {
			case v == nil:
				r.violate("clean state", "Parse/"+n, an.pos(li.Loop.Pos), "%s keeps what an earlier document left in it when %s", n, pathString(x.St.path))
			case v.isConst() || v == tNil || v.Op == OpListLit && len(v.Args) == 0 || v.Op == OpStruct || v.Op == OpMapNew:
			case v.Op == OpObj:
				if o := objs[v]; o != "" {
					r.violate("clean state", "Parse/"+n, where, "%s and %s share one object", n, o)
				}
				objs[v] = n
				if !strings.HasPrefix(v.S, "Parse") && !strings.Contains(v.S, ".") {
					r.undecided("Parse: %s holds %s", n, showTerm(v))
				}
			default:
				old := ""
				walkTerm(v, func(t *Term) bool {
					for m := range state {
						if t == an.initOf(self, m) {
							old = m
						}
					}
					return true
				})
				if old != "" {
					r.violate("clean state", "Parse/"+n, where, "%s starts with %s, which an earlier document may have changed", n, showTerm(v))
				} else {
					r.undecided("Parse: %s starts with %s", n, showTerm(v))
				}
			}
		}
	}
	r.require(r.Counts["parse_partitions"], "partition of Parse that reads a document")
	an.nestedParsers(r, func(n *nested) {
		r.count("nested_parsers", 1)
		where := an.pos(n.ev.Pos)
		if n.ev.Args[0] == n.recv {
			r.violate("own options", n.site(), where, "a referenced schema is parsed with the options of the schema that refers to it")
			return
		}
		ms := []string{"LocalNameNSMap", "NSSchemaLocationMap"}
		if fieldChosen(n, n.ev.Snap["Extract"]) != tTrue {
			ms = append(ms, "IncludeMap")
		}
		for _, m := range ms {
			v := n.ev.Snap[m]
			if v == nil {
				continue
			}
			r.count("maps", 1)
			shared := false
			walkTerm(n.facts.canon(v), func(t *Term) bool {
				for i := 0; i < s.NumFields(); i++ {
					if _, ok := s.Field(i).Type().Underlying().(*types.Map); ok && t == an.initOf(n.recv, s.Field(i).Name()) {
						shared = true
					}
				}
				return !shared
			})
			if shared {
				r.violate("own maps", n.site()+"/"+m, where, "the parser of a referenced schema shares %s with the schema that refers to it", m)
			}
		}
	})
}

// ---- C21

func ruleC21(an *Analyzer, r *Report) {
	r.rule("a reference is resolved by its name without the prefix")
	r.rule("built-in name => the language's type; else declaration of that name: simple type that is neither list nor union => base, attribute or element => type; else the name")
	r.rule("a prefix leads to the schema its namespace was imported from")
	an.prefixes(r)
	an.getBase(r)
	an.valueType(r)
}

func (an *Analyzer) prefixes(r *Report) {
	for _, h := range []struct {
		role string
		want func(p, l string, q bool) string
	}{
		{"trimNS", func(p, l string, q bool) string { return l }},
		{"nsPrefix", func(p, l string, q bool) string { return p }},
	} {
		f := an.byRole[h.role]
		if f == nil {
			continue
		}
		an.inlineRole[h.role] = true
		ex, err := an.root(f)
		an.inlineRole[h.role] = false
		if err != nil {
			r.undecided("%s: %v", f.Name(), err)
			continue
		}
		p := sym(f.Params[0].Name(), f.Params[0].Type())
		ins := [][2]string{{"xs", "string"}, {"", "string"}, {"tns", "a.B-c_d1"}, {"", "x"}, {"p", ""}, {"", ""}, {"Tns", "xs"}, {"ab", "ab"}}
		for _, w := range an.harvestOf(f).names(1 << 12) {
			ins = append(ins, [2]string{w, "x"}, [2]string{"p", w}, [2]string{"", w}, [2]string{w, w})
		}
		for _, in := range ins {
			name := in[1]
			if in[0] != "" {
				name = in[0] + ":" + in[1]
			}
			c := an.newConc()
			c.lists = true
			c.m[p] = cs(name)
			want := h.want(in[0], in[1], in[0] != "")
			n := 0
			for i := range ex {
				x := &ex[i]
				if !compatible(c, x.St.path) || x.Kind != "return" {
					continue
				}
				open := false
				for _, l := range x.St.path {
					if c.lit(l) < 0 {
						open = true
					}
				}
				if open {
					r.undecided("%s(%q): a condition", f.Name(), name)
					n++
					continue
				}
				n++
				v := c.eval(x.Res[0])
				s, ok := v.str()
				if !ok {
					r.undecided("%s(%q) = %s", f.Name(), name, showTerm(v))
					continue
				}
				r.count("prefix_cases", 1)
				if s != want {
					r.violate("prefix", f.Name(), an.pos(x.Pos), "%s(%s) is %s instead of %s", f.Name(), shortText(name), shortText(s), shortText(want))
				}
			}
			if n == 0 {
				r.undecided("%s(%q): no partition", f.Name(), name)
			}
		}
	}
}

// getBase: resolution within one schema.
func (an *Analyzer) getBase(r *Report) {
	f := an.byRole["getBase"]
	if f == nil {
		r.violate("anchor", "getBase", "", "there is no function resolving names within a schema")
		return
	}
	an.inlineRole["getBase"] = true
	ex, err := an.root(f)
	an.inlineRole["getBase"] = false
	if err != nil {
		r.undecided("%s: %v", f.Name(), err)
		return
	}
	name := sym(f.Params[0].Name(), f.Params[0].Type())
	list := sym(f.Params[1].Name(), f.Params[1].Type())
	type tcase struct {
		kind        string
		list, union bool
		ref, decl   string // the name referred to and the declaration's name
		want        string
	}
	var cases []tcase
	var pairs [][2]string
	for _, decl := range []string{"n", "other", "N", "n2", "2n", "p:n", ""} {
		pairs = append(pairs, [2]string{"n", decl})
	}
	for _, w := range an.harvestOf(f).names(1 << 12) {
		pairs = append(pairs, [2]string{w, w}, [2]string{w, "n"}, [2]string{"n", w})
	}
	for _, k := range append(append([]string{}, nodeKinds...), "") {
		for _, pair := range pairs {
			ref, decl := pair[0], pair[1]
			same := decl == ref
			want := ref
			if k == "SimpleType" {
				for _, l := range []bool{false, true} {
					for _, u := range []bool{false, true} {
						w := ref
						if same && !l && !u {
							w = "Base"
						}
						cases = append(cases, tcase{k, l, u, ref, decl, w})
					}
				}
				continue
			}
			if same && (k == "Attribute" || k == "Element") {
				want = "Type"
			}
			cases = append(cases, tcase{k, false, false, ref, decl, want})
		}
	}
	for _, tc := range cases {
		c := an.newConc()
		c.lists = true
		c.m[name] = cs(tc.ref)
		set := func(t *Term) {
			walkTerm(t, func(u *Term) bool {
				switch u.Op {
				case OpTypeIs:
					if isElemOf(u.Args[0], list) {
						c.m[u] = cb(tc.kind != "" && typeKey(u.T) == "*"+typeKey(an.namedType(tc.kind)))
					}
				case OpField:
					b := u.Args[0]
					for b.Op == OpDeref {
						b = b.Args[0]
					}
					if b.Op == OpAssert && isElemOf(b.Args[0], list) {
						switch u.S {
						case "Name":
							c.m[u] = cs(tc.decl)
						case "List":
							c.m[u] = cb(tc.list)
						case "Union":
							c.m[u] = cb(tc.union)
						default:
							if u.T != nil && isStringType(u.T) {
								c.m[u] = cs("<" + u.S + ">")
							}
						}
					}
				case OpLen:
					if u.Args[0] == list {
						c.m[u] = ci(1)
					}
				}
				return true
			})
		}
		for i := range ex {
			for _, l := range ex[i].St.path {
				set(l.A)
			}
			for _, v := range ex[i].Res {
				set(v)
			}
			for _, ev := range ex[i].St.events {
				for k := range ev.Alts {
					for _, l := range ev.Guard[k] {
						set(l.A)
					}
				}
			}
		}
		// elements themselves are replaced last: the atoms above are found first
		desc := fmt.Sprintf("%s, list %v, union %v, named %s (the reference is to %s)", orNone(tc.kind), tc.list, tc.union, shortText(tc.decl), shortText(tc.ref))
		outs := map[string]*Exit{}
		unknown := false
		for i := range ex {
			x := &ex[i]
			if x.Kind != "return" {
				continue
			}
			var loops []*Event
			for _, ev := range x.St.events {
				if ev.Kind == "loop" {
					loops = append(loops, ev)
				}
			}
			cut := ""
			for _, l := range x.St.path {
				walkTerm(l.A, func(t *Term) bool {
					if t.Op == OpIter {
						cut = t.S
					}
					return true
				})
			}
			cc := []*conc{c}
			for _, ev := range loops {
				if ev.Loop.ID == cut {
					continue // left in its only iteration
				}
				var next []*conc
				for _, k := range cc {
					for a := range ev.Alts {
						if compatible(k, ev.Guard[a]) {
							n := k.choose(ev.Loop.ID, a)
							next = append(next, n)
						}
					}
				}
				cc = next
			}
			for _, k := range cc {
				okp := true
				for _, l := range x.St.path {
					if l.A.Op == OpLt && mentionsIter(l.A) {
						continue
					}
					if k.lit(l) == 0 {
						okp = false
					}
				}
				if !okp {
					continue
				}
				v := k.eval(x.Res[0])
				s, ok := v.str()
				if !ok {
					r.undecided("%s for %s: %s", f.Name(), desc, showTerm(v))
					unknown = true
					continue
				}
				outs[s] = x
			}
		}
		if unknown {
			continue
		}
		r.count("declaration_cases", 1)
		want := tc.want
		if want != tc.ref {
			want = "<" + want + ">"
		}
		if len(outs) == 0 {
			r.undecided("%s for %s: no partition", f.Name(), desc)
		}
		for s, x := range outs {
			if s != want {
				r.violate("resolution", f.Name()+"/"+orNone(tc.kind), an.pos(x.Pos), "a reference resolves to %s instead of %s for a declaration that is %s", shortText(s), shortText(want), desc)
			}
		}
	}
	// every declaration is looked at, and no declaration at all gives the name
	for i := range ex {
		x := &ex[i]
		for _, ev := range x.St.events {
			if ev.Kind == "loop" && ev.Loop.Over != nil && ev.Loop.Over == list && !ev.Loop.Full {
				r.violate("resolution", f.Name()+"/all", an.pos(ev.Loop.Pos), "not every declaration is looked at")
			}
		}
	}
	r.require(r.Counts["declaration_cases"], "declaration case")
}

func orNone(s string) string {
	if s == "" {
		return "something else"
	}
	return s
}

func mentionsIter(t *Term) bool {
	h := false
	walkTerm(t, func(u *Term) bool {
		if u.Op == OpIter {
			h = true
		}
		return !h
	})
	return h
}

func isElemOf(t, list *Term) bool {
	return t.Op == OpElem && t.Args[0] == list
}

// valueType: the order in which a reference is resolved.
func (an *Analyzer) valueType(r *Report) {
	ex, f, err := an.valueTypeExits()
	if err != nil || f == nil {
		r.undecided("GetValueType: %v", err)
		return
	}
	var value, tree *Term
	for _, p := range f.Params {
		if isStringType(p.Type()) {
			value = sym(p.Name(), p.Type())
		} else if _, ok := p.Type().Underlying().(*types.Slice); ok {
			tree = sym(p.Name(), p.Type())
		}
	}
	opt := sym(f.Params[0].Name(), f.Params[0].Type())
	trim := pureApp("xgen.trimNS", types.Typ[types.String], []*Term{value})
	isBuiltin := func(t *Term) bool { // has(table, trimmed name)
		return t.Op == OpLookupOk && tables[t.Args[0]] != nil
	}
	for i := range ex {
		x := &ex[i]
		if !an.succeeds(x) || len(x.Res) == 0 {
			continue
		}
		r.count("resolution_partitions", 1)
		where := an.pos(x.Pos)
		builtin := -1
		for _, l := range x.St.path {
			if isBuiltin(l.A) {
				if l.A.Args[1] != trim && l.A.Args[1] != value {
					r.violate("built-in", f.Name()+"/key", where, "the built-in types are asked for %s instead of the name without prefix", showTerm(l.A.Args[1]))
				}
				if l.A.Args[1] == trim {
					builtin = 0
					if l.V {
						builtin = 1
					}
				}
			}
		}
		if builtin == 1 {
			ok := false
			walkTerm(x.Res[0], func(t *Term) bool {
				if t.Op == OpLookup && tables[t.Args[0]] != nil && t.Args[1] == trim {
					ok = true
				}
				return !ok
			})
			if !ok {
				r.violate("built-in", f.Name(), where, "a built-in name resolves to %s", showTerm(x.Res[0]))
			}
			continue
		}
		if builtin == -1 {
			r.violate("built-in", f.Name()+"/order", where, "a reference is resolved to %s before the built-in names are looked at", showTerm(x.Res[0]))
			continue
		}
		an.resolved(r, f, x, x.Res[0], value, trim, tree, opt, where, 0)
		an.searched(r, f, x, trim, tree, opt, where)
	}
	r.require(r.Counts["resolution_partitions"], "partition of the reference resolution")
	an.includedAll(r, ex, f, opt)
}

// includedAll: the schemas included by included schemas are searched as well.
// A parser given the map of included schemas adds to it, so going through
// what the map held before is not enough: the search has to go round again.
func (an *Analyzer) includedAll(r *Report, exits []Exit, f *ssa.Function, opt *Term) {
	// in a partition that leaves a loop, what the last iteration did stands outside it
	depth := map[token.Pos]int{}
	for i := range exits {
		eachEventIn(exits[i].St.events, nil, func(ev *Event, ctx []altCtx) {
			if ev.Kind == "call" && ev.Fn == "xgen.Parse" && len(ctx) > depth[ev.Pos] {
				depth[ev.Pos] = len(ctx)
			}
		})
	}
	for i := range exits {
		eachEventIn(exits[i].St.events, nil, func(ev *Event, ctx []altCtx) {
			if ev.Kind != "call" || ev.Fn != "xgen.Parse" || len(ctx) < depth[ev.Pos] || ev.Snap == nil || ev.Snap["IncludeMap"] != an.initOf(opt, "IncludeMap") || len(ctx) == 0 {
				return
			}
			over := ctx[len(ctx)-1].loop.Loop.Over
			if over == nil {
				// goes on for as long as its own condition says: does it look at the map again?
				in := ctx[len(ctx)-1]
				again := false
				eachEvent(in.loop.Alts[in.alt], func(e *Event, _ *Event) {
					if e.Kind == "maprange" || e.Kind == "loop" && e.Loop.Kind == "map" {
						again = true
					}
				})
				for _, l := range in.loop.Guard[in.alt] {
					again = again || contains(l.A, an.initOf(opt, "IncludeMap"))
				}
				if again {
					r.count("included_searches", 1)
				} else {
					r.undecided("%s: search at %s", f.Name(), an.pos(ev.Pos))
				}
				return
			}
			if !contains(over, an.initOf(opt, "IncludeMap")) && over.Op != OpListRep {
				return
			}
			r.count("included_searches", 1)
			where := an.pos(ev.Pos)
			if len(ctx) < 2 {
				r.violate("resolution", f.Name()+"/includes of includes", where, "the schemas that an included schema includes are not searched: only what the map held when the search began is")
				return
			}
			out := ctx[len(ctx)-2].loop
			again := true
			for k := range out.Alts {
				ok := false
				for _, l := range out.Guard[k] {
					walkTerm(l.A, func(t *Term) bool {
						g := out.Loop.Carry[t]
						if g == nil || g.Op != OpFold || 2+k >= len(g.Args) {
							return true
						}
						n := g.Args[2+k].Args[0]
						if n.Op != OpFold {
							ok = ok || n != t && n != tFalse
							return true
						}
						// every alternative that parses leads to another round
						for a := range n.Args[2:] {
							in := ctx[len(ctx)-1]
							if in.loop.Loop.ID == n.S && a == in.alt {
								if v := n.Args[2+a].Args[0]; v != n.Args[1] && v != tFalse {
									ok = true
								}
							}
						}
						return true
					})
				}
				again = again && ok
			}
			if !again {
				r.violate("resolution", f.Name()+"/includes of includes", where, "the schemas that an included schema includes are not searched: the search does not go round again after it")
			}
		})
	}
	if r.Counts["included_searches"] == 0 && len(r.Undecided) == 0 {
		r.undecided("%s: no loop over the included schemas found", f.Name())
	}
}

// searched: a name not declared in the schema at hand is looked for in others,
// unless only extracting or those are not at hand.
func (an *Analyzer) searched(r *Report, f *ssa.Function, x *Exit, trim, tree, opt *Term, where string) {
	local := pureApp("xgen.getBase", types.Typ[types.String], []*Term{trim, tree})
	t := x.Res[0]
	if s, ok := t.str(); t != trim && t != local && !(ok && s == "") {
		return
	}
	ex := an.initOf(opt, "Extract")
	for _, l := range x.St.path {
		switch {
		case !l.V && l.A.Op == OpEq && contains(l.A, local) && (l.A.Args[0] == trim || l.A.Args[1] == trim):
			return // declared here
		case l.V && l.A == ex, l.V && l.A.Op == OpApp && l.A.S == "xgen.isValidURL":
			return
		}
	}
	r.count("searched_elsewhere", 1)
	found := false
	eachEvent(x.St.events, func(ev *Event, in *Event) {
		if ev.Kind == "call" && ev.Fn == "xgen.Parse" {
			found = true
		}
	})
	m := &State{heap: map[*Term]*Term{}, facts: newFacts(), an: an}
	files := m.mapContent(an.initOf(opt, "ParseFileMap"))
	for _, l := range x.St.path {
		walkTerm(l.A, func(u *Term) bool {
			if (u.Op == OpLookup || u.Op == OpLookupOk) && u.Args[0] == files {
				found = true
			}
			return !found
		})
	}
	if !found {
		r.violate("resolution", f.Name()+"/unsearched", where, "a name the schema may not declare resolves to %s without the included or imported schemas being searched", showTerm(t))
	}
}

// guardedFound: among the literals is that b is not the name asked for.
func guardedFound(ls []*Term, b, trim *Term) bool {
	for _, l := range ls {
		if l.Op == OpNot && l.Args[0].Op == OpEq {
			e := l.Args[0]
			if (e.Args[0] == b && e.Args[1] == trim) || (e.Args[0] == trim && e.Args[1] == b) {
				return true
			}
		}
	}
	return false
}

// resolved: t is the name itself or what the name resolves to in a schema.
func (an *Analyzer) resolved(r *Report, f *ssa.Function, x *Exit, t, value, trim, tree, opt *Term, where string, d int) {
	bad := func() {
		r.violate("resolution", f.Name()+"/result", where, "a reference resolves to %s when %s", showTerm(t), pathString(x.St.path))
	}
	if s, ok := t.str(); ok && s == "" {
		// only when that is what the declaration says, or nothing can be looked up
		for _, l := range x.St.path {
			if l.V && l.A.Op == OpEq && (l.A.Args[0] == tEmpty || l.A.Args[1] == tEmpty) {
				o := l.A.Args[0]
				if o == tEmpty {
					o = l.A.Args[1]
				}
				if o.Op == OpApp && o.S == "xgen.getBase" {
					return
				}
			}
		}
		bad()
		return
	}
	if t == trim {
		return
	}
	if t == value {
		r.violate("resolution", f.Name()+"/result", where, "a reference resolves to itself with its prefix")
		return
	}
	if t.Op == OpLoopVar && d > 0 {
		return // what an enclosing search came to so far
	}
	if t.Op == OpFold && d < 3 {
		for _, a := range t.Args[2:] {
			if a.Args[0] != t.Args[1] {
				an.resolved(r, f, x, a.Args[0], value, trim, tree, opt, where, d+1)
				if b := a.Args[0]; b.Op == OpApp && b.S == "xgen.getBase" && !guardedFound(a.Args[1:], b, trim) {
					r.violate("resolution", f.Name()+"/undone", where, "a schema that does not declare the name undoes what another one says: %s is taken without knowing it to be found", showTerm(b))
				}
			}
		}
		if t.Args[0] != tEmpty {
			an.resolved(r, f, x, t.Args[0], value, trim, tree, opt, where, d+1)
		}
		return
	}
	if t.Op == OpApp && t.S == "xgen.getBase" {
		if t.Args[0] != trim {
			r.violate("resolution", f.Name()+"/name", where, "a schema is searched for %s instead of the name without prefix", showTerm(t.Args[0]))
			return
		}
		if t.Args[1] == tree {
			return
		}
		s := t.Args[1]
		if s.Op == OpHavoc && strings.Contains(s.S, "ProtoTree") {
			an.lookedIn(r, f, x, s, value, opt, where)
			return
		}
		if s.Op == OpLookup {
			an.location(r, f, s.Args[1], value, opt, where)
			return
		}
		r.undecided("%s: schema %s", f.Name(), showTerm(s))
		return
	}
	if t.Op == OpHavoc || t.Op == OpSym {
		r.undecided("%s: result %s", f.Name(), showTerm(t))
		return
	}
	bad()
}

// lookedIn: the schema a nested parser read is the one the prefix leads to, or
// an included one.
func (an *Analyzer) lookedIn(r *Report, f *ssa.Function, x *Exit, havoc, value, opt *Term, where string) {
	eachEvent(x.St.events, func(ev *Event, in *Event) {
		if ev.Kind != "call" || ev.Fn != "xgen.Parse" || ev.Snap == nil || ev.Res == nil || !strings.HasPrefix(havoc.S, ev.Res.S+".") {
			return
		}
		fp := ev.Snap["FilePath"]
		if in != nil {
			inc := false
			walkTerm(fp, func(t *Term) bool {
				if contains(t, an.initOf(opt, "IncludeMap")) || t.Op == OpKey {
					inc = true
				}
				return !inc
			})
			if inc {
				r.count("included_lookups", 1)
				return
			}
		}
		an.location(r, f, fp, value, opt, where)
	})
}

// location: t is the location the prefix of value leads to.
func (an *Analyzer) location(r *Report, f *ssa.Function, t, value, opt *Term, where string) {
	r.count("locations", 1)
	t = cleanKey(t)
	st := &State{heap: map[*Term]*Term{}, facts: newFacts(), an: an}
	pre := pureApp("xgen.nsPrefix", types.Typ[types.String], []*Term{value})
	var looks []*Term
	walkTerm(t, func(u *Term) bool {
		if u.Op == OpLookup {
			looks = append(looks, u)
		}
		return true
	})
	m := func(n string) *Term { return st.mapContent(an.initOf(opt, n)) }
	ok := false
	for _, u := range looks {
		if u.Args[0] == m("NSSchemaLocationMap") && u.Args[1].Op == OpLookup && u.Args[1].Args[0] == m("LocalNameNSMap") && u.Args[1].Args[1] == pre {
			ok = true
		}
	}
	if !ok {
		r.violate("location", f.Name()+"/location", where, "a reference is looked up in %s, which is not where its prefix leads", showTerm(t))
		return
	}
	if !contains(t, an.initOf(opt, "FileDir")) && !contains(t, an.initOf(opt, "FilePath")) {
		r.violate("location", f.Name()+"/directory", where, "the imported schema is not looked for beside the importing one: %s", showTerm(t))
	}
}
