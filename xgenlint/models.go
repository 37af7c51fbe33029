package main

// Models of library functions and of the module's own primitives.

import (
	"fmt"
	"go/token"
	"go/types"
	"path"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var purePkgs = []string{"strings.", "strconv.", "unicode.", "unicode/utf8.", "path/filepath.", "path.", "reflect.", "(reflect.Value).", "(reflect.Type).", "(*reflect.rtype).",
	"errors.", "regexp.", "(*regexp.Regexp).", "net/url.", "html.", "bytes.", "slices.", "maps.", "cmp.", "(*strings.Replacer).", "go/token.", "(*net/url.URL).", "(go/token.Token)."}

var impure = map[string]bool{
	"path/filepath.Walk": true, "path/filepath.WalkDir": true, "path/filepath.Glob": true, "path/filepath.Abs": true, "path/filepath.EvalSymlinks": true,
	"(reflect.Value).Call": true, "(reflect.Value).CallSlice": true, "(reflect.Value).Set": true, "(reflect.Value).SetString": true, "(reflect.Value).SetMapIndex": true,
	"reflect.Copy": true, "reflect.Append": true, "strconv.Atoi": true, "strconv.ParseInt": true, "strconv.ParseUint": true, "strconv.ParseFloat": true, "strconv.ParseBool": true, "strconv.Unquote": true,
	"slices.Sort": true, "slices.SortFunc": true, "slices.Reverse": true,
}

var pureFns = map[string]bool{
	"fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Sprintln": true, "fmt.Errorf": true, "os.IsNotExist": true, "os.IsExist": true, "os.IsPermission": true,
	"encoding/xml.NewDecoder": false, "golang.org/x/net/html/charset.NewReaderLabel": false,
	"sort.Reverse": true, "sort.SearchStrings": true, "sort.Search": true,
}

func isPure(name string) bool {
	if impure[name] {
		return false
	}
	if v, ok := pureFns[name]; ok {
		return v
	}
	for _, p := range purePkgs {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

var foldStr = map[string]func(a []string) (string, bool){
	"strings.ToLower":   func(a []string) (string, bool) { return strings.ToLower(a[0]), true },
	"strings.ToUpper":   func(a []string) (string, bool) { return strings.ToUpper(a[0]), true },
	"strings.TrimSpace": func(a []string) (string, bool) { return strings.TrimSpace(a[0]), true },
	"strings.Title":     func(a []string) (string, bool) { return strings.Title(a[0]), true },
	"strings.ToTitle":   func(a []string) (string, bool) { return strings.ToTitle(a[0]), true },
	"strings.TrimPrefix": func(a []string) (string, bool) {
		return strings.TrimPrefix(a[0], a[1]), true
	},
	"strings.TrimSuffix":      func(a []string) (string, bool) { return strings.TrimSuffix(a[0], a[1]), true },
	"strings.Trim":            func(a []string) (string, bool) { return strings.Trim(a[0], a[1]), true },
	"strings.TrimLeft":        func(a []string) (string, bool) { return strings.TrimLeft(a[0], a[1]), true },
	"strings.TrimRight":       func(a []string) (string, bool) { return strings.TrimRight(a[0], a[1]), true },
	"strings.ReplaceAll":      func(a []string) (string, bool) { return strings.ReplaceAll(a[0], a[1], a[2]), true },
	"path/filepath.Dir":       func(a []string) (string, bool) { return filepath.Dir(a[0]), true },
	"path/filepath.Clean":     func(a []string) (string, bool) { return filepath.Clean(a[0]), true },
	"path/filepath.ToSlash":   func(a []string) (string, bool) { return a[0], true },
	"path/filepath.FromSlash": func(a []string) (string, bool) { return a[0], true },
	"path.Base":               func(a []string) (string, bool) { return path.Base(a[0]), true },
	"path.Dir":                func(a []string) (string, bool) { return path.Dir(a[0]), true },
	"path.Ext":                func(a []string) (string, bool) { return path.Ext(a[0]), true },
	"path.Clean":              func(a []string) (string, bool) { return path.Clean(a[0]), true },
	"path/filepath.Rel":       func(a []string) (string, bool) { s, err := filepath.Rel(a[0], a[1]); return s, err == nil },
	"path/filepath.Ext":       func(a []string) (string, bool) { return filepath.Ext(a[0]), true },
	"path/filepath.Base":      func(a []string) (string, bool) { return filepath.Base(a[0]), true },
	"xgen.ToTitle":            func(a []string) (string, bool) { return titleStr(a[0]), true },
}

var foldBool = map[string]func(a []string) bool{
	"strings.HasPrefix": func(a []string) bool { return strings.HasPrefix(a[0], a[1]) },
	"strings.HasSuffix": func(a []string) bool { return strings.HasSuffix(a[0], a[1]) },
	"strings.Contains":  func(a []string) bool { return strings.Contains(a[0], a[1]) },
	"strings.EqualFold": func(a []string) bool { return strings.EqualFold(a[0], a[1]) },
}

func constStrings(args []*Term) ([]string, bool) {
	var o []string
	for _, a := range args {
		s, ok := a.str()
		if !ok {
			return nil, false
		}
		o = append(o, s)
	}
	return o, true
}

// pureApp builds an application, folding constants and unifying spellings.
func pureApp(name string, t types.Type, args []*Term) *Term {
	switch name {
	case "strings.Replace":
		if n, ok := args[3].num(); ok && n < 0 {
			name, args = "strings.ReplaceAll", args[:3]
		}
	case "fmt.Sprint":
		if len(args) == 1 && args[0].Op == OpListLit && len(args[0].Args) == 1 {
			return fmtArg(args[0].Args[0], 'v', "%v")
		}
	case "strings.Count":
	}
	if name == "strings.Join" && args[0].Op == OpApp && args[0].S == "strings.Split" {
		if sep, ok := args[0].Args[1].str(); ok && sep != "" {
			name, args = "strings.ReplaceAll", []*Term{args[0].Args[0], args[0].Args[1], args[1]}
		}
	}
	if name == "strings.ReplaceAll" && args[1] == args[2] {
		return args[0]
	}
	if f, ok := foldStr[name]; ok {
		if ss, ok := constStrings(args); ok {
			if r, ok := f(ss); ok {
				return cs(r)
			}
		}
	}
	if f, ok := foldBool[name]; ok {
		if ss, ok := constStrings(args); ok {
			return cb(f(ss))
		}
		if len(args) == 2 && args[0].Op == OpConcat {
			pre, suf, _ := constAffix(args[0])
			if c, ok := args[1].str(); ok {
				switch name {
				case "strings.HasPrefix":
					if strings.HasPrefix(pre, c) {
						return tTrue
					}
					if pre != "" && !strings.HasPrefix(c, pre) {
						return tFalse
					}
				case "strings.HasSuffix":
					if strings.HasSuffix(suf, c) {
						return tTrue
					}
					if suf != "" && !strings.HasSuffix(c, suf) {
						return tFalse
					}
				}
			}
		}
	}
	if (name == "strings.TrimSuffix" || name == "strings.TrimPrefix") && len(args) == 2 && args[0].Op == OpConcat {
		if cut, ok := args[1].str(); ok {
			ps := args[0].Args
			e := len(ps) - 1
			if name == "strings.TrimPrefix" {
				e = 0
			}
			if s, ok := ps[e].str(); ok {
				r := strings.TrimSuffix(s, cut)
				known := strings.HasSuffix(s, cut) || !strings.HasSuffix(cut, s)
				if name == "strings.TrimPrefix" {
					r = strings.TrimPrefix(s, cut)
					known = strings.HasPrefix(s, cut) || !strings.HasPrefix(cut, s)
				}
				if known {
					n := append([]*Term{}, ps...)
					n[e] = cs(r)
					return mkConcat(n...)
				}
			}
		}
	}
	switch name {
	case "path.Join":
		if len(args) == 1 && args[0].Op == OpListLit {
			if ss, ok := constStrings(args[0].Args); ok {
				return cs(path.Join(ss...))
			}
		}
	case "path/filepath.Rel#1":
		if ss, ok := constStrings(args); ok {
			if _, err := filepath.Rel(ss[0], ss[1]); err == nil {
				return tNil
			}
		}
	case "strings.Compare", "cmp.Compare":
		if ss, ok := constStrings(args); ok {
			return ci(int64(strings.Compare(ss[0], ss[1])))
		}
	case "strings.Index", "strings.LastIndex":
		if ss, ok := constStrings(args); ok {
			if name == "strings.Index" {
				return ci(int64(strings.Index(ss[0], ss[1])))
			}
			return ci(int64(strings.LastIndex(ss[0], ss[1])))
		}
	}
	if name == "path/filepath.Join" && len(args) == 1 && args[0].Op == OpListLit {
		if ss, ok := constStrings(args[0].Args); ok {
			return cs(filepath.Join(ss...))
		}
		return mk(OpApp, name, 0, t, args...)
	}
	return mk(OpApp, name, 0, t, args...)
}

func fmtArg(a *Term, verb byte, spec string) *Term {
	x := a
	var T types.Type
	if a.Op == OpIface {
		x, T = a.Args[0], a.T
	}
	if T != nil {
		if b, ok := T.Underlying().(*types.Basic); ok {
			switch {
			case b.Info()&types.IsString != 0 && (spec == "%s" || spec == "%v"):
				return x
			case b.Info()&types.IsInteger != 0 && (spec == "%d" || spec == "%v"):
				if n, ok := x.num(); ok {
					return cs(strconv.FormatInt(n, 10))
				}
				return mk(OpApp, "itoa", 0, types.Typ[types.String], x)
			}
		}
		if isByteSlice(T) && spec == "%s" {
			return x
		}
	}
	return mk(OpApp, "fmt"+spec, 0, types.Typ[types.String], x)
}

// sprintf expands a constant format string.
func sprintf(format string, args []*Term) *Term {
	var parts []*Term
	k := 0
	for i := 0; i < len(format); {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			parts = append(parts, cs(format[i:]))
			break
		}
		parts = append(parts, cs(format[i:i+j]))
		i += j
		e := i + 1
		for e < len(format) && strings.IndexByte("+-# 0123456789.", format[e]) >= 0 {
			e++
		}
		if e >= len(format) {
			parts = append(parts, cs("%!(NOVERB)"))
			break
		}
		spec := format[i : e+1]
		i = e + 1
		if spec == "%%" {
			parts = append(parts, cs("%"))
			continue
		}
		if k >= len(args) {
			parts = append(parts, cs("%!"+spec[len(spec)-1:]+"(MISSING)"))
			continue
		}
		parts = append(parts, fmtArg(args[k], spec[len(spec)-1], spec))
		k++
	}
	if k < len(args) {
		parts = append(parts, cs("%!(EXTRA)"))
	}
	return mkConcat(parts...)
}

func listArgs(t *Term) ([]*Term, bool) {
	if t.Op == OpNil {
		return nil, true
	}
	if t.Op == OpListLit {
		return t.Args, true
	}
	return nil, false
}

// bufOf returns the address of the text of a buffer-like writer.
func bufOf(t *Term) *Term {
	if t.Op == OpIface && isBuf(t.T) {
		return t.Args[0]
	}
	return nil
}

func (st *State) bufAppend(ptr, s *Term) {
	a := fieldAddr(ptr, "$buf")
	st.heap[a] = mkConcat(st.load(a, types.Typ[types.String]), s)
}

func (an *Analyzer) model(c conf, in *ssa.Call, fn *ssa.Function, cc *ssa.CallCommon, args []*Term, pos token.Pos, site string) ([]callRes, bool) {
	st := c.st
	ret := func(rs ...*Term) ([]callRes, bool) {
		for i, r := range rs {
			rs[i] = st.facts.canon(r)
		}
		setRes(c, in, rs)
		return one(c), true
	}
	name := fnName(fn)
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	str := types.Typ[types.String]

	if fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Synthetic != "" {
		return ret() // initialiser of a dependency
	}
	// ---- module primitives
	if an.inModule(fn) {
		if an.isStackMethod(fn) {
			return an.stackModel(c, in, fn, args, pos)
		}
		if r := an.roles[fn]; r != "" && !an.inlineRole[r] {
			switch r {
			case "NewStack":
				o := mk(OpObj, fmt.Sprintf("%s>%s.%s", c.fr.ctx, c.fr.fn.Name(), site), 0, fn.Signature.Results().At(0).Type())
				st.heap[fieldAddr(o, "$stk")] = mkStk(tNil, 0, nil)
				return ret(o)
			case "Parse":
				call := an.effectCall(c, in, "xgen.Parse", cc.Signature(), args, pos, site)
				for _, f := range an.optionsMod {
					a := fieldAddr(args[0], f)
					st.heap[a] = mk(OpHavoc, call.S+"."+f, 0, an.optionsField(f))
				}
				return one(c), true
			case "GetValueType", "callFuncByName", "GetFileList":
				an.effectCall(c, in, "xgen."+r, cc.Signature(), args, pos, site)
				if r == "callFuncByName" && len(args) > 0 {
					x := args[0]
					if x.Op == OpIface {
						x = x.Args[0]
					}
					if an.isGenPtr(x) {
						an.havocGen(c, x, site)
					}
					if len(args) > 0 && an.isOptionsPtr(x) {
						for _, f := range an.handlerMod {
							st.heap[fieldAddr(x, f)] = mk(OpHavoc, fmt.Sprintf("%s/%s.%s", c.fr.ctx, site, f), 0, an.optionsField(f))
						}
					}
				}
				return one(c), true
			case "Gen":
				an.effectCall(c, in, "xgen.gen:"+fn.Name(), cc.Signature(), args, pos, site)
				return one(c), true
			case "Emitter":
				an.effectCall(c, in, "xgen.emit:"+fn.Name(), cc.Signature(), args, pos, site)
				if len(args) > 0 && an.isGenPtr(args[0]) {
					an.havocGen(c, args[0], site)
				}
				return one(c), true
			default:
				return ret(pureApp("xgen."+r, fn.Signature.Results().At(0).Type(), args))
			}
		}
		return nil, false
	}

	switch name {
	case "fmt.Sprintf":
		if f, ok := args[0].str(); ok {
			if as, ok := listArgs(args[1]); ok {
				return ret(sprintf(f, as))
			}
		}
	case "fmt.Sprint", "fmt.Sprintln":
		if as, ok := listArgs(args[0]); ok {
			var ps []*Term
			allStr := true
			for _, a := range as {
				ps = append(ps, fmtArg(a, 'v', "%v"))
				if a.Op != OpIface || !isStringType(a.T) {
					allStr = false
				}
			}
			if name == "fmt.Sprint" && (allStr || len(as) == 1) {
				return ret(mkConcat(ps...))
			}
		}
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString":
		if b := bufOf(args[0]); b != nil {
			var s *Term
			switch name {
			case "io.WriteString":
				s = args[1]
			case "fmt.Fprintf":
				if f, ok := args[1].str(); ok {
					if as, ok := listArgs(args[2]); ok {
						s = sprintf(f, as)
					}
				}
			default:
				if as, ok := listArgs(args[1]); ok {
					var ps []*Term
					for i, a := range as {
						if i > 0 && name == "fmt.Fprintln" {
							ps = append(ps, cs(" "))
						}
						ps = append(ps, fmtArg(a, 'v', "%v"))
					}
					if name == "fmt.Fprintln" {
						ps = append(ps, cs("\n"))
					}
					s = mkConcat(ps...)
				}
			}
			if s != nil {
				st.bufAppend(b, s)
				return ret(mk(OpHavoc, "n", 0, types.Typ[types.Int]), tNil)
			}
		}
		// the text handed to a file
		if name == "fmt.Fprintf" {
			if f, ok := args[1].str(); ok {
				if as, ok := listArgs(args[2]); ok {
					an.effectCall(c, in, "write", cc.Signature(), []*Term{unwrap(args[0]), sprintf(f, as)}, pos, site)
					return one(c), true
				}
			}
		}
		if name == "fmt.Fprint" || name == "fmt.Fprintln" {
			if as, ok := listArgs(args[1]); ok {
				var ps []*Term
				for _, a := range as {
					ps = append(ps, fmtArg(a, 'v', "%v"))
				}
				if name == "fmt.Fprintln" {
					ps = append(ps, cs("\n"))
				}
				an.effectCall(c, in, "write", cc.Signature(), []*Term{unwrap(args[0]), mkConcat(ps...)}, pos, site)
				return one(c), true
			}
		}
		if name == "io.WriteString" {
			an.effectCall(c, in, "write", cc.Signature(), []*Term{unwrap(args[0]), args[1]}, pos, site)
			return one(c), true
		}
	case "(*os.File).Write", "(*os.File).WriteString":
		an.effectCall(c, in, "write", cc.Signature(), args, pos, site)
		return one(c), true
	case "bufio.NewWriter":
		o := mk(OpApp, "bufio.NewWriter", 0, fn.Signature.Results().At(0).Type(), args...)
		return ret(o)
	case "(*bufio.Writer).WriteString", "(*bufio.Writer).Write":
		an.effectCall(c, in, "write", cc.Signature(), args, pos, site)
		return one(c), true
	case "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString", "(*bytes.Buffer).Write", "(*strings.Builder).Write":
		st.bufAppend(args[0], args[1])
		return ret(mk(OpHavoc, "n", 0, types.Typ[types.Int]), tNil)
	case "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteByte":
		st.bufAppend(args[0], runeStr(args[1]))
		return ret(tNil)
	case "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteRune":
		st.bufAppend(args[0], runeStr(args[1]))
		return ret(mk(OpHavoc, "n", 0, types.Typ[types.Int]), tNil)
	case "(*strings.Builder).String", "(*bytes.Buffer).String", "(*bytes.Buffer).Bytes":
		return ret(st.load(fieldAddr(args[0], "$buf"), str))
	case "(*strings.Builder).Len", "(*bytes.Buffer).Len":
		return ret(mkLen(st.load(fieldAddr(args[0], "$buf"), str)))
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		return ret()
	case "(*strings.Builder).Reset", "(*bytes.Buffer).Reset":
		st.heap[fieldAddr(args[0], "$buf")] = tEmpty
		return ret()
	case "strings.NewReplacer":
		return ret(mk(OpApp, "strings.NewReplacer", 0, fn.Signature.Results().At(0).Type(), args...))
	case "strings.Join":
		if as, ok := listArgs(args[0]); ok {
			var ps []*Term
			for i, a := range as {
				if i > 0 {
					ps = append(ps, args[1])
				}
				ps = append(ps, a)
			}
			return ret(mkConcat(ps...))
		}
		if s, ok := args[1].str(); ok {
			if r := joinSep(args[0], s); r != nil {
				return ret(r)
			}
		}
	case "strconv.Itoa":
		return ret(fmtArg(mkIface(args[0], types.Typ[types.Int]), 'd', "%d"))
	case "strconv.FormatInt":
		if n, ok := args[1].num(); ok && n == 10 {
			return ret(fmtArg(mkIface(args[0], types.Typ[types.Int]), 'd', "%d"))
		}
	case "strings.Repeat":
		if s, ok := args[0].str(); ok {
			if n, ok := args[1].num(); ok && n >= 0 && n < 1000 {
				return ret(cs(strings.Repeat(s, int(n))))
			}
		}
	case "strings.Split":
		// a non-empty separator always yields at least one part
		t := pureApp(name, fn.Signature.Results().At(0).Type(), args)
		if s, ok := args[1].str(); ok && s != "" {
			st.facts.lo[mkLen(t)] = max(1, st.facts.lo[mkLen(t)])
		}
		return ret(t)
	case "sort.Sort", "sort.Stable", "sort.Strings", "sort.Slice", "sort.SliceStable", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc", "sort.Ints":
		l := args[0]
		if l.Op == OpIface {
			l = l.Args[0]
		}
		st.event(&Event{Kind: "sort", Fn: name, Pos: pos, Args: args, Site: c.fr.fn.String()})
		srt := mk(OpSorted, "", 0, l.T, l)
		if l.Op != OpNil && !(l.Op == OpListLit && len(l.Args) == 0) {
			f := func(t *Term) *Term {
				if t == l {
					return srt
				}
				if t.Op == OpSorted {
					return t
				}
				return nil
			}
			s := newSubst(f)
			for v, t := range c.fr.env {
				c.fr.env[v] = s.apply(t)
			}
			for a, v := range st.heap {
				st.heap[a] = s.apply(v)
			}
			st.renames = append(st.renames, f)
		}
		return ret()
	case "os.Exit":
		st.event(&Event{Kind: "exit", Fn: "os.Exit", Pos: pos, Args: args})
		return []callRes{{cont: false, c: c, exit: Exit{St: st, Res: args, Kind: "exit", Pos: pos}}}, true
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit":
		st.event(&Event{Kind: "exit", Fn: name, Pos: pos, Args: []*Term{ci(1)}})
		return []callRes{{cont: false, c: c, exit: Exit{St: st, Res: []*Term{ci(1)}, Kind: "exit", Pos: pos}}}, true
	case "io/ioutil.ReadFile", "os.ReadFile":
	}
	if isPure(name) {
		n := fn.Signature.Results().Len()
		if n == 1 {
			return ret(pureApp(name, fn.Signature.Results().At(0).Type(), args))
		}
	}
	return nil, false
}

func unwrap(t *Term) *Term {
	if t.Op == OpIface {
		return t.Args[0]
	}
	return t
}

func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func runeStr(t *Term) *Term {
	if n, ok := t.num(); ok {
		return cs(string(rune(n)))
	}
	return mk(OpApp, "string(rune)", 0, types.Typ[types.String], t)
}

// havocGen: what an emitter may change in its generator.
func (an *Analyzer) havocGen(c conf, x *Term, site string) {
	for _, f := range an.genMod {
		c.st.heap[fieldAddr(x, f)] = mk(OpHavoc, fmt.Sprintf("%s/%s.%s", c.fr.ctx, site, f), 0, fieldType(an.genType, f))
	}
}

// joinList turns the concatenation of a list into text.
func joinList(l, before, after *Term) *Term {
	switch l.Op {
	case OpNil:
		return tEmpty
	case OpListLit:
		var ps []*Term
		for _, a := range l.Args {
			ps = append(ps, before, a, after)
		}
		return mkConcat(ps...)
	case OpListCat:
		var ps []*Term
		for _, a := range l.Args {
			p := joinList(a, before, after)
			if p == nil {
				return nil
			}
			ps = append(ps, p)
		}
		return mkConcat(ps...)
	case OpListRep:
		var alts []*Term
		for _, a := range l.Args {
			p := joinList(a.Args[0], before, after)
			if p == nil {
				return nil
			}
			alts = append(alts, mk(OpAlt, "", 0, nil, append([]*Term{p}, a.Args[1:]...)...))
		}
		return mk(OpRep, l.S, l.I, types.Typ[types.String], alts...)
	}
	return nil
}

// joinSep writes out the text of a list joined by sep.  With a separator, the
// list has to contain a literal part: what stands before it is followed by
// the separator and what stands after it is preceded by one, however often
// the loops around it ran.
func joinSep(l *Term, sep string) *Term {
	if sep == "" {
		return joinList(l, tEmpty, tEmpty)
	}
	if l.Op != OpListCat {
		return nil
	}
	at := -1
	for i, a := range l.Args {
		if a.Op == OpListLit && len(a.Args) > 0 {
			at = i
			break
		}
	}
	if at < 0 {
		return nil
	}
	var ps []*Term
	for i, a := range l.Args {
		before, after := tEmpty, tEmpty
		switch {
		case i < at:
			after = cs(sep)
		case i > at:
			before = cs(sep)
		default:
			for k, x := range a.Args {
				if k > 0 {
					ps = append(ps, cs(sep))
				}
				ps = append(ps, x)
			}
			continue
		}
		p := joinList(a, before, after)
		if p == nil {
			return nil
		}
		ps = append(ps, p)
	}
	return mkConcat(ps...)
}

func (an *Analyzer) isStackMethod(fn *ssa.Function) bool {
	if an.stackType == nil || fn.Signature.Recv() == nil {
		return false
	}
	p, ok := fn.Signature.Recv().Type().(*types.Pointer)
	if !ok || !types.Identical(p.Elem(), an.stackType) {
		return false
	}
	switch fn.Name() {
	case "Push", "Pop", "Peek", "Len", "Empty":
		return !an.inlineRole["Stack"]
	}
	return false
}

func (an *Analyzer) stackModel(c conf, in *ssa.Call, fn *ssa.Function, args []*Term, pos token.Pos) ([]callRes, bool) {
	st := c.st
	ref := args[0]
	if !an.nonNil(c, ref) {
		an.hazard(c, "nil dereference", pos, ref)
	}
	base, popped, pushed := st.stack(ref)
	n := st.facts.canon(stkLen(base, popped, pushed))
	switch fn.Name() {
	case "Len":
		setRes(c, in, []*Term{n})
		return one(c), true
	case "Empty":
		setRes(c, in, []*Term{st.facts.canon(mkEq(n, ci(0)))})
		return one(c), true
	case "Push":
		st.event(&Event{Kind: "push", Fn: an.stackName(ref), Pos: pos, Args: []*Term{ref, args[1]}, Site: c.fr.fn.String()})
		st.setStack(ref, base, popped, append(append([]*Term{}, pushed...), args[1]))
		return one(c), true
	}
	pop := fn.Name() == "Pop"
	take := func(k conf) callRes {
		var v *Term
		np, npushed := popped, pushed
		if len(pushed) > 0 {
			v = pushed[len(pushed)-1]
			npushed = pushed[:len(pushed)-1]
		} else {
			v = mk(OpTop, "", popped, nil, base)
			np = popped + 1
		}
		if pop {
			k.st.event(&Event{Kind: "pop", Fn: an.stackName(ref), Pos: pos, Args: []*Term{ref, v}, Site: k.fr.fn.String()})
			k.st.setStack(ref, base, np, npushed)
		}
		setRes(k, in, []*Term{v})
		return callRes{cont: true, c: k}
	}
	none := func(k conf) callRes {
		if pop {
			k.st.event(&Event{Kind: "popnil", Fn: an.stackName(ref), Pos: pos, Args: []*Term{ref}, Site: k.fr.fn.String()})
		}
		setRes(k, in, []*Term{tNil})
		return callRes{cont: true, c: k}
	}
	empty := mkEq(n, ci(0))
	switch st.facts.known(empty) {
	case 1:
		return []callRes{none(c)}, true
	case 0:
		return []callRes{take(c)}, true
	}
	c2 := c.clone()
	var out []callRes
	if c.st.assume(empty, false) {
		out = append(out, take(c))
	}
	if c2.st.assume(empty, true) {
		out = append(out, none(c2))
	}
	return out, true
}

// stackName is the name of the options field a stack is kept in.
func (an *Analyzer) stackName(ref *Term) string {
	for t := ref; t != nil; {
		if t.Op == OpField || t.Op == OpFieldAddr {
			if t.S != "$stk" {
				return t.S
			}
		}
		if len(t.Args) == 0 {
			break
		}
		t = t.Args[0]
	}
	return ref.String()
}

func (an *Analyzer) stackElem(base *Term) types.Type {
	return an.stackElems[an.stackName(base)]
}
