package main

// Concretisation of terms: replacing the sources a type name can come from by
// each of the finitely many built-in names, by nothing, or by a generic user
// identifier, and simplifying what follows from that.

import (
	"fmt"
	"go/types"
	"net/url"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"unicode"
)

// userSym stands for the name of some user-defined schema type.
func userSym(src *Term) *Term {
	t := mk(OpSym, "user:"+src.String(), int64(src.ID), types.Typ[types.String])
	t.X = src
	return t
}

func isUserSym(t *Term) bool { return t.Op == OpSym && strings.HasPrefix(t.S, "user:") }

// hasUser reports whether the text of t contains a generic user name.
func (an *Analyzer) hasUser(t *Term) bool {
	if t.Op == OpConcat {
		for _, a := range t.Args {
			if an.hasUser(a) {
				return true
			}
		}
		return false
	}
	return isUserSym(an.pipe(t).Src)
}

type conc struct {
	an   *Analyzer
	m    map[*Term]*Term
	memo map[*Term]*Term
	// loops: which alternative of a loop was taken: loop id -> alternative, absent: no iteration
	choice  map[string]int
	lists   bool                                                       // evaluate functions that give lists
	calls   func(fn string, i int64, t types.Type, args []*Term) *Term // results of calls
	names   map[*Term]string                                           // functions called
	reps    bool                                                       // unroll loops over constant texts
	stopped []string                                                   // loops left early
	broken  bool
}

func (an *Analyzer) newConc() *conc {
	return &conc{an: an, m: map[*Term]*Term{}, memo: map[*Term]*Term{}, choice: map[string]int{}}
}

func (c *conc) with(k, v *Term) *conc {
	n := c.an.newConc()
	n.lists = c.lists
	for a, b := range c.m {
		n.m[a] = b
	}
	for a, b := range c.choice {
		n.choice[a] = b
	}
	n.m[k] = v
	return n
}

func (c *conc) choose(id string, alt int) *conc {
	n := c.an.newConc()
	n.lists = c.lists
	for a, b := range c.m {
		n.m[a] = b
	}
	for a, b := range c.choice {
		n.choice[a] = b
	}
	n.choice[id] = alt
	return n
}

func nameChar(r rune) bool {
	return unicode.IsLetter(r) || unicode.IsDigit(r) || r == '.' || r == '-' || r == '_'
}

func nonName(s string) bool {
	for _, r := range s {
		if !nameChar(r) {
			return true
		}
	}
	return false
}

func (c *conc) eval(t *Term) *Term {
	if r, ok := c.m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := c.memo[t]; ok {
		return r
	}
	var r *Term
	switch {
	case t.Op == OpFold:
		init := c.eval(t.Args[0])
		if k, ok := c.choice[t.S]; ok && 2+k < len(t.Args) {
			r = c.eval(replace(t.Args[2+k].Args[0], t.Args[1], init))
		} else {
			r = init
		}
	case t.Op == OpRep && c.reps:
		if r = c.evalRep(t); r == nil {
			r = t
		}
	case t.Op == OpRep && !c.an.isPipeRep(t):
		if k, ok := c.choice[t.S]; ok && k < len(t.Args) {
			r = c.eval(t.Args[k].Args[0])
		} else {
			r = tEmpty
		}
	case t.Op == OpRes && c.calls != nil && t.Args[0].Op == OpCall && c.names[t.Args[0]] != "":
		call := t.Args[0]
		args := make([]*Term, len(call.Args))
		for i, a := range call.Args {
			args[i] = c.eval(a)
		}
		r = c.calls(c.names[call], t.I, t.T, args)
		if r == nil {
			r = rebuild(t, []*Term{rebuild(call, args)})
		}
	default:
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = c.eval(a)
			ch = ch || args[i] != a
		}
		r = t
		if ch {
			r = rebuild(t, args)
			if v, ok := c.m[r]; ok {
				r = v
			}
		}
		r = c.fold(r)
	}
	c.memo[t] = r
	return r
}

func (c *conc) fold(t *Term) *Term {
	if t.Op == OpArith && len(t.Args) == 2 {
		if a, ok := t.Args[0].num(); ok {
			if b, ok := t.Args[1].num(); ok {
				switch t.S {
				case "+":
					return ci(a + b)
				case "-":
					return ci(a - b)
				case "*":
					return ci(a * b)
				case "&":
					return ci(a & b)
				case "|":
					return ci(a | b)
				case "^":
					return ci(a ^ b)
				case "%":
					if b != 0 {
						return ci(a % b)
					}
				case "/":
					if b != 0 {
						return ci(a / b)
					}
				}
			}
		}
	}
	an := c.an
	switch t.Op {
	case OpApp:
		if t.S == "xgen.trimNS" {
			if s, ok := t.Args[0].str(); ok {
				if p := strings.Split(s, ":"); len(p) == 2 {
					return cs(p[1])
				}
				return cs(s)
			}
			if isUserSym(t.Args[0]) {
				return t.Args[0]
			}
		}
		if t.S == "xgen.getBase" {
			if t.Args[0].isConst() {
				return t.Args[0] // no schema type is named like a built-in one
			}
			if isUserSym(t.Args[0]) {
				return t.Args[0]
			}
		}
		if t.S == "xgen.nsPrefix" {
			if s, ok := t.Args[0].str(); ok {
				if p := strings.Split(s, ":"); len(p) == 2 {
					return cs(p[0])
				}
				return tEmpty
			}
		}
		if t.S == "xgen.isValidURL" {
			if s, ok := t.Args[0].str(); ok {
				return cb(remote(s))
			}
		}
		if r := foldHelper(t); r != nil {
			return r
		}
		if r := foldConst(t); r != nil && (c.lists || r.Op != OpListLit) {
			return r
		}
		switch t.S {
		case "strings.HasSuffix", "strings.HasPrefix", "strings.Contains":
			if s, ok := t.Args[1].str(); ok && nonName(s) && an.hasUser(t.Args[0]) && t.Args[0].Op != OpConcat {
				return tFalse
			}
		case "strings.TrimSuffix", "strings.TrimPrefix":
			if s, ok := t.Args[1].str(); ok && nonName(s) && an.hasUser(t.Args[0]) && t.Args[0].Op != OpConcat {
				return t.Args[0]
			}
		}
	case OpLen:
		if a := t.Args[0]; a.Op == OpMapPut || a.Op == OpMapNew {
			if m, ok := mapOf(a); ok {
				return ci(int64(len(m)))
			}
		}
	case OpField:
		a := t.Args[0]
		if a.Op == OpDeref {
			a = a.Args[0]
		}
		if a.Op == OpApp && (a.S == "net/url.Parse" || a.S == "net/url.ParseRequestURI") {
			if s, ok := a.Args[0].str(); ok {
				u, err := url.Parse(s)
				if a.S == "net/url.ParseRequestURI" {
					u, err = url.ParseRequestURI(s)
				}
				if err == nil {
					switch t.S {
					case "Scheme":
						return cs(u.Scheme)
					case "Host":
						return cs(u.Host)
					case "Path":
						return cs(u.Path)
					case "Opaque":
						return cs(u.Opaque)
					}
				}
			}
		}
	case OpSub:
		if s, ok := t.Args[0].str(); ok && len(t.Args) == 3 {
			lo, ok1 := t.Args[1].num()
			hi, ok2 := t.Args[2].num()
			if t.Args[1] == tNil {
				lo, ok1 = 0, true
			}
			if t.Args[2] == tNil {
				hi, ok2 = int64(len(s)), true
			}
			if ok1 && ok2 && 0 <= lo && lo <= hi && hi <= int64(len(s)) {
				return cs(s[lo:hi])
			}
		}
	case OpLookupOk:
		if tables[t.Args[0]] != nil && an.hasUser(t.Args[1]) {
			return tFalse
		}
	case OpLookup:
		if tables[t.Args[0]] != nil && an.hasUser(t.Args[1]) {
			return zeroOrHavoc(t.T)
		}
	case OpEq:
		if c.calls != nil && (isErrSym(t.Args[0]) && t.Args[1] == tNil || isErrSym(t.Args[1]) && t.Args[0] == tNil) {
			return tFalse
		}
		if c.calls != nil {
			for i := 0; i < 2; i++ {
				if t.Args[i].Op == OpApp && t.Args[i].S == "type" && t.Args[1-i] == tEmpty {
					return tFalse
				}
			}
		}
		for i := 0; i < 2; i++ {
			if s, ok := t.Args[i].str(); ok && an.hasUser(t.Args[1-i]) {
				x := t.Args[1-i]
				if s == "" || x.Op != OpConcat && nonName(s) {
					return tFalse
				}
			}
		}
	}
	if t.T != nil && isStringType(t.T) || t.Op == OpRep {
		p := an.pipe(t)
		if s, ok := p.Src.str(); ok && len(p.Ops) > 0 {
			if r, ok := applyOps(s, p.Ops); ok {
				return cs(r)
			}
		}
	}
	return t
}

// lit evaluates a literal: 1 true, 0 false, -1 unknown.
func (c *conc) lit(l Lit) int {
	v := c.eval(l.A)
	if b, ok := v.boolean(); ok {
		if b == l.V {
			return 1
		}
		return 0
	}
	return -1
}

func (c *conc) guard(g *Term) int { return c.lit(Lit{g, true}) }

// titleStr and snakeStr: what the functions of the module make of a word, see
// helpers.go.
var titleStr, snakeStr = titleModel, snakeModel

var reFirstCap = regexp.MustCompile("([A-Z])([A-Z][a-z])")
var reAllCap = regexp.MustCompile("([a-z0-9])([A-Z])")

// applyOps applies a pipeline to a word; it is the semantics the rules use for
// the rewriting operations, not the code under analysis.
func applyOps(s string, ops []PipeOp) (string, bool) {
	for _, o := range ops {
		switch o.Kind {
		case "cap":
			ps := strings.Split(s, o.S)
			for i := range ps {
				ps[i] = titleStr(ps[i])
			}
			s = strings.Join(ps, "")
		case "del":
			s = strings.Replace(s, o.S, "", -1)
		case "repl":
			s = strings.Replace(s, o.S, o.R, -1)
		case "title":
			s = titleStr(s)
		case "replacer":
			s = strings.NewReplacer(strings.Split(o.S, "\x00")...).Replace(s)
		case "snake":
			s = snakeStr(s)
		case "lower":
			s = strings.ToLower(s)
		case "upper":
			s = strings.ToUpper(s)
		case "trim":
			s = strings.TrimSpace(s)
		default:
			return "", false
		}
	}
	return s, true
}

// words enumerates the words of an alphabet up to a length, starting with a letter.
func words(first, rest string, n int, f func(string) bool) {
	var rec func(prefix string, left int) bool
	rec = func(prefix string, left int) bool {
		if prefix != "" && !f(prefix) {
			return false
		}
		if left == 0 {
			return true
		}
		al := rest
		if prefix == "" {
			al = first
		}
		for _, r := range al {
			if !rec(prefix+string(r), left-1) {
				return false
			}
		}
		return true
	}
	rec("", n)
}

var rewritingDiff = map[string]string{}

// sameRewriting decides whether two pipelines rewrite every name alike; if
// not, it returns a name on which they differ. The pipelines are products of
// one-bit letter machines, so a difference shows on a short word.
func sameRewriting(a, b []PipeOp) (string, bool) {
	ka, kb := fmt.Sprintf("%q", a), fmt.Sprintf("%q", b)
	if ka == kb {
		return "", true
	}
	if d, ok := rewritingDiff[ka+kb]; ok {
		return d, d == ""
	}
	diff := ""
	defer func() { rewritingDiff[ka+kb] = diff }()
	nameWords(func(w string) bool {
		x, ok1 := applyOps(w, a)
		y, ok2 := applyOps(w, b)
		if !ok1 || !ok2 || x != y {
			diff = w
			return false
		}
		return true
	})
	return diff, diff == ""
}

// foldConst evaluates string functions of constants.
func numArg(t *Term) (int64, bool) {
	if len(t.Args) != 1 {
		return 0, false
	}
	return t.Args[0].num()
}

func foldConst(t *Term) *Term {
	var ss []string
	for _, a := range t.Args {
		if s, ok := a.str(); ok {
			ss = append(ss, s)
		} else if _, ok := a.num(); !ok {
			return nil
		}
	}
	list := func(ps []string) *Term {
		var ts []*Term
		for _, p := range ps {
			ts = append(ts, cs(p))
		}
		return mkListLit(t.T, ts...)
	}
	if n, ok := numArg(t); ok && (t.S == "itoa" || strings.HasPrefix(t.S, "fmt%")) {
		switch {
		case t.S == "itoa":
			return cs(strconv.FormatInt(n, 10))
		case strings.TrimLeft(t.S[4:], "0123456789+-# ") == "d", strings.TrimLeft(t.S[4:], "0123456789+-# ") == "x":
			return cs(fmt.Sprintf(t.S[3:], n))
		}
		return nil
	}
	switch t.S {
	case "net/url.Parse#1", "net/url.ParseRequestURI#1":
		_, err := url.Parse(ss[0])
		if t.S == "net/url.ParseRequestURI#1" {
			_, err = url.ParseRequestURI(ss[0])
		}
		if err == nil {
			return tNil
		}
		return errSym()
	case "path/filepath.Dir":
		return cs(filepath.Dir(ss[0]))
	case "path/filepath.Base":
		return cs(filepath.Base(ss[0]))
	case "path/filepath.Clean":
		return cs(filepath.Clean(ss[0]))
	case "path/filepath.Ext":
		return cs(filepath.Ext(ss[0]))
	case "path/filepath.IsAbs":
		return cb(filepath.IsAbs(ss[0]))
	case "path/filepath.ToSlash", "path/filepath.FromSlash":
		return cs(ss[0])
	case "strings.Split":
		return list(strings.Split(ss[0], ss[1]))
	case "strings.SplitN":
		if n, ok := t.Args[2].num(); ok {
			return list(strings.SplitN(ss[0], ss[1], int(n)))
		}
	case "strings.SplitAfter":
		return list(strings.SplitAfter(ss[0], ss[1]))
	case "strings.Fields":
		return list(strings.Fields(ss[0]))
	case "strings.IndexByte", "strings.IndexRune":
		if n, ok := t.Args[1].num(); ok && len(ss) == 1 {
			return ci(int64(strings.IndexRune(ss[0], rune(n))))
		}
	case "strings.LastIndexByte":
		if n, ok := t.Args[1].num(); ok && len(ss) == 1 {
			return ci(int64(strings.LastIndexByte(ss[0], byte(n))))
		}
	case "strings.Count":
		return ci(int64(strings.Count(ss[0], ss[1])))
	case "strings.Cut":
		a, _, _ := strings.Cut(ss[0], ss[1])
		return cs(a)
	case "strings.Cut#1":
		_, a, _ := strings.Cut(ss[0], ss[1])
		return cs(a)
	case "strings.Cut#2":
		_, _, a := strings.Cut(ss[0], ss[1])
		return cb(a)
	}
	return nil
}
