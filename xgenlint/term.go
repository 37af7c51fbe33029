package main

// Terms: the value domain of the abstract interpreter. A term denotes the
// value an SSA register or a heap cell may hold, as a function of the
// analysed function's inputs. Terms are hash-consed, so equality is pointer
// equality.

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpNil
	OpSym
	OpDeref
	OpField
	OpElem
	OpObj
	OpFieldAddr
	OpIndexAddr
	OpApp    // pure external function: S name
	OpCall   // result bundle of an effectful or opaque call: S name, I site
	OpRes    // I-th result of an OpCall
	OpTuple  // several results
	OpAdd    // Args[0] + I
	OpArith  // S operator
	OpEq     // bool
	OpLt     // bool
	OpNot    // bool
	OpConcat // strings
	OpRep    // string repetition: S loop, Args Alts
	OpAlt    // Args[0] value, Args[1:] guard literals
	OpListLit
	OpListCat
	OpListRep
	OpFold    // final value of a loop-carried cell: S loop, Args[0] init, Args[1:] alts; T holds the loop variable
	OpLoopVar // S loop/cell
	OpIter    // S loop
	OpKey     // S loop, Args[0] collection
	OpVal     // S loop, Args[0] collection
	OpOk      // S loop
	OpStruct  // T type, Args fields
	OpMapNew
	OpMapPut // map content, key, value
	OpLookup // map content, key
	OpLookupOk
	OpLen
	OpTop // Args[0] stack base, I depth from the top of the base
	OpStk // Args[0] base, I popped, Args[1:] pushed
	OpIface
	OpClosure
	OpTypeIs
	OpAssert
	OpSub // substring or subslice: Args x, lo, hi
	OpConv
	OpFn
	OpSorted // sorted permutation of a list
	OpRange  // iterator over Args[0]
	OpHavoc  // unknown value: S label
)

type Term struct {
	ID   int
	Op   Op
	S    string
	I    int64
	Args []*Term
	T    types.Type
	C    constant.Value
	X    interface{} // payload that takes no part in identity (closure fn)
	has  map[string]bool
}

var (
	termTab  = map[string]*Term{}
	termList []*Term
)

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, nil)
}

func mk(op Op, s string, i int64, t types.Type, args ...*Term) *Term {
	var b strings.Builder
	b.WriteByte(byte(op))
	b.WriteString(s)
	b.WriteByte(0)
	b.WriteString(strconv.FormatInt(i, 10))
	switch op {
	case OpStruct, OpIface, OpTypeIs, OpAssert, OpConv, OpNil, OpSym:
		b.WriteByte('|')
		b.WriteString(typeKey(t))
	}
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.ID))
	}
	k := b.String()
	if x, ok := termTab[k]; ok {
		return x
	}
	x := &Term{ID: len(termList), Op: op, S: s, I: i, Args: args, T: t}
	termTab[k] = x
	termList = append(termList, x)
	return x
}

func mkConst(v constant.Value, t types.Type) *Term {
	x := mk(OpConst, v.Kind().String()+v.ExactString(), 0, t)
	x.C = v
	return x
}
func cs(s string) *Term { return mkConst(constant.MakeString(s), types.Typ[types.String]) }
func ci(n int64) *Term  { return mkConst(constant.MakeInt64(n), types.Typ[types.Int]) }
func cb(b bool) *Term   { return mkConst(constant.MakeBool(b), types.Typ[types.Bool]) }

// nil is one constant whatever its type
var tNil = mk(OpNil, "", 0, nil)
var tTrue = cb(true)
var tFalse = cb(false)
var tEmpty = cs("")

func sym(name string, t types.Type) *Term { return mk(OpSym, name, 0, t) }

func (t *Term) isConst() bool { return t.Op == OpConst || t.Op == OpNil }
func (t *Term) str() (string, bool) {
	if t.Op == OpConst && t.C.Kind() == constant.String {
		return constant.StringVal(t.C), true
	}
	return "", false
}
func (t *Term) num() (int64, bool) {
	if t.Op == OpConst && t.C.Kind() == constant.Int {
		n, ok := constant.Int64Val(t.C)
		return n, ok
	}
	return 0, false
}
func (t *Term) boolean() (bool, bool) {
	if t.Op == OpConst && t.C.Kind() == constant.Bool {
		return constant.BoolVal(t.C), true
	}
	return false, false
}

// lin splits an integer term in base (nil for a constant) and offset.
func lin(t *Term) (*Term, int64) {
	if n, ok := t.num(); ok {
		return nil, n
	}
	if t.Op == OpAdd {
		return t.Args[0], t.I
	}
	return t, 0
}

func mkAdd(t *Term, n int64) *Term {
	b, o := lin(t)
	o += n
	if b == nil {
		return ci(o)
	}
	if o == 0 {
		return b
	}
	return mk(OpAdd, "", o, types.Typ[types.Int], b)
}

func mkNot(t *Term) *Term {
	if b, ok := t.boolean(); ok {
		return cb(!b)
	}
	if t.Op == OpNot {
		return t.Args[0]
	}
	return mk(OpNot, "", 0, types.Typ[types.Bool], t)
}

// knownNonNil reports terms that can never be nil.
func knownNonNil(t *Term) bool {
	switch t.Op {
	case OpObj, OpFieldAddr, OpIndexAddr, OpIface, OpClosure, OpFn, OpTop, OpStruct, OpListLit:
		return !(t.Op == OpListLit && len(t.Args) == 0)
	case OpApp:
		return nonNilApps[t.S]
	case OpRes:
		// results of modelled constructors
		return false
	}
	return false
}

var nonNilApps = map[string]bool{
	"encoding/xml.NewDecoder": true, "errors.New": true, "fmt.Errorf": true,
	"reflect.TypeOf": false, "strings.NewReplacer": true, "bytes.NewReader": true, "strings.NewReader": true,
	"bufio.NewWriter": true, "bufio.NewReader": true, "io.LimitReader": true, "container/list.New": true,
}

// constAffix returns the constant text a string term starts and ends with.
func constAffix(t *Term) (pre, suf string, exact bool) {
	if s, ok := t.str(); ok {
		return s, s, true
	}
	if t.Op == OpConcat {
		if s, ok := t.Args[0].str(); ok {
			pre = s
		}
		if s, ok := t.Args[len(t.Args)-1].str(); ok {
			suf = s
		}
	}
	return pre, suf, false
}

func minLen(t *Term) int {
	if s, ok := t.str(); ok {
		return len(s)
	}
	if t.Op == OpConcat {
		n := 0
		for _, a := range t.Args {
			n += minLen(a)
		}
		return n
	}
	return 0
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.isConst() && b.isConst() {
		return cb(false)
	}
	if a.isConst() {
		a, b = b, a
	}
	// b const or neither
	if b.Op == OpNil {
		if knownNonNil(a) {
			return tFalse
		}
	}
	if v, ok := b.boolean(); ok {
		if v {
			return a
		}
		return mkNot(a)
	}
	// integer linear
	ab, ao := lin(a)
	bb, bo := lin(b)
	if ab != nil && ab == bb {
		return cb(ao == bo)
	}
	if _, ok := b.num(); ok && a.Op == OpAdd {
		return mkEq(a.Args[0], ci(bo-ao))
	}
	if s, ok := b.str(); ok {
		if a.Op == OpConcat {
			pre, suf, _ := constAffix(a)
			if !strings.HasPrefix(s, pre) || !strings.HasSuffix(s, suf) || minLen(a) > len(s) {
				return tFalse
			}
			// "p"+x == "pq"  <=>  x == "q"
			if len(a.Args) == 2 {
				if pre != "" {
					return mkEq(a.Args[1], cs(s[len(pre):]))
				}
				if suf != "" {
					return mkEq(a.Args[0], cs(s[:len(s)-len(suf)]))
				}
			}
			if s == "" {
				return tFalse0(a)
			}
		}
	}
	if a.Op == OpObj && b.Op == OpObj {
		return tFalse
	}
	if !b.isConst() && a.ID > b.ID {
		a, b = b, a
	}
	return mk(OpEq, "", 0, types.Typ[types.Bool], a, b)
}

func tFalse0(a *Term) *Term {
	if minLen(a) > 0 {
		return tFalse
	}
	return mk(OpEq, "", 0, types.Typ[types.Bool], a, tEmpty)
}

func mkLt(a, b *Term) *Term {
	// 0 < len(s) and len(s) < 1 on strings are tests for the empty string
	if n, ok := a.num(); ok && n == 0 && b.Op == OpLen && isStringTerm(b.Args[0]) {
		return mkNot(mkEq(b.Args[0], tEmpty))
	}
	if n, ok := b.num(); ok && n == 1 && a.Op == OpLen && isStringTerm(a.Args[0]) {
		return mkEq(a.Args[0], tEmpty)
	}
	ab, ao := lin(a)
	bb, bo := lin(b)
	if ab == bb {
		return cb(ao < bo)
	}
	if sa, ok := a.str(); ok {
		if sb, ok := b.str(); ok {
			return cb(sa < sb)
		}
	}
	// normalise the offset to the left when both have bases
	if ab != nil && bb != nil && bo != 0 && bb.Op != OpConst {
		a, b = mkAdd(ab, ao-bo), bb
	}
	if ab != nil && bb == nil && ao != 0 {
		a, b = ab, ci(bo-ao)
	}
	if ab == nil && bb != nil && bo != 0 {
		a, b = ci(ao-bo), bb
	}
	return mk(OpLt, "", 0, types.Typ[types.Bool], a, b)
}

func mkConcat(parts ...*Term) *Term {
	var out []*Term
	for _, p := range parts {
		if p.Op == OpConcat {
			for _, q := range p.Args {
				out = appendStr(out, q)
			}
		} else {
			out = appendStr(out, p)
		}
	}
	switch len(out) {
	case 0:
		return tEmpty
	case 1:
		return out[0]
	}
	return mk(OpConcat, "", 0, types.Typ[types.String], out...)
}

func appendStr(out []*Term, p *Term) []*Term {
	if s, ok := p.str(); ok {
		if s == "" {
			return out
		}
		if len(out) > 0 {
			if l, ok := out[len(out)-1].str(); ok {
				out[len(out)-1] = cs(l + s)
				return out
			}
		}
	}
	return append(out, p)
}

func mkListLit(t types.Type, elems ...*Term) *Term { return mk(OpListLit, "", 0, t, elems...) }

func mkListCat(parts ...*Term) *Term {
	var out []*Term
	var t types.Type
	for _, p := range parts {
		if t == nil {
			t = p.T
		}
		var ps []*Term
		if p.Op == OpListCat {
			ps = p.Args
		} else {
			ps = []*Term{p}
		}
		for _, q := range ps {
			if q.Op == OpNil || q.Op == OpListLit && len(q.Args) == 0 {
				continue
			}
			if q.Op == OpListLit && len(out) > 0 && out[len(out)-1].Op == OpListLit {
				l := out[len(out)-1]
				out[len(out)-1] = mkListLit(l.T, append(append([]*Term{}, l.Args...), q.Args...)...)
				continue
			}
			out = append(out, q)
		}
	}
	switch len(out) {
	case 0:
		return mkListLit(t)
	case 1:
		return out[0]
	}
	return mk(OpListCat, "", 0, t, out...)
}

func mkLen(x *Term) *Term {
	if s, ok := x.str(); ok {
		return ci(int64(len(s)))
	}
	switch x.Op {
	case OpNil, OpMapNew:
		return ci(0)
	case OpListLit:
		return ci(int64(len(x.Args)))
	case OpSorted:
		return mkLen(x.Args[0])
	case OpApp:
		if x.S == "make" {
			return x.Args[0]
		}
	case OpListCat:
		var base *Term
		n := int64(0)
		for _, a := range x.Args {
			if a.Op == OpListLit {
				n += int64(len(a.Args))
			} else if base == nil {
				base = a
			} else {
				base = nil
				n = -1
				break
			}
		}
		if n >= 0 {
			if base == nil {
				return ci(n)
			}
			return mkAdd(mkLen(base), n)
		}
	}
	return mk(OpLen, "", 0, types.Typ[types.Int], x)
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func mkStruct(t types.Type, fields []*Term) *Term {
	s := structOf(t)
	// collapse {x.a, x.b, ...} to x
	if len(fields) > 0 && fields[0].Op == OpField {
		x := fields[0].Args[0]
		same := true
		for i, f := range fields {
			if f.Op != OpField || f.Args[0] != x || f.S != s.Field(i).Name() {
				same = false
				break
			}
		}
		if same && x.T != nil && types.Identical(x.T, t) {
			return x
		}
	}
	return mk(OpStruct, "", 0, t, fields...)
}

func mkField(x *Term, name string, t types.Type) *Term {
	if x.Op == OpStruct {
		s := structOf(x.T)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return x.Args[i]
			}
		}
	}
	if x.Op == OpTuple {
		if i, err := strconv.Atoi(name); err == nil && i < len(x.Args) {
			return x.Args[i]
		}
	}
	return mk(OpField, name, 0, t, x)
}

func mkElem(list, idx *Term, t types.Type) *Term {
	if idx.Op == OpIter {
		// the generic element of a list built by mapping a loop body
		l := list
		for l.Op == OpSorted {
			l = l.Args[0]
		}
		if l.Op == OpListRep && l.I == 0 && len(l.Args) == 1 && len(l.Args[0].Args) == 1 {
			if v := l.Args[0].Args[0]; v.Op == OpListLit && len(v.Args) == 1 {
				return v.Args[0]
			}
		}
	}
	if n, ok := idx.num(); ok && n >= 0 {
		if list.Op == OpListLit && int(n) < len(list.Args) {
			return list.Args[n]
		}
		if list.Op == OpListCat {
			first := list.Args[0]
			if first.Op == OpListLit && int(n) < len(first.Args) {
				return first.Args[n]
			}
		}
	}
	// last element of an append: Elem(L ++ [x], len(L))
	if list.Op == OpListCat {
		last := list.Args[len(list.Args)-1]
		if last.Op == OpListLit {
			pre := mkListCat(list.Args[:len(list.Args)-1]...)
			b1, o1 := lin(mkLen(pre))
			b2, o2 := lin(idx)
			if b1 == b2 && o2 >= o1 && o2-o1 < int64(len(last.Args)) {
				return last.Args[o2-o1]
			}
		}
	}
	return mk(OpElem, "", 0, t, list, idx)
}

func mkIface(x *Term, t types.Type) *Term {
	return mk(OpIface, "", 0, t, x)
}

func mkStk(base *Term, popped int64, pushed []*Term) *Term {
	return mk(OpStk, "", popped, nil, append([]*Term{base}, pushed...)...)
}

func mkLookup(ms, key *Term, zero *Term, t types.Type) *Term {
	if key.Op == OpKey && (ms == key.Args[0] || ms.Op == OpField && ms.S == "$map" && ms.Args[0] == key.Args[0]) {
		return mk(OpVal, key.S, 0, t, key.Args[0])
	}
	for {
		if ms.Op == OpMapNew || ms.Op == OpNil {
			return zero
		}
		if ms.Op == OpMapPut {
			if ms.Args[1] == key {
				return ms.Args[2]
			}
			if distinctConst(ms.Args[1], key) {
				ms = ms.Args[0]
				continue
			}
		}
		break
	}
	return mk(OpLookup, "", 0, t, ms, key)
}

func mkLookupOk(ms, key *Term) *Term {
	for {
		if ms.Op == OpMapNew || ms.Op == OpNil {
			return tFalse
		}
		if ms.Op == OpMapPut {
			if ms.Args[1] == key {
				return tTrue
			}
			if distinctConst(ms.Args[1], key) {
				ms = ms.Args[0]
				continue
			}
		}
		break
	}
	return mk(OpLookupOk, "", 0, types.Typ[types.Bool], ms, key)
}

func distinctConst(a, b *Term) bool { return a.isConst() && b.isConst() && a != b }

// ---- traversal and substitution

// rebuild makes the term again from new arguments, re-simplifying.
func rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case OpAdd:
		return mkAdd(args[0], t.I)
	case OpNot:
		return mkNot(args[0])
	case OpEq:
		return mkEq(args[0], args[1])
	case OpLt:
		return mkLt(args[0], args[1])
	case OpConcat:
		return mkConcat(args...)
	case OpListCat:
		return mkListCat(args...)
	case OpLen:
		return mkLen(args[0])
	case OpField:
		return mkField(args[0], t.S, t.T)
	case OpElem:
		return mkElem(args[0], args[1], t.T)
	case OpStruct:
		return mkStruct(t.T, args)
	case OpLookup:
		if tb := tables[args[0]]; tb != nil && args[1].isConst() {
			for i, k := range tb.Keys {
				if k == args[1] {
					return tb.Vals[i]
				}
			}
			return zeroOrHavoc(t.T)
		}
		return mkLookup(args[0], args[1], zeroOrHavoc(t.T), t.T)
	case OpLookupOk:
		return mkLookupOkT(args[0], args[1])
	case OpApp:
		r := pureApp(t.S, t.T, args)
		if r.X == nil && r.Op == OpApp {
			r.X = t.X
		}
		return r
	}
	x := mk(t.Op, t.S, t.I, t.T, args...)
	if x.C == nil {
		x.C = t.C
	}
	if x.X == nil {
		x.X = t.X
	}
	return x
}

func zeroOrHavoc(t types.Type) *Term {
	if t == nil {
		return tNil
	}
	return zeroVal(t)
}

type subst struct {
	f    func(*Term) *Term // nil result: descend
	memo map[*Term]*Term
}

func newSubst(f func(*Term) *Term) *subst { return &subst{f, map[*Term]*Term{}} }

func (s *subst) apply(t *Term) *Term {
	if t == nil || len(t.Args) == 0 && s.f == nil {
		return t
	}
	if r, ok := s.memo[t]; ok {
		return r
	}
	if r := s.f(t); r != nil {
		s.memo[t] = r
		return r
	}
	if len(t.Args) == 0 {
		s.memo[t] = t
		return t
	}
	changed := false
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = s.apply(a)
		if args[i] != a {
			changed = true
		}
	}
	r := t
	if changed {
		r = rebuild(t, args)
	}
	s.memo[t] = r
	return r
}

func replace(t, from, to *Term) *Term {
	return newSubst(func(x *Term) *Term {
		if x == from {
			return to
		}
		return nil
	}).apply(t)
}

func walkTerm(t *Term, f func(*Term) bool) {
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(x *Term) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		if !f(x) {
			return
		}
		for _, a := range x.Args {
			rec(a)
		}
	}
	rec(t)
}

func contains(t, x *Term) bool {
	found := false
	walkTerm(t, func(y *Term) bool {
		if y == x {
			found = true
		}
		return !found
	})
	return found
}

// ---- printing

func (t *Term) String() string { return t.show(0) }

func (t *Term) show(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 14 {
		return "…"
	}
	a := func(i int) string { return t.Args[i].show(d + 1) }
	list := func(xs []*Term) string {
		var o []string
		for _, x := range xs {
			o = append(o, x.show(d+1))
		}
		return strings.Join(o, ", ")
	}
	switch t.Op {
	case OpConst:
		return t.C.ExactString()
	case OpNil:
		return "nil"
	case OpSym:
		return t.S
	case OpDeref:
		return a(0)
	case OpField:
		return a(0) + "." + t.S
	case OpElem:
		return a(0) + "[" + a(1) + "]"
	case OpObj:
		return "&" + shortID(t.S)
	case OpFieldAddr:
		return "&" + a(0) + "." + t.S
	case OpIndexAddr:
		return "&" + a(0) + "[" + a(1) + "]"
	case OpApp:
		return shortFn(t.S) + "(" + list(t.Args) + ")"
	case OpCall:
		return shortFn(t.S) + "!(" + list(t.Args) + ")"
	case OpRes:
		return a(0) + "#" + strconv.FormatInt(t.I, 10)
	case OpTuple:
		return "(" + list(t.Args) + ")"
	case OpAdd:
		return fmt.Sprintf("%s%+d", a(0), t.I)
	case OpArith:
		if len(t.Args) == 1 {
			return t.S + a(0)
		}
		return "(" + a(0) + t.S + a(1) + ")"
	case OpEq:
		return a(0) + "==" + a(1)
	case OpLt:
		return a(0) + "<" + a(1)
	case OpNot:
		return "!(" + a(0) + ")"
	case OpConcat:
		var o []string
		for i := range t.Args {
			o = append(o, a(i))
		}
		return strings.Join(o, "+")
	case OpRep:
		return "{" + shortID(t.S) + partial(t) + ": " + list(t.Args) + "}*"
	case OpAlt:
		if len(t.Args) == 1 {
			return a(0)
		}
		return "[" + list(t.Args[1:]) + " -> " + a(0) + "]"
	case OpListLit:
		return "[" + list(t.Args) + "]"
	case OpListCat:
		return "cat(" + list(t.Args) + ")"
	case OpListRep:
		return "[each " + shortID(t.S) + partial(t) + ": " + list(t.Args) + "]"
	case OpFold:
		return "fold" + partial(t) + "(" + shortID(t.S) + ": init " + a(0) + "; " + list(t.Args[1:]) + ")"
	case OpLoopVar:
		return "~" + shortID(t.S)
	case OpIter:
		return "#" + shortID(t.S)
	case OpKey:
		return "key(" + a(0) + ")"
	case OpVal:
		return "val(" + a(0) + ")"
	case OpOk:
		return "more(" + shortID(t.S) + ")"
	case OpStruct:
		return types.TypeString(t.T, func(*types.Package) string { return "" }) + "{" + list(t.Args) + "}"
	case OpMapNew:
		return "map{}"
	case OpMapPut:
		return a(0) + "{" + a(1) + ":" + a(2) + "}"
	case OpLookup:
		return a(0) + "[" + a(1) + "]"
	case OpLookupOk:
		return "has(" + a(0) + "," + a(1) + ")"
	case OpLen:
		return "len(" + a(0) + ")"
	case OpTop:
		return fmt.Sprintf("top%d(%s)", t.I, a(0))
	case OpStk:
		return fmt.Sprintf("stack(%s -%d +[%s])", a(0), t.I, list(t.Args[1:]))
	case OpIface:
		return a(0)
	case OpClosure, OpFn:
		return shortFn(t.S)
	case OpTypeIs:
		return a(0) + " is " + types.TypeString(t.T, func(*types.Package) string { return "" })
	case OpAssert:
		return a(0) + ".(" + types.TypeString(t.T, func(*types.Package) string { return "" }) + ")"
	case OpSub:
		return a(0) + "[" + a(1) + ":" + a(2) + "]"
	case OpConv:
		return types.TypeString(t.T, nil) + "(" + a(0) + ")"
	case OpSorted:
		return "sorted(" + a(0) + ")"
	case OpRange:
		return "range(" + a(0) + ")"
	case OpHavoc:
		return "?" + shortID(t.S)
	}
	return fmt.Sprintf("op%d(%s)", t.Op, list(t.Args))
}

func partial(t *Term) string {
	if t.I == 1 {
		return "(cut)"
	}
	return ""
}

func shortID(s string) string {
	if i := strings.LastIndex(s, ">"); i >= 0 {
		s = s[i+1:]
	}
	return s
}

func shortFn(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		s = s[i+1:]
	}
	return s
}

func sortedKeys(m map[string]bool) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}
