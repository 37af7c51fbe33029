package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callRes struct {
	cont bool
	c    conf
	exit Exit
}

func one(c conf) []callRes { return []callRes{{cont: true, c: c}} }

func (an *Analyzer) hazard(c conf, what string, pos token.Pos, args ...*Term) {
	c.st.event(&Event{Kind: "hazard", Fn: c.fr.fn.String(), Pos: pos, Args: args, Note: what})
}

// nonNil reports whether a pointer/interface term is known not to be nil.
func (an *Analyzer) nonNil(c conf, t *Term) bool {
	if knownNonNil(t) {
		return true
	}
	if c.st.facts.known(mkEq(t, tNil)) == 0 {
		return true
	}
	switch t.Op {
	case OpSym, OpFieldAddr, OpIndexAddr:
		return true // parameters and globals are taken to be valid
	case OpAssert:
		return true
	case OpField, OpDeref, OpElem:
		// pointers stored in the parser's options and in the parse result
		return true
	case OpRes:
		// the result of a call that reported no error
		call := t.Args[0]
		n := an.callErrIndex[call]
		if n < 0 {
			return true
		}
		e := mk(OpRes, "", int64(n), nil, call)
		return c.st.facts.known(mkEq(e, tNil)) == 1
	case OpApp:
		if strings.HasPrefix(t.S, "strings.") || strings.HasPrefix(t.S, "reflect.") || strings.HasPrefix(t.S, "(reflect.") {
			return true
		}
	}
	return false
}

// instr interprets a straight-line instruction; a non-empty result means the
// partition forked.
func (an *Analyzer) instr(c conf, in ssa.Instruction) []conf {
	st, env := c.st, c.fr.env
	v := func(x ssa.Value) *Term { return st.facts.canon(an.val(c, x)) }
	switch x := in.(type) {
	case *ssa.Alloc:
		o := mk(OpObj, fmt.Sprintf("%s>%s.%s%s", c.fr.ctx, c.fr.fn.Name(), x.Name(), x.Comment), 0, x.Type())
		elem := x.Type().Underlying().(*types.Pointer).Elem()
		st.heap[fieldAddr(o, "$alloc")] = tTrue
		st.store(o, zeroVal(elem), elem)
		env[x] = o
	case *ssa.BinOp:
		env[x] = an.binop(c, x.Op, v(x.X), v(x.Y), x.Type(), x.X.Type(), x.Pos())
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			p := v(x.X)
			if !an.nonNil(c, p) {
				an.hazard(c, "nil dereference", x.Pos(), p)
			}
			env[x] = st.load(p, x.Type())
		case token.NOT:
			env[x] = mkNot(v(x.X))
		case token.SUB:
			t := v(x.X)
			if n, ok := t.num(); ok {
				env[x] = ci(-n)
			} else {
				env[x] = mk(OpArith, "-", 0, x.Type(), t)
			}
		default:
			env[x] = mk(OpArith, x.Op.String(), 0, x.Type(), v(x.X))
			if x.Op == token.ARROW {
				st.event(&Event{Kind: "call", Fn: "chan receive", Pos: x.Pos()})
			}
		}
	case *ssa.ChangeType:
		env[x] = v(x.X)
	case *ssa.ChangeInterface:
		env[x] = v(x.X)
	case *ssa.Convert:
		env[x] = an.convert(v(x.X), x.X.Type(), x.Type())
	case *ssa.MakeInterface:
		t := v(x.X)
		env[x] = mkIface(t, x.X.Type())
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, v(b))
		}
		t := mk(OpClosure, fn.String(), 0, x.Type(), bs...)
		t.X = fn
		env[x] = t
	case *ssa.MakeMap:
		o := mk(OpObj, fmt.Sprintf("%s>%s.%s", c.fr.ctx, c.fr.fn.Name(), x.Name()), 0, x.Type())
		st.heap[fieldAddr(o, "$map")] = mk(OpMapNew, "", 0, nil)
		env[x] = o
	case *ssa.MakeSlice:
		l := v(x.Len)
		if n, ok := l.num(); ok && n <= 32 {
			var es []*Term
			z := zeroVal(x.Type().Underlying().(*types.Slice).Elem())
			for i := int64(0); i < n; i++ {
				es = append(es, z)
			}
			env[x] = mkListLit(x.Type(), es...)
		} else {
			env[x] = mk(OpApp, "make", 0, x.Type(), l)
		}
	case *ssa.Slice:
		env[x] = an.slice(c, x)
	case *ssa.FieldAddr:
		p := v(x.X)
		if !an.nonNil(c, p) {
			an.hazard(c, "nil dereference", x.Pos(), p)
		}
		env[x] = fieldAddr(p, fieldName(x.X.Type(), x.Field))
	case *ssa.Field:
		env[x] = st.facts.canon(mkField(v(x.X), fieldName(x.X.Type(), x.Field), x.Type()))
	case *ssa.IndexAddr:
		s, i := v(x.X), v(x.Index)
		an.boundsCheck(c, s, i, x.Pos(), x.X.Type())
		env[x] = indexAddr(s, i)
	case *ssa.Index:
		s, i := v(x.X), v(x.Index)
		an.boundsCheck(c, s, i, x.Pos(), x.X.Type())
		env[x] = mkElem(s, i, x.Type())
	case *ssa.Lookup:
		return an.lookup(c, x, v(x.X), v(x.Index))
	case *ssa.MapUpdate:
		m := v(x.Map)
		if m.Op == OpNil {
			an.hazard(c, "assignment to nil map", x.Pos(), m)
		}
		val := v(x.Value)
		ms := st.mapContent(m)
		st.event(&Event{Kind: "mapput", Pos: x.Pos(), Args: []*Term{m, v(x.Key), val}})
		st.heap[fieldAddr(m, "$map")] = mk(OpMapPut, "", 0, nil, ms, v(x.Key), val)
	case *ssa.Store:
		p := v(x.Addr)
		if !an.nonNil(c, p) {
			an.hazard(c, "nil dereference", x.Pos(), p)
		}
		val := v(x.Val)
		if r := rootOf(p); r.Op != OpObj {
			st.event(&Event{Kind: "store", Fn: c.fr.fn.String(), Pos: x.Pos(), Args: []*Term{p, val}})
		}
		st.store(p, val, x.Val.Type())
	case *ssa.Range:
		env[x] = mk(OpRange, "", 0, nil, v(x.X))
	case *ssa.Next:
		l := c.fr.loops.innermost(x.Block())
		if l == nil {
			giveUp("next outside a loop")
		}
		id := loopID(c.fr, l)
		coll := v(x.Iter).Args[0]
		kind := "map"
		tt := x.Type().(*types.Tuple)
		if x.IsString {
			kind = "string"
		} else {
			st.event(&Event{Kind: "maprange", Fn: c.fr.fn.String(), Pos: x.Pos(), Args: []*Term{coll}})
		}
		env[x] = mk(OpTuple, "", 0, nil,
			mk(OpOk, id+"|"+kind, 0, types.Typ[types.Bool], coll),
			mk(OpKey, id, 0, tt.At(1).Type(), coll),
			mk(OpVal, id, 0, tt.At(2).Type(), coll))
	case *ssa.Extract:
		t := v(x.Tuple)
		if t.Op == OpTuple {
			env[x] = st.facts.canon(t.Args[x.Index])
		} else {
			env[x] = st.facts.canon(mk(OpRes, "", int64(x.Index), x.Type(), t))
		}
	case *ssa.TypeAssert:
		return an.typeAssert(c, x, v(x.X))
	case *ssa.Defer:
		d := &deferred{call: x.Common(), pos: x.Pos()}
		for _, a := range x.Call.Args {
			d.args = append(d.args, v(a))
		}
		d.fn = v(x.Call.Value)
		c.fr.defers = append(c.fr.defers, d)
		st.event(&Event{Kind: "defer", Fn: calleeName(x.Common()), Pos: x.Pos(), Args: append([]*Term{d.fn}, d.args...)})
	case *ssa.Go:
		st.event(&Event{Kind: "call", Fn: "go statement", Pos: x.Pos()})
	case *ssa.Send:
		st.event(&Event{Kind: "call", Fn: "chan send", Pos: x.Pos()})
	case *ssa.MakeChan:
		env[x] = mk(OpHavoc, "chan", 0, x.Type())
	case *ssa.Select:
		giveUp("select in %s", c.fr.fn)
	case *ssa.SliceToArrayPointer:
		env[x] = v(x.X)
	case *ssa.MultiConvert:
		env[x] = v(x.X)
	default:
		giveUp("instruction %T in %s", in, c.fr.fn)
	}
	return nil
}

func calleeName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return "(" + typeKey(cc.Value.Type()) + ")." + cc.Method.Name()
	}
	if f := cc.StaticCallee(); f != nil {
		return f.String()
	}
	return cc.Value.Name()
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return t.Underlying().(*types.Struct).Field(i).Name()
}

func (an *Analyzer) boundsCheck(c conf, s, i *Term, pos token.Pos, t types.Type) {
	var n *Term
	u := t.Underlying()
	if p, ok := u.(*types.Pointer); ok {
		u = p.Elem().Underlying()
	}
	if a, ok := u.(*types.Array); ok {
		n = ci(a.Len())
	} else {
		n = mkLen(s)
	}
	lo, _ := c.st.facts.bounds(i)
	if lo >= 0 && c.st.facts.known(mkLt(i, n)) == 1 {
		c.st.event(&Event{Kind: "proved", Fn: "index", Pos: pos})
		return
	}
	if m := tableMinLen(c.st.facts, s); m >= 0 && lo >= 0 {
		if _, hi := c.st.facts.bounds(i); hi < m {
			c.st.event(&Event{Kind: "proved", Fn: "index", Pos: pos})
			return
		}
	}
	an.hazard(c, "index out of range", pos, s, i)
}

func (an *Analyzer) binop(c conf, op token.Token, a, b *Term, t, opT types.Type, pos token.Pos) *Term {
	bt, _ := opT.Underlying().(*types.Basic)
	isStr := bt != nil && bt.Info()&types.IsString != 0
	isInt := bt != nil && bt.Info()&types.IsInteger != 0
	switch op {
	case token.ADD:
		if isStr {
			return mkConcat(a, b)
		}
		if isInt {
			if n, ok := b.num(); ok {
				return mkAdd(a, n)
			}
			if n, ok := a.num(); ok {
				return mkAdd(b, n)
			}
			ab, ao := lin(a)
			bb, bo := lin(b)
			return mkAdd(mk(OpArith, "+", 0, t, ab, bb), ao+bo)
		}
	case token.SUB:
		if isInt {
			if n, ok := b.num(); ok {
				return mkAdd(a, -n)
			}
			ab, ao := lin(a)
			bb, bo := lin(b)
			if ab == bb {
				return ci(ao - bo)
			}
		}
	case token.EQL:
		return an.eq(c, a, b)
	case token.NEQ:
		return mkNot(an.eq(c, a, b))
	case token.LSS:
		return mkLt(a, b)
	case token.GTR:
		return mkLt(b, a)
	case token.LEQ:
		return mkNot(mkLt(b, a))
	case token.GEQ:
		return mkNot(mkLt(a, b))
	case token.QUO, token.REM:
		if isInt {
			if n, ok := b.num(); !ok || n == 0 {
				if c.st.facts.known(mkEq(b, ci(0))) != 0 {
					an.hazard(c, "division by zero", pos, b)
				}
			}
		}
	}
	if a.Op == OpConst && b.Op == OpConst && isInt {
		switch op {
		case token.MUL, token.AND, token.OR, token.XOR, token.ADD, token.SUB:
			return mkConst(constant.BinaryOp(a.C, op, b.C), t)
		}
	}
	return mk(OpArith, op.String(), 0, t, a, b)
}

// eq compares two terms; interfaces are unwrapped, structs compared by field.
func (an *Analyzer) eq(c conf, a, b *Term) *Term {
	if a.Op == OpIface && b.Op == OpIface {
		if !types.Identical(a.T, b.T) {
			return tFalse
		}
		return an.eq(c, a.Args[0], b.Args[0])
	}
	if a.Op == OpTypeIs || b.Op == OpTypeIs {
		return mkEq(a, b)
	}
	// len(x) == 0 on strings and x == "" are the same test
	if n, ok := b.num(); ok && n == 0 && a.Op == OpLen && isStringTerm(a.Args[0]) {
		return mkEq(a.Args[0], tEmpty)
	}
	if n, ok := a.num(); ok && n == 0 && b.Op == OpLen && isStringTerm(b.Args[0]) {
		return mkEq(b.Args[0], tEmpty)
	}
	return mkEq(a, b)
}

func isStringTerm(t *Term) bool {
	if t.Op == OpConcat {
		return true
	}
	if t.T == nil {
		return false
	}
	b, ok := t.T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (an *Analyzer) convert(t *Term, from, to types.Type) *Term {
	fu, tu := from.Underlying(), to.Underlying()
	isS := func(u types.Type) bool {
		switch x := u.(type) {
		case *types.Basic:
			return x.Info()&types.IsString != 0
		case *types.Slice:
			b, ok := x.Elem().Underlying().(*types.Basic)
			return ok && b.Kind() == types.Uint8
		}
		return false
	}
	if isS(fu) && isS(tu) {
		return t // string <-> []byte carries the same text
	}
	if fb, ok := fu.(*types.Basic); ok {
		if tb, ok := tu.(*types.Basic); ok {
			if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0 {
				return mk(OpApp, "string(rune)", 0, to, t)
			}
			if fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
				return t
			}
			if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
				if _, ok := t.num(); ok {
					return t
				}
			}
		}
	}
	return mk(OpConv, "", 0, to, t)
}

func (an *Analyzer) slice(c conf, x *ssa.Slice) *Term {
	st := c.st
	v := func(y ssa.Value) *Term {
		if y == nil {
			return nil
		}
		return st.facts.canon(an.val(c, y))
	}
	b, lo, hi := v(x.X), v(x.Low), v(x.High)
	if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		a := p.Elem().Underlying().(*types.Array)
		list := st.load(b, p.Elem())
		if lo == nil && hi == nil {
			if list.Op == OpListLit {
				return mkListLit(x.Type(), list.Args...)
			}
			return list
		}
		// make([]T, 0, n) compiles to new [n]T sliced to [:0]
		if n, ok := hiConst(hi); ok && lo == nil && n == 0 {
			return mkListLit(x.Type())
		}
		if n, ok := hiConst(hi); ok && lo == nil && list.Op == OpListLit && n <= a.Len() {
			return mkListLit(x.Type(), list.Args[:n]...)
		}
		b = list
	}
	if lo == nil {
		lo = ci(0)
	}
	if hi == nil {
		hi = mkLen(b)
	}
	// bounds
	f := st.facts
	l, _ := f.bounds(lo)
	ok := l >= 0 && f.known(mkLt(hi, lo)) == 0 && f.known(mkLt(mkLen(b), hi)) == 0
	if !ok {
		an.hazard(c, "slice out of range", x.Pos(), b, lo, hi)
	} else {
		st.event(&Event{Kind: "proved", Fn: "slice", Pos: x.Pos()})
	}
	if s, isC := b.str(); isC {
		if ln, ok1 := lo.num(); ok1 {
			if hn, ok2 := hi.num(); ok2 && ln <= hn && ln >= 0 && int(hn) <= len(s) {
				return cs(s[ln:hn])
			}
		}
	}
	if n, isC := lo.num(); isC && n == 0 && hi == mkLen(b) {
		return b
	}
	return mk(OpSub, "", 0, x.Type(), b, lo, hi)
}

func hiConst(t *Term) (int64, bool) {
	if t == nil {
		return 0, false
	}
	return t.num()
}

func (an *Analyzer) lookup(c conf, x *ssa.Lookup, m, k *Term) []conf {
	st := c.st
	if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		an.boundsCheck(c, m, k, x.Pos(), x.X.Type())
		c.fr.env[x] = mkElem(m, k, x.Type())
		return nil
	}
	ms := st.mapContent(m)
	vt := x.X.Type().Underlying().(*types.Map).Elem()
	if key, ok := x.Index.Type().Underlying().(*types.Basic); ok && key.Info()&types.IsBoolean != 0 && ms.Op == OpMapPut && !k.isConst() {
		// a table of two entries: as good as a condition
		var out []conf
		for _, b := range []bool{true, false} {
			c2 := c.clone()
			if !c2.st.assume(k, b) {
				continue
			}
			if more := an.lookup(c2, x, m, cb(b)); more != nil {
				out = append(out, more...)
			} else {
				out = append(out, c2)
			}
		}
		return out
	}
	if x.CommaOk {
		ok := st.facts.canon(mkLookupOkT(ms, k))
		val := an.lookupVal(st, ms, k, vt)
		if b, isC := ok.boolean(); isC && !b {
			val = zeroVal(vt)
		}
		c.fr.env[x] = mk(OpTuple, "", 0, nil, val, ok)
		return nil
	}
	c.fr.env[x] = an.lookupVal(st, ms, k, vt)
	return nil
}

func (an *Analyzer) lookupVal(st *State, ms, k *Term, vt types.Type) *Term {
	if tb := tables[ms]; tb != nil && k.isConst() {
		for i, key := range tb.Keys {
			if key == k {
				return tb.Vals[i]
			}
		}
		return zeroVal(vt)
	}
	r := mkLookup(ms, k, zeroVal(vt), vt)
	if r.Op == OpLookup {
		if ok := st.facts.known(mkLookupOkT(ms, k)); ok == 0 {
			return zeroVal(vt)
		}
		// boolean sets: value and presence coincide when every value is true
		if tb := tables[ms]; tb != nil && tb.allTrue {
			return st.facts.canon(mkLookupOkT(ms, k))
		}
	}
	return st.facts.canon(r)
}

func (an *Analyzer) typeAssert(c conf, x *ssa.TypeAssert, t *Term) []conf {
	st := c.st
	T := x.AssertedType
	set := func(c conf, v, ok *Term) {
		if x.CommaOk {
			c.fr.env[x] = mk(OpTuple, "", 0, nil, v, ok)
		} else {
			c.fr.env[x] = v
		}
	}
	iface := types.IsInterface(T)
	switch {
	case t.Op == OpNil:
		if !x.CommaOk {
			an.hazard(c, "type assertion on nil", x.Pos(), t)
		}
		set(c, zeroVal(T), tFalse)
		return nil
	case t.Op == OpIface && !iface:
		if types.Identical(t.T, T) {
			st.event(&Event{Kind: "proved", Fn: "assert", Pos: x.Pos()})
			set(c, t.Args[0], tTrue)
		} else {
			if !x.CommaOk {
				an.hazard(c, "type assertion to another type", x.Pos(), t)
			}
			set(c, zeroVal(T), tFalse)
		}
		return nil
	case t.Op == OpTop && !iface:
		et := an.stackElem(t.Args[0])
		if et != nil && types.Identical(et, T) {
			st.event(&Event{Kind: "proved", Fn: "assert", Pos: x.Pos()})
			set(c, t, tTrue)
			return nil
		}
		if et != nil {
			if !x.CommaOk {
				an.hazard(c, "type assertion to another type", x.Pos(), t)
			}
			set(c, zeroVal(T), tFalse)
			return nil
		}
	}
	if iface {
		// asserting to an interface type: keep the value
		is := mk(OpTypeIs, "", 0, T, t)
		if !x.CommaOk {
			if !an.nonNil(c, t) || st.facts.known(is) != 1 {
				an.hazard(c, "type assertion not proved", x.Pos(), t)
			}
		}
		set(c, t, is)
		return nil
	}
	is := mk(OpTypeIs, "", 0, T, t)
	// exclusive with another concrete type already known
	for a, v := range st.facts.lit {
		if v && a.Op == OpTypeIs && a.Args[0] == t && !types.Identical(a.T, T) && !types.IsInterface(a.T) {
			is = tFalse
		}
	}
	as := mk(OpAssert, "", 0, T, t)
	if !x.CommaOk {
		if st.facts.known(is) != 1 {
			an.hazard(c, "type assertion not proved", x.Pos(), t)
		}
		set(c, as, nil)
		return nil
	}
	set(c, as, is)
	return nil
}

// ---- calls

func (an *Analyzer) runDefers(c conf) []callRes {
	cur := []conf{c}
	var ended []callRes
	for len(c.fr.defers) > 0 {
		d := c.fr.defers[len(c.fr.defers)-1]
		c.fr.defers = c.fr.defers[:len(c.fr.defers)-1]
		var next []conf
		for _, k := range cur {
			if k.fr != c.fr {
				k.fr.defers = nil
			}
			rs := an.doCall(k, nil, d.call, d.fn, d.args, d.pos, fmt.Sprintf("d%d", d.pos))
			for _, r := range rs {
				if r.cont {
					r.c.st.event(&Event{Kind: "deferred", Pos: d.pos, Args: append([]*Term{d.fn}, d.args...), Fn: calleeName(d.call)})
					next = append(next, r.c)
				} else if r.exit.Kind == "exit" {
					ended = append(ended, r) // the deferred call ends the program
				}
			}
		}
		cur = next
	}
	out := ended
	for _, k := range cur {
		out = append(out, callRes{cont: true, c: k})
	}
	return out
}

func (an *Analyzer) call(c conf, in *ssa.Call) []callRes {
	var args []*Term
	for _, a := range in.Call.Args {
		args = append(args, c.st.facts.canon(an.val(c, a)))
	}
	fv := c.st.facts.canon(an.val(c, in.Call.Value))
	return an.doCall(c, in, &in.Call, fv, args, in.Pos(), in.Name())
}

// setRes binds the results of a call.
func setRes(c conf, in *ssa.Call, rs []*Term) {
	if in == nil {
		return
	}
	switch len(rs) {
	case 0:
	case 1:
		c.fr.env[in] = rs[0]
	default:
		c.fr.env[in] = mk(OpTuple, "", 0, nil, rs...)
	}
}

func (an *Analyzer) doCall(c conf, in *ssa.Call, cc *ssa.CallCommon, fv *Term, args []*Term, pos token.Pos, site string) []callRes {
	if cc.IsInvoke() {
		if !an.nonNil(c, fv) {
			an.hazard(c, "method call on nil interface", pos, fv)
		}
		return an.invoke(c, in, cc, fv, args, pos, site)
	}
	var fn *ssa.Function
	var binds []*Term
	switch fv.Op {
	case OpFn:
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			return an.builtin(c, in, b, args, pos)
		}
		fn = fv.X.(*ssa.Function)
	case OpClosure:
		fn = fv.X.(*ssa.Function)
		binds = fv.Args
	default:
		// call of an unknown function value
		an.extCall(c, in, "dynamic:"+fv.String(), cc.Signature(), args, pos, site)
		return one(c)
	}
	if rs, done := an.model(c, in, fn, cc, args, pos, site); done {
		return rs
	}
	if !an.inModule(fn) || fn.Blocks == nil {
		an.extCall(c, in, fnName(fn), cc.Signature(), args, pos, site)
		return one(c)
	}
	for f := c.fr; f != nil; f = f.up {
		if f.fn == fn {
			an.extCall(c, in, "recursive:"+fnName(fn), cc.Signature(), args, pos, site)
			return one(c)
		}
	}
	nren := len(c.st.renames)
	exits := an.exec(fn, args, binds, c.st, c.fr, site)
	var out []callRes
	for i, e := range exits {
		k := conf{e.St, c.fr}
		if i < len(exits)-1 {
			k.fr = c.fr.clone()
		}
		if e.Kind != "return" {
			e.St.renames = e.St.renames[:min(nren, len(e.St.renames))]
			out = append(out, callRes{cont: false, c: k, exit: e})
			continue
		}
		for _, r := range e.St.renames[min(nren, len(e.St.renames)):] {
			s := newSubst(r)
			for v, t := range k.fr.env {
				k.fr.env[v] = s.apply(t)
			}
		}
		setRes(k, in, e.Res)
		out = append(out, callRes{cont: true, c: k})
	}
	if len(out) == 0 {
		return nil
	}
	return out
}

// fnName names a function independently of how it is reached.
func fnName(fn *ssa.Function) string { return fn.String() }

// extCall is the default for functions outside the module: pure ones become
// applications, others leave an event and fresh results.
func (an *Analyzer) extCall(c conf, in *ssa.Call, name string, sig *types.Signature, args []*Term, pos token.Pos, site string) *Term {
	n := sig.Results().Len()
	if isPure(name) {
		var rs []*Term
		base := name
		for i := 0; i < n; i++ {
			s := base
			if i > 0 {
				s = fmt.Sprintf("%s#%d", base, i)
			}
			t := mk(OpApp, s, 0, sig.Results().At(i).Type(), args...)
			rs = append(rs, c.st.facts.canon(t))
			if isErrorType(t.T) {
				c.st.event(&Event{Kind: "pcall", Fn: base, Pos: pos, Args: args, Res: t, Site: site})
			}
		}
		setRes(c, in, rs)
		return nil
	}
	return an.effectCall(c, in, name, sig, args, pos, site)
}

func (an *Analyzer) effectCall(c conf, in *ssa.Call, name string, sig *types.Signature, args []*Term, pos token.Pos, site string) *Term {
	n := sig.Results().Len()
	id := fmt.Sprintf("%s@%s/%s", name, c.fr.ctx, site)
	call := mk(OpCall, id, 0, nil, args...)
	ei := -1
	var rs []*Term
	for i := 0; i < n; i++ {
		t := sig.Results().At(i).Type()
		if isErrorType(t) {
			ei = i
		}
		rs = append(rs, c.st.facts.canon(mk(OpRes, "", int64(i), t, call)))
	}
	an.callErrIndex[call] = ei
	c.st.event(&Event{Kind: "call", Fn: name, Pos: pos, Args: args, Res: call, Site: id, Note: fmt.Sprint(ei), Snap: an.snapshot(c.st, name, args)})
	if !strings.HasPrefix(name, "xgen.") {
		an.overwrite(c.st, id, sig, args)
	}
	setRes(c, in, rs)
	return call
}

// overwrite: an external function may write through the pointers it is given.
func (an *Analyzer) overwrite(st *State, id string, sig *types.Signature, args []*Term) {
	off := 0
	if sig.Recv() != nil {
		off = 1
	}
	for i, a := range args {
		if i < off || i-off >= sig.Params().Len() {
			continue
		}
		p, ok := sig.Params().At(i - off).Type().Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		switch a.Op {
		case OpObj, OpFieldAddr, OpIndexAddr, OpSym:
		default:
			continue
		}
		if b, ok := p.Elem().Underlying().(*types.Basic); ok && b.Kind() != types.Invalid {
			st.heap[a] = mk(OpHavoc, id, 0, p.Elem(), a)
		}
	}
}

// snapshot reads the fields of the Options or CodeGenerator a function of the
// module is called on.
func (an *Analyzer) snapshot(st *State, name string, args []*Term) map[string]*Term {
	if len(args) > 0 && strings.HasPrefix(name, "(*encoding/xml.Decoder).") {
		ft := types.Typ[types.UnsafePointer]
		return map[string]*Term{
			"CharsetReader": st.heap[fieldAddr(args[0], "CharsetReader")],
			"Strict":        st.heap[fieldAddr(args[0], "Strict")],
			"Entity":        st.heap[fieldAddr(args[0], "Entity")],
			"":              sym("decoder", ft),
		}
	}
	if len(args) == 0 || !strings.HasPrefix(name, "xgen.") {
		return nil
	}
	x := args[0]
	if x.Op == OpIface {
		x = x.Args[0]
	}
	var n *types.Named
	switch {
	case an.isOptionsPtr(x):
		n = an.optType
	case an.isGenPtr(x):
		n = an.genType
	default:
		return nil
	}
	m := map[string]*Term{}
	s := structOf(n)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		m[f.Name()] = st.load(fieldAddr(x, f.Name()), f.Type())
	}
	return m
}

func isErrorType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

func (an *Analyzer) invoke(c conf, in *ssa.Call, cc *ssa.CallCommon, recv *Term, args []*Term, pos token.Pos, site string) []callRes {
	name := "(" + typeKey(cc.Value.Type()) + ")." + cc.Method.Name()
	// a known concrete type: call its method
	if recv.Op == OpIface {
		if m := an.prog.LookupMethod(recv.T, cc.Method.Pkg(), cc.Method.Name()); m != nil {
			ft := mk(OpFn, m.String(), 0, m.Type())
			ft.X = m
			cc2 := &ssa.CallCommon{Value: m, Args: cc.Args}
			return an.doCall(c, in, cc2, ft, append([]*Term{recv.Args[0]}, args...), pos, site)
		}
	}
	all := append([]*Term{recv}, args...)
	if pureInvoke[name] {
		n := cc.Signature().Results().Len()
		var rs []*Term
		for i := 0; i < n; i++ {
			s := name
			if i > 0 {
				s = fmt.Sprintf("%s#%d", name, i)
			}
			rs = append(rs, c.st.facts.canon(mk(OpApp, s, 0, cc.Signature().Results().At(i).Type(), all...)))
		}
		setRes(c, in, rs)
		return one(c)
	}
	an.effectCall(c, in, name, cc.Signature(), all, pos, site)
	return one(c)
}

var pureInvoke = map[string]bool{
	"(error).Error": true, "(io/fs.FileInfo).IsDir": true, "(io/fs.FileInfo).Name": true, "(io/fs.FileInfo).Mode": true, "(io/fs.FileInfo).Size": true,
	"(os.FileInfo).IsDir": true, "(os.FileInfo).Name": true, "(os.FileInfo).Mode": true, "(os.FileInfo).Size": true, "(reflect.Type).String": true, "(reflect.Type).Elem": true, "(reflect.Type).Name": true, "(reflect.Type).Kind": true,
	"(reflect.Type).NumIn": true, "(reflect.Type).In": true, "(reflect.Type).NumOut": true, "(reflect.Type).AssignableTo": true, "(reflect.Type).IsVariadic": true, "(reflect.Type).PkgPath": true, "(reflect.Type).Out": true, "(reflect.Type).Implements": true, "(reflect.Type).ConvertibleTo": true,
}

func (an *Analyzer) builtin(c conf, in *ssa.Call, b *ssa.Builtin, args []*Term, pos token.Pos) []callRes {
	switch b.Name() {
	case "len", "cap":
		a := args[0]
		if in != nil {
			if _, ok := in.Call.Args[0].Type().Underlying().(*types.Map); ok {
				ms := c.st.mapContent(a)
				setRes(c, in, []*Term{c.st.facts.canon(mkLen(ms))})
				return one(c)
			}
		}
		setRes(c, in, []*Term{c.st.facts.canon(mkLen(a))})
	case "append":
		base := args[0]
		add := args[1]
		if base.Op == OpNil || base.Op == OpApp && base.S == "make" && base.Args[0] == ci(0) {
			base = mkListLit(base.T)
		}
		if isStringTerm(base) || isStringTerm(add) && isByteSlice(in.Type()) {
			setRes(c, in, []*Term{mkConcat(strOrEmpty(base), strOrEmpty(add))})
			return one(c)
		}
		r := mkListCat(base, add)
		if r.T == nil && in != nil {
			r.T = in.Type()
		}
		setRes(c, in, []*Term{r})
	case "copy":
		c.st.event(&Event{Kind: "call", Fn: "copy", Pos: pos, Args: args})
		setRes(c, in, []*Term{mk(OpHavoc, "copy", 0, types.Typ[types.Int])})
	case "delete":
		c.st.event(&Event{Kind: "mapdelete", Pos: pos, Args: args})
		c.st.heap[fieldAddr(args[0], "$map")] = mk(OpApp, "mapdelete", 0, nil, c.st.mapContent(args[0]), args[1])
	case "panic":
		an.hazard(c, "explicit panic", pos, args...)
	case "print", "println":
		c.st.event(&Event{Kind: "call", Fn: "print", Pos: pos, Args: args})
	case "recover":
		setRes(c, in, []*Term{tNil})
	case "min", "max":
		setRes(c, in, []*Term{mk(OpApp, "builtin."+b.Name(), 0, in.Type(), args...)})
	case "ssa:wrapnilchk":
		setRes(c, in, []*Term{args[0]})
	case "clear", "close":
		c.st.event(&Event{Kind: "call", Fn: b.Name(), Pos: pos, Args: args})
		if b.Name() == "clear" {
			c.st.heap[fieldAddr(args[0], "$map")] = mk(OpMapNew, "", 0, nil)
		}
	default:
		giveUp("builtin %s", b.Name())
	}
	return one(c)
}

func strOrEmpty(t *Term) *Term {
	if t.Op == OpNil || t.Op == OpListLit && len(t.Args) == 0 {
		return tEmpty
	}
	return t
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
