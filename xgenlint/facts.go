package main

// Facts: what one trace partition knows about its terms. Booleans, equality
// with constants, disequality with constants, integer bounds and difference
// bounds. assume returns false when the partition becomes empty.

import (
	"go/types"
	"math"
	"strings"
)

type Lit struct {
	A *Term // atom
	V bool
}

func (l Lit) String() string {
	if l.V {
		return l.A.String()
	}
	return mkNot(l.A).String()
}

type Facts struct {
	eq   map[*Term]*Term
	ne   map[*Term]map[*Term]bool
	lo   map[*Term]int64
	hi   map[*Term]int64
	lit  map[*Term]bool
	diff map[[2]*Term]int64 // a-b <= n
}

func newFacts() *Facts {
	return &Facts{map[*Term]*Term{}, map[*Term]map[*Term]bool{}, map[*Term]int64{}, map[*Term]int64{}, map[*Term]bool{}, map[[2]*Term]int64{}}
}

func (f *Facts) clone() *Facts {
	g := newFacts()
	for k, v := range f.eq {
		g.eq[k] = v
	}
	for k, v := range f.ne {
		m := map[*Term]bool{}
		for a := range v {
			m[a] = true
		}
		g.ne[k] = m
	}
	for k, v := range f.lo {
		g.lo[k] = v
	}
	for k, v := range f.hi {
		g.hi[k] = v
	}
	for k, v := range f.lit {
		g.lit[k] = v
	}
	for k, v := range f.diff {
		g.diff[k] = v
	}
	return g
}

// canon replaces a term known equal to a constant by the constant.
func (f *Facts) canon(t *Term) *Term {
	if c, ok := f.eq[t]; ok {
		return c
	}
	if b, ok := f.lit[t]; ok {
		return cb(b)
	}
	return t
}

// bounds of an integer term.
func (f *Facts) bounds(t *Term) (lo, hi int64) {
	b, o := lin(t)
	if b == nil {
		return o, o
	}
	if c, ok := f.eq[b]; ok {
		if n, ok := c.num(); ok {
			return n + o, n + o
		}
	}
	lo, hi = math.MinInt64, math.MaxInt64
	if b.Op == OpLen || b.Op == OpIter {
		lo = 0
	}
	if tl, th, ok := tableBounds(b); ok {
		lo, hi = tl, th
	}
	if isIndexApp(b) {
		lo = -1
		if f.found(b) {
			lo = 0
		}
	}
	if b.Op == OpApp && b.S == "strings.Count" {
		lo = 0
	}
	if isRuneSize(b) {
		lo, hi = 0, 4
		if f.known(mkEq(b.Args[0], tEmpty)) == 0 {
			lo = 1
		}
	}
	if v, ok := f.lo[b]; ok && v > lo {
		lo = v
	}
	if v, ok := f.hi[b]; ok && v < hi {
		hi = v
	}
	if lo != math.MinInt64 {
		lo += o
	}
	if hi != math.MaxInt64 {
		hi += o
	}
	return
}

// isIndexApp: the position of something in a text, -1 when it isn't there.
func isIndexApp(t *Term) bool {
	if t.Op != OpApp {
		return false
	}
	switch t.S {
	case "strings.Index", "strings.LastIndex", "strings.IndexByte", "strings.LastIndexByte", "strings.IndexRune", "strings.IndexAny", "strings.LastIndexAny":
		return true
	}
	return false
}

// isRuneSize: the number of bytes of the first or last rune of a text.
func isRuneSize(t *Term) bool {
	return t.Op == OpApp && (t.S == "unicode/utf8.DecodeRuneInString#1" || t.S == "unicode/utf8.DecodeLastRuneInString#1")
}

// indexRoom is how much a found position can be moved on without leaving the
// text.
func (f *Facts) indexRoom(t *Term) int64 {
	n := int64(1)
	if t.S == "strings.Index" || t.S == "strings.LastIndex" {
		s, ok := t.Args[1].str()
		if !ok || s == "" {
			return 0
		}
		if lo, _ := f.bounds(t); lo >= 0 {
			n = int64(len(s))
		}
	}
	return n
}

// found: what is looked for is known to be in the text.
func (f *Facts) found(t *Term) bool {
	if f.lo[t] >= 0 {
		if _, ok := f.lo[t]; ok {
			return true
		}
	}
	args := t.Args
	switch t.S {
	case "strings.Index", "strings.LastIndex":
	case "strings.IndexByte", "strings.LastIndexByte", "strings.IndexRune":
		c, ok := t.Args[1].num()
		if !ok || c <= 0 || c >= 0x80 {
			return false
		}
		args = []*Term{t.Args[0], cs(string(rune(c)))}
	default:
		return false
	}
	if f.lit[mk(OpApp, "strings.Contains", 0, types.Typ[types.Bool], args...)] {
		return true
	}
	n := mk(OpApp, "strings.Count", 0, types.Typ[types.Int], args...)
	if c, ok := f.eq[n]; ok {
		k, _ := c.num()
		return k > 0
	}
	return f.lo[n] > 0
}

// known evaluates a boolean term: 1 true, 0 false, -1 unknown.
func (f *Facts) known(t *Term) int {
	if b, ok := t.boolean(); ok {
		if b {
			return 1
		}
		return 0
	}
	if t.Op == OpNot {
		switch f.known(t.Args[0]) {
		case 1:
			return 0
		case 0:
			return 1
		}
		return -1
	}
	if v, ok := f.lit[t]; ok {
		if v {
			return 1
		}
		return 0
	}
	switch t.Op {
	case OpEq:
		a, b := t.Args[0], t.Args[1]
		ca, cb2 := f.canon(a), f.canon(b)
		if ca != a || cb2 != b {
			r := mkEq(ca, cb2)
			if r != t {
				return f.known(r)
			}
		}
		if b.isConst() {
			if f.ne[a][b] {
				return 0
			}
			if n, ok := b.num(); ok {
				lo, hi := f.bounds(a)
				if n < lo || n > hi {
					return 0
				}
				if lo == hi && lo == n {
					return 1
				}
			}
			if set := finiteValues(a, f); set != nil && !set[b] {
				return 0
			}
		} else {
			// both symbolic: compare bounds
			al, ah := f.bounds(a)
			bl, bh := f.bounds(b)
			if ah < bl || bh < al {
				return 0
			}
		}
	case OpLt:
		a, b := t.Args[0], t.Args[1]
		al, ah := f.bounds(a)
		bl, bh := f.bounds(b)
		if ah < bl {
			return 1
		}
		if al >= bh {
			return 0
		}
		ab, ao := lin(a)
		bb, bo := lin(b)
		if ab != nil && bb != nil {
			// a<b <=> ab-bb < bo-ao
			if d, ok := f.diff[[2]*Term{ab, bb}]; ok && d < bo-ao {
				return 1
			}
			// not a<b <=> bb-ab <= ao-bo
			if d, ok := f.diff[[2]*Term{bb, ab}]; ok && d <= ao-bo {
				return 0
			}
			// a text is as long as its first rune at least
			if ab.Op == OpLen && isRuneSize(bb) && bb.Args[0] == ab.Args[0] && bo <= ao {
				return 0
			}
			// a position found in a text lies in the text
			if ab.Op == OpLen && isIndexApp(bb) && bb.Args[0] == ab.Args[0] && bo-ao <= f.indexRoom(bb) {
				return 0
			}
			if bb.Op == OpLen && isIndexApp(ab) && ab.Args[0] == bb.Args[0] && ao-bo < f.indexRoom(ab) {
				return 1
			}
		}
	case OpLookupOk:
		k := f.canon(t.Args[1])
		if k != t.Args[1] {
			return f.known(mkLookupOkT(t.Args[0], k))
		}
		if v := tableHas(t); v >= 0 {
			return v
		}
	default:
		return -1
	}
	return -1
}

func (f *Facts) assume(t *Term, v bool) bool {
	switch k := f.known(t); {
	case k == 1:
		return v
	case k == 0:
		return !v
	}
	if t.Op == OpNot {
		return f.assume(t.Args[0], !v)
	}
	switch t.Op {
	case OpEq:
		a, b := t.Args[0], t.Args[1]
		if b.isConst() {
			if v {
				f.eq[a] = b
				if !f.recheck(a, b) {
					return false
				}
			} else {
				m := f.ne[a]
				if m == nil {
					m = map[*Term]bool{}
					f.ne[a] = m
				}
				m[b] = true
				if n, ok := b.num(); ok {
					lo, hi := f.bounds(a)
					if lo == n {
						f.lo[a] = n + 1
					}
					if hi == n {
						f.hi[a] = n - 1
					}
				}
			}
		}
		f.lit[t] = v
	case OpLt:
		a, b := t.Args[0], t.Args[1]
		if !v {
			// b <= a
			f.addLe(b, a, 0)
		} else {
			f.addLe(a, b, -1)
		}
		f.lit[t] = v
		if lo, hi := f.bounds(a); lo > hi {
			return false
		}
		if lo, hi := f.bounds(b); lo > hi {
			return false
		}
	default:
		f.lit[t] = v
		if !f.recheck(t, cb(v)) {
			return false
		}
	}
	return true
}

// addLe records a <= b + n
func (f *Facts) addLe(a, b *Term, n int64) {
	ab, ao := lin(a)
	bb, bo := lin(b)
	switch {
	case ab != nil && bb == nil:
		h := bo + n - ao
		if _, hi := f.bounds(ab); h < hi {
			f.hi[ab] = h
		}
		f.pin(ab)
	case ab == nil && bb != nil:
		l := ao - n - bo
		if lo, _ := f.bounds(bb); l > lo {
			f.lo[bb] = l
		}
		f.pin(bb)
	case ab != nil && bb != nil:
		k := [2]*Term{ab, bb}
		d := bo + n - ao
		if old, ok := f.diff[k]; !ok || d < old {
			f.diff[k] = d
		}
		// propagate: ab <= bb + d
		_, bh := f.bounds(bb)
		if bh != math.MaxInt64 {
			if _, hi := f.bounds(ab); bh+d < hi {
				f.hi[ab] = bh + d
			}
		}
		al, _ := f.bounds(ab)
		if al != math.MinInt64 {
			if lo, _ := f.bounds(bb); al-d > lo {
				f.lo[bb] = al - d
			}
		}
		f.pin(ab)
		f.pin(bb)
	}
}

func (f *Facts) pin(a *Term) {
	if _, ok := f.eq[a]; ok {
		return
	}
	if lo, hi := f.bounds(a); lo == hi {
		f.eq[a] = ci(lo)
	}
}

// recheck re-evaluates the recorded literals that mention a after a == c.
func (f *Facts) recheck(a, c *Term) bool {
	type kv struct {
		t *Term
		v bool
	}
	var todo []kv
	for t, v := range f.lit {
		if t != a && contains(t, a) {
			todo = append(todo, kv{t, v})
		}
	}
	for _, e := range todo {
		r := replace(e.t, a, c)
		if r == e.t {
			continue
		}
		switch f.known(r) {
		case 1:
			if !e.v {
				return false
			}
		case 0:
			if e.v {
				return false
			}
		}
	}
	for b := range f.ne[a] {
		if b == c {
			return false
		}
	}
	if n, ok := c.num(); ok {
		lo, hi := math.MinInt64, math.MaxInt64
		if v, ok := f.lo[a]; ok {
			lo = int(v)
		}
		if v, ok := f.hi[a]; ok {
			hi = int(v)
		}
		if n < int64(lo) || n > int64(hi) {
			return false
		}
	}
	return true
}

func (f *Facts) apply(s *subst) *Facts {
	g := newFacts()
	for k, v := range f.eq {
		k2 := s.apply(k)
		if !k2.isConst() {
			g.eq[k2] = s.apply(v)
		}
	}
	for k, v := range f.ne {
		k2 := s.apply(k)
		if g.ne[k2] == nil {
			g.ne[k2] = map[*Term]bool{}
		}
		for a := range v {
			g.ne[k2][a] = true
		}
	}
	for k, v := range f.lo {
		if k2, o := lin(s.apply(k)); k2 != nil {
			g.lo[k2] = v - o
		}
	}
	for k, v := range f.hi {
		if k2, o := lin(s.apply(k)); k2 != nil {
			g.hi[k2] = v - o
		}
	}
	for k, v := range f.lit {
		k2 := s.apply(k)
		if k2.Op == OpNot {
			k2, v = k2.Args[0], !v
		}
		if !k2.isConst() {
			g.lit[k2] = v
		}
	}
	for k, v := range f.diff {
		a, ao := lin(s.apply(k[0]))
		b, bo := lin(s.apply(k[1]))
		if a != nil && b != nil {
			g.diff[[2]*Term{a, b}] = v - ao + bo
		}
	}
	return g
}

// within: the facts and a path literals hold of an arbitrary iteration of the
// loop: what was learned about the iteration the loop ended in is dropped.
// false: the iteration is impossible.
func (f *Facts) within(ev *Event, k int) (*Facts, bool) {
	id := ev.Loop.ID
	own := func(t *Term) bool {
		h := false
		walkTerm(t, func(x *Term) bool {
			switch x.Op {
			case OpIter, OpOk, OpKey, OpVal:
				if x.S == id || strings.HasPrefix(x.S, id+"|") {
					h = true
				}
			}
			return !h
		})
		return h
	}
	g := f.clone()
	for t, v := range g.eq {
		if own(t) || own(v) {
			delete(g.eq, t)
		}
	}
	for t := range g.ne {
		if own(t) {
			delete(g.ne, t)
		}
	}
	for t := range g.lo {
		if own(t) {
			delete(g.lo, t)
		}
	}
	for t := range g.hi {
		if own(t) {
			delete(g.hi, t)
		}
	}
	for t := range g.lit {
		if own(t) {
			delete(g.lit, t)
		}
	}
	for p := range g.diff {
		if p[0] != nil && own(p[0]) || p[1] != nil && own(p[1]) {
			delete(g.diff, p)
		}
	}
	for _, l := range ev.Guard[k] {
		if !g.assume(l.A, l.V) {
			return g, false
		}
	}
	return g, true
}
