package main

// The functions rewriting names that the engine keeps as atoms (title case,
// snake case): what they do to a word is read off their own summaries.

import (
	"go/types"
	"regexp"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type helperSem struct {
	an    *Analyzer
	fn    *ssa.Function
	exits []Exit
	role  string
	bad   string // why the summary cannot be evaluated
	memo  map[string]string
	model func(string) string
}

var (
	helperTitle *helperSem
	helperSnake *helperSem
)

func (an *Analyzer) findHelpers() {
	mk := func(role string, model func(string) string) *helperSem {
		h := &helperSem{an: an, role: role, fn: an.byRole[role], memo: map[string]string{}, model: model}
		if h.fn == nil || len(h.fn.Params) != 1 {
			h.bad = "there is no such function"
			return h
		}
		ex, err := an.root(h.fn)
		if err != nil {
			h.bad = err.Error()
		}
		h.exits = ex
		return h
	}
	helperTitle = mk("ToTitle", titleModel)
	helperSnake = mk("ToSnakeCase", snakeModel)
	titleStr, snakeStr = helperTitle.apply, helperSnake.apply
	longWords = nil
	var gens []*ssa.Function
	for _, f := range an.funcs {
		if rv := f.Signature.Recv(); rv != nil && an.genType != nil && types.Identical(rv.Type(), types.NewPointer(an.genType)) {
			gens = append(gens, f)
		}
	}
	for _, n := range an.harvestOf(append(gens, helperTitle.fn, helperSnake.fn)...).sizes(0, 4096) {
		if n > 6 {
			longWords = append(longWords, fill(n))
		}
	}
}

// longWords are names of the lengths code compares lengths with.
var longWords []string

// fill makes a name of a length.
func fill(n int) string {
	const al = "aBcdeFghiJk1mnoPqrsTuvw"
	if n < 1 {
		n = 1
	}
	return strings.Repeat(al, n/len(al)+1)[:n]
}

// nameWords enumerates schema names: all short ones over an alphabet, some
// with letters outside ASCII, and some long ones.
func nameWords(f func(string) bool) {
	ok := true
	words("aB", "aB1.-_", bound(6, 8), func(w string) bool {
		ok = f(w)
		return ok
	})
	for _, w := range []string{"é", "éa", "aé", "Éb-é.ö_a"} {
		ok = ok && f(w)
	}
	for _, w := range longWords {
		ok = ok && f(w)
	}
}

// lettersOf is what is left of a name without separators and case.
func lettersOf(s string) string {
	return strings.Map(func(r rune) rune {
		if unicode.IsLetter(r) || unicode.IsDigit(r) {
			return unicode.ToLower(r)
		}
		return -1
	}, s)
}

func titleModel(s string) string {
	for i, r := range s {
		return string(unicode.ToUpper(r)) + s[i+len(string(r)):]
	}
	return s
}

func snakeModel(s string) string {
	s = reFirstCap.ReplaceAllString(s, "${1}_${2}")
	s = reAllCap.ReplaceAllString(s, "${1}_${2}")
	return strings.ToLower(strings.Replace(s, "-", "_", -1))
}

// apply gives what the function makes of a word.
func (h *helperSem) apply(w string) string {
	if h == nil || h.bad != "" {
		return h.model(w)
	}
	if r, ok := h.memo[w]; ok {
		return r
	}
	r, ok := h.eval(w)
	if !ok {
		h.bad = "its summary cannot be evaluated for " + w
		return h.model(w)
	}
	h.memo[w] = r
	return r
}

func (h *helperSem) eval(w string) (string, bool) {
	p := sym(h.fn.Params[0].Name(), h.fn.Params[0].Type())
	res, n := "", 0
	for i := range h.exits {
		x := &h.exits[i]
		c := h.an.newConc()
		c.lists = true
		c.reps = true
		c.m[p] = cs(w)
		if len(x.Res) != 1 {
			return "", false
		}
		v := c.eval(x.Res[0])
		s, ok := v.str()
		held := 1
		for _, l := range x.St.path {
			walkTerm(l.A, func(u *Term) bool {
				if u.Op == OpOk {
					id := strings.SplitN(u.S, "|", 2)[0]
					c.m[u] = cb(hasStr(c.stopped, id))
				}
				return true
			})
			switch c.lit(l) {
			case 0:
				held = 0
			case -1:
				if held == 1 {
					held = -1
				}
			}
		}
		if held == 0 || c.broken {
			continue
		}
		if held < 0 || !ok {
			return "", false
		}
		res = s
		n++
	}
	return res, n == 1
}

// evalRep unrolls a repetition over a constant text.
func (c *conc) evalRep(t *Term) *Term {
	li := c.an.loopsSeen[t.S]
	if li == nil || li.Over == nil {
		return nil
	}
	over := c.eval(li.Over)
	s, ok := over.str()
	if !ok {
		return nil
	}
	var keys, vals, oks []*Term
	see := func(u *Term) bool {
		switch {
		case u.Op == OpKey && u.S == t.S:
			keys = append(keys, u)
		case u.Op == OpVal && u.S == t.S:
			vals = append(vals, u)
		case u.Op == OpOk && strings.HasPrefix(u.S, t.S+"|"):
			oks = append(oks, u)
		}
		return true
	}
	for _, a := range t.Args {
		for _, g := range a.Args {
			walkTerm(g, see)
		}
	}
	out := ""
	for i, r := range s {
		d := c.an.newConc()
		d.lists, d.reps = c.lists, c.reps
		for k, v := range c.m {
			d.m[k] = v
		}
		for _, k := range keys {
			d.m[k] = ci(int64(i))
		}
		for _, k := range vals {
			d.m[k] = ci(int64(r))
		}
		for _, k := range oks {
			d.m[k] = tTrue
		}
		taken := false
		for _, a := range t.Args {
			yes := 1
			for _, g := range a.Args[1:] {
				if v := d.guard(g); v != 1 {
					yes = v
					if v == 0 {
						break
					}
				}
			}
			if yes < 0 {
				return nil
			}
			if yes == 1 {
				b, ok := d.eval(a.Args[0]).str()
				if !ok || taken {
					return nil
				}
				taken = true
				out += b
			}
		}
		if !taken {
			// the loop ends here
			for _, k := range keys {
				c.m[k] = ci(int64(i))
			}
			for _, k := range vals {
				c.m[k] = ci(int64(r))
			}
			c.stopped = append(c.stopped, t.S)
			if t.I != 1 {
				c.broken = true // but here it is known to run to the end
			}
			break
		}
	}
	return cs(out)
}

var regexps = map[string]*regexp.Regexp{}

// foldHelper evaluates functions of constants that rewrite names are made of.
func foldHelper(t *Term) *Term {
	num := func(i int) (rune, bool) {
		n, ok := t.Args[i].num()
		return rune(n), ok
	}
	switch t.S {
	case "unicode.ToUpper", "unicode.ToLower", "unicode.ToTitle":
		if r, ok := num(0); ok {
			f := map[string]func(rune) rune{"unicode.ToUpper": unicode.ToUpper, "unicode.ToLower": unicode.ToLower, "unicode.ToTitle": unicode.ToTitle}[t.S]
			return ci(int64(f(r)))
		}
	case "unicode.IsUpper", "unicode.IsLower", "unicode.IsLetter", "unicode.IsDigit":
		if r, ok := num(0); ok {
			f := map[string]func(rune) bool{"unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit}[t.S]
			return cb(f(r))
		}
	case "string(rune)":
		if r, ok := num(0); ok {
			return cs(string(r))
		}
	case "unicode/utf8.DecodeRuneInString", "unicode/utf8.DecodeRuneInString#1":
		if s, ok := t.Args[0].str(); ok {
			r, n := utf8.DecodeRuneInString(s)
			if strings.HasSuffix(t.S, "#1") {
				return ci(int64(n))
			}
			return ci(int64(r))
		}
	case "(*regexp.Regexp).ReplaceAllString":
		if len(t.Args) == 3 && t.Args[0].Op == OpApp && t.Args[0].S == "regexp.MustCompile" {
			pat, ok1 := t.Args[0].Args[0].str()
			s, ok2 := t.Args[1].str()
			tm, ok3 := t.Args[2].str()
			if ok1 && ok2 && ok3 {
				re := regexps[pat]
				if re == nil {
					var err error
					if re, err = regexp.Compile(pat); err != nil {
						return nil
					}
					regexps[pat] = re
				}
				return cs(re.ReplaceAllString(s, tm))
			}
		}
	}
	return nil
}

func hasStr(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}
