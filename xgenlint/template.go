package main

// Emission templates: the text an emitter appends to CodeGenerator.Field, as
// constant text, holes (terms) and repetitions over the node's children.

import (
	"strings"
)

type TNode struct {
	Text string
	Hole *Term
	Rep  *RepNode
}

type RepNode struct {
	ID   string
	Loop *LoopInfo
	Cut  bool
	Alts []TAlt
}

type TAlt struct {
	Guards []*Term
	Nodes  []TNode
}

// isPipeRep: a repetition over the pieces of a string is a rewriting of that
// string, not a repetition of the template.
func (an *Analyzer) isPipeRep(t *Term) bool {
	if t.Op != OpRep {
		return false
	}
	li := an.loopsSeen[t.S]
	if li == nil || li.Over == nil {
		return false
	}
	if li.Kind == "string" {
		return true
	}
	o := li.Over
	if o.Op == OpApp && (strings.HasPrefix(o.S, "strings.") || strings.HasPrefix(o.S, "bytes.")) {
		return true
	}
	if o.Op == OpConv { // []rune(s), []byte(s)
		return true
	}
	return false
}

func (an *Analyzer) template(t *Term) []TNode {
	var out []TNode
	add := func(x *Term) {
		if s, ok := x.str(); ok {
			if s != "" {
				out = append(out, TNode{Text: s})
			}
			return
		}
		if x.Op == OpRep && !an.isPipeRep(x) {
			r := &RepNode{ID: x.S, Loop: an.loopsSeen[x.S], Cut: x.I == 1}
			for _, a := range x.Args {
				r.Alts = append(r.Alts, TAlt{Guards: a.Args[1:], Nodes: an.template(a.Args[0])})
			}
			out = append(out, TNode{Rep: r})
			return
		}
		out = append(out, TNode{Hole: x})
	}
	if t.Op == OpConcat {
		for _, a := range t.Args {
			add(a)
		}
	} else {
		add(t)
	}
	return out
}

// ---- pipelines

type PipeOp struct {
	Kind string // cap: split at S, title each piece, join; del: delete S; title; repl: S by R; snake; app
	S, R string
	T    *Term
}

type Pipe struct {
	Src *Term
	Ops []PipeOp
}

func (p Pipe) then(o PipeOp) Pipe {
	return Pipe{p.Src, append(append([]PipeOp{}, p.Ops...), o)}
}

func (p Pipe) String() string {
	s := p.Src.String()
	for _, o := range p.Ops {
		s += "|" + o.Kind
		if o.S != "" || o.R != "" {
			s += "(" + o.S
			if o.R != "" {
				s += "→" + o.R
			}
			s += ")"
		}
	}
	return s
}

// pipe splits a string term into its source and the rewriting applied to it.
func (an *Analyzer) pipe(t *Term) Pipe {
	switch t.Op {
	case OpApp:
		switch t.S {
		case "strings.ReplaceAll":
			a, ok1 := t.Args[1].str()
			b, ok2 := t.Args[2].str()
			if ok1 && ok2 {
				p := an.pipe(t.Args[0])
				if b == "" {
					return p.then(PipeOp{Kind: "del", S: a})
				}
				return p.then(PipeOp{Kind: "repl", S: a, R: b})
			}
		case "xgen.ToTitle":
			return an.pipe(t.Args[0]).then(PipeOp{Kind: "title"})
		case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace":
			k := map[string]string{"strings.ToLower": "lower", "strings.ToUpper": "upper", "strings.TrimSpace": "trim"}[t.S]
			return an.pipe(t.Args[0]).then(PipeOp{Kind: k})
		case "xgen.ToSnakeCase":
			return an.pipe(t.Args[0]).then(PipeOp{Kind: "snake"})
		case "(*strings.Replacer).Replace":
			r := t.Args[0]
			if r.Op == OpApp && r.S == "strings.NewReplacer" {
				if as, ok := listArgs(r.Args[0]); ok {
					if ss, ok := constStrings(as); ok && len(ss)%2 == 0 {
						p := an.pipe(t.Args[1])
						return p.then(PipeOp{Kind: "replacer", S: strings.Join(ss, "\x00")})
					}
				}
			}
		}
	case OpRep:
		if an.isPipeRep(t) && t.I == 0 && len(t.Args) == 1 && len(t.Args[0].Args) == 1 {
			li := an.loopsSeen[t.S]
			body := an.pipe(t.Args[0].Args[0])
			el := body.Src
			if li.Full && !li.HasEarlyExit && el.Op == OpElem && el.Args[1].Op == OpIter && el.Args[1].S == li.ID {
				over := el.Args[0] // the pieces, as they are after substitution
				if over.Op == OpApp && over.S == "strings.Split" {
					if sep, ok := over.Args[1].str(); ok && len(sep) == 1 {
						if len(body.Ops) == 0 {
							return an.pipe(over.Args[0]).then(PipeOp{Kind: "del", S: sep})
						}
						if len(body.Ops) == 1 && body.Ops[0].Kind == "title" {
							return an.pipe(over.Args[0]).then(PipeOp{Kind: "cap", S: sep})
						}
					}
				}
			}
		}
	}
	return Pipe{Src: t}
}

func (an *Analyzer) showTemplate(ns []TNode, ind string) string {
	var b strings.Builder
	for _, n := range ns {
		switch {
		case n.Rep != nil:
			b.WriteString("\n" + ind + "  {each " + shortID(n.Rep.ID))
			if n.Rep.Loop != nil {
				b.WriteString(" over " + n.Rep.Loop.Over.String() + " " + n.Rep.Loop.Kind)
				if !n.Rep.Loop.Full {
					b.WriteString(" PARTIAL")
				}
			}
			for _, a := range n.Rep.Alts {
				b.WriteString("\n" + ind + "    ")
				for _, g := range a.Guards {
					b.WriteString("[" + an.showHole(g) + "]")
				}
				b.WriteString(" => " + an.showTemplate(a.Nodes, ind+"    "))
			}
			b.WriteString("\n" + ind + "  }")
		case n.Hole != nil:
			b.WriteString("«" + an.showHole(n.Hole) + "»")
		default:
			b.WriteString(strings.NewReplacer("\n", "\\n", "\t", "\\t", "\r", "\\r").Replace(n.Text))
		}
	}
	return b.String()
}

func (an *Analyzer) showHole(t *Term) string {
	if t.Op == OpNot {
		return "!" + an.showHole(t.Args[0])
	}
	if t.Op == OpEq {
		return an.showHole(t.Args[0]) + "==" + an.showHole(t.Args[1])
	}
	if t.Op == OpLookupOk {
		return "has(" + t.Args[0].String() + "," + an.showHole(t.Args[1]) + ")"
	}
	return an.pipe(t).String()
}
