package main

// A lexer for emission templates of the five target languages. Its input is
// constant text, symbolic holes and text a hole was instantiated with; tokens
// remember where each piece of them came from.

import (
	"fmt"
	"strings"
	"unicode"
)

// Part is a piece of a token.
type Part struct {
	Text string
	Term *Term // the hole this piece stands for or was instantiated from
	Conc bool  // Term was instantiated with Text
}

func (p Part) String() string {
	if p.Term != nil && !p.Conc {
		return "«" + p.Term.String() + "»"
	}
	return p.Text
}

func partsString(ps []Part) string {
	var b strings.Builder
	for _, p := range ps {
		b.WriteString(p.String())
	}
	return b.String()
}

type LTok struct {
	Kind  byte // i identifier, s string, c comment, p punctuation, n newline, e end
	Q     rune // quote of a string
	Block bool
	Parts []Part
}

func (t LTok) String() string {
	switch t.Kind {
	case 'e':
		return "end of text"
	case 'n':
		return "end of line"
	case 's':
		return string(t.Q) + partsString(t.Parts) + string(t.Q)
	}
	return partsString(t.Parts)
}

func (t LTok) is(s string) bool {
	return (t.Kind == 'p' || t.Kind == 'i') && len(t.Parts) == 1 && (t.Parts[0].Term == nil || t.Parts[0].Conc) && t.Parts[0].Text == s
}

// fromTemplate: the token was written by the template, not by a hole.
func (t LTok) fromTemplate() bool { return len(t.Parts) == 1 && t.Parts[0].Term == nil }

type cellR struct {
	r    rune
	hole *Term
	prov *Term
}

// INode is a piece of an instantiated template.
type INode struct {
	Text string
	Term *Term
	Conc bool
}

func lexTemplate(ns []INode) ([]LTok, error) {
	var cs []cellR
	for _, n := range ns {
		if n.Term != nil && !n.Conc {
			cs = append(cs, cellR{r: -1, hole: n.Term})
			continue
		}
		for _, r := range n.Text {
			cs = append(cs, cellR{r: r, prov: n.Term})
		}
	}
	add := func(ps []Part, c cellR) []Part {
		if c.hole != nil {
			return append(ps, Part{Term: c.hole})
		}
		if len(ps) > 0 {
			l := &ps[len(ps)-1]
			if l.Term == c.prov && (l.Conc || l.Term == nil) {
				l.Text += string(c.r)
				return ps
			}
		}
		return append(ps, Part{Text: string(c.r), Term: c.prov, Conc: c.prov != nil})
	}
	at := func(i int) rune {
		if i < len(cs) {
			return cs[i].r
		}
		return 0
	}
	var out []LTok
	for i := 0; i < len(cs); {
		c := cs[i]
		switch {
		case c.r == '\n':
			out = append(out, LTok{Kind: 'n'})
			i++
		case c.r == ' ' || c.r == '\t' || c.r == '\r':
			i++
		case c.r == '/' && at(i+1) == '/':
			t := LTok{Kind: 'c'}
			i += 2
			for i < len(cs) && cs[i].r != '\n' {
				t.Parts = add(t.Parts, cs[i])
				i++
			}
			if i >= len(cs) {
				return nil, fmt.Errorf("comment %q is not ended by a newline", partsString(t.Parts))
			}
			out = append(out, t)
		case c.r == '/' && at(i+1) == '*':
			t := LTok{Kind: 'c', Block: true}
			i += 2
			for i < len(cs) && !(cs[i].r == '*' && at(i+1) == '/') {
				t.Parts = add(t.Parts, cs[i])
				i++
			}
			if i >= len(cs) {
				return nil, fmt.Errorf("comment is not closed")
			}
			i += 2
			out = append(out, t)
		case c.r == '"' || c.r == '\'' || c.r == '`':
			t := LTok{Kind: 's', Q: c.r}
			i++
			for i < len(cs) && cs[i].r != t.Q {
				if cs[i].r == '\n' && t.Q != '`' {
					return nil, fmt.Errorf("string %q is not closed", partsString(t.Parts))
				}
				t.Parts = add(t.Parts, cs[i])
				i++
			}
			if i >= len(cs) {
				return nil, fmt.Errorf("string %q is not closed", partsString(t.Parts))
			}
			i++
			out = append(out, t)
		case c.r == -1 || c.r == '_' || c.r == '$' || unicode.IsLetter(c.r) || unicode.IsDigit(c.r):
			t := LTok{Kind: 'i'}
			for i < len(cs) && (cs[i].r == -1 || cs[i].r == '_' || cs[i].r == '$' || unicode.IsLetter(cs[i].r) || unicode.IsDigit(cs[i].r)) {
				t.Parts = add(t.Parts, cs[i])
				i++
			}
			out = append(out, t)
		default:
			out = append(out, LTok{Kind: 'p', Parts: []Part{{Text: string(c.r), Term: c.prov, Conc: c.prov != nil}}})
			i++
		}
	}
	out = append(out, LTok{Kind: 'e'})
	return out, nil
}
