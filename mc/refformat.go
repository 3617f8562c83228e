package main

import (
	"math/big"
	"strconv"
	"strings"
)

// The reference formatter: renders a neutral tree in the canonical layout of property C25.
// Every logical line is written with its indentation; a multi-line literal is one logical line.

type refWriter struct {
	b   strings.Builder
	ind int
}

func (w *refWriter) nl() { w.b.WriteByte('\n') }

func (w *refWriter) indent() {
	for i := 0; i < w.ind; i++ {
		w.b.WriteString("  ")
	}
}

func (w *refWriter) comments(cs []Cm) {
	for _, c := range cs {
		if c.Before {
			w.nl()
		}
		w.indent()
		w.b.WriteString("# " + c.Text + "\n")
		if c.After {
			w.nl()
		}
	}
}

func refFormat(n *N) string {
	w := &refWriter{}
	for i, s := range n.Ch {
		w.comments(s.Cs)
		w.b.WriteString(s.T + " {")
		if len(s.Ch)+len(s.Fs) > 0 {
			w.nl()
		}
		w.ind++
		w.bops(s.Ch)
		if len(s.Ch) > 0 && len(s.Fs) > 0 {
			w.nl()
		}
		w.comments(s.Fs)
		w.ind--
		w.b.WriteString("}\n")
		if i+1 < len(n.Ch) && n.Ch[i+1].T == s.T {
			w.nl()
		}
	}
	w.comments(n.Fs)
	return w.b.String()
}

func (w *refWriter) bops(bs []*N) {
	for i, b := range bs {
		if i > 0 {
			w.nl()
		}
		if b.K == "plugin" {
			w.comments(b.Cs)
			w.indent()
			w.plugin(b)
			w.nl()
			continue
		}
		for k, e := range b.Ch {
			if k > 0 {
				if len(e.Cs) > 0 {
					w.nl()
				} else {
					w.b.WriteByte(' ')
				}
			}
			w.comments(e.Cs)
			if k == 0 || len(e.Cs) > 0 {
				w.indent()
			}
			body := e.Ch
			switch e.K {
			case "if":
				w.b.WriteString("if ")
				w.condition(e.Ch[0])
				body = body[1:]
			case "elseif":
				w.b.WriteString("else if ")
				w.condition(e.Ch[0])
				body = body[1:]
			case "else":
				w.b.WriteString("else")
			}
			w.b.WriteString(" {\n")
			w.ind++
			w.bops(body)
			if len(body) > 0 && len(e.Fs) > 0 {
				w.nl()
			}
			w.comments(e.Fs)
			w.ind--
			w.indent()
			w.b.WriteByte('}')
		}
		w.nl()
	}
}

func (w *refWriter) plugin(p *N) {
	w.b.WriteString(p.T + " {")
	if len(p.Ch)+len(p.Fs) > 0 {
		w.nl()
		w.ind++
		for _, a := range p.Ch {
			w.comments(a.Cs)
			w.indent()
			w.b.WriteString(a.Name + " => ")
			w.value(a)
			w.nl()
		}
		w.footer(p)
		w.ind--
		w.indent()
	}
	w.b.WriteByte('}')
}

func (w *refWriter) footer(n *N) {
	if len(n.Ch) > 0 && len(n.Fs) > 0 {
		w.nl()
	}
	w.comments(n.Fs)
}

func (w *refWriter) value(v *N) {
	switch v.K {
	case "string":
		w.b.WriteString(literal(v.T))
	case "number":
		w.b.WriteString(refNumberText(v.Num))
	case "pluginattr":
		w.plugin(v.Ch[0])
	case "array", "hash":
		o, c := "[", "]"
		if v.K == "hash" {
			o, c = "{", "}"
		}
		w.b.WriteString(o)
		if len(v.Ch)+len(v.Fs) > 0 {
			w.nl()
			w.ind++
			for i, e := range v.Ch {
				w.comments(e.Cs)
				w.indent()
				if v.K == "hash" {
					w.value(e.Ch[0])
					w.b.WriteString(" => ")
					w.value(e.Ch[1])
				} else {
					w.value(e)
					if i+1 < len(v.Ch) {
						w.b.WriteByte(',')
					}
				}
				w.nl()
			}
			w.footer(v)
			w.ind--
			w.indent()
		}
		w.b.WriteString(c)
	case "selector":
		for _, e := range v.Ch {
			w.b.WriteString("[" + e.T + "]")
		}
	case "regexp":
		w.b.WriteString("/" + v.T + "/")
	default:
		panic("refFormat: value " + v.K)
	}
}

func literal(t string) string {
	switch {
	case strings.HasPrefix(t, "double:"):
		return `"` + t[7:] + `"`
	case strings.HasPrefix(t, "single:"):
		return `'` + t[7:] + `'`
	default:
		return strings.TrimPrefix(t, "bare:")
	}
}

func (w *refWriter) condition(c *N) {
	for _, e := range c.Ch {
		switch e.K {
		case "boolop":
			w.b.WriteString(" " + e.T + " ")
		case "paren", "negparen":
			if e.K == "negparen" {
				w.b.WriteByte('!')
			}
			w.b.WriteByte('(')
			w.condition(e.Ch[0])
			w.b.WriteByte(')')
		case "negselector":
			w.b.WriteByte('!')
			w.value(e.Ch[0])
		case "in", "notin":
			w.value(e.Ch[0])
			if e.K == "in" {
				w.b.WriteString(" in ")
			} else {
				w.b.WriteString(" not in ")
			}
			w.value(e.Ch[1])
		case "compare", "match":
			w.value(e.Ch[0])
			w.b.WriteString(" " + e.Ch[1].T + " ")
			w.value(e.Ch[2])
		case "rvalue":
			w.value(e.Ch[0])
		default:
			panic("refFormat: expression " + e.K)
		}
	}
}

// refNumberText is the canonical text of a number: integers without fraction, otherwise the shortest
// decimal fraction that denotes the double.
func refNumberText(f float64) string {
	if f == 0 {
		// the sign of zero is kept for the shortest form
		return strconv.FormatFloat(f, 'f', -1, 64)
	}
	if f == float64(int64(f)) && f > -9.2e18 && f < 9.2e18 {
		return new(big.Int).SetInt64(int64(f)).String()
	}
	return strconv.FormatFloat(f, 'f', -1, 64)
}
