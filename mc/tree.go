package main

import (
	"bytes"
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Cm is one comment line.
type Cm struct {
	Text          string
	Before, After bool
}

// N is the neutral tree both the reference parser and the implementation's AST are mapped to.
type N struct {
	K        string // kind
	T        string // text: name, literal, operator, quoting style
	Name     string // attribute name, if any
	Num      float64
	HasNum   bool
	Off      int // byte offset, -1: not compared
	Line     int
	Col      int
	Cs, Fs   []Cm
	Ch       []*N
	EmptyEls bool // branch: source has an else block that has neither content nor comments
}

type dumpOpt struct {
	comments bool // texts of comments
	space    bool // blank line flags of comments
	pos      bool
	els      bool // presence of empty else blocks
}

var (
	dStruct   = dumpOpt{}
	dComments = dumpOpt{comments: true}
	dFull     = dumpOpt{comments: true, space: true}
	dPos      = dumpOpt{pos: true, els: true}
	dAll      = dumpOpt{comments: true, space: true, pos: true, els: true}
	dTree     = dumpOpt{els: true}
)

func dumpTree(n *N, o dumpOpt) string {
	var b bytes.Buffer
	dump(&b, n, o, 0)
	return b.String()
}

func dumpComments(b *bytes.Buffer, label string, cs []Cm, o dumpOpt, ind int) {
	if !o.comments {
		return
	}
	for _, c := range cs {
		for i := 0; i < ind; i++ {
			b.WriteByte(' ')
		}
		b.WriteString(label)
		b.WriteString(strconv.Quote(c.Text))
		if o.space {
			if c.Before {
				b.WriteString(" before")
			}
			if c.After {
				b.WriteString(" after")
			}
		}
		b.WriteByte('\n')
	}
}

func dump(b *bytes.Buffer, n *N, o dumpOpt, ind int) {
	dumpComments(b, "c:", n.Cs, o, ind)
	for i := 0; i < ind; i++ {
		b.WriteByte(' ')
	}
	b.WriteString(n.K)
	if n.Name != "" {
		b.WriteString(" name=")
		b.WriteString(strconv.Quote(n.Name))
	}
	if n.T != "" {
		b.WriteByte(' ')
		b.WriteString(strconv.Quote(n.T))
	}
	if n.HasNum {
		b.WriteString(" num=")
		b.WriteString(strconv.FormatUint(math.Float64bits(n.Num), 16))
	}
	if o.pos && n.Off >= 0 {
		fmt.Fprintf(b, " @%d:%d[%d]", n.Line, n.Col, n.Off)
	}
	if o.els && n.EmptyEls {
		b.WriteString(" +emptyelse")
	}
	b.WriteByte('\n')
	for _, c := range n.Ch {
		dump(b, c, o, ind+1)
	}
	dumpComments(b, "f:", n.Fs, o, ind)
}

// fillPos computes line and column of all nodes of a reference tree.
func fillPos(src string, n *N) {
	p := newPosIndex(src)
	var walk func(n *N)
	walk = func(n *N) {
		if n.Off >= 0 {
			n.Line, n.Col = p.at(n.Off)
		}
		for _, c := range n.Ch {
			walk(c)
		}
	}
	walk(n)
}

type posIndex struct {
	src   string
	lines []int
}

func newPosIndex(src string) *posIndex {
	p := &posIndex{src: src, lines: []int{0}}
	for i := 0; i < len(src); i++ {
		if src[i] == '\n' {
			p.lines = append(p.lines, i+1)
		}
	}
	return p
}

func (p *posIndex) at(off int) (line, col int) {
	lo, hi := 0, len(p.lines)
	for hi-lo > 1 {
		m := (lo + hi) / 2
		if p.lines[m] <= off {
			lo = m
		} else {
			hi = m
		}
	}
	return lo + 1, utf8.RuneCountInString(p.src[p.lines[lo]:off]) + 1
}

// ok reports whether line:col is a name of offset off. The newline character itself may be named as
// column 0 of the line it starts, and the end of the text like a character.
func (p *posIndex) ok(off, line, col int) bool {
	if off < 0 || off > len(p.src) {
		return false
	}
	l, c := p.at(off)
	if line == l && col == c {
		return true
	}
	if off < len(p.src) && p.src[off] == '\n' && line == l+1 && col == 0 {
		return true
	}
	// before the first character is read
	return off == 0 && col == 0 && line <= 1
}

func firstDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) || i < len(lb); i++ {
		var x, y string
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y || i >= len(la) || i >= len(lb) {
			return fmt.Sprintf("line %d: expected %q, got %q", i+1, x, y)
		}
	}
	return "equal"
}

// dropEmptyElse is a no-op on trees (an empty else block is represented by EmptyEls only) and
// dropComments removes all comments.
func dropComments(n *N) *N {
	c := *n
	c.Cs, c.Fs = nil, nil
	c.Ch = nil
	for _, k := range n.Ch {
		d := dropComments(k)
		if d.K == "else" && len(d.Ch) == 0 {
			continue // an else block that only held comments
		}
		c.Ch = append(c.Ch, d)
	}
	return &c
}
