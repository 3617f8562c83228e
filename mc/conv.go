package main

import (
	"fmt"
	"reflect"
	"strings"
	"sync"

	"github.com/breml/logstash-config/ast"
)

// Mapping of the implementation's AST to the neutral tree, through the exported API only.

func at(n *N, x interface{ Pos() ast.Pos }) *N {
	p := x.Pos()
	n.Off, n.Line, n.Col = p.Offset, p.Line, p.Column
	if s, ok := startOf(x); ok && s != p {
		n.Line = -1000 // field and method contradict each other
	}
	return n
}

var startFields sync.Map // type -> index of the field Start, -1

// startOf is the field Start of a node. (That of a hash entry is the position of its comment.)
func startOf(x interface{}) (ast.Pos, bool) {
	t := reflect.TypeOf(x)
	i, ok := startFields.Load(t)
	if !ok {
		i = -1
		if f, ok := t.FieldByName("Start"); ok && len(f.Index) == 1 && t != reflect.TypeOf(ast.HashEntry{}) && f.Type == reflect.TypeOf(ast.Pos{}) {
			i = f.Index[0]
		}
		startFields.Store(t, i)
	}
	if i.(int) < 0 {
		return ast.Pos{}, false
	}
	return reflect.ValueOf(x).Field(i.(int)).Interface().(ast.Pos), true
}

func cms(cb ast.CommentBlock) []Cm {
	var out []Cm
	for _, c := range cb {
		before, after := c.SpaceBefore, c.SpaceAfter
		c.SpaceBefore, c.SpaceAfter = false, false
		t := c.String()
		t = strings.TrimSuffix(t, "\n")
		t = strings.TrimPrefix(t, "# ")
		out = append(out, Cm{Text: t, Before: before, After: after})
	}
	return out
}

func convConfig(c ast.Config) *N {
	n := at(&N{K: "config"}, c)
	n.Off, n.Line, n.Col = 0, 1, 1
	n.Fs = cms(c.FooterComment)
	for _, l := range []struct {
		t  string
		ss []ast.PluginSection
	}{{"input", c.Input}, {"filter", c.Filter}, {"output", c.Output}} {
		for _, s := range l.ss {
			k := at(&N{K: "section", T: s.PluginType.String()}, s)
			if s.PluginType.String() != l.t {
				k.T += " in list " + l.t
			}
			k.Cs, k.Fs = cms(s.CommentBlock), cms(s.FooterComment)
			k.Ch = convBops(s.BranchOrPlugins)
			n.Ch = append(n.Ch, k)
		}
	}
	return n
}

func convBops(bs []ast.BranchOrPlugin) []*N {
	var out []*N
	for _, b := range bs {
		switch b := b.(type) {
		case nil:
			out = append(out, &N{K: "nil", Off: -1})
		case ast.Plugin:
			out = append(out, convPlugin(b))
		case *ast.Plugin:
			out = append(out, convPlugin(*b))
		case ast.Branch:
			out = append(out, convBranch(b))
		default:
			out = append(out, &N{K: fmt.Sprintf("?%T", b), Off: -1})
		}
	}
	return out
}

func convPlugin(p ast.Plugin) *N {
	n := at(&N{K: "plugin", T: p.Name()}, p)
	n.Cs, n.Fs = cms(p.Comment), cms(p.FooterComment)
	for _, a := range p.Attributes {
		n.Ch = append(n.Ch, convAttr(a))
	}
	return n
}

func convAttr(a ast.Attribute) *N {
	if a == nil {
		return &N{K: "nil", Off: -1}
	}
	var n *N
	switch a := a.(type) {
	case ast.StringAttribute:
		n = convString(a)
		n.Cs = cms(a.Comment)
	case ast.NumberAttribute:
		n = &N{K: "number", Num: a.Value(), HasNum: true}
		n.Cs = cms(a.Comment)
	case ast.ArrayAttribute:
		n = &N{K: "array"}
		n.Cs, n.Fs = cms(a.Comment), cms(a.FooterComment)
		for _, e := range a.Value() {
			n.Ch = append(n.Ch, convAttr(e))
		}
	case ast.HashAttribute:
		n = &N{K: "hash"}
		n.Cs, n.Fs = cms(a.Comment), cms(a.FooterComment)
		for _, e := range a.Value() {
			k := at(&N{K: "entry"}, e)
			k.Cs = cms(e.Comment)
			k.Ch = append(k.Ch, convKey(e.Key), convAttr(e.Value))
			n.Ch = append(n.Ch, k)
		}
	case ast.PluginAttribute:
		n = &N{K: "pluginattr"}
		n.Cs = cms(a.Comment)
		n.Ch = []*N{convPlugin(a.Value())}
	default:
		n = &N{K: fmt.Sprintf("?%T", a)}
	}
	n.Name = a.Name()
	return at(n, a)
}

func convString(a ast.StringAttribute) *N {
	style := "?:"
	switch a.StringAttributeType() {
	case ast.DoubleQuoted:
		style = "double:"
	case ast.SingleQuoted:
		style = "single:"
	case ast.Bareword:
		style = "bare:"
	}
	return &N{K: "string", T: style + a.Value()}
}

func convKey(k ast.HashEntryKey) *N {
	if a, ok := k.(ast.Attribute); ok {
		return convAttr(a)
	}
	return &N{K: fmt.Sprintf("?%T", k), Off: -1}
}

func convBranch(b ast.Branch) *N {
	n := at(&N{K: "branch"}, b)
	ib := at(&N{K: "if"}, b.IfBlock)
	ib.Cs, ib.Fs = cms(b.IfBlock.Comment), cms(b.IfBlock.FooterComment)
	ib.Ch = append([]*N{convCond(b.IfBlock.Condition)}, convBops(b.IfBlock.Block)...)
	n.Ch = append(n.Ch, ib)
	for _, e := range b.ElseIfBlock {
		k := at(&N{K: "elseif"}, e)
		k.Cs, k.Fs = cms(e.Comment), cms(e.FooterComment)
		k.Ch = append([]*N{convCond(e.Condition)}, convBops(e.Block)...)
		n.Ch = append(n.Ch, k)
	}
	e := b.ElseBlock
	k := at(&N{K: "else"}, e)
	k.Cs, k.Fs = cms(e.Comment), cms(e.FooterComment)
	k.Ch = convBops(e.Block)
	if len(k.Ch)+len(k.Cs)+len(k.Fs) > 0 {
		n.Ch = append(n.Ch, k)
	} else {
		n.EmptyEls = e.Start != (ast.Pos{})
	}
	return n
}

func convCond(c ast.Condition) *N {
	n := at(&N{K: "condition"}, c)
	for i, e := range c.Expression {
		if e == nil {
			n.Ch = append(n.Ch, &N{K: "nil", Off: -1})
			continue
		}
		bo := e.BoolOperator()
		if i > 0 || bo.Op != ast.NoOperator {
			n.Ch = append(n.Ch, at(&N{K: "boolop", T: strings.TrimSpace(bo.String())}, bo))
		}
		n.Ch = append(n.Ch, convExpr(e))
	}
	return n
}

func convExpr(e ast.Expression) *N {
	var n *N
	switch e := e.(type) {
	case ast.ConditionExpression:
		n = &N{K: "paren", Ch: []*N{convCond(e.Condition)}}
	case ast.NegativeConditionExpression:
		n = &N{K: "negparen", Ch: []*N{convCond(e.Condition)}}
	case ast.NegativeSelectorExpression:
		n = &N{K: "negselector", Ch: []*N{convSelector(e.Selector)}}
	case ast.InExpression:
		n = &N{K: "in", Ch: []*N{convRvalue(e.LValue), convRvalue(e.RValue)}}
	case ast.NotInExpression:
		n = &N{K: "notin", Ch: []*N{convRvalue(e.LValue), convRvalue(e.RValue)}}
	case ast.CompareExpression:
		op := at(&N{K: "op", T: e.CompareOperator.String()}, e.CompareOperator)
		n = &N{K: "compare", Ch: []*N{convRvalue(e.LValue), op, convRvalue(e.RValue)}}
	case ast.RegexpExpression:
		op := at(&N{K: "op", T: e.RegexpOperator.String()}, e.RegexpOperator)
		var rv *N
		switch r := e.RValue.(type) {
		case ast.StringAttribute:
			rv = convRvalue(r)
		case ast.Regexp:
			rv = convRvalue(r)
		default:
			rv = &N{K: fmt.Sprintf("?%T", r), Off: -1}
		}
		n = &N{K: "match", Ch: []*N{convRvalue(e.LValue), op, rv}}
	case ast.RvalueExpression:
		n = &N{K: "rvalue", Ch: []*N{convRvalue(e.RValue)}}
	default:
		n = &N{K: fmt.Sprintf("?%T", e)}
	}
	return at(n, e)
}

func convRvalue(r ast.Rvalue) *N {
	switch r := r.(type) {
	case nil:
		return &N{K: "nil", Off: -1}
	case ast.StringAttribute:
		return convAttr(r)
	case ast.NumberAttribute:
		return convAttr(r)
	case ast.ArrayAttribute:
		return convAttr(r)
	case ast.Selector:
		return convSelector(r)
	case ast.Regexp:
		return at(&N{K: "regexp", T: r.Regexp}, r)
	}
	return &N{K: fmt.Sprintf("?%T", r), Off: -1}
}

func convSelector(s ast.Selector) *N {
	n := at(&N{K: "selector"}, s)
	for _, e := range s.Elements {
		t := e.String()
		n.Ch = append(n.Ch, at(&N{K: "element", T: t[1 : len(t)-1]}, e))
	}
	return n
}
