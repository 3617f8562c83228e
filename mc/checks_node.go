package main

import (
	"fmt"
	"hash/fnv"

	"github.com/breml/logstash-config/ast"
)

// ---- C29: every node prints on its own as the text that denotes it ----
//
// All nodes of the tree of every accepted document are printed on their own; the text is put into the smallest
// configuration that can hold it and read by the reference parser.

type nodeWalk struct {
	seen map[uint64]struct{}
	msg  string
	n    int64
	// sparse: in texts nested more than 45 levels deep, below the second level only every 41st level is printed.
	sparse bool
	level  int
}

// enter goes one level down and tells whether the nodes of the level are printed.
func (w *nodeWalk) enter() bool {
	w.level++
	return !w.sparse || w.level < 3 || w.level%41 == 0
}

func (w *nodeWalk) leave() { w.level-- }

// depthOf is the number of brackets open at the same time, at most.
func depthOf(doc string) int {
	d, max := 0, 0
	for i := 0; i < len(doc); i++ {
		switch doc[i] {
		case '{', '[', '(':
			d++
		case '}', ']', ')':
			d--
		}
		if d > max {
			max = d
		}
	}
	return max
}

// is compares one printed node: the tree of pre+text+post, followed along path, has to be want.
func (w *nodeWalk) is(what, pre, text, post string, want *N, path ...int) {
	if w.msg != "" {
		return
	}
	w.n++
	dump := dumpTree(want, dComments)
	h := fnv.New64a()
	fmt.Fprint(h, what, "\x00", pre, "\x00", text, "\x00", dump)
	k := h.Sum64()
	if _, ok := w.seen[k]; ok {
		return
	}
	if len(w.seen) < 4000000 {
		w.seen[k] = struct{}{}
	}
	r := refParse(pre + text + post)
	if !r.ok {
		w.msg = fmt.Sprintf("a %s prints as %q, which is none: %q is not accepted", what, text, pre+text+post)
		return
	}
	n := r.tree
	for i, p := range path {
		if p < 0 {
			p += len(n.Ch)
		}
		if p < 0 || p >= len(n.Ch) || i < len(path)-1 && len(n.Ch) != p+1 {
			w.msg = fmt.Sprintf("a %s prints as %q, which is something else: %s", what, text, dumpTree(r.tree, dComments))
			return
		}
		n = n.Ch[p]
	}
	if got := dumpTree(n, dComments); got != dump {
		w.msg = fmt.Sprintf("a %s prints as %q, which denotes another one: %s", what, text, firstDiff(dump, got))
	}
}

func bare(n *N) *N {
	m := *n
	m.Cs = nil
	return &m
}

func named(n *N, name string) *N {
	m := *n
	m.Name = name
	return &m
}

func (w *nodeWalk) config(c ast.Config) {
	for _, ss := range [][]ast.PluginSection{c.Input, c.Filter, c.Output} {
		for _, s := range ss {
			w.comments(s.CommentBlock)
			w.comments(s.FooterComment)
			n := &N{K: "section", T: "filter", Ch: convBops(s.BranchOrPlugins)}
			w.is("section", "filter {\n", s.String(), "}", n, 0)
			w.bops(s.BranchOrPlugins)
		}
	}
	w.comments(c.FooterComment)
}

func (w *nodeWalk) comments(cb ast.CommentBlock) {
	if len(cb) > 0 {
		w.is("comment block", "", cb.String(), "filter{}", &N{K: "section", T: "filter", Cs: cms(cb)}, 0)
		for _, c := range cb {
			w.is("comment", "", c.String(), "filter{}", &N{K: "section", T: "filter", Cs: cms(ast.CommentBlock{c})}, 0)
		}
	}
}

func (w *nodeWalk) bops(l []ast.BranchOrPlugin) {
	for _, b := range l {
		switch b := b.(type) {
		case ast.Plugin:
			w.plugin(b)
		case ast.Branch:
			if !w.enter() {
				w.cond(b.IfBlock.Condition)
				w.bops(b.IfBlock.Block)
				for _, e := range b.ElseIfBlock {
					w.cond(e.Condition)
					w.bops(e.Block)
				}
				w.bops(b.ElseBlock.Block)
				w.leave()
				continue
			}
			n := convBranch(b)
			w.is("branch", "filter {\n", b.String(), "\n}", n, 0, 0)
			i := b.IfBlock
			w.comments(i.Comment)
			w.comments(i.FooterComment)
			w.is("if block", "filter {\n", i.String(), "\n}", n.Ch[0], 0, 0, 0)
			w.cond(i.Condition)
			w.bops(i.Block)
			for k, e := range b.ElseIfBlock {
				w.comments(e.Comment)
				w.comments(e.FooterComment)
				w.is("else if block", "filter {\nif 1 {\n}", e.String(), "\n}", n.Ch[1+k], 0, 0, 1)
				w.cond(e.Condition)
				w.bops(e.Block)
			}
			if e := b.ElseBlock; len(n.Ch) == 2+len(b.ElseIfBlock) {
				w.comments(e.Comment)
				w.comments(e.FooterComment)
				w.is("else block", "filter {\nif 1 {\n}", e.String(), "\n}", n.Ch[1+len(b.ElseIfBlock)], 0, 0, 1)
				w.bops(e.Block)
			}
			w.leave()
		}
	}
}

func (w *nodeWalk) plugin(p ast.Plugin) {
	w.comments(p.Comment)
	w.comments(p.FooterComment)
	w.is("plugin", "filter {\n", p.String(), "\n}", convPlugin(p), 0, 0)
	for _, a := range p.Attributes {
		w.attr(a, true)
	}
}

func (w *nodeWalk) attr(a ast.Attribute, hasName bool) {
	on := w.enter()
	defer w.leave()
	var n *N
	if on {
		n = convAttr(a)
		w.attrText(a, n, hasName)
	}
	switch a := a.(type) {
	case ast.ArrayAttribute:
		for _, e := range a.Value() {
			w.attr(e, false)
		}
	case ast.HashAttribute:
		for i, e := range a.Value() {
			if on {
				w.entry(e, n.Ch[i])
			}
			w.attr(e.Value, false)
		}
	case ast.PluginAttribute:
		p := a.Value()
		if on {
			w.is("codec", "filter {\n", p.String(), "\n}", n.Ch[0], 0, 0)
		}
		for _, x := range p.Attributes {
			w.attr(x, true)
		}
	}
}

func (w *nodeWalk) entry(e ast.HashEntry, n *N) {
	w.is("hash entry", "filter {\np {\na => {\n", e.String(), "\n}}}", n, 0, 0, 0, 0)
	w.is("hash key", "filter {\np {\na => {\n", e.Name(), " => 1}}}", &N{K: "entry", Ch: []*N{n.Ch[0], {K: "number", Num: 1, HasNum: true}}}, 0, 0, 0, 0)
	w.is("hash value", "filter {\np {\na => {\nkk => ", e.ValueString(), "}}}", &N{K: "entry", Ch: []*N{{K: "string", T: "bare:kk"}, bare(n.Ch[1])}}, 0, 0, 0, 0)
}

func (w *nodeWalk) attrText(a ast.Attribute, n *N, hasName bool) {
	w.is("value", "filter {\np {\na => ", a.ValueString(), "\n}}", named(bare(n), "a"), 0, 0, 0)
	if hasName {
		w.is("attribute", "filter {\np {\n", a.String(), "\n}}", bare(n), 0, 0, 0)
		w.is("attribute with comment", "filter {\np {\n", a.CommentBlock()+a.String(), "\n}}", n, 0, 0, 0)
		w.is("attribute name", "filter {\np {\n", a.Name(), " => 1}}", &N{K: "number", Name: n.Name, Num: 1, HasNum: true}, 0, 0, 0)
	} else {
		w.is("element with comment", "filter {\np {\na => [\n", a.CommentBlock()+a.ValueString(), "\n]}}", n, 0, 0, 0, 0)
	}
}

func (w *nodeWalk) cond(c ast.Condition) {
	on := w.enter()
	defer w.leave()
	var n *N
	if on {
		n = convCond(c)
		w.is("condition", "filter {\nif ", c.String(), " {\n}\n}", n, 0, 0, 0, 0)
	}
	for i, e := range c.Expression {
		var x *N
		if on {
			x = convExpr(e)
		}
		if !on {
		} else if i == 0 {
			w.is("expression", "filter {\nif ", fmt.Sprint(e), " {\n}\n}", &N{K: "condition", Ch: []*N{x}}, 0, 0, 0, 0)
		} else {
			op := &N{K: "boolop", T: n.Ch[2*i-1].T}
			one := &N{K: "rvalue", Ch: []*N{{K: "number", Num: 1, HasNum: true}}}
			w.is("expression", "filter {\nif 1", fmt.Sprint(e), " {\n}\n}", &N{K: "condition", Ch: []*N{one, op, x}}, 0, 0, 0, 0)
			w.is("operator", "filter {\nif 1", e.BoolOperator().String(), "1 {\n}\n}", &N{K: "condition", Ch: []*N{one, op, one}}, 0, 0, 0, 0)
		}
		switch e := e.(type) {
		case ast.ConditionExpression:
			w.cond(e.Condition)
		case ast.NegativeConditionExpression:
			w.cond(e.Condition)
		case ast.NegativeSelectorExpression:
			w.rvalue(e.Selector)
		case ast.InExpression:
			w.rvalue(e.LValue)
			w.rvalue(e.RValue)
		case ast.NotInExpression:
			w.rvalue(e.LValue)
			w.rvalue(e.RValue)
		case ast.CompareExpression:
			w.rvalue(e.LValue)
			w.rvalue(e.RValue)
		case ast.RegexpExpression:
			w.rvalue(e.LValue)
			if r, ok := e.RValue.(ast.Rvalue); ok {
				w.rvalue(r)
			}
		case ast.RvalueExpression:
			w.rvalue(e.RValue)
		}
	}
}

func (w *nodeWalk) rvalue(r ast.Rvalue) {
	n := convRvalue(r)
	w.is("operand", "filter {\nif ", r.ValueString(), " {\n}\n}", &N{K: "condition", Ch: []*N{{K: "rvalue", Ch: []*N{n}}}}, 0, 0, 0, 0)
	switch r := r.(type) {
	case ast.Selector:
		w.is("selector", "filter {\nif ", r.String(), " {\n}\n}", &N{K: "condition", Ch: []*N{{K: "rvalue", Ch: []*N{n}}}}, 0, 0, 0, 0)
		for i, e := range r.Elements {
			w.is("selector element", "filter {\nif ", e.String(), " {\n}\n}", &N{K: "condition", Ch: []*N{{K: "rvalue", Ch: []*N{{K: "selector", Ch: n.Ch[i : i+1]}}}}}, 0, 0, 0, 0)
		}
	case ast.Regexp:
		w.is("regular expression", "filter {\nif ", r.String(), " {\n}\n}", &N{K: "condition", Ch: []*N{{K: "rvalue", Ch: []*N{n}}}}, 0, 0, 0, 0)
	case ast.ArrayAttribute:
		for _, e := range r.Value() {
			w.attr(e, false)
		}
	}
}

func checkC29() docCheckFn {
	w := &nodeWalk{seen: map[uint64]struct{}{}}
	return func(doc string, ref refResult) verdict {
		c, ok := accepted(doc, ref)
		if !ok {
			return trivial
		}
		before := dumpTree(convConfig(c), dAll)
		w.msg, w.n, w.level, w.sparse = "", 0, 0, depthOf(doc) > 45
		w.config(c)
		if w.msg != "" {
			m := w.msg
			w.seen = map[uint64]struct{}{} // a repetition has to fail again
			return orKnown(printerFinding(ref.tree), bad("%s", m))
		}
		if now := dumpTree(convConfig(c), dAll); now != before {
			return bad("printing the nodes changes the tree: %s", firstDiff(before, now))
		}
		return verdict{counts: map[string]int64{"nodes printed": w.n}}
	}
}

func init() {
	checks["C29"] = &propCheck{
		main:   docMain("every node of the tree of every accepted text of every listed space is printed on its own and read back in the smallest configuration that can hold it; non-trivial: accepted; equal (node, text) pairs are read once per process"),
		spaces: func(r *run) []class { return allClasses(r.tier) },
		check: func(r *run) caseCheck {
			f := docCase(checkC29())(r)
			return f
		},
	}
}
