package main

import (
	"fmt"
	"hash/fnv"
	"strconv"
	"strings"

	config "github.com/breml/logstash-config"
	"github.com/breml/logstash-config/ast"
	"github.com/breml/logstash-config/ast/astutil"
)

// ---- C30: trees are plain values ----
//
// A case is "source;edit,edit,...". The source gives two trees (two parses of a text, or two runs of the same
// constructor calls); an edit "t.s.o" performs operation o at site s of tree t. Sites are the lists, comment blocks
// and fields of the nodes in preorder. The model is the pair of neutral trees with the same edits; after each edit
// both trees are converted and printed and compared with their models.

// edit is what an operation does to a list, for the lists of the tree as for those of the model.
func edit[T any](l []T, op int, mk func(i int) T) []T {
	switch op {
	case 0:
		return append(l, mk(0))
	case 1:
		l[len(l)-1] = mk(1)
	case 2:
		return l[:len(l)-1]
	case 3:
		return append(l[:0], l[1:]...)
	case 4:
		return append([]T{mk(0)}, l...)
	case 5:
		return append(l, mk(1), mk(0), mk(1))
	case 6:
		l[0] = mk(0)
	}
	return l
}

const listOps = 7

func needs(op int) int { return []int{0, 1, 1, 1, 0, 0, 1}[op] }

type editSite struct {
	what  string
	ops   int
	ok    func(op int) bool
	apply func(op int)              // to the tree
	path  []int                     // node of the model
	model func(n *N, op int) func() // to the node of the model; the result, if any, runs on the root
}

type siteWalk struct{ l []editSite }

func sub(p []int, i int) []int { return append(append([]int{}, p...), i) }

func nRegion(n *N, from, to int, op int, mk func(i int) *N) {
	r := edit(append([]*N{}, n.Ch[from:to]...), op, mk)
	n.Ch = append(append(append([]*N{}, n.Ch[:from]...), r...), n.Ch[to:]...)
}

func newComment(i int) ast.Comment { return ast.NewComment([]string{"new", "another new"}[i], i == 1) }

func (w *siteWalk) comments(what string, cb *ast.CommentBlock, commit func(), path []int, footer bool) {
	f := func(n *N) *[]Cm {
		if footer {
			return &n.Fs
		}
		return &n.Cs
	}
	w.l = append(w.l, editSite{
		what: what, ops: listOps + 1, path: path,
		ok: func(op int) bool { return op == listOps && len(*cb) > 0 || op < listOps && len(*cb) >= needs(op) },
		apply: func(op int) {
			if op == listOps {
				(*cb)[0].SpaceBefore = !(*cb)[0].SpaceBefore
				return
			}
			*cb = edit(*cb, op, newComment)
			commit()
		},
		model: func(n *N, op int) func() {
			l := append([]Cm{}, *f(n)...)
			if op == listOps {
				l[0].Before = !l[0].Before
			} else {
				l = edit(l, op, func(i int) Cm { return cms(ast.CommentBlock{newComment(i)})[0] })
			}
			*f(n) = l
			return nil
		},
	})
}

func newBop(i int) ast.BranchOrPlugin {
	if i == 0 {
		return ast.NewPlugin("added", ast.NewStringAttribute("x", "y", ast.DoubleQuoted))
	}
	return ast.NewBranch(ast.NewIfBlock(newCond(), ast.NewPlugin("inner")), ast.NewElseBlock())
}

func newExpr(op int) ast.Expression {
	return ast.NewRvalueExpression(ast.BooleanOperator{Op: op}, ast.NewSelectorFromNames("new"))
}

func newCond() ast.Condition { return ast.NewCondition(newExpr(ast.NoOperator)) }

func (w *siteWalk) bops(what string, list *[]ast.BranchOrPlugin, commit func(), path []int, base int, isElse bool, start ast.Pos) {
	length := len(*list)
	w.l = append(w.l, editSite{
		what: what, ops: listOps, path: path,
		ok:    func(op int) bool { return len(*list) >= needs(op) },
		apply: func(op int) { *list = edit(*list, op, newBop); commit() },
		model: func(n *N, op int) func() {
			if isElse { // n is the branch
				i := len(n.Ch) - 1
				if n.Ch[i].K != "else" {
					n.Ch = append(append([]*N{}, n.Ch...), at(&N{K: "else"}, ast.ElseBlock{Start: start}))
					i++
				}
				e := n.Ch[i]
				nRegion(e, 0, length, op, func(i int) *N { return convBops([]ast.BranchOrPlugin{newBop(i)})[0] })
				if len(e.Ch)+len(e.Cs)+len(e.Fs) == 0 {
					n.Ch = n.Ch[:i]
				}
				return nil
			}
			nRegion(n, base, base+length, op, func(i int) *N { return convBops([]ast.BranchOrPlugin{newBop(i)})[0] })
			return nil
		},
	})
	if isElse {
		return
	}
	for i := range *list {
		set := func(b ast.BranchOrPlugin) { (*list)[i] = b }
		w.bop((*list)[i], set, path, base+i)
	}
}

func (w *siteWalk) bop(b ast.BranchOrPlugin, set func(ast.BranchOrPlugin), path []int, i int) {
	p := sub(path, i)
	switch b := b.(type) {
	case ast.Plugin:
		w.plugin(&b, func() { set(b) }, p, true)
	case ast.Branch:
		commit := func() { set(b) }
		q := sub(p, 0)
		w.comments("if comment", &b.IfBlock.Comment, commit, q, false)
		w.cond(&b.IfBlock.Condition, commit, sub(q, 0))
		w.bops("if block", &b.IfBlock.Block, commit, q, 1, false, ast.Pos{})
		w.comments("if footer", &b.IfBlock.FooterComment, commit, q, true)
		count := len(b.ElseIfBlock)
		mk := func(i int) ast.ElseIfBlock {
			e := ast.NewElseIfBlock(newCond(), newBop(i))
			if i == 1 {
				e.Comment = ast.NewCommentBlock(newComment(0))
			}
			return e
		}
		w.l = append(w.l, editSite{
			what: "else-if blocks", ops: listOps, path: p,
			ok:    func(op int) bool { return count >= needs(op) },
			apply: func(op int) { b.ElseIfBlock = edit(b.ElseIfBlock, op, mk); commit() },
			model: func(n *N, op int) func() {
				nRegion(n, 1, 1+count, op, func(i int) *N {
					return convBranch(ast.NewBranch(ast.NewIfBlock(newCond()), ast.ElseBlock{}, mk(i))).Ch[1]
				})
				return nil
			},
		})
		for k := range b.ElseIfBlock {
			e := &b.ElseIfBlock[k] // shared with the tree
			q := sub(p, 1+k)
			w.comments("else-if comment", &e.Comment, func() {}, q, false)
			w.cond(&e.Condition, func() {}, sub(q, 0))
			w.bops("else-if block", &e.Block, func() {}, q, 1, false, ast.Pos{})
			w.comments("else-if footer", &e.FooterComment, func() {}, q, true)
		}
		w.bops("else block", &b.ElseBlock.Block, commit, p, 0, true, b.ElseBlock.Start)
		if len(b.ElseBlock.Block) > 0 {
			q := sub(p, 1+count)
			// the nodes in the else block, whose list is handled above
			w.comments("else comment", &b.ElseBlock.Comment, commit, q, false)
			for k := range b.ElseBlock.Block {
				w.bop(b.ElseBlock.Block[k], func(x ast.BranchOrPlugin) { b.ElseBlock.Block[k] = x }, q, k)
			}
			w.comments("else footer", &b.ElseBlock.FooterComment, commit, q, true)
		}
	}
}

func newAttr(i int) ast.Attribute {
	if i == 0 {
		return ast.NewStringAttribute("new", "value", ast.SingleQuoted)
	}
	return ast.NewArrayAttribute("newer", ast.NewNumberAttribute("", 7))
}

func (w *siteWalk) attrs(what string, l *[]ast.Attribute, commit func(), path []int, headers bool) {
	length := len(*l)
	w.l = append(w.l, editSite{
		what: what, ops: listOps, path: path,
		ok:    func(op int) bool { return length >= needs(op) && (headers || op == 1 || op == 6) },
		apply: func(op int) { *l = edit(*l, op, newAttr); commit() },
		model: func(n *N, op int) func() {
			nRegion(n, 0, length, op, func(i int) *N { return convAttr(newAttr(i)) })
			return nil
		},
	})
	for i := range *l {
		set := func(a ast.Attribute) { (*l)[i] = a }
		w.attr((*l)[i], set, sub(path, i))
	}
}

func (w *siteWalk) attr(a ast.Attribute, set func(ast.Attribute), p []int) {
	switch a := a.(type) {
	case ast.StringAttribute:
		w.comments("string comment", &a.Comment, func() { set(a) }, p, false)
	case ast.NumberAttribute:
		w.comments("number comment", &a.Comment, func() { set(a) }, p, false)
	case ast.PluginAttribute:
		w.comments("plugin attribute comment", &a.Comment, func() { set(a) }, p, false)
		v := a.Value()
		w.plugin(&v, func() {}, sub(p, 0), false)
	case ast.ArrayAttribute:
		w.comments("array comment", &a.Comment, func() { set(a) }, p, false)
		w.attrs("array", &a.Attributes, func() { set(a) }, p, true)
		w.comments("array footer", &a.FooterComment, func() { set(a) }, p, true)
	case ast.HashAttribute:
		w.comments("hash comment", &a.Comment, func() { set(a) }, p, false)
		mk := func(i int) ast.HashEntry {
			return ast.NewHashEntry(ast.NewStringAttribute("", "key", ast.SingleQuoted), newAttr(i))
		}
		length := len(a.Entries)
		w.l = append(w.l, editSite{
			what: "hash", ops: listOps, path: p,
			ok:    func(op int) bool { return length >= needs(op) },
			apply: func(op int) { a.Entries = edit(a.Entries, op, mk); set(a) },
			model: func(n *N, op int) func() {
				nRegion(n, 0, length, op, func(i int) *N { return convAttr(ast.NewHashAttribute("", mk(i))).Ch[0] })
				return nil
			},
		})
		for k := range a.Entries {
			e := &a.Entries[k] // shared with the tree
			q := sub(p, k)
			w.comments("entry comment", &e.Comment, func() {}, q, false)
			w.l = append(w.l, editSite{
				what: "entry value", ops: 2, path: q,
				ok:    func(op int) bool { return true },
				apply: func(op int) { e.Value = newAttr(op) },
				model: func(n *N, op int) func() {
					n.Ch = []*N{n.Ch[0], convAttr(newAttr(op))}
					return nil
				},
			})
			w.attr(e.Value, func(x ast.Attribute) { e.Value = x }, sub(q, 1))
		}
		w.comments("hash footer", &a.FooterComment, func() { set(a) }, p, true)
	}
}

func (w *siteWalk) plugin(b *ast.Plugin, commit func(), p []int, headers bool) {
	if headers {
		w.comments("plugin comment", &b.Comment, commit, p, false)
	}
	w.attrs("attributes", &b.Attributes, commit, p, headers)
	if headers {
		w.comments("plugin footer", &b.FooterComment, commit, p, true)
	}
}

var setOps = []int{ast.And, ast.Or, ast.Xor, ast.Nand}

func (w *siteWalk) cond(c *ast.Condition, commit func(), p []int) {
	w.l = append(w.l, editSite{
		what: "condition", ops: 4, path: p,
		ok: func(op int) bool { return op != 3 || len(c.Expression) > 1 },
		apply: func(op int) {
			switch op {
			case 0:
				*c = newCond()
				commit()
			case 1:
				c.Expression = append(c.Expression, newExpr(ast.Or))
				commit()
			case 2:
				c.Expression[0] = newExpr(ast.NoOperator)
			case 3:
				c.Expression = c.Expression[:len(c.Expression)-1]
				commit()
			}
		},
		model: func(n *N, op int) func() {
			switch op {
			case 0:
				*n = *convCond(newCond())
			case 1:
				both := convCond(ast.NewCondition(newExpr(ast.NoOperator), newExpr(ast.Or)))
				n.Ch = append(append([]*N{}, n.Ch...), both.Ch[1:]...)
			case 2:
				n.Ch = append([]*N{}, n.Ch...)
				first := convCond(newCond())
				n.Ch[0] = first.Ch[0]
				n.Off, n.Line, n.Col = first.Off, first.Line, first.Col
			case 3:
				n.Ch = n.Ch[:len(n.Ch)-2]
			}
			return nil
		},
	})
	j := 0
	for i := range c.Expression {
		e := c.Expression[i]
		if i > 0 {
			w.l = append(w.l, editSite{
				what: "boolean operator", ops: len(setOps), path: sub(p, j),
				ok:    func(op int) bool { return true },
				apply: func(op int) { e.SetBoolOperator(ast.BooleanOperator{Op: setOps[op]}) },
				model: func(n *N, op int) func() {
					*n = *convCond(ast.NewCondition(newExpr(ast.NoOperator), newExpr(setOps[op]))).Ch[1]
					return nil
				},
			})
			j++
		}
		w.expr(e, func(x ast.Expression) { c.Expression[i] = x }, sub(p, j))
		j++
	}
}

func (w *siteWalk) expr(e ast.Expression, set func(ast.Expression), p []int) {
	op := func(ops int, apply func(op int), model func(n *N, op int)) {
		w.l = append(w.l, editSite{
			what: fmt.Sprintf("%T", e), ops: ops, path: p,
			ok:    func(op int) bool { return true },
			apply: apply,
			model: func(n *N, op int) func() { model(n, op); return nil },
		})
	}
	str := ast.NewStringAttribute("", "operand", ast.DoubleQuoted)
	kid := func(n *N, i int, k *N) {
		n.Ch = append([]*N{}, n.Ch...)
		n.Ch[i] = k
	}
	switch e := e.(type) {
	case ast.ConditionExpression:
		w.cond(&e.Condition, func() { set(e) }, sub(p, 0))
	case ast.NegativeConditionExpression:
		w.cond(&e.Condition, func() { set(e) }, sub(p, 0))
	case ast.NegativeSelectorExpression:
		w.selector(&e.Selector, func() { set(e) }, sub(p, 0))
	case ast.InExpression:
		op(1, func(int) { e.LValue = str; set(e) }, func(n *N, _ int) { kid(n, 0, convRvalue(str)) })
		w.rvalue(e.LValue, func(r ast.Rvalue) { e.LValue = r; set(e) }, sub(p, 0))
		w.rvalue(e.RValue, func(r ast.Rvalue) { e.RValue = r; set(e) }, sub(p, 1))
	case ast.NotInExpression:
		op(1, func(int) { e.LValue = str; set(e) }, func(n *N, _ int) { kid(n, 0, convRvalue(str)) })
		w.rvalue(e.LValue, func(r ast.Rvalue) { e.LValue = r; set(e) }, sub(p, 0))
		w.rvalue(e.RValue, func(r ast.Rvalue) { e.RValue = r; set(e) }, sub(p, 1))
	case ast.CompareExpression:
		op(3, func(o int) {
			switch o {
			case 0:
				e.RValue = str
			case 1:
				e.CompareOperator.Op = ast.LessThan
			case 2:
				e.CompareOperator.Op = ast.NotEqual
			}
			set(e)
		}, func(n *N, o int) {
			if o == 0 {
				kid(n, 2, convRvalue(str))
				return
			}
			k := *n.Ch[1]
			k.T = []string{"", "<", "!="}[o]
			kid(n, 1, &k)
		})
		w.rvalue(e.LValue, func(r ast.Rvalue) { e.LValue = r; set(e) }, sub(p, 0))
		w.rvalue(e.RValue, func(r ast.Rvalue) { e.RValue = r; set(e) }, sub(p, 2))
	case ast.RegexpExpression:
		op(2, func(o int) {
			switch o {
			case 0:
				e.RValue = ast.NewRegexp("new")
			case 1:
				if e.RegexpOperator.Op == ast.RegexpMatch {
					e.RegexpOperator.Op = ast.RegexpNotMatch
				} else {
					e.RegexpOperator.Op = ast.RegexpMatch
				}
			}
			set(e)
		}, func(n *N, o int) {
			if o == 0 {
				kid(n, 2, convRvalue(ast.NewRegexp("new")))
				return
			}
			k := *n.Ch[1]
			k.T = map[string]string{"=~": "!~", "!~": "=~"}[k.T]
			kid(n, 1, &k)
		})
		w.rvalue(e.LValue, func(r ast.Rvalue) { e.LValue = r; set(e) }, sub(p, 0))
	case ast.RvalueExpression:
		op(1, func(int) { e.RValue = str; set(e) }, func(n *N, _ int) { kid(n, 0, convRvalue(str)) })
		w.rvalue(e.RValue, func(r ast.Rvalue) { e.RValue = r; set(e) }, sub(p, 0))
	}
}

func (w *siteWalk) rvalue(r ast.Rvalue, set func(ast.Rvalue), p []int) {
	switch r := r.(type) {
	case ast.Selector:
		w.selector(&r, func() { set(r) }, p)
	case ast.ArrayAttribute:
		w.attrs("array operand", &r.Attributes, func() { set(r) }, p, true)
	}
}

func (w *siteWalk) selector(s *ast.Selector, commit func(), p []int) {
	length := len(s.Elements)
	mk := func(i int) ast.SelectorElement { return ast.NewSelectorElement([]string{"new", "@n"}[i]) }
	w.l = append(w.l, editSite{
		what: "selector", ops: listOps, path: p,
		ok:    func(op int) bool { return length > needs(op) || needs(op) == 0 || op == 1 || op == 6 },
		apply: func(op int) { s.Elements = edit(s.Elements, op, mk); commit() },
		model: func(n *N, op int) func() {
			nRegion(n, 0, length, op, func(i int) *N { return convSelector(ast.NewSelector([]ast.SelectorElement{mk(i)})).Ch[0] })
			return nil
		},
	})
}

func sitesOf(c *ast.Config) []editSite {
	w := &siteWalk{}
	from := 0
	for _, l := range []struct {
		pt ast.PluginType
		ss *[]ast.PluginSection
	}{{ast.Input, &c.Input}, {ast.Filter, &c.Filter}, {ast.Output, &c.Output}} {
		length, base := len(*l.ss), from
		mk := func(i int) ast.PluginSection {
			s := ast.NewPluginSection(l.pt, newBop(i))
			if i == 1 {
				s.CommentBlock = ast.NewCommentBlock(newComment(0))
			}
			return s
		}
		w.l = append(w.l, editSite{
			what: "sections", ops: listOps, path: nil,
			ok:    func(op int) bool { return length >= needs(op) },
			apply: func(op int) { *l.ss = edit(*l.ss, op, mk) },
			model: func(n *N, op int) func() {
				nRegion(n, base, base+length, op, func(i int) *N {
					return convConfig(ast.Config{Input: []ast.PluginSection{mk(i)}}).Ch[0]
				})
				// made as an input section
				for _, k := range n.Ch {
					k.T = strings.TrimSuffix(k.T, " in list input")
				}
				return nil
			},
		})
		for i := range *l.ss {
			s := &(*l.ss)[i]
			p := []int{base + i}
			w.comments("section comment", &s.CommentBlock, func() {}, p, false)
			w.bops("section", &s.BranchOrPlugins, func() {}, p, 0, false, ast.Pos{})
			w.comments("section footer", &s.FooterComment, func() {}, p, true)
		}
		from += length
	}
	w.comments("file footer", &c.FooterComment, func() {}, nil, true)
	return w.l
}

// copyN makes the model of its own.
func copyN(n *N) *N {
	m := *n
	m.Cs, m.Fs, m.Ch = append([]Cm(nil), n.Cs...), append([]Cm(nil), n.Fs...), nil
	for _, k := range n.Ch {
		m.Ch = append(m.Ch, copyN(k))
	}
	return &m
}

// editSource makes a tree: "p" text, "m" text with memoization, "a" text and a traversal that inserts and replaces plugins, "b" number of the default tree of the C17 builder, "k" a tree of equal parts that are built one by one.
func editSource(s string) (ast.Config, error) {
	if s[0] == 'k' {
		k, _ := strconv.Atoi(s[1:])
		return equalParts(k), nil
	}
	if s[0] == 'b' {
		k, _ := strconv.Atoi(s[1:])
		b := &builder{c: &chooser{dev: map[int]int{}}, rich: k}
		return b.config(), nil
	}
	var opts []config.Option
	if s[0] == 'm' {
		opts = append(opts, config.Memoize(true))
	}
	p := parseDoc(s[1:], opts...)
	if !p.ok {
		return ast.Config{}, fmt.Errorf("%s", p.verdict())
	}
	if s[0] == 'a' {
		n := 0
		for _, l := range [][]ast.PluginSection{p.conf.Input, p.conf.Filter, p.conf.Output} {
			for i := range l {
				l[i].BranchOrPlugins = astutil.ApplyPlugins(l[i].BranchOrPlugins, func(c *astutil.Cursor) {
					n++
					switch n % 4 {
					case 0:
						c.InsertAfter(ast.NewPlugin("after"))
					case 1:
						q := *c.Plugin()
						q.Attributes = append(q.Attributes, newAttr(0))
						c.Replace(q)
					case 2:
						c.InsertBefore(ast.NewPlugin("before"))
					}
				})
			}
		}
	}
	return p.conf, nil
}

// equalParts: every kind of expression twice with every boolean operator (with k > 0: the k-th kind only, which is
// less), and every kind of attribute and plugin twice. No two parts share anything that the caller passes in.
func equalParts(k int) ast.Config {
	str := func() ast.Rvalue { return ast.NewStringAttribute("", "s", ast.SingleQuoted) }
	sel := func() ast.Rvalue { return ast.NewSelectorFromNames("a", "b") }
	arr := func() ast.Rvalue { return ast.NewArrayAttribute("", newAttr(0), newAttr(0)) }
	kinds := []func(o ast.BooleanOperator) ast.Expression{
		func(o ast.BooleanOperator) ast.Expression {
			return ast.NewConditionExpression(o, ast.NewCondition(ast.NewRvalueExpression(ast.BooleanOperator{Op: ast.NoOperator}, str())))
		},
		func(o ast.BooleanOperator) ast.Expression {
			return ast.NewNegativeConditionExpression(o, ast.NewCondition(ast.NewRvalueExpression(ast.BooleanOperator{Op: ast.NoOperator}, sel())))
		},
		func(o ast.BooleanOperator) ast.Expression {
			return ast.NewNegativeSelectorExpression(o, ast.NewSelectorFromNames("a", "b"))
		},
		func(o ast.BooleanOperator) ast.Expression { return ast.NewInExpression(o, str(), arr()) },
		func(o ast.BooleanOperator) ast.Expression { return ast.NewNotInExpression(o, sel(), arr()) },
		func(o ast.BooleanOperator) ast.Expression {
			return ast.NewCompareExpression(o, sel(), ast.CompareOperator{Op: ast.Equal}, str())
		},
		func(o ast.BooleanOperator) ast.Expression {
			return ast.NewRegexpExpression(o, sel(), ast.RegexpOperator{Op: ast.RegexpMatch}, ast.NewRegexp("r"))
		},
		func(o ast.BooleanOperator) ast.Expression { return ast.NewRvalueExpression(o, sel()) },
	}
	ops := []int{ast.And, ast.Or, ast.Xor, ast.Nand}
	if k > 0 {
		kinds, ops = kinds[k-1:k], ops[:2]
	}
	cond := func() ast.Condition {
		x := []ast.Expression{kinds[0](ast.BooleanOperator{Op: ast.NoOperator})}
		for i := 0; i < 2; i++ {
			for _, kind := range kinds {
				for _, o := range ops {
					x = append(x, kind(ast.BooleanOperator{Op: o}))
				}
			}
		}
		return ast.NewCondition(x...)
	}
	attrs := func() []ast.Attribute {
		e := func() ast.HashEntry {
			return ast.NewHashEntry(ast.NewStringAttribute("", "e", ast.DoubleQuoted), ast.NewNumberAttribute("", 1))
		}
		return []ast.Attribute{
			ast.NewStringAttribute("x", "v", ast.DoubleQuoted), ast.NewNumberAttribute("x", 1), ast.NewArrayAttribute("x"), ast.NewArrayAttribute("x", newAttr(0), newAttr(0)),
			ast.NewHashAttribute("x"), ast.NewHashAttribute("x", e(), e()), ast.NewPluginAttribute("x", ast.NewPlugin("c")), ast.NewPluginAttribute("x", ast.NewPlugin("c", newAttr(0))),
		}
	}
	plugin := func() ast.BranchOrPlugin {
		if k > 0 {
			return ast.NewPlugin("p")
		}
		return ast.NewPlugin("p", append(attrs(), attrs()...)...)
	}
	branch := func() ast.BranchOrPlugin {
		return ast.NewBranch(ast.NewIfBlock(cond()), ast.NewElseBlock(ast.NewPlugin("q")), ast.NewElseIfBlock(cond()), ast.NewElseIfBlock(newCond(), ast.NewPlugin("q")))
	}
	filter := func() []ast.PluginSection {
		return ast.NewPluginSections(ast.Filter, plugin(), branch())
	}
	if k > 0 {
		return ast.NewConfig(nil, ast.NewPluginSections(ast.Filter, plugin(), branch()), nil)
	}
	return ast.NewConfig(ast.NewPluginSections(ast.Input, plugin(), plugin()), filter(), ast.NewPluginSections(ast.Output))
}

// editFresh is what every new tree of a source is.
var editFresh = map[string]string{}

var dEdit = dumpOpt{comments: true, space: true, pos: true}

func checkC30(c string) verdict {
	src, edits, _ := strings.Cut(c, "\x00")
	var trees [2]ast.Config
	var models [2]*N
	for i := range trees {
		var err error
		if trees[i], err = editSource(src); err != nil {
			return bad("the source is not accepted: %v", err)
		}
		models[i] = convConfig(trees[i])
	}
	v := verdict{outcome: "edited"}
	compare := func(step string) string {
		for i := range trees {
			h := fnv.New64a()
			want := dumpTree(models[i], dEdit)
			h.Write([]byte(want))
			v.states = append(v.states, h.Sum64())
			if got := dumpTree(convConfig(trees[i]), dEdit); got != want {
				return fmt.Sprintf("%s: tree %d differs: %s", step, i, firstDiff(want, got))
			}
			out, err := format(trees[i])
			if err != nil {
				return fmt.Sprintf("%s: printing tree %d: %v", step, i, err)
			}
			if ref := refFormat(models[i]); out != ref {
				return fmt.Sprintf("%s: tree %d prints as something else: %s", step, i, firstDiff(ref, out))
			}
			if got := dumpTree(convConfig(trees[i]), dEdit); got != want {
				return fmt.Sprintf("%s: printing changes tree %d: %s", step, i, firstDiff(want, got))
			}
		}
		return ""
	}
	// the trees before and between the edits are cases of their own, here they are only printed
	touch := func() string {
		for i := range trees {
			if _, err := format(trees[i]); err != nil {
				return fmt.Sprintf("printing tree %d: %v", i, err)
			}
		}
		return ""
	}
	if edits == "" {
		if m := compare("before the edits"); m != "" {
			return bad("%s", m)
		}
		return v
	}
	if m := touch(); m != "" {
		return bad("%s", m)
	}
	done := ""
	list := strings.Split(edits, ",")
	for k, e := range list {
		var t, s, o int
		fmt.Sscanf(e, "%d.%d.%d", &t, &s, &o)
		l := sitesOf(&trees[t])
		if s >= len(l) || o >= l[s].ops || !l[s].ok(o) {
			v.trivial = true
			return v
		}
		x := l[s]
		n := models[t]
		for _, i := range x.path {
			n = n.Ch[i]
		}
		x.model(n, o)
		x.apply(o)
		v.trans++
		done += fmt.Sprintf(" [%s of tree %d, operation %d]", x.what, t, o)
		m := ""
		if k < len(list)-1 {
			m = touch()
		} else {
			m = compare("after editing" + done)
		}
		if m != "" {
			return bad("%s", m)
		}
	}
	// the sources are unaffected
	fresh, err := editSource(src)
	if err != nil {
		return bad("after editing%s: the source is no longer accepted: %v", done, err)
	}
	got := dumpTree(convConfig(fresh), dEdit)
	want, ok := editFresh[src]
	if !ok {
		if src[0] == 'p' || src[0] == 'm' {
			want = dumpTree(refParse(src[1:]).tree, dEdit)
		} else {
			want = got
		}
		editFresh[src] = want
	}
	if got != want {
		return bad("after editing%s: another tree of the source differs: %s", done, firstDiff(want, got))
	}
	return v
}

// editPairs enumerates the edits of a source, to a depth; with near only at sites close to the earlier ones.
func editsOf(src string, depth, near int, ops []int, both bool, e func(string)) {
	var rec func(done []string, last int)
	rec = func(done []string, last int) {
		if len(done) == depth {
			return
		}
		// the sites after the edits so far
		var trees [2]ast.Config
		for i := range trees {
			t, err := editSource(src)
			if err != nil {
				e(src + "\x00")
				return
			}
			trees[i] = t
		}
		for _, d := range done {
			var t, s, o int
			fmt.Sscanf(d, "%d.%d.%d", &t, &s, &o)
			sitesOf(&trees[t])[s].apply(o)
		}
		for t := range trees {
			if t > 0 && (!both || len(done) == 0) {
				continue // the first edit is on the first tree
			}
			for i, x := range sitesOf(&trees[t]) {
				if near > 0 && last >= 0 && (i < last-near || i > last+near) {
					continue
				}
				for o := 0; o < x.ops; o++ {
					if !x.ok(o) || ops != nil && strings.IndexByte(string(opBytes(ops)), byte(o)) < 0 {
						continue
					}
					d := append(append([]string{}, done...), fmt.Sprintf("%d.%d.%d", t, i, o))
					e(src + "\x00" + strings.Join(d, ","))
					rec(d, i)
				}
			}
		}
	}
	defer func() {
		if recover() != nil {
			e(src + "\x00") // an edit that panics here panics in its case, too
		}
	}()
	rec(nil, -1)
}

func opBytes(ops []int) []byte {
	var b []byte
	for _, o := range ops {
		b = append(b, byte(o))
	}
	return b
}

var editDocs = []string{
	"filter{p{a=>1}}",
	"input{p{}}\nfilter{p{a=>1 b=>\"x\"}q{}}\nfilter{r{}}\noutput{p{}}",
	"filter{if [a] and [b] == 1 or !([c] =~ /r/ nand 'x' in [d]) { p{} q{a=>[1,2] b=>{kk=>1 'l'=>ww}} } else if [a][b] not in [1,2] { p{} } else if 1 xor 2 { } else { p{} r{} } s{} }",
	"#1\n#2\nfilter{#3\np{#4\na=>1 #5\nb=>[#6\n1,#7\n2#8\n]#9\n}#10\n}#11\n",
	"input{p{codec=>c{a=>1 b=>[1]} d=>{kk=>{ll=>[1,[2,[3]]]}}} p{a=>1 b=>2 c=>3}}output{if ![a] {p{}} if !([a][b][c]) {p{}} else {q{}}}",
	"filter{if [a]{p{a=>1}}if [a]{p{a=>1}}p{a=>1}p{a=>1}}filter{if [a]{p{a=>1}}}",
}

func spacesC30(r *run) []class {
	for _, d := range editDocs {
		valid(d)
	}
	var built []string
	for k := 0; k < 6; k++ {
		built = append(built, fmt.Sprintf("b%d", k))
	}
	for k := 1; k <= 8; k++ {
		built = append(built, fmt.Sprintf("k%d", k))
	}
	for _, d := range editDocs[2:4] {
		built = append(built, "m"+d)
	}
	for _, d := range editDocs[1:3] {
		built = append(built, "a"+d)
	}
	return []class{
		{"single", "every edit at every site of the small and the base documents and of the trees built by constructors or a traversal", func(e func(string)) {
			for _, d := range append(append([]string{}, editDocs...), baseDocs...) {
				e("p" + d + "\x00")
				editsOf("p"+d, 1, 0, nil, false, e)
			}
			editsOf("k0", 1, 0, nil, false, e)
			for _, b := range built {
				editsOf(b, 1, 0, nil, false, e)
			}
		}},
		{"pairs", "pairs of edits (append, truncate and set; thorough: all operations and both trees) of the small documents and the built trees", func(e func(string)) {
			ops := []int{0, 1, 2}
			if r.tier > 0 {
				ops = nil
			}
			for _, d := range editDocs {
				editsOf("p"+d, 2, 0, ops, r.tier > 0, e)
			}
			for _, b := range built {
				near := 0
				if b[0] == 'k' && r.tier == 0 {
					near = 3
				}
				editsOf(b, 2, near, ops, r.tier > 0, e)
			}
		}},
		{"triples", "three edits (thorough: four) of the smallest documents, on both of two trees (thorough: all documents, at sites next to each other)", func(e func(string)) {
			editsOf("p"+editDocs[0], 3, 0, []int{0, 2}, true, e)
			editsOf("p"+editDocs[1], 3, 4, []int{0, 2, 3}, true, e)
			if r.tier > 0 {
				editsOf("p"+editDocs[0], 3, 0, nil, true, e)
				editsOf("p"+editDocs[0], 4, 2, []int{0, 1, 2, 3}, true, e)
				for _, d := range editDocs {
					editsOf("p"+d, 3, 3, nil, false, e)
				}
			}
		}},
		{"base-pairs", "pairs of edits at neighbouring sites of the base documents", func(e func(string)) {
			for _, d := range baseDocs {
				editsOf("p"+d, 2, 4+9*r.tier, []int{0, 1, 2}, r.tier > 0, e)
			}
		}},
	}
}

func init() {
	checks["C30"] = &propCheck{
		main:   modelMain("every sequence of edits of the listed spaces is a trace of the model (pairs of neutral trees); each is executed on the real trees, which are printed after each edit and compared in full at the end of the trace; every prefix is a trace of its own"),
		spaces: spacesC30,
		check: func(r *run) caseCheck {
			return func(c string) verdict { return guard(func() verdict { return checkC30(c) }) }
		},
	}
}
