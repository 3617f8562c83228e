package main

import (
	"fmt"
	"hash/fnv"
	"strings"

	"github.com/breml/logstash-config/ast"
	"github.com/breml/logstash-config/ast/astutil"
)

// ---- C14: plugin traversal with edits, against an ordinary list ----
//
// A case is "shape@cap/ops0,ops1,...": the shape is a list of p (plugin), x (nil) and
// B(list;list...|list) (branch: if block, else-if blocks, else block); ops_i are the cursor operations applied
// while the i-th plugin is visited: R/Y/P replace by a plugin/branch/pointer to a plugin, N replace by nil, B/b insert a plugin/branch before, A/a insert
// after, D delete.

type mNode struct {
	name   string // plugin, "" for nil
	branch bool
	id     int
	blocks [][]*mNode // if, else-ifs
	els    []*mNode
	fresh  bool // inserted or replacement: must not be visited
}

func (n *mNode) clone() *mNode {
	c := *n
	c.blocks = nil
	for _, b := range n.blocks {
		c.blocks = append(c.blocks, cloneList(b))
	}
	c.els = cloneList(n.els)
	return &c
}

func cloneList(l []*mNode) []*mNode {
	var out []*mNode
	for _, n := range l {
		out = append(out, n.clone())
	}
	return out
}

func render(b *strings.Builder, l []*mNode) {
	for _, n := range l {
		switch {
		case n.branch:
			fmt.Fprintf(b, "B%d(", n.id)
			for _, k := range n.blocks {
				render(b, k)
				b.WriteByte(';')
			}
			b.WriteByte('|')
			render(b, n.els)
			b.WriteByte(')')
		case n.name == "":
			b.WriteString("nil ")
		default:
			b.WriteString(n.name)
			b.WriteByte(' ')
		}
	}
}

type shapeParser struct {
	s   string
	pos int
	np  int
	nb  int
}

func (p *shapeParser) list() []*mNode {
	var out []*mNode
	for p.pos < len(p.s) {
		switch p.s[p.pos] {
		case 'p':
			p.pos++
			out = append(out, &mNode{name: fmt.Sprintf("p%d", p.np)})
			p.np++
		case 'x':
			p.pos++
			out = append(out, &mNode{})
			p.np++
		case 'B':
			p.pos += 2
			n := &mNode{branch: true, id: p.nb}
			p.nb++
			n.blocks = append(n.blocks, p.list())
			for p.s[p.pos] == ';' {
				p.pos++
				n.blocks = append(n.blocks, p.list())
			}
			p.pos++ // |
			n.els = p.list()
			p.pos++ // )
			out = append(out, n)
		default:
			return out
		}
	}
	return out
}

func mkPlugin(name string) ast.Plugin {
	p := ast.NewPlugin(name, ast.NewStringAttribute("k"+name, "v"+name, ast.DoubleQuoted))
	p.Comment = ast.NewCommentBlock(ast.NewComment("c"+name, false))
	p.FooterComment = ast.NewCommentBlock(ast.NewComment("f"+name, false))
	return p
}

func mkList(l []*mNode, spare int) []ast.BranchOrPlugin {
	if len(l) == 0 && spare == 0 {
		return nil
	}
	out := make([]ast.BranchOrPlugin, 0, len(l)+spare)
	for _, n := range l {
		switch {
		case n.branch:
			out = append(out, mkBranch(n, spare))
		case n.name == "":
			out = append(out, nil)
		default:
			out = append(out, mkPlugin(n.name))
		}
	}
	return out
}

func mkBranch(n *mNode, spare int) ast.Branch {
	cond := func(i int) ast.Condition {
		return ast.NewCondition(ast.NewRvalueExpression(ast.BooleanOperator{Op: ast.NoOperator}, ast.NewSelectorFromNames(fmt.Sprintf("b%d", n.id), fmt.Sprint(i))))
	}
	cm := func(s string) ast.CommentBlock {
		return ast.NewCommentBlock(ast.NewComment(fmt.Sprintf("%s%d", s, n.id), false))
	}
	var b ast.Branch
	b.IfBlock = ast.NewIfBlock(cond(0), mkList(n.blocks[0], spare)...)
	b.IfBlock.Comment, b.IfBlock.FooterComment = cm("if"), cm("iff")
	for i, k := range n.blocks[1:] {
		e := ast.NewElseIfBlock(cond(i+1), mkList(k, spare)...)
		e.Comment, e.FooterComment = cm("ei"), cm("eif")
		b.ElseIfBlock = append(b.ElseIfBlock, e)
	}
	b.ElseBlock = ast.NewElseBlock(mkList(n.els, spare)...)
	b.ElseBlock.Comment, b.ElseBlock.FooterComment = cm("el"), cm("elf")
	return b
}

// applyModel edits an ordinary list: visit is called in document order for every plugin (or nil) that was
// present before and returns the nodes put before it, instead of it (nil: deleted) and after it.
func applyModel(l []*mNode, visit func(*mNode) (before []*mNode, cur *mNode, after []*mNode)) []*mNode {
	var out []*mNode
	for _, n := range l {
		if n.branch {
			for i := range n.blocks {
				n.blocks[i] = applyModel(n.blocks[i], visit)
			}
			n.els = applyModel(n.els, visit)
			out = append(out, n)
			continue
		}
		before, cur, after := visit(n)
		out = append(out, before...)
		if cur != nil {
			out = append(out, cur)
		}
		out = append(out, after...)
	}
	return out
}

// newNodes returns the node an operation brings in.
func newNode(visit, k int, op byte) *mNode {
	name := fmt.Sprintf("n%d%c%d", visit, 'a'+k, k)
	switch op {
	case 'Y', 'a', 'b':
		return &mNode{branch: true, id: 100 + visit*10 + k, fresh: true, blocks: [][]*mNode{{{name: name + "x", fresh: true}}}, els: []*mNode{{name: name + "y", fresh: true}}}
	case 'N':
		return &mNode{fresh: true}
	}
	return &mNode{name: name, fresh: true}
}

func runModel(shape string, ops []string) (before, after []*mNode, visits []string) {
	sp := &shapeParser{s: shape}
	return runModelOn(sp.list(), ops)
}

func runModelOn(l []*mNode, ops []string) (before, after []*mNode, visits []string) {
	before = l
	i := 0
	after = applyModel(cloneList(before), func(n *mNode) (bf []*mNode, cur *mNode, af []*mNode) {
		visits = append(visits, n.name)
		cur = n
		if i < len(ops) {
			for k := 0; k < len(ops[i]); k++ {
				op := ops[i][k]
				nn := newNode(i, k, op)
				switch op {
				case 'R', 'Y', 'N', 'P':
					cur = nn
				case 'B', 'b':
					bf = append(bf, nn)
				case 'A', 'a':
					af = append([]*mNode{nn}, af...)
				case 'D':
					cur = nil
				}
			}
		}
		i++
		return bf, cur, af
	})
	return before, after, visits
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func nodeName(n ast.BranchOrPlugin) (string, bool) {
	switch p := n.(type) {
	case nil:
		return "", true
	case ast.Plugin:
		return p.Name(), true
	case *ast.Plugin:
		return p.Name(), true
	}
	return "", false
}

func checkC14(c string) verdict {
	return guard(func() verdict {
		slash := strings.IndexByte(c, '/')
		shape, spare := c[:slash], 0
		if at := strings.IndexByte(shape, '@'); at >= 0 {
			shape, spare = shape[:at], 3
		}
		ops := strings.Split(c[slash+1:], ",")
		before, after, visits := runModel(shape, ops)
		v := verdict{outcome: "unchanged"}
		state := func(l []*mNode, at int) {
			var b strings.Builder
			render(&b, l)
			fmt.Fprintf(&b, "@%d", at)
			v.states = append(v.states, hash64(b.String()))
		}
		state(before, 0)
		for i := range ops {
			for k := 1; k <= len(ops[i]); k++ {
				if len(c) > 40 {
					v.trans++ // long lists: intermediate states are not counted
					continue
				}
				part := append(append([]string{}, ops[:i]...), ops[i][:k])
				_, l, _ := runModel(shape, part)
				state(l, i)
				v.trans++
			}
		}
		v.trans += int64(len(visits))
		state(after, len(visits))

		root := mkList(before, spare)
		var got []string
		msg := ""
		fail := func(f string, a ...interface{}) {
			if msg == "" {
				msg = fmt.Sprintf(f, a...)
			}
		}
		name := func(p *ast.Plugin) string {
			if p == nil {
				return ""
			}
			return p.Name()
		}
		result := astutil.ApplyPlugins(root, func(c *astutil.Cursor) {
			i := len(got)
			cur := name(c.Plugin())
			got = append(got, cur)
			if i >= len(visits) || cur != visits[i] {
				fail("visit %d is of %q, expected the visits %q", i, cur, visits)
				return
			}
			if k := c.Index(); k < 0 || k >= len(c.Parent()) {
				fail("visit %d: index %d in a list of %d nodes", i, k, len(c.Parent()))
			} else if n, ok := nodeName(c.Parent()[k]); !ok || n != cur {
				fail("visit %d of %q: Parent()[Index()] is %q", i, cur, n)
			}
			if i >= len(ops) {
				return
			}
			replaced := false
			for k := 0; k < len(ops[i]); k++ {
				op := ops[i][k]
				nn := newNode(i, k, op)
				var bp ast.BranchOrPlugin
				if l := mkList([]*mNode{nn}, 0); op != 'D' {
					bp = l[0]
				}
				switch op {
				case 'P':
					p := bp.(ast.Plugin)
					c.Replace(&p)
					replaced = true
				case 'R', 'Y', 'N':
					c.Replace(bp)
					replaced = true
				case 'B', 'b':
					c.InsertBefore(bp)
				case 'A', 'a':
					c.InsertAfter(bp)
				case 'D':
					c.Delete()
					continue
				}
				if !replaced {
					if n := name(c.Plugin()); n != visits[i] {
						fail("after operation %d (%c) of visit %d the cursor describes %q instead of the visited %q", k, op, i, n, visits[i])
					}
				}
			}
		})
		if msg != "" {
			v.bad = msg
			return v
		}
		if fmt.Sprint(got) != fmt.Sprint(visits) {
			v.bad = fmt.Sprintf("visits %q, expected %q", got, visits)
			return v
		}
		want := dumpTree(&N{K: "list", Off: -1, Ch: convBops(mkList(after, 0))}, dFull)
		have := dumpTree(&N{K: "list", Off: -1, Ch: convBops(result)}, dFull)
		if want != have {
			v.bad = fmt.Sprintf("result differs from the edited list: %s\nexpected:\n%s\ngot:\n%s", firstDiff(want, have), want, have)
			return v
		}
		// A second traversal visits everything that is there now and changes nothing.
		_, _, visits2 := runModelOn(after, nil)
		got2 := []string{}
		result = astutil.ApplyPlugins(result, func(c *astutil.Cursor) { got2 = append(got2, name(c.Plugin())) })
		if fmt.Sprint(got2) != fmt.Sprint(visits2) {
			v.bad = fmt.Sprintf("a second traversal visits %q, expected %q", got2, visits2)
			return v
		}
		if have := dumpTree(&N{K: "list", Off: -1, Ch: convBops(result)}, dFull); have != want {
			v.bad = fmt.Sprintf("a second traversal changes the list: %s", firstDiff(want, have))
			return v
		}
		if len(strings.Join(ops, "")) > 0 {
			v.outcome = fmt.Sprintf("%d visits, %d operations", len(visits), len(strings.Join(ops, "")))
		} else {
			v.outcome = fmt.Sprintf("%d visits", len(visits))
		}
		return v
	})
}

// shapes returns all lists of exactly n nodes and at most depth nested branches; nil nodes are x.
func shapes(n, depth int, nils bool) []string {
	if n == 0 {
		return []string{""}
	}
	var out []string
	for _, rest := range shapes(n-1, depth, nils) {
		out = append(out, "p"+rest)
		if nils {
			out = append(out, "x"+rest)
		}
	}
	if depth == 0 {
		return out
	}
	// a branch with m inner nodes
	for m := 0; m < n; m++ {
		for _, rest := range shapes(n-1-m, depth, nils) {
			for a := 0; a <= m; a++ {
				for _, ifl := range shapes(a, depth-1, nils) {
					for _, els := range shapes(m-a, depth-1, nils) {
						out = append(out, "B("+ifl+"|"+els+")"+rest)
					}
					for b := 0; b <= m-a; b++ {
						for _, ei := range shapes(b, depth-1, nils) {
							for _, els := range shapes(m-a-b, depth-1, nils) {
								out = append(out, "B("+ifl+";"+ei+"|"+els+")"+rest)
							}
						}
					}
				}
			}
		}
	}
	return out
}

// opLists emits all ways to distribute at most budget operations to n visits; D is the last one of a visit.
func opLists(alpha string, n, budget int, emit func([]string)) {
	cur := make([]string, n)
	var rec func(i, left int)
	rec = func(i, left int) {
		if i == n {
			emit(cur)
			return
		}
		var word func(w string)
		word = func(w string) {
			cur[i] = w
			rec(i+1, left-len(w))
			if len(w) == left || strings.HasSuffix(w, "D") {
				return
			}
			for k := 0; k < len(alpha); k++ {
				word(w + alpha[k:k+1])
			}
		}
		word("")
	}
	rec(0, budget)
}

func spacesC14(r *run) []class {
	t := r.tier
	mk := func(name, alpha string, from, nodes, depth, budget int, nils bool, spare bool) class {
		return class{name, fmt.Sprintf("all lists of %d to %d nodes (branches nested at most %d deep, nil plugins %v) with all sequences of at most %d operations of %s, exact and spare slice capacity %v", from, nodes, depth, nils, budget, alpha, spare),
			func(e func(string)) {
				for n := from; n <= nodes; n++ {
					for _, s := range shapes(n, depth, nils) {
						v := strings.Count(s, "p") + strings.Count(s, "x")
						opLists(alpha, v, budget, func(ops []string) {
							o := strings.Join(ops, ",")
							e(s + "/" + o)
							if spare {
								e(s + "@/" + o)
							}
						})
					}
				}
			}}
	}
	return []class{
		mk("visits", "", 0, 5+t, 3, 0, true, true),
		mk("flat", "RBAD", 0, 3, 0, 5+t, false, true),
		mk("nested", "RYBbAaD", 0, 3, 2, 3+t, false, true),
		mk("nils", "RNBAD", 1, 3, 1, 3, true, true),
		mk("pointers", "PBD", 0, 3, 1, 3+t, false, true),
		mk("wide", "RBAD", 4, 5, 1, 3, false, false),
		{"long", "lists of up to 40 plugins, up to 40 else-if blocks and nesting up to 40 with the same operations at every visit, or at a single one", func(e func(string)) {
			words := []string{"R", "B", "A", "D", "Y", "b", "a", "BA", "AB", "BB", "AA", "RBA", "BBBAAA", "AAAAD", "RD", "BD", strings.Repeat("A", 20), strings.Repeat("B", 20)}
			for n := 1; n <= 40; n++ {
				if t == 0 && n > 9 && n < 31 && n%4 != 1 {
					continue
				}
				for _, sh := range []string{rep("p", n), "B(" + rep("p", n) + "|)", "B(|" + rep("p", n) + ")p", "B(" + rep("p;", n) + "p|p)", rep("B(p|p)", n), rep("B(", n) + "p" + rep("|p)", n), rep("B(p;", n) + "p" + rep("|)p", n)} {
					v := strings.Count(sh, "p")
					for _, w := range words {
						for step := 1; step <= 3; step++ {
							ops := make([]string, v)
							for i := 0; i < v; i += step {
								ops[i] = w
							}
							e(sh + "/" + strings.Join(ops, ","))
							e(sh + "@/" + strings.Join(ops, ","))
						}
						for i := 0; i < v; i++ {
							if t == 0 && i > 2 && i < v-2 && i != v/2 {
								continue
							}
							e(sh + "/" + rep(",", i) + w)
						}
					}
				}
			}
		}},
		mk("deep", "RBAD", 4, 4+t, 3, 2+t, false, false),
	}
}

func modelMain(rule string, assume ...string) func(r *run) *report {
	return func(r *run) *report {
		res := runSharded(r)
		c := explorationCoverage(res, rule)
		c["states"] = res.States
		c["transitions"] = res.Trans
		c["traces_validated_against_impl"] = c["evaluations"]
		delete(c, "evaluations")
		return &report{level: "model_checking", coverage: c, assumptions: assume, violations: res.Violations, known: res.KnownEx}
	}
}

func init() {
	checks["C14"] = &propCheck{modelMain("every tree shape with every assignment of cursor operations to the visits; each trace of the list model is executed by ApplyPlugins and its visits, cursor and result are compared; states are distinct (list, visit) states of the model",
		"the ordinary list model in checks_apply.go", "delete is the last operation of a visit; a nil plugin is visited as a nil plugin"), spacesC14, caseOf(checkC14)}
}
