package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/breml/logstash-config/ast"
)

// ---- C17: trees built through the API ----
//
// A case is "v:" + the deviations "point=choice,..." of one run of a builder that asks a chooser at every point of
// the tree; all runs with at most D deviations from the default are enumerated. v selects the default tree.

type chooser struct {
	dev    map[int]int
	arity  []int
	broken bool
	max    int // at most this many alternatives at a point, if positive
}

func (c *chooser) n(k int) int {
	if c.max > 0 && k > c.max {
		k = c.max
	}
	i := len(c.arity)
	c.arity = append(c.arity, k)
	d := c.dev[i]
	if d >= k {
		c.broken = true
		return 0
	}
	return d
}

func (c *chooser) str(l ...string) string { return l[c.n(len(l))] }

func parseDev(s string) map[int]int {
	m := map[int]int{}
	for _, p := range strings.Split(s, ",") {
		if a, b, ok := strings.Cut(p, "="); ok {
			x, _ := strconv.Atoi(a)
			y, _ := strconv.Atoi(b)
			m[x] = y
		}
	}
	return m
}

// explore emits every deviation list with at most bound deviations.
func explore(build func(c *chooser), bound int, emit func(string)) {
	var rec func(dev map[int]int, text string, from, left int)
	rec = func(dev map[int]int, text string, from, left int) {
		c := &chooser{dev: dev}
		build(c)
		emit(text)
		if left == 0 {
			return
		}
		for i := from; i < len(c.arity); i++ {
			for a := 1; a < c.arity[i]; a++ {
				dev[i] = a
				t := fmt.Sprintf("%d=%d", i, a)
				if text != "" {
					t = text + "," + t
				}
				rec(dev, t, i+1, left-1)
				delete(dev, i)
			}
		}
	}
	rec(map[int]int{}, "", 0, bound)
}

type builder struct {
	c    *chooser
	rich int // which default tree
}

func (b *builder) comments() ast.CommentBlock {
	cm := func(s string) ast.Comment { return ast.NewComment(s, false) }
	switch b.c.n(8) {
	case 1:
		return ast.NewCommentBlock(cm("x"))
	case 2:
		return ast.NewCommentBlock(cm("x"), cm("y"))
	case 3:
		return ast.NewCommentBlock(cm(""))
	case 4:
		return ast.NewCommentBlock(cm(`q"'[/{#é`), cm(`]}'`))
	case 5:
		return ast.NewCommentBlock(ast.NewComment("sp", true))
	case 6:
		return ast.NewCommentBlock(cm("a"), ast.NewComment("b", true))
	case 7:
		x := cm("after")
		x.SpaceAfter = true
		return ast.NewCommentBlock(x, cm("z"))
	}
	return nil
}

// count: the default comes first.
func (b *builder) count(l ...int) int { return l[b.c.n(len(l))] }

func (b *builder) config() ast.Config {
	sections := func(pt ast.PluginType, n int) []ast.PluginSection {
		var out []ast.PluginSection
		for i := 0; i < n; i++ {
			s := ast.NewPluginSection(pt, b.bops(b.count(1, 0, 2, 3), 0)...)
			s.CommentBlock, s.FooterComment = b.comments(), b.comments()
			out = append(out, s)
		}
		return out
	}
	c := ast.NewConfig(sections(ast.Input, b.count(0, 1, 2)), sections(ast.Filter, b.count(1, 0, 2)), sections(ast.Output, b.count(0, 1, 2)))
	if len(c.Input)+len(c.Filter)+len(c.Output) > 0 {
		c.FooterComment = b.comments()
	}
	return c
}

func (b *builder) bops(n, depth int) []ast.BranchOrPlugin {
	var out []ast.BranchOrPlugin
	for i := 0; i < n; i++ {
		kinds := []string{"plugin", "branch", "nil"}
		if b.rich == 1 && depth == 0 || b.rich == 2 && depth < 2 {
			kinds = []string{"branch", "plugin", "nil"}
		}
		if depth >= 3 {
			kinds = []string{"plugin", "nil"}
		}
		switch b.c.str(kinds...) {
		case "plugin":
			p := b.plugin(depth)
			p.Comment = b.comments()
			out = append(out, p)
		case "branch":
			out = append(out, b.branch(depth+1))
		case "nil":
			out = append(out, nil)
		}
	}
	return out
}

func (b *builder) plugin(depth int) ast.Plugin {
	p := ast.NewPlugin(b.c.str("p", `"q r"`, `'a"b'`, "if", "else", "0-_", `"é#{"`), b.attrs(b.count(1, 0, 2, 3), depth)...)
	p.FooterComment = b.comments()
	return p
}

func (b *builder) attrs(n, depth int) []ast.Attribute {
	var out []ast.Attribute
	for i := 0; i < n; i++ {
		out = append(out, b.attr(b.c.str("a", `"q n"`, `'x"'`, "id", "0-", "else"), depth, true, true))
	}
	return out
}

func withComment(a ast.Attribute, cb ast.CommentBlock) ast.Attribute {
	switch a := a.(type) {
	case ast.StringAttribute:
		a.Comment = cb
		return a
	case ast.NumberAttribute:
		a.Comment = cb
		return a
	case ast.ArrayAttribute:
		a.Comment = cb
		return a
	case ast.HashAttribute:
		a.Comment = cb
		return a
	case ast.PluginAttribute:
		a.Comment = cb
		return a
	}
	return a
}

func (b *builder) attr(name string, depth int, plugins, comment bool) ast.Attribute {
	a := b.attrNoComment(name, depth, plugins, comment)
	if a != nil && comment {
		a = withComment(a, b.comments())
	}
	return a
}

func (b *builder) attrNoComment(name string, depth int, plugins, nils bool) ast.Attribute {
	kinds := []string{"string", "number"}
	if b.rich == 3 && depth < 3 {
		kinds = []string{"array", "string", "number"}
	} else if depth < 5 {
		kinds = append(kinds, "array")
	}
	if b.rich == 4 && depth < 3 {
		kinds = append([]string{"hash"}, kinds...)
	} else if depth < 5 {
		kinds = append(kinds, "hash")
	}
	if plugins && depth < 5 {
		kinds = append(kinds, "plugin")
	}
	if nils {
		kinds = append(kinds, "nil")
	}
	switch b.c.str(kinds...) {
	case "number":
		return ast.NewNumberAttribute(name, []float64{1, -1.5, 0, 1e20, 1e-7, 1234567}[b.c.n(6)])
	case "array":
		var el []ast.Attribute
		for i, n := 0, b.count(1, 0, 2, 3); i < n; i++ {
			el = append(el, b.attr("", depth+1, false, true))
		}
		a := ast.NewArrayAttribute(name, el...)
		a.FooterComment = b.comments()
		return a
	case "hash":
		var en []ast.HashEntry
		for i, n := 0, b.count(1, 0, 2); i < n; i++ {
			var k ast.HashEntryKey
			switch b.c.n(4) {
			case 0:
				k = ast.NewStringAttribute("", b.c.str("kk", "if", "_0"), ast.Bareword)
			case 1:
				k = ast.NewStringAttribute("", b.c.str("k'#", "", "a\nb"), ast.DoubleQuoted)
			case 2:
				k = ast.NewStringAttribute("", b.c.str(`k"[`, "x y"), ast.SingleQuoted)
			case 3:
				k = ast.NewNumberAttribute("", []float64{1, -0.5}[b.c.n(2)])
			}
			e := ast.NewHashEntry(k, b.attr("", depth+1, false, false))
			e.Comment = b.comments()
			en = append(en, e)
		}
		h := ast.NewHashAttribute(name, en...)
		h.FooterComment = b.comments()
		return h
	case "plugin":
		return ast.NewPluginAttribute(name, b.plugin(depth+1))
	case "nil":
		return nil
	}
	return b.stringAttr(name, true)
}

func (b *builder) stringAttr(name string, bare bool) ast.StringAttribute {
	n := 2
	if bare {
		n = 3
	}
	switch b.c.n(n) {
	case 1:
		return ast.NewStringAttribute(name, b.c.str("x", `a"b`, `a\'b`, "a\n b\n\nc", "]", "// {"), ast.SingleQuoted)
	case 2:
		return ast.NewStringAttribute(name, b.c.str("ab", "if", "_0"), ast.Bareword)
	}
	return ast.NewStringAttribute(name, b.c.str("x", "", `a'b`, `a\"b`, "a\nb", "# {", `\\n`, "/", "[", " é "), ast.DoubleQuoted)
}

func (b *builder) branch(depth int) ast.Branch {
	ib := ast.NewIfBlock(b.cond(0), b.bops(b.count(1, 0, 2), depth)...)
	ib.Comment, ib.FooterComment = b.comments(), b.comments()
	var ei []ast.ElseIfBlock
	def := []int{0, 1, 2}
	if b.rich == 1 {
		def = []int{1, 0, 2}
	}
	for i, n := 0, b.count(def...); i < n; i++ {
		e := ast.NewElseIfBlock(b.cond(0), b.bops(b.count(1, 0, 2), depth)...)
		e.Comment, e.FooterComment = b.comments(), b.comments()
		ei = append(ei, e)
	}
	n := []int{0, 1, 2}
	if b.rich == 1 {
		n = []int{1, 0, 2}
	}
	eb := ast.NewElseBlock(b.bops(b.count(n...), depth)...)
	eb.Comment, eb.FooterComment = b.comments(), b.comments()
	return ast.NewBranch(ib, eb, ei...)
}

func (b *builder) cond(depth int) ast.Condition {
	var ex []ast.Expression
	def := []int{1, 2, 3}
	if b.rich == 5 && depth == 0 {
		def = []int{2, 1, 3}
	}
	n := b.count(def...)
	for i := 0; i < n; i++ {
		op := ast.NoOperator
		if i > 0 {
			op = []int{ast.And, ast.Or, ast.Xor, ast.Nand}[b.c.n(4)]
			if b.c.n(2) == 1 {
				ex = append(ex, nil)
			}
		}
		ex = append(ex, b.expr(ast.BooleanOperator{Op: op}, depth))
	}
	return ast.NewCondition(ex...)
}

func (b *builder) expr(op ast.BooleanOperator, depth int) ast.Expression {
	kinds := []string{"rvalue", "compare", "match", "in", "notin", "negselector"}
	if depth < 2 {
		kinds = append(kinds, "paren", "negparen")
	}
	switch b.c.str(kinds...) {
	case "compare":
		co := ast.CompareOperator{Op: []int{ast.Equal, ast.NotEqual, ast.LessOrEqual, ast.GreaterOrEqual, ast.LessThan, ast.GreaterThan}[b.c.n(6)]}
		return ast.NewCompareExpression(op, b.rvalue(true), co, b.rvalue(false))
	case "match":
		ro := ast.RegexpOperator{Op: []int{ast.RegexpMatch, ast.RegexpNotMatch}[b.c.n(2)]}
		if b.c.n(2) == 1 {
			return ast.NewRegexpExpression(op, b.rvalue(true), ro, b.stringAttr("", false))
		}
		return ast.NewRegexpExpression(op, b.rvalue(true), ro, b.regexp())
	case "in":
		return ast.NewInExpression(op, b.rvalue(true), b.rvalue(false))
	case "notin":
		return ast.NewNotInExpression(op, b.rvalue(true), b.rvalue(false))
	case "negselector":
		return ast.NewNegativeSelectorExpression(op, b.selector())
	case "paren":
		return ast.NewConditionExpression(op, b.cond(depth+1))
	case "negparen":
		return ast.NewNegativeConditionExpression(op, b.cond(depth+1))
	}
	return ast.NewRvalueExpression(op, b.rvalue(true))
}

func (b *builder) regexp() ast.Regexp {
	return ast.NewRegexp(b.c.str("r", "", `a\/b`, `"`, "'", "a\nb", "#", "[x]", " y "))
}

func (b *builder) selector() ast.Selector {
	if b.c.n(3) == 1 {
		return ast.NewSelectorFromNames(b.c.str("a", `"x"`, "p/q"), b.c.str("b", "c d", "#"))
	}
	return ast.NewSelectorFromNames(b.c.str("a", "@x", `"x"`, "'", "/", "#", " y ", "1", "é"))
}

func (b *builder) rvalue(selectorFirst bool) ast.Rvalue {
	kinds := []string{"string", "selector", "number", "array", "regexp"}
	if selectorFirst {
		kinds[0], kinds[1] = kinds[1], kinds[0]
	}
	switch b.c.str(kinds...) {
	case "number":
		return ast.NewNumberAttribute("", []float64{1, -1.5, 0}[b.c.n(3)])
	case "array":
		// an array of one element is read as a selector in this place
		var el []ast.Attribute
		for i, n := 0, b.count(2, 0, 3); i < n; i++ {
			el = append(el, b.attr("", 3, false, false))
		}
		if len(el) > 0 && strings.Contains(el[0].ValueString(), "]") {
			b.c.broken = true // so is this one: the selector ends at the bracket
		}
		if len(el) == 2 && b.c.n(2) == 1 {
			el = append(el[:1], nil, el[1])
		}
		return ast.NewArrayAttribute("", el...)
	case "regexp":
		return b.regexp()
	case "selector":
		return b.selector()
	}
	return b.stringAttr("", false)
}

// normalize drops nil children, and else blocks without content.
func normalize(n *N) *N {
	c := *n
	c.Ch = nil
	for _, k := range n.Ch {
		if k.K == "nil" {
			continue
		}
		d := normalize(k)
		if d.K == "else" && len(d.Ch)+len(d.Cs)+len(d.Fs) == 0 {
			continue
		}
		c.Ch = append(c.Ch, d)
	}
	return &c
}

func apiFinding(t *N) string {
	if anyNode(t, func(n *N) bool {
		for i := 0; i+1 < len(n.Ch); i++ {
			b := n.Ch[i]
			if b.K == "branch" && b.Ch[len(b.Ch)-1].K != "else" && n.Ch[i+1].K == "plugin" && strings.HasPrefix(n.Ch[i+1].T, "else") && len(n.Ch[i+1].Cs) == 0 {
				return true
			}
		}
		return false
	}) {
		return kfElse
	}
	return ""
}

func newBuilder(c *chooser, v int) *builder {
	if v >= 6 {
		v -= 5
		c.max = 2
	}
	return &builder{c: c, rich: v}
}

func buildCase(c string) (ast.Config, bool) {
	ch := &chooser{dev: parseDev(c[2:])}
	b := newBuilder(ch, int(c[0]-'0'))
	conf := b.config()
	return conf, !ch.broken
}

func checkC17(c string) verdict {
	return guard(func() verdict {
		conf, ok := buildCase(c)
		if !ok {
			return trivial
		}
		before := convConfig(conf)
		s, err := format(conf)
		if err != nil {
			return bad("%v", err)
		}
		s2, err := format(conf)
		if err != nil || s2 != s {
			return bad("printing twice gives different texts: %s", firstDiff(s, s2))
		}
		after := convConfig(conf)
		if a, b := dumpTree(before, dAll), dumpTree(after, dAll); a != b {
			return bad("printing modifies the tree: %s", firstDiff(a, b))
		}
		want := normalize(before)
		kf := apiFinding(want)
		ref := refParse(s)
		p := parseDoc(s)
		if !ref.ok || !p.ok {
			return orKnown(kf, bad("printed text is not accepted (in the language: %v, parser: %s):\n%s", ref.ok, p.verdict(), s))
		}
		w, g := dumpTree(want, dComments), dumpTree(ref.tree, dComments)
		if w != g {
			return orKnown(kf, bad("printed text denotes another tree: %s\n%s", firstDiff(w, g), s))
		}
		return verdict{outcome: shape(want)}
	})
}

func spacesC17(r *run) []class {
	var out []class
	for v, d := range []string{"a section with one plugin", "a branch with else-if and else", "nested branches", "nested arrays", "nested hashes", "chained conditions", "a branch with else-if and else, two alternatives per point", "nested branches, two alternatives per point"} {
		v := v
		n := 2
		if r.tier > 0 && v != 1 && v != 2 || v >= 6 {
			n = 3
		}
		if r.tier == 0 && v >= 6 {
			continue
		}
		out = append(out, class{fmt.Sprintf("deviations:%d", v), fmt.Sprintf("all trees with at most %d deviations from: %s", n, d), func(e func(string)) {
			explore(func(c *chooser) { newBuilder(c, v).config() }, n, func(s string) { e(strconv.Itoa(v) + ":" + s) })
		}})
	}
	if r.tier == 0 {
		out = append(out, class{"pinned", "single deviation lists of the thorough tier", func(e func(string)) { e("0:2=2,3=1,27=4") }})
	}
	return out
}

func init() {
	checks["C17"] = &propCheck{explorationMain("every tree the builder can make with the stated number of deviations from a default tree is printed (twice), parsed by the reference parser and by the parser, and compared with the built tree; distinct trees count"), spacesC17, caseOf(checkC17)}
}
