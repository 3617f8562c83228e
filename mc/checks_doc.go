package main

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"

	config "github.com/breml/logstash-config"
	"github.com/breml/logstash-config/ast"
)

const docName = "x.conf"

type parsed struct {
	conf  ast.Config
	ok    bool
	err   error
	panic interface{}
}

func parseDoc(doc string, opts ...config.Option) (p parsed) {
	defer func() {
		if e := recover(); e != nil {
			p.panic = e
		}
	}()
	v, err := config.Parse(docName, []byte(doc), opts...)
	if err != nil {
		p.err = err
		return p
	}
	c, ok := v.(ast.Config)
	if !ok {
		p.panic = fmt.Sprintf("result of a successful parse is a %T", v)
		return p
	}
	p.conf, p.ok = c, true
	return p
}

func format(c ast.Config) (s string, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("formatting panics: %v", e)
		}
	}()
	return c.String(), nil
}

func (p parsed) verdict() string {
	switch {
	case p.panic != nil:
		return fmt.Sprintf("panic: %v", p.panic)
	case p.err != nil:
		return "error: " + p.err.Error()
	}
	return "accepted"
}

// shape is a coarse class of a document: the kinds of nodes in it.
func shape(n *N) string {
	if n == nil {
		return "rejected"
	}
	k := map[string]bool{}
	depth := 0
	var walk func(n *N, d int)
	walk = func(n *N, d int) {
		k[n.K] = true
		if d > depth {
			depth = d
		}
		for _, c := range n.Ch {
			walk(c, d+1)
		}
	}
	walk(n, 0)
	var out []string
	for _, x := range []string{"plugin", "branch", "elseif", "else", "array", "hash", "pluginattr", "number", "match", "paren", "negparen"} {
		if k[x] {
			out = append(out, x)
		}
	}
	return strings.Join(out, ",")
}

func hasComments(n *N) bool {
	if len(n.Cs)+len(n.Fs) > 0 {
		return true
	}
	for _, c := range n.Ch {
		if hasComments(c) {
			return true
		}
	}
	return false
}

func anyNode(n *N, f func(*N) bool) bool {
	if f(n) {
		return true
	}
	for _, c := range n.Ch {
		if anyNode(c, f) {
			return true
		}
	}
	return false
}

// Known findings of the printer (see known-findings.json): a document in one of these classes does not
// survive formatting.
const (
	kfElse = "empty-else-before-plugin-named-else"
	kfSel  = "selector-element-starting-with-newline"
	kfOne  = "one-element-array-in-condition-without-its-comment"
)

func printerFinding(tree *N) string {
	if anyNode(tree, func(n *N) bool {
		return n.K == "element" && strings.HasPrefix(n.T, "\n")
	}) {
		return kfSel
	}
	if anyNode(tree, func(n *N) bool {
		for i := 0; i+1 < len(n.Ch); i++ {
			if n.Ch[i].K == "branch" && n.Ch[i].EmptyEls && n.Ch[i+1].K == "plugin" && strings.HasPrefix(n.Ch[i+1].T, "else") {
				return true
			}
		}
		return false
	}) {
		return kfElse
	}
	return ""
}

// loneElement: an array of one element as operand of a condition. Written without a comment that contains one of
// "[],", it is read as a field selector.
func loneElement(n *N) bool {
	switch n.K {
	case "in", "notin", "compare":
		for _, c := range n.Ch {
			if c.K == "array" && len(c.Ch) == 1 {
				return true
			}
		}
	}
	return false
}

type docCheckFn func(doc string, ref refResult) verdict

func docCase(f docCheckFn) func(r *run) caseCheck {
	return func(r *run) caseCheck {
		return func(doc string) verdict {
			ref := refParse(doc)
			v := f(doc, ref)
			if v.outcome == "" && !v.trivial {
				v.outcome = shape(ref.tree)
			}
			return v
		}
	}
}

func bad(format string, a ...interface{}) verdict { return verdict{bad: fmt.Sprintf(format, a...)} }

var trivial = verdict{trivial: true}

// accepted parses a document that the reference accepts.
func accepted(doc string, ref refResult, opts ...config.Option) (ast.Config, bool) {
	if !ref.ok {
		return ast.Config{}, false
	}
	p := parseDoc(doc, opts...)
	return p.conf, p.ok
}

func checkC01(doc string, ref refResult) verdict {
	p := parseDoc(doc)
	if p.panic != nil {
		return bad("parsing panics: %v", p.panic)
	}
	if p.ok != ref.ok {
		return bad("the grammar %s this text, the parser says: %s", map[bool]string{true: "accepts", false: "rejects"}[ref.ok], p.verdict())
	}
	return verdict{outcome: shape(ref.tree)}
}

func checkC02(doc string, ref refResult) verdict {
	c, ok := accepted(doc, ref)
	if !ok {
		return trivial
	}
	want, got := dumpTree(ref.tree, dTree), dumpTree(convConfig(c), dTree)
	if want != got {
		return bad("tree differs from the structure the text denotes: %s\nexpected:\n%s\ngot:\n%s", firstDiff(want, got), want, got)
	}
	return verdict{}
}

func checkC03(doc string, ref refResult) verdict {
	if !strings.Contains(doc, "#") {
		return trivial
	}
	c, ok := accepted(doc, ref)
	if !ok {
		return trivial
	}
	t := convConfig(c)
	if dumpTree(ref.tree, dStruct) != dumpTree(t, dStruct) {
		return trivial
	}
	want, got := dumpTree(ref.tree, dComments), dumpTree(t, dComments)
	if want != got {
		return bad("comments are not attached as written: %s\nexpected:\n%s\ngot:\n%s", firstDiff(want, got), want, got)
	}
	return verdict{trivial: !hasComments(ref.tree)}
}

func checkC04(doc string, ref refResult) verdict {
	c, ok := accepted(doc, ref)
	if !ok {
		return trivial
	}
	s, err := format(c)
	if err != nil {
		return bad("%v", err)
	}
	kf := printerFinding(ref.tree)
	p := parseDoc(s)
	if !p.ok {
		return orKnown(kf, bad("formatted output is not accepted: %s\noutput:\n%s", p.verdict(), s))
	}
	want, got := dumpTree(ref.tree, dStruct), dumpTree(convConfig(p.conf), dStruct)
	// an else block that only held comments in the source keeps its comments, so it does not disappear
	if want != got {
		return orKnown(kf, bad("formatted output denotes something else: %s\noutput:\n%s", firstDiff(want, got), s))
	}
	return verdict{}
}

// orKnown turns a violation on an input of a known finding's class into that finding.
func orKnown(kf string, v verdict) verdict {
	if kf != "" && v.bad != "" {
		return verdict{known: kf, outcome: "known"}
	}
	return v
}

func checkC05(doc string, ref refResult) verdict {
	c, ok := accepted(doc, ref)
	if !ok {
		return trivial
	}
	s, err := format(c)
	if err != nil {
		return bad("%v", err)
	}
	kf := printerFinding(ref.tree)
	p := parseDoc(s)
	if !p.ok {
		return orKnown(kf, bad("formatted output can not be formatted again: %s\noutput:\n%s", p.verdict(), s))
	}
	s2, err := format(p.conf)
	if err != nil {
		return bad("%v", err)
	}
	if s != s2 {
		return orKnown(kf, bad("second format pass changes the text: %s\nfirst:\n%s\nsecond:\n%s", firstDiff(s, s2), s, s2))
	}
	return verdict{trivial: s == doc}
}

func checkC06(doc string, ref refResult) verdict {
	if !strings.Contains(doc, "#") || !ref.ok || !hasComments(ref.tree) || len(ref.tree.Ch) == 0 {
		return trivial
	}
	c, ok := accepted(doc, ref)
	if !ok {
		return trivial
	}
	s, err := format(c)
	if err != nil {
		return bad("%v", err)
	}
	out := refParse(s)
	if !out.ok || dumpTree(out.tree, dStruct) != dumpTree(ref.tree, dStruct) {
		return trivial // decided by C04
	}
	want, got := dumpTree(ref.tree, dComments), dumpTree(out.tree, dComments)
	if want != got {
		return bad("comments do not survive formatting: %s\noutput:\n%s", firstDiff(want, got), s)
	}
	return verdict{}
}

func checkC07(doc string, ref refResult) verdict {
	c, ok := accepted(doc, ref)
	if !ok {
		return trivial
	}
	t := convConfig(c)
	if dumpTree(ref.tree, dTree) != dumpTree(t, dTree) {
		return trivial
	}
	want, got := dumpTree(ref.tree, dPos), dumpTree(t, dPos)
	if want != got {
		return bad("position of a node is wrong: %s", firstDiff(want, got))
	}
	return verdict{}
}

var warnRe = regexp.MustCompile(`^exceptional comment at (\d+):(\d+) \[(\d+)\]$`)

func checkC08(doc string, ref refResult) verdict {
	if !ref.ok && !strings.Contains(doc, "#") {
		return trivial
	}
	if !ref.ok {
		if p := parseDoc(doc, config.ExceptionalCommentsWarning(true)); p.ok {
			if q := parseDoc(doc); !q.ok {
				return bad("accepted with warnings enabled, otherwise: %s", q.verdict())
			}
		}
		return trivial
	}
	off := parseDoc(doc, config.ExceptionalCommentsWarning(false))
	on := parseDoc(doc, config.ExceptionalCommentsWarning(true))
	if off.ok != on.ok || (off.panic == nil) != (on.panic == nil) {
		return bad("verdict depends on the warning option: off %s, on %s", off.verdict(), on.verdict())
	}
	if !on.ok {
		return trivial
	}
	if len(off.conf.Warnings) != 0 {
		return bad("warnings although disabled: %q", off.conf.Warnings)
	}
	a, b := dumpTree(convConfig(off.conf), dAll), dumpTree(convConfig(on.conf), dAll)
	if a != b {
		return bad("tree depends on the warning option: %s", firstDiff(a, b))
	}
	pi := newPosIndex(doc)
	var got []int
	for _, w := range on.conf.Warnings {
		m := warnRe.FindStringSubmatch(w)
		if m == nil {
			return bad("malformed warning %q", w)
		}
		l, _ := strconv.Atoi(m[1])
		col, _ := strconv.Atoi(m[2])
		o, _ := strconv.Atoi(m[3])
		if !pi.ok(o, l, col) {
			return bad("warning %q: line and column do not belong to that offset", w)
		}
		got = append(got, o)
	}
	var want []int
	for _, w := range ref.warns {
		want = append(want, w.off)
	}
	if fmt.Sprint(want) != fmt.Sprint(got) {
		return bad("warnings at offsets %v expected, got %v", want, got)
	}
	return verdict{trivial: len(want) == 0 && !strings.Contains(doc, "#"), outcome: fmt.Sprintf("%d warnings", len(want))}
}

func checkC09(doc string, ref refResult) verdict {
	if !ref.ok && !strings.Contains(doc, "#") {
		return trivial
	}
	with := parseDoc(doc, config.IgnoreComments(true))
	if with.panic != nil {
		return bad("parsing with comments ignored panics: %v", with.panic)
	}
	without := parseDoc(doc)
	if with.ok != without.ok {
		return bad("verdict depends on ignoring comments: %s / %s", with.verdict(), without.verdict())
	}
	if !with.ok {
		return verdict{trivial: !strings.Contains(doc, "#"), outcome: "rejected"}
	}
	o := dPos
	o.els = false
	want := dropComments(convConfig(without.conf))
	gotTree := convConfig(with.conf)
	if hasComments(gotTree) {
		return bad("tree has comments although they are ignored:\n%s", dumpTree(gotTree, dComments))
	}
	a, b := dumpTree(want, o), dumpTree(gotTree, o)
	if a != b {
		return bad("ignoring comments changes the tree: %s", firstDiff(a, b))
	}
	if !ref.ok || !strings.Contains(doc, "#") {
		return trivial
	}
	s, err := format(with.conf)
	if err != nil {
		return bad("%v", err)
	}
	clean := dropComments(ref.tree)
	kf := printerFinding(ref.tree)
	out := refParse(s)
	if !out.ok {
		return orKnown(kf, bad("formatted output without comments is not accepted:\n%s", s))
	}
	if hasComments(out.tree) {
		return bad("formatted output contains comments although they are ignored:\n%s", s)
	}
	if a, b := dumpTree(clean, dStruct), dumpTree(out.tree, dStruct); a != b {
		if anyNode(ref.tree, func(n *N) bool { return n.K == "else" && len(n.Ch) == 0 }) {
			return trivial // dropping such an else block is the known printer finding
		}
		if kf == "" && s == refFormat(clean) && anyNode(clean, loneElement) {
			kf = kfOne // the grammar has no text for this tree without a comment
		}
		return orKnown(kf, bad("formatted output without comments denotes something else: %s\n%s", firstDiff(a, b), s))
	}
	return verdict{}
}

var (
	errPosRe  = regexp.MustCompile(`^x\.conf:(\d+):(\d+) \((\d+)\)(: |$)`)
	farthPosR = regexp.MustCompile(`(?m)Parsing error at pos (\d+):(\d+) \[(-?\d+)\] and \[(-?\d+)\] \(after: '`)
)

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

func checkPosReport(doc, text string) string {
	pi := newPosIndex(doc)
	for _, m := range farthPosR.FindAllStringSubmatchIndex(text, -1) {
		g := func(i int) int { return atoi(text[m[2*i]:m[2*i+1]]) }
		l, c, o, e := g(1), g(2), g(3), g(4)
		if o < 0 || e < o || e > len(doc) {
			return fmt.Sprintf("report names offsets %d and %d in a text of %d bytes: %q", o, e, len(doc), text)
		}
		if !pi.ok(o, l, c) {
			return fmt.Sprintf("report names %d:%d for offset %d: %q", l, c, o, text)
		}
		after := strings.ReplaceAll(doc[o:e], "\n", "\\n") + "'):\n-> "
		if !strings.HasPrefix(text[m[1]:], after) {
			return fmt.Sprintf("report does not quote the text between %d and %d: %q", o, e, text)
		}
	}
	return ""
}

var (
	docNames  = []string{"", "50%d.conf", "a:1:2 (3).conf", "%", "%s%v%[9]d", "a b", "é\n.conf", rep("n", 300), "/abs/x.conf", "\xff", "-", "\"'"}
	docNameRe = regexp.MustCompile(`(?m)^` + regexp.QuoteMeta(docName) + ":")
)

func parseNamed(name, doc string) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprint("panic: ", e)
		}
	}()
	_, err := config.Parse(name, []byte(doc))
	if err == nil {
		return "no error"
	}
	return err.Error()
}

func checkC10(doc string, ref refResult) verdict {
	if ref.ok {
		return trivial
	}
	p := parseDoc(doc)
	if p.panic != nil {
		return bad("parsing panics: %v", p.panic)
	}
	if p.ok {
		return trivial // decided by C01
	}
	far, has := config.GetFarthestFailure()
	msg := p.err.Error()
	lines := strings.Split(msg, "\n")
	pi := newPosIndex(doc)
	n := 0
	for i, l := range lines {
		m := errPosRe.FindStringSubmatch(l)
		if m == nil {
			if i == 0 {
				return bad("error does not name file and position: %q", msg)
			}
			continue
		}
		n++
		o := atoi(m[3])
		if o > len(doc) {
			return bad("error position %d is outside of the text (%d bytes): %q", o, len(doc), msg)
		}
		if !pi.ok(o, atoi(m[1]), atoi(m[2])) {
			return bad("error names %s:%s for offset %d: %q", m[1], m[2], o, msg)
		}
	}
	if s := checkPosReport(doc, msg); s != "" {
		return bad("error: %s", s)
	}
	if has {
		if !farthPosR.MatchString(far) {
			return bad("malformed farthest failure report %q", far)
		}
		if s := checkPosReport(doc, far); s != "" {
			return bad("farthest failure %s", s)
		}
	} else if far != "" {
		return bad("farthest failure report %q although there is none", far)
	}
	p2 := parseDoc(doc)
	far2, has2 := config.GetFarthestFailure()
	if p2.err == nil || p2.err.Error() != msg || far2 != far || has2 != has {
		return bad("second parse of the same text gives another error or report: %q / %q, %q / %q", msg, p2.verdict(), far, far2)
	}
	// The same text under another name: the same error with that name.
	name := docNames[hash64(doc)%uint64(len(docNames))]
	if msg3, far3, has3, want := parseNamed(name, doc), "", false, ""; true {
		far3, has3 = config.GetFarthestFailure()
		want = docNameRe.ReplaceAllLiteralString(msg, name+":")
		if name == "" {
			want = docNameRe.ReplaceAllLiteralString(msg, "")
		}
		if msg3 != want || far3 != far || has3 != has {
			return bad("as file %q: error %q, expected %q, report %q, expected %q", name, msg3, want, far3, far)
		}
	}
	out := "plain"
	if i := strings.Index(msg, "-> "); i >= 0 {
		out = strings.SplitN(msg[i+3:], "\n", 2)[0]
	} else if strings.Contains(msg, "no match found") {
		out = "no match"
	}
	return verdict{outcome: out}
}

func bigNumber(n *N) bool {
	return n.HasNum && (math.Abs(n.Num) >= 9.2e18)
}

func checkC25(doc string, ref refResult) verdict {
	c, ok := accepted(doc, ref)
	if !ok {
		return trivial
	}
	if anyNode(ref.tree, bigNumber) {
		return trivial // layout of the number itself is C26
	}
	s, err := format(c)
	if err != nil {
		return bad("%v", err)
	}
	want := refFormat(ref.tree)
	if s != want {
		kf := printerFinding(ref.tree)
		if kf == kfElse {
			kf = "" // the layout itself is not affected
		}
		return orKnown(kf, bad("output differs from the canonical layout: %s\nexpected:\n%s\ngot:\n%s", firstDiff(want, s), want, s))
	}
	return verdict{trivial: false}
}

func docMain(rule string, assume ...string) func(r *run) *report {
	return func(r *run) *report {
		res := runSharded(r)
		return &report{
			level:       "exploration",
			coverage:    explorationCoverage(res, rule),
			assumptions: append([]string{"the reference parser and formatter in /verif/mc (refparse.go, refformat.go) are the reading of grammar.treetop and of the layout the property states"}, assume...),
			violations:  res.Violations,
			known:       res.KnownEx,
		}
	}
}

func pick(tier int, names ...string) []class {
	var out []class
	for _, c := range allClasses(tier) {
		for _, n := range names {
			if c.name == n || strings.HasSuffix(n, "*") && strings.HasPrefix(c.name, n[:len(n)-1]) {
				out = append(out, c)
				break
			}
		}
	}
	return out
}

func init() {
	all := func(r *run) []class { return allClasses(r.tier) }
	reg := func(id string, f docCheckFn, sp func(r *run) []class, rule string) {
		checks[id] = &propCheck{main: docMain(rule), spaces: sp, check: docCase(f)}
	}
	reg("C01", checkC01, all, "every text of every listed space is parsed; verdict compared with the reference parser; every distinct text counts")
	reg("C02", checkC02, all, "every text of every listed space; non-trivial: accepted, tree compared node by node with the reference tree")
	reg("C03", checkC03, all, "every text with a comment of every listed space; non-trivial: accepted and at least one comment in a regular place")
	reg("C04", checkC04, all, "every text of every listed space; non-trivial: accepted, formatted, parsed again and compared with the reference tree of the original")
	reg("C05", checkC05, all, "every text of every listed space; non-trivial: accepted and not already canonical")
	reg("C06", checkC06, all, "every text with a comment of every listed space; non-trivial: accepted with a comment in a regular place, comments of the output compared node by node")
	reg("C07", checkC07, all, "every text of every listed space; non-trivial: accepted, position of every node compared")
	reg("C08", checkC08, all, "every text of every listed space, parsed with the option on and off; non-trivial: contains a comment sign")
	reg("C09", checkC09, all, "every text of every listed space, parsed with and without comments; non-trivial: contains a comment sign")
	reg("C10", checkC10, all, "every rejected text of every listed space: error and farthest failure report checked against the text, twice; non-trivial: rejected")
	reg("C25", checkC25, all, "every text of every listed space; non-trivial: accepted, output compared byte by byte with the reference layout")
	for id, open := range map[string]string{"C01": "", "C10": "open "} {
		c, open, want := checks[id], open, map[string]string{"": "accepted", "open ": "error"}[open]
		check := c.check
		c.spaces = func(r *run) []class { return append([]class{deepClass(open)}, all(r)...) }
		c.check = func(r *run) caseCheck { return deepCase(want, check(r)) }
	}
}
