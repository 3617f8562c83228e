package main

import (
	"math"
	"math/big"
	"sort"
	"strings"
	"unicode/utf8"
)

// The reference parser: a direct recursive descent reading of grammar.treetop (ordered choice) with the
// deviations stated in property C01. It shares no code with the implementation.

type warn struct{ off int }

type refResult struct {
	ok    bool
	tree  *N     // config node
	warns []warn // exceptional places with comments, in source order
	gaps  []gapInfo
}

type gapInfo struct {
	start, end int
	exc        bool
}

type refParser struct {
	s      string
	gaps   []gapInfo // gaps of the current path
	sticky bool      // an error that no alternative can undo
}

type cutErr struct{}

func (p *refParser) cut() { panic(cutErr{}) }

func refParse(s string) (r refResult) {
	if !utf8.ValidString(s) {
		return refResult{}
	}
	return refParseRaw(s)
}

func refParseRaw(s string) (r refResult) {
	p := &refParser{s: s}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(cutErr); ok {
				r = refResult{}
				return
			}
			panic(e)
		}
	}()
	tree := p.config()
	if tree == nil || p.sticky {
		return refResult{}
	}
	fillPos(s, tree)
	r = refResult{ok: true, tree: tree, gaps: p.gaps}
	seen := map[int]bool{}
	for _, g := range p.gaps {
		if g.exc && strings.Contains(s[g.start:g.end], "#") && !seen[g.start] {
			seen[g.start] = true
			r.warns = append(r.warns, warn{g.start})
		}
	}
	sort.SliceStable(r.warns, func(i, j int) bool { return r.warns[i].off < r.warns[j].off })
	return r
}

func (p *refParser) mark() int      { return len(p.gaps) }
func (p *refParser) rollback(m int) { p.gaps = p.gaps[:m] }
func (p *refParser) has(i int, t string) bool {
	return strings.HasPrefix(p.s[i:], t)
}

func isWS(c byte) bool { return c == ' ' || c == '\t' || c == '\r' || c == '\n' }

func (p *refParser) ws(i int) int {
	for i < len(p.s) && isWS(p.s[i]) {
		i++
	}
	return i
}

// commentLine: whitespace? "#" [^\r\n]* "\r"? ("\n" / EOF); returns -1 if there is none.
func (p *refParser) commentLine(i int) int {
	i = p.ws(i)
	if i >= len(p.s) || p.s[i] != '#' {
		return -1
	}
	for i < len(p.s) && p.s[i] != '\r' && p.s[i] != '\n' {
		i++
	}
	if i < len(p.s) && p.s[i] == '\r' {
		i++
	}
	if i == len(p.s) {
		return i
	}
	if p.s[i] == '\n' {
		return i + 1
	}
	return -1
}

// gap parses (comment / whitespace)* and returns its end and the comments in it.
func (p *refParser) gap(i int, exc bool) (int, []Cm) {
	start := i
	runEnd := i
	n := 0
	for {
		e := p.commentLine(runEnd)
		if e < 0 {
			break
		}
		n++
		runEnd = e
		if e == len(p.s) {
			break
		}
	}
	end := p.ws(runEnd)
	p.gaps = append(p.gaps, gapInfo{start, end, exc})
	if n == 0 || exc {
		return end, nil
	}
	var cs []Cm
	blank := false
	for k, line := range strings.Split(p.s[start:runEnd], "\n") {
		h := strings.IndexByte(line, '#')
		if h < 0 {
			if k > 0 && len(cs) > 0 {
				blank = true
			}
			continue
		}
		t := strings.TrimSuffix(line[h+1:], "\r")
		cs = append(cs, Cm{Text: strings.Trim(t, " "), Before: blank})
		blank = false
	}
	if runEnd < end && len(cs) > 0 {
		cs[len(cs)-1].After = true
	}
	return end, cs
}

// plain clears the blank line flag at the end, which only section comments have.
func plain(cs []Cm, first bool) []Cm {
	if len(cs) == 0 {
		return nil
	}
	cs = append([]Cm(nil), cs...)
	cs[len(cs)-1].After = false
	if first {
		cs[0].Before = true
	}
	return cs
}

func (p *refParser) config() *N {
	conf := &N{K: "config", Off: 0}
	secs := map[string][]*N{}
	i := 0
	count := 0
	for {
		m := p.mark()
		j, cs := p.gap(i, false)
		sec, k := p.section(j)
		if sec == nil {
			p.rollback(m)
			break
		}
		sec.Cs = cs
		secs[sec.T] = append(secs[sec.T], sec)
		i = k
		count++
	}
	j, cs := p.gap(i, false)
	if j != len(p.s) {
		return nil
	}
	if count > 0 {
		conf.Fs = plain(cs, true)
	}
	for _, t := range []string{"input", "filter", "output"} {
		conf.Ch = append(conf.Ch, secs[t]...)
	}
	return conf
}

func (p *refParser) section(i int) (*N, int) {
	for _, t := range []string{"input", "filter", "output"} {
		if !p.has(i, t) {
			continue
		}
		m := p.mark()
		j, _ := p.gap(i+len(t), true)
		if !p.has(j, "{") {
			p.rollback(m)
			return nil, i
		}
		n := &N{K: "section", T: t, Off: i}
		j = p.bops(j+1, n)
		j, cs := p.gap(j, false)
		if !p.has(j, "}") {
			p.rollback(m)
			return nil, i
		}
		n.Fs = plain(cs, false)
		return n, j + 1
	}
	return nil, i
}

// bops parses (_ branch_or_plugin)*.
func (p *refParser) bops(i int, parent *N) int {
	for {
		m := p.mark()
		j, cs := p.gap(i, false)
		n, k := p.branch(j)
		if n != nil {
			n.Ch[0].Cs = plain(cs, false)
		} else {
			p.rollback(m)
			j, cs = p.gap(i, false)
			n, k = p.plugin(j)
			if n == nil {
				p.rollback(m)
				return i
			}
			n.Cs = plain(cs, false)
		}
		parent.Ch = append(parent.Ch, n)
		i = k
	}
}

func (p *refParser) block(i int, n *N) int {
	// after "{": committed
	i = p.bops(i, n)
	i, cs := p.gap(i, false)
	if !p.has(i, "}") {
		p.cut()
	}
	n.Fs = plain(cs, false)
	return i + 1
}

func (p *refParser) branch(i int) (*N, int) {
	if !p.has(i, "if") {
		return nil, i
	}
	m := p.mark()
	j, _ := p.gap(i+2, true)
	cond, j := p.condition(j)
	if cond == nil {
		p.rollback(m)
		return nil, i
	}
	j, _ = p.gap(j, true)
	if !p.has(j, "{") {
		p.rollback(m)
		return nil, i
	}
	ib := &N{K: "if", Off: i, Ch: []*N{cond}}
	b := &N{K: "branch", Off: i, Ch: []*N{ib}}
	j = p.block(j+1, ib)
	for {
		m := p.mark()
		k, cs := p.gap(j, false)
		st := k
		if !p.has(k, "else") {
			p.rollback(m)
			break
		}
		k, _ = p.gap(k+4, true)
		if !p.has(k, "if") {
			p.rollback(m)
			break
		}
		k, _ = p.gap(k+2, true)
		cond, k := p.condition(k)
		if cond == nil {
			p.rollback(m)
			break
		}
		k, _ = p.gap(k, true)
		if !p.has(k, "{") {
			p.rollback(m)
			break
		}
		e := &N{K: "elseif", Off: st, Cs: plain(cs, false), Ch: []*N{cond}}
		j = p.block(k+1, e)
		b.Ch = append(b.Ch, e)
	}
	m = p.mark()
	k, cs := p.gap(j, false)
	st := k
	if p.has(k, "else") {
		k, _ = p.gap(k+4, true)
		if p.has(k, "{") {
			e := &N{K: "else", Off: st, Cs: plain(cs, false)}
			j = p.block(k+1, e)
			if len(e.Ch) == 0 && len(e.Cs) == 0 && len(e.Fs) == 0 {
				b.EmptyEls = true
			} else {
				b.Ch = append(b.Ch, e)
			}
			return b, j
		}
	}
	p.rollback(m)
	return b, j
}

func isNameCh(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '-'
}

// name returns the name as written, or "" with ok false.
func (p *refParser) name(i int) (string, int, bool) {
	j := i
	for j < len(p.s) && isNameCh(p.s[j]) {
		j++
	}
	if j > i {
		return p.s[i:j], j, true
	}
	if e, ok := p.str(i); ok {
		return p.s[i:e], e, true
	}
	return "", i, false
}

// str: quoted string starting at i; an unterminated one is fatal.
func (p *refParser) str(i int) (int, bool) {
	if i >= len(p.s) || p.s[i] != '"' && p.s[i] != '\'' {
		return i, false
	}
	return p.quoted(i), true
}

func (p *refParser) quoted(i int) int {
	q := p.s[i]
	j := i + 1
	for j < len(p.s) {
		if p.s[j] == '\\' && j+1 < len(p.s) && p.s[j+1] == q {
			j += 2
			continue
		}
		if p.s[j] == q {
			return j + 1
		}
		j++
	}
	p.cut()
	return -1
}

func (p *refParser) bareword(i int) (int, bool) {
	if i >= len(p.s) {
		return i, false
	}
	c := p.s[i]
	if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_') {
		return i, false
	}
	j := i + 1
	for j < len(p.s) && isNameCh(p.s[j]) && p.s[j] != '-' {
		j++
	}
	return j, j > i+1
}

func (p *refParser) number(i int) (*N, int) {
	j := i
	if p.has(j, "-") {
		j++
	}
	d := j
	for j < len(p.s) && p.s[j] >= '0' && p.s[j] <= '9' {
		j++
	}
	if j == d {
		return nil, i
	}
	if p.has(j, ".") {
		j++
		for j < len(p.s) && p.s[j] >= '0' && p.s[j] <= '9' {
			j++
		}
	}
	f, ok := refNumber(p.s[i:j])
	if !ok {
		p.sticky = true
	}
	return &N{K: "number", Num: f, HasNum: true, Off: i}, j
}

// refNumber: the double nearest to the decimal value (exact rational arithmetic).
func refNumber(t string) (float64, bool) {
	neg := strings.HasPrefix(t, "-")
	u := strings.TrimSuffix(strings.TrimPrefix(t, "-"), ".")
	var f float64
	if len(u) <= 15 && !strings.Contains(u, ".") {
		var v int64
		for i := 0; i < len(u); i++ {
			v = v*10 + int64(u[i]-'0')
		}
		f = float64(v)
	} else {
		r, ok := new(big.Rat).SetString(u)
		if !ok {
			panic("refNumber: " + t)
		}
		f, _ = r.Float64()
	}
	if math.IsInf(f, 0) {
		return 0, false
	}
	if neg {
		f = math.Copysign(f, -1)
	}
	return f, true
}

func (p *refParser) plugin(i int) (*N, int) {
	m := p.mark()
	name, j, ok := p.name(i)
	if !ok {
		return nil, i
	}
	j, _ = p.gap(j, true)
	if !p.has(j, "{") {
		p.rollback(m)
		return nil, i
	}
	n := &N{K: "plugin", T: name, Off: i}
	j++
	m2 := p.mark()
	k, cs := p.gap(j, false)
	if a, k := p.attribute(k); a != nil {
		a.Cs = plain(cs, false)
		n.Ch = append(n.Ch, a)
		j = k
		for {
			m := p.mark()
			k := p.ws(j)
			if k == j {
				break
			}
			k, cs := p.gapFrom(j, k)
			a, k := p.attribute(k)
			if a == nil {
				p.rollback(m)
				break
			}
			a.Cs = plain(cs, true)
			n.Ch = append(n.Ch, a)
			j = k
		}
	} else {
		p.rollback(m2)
	}
	j, cs = p.gap(j, false)
	if !p.has(j, "}") {
		p.cut()
	}
	n.Fs = plain(cs, false)
	return n, j + 1
}

// gapFrom: the separating whitespace i..k was consumed on its own.
func (p *refParser) gapFrom(i, k int) (int, []Cm) {
	e, cs := p.gap(k, false)
	return e, cs
}

func (p *refParser) attribute(i int) (*N, int) {
	m := p.mark()
	name, j, ok := p.name(i)
	if !ok {
		return nil, i
	}
	j, _ = p.gap(j, true)
	if !p.has(j, "=>") {
		p.rollback(m)
		return nil, i
	}
	j, _ = p.gap(j+2, true)
	v, j := p.value(j, true)
	if v == nil {
		p.rollback(m)
		return nil, i
	}
	if v.K == "plugin" {
		v = &N{K: "pluginattr", Ch: []*N{v}}
	}
	v.Name = name
	v.Off = i
	return v, j
}

// value: plugin / bareword / string / number / array / hash.
func (p *refParser) value(i int, pluginOK bool) (*N, int) {
	m := p.mark()
	// the plugin alternative starts with optional whitespace, which the caller has consumed already
	if n, j := p.plugin(i); n != nil {
		if !pluginOK {
			p.sticky = true
		}
		return n, j
	}
	p.rollback(m)
	if j, ok := p.bareword(i); ok {
		return &N{K: "string", T: "bare:" + p.s[i:j], Off: i}, j
	}
	if n, j := p.stringValue(i); n != nil {
		return n, j
	}
	if n, j := p.number(i); n != nil {
		return n, j
	}
	if n, j := p.array(i); n != nil {
		return n, j
	}
	return p.hash(i)
}

func (p *refParser) stringValue(i int) (*N, int) {
	e, ok := p.str(i)
	if !ok {
		return nil, i
	}
	style := "double:"
	if p.s[i] == '\'' {
		style = "single:"
	}
	return &N{K: "string", T: style + p.s[i+1:e-1], Off: i}, e
}

func (p *refParser) array(i int) (*N, int) {
	if !p.has(i, "[") {
		return nil, i
	}
	n := &N{K: "array", Off: i}
	j := i + 1
	m := p.mark()
	k, cs := p.gap(j, false)
	if v, k := p.value(k, false); v != nil {
		v.Cs = plain(cs, false)
		n.Ch = append(n.Ch, v)
		j = k
		for {
			m := p.mark()
			k, _ := p.gap(j, true)
			if !p.has(k, ",") {
				p.rollback(m)
				break
			}
			k, cs := p.gap(k+1, false)
			v, k := p.value(k, false)
			if v == nil {
				p.rollback(m)
				break
			}
			v.Cs = plain(cs, true)
			n.Ch = append(n.Ch, v)
			j = k
		}
	} else {
		p.rollback(m)
	}
	j, cs = p.gap(j, false)
	if !p.has(j, "]") {
		p.cut()
	}
	n.Fs = plain(cs, false)
	return n, j + 1
}

func (p *refParser) hash(i int) (*N, int) {
	if !p.has(i, "{") {
		return nil, i
	}
	n := &N{K: "hash", Off: i}
	j := i + 1
	for first := true; ; first = false {
		m := p.mark()
		k := j
		if !first {
			k = p.ws(j)
			if k == j {
				break
			}
		}
		k, cs := p.gap(k, false)
		e, k := p.hashEntry(k)
		if e == nil {
			p.rollback(m)
			break
		}
		e.Cs = plain(cs, !first)
		n.Ch = append(n.Ch, e)
		j = k
	}
	j, cs := p.gap(j, false)
	if !p.has(j, "}") {
		p.cut()
	}
	n.Fs = plain(cs, false)
	return n, j + 1
}

func (p *refParser) hashEntry(i int) (*N, int) {
	m := p.mark()
	key, j := p.number(i)
	if key == nil {
		if e, ok := p.bareword(i); ok {
			key, j = &N{K: "string", T: "bare:" + p.s[i:e], Off: i}, e
		} else {
			key, j = p.stringValue(i)
		}
	}
	if key == nil {
		return nil, i
	}
	j, _ = p.gap(j, true)
	if !p.has(j, "=>") {
		p.rollback(m)
		return nil, i
	}
	j, _ = p.gap(j+2, true)
	v, j := p.value(j, false)
	if v == nil {
		p.rollback(m)
		return nil, i
	}
	return &N{K: "entry", Off: i, Ch: []*N{key, v}}, j
}

func (p *refParser) condition(i int) (*N, int) {
	e, j := p.expression(i)
	if e == nil {
		return nil, i
	}
	n := &N{K: "condition", Off: i, Ch: []*N{e}}
	for {
		m := p.mark()
		k, _ := p.gap(j, true)
		op := ""
		for _, o := range []string{"and", "or", "xor", "nand"} {
			if p.has(k, o) {
				op = o
				break
			}
		}
		if op == "" {
			p.rollback(m)
			return n, j
		}
		opOff := k
		k, _ = p.gap(k+len(op), true)
		e, k := p.expression(k)
		if e == nil {
			p.rollback(m)
			return n, j
		}
		n.Ch = append(n.Ch, &N{K: "boolop", T: op, Off: opOff}, e)
		j = k
	}
}

func (p *refParser) expression(i int) (*N, int) {
	m := p.mark()
	if p.has(i, "(") {
		j, _ := p.gap(i+1, true)
		if c, j := p.condition(j); c != nil {
			j, _ = p.gap(j, true)
			if p.has(j, ")") {
				return &N{K: "paren", Off: i, Ch: []*N{c}}, j + 1
			}
		}
		p.rollback(m)
		return nil, i // no other alternative starts with "("
	}
	if p.has(i, "!") {
		j, _ := p.gap(i+1, true)
		if p.has(j, "(") {
			j, _ = p.gap(j+1, true)
			if c, j := p.condition(j); c != nil {
				j, _ = p.gap(j, true)
				if !p.has(j, ")") {
					p.cut()
				}
				return &N{K: "negparen", Off: i, Ch: []*N{c}}, j + 1
			}
			p.rollback(m)
			return nil, i
		}
		if s, j := p.selector(j); s != nil {
			return &N{K: "negselector", Off: i, Ch: []*N{s}}, j
		}
		p.rollback(m)
		return nil, i
	}
	lv, j := p.rvalue(i)
	if lv == nil {
		p.rollback(m)
		return nil, i
	}
	m2 := p.mark()
	// binary forms in the order in, not in, compare, regexp; the operator decides between them
	if k, op := p.binop(j); op != "" {
		opOff := k.off
		e, _ := p.gap(k.end, true)
		var rv *N
		var end int
		if op == "=~" || op == "!~" {
			if rv, end = p.stringValue(e); rv == nil {
				rv, end = p.regexp(e)
			}
		} else {
			rv, end = p.rvalue(e)
		}
		if rv != nil {
			switch op {
			case "in":
				return &N{K: "in", Off: i, Ch: []*N{lv, rv}}, end
			case "not in":
				return &N{K: "notin", Off: i, Ch: []*N{lv, rv}}, end
			case "=~", "!~":
				return &N{K: "match", Off: i, Ch: []*N{lv, {K: "op", T: op, Off: opOff}, rv}}, end
			}
			return &N{K: "compare", Off: i, Ch: []*N{lv, {K: "op", T: op, Off: opOff}, rv}}, end
		}
		p.rollback(m2)
	}
	return &N{K: "rvalue", Off: i, Ch: []*N{lv}}, j
}

type opAt struct{ off, end int }

// binop finds the operator of a binary expression behind the left value.
func (p *refParser) binop(j int) (opAt, string) {
	k, _ := p.gap(j, true)
	if p.has(k, "in") {
		return opAt{k, k + 2}, "in"
	}
	if p.has(k, "not ") {
		e, _ := p.gap(k+4, true)
		if p.has(e, "in") {
			return opAt{k, e + 2}, "not in"
		}
	}
	for _, o := range []string{"==", "!=", "<=", ">=", "<", ">", "=~", "!~"} {
		if p.has(k, o) {
			return opAt{k, k + len(o)}, o
		}
	}
	return opAt{}, ""
}

// rvalue: string / number / selector / array / regexp.
func (p *refParser) rvalue(i int) (*N, int) {
	if n, j := p.stringValue(i); n != nil {
		return n, j
	}
	if n, j := p.number(i); n != nil {
		return n, j
	}
	if n, j := p.selector(i); n != nil {
		return n, j
	}
	if n, j := p.array(i); n != nil {
		return n, j
	}
	return p.regexp(i)
}

func (p *refParser) regexp(i int) (*N, int) {
	if !p.has(i, "/") {
		return nil, i
	}
	e := p.quoted(i)
	return &N{K: "regexp", T: p.s[i+1 : e-1], Off: i}, e
}

func (p *refParser) selector(i int) (*N, int) {
	n := &N{K: "selector", Off: i}
	j := i
	for p.has(j, "[") {
		k := j + 1
		for k < len(p.s) && p.s[k] != '[' && p.s[k] != ']' && p.s[k] != ',' {
			k++
		}
		if k == j+1 || k >= len(p.s) || p.s[k] != ']' {
			break
		}
		n.Ch = append(n.Ch, &N{K: "element", T: p.s[j+1 : k], Off: j})
		j = k + 1
	}
	if len(n.Ch) == 0 {
		return nil, i
	}
	return n, j
}
