package main

import (
	"errors"
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	pkgerrors "github.com/pkg/errors"

	config "github.com/breml/logstash-config"
	"github.com/breml/logstash-config/ast"
	"github.com/breml/logstash-config/ast/astutil"
)

// ---- C15: escape, unescape ----

func refEscape(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\r':
			b.WriteString(`\r`)
		case '\n':
			b.WriteString(`\n`)
		case '\t':
			b.WriteString(`\t`)
		case '\\', '"', '\'':
			b.WriteByte('\\')
			b.WriteByte(s[i])
		default:
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

func refUnescape(s string) string {
	table := map[byte]byte{'r': '\r', 'n': '\n', 't': '\t', '\\': '\\', '"': '"', '\'': '\''}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) {
			if r, ok := table[s[i+1]]; ok {
				b.WriteByte(r)
			} else {
				b.WriteByte(s[i])
				b.WriteByte(s[i+1])
			}
			i++
			continue
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

func guard(f func() verdict) (v verdict) {
	defer func() {
		if e := recover(); e != nil {
			v = bad("panic: %v", e)
		}
	}()
	return f()
}

func checkC15(s string) verdict {
	return guard(func() verdict {
		esc := astutil.Escape(s)
		if want := refEscape(s); esc != want {
			return bad("Escape(%q) = %q, the table says %q", s, esc, want)
		}
		if back := astutil.Unescape(esc); back != s {
			return bad("Unescape(Escape(%q)) = %q", s, back)
		}
		un := astutil.Unescape(s)
		if want := refUnescape(s); un != want {
			return bad("Unescape(%q) = %q, the table says %q", s, un, want)
		}
		o := "unchanged"
		if esc != s {
			o = "escaped"
		}
		if un != s {
			o += ",unescaped"
		}
		return verdict{outcome: o}
	})
}

func byteStrings() []string {
	var out []string
	for i := 0; i < 256; i++ {
		out = append(out, string([]byte{byte(i)}))
	}
	return out
}

func spacesC15(r *run) []class {
	n := 5
	if r.tier > 0 {
		n = 6
	}
	esc := []string{`\`, `"`, `'`, "\n", "\r", "\t", "n", "r", "t", "x", "é", "\xff"}
	return []class{
		{"bytes", "all strings of at most two bytes", func(e func(string)) { seqs(byteStrings(), 2, "", "", e) }},
		{"after-backslash", "all pairs of bytes after one, two and three backslashes", func(e func(string)) {
			for _, p := range []string{`\`, `\\`, `\\\`} {
				seqs(byteStrings(), 2, p, "", e)
				seqs(byteStrings(), 1, p, p+`n`, e)
			}
		}},
		{"runes", "every rune, alone and after a backslash", func(e func(string)) {
			for c := rune(0); c <= utf8.MaxRune; c++ {
				if c > 0x3000 && c < 0x1f000 && c%7 != 0 && r.tier == 0 {
					continue
				}
				e(string(c))
				e(`\` + string(c))
			}
		}},
		{"words", fmt.Sprintf("all words of at most %d symbols over %q", n, esc), func(e func(string)) { seqs(esc, n, "", "", e) }},
		{"deep", "words of at most 9 (thorough 12) symbols over backslash, n, quote", func(e func(string)) {
			seqs([]string{`\`, `n`, `"`}, 9+3*r.tier, "", "", e)
		}},
		{"long", "escape sequences at every offset of long texts", func(e func(string)) {
			for _, q := range []string{`\`, `"`, "\n", `\n`, `\\`, "é", "\xff"} {
				for _, n := range []int{15, 16, 17, 63, 64, 65, 255, 256, 257, 1023, 1024, 1025, 4096} {
					for _, at := range []int{0, 1, n / 2, n - 1, n} {
						e(strings.Repeat("x", at) + q + strings.Repeat("y", n-at))
					}
					e(strings.Repeat(q, n))
				}
			}
		}},
		boundaryClass(r.tier, false, []string{`\n`, `\\`, `\\n`, `\"`, `\é`, "\n", `\`, "é\n", "\xff\\t", `\x\n`}),
	}
}

// boundaryClass: texts with a unit at every offset around the sizes at which an implementation may change its way of
// working (powers of two and round numbers).
func boundaryClass(tier int, heavy bool, units []string) class {
	var at []int
	for p := 3; p <= 16+tier; p++ {
		at = append(at, 1<<p)
	}
	at = append(at, 10, 20, 50, 100, 200, 500, 1000, 2000, 5000, 10000, 100000)
	if tier > 0 {
		at = append(at, 1<<20, 24, 48, 96, 384, 768, 1536, 3072, 6144, 12288, 24576, 40000, 49152, 50000, 60000)
	}
	return class{"boundaries", "units at every offset within 4 bytes of the sizes 8 to 2^16 (thorough 2^20), at the end, in the middle and twice", func(e func(string)) {
		for _, n := range at {
			for d := -4; d <= 2; d++ {
				few := heavy && n > 5000 && tier == 0
				if few && (d < -1 || d > 0) {
					continue
				}
				x := strings.Repeat("x", n+d)
				for _, u := range units {
					e(x + u)
					e(x + u + "yy")
					if few {
						continue
					}
					e(x + u + x + u + "z")
					if n < 1000 || tier > 0 {
						e(strings.Repeat("é", (n+d)/2) + u + x)
					}
				}
			}
		}
	}}
}

// ---- C16: quoting ----

// refLiteral: is q+value+q one string literal of the grammar with exactly that value?
func refLiteral(value string, t int) (string, bool) {
	switch t {
	case ast.DoubleQuoted, ast.SingleQuoted:
		q := byte('"')
		if t == ast.SingleQuoted {
			q = '\''
		}
		for i := 0; i < len(value); i++ {
			if value[i] == q && (i == 0 || value[i-1] != '\\') {
				return "", false
			}
		}
		if strings.HasSuffix(value, `\`) {
			return "", false
		}
		return string(q) + value + string(q), true
	default:
		if len(value) < 2 {
			return "", false
		}
		for i := 0; i < len(value); i++ {
			c := value[i]
			letter := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_'
			if !letter && (i == 0 || c < '0' || c > '9') {
				return "", false
			}
		}
		return value, true
	}
}

var quoteContexts = []struct {
	name, pre, post string
	pick            func(c ast.Config) ast.Attribute
}{
	{"attribute", "filter{p{a=>", "}}", func(c ast.Config) ast.Attribute {
		return c.Filter[0].BranchOrPlugins[0].(ast.Plugin).Attributes[0]
	}},
	{"array", "filter{p{a=>[1,", ",2] b=>3}}", func(c ast.Config) ast.Attribute {
		return c.Filter[0].BranchOrPlugins[0].(ast.Plugin).Attributes[0].(ast.ArrayAttribute).Value()[1]
	}},
	{"hash", "filter{p{a=>{kk=>", " } b=>3}}", func(c ast.Config) ast.Attribute {
		return c.Filter[0].BranchOrPlugins[0].(ast.Plugin).Attributes[0].(ast.HashAttribute).Value()[0].Value
	}},
}

func readBack(lit string, t int, value string) string {
	for i, k := range quoteContexts {
		if i > 0 && len(value) > 4 {
			break
		}
		src := k.pre + lit + k.post
		p := parseDoc(src)
		if !p.ok {
			return fmt.Sprintf("%s: %q is not accepted: %s", k.name, src, p.verdict())
		}
		var a ast.Attribute
		func() {
			defer func() { recover() }()
			a = k.pick(p.conf)
		}()
		s, ok := a.(ast.StringAttribute)
		if !ok {
			return fmt.Sprintf("%s: %q does not hold one string there but %T", k.name, src, a)
		}
		if s.Value() != value || int(s.StringAttributeType()) != t {
			return fmt.Sprintf("%s: %q reads back as %q (style %q), not as %q", k.name, src, s.Value(), s.StringAttributeType(), value)
		}
	}
	return ""
}

func refQuoteEscape(value string, t int) string {
	var b strings.Builder
	if t == ast.Bareword {
		for i, c := range value {
			ok := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || i > 0 && c >= '0' && c <= '9'
			if !ok {
				c = '_'
			}
			b.WriteRune(c)
		}
		return b.String()
	}
	q := byte('"')
	if t == ast.SingleQuoted {
		q = '\''
	}
	for i := 0; i < len(value); i++ {
		if value[i] == q && (i == 0 || value[i-1] != '\\') {
			b.WriteByte('\\')
		}
		b.WriteByte(value[i])
	}
	return b.String()
}

func checkC16(value string) verdict {
	return guard(func() verdict {
		if !utf8.ValidString(value) {
			return trivial
		}
		out := ""
		for _, t := range []int{ast.DoubleQuoted, ast.SingleQuoted, ast.Bareword} {
			got, err := astutil.Quote(value, ast.StringAttributeType(t))
			want, ok := refLiteral(value, t)
			if (err == nil) != ok {
				return bad("Quote(%q, %d): error %v, but a literal with this value %s", value, t, err, map[bool]string{true: "exists: " + want, false: "does not exist"}[ok])
			}
			out += map[bool]string{true: "q", false: "-"}[ok]
			if ok {
				if s := readBack(got, t, value); s != "" {
					return bad("Quote(%q, %d) = %q: %s", value, t, got, s)
				}
			}
			if t != ast.Bareword && strings.HasSuffix(value, `\`) || t == ast.Bareword && utf8.RuneCountInString(value) < 2 {
				continue
			}
			esc := astutil.QuoteWithEscape(value, ast.StringAttributeType(t))
			if ok && esc == got && refQuoteEscape(value, t) == value {
				continue // read back above
			}
			if s := readBack(esc, t, refQuoteEscape(value, t)); s != "" {
				return bad("QuoteWithEscape(%q, %d) = %q: %s", value, t, esc, s)
			}
		}
		return verdict{outcome: out}
	})
}

func spacesC16(r *run) []class {
	n := 5
	if r.tier > 0 {
		n = 6
	}
	al := []string{`"`, `'`, `\`, "a", "0", "_", "\n", " ", "é"}
	ascii := []string{}
	for i := 0; i < 128; i++ {
		ascii = append(ascii, string(rune(i)))
	}
	return []class{
		{"ascii", "all strings of at most two ASCII characters", func(e func(string)) { seqs(ascii, 2, "", "", e) }},
		{"words", fmt.Sprintf("all words of at most %d symbols over %q", n, al), func(e func(string)) { seqs(al, n, "", "", e) }},
		{"quotes", "words of at most 8 (thorough 10) symbols over both quotes and backslash", func(e func(string)) {
			seqs([]string{`"`, `\`, `x`}, 8+2*r.tier, "", "", e)
			seqs([]string{`'`, `\`, `x`}, 8+2*r.tier, "", "", e)
		}},
		{"syntax", "words of at most 3 symbols over the syntax characters of the language", func(e func(string)) {
			seqs([]string{"#", "}", "]", "=>", ",", "/", "\n", `"`, `'`, "if", "and", "[", "{", "z"}, 3+r.tier, "", "", e)
		}},
		{"runes", "runes in the middle, at the start and end of a value", func(e func(string)) {
			for c := rune(0); c <= utf8.MaxRune; c++ {
				if c > 0x400 && c%97 != 0 && r.tier == 0 {
					continue
				}
				if r.tier > 0 && c > 0x3000 && c%11 != 0 {
					continue
				}
				s := string(c)
				e("a" + s + "b")
				e(s + "ab")
				e("ab" + s)
			}
		}},
		boundaryClass(r.tier, true, []string{``, `"`, `'`, `\"`, `\\'`, "0", "é", "-", "\n", `\`, `""`, `'\''`}),
	}
}

// ---- C18: id lookup ----

type idAttr struct {
	sym  string
	attr ast.Attribute
	id   int // 0: no id, 1: string id, 2: id of another type
	val  string
}

func idAttrs() []idAttr {
	str := func(n, v string, t int) ast.Attribute {
		return ast.NewStringAttribute(n, v, ast.StringAttributeType(t))
	}
	nested := ast.NewHashAttribute("h", ast.NewHashEntry(ast.NewStringAttribute("", "id", ast.Bareword), str("", "no", 1)))
	return []idAttr{
		{"d", str("id", "dd", ast.DoubleQuoted), 1, "dd"},
		{"x", nil, 0, ""},
		{"n", ast.NewNumberAttribute("id", 3), 2, ""},
		{"o", str("other", "id", ast.DoubleQuoted), 0, ""},
		{"s", str("id", "ss", ast.SingleQuoted), 1, "ss"},
		{"b", str("id", "bb", ast.Bareword), 1, "bb"},
		{"e", str("id", "", ast.DoubleQuoted), 1, ""},
		{"q", str(`"id"`, "qq", ast.DoubleQuoted), 1, "qq"},
		{"r", str(`'id'`, "rr", ast.SingleQuoted), 1, "rr"},
		{"a", ast.NewArrayAttribute("id", str("", "no", 1)), 2, ""},
		{"h", ast.NewHashAttribute("id"), 2, ""},
		{"p", ast.NewPluginAttribute("id", ast.NewPlugin("json", str("id", "no", 1))), 2, ""},
		{"P", ast.NewPluginAttribute("codec", ast.NewPlugin("json", str("id", "no", 1))), 0, ""},
		{"H", nested, 0, ""},
		{"U", str("ID", "no", ast.DoubleQuoted), 0, ""},
		{"v", str("ids", "no", ast.DoubleQuoted), 0, ""},
		{"w", str(`"id `, "no", ast.DoubleQuoted), 0, ""},
		{"m", str(`"id'`, "no", ast.DoubleQuoted), 0, ""},
		{"A", ast.NewArrayAttribute("arr", str("id", "no", 1)), 0, ""},
	}
}

type customNF struct{}

func (customNF) Error() string { return "custom" }
func (customNF) NotFound()     {}

type customUnwrap struct{ err error }

func (c customUnwrap) Error() string { return "wrapped" }
func (c customUnwrap) Unwrap() error { return c.err }

var errBases = []struct {
	sym string
	err error
	nf  bool
}{
	{"F", ast.NotFoundErrorf("x %d", 1), true},
	{"N", ast.NewNotFoundError(errors.New("y")), true},
	{"I", func() error { _, err := ast.NewPlugin("p").ID(); return err }(), true},
	{"C", customNF{}, true},
	{"P", errors.New("not found: x"), false},
	{"T", func() error { _, err := ast.NewPlugin("p", ast.NewNumberAttribute("id", 1)).ID(); return err }(), false},
	{"O", os.ErrNotExist, false},
	{"Z", nil, false},
}

// wrappers: f maps an error, keep says what happens to a not-found error inside (1 stays, 0 is hidden, 2 becomes one).
var errWraps = []struct {
	sym  string
	f    func(error) error
	keep int
}{
	{"w", func(e error) error { return fmt.Errorf("w: %w", e) }, 1},
	{"p", func(e error) error { return pkgerrors.Wrap(e, "p") }, 1},
	{"m", func(e error) error { return pkgerrors.WithMessage(e, "m") }, 1},
	{"u", func(e error) error { return customUnwrap{e} }, 1},
	{"j", func(e error) error { return errors.Join(errors.New("other"), e) }, 1},
	{"v", func(e error) error { return fmt.Errorf("v: %v", e) }, 0},
	{"n", func(e error) error { return ast.NewNotFoundError(e) }, 2},
	{"f", func(e error) error { return ast.NotFoundErrorf("f: %v", e) }, 3},
}

func checkC18(c string) verdict {
	return guard(func() verdict {
		if strings.HasPrefix(c, "err:") {
			b := c[4]
			var err error
			nf := false
			for _, x := range errBases {
				if x.sym[0] == b {
					err, nf = x.err, x.nf
				}
			}
			for i := 5; i < len(c); i++ {
				for _, w := range errWraps {
					if w.sym[0] != c[i] {
						continue
					}
					nilBefore := err == nil
					err = w.f(err)
					switch {
					case w.keep == 2 && nilBefore:
						if err != nil {
							return bad("NewNotFoundError(nil) is not nil")
						}
						nf = false
					case w.keep == 2, w.keep == 3:
						nf = true
					case w.keep == 0:
						nf = false
					}
				}
			}
			if got := ast.IsNotFoundError(err); got != nf {
				return bad("IsNotFoundError(%v) = %v for %s, want %v", err, got, c, nf)
			}
			return verdict{outcome: fmt.Sprintf("not found: %v", nf)}
		}
		if strings.HasPrefix(c, "name:") || strings.HasPrefix(c, "text:") {
			return checkIDText(c)
		}
		return checkIDEdits(expandRep(c))
	})
}

// checkIDText: "name:" style name ";" value style value, a plugin built with one attribute of this name; "text:" followed
// by symbols of idTexts, a plugin read from a text.
func checkIDText(c string) verdict {
	var p ast.Plugin
	kind, val := 0, ""
	if strings.HasPrefix(c, "name:") {
		name, v, _ := strings.Cut(c[6:], ";")
		if name == "id" {
			kind, val = 1, v[1:]
		}
		if q := c[5:6]; q != "b" {
			name = q + name + q
		}
		t := map[byte]int{'"': 1, '\'': 2, 'b': 3}[v[0]]
		p = ast.NewPlugin("p", ast.NewStringAttribute(name, v[1:], []ast.StringAttributeType{0, ast.DoubleQuoted, ast.SingleQuoted, ast.Bareword}[t]))
	} else {
		doc := "filter{if 1{p{"
		for _, s := range c[5:] {
			t := idTexts[string(s)]
			doc += t.text + "\n"
			if kind == 0 && t.id != 0 {
				kind, val = t.id, t.val
			}
		}
		doc = valid(doc + "}}}")
		v, err := config.Parse(docName, []byte(doc))
		if err != nil {
			return bad("%q is rejected: %v", doc, err)
		}
		p = v.(ast.Config).Filter[0].BranchOrPlugins[0].(ast.Branch).IfBlock.Block[0].(ast.Plugin)
	}
	before := fmt.Sprintf("%#v", p)
	id, err := p.ID()
	switch {
	case fmt.Sprintf("%#v", p) != before:
		return bad("looking up the id changes the plugin")
	case kind == 0 && (err == nil || !ast.IsNotFoundError(err) || id != ""):
		return bad("ID of a plugin without id attribute: %q, %v", id, err)
	case kind == 1 && (err != nil || id != val):
		return bad("ID is %q, %v, expected %q", id, err, val)
	case kind == 2 && (err == nil || ast.IsNotFoundError(err)):
		return bad("ID of a plugin whose id is not a string: %q, %v", id, err)
	}
	return verdict{outcome: []string{"not found", "found", "other type"}[kind]}
}

var idTexts = map[string]struct {
	text string
	id   int
	val  string
}{
	"a": {"id => \"x y\"", 1, "x y"},
	"b": {"\"id\" => 'z'", 1, "z"},
	"c": {"'id' #c\n => #d\n bare", 1, "bare"},
	"d": {"# id => \"no\"\n other => \"id\"", 0, ""},
	"e": {"id => 7", 2, ""},
	"f": {"\"id\" => [\"x\"]", 2, ""},
	"g": {"'id' => { id => \"x\" }", 2, ""},
	"h": {"id => json { id => \"x\" }", 2, ""},
	"i": {"codec => json { id => \"x\" }", 0, ""},
	"j": {"hh => { \"id\" => \"x\" }", 0, ""},
	"k": {"\"'id'\" => \"no\"", 0, ""},
	"l": {"Id => \"no\"", 0, ""},
	"m": {"id => \"a\\\"b\\n\n#c\"", 1, "a\\\"b\\n\n#c"},
	"n": {"\" id\" => \"no\"", 0, ""},
	"o": {"\"\" => \"no\"", 0, ""},
	"p": {"id-1 => \"no\"", 0, ""},
}

// expandRep: rep: SYM COUNT ";" symbols, the first symbol COUNT times, then the others
func expandRep(c string) string {
	if strings.HasPrefix(c, "rep:") {
		n, rest, _ := strings.Cut(c[5:], ";")
		k, _ := strconv.Atoi(n)
		c = strings.Repeat(c[4:5], k) + rest
	}
	return c
}

var idKinds = func() (m [256]*idAttr) {
	for _, a := range idAttrs() {
		a := a
		m[a.sym[0]] = &a
	}
	return
}()

// checkIDEdits asks for the id of a plugin with the given attributes, and again after its list was edited in place.
func checkIDEdits(c string) verdict {
	list := []*idAttr{}
	p := ast.NewPlugin("p")
	for i := 0; i < len(c); i++ {
		list = append(list, idKinds[c[i]])
		p.Attributes = append(p.Attributes, idKinds[c[i]].attr)
	}
	ask := func(step string) (string, string) {
		kind, val := 0, ""
		for _, a := range list {
			if a.id != 0 {
				kind, val = a.id, a.val
				break
			}
		}
		id, err := p.ID()
		switch kind {
		case 0:
			if err == nil || !ast.IsNotFoundError(err) || id != "" {
				return "", fmt.Sprintf("%sID of a plugin without id attribute: %q, %v", step, id, err)
			}
			return "not found", ""
		case 1:
			if err != nil || id != val {
				return "", fmt.Sprintf("%sID is %q, %v, expected %q", step, id, err, val)
			}
			return "found", ""
		}
		if err == nil || ast.IsNotFoundError(err) {
			return "", fmt.Sprintf("%sID of a plugin whose id is not a string: %q, %v", step, id, err)
		}
		return "other type", ""
	}
	v := verdict{}
	var m string
	if v.outcome, m = ask(""); m != "" {
		return bad("%s", m)
	}
	set := func(i int, a *idAttr) { list[i], p.Attributes[i] = a, a.attr }
	n := len(list)
	for _, i := range []int{0, n / 2, n - 1} {
		if i < 0 || i >= n {
			continue
		}
		old := list[i]
		for _, k := range "esno" {
			set(i, idKinds[k])
			if _, m := ask(fmt.Sprintf("after attribute %d was replaced by kind %c: ", i, k)); m != "" {
				return bad("%s", m)
			}
		}
		set(i, old)
		if _, m := ask("after the attribute was put back: "); m != "" {
			return bad("%s", m)
		}
	}
	for _, k := range "on" {
		list, p.Attributes = append(list, idKinds[k]), append(p.Attributes, idKinds[k].attr)
		if _, m := ask("after an attribute was added: "); m != "" {
			return bad("%s", m)
		}
	}
	for len(list) > n-2 && len(list) > 0 {
		list, p.Attributes = append(list[:0], list[1:]...), append(p.Attributes[:0], p.Attributes[1:]...)
		if _, m := ask("after the first attribute was removed: "); m != "" {
			return bad("%s", m)
		}
	}
	return v
}

func spacesC18(r *run) []class {
	var at, ws []string
	for _, a := range idAttrs() {
		at = append(at, a.sym)
	}
	for _, w := range errWraps {
		ws = append(ws, w.sym)
	}
	return []class{
		{"attributes", fmt.Sprintf("all attribute lists of at most %d entries over %d kinds of attributes", 4+r.tier, len(at)), func(e func(string)) {
			seqs(at, 4+r.tier, "", "", e)
		}},
		{"long", "each kind of attribute 1 to 70 times (and 255 to 1000), followed by at most two others; the same for wrappings of errors", func(e func(string)) {
			var ks []int
			for k := 1; k <= 70; k++ {
				ks = append(ks, k)
			}
			ks = append(ks, 127, 128, 255, 256, 257, 511, 512, 1000)
			for _, a := range at {
				for _, k := range ks {
					e(fmt.Sprintf("rep:%s%d;", a, k))
					for _, b := range at {
						e(fmt.Sprintf("rep:%s%d;%s", a, k, b))
						if k%16 < 2 || r.tier > 0 {
							for _, c := range at {
								e(fmt.Sprintf("rep:%s%d;%s%s", a, k, b, c))
							}
						}
					}
				}
			}
			for _, b := range errBases {
				for _, w := range ws {
					for k := 5; k < 100; k += 1 + k/20 {
						e("err:" + b.sym + strings.Repeat(w, k))
						for _, v := range ws {
							e("err:" + b.sym + strings.Repeat(w, k) + v)
							e("err:" + b.sym + v + strings.Repeat(w, k))
						}
					}
				}
			}
		}},
		{"names", "all names of at most 4 characters over those of id, similar letters, digits, blanks and quotes, in each style, with values of each style", func(e func(string)) {
			seqs([]string{"i", "d", "I", "D", "_", "1", " ", "'", "\"", "ı", "\u200b"}, 4, "", "", func(n string) {
				for _, q := range []string{"b", "\"", "'"} {
					if strings.Contains(n, q) || q == "b" && strings.ContainsAny(n, " '\"ı\u200b") {
						continue
					}
					for _, v := range []string{"\"x", "'y z", "bzz", "\"", "\"id", "\"" + strings.Repeat("v", 300)} {
						e("name:" + q + n + ";" + v)
					}
				}
			})
		}},
		{"texts", fmt.Sprintf("plugins read from a text, all lists of at most %d of %d attributes", 4+r.tier, len(idTexts)), func(e func(string)) {
			var l []string
			for k := range idTexts {
				l = append(l, k)
			}
			sort.Strings(l)
			seqs(l, 4+r.tier, "text:", "", e)
		}},
		{"errors", fmt.Sprintf("all wrappings of depth at most %d of %d base errors", 4+2*r.tier, len(errBases)), func(e func(string)) {
			for _, b := range errBases {
				seqs(ws, 4+2*r.tier, "err:"+b.sym, "", e)
			}
		}},
	}
}

func caseOf(f func(string) verdict) func(*run) caseCheck {
	return func(*run) caseCheck { return f }
}

func explorationMain(rule string, assume ...string) func(r *run) *report {
	return func(r *run) *report {
		res := runSharded(r)
		return &report{level: "exploration", coverage: explorationCoverage(res, rule), assumptions: assume, violations: res.Violations, known: res.KnownEx}
	}
}

func init() {
	checks["C15"] = &propCheck{explorationMain("every string of every listed space is escaped and unescaped and compared with a table driven loop; distinct strings count"), spacesC15, caseOf(checkC15)}
	checks["C16"] = &propCheck{explorationMain("every value of every listed space is quoted in all three styles, with and without escaping, and parsed back inside an attribute, an array and a hash; non-trivial: distinct value"), spacesC16, caseOf(checkC16)}
	checks["C18"] = &propCheck{explorationMain("every attribute list and every wrapping chain of the listed spaces; distinct lists count"), spacesC18, caseOf(checkC18)}
	_ = config.Parse
}
