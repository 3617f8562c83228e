package main

import (
	"fmt"
	"strings"
)

// Document spaces. Every class enumerates a finite set of texts completely, simplest first.

type class struct {
	name string
	rule string
	gen  func(emit func(string))
}

// seqs emits prefix+w+suffix for every word w of at most max symbols.
func seqs(alpha []string, max int, prefix, suffix string, emit func(string)) {
	buf := make([]byte, 0, 256)
	buf = append(buf, prefix...)
	var rec func(left int)
	for n := 0; n <= max; n++ {
		rec = func(left int) {
			if left == 0 {
				l := len(buf)
				buf = append(buf, suffix...)
				emit(string(buf))
				buf = buf[:l]
				return
			}
			l := len(buf)
			for _, a := range alpha {
				buf = append(buf, a...)
				rec(left - 1)
				buf = buf[:l]
			}
		}
		rec(n)
	}
}

func words(s string) []string { return strings.Fields(s) }

type hole struct {
	name, prefix, suffix string
	alpha                []string
	quick, thorough      int
}

const cnl = "#c\n"

var tokenHoles = []hole{
	{"top", "", "", append(words(`filter input output { } p`), " ", "\n", cnl), 5, 6},
	{"section", "filter{", "}", append(words(`if else p { } [a] 1 => "s" if1`), " ", cnl), 4, 6},
	{"after-if", "filter{if 1{}", "}", append(words(`if else { } p 1 aa=>1 elseif`), " ", cnl), 5, 6},
	{"in-if", "filter{if 1{", "}}", append(words(`if else p { } 1 =>`), " ", cnl), 5, 6},
	{"in-else", "filter{if 1{}else{", "}p{}}", append(words(`if else p { } 1 =>`), " ", cnl), 4, 6},
	{"plugin", "filter{p{", "}}", append(words(`a => bb 1 "s" [ ] { } ,`), " ", cnl), 4, 6},
	{"after-attr", "filter{p{a=>1", "}}", append(words(`b => cc -1. 's' id`), " ", "\n", cnl), 5, 6},
	{"value", "filter{p{a=>", "}}", append(words(`bb 1 - . "s" 's' [ ] { } => ,`), " ", cnl), 4, 5},
	{"array", "filter{p{a=>[", "]}}", append(words(`bb 1 "s" [ ] { } => ,`), " ", cnl), 5, 6},
	{"hash", "filter{p{a=>{", "}}}", append(words(`kk 1 "s" [ ] { } =>`), " ", cnl), 5, 6},
	{"condition", "filter{if ", "{}}", append(words(`[a] 1 "s" /r/ ( ) ! and in == =~`), "not ", " ", cnl), 4, 6},
	{"condition-ops", "filter{if [a]", "[b]{}}", append(words(`and or xor nand in not == != <= >= < > =~ !~ = /r/ "s" ( ) !`), "not ", " "), 4, 5},
	{"condition-array", "filter{if [a] in [", "]{}}", append(words(`1 "s" bb , [ ] { } =>`), " ", cnl), 5, 6},
	{"keyword-glue", "filter{", "}", append(words(`if else elseif in and p - 1 { } [x] ( )`), " "), 4, 6},
}

var charHoles = []hole{
	{"double-quoted", `filter{p{a=>"`, `"}}`, []string{`x`, `"`, `\`, `'`, "\n", "#", "/", "["}, 5, 7},
	{"single-quoted", `filter{p{a=>'`, `'}}`, []string{`x`, `'`, `\`, `"`, "\n", "#", "/", "["}, 5, 7},
	{"quoted-name", `filter{"`, `"{}}`, []string{`x`, `"`, `\`, `'`, "\n", " ", "{"}, 5, 7},
	{"quoted-key", `filter{p{h=>{"`, `"=>1}}}`, []string{`x`, `"`, `\`, `'`, "\n", " ", "#"}, 5, 7},
	{"regexp", `filter{if [a]=~/`, `/{}}`, []string{`x`, `/`, `\`, `"`, "\n", "#", "["}, 5, 7},
	{"selector", `filter{if [`, `]==1{}}`, []string{`x`, `]`, `[`, `,`, `"`, "\n", " ", "#", "/", "@"}, 4, 6},
	{"number", `filter{p{a=>`, `}}`, words(`0 1 9 - . + e _ x`), 5, 7},
	{"number-condition", `filter{if 1==`, `{}}`, words(`0 1 9 - . + e _`), 4, 6},
	{"bareword", `filter{p{a=>`, ` }}`, words(`a Z _ 0 9 - . ä @`), 4, 6},
	{"plugin-name", `filter{`, `{}}`, words(`a Z _ 0 9 - . ä "`), 4, 6},
	{"attr-name", `filter{p{`, `=>1}}`, words(`a Z _ 0 - . ä " '`), 4, 6},
	{"comment", "filter{", "\n}", []string{"#", "x", " ", "\t", "\n", "\r", `"`, "}"}, 5, 7},
	{"comment-attr", "filter{p{a=>1 ", "\nb=>2}}", []string{"#", "x", " ", "\n", "\r", `'`, "}"}, 5, 7},
	{"comment-array", "filter{p{a=>[1,", "\n2]}}", []string{"#", "x", " ", "\n", "\r", `"`, "]"}, 4, 6},
	{"comment-footer", "filter{}", "", []string{"#", "x", " ", "\n", "\r", `"`, "\t"}, 5, 7},
	{"comment-head", "", "filter{}", []string{"#", "x", " ", "\n", "\r", `"`, "\t"}, 5, 7},
	{"comment-head2", "filter{}", "filter{}", []string{"#", "x", " ", "\n", "\r", "input{}"}, 5, 7},
	{"comment-exceptional", "filter{if", "[a]{}}", []string{"#", "x", " ", "\n", "\r", "!"}, 5, 7},
	{"comment-only", "", "", []string{"#", "x", " ", "\n", "\r", "\t"}, 5, 7},
	{"string-nested", "filter{if 1{p{h=>{kk=>[\"", "\"]}}}}", []string{`x`, `'`, "\n", `\"`, " ", "/", "[", "#"}, 4, 6},
	{"regexp-nested", "filter{if 1{if [a]=~/", "/{p{}}}}", []string{`x`, `'`, `"`, "\n", `\/`, " ", "[", "#"}, 4, 6},
	{"selector-nested", "filter{if 1{if [x", "]{p{}}}}", []string{`x`, `'`, `"`, "\n", `/`, " ", "#", "]["}, 4, 6},
}

func holeClass(kind string, h hole, tier int) class {
	n := h.quick
	if tier > 0 {
		n = h.thorough
	}
	return class{
		name: kind + ":" + h.name,
		rule: fmt.Sprintf("%q + every word of at most %d symbols over %q + %q", h.prefix, n, h.alpha, h.suffix),
		gen:  func(emit func(string)) { seqs(h.alpha, n, h.prefix, h.suffix, emit) },
	}
}

// Rich base documents: together they contain every construct of the grammar.
var baseDocs = []string{
	"input{p{}}filter{if [a]{p{a=>1 b=>\"x\"}}else if 1{q{}}else{r{}}}output{o{}}",
	"filter { p { a => ab b => -1.5 c => 'x' d => [1, \"y\", [z1], {kk => 1}] e => {kk => 1 \"l\" => [2] 3 => {}} f => json { x => 1 } } }",
	"filter { if ([a] and ![b]) or !(1 in [1,2]) xor \"x\" not in [c][d] nand 3 >= 2 { } else if [m] =~ /r\\/x/ { \"n\" { } } }",
	"# head\ninput { # in\n  p { # at\n    a => 1 # b\n    b => [ # e\n 1, # f\n 2 # g\n ] # h\n  } # foot\n}\n# second\ninput { } # end\n",
	"output { if \"ä€\" == [ü][@x] { p { \"ö\" => 'é\nü' } q-1 { id => \"x\" } } p { } }",
	"filter { if [a] != 'x' { if [b] !~ \"y\" { p { h => { kk => { ll => [ ] } } } } else { } } elsewhere { } }",
}

var fillersSmall = []string{"", " ", "\n\n", "#c\n", " # d\n\n#e\n\n"}
var fillers = []string{"", " ", "\n", "\n\n", " \t\r\n", "#c\n", " # c\n", "\t#\tc\r\n", "#c\n#d\n", "#c\n\n#d\n \n", "\n\n# c \"q' [/\n", "#\n", "#c # d }\n ", "\n #c\n\n\n", "##\n\t\n#é\n"}

type gapSpan struct{ start, end int }

func docGaps(doc string) []gapSpan {
	r := refParse(doc)
	if !r.ok {
		panic("base document is not accepted by the reference: " + doc)
	}
	seen := map[gapSpan]bool{}
	var out []gapSpan
	for _, g := range r.gaps {
		s := gapSpan{g.start, g.end}
		if !seen[s] && !overlaps(out, s) {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

func overlaps(l []gapSpan, s gapSpan) bool {
	for _, o := range l {
		if s.start < o.end && o.start < s.end {
			return true
		}
	}
	return false
}

// gapDocs replaces k gaps of every base document by every filler.
func gapDocs(docs []string, fill []string, k int, emit func(string)) {
	for _, d := range docs {
		gs := docGaps(d)
		var rec func(from int, chosen []gapSpan, texts []string)
		rec = func(from int, chosen []gapSpan, texts []string) {
			if len(chosen) == k {
				var b strings.Builder
				pos := 0
				for i, g := range chosen {
					b.WriteString(d[pos:g.start])
					b.WriteString(texts[i])
					pos = g.end
				}
				b.WriteString(d[pos:])
				emit(b.String())
				return
			}
			for i := from; i < len(gs); i++ {
				for _, f := range fill {
					rec(i+1, append(chosen, gs[i]), append(texts, f))
				}
			}
		}
		// gaps in textual order
		for i := 1; i < len(gs); i++ {
			for j := i; j > 0 && gs[j].start < gs[j-1].start; j-- {
				gs[j], gs[j-1] = gs[j-1], gs[j]
			}
		}
		rec(0, nil, nil)
	}
}

// allGapsDocs replaces all gaps at once by one filler (comments everywhere).
func allGapsDocs(docs []string, fill []string, emit func(string)) {
	for _, d := range docs {
		gs := docGaps(d)
		for i := 1; i < len(gs); i++ {
			for j := i; j > 0 && gs[j].start < gs[j-1].start; j-- {
				gs[j], gs[j-1] = gs[j-1], gs[j]
			}
		}
		for _, f := range fill {
			for step := 1; step <= 3; step++ {
				for phase := 0; phase < step; phase++ {
					var b strings.Builder
					pos := 0
					for i, g := range gs {
						if i%step != phase {
							continue
						}
						b.WriteString(d[pos:g.start])
						b.WriteString(f)
						pos = g.end
					}
					b.WriteString(d[pos:])
					emit(b.String())
				}
			}
		}
	}
}

var valuePool = []string{
	`ab`, `if`, `in`, `"x"`, `'x'`, `""`, `''`, `"a'b"`, `'a"b'`, `"a\"b"`, `'a\'b'`, "\"a\nb\"", "'a\n  b\n\nc'", `"#c"`, `"a # b"`, "'\n# x\n'",
	`"a/b"`, `"["`, `"]"`, `"{"`, `"}"`, `"\\n"`, `"ä€😀"`, `"a,b"`, `" x "`, "\"\t\"", "\"\r\n\"",
	`1`, `-1`, `0`, `-0`, `1.`, `1.5`, `007`, `1000000`, `123456789012`, `0.0000012345678901`, `3.141592653589793`,
	`[]`, `[1]`, `[1,2]`, `["a","b"]`, `['a"b', "c'd"]`, `[[1],[]]`, `[{}]`, `[{k1=>1}]`, `[ab,cd]`, "[\"a\n b\"]",
	`{}`, `{k1=>1}`, `{"k"=>"v"}`, `{'k"'=>1}`, `{1=>2}`, `{k1=>[1] k2=>{}}`, `{k1=>{k2=>{k3=>"x'"}}}`, "{k1=>'a\n\"b'}",
}

var pluginValuePool = []string{`json{}`, `json{x=>1}`, `"json"{x=>"'"}`, `json{c=>plain{}}`}

var rvaluePool = []string{
	`[a]`, `[a][b]`, `[@metadata][x y]`, `["a"]`, `['a"]`, `[a/b]`, `[a#b]`, `["a","b"]`, `[1,2]`, `['a"b',1]`, `[{k1=>1},2]`, `[]`,
	`"x"`, `'x'`, `"a'b"`, `'a"b'`, `"a\"b"`, `"/"`, "\"a\nb\"", `"#"`, `1`, `-1.5`, `0`,
	`/r/`, `/a\/b/`, `/a"b/`, `/a'b/`, `/[x]/`, `/#/`, "/a\nb/", `//`, `/ x /`,
}

var namePool = []string{`p`, `a-b`, `0`, `-`, `_x`, `if`, `else`, `in`, `and`, `not`, `input`, `"q"`, `'q'`, `"a b"`, `'a"b'`, `"a'b"`, `"a\"b"`, `""`, "'a\nb'", `"#"`, `"ä"`, `A1_-z`, `elseif`, `ifx`, `orx`}

// valuePlaces: %V is replaced by a value.
var valuePlaces = []string{
	"filter{p{a=>%V}}",
	"filter{p{a=>%V b=>1}}",
	"filter{p{z=>1 a=>%V}}",
	"filter{if 1{p{a=>%V}}}",
	"filter{if 1{}else if 2{p{a=>%V}}}",
	"filter{if 1{}else{p{a=>%V} q{}}}",
	"filter{if 1{if 2{p{x=>0 a=>%V b=>3}}}}",
	"filter{p{a=>[%V]}}",
	"filter{p{a=>[0,%V]}}",
	"filter{p{a=>[%V,0]}}",
	"filter{p{a=>{k1=>%V}}}",
	"filter{p{a=>{k1=>%V k2=>0}}}",
	"filter{p{a=>{k1=>[%V,[%V]]}}}",
	"input{p{codec=>json{a=>%V}}}",
	"filter{if 1{p{a=>{k1=>{k2=>%V}}}}}",
}

var rvaluePlaces = []string{
	"filter{if %V{}}",
	"filter{if %V{p{}}else if %V{}}",
	"filter{if (%V){}}",
	"filter{if !(%V){}}",
	"filter{if %V in %W{}}",
	"filter{if %V not in %W{}}",
	"filter{if %V==%W{}}",
	"filter{if %V=~%W{}}",
	"filter{if %V!~%W{p{}}}",
	"filter{if %V and %W{}}",
	"filter{if 1{if %V<%W{p{}}}}",
	"filter{if 1{if 2{}else if %V>=%W or %W{p{a=>\"'\"}}}}",
	"filter{p{a=>\"'\"}if %V!=%W{p{a=>'\"'}}q{}}",
}

func poolDocs(tier int, emit func(string)) {
	vals := append(append([]string{}, valuePool...), pluginValuePool...)
	for _, pl := range valuePlaces {
		for _, v := range vals {
			emit(strings.ReplaceAll(pl, "%V", v))
		}
	}
	for _, pl := range []string{"filter{p{a=>%V b=>%W}}", "filter{p{a=>[%V,%W]}}", "filter{if 1{p{a=>{k1=>%V k2=>%W}}}}", "filter{if 1{p{a=>%V}}else{p{a=>%W}}}", "input{p{a=>%V}}input{p{a=>%W}}"} {
		for _, v := range vals {
			for _, w := range vals {
				emit(strings.ReplaceAll(strings.ReplaceAll(pl, "%V", v), "%W", w))
			}
		}
	}
	for _, pl := range rvaluePlaces {
		for _, v := range rvaluePool {
			if !strings.Contains(pl, "%W") {
				emit(strings.ReplaceAll(pl, "%V", v))
				continue
			}
			for _, w := range rvaluePool {
				emit(strings.ReplaceAll(strings.ReplaceAll(pl, "%V", v), "%W", w))
			}
		}
	}
	for _, pl := range []string{"filter{%N{}}", "filter{%N{a=>1}}", "filter{if 1{%N{}}}", "filter{if 1{p{}}%N{}q{}}", "filter{if 1{p{}}else{%N{%N=>1}}}", "filter{p{%N=>1}}", "filter{p{b=>1 %N=>{}}}", "filter{p{a=>%N{}}}", "filter{p{a=>{%N=>1}}}", "filter{p{a=>%N}}"} {
		for _, n := range namePool {
			emit(strings.ReplaceAll(pl, "%N", n))
		}
	}
	for _, n := range namePool {
		for _, m := range namePool {
			emit("filter{" + n + "{}" + m + "{}}")
			emit("filter{p{" + n + "=>1 " + m + "=>" + n + "}}")
			if tier > 0 {
				for _, v := range vals {
					emit("filter{" + n + "{" + m + "=>" + v + "}}")
				}
			}
		}
	}
	if tier > 0 {
		for _, v := range vals {
			for _, w := range vals {
				for _, x := range valuePool {
					emit("filter{if 1{p{a=>" + v + " b=>[" + w + "," + x + "]}}}")
				}
			}
		}
		for _, v := range rvaluePool {
			for _, w := range rvaluePool {
				for _, x := range rvaluePool {
					emit("filter{if 1{if " + v + " in " + w + " and " + x + "{p{}}}}")
				}
			}
		}
	}
}

// ---- structure trees ----

// valueTrees: all values of at most size nodes.
func valueTrees(size int) [][]string {
	out := make([][]string, size+1)
	for n := 1; n <= size; n++ {
		if n == 1 {
			out[1] = []string{"ab", `"x'y"`, "1", "[]", "{}"}
			continue
		}
		// arrays and hashes with children of total size n-1
		for _, list := range partitions(out, n-1) {
			if len(list) == 1 && strings.HasSuffix(list[0], "{}") && false {
				continue
			}
			out[n] = append(out[n], "["+strings.Join(list, ",")+"]")
			var h []string
			for i, v := range list {
				h = append(h, fmt.Sprintf("k%d=>%s", i, v))
			}
			out[n] = append(out[n], "{"+strings.Join(h, " ")+"}")
		}
	}
	return out
}

func partitions(by [][]string, n int) [][]string {
	var out [][]string
	var rec func(left int, cur []string)
	rec = func(left int, cur []string) {
		if left == 0 {
			out = append(out, append([]string(nil), cur...))
			return
		}
		for k := 1; k <= left; k++ {
			for _, v := range by[k] {
				rec(left-k, append(cur, v))
			}
		}
	}
	rec(n, nil)
	return out
}

// condTrees: all conditions with at most size operands/operators.
func condTrees(size int) [][]string {
	expr := make([][]string, size+1)
	cond := make([][]string, size+1)
	bin := []string{"==", "=~", " in ", " not in ", "<="}
	for n := 1; n <= size; n++ {
		if n == 1 {
			expr[1] = []string{"[a]", `"x"`, "1", "![b]"}
		} else {
			for _, c := range cond[n-1] {
				expr[n] = append(expr[n], "("+c+")", "!("+c+")")
			}
			if n == 2 {
				for _, o := range bin {
					expr[2] = append(expr[2], "[a]"+o+`"x"`)
				}
			}
		}
		cond[n] = append(cond[n], expr[n]...)
		for k := 1; k < n-1; k++ {
			for _, o := range []string{" and ", " or ", " xor ", " nand "} {
				for _, l := range expr[k] {
					for _, r := range cond[n-1-k] {
						cond[n] = append(cond[n], l+o+r)
					}
				}
			}
		}
	}
	return cond
}

// blockTrees: all block contents of at most size elements (plugins and branches).
func blockTrees(size int) [][]string {
	item := make([][]string, size+1)
	body := make([][]string, size+1)
	body[0] = []string{""}
	for n := 1; n <= size; n++ {
		if n == 1 {
			item[1] = []string{"p{}", "p{a=>1}"}
		}
		// branch of total size n: 1 + bodies
		for a := 0; a < n; a++ {
			for _, x := range body[a] {
				if a == n-1 {
					item[n] = append(item[n], "if 1{"+x+"}", "if 1{"+x+"}else{}", "if 1{"+x+"}else if 2{}", "if 1{"+x+"}else if 2{}else{}")
				}
			}
			for b := 1; a+b < n; b++ {
				if a+b != n-1 {
					continue
				}
				for _, x := range body[a] {
					for _, y := range body[b] {
						item[n] = append(item[n], "if 1{"+x+"}else{"+y+"}", "if 1{"+x+"}else if 2{"+y+"}", "if 1{"+x+"}else if 2{"+y+"}else if 3{}else{}", "if 1{"+x+"}else if 2{}else{"+y+"}")
					}
				}
			}
		}
		for k := 1; k <= n; k++ {
			for _, i := range item[k] {
				for _, r := range body[n-k] {
					body[n] = append(body[n], i+r)
				}
			}
		}
	}
	return body
}

func treeDocs(tier int, emit func(string)) {
	vs, cs, bs := 4, 5, 4
	if tier > 0 {
		vs, cs, bs = 5, 6, 5
	}
	for _, l := range valueTrees(vs) {
		for _, v := range l {
			emit("filter{p{a=>" + v + "}}")
			emit("filter{if 1{p{b=>1 a=>" + v + "}}}")
		}
	}
	for n, l := range condTrees(cs) {
		for _, c := range l {
			emit("filter{if " + c + "{}}")
			if n <= 3 {
				emit("filter{if 1{}else if " + c + "{p{}}}")
			}
		}
	}
	for _, l := range blockTrees(bs) {
		for _, b := range l {
			emit("filter{" + b + "}")
		}
	}
	// section orders
	secs := []string{"input{}", "filter{}", "output{}", "input{p{}}", "filter{p{}q{}}", "#c\nfilter{}", "\n\n# c\n\noutput{p{}}\n"}
	n := 4
	if tier > 0 {
		n = 5
	}
	seqs(secs, n, "", "", emit)
	seqs(secs, 3, "# h\n", "\n# f\n\n# g", emit)
}

// ---- sweeps ----

func rep(s string, n int) string { return strings.Repeat(s, n) }

// upTo: all numbers up to max, and more.
func upTo(max int, more ...int) []int {
	var out []int
	for i := 0; i <= max; i++ {
		out = append(out, i)
	}
	return append(out, more...)
}

func sweepDocs(tier int, emit func(string)) {
	maxCount, maxDepth := 40, 40
	lens := []int{}
	for i := 0; i <= 80; i++ {
		lens = append(lens, i)
	}
	for p := 7; p <= 12; p++ {
		lens = append(lens, 1<<p-2, 1<<p-1, 1<<p, 1<<p+1)
	}
	lens = append(lens, 100, 200, 300, 1000)
	if tier > 0 {
		maxCount, maxDepth = 300, 120
		lens = append(lens, 1<<14, 1<<15-1, 1<<16-1, 1<<16, 1<<16+1, 100000)
	}
	counts, depths := upTo(maxCount, 50, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513), upTo(maxDepth, 50, 51, 64, 65, 101, 129)
	if tier > 0 {
		counts, depths = upTo(maxCount, 400, 511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4097), upTo(maxDepth, 127, 128, 129)
	}
	for _, n := range counts {
		emit("filter{" + rep("p{}", n) + "}")
		emit("filter{" + rep("p{a=>1}#c\n", n) + "}")
		emit(rep("filter{p{}}\n", n))
		emit(rep("# c\n\ninput{}\noutput{}", n))
		var as, es, el, hs strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&as, "a%d=>%d ", i, i)
			if i > 0 {
				es.WriteString(",")
			}
			fmt.Fprintf(&es, "%d", i)
			fmt.Fprintf(&el, "else if %d{p%d{}}", i, i)
			fmt.Fprintf(&hs, "k%d=>'v%d' ", i, i)
		}
		emit("filter{p{" + as.String() + "}}")
		emit("filter{p{a=>[" + es.String() + "]}}")
		emit("filter{p{a=>{" + hs.String() + "}}}")
		emit("filter{if 1{}" + el.String() + "else{p{}}}")
		emit("filter{if 1{}" + el.String() + "}")
		emit("filter{if 1" + rep(" and 2", n) + "{}}")
		emit("filter{if 1" + rep(" or [a] in [1,2]", n) + "{}}")
		emit("filter{if [a]" + rep("[b]", n) + "{}}")
		emit("filter{" + rep("if 1{}", n) + "}")
		emit(rep("#c\n", n) + "filter{" + rep("# d\n", n) + "p{" + rep("# e\n\n", n) + "a=>1}" + rep("\n# f\n", n) + "}")
		emit(rep("\n", n) + "filter{" + rep("\n", n) + "p{a=>1" + rep("\n", n+1) + "b=>2}" + rep("\n", n) + "}")
		emit("filter{" + rep("\n\n#c\n", n) + "}")
		emit("filter" + rep("#c\n", n) + "{if" + rep("#c\n", n) + " 1{}}")
	}
	for _, n := range depths {
		emit("filter{" + rep("if 1{", n) + "p{a=>\"x\ny\"}" + rep("}", n) + "}")
		emit("filter{" + rep("if 1{}else{", n) + "p{}" + rep("}", n) + "}")
		emit("filter{" + rep("if 1{}else if 2{#c\n", n) + "p{}" + rep("}", n) + "}")
		emit("filter{p{a=>" + rep("[", n) + rep("]", n) + "}}")
		emit("filter{p{a=>" + rep("[1,", n) + "2" + rep("]", n) + "}}")
		emit("filter{p{a=>" + rep("{k1=>", n) + "'x\n'" + rep("}", n) + "}}")
		if n <= 65 || tier > 0 && n <= 100 {
			emit("filter{p{a=>" + rep("[{k1=>", n) + "1" + rep("}]", n) + "}}")
		}
		emit("filter{p{a=>" + rep("q{a=>", n) + "1" + rep("}", n) + "}}")
		emit("filter{if " + rep("(", n) + "1" + rep(")", n) + "{}}")
		emit("filter{if " + rep("!(", n) + "1" + rep(")", n) + "{}}")
		emit("filter{if " + rep("(1 and ", n) + "[a]" + rep(")", n) + "{}}")
		// unbalanced variants
		emit("filter{" + rep("if 1{", n) + "p{}" + rep("}", n))
		emit("filter{p{a=>" + rep("[", n+1) + rep("]", n) + "}}")
	}
	for _, n := range lens {
		x := rep("x", n)
		emit("filter{p{a=>\"" + x + "\"}}")
		emit("filter{p{a=>'" + x + "\n'}}")
		emit("filter{p{a=>\"" + rep("ä", n) + "\" b=>1}}")
		emit("filter{p{a=>\"" + rep("\\\"", n) + "\"}}")
		emit("filter{if 1{p{a=>\"" + rep("\n", n) + "\"}}}")
		emit("filter{if 1{p{a=>\"" + rep("l 'x\n", n) + "\" b=>'" + x + "'}}}")
		emit("filter{p" + x + "{a" + x + "=>b" + x + "}}")
		emit("filter{\"" + x + "\"{}}")
		emit("filter{#" + x + "\np{a=>1}}")
		emit("#" + x + "\nfilter{}#" + x)
		emit("filter{if [a" + x + "]=~/" + x + "/{if [b]{}}}")
		emit("filter{" + rep(" ", n) + "p{" + rep("\t", n) + "}}")
		emit("filter" + rep(" ", n) + "{p" + rep("\n", n) + "{a" + rep(" ", n) + "=>" + rep(" ", n) + "1}}")
		emit("filter{p{a=>" + rep("1", n%309) + "}}")
		emit("filter{p{a=>0." + rep("3", n) + "}}")
	}
	for _, n := range []int{300, 308, 309, 310, 320, 400} {
		emit("filter{p{a=>1" + rep("0", n) + "}}")
		emit("filter{if 1" + rep("0", n) + "{}}")
		emit("filter{p{h=>{1" + rep("0", n) + "=>1}}}")
		emit("filter{p{a=>0." + rep("0", n) + "1}}")
	}
}

// ---- mutations ----

func mutationDocs(tier int, emit func(string)) {
	for _, d := range baseDocs {
		for i := 0; i <= len(d); i++ {
			emit(d[:i]) // truncation
			if i < len(d) {
				emit(d[i:])
				emit(d[:i] + d[i+1:])
				emit(d[:i] + d[i:i+1] + d[i:]) // duplicate
			}
			if i+1 < len(d) {
				emit(d[:i] + d[i+1:i+2] + d[i:i+1] + d[i+2:]) // swap
			}
		}
		for i := 0; i < len(d); i++ {
			for c := 0; c < 256; c++ {
				if tier == 0 && c >= 0x80 && c != 0x80 && c != 0xc3 && c != 0xff {
					continue
				}
				if tier == 0 && c < 0x20 && c != 0 && c != '\n' && c != '\t' && c != '\r' && c != 0x0b && c != 0x0c && c != 1 {
					continue
				}
				emit(d[:i] + string([]byte{byte(c)}) + d[i+1:])
				emit(d[:i] + string([]byte{byte(c)}) + d[i:])
			}
		}
		// token level: delete, duplicate and swap tokens; replace a token by another one
		toks := tokenize(d)
		for i := range toks {
			emit(strings.Join(append(append([]string{}, toks[:i]...), toks[i+1:]...), ""))
			emit(strings.Join(append(append([]string{}, toks[:i+1]...), toks[i:]...), ""))
			for _, r := range mutTokens {
				emit(strings.Join(toks[:i], "") + r + strings.Join(toks[i+1:], ""))
				emit(strings.Join(toks[:i], "") + r + strings.Join(toks[i:], ""))
			}
			for j := i + 1; j < len(toks); j++ {
				if tier == 0 && j > i+6 {
					break
				}
				m := append([]string{}, toks...)
				m[i], m[j] = m[j], m[i]
				emit(strings.Join(m, ""))
				// delete a range
				emit(strings.Join(toks[:i], "") + strings.Join(toks[j+1:], ""))
			}
		}
		if tier > 0 {
			for i := 0; i < len(toks); i++ {
				for j := i + 1; j < len(toks); j++ {
					for _, r := range mutTokens {
						m := append([]string{}, toks...)
						m[j] = r
						m = append(m[:i], m[i+1:]...)
						emit(strings.Join(m, ""))
					}
				}
			}
		}
	}
}

var mutTokens = []string{"{", "}", "[", "]", "(", ")", "=>", ",", "\"", "'", "/", "#", "#x\n", "!", "if ", "else ", "and ", "in ", "not in ", "==", "=~", "1", "p", "\"s\"", "[x]", " ", "\n", "input", "-", ".", "\\", "\x00", "\xff", "é"}

func tokenize(d string) []string {
	var out []string
	for i := 0; i < len(d); {
		j := i + 1
		c := d[i]
		switch {
		case isWS(c):
			for j < len(d) && isWS(d[j]) {
				j++
			}
		case isNameCh(c):
			for j < len(d) && isNameCh(d[j]) {
				j++
			}
		case c == '=' && j < len(d) && (d[j] == '>' || d[j] == '=' || d[j] == '~'):
			j++
		case c >= 0x80:
			for j < len(d) && d[j] >= 0x80 && d[j] < 0xc0 {
				j++
			}
		}
		out = append(out, d[i:j])
		i = j
	}
	return out
}

func allClasses(tier int) []class {
	var out []class
	out = append(out,
		class{"pools", "every literal, name and operand of the pools in every place, and in pairs", func(e func(string)) { poolDocs(tier, e) }},
		class{"trees", "all value, condition and block trees up to a size, all section orders", func(e func(string)) { treeDocs(tier, e) }},
		class{"gap1", "every gap of every base document replaced by every filler", func(e func(string)) { gapDocs(baseDocs, fillers, 1, e) }},
		class{"gapall", "all gaps (or every second/third) of every base document replaced by one filler", func(e func(string)) { allGapsDocs(baseDocs, fillers, e) }},
		class{"sweeps", "repetition count, nesting depth and literal length sweeps", func(e func(string)) { sweepDocs(tier, e) }},
	)
	out = append(out, class{"mutations", "single byte and single token edits of every base document, truncations at every offset", func(e func(string)) { mutationDocs(tier, e) }})
	out = append(out, moreClasses(tier)...)
	for _, h := range charHoles {
		out = append(out, holeClass("chars", h, tier))
	}
	for _, h := range tokenHoles {
		out = append(out, holeClass("tokens", h, tier))
	}
	if tier == 0 {
		out = append(out, class{"gap2", "every pair of gaps of every base document replaced by every pair of the small filler set", func(e func(string)) { gapDocs(baseDocs, fillersSmall, 2, e) }})
	} else {
		out = append(out, class{"gap2", "every pair of gaps of every base document replaced by every pair of fillers", func(e func(string)) { gapDocs(baseDocs, fillers, 2, e) }})
		out = append(out, class{"gap3", "every triple of gaps of the two short base documents replaced by every triple of the small filler set", func(e func(string)) {
			gapDocs([]string{baseDocs[0], baseDocs[4]}, fillersSmall, 3, e)
		}})
	}
	return out
}
