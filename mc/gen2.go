package main

import (
	"fmt"
	"os"
	"strings"
)

// keywordDocs: every splice of a prefix of one keyword and a suffix of another, and every case variant of a keyword,
// at every place where the grammar has a choice of keywords.
func keywordDocs(tier int, emit func(string)) {
	places := []struct {
		pat string
		kws []string
	}{
		{"%s{}", []string{"input", "filter", "output"}},
		{"%s {p{}}output{}", []string{"input", "filter", "output"}},
		{"input{}%s{}", []string{"input", "filter", "output"}},
		{"filter{if 1 {}%s{}}", []string{"else", "else if 2", "if 2", "elsif 2"}},
		{"filter{if 1 {} %s {p{}} q{}}", []string{"else", "else if 2", "if 2"}},
		{"filter{%s 1 {}}", []string{"if", "else if", "else", "unless"}},
		{"filter{if 1 %s 2 {}}", []string{"and", "or", "xor", "nand", "not", "nor"}},
		{"filter{if [a]%s[b]{}}", []string{"and", "or", "xor", "nand", "not in", "in", "==", "!=", "<=", ">=", "<", ">", "=~", "!~"}},
		{"filter{if [a] %s \"x\" {}}", []string{"in", "not in", "and not", "==", "!=", "<=", ">=", "<", ">", "=~", "!~"}},
		{"filter{if \"x\"%s/r/{}}", []string{"=~", "!~", "==", " in ", " not in "}},
		{"filter{p{a%s1}}", []string{"=>", "==", ">=", "= >"}},
		{"filter{p{h=>{kk%s1}}}", []string{"=>", "==", ">=", "= >", ","}},
		{"filter{if %s[a]{}}", []string{"!", "not ", "!!", "! !"}},
		{"filter{if %s(1){}}", []string{"!", "not ", "!!", "! !"}},
	}
	for _, p := range places {
		put := func(w string) { emit(strings.Replace(p.pat, "%s", w, 1)) }
		for _, a := range p.kws {
			for i := 0; i <= len(a); i++ {
				for _, b := range p.kws {
					for j := 0; j <= len(b); j++ {
						put(a[:i] + b[j:])
						if tier > 0 {
							for _, c := range p.kws {
								for k := 0; k <= len(c); k++ {
									put(a[:i] + b[j:] + c[k:])
								}
							}
						}
					}
				}
				for _, x := range []string{" ", "\n", "#\n", "x", "_", "-", "1", "é", "\u00a0", "\u2028", "\x00"} {
					put(a[:i] + x + a[i:])
				}
			}
			// case variants
			if len(a) <= 8 {
				for m := 1; m < 1<<len(a); m++ {
					b := []byte(a)
					for k := range b {
						if m>>k&1 == 1 && b[k] >= 'a' && b[k] <= 'z' {
							b[k] -= 32
						}
					}
					put(string(b))
				}
			}
		}
	}
}

// elementDocs: words over the elements of every kind of list of the grammar, with equal, similar and different elements.
func elementDocs(tier int, emit func(string)) {
	n := 4
	if tier > 0 {
		n = 6
	}
	seqs([]string{"kk=>1 ", "\"kk\"=>2 ", "'kk'=>{} ", "ll=>[3] ", "1=>'x' ", "#c\n"}, n, "filter{p{a=>{", "}}}", emit)
	seqs([]string{"a=>1 ", "\"a\"=>'2' ", "b=>[] ", "a=>{aa=>3} ", "id=>\"x\" ", "#c\n"}, n, "filter{p{", "}}", emit)
	seqs([]string{"p{}", "p{a=>1}", "q{}", "\"p\"{}", "if 1{}", "if 1{p{}}else{q{}}", "#c\n"}, n, "filter{", "}", emit)
	seqs([]string{"p{}", "q{a=>1}", "if 1{}", "#c\n"}, n, "filter{if 2{", "}else{p{}}}", emit)
	seqs([]string{"else if 1{}", "else if 1{p{}}", "else if 2{q{}}", "#c\n", "else{}", "else{p{}}"}, n, "filter{if 1{}", "}", emit)
	seqs([]string{" and 1", " or 1", " and [a]", " nand !([a]==1)", " xor 2 in [1]"}, n, "filter{if 1", "{}}", emit)
	seqs([]string{"[a]", "[b]", "[a b]", "[0]"}, n, "filter{if [a]", "==[a]{}}", emit)
	seqs([]string{",1", ",2", ",\"1\"", ",[1]", ",{kk=>1}", "#c\n"}, n, "filter{p{a=>[1", "]}}", emit)
	seqs([]string{"input{p{}}", "input{}", "filter{p{}}", "output{q{}}", "#c\n"}, n, "", "", emit)
}

// rejectedLong: rejected texts around literals and gaps of every length of the sweep.
func rejectedLong(tier int, emit func(string)) {
	lens := []int{0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 200, 255, 256, 257, 300, 511, 512, 513, 514, 515, 516, 517, 518, 519, 600, 1000, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 4095, 4096, 4097}
	if tier > 0 {
		lens = append(lens, 8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536, 65537)
	}
	for _, n := range lens {
		for _, x := range []string{rep("x", n), rep("ä", n), rep("\n", n), rep("%d", n/2), rep("\\", n) + "y", rep("x\n", n/2)} {
			for _, q := range []string{`"`, `'`} {
				emit("filter{p{a=>" + q + x + q)
				emit("filter{p{a=>" + q + x)
				emit("filter{p{a=>" + q + x + q + "]}}")
				emit("filter{p{a=>[" + q + x + q + "}}")
				emit("filter{p{a=>{" + q + x + q + "=>}}}")
				emit("filter{if [a]==" + q + x + q + "}")
				emit("filter{" + q + x + q + "}")
			}
			emit("filter{if [a]=~/" + x + "/ ]{}}")
			emit("filter{if [a]=~/" + x)
			emit("filter{if [a" + x + "]{")
			emit("filter{p{}#" + x + "\n")
			emit("filter{p{}#" + x)
		}
		emit("filter{" + rep(" ", n) + "p{" + rep("\t\n", n) + "]")
		emit("filter{p" + rep("q", n) + "]")
		emit("filter{p{a=>" + rep("1", n) + "x")
		emit("filter{p{a=>[" + rep("1,", n) + "]}}")
		emit("filter{p{" + rep("a=>1 ", n) + "a=>}}")
		emit("filter{" + rep("p{} ", n) + "]")
		emit(rep("filter{} ", n) + "]")
	}
}

// inflateDocs: at every position of every base document, every unit repeated many times. Units of one byte make
// literals, names and gaps long; the other units make lists long.
func inflateDocs(tier int, emit func(string)) {
	chars := []string{"x", "1", " ", "\n", "ä"}
	units := []string{"#c\n", "\n# c\n\n", "p{} ", "a=>1 ", ",1", " and 1", "[a]", "else if 1{}", "\\\"", "kk#\n=>#\n1 "}
	cn, un := []int{17, 65, 260}, []int{17, 130}
	if tier > 0 {
		cn, un = append(cn, 8, 16, 32, 64, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2049, 4097), append(un, 260, 520)
		chars = append(chars, "-", "#", "\\", "/", "\t", "'", "\"", "[", "]", "(")
		units = append(units, "if 1{", "if 1{}", "}", "else{", "{kk=>", "[1,", "(1 or ", "!(", "filter{}", "# \"'\n", "\\'", "'\"' ", "\r\n")
	}
	for _, d := range baseDocs {
		for i := 0; i <= len(d); i++ {
			for _, c := range chars {
				for _, n := range cn {
					emit(d[:i] + rep(c, n) + d[i:])
				}
			}
			if i > 0 && isNameCh(d[i-1]) && i < len(d) && isNameCh(d[i]) {
				continue // inside of a word
			}
			for _, u := range units {
				for _, n := range un {
					emit(d[:i] + rep(u, n) + d[i:])
				}
			}
		}
	}
}

// longGapDocs: every gap of every base document replaced by long blanks around comments and by long comments.
func longGapDocs(tier int, emit func(string)) {
	lens := []int{9, 17, 33, 65, 130, 260}
	if tier > 0 {
		lens = append(lens, 5, 6, 7, 8, 10, 12, 16, 20, 24, 31, 32, 40, 48, 63, 64, 80, 100, 127, 128, 200, 255, 256, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4096, 4097)
	}
	var fill []string
	for _, n := range lens {
		x := rep("x", n)
		fill = append(fill, rep(" ", n)+"#c\n", rep("\n", n)+"# "+x+"\n", "#"+x+"\n#d\n"+rep("\t", n), rep("#\n", n), "#c\n"+rep(" \r\n", n)+"#d\n")
	}
	gapDocs(baseDocs, fill, 1, emit)
}

// unicodeDocs: at every position of every base document, unusual runes and byte sequences that are no runes, inserted and
// in place of the byte there.
func unicodeDocs(tier int, emit func(string)) {
	units := []string{
		"\u00a0", "\u0085", "\ufeff", "\u2028", "\u3000", "\u200b", "\ufffd", "\uffff", "\U0010ffff", "\u0130", "\u017f", "\u212a", "\u0661", "\uff11", "\u00b2", "\u0301", "\ud7ff", "\ue000", "\U0001f600", "\u07ff", "\u0800",
		"\xed\xa0\x80", "\xc0\x80", "\xc0\xaf", "\xe0\x80\xaf", "\xf4\x90\x80\x80", "\xf8\x88\x80\x80\x80", "\xfe", "\xe2\x82", "\xf0\x9f\x98", "\xbf",
	}
	if tier > 0 {
		units = append(units, "\u2029", "\u1680", "\u180e", "\u202e", "\u2003", "\u205f", "\u0378", "\u01c5", "\u00ad", "\ufb01", "\U00010000", "\U000e0001", "\u0080", "\u009f", "\u00ff", "\u0100", "\xf0\x80\x80\x80", "\xed\xbf\xbf", "\xf5\x80\x80\x80", "\xc3\x28", "\xe2\x28\xa1", "\x7f")
	}
	for _, d := range baseDocs {
		for i := 0; i <= len(d); i++ {
			for _, u := range units {
				emit(d[:i] + u + d[i:])
				if i < len(d) {
					emit(d[:i] + u + d[i+1:])
				}
				if tier > 0 {
					emit(d[:i] + u + u + d[i:])
				}
			}
		}
	}
}

// twinDocs: documents in which two or three texts of the same kind, of the same length, differ in one character only.
func twinDocs(tier int, emit func(string)) {
	lens := []int{2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 255, 256, 257, 300, 1023, 1024, 1025, 4097}
	if tier > 0 {
		lens = append(lens, 4, 5, 6, 10, 11, 12, 13, 14, 20, 24, 30, 34, 40, 48, 50, 60, 62, 70, 80, 96, 150, 200, 254, 258, 400, 511, 512, 513, 600, 1000, 2047, 2048, 2049, 4095, 4096, 8193, 16385, 65537)
	}
	pats := []string{
		"filter{p{a=>\"%a\" b=>\"%b\"}}", "filter{p{a=>'%a' b=>\"%b\" c=>'%a'}}", "filter{p{a=>[\"%a\",\"%b\",\"%a\"]}}", "filter{p{a=>%a b=>%b}}",
		"filter{p{h=>{%a=>1 %b=>2}}}", "filter{p{h=>{\"%a\"=>1 '%b'=>2 \"%b\"=>3}}}", "filter{p{%a=>1 %b=>2}}", "filter{%a{}%b{}}", "filter{\"%a\"{}'%b'{}}",
		"filter{if [%a]==[%b]{}}", "filter{if [%a][%b][%a]{}else if [%b][%a]{}}", "filter{if [a]=~/%a/ or [a]=~/%b/{}}", "filter{if \"%a\" in [b] or \"%b\" in [b]{}}", "filter{if [c] in [\"%a\",'%b']{}}",
		"# %a\n# %b\nfilter{#%a\n}#%b", "filter{p{}#%a\nq{}#%b\n}", "filter{p{a=>1 # %a\n# %b\nb=>2}}", "filter{p{a=>q{b=>\"%a\"}}p{a=>q{b=>\"%b\"}}}",
		"filter{p{a=>\"%a\"}}filter{p{a=>\"%b\"}}output{p{a=>\"%a\"}}",
	}
	for _, n := range lens {
		x := rep("x", n)
		for _, at := range []int{0, n / 2, n - 1} {
			for _, c := range []string{"y", "X"} {
				y := x[:at] + c + x[at+1:]
				for _, p := range pats {
					emit(strings.NewReplacer("%a", x, "%b", y).Replace(p))
				}
			}
		}
		for _, p := range pats {
			// one is the beginning of the other
			emit(strings.NewReplacer("%a", x, "%b", x+"y").Replace(p))
			emit(strings.NewReplacer("%a", x+"y", "%b", x).Replace(p))
		}
		for i, d := 0, []string{"1" + rep("0", n%300) + "1", "1" + rep("0", n%300) + "2"}; i < 2; i++ {
			emit("filter{p{a=>" + d[i] + " b=>" + d[1-i] + " c=>0." + d[i] + " d=>0." + d[1-i] + "}}")
		}
	}
}

// longUnits: literals and comments of many lengths made of one repeated unit, at
// every place where the grammar allows one.
func longUnits(tier int, emit func(string)) {
	lens := []int{40, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 2048, 2501, 4097}
	if tier > 0 {
		lens = append(lens, 63, 64, 65, 80, 120, 500, 511, 512, 513, 1023, 2047, 2049, 3000, 4095, 4096, 5000, 8192, 10001, 16385, 65537)
	}
	units := []string{"x", " word", " a", " ", "\t", "\"", "'", "\\\\", "\\n", "#", "é", "𝒳", "\r", "/", "[a]", "%{a} ", " and ", ", ", "{ ", "} ", "1", "-", ".", "=>", "if ", "\n", "\n ", " \n"}
	type place struct {
		pre, post string
		bad       string // a unit with one of these is not tried here
	}
	var places []place
	for _, x := range [][2]string{
		{"", "\nfilter{p{a=>1}}"}, {"filter{}", "\n"}, {"filter{}", "\noutput{}"}, {"filter{", "\np{a=>1}}"}, {"filter{p{a=>1}", "\n}"},
		{"filter{p{", "\na=>1}}"}, {"filter{p{a=>1", "\nb=>2}}"}, {"filter{p{a=>1", "\n}}"}, {"filter{p{}", "\nif 1{p{}}}"}, {"filter{if 1{", "\n}}"},
		{"filter{if 1{p{}}", "\nelse if 2{p{}}"}, {"filter{if 1{p{}}", "\nelse{p{}}}"}, {"filter{if 1{p{}}else{p{}", "\n}}"}, {"filter{if 1{p{}}else if 2{", "\np{}}}"},
		{"filter{p{a=>[", "\n1,2]}}"}, {"filter{p{a=>[1,", "\n2]}}"}, {"filter{p{a=>[1", "\n]}}"}, {"filter{p{a=>{", "\nkk=>1}}}"}, {"filter{p{a=>{kk=>1", "\nll=>2}}}"}, {"filter{p{a=>{kk=>1", "\n}}}"},
		{"filter{p{a=>q{b=>1", "\n}}}"}, {"filter{p{a=>", "\n1}}"}, {"filter{if", "\n1{}}"}, {"filter{if 1", "\nand 2{}}"}, {"filter{if(", "\n1){}}"}, {"filter{if 1 in[", "\n2]{}}"},
	} {
		if x[0] == "filter{if 1{p{}}" && x[1] == "\nelse if 2{p{}}" {
			x[1] += "}"
		}
		places = append(places, place{x[0] + "#", x[1], "\n"})
	}
	for _, q := range []string{"\"", "'"} {
		for _, x := range [][2]string{
			{"filter{p{a=>", "}}"}, {"filter{p{", "=>1}}"}, {"filter{p{a=>[", ",2]}}"}, {"filter{p{a=>[1,", "]}}"}, {"filter{p{a=>{kk=>", "}}}"}, {"filter{p{a=>{", "=>1}}}"},
			{"filter{", "{a=>1}}"}, {"filter{if ", "==1{}}"}, {"filter{if [a]!=", "{}}"}, {"filter{if [a]=~", "{}}"}, {"filter{if ", " in [a]{}}"}, {"filter{if [a]not in[", ",\"\"]{}}"}, {"filter{if ", "{}}"}, {"filter{p{a=>q{b=>", "}}}"}, {"filter{if !(", "){}else if 1{p{}}}"},
		} {
			places = append(places, place{x[0] + q, q + x[1], q})
		}
	}
	places = append(places, place{"filter{if [a]=~/", "/{}}", "/"}, place{"filter{if [a]!~/x", "/and 1{}}", "/"}, place{"filter{if \"\"=~/", "/{p{}}}", "/"})
	places = append(places, place{"filter{if [a", "]{}}", "[],"}, place{"filter{if [a][b", "]==1{}}", "[],"}, place{"filter{if 1==[", "1][b]{}}", "[],"}, place{"filter{if 1 in [", "b]{}}", "[],"})
	for _, p := range places {
		for _, u := range units {
			if strings.ContainsAny(u, p.bad) && p.bad != "" {
				continue
			}
			if u == "x" {
				for _, n := range []int{65535, 65536, 70001} {
					emit(p.pre + rep("x", n) + p.post)
				}
			}
			for _, n := range lens {
				if tier == 0 && (n == 2048 || n == 4097 || n == 1000) && u != "x" && u != " word" && u != "é" && u != "\\\\" {
					continue // for speed
				}
				k := (n + len(u) - 1) / len(u)
				emit(p.pre + strings.Repeat(u, k) + p.post)
			}
		}
	}
}

// hugeDocs: documents with offsets, lines, columns, lengths and counts beyond 16 bits (thorough: 20 bits).
func hugeDocs(tier int, emit func(string)) {
	ns := []int{65530, 70001}
	if tier > 0 {
		ns = append(ns, 65534, 65535, 65536, 65537, 131071, 131073, 1<<20+3)
	}
	tails := []string{valid("filter{p{a=>[1,\"x\",{kk=>'v'}] # c\n b=>q{c=>dd}}if [a][b]=~/r/ and !(1){}else if 2 in [3]{}else{}}#e\noutput{}"), "filter{p{a=>1}} #c\n]", "filter{p{a=>[1,]}}", "filter{p{a=>\"x\xff\"}}"}
	for _, n := range ns {
		for i, t := range tails {
			for _, g := range []string{rep("\n", n), rep(" ", n), "#" + rep("x", n) + "\n", "filter{p{a=>\"" + rep("x", n) + "\"}}", "filter{p{a=>'" + rep("\n", n) + "'}}"} {
				emit(g + t)
			}
			if i < 2 {
				emit(rep("#\n", n/2) + t)
				emit(rep("é", 0) + "#" + rep("é", n/2) + "\n" + t)
				emit("filter{p{a=>\"" + rep("ä", n) + "\" b=>\"\n" + rep("é", n) + "\" c=>1}}" + t)
			}
		}
		emit("filter{p{a=>" + rep("x", n) + " b=>" + rep("1", 300) + " c=>\"" + rep("\\\"", n/2) + "\"}}")
		emit("filter{" + rep("x", n) + "{" + rep("y", n) + "=>1}}")
		emit("filter{if [" + rep("x", n) + "]=~/" + rep("y", n) + "/{p{a=>1}}}")
		emit("filter{p{a=>[1" + rep(" ", n) + ",2]" + rep("\n", n) + "b=>{kk=>1" + rep("\t", n) + "ll=>2}}}")
	}
	if tier > 0 {
		n := 66000
		for _, x := range [][3]string{{"filter{", "p{}", "}"}, {"filter{p{", "a=>1 ", "}}"}, {"filter{p{a=>[1", ",2", "]}}"}, {"filter{p{a=>{", "kk=>1 ", "}}}"}, {"", "input{}", ""}, {"filter{", "#c\n", "}"}, {"filter{if [a]", "[b]", "{}}"}, {"filter{", "if 1{}", "}"}} {
			emit(x[0] + rep(x[1], n) + x[2])
			emit(x[0] + rep(x[1], n) + "|" + x[2])
		}
	}
}

func moreClasses(tier int) []class {
	n := 4
	if tier > 0 {
		n = 6
	}
	return []class{
		{"keywords", "at every choice of keywords: all splices of a prefix and a suffix of two keywords, all case variants, all single insertions", func(e func(string)) { keywordDocs(tier, e) }},
		{"elements", fmt.Sprintf("all lists of at most %d elements of a small alphabet, for every kind of list of the grammar", n), func(e func(string)) { elementDocs(tier, e) }},
		{"inflate", "at every position of every base document a letter, digit, blank, newline or list element repeated up to 260 times (thorough: more units, up to 4097 times)", func(e func(string)) { inflateDocs(tier, e) }},
		{"unicode", "unusual runes (other blanks, digits and letters, limits of the encoding) and bytes that are no runes inserted at and in place of every byte of every base document", func(e func(string)) { unicodeDocs(tier, e) }},
		{"long-gaps", "every gap of every base document replaced by long blanks before, between and after comments, and by long and many comments", func(e func(string)) { longGapDocs(tier, e) }},
		{"twins", "two or three literals, names, comments or selector elements of the same length (2 to 4097, thorough 65537) that differ in their first, middle or last character only, or one of which is the beginning of the other", func(e func(string)) { twinDocs(tier, e) }},
		{"long-units", "every literal and comment, at every place where the grammar allows one, made of one of 28 repeated units (words, blanks, quotes, escapes, brackets, keywords, wide characters, newlines) with 11 (for some units 14) lengths up to 4097 bytes, letters up to 70001 (thorough: 34 up to 65537)", func(e func(string)) { longUnits(tier, e) }},
		{"huge", "offsets, lines, columns and lengths beyond 16 bits (thorough: 20 bits, and counts of list elements beyond 16 bits)", func(e func(string)) { hugeDocs(tier, e) }},
		{"rejected-long", "rejected texts around literals, comments and gaps of many lengths", func(e func(string)) { rejectedLong(tier, e) }},
	}
}

// opProcess: this process executes one case for its parent and should start fast.
var opProcess = len(os.Args) > 1 && os.Args[1] == "-op"

// valid guards against documents that are meant to be accepted and are not.
func valid(doc string) string {
	if opProcess {
		return doc // checked by the parent process
	}
	if r := refParse(doc); !r.ok {
		panic("document of the harness is not accepted by the reference: " + doc)
	}
	return doc
}

func invalid(doc string) string {
	if opProcess {
		return doc
	}
	if r := refParse(doc); r.ok {
		panic("document of the harness is accepted by the reference: " + doc)
	}
	return doc
}
