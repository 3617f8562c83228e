package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"

	config "github.com/breml/logstash-config"
)

// ---- C24: options ----
//
// Cases:
//   "o" letters ";" doc        parse with these options in this order, compared with only the options about the result (W, C, N)
//   "m" k ";" doc              parse with at most k expressions
//   "u" doc                    doc with bytes that are not UTF-8
//   "r" doc                    recover disabled

type cloneable struct{ n *int }

func (c cloneable) Clone() interface{} { n := *c.n; return cloneable{&n} }

func option(l byte, stats *config.Stats) config.Option {
	switch l {
	case 'S':
		return config.Statistics(stats, "no match")
	case 'D':
		return config.Debug(true)
	case 'd':
		return config.Debug(false)
	case 'R':
		return config.Recover(true)
	case 'r':
		return config.Recover(false)
	case 'G':
		return config.GlobalStore("user key", []string{"x"})
	case 'I':
		return config.InitState("user key", 7)
	case 'i':
		n := 3
		return config.InitState("user key", cloneable{&n})
	case 'M':
		return config.MaxExpressions(1 << 40)
	case 'm':
		return config.MaxExpressions(0)
	case 'l':
		return config.MaxExpressions(40)
	case 'g':
		return config.GlobalStore("ignoreComments", true)
	case 'h':
		return config.GlobalStore("warnings", []error{})
	case 'E':
		return config.Entrypoint("")
	case 'Z':
		return config.Memoize(true)
	case 'z':
		return config.Memoize(false)
	case 'U':
		return config.AllowInvalidUTF8(true)
	case 'u':
		return config.AllowInvalidUTF8(false)
	case 'W':
		return config.ExceptionalCommentsWarning(true)
	case 'w':
		return config.ExceptionalCommentsWarning(false)
	case 'C':
		return config.IgnoreComments(true)
	case 'c':
		return config.IgnoreComments(false)
	}
	panic("unknown option " + string(l))
}

var devNull *os.File

// quietly runs f with standard output discarded (the debug option prints to it).
func quietly(f func() (interface{}, error)) func() (interface{}, error) {
	return func() (interface{}, error) {
		if devNull == nil {
			var err error
			devNull, err = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
			fatalIf(err)
		}
		old := os.Stdout
		os.Stdout = devNull
		defer func() { os.Stdout = old }()
		return f()
	}
}

func parseWith(letters, doc string, extra ...config.Option) (string, *config.Stats) {
	stats := &config.Stats{}
	var opts []config.Option
	for i := 0; i < len(letters); i++ {
		opts = append(opts, option(letters[i], stats))
	}
	opts = append(opts, extra...)
	f := func() (interface{}, error) { return config.Parse(docName, []byte(doc), opts...) }
	if strings.Contains(letters, "D") {
		f = quietly(f)
	}
	return observeParse(f), stats
}

// aboutOptions are the options among the letters that are about the result; the last of several settings of one counts.
func aboutOptions(letters string) string {
	out := ""
	for _, group := range []string{"Ww", "Cc", "Uu", "Mml"} {
		if i := strings.LastIndexAny(letters, group); i >= 0 && strings.IndexByte("WCUl", letters[i]) >= 0 {
			out += letters[i : i+1]
		}
	}
	return out
}

const limitText = "max number of expresssions parsed"

func checkC24() caseCheck {
	memo := map[string]string{}
	base := func(letters, doc string) string {
		k := letters + ";" + doc
		if s, ok := memo[k]; ok {
			return s
		}
		s, _ := parseWith(letters, doc)
		if len(memo) < 2000 {
			memo[k] = s
		}
		return s
	}
	return func(c string) verdict {
		return guard(func() verdict {
			switch c[0] {
			case 'o':
				letters, doc, _ := strings.Cut(c[1:], ";")
				want := base(aboutOptions(letters), doc)
				got, _ := parseWith(letters, doc)
				if strings.Contains(letters, "Z") && strings.HasPrefix(want, "error: ") && strings.HasPrefix(got, "error: ") {
					// the reports of failures may differ: a memoized expression does not report again
					return verdict{outcome: "rejected, memoized"}
				}
				if want != got {
					return bad("options %s change the result: %s", letters, firstDiff(want, got))
				}
				return verdict{outcome: firstWord(want)}
			case 'm':
				ks, doc, _ := strings.Cut(c[1:], ";")
				k, _ := strconv.ParseUint(ks, 10, 64)
				want := base("W", doc)
				_, stats := parseWith("SW", doc)
				got, _ := parseWith("W", doc, config.MaxExpressions(k))
				limited := strings.HasPrefix(got, "error: ") && strings.Contains(got, limitText) && !strings.Contains(got, "with a result of type")
				if got != want && !limited {
					return bad("a limit of %d expressions gives neither the unlimited result nor the limit error: %s", k, firstDiff(want, got))
				}
				if k >= stats.ExprCnt && got != want {
					return bad("a limit of %d expressions is sufficient (%d are used), but the result is %s", k, stats.ExprCnt, got)
				}
				if k < stats.ExprCnt && !limited {
					return bad("a limit of %d expressions is insufficient (%d are used), but the result is %s", k, stats.ExprCnt, got)
				}
				if limited {
					r, _ := parseWith("W", doc, config.MaxExpressions(k), config.Recover(false))
					if r != "panic: "+limitText {
						return bad("with recovery disabled the limit of %d gives %s", k, r)
					}
					return verdict{outcome: "limit"}
				}
				return verdict{outcome: "sufficient"}
			case 'r':
				doc := c[1:]
				want := base("", doc)
				got, _ := parseWith("", doc, config.Recover(false))
				abort := strings.HasPrefix(want, "error: ") && strings.Contains(strings.SplitN(want, "\nfarthest: ", 2)[0], "Parsing error at pos")
				if !abort && got != want && strings.HasPrefix(got, "panic: ") && strings.HasPrefix(want, "error: ") {
					// an abort in a semantic action (e.g. a plugin as hash value) ends the parse with its message
					if first, _, _ := strings.Cut(want, "\n"); strings.HasSuffix(first, ": "+strings.TrimPrefix(got, "panic: ")) {
						return verdict{outcome: "abort in an action"}
					}
				}
				if !abort {
					if got != want {
						return bad("disabling recovery changes the result: %s", firstDiff(want, got))
					}
					return verdict{outcome: "no abort"}
				}
				if !strings.HasPrefix(got, "panic: ") || !strings.Contains(want, strings.TrimSpace(strings.TrimPrefix(got, "panic: "))) {
					return bad("disabling recovery must panic with the error %s, got: %s", want, got)
				}
				return verdict{outcome: "abort"}
			}
			doc := c[1:]
			plainDoc := strings.ToValidUTF8(doc, "\x01")
			// ToValidUTF8 replaces runs of invalid bytes by one replacement
			var b strings.Builder
			var bad1 []byte
			for i := 0; i < len(doc); {
				if n := validLen(doc[i:]); n > 0 {
					b.WriteString(doc[i : i+n])
					i += n
					continue
				}
				bad1 = append(bad1, doc[i])
				b.WriteByte(1)
				i++
			}
			plainDoc = b.String()
			want := base("W", plainDoc)
			got, _ := parseWith("UW", doc)
			sub := replaceAll01(want, got, bad1)
			if got != sub {
				return bad("invalid UTF-8 is not kept verbatim or changes the result (compared with the same text with \\x01 in place of the invalid bytes): %s", firstDiff(sub, got))
			}
			off, _ := parseWith("W", doc)
			if !strings.HasPrefix(off, "error: ") {
				return bad("invalid UTF-8 is accepted although it is not allowed")
			}
			if strings.HasPrefix(want, "error: ") {
				return verdict{outcome: "invalid UTF-8, rejected"}
			}
			return verdict{outcome: "invalid UTF-8, accepted"}
		})
	}
}

func firstWord(s string) string {
	if strings.HasPrefix(s, "error") {
		return "rejected"
	}
	return "accepted"
}

// validLen is the length of the rune s starts with, 0 if that is no rune.
func validLen(s string) int {
	for i, r := range s {
		if i > 0 {
			return i
		}
		if r == 0xFFFD && !strings.HasPrefix(s, "\xef\xbf\xbd") {
			return 0
		}
	}
	return len(s)
}

// replaceAll01 writes the invalid bytes back into the expected observation, in all forms they are shown in.
func replaceAll01(want, got string, bytes []byte) string {
	// all invalid bytes of a case are the same byte
	b := string(bytes[:1])
	want = strings.ReplaceAll(want, `\x01`, strings.Trim(strconv.Quote(b), `"`))
	return strings.ReplaceAll(want, "\x01", b)
}

var optDocs = []string{
	"filter{}",
	"",
	"#c\n",
	"filter{p{a=>1}}",
	"filter { if [a] == 1 and #x\n [b] { p { a => [1, \"x\"] } } }",
	"input{p{a=>{kk=>'v'}}}# end\n",
	"filter{if[a]#1\n in#2\n[1,2]{}else#3\nif 1{}}",
	"filter{p{a=>\"x}}",
	"filter{if 1{p{a=>[1,}}",
	"x",
	"filter{p{a b}}",
	"#c\nfilter{#d\np{#e\na#f\n=>#g\n1#h\n}}#i",
}

func spacesC24(r *run) []class {
	small := optDocs
	neutral := "SDRGIMEUZ"
	return []class{
		{"limits", "every expression limit from 1 to past the number of expressions (large counts: every 1/1500th, 1/6000th thorough) for every document", func(e func(string)) {
			for i, d := range append(append([]string{}, small...), baseDocs...) {
				_ = i
				_, st := parseWith("SW", d)
				n := st.ExprCnt
				lim := uint64(1500 + 4500*r.tier)
				step := uint64(1)
				if n > lim {
					step = n / lim
				}
				for k := uint64(1); k <= n+3; k++ {
					if k < 200 || k+200 > n || k%step == 0 {
						e(fmt.Sprintf("m%d;%s", k, d))
					}
				}
			}
		}},
		{"subsets", "all subsets of the neutral options with all combinations of the warning and comment options on the small documents", func(e func(string)) {
			for _, about := range []string{"", "W", "C", "WC", "CW"} {
				for m := 0; m < 1<<len(neutral); m++ {
					s := ""
					for i := range neutral {
						if m>>i&1 == 1 {
							s += neutral[i : i+1]
						}
					}
					for _, d := range small {
						e("o" + about + s + ";" + d)
					}
				}
			}
		}},
		{"orders", "all sequences of at most three distinct options (thorough: four) on the small documents", func(e func(string)) {
			al := "WCSDRGIiMmEUudwcZzgh"
			var rec func(s string, left int)
			rec = func(s string, left int) {
				for i, d := range small {
					if len(s) > 2 && i%3 != len(s)%3 && r.tier == 0 {
						continue
					}
					e("o" + s + ";" + d)
				}
				if left == 0 {
					return
				}
				for i := range al {
					if !strings.Contains(s, al[i:i+1]) {
						rec(s+al[i:i+1], left-1)
					}
				}
			}
			rec("", 3+r.tier)
		}},
		{"repeats", "all sequences of at most five (thorough: six) settings of the options about the result, each on, off and again, on the small documents and an invalid one", func(e func(string)) {
			docs := append(append([]string{}, small...), "filter{p{a=>'\xff'#\xc3\n}}", "filter{if 1#c\n{p{a=>[1]}}}#\xff")
			for _, al := range []string{"WwC", "Ccw", "MmlW", "Uucz", "ZzC", "WCU"} {
				seqs(strings.Split(al, ""), 5+r.tier, "", "", func(s string) {
					for i, d := range docs {
						if len(s) < 4 || (len(s)+i)%3 == 0 || r.tier > 0 {
							e("o" + s + ";" + d)
						}
					}
				})
			}
		}},
		{"no-recover", "recovery disabled, for every document of the token spaces (at most 3 symbols, thorough 4) and all truncations of the base documents", func(e func(string)) {
			for _, h := range tokenHoles {
				seqs(h.alpha, 3+r.tier, h.prefix, h.suffix, func(d string) { e("r" + d) })
			}
			for _, d := range append(append([]string{}, small...), baseDocs...) {
				for i := range d {
					e("r" + d[:i])
					e("r" + d[:i] + d[i+1:])
				}
			}
		}},
		{"all-options", "all neutral options at once, except debug, on the token and character spaces (at most 3 symbols, thorough 4)", func(e func(string)) {
			for _, hs := range [][]hole{tokenHoles, charHoles} {
				for _, h := range hs {
					seqs(h.alpha, 3+r.tier, h.prefix, h.suffix, func(d string) {
						e("oWSRGIMEUZ;" + d)
						if strings.Contains(d, "#") {
							e("oCUSMiGZ;" + d)
						}
					})
				}
			}
		}},
		{"all-options-documents", "all neutral options at once, and memoize alone, on all fillers in all gaps of the base documents, the pools and the trees (thorough: and the sweeps and keywords)", func(e func(string)) {
			n := 0
			f := func(d string) {
				n++
				e("oWZ;" + d)
				if n%4 == 0 || r.tier > 0 {
					e("oWSRGIMEUZ;" + d)
					e("oCSGZ;" + d)
				}
			}
			gapDocs(baseDocs, fillers, 1, f)
			allGapsDocs(baseDocs, fillers, f)
			m := 0
			g := func(d string) {
				m++
				if m%9 == 0 || r.tier > 0 {
					f(d)
				}
			}
			poolDocs(r.tier, g)
			treeDocs(r.tier, g)
			if r.tier > 0 {
				sweepDocs(0, f)
				keywordDocs(0, f)
			}
		}},
		{"invalid-utf8", "an invalid byte inserted at and replacing every byte of the documents, one and two at a time, four kinds of bytes", func(e func(string)) {
			for _, d := range append(append([]string{}, small...), baseDocs...) {
				for _, b := range []string{"\xff", "\x80", "\xc3", "\xe2\xe2"} {
					for i := 0; i <= len(d); i++ {
						if i < len(d) && d[i] >= 0x80 {
							continue // would invalidate other bytes, too
						}
						e("u" + d[:i] + b + d[i:])
						if i < len(d) {
							e("u" + d[:i] + b + d[i+1:])
						}
						if len(d) < 70 && b == "\xff" {
							for j := i + 1; j <= len(d); j++ {
								e("u" + d[:i] + b + d[i:j] + b + d[j:])
							}
						}
					}
				}
			}
			for _, h := range charHoles {
				al := append([]string{"\xff"}, h.alpha...)
				seqs(al, 3, h.prefix, h.suffix, func(d string) {
					if strings.Contains(d, "\xff") {
						e("u" + d)
					}
				})
			}
		}},
	}
}

func init() {
	checks["C24"] = &propCheck{
		main:   explorationMain("every combination, order and expression limit of the listed spaces; the observation (tree with positions and comments, warnings, error text, farthest failure) is compared with the one without the neutral options; distinct (options, document) pairs count"),
		spaces: spacesC24,
		check:  func(r *run) caseCheck { return checkC24() },
	}
}
