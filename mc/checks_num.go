package main

import (
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"

	"github.com/breml/logstash-config/ast"
)

// ---- C26: numbers ----
//
// A case is "lit:" + number literal or "api:" + bits of a double in hex.

var numberRe = regexp.MustCompile(`^-?[0-9]+(\.[0-9]*)?$`)

const numberDoc = "filter{p{a=>%V b=>[%V ,[%V ]] c=>{kk=>%V %V=>{ll=>%V }} d=>json{x=>%V }}if 1==%V or [x] in [%V ,%V ]{if %V<%V {}else{q{y=>%V }}}}"

// numbersOf lists the numbers of a tree in order.
func numbersOf(n *N) []float64 {
	var out []float64
	anyNode(n, func(n *N) bool {
		if n.HasNum {
			out = append(out, n.Num)
		}
		return false
	})
	return out
}

// nearest: is f the double nearest to the literal (ties to even)?
func nearest(lit string, f float64) bool {
	v, ok := new(big.Rat).SetString(strings.TrimSuffix(lit, "."))
	if !ok {
		return false
	}
	if v.Sign() == 0 {
		return f == 0 && math.Signbit(f) == strings.HasPrefix(lit, "-")
	}
	if math.IsInf(f, 0) || math.IsNaN(f) {
		return false
	}
	if f != 0 && (f < 0) != (v.Sign() < 0) {
		return false
	}
	v.Abs(v)
	a := math.Abs(f)
	x := new(big.Rat).SetFloat64(a)
	even := math.Float64bits(a)&1 == 0
	mid := func(b float64, up bool) *big.Rat {
		var y *big.Rat
		if math.IsInf(b, 0) {
			// one ulp above the largest double
			y = new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 1024))
		} else {
			y = new(big.Rat).SetFloat64(b)
		}
		return y.Add(y, x).Mul(y, big.NewRat(1, 2))
	}
	if c := v.Cmp(mid(math.Nextafter(a, math.Inf(1)), true)); c > 0 || c == 0 && !even {
		return false
	}
	if a > 0 {
		if c := v.Cmp(mid(math.Nextafter(a, 0), false)); c < 0 || c == 0 && !even {
			return false
		}
	}
	return true
}

// inRange: does a finite double nearest to the literal exist?
func inRange(lit string) bool {
	v, ok := new(big.Rat).SetString(strings.TrimSuffix(lit, "."))
	if !ok {
		return false
	}
	max := new(big.Rat).SetFloat64(math.MaxFloat64)
	lim := new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 1024))
	lim.Add(lim, max).Mul(lim, big.NewRat(1, 2))
	return v.Abs(v).Cmp(lim) < 0
}

func checkPrinted(c ast.Config, want []float64) string {
	s, err := format(c)
	if err != nil {
		return err.Error()
	}
	for _, src := range []string{"parser", "reference"} {
		var t *N
		if src == "parser" {
			p := parseDoc(s)
			if !p.ok {
				return fmt.Sprintf("printed text is not accepted: %s\n%s", p.verdict(), s)
			}
			t = convConfig(p.conf)
		} else {
			r := refParse(s)
			if !r.ok {
				return fmt.Sprintf("printed text is not in the language:\n%s", s)
			}
			t = r.tree
		}
		got := numbersOf(t)
		if len(got) != len(want) {
			return fmt.Sprintf("printed text has %d numbers instead of %d:\n%s", len(got), len(want), s)
		}
		for i := range got {
			if math.Float64bits(got[i]) != math.Float64bits(want[i]) {
				return fmt.Sprintf("number %d is printed so that it reads back as %v (%x) instead of %v (%x):\n%s", i, got[i], math.Float64bits(got[i]), want[i], math.Float64bits(want[i]), s)
			}
		}
	}
	return ""
}

func checkC26(c string) verdict {
	return guard(func() verdict {
		if strings.HasPrefix(c, "api:") {
			bits, _ := strconv.ParseUint(c[4:], 16, 64)
			f := math.Float64frombits(bits)
			if txt := ast.NewNumberAttribute("x", f).ValueString(); !numberRe.MatchString(txt) {
				return bad("%v is printed as %q", f, txt)
			}
			num := func(n string) ast.NumberAttribute { return ast.NewNumberAttribute(n, f) }
			conf := ast.NewConfig(nil, ast.NewPluginSections(ast.Filter,
				ast.NewPlugin("p", num("a"), ast.NewArrayAttribute("b", num("")), ast.NewHashAttribute("c", ast.NewHashEntry(num(""), num("")))),
				ast.NewBranch(ast.NewIfBlock(ast.NewCondition(ast.NewCompareExpression(ast.BooleanOperator{Op: ast.NoOperator}, num(""), ast.CompareOperator{Op: ast.Equal}, num("")))), ast.NewElseBlock())), nil)
			if s := checkPrinted(conf, []float64{f, f, f, f, f, f}); s != "" {
				return verdict{bad: fmt.Sprintf("%v set through the API: %s", f, s)}
			}
			return verdict{outcome: "api"}
		}
		lit := strings.TrimPrefix(c, "lit:")
		if !numberRe.MatchString(lit) {
			return trivial
		}
		doc := strings.ReplaceAll(numberDoc, "%V", lit)
		p := parseDoc(doc)
		if !inRange(lit) {
			if p.ok {
				return bad("%s is outside of the double range, but accepted", lit)
			}
			return verdict{outcome: "out of range"}
		}
		if !p.ok {
			return bad("%s is not accepted: %s", lit, p.verdict())
		}
		got := numbersOf(convConfig(p.conf))
		if len(got) != strings.Count(numberDoc, "%V")+1 {
			return bad("%s: %d numbers in the tree of %s", lit, len(got), doc)
		}
		for i, f := range got {
			if i == 7 { // the 1 of the condition
				if f != 1 {
					return bad("order of numbers is wrong in %s: %v", doc, got)
				}
				continue
			}
			if !nearest(lit, f) {
				return bad("%s has the value %v in place %d, which is not the nearest double", lit, f, i)
			}
		}
		if s := checkPrinted(p.conf, got); s != "" {
			return verdict{bad: fmt.Sprintf("%s: %s", lit, s)}
		}
		f := got[0]
		switch {
		case f == math.Trunc(f):
			return verdict{outcome: "integer"}
		case math.Abs(f) < 1e-5:
			return verdict{outcome: "tiny"}
		}
		return verdict{outcome: "fraction"}
	})
}

// plainNumber writes m * 10^k without exponent.
func plainNumber(m string, k int) string {
	if k >= 0 {
		return m + strings.Repeat("0", k)
	}
	k = -k
	if len(m) <= k {
		m = strings.Repeat("0", k-len(m)+1) + m
	}
	return m[:len(m)-k] + "." + m[len(m)-k:]
}

func exactText(r *big.Rat) string {
	// a dyadic rational: the number of decimals is that of the power of two
	d := r.Denom().BitLen() - 1
	return r.FloatString(d)
}

func spacesC26(r *run) []class {
	t := r.tier
	lit := func(e func(string), s string) { e("lit:" + s); e("lit:-" + s) }
	api := func(e func(string), f float64) {
		if !math.IsInf(f, 0) && !math.IsNaN(f) {
			e(fmt.Sprintf("api:%016x", math.Float64bits(f)))
			e(fmt.Sprintf("api:%016x", math.Float64bits(-f)))
		}
	}
	mants := []string{"1", "2", "5", "9", "12", "15", "25", "99", "123", "1005", "123456789", "1234567891", "12345678901", "9007199254740993", "9999999999999999", "17976931348623157", "22250738585072014", "4940656458412465", "123456789012345678901234567890"}
	var doubles func(e func(float64))
	doubles = func(e func(float64)) {
		step := 7 - 6*t
		fr := []uint64{0, 1, 1 << 51, 1<<52 - 1}
		if t > 0 {
			fr = append(fr, 2, 0x5555555555555, 0xAAAAAAAAAAAAA, 1<<26, 1<<52-2)
		}
		for ex := 0; ex < 2047; ex++ {
			if ex%step != 0 && !(ex > 980 && ex < 1100) && ex > 3 && ex < 2044 {
				continue
			}
			for _, m := range fr {
				e(math.Float64frombits(uint64(ex)<<52 | m))
			}
		}
	}
	n := 6 + t
	return []class{
		{"words", fmt.Sprintf("all number literals among the words of at most %d characters over 0159.-", n), func(e func(string)) {
			seqs([]string{"0", "1", "5", "9", "."}, n, "", "", func(s string) {
				if numberRe.MatchString(s) {
					lit(e, s)
				}
			})
		}},
		{"small-fractions", "n/10^k for n up to 120 (thorough 1200) and k up to 13", func(e func(string)) {
			for i := 1; i <= 120+1080*t; i++ {
				for k := 0; k <= 13; k++ {
					lit(e, plainNumber(strconv.Itoa(i), -k))
				}
			}
		}},
		{"integers", "powers of ten and two with their neighbours up to 2^70", func(e func(string)) {
			for b := int64(2); b <= 10; b += 8 {
				p := big.NewInt(1)
				for i := 0; p.BitLen() <= 71; i++ {
					for d := int64(-2); d <= 2; d++ {
						x := new(big.Int).Add(p, big.NewInt(d))
						if x.Sign() >= 0 {
							lit(e, x.String())
							lit(e, x.String()+".")
							lit(e, x.String()+".0")
							f, _ := new(big.Float).SetInt(x).Float64()
							api(e, f)
						}
					}
					p.Mul(p, big.NewInt(b))
				}
			}
		}},
		{"doubles-api", "doubles of all magnitudes (all thorough, every 7th exponent and all near 1 quick) with extreme mantissas, set through the API", func(e func(string)) {
			doubles(func(f float64) { api(e, f) })
		}},
		{"doubles-shortest", "the same doubles written with the fewest digits and with 17 digits", func(e func(string)) {
			doubles(func(f float64) {
				lit(e, strconv.FormatFloat(f, 'f', -1, 64))
				if m := strconv.FormatFloat(f, 'e', 16, 64); f != 0 {
					k, _ := strconv.Atoi(m[strings.IndexByte(m, 'e')+1:])
					lit(e, plainNumber(strings.Replace(m[:strings.IndexByte(m, 'e')], ".", "", 1), k-16))
				}
			})
		}},
		{"magnitudes", "19 mantissas times every (quick: every third) power of ten from -345 to 310", func(e func(string)) {
			for k := -345; k <= 310; k++ {
				if t == 0 && k%3 != 0 && (k < -25 || k > 25) && k < 290 && k > -320 {
					continue
				}
				for _, m := range mants {
					lit(e, plainNumber(m, k))
				}
			}
		}},
		{"ties", "exact midpoints between adjacent doubles, and just above and below", func(e func(string)) {
			i := 0
			doubles(func(f float64) {
				i++
				if t == 0 && i%4 != 1 && math.Abs(f) < math.MaxFloat64/4 {
					return
				}
				x := new(big.Rat).SetFloat64(f)
				up := math.Nextafter(f, math.Inf(1))
				var y *big.Rat
				if math.IsInf(up, 0) {
					y = new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 1024))
				} else {
					y = new(big.Rat).SetFloat64(up)
				}
				m := y.Add(y, x).Mul(y, big.NewRat(1, 2))
				s := exactText(m)
				lit(e, s)
				if strings.Contains(s, ".") {
					lit(e, s+"1")
				} else {
					lit(e, s+".0000001")
				}
				if strings.HasSuffix(s, "5") {
					lit(e, s[:len(s)-1]+"4999")
				}
				lit(e, exactText(x))
			})
		}},
	}
}

func init() {
	checks["C26"] = &propCheck{explorationMain("every literal is parsed in 13 places at once, compared with the nearest double by exact rational arithmetic, printed and parsed again by the parser and by the reference parser; every double is set through the API in 6 places, printed and parsed again; distinct cases count",
		"math/big is exact"), spacesC26, caseOf(checkC26)}
}
