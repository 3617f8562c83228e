package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"

	config "github.com/breml/logstash-config"
	"github.com/breml/logstash-config/ast"
	"github.com/breml/logstash-config/ast/astutil"
)

// ---- C11: histories of library calls ----
//
// A case is a string of one-letter operations. It is executed in a process of its own; every operation's observation
// must equal the observation of that operation in a process that only executed what the operation is about.

type failReader struct {
	text string
	done bool
}

func (f *failReader) Read(p []byte) (int, error) {
	if f.done {
		return 0, errors.New("the disk is on fire")
	}
	f.done = true
	return copy(p, f.text), nil
}

type histParse struct {
	what string
	text string
	file string
	opts func() []config.Option
	via  string // "", reader, failreader, missing
	// stats: the statistics of the parse are observed as well.
	stats bool
}

var (
	histA = valid("# head\ninput {\n  # one\n  stdin { a => [1, \"x\", {kk => 'v'}] } # foot\n}\nfilter { if [a][b] == 1 and !([c] in [1,2]) { mutate { id => \"é\" } } else { # c\n } }\n")
	histW = valid("input { # 1\n stdin { a # w1\n => # w2\n 1 } } filter { if # w3\n [a] # w4\n { x {} } }")
	histF = "input { stdin { a => } }"
	histU = "filter { # c\n p { s => \"never closed } }"
	histO = "filter { if # w1\n [a] # w2\n == # w3\n 1 # w4\n { p { # c\n a # w5\n => # w6\n 1 } } } nonsense"
	histI = "filter { p { s => 'a\xff' # \xfe\n } }"
)

var histL = valid(strings.Repeat("# long\nfilter { # w\n p { a => \"some value\" b => [1, 'x', {kk # w2\n => 1}] # foot\n } }\n", 28))

var sharedOpt = config.ExceptionalCommentsWarning(true)
var sharedOff = config.IgnoreComments(false)

var histParses = map[byte]histParse{
	'a': {what: "parse a configuration with comments", text: histA, file: "a.conf"},
	'b': {what: "parse with exceptional comments, warnings on", text: histW, file: "b.conf", opts: func() []config.Option { return []config.Option{config.ExceptionalCommentsWarning(true)} }},
	'c': {what: "the same text without options", text: histW, file: "c.conf"},
	'd': {what: "comments ignored", text: histA, file: "", opts: func() []config.Option { return []config.Option{config.IgnoreComments(true)} }},
	'e': {what: "a text that is rejected", text: histF, file: "a.conf"},
	'f': {what: "a text with an unclosed string", text: histU, file: "b.conf"},
	'g': {what: "a text with an unclosed string, recovery off", text: "\n" + histU, file: "g.conf", opts: func() []config.Option { return []config.Option{config.Recover(false)} }},
	'h': {what: "aborted by the expression limit with pending warnings", text: histO, file: "h.conf", opts: func() []config.Option {
		return []config.Option{config.MaxExpressions(900), config.ExceptionalCommentsWarning(true)}
	}},
	'i': {what: "aborted by an expression limit of 1", text: histA, file: "i.conf", opts: func() []config.Option { return []config.Option{config.MaxExpressions(1)} }},
	'j': {what: "a reader that fails", text: histA, file: "j.conf", via: "failreader"},
	'k': {what: "a missing file", file: "/nonexistent/k.conf", via: "missing"},
	'l': {what: "with statistics", text: histW, file: "l.conf", stats: true},
	'm': {what: "invalid UTF-8", text: histI, file: "m.conf"},
	'n': {what: "invalid UTF-8 allowed", text: histI, file: "n.conf", opts: func() []config.Option { return []config.Option{config.AllowInvalidUTF8(true)} }},
	'o': {what: "rejected after warnings were collected", text: histO, file: "o.conf", opts: func() []config.Option { return []config.Option{sharedOpt, sharedOff} }},
	'p': {what: "an empty text", text: "", file: "p.conf"},
	'q': {what: "other state and global store entries, from a reader", text: histW, file: "q.conf", via: "reader", opts: func() []config.Option {
		return []config.Option{sharedOff, config.InitState("x", 1), config.GlobalStore("y", 2), sharedOpt}
	}},
	's': {what: "an other text of the same length and name", text: strings.Replace(histA, "one", "two", 1), file: "a.conf"},
	't': {what: "rejected after many lines", text: histL + "filter { if 1 { p { a => [1, ] } }", file: "t.conf"},
	'u': {what: "a long text with comments and warnings", text: histL, file: "a.conf", opts: func() []config.Option { return []config.Option{config.ExceptionalCommentsWarning(true)} }},
	'r': {what: "rejected at the first character", text: "}", file: "r.conf"},
	'w': {what: "a word, rejected without a failure report", text: "filter", file: "w.conf"},
}

// Texts of the same length and name that differ only in the middle; not part of the general alphabet.
var histTwins = "ABCDYZ"

func histTwin(n int, mid string) string {
	fill := strings.Repeat("# comment\n", n/20)
	return "filter{" + fill + "p{a=>\"" + mid + "\"} # " + mid + "\n" + fill + "}"
}

func init() {
	for i, mid := range []string{"one", "two"} {
		histParses["AB"[i]] = histParse{what: "text " + mid + " of 3000 bytes, in a buffer that is used again", text: histTwin(3000, mid), file: "w.conf", via: "buffer"}
		histParses["CD"[i]] = histParse{what: "text " + mid + " of 70000 bytes", text: histTwin(70000, mid), file: "w.conf"}
		histParses["YZ"[i]] = histParse{what: "file holding text " + mid + ", with the same name, size and time", text: histTwin(200, mid), file: "w.conf", via: "file"}
	}
}

// Operations on trees already returned.
const (
	histPrint   = 'P' // print the last tree
	histEdit    = 'E' // edit the last tree in place with ApplyPlugins
	histClobber = 'X' // overwrite the input buffers of all earlier parses
	histAgain   = 'G' // read the farthest failure again
	histBurst   = 'v' // parse 400 different configurations and compare each with the reference
	histFlood   = 'V' // parse 9000 different small configurations and compare each tree with the reference
	histMany    = '*' // the parse operation before 600 times more, its observation must stay the same
	histLots    = '&' // the same 66000 times
)

func histAlphabet() string {
	var k []byte
	for c := range histParses {
		if strings.IndexByte(histTwins, c) < 0 {
			k = append(k, c)
		}
	}
	sort.Slice(k, func(i, j int) bool { return k[i] < k[j] })
	return string(k) + "PEXG"
}

var histDir string

type histTree struct {
	conf ast.Config
	dump string
}

func burstDoc(n int) string {
	k := fmt.Sprint(n)
	d := "# h" + k + "\nfilter { p" + k + " { a" + k + " => \"value " + k + "\" b => " + k + " # c" + k + "\n c => [ 's" + k + "', bw" + k + " ] h => { kk" + k + " => 1." + k + " } # f" + k + "\n } if [f" + k + "] =~ /r" + k + "/ { q { } } else if \"v" + k + "\" in [g" + k + "] { } }"
	return d[:len(d)-2] + strings.Repeat("x { } ", n%7) + "}"
}

// runOp executes a history and writes the observations as JSON.
func runOp(h string) int {
	if strings.HasPrefix(h, "deep:") {
		return runDeep("\x00" + h)
	}
	if f, ok := strings.CutPrefix(h, concFirst); ok {
		return runFirst(f)
	}
	var out []string
	var trees, burst []*histTree
	var bufs [][]byte
	var shared []byte
	far := ""
	defer func() {
		if histDir != "" {
			os.RemoveAll(histDir)
		}
	}()
	parse := func(p histParse, keep bool) (string, interface{}) {
		var opts []config.Option
		if p.opts != nil {
			opts = p.opts()
		}
		var st config.Stats
		if p.stats {
			opts = append(opts, config.Statistics(&st, "no match"))
		}
		b := []byte(p.text)
		var v interface{}
		var err error
		var pan interface{}
		func() {
			defer func() { pan = recover() }()
			switch p.via {
			case "reader":
				v, err = config.ParseReader(p.file, bytes.NewReader(b), opts...)
			case "failreader":
				v, err = config.ParseReader(p.file, &failReader{text: p.text}, opts...)
			case "missing":
				v, err = config.ParseFile(p.file, opts...)
			case "buffer":
				if shared == nil {
					shared = make([]byte, len(b))
				}
				copy(shared, b)
				v, err = config.Parse(p.file, shared, opts...)
			case "file":
				if histDir == "" {
					dir, e := os.MkdirTemp("", "verif-hist")
					fatalIf(e)
					histDir = dir
					fatalIf(os.Chdir(dir))
				}
				fatalIf(os.WriteFile(p.file, b, 0o600))
				fatalIf(os.Chtimes(p.file, time.Unix(1e9, 0), time.Unix(1e9, 0)))
				v, err = config.ParseFile(p.file, opts...)
			default:
				if keep {
					bufs = append(bufs, b)
				}
				v, err = config.Parse(p.file, b, opts...)
			}
		}()
		o := "result: "
		if pan != nil {
			o += fmt.Sprintf("panic %v", pan)
		} else {
			o += observeResult(v, err)
		}
		if p.stats {
			j, _ := json.Marshal(st)
			o += "\nstatistics: " + string(j)
		}
		f, ok := config.GetFarthestFailure()
		far = fmt.Sprintf("%v %s", ok, f)
		if p.via != "failreader" && p.via != "missing" {
			o += "\nfarthest failure: " + far
		}
		if err != nil || pan != nil {
			v = nil
		}
		return o, v
	}
	for i := 0; i < len(h); i++ {
		var o string
		switch op := h[i]; op {
		case histPrint:
			o = "no tree"
			if len(trees) > 0 {
				s, err := format(trees[len(trees)-1].conf)
				o = fmt.Sprintf("%v %s", err, s)
			}
		case histEdit:
			o = "no tree"
			if len(trees) > 0 {
				t := trees[len(trees)-1]
				o = histEditTree(t)
			}
		case histBurst:
			for n := 0; n < 400; n++ {
				d := valid(burstDoc(n))
				ref := refParse(d)
				for _, f := range []docCheckFn{checkC01, checkC02, checkC03, checkC07} {
					if v := f(d, ref); v.bad != "" {
						o += fmt.Sprintf("\nparse %d of the burst: %s", n, v.bad)
					}
				}
				if n == 7 {
					if p := parseDoc(d); p.ok {
						burst = append(burst, &histTree{p.conf, dumpTree(convConfig(p.conf), dAll) + fmt.Sprintf("%q", p.conf.Warnings)})
					}
				}
			}
		case histFlood:
			for n := 0; n < 9000 && o == ""; n++ {
				d := fmt.Sprintf("filter{p%d{a%d=>\"%d\" b=>%d #%d\n}if[a%d]{}}", n%97, n%89, n, n, n, n%83)
				if p := parseDoc(d); !p.ok {
					o = fmt.Sprintf("parse %d of the flood: %v", n, p.err)
				} else if a, b := dumpTree(convConfig(p.conf), dAll), dumpTree(refParse(d).tree, dAll); a != b {
					o = fmt.Sprintf("parse %d of the flood: %s", n, firstDiff(b, a))
				}
			}
		case histMany, histLots:
			p, ok := histParses[h[max(0, i-1)]]
			if !ok {
				return 2
			}
			for n := 0; n < map[byte]int{histMany: 600, histLots: 66000}[op] && o == ""; n++ {
				if now, _ := parse(p, false); now != out[i-1] {
					o = fmt.Sprintf("the result changed at repetition %d: %s", n, firstDiff(out[i-1], now))
				}
			}
		case histClobber:
			for _, b := range bufs {
				for k := range b {
					b[k] = "}\"# {"[k%5]
				}
			}
		case histAgain:
			// The report may contain text of the input of the last parse, which the caller owns.
			if !strings.Contains(h[:i], string(rune(histClobber))) {
				f, ok := config.GetFarthestFailure()
				if g := fmt.Sprintf("%v %s", ok, f); far != "" && g != far {
					o = "the report changed from " + far + " to " + g
				}
			}
		default:
			p, ok := histParses[op]
			if !ok {
				return 2
			}
			var v interface{}
			o, v = parse(p, true)
			if c, ok := v.(ast.Config); ok {
				trees = append(trees, &histTree{c, dumpTree(convConfig(c), dAll) + fmt.Sprintf("%q", c.Warnings)})
			}
		}
		for k, t := range append(append([]*histTree{}, trees...), burst...) {
			if now := dumpTree(convConfig(t.conf), dAll) + fmt.Sprintf("%q", t.conf.Warnings); now != t.dump {
				o += fmt.Sprintf("\ntree %d changed: %s", k, firstDiff(t.dump, now))
				t.dump = now
			}
		}
		out = append(out, o)
	}
	json.NewEncoder(os.Stdout).Encode(out)
	return 0
}

func observeResult(v interface{}, err error) string {
	if err != nil {
		return fmt.Sprintf("error %T %v with %T", err, err, v)
	}
	c, ok := v.(ast.Config)
	if !ok {
		return fmt.Sprintf("%T without error", v)
	}
	return fmt.Sprintf("%s\nwarnings %q", dumpTree(convConfig(c), dAll), c.Warnings)
}

func histEditTree(t *histTree) string {
	var visits []string
	edit := func(s []ast.PluginSection) {
		for i := range s {
			s[i].BranchOrPlugins = astutil.ApplyPlugins(s[i].BranchOrPlugins, func(c *astutil.Cursor) {
				visits = append(visits, c.Plugin().Name())
				c.InsertBefore(ast.NewPlugin("before"))
				p := c.Plugin()
				p.Attributes = append(p.Attributes, ast.NewStringAttribute("edited", "yes", ast.DoubleQuoted))
				c.Replace(p)
				c.InsertAfter(ast.NewPlugin("after"))
			})
		}
	}
	edit(t.conf.Input)
	edit(t.conf.Filter)
	edit(t.conf.Output)
	t.dump = dumpTree(convConfig(t.conf), dAll) + fmt.Sprintf("%q", t.conf.Warnings)
	return strings.Join(visits, " ") + "\n" + t.dump
}

var (
	histMu    sync.Mutex
	histCache = map[string]string{}
)

func histRun(h string) ([]string, error) {
	exe, err := os.Executable()
	fatalIf(err)
	cmd := exec.Command(exe, "-op", h)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1")
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Start(); err != nil {
		fatalIf(err)
	}
	t := time.AfterFunc(120*time.Second, func() { cmd.Process.Kill() })
	werr := cmd.Wait()
	t.Stop()
	if werr != nil {
		e := errb.String()
		if len(e) > 1200 {
			e = e[:1200]
		}
		return nil, fmt.Errorf("the process ended with %v: %s", werr, e)
	}
	var obs []string
	if err := json.NewDecoder(&out).Decode(&obs); err != nil && err != io.EOF {
		return nil, err
	}
	return obs, nil
}

// histAlone is the history that op i of h is about.
func histAlone(h string, i int) string {
	switch h[i] {
	case histClobber, histAgain, histBurst, histFlood, histMany, histLots:
		return ""
	case histPrint, histEdit:
		for j := i - 1; j >= 0; j-- {
			if strings.IndexByte(histAccepted(), h[j]) >= 0 {
				s := h[j : j+1]
				for _, c := range h[j+1 : i] {
					if c == histEdit {
						s += "E"
					}
				}
				return s + h[i:i+1]
			}
		}
	}
	return h[i : i+1]
}

var histOK string

// histAccepted: the parse operations that return a tree.
func histAccepted() string {
	histMu.Lock()
	defer histMu.Unlock()
	if histOK == "" {
		histOK = "-"
		for c := range histParses {
			obs, err := histRun(string(c))
			if err == nil && len(obs) == 1 && !strings.HasPrefix(obs[0], "result: error") && !strings.HasPrefix(obs[0], "result: panic") {
				histOK += string(c)
			}
		}
	}
	return histOK
}

func histExpect(h string) (string, error) {
	histMu.Lock()
	defer histMu.Unlock()
	if s, ok := histCache[h]; ok {
		return s, nil
	}
	obs, err := histRun(h)
	if err != nil {
		return "", err
	}
	histCache[h] = obs[len(obs)-1]
	return obs[len(obs)-1], nil
}

func checkC11(h string) verdict {
	if d, ok := strings.CutPrefix(h, histBuffer); ok {
		return checkBuffer(d)
	}
	obs, err := histRun(h)
	if err != nil {
		return bad("history %s: %v", histText(h), err)
	}
	if len(obs) != len(h) {
		return bad("history %s: %d observations of %d operations", histText(h), len(obs), len(h))
	}
	known := ""
	for i := range obs {
		want := ""
		if a := histAlone(h, i); a != "" {
			want, err = histExpect(a)
			if err != nil {
				return bad("history %s: %v", histText(a), err)
			}
		}
		if obs[i] != want {
			if h[i] == 'i' {
				// The limit aborts the parse before it resets the report; nothing but the report may differ.
				a, _, ok1 := strings.Cut(obs[i], "\nfarthest failure: ")
				b, _, ok2 := strings.Cut(want, "\nfarthest failure: ")
				stale := false
				for k := i - 1; k >= 0 && !stale; k-- {
					// The report must be that of the last parse that made one.
					if h[k] == histBurst || h[k] == histFlood {
						_, now, _ := strings.Cut(obs[i], "\nfarthest failure: ")
						stale = strings.Contains(now, map[byte]string{histBurst: "value 399", histFlood: "8999"}[h[k]])
						break
					}
					if _, p, ok := strings.Cut(obs[k], "\nfarthest failure: "); ok {
						_, now, _ := strings.Cut(obs[i], "\nfarthest failure: ")
						stale = p == now || strings.Contains(h[:i], string(rune(histClobber)))
						break
					}
				}
				if ok1 && ok2 && a == b && stale {
					known = "stale-report-after-tiny-expression-limit"
					continue
				}
			}
			return bad("operation %d of the history %s gives another result than alone: %s", i+1, histText(h), firstDiff(want, obs[i]))
		}
	}
	return verdict{outcome: fmt.Sprintf("%d", len(h)), known: known}
}

const histBuffer = "buffer:"

// checkBuffer: overwriting the input changes nothing in a result.
func checkBuffer(doc string) verdict {
	buf := []byte(doc)
	var v interface{}
	var err error
	var pan interface{}
	func() {
		defer func() { pan = recover() }()
		v, err = config.Parse(docName, buf, config.ExceptionalCommentsWarning(true))
	}()
	if pan != nil {
		return bad("panic %v", pan)
	}
	out := verdict{outcome: "buffer, rejected"}
	before := observeResult(v, err)
	c, ok := v.(ast.Config)
	print := ""
	if ok {
		out.outcome = "buffer, accepted"
		print, _ = format(c)
	}
	for i := range buf {
		buf[i] = "}\"# {"[i%5]
	}
	if after := observeResult(v, err); after != before {
		return bad("the result changes when the caller overwrites the input afterwards: %s", firstDiff(before, after))
	}
	if ok {
		if now, _ := format(c); now != print {
			return bad("the printed tree changes when the caller overwrites the input afterwards: %s", firstDiff(print, now))
		}
	}
	return out
}

func histText(h string) string {
	var l []string
	for i := 0; i < len(h); i++ {
		switch h[i] {
		case histPrint:
			l = append(l, "print the last tree")
		case histEdit:
			l = append(l, "edit the last tree")
		case histBurst:
			l = append(l, "400 different configurations")
		case histFlood:
			l = append(l, "9000 different configurations")
		case histMany:
			l = append(l, "that 600 times more")
		case histLots:
			l = append(l, "that 66000 times more")
		case histClobber:
			l = append(l, "overwrite the input buffers")
		case histAgain:
			l = append(l, "read the failure report again")
		default:
			l = append(l, histParses[h[i]].what)
		}
	}
	return h + " (" + strings.Join(l, "; ") + ")"
}

func spacesC11(r *run) []class {
	n := 3
	if r.tier > 0 {
		n = 4
	}
	mk := func(n int, al string) class {
		return class{fmt.Sprintf("histories:%d:%s", n, al), fmt.Sprintf("all histories of %d operations of the alphabet %s (shorter ones are their prefixes)", n, al), func(e func(string)) {
			var rec func(p string)
			rec = func(p string) {
				if len(p) == n {
					e(p)
					return
				}
				for i := 0; i < len(al); i++ {
					rec(p + al[i:i+1])
				}
			}
			rec("")
		}}
	}
	return []class{mk(4, histTwins+"e"), mk(4+n, "foP"), mk(5+n, "ha"), {"pumped", "every operation 40 times, followed by every operation; every pair of operations alternating; every operation before, after and between bursts of 400 different parses", func(e func(string)) {
		for _, x := range histAlphabet() {
			e("v" + string(x))
			e(string(x) + "v")
			e(string(x) + "v" + string(x))
			e("v" + string(x) + "v" + string(x))
		}
		for _, x := range histAlphabet() {
			for _, y := range histAlphabet() {
				e(strings.Repeat(string(x), 40) + string(y))
				if x != y {
					e(strings.Repeat(string(x)+string(y), 12*(1+2*r.tier)))
				}
			}
		}
	}}, {"repeated", "every operation, followed by any parse 601 times or by one of the rejected and accepted small texts 66001 times (counters that wrap); every operation before and after 9000 different parses", func(e func(string)) {
		for _, x := range histAlphabet() {
			for _, y := range histAlphabet() {
				if strings.ContainsRune("PEXG", y) || r.tier == 0 && strings.ContainsRune("tu", y) && !strings.ContainsRune("beo", x) {
					continue
				}
				e(string(x) + string(y) + "*" + string(x))
			}
			if r.tier > 0 || strings.ContainsRune("abeort", x) {
				for _, y := range "rwp" {
					e(string(x) + string(y) + "&" + string(x))
				}
				e(string(x) + "V" + string(x))
			}
		}
	}}, {"input buffer", "literals and comments of many lengths at every place, the lists of elements, and rejected texts: overwriting the input after the parse changes nothing in its result", func(e func(string)) {
		b := func(d string) { e(histBuffer + d) }
		longUnits(0, b)
		twinDocs(0, b)
		elementDocs(0, b)
		rejectedLong(0, b)
	}}, mk(n, histAlphabet())}
}

func init() {
	checks["C11"] = &propCheck{explorationMain("every history of the stated length is executed in a fresh process; the observation of each operation (verdict, tree with positions and comments, warnings, error, failure report, statistics, all earlier trees) must equal that of the operation run alone in a fresh process; all histories count",
		"the alphabet of operations; the failure report is not compared after a read error, where no text is parsed"), spacesC11, caseOf(checkC11)}
}
