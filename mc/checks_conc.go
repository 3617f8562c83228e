package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	config "github.com/breml/logstash-config"
	"github.com/breml/logstash-config/ast"
	"github.com/breml/logstash-config/ast/astutil"
	vs "github.com/breml/logstash-config/internal/verifsync"
)

// ---- C12: schedules of concurrent library calls ----
//
// The library is built with its package-level variables and synchronisation operations as scheduling points
// (mc/instr, mc/shim) and with the race detector, to which the hand-offs of the scheduler are invisible. A case is
// "kinds;extra;ops;at:alt,...": the calls of the threads, the kinds of scheduling points, the deviations from the
// default schedule (each thread in turn runs to completion), and how many further preemptions are explored below it.

type concOp struct {
	what   string
	run    func() string
	report bool // the result is a failure report, which may mix those of overlapping parses
}

var (
	concValid = valid("#a\nfilter{p{x=>1}}")
	concWarn  = valid("filter{p{x#w\n=>1}}")
	concIf    = valid("output{if[a]{o{}}}")
	concBad   = invalid("filter{p{x=>}}")
	concFatal = invalid("filter{p{x=>\"}}")
	// texts with every construct
	concRich  = valid("#a\ninput{p{x=>-1.5 \"y\"=>['s',bare,{kk=>7 \"l\"=>{}}]#b\n}}filter{if [a][b]==\"c\" and !([d]!=10 or 2<=[e]){#c\n}else if #w\n \"x\" in [f]{r{}}else if[g] not in[1,\"2\"]xor ![h]{s{}#d\n}else{t{z=>{}}}}#e\n")
	concRich2 = valid("output{if [a]=~/r\\/x/ nand [b]>3{o{c=>json{k=>'l\nm'}}}\"p q\"{'n'=>100000000000000000000 id=>[]}}input{}filter{if ([x]!~'y')and 1{}else{}}#z")
)

// concNew is a text with a place for a number in every kind of name and literal.
var concNew = valid("#c7654321\nfilter{p7654321{a7654321=>7654321 b=>[\"s7654321\",'t7654321',u7654321] \"c7654321\"=>{k7654321=>l7654321 7654321=>\"m\n7654321\"} d=>q7654321{}}if[f7654321]=~/r7654321/ or 7654321<[g][h7654321]{p #w7654321\n{}}}")

// concNonce is another number in each execution.
var concNonce = 7000000

func concMask(s string) string {
	bits := fmt.Sprintf("%x", math.Float64bits(float64(concNonce))) // as numbers appear in observed trees
	return strings.NewReplacer(strconv.Itoa(concNonce), "NONCE", bits, "BITS").Replace(s)
}

// concNodes prints the nodes of a tree one by one.
func concNodes(c ast.Config) string {
	w := &nodeWalk{seen: map[uint64]struct{}{}}
	w.config(c)
	return w.msg
}

var (
	concTree    ast.Config
	concTree2   ast.Config
	concTree3   ast.Config
	concFile    string
	concHold    *os.File
	concTreeOut string
	concPlugin  ast.Plugin
	concOnce    sync.Once
)

func concSetup() {
	concOnce.Do(func() {
		concTree = parseDoc(valid("#c\ninput{p{id=>aa b=>[1,'x'] c=>{dd=>\"e\"}}}filter{if[a]==1 and\"x\"in[b]{q{}#f\n}else{r{id=>\"i\"}}}")).conf
		concTree2 = parseDoc(valid("output{o{n=>'x\ny' m=>\"[a\\\"\"}if[a]=~/a[\"\\/\n/{o{n=>'x\ny'}}}")).conf
		concTree3 = parseDoc(concRich2 + "\n" + concRich).conf
		f, err := os.CreateTemp("", "c12")
		fatalIf(err)
		_, err = f.WriteString(concIf)
		fatalIf(err)
		os.Remove(f.Name())
		concHold = f // stays open
		concFile = fmt.Sprintf("/proc/self/fd/%d", f.Fd())
		concPlugin = ast.NewPlugin("p", ast.NewNumberAttribute("a", 1), ast.NewStringAttribute("id", "the id", ast.DoubleQuoted))
	})
}

// concShared: the calls on shared trees, and on a file.
const concShared = "plGtTFd"

func concParse(name, text string, opts ...config.Option) string {
	v, err := config.Parse(name, []byte(text), opts...)
	return observeResult(v, err)
}

var concOps = map[byte]concOp{
	'v': {what: "parse a valid text", run: func() string { return concParse("v", concValid) }},
	'w': {what: "parse with warnings", run: func() string { return concParse("w", concWarn, config.ExceptionalCommentsWarning(true)) }},
	'i': {what: "parse a branch, comments ignored", run: func() string { return concParse("i", concIf, config.IgnoreComments(true)) }},
	'b': {what: "parse a bad text", run: func() string { return concParse("b", concBad) }},
	'f': {what: "parse a text with an unclosed string", run: func() string { return concParse("f", concFatal) }},
	'g': {what: "parse a bad text and read the failure report", report: true, run: func() string { concParse("b", concBad); return concReport() }},
	'r': {what: "read the failure report", report: true, run: concReport},
	'p': {what: "print a shared tree", run: func() string { return concTree.String() }},
	'o': {what: "print a tree of its own", run: func() string {
		return ast.NewConfig(nil, ast.NewPluginSections(ast.Filter, ast.NewPlugin("q", ast.NewStringAttribute("k", "a\"b\nc", ast.SingleQuoted))), nil).String()
	}},
	'l': {what: "print a tree with literals that need care", run: func() string { return concTree2.String() }},
	't': {what: "traverse a shared tree", run: func() string {
		var l []string
		for _, s := range [][]ast.PluginSection{concTree.Input, concTree.Filter} {
			for i := range s {
				astutil.ApplyPlugins(s[i].BranchOrPlugins[:1:1], func(c *astutil.Cursor) {
					id, err := c.Plugin().ID()
					l = append(l, fmt.Sprint(c.Plugin().Name(), id, err, ast.IsNotFoundError(err), c.Index()))
				})
			}
		}
		return strings.Join(l, " ")
	}},
	'y': {what: "traverse and edit a list of its own", run: func() string {
		l := astutil.ApplyPlugins([]ast.BranchOrPlugin{ast.NewPlugin("a"), ast.NewPlugin("b")}, func(c *astutil.Cursor) {
			c.InsertBefore(ast.NewPlugin("x" + c.Plugin().Name()))
			c.InsertAfter(ast.NewPlugin("y" + c.Plugin().Name()))
		})
		return ast.NewPluginSection(ast.Input, l...).String()
	}},
	'q': {what: "quote values", run: func() string {
		var l []string
		for _, v := range []string{`a"b`, `it's`, `x y`, `bare`, `a\"b'`} {
			for _, qt := range []ast.StringAttributeType{ast.DoubleQuoted, ast.SingleQuoted, ast.Bareword} {
				s, err := astutil.Quote(v, qt)
				l = append(l, fmt.Sprint(s, err), astutil.QuoteWithEscape(v, qt))
			}
		}
		return strings.Join(l, "|")
	}},
	'e': {what: "escape and unescape values", run: func() string {
		return astutil.Escape("a\n\"b'\t\\") + astutil.Unescape(`x\n\"y\t\\z\q`)
	}},
	'z': {what: "escape and unescape other values", run: func() string {
		return astutil.Escape("c\r\\d'é") + astutil.Unescape(`\r\'u\n`)
	}},
	'R': {what: "parse a rich text with warnings and print it", run: func() string {
		v, err := config.Parse("R", []byte(concRich), config.ExceptionalCommentsWarning(true), config.Statistics(&config.Stats{}, "none"))
		return observeResult(v, err) + v.(ast.Config).String()
	}},
	'S': {what: "parse another rich text and print it", run: func() string {
		v, err := config.ParseReader("S", strings.NewReader(concRich2), config.Memoize(true), config.GlobalStore("k", 1))
		return observeResult(v, err) + v.(ast.Config).String()
	}},
	'G': {what: "print a shared rich tree and all its nodes", run: func() string { return concTree3.String() + concNodes(concTree3) }},
	'T': {what: "traverse all of a shared rich tree", run: func() string {
		var l []string
		for _, s := range [][]ast.PluginSection{concTree3.Input, concTree3.Filter, concTree3.Output} {
			for _, p := range s {
				astutil.ApplyPlugins(p.BranchOrPlugins, func(c *astutil.Cursor) {
					id, err := c.Plugin().ID()
					l = append(l, fmt.Sprint(c.Plugin().Name(), id, err, c.Index(), c.Plugin().Pos()))
				})
			}
		}
		return strings.Join(l, " ")
	}},
	'F': {what: "parse a file and a file that does not exist", run: func() string {
		v, err := config.ParseFile(concFile)
		_, err2 := config.ParseFile(concFile + "/none")
		return observeResult(v, err) + strings.ReplaceAll(fmt.Sprint(err2), concFile, "FILE")
	}},
	// The values of these calls are new in each execution, such that no cache knows them.
	'Q': {what: "quote, escape and unescape new values, look up a new id", run: func() string {
		var l []string
		n := strconv.Itoa(concNonce)
		for _, v := range []string{`a"` + n, "it's" + n, "n" + n, "x y" + n, "-" + n} {
			for _, qt := range []ast.StringAttributeType{ast.DoubleQuoted, ast.SingleQuoted, ast.Bareword} {
				s, err := astutil.Quote(v, qt)
				l = append(l, fmt.Sprint(s, err), astutil.QuoteWithEscape(v, qt))
			}
			l = append(l, astutil.Escape(v+"\n"), astutil.Unescape(v+`\n`))
		}
		id, err := ast.NewPlugin("p"+n, ast.NewStringAttribute("id", n, ast.DoubleQuoted)).ID()
		_, err2 := ast.NewPlugin("p" + n).ID()
		return concMask(strings.Join(append(l, fmt.Sprint(id, err, err2, ast.IsNotFoundError(err2))), "|"))
	}},
	'N': {what: "parse and print a new text", run: func() string {
		text := strings.ReplaceAll(concNew, "7654321", strconv.Itoa(concNonce))
		v, err := config.Parse("f"+strconv.Itoa(concNonce), []byte(text), config.ExceptionalCommentsWarning(true))
		return concMask(observeResult(v, err) + v.(ast.Config).String())
	}},
	'B': {what: "parse a new bad text", run: func() string {
		return concMask(concParse("f"+strconv.Itoa(concNonce), "filter{p"+strconv.Itoa(concNonce)+"{x=>}}"))
	}},
	'd': {what: "look up ids", run: func() string {
		id, err := concPlugin.ID()
		_, err2 := ast.NewPlugin("n").ID()
		return fmt.Sprint(id, err, err2, ast.IsNotFoundError(err2))
	}},
}

// The failing parses whose reports can be read.
var concReportTexts = []string{concBad, concFatal, concValid, concWarn, concIf}

var (
	concMsgs   map[string]bool
	concHeads  map[string]bool
	concHeadRe = regexp.MustCompile(`^Parsing error at pos \d+:\d+ \[\d+\] and \[\d+\] \(after: '`)
)

func concReport() string {
	s, ok := config.GetFarthestFailure()
	return fmt.Sprintf("%v %s", ok, s)
}

// concReports collects the heads and messages that reports of the texts may contain: every prefix of a parse may be
// interrupted by a reader, so the farthest failure of any expression limit counts.
func concReports() {
	concMsgs, concHeads = map[string]bool{}, map[string]bool{}
	for _, t := range concReportTexts {
		for n := uint64(1); n < 4000; n++ {
			_, err := config.Parse("x", []byte(t), config.MaxExpressions(n))
			s, ok := config.GetFarthestFailure()
			if ok {
				l := strings.Split(strings.TrimRight(s, "\n"), "\n")
				concHeads[l[0]] = true
				for _, m := range l[1:] {
					concMsgs[m] = true
				}
			}
			if err == nil || !strings.Contains(err.Error(), "max number of expresssions parsed") {
				break
			}
		}
	}
}

func concReportOK(s string) string {
	if s == "false " {
		return ""
	}
	rest, ok := strings.CutPrefix(s, "true ")
	if !ok {
		return "not a report"
	}
	l := strings.Split(strings.TrimRight(rest, "\n"), "\n")
	if !concHeads[l[0]] {
		return "no parse has a farthest failure at: " + l[0]
	}
	if len(l) < 2 {
		return "no message"
	}
	for _, m := range l[1:] {
		if !concMsgs[m] {
			return "unknown message " + m
		}
	}
	return ""
}

func parseConc(c string) (kinds, extra int, ops string, devs []vs.Dev) {
	f := strings.Split(c, ";")
	kinds, _ = strconv.Atoi(f[0])
	extra, _ = strconv.Atoi(f[1])
	ops = f[2]
	if len(f) > 3 && f[3] != "" {
		for _, d := range strings.Split(f[3], ",") {
			a, b, _ := strings.Cut(d, ":")
			x, _ := strconv.Atoi(a)
			y, _ := strconv.Atoi(b)
			devs = append(devs, vs.Dev{At: x, Alt: y})
		}
	}
	return
}

func concCase(kinds, extra int, ops string, devs []vs.Dev) string {
	var d []string
	for _, x := range devs {
		d = append(d, fmt.Sprintf("%d:%d", x.At, x.Alt))
	}
	return fmt.Sprintf("%d;%d;%s;%s", kinds, extra, ops, strings.Join(d, ","))
}

var (
	concAlone   = map[byte]string{}
	concDiverge int
)

// concPrepare computes the results of the calls run alone.
func concPrepare() {
	concSetup()
	if len(concAlone) > 0 {
		return
	}
	concTreeOut = dumpTree(convConfig(concTree), dAll)
	for k, op := range concOps {
		concAlone[k] = op.run()
	}
	concReports()
}

// concReset: the report of an earlier execution must not be seen.
func concReset(ops string) {
	concNonce++
	for i := range ops {
		if concOps[ops[i]].report {
			config.Parse("x", []byte(concBad))
			break
		}
	}
}

func concRun(kinds int, ops string, devs []vs.Dev) (vs.Result, string) {
	out := make([]string, len(ops))
	bodies := make([]func(), len(ops))
	for i := range bodies {
		i := i
		bodies[i] = func() { out[i] = concOps[ops[i]].run() }
	}
	concReset(ops)
	res := vs.Run(kinds, devs, bodies...)
	for i := range ops {
		if p := res.Panics[i]; p != nil {
			return res, fmt.Sprintf("thread %d (%s) panics: %v", i, concOps[ops[i]].what, p)
		}
	}
	if res.Deadlock {
		// the locks stay locked, so this process can not go on
		fmt.Fprintln(os.Stderr, concText(ops, devs)+"the calls do not finish: deadlock")
		os.Exit(67)
	}
	for i := range ops {
		op := concOps[ops[i]]
		if op.report {
			if m := concReportOK(out[i]); m != "" {
				return res, fmt.Sprintf("thread %d (%s): %s", i, op.what, m)
			}
			continue
		}
		if out[i] != concAlone[ops[i]] {
			return res, fmt.Sprintf("thread %d (%s) gives another result than alone: %s", i, op.what, firstDiff(concAlone[ops[i]], out[i]))
		}
	}
	return res, ""
}

func concText(ops string, devs []vs.Dev) string {
	var l []string
	for i := range ops {
		l = append(l, concOps[ops[i]].what)
	}
	return fmt.Sprintf("threads: %s; schedule deviations (branching point:thread) %v: ", strings.Join(l, " | "), devs)
}

// concFree lets the calls overlap freely, for the race detector and as a check of the results.
func concFree(rounds int, ops string) string {
	for n := 0; n < rounds; n++ {
		concReset(ops)
		out := make([]string, len(ops))
		pan := make([]interface{}, len(ops))
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := range out {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() { pan[i] = recover() }()
				<-start
				out[i] = concOps[ops[i]].run()
			}()
		}
		close(start)
		wg.Wait()
		for i := range ops {
			op := concOps[ops[i]]
			if pan[i] != nil {
				return fmt.Sprintf("thread %d (%s) panics: %v", i, op.what, pan[i])
			}
			if op.report {
				if m := concReportOK(out[i]); m != "" {
					return fmt.Sprintf("thread %d (%s): %s", i, op.what, m)
				}
			} else if out[i] != concAlone[ops[i]] {
				return fmt.Sprintf("thread %d (%s) gives another result than alone: %s", i, op.what, firstDiff(concAlone[ops[i]], out[i]))
			}
		}
	}
	return ""
}

func concCost(res vs.Result, i int) int {
	if res.Branches[i].Running {
		return 1
	}
	return 0
}

// ---- the first calls in a process ----

const concFirst = "first:"

// firstOut is what a process that runs its first calls tells its parent.
type firstOut struct {
	Outs   []string
	Panics []string
	Res    vs.Result
	Steps  int64
}

// runFirst executes the calls as the first of this process: "kinds;0;ops;deviations".
func runFirst(c string) int {
	kinds, _, ops, devs := parseConc(c)
	if strings.ContainsAny(ops, concShared) {
		concSetup()
	}
	concNonce++
	o := firstOut{Outs: make([]string, len(ops)), Panics: make([]string, len(ops))}
	bodies := make([]func(), len(ops))
	for i := range bodies {
		bodies[i] = func() { o.Outs[i] = concOps[ops[i]].run() }
	}
	if kinds == 0 {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := range bodies {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						o.Panics[i] = fmt.Sprint(p)
					}
				}()
				<-start
				bodies[i]()
			}()
		}
		close(start)
		wg.Wait()
	} else {
		o.Res = vs.Run(kinds, devs, bodies...)
		for i, p := range o.Res.Panics {
			if p != nil {
				o.Panics[i] = fmt.Sprint(p)
			}
		}
		o.Res.Panics, o.Steps = nil, o.Res.Steps
	}
	fatalIf(json.NewEncoder(os.Stdout).Encode(o))
	return 0
}

// firstRun lets a new process execute the calls; the reports of failures are only checked for races.
func firstRun(kinds int, ops string, devs []vs.Dev) (firstOut, string) {
	exe, err := os.Executable()
	fatalIf(err)
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, exe, "-op", concFirst+concCase(kinds, 0, ops, devs))
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	var o firstOut
	if err := cmd.Run(); err != nil {
		return o, fmt.Sprintf("the process ends with %v: %.3000s", err, errb.String())
	}
	fatalIf(json.Unmarshal(out.Bytes(), &o))
	if o.Res.Deadlock {
		return o, "the calls do not finish: deadlock"
	}
	for i := range ops {
		op := concOps[ops[i]]
		if o.Panics[i] != "" {
			return o, fmt.Sprintf("thread %d (%s) panics: %s", i, op.what, o.Panics[i])
		}
		if !op.report && o.Outs[i] != concAlone[ops[i]] {
			return o, fmt.Sprintf("thread %d (%s) gives another result than alone: %s", i, op.what, firstDiff(concAlone[ops[i]], o.Outs[i]))
		}
	}
	return o, ""
}

func checkFirst(c string) verdict {
	kinds, extra, ops, devs := parseConc(c)
	v := verdict{outcome: fmt.Sprintf("%d threads, first calls of the process", len(ops)), counts: map[string]int64{}}
	if kinds == 0 {
		for n := 0; n < extra; n++ {
			v.counts["free running executions in new processes"]++
			if _, m := firstRun(0, ops, nil); m != "" {
				v.bad = "first calls of a process, free running, " + concText(ops, nil) + m
				break
			}
		}
		return v
	}
	var rec func(devs []vs.Dev, extra int) bool
	rec = func(devs []vs.Dev, extra int) bool {
		o, msg := firstRun(kinds, ops, devs)
		v.counts["schedules"]++
		v.counts["schedules in new processes"]++
		v.trans += o.Steps
		if o.Res.Stalled {
			v.counts["stalled"]++
		}
		if o.Res.Diverged {
			v.counts["diverged"]++
		}
		if msg != "" {
			v.bad = "first calls of a process, " + concText(ops, devs) + msg
			return false
		}
		for _, b := range o.Res.Branches {
			v.states = append(v.states, hash64("first"+ops)^b.State)
		}
		if o.Res.Stalled || o.Res.Diverged {
			return true
		}
		from := 0
		if len(devs) > 0 {
			from = devs[len(devs)-1].At + 1
		}
		for i := from; i < len(o.Res.Branches); i++ {
			cost := concCost(o.Res, i)
			if cost > extra {
				continue
			}
			for alt := 1; alt < o.Res.Branches[i].Enabled; alt++ {
				if !rec(append(append([]vs.Dev{}, devs...), vs.Dev{At: i, Alt: alt}), extra-cost) {
					return false
				}
			}
		}
		return true
	}
	rec(devs, extra)
	return v
}

func checkC12(c string) verdict {
	concPrepare()
	if f, ok := strings.CutPrefix(c, concFirst); ok {
		return checkFirst(f)
	}
	kinds, extra, ops, devs := parseConc(c)
	v := verdict{outcome: fmt.Sprintf("%d threads", len(ops)), counts: map[string]int64{}}
	if kinds == 0 {
		v.counts["free running executions"] = int64(extra)
		if m := concFree(extra, ops); m != "" {
			v.bad = "free running, " + concText(ops, nil) + m
		}
		return v
	}
	var rec func(devs []vs.Dev, extra int) bool
	rec = func(devs []vs.Dev, extra int) bool {
		res, msg := concRun(kinds, ops, devs)
		v.counts["schedules"]++
		v.trans += res.Steps
		if res.Stalled {
			v.counts["stalled"]++
		}
		if res.Diverged {
			v.counts["diverged"]++
		}
		if res.Overflow {
			v.counts["overflow"]++
		}
		if msg != "" {
			v.bad = concText(ops, devs) + msg
			return false
		}
		h := hash64(ops)
		from := 0
		if len(devs) > 0 {
			from = devs[len(devs)-1].At + 1
			if from <= len(res.Branches) {
				v.states = append(v.states, h^res.Branches[from-1].State)
			}
		} else {
			for _, b := range res.Branches {
				v.states = append(v.states, h^b.State)
			}
		}
		if extra == 0 || res.Stalled || res.Diverged {
			return true
		}
		for i := from; i < len(res.Branches); i++ {
			for alt := 1; alt < res.Branches[i].Enabled; alt++ {
				d := append(append([]vs.Dev{}, devs...), vs.Dev{At: i, Alt: alt})
				if !rec(d, extra-concCost(res, i)) {
					return false
				}
			}
		}
		return true
	}
	rec(devs, extra)
	return v
}

// concGen emits the cases of all schedules with at most bound preemptions.
func concGen(kinds, bound int, ops string, emit func(string)) {
	concPrepare()
	var rec func(devs []vs.Dev)
	rec = func(devs []vs.Dev) {
		emit(concCase(kinds, 0, ops, devs))
		res, _ := concRun(kinds, ops, devs)
		from := 0
		if len(devs) > 0 {
			from = devs[len(devs)-1].At + 1
		}
		for i := from; i < len(res.Branches); i++ {
			for alt := 1; alt < res.Branches[i].Enabled; alt++ {
				d := append(append([]vs.Dev{}, devs...), vs.Dev{At: i, Alt: alt})
				if concCost(res, i) == 0 {
					rec(d)
				} else if bound > 0 {
					emit(concCase(kinds, bound-1, ops, d))
				}
			}
		}
	}
	rec(nil)
}

func spacesC12(r *run) []class {
	all := "vwibfgrpoltyqezd"
	pairs := func(al string, f func(string)) {
		for i := range al {
			for j := i; j < len(al); j++ {
				f(al[i:i+1] + al[j:j+1])
			}
		}
	}
	mk := func(name, rule string, kinds, bound int, sets func(f func(string))) class {
		return class{name, fmt.Sprintf("%s, all schedules with at most %d preemptions", rule, bound), func(e func(string)) {
			sets(func(ops string) { concGen(kinds, bound, ops, e) })
		}}
	}
	list := func(l ...string) func(f func(string)) {
		return func(f func(string)) {
			for _, x := range l {
				f(x)
			}
		}
	}
	out := []class{
		{"free", "all pairs of calls, overlapping freely 40 times", func(e func(string)) { pairs(all, func(p string) { e(concCase(0, 40, p, nil)) }) }},
		mk("pairs:1", "all pairs of calls, points at all shared variables, synchronisation and pool operations", vs.KindAll, 1, func(f func(string)) { pairs(all, f) }),
		mk("sync pairs:2", "all pairs of calls, points at shared variables and synchronisation operations", vs.KindVar|vs.KindSync, 2, func(f func(string)) { pairs(all, f) }),
		mk("sync pairs:3", "all pairs of calls but the branch parse, points at shared variables and synchronisation operations", vs.KindVar|vs.KindSync, 3, func(f func(string)) { pairs("vwbfgroqe", f) }),
		mk("triples:2", "three calls, points at shared variables and synchronisation operations", vs.KindVar|vs.KindSync, 2, list("bbr", "bfr", "ggg", "gfw", "vwi", "ppo", "qez")),
	}
	rich := "RSGTF"
	out = append(out,
		class{"rich free", "all pairs of a call on a rich text or tree with any other call, overlapping freely 40 times", func(e func(string)) {
			for i := range rich {
				for _, x := range all + rich[i:] {
					if concOps[byte(x)].report {
						continue // the reports of the rich texts are too many to list
					}
					e(concCase(0, 40, rich[i:i+1]+string(x), nil))
				}
			}
		}},
		mk("rich pairs:1", "pairs of calls on rich texts and trees and others, points at shared variables and synchronisation operations", vs.KindVar|vs.KindSync, 1, func(f func(string)) {
			pairs(rich, f)
			for _, x := range rich {
				for _, y := range "vbpqeod" {
					f(string(x) + string(y))
				}
			}
		}),
		mk("rich pairs, all points:1", "pairs of calls on rich texts and trees, all points", vs.KindAll, 1, list("RS")))
	fresh := "QNB"
	out = append(out,
		class{"new values free", "all pairs of a call on new values or texts with any other call, overlapping freely 40 times", func(e func(string)) {
			for i := range fresh {
				for _, x := range "vbpqeodRG" + fresh[i:] {
					e(concCase(0, 40, fresh[i:i+1]+string(x), nil))
				}
			}
		}},
		mk("new values:1", "pairs of calls on new values and texts and others, points at shared variables and synchronisation operations", vs.KindVar|vs.KindSync, 1, func(f func(string)) {
			pairs(fresh, f)
			for _, x := range fresh {
				for _, y := range "vqedp" {
					f(string(x) + string(y))
				}
			}
		}))
	out = append(out, class{"first calls", "all pairs of calls, each as the first of a new process: overlapping freely twice, and one after the other in both orders without synchronisation between them", func(e func(string)) {
		pairs(all+rich+fresh, func(p string) {
			e(concFirst + concCase(0, 2, p, nil))
			e(concFirst + concCase(vs.KindVar|vs.KindSync, 0, p, nil))
		})
	}}, class{"first calls:1", "pairs of calls, each as the first of a new process, points at shared variables and synchronisation operations, all schedules with at most 1 preemption", func(e func(string)) {
		pairs("vbqezod", func(p string) { e(concFirst + concCase(vs.KindVar|vs.KindSync, 1, p, nil)) })
	}})
	if r.tier > 0 {
		out = append(out,
			class{"first calls:2", "pairs of calls, each as the first of a new process, points at shared variables and synchronisation operations, all schedules with at most 2 preemptions (values) or 1 (texts)", func(e func(string)) {
				pairs("qezoQ", func(p string) { e(concFirst + concCase(vs.KindVar|vs.KindSync, 2, p, nil)) })
				pairs("wiRSNBpG", func(p string) { e(concFirst + concCase(vs.KindVar|vs.KindSync, 1, p, nil)) })
			}},
			mk("new values:2", "pairs of calls on new values and texts, points at shared variables and synchronisation operations", vs.KindVar|vs.KindSync, 2, func(f func(string)) { pairs(fresh, f) }),
			mk("rich pairs:2", "pairs of calls on rich texts and trees, points at shared variables and synchronisation operations", vs.KindVar|vs.KindSync, 2, func(f func(string)) { pairs(rich, f) }),
			mk("rich pairs, all points:1 more", "pairs of calls on rich texts and trees, all points", vs.KindAll, 1, list("RR", "SS", "RG", "SG", "RT", "RF")),
			mk("sync pairs i:3", "pairs of calls with the branch parse, points at shared variables and synchronisation operations", vs.KindVar|vs.KindSync, 3, func(f func(string)) {
				for _, k := range all {
					f("i" + string(k))
				}
			}),
			mk("sync pairs:5", "pairs of calls, points at shared variables and synchronisation operations", vs.KindVar|vs.KindSync, 5, func(f func(string)) { pairs("vbfroq", f) }),
			mk("pairs:2", "pairs of parses, all points", vs.KindAll, 2, list("vv", "bb", "ww", "vb", "bf", "wi", "pp", "pl", "pv")))
	}
	return out
}

func init() {
	checks["C12"] = &propCheck{func(r *run) *report {
		rep := modelMain("every schedule of the listed calls within the preemption bound, executed on the library itself under the controlled scheduler and the race detector; results are compared with those of the calls run alone; states are distinct scheduling states (progress of each thread) at which a choice was explored",
			"scheduling points are package-level variables and operations of sync and sync/atomic; code between them is executed without interleaving, unsynchronised accesses there are left to the race detector", "sequentially consistent memory for race-free code")(r)
		n := rep.coverage["counters"].(map[string]int64)
		rep.coverage["schedules"] = n["schedules"]
		rep.coverage["traces_validated_against_impl"] = n["schedules"]
		if n["stalled"]+n["diverged"]+n["overflow"] > 0 {
			rep.coverage["exhaustive"] = false
		}
		return rep
	}, spacesC12, caseOf(checkC12)}
}
