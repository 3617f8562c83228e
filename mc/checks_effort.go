package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"time"

	config "github.com/breml/logstash-config"
)

// ---- C27: the effort of a parse ----
//
// The effort is the number of expressions the parser evaluates, as reported by the Statistics option. A parse may use
// at most effortPerByte expressions per byte of the text (and effortBase more). The parse runs with this limit as
// MaxExpressions, so that a parse that needs exponential time is stopped.

const (
	effortPerByte = 1000
	effortBase    = 20000
)

func effortOf(doc string) (n uint64, limited bool, msg string) {
	limit := uint64(effortBase + effortPerByte*len(doc))
	st := &config.Stats{}
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprintf("parsing panics: %v", e)
		}
	}()
	_, err := config.Parse(docName, []byte(doc), config.Statistics(st, "no match"), config.MaxExpressions(limit))
	return st.ExprCnt, err != nil && strings.Contains(err.Error(), limitText), ""
}

func checkC27(doc string, ref refResult) verdict {
	n, limited, msg := effortOf(doc)
	if msg != "" {
		return bad("%s", msg)
	}
	if limited {
		return bad("parsing a text of %d bytes takes more than %d expressions", len(doc), effortBase+effortPerByte*len(doc))
	}
	b := 0
	for m := n / uint64(len(doc)+20); m > 0; m /= 2 {
		b++
	}
	return verdict{outcome: fmt.Sprintf("less than %d expressions per byte", 1<<b)}
}

// effortDocs: everything that nests or repeats, deep and closed, half closed and wrongly closed; and all sequences of
// openers of a kind.
func effortDocs(tier int, emit func(string)) {
	type nest struct{ pre, open, mid, close, post string }
	var ns []nest
	for _, o := range [][2]string{{"if 1{", "}"}, {"if 1{}else{", "}"}, {"if 1{}else if 2{", "}"}, {"if[a]==1{p{}", "q{}}"}, {"if(1){", "}"}, {"if !(1){#c\n", "#c\n}"}, {"if [a] in [1]{", "}"}} {
		for _, m := range []string{"", "p{}", "#c\n", "if", "x"} {
			ns = append(ns, nest{"filter{", o[0], m, o[1], "}"})
		}
	}
	for _, o := range [][2]string{{"[", "]"}, {"[1,", "]"}, {"[ #c\n", "\n#d\n]"}, {"{kk=>", "}"}, {"{kk=>1 kk=>", "}"}, {"{\"k\" #c\n=>", "}"}, {"q{a=>", "}"}, {"q{b=>1 a=>", " c=>1}"}, {"[{kk=>", "}]"}, {"[{'k'=>[", "]}]"}, {"q{a=>[{kk=>", "}]}"}} {
		for _, m := range []string{"", "1", "\"x\"", "#c\n", "x", "=>"} {
			ns = append(ns, nest{"filter{p{a=>", o[0], m, o[1], "}}"})
		}
	}
	for _, o := range [][2]string{{"(", ")"}, {"!(", ")"}, {"! (", " )"}, {"(1 and ", ")"}, {"(", " and 1)"}, {"(1 or !(", "))"}, {"(#c\n", "#d\n)"}, {"[a][", "]"}, {"[1,", "]"}, {"[[a],", "]"}, {"[{kk=>", "}]"}, {"[a]==", ""}, {"[a] in [", "]"}, {"(([a]==1) or ", ")"}, {"f(", ")"}, {"!", ""}, {"1 and ", ""}, {"(1)and(", ")"}} {
		for _, m := range []string{"", "1", "[a]", "/r/", "1 in [1]", "x", "[a]=~"} {
			for _, pre := range []string{"filter{if ", "filter{if 1{}else if ", "filter{if [a]==", "filter{if [a] in ", "filter{if 1 and "} {
				ns = append(ns, nest{pre, o[0], m, o[1], "{}}"})
			}
		}
	}
	depth := []int{1, 2, 3, 4, 6, 8, 10, 12, 14, 16, 18, 20, 25, 30, 40, 60}
	if tier > 0 {
		depth = append(depth, 5, 7, 9, 11, 13, 15, 17, 19, 22, 35, 50, 80, 100, 200, 300)
	}
	for _, n := range ns {
		for _, d := range depth {
			o, c := rep(n.open, d), rep(n.close, d)
			emit(n.pre + o + n.mid + c + n.post)
			emit(n.pre + o + n.mid + c)
			emit(n.pre + o + n.mid + rep(n.close, d/2) + n.post)
			emit(n.pre + o + n.mid + rep(n.close, d+1) + n.post)
			emit(n.pre + o + n.mid + rep(n.close, d-1) + "]" + n.post)
			emit(n.pre + o + n.mid)
			emit(n.pre + o + n.mid + rep("}", d) + n.post)
		}
	}
	// words over openers, repeated
	k := 3
	if tier > 0 {
		k = 4
	}
	for _, h := range []struct {
		al        []string
		pre, post string
	}{
		{[]string{"if 1{", "else{", "}", "p{", "#c\n", "if 1{}", "else if 1{"}, "filter{", "}"},
		{[]string{"[", "{kk=>", "q{a=>", "1,", "]", "}", "\"x\"", "#c\n"}, "filter{p{a=>", "}}"},
		{[]string{"(", "!(", "[a]", "1", " and ", "==", ")", " in ", "[1,", "!"}, "filter{if ", "{}}"},
		{[]string{"filter{", "}", "#c\n", "input", "\n", "p{}"}, "", ""},
	} {
		seqs(h.al, k, "", "", func(u string) {
			for _, n := range []int{7, 24, 70} {
				emit(h.pre + rep(u, n) + h.post)
			}
			if len(u) < 14 || tier > 0 {
				emit(h.pre + rep(u, 1500) + h.post)
			}
		})
	}
}

func init() {
	checks["C27"] = &propCheck{
		main: docMain(fmt.Sprintf("every text of every listed space is parsed with statistics and a limit of %d+%d*length expressions; every distinct text counts", effortBase, effortPerByte)),
		spaces: func(r *run) []class {
			out := []class{{"nesting", "every kind of nesting and repetition up to 60 levels (thorough 300), closed, open, half closed and wrongly closed, and all short words over openers and closers repeated", func(e func(string)) { effortDocs(r.tier, e) }}}
			return append(out, pick(r.tier, "sweeps", "rejected-long", "long-gaps", "trees", "elements", "gapall", "inflate", "mutations", "tokens*")...)
		},
		check: func(r *run) caseCheck { return func(doc string) verdict { return checkC27(doc, refResult{}) } },
	}
}

// ---- very deep nesting (part of C01 and C10) ----
//
// A case is deepPrefix + kind + "*" + depth. The parse runs in a process of its own, because a stack overflow can not
// be recovered from.

const (
	deepPrefix = "\x00deep:"
	deepLow    = 20000 // up to this depth the parser has to cope
	kfDeep     = "stack-overflow-on-very-deep-nesting"
)

var deepKinds = map[string][4]string{
	"if":    {"filter{", "if 1{", "}", "}"},
	"array": {"filter{p{a=>", "[", "]", "}}"},
	"hash":  {"filter{p{a=>{kk=>1 ", "ll=>{kk=>1 ", "}", "}}}"},
	"paren": {"filter{if (1", " and (1", ")", "){}}"},
	"not":   {"filter{if !(1", " or !(1", ")", "){}}"},
	"codec": {"filter{p{", "a=>q{", "}", "}}"},
}

func deepDoc(c string) (doc string, depth int) {
	kind, n, _ := strings.Cut(strings.TrimPrefix(c, deepPrefix), "*")
	open := strings.HasPrefix(kind, "open ")
	k := deepKinds[strings.TrimPrefix(kind, "open ")]
	depth = atoi(n)
	doc = k[0] + rep(k[1], depth)
	if !open {
		doc += rep(k[2], depth) + k[3]
	}
	return doc, depth
}

// runDeep is the process that parses one deep text.
func runDeep(c string) int {
	doc, _ := deepDoc(c)
	fmt.Println(strings.SplitN(parseDoc(doc).verdict(), ":", 2)[0])
	return 0
}

func deepCase(want string, f caseCheck) caseCheck {
	return func(c string) verdict {
		if !strings.HasPrefix(c, deepPrefix) {
			return f(c)
		}
		exe, err := os.Executable()
		fatalIf(err)
		ctx, cancel := context.WithTimeout(context.Background(), 200*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, exe, "-op", strings.TrimPrefix(c, "\x00"))
		var out, errb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errb
		err = cmd.Run()
		if err == nil && strings.TrimSpace(out.String()) == want {
			return verdict{outcome: "very deep, " + want}
		}
		_, depth := deepDoc(c)
		v := bad("%d levels, expected %s: %v %q %.200s", depth, want, err, out.String(), errb.String())
		if depth > deepLow && strings.Contains(errb.String(), "stack overflow") {
			v = verdict{known: kfDeep, outcome: "very deep, stack overflow"}
		}
		return v
	}
}

func deepClass(open string) class {
	return class{"deep", "every kind of nesting with 5000 and 200000 levels, each in a process of its own", func(e func(string)) {
		for _, k := range []string{"if", "array", "hash", "paren", "not", "codec"} {
			e(deepPrefix + open + k + "*5000")
			e(deepPrefix + open + k + "*200000")
		}
	}}
}
