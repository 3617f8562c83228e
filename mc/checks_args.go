package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// ---- C28: the command line ----
//
// A case is "configuration NUL arguments" with \x01 between the arguments. The tool runs in a directory with some
// configurations and with files named like commands and options.

var argFiles = cliWorld{
	"noids.conf":   cliFiles["noids.conf"],
	"canon.conf":   cliFiles["canon.conf"],
	"bad.conf":     cliFiles["bad.conf"],
	"-w":           {'f', valid("filter{w{}}"), 0o644},
	"--help":       {'f', valid("filter{h{}}"), 0o644},
	"check":        {'f', valid("filter{c{}}"), 0o644},
	"format":       {'f', "filter{f{", 0o644},
	cliBystander:   cliBystanderNode,
	".mustache":    {'f', "x: [", 0o644},
	"list":         {'f', "noids.conf\ncanon.conf\n-w\n", 0o644},
	"mustache.txt": {'f', "x: [", 0o644},
}

// argConfigs: files of the tool itself, with what they mean: ok or refused.
var argConfigs = map[string]struct {
	file, content string
	refused       bool
	env           string // "NAME=value" in the environment, with DIR for the directory; "-HOME" for no HOME
	stdin         string
}{
	"none":          {},
	"empty":         {file: "mustache.yaml", content: "", refused: false},
	"valid":         {file: "mustache.yaml", content: "write-to-source: true\nauto-fix-id: true\nformat:\n  write-to-source: true\nlint:\n  auto-fix-id: true\n", refused: false},
	"json":          {file: "mustache.json", content: `{"write-to-source": true}`, refused: false},
	"bad yaml":      {file: "mustache.yaml", content: "a: [\nb", refused: true},
	"bad json":      {file: "mustache.json", content: "{\"a\": ", refused: true},
	"bad toml":      {file: "mustache.toml", content: "a = = 1", refused: true},
	"home":          {file: ".config/mustache/mustache.yaml", content: "write-to-source: true\n", refused: false},
	"bad home":      {file: ".config/mustache/mustache.yaml", content: "a: [\nb", refused: true},
	"other":         {file: "other.yaml", content: "a: [\nb", refused: false},
	"bad other":     {file: "mustache.conf.yaml", content: "a: [\nb", refused: false},
	"no home":       {env: "-HOME"},
	"no home, file": {file: "mustache.yaml", content: "a: [\nb", refused: true, env: "-HOME"},
	"xdg":           {file: "xdg/mustache/mustache.yaml", content: "write-to-source: true\n", env: "XDG_CONFIG_HOME=DIR/xdg"},
	"bad xdg":       {file: "xdg/mustache/mustache.yaml", content: "a: [\nb", refused: true, env: "XDG_CONFIG_HOME=DIR/xdg"},
	"home, not xdg": {file: ".config/mustache/mustache.yaml", content: "a: [\nb", env: "XDG_CONFIG_HOME=DIR/xdg"},
	"relative xdg":  {file: "xdg/mustache/mustache.yaml", content: "write-to-source: true\n", env: "XDG_CONFIG_HOME=xdg"},
	"stdin":         {stdin: "filter{s{}}"},
	"bad stdin":     {stdin: "filter{s{"},
}

// argEnv: variables a tool like this may read; this one reads none of them.
var argEnv = strings.Fields("WRITE_TO_SOURCE AUTO_FIX_ID WRITETOSOURCE AUTOFIXID FORMAT LINT CHECK DEBUG VERBOSE QUIET CI TERM NO_COLOR FORCE_COLOR CONFIG LOG LOG_LEVEL EDITOR DRY_RUN IN_PLACE FIX FIX_ID OPTS FLAGS ARGS PATHS VERSION HELP LANG LC_ALL TMPDIR GODEBUG GOMAXPROCS USER PWD COLUMNS LINT_AUTO_FIX_ID FORMAT_WRITE_TO_SOURCE")

// argModel is what a command line means.
type argModel struct {
	kind  string // run, help, refused, weak (any but an effect other than that of one of runs), info (help or version)
	cmd   string // for run: a command of cliArgs
	paths []string
}

var argFlags = map[string][][2]string{"format": {{"write-to-source", "w"}}, "lint": {{"auto-fix-id", ""}}, "check": nil}

func argCommand(name string, rest []string) argModel {
	m := argModel{kind: "run", cmd: name}
	on := false
	help := false
	set := func(flag, value string) bool {
		b, err := strconv.ParseBool(value)
		if err != nil {
			return false
		}
		if flag == "help" {
			help = b
		} else {
			on = b
		}
		return true
	}
	lookup := func(n string, short bool) string {
		if n == "help" && !short || n == "h" && short {
			return "help"
		}
		for _, f := range argFlags[name] {
			if !short && f[0] == n || short && f[1] == n {
				return f[0]
			}
		}
		return ""
	}
	for i := 0; i < len(rest); i++ {
		a := rest[i]
		switch {
		case a == "--":
			m.paths = append(m.paths, rest[i+1:]...)
			i = len(rest)
		case len(a) < 2 || a[0] != '-':
			m.paths = append(m.paths, a)
		case a[1] == '-':
			n, v, has := strings.Cut(a[2:], "=")
			if !has {
				v = "true"
			}
			if f := lookup(n, false); f == "" || !set(f, v) {
				return argModel{kind: "refused"}
			}
		default:
			for k := 1; k < len(a); k++ {
				v := "true"
				f := lookup(a[k:k+1], true)
				if k+1 < len(a) && a[k+1] == '=' {
					v = a[k+2:]
					k = len(a)
				}
				if f == "" || !set(f, v) {
					return argModel{kind: "refused"}
				}
			}
		}
	}
	if help {
		return argModel{kind: "help"}
	}
	if on {
		m.cmd = map[string]string{"format": "write", "lint": "fix"}[name]
	}
	return m
}

func argMeaning(args []string) argModel {
	if len(args) == 0 {
		return argModel{kind: "help"}
	}
	a := args[0]
	if _, ok := argFlags[a]; ok {
		return argCommand(a, args[1:])
	}
	switch {
	case a == "help" || a == "completion" || strings.HasPrefix(a, "__complete"):
		return argModel{kind: "info"}
	case len(args) == 1 && (a == "-h" || a == "--help"):
		return argModel{kind: "help"}
	case len(args) == 1 && (a == "-v" || a == "--version"):
		return argModel{kind: "version"}
	case a == "" || a[0] == '-':
		return argModel{kind: "weak"}
	}
	return argModel{kind: "refused"}
}

func checkC28(r *run) caseCheck {
	base := filepath.Join(r.work, fmt.Sprintf("args-%d", os.Getpid()))
	fatalIf(os.MkdirAll(base, 0o755))
	n := 0
	return func(c string) verdict {
		conf, as, _ := strings.Cut(c, "\x00")
		var args []string
		if as != "" {
			args = strings.Split(as, "\x01")
			for i := range args {
				if args[i] == "EMPTY" {
					args[i] = ""
				}
			}
		}
		w := argFiles.clone()
		n++
		dir := filepath.Join(base, fmt.Sprintf("w%d", n))
		fatalIf(os.Mkdir(dir, 0o755))
		defer os.RemoveAll(dir)
		cf, ok := argConfigs[conf]
		if e, is := strings.CutPrefix(conf, "env "); is {
			cf.env, ok = e, true
		}
		if !ok {
			panic("unknown configuration " + conf)
		}
		if cf.file != "" {
			d := ""
			for _, p := range strings.Split(filepath.Dir(cf.file), "/") {
				if p != "." {
					d = filepath.Join(d, p)
					w[d] = cliNode{'d', "", 0o755}
				}
			}
			w[cf.file] = cliNode{'f', cf.content, 0o644}
		}
		cliMake(dir, w)
		env := []string{"HOME=" + dir}
		if cf.env == "-HOME" {
			env = nil
		} else if cf.env != "" {
			env = append(env, strings.ReplaceAll(cf.env, "DIR", dir))
		}
		res := cliExecEnv(r, dir, false, env, cf.stdin, args...)
		what := fmt.Sprintf("mustache %q (configuration %s)", args, conf)
		if res.crash != "" {
			return bad("%s: %s", what, res.crash)
		}
		got := cliSnapshot(dir)
		unchanged := func() string {
			if a, b := w.text(), got.text(); a != b {
				return "files changed: " + firstDiff(a, b)
			}
			return ""
		}
		m := argMeaning(args)
		if cf.refused {
			m = argModel{kind: "refused"}
		}
		msg := ""
		refused := func() string {
			switch {
			case res.exit != 1:
				return fmt.Sprintf("exit status %d of a command line that is to be refused", res.exit)
			case !strings.HasPrefix(res.stderr, "error"):
				return fmt.Sprintf("no error is reported: %q", res.stderr)
			case res.stdout != "":
				return fmt.Sprintf("output %q of a command line that is to be refused", res.stdout)
			}
			return unchanged()
		}
		info := func() string {
			if res.exit != 0 || res.stderr != "" || res.stdout == "" {
				return fmt.Sprintf("exit status %d, standard output %.100q, standard error %q", res.exit, res.stdout, res.stderr)
			}
			return unchanged()
		}
		switch m.kind {
		case "run":
			_, msg = cliCompare(r, base, dir, false, w, m.cmd, m.paths, res)
		case "refused":
			msg = refused()
		case "version":
			msg = info()
		case "help":
			if msg = info(); msg == "" && !strings.Contains(res.stdout, "Usage:") {
				msg = fmt.Sprintf("no usage is printed: %q", res.stdout)
			}
		case "info":
			msg = unchanged()
		case "weak":
			// An option (or nothing) in front of the command: the line is refused, asks for help, or means the same as with the
			// command in front.
			msg = refused()
			if msg != "" && res.exit == 0 && info() == "" && (strings.Contains(res.stdout, "Usage:") || strings.Contains(as, "-v")) {
				msg = ""
			}
			for i := range args {
				if _, ok := argFlags[args[i]]; ok && msg != "" {
					c := argCommand(args[i], append(append([]string{}, args[:i]...), args[i+1:]...))
					if c.kind == "run" {
						if _, m2 := cliCompare(r, base, dir, false, w, c.cmd, c.paths, res); m2 == "" {
							msg = ""
						}
					}
				}
			}
		}
		v := verdict{outcome: m.kind + " " + m.cmd, states: []uint64{hash64(w.text()), hash64(got.text())}, trans: 1}
		if msg != "" {
			v.bad = what + ": " + msg
		}
		return v
	}
}

// nearWords lists the words, their prefixes, and the words that one slip of the keyboard makes of them.
func nearWords(words, more []string) []string {
	seen := map[string]bool{}
	var out []string
	add := func(w string) {
		if w != "" && !seen[w] {
			seen[w] = true
			out = append(out, w)
		}
	}
	for _, w := range words {
		for i := range w {
			add(w[:i+1])
			add(w[:i] + w[i+1:])
			add(w[:i+1] + w[i:])
			add(w[:i] + strings.ToUpper(w[i:i+1]) + w[i+1:])
			if i > 0 {
				add(w[:i-1] + w[i:i+1] + w[i-1:i] + w[i+1:])
			}
		}
		for _, x := range []string{"s", "e", " ", "=", ".", "-", "_", "\n", "\t", "*", "?", "\u200b"} {
			add(w + x)
			add(x + w)
		}
		add(strings.ToUpper(w))
		add(strings.ToUpper(w[:1]) + w[1:])
	}
	for _, w := range more {
		add(w)
	}
	return out
}

func spacesC28(r *run) []class {
	al := []string{"check", "format", "lint", "-w", "--write-to-source", "--write-to-source=false", "-w=1", "--auto-fix-id", "--auto-fix-id=true", "--auto-fix-id=F", "--", "-x", "--bogus", "-h", "--help", "--version", "-v", "help", "EMPTY", "-", "noids.conf", "bad.conf", "missing.conf", "-w=maybe", "--write-to-source=", "-ww", "--auto-fix", "FORMAT", "completion", "-wx", "--help=false"}
	small := []string{"noids.conf", "canon.conf", "bad.conf", "-w", "--write-to-source=0", "--auto-fix-id", "--auto-fix-id=0", "--", "-h", "check"}
	n := 3 + r.tier
	words := func(al []string, first []string, n int, conf string, e func(string)) {
		var rec func(l []string)
		rec = func(l []string) {
			e(conf + "\x00" + strings.Join(l, "\x01"))
			if len(l) == n {
				return
			}
			a := al
			if len(l) == 0 && first != nil {
				a = first
			}
			for _, x := range a {
				rec(append(l[:len(l):len(l)], x))
			}
		}
		rec(nil)
	}
	return []class{
		{"configurations", "every configuration file of the tool with every command line of at most two words after a command", func(e func(string)) {
			var confs []string
			for conf := range argConfigs {
				confs = append(confs, conf)
			}
			sort.Strings(confs)
			for _, conf := range confs {
				words(small, []string{"check", "format", "lint", "-h", "--version", "nope"}, 3, conf, e)
			}
		}},
		{"environment", "every command with variables of the environment that carry the names of options, commands and usual settings, with the prefixes of the tool", func(e func(string)) {
			for _, n := range argEnv {
				for _, p := range []string{"", "MUSTACHE_", "MUSTACHE_FORMAT_", "MUSTACHE_LINT_", "LOGSTASH_CONFIG_", "mustache_"} {
					for _, v := range []string{"true", "1", "noids.conf", "false"} {
						for _, l := range []string{"check\x01bad.conf", "format\x01noids.conf", "lint\x01noids.conf", "format\x01-w\x01noids.conf", "lint\x01--auto-fix-id\x01noids.conf"} {
							if (v == "true" || v == "1") == strings.Contains(l, "-") {
								continue
							}
							e("env " + p + n + "=" + v + "\x00" + l)
						}
					}
				}
			}
		}},
		{"words", fmt.Sprintf("every command line of at most %d of %d words", 3, len(al)), func(e func(string)) { words(al, nil, 3, "none", e) }},
		{"near commands", "every prefix of a command, every command with a letter missing, doubled, swapped or changed in case, with a letter or a sign more, and likely names of other commands, with every listed rest", func(e func(string)) {
			for _, w := range nearWords([]string{"check", "format", "lint"}, strings.Fields("fmt ls l f c validate verify test fix run version env config init server print parse lint-fix check-all all -check -format -lint --check --format --lint ./check /check check.conf format= lint=true check,lint completio help2 hel H HELP")) {
				for _, rest := range []string{"", "noids.conf", "-w\x01noids.conf", "noids.conf\x01-w", "--auto-fix-id\x01noids.conf", "--write-to-source\x01noids.conf\x01bad.conf", "format\x01-w\x01noids.conf"} {
					e("none\x00" + strings.TrimRight(w+"\x01"+rest, "\x01"))
				}
			}
		}},
		{"near options", "every command with a configuration file and one word that resembles an option, on either side", func(e func(string)) {
			ws := nearWords([]string{"--write-to-source", "--auto-fix-id", "--help", "-w", "-h", "--version"}, strings.Fields("-write-to-source -auto-fix-id -help --w --h --v --no-write-to-source --write --fix --autofix --autofixid --auto_fix_id --write_to_source --writetosource --in-place -i -a -f -l -o -q -W -H -V /w +w --write-to-source=2 --write-to-source=yes --write-to-source=on --write-to-source=TRUE --auto-fix-id=True --auto-fix-id=yes --auto-fix-id=T -w=0 -w=t -w0 -w1 -wtrue --write-to-source:true --=true -= --w=true --auto-fix-id==true --auto-fix-id=1=1 ---write-to-source --help=1 --help=no -h=0 -hw -wh -w-w"))
			for _, w := range ws {
				for _, cmd := range []string{"check", "format", "lint"} {
					e("none\x00" + cmd + "\x01" + w + "\x01noids.conf")
					e("none\x00" + cmd + "\x01noids.conf\x01" + w)
				}
			}
		}},
		{"near paths", "every command with one or two words that other tools take for lists, patterns, variables, addresses or settings", func(e func(string)) {
			ws := strings.Fields("@list +list <list >out |list list list: -list --list --files=list --from-file=list @noids.conf noids.conf,canon.conf noids.conf:canon.conf noids.conf;canon.conf *.conf n*ids.conf {noids,canon}.conf $HOME/noids.conf ${PWD}/noids.conf ~/noids.conf file:noids.conf file://noids.conf noids.conf=out noids NOIDS.CONF .//canon.conf * ... all write-to-source write-to-source=true auto-fix-id true 1 w /w stdin !noids.conf ^noids.conf %noids.conf & && ; noids.conf;-w && noids.conf# # =")
			for _, cmd := range []string{"check", "format", "format\x01-w", "lint", "lint\x01--auto-fix-id"} {
				for _, w := range ws {
					e("none\x00" + cmd + "\x01" + w)
					e("none\x00" + cmd + "\x01" + w + "\x01noids.conf")
					e("none\x00" + cmd + "\x01canon.conf\x01" + w)
				}
			}
		}},
		{"commands", fmt.Sprintf("every command with every sequence of at most %d of the words %q", n, small), func(e func(string)) {
			words(small, []string{"check", "format", "lint"}, n+1, "none", e)
		}},
	}
}

func init() {
	checks["C28"] = &propCheck{modelMain("every listed command line is executed with the real binary in a directory of its own; exit status, both outputs and all files are compared with the meaning the model gives the line; states are distinct directory contents",
		"the reference parser and formatter in /verif/mc"), spacesC28, checkC28}
}
