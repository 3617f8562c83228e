package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// ---- C19 to C22: the command line tool against a model of its effects ----
//
// A case is "user NUL steps NUL document": user is 0 (root) or 1 (an unprivileged user); steps are
// "command:path,path,...|command:..." with the commands check, format, write (format --write-to-source), lint and
// fix (lint --auto-fix-id); document is the content of doc.conf. Every case runs in a directory of its own.

type cliNode struct {
	kind    byte // f: file, d: directory, l: link, p: named pipe, from which the content can be read once
	content string
	mode    os.FileMode
}

type cliWorld map[string]cliNode

func (w cliWorld) clone() cliWorld {
	c := cliWorld{}
	for k, v := range w {
		c[k] = v
	}
	return c
}

func (w cliWorld) text() string {
	var keys []string
	for k := range w {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var b strings.Builder
	for _, k := range keys {
		if w[k].kind == 'p' {
			fmt.Fprintf(&b, "%s p\n", k)
			continue
		}
		fmt.Fprintf(&b, "%s %c %o %q\n", k, w[k].kind, w[k].mode, w[k].content)
	}
	return b.String()
}

var cliBig = func() string {
	var b strings.Builder
	for i := 0; i < 1500; i++ {
		fmt.Fprintf(&b, "filter{p%d{a=>\"%s\" id=>'i%d'}}\n", i%7, strings.Repeat("é", i%90), i)
	}
	return b.String()
}()

// cliFiles are the files cases can name; only those a case names are made, and the bystander.
var cliFiles = map[string]cliNode{
	"canon.conf":     {'f', valid("input {\n  stdin {\n    id => \"a\"\n  }\n}\n"), 0o644},
	"ids.conf":       {'f', valid("output{o{id=>\"o\"}} # c\ninput{i{id=>aa codec=>json{}}}\nfilter{if[x]{f{id=>'f'}}else{g{id=>\"g\"}}}"), 0o644},
	"noids.conf":     {'f', valid("#h\noutput{o{a=>1 #c\n}\n'q'{}}input{stdin{codec=>j{id=>\"z\"}}}\nfilter{if[x]{\"d w\"{#foot\n}}else if[y]{g{id=>\"g-1\"}}else{g{}}}"), 0o600},
	"dup.conf":       {'f', valid("output{a{id=>xx}b{id=>\"xx\"}} input{i{id=>'xx'}}filter{n{id=>1}m{\"id\"=>\"xx\"}}"), 0o644},
	"mixed.conf":     {'f', valid("filter{ #w\nn{id=>[1]}m{}k{x # w1\n=> # w2\n1 }}"), 0o644},
	"100%d.conf":     {'f', valid("filter{ a {\n} }"), 0o644},
	"bad.conf":       {'f', "filter {\n  p { x = > 1 }\n}\n", 0o644},
	"fatal.conf":     {'f', "filter {\n  p { x => \"1 }\n}\n", 0o644},
	"utf8.conf":      {'f', "filter { p { x => \"\xff\" } }", 0o644},
	"trail.conf":     {'f', "filter { p { id => \"t\" } }\n}", 0o644},
	"empty.conf":     {'f', valid(""), 0o644},
	"blank.conf":     {'f', " \n\t\n", 0o644},
	"crlf.conf":      {'f', valid("# h\r\nfilter {\r\n  p {\r\n    a => 1 # c\r\n  }\r\n\r\n  if [x] {\r\n  }\r\n}\r\n"), 0o644},
	"tabs.conf":      {'f', valid("filter {\n\tp {\n\t\ta => 1 \t# c\t\n\t}\n\n\n}\n\n\n"), 0o644},
	"big.conf":       {'f', cliBig, 0o644},
	"link.conf":      {'l', "target.conf", 0},
	"target.conf":    {'f', valid("filter{t{}}"), 0o644},
	"dangling.conf":  {'l', "nowhere.conf", 0},
	"loop.conf":      {'l', "loop.conf", 0},
	"dir":            {'d', "", 0o755},
	"dir/inner.conf": {'f', valid("filter{x{}}"), 0o644},
	"dirlink":        {'l', "dir", 0},
	"readonly.conf":  {'f', valid("filter{r{}}"), 0o444},
	"own444.conf":    {'f', valid("filter{o{}}"), 0o444},
	"own200.conf":    {'f', valid("filter{o{}}"), 0o200},
	"own600.conf":    {'f', valid("filter{o{}}"), 0o600},
	"secret.conf":    {'f', valid("filter{s{}}"), 0o000},
	"d1":             {'d', "", 0o755},
	"d1/d2":          {'d', "", 0o755},
	"dirb":           {'l', "d1/d2", 0},
	"pipe.conf":      {'p', valid("filter{p{}p #w\n{id=>aa}}#f"), 0o644},
	"badpipe.conf":   {'p', "filter{p{", 0o644},
	"fixedpipe.conf": {'p', valid("filter { p { id => \"" + strings.Repeat("i", 70000) + "\" } }"), 0o644},
	"up.conf":        {'f', valid("filter{upper{}}"), 0o644},
	"d1/up.conf":     {'f', valid("filter{ behind {} }"), 0o644},
}

// The pipes, and the file a tool may read standard input or nothing from.
var cliPipes = []string{"pipe.conf", "badpipe.conf", "fixedpipe.conf", "/dev/null"}

const cliBystander = "bystander.conf"

var cliBystanderNode = cliNode{'f', "filter{by{}}\nfilter", 0o640}

// cliAlias: paths that name a file in another way.
var cliAlias = map[string]string{
	"dirb/../up.conf": "d1/up.conf", "dir//inner.conf": "dir/inner.conf", "dir/./inner.conf": "dir/inner.conf", "/proc/self/cwd/canon.conf": "canon.conf", "dirlink/inner.conf": "dir/inner.conf", ".//canon.conf": "canon.conf",
}

// cliHard: files that are hard links to other files (only read, as a tool may break the link when it rewrites one).
var cliHard = map[string]string{"badhard.conf": "bad.conf", "noidshard.conf": "noids.conf"}

var cliSame = []string{"bad.conf", "badlink.conf", "noids.conf", "noidslink.conf", "badhard.conf", "noidshard.conf"}

func init() {
	for k, t := range cliHard {
		cliFiles[k] = cliFiles[t]
		cliNeeds[k] = []string{t}
	}
	for k, t := range map[string]string{"badlink.conf": "bad.conf", "noidslink.conf": "noids.conf"} {
		cliFiles[k] = cliNode{'l', t, 0}
		cliNeeds[k] = []string{t}
	}
}

// cliSpecial: names with characters that mean something elsewhere, each next to files that a wrong reading of the name
// would find. Those starting with v hold a valid configuration and their neighbours an invalid one, those starting with
// b the other way round.
var cliSpecial = func() []string {
	var out []string
	for _, p := range []string{"v", "b"} {
		for _, x := range [][]string{
			{"%s[1].conf", "%s1.conf"}, {"%s*.conf", "%sx.conf"}, {"%s?.conf", "%sy.conf"}, {"%s{c,d}.conf", "%sc.conf"}, {"%s z.conf", "%s", "z.conf"}, {" %s.conf", "%s.conf"}, {"%s.conf ", "%s.conf"},
			{"%s\\z.conf", "%sz.conf"}, {"%sUP.conf", "%sup.conf"}, {"%s$HOME.conf", "%s.conf"}, {"%s%%20.conf", "%s .conf"}, {"%s%%s%%d%%n.conf", "%s.conf"}, {"%s\u00e9.conf", "%se\u0301.conf"}, {"%s\xff.conf", "%s\ufffd.conf"},
			{".%s.conf", "%s.conf"}, {"%s", "%s.conf"}, {"%s.conf~", "%s.conf"}, {"'%s'.conf", "%s.conf"}, {"\"%s.conf\"", "%s.conf"}, {"~%s", "%s"}, {"%s:1", "%s"}, {"%s#z", "%s"}, {"%s;z", "%s"}, {"@%s", "%s"}, {"+%s", "%s"}, {"%s=z", "%s", "z"}, {"%s.yaml", "%s"}, {"%s" + strings.Repeat("n", 249), "%s"},
		} {
			if strings.Contains(x[0], ",") {
				continue // separates the paths of a case
			}
			name := fmt.Sprintf(x[0], p)
			doc, other := valid("filter{ s {\n} }"), "filter{ s {\n }"
			if p == "b" {
				doc, other = other, doc
			}
			cliFiles[name] = cliNode{'f', doc, 0o644}
			for _, y := range x[1:] {
				if strings.Contains(y, "%s") {
					y = fmt.Sprintf(y, p)
				}
				decoy := "\x00" + other + "\x00" + y
				cliNeeds[name] = append(cliNeeds[name], decoy)
			}
			out = append(out, name)
		}
	}
	return out
}()

// cliNeeds: other files a name depends on.
var cliNeeds = map[string][]string{
	"dirb/../up.conf": {"dirb", "d1", "d1/d2", "up.conf", "d1/up.conf"}, "dir//inner.conf": {"dir"}, "dir/./inner.conf": {"dir"}, "/proc/self/cwd/canon.conf": {"canon.conf"}, "dirlink/inner.conf": {"dirlink"}, ".//canon.conf": {"canon.conf"}, "canon.conf/": {"canon.conf"}, "~/canon.conf": {"canon.conf"}, "file:canon.conf": {"canon.conf"},
	"link.conf": {"target.conf"}, "dirlink": {"dir", "dir/inner.conf"}, "dir": {"dir/inner.conf"}, "dir/inner.conf": {"dir"}, "./dir/../canon.conf": {"dir", "canon.conf"}, "canon.conf/x": {"canon.conf"}}

// cliErrors: names that give an error of the operating system, with what it must say.
var cliErrors = map[string]string{
	"missing.conf":    "no such file or directory",
	"dangling.conf":   "no such file or directory",
	"canon.conf/x":    "not a directory",
	"loop.conf":       "too many levels of symbolic links",
	"/proc/self/mem":  "input/output error",
	"":                "no such file or directory",
	"~/canon.conf":    "no such file or directory",
	"file:canon.conf": "no such file or directory",
	"canon.conf/":     "not a directory",
}

func cliMake(dir string, w cliWorld) {
	var keys []string
	for k := range w {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		p := filepath.Join(dir, k)
		switch n := w[k]; n.kind {
		case 'd':
			fatalIf(os.Mkdir(p, n.mode))
		case 'l':
			fatalIf(os.Symlink(n.content, p))
		case 'p':
			fatalIf(syscall.Mkfifo(p, uint32(n.mode)))
			fatalIf(os.Chmod(p, n.mode))
		default:
			if _, ok := w[cliHard[k]]; ok {
				fatalIf(os.Link(filepath.Join(dir, cliHard[k]), p))
				continue
			}
			fatalIf(os.WriteFile(p, []byte(n.content), 0o600))
			if strings.HasPrefix(k, cliOwn) {
				fatalIf(os.Chown(p, cliNobody, cliNobody))
			}
			fatalIf(os.Chmod(p, n.mode))
		}
	}
}

func cliSnapshot(dir string) cliWorld {
	w := cliWorld{}
	err := filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		switch {
		case rel == ".":
		case i.IsDir():
			w[rel] = cliNode{'d', "", i.Mode().Perm()}
		case i.Mode()&os.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			w[rel] = cliNode{'l', t, 0}
		case i.Mode()&os.ModeNamedPipe != 0:
			w[rel] = cliNode{'p', "", 0}
		case !i.Mode().IsRegular():
			w[rel] = cliNode{'?', i.Mode().String(), 0}
		default:
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			w[rel] = cliNode{'f', string(b), i.Mode().Perm()}
		}
		return nil
	})
	fatalIf(err)
	return w
}

type cliRun struct {
	exit           int
	stdout, stderr string
	crash          string
}

const cliNobody = 65534

// cliOwn: files whose names start with this belong to the unprivileged user.
const cliOwn = "own"

// cliExec runs the tool in dir.
func cliExec(r *run, dir string, user bool, args ...string) cliRun {
	return cliExecEnv(r, dir, user, []string{"HOME=" + dir}, "", args...)
}

func cliExecEnv(r *run, dir string, user bool, env []string, stdin string, args ...string) cliRun {
	cmd := exec.Command(r.mustache, args...)
	cmd.Dir = dir
	cmd.Env = append([]string{"PATH=/usr/bin:/bin", "GOTRACEBACK=single"}, env...)
	if stdin != "" {
		cmd.Stdin = strings.NewReader(stdin)
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{}
	if user {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: cliNobody, Gid: cliNobody, NoSetGroups: false}
	}
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	fatalIf(cmd.Start())
	killed := false
	t := time.AfterFunc(60*time.Second, func() { killed = true; cmd.Process.Kill() })
	werr := cmd.Wait()
	t.Stop()
	res := cliRun{stdout: out.String(), stderr: errb.String()}
	if ee, ok := werr.(*exec.ExitError); ok {
		res.exit = ee.ExitCode()
		if res.exit < 0 {
			res.crash = "ended by " + ee.String()
		}
	} else if werr != nil {
		fatalIf(werr)
	}
	if killed {
		res.crash = "did not finish within 60 s"
	}
	if strings.Contains(res.stderr, "goroutine ") && strings.Contains(res.stderr, "panic") || res.exit == 2 {
		res.crash = fmt.Sprintf("crash (exit status %d): %.600s", res.exit, res.stderr)
	}
	return res
}

var cliArgs = map[string][]string{"check": {"check"}, "format": {"format"}, "write": {"format", "-w"}, "lint": {"lint"}, "fix": {"lint", "--auto-fix-id"}}

// cliEntries splits the standard error of check and lint into its entries.
func cliEntries(s string) ([]string, string) {
	if s == "" {
		return nil, ""
	}
	head, rest, _ := strings.Cut(s, "\n")
	if !regexp.MustCompile(`^error: \d+ errors? occurred:$`).MatchString(head) {
		return nil, "standard error does not start with the number of errors: " + head
	}
	var out []string
	for _, l := range strings.Split(rest, "\n") {
		switch {
		case strings.HasPrefix(l, "\t* "):
			out = append(out, l[3:])
		case strings.HasPrefix(l, "\t  ") && len(out) > 0:
			out[len(out)-1] += "\n" + l[3:]
		case l == "":
		default:
			return nil, fmt.Sprintf("unexpected line %q in standard error", l)
		}
	}
	if n := atoi(strings.Fields(head)[1]); n != len(out) {
		return nil, fmt.Sprintf("standard error announces %d errors and lists %d", n, len(out))
	}
	return out, ""
}

type cliTarget struct {
	path  string
	name  string // the file it resolves to
	dir   bool
	osErr string
	doc   string
	ro    bool // can not be written
}

func cliResolve(w cliWorld, user bool, path string) cliTarget {
	t := cliTarget{path: path}
	if e, ok := cliErrors[path]; ok {
		t.osErr = e
		return t
	}
	if path == "/dev/null" {
		t.name = path // an empty configuration
		return t
	}
	name := filepath.Clean(path)
	if a, ok := cliAlias[path]; ok {
		name = a
	} else if n, ok := w[name]; ok && n.kind == 'l' {
		name = n.content
	}
	n, ok := w[name]
	if !ok {
		t.osErr = "no such file or directory"
		return t
	}
	t.name = name
	t.dir = n.kind == 'd'
	t.doc = n.content
	if user && !t.dir {
		mode := n.mode
		if strings.HasPrefix(name, cliOwn) {
			mode >>= 6
		}
		if mode&0o004 == 0 {
			t.osErr = "permission denied"
		}
		t.ro = mode&0o002 == 0
	}
	return t
}

var (
	cliAloneMu sync.Mutex
	cliAlone   = map[string]string{}
)

// cliProblem is what the command says about an invalid file when it is the only one.
func cliProblem(r *run, base string, cmd string, t cliTarget) (string, string) {
	cliAloneMu.Lock()
	defer cliAloneMu.Unlock()
	key := cmd + "\x00" + t.path + "\x00" + t.doc
	if s, ok := cliAlone[key]; ok {
		return s, ""
	}
	dir := filepath.Join(base, "alone")
	fatalIf(os.Mkdir(dir, 0o755))
	defer os.RemoveAll(dir)
	w := cliWorld{t.name: {'f', t.doc, 0o644}}
	for _, n := range cliNeeds[t.path] {
		if x, ok := cliFiles[n]; ok && n != t.name {
			w[n] = x
		}
	}
	if filepath.Clean(t.path) != t.name {
		w[filepath.Clean(t.path)] = cliNode{'l', t.name, 0}
	}
	cliMake(dir, w)
	res := cliExec(r, dir, false, append(append([]string{}, cliArgs[cmd]...), t.path)...)
	if res.exit != 1 || res.crash != "" {
		return "", fmt.Sprintf("%s %s alone: exit status %d %s %s", cmd, t.path, res.exit, res.crash, res.stderr)
	}
	text := strings.TrimPrefix(res.stderr, "error: ")
	if cmd == "check" || cmd == "lint" || cmd == "fix" {
		es, msg := cliEntries(res.stderr)
		if msg != "" || len(es) != 1 {
			return "", fmt.Sprintf("%s %s alone: %d errors, expected one: %s %q", cmd, t.path, len(es), msg, res.stderr)
		}
		text = es[0]
	}
	if !strings.HasPrefix(text, t.path+": ") {
		return "", fmt.Sprintf("the error does not name %s: %q", t.path, text)
	}
	rest := strings.TrimPrefix(text, t.path+": ")
	if rest = strings.TrimPrefix(rest, t.path+": "); !strings.HasPrefix(rest, t.path+":") {
		return "", fmt.Sprintf("the error of %s has no position: %q", t.path, text)
	}
	pi := newPosIndex(t.doc)
	m := regexp.MustCompile(`^:(\d+):(\d+) \((\d+)\)`).FindStringSubmatch(strings.TrimPrefix(rest, t.path))
	if m == nil || !pi.ok(atoi(m[3]), atoi(m[1]), atoi(m[2])) {
		return "", fmt.Sprintf("the error of %s has no position in the file: %q", t.path, text)
	}
	if msg := checkPosReport(t.doc, text); msg != "" {
		return "", msg
	}
	cliAlone[key] = text
	return text, ""
}

type cliPlugin struct {
	n    *N
	has  bool
	ok   bool // usable
	id   string
	name string
}

// cliPlugins lists the plugins of a configuration in the order they are looked at.
func cliPlugins(tree *N) []cliPlugin {
	var out []cliPlugin
	var walk func(l []*N)
	walk = func(l []*N) {
		for _, b := range l {
			switch b.K {
			case "plugin":
				p := cliPlugin{n: b, name: b.T}
				for _, a := range b.Ch {
					if a.Name == "id" || a.Name == `"id"` || a.Name == `'id'` {
						p.has = true
						if a.K == "string" {
							_, p.id, _ = strings.Cut(a.T, ":")
							p.ok = true
						}
						break
					}
				}
				out = append(out, p)
			case "branch":
				for _, e := range b.Ch {
					walk(e.Ch)
				}
			}
		}
	}
	for _, s := range tree.Ch {
		walk(s.Ch)
	}
	return out
}

// cliLint is the model of lint for one valid file: the expected entries.
type cliLint struct {
	warns  []warn
	noID   []string
	dup    []string
	change bool // auto-fix adds ids
}

func cliLintModel(ref refResult, fix bool) cliLint {
	l := cliLint{warns: ref.warns}
	seen := map[string]bool{}
	for _, p := range cliPlugins(ref.tree) {
		line := fmt.Sprintf("%d:%d [%d]: %s", p.n.Line, p.n.Col, p.n.Off, p.name)
		switch {
		case !p.has && fix:
			l.change = true
		case !p.ok:
			l.noID = append(l.noID, line)
		case seen[p.id]:
			l.dup = append(l.dup, line)
		default:
			seen[p.id] = true
		}
	}
	return l
}

// cliFixed decides whether now is the original with ids added.
func cliFixed(old, now string) string {
	ro, rn := refParse(old), refParse(now)
	if !rn.ok {
		return fmt.Sprintf("the rewritten file is no configuration: %q", now)
	}
	po, pn := cliPlugins(ro.tree), cliPlugins(rn.tree)
	if len(po) != len(pn) {
		return fmt.Sprintf("%d plugins became %d", len(po), len(pn))
	}
	ids := map[string]bool{}
	for _, p := range po {
		if p.ok {
			ids[p.id] = true
		}
	}
	for i, p := range po {
		if p.has {
			continue
		}
		q := pn[i]
		if !q.ok || len(q.n.Ch) != len(p.n.Ch)+1 {
			return fmt.Sprintf("plugin %s has no id appended: %q", p.name, now)
		}
		if ids[q.id] {
			return fmt.Sprintf("the id %q given to plugin %s is already used", q.id, p.name)
		}
		ids[q.id] = true
		last := q.n.Ch[len(q.n.Ch)-1]
		p.n.Ch = append(p.n.Ch, &N{K: last.K, T: last.T, Name: last.Name, Off: -1})
	}
	if want := refFormat(ro.tree); want != now {
		return "apart from the ids the rewritten file is not the formatted original: " + firstDiff(want, now)
	}
	return ""
}

var cliMemo sync.Map // document -> refResult is too big to keep; only the small fixed files are kept

func cliRef(doc string) refResult {
	if v, ok := cliMemo.Load(doc); ok {
		return v.(refResult)
	}
	r := refParse(doc)
	cliMemo.Store(doc, r)
	return r
}

var cliFmtMemo sync.Map

func cliFormat(doc string) string {
	if v, ok := cliFmtMemo.Load(doc); ok {
		return v.(string)
	}
	s := refFormat(cliRef(doc).tree)
	cliFmtMemo.Store(doc, s)
	return s
}

// cliFeed writes the contents of the named pipes to whoever opens them, until the result is called.
func cliFeed(dir string, w cliWorld) func() {
	var wg sync.WaitGroup
	done := make(chan struct{})
	var paths []string
	for k, n := range w {
		if n.kind != 'p' {
			continue
		}
		p, n := filepath.Join(dir, k), n
		paths = append(paths, p)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				f, err := os.OpenFile(p, os.O_WRONLY, 0) // waits for a reader
				if err == nil {
					f.WriteString(n.content)
					f.Close()
				}
				select {
				case <-done:
					return
				case <-time.After(5 * time.Second):
					// The tool may open the pipe again.
				}
			}
		}()
	}
	return func() {
		close(done)
		ended := make(chan struct{})
		go func() { wg.Wait(); close(ended) }()
		for {
			var fs []*os.File
			for _, p := range paths {
				if f, err := os.OpenFile(p, os.O_RDONLY|syscall.O_NONBLOCK, 0); err == nil {
					fs = append(fs, f)
				}
			}
			select {
			case <-ended:
			case <-time.After(time.Millisecond):
			}
			for _, f := range fs {
				f.Close()
			}
			select {
			case <-ended:
				return
			default:
			}
		}
	}
}

// cliStep executes one command and compares its effects with the model; it returns the new world.
func cliStep(r *run, base, dir string, user bool, w cliWorld, cmd string, paths []string) (cliWorld, string) {
	fed := cliFeed(dir, w)
	res := cliExec(r, dir, user, append(append([]string{}, cliArgs[cmd]...), paths...)...)
	fed()
	return cliCompare(r, base, dir, user, w, cmd, paths, res)
}

// cliCompare compares the effects of a command with the model.
func cliCompare(r *run, base, dir string, user bool, w cliWorld, cmd string, paths []string, res cliRun) (cliWorld, string) {
	what := fmt.Sprintf("%s %q", strings.Join(cliArgs[cmd], " "), paths)
	if res.crash != "" {
		return nil, what + ": " + res.crash
	}
	got := cliSnapshot(dir)
	want := w.clone()
	var msgs []string
	fail := func(f string, a ...interface{}) { msgs = append(msgs, what+": "+fmt.Sprintf(f, a...)) }
	// problem describes the expected error of a path, if there is one.
	problem := func(t cliTarget, entry string) bool {
		if t.osErr != "" {
			if !strings.Contains(entry, t.path) || !strings.Contains(entry, t.osErr) {
				fail("the error for %q must name it and say %q: %q", t.path, t.osErr, entry)
			}
			return true
		}
		if cliRef(t.doc).ok {
			return false
		}
		alone, msg := cliProblem(r, base, cmd, t)
		if msg != "" {
			fail("%s", msg)
		} else if strings.TrimRight(entry, "\n") != strings.TrimRight(alone, "\n") {
			fail("the error for %q is %q, but alone it is %q", t.path, entry, alone)
		}
		return true
	}
	switch cmd {
	case "format", "write":
		out, bad := "", false
		for _, p := range paths {
			t := cliResolve(want, user, p)
			if t.dir {
				continue
			}
			if problem(t, strings.TrimPrefix(res.stderr, "error: ")) {
				bad = true
				break
			}
			if cmd == "format" {
				out += cliFormat(t.doc)
				continue
			}
			if t.ro {
				if !strings.Contains(res.stderr, "permission denied") || !strings.Contains(res.stderr, t.path) {
					fail("the error for the read-only %q must name it: %q", t.path, res.stderr)
				}
				bad = true
				break
			}
			n := want[t.name]
			n.content = cliFormat(t.doc)
			want[t.name] = n
		}
		if !bad && res.stderr != "" {
			fail("error although all files are valid: %q", res.stderr)
		}
		if bad && !strings.HasPrefix(res.stderr, "error: ") {
			fail("no error is reported: %q", res.stderr)
		}
		if (res.exit != 0) != bad {
			fail("exit status %d (bad file: %v)", res.exit, bad)
		}
		if res.stdout != out {
			fail("standard output differs: %s", firstDiff(out, res.stdout))
		}
	case "check", "lint", "fix":
		entries, msg := cliEntries(res.stderr)
		if msg != "" {
			fail("%s", msg)
			break
		}
		i := 0
		next := func() string {
			if i < len(entries) {
				i++
				return entries[i-1]
			}
			i++
			return ""
		}
		for _, p := range paths {
			t := cliResolve(want, user, p)
			if t.dir {
				continue
			}
			e := ""
			if i < len(entries) {
				e = entries[i]
			}
			if problem(t, e) {
				i++
				continue
			}
			if cmd == "check" {
				continue
			}
			ref := cliRef(t.doc)
			l := cliLintModel(ref, cmd == "fix")
			pi := newPosIndex(t.doc)
			for _, wn := range l.warns {
				e := next()
				m := warnRe.FindStringSubmatch(e)
				if m == nil || atoi(m[3]) != wn.off || !pi.ok(wn.off, atoi(m[1]), atoi(m[2])) {
					fail("expected the warning for the comment at offset %d of %s, got %q", wn.off, t.path, e)
				}
			}
			list := func(head string, lines []string) {
				if len(lines) == 0 {
					return
				}
				want := t.path + ": " + head + ":\n" + strings.Join(lines, "\n")
				if e := next(); e != want {
					fail("expected %q, got %q", want, e)
				}
			}
			list("no IDs found for", l.noID)
			list("duplicate IDs found in", l.dup)
			if !l.change {
				continue
			}
			if t.ro {
				if e := next(); !strings.Contains(e, "permission denied") || !strings.Contains(e, t.path) {
					fail("the error for the read-only %q must name it: %q", t.path, e)
				}
				continue
			}
			n := want[t.name]
			// The ids themselves are not prescribed: take over what the tool wrote if it is right. A later path can
			// not change the file again, because it has all ids.
			if g := got[t.name]; g.kind == 'f' {
				if m := cliFixed(t.doc, g.content); m != "" {
					fail("%s: %s", t.path, m)
				} else {
					n.content = g.content
				}
			}
			want[t.name] = n
		}
		if i != len(entries) {
			fail("%d reports, expected %d: %q", len(entries), i, entries)
		}
		if (res.exit != 0) != (i > 0) {
			fail("exit status %d with %d expected reports", res.exit, i)
		}
		if res.stdout != "" {
			fail("standard output %q", res.stdout)
		}
	}
	if res.exit != 0 && res.exit != 1 {
		fail("exit status %d", res.exit)
	}
	if len(msgs) == 0 {
		if a, b := want.text(), got.text(); a != b {
			fail("files differ: %s", firstDiff(a, b))
		}
	}
	if len(msgs) > 0 {
		return nil, msgs[0]
	}
	return want, ""
}

func checkCLI(r *run) caseCheck {
	base := filepath.Join(r.work, fmt.Sprintf("cli-%d", os.Getpid()))
	fatalIf(os.MkdirAll(base, 0o755))
	// The unprivileged user must reach the tool and the files.
	os.Chmod(r.work, 0o755)
	n := 0
	return func(c string) verdict {
		f := strings.SplitN(c, "\x00", 3)
		user := f[0] == "1"
		w := cliWorld{cliBystander: cliBystanderNode}
		steps := strings.Split(f[1], "|")
		var add func(string)
		add = func(p string) {
			if p == "doc.conf" {
				w[p] = cliNode{'f', f[2], 0o644}
			} else if x, ok := cliFiles[p]; ok {
				w[p] = x
			}
			for _, d := range cliNeeds[p] {
				if strings.HasPrefix(d, "\x00") {
					f := strings.SplitN(d, "\x00", 3)
					w[f[2]] = cliNode{'f', f[1], 0o644}
				} else if _, ok := w[d]; !ok {
					add(d)
				}
			}
		}
		for _, s := range steps {
			_, ps, _ := strings.Cut(s, ":")
			for _, p := range strings.Split(ps, ",") {
				add(p)
			}
		}
		if strings.Contains(f[1], "write:") || strings.Contains(f[1], "fix:") {
			cliNeighbours(w)
		}
		n++
		dir := filepath.Join(base, fmt.Sprintf("w%d", n))
		fatalIf(os.Mkdir(dir, 0o755))
		defer os.RemoveAll(dir)
		cliMake(dir, w)
		v := verdict{states: []uint64{hash64(w.text())}}
		for _, s := range steps {
			cmd, ps, _ := strings.Cut(s, ":")
			var paths []string
			if ps != "" {
				paths = strings.Split(ps, ",")
				for i := range paths {
					if paths[i] == "EMPTY" {
						paths[i] = ""
					}
				}
			}
			next, msg := cliStep(r, base, dir, user, w, cmd, paths)
			if msg != "" {
				v.bad = msg
				return v
			}
			if next.text() != w.text() {
				v.outcome += cmd + " changes files; "
			} else {
				v.outcome += cmd + "; "
			}
			w = next
			v.states = append(v.states, hash64(w.text()))
			v.trans++
		}
		return v
	}
}

// cliNeighbours adds files with names that a tool may take for temporary ones.
func cliNeighbours(w cliWorld) {
	var names []string
	for k, n := range w {
		if n.kind == 'f' && k != cliBystander {
			names = append(names, k)
		}
	}
	if len(names) > 3 {
		return
	}
	for _, k := range names {
		dir, base := filepath.Split(k)
		stem := strings.TrimSuffix(base, ".conf")
		for _, x := range []string{base + ".tmp", base + "~", base + ".bak", "." + base + ".swp", "." + base + ".tmp", "." + base, base + ".new", base + ".old", base + ".orig", base + "_", base + ".lock", "#" + base + "#", "tmp", stem + ".tmp", stem + ".bak", "~" + base, base + ".1", "_" + base, "tmp-" + base, base + "-tmp", base + ".fixed", base + ".formatted"} {
			if _, ok := w[dir+x]; !ok && len(x) < 240 {
				w[dir+x] = cliNode{'f', "mine " + x, 0o644}
			}
		}
	}
}

func cliSeqs(names []string, n int, e func([]string)) {
	var rec func(l []string)
	rec = func(l []string) {
		e(l)
		if len(l) == n {
			return
		}
		for _, x := range names {
			rec(append(l[:len(l):len(l)], x))
		}
	}
	rec(nil)
}

var (
	cliNames = []string{"canon.conf", "noids.conf", "bad.conf", "fatal.conf", "missing.conf", "dir", "ids.conf", "100%d.conf", "utf8.conf", "/proc/self/mem", "canon.conf/x", "link.conf", "mixed.conf", "dup.conf"}
	cliMore  = []string{"loop.conf", "dangling.conf", "dirlink", "empty.conf", "blank.conf", "trail.conf", "EMPTY", "./dir/../canon.conf", "dir/inner.conf", "big.conf", "target.conf", "crlf.conf", "tabs.conf"}
	cliPerm  = []string{"canon.conf", "readonly.conf", "secret.conf", "noids.conf", "dup.conf", "bad.conf"}
	cliOwned = []string{"own444.conf", "own200.conf", "own600.conf", "canon.conf", "readonly.conf"}
)

// cliLintDocs emits the documents for the linter: all short lists of plugins of all kinds of ids in all places.
func cliLintDocs(tier int, e func(string)) {
	e0 := e
	e = func(d string) { e0(valid(d)) }
	attrs := []string{"", "id=>\"a\"", "id=>'a'", "id=>ab", "\"id\"=>\"a\"", "'id'=>\"b\"", "id=>1", "id=>[\"a\"]", "id=>\"\"", "id=>c{id=>\"a\"}", "codec=>c{}", "codec=>c{id=>\"a\"}", "x=>{id=>\"a\"}", "ID=>\"a\"", "id=>\"p-1\"", "id=>\"p-2\"", "id=>\"a\" id=>\"b\"", "id=>1 id=>\"a\"", "b=>1 #f\n", "x=>[1,2]#f\n"}
	names := []string{"p", "q", "\"p\"", "'q r'", "\"it's\"", "p-1", "\"%T\"", "'%d%s'", "\"a\\\"b\"", "\"\"", "'ä#{'", "\"1\n2\""}
	places := []func(a, b string) string{
		func(a, b string) string { return "input{" + a + b + "}" },
		func(a, b string) string { return "output{" + a + "}input{" + b + "}" },
		func(a, b string) string { return "filter{" + a + "}filter{" + b + "}" },
		func(a, b string) string { return "filter{if[x]{" + a + "}else{" + b + "}}" },
		func(a, b string) string { return "filter{if[x]{}else if[y]{if[z]{" + a + "}}" + b + "}" },
		func(a, b string) string { return "filter{" + a + "if[x]{" + b + "}}" },
		func(a, b string) string {
			return "output{if[x]{" + a + "}}filter{if[x]{" + b + "}else if[y]{" + a + "}}"
		},
	}
	for _, pl := range places {
		for _, x := range attrs {
			for _, y := range attrs {
				e(pl("p{"+x+"}", "p{"+y+"}"))
			}
		}
		for _, n := range names {
			for _, m := range names {
				for _, x := range []string{"", "id=>\"p-1\"", "id=>\"p-2\""} {
					e(pl(n+"{}", m+"{"+x+"}"))
				}
			}
		}
	}
	short := []string{"", "id=>\"a\"", "id=>\"p-1\"", "id=>\"p-2\"", "id=>\"p-3\"", "id=>1"}
	for _, x := range short {
		for _, y := range short {
			for _, z := range short {
				e("filter{p{" + x + "}p{" + y + "}p{" + z + "}}")
				e("output{p{" + x + "}}filter{if[a]{p{" + y + "}}}input{p{" + z + "}}")
				if tier > 0 {
					for _, u := range short {
						e("filter{p{" + x + "}p{" + y + "}if[a]{p{" + z + "}}else{p{" + u + "}}}")
					}
				}
			}
		}
	}
	cm := []string{"", "#c\n", "\n#c\n", "#c\n#d\n\n", "\n\n#c\n\n"}
	for _, x := range cm {
		for _, y := range cm {
			for _, z := range cm {
				e(x + "filter{" + y + "p{" + z + "}}" + "filter{p{a=>1\n" + y + "}" + z + "}")
				e("filter{if[a]{" + x + "p{" + y + "a=>[1," + x + "2]" + z + "}" + z + "}}")
				e("filter" + x + "{p" + y + "{a" + z + "=>" + x + "1}if" + y + "[a]" + z + "==1{}}")
			}
		}
	}
	lits := []string{"\"a\nb\"", "'\n  x\n'", "/x/", "\"\\\"\"", "1.50", "[]", "{}", "\"#\"", "'}'"}
	for _, x := range lits {
		for _, y := range lits {
			if x != "/x/" {
				e("filter{p{a=>" + x + " b=>[" + strings.Replace(y, "/x/", "1", 1) + "]}}")
			}
			if strings.ContainsAny(x+y, "[{") {
				continue
			}
			if x != "/x/" {
				op := "=="
				if y == "/x/" {
					op = "=~"
				}
				e("filter{if " + x + op + y + "{p{}}}")
			}
		}
	}
}

// cliLargeDocs: many plugins, deep nesting, long branches, many warnings and long ids.
func cliLargeDocs(tier int, e func(string)) {
	e0 := e
	e = func(d string) { e0(valid(d)) }
	many := func(n int, f func(i int) string) string {
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteString(f(i))
		}
		return b.String()
	}
	sizes := []int{10, 33, 65, 129, 260}
	if tier > 0 {
		sizes = append(sizes, 11, 16, 17, 32, 64, 100, 128, 255, 256, 257, 513, 1025)
	}
	uniq := func(i int) string { return fmt.Sprintf("p{id=>\"u%d\"}\n", i) }
	for _, n := range sizes {
		e("filter{" + many(n, func(int) string { return "p{}" }) + "}")
		e("filter{" + many(n, func(int) string { return "p{id=>\"a\"}" }) + "}")
		e("filter{" + many(n, uniq) + "}")
		e(many(n, func(i int) string {
			return []string{"input", "filter", "output"}[i%3] + "{" + []string{"p", "q", "p"}[i*i%3] + "{}}\n"
		}))
		e("filter{if 1{" + many(n, uniq) + "}" + many(n, func(i int) string { return "else if [a]==" + fmt.Sprint(i) + "{p{}}" }) + "else{p{}p{}}}")
		e("filter{" + many(n, func(i int) string { return "#c" + fmt.Sprint(i) + "\np{a=>1\n#d\n}" }) + "}")
		e("filter{" + many(n, func(i int) string { return "p #w" + fmt.Sprint(i) + "\n{id=>#x\n\"" + fmt.Sprint(i/2) + "\"}" }) + "}")
		e("filter{" + many(n, func(i int) string { return fmt.Sprintf("p{id=>\"p-%d\"}p{}", i*2) }) + "}")
		e("filter{" + many(n, func(i int) string { return fmt.Sprintf("p{}p{id=>\"p-%d\"}", n-i) }) + "}")
		for _, i := range []int{0, 1, n / 2, n - 2, n - 1} {
			for _, j := range []int{0, n / 3, n - 1} {
				for _, x := range []string{"p{}", "p{id=>'u%d'}", "p{id=>1}", "p{id=>\"p-1\"}"} {
					if strings.Contains(x, "%d") {
						x = fmt.Sprintf(x, j)
					}
					e("filter{" + many(n, func(k int) string {
						if k == i {
							return x
						}
						return uniq(k)
					}) + "}")
				}
			}
		}
	}
	depths := []int{3, 6, 12, 25, 40}
	if tier > 0 {
		depths = append(depths, 4, 5, 8, 16, 17, 60, 100)
	}
	for _, d := range depths {
		for _, o := range []string{"if 1{", "if 1{}else{", "if 1{p{id=>\"a\"}}else if 2{", "p{id=>\"b\"}if 1{p{}}else{p{id=>1}", "#c\nif 1{#d\n"} {
			for _, m := range []string{"", "p{}", "p{id=>\"a\"}", "p{id=>\"a\"}p{id=>\"a\"}", "q{}#c\n"} {
				e("filter{" + rep(o, d) + m + rep("}", d) + "}")
				e("output{" + rep(o, d) + m + rep("p{}}", d) + "p{id=>\"a\"}}")
			}
		}
	}
	lens := []int{20, 100, 255, 256, 1000, 5000}
	for _, n := range lens {
		for _, c := range []string{"x", "ä", " ", "\\\"", "\n"} {
			l := rep(c, n)
			e("filter{p{id=>\"" + l + "a\"}p{id=>\"" + l + "b\"}p{id=>'" + l + "a'}}")
			e("filter{p{id=>\"" + l + "\"}p{id=>\"" + l + c + "\"}p{id=>\"" + l + "\"}q{}}")
		}
		e("filter{" + rep("p", n) + "{}" + rep("p", n) + "{}q{}}")
		e("filter{p{" + many(n/4, func(i int) string { return fmt.Sprintf("a%d=>1\n", i) }) + "}p{" + many(n/4, func(i int) string { return fmt.Sprintf("a%d=>1\n", i) }) + "id=>\"p-1\"}}")
	}
	for _, x := range []string{"a", "A", " a", "a ", "a\n", "ä", "a\u0308", "0", "00", "0.0", "id", "p-1", "p-01", "P-1", "p_1", "\\\"", "\\\\\"", "%s", "%d"} {
		for _, y := range []string{"a", "A", " a", "a ", "a\n", "ä", "a\u0308", "0", "00", "0.0", "id", "p-1", "p-01", "P-1", "p_1", "\\\"", "\\\\\"", "%s", "%d"} {
			e("filter{p{id=>\"" + x + "\"}p{id=>\"" + y + "\"}p{}}")
		}
	}
}

// cliFormatDocs: documents for format, taken from the spaces of the formatter properties.
func cliFormatDocs(e func(string)) {
	for _, d := range baseDocs {
		e(d)
	}
	cliLintDocs(0, func(d string) {
		if strings.ContainsAny(d, "#\n") {
			e(d)
		}
	})
}

func cliClasses(r *run, id string) []class {
	cc := func(user int, doc string, steps ...string) string {
		return fmt.Sprintf("%d\x00%s\x00%s", user, strings.Join(steps, "|"), doc)
	}
	cmds := map[string][]string{"C19": {"check"}, "C20": {"format", "write"}, "C21": {"lint"}, "C22": {"fix"}}[id]
	var out []class
	add := func(name, rule string, gen func(e func(string))) { out = append(out, class{name, rule, gen}) }
	n := 3
	if id == "C22" || id == "C20" {
		n = 2
	}
	if r.tier > 0 {
		n = 3
	}
	add("paths", fmt.Sprintf("%v with every sequence of at most %d of %q", cmds, n, cliNames), func(e func(string)) {
		for _, cmd := range cmds {
			cliSeqs(cliNames, n, func(l []string) { e(cc(0, "", cmd+":"+strings.Join(l, ","))) })
		}
	})
	add("more paths", fmt.Sprintf("%v with every pair of all names", cmds), func(e func(string)) {
		for _, cmd := range cmds {
			cliSeqs(append(append([]string{}, cliNames...), cliMore...), 2, func(l []string) { e(cc(0, "", cmd+":"+strings.Join(l, ","))) })
		}
	})
	same := cliSame
	if id == "C20" || id == "C22" {
		same = cliSame[:4]
	}
	add("same file", fmt.Sprintf("%v with every sequence of at most 3 of %q, where several names are links to one file", cmds, same), func(e func(string)) {
		for _, cmd := range cmds {
			cliSeqs(same, 3, func(l []string) { e(cc(0, "", cmd+":"+strings.Join(l, ","))) })
		}
	})
	add("names", fmt.Sprintf("%v with names that contain blanks, wildcards, quotes, percent signs, other special characters or upper case letters, or lead through links and absolute paths, next to files that a wrong reading would find; alone, twice and with other files", cmds), func(e func(string)) {
		names := append([]string{}, cliSpecial...)
		for p := range cliAlias {
			names = append(names, p)
		}
		sort.Strings(names)
		names = append(names, "~/canon.conf", "file:canon.conf", "canon.conf/")
		for _, cmd := range cmds {
			for _, p := range names {
				e(cc(0, "", cmd+":"+p))
				e(cc(0, "", cmd+":"+p+","+p))
				e(cc(0, "", cmd+":canon.conf,"+p+",noids.conf"))
				e(cc(0, "", cmd+":"+p+",bad.conf"))
			}
		}
	})
	if id != "C22" {
		add("pipes", fmt.Sprintf("%v without -w with named pipes and /dev/null, alone, with each other and with other files", cmds[:1]), func(e func(string)) {
			for i, p := range cliPipes {
				e(cc(0, "", cmds[0]+":"+p))
				e(cc(1, "", cmds[0]+":"+p))
				for _, x := range append([]string{"canon.conf", "bad.conf", "noids.conf", "missing.conf", "dir"}, cliPipes[i+1:]...) {
					e(cc(0, "", cmds[0]+":"+p+","+x))
					e(cc(0, "", cmds[0]+":"+x+","+p))
					e(cc(0, "", cmds[0]+":canon.conf,"+x+","+p+",noids.conf"))
				}
			}
		})
	}
	add("permissions", fmt.Sprintf("%v as unprivileged user with every sequence of at most 3 of %q and of %q, of which those named own belong to the user", cmds, cliPerm, cliOwned), func(e func(string)) {
		for _, cmd := range cmds {
			cliSeqs(cliPerm, 3, func(l []string) { e(cc(1, "", cmd+":"+strings.Join(l, ","))) })
			cliSeqs(cliOwned, 3, func(l []string) { e(cc(1, "", cmd+":"+strings.Join(l, ","))) })
		}
	})
	add("long", "long path lists with one or two other files at every place", func(e func(string)) {
		for _, cmd := range cmds {
			for _, base := range []string{"canon.conf", "bad.conf", "ids.conf"} {
				for _, x := range []string{"missing.conf", "bad.conf", "canon.conf", "fatal.conf", "noids.conf", "dir"} {
					for i := 0; i < 12; i++ {
						l := make([]string, 12)
						for k := range l {
							l[k] = base
						}
						l[i] = x
						e(cc(0, "", cmd+":"+strings.Join(l, ",")))
						l[(i+5)%12] = "dup.conf"
						e(cc(0, "", cmd+":"+strings.Join(l, ",")))
					}
				}
				for _, n := range []int{70, 400, 1500} {
					for _, x := range []string{"missing.conf", "bad.conf", "noids.conf", "dir"} {
						for _, i := range []int{0, n / 2, n - 1} {
							l := make([]string, n)
							for k := range l {
								l[k] = base
							}
							l[i] = x
							e(cc(0, "", cmd+":"+strings.Join(l, ",")))
						}
					}
				}
			}
		}
	})
	depth := 2
	if r.tier > 0 {
		depth = 3
	}
	all := []string{"check", "format", "write", "lint", "fix"}
	mine := map[string]bool{}
	for _, c := range cmds {
		mine[c] = true
	}
	add("histories", fmt.Sprintf("every history of %d commands that ends with one of %v, on several file lists", depth+1, cmds), func(e func(string)) {
		for _, ps := range []string{"noids.conf,dup.conf", "mixed.conf", "link.conf,target.conf", "noids.conf,bad.conf,100%d.conf", "empty.conf,ids.conf,dir"} {
			cliSeqs(all, depth, func(l []string) {
				for _, c := range cmds {
					var st []string
					for _, x := range append(l[:len(l):len(l)], c) {
						st = append(st, x+":"+ps)
					}
					e(cc(0, "", st...))
				}
			})
		}
	})
	switch id {
	case "C19":
		add("documents", "every single byte edit and truncation of a base document, check", func(e func(string)) {
			d := baseDocs[0]
			if len(d) > 400 {
				d = d[:400]
			}
			for i := range d {
				for _, x := range []string{"", "#", "\"", "}", "{", "\x80"} {
					e(cc(0, d[:i]+x+d[i+1:], "check:doc.conf"))
				}
				e(cc(0, d[:i], "check:canon.conf,doc.conf"))
			}
		})
	case "C20":
		add("documents", "format, write and write again on every base document and document with comments or multi-line literals", func(e func(string)) {
			cliFormatDocs(func(d string) {
				e(cc(0, d, "format:doc.conf,canon.conf", "write:doc.conf", "write:doc.conf"))
			})
			n := 0
			cliLargeDocs(r.tier, func(d string) {
				n++
				if n%5 == 0 || r.tier > 0 {
					e(cc(0, d, "format:doc.conf,canon.conf", "write:doc.conf", "write:doc.conf"))
				}
			})
		})
	case "C21":
		add("documents", "lint on every document of the id, comment and literal spaces", func(e func(string)) {
			cliLintDocs(r.tier, func(d string) { e(cc(0, d, "lint:doc.conf")) })
			cliLargeDocs(r.tier, func(d string) { e(cc(0, d, "lint:doc.conf")) })
			cliLintDocs(0, func(d string) { e(cc(0, d, "lint:canon.conf,doc.conf,doc.conf")) })
		})
	case "C22":
		add("documents", "auto-fix, lint and auto-fix again on every document of the id, comment and literal spaces", func(e func(string)) {
			cliLintDocs(r.tier, func(d string) { e(cc(0, d, "fix:doc.conf", "lint:doc.conf", "fix:doc.conf")) })
			cliLargeDocs(r.tier, func(d string) { e(cc(0, d, "fix:doc.conf", "lint:doc.conf", "fix:doc.conf")) })
		})
	}
	return out
}

func init() {
	for _, id := range []string{"C19", "C20", "C21", "C22"} {
		id := id
		checks[id] = &propCheck{modelMain("every listed command sequence is executed with the real binary in a directory of its own; exit status, both outputs and all files are compared with the model after every step; states are distinct directory contents",
			"the reference parser and formatter in /verif/mc", "messages of the operating system for missing and unreadable files"),
			func(r *run) []class { return cliClasses(r, id) }, checkCLI}
	}
}
