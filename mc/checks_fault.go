package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// ---- C23: faults and kills at the system calls of the command line tool ----
//
// The tool is linked with a standard library that injects faults (mc/fault). A case is "scenario SPACE faults".

type faultScenario struct {
	name  string
	cmd   string // key of cliArgs
	paths []string
	files []string // name, content, ...; a content that starts with -> makes a symbolic link
	full  bool     // standard output is /dev/full
}

var (
	faultDocA  = valid("input{stdin{}}#c\nfilter { if [a]  { drop { } } }")
	faultDocB  = valid("\n\n\n   output   {   stdout   {   codec   =>   line   {   }   }   }   \n\n")
	faultDocC  = valid("input {\n  stdin {\n    id => \"x\"\n  }\n}\n")
	faultBad   = "input{stdin{}"
	faultNoID  = valid("input{stdin{}}filter{if[a]{drop{}}else{mutate{id=>mm}}}")
	faultDup   = valid("input{a{id=>xx}b{id=>xx}c{}}")
	faultLarge = valid(strings.Repeat("filter{p{a=>1}}\n", 300))
)

var faultScenarios = []faultScenario{
	{"write", "write", []string{"a.conf"}, []string{"a.conf", faultDocA}, false},
	{"write shrinking", "write", []string{"b.conf"}, []string{"b.conf", faultDocB}, false},
	{"write unchanged", "write", []string{"c.conf"}, []string{"c.conf", faultDocC}, false},
	{"write two", "write", []string{"a.conf", "b.conf"}, []string{"a.conf", faultDocA, "b.conf", faultDocB}, false},
	{"write before bad", "write", []string{"a.conf", "x.conf", "b.conf"}, []string{"a.conf", faultDocA, "x.conf", faultBad, "b.conf", faultDocB}, false},
	{"write twice", "write", []string{"a.conf", "a.conf"}, []string{"a.conf", faultDocA}, false},
	{"write link", "write", []string{"l.conf"}, []string{"a.conf", faultDocA, "l.conf", "->a.conf"}, false},
	{"write directory", "write", []string{".", "b.conf"}, []string{"b.conf", faultDocB}, false},
	{"write large", "write", []string{"g.conf"}, []string{"g.conf", faultLarge}, false},
	{"write empty", "write", []string{"e.conf", "b.conf"}, []string{"e.conf", "", "b.conf", faultDocB}, false},
	{"fix", "fix", []string{"n.conf"}, []string{"n.conf", faultNoID}, false},
	{"fix with report", "fix", []string{"d.conf"}, []string{"d.conf", faultDup}, false},
	{"fix nothing", "fix", []string{"c.conf"}, []string{"c.conf", faultDocC}, false},
	{"fix two", "fix", []string{"n.conf", "d.conf"}, []string{"n.conf", faultNoID, "d.conf", faultDup}, false},
	{"fix around bad", "fix", []string{"n.conf", "x.conf", "d.conf"}, []string{"n.conf", faultNoID, "x.conf", faultBad, "d.conf", faultDup}, false},
	{"fix large", "fix", []string{"g.conf"}, []string{"g.conf", faultLarge}, false},
	{"format", "format", []string{"a.conf"}, []string{"a.conf", faultDocA}, false},
	{"format two", "format", []string{"a.conf", "b.conf"}, []string{"a.conf", faultDocA, "b.conf", faultDocB}, false},
	{"format before bad", "format", []string{"b.conf", "x.conf"}, []string{"b.conf", faultDocB, "x.conf", faultBad}, false},
	{"format large", "format", []string{"g.conf"}, []string{"g.conf", faultLarge}, false},
	{"format full", "format", []string{"a.conf"}, []string{"a.conf", faultDocA}, true},
	{"format full two", "format", []string{"a.conf", "b.conf"}, []string{"a.conf", faultDocA, "b.conf", faultDocB}, true},
	{"check", "check", []string{"a.conf", "b.conf"}, []string{"a.conf", faultDocA, "b.conf", faultDocB}, false},
	{"check bad", "check", []string{"a.conf", "x.conf"}, []string{"a.conf", faultDocA, "x.conf", faultBad}, false},
	{"lint", "lint", []string{"c.conf", "d.conf"}, []string{"c.conf", faultDocC, "d.conf", faultDup}, false},
}

func (s *faultScenario) content(name string) string {
	for i := 0; i < len(s.files); i += 2 {
		if s.files[i] == name {
			if strings.HasPrefix(s.files[i+1], "->") {
				return s.content(s.files[i+1][2:])
			}
			return s.files[i+1]
		}
	}
	return ""
}

const faultBystander = "bystander.conf"

type faultCall struct {
	n, trap, fd, count uintptr
	ret                int
	errno              uintptr
}

type faultRun struct {
	cliRun
	killed bool
	calls  []faultCall
	files  map[string]string
	extra  []string
}

// faultExec runs the scenario with the given faults.
func faultExec(r *run, s *faultScenario, faults string, trace bool) *faultRun {
	dir, err := os.MkdirTemp(r.work, "ft")
	fatalIf(err)
	defer os.RemoveAll(dir)
	files := append([]string{faultBystander, faultDocA}, s.files...)
	for i := 0; i < len(files); i += 2 {
		p := filepath.Join(dir, files[i])
		if strings.HasPrefix(files[i+1], "->") {
			fatalIf(os.Symlink(files[i+1][2:], p))
		} else {
			fatalIf(os.WriteFile(p, []byte(files[i+1]), 0o644))
		}
	}
	cmd := exec.Command(r.mustache, append(append([]string{}, cliArgs[s.cmd]...), s.paths...)...)
	cmd.Dir = dir
	cmd.Env = []string{"HOME=/", "PATH=", "GOGC=off", "GOTRACEBACK=single", "VERIF_FAULTS=" + faults}
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if s.full {
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		fatalIf(err)
		defer f.Close()
		cmd.Stdout = f
	}
	var tf *os.File
	if trace {
		cmd.Env = append(cmd.Env, "VERIF_TRACE=1")
		tf, err = os.CreateTemp(r.work, "tr")
		fatalIf(err)
		defer os.Remove(tf.Name())
		defer tf.Close()
		cmd.ExtraFiles = []*os.File{tf}
	}
	fatalIf(cmd.Start())
	late := false
	t := time.AfterFunc(60*time.Second, func() { late = true; cmd.Process.Kill() })
	werr := cmd.Wait()
	t.Stop()
	res := &faultRun{files: map[string]string{}}
	res.stdout, res.stderr = out.String(), errb.String()
	if ee, ok := werr.(*exec.ExitError); ok {
		res.exit = ee.ExitCode()
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			res.killed = true
			if ws.Signal() != syscall.SIGKILL && ws.Signal() != syscall.SIGPIPE {
				res.crash = "ended by " + ee.String()
			}
		}
	} else {
		fatalIf(werr)
	}
	if late {
		res.crash = "did not finish within 60 s"
	}
	if strings.Contains(res.stderr, "goroutine ") && strings.Contains(res.stderr, "panic") || res.exit == 2 {
		res.crash = fmt.Sprintf("crash (exit status %d): %.600s", res.exit, res.stderr)
	}
	known := map[string]bool{}
	for i := 0; i < len(files); i += 2 {
		known[files[i]] = true
		b, err := os.ReadFile(filepath.Join(dir, files[i]))
		if err != nil {
			res.files[files[i]] = "\x00" + err.(*os.PathError).Err.Error()
			continue
		}
		res.files[files[i]] = string(b)
	}
	ents, err := os.ReadDir(dir)
	fatalIf(err)
	for _, e := range ents {
		if !known[e.Name()] {
			res.extra = append(res.extra, e.Name())
		}
	}
	if trace {
		b, err := os.ReadFile(tf.Name())
		fatalIf(err)
		for ; len(b) >= 64; b = b[64:] {
			w := func(i int) uintptr { return uintptr(binary.LittleEndian.Uint64(b[8*i:])) }
			res.calls = append(res.calls, faultCall{w(0), w(1), w(2), w(3), int(w(4)), w(5)})
		}
	}
	return res
}

type faultAlt struct {
	text string
	loud bool // not a kill, not a short transfer
}

// faultAlts lists the faults of one system call. Level 0 is complete up to the length of short transfers, level 1
// keeps the essential ones.
func faultAlts(c faultCall, level int) []faultAlt {
	var out []faultAlt
	add := func(kind string, loud bool, args ...int) {
		for _, a := range args {
			out = append(out, faultAlt{fmt.Sprintf("%d%s%d", c.n, kind, a), loud})
		}
	}
	add("K", false, 0)
	short := func(kind string, from int) {
		for i := from; i < c.ret; i++ {
			if c.ret <= 150 && level == 0 || i < from+3 || i > c.ret-4 || i%1024 < 2 || level == 0 && i%97 == 0 {
				add(kind, false, i)
			}
		}
	}
	small := level > 0
	switch c.trap {
	case syscall.SYS_OPENAT, syscall.SYS_OPEN:
		if small {
			add("E", true, 4, 13, 28)
		} else {
			add("E", true, 1, 2, 4, 5, 12, 13, 21, 23, 24, 26, 28, 30, 40)
			add("P", true, 5, 24, 28)
		}
	case syscall.SYS_NEWFSTATAT, syscall.SYS_FSTAT, syscall.SYS_STAT, syscall.SYS_LSTAT:
		if small {
			add("E", true, 5)
		} else {
			add("E", true, 2, 4, 5, 12, 13, 40)
		}
	case syscall.SYS_READ, syscall.SYS_PREAD64:
		if small {
			add("E", true, 4, 5)
		} else {
			add("E", true, 4, 5, 11, 12, 21)
			add("P", true, 5)
		}
		short("S", 1)
	case syscall.SYS_WRITE, syscall.SYS_PWRITE64:
		if small {
			add("E", true, 4, 5, 28)
		} else {
			add("E", true, 4, 5, 9, 11, 12, 22, 27, 28, 32, 122)
			add("A", true, 5)
			add("P", true, 5, 28, 122)
		}
		short("S", 0)
		short("T", 1)
	case syscall.SYS_CLOSE:
		if small {
			add("A", true, 5)
			add("L", true, 28)
		} else {
			add("A", true, 4, 5, 28, 122)
			add("L", true, 5, 28, 122)
			add("E", true, 9)
		}
	case syscall.SYS_FCNTL:
		if !small {
			add("E", true, 9, 22)
		}
	case syscall.SYS_FSYNC, syscall.SYS_FDATASYNC:
		add("A", true, 5)
		add("L", true, 5, 28)
	default:
		if small {
			add("E", true, 5)
		} else {
			add("E", true, 1, 4, 5, 13, 28, 30, 38)
			add("A", true, 5)
		}
	}
	return out
}

func faultKey(s *faultScenario) string { return strings.ReplaceAll(s.name, " ", "_") }

func faultFind(name string) *faultScenario {
	for i := range faultScenarios {
		if faultKey(&faultScenarios[i]) == name {
			return &faultScenarios[i]
		}
	}
	fatalIf(fmt.Errorf("unknown scenario %q", name))
	return nil
}

// faultBase is the behaviour of a scenario without faults.
type faultBase struct {
	run    *faultRun
	stdout string // what standard output must receive
	bad    string
}

func faultBaseline(r *run, s *faultScenario) *faultBase {
	plain := *s
	plain.full = false
	b := &faultBase{run: faultExec(r, &plain, "", true)}
	b.stdout = b.run.stdout
	if b.run.crash != "" {
		b.bad = "without faults: " + b.run.crash
	}
	if len(b.run.extra) > 0 {
		b.bad = fmt.Sprintf("without faults: new files %q", b.run.extra)
	}
	// The formatted text is the one of the reference printer.
	var want strings.Builder
	if s.cmd == "format" || s.cmd == "write" {
		for _, p := range s.paths {
			if p == "." {
				continue
			}
			doc := s.content(p)
			if doc == faultBad {
				break
			}
			text := cliFormat(doc)
			want.WriteString(text)
			if got := b.run.files[p]; s.cmd == "write" && got != text {
				b.bad = fmt.Sprintf("without faults: %s holds %q, want %q", p, got, text)
			}
		}
		if s.cmd == "format" && b.stdout != want.String() {
			b.bad = fmt.Sprintf("without faults: standard output is %q, want %q", b.stdout, want.String())
		}
	}
	return b
}

const faultKnown = "rewrite-is-not-atomic"

func checkC23(r *run) caseCheck {
	var mu sync.Mutex
	bases := map[string]*faultBase{}
	return func(c string) verdict {
		name, faults, _ := strings.Cut(c, " ")
		s := faultFind(name)
		mu.Lock()
		b := bases[name]
		if b == nil {
			b = faultBaseline(r, s)
			bases[name] = b
		}
		mu.Unlock()
		if b.bad != "" {
			return verdict{bad: s.name + " " + b.bad}
		}
		g := faultExec(r, s, faults, true)
		v := verdict{counts: map[string]int64{"system_calls": int64(len(g.calls)), "faults": int64(strings.Count(faults, ";") + 1)}}
		fail := func(format string, a ...interface{}) verdict {
			v.bad = fmt.Sprintf("%v %v with faults %q (exit status %d, killed %v, standard error %.300q): ", cliArgs[s.cmd], s.paths, faults, g.exit, g.killed, g.stderr) + fmt.Sprintf(format, a...)
			return v
		}
		if g.crash != "" {
			return fail("%s", g.crash)
		}
		quietOut := false // a fault hit an output channel
		hit := map[uintptr]faultCall{}
		for _, k := range g.calls {
			hit[k.n] = k
		}
		var traps []uintptr
		writing := g.killed
		for _, f := range strings.Split(faults, ";") {
			if f == "" {
				continue
			}
			i := strings.IndexFunc(f, func(x rune) bool { return x < '0' || x > '9' })
			n, _ := strconv.Atoi(f[:i])
			k, ok := hit[uintptr(n)]
			if !ok {
				continue
			}
			traps = append(traps, k.trap)
			if k.trap == syscall.SYS_WRITE && k.fd == 2 {
				quietOut = true
			}
			if f[i] == 'P' {
				writing = true // may hit any later call
			}
			switch k.trap {
			case syscall.SYS_WRITE, syscall.SYS_PWRITE64, syscall.SYS_CLOSE, syscall.SYS_FSYNC, syscall.SYS_FDATASYNC, syscall.SYS_FTRUNCATE:
				writing = true
			}
		}
		if len(traps) == 0 && !g.killed && faults != "" {
			v.trivial = true // the fault lies behind the end of the run
		}
		complete := true
		targets := map[string]bool{}
		if s.cmd == "write" || s.cmd == "fix" {
			for _, p := range s.paths {
				targets[p] = true
				for i := 0; i < len(s.files); i += 2 {
					if s.files[i] == p && strings.HasPrefix(s.files[i+1], "->") {
						targets[s.files[i+1][2:]] = true
					}
				}
			}
		}
		h := fnv.New64a()
		partial := ""
		for name, got := range g.files {
			old, now := s.content(name), b.run.files[name]
			if name == faultBystander {
				old, now = faultDocA, faultDocA
			}
			if got != now {
				complete = false
			}
			switch {
			case !targets[name] && got != old:
				return fail("%s, which is not to be changed, holds %q instead of %q", name, got, old)
			case got == old || got == now:
			case (s.cmd == "write" || old != now) && len(got) < len(now) && strings.HasPrefix(now, got) && writing:
				partial = fmt.Sprintf("%s holds %d of %d bytes", name, len(got), len(now))
			default:
				return fail("%s holds %q, neither the old contents %q nor the new ones %q", name, got, old, now)
			}
		}
		fmt.Fprint(h, s.name, g.files, g.stdout, g.exit, g.killed, g.stderr)
		v.states = []uint64{h.Sum64()}
		v.trans = int64(len(g.calls))
		if !s.full && !strings.HasPrefix(b.stdout, g.stdout) {
			return fail("standard output is %q, which does not begin %q", g.stdout, b.stdout)
		}
		if s.full && b.stdout != "" || !s.full && g.stdout != b.stdout {
			complete = false
		}
		if !g.killed {
			reported := g.exit != 0 && (quietOut || g.stderr != "" && (g.stderr != b.run.stderr))
			same := g.exit == b.run.exit && (quietOut || g.stderr == b.run.stderr)
			switch {
			case !complete && !reported:
				return fail("files or output are not complete and no error is reported; files %q, standard output %q", g.files, g.stdout)
			case complete && !same && !reported:
				return fail("the result is complete but the report is not the one without faults (exit status %d, standard error %q)", b.run.exit, b.run.stderr)
			}
		}
		switch {
		case partial != "":
			v.known = faultKnown
			v.outcome = "partial contents"
		case g.killed:
			v.outcome = "killed"
		case complete && g.exit == b.run.exit:
			v.outcome = "absorbed"
		default:
			v.outcome = "reported"
		}
		return v
	}
}

func spacesC23(r *run) []class {
	bases := map[string]*faultBase{}
	base := func(s *faultScenario) *faultBase {
		if bases[s.name] == nil {
			bases[s.name] = faultBaseline(r, s)
		}
		return bases[s.name]
	}
	out := []class{
		{"none", "every scenario without faults", func(e func(string)) {
			for i := range faultScenarios {
				e(faultKey(&faultScenarios[i]) + " ")
			}
		}},
		{"single", "every scenario with every fault of every system call: kill before the call, error, error after the call, persistent error, short transfer, kill after a partial transfer", func(e func(string)) {
			for i := range faultScenarios {
				s := &faultScenarios[i]
				for _, c := range base(s).run.calls {
					for _, f := range faultAlts(c, 0) {
						e(faultKey(s) + " " + f.text)
					}
				}
				e(fmt.Sprintf("%s %dK0", faultKey(s), len(base(s).run.calls)))
			}
		}},
	}
	deep := map[string]bool{"write": true, "fix with report": true, "format two": true}
	pairs := func(name, rule string, depth int, use func(s *faultScenario) bool) class {
		return class{name, rule, func(e func(string)) {
			for i := range faultScenarios {
				s := &faultScenarios[i]
				if !use(s) {
					continue
				}
				var walk func(prefix string, calls []faultCall, from, d int)
				walk = func(prefix string, calls []faultCall, from, d int) {
					for _, c := range calls {
						if int(c.n) < from {
							continue
						}
						for _, f := range faultAlts(c, 1) {
							p := f.text
							if prefix != "" {
								p = prefix + ";" + p
							}
							if prefix != "" {
								e(faultKey(s) + " " + p)
							}
							if d > 1 && !strings.Contains(f.text, "K") && !strings.Contains(f.text, "T") {
								if r.expired() {
									panic(stopEnum{})
								}
								walk(p, faultExec(r, s, p, true).calls, int(c.n)+1, d-1)
							}
						}
					}
				}
				walk("", base(s).run.calls, 0, depth)
			}
		}}
	}
	if r.tier == 0 {
		out = append(out, pairs("pairs", "all pairs of essential faults, the second one at every system call that follows the first, in three scenarios", 2, func(s *faultScenario) bool { return deep[s.name] }))
	} else {
		out = append(out, pairs("pairs", "all pairs of essential faults in all scenarios", 2, func(s *faultScenario) bool { return true }))
		out = append(out, pairs("triples", "all triples of essential faults in three scenarios", 3, func(s *faultScenario) bool { return deep[s.name] }))
	}
	return out
}

func init() {
	checks["C23"] = &propCheck{
		main: func(r *run) *report {
			res := runSharded(r)
			c := explorationCoverage(res, "every scenario (command, files) is run with the real tool and every listed fault at every system call it makes; file contents, standard output, standard error and exit status are compared with the run without faults; a case is non-trivial if its last fault was reached")
			c["distinct_final_states"] = res.States
			c["system_calls_executed"] = res.Trans
			return &report{level: "fault_enumeration", coverage: c, assumptions: []string{"a kill takes effect between two system calls or after a partial write; page cache contents survive (process crash, not power loss)", "faults are injected in package syscall of the Go standard library, which all file operations of the tool pass"}, violations: res.Violations, known: res.KnownEx}
		},
		spaces: spacesC23,
		check:  checkC23,
	}
}
