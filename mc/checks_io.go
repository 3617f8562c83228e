package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"

	config "github.com/breml/logstash-config"
	"github.com/breml/logstash-config/ast"
)

// observe is everything a caller can see of a parse result.
func observe(v interface{}, err error, pan interface{}) string {
	if pan != nil {
		return fmt.Sprintf("panic: %v", pan)
	}
	if err != nil {
		s := "error: " + err.Error()
		if v != nil {
			s += fmt.Sprintf(" with a result of type %T", v)
		}
		if f, ok := config.GetFarthestFailure(); ok {
			s += "\nfarthest: " + f
		}
		return s
	}
	c, ok := v.(ast.Config)
	if !ok {
		return fmt.Sprintf("result %T without error", v)
	}
	return fmt.Sprintf("%s\nwarnings %q", dumpTree(convConfig(c), dAll), c.Warnings)
}

func observeParse(f func() (interface{}, error)) string {
	var v interface{}
	var err error
	var pan interface{}
	func() {
		defer func() { pan = recover() }()
		v, err = f()
	}()
	return observe(v, err, pan)
}

// ---- C13: readers and files ----
//
// reader case: "r" text ";" chunks ";" zero ";" end   where chunks is a list of sizes (the last one repeats),
// zero the number of the read before which empty reads happen (-1: none), end one of
// eof, eofdata (with the last data), err<k>@<pos><then>, errdata<k>@<pos><then>, with then: empty (the error
// persists), e (end of file after the error), c (the rest of the text after the error).
// file case: "f" kind ";" text
// name case: "N" index of the name

var ioTexts = func() []string {
	if opProcess {
		return nil
	}
	short := []string{"filter{}", "", "x", "input{p{}}#é\n", "if", "\xff{}", "output{o{a=>\"ä\"}}", "filter{p{", "#c"}
	var long []string
	for _, n := range []int{511, 512, 513, 1023, 1024, 1025, 4096, 9000} {
		pre := "filter {\n  p {\n    a => \""
		post := "\"\n  }\n}\n"
		long = append(long, pre+strings.Repeat("é", (n-len(pre)-len(post))/2)+strings.Repeat("z", (n-len(pre)-len(post))%2)+post)
	}
	long = append(long, strings.Repeat("input{p{a=>[1,2] b=>'x'}}\n# c\n", 60), strings.Repeat("filter{if [a]{q{}}}\n", 60)+"filter{", strings.Repeat(" ", 600)+"}")
	// beyond the sizes of usual buffers
	for _, n := range []int{65535, 65536, 65537, 131072, 1<<20 + 1} {
		u := strings.Repeat("é", 120)
		var t strings.Builder
		t.WriteString("filter {\n")
		for t.Len()+260 < n {
			t.WriteString("# " + u + "\n")
			if t.Len() > 50000 {
				u = strings.Repeat("x", 250)
			}
		}
		t.WriteString("#" + strings.Repeat("y", n-t.Len()-4) + "\n}\n")
		long = append(long, t.String())
	}
	return append(append([]string{}, short...), long...)
}()

const (
	ioShort = 9 // number of short texts
	ioHuge  = 5 // number of very long texts at the end
)

var ioErrors = []error{
	errors.New("read fails"), io.ErrUnexpectedEOF, fmt.Errorf("wrapped: %w", io.EOF), &os.PathError{Op: "read", Path: "x", Err: syscall.EIO}, io.ErrClosedPipe, io.ErrNoProgress,
}

type caseReader struct {
	text   string
	chunks []int
	zero   int
	end    string
	errAt  int // -1: no error
	err    error
	with   bool // error or EOF together with the last data
	n      int  // read calls
	zeros  int
	pos    int
	then   string
	failed bool
}

func (r *caseReader) Read(p []byte) (int, error) {
	i := r.n
	r.n++
	if r.zero == i && r.zeros < 3 {
		r.n--
		r.zeros++
		return 0, nil
	}
	limit := len(r.text)
	final := io.EOF
	if r.errAt >= 0 && !(r.failed && r.then == "c") {
		limit = r.errAt
		if !(r.failed && r.then == "e") {
			final = r.err
		}
	}
	if r.pos >= limit {
		r.failed = true
		return 0, final
	}
	size := r.chunks[len(r.chunks)-1]
	if i < len(r.chunks) {
		size = r.chunks[i]
	}
	n := min(size, limit-r.pos, len(p))
	copy(p, r.text[r.pos:r.pos+n])
	for k := n; k < len(p); k++ {
		p[k] = '}' // the rest of the buffer is scratch space of the reader
	}
	r.pos += n
	if r.pos >= limit && r.with {
		r.failed = true
		return n, final
	}
	return n, nil
}

func parseReaderCase(c string) *caseReader {
	f := strings.Split(c[1:], ";")
	ti, _ := strconv.Atoi(f[0])
	r := &caseReader{text: ioTexts[ti], errAt: -1, end: f[3]}
	for _, s := range strings.Split(f[1], ".") {
		n, _ := strconv.Atoi(s)
		r.chunks = append(r.chunks, n)
	}
	r.zero, _ = strconv.Atoi(f[2])
	switch {
	case f[3] == "eofdata":
		r.with = true
	case strings.HasPrefix(f[3], "err"):
		s := strings.TrimPrefix(f[3], "err")
		if strings.HasPrefix(s, "data") {
			r.with = true
			s = s[4:]
		}
		k, at, _ := strings.Cut(s, "@")
		ki, _ := strconv.Atoi(k)
		r.err = ioErrors[ki]
		if l := at[len(at)-1]; l == 'e' || l == 'c' {
			r.then, at = at[len(at)-1:], at[:len(at)-1]
		}
		r.errAt, _ = strconv.Atoi(at)
	}
	return r
}

func checkC13(dir string) caseCheck {
	memo := map[string]string{}
	whole := func(name, text string) string {
		k := name + "\x00" + text
		if s, ok := memo[k]; ok {
			return s
		}
		s := observeParse(func() (interface{}, error) { return config.Parse(name, []byte(text)) })
		memo[k] = s
		return s
	}
	return func(c string) verdict {
		return guard(func() verdict {
			switch c[0] {
			case 'f':
				return checkFile(dir, c, whole)
			case 'N':
				return checkFileName(dir, c)
			case 'k':
				return checkReaderKind(dir, c, whole)
			case 'o':
				return checkReaderOptions(dir, c)
			}
			r := parseReaderCase(c)
			if r.errAt < 0 {
				want := whole(docName, r.text)
				got := observeParse(func() (interface{}, error) { return config.ParseReader(docName, r) })
				if got != want {
					return bad("parsing from the reader differs from parsing the text in memory: %s", firstDiff(want, got))
				}
				return verdict{outcome: "same as in memory"}
			}
			v, err := config.ParseReader(docName, r)
			if v != nil {
				return bad("the reader fails after %d bytes, but the parse returns a result (%T, error %v)", r.errAt, v, err)
			}
			if err == nil || !(err == r.err || errors.Is(err, r.err)) {
				return bad("the reader fails with %q after %d bytes, the parse returns error %v", r.err, r.errAt, err)
			}
			return verdict{outcome: "read error"}
		})
	}
}

// checkReaderKind: "k" kind ";" consumed ";" text. The reader has already delivered some bytes; the parse gets the rest.
func checkReaderKind(dir, c string, whole func(name, text string) string) verdict {
	f := strings.Split(c[1:], ";")
	off, _ := strconv.Atoi(f[1])
	ti, _ := strconv.Atoi(f[2])
	text := ioTexts[ti]
	var rd io.Reader
	switch f[0] {
	case "bytes.Reader":
		rd = bytes.NewReader([]byte(text))
	case "strings.Reader":
		rd = strings.NewReader(text)
	case "bytes.Buffer":
		rd = bytes.NewBufferString(text)
	case "bufio.Reader":
		rd = bufio.NewReader(strings.NewReader(text))
	case "small bufio.Reader":
		rd = bufio.NewReaderSize(&caseReader{text: text, chunks: []int{3}, errAt: -1, zero: 2}, 16)
	case "io.LimitReader":
		rd = io.LimitReader(strings.NewReader(text+"}{"), int64(len(text)))
	case "io.MultiReader":
		rd = io.MultiReader(strings.NewReader(text[:len(text)/2]), strings.NewReader(""), strings.NewReader(text[len(text)/2:]))
	case "io.SectionReader":
		rd = io.NewSectionReader(strings.NewReader("}{"+text+"}{"), 2, int64(len(text)))
	case "io.TeeReader":
		rd = io.TeeReader(strings.NewReader(text), io.Discard)
	case "file", "pipe":
		fh, err := os.CreateTemp(dir, "c13")
		fatalIf(err)
		os.Remove(fh.Name())
		defer fh.Close()
		if f[0] == "pipe" {
			r, w, err := os.Pipe()
			fatalIf(err)
			defer r.Close()
			go func() {
				_, _ = w.WriteString(text)
				w.Close()
			}()
			rd = r
			break
		}
		_, err = fh.WriteString(text)
		fatalIf(err)
		_, err = fh.Seek(0, io.SeekStart)
		fatalIf(err)
		rd = fh
	default:
		panic("unknown kind of reader " + f[0])
	}
	if _, err := io.CopyN(io.Discard, struct{ io.Reader }{rd}, int64(off)); err != nil {
		panic(err)
	}
	want := whole(docName, text[off:])
	got := observeParse(func() (interface{}, error) { return config.ParseReader(docName, rd) })
	if got != want {
		return bad("parsing from a %s that has delivered %d bytes already differs from parsing the rest of the text in memory: %s", f[0], off, firstDiff(want, got))
	}
	return verdict{outcome: "same as in memory"}
}

// checkReaderOptions: "o" options ";" text: the options mean the same for all three functions.
func checkReaderOptions(dir, c string) verdict {
	letters, doc, _ := strings.Cut(c[1:], ";")
	want, wst := parseWith(letters, doc)
	name := filepath.Join(dir, "c13o"+strconv.Itoa(os.Getpid()))
	fatalIf(os.WriteFile(name, []byte(doc), 0o644))
	fw, _ := parseWithName(name, letters, func(name string, o ...config.Option) (interface{}, error) {
		return config.Parse(name, []byte(doc), o...)
	})
	for _, entry := range []struct {
		what, name, want string
		f                func(name string, o ...config.Option) (interface{}, error)
	}{
		{"the reader", docName, want, func(name string, o ...config.Option) (interface{}, error) {
			return config.ParseReader(name, strings.NewReader(doc), o...)
		}},
		{"the file", name, fw, func(name string, o ...config.Option) (interface{}, error) { return config.ParseFile(name, o...) }},
	} {
		before := openFiles(name)
		got, st := parseWithName(entry.name, letters, entry.f)
		if got != entry.want {
			return bad("parsing from %s with options %s differs from parsing the text in memory: %s", entry.what, letters, firstDiff(entry.want, got))
		}
		if n := openFiles(name) - before; n > 0 {
			return bad("%d descriptors are still open after parsing the file with options %s", n, letters)
		}
		if st.ExprCnt != wst.ExprCnt {
			return bad("parsing from %s with options %s counts %d expressions, parsing the text in memory %d", entry.what, letters, st.ExprCnt, wst.ExprCnt)
		}
	}
	return verdict{outcome: firstWord(want)}
}

func parseWithName(name, letters string, f func(name string, o ...config.Option) (interface{}, error)) (string, *config.Stats) {
	stats := &config.Stats{}
	var opts []config.Option
	for i := 0; i < len(letters); i++ {
		opts = append(opts, option(letters[i], stats))
	}
	g := func() (interface{}, error) { return f(name, opts...) }
	if strings.Contains(letters, "D") {
		g = quietly(g)
	}
	return observeParse(g), stats
}

// openFiles counts the descriptors of this process that refer to something below dir.
func openFiles(dir string) (n int) {
	l, err := os.ReadDir("/proc/self/fd")
	fatalIf(err)
	for _, e := range l {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(t, dir) {
			n++
		}
	}
	return n
}

// ioNames: names with characters that mean something elsewhere, relative to the working directory; every other of these
// files, and every file that a wrong reading of the name finds, holds an other text.
var ioNames = append(strings.Fields("a$HOME.conf $HOME a${HOME}.conf $b.conf a%20b.conf a+b.conf ~ ~root ~/a.conf - @a.conf a.conf.gz a.gz a.json a.conf~ a.conf.bak *.conf [a].conf ?.conf {a,b}.conf a,b.conf a:1 a#b a;b a=b file:a.conf a.CONF A.conf .conf . .. ./a.conf d/../a.conf d//a.conf \"a.conf\" 'a.conf' \\a.conf a\\.conf ä.conf a\u0308.conf \xff.conf !a.conf #a.conf &a.conf |a.conf <a.conf >a.conf -a.conf --a.conf a%s%d%n.conf"),
	"a b.conf", " a.conf", "a.conf ", "a\nb.conf", "a\tb.conf", "\n", " ", "")

func checkFileName(dir, c string) verdict {
	i, _ := strconv.Atoi(c[1:])
	name := ioNames[i]
	d, err := os.MkdirTemp(dir, "c13")
	fatalIf(err)
	defer os.RemoveAll(d)
	wd, err := os.Getwd()
	fatalIf(err)
	fatalIf(os.Chdir(d))
	defer func() { fatalIf(os.Chdir(wd)) }()
	fatalIf(os.MkdirAll("d", 0o755))
	fatalIf(os.MkdirAll("~", 0o755))
	text := func(n string) string { return fmt.Sprintf("filter{p{a=>'%x'}}", filepath.Clean(n)) }
	for _, n := range append(append([]string{}, ioNames...), strings.Fields("a.conf a b.conf b a.confb .conf a%b.conf a.conf.conf $ HOME a$ conf")...) {
		if n != "" && filepath.Clean(n) != "." && filepath.Clean(n) != ".." && n != "~" {
			if os.WriteFile(n, []byte(text(n)), 0o644) != nil {
				panic("cannot write " + n)
			}
		}
	}
	got := observeParse(func() (interface{}, error) { return config.ParseFile(name) })
	want := ""
	if b, err := os.ReadFile(name); err == nil {
		want = observeParse(func() (interface{}, error) { return config.Parse(name, b) })
	} else if !strings.HasPrefix(got, "error: ") {
		return bad("parsing %q, which can not be read (%v), gives %s", name, err, got)
	}
	if want != "" && got != want {
		return bad("parsing the file %q differs from parsing its text: %s", name, firstDiff(want, got))
	}
	return verdict{outcome: "same as in memory"}
}

func checkFile(dir, c string, whole func(name, text string) string) verdict {
	kind, ts, _ := strings.Cut(c[1:], ";")
	ti, _ := strconv.Atoi(ts)
	text := ioTexts[ti]
	d, err := os.MkdirTemp(dir, "c13")
	fatalIf(err)
	defer os.RemoveAll(d)
	name := filepath.Join(d, "x.conf")
	write := func() { fatalIf(os.WriteFile(name, []byte(text), 0o644)) }
	var want error
	switch kind {
	case "plain":
		write()
	case "symlink":
		write()
		fatalIf(os.Symlink("x.conf", filepath.Join(d, "l.conf")))
		name = filepath.Join(d, "l.conf")
	case "fifo":
		fatalIf(syscall.Mkfifo(name, 0o600))
		go func() {
			f, err := os.OpenFile(name, os.O_WRONLY, 0)
			if err != nil {
				return
			}
			for i := 0; i < len(text); i += 3 {
				if _, err := f.WriteString(text[i:min(i+3, len(text))]); err != nil {
					break
				}
			}
			f.Close()
		}()
	case "missing":
		want = fs.ErrNotExist
	case "dir":
		fatalIf(os.Mkdir(name, 0o755))
		want = syscall.EISDIR
	case "nul":
		name += "\x00"
		want = syscall.EINVAL
	case "loop":
		fatalIf(os.Symlink("x.conf", name))
		want = syscall.ELOOP
	case "under-file":
		write()
		name += "/y"
		want = syscall.ENOTDIR
	case "long":
		name = filepath.Join(d, strings.Repeat("n", 300))
		want = syscall.ENAMETOOLONG
	case "dangling":
		fatalIf(os.Symlink("nowhere", name))
		want = fs.ErrNotExist
	}
	var v interface{}
	got := observeParse(func() (interface{}, error) {
		var err error
		v, err = config.ParseFile(name)
		if want != nil && !errors.Is(err, want) {
			return v, fmt.Errorf("unexpected error %v", err)
		}
		return v, err
	})
	if n := openFiles(d); n != 0 && kind != "fifo" {
		return bad("file of kind %q: %d descriptors are still open after the parse", kind, n)
	}
	if want != nil {
		if v != nil || strings.Contains(got, "unexpected error") || !strings.HasPrefix(got, "error: ") {
			return bad("file of kind %q must fail with %v and no result: %s", kind, want, got)
		}
		return verdict{outcome: "open or read error"}
	}
	if w := whole(name, text); got != w {
		return bad("parsing the file (%s) differs from parsing its text: %s", kind, firstDiff(w, got))
	}
	return verdict{outcome: "same as in memory"}
}

func spacesC13(r *run) []class {
	shortMax := 11 + 2*r.tier
	return []class{
		{"names", "every name with characters that mean something elsewhere, among files that a wrong reading of it would find", func(e func(string)) {
			for i := range ioNames {
				e(fmt.Sprintf("N%d", i))
			}
		}},
		{"files", "every kind of file (plain, symbolic link, fifo, missing, directory, NUL in name, link loop, below a file, long name, dangling link) with every text", func(e func(string)) {
			for _, k := range []string{"plain", "symlink", "fifo", "missing", "dir", "nul", "loop", "under-file", "long", "dangling"} {
				for i := range ioTexts {
					e(fmt.Sprintf("f%s;%d", k, i))
				}
			}
		}},
		{"errors", "a read error of every kind at every position (long texts: around buffer sizes), with and without data, persistent or followed by the end of file or by the rest of the text, for three chunk sizes", func(e func(string)) {
			for i, t := range ioTexts[:len(ioTexts)-ioHuge] {
				for p := 0; p <= len(t); p++ {
					if i >= ioShort && p > 3 && p < len(t)-3 && (p+2)%512 > 4 {
						continue
					}
					for k := range ioErrors {
						for _, m := range []string{"err", "errdata"} {
							for _, ch := range []string{"1", "5", "100000"} {
								for _, then := range []string{"", "e", "c"} {
									e(fmt.Sprintf("r%d;%s;-1;%s%d@%d%s", i, ch, m, k, p, then))
								}
							}
						}
					}
				}
			}
		}},
		{"huge", "texts of 64 KiB to more than 1 MiB: chunk sizes around powers of two, one split around multiples of 64 KiB, errors there and at the end", func(e func(string)) {
			for i := len(ioTexts) - ioHuge; i < len(ioTexts); i++ {
				t := ioTexts[i]
				cs := []int{1, 511, 4096, 32768, 65535, 65536, 65537, 1 << 20}
				if len(t) > 1<<20 && r.tier == 0 {
					cs = []int{4096, 65537}
				}
				for _, ch := range cs {
					e(fmt.Sprintf("r%d;%d;-1;eof", i, ch))
					e(fmt.Sprintf("r%d;%d;3;eofdata", i, ch))
				}
				for p := 65535; p < len(t); p += 65536 {
					for d := 0; d < 3; d++ {
						if p+d >= len(t) {
							continue
						}
						if len(t) < 100000 || p+d == 65536 || p+d == len(t)-1 || r.tier > 0 {
							e(fmt.Sprintf("r%d;%d.10000000;-1;eof", i, p+d))
						}
						for k := range ioErrors {
							e(fmt.Sprintf("r%d;10000000;-1;err%d@%dc", i, k, p+d))
							e(fmt.Sprintf("r%d;4096;-1;errdata%d@%d", i, k, p+d))
							e(fmt.Sprintf("r%d;65536;-1;err%d@%d", i, k, len(t)-d))
						}
					}
				}
			}
		}},
		{"kinds", "every kind of reader of the standard library that has delivered a part of the text already", func(e func(string)) {
			for i, t := range ioTexts[:len(ioTexts)-ioHuge+1] {
				for _, k := range []string{"bytes.Reader", "strings.Reader", "bytes.Buffer", "bufio.Reader", "small bufio.Reader", "io.LimitReader", "io.MultiReader", "io.SectionReader", "io.TeeReader", "file", "pipe"} {
					for off := 0; off <= len(t); off++ {
						if off < 12 || off == len(t) || len(t) < 10000 && off%512 == 0 || off == 40000 {
							e(fmt.Sprintf("k%s;%d;%d", k, off, i))
						}
					}
				}
			}
		}},
		{"options", "all sets of at most three options with reader and file on the option documents", func(e func(string)) {
			al := "WCSDRrGIMmEUZ"
			var rec func(s string, from, left int)
			rec = func(s string, from, left int) {
				for _, d := range optDocs {
					e("o" + s + ";" + d)
				}
				for i := from; i < len(al) && left > 0; i++ {
					rec(s+al[i:i+1], i+1, left-1)
				}
			}
			rec("", 0, 3+r.tier)
		}},
		{"chunkings", fmt.Sprintf("all chunkings of all texts of at most %d bytes, end of file with and after the data, empty reads before every read", shortMax), func(e func(string)) {
			for i, t := range ioTexts {
				if len(t) > shortMax {
					continue
				}
				var rec func(left int, acc []string)
				rec = func(left int, acc []string) {
					if left == 0 {
						if len(acc) == 0 {
							acc = []string{"1"}
						}
						for z := -1; z <= len(acc); z++ {
							for _, end := range []string{"eof", "eofdata"} {
								e(fmt.Sprintf("r%d;%s;%d;%s", i, strings.Join(acc, "."), z, end))
							}
						}
						return
					}
					for k := 1; k <= left; k++ {
						rec(left-k, append(acc[:len(acc):len(acc)], strconv.Itoa(k)))
					}
				}
				rec(len(t), nil)
			}
		}},
		{"splits", "all texts with at most two splits (long texts: around multiples of 512) and fixed chunk sizes", func(e func(string)) {
			for i, t := range ioTexts[:len(ioTexts)-ioHuge] {
				for _, ch := range []int{1, 2, 3, 7, 64, 511, 512, 513, 1000, 4096} {
					for _, end := range []string{"eof", "eofdata"} {
						for z := -1; z <= 2; z++ {
							e(fmt.Sprintf("r%d;%d;%d;%s", i, ch, z, end))
						}
					}
				}
				var cut []int
				for p := 1; p < len(t); p++ {
					if len(t) < 40 || p < 3 || p > len(t)-3 || (p+1)%512 < 3 || r.tier > 0 && p%97 == 0 {
						cut = append(cut, p)
					}
				}
				for a, p := range cut {
					for _, end := range []string{"eof", "eofdata"} {
						e(fmt.Sprintf("r%d;%d.100000;-1;%s", i, p, end))
						for _, q := range cut[a+1:] {
							e(fmt.Sprintf("r%d;%d.%d.100000;-1;%s", i, p, q-p, end))
						}
					}
				}
			}
		}},
	}
}

func init() {
	checks["C13"] = &propCheck{
		main: func(r *run) *report {
			res := runSharded(r)
			return &report{level: "fault_enumeration", coverage: explorationCoverage(res, "every reader behaviour (chunking, empty reads, end of file, error kind and position) and every kind of file of the listed spaces; results compared with parsing the complete text; distinct behaviours count"), violations: res.Violations, known: res.KnownEx}
		},
		spaces: spacesC13,
		check:  func(r *run) caseCheck { return checkC13(r.work) },
	}
}
