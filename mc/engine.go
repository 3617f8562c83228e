package main

import (
	"crypto/sha256"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// ---- common run state ----

type run struct {
	prop     string
	tier     int
	tierName string
	seed     int
	verif    string // /verif
	repo     string
	work     string // scratch directory of this run
	mustache string
	shards   int
	start    time.Time
	deadline time.Time
	known    map[string]string // known finding key -> description, for this property
}

func (r *run) expired() bool { return time.Now().After(r.deadline) }

type violation struct {
	Property string `json:"property"`
	Kind     string `json:"kind"`
	Message  string `json:"message"`
	// Input is the failing document, history, schedule, ... in the form the replay of Kind takes.
	Input  string `json:"input,omitempty"`
	Base64 string `json:"input_base64,omitempty"`
	Class  string `json:"class,omitempty"`
	Repro  string `json:"reproduced,omitempty"`
	Replay string `json:"replay_with,omitempty"`
}

func (v *violation) input() string {
	if v.Base64 != "" {
		b, err := base64.StdEncoding.DecodeString(v.Base64)
		if err == nil {
			return string(b)
		}
	}
	return v.Input
}

func newViolation(prop, kind, input, msg string) violation {
	return violation{Property: prop, Kind: kind, Message: msg, Input: printable(input), Base64: base64.StdEncoding.EncodeToString([]byte(input))}
}

func printable(s string) string {
	if len(s) > 2000 {
		return strconv.Quote(s[:2000]) + "..."
	}
	return strconv.Quote(s)
}

// classResult is what one shard (or, merged, all shards) did for one class of cases.
type classResult struct {
	Name       string `json:"name"`
	Rule       string `json:"rule"`
	Generated  int64  `json:"generated"`
	Evaluated  int64  `json:"evaluated"`
	Nontrivial int64  `json:"nontrivial"`
	Complete   bool   `json:"complete"`
}

type shardResult struct {
	Classes    []*classResult   `json:"classes"`
	Violations []violation      `json:"violations"`
	Known      map[string]int64 `json:"known"`
	KnownEx    map[string]string
	Counters   map[string]int64 `json:"counters"`
	Outcomes   map[string]int64 `json:"outcomes"`
	Samples    []string         `json:"samples"`
	Done       bool             `json:"done"`
	States     int64            `json:"states"` // distinct model states (of all shards in the merged result)
	Trans      int64            `json:"trans"`
}

func newShardResult() *shardResult {
	return &shardResult{Known: map[string]int64{}, KnownEx: map[string]string{}, Counters: map[string]int64{}, Outcomes: map[string]int64{}}
}

// finding: a verdict of one case.
type verdict struct {
	bad     string   // violation message, "" if the property holds
	known   string   // key of a known finding this case belongs to
	trivial bool     // the property says nothing about this case
	outcome string   // coarse class of the observed behaviour
	states  []uint64 // hashes of the model states of this case
	trans   int64    // model transitions of this case
	counts  map[string]int64
}

// caseCheck decides one case.
type caseCheck func(c string) verdict

// space: a named finite set of cases, encoded as strings.
type spaces []class

// runSharded enumerates all spaces in parallel processes; every case is decided in exactly one of them.
func runSharded(r *run) *shardResult {
	exe, err := os.Executable()
	fatalIf(err)
	total := newShardResult()
	results := make([]*shardResult, r.shards)
	crash := make([]string, r.shards)
	var wg sync.WaitGroup
	for i := 0; i < r.shards; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			out := filepath.Join(r.work, fmt.Sprintf("shard-%d.json", i))
			cur := filepath.Join(r.work, fmt.Sprintf("shard-%d.cur", i))
			f, err := os.Create(cur)
			fatalIf(err)
			fatalIf(f.Truncate(curSize))
			f.Close()
			cmd := exec.Command(exe, append(r.childArgs(), "-shard", strconv.Itoa(i), "-out", out, "-cur", cur)...)
			errLog, err := os.Create(filepath.Join(r.work, fmt.Sprintf("shard-%d.err", i)))
			fatalIf(err)
			cmd.Stdout = errLog
			cmd.Stderr = errLog
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=400", "GORACE=halt_on_error=1 exitcode=66")
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			runtime.LockOSThread()
			defer runtime.UnlockOSThread()
			fatalIf(cmd.Start())
			done := make(chan error, 1)
			go func() { done <- cmd.Wait() }()
			lastSeq, lastChange := uint64(0), time.Now()
			hung := false
			var werr error
		wait:
			for {
				select {
				case werr = <-done:
					break wait
				case <-time.After(time.Second):
					seq, _ := readCur(cur)
					if seq != lastSeq {
						lastSeq, lastChange = seq, time.Now()
					} else if time.Since(lastChange) > hangLimit {
						hung = true
						cmd.Process.Kill()
					}
				}
			}
			b, rerr := os.ReadFile(out)
			var res shardResult
			if rerr == nil && json.Unmarshal(b, &res) == nil && res.Done && werr == nil {
				results[i] = &res
				return
			}
			_, doc := readCur(cur)
			log, _ := os.ReadFile(errLog.Name())
			if len(log) > 4000 {
				log = log[:4000]
			}
			how := fmt.Sprintf("the process running this case ended with %v", werr)
			if hung {
				how = fmt.Sprintf("the case did not finish within %v", hangLimit)
			}
			crash[i] = doc
			v := newViolation(r.prop, "case", doc, how+": "+string(log))
			results[i] = &shardResult{Violations: []violation{v}}
		}()
	}
	wg.Wait()
	states := map[uint64]struct{}{}
	for i := range results {
		b, _ := os.ReadFile(filepath.Join(r.work, fmt.Sprintf("shard-%d.json.states", i)))
		for ; len(b) >= 8; b = b[8:] {
			states[binary.LittleEndian.Uint64(b)] = struct{}{}
		}
	}
	total.States = int64(len(states))
	byName := map[string]*classResult{}
	for _, res := range results {
		for _, c := range res.Classes {
			t := byName[c.Name]
			if t == nil {
				t = &classResult{Name: c.Name, Rule: c.Rule, Complete: true}
				byName[c.Name] = t
				total.Classes = append(total.Classes, t)
			}
			if c.Generated > t.Generated {
				t.Generated = c.Generated
			}
			t.Evaluated += c.Evaluated
			t.Nontrivial += c.Nontrivial
			t.Complete = t.Complete && c.Complete
		}
		total.Trans += res.Trans
		total.Violations = append(total.Violations, res.Violations...)
		for k, n := range res.Known {
			total.Known[k] += n
		}
		for k, n := range res.KnownEx {
			if o, ok := total.KnownEx[k]; !ok || len(n) < len(o) {
				total.KnownEx[k] = n
			}
		}
		for k, n := range res.Counters {
			total.Counters[k] += n
		}
		for k, n := range res.Outcomes {
			total.Outcomes[k] += n
		}
		if len(total.Samples) < 12 {
			total.Samples = append(total.Samples, res.Samples...)
		}
	}
	sort.SliceStable(total.Violations, func(i, j int) bool {
		return len(total.Violations[i].Base64) < len(total.Violations[j].Base64)
	})
	return total
}

const (
	curSize   = 1 << 20
	hangLimit = 150 * time.Second
)

func readCur(path string) (uint64, string) {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 16 {
		return 0, ""
	}
	n := binary.LittleEndian.Uint64(b[8:])
	if n > uint64(len(b)-16) {
		n = uint64(len(b) - 16)
	}
	return binary.LittleEndian.Uint64(b), string(b[16 : 16+n])
}

// runShard is the child side of runSharded.
func runShard(r *run, shard int, cur string, out string, cls []class, check caseCheck) {
	debug.SetMaxStack(512 << 20)
	f, err := os.OpenFile(cur, os.O_RDWR, 0)
	fatalIf(err)
	m, err := syscall.Mmap(int(f.Fd()), 0, curSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	fatalIf(err)
	res := newShardResult()
	seen := map[uint64]struct{}{}
	states := map[uint64]struct{}{}
	stop := false
	var seq uint64
	for _, c := range cls {
		cr := &classResult{Name: c.name, Rule: c.rule, Complete: true}
		res.Classes = append(res.Classes, cr)
		if stop {
			cr.Complete = false
			continue
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(stopEnum); !ok {
						panic(e)
					}
					stop = true
					cr.Complete = false
				}
			}()
			c.gen(func(doc string) {
				cr.Generated++
				h := fnv.New64a()
				h.Write([]byte(doc))
				k := h.Sum64()
				if int((k>>7)%uint64(r.shards)) != shard {
					return
				}
				if _, dup := seen[k]; dup {
					return
				}
				seen[k] = struct{}{}
				seq++
				binary.LittleEndian.PutUint64(m[8:], uint64(min(len(doc), curSize-16)))
				copy(m[16:], doc)
				binary.LittleEndian.PutUint64(m, seq)
				if r.expired() {
					panic(stopEnum{})
				}
				began := time.Now()
				v := check(doc)
				if slow := os.Getenv("VERIF_SLOW"); slow != "" && time.Since(began) > time.Second {
					// For tuning the spaces: the cases that take more than a second.
					if f, err := os.OpenFile(slow, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o600); err == nil {
						fmt.Fprintf(f, "%s %.1fs %d %.60q\n", c.name, time.Since(began).Seconds(), len(doc), doc)
						f.Close()
					}
				}
				cr.Evaluated++
				if !v.trivial {
					cr.Nontrivial++
					if len(res.Samples) < 2 && cr.Nontrivial%97 == 3 {
						res.Samples = append(res.Samples, printable(doc))
					}
				}
				if v.outcome != "" {
					res.Outcomes[v.outcome]++
				}
				for _, s := range v.states {
					states[s] = struct{}{}
				}
				res.Trans += v.trans
				for k, n := range v.counts {
					res.Counters[k] += n
				}
				if v.known != "" {
					res.Known[v.known]++
					if o, ok := res.KnownEx[v.known]; !ok || len(doc) < len(o) {
						res.KnownEx[v.known] = doc
					}
				}
				if v.bad != "" {
					n := 1
					for i := 0; i < 4; i++ {
						if check(doc).bad != "" {
							n++
						}
					}
					vio := newViolation(r.prop, "case", doc, v.bad)
					vio.Class = c.name
					vio.Repro = fmt.Sprintf("%d of 5 runs", n)
					res.Violations = append(res.Violations, vio)
					if len(res.Violations) >= 3 {
						panic(stopEnum{})
					}
				}
			})
		}()
	}
	if len(states) > 0 {
		b := make([]byte, 0, 8*len(states))
		for s := range states {
			b = binary.LittleEndian.AppendUint64(b, s)
		}
		fatalIf(os.WriteFile(out+".states", b, 0o644))
	}
	res.Done = true
	writeJSON(out, res)
}

type stopEnum struct{}

func writeJSON(path string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	fatalIf(err)
	fatalIf(os.MkdirAll(filepath.Dir(path), 0o755))
	tmp := path + ".tmp"
	fatalIf(os.WriteFile(tmp, append(b, '\n'), 0o644))
	fatalIf(os.Rename(tmp, path))
}

func fatalIf(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "verifmc: internal error:", err)
		debug.PrintStack()
		os.Exit(2)
	}
}

// ---- reporting ----

type report struct {
	level       string
	coverage    map[string]interface{}
	assumptions []string
	violations  []violation
	known       map[string]string // key -> example, as seen in this run
}

func shortHash(s string) string {
	h := sha256.Sum256([]byte(s))
	return hex.EncodeToString(h[:6])
}

// finish writes the evidence file and the replay artefacts, prints the verdict and exits.
func finish(r *run, rep *report) {
	keys := []string{}
	for k := range rep.known {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var vios []violation
	vios = append(vios, rep.violations...)
	for _, k := range keys {
		if d, ok := r.known[k]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s; e.g. %s)\n", r.prop, k, d, printable(rep.known[k]))
		} else {
			vios = append(vios, newViolation(r.prop, "case", rep.known[k], "not listed in known-findings: "+k))
		}
	}
	ev := map[string]interface{}{
		"property":    r.prop,
		"tier":        r.tierName,
		"seed":        r.seed,
		"level":       rep.level,
		"coverage":    rep.coverage,
		"assumptions": rep.assumptions,
		"wall_s":      time.Since(r.start).Seconds(),
		"violations":  len(vios),
	}
	writeJSON(filepath.Join(r.verif, "evidence", r.prop+".json"), ev)
	if len(vios) == 0 {
		fmt.Printf("OK property=%s tier=%s wall=%.1fs %s\n", r.prop, r.tierName, time.Since(r.start).Seconds(), brief(rep.coverage))
		os.Exit(0)
	}
	for i, v := range vios {
		if i >= 3 {
			break
		}
		p := filepath.Join(r.verif, "replays", fmt.Sprintf("%s-%s.json", r.prop, shortHash(v.Base64+v.Message)))
		v.Replay = fmt.Sprintf("./run.sh %s -replay %s", r.prop, p)
		writeJSON(p, v)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, p)
		fmt.Printf("  %s\n  input: %s\n", strings.ReplaceAll(v.Message, "\n", "\n  "), v.Input)
	}
	os.Exit(1)
}

func brief(c map[string]interface{}) string {
	var out []string
	for _, k := range []string{"evaluations", "distinct_nontrivial", "states", "transitions", "traces_validated_against_impl", "schedules", "exhaustive"} {
		if v, ok := c[k]; ok {
			out = append(out, fmt.Sprintf("%s=%v", k, v))
		}
	}
	return strings.Join(out, " ")
}

// explorationCoverage turns merged shard results into an evidence coverage object.
func explorationCoverage(res *shardResult, rule string) map[string]interface{} {
	var ev, nt int64
	exh := true
	for _, c := range res.Classes {
		ev += c.Evaluated
		nt += c.Nontrivial
		exh = exh && c.Complete
	}
	samples := []interface{}{}
	for _, s := range res.Samples {
		samples = append(samples, s)
	}
	if len(samples) > 8 {
		samples = samples[:8]
	}
	return map[string]interface{}{
		"evaluations":         ev,
		"distinct_nontrivial": nt,
		"rule":                rule,
		"samples":             samples,
		"exhaustive":          exh,
		"spaces":              res.Classes,
		"outcomes":            res.Outcomes,
		"counters":            res.Counters,
		"known_findings_seen": res.Known,
	}
}
