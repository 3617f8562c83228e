// Command verifmc decides the properties of /verif/properties.jsonl for breml/logstash-config by bounded
// exhaustive exploration. It is built into the module of the code under test by an overlay.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type propCheck struct {
	// main runs in the parent process and produces the report.
	main func(r *run) *report
	// spaces and check are what the shard processes run (nil if the property is not sharded).
	spaces func(r *run) []class
	check  func(r *run) caseCheck
}

var checks = map[string]*propCheck{}

var (
	fProp     = flag.String("prop", "", "property")
	fVerif    = flag.String("verif", "/verif", "")
	fRepo     = flag.String("repo", "/repo", "")
	fWork     = flag.String("work", "", "scratch directory")
	fMustache = flag.String("mustache", "", "command line tool under test")
	fShard    = flag.Int("shard", -1, "")
	fShards   = flag.Int("shards", 8, "")
	fOut      = flag.String("out", "", "")
	fCur      = flag.String("cur", "", "")
	fReplay   = flag.String("replay", "", "")
	fTier     = flag.String("tier", "quick", "")
	fDeadline = flag.Int64("deadline", 0, "unix time")
	fOp       = flag.String("op", "", "internal: run one operation in a fresh process")
	fSecs     = flag.Int("secs", 0, "time budget in seconds")
)

func (r *run) childArgs() []string {
	return []string{"-prop", r.prop, "-verif", r.verif, "-repo", r.repo, "-work", r.work, "-mustache", r.mustache,
		"-shards", strconv.Itoa(r.shards), "-tier", r.tierName, "-deadline", strconv.FormatInt(r.deadline.Unix(), 10)}
}

func main() {
	flag.Parse()
	if *fOp != "" {
		os.Exit(runOp(*fOp))
	}
	r := &run{prop: *fProp, verif: *fVerif, repo: *fRepo, work: *fWork, mustache: *fMustache, shards: *fShards, start: time.Now(), tierName: *fTier}
	if r.tierName == "thorough" {
		r.tier = 1
	} else {
		r.tierName = "quick"
	}
	r.seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	secs := *fSecs
	if secs == 0 {
		secs = 300
		if r.tier > 0 {
			secs = 720
		}
	}
	r.deadline = r.start.Add(time.Duration(secs) * time.Second)
	if *fDeadline > 0 {
		r.deadline = time.Unix(*fDeadline, 0)
	}
	r.known = loadKnown(filepath.Join(r.verif, "known-findings.json"), r.prop)
	c := checks[r.prop]
	if c == nil {
		var ids []string
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Fprintln(os.Stderr, "verifmc: unknown property", r.prop, "of", strings.Join(ids, " "))
		os.Exit(2)
	}
	if *fShard >= 0 {
		runShard(r, *fShard, *fCur, *fOut, c.spaces(r), c.check(r))
		return
	}
	if *fReplay != "" {
		replay(r, c, *fReplay)
		return
	}
	finish(r, c.main(r))
}

type knownFile struct {
	Findings []struct {
		Property string `json:"property"`
		Key      string `json:"key"`
		What     string `json:"what"`
	} `json:"findings"`
	Fixed []string `json:"fixed"`
}

func loadKnown(path, prop string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	fatalIf(err)
	var f knownFile
	fatalIf(json.Unmarshal(b, &f))
	for _, k := range f.Findings {
		if k.Property == prop {
			out[k.Key] = k.What
		}
	}
	return out
}

func replay(r *run, c *propCheck, path string) {
	b, err := os.ReadFile(path)
	fatalIf(err)
	var v violation
	fatalIf(json.Unmarshal(b, &v))
	if c.check == nil {
		fmt.Fprintln(os.Stderr, "verifmc: no replay for", r.prop)
		os.Exit(2)
	}
	res := c.check(r)(v.input())
	if res.bad != "" {
		fmt.Printf("VIOLATION property=%s replay=%s\n  %s\n", r.prop, path, res.bad)
		os.Exit(1)
	}
	fmt.Printf("replayed %s: property holds (outcome %q, known %q)\n", path, res.outcome, res.known)
}
