package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/recolude/rap/verifsim/simrt"
)

// Plan is how much of a property a check explores.
type Plan struct {
	Quick, Thorough int // simulated runs
	Chunk           int // runs per worker process
	Race            int // of a hundred runs, how many also run under the race detector (0: none)
	Rule            string
	Real, Stub      []string
	Assume          []string
}

var plans = map[string]Plan{}

// What is real and what is not in every simulated run; plans add their own.
var realParts = []string{
	"all of rap's packages, built from the working tree with a yield point in front of every statement",
	"compress/flate, encoding/binary, encoding/json, encoding/csv, golang/protobuf, gabs, mongo bson, vector (as shipped)",
}
var stubParts = []string{
	"input and output streams (simulated: delivery, faults, end of file)",
	"map iteration order (drawn)",
}
var assumptions = []string{
	"the standard library and the other modules do what they document",
	"a run that finds nothing says nothing about inputs and schedules it did not draw",
}

func propOrder() []string {
	var out []string
	for p := range scenarios {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}

type candidate struct {
	found *Found
	chunk Spec
	bin   string
	how   string // "result", "crash", "race", "stall"
}

type orch struct {
	prop     string
	tier     string
	seed     int64
	dir      string // /verif
	tmp      string
	self     string
	race     string
	plan     Plan
	known    []Known
	mu       sync.Mutex
	total    Summary
	keys     map[uint64]bool
	scheds   map[uint64]bool
	cov      map[uint32]bool
	cands    []candidate
	flaky    []string
	best     int // lowest failing index
	broken   string
	skipped  int
	start    time.Time
	wall     time.Duration
	digests  map[int]uint64
	samples  []Sample
	knownHit map[int]int
	raceRuns int
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

const raceBase = 10_000_000

func check(prop, tier string) int {
	o := &orch{prop: prop, tier: tier, dir: env("VERIF_DIR", "/verif"), race: os.Getenv("HARNESS_RACE"),
		keys: map[uint64]bool{}, scheds: map[uint64]bool{}, cov: map[uint32]bool{}, best: 1 << 60,
		digests: map[int]uint64{}, knownHit: map[int]int{}, start: time.Now()}
	o.total.Faults = map[string]int{}
	o.total.Skips = map[string]int{}
	s, err := strconv.ParseInt(env("VERIF_SEED", "1"), 10, 64)
	if err != nil {
		s = 1
	}
	o.seed = s
	if _, ok := scenarios[prop]; !ok {
		fatal("unknown property %s", prop)
	}
	o.plan = plans[prop]
	o.known = readKnown(filepath.Join(o.dir, "KNOWN_FINDINGS.txt"), prop)
	o.self, _ = os.Executable()
	o.tmp = env("SCRATCH", "")
	if o.tmp == "" {
		o.tmp, err = os.MkdirTemp("", "rapsim")
		if err != nil {
			fatal("%v", err)
		}
		defer os.RemoveAll(o.tmp)
	}
	runs := o.plan.Quick
	o.wall = 300 * time.Second
	if tier == "thorough" {
		runs = o.plan.Thorough
		o.wall = 800 * time.Second
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_RUNS")); err == nil {
		runs = v
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_WALL")); err == nil {
		o.wall = time.Duration(v) * time.Second
	}
	var chunks []candidate
	for a := 0; a < runs; a += o.plan.Chunk {
		b := a + o.plan.Chunk
		if b > runs {
			b = runs
		}
		chunks = append(chunks, candidate{bin: o.self, chunk: Spec{Prop: prop, Seed: o.seed, Thorough: tier == "thorough", From: a, To: b, Known: o.known}})
	}
	if o.plan.Race > 0 && o.race != "" {
		n := runs * o.plan.Race / 100
		c := o.plan.Chunk
		var rc []candidate
		for a := 0; a < n; a += c {
			b := a + c
			if b > n {
				b = n
			}
			rc = append(rc, candidate{bin: o.race, chunk: Spec{Prop: prop, Seed: o.seed, Thorough: tier == "thorough", From: raceBase + a, To: raceBase + b, Known: o.known}})
		}
		// interleave, so that a wall limit cuts both alike
		var mixed []candidate
		for len(chunks) > 0 || len(rc) > 0 {
			if len(chunks) > 0 {
				mixed = append(mixed, chunks[0])
				chunks = chunks[1:]
			}
			if len(rc) > 0 {
				mixed = append(mixed, rc[0])
				rc = rc[1:]
			}
		}
		chunks = mixed
	}
	o.runAll(chunks)
	if o.broken != "" {
		fmt.Fprintln(os.Stderr, o.broken)
		return 3
	}
	code := 0
	violations := 0
	sort.SliceStable(o.cands, func(i, j int) bool { return o.cands[i].found.Index < o.cands[j].found.Index })
	for _, c := range o.cands {
		file, viol := o.settle(c)
		if file == "" {
			continue
		}
		fmt.Printf("%s: %s: %s\n", o.prop, viol.Class, viol.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", o.prop, file)
		code = 1
		violations++
		break
	}
	if code == 0 && len(o.flaky) > 0 {
		for _, f := range o.flaky {
			fmt.Fprintln(os.Stderr, "not reproduced, ignored:", f)
		}
	}
	for k, n := range o.knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s (met %d times)\n", o.prop, o.known[k].Text, n)
	}
	o.evidence(violations, runs)
	return code
}

func (o *orch) runAll(chunks []candidate) {
	workers := 8
	if v, err := strconv.Atoi(os.Getenv("VERIF_WORKERS")); err == nil && v > 0 {
		workers = v
	}
	ch := make(chan int)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				o.runChunk(i, chunks[i])
			}
		}()
	}
	for i := range chunks {
		o.mu.Lock()
		stop := o.broken != "" || chunks[i].chunk.From > o.best || time.Since(o.start) > o.wall || (len(o.cands) > 0 && chunks[i].chunk.From%raceBase > o.best%raceBase)
		if stop && len(o.cands) == 0 && o.broken == "" {
			o.skipped += chunks[i].chunk.To - chunks[i].chunk.From
		}
		o.mu.Unlock()
		if stop {
			continue
		}
		ch <- i
	}
	close(ch)
	wg.Wait()
}

type procResult struct {
	msgs    []message
	last    int // last run started
	exit    int
	stalled bool
	stderr  string
}

func (o *orch) spawn(bin, mode string, s Spec, stall time.Duration, tag string) procResult {
	var res procResult
	res.last = -1
	f := filepath.Join(o.tmp, "spec-"+tag+".json")
	b, _ := json.Marshal(s)
	if err := os.WriteFile(f, b, 0o644); err != nil {
		fatal("%v", err)
	}
	defer os.Remove(f)
	cmd := exec.Command(bin, mode, f)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GORACE=halt_on_error=1 exitcode=66 history_size=3", "TZ=UTC", "GODEBUG=randautoseed=0", "GOTRACEBACK=single", "LC_ALL=C")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var errb bytes.Buffer
	cmd.Stderr = &limitedBuffer{b: &errb, max: 1 << 20}
	out, err := cmd.StdoutPipe()
	if err != nil {
		fatal("%v", err)
	}
	if err := cmd.Start(); err != nil {
		fatal("%v", err)
	}
	beat := make(chan struct{}, 64)
	done := make(chan struct{})
	go func() {
		t := time.NewTimer(stall)
		for {
			select {
			case <-beat:
				t.Reset(stall)
			case <-t.C:
				o.mu.Lock()
				res.stalled = true
				o.mu.Unlock()
				cmd.Process.Kill()
				return
			case <-done:
				return
			}
		}
	}()
	sc := bufio.NewReaderSize(out, 1<<20)
	for {
		line, err := sc.ReadBytes('\n')
		if len(line) > 0 {
			var m message
			if json.Unmarshal(line, &m) == nil {
				if m.Start != nil {
					res.last = *m.Start
				} else {
					res.msgs = append(res.msgs, m)
				}
			}
			select {
			case beat <- struct{}{}:
			default:
			}
		}
		if err != nil {
			break
		}
	}
	werr := cmd.Wait()
	close(done)
	if werr != nil {
		res.exit = cmd.ProcessState.ExitCode()
		if res.exit == 0 {
			res.exit = -2
		}
	}
	o.mu.Lock()
	defer o.mu.Unlock()
	res.stderr = errb.String()
	return res
}

type limitedBuffer struct {
	b   *bytes.Buffer
	max int
}

func (l *limitedBuffer) Write(p []byte) (int, error) {
	if room := l.max - l.b.Len(); room > 0 {
		if len(p) < room {
			room = len(p)
		}
		l.b.Write(p[:room])
	}
	return len(p), nil
}

const stallLimit = 150 * time.Second

// death describes how a process ended, if it did not end well.
func death(res procResult) (how string, v *Violation) {
	switch {
	case res.stalled:
		return "stall", &Violation{"hang", fmt.Sprintf("a run did not end within %v", stallLimit)}
	case res.exit == 66:
		return "race", &Violation{"race", raceSummary(res.stderr)}
	case res.exit != 0:
		line := fmt.Sprintf("exit status %d", res.exit)
		for _, l := range strings.Split(res.stderr, "\n") {
			if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") {
				line = l
				if strings.HasPrefix(l, "fatal error:") {
					break
				}
			}
		}
		return "crash", &Violation{"crash", "the process died: " + line}
	}
	return "", nil
}

// raceSummary names the code that raced.
func raceSummary(stderr string) string {
	var parts []string
	lines := strings.Split(stderr, "\n")
	for i, l := range lines {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "Read at") || strings.HasPrefix(l, "Write at") || strings.HasPrefix(l, "Previous read at") || strings.HasPrefix(l, "Previous write at") {
			kind := strings.Fields(l)[0]
			if kind == "Previous" {
				kind = strings.Fields(l)[1]
			}
			where := ""
			for j := i + 1; j < len(lines) && strings.TrimSpace(lines[j]) != ""; j++ {
				fn := strings.TrimSpace(lines[j])
				if strings.HasPrefix(fn, "github.com/recolude/rap/") && !strings.Contains(fn, "/verifsim/harness") {
					where = strings.TrimPrefix(strings.TrimSuffix(fn, "()"), "github.com/recolude/rap/")
					break
				}
				if where == "" && strings.HasSuffix(fn, "()") {
					where = strings.TrimSuffix(fn, "()")
				}
			}
			parts = append(parts, strings.ToLower(kind)+" in "+where)
		}
	}
	if len(parts) > 2 {
		parts = parts[:2]
	}
	return "unsynchronised access: " + strings.Join(parts, " and ")
}

func (o *orch) runChunk(n int, c candidate) {
	res := o.spawn(c.bin, "worker", c.chunk, stallLimit, fmt.Sprintf("w%d", n))
	how, v := death(res)
	o.mu.Lock()
	defer o.mu.Unlock()
	if res.exit == 3 {
		o.broken = fmt.Sprintf("worker for runs %d..%d failed:\n%s", c.chunk.From, c.chunk.To, res.stderr)
		return
	}
	if how != "" {
		idx := res.last
		if idx < 0 {
			o.broken = "worker died before its first run:\n" + res.stderr
			return
		}
		c.found = &Found{Index: idx, Viol: v}
		c.how = how
		o.addCand(c)
	}
	for _, m := range res.msgs {
		if m.Found != nil {
			cc := c
			cc.found = m.Found
			cc.how = "result"
			o.addCand(cc)
		}
		if m.Done != nil {
			o.merge(c, m.Done)
		}
	}
}

func (o *orch) addCand(c candidate) {
	o.cands = append(o.cands, c)
	if c.found.Index < o.best {
		o.best = c.found.Index
	}
}

func (o *orch) merge(c candidate, s *Summary) {
	o.total.Runs += s.Runs
	if c.bin == o.race {
		o.raceRuns += s.Runs
	}
	o.total.Evals += s.Evals
	o.total.Steps += s.Steps
	o.total.Switches += s.Switches
	for k, n := range s.Skips {
		o.total.Skips[k] += n
	}
	for k, n := range s.Faults {
		o.total.Faults[k] += n
	}
	for _, k := range s.Nontrivial {
		o.keys[k] = true
	}
	for _, k := range s.Scheds {
		o.scheds[k] = true
	}
	for _, k := range s.Cov {
		o.cov[k] = true
	}
	for _, k := range s.KnownHits {
		o.knownHit[k]++
	}
	o.digests[c.chunk.From] = s.Digest
	o.samples = append(o.samples, s.Samples...)
}

// execOne runs a spec in a fresh process.
func (o *orch) execOne(bin string, s Spec, tag string) (*Found, string) {
	stall := stallLimit
	if s.Minimise {
		stall = time.Duration(s.Seconds*float64(time.Second)) + stallLimit
	}
	res := o.spawn(bin, "exec", s, stall, tag)
	if how, v := death(res); how != "" {
		if res.exit == 3 {
			fatal("exec failed:\n%s", res.stderr)
		}
		return &Found{Index: -1, Viol: v, Trace: tailLines(res.stderr, 60)}, how
	}
	for _, m := range res.msgs {
		if m.Found != nil {
			return m.Found, "result"
		}
	}
	return nil, ""
}

func tailLines(s string, n int) []string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return l
}

// Replay is the content of a replay file.
type Replay struct {
	Property string         `json:"property"`
	Seed     int64          `json:"seed"`
	Run      int            `json:"run"`
	Tier     string         `json:"tier"`
	Race     bool           `json:"race,omitempty"`
	Class    string         `json:"class"`
	Message  string         `json:"message"`
	Digest   string         `json:"digest,omitempty"`
	Choices  *[2][]uint64   `json:"choices,omitempty"`
	History  []int          `json:"history,omitempty"` // first and last run of one process, when the runs before it matter
	Original int            `json:"choices_before_minimising,omitempty"`
	Workload string         `json:"workload,omitempty"`
	Faults   map[string]int `json:"faults,omitempty"`
	Trace    []string       `json:"trace"`
}

// settle confirms a candidate in a fresh process, minimises it and writes its
// replay file.
func (o *orch) settle(c candidate) (string, *Violation) {
	f := c.found
	rp := Replay{Property: o.prop, Seed: o.seed, Run: f.Index, Tier: o.tier, Race: c.bin == o.race, Workload: f.Desc}
	class := f.Viol.Class
	base := Spec{Prop: o.prop, Seed: o.seed, Thorough: o.tier == "thorough", Known: o.known}

	same := func(g *Found) bool { return g != nil && g.Viol != nil && g.Viol.Class == class }
	alone := base
	recFile := filepath.Join(o.tmp, "choices.bin")
	if c.how == "result" {
		ch := f.Choices
		alone.Choices = &ch
	} else {
		alone.From, alone.To, alone.Record = f.Index, f.Index+1, recFile
	}
	tries := 1
	if c.how == "race" {
		tries = 4
	}
	var g *Found
	for i := 0; i < tries; i++ {
		g, _ = o.execOne(c.bin, alone, "confirm")
		if same(g) {
			break
		}
	}
	if !same(g) {
		// the runs before it in the same process matter
		for k := 1; ; k *= 2 {
			from := f.Index - k
			if from < c.chunk.From {
				from = c.chunk.From
			}
			h := base
			h.From, h.To = from, f.Index+1
			h.Trace = true
			g, _ := o.execOne(c.bin, h, "history")
			if same(g) && (c.how != "result" || g.Index == f.Index) {
				rp.History = []int{from, f.Index}
				rp.Class, rp.Message, rp.Digest = g.Viol.Class, g.Viol.Msg, g.Digest
				rp.Trace = g.Trace
				return o.write(rp), g.Viol
			}
			if from == c.chunk.From {
				break
			}
		}
		o.flaky = append(o.flaky, fmt.Sprintf("run %d: %s: %s", f.Index, f.Viol.Class, f.Viol.Msg))
		return "", nil
	}
	if c.how != "result" {
		f.Choices = readPersisted(recFile)
		// make sure that the recorded choices do it
		s := base
		s.Choices = &f.Choices
		ok := false
		for i := 0; i < tries && !ok; i++ {
			g, _ = o.execOne(c.bin, s, "confirm")
			ok = same(g)
		}
		if !ok {
			rp.History = []int{f.Index, f.Index}
			rp.Class, rp.Message = f.Viol.Class, f.Viol.Msg
			return o.write(rp), f.Viol
		}
	}
	rp.Original = len(f.Choices[0]) + len(f.Choices[1])
	best := f.Choices
	secs := 30.0
	if c.how == "result" {
		s := base
		s.Choices, s.Minimise, s.Seconds = &f.Choices, true, secs
		if m, how := o.execOne(c.bin, s, "min"); how == "result" && same(m) {
			best = m.Choices
		}
	} else {
		n := 0
		best = shrink(f.Choices, time.Duration(secs)*time.Second, 150, func(x [2][]uint64) ([2][]uint64, bool) {
			n++
			s := base
			s.Choices = &x
			m, _ := o.execOne(c.bin, s, "min")
			return x, same(m)
		})
	}
	// what the replay file says is what a fresh process does
	final := func(ch [2][]uint64) *Found {
		s := base
		s.Choices, s.Trace = &ch, true
		for i := 0; i < tries; i++ {
			g, _ := o.execOne(c.bin, s, "final")
			if same(g) {
				return g
			}
		}
		return nil
	}
	g = final(best)
	if g == nil {
		best = f.Choices
		g = final(best)
	}
	if g == nil {
		g = f
	}
	rp.Choices = &best
	rp.Class, rp.Message, rp.Digest, rp.Trace = g.Viol.Class, g.Viol.Msg, g.Digest, g.Trace
	if g.Desc != "" {
		rp.Workload = g.Desc
	}
	rp.Faults = g.Faults
	return o.write(rp), g.Viol
}

func (o *orch) write(rp Replay) string {
	dir := filepath.Join(o.dir, "replays")
	os.MkdirAll(dir, 0o755)
	h := fnv.New64a()
	b, _ := json.Marshal(rp)
	h.Write(b)
	f := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", o.prop, h.Sum64()))
	b, _ = json.MarshalIndent(rp, "", " ")
	if err := os.WriteFile(f, append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
	return f
}

// replay reproduces a replay file in a fresh process.
func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fatal("%v", err)
	}
	o := &orch{prop: rp.Property, race: os.Getenv("HARNESS_RACE")}
	o.self, _ = os.Executable()
	o.tmp, err = os.MkdirTemp("", "rapsim")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(o.tmp)
	bin := o.self
	tries := 1
	if rp.Race {
		bin = o.race
		tries = 4
		if bin == "" {
			fatal("this replay needs the race build")
		}
	}
	s := Spec{Prop: rp.Property, Seed: rp.Seed, Thorough: rp.Tier == "thorough", Trace: true}
	if rp.Choices != nil {
		s.Choices = rp.Choices
	} else {
		s.From, s.To = rp.History[0], rp.History[1]+1
	}
	for i := 0; i < tries; i++ {
		g, _ := o.execOne(bin, s, "replay")
		if g == nil || g.Viol == nil {
			continue
		}
		for _, t := range g.Trace {
			fmt.Println("  ", t)
		}
		fmt.Printf("%s: %s: %s\n", rp.Property, g.Viol.Class, g.Viol.Msg)
		if g.Viol.Class == rp.Class && g.Viol.Msg == rp.Message && (rp.Digest == "" || g.Digest == rp.Digest) {
			fmt.Println("reproduced exactly")
		} else {
			fmt.Printf("differs from the recorded violation: %s: %s (digest %s, recorded %s)\n", rp.Class, rp.Message, g.Digest, rp.Digest)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, file)
		return 1
	}
	fmt.Println("no violation")
	return 0
}

func (o *orch) evidence(violations, planned int) {
	wall := time.Since(o.start).Seconds()
	perFile := map[string][2]int{}
	for _, s := range simrt.Meta.Sites {
		if s.Kind != "stmt" && s.Kind != "" && s.Kind != "yield" {
			continue
		}
		c := perFile[s.File]
		c[1]++
		if o.cov[uint32(s.ID)] {
			c[0]++
		}
		perFile[s.File] = c
	}
	reached := map[string]string{}
	all := [2]int{}
	for f, c := range perFile {
		all[0] += c[0]
		all[1] += c[1]
		if c[0] > 0 {
			reached[f] = fmt.Sprintf("%d/%d", c[0], c[1])
		}
	}
	var samples []interface{}
	sort.Slice(o.samples, func(i, j int) bool { return o.samples[i].Run < o.samples[j].Run })
	for i, s := range o.samples {
		if i < 6 {
			samples = append(samples, s)
		}
	}
	if samples == nil {
		samples = []interface{}{}
	}
	hours := wall / 3600
	cov := map[string]interface{}{
		"evaluations":             o.total.Evals,
		"distinct_nontrivial":     len(o.keys),
		"rule":                    o.plan.Rule,
		"samples":                 samples,
		"simulated_runs":          o.total.Runs,
		"seeds":                   o.total.Runs,
		"runs_planned":            planned,
		"runs_skipped_by_wall":    o.skipped,
		"runs_without_verdict":    o.total.Skips,
		"runs_per_hour":           int(float64(o.total.Runs) / hours),
		"simulated_time":          fmt.Sprintf("%d scheduler steps (rap has no clock; logical time is counted in yield points passed)", o.total.Steps),
		"simulated_steps":         o.total.Steps,
		"faults_injected":         o.total.Faults,
		"distinct_schedules":      len(o.scheds),
		"task_switches":           o.total.Switches,
		"statement_sites_reached": fmt.Sprintf("%d/%d", all[0], all[1]),
		"sites_reached_by_file":   reached,
		"real_components":         append(append([]string{}, realParts...), o.plan.Real...),
		"stub_components":         append(append([]string{}, stubParts...), o.plan.Stub...),
		"unreproduced":            o.flaky,
	}
	if o.plan.Race > 0 {
		cov["runs_under_race_detector"] = o.raceRuns
	}
	if ok, tested := o.recheck(); tested {
		cov["determinism_recheck"] = ok
	}
	ev := map[string]interface{}{
		"property":    o.prop,
		"tier":        o.tier,
		"seed":        o.seed,
		"level":       "exploration",
		"coverage":    cov,
		"assumptions": append(append([]string{}, assumptions...), o.plan.Assume...),
		"wall_s":      wall,
		"violations":  violations,
	}
	os.MkdirAll(filepath.Join(o.dir, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(o.dir, "evidence", o.prop+".json"), append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
	fmt.Printf("%s %s: %d runs, %d evaluations, %d distinct, %d steps, %.1f s\n", o.prop, o.tier, o.total.Runs, o.total.Evals, len(o.keys), o.total.Steps, wall)
}

// recheck runs one chunk again in another process and compares everything
// that happened.
func (o *orch) recheck() (ok, tested bool) {
	d, have := o.digests[0]
	if !have || len(o.cands) > 0 {
		return false, false
	}
	to := o.plan.Chunk
	if to > o.total.Runs {
		to = o.total.Runs
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_RUNS")); err == nil && v < to {
		to = v
	}
	res := o.spawn(o.self, "worker", Spec{Prop: o.prop, Seed: o.seed, Thorough: o.tier == "thorough", From: 0, To: to, Known: o.known}, stallLimit, "again")
	for _, m := range res.msgs {
		if m.Done != nil {
			if m.Done.Digest != d {
				fmt.Fprintln(os.Stderr, "warning: the same seeds gave different executions")
			}
			return m.Done.Digest == d, true
		}
	}
	return false, false
}
