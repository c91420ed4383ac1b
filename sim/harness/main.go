package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/recolude/rap/verifsim/simrt"
)

// The harness binary has four modes:
//
//	check  PROP TIER        the orchestrator: spawns workers, reports
//	worker SPEC             runs a range of seeds (one JSON line per event)
//	exec   SPEC             one recorded run, or a range, in a fresh process
//	replay FILE             reproduces a replay file
//
// SPEC is a JSON file, or - for standard input.

// Spec tells a worker what to run.
type Spec struct {
	Prop     string       `json:"property"`
	Seed     int64        `json:"seed"`
	Thorough bool         `json:"thorough"`
	From     int          `json:"from"`
	To       int          `json:"to"`
	Choices  *[2][]uint64 `json:"choices,omitempty"` // instead of From/To
	Record   string       `json:"record,omitempty"`  // file that receives the choices of the last run as they are made
	Minimise bool         `json:"minimise,omitempty"`
	Seconds  float64      `json:"seconds,omitempty"`
	Known    []Known      `json:"known,omitempty"`
	Trace    bool         `json:"trace,omitempty"`
}

// Found is a violation with everything needed to reproduce it.
type Found struct {
	Index   int            `json:"index"`
	Viol    *Violation     `json:"violation"`
	Choices [2][]uint64    `json:"choices"`
	Digest  string         `json:"digest"`
	Trace   []string       `json:"trace,omitempty"`
	Desc    string         `json:"workload,omitempty"`
	Faults  map[string]int `json:"faults,omitempty"`
}

// Summary is what a worker did.
type Summary struct {
	Runs       int            `json:"runs"`
	Evals      int            `json:"evals"`
	Nontrivial []uint64       `json:"nontrivial"` // keys of the non-trivial runs
	Scheds     []uint64       `json:"scheds"`     // schedule hashes
	Switches   int            `json:"switches"`
	Steps      uint64         `json:"steps"`
	Faults     map[string]int `json:"faults"`
	Cov        []uint32       `json:"cov"`
	Samples    []Sample       `json:"samples"`
	Digest     uint64         `json:"digest"`
	KnownHits  []int          `json:"known_hits"`
	Skips      map[string]int `json:"skips,omitempty"`
}

// Sample is one run written out.
type Sample struct {
	Run      int            `json:"run"`
	Workload string         `json:"workload"`
	Steps    uint64         `json:"steps"`
	Faults   map[string]int `json:"faults,omitempty"`
	Events   []string       `json:"events,omitempty"`
}

type message struct {
	Start *int     `json:"start,omitempty"`
	Found *Found   `json:"found,omitempty"`
	Done  *Summary `json:"done,omitempty"`
}

func emit(m message) {
	b, err := json.Marshal(m)
	if err != nil {
		fatal("%v", err)
	}
	os.Stdout.Write(append(b, '\n'))
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "harness: "+f+"\n", a...)
	os.Exit(3)
}

// seedOf derives the seed of one run.
func seedOf(seed int64, prop string, index int) uint64 {
	h := mix64(uint64(seed))
	for i := 0; i < len(prop); i++ {
		h = mix64(h ^ uint64(prop[i])<<7)
	}
	return mix64(h + uint64(index)*0x9E3779B97F4A7C15)
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: harness check|worker|exec|replay ...")
	}
	switch os.Args[1] {
	case "worker":
		limits()
		worker(readSpec(os.Args[2]))
	case "exec":
		limits()
		execMode(readSpec(os.Args[2]))
	case "check":
		os.Exit(check(os.Args[2], os.Args[3]))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "list":
		for _, p := range propOrder() {
			fmt.Println(p)
		}
	default:
		fatal("unknown mode %s", os.Args[1])
	}
}

func readSpec(f string) Spec {
	var s Spec
	b, err := os.ReadFile(f)
	if err != nil {
		fatal("%v", err)
	}
	if err := json.Unmarshal(b, &s); err != nil {
		fatal("%v", err)
	}
	return s
}

func limits() {
	runtime.GOMAXPROCS(1)
	debug.SetMaxStack(256 << 20)
	if !raceBuild {
		lim := uint64(12 << 30)
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
	}
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(3 << 30)
	if _, ok := scenarios["C01"]; !ok {
		fatal("no scenarios")
	}
}

func worker(s Spec) {
	if s.Choices != nil {
		fatal("worker with choices")
	}
	sum := Summary{Faults: map[string]int{}}
	for i := s.From; i < s.To; i++ {
		i := i
		emit(message{Start: &i})
		r := execute(s.Prop, newChoices(seedOf(s.Seed, s.Prop, i)), s.Thorough, false)
		sum.add(i, r)
		if r.viol != nil {
			if k := matchKnown(s.Known, r.viol); k >= 0 {
				sum.KnownHits = append(sum.KnownHits, k)
				continue
			}
			emit(message{Found: found(i, r)})
			break
		}
	}
	for i, c := range simrt.Cov {
		if c != 0 && i > 0 && i <= len(simrt.Meta.Sites) {
			sum.Cov = append(sum.Cov, uint32(i))
		}
	}
	emit(message{Done: &sum})
}

func (s *Summary) add(i int, r *Run) {
	s.Runs++
	s.Evals += r.evals
	s.Steps += r.steps
	for k, n := range r.faults {
		s.Faults[k] += n
	}
	if r.skipped {
		if s.Skips == nil {
			s.Skips = map[string]int{}
		}
		s.Skips[r.skipWhy]++
	}
	if r.nontrivial {
		s.Nontrivial = append(s.Nontrivial, r.shape*31+r.hash)
	}
	s.Scheds = append(s.Scheds, r.scheds...)
	s.Switches += r.switches
	s.Digest = s.Digest*1099511628211 ^ r.digest
	if r.nontrivial && len(s.Samples) < 2 && (i%7 == 3 || len(s.Samples) == 0) {
		s.Samples = append(s.Samples, Sample{Run: i, Workload: r.desc, Steps: r.steps, Faults: r.faults})
	}
}

func found(i int, r *Run) *Found {
	return &Found{Index: i, Viol: r.viol, Choices: trim(r.recorded()), Digest: fmt.Sprintf("%016x", r.digest), Trace: r.trace, Desc: r.desc, Faults: r.faults}
}

// trim drops trailing zeros, which a replay supplies by itself.
func trim(c [2][]uint64) [2][]uint64 {
	for i := range c {
		n := len(c[i])
		for n > 0 && c[i][n-1] == 0 {
			n--
		}
		c[i] = c[i][:n:n]
		if c[i] == nil {
			c[i] = []uint64{}
		}
	}
	return c
}

// execMode runs recorded choices, or a range of seeds, and reports what the
// last run did. With Minimise it then looks for a smaller run with the same
// violation.
func execMode(s Spec) {
	if s.Choices == nil {
		var r *Run
		for i := s.From; i < s.To; i++ {
			c := newChoices(seedOf(s.Seed, s.Prop, i))
			last := i == s.To-1
			if last && s.Record != "" {
				c.persist(s.Record)
			}
			r = execute(s.Prop, c, s.Thorough, last && s.Trace)
			if r.viol != nil && !last {
				// the history fails earlier when run from here
				emit(message{Found: found(i, r)})
				return
			}
		}
		emit(message{Found: found(s.To-1, r)})
		return
	}
	run := func(c [2][]uint64, tracing bool) *Run {
		return execute(s.Prop, replayChoices(c), s.Thorough, tracing)
	}
	if !s.Minimise {
		emit(message{Found: found(-1, run(*s.Choices, s.Trace))})
		return
	}
	first := run(*s.Choices, false)
	if first.viol == nil {
		emit(message{Found: found(-1, first)})
		return
	}
	class := first.viol.Class
	best := shrink(trim(first.recorded()), time.Duration(s.Seconds*float64(time.Second)), 20000, func(c [2][]uint64) ([2][]uint64, bool) {
		r := run(c, false)
		if r.viol == nil || r.viol.Class != class || matchKnown(s.Known, r.viol) >= 0 {
			return c, false
		}
		return trim(r.recorded()), true
	})
	emit(message{Found: found(-1, run(best, true))})
}

// shrink looks for a smaller choice sequence for which try still succeeds.
func shrink(c [2][]uint64, limit time.Duration, tries int, try func([2][]uint64) ([2][]uint64, bool)) [2][]uint64 {
	deadline := time.Now().Add(limit)
	n := 0
	less := func(a, b [2][]uint64) bool { // is a simpler than b
		la, lb := len(a[0])+len(a[1]), len(b[0])+len(b[1])
		if la != lb {
			return la < lb
		}
		for s := range a {
			if len(a[s]) != len(b[s]) {
				return len(a[s]) < len(b[s])
			}
			for i := range a[s] {
				if a[s][i] != b[s][i] {
					return a[s][i] < b[s][i]
				}
			}
		}
		return false
	}
	attempt := func(x [2][]uint64) bool {
		if n >= tries || time.Now().After(deadline) {
			return false
		}
		x = trim(x)
		if !less(x, c) {
			return false
		}
		n++
		y, ok := try(x)
		if !ok {
			return false
		}
		if less(y, x) {
			x = y
		}
		c = x
		return true
	}
	edit := func(s int, f func([]uint64) []uint64) [2][]uint64 {
		var x [2][]uint64
		for i := range c {
			x[i] = append([]uint64{}, c[i]...)
		}
		x[s] = f(x[s])
		return x
	}
	for round := 0; round < 6; round++ {
		before := fmt.Sprint(c)
		for _, s := range []int{sSched, sMain} {
			attempt(edit(s, func(v []uint64) []uint64 { return nil }))
			for size := len(c[s]) / 2; size >= 1; size /= 2 {
				for i := len(c[s]) - size; i >= 0; {
					if i+size > len(c[s]) {
						i = len(c[s]) - size
						if i < 0 {
							break
						}
					}
					if attempt(edit(s, func(v []uint64) []uint64 { return append(v[:i], v[i+size:]...) })) {
						i -= size
						continue
					}
					attempt(edit(s, func(v []uint64) []uint64 {
						for k := i; k < i+size && k < len(v); k++ {
							v[k] = 0
						}
						return v
					}))
					step := size
					if step > 1 {
						step = size / 2
					}
					i -= step
				}
			}
			for i := 0; i < len(c[s]); i++ {
				for i < len(c[s]) && c[s][i] > 0 {
					v := c[s][i]
					if attempt(edit(s, func(x []uint64) []uint64 { x[i] = 0; return x })) {
						continue
					}
					if v > 1 && attempt(edit(s, func(x []uint64) []uint64 { x[i] = v / 2; return x })) {
						continue
					}
					if v > 1 && v < 1<<20 && attempt(edit(s, func(x []uint64) []uint64 { x[i] = v - 1; return x })) {
						continue
					}
					break
				}
			}
		}
		if fmt.Sprint(c) == before || time.Now().After(deadline) {
			break
		}
	}
	return c
}

// Known is a finding that has been recorded rather than repaired.
type Known struct {
	Property, Class, Match, Text string
}

func matchKnown(ks []Known, v *Violation) int {
	for i, k := range ks {
		if k.Class == v.Class && strings.Contains(v.Msg, k.Match) {
			return i
		}
	}
	return -1
}

// readKnown parses KNOWN_FINDINGS.txt: lines of the form
//
//	known: property=C05 class=panic match="..." text
//	fixed: property=C05 <commit> text
func readKnown(file, prop string) []Known {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out []Known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		k := Known{Text: l}
		for _, f := range strings.Fields(l) {
			if v, ok := strings.CutPrefix(f, "property="); ok {
				k.Property = v
			}
			if v, ok := strings.CutPrefix(f, "class="); ok {
				k.Class = v
			}
		}
		if i := strings.Index(l, "match="); i >= 0 {
			rest := l[i+len("match="):]
			if q, err := strconv.QuotedPrefix(rest); err == nil {
				k.Match, _ = strconv.Unquote(q)
				k.Text = strings.TrimSpace(rest[len(q):])
			}
		}
		if k.Property == prop && k.Match != "" {
			out = append(out, k)
		}
	}
	return out
}
