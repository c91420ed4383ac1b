package main

import (
	"fmt"
	"hash/fnv"
	"runtime/debug"
	"strings"

	"github.com/recolude/rap/verifsim/simrt"
)

// Violation is what a run found.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"message"`
}

// Run is one simulated execution.
type Run struct {
	schedFrom int  // where the scheduling decisions since the last start begin
	large     bool // more work than usual is to be expected
	*Choices
	Prop     string
	Thorough bool

	viol       *Violation
	skipped    bool
	skipWhy    string
	mapMode    int
	mapSeed    uint64
	tracing    bool
	trace      []string
	faults     map[string]int
	hash       uint64 // of everything that happened at the seams
	shape      uint64 // of the workload
	nontrivial bool
	desc       string
	evals      int // evaluations of the property
	digest     uint64
	steps      uint64
	totalSteps uint64
	muted      bool
	scheds     []uint64
	switches   int
}

type failPanic struct{}
type skipPanic struct{}

// Fail ends the run with a violation.
func (r *Run) Fail(class, f string, a ...interface{}) {
	if r.viol == nil {
		r.viol = &Violation{class, fmt.Sprintf(f, a...)}
	}
	panic(failPanic{})
}

// skip ends a run that could not get to the point of the property.
func (r *Run) skip(why string) {
	r.note("skipped: %s", why)
	r.skipped = true
	r.skipWhy = strings.SplitN(why, ":", 2)[0]
	panic(skipPanic{})
}

// pre runs a step the property only presupposes; if it goes wrong the run is
// over without a verdict.
func (r *Run) pre(what string, f func() error) {
	var err error
	func() {
		defer func() {
			if p := recover(); p != nil {
				switch p.(type) {
				case failPanic, skipPanic:
					panic(p)
				}
				err = fmt.Errorf("%v", p)
			}
		}()
		err = f()
	}()
	if err != nil || simrt.Stuck() != nil {
		r.skip(fmt.Sprint(what, ": ", err))
	}
}

func (r *Run) fault(kind string) { r.faults[kind]++ }

// note records a fact about the run in its trace.
func (r *Run) note(f string, a ...interface{}) {
	if r.tracing && len(r.trace) < 4000 {
		r.trace = append(r.trace, fmt.Sprintf(f, a...))
	}
}

// event records something that happened at a seam.
//
//go:norace
func (r *Run) event(kind string, a, b int, err error) {
	h := r.hash
	for i := 0; i < len(kind); i++ {
		h = (h ^ uint64(kind[i])) * 1099511628211
	}
	h = (h ^ uint64(a)) * 1099511628211
	h = (h ^ uint64(b)) * 1099511628211
	if err != nil {
		h = (h ^ 0xEE) * 1099511628211
	}
	r.hash = h
	if r.tracing && !r.muted && len(r.trace) < 4000 {
		s := fmt.Sprintf("%s %d -> %d", kind, a, b)
		if err != nil {
			s += " " + err.Error()
		}
		r.trace = append(r.trace, s)
	}
}

// fold mixes a result into the run's digest, which a replay must reproduce.
func (r *Run) fold(s string) {
	h := fnv.New64a()
	h.Write([]byte(s))
	r.digest = r.digest*1099511628211 ^ h.Sum64()
}

// begin (re)starts the simulated machine within the run.
func (r *Run) begin(c simrt.Config) {
	r.drain()
	r.totalSteps += simrt.Steps()
	if c.Budget == 0 {
		c.Budget = 200_000_000
		if r.large {
			c.Budget = 2_000_000_000
		}
	}
	if c.SchedDraw == nil {
		c.SchedDraw = r.schedDraw
	}
	r.schedFrom = len(r.Choices.st[sSched].rec)
	if c.MapMode == 0 {
		c.MapMode, c.MapSeed = r.mapMode, r.mapSeed
	}
	if c.AllocMax == 0 {
		c.AllocMax = 1 << 30
	}
	simrt.Begin(c)
}

// drain ends the goroutines the code under test left behind.
func (r *Run) drain() {
	if s := simrt.Drain(); s != nil {
		r.note("%s", simrt.GoroutineStack)
		r.Fail(s.Class, "%s%s", s.Msg, where(simrt.GoroutineStack))
	}
}

// drawMapOrder decides the order in which maps are iterated in this run; every
// begin starts it afresh, so that the same operation sees the same order.
func (r *Run) drawMapOrder() {
	r.mapMode = r.Pick(2, 1, 3)
	if r.mapMode == 2 {
		r.mapSeed = uint64(r.Int(1 << 30))
	}
	r.again()
}

// again restarts the machine with the same settings.
func (r *Run) again() { r.begin(simrt.Config{}) }

// repeat restarts the machine with the same settings, to schedule what happens
// the way it was scheduled since the last start, as long as it is the same.
func (r *Run) repeat() {
	log := append([]uint64{}, r.Choices.st[sSched].rec[r.schedFrom:]...)
	r.begin(simrt.Config{SchedDraw: func(n uint64) uint64 {
		if n <= 1 {
			return 0
		}
		if len(log) > 0 && log[0] < n {
			v := log[0]
			log = log[1:]
			return v
		}
		log = nil
		return r.schedDraw(n)
	}})
}

// guard calls f, turning a panic of the code under test into a violation.
func (r *Run) guard(what string, f func()) {
	defer func() {
		if p := recover(); p != nil {
			r.crash(what, p, string(debug.Stack()))
		}
	}()
	f()
}

func (r *Run) crash(what string, p interface{}, stack string) {
	switch v := p.(type) {
	case failPanic, skipPanic:
		panic(p)
	case simrt.Sticky:
		if r.viol == nil {
			r.viol = &Violation{v.Class, what + ": " + v.Msg}
		}
		panic(failPanic{})
	}
	if s := simrt.Stuck(); s != nil {
		r.Fail(s.Class, "%s: %s", what, s.Msg)
	}
	r.note("%s", stack)
	r.Fail("panic", "%s panicked: %v%s", what, p, where(stack))
}

// where finds the topmost frame in the code under test.
func where(stack string) string {
	lines := strings.Split(stack, "\n")
	seenPanic := false
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seenPanic = true
			continue
		}
		if seenPanic && strings.HasPrefix(l, "github.com/recolude/rap/") && !strings.Contains(l, "/verifsim/harness") && !strings.Contains(l, "/verifsim/sim") && i+1 < len(lines) {
			f := strings.TrimSpace(lines[i+1])
			if j := strings.LastIndex(f, " +"); j > 0 {
				f = f[:j]
			}
			if j := strings.Index(f, "/repo/"); j >= 0 {
				f = f[j+len("/repo/"):]
			}
			if j := strings.LastIndex(f, ":"); j > 0 {
				f = f[:j] // line numbers of the instrumented copy mean little
			}
			fn := l
			if j := strings.LastIndex(fn, "("); j > 0 {
				fn = fn[:j]
			}
			fn = strings.TrimPrefix(fn, "github.com/recolude/rap/")
			return " in " + fn
		}
	}
	return ""
}

// Scenario decides one property in one run.
type Scenario func(r *Run)

// execute performs one run.
func execute(prop string, c *Choices, thorough, tracing bool) *Run {
	r := &Run{Choices: c, Prop: prop, Thorough: thorough, tracing: tracing, faults: map[string]int{}, hash: 14695981039346656037}
	sc := scenarios[prop]
	func() {
		defer func() {
			if p := recover(); p != nil {
				switch p.(type) {
				case failPanic, skipPanic:
					return
				}
				if v, ok := p.(simrt.Sticky); ok {
					if r.viol == nil {
						r.viol = &Violation{v.Class, v.Msg}
					}
					return
				}
				// a panic outside of a guard: the harness asked rap for
				// something harmless and it blew up, or the harness is wrong
				stack := string(debug.Stack())
				w := where(stack)
				r.note("%s", stack)
				if r.viol == nil {
					r.viol = &Violation{"panic", fmt.Sprintf("panicked: %v%s", p, w)}
					if w == "" {
						// what rap gave is so odd that the check itself gave up
						r.viol = &Violation{"unexpected", fmt.Sprintf("the check can not make anything of what it got: %v", p)}
					}
				}
			}
		}()
		r.begin(simrt.Config{})
		sc(r)
		r.drain()
	}()
	simrt.Drain()
	if r.skipped {
		r.nontrivial = false
	}
	r.steps = simrt.Steps() + r.totalSteps
	r.totalSteps = 0
	simrt.End()
	r.digest = r.digest*31 + r.hash
	r.digest = r.digest*31 + r.steps
	if r.viol != nil {
		r.fold(r.viol.Class + r.viol.Msg)
	}
	return r
}

var scenarios = map[string]Scenario{}

// limit bounds the work and the single allocations of what follows.
func (r *Run) limit(steps uint64, alloc int64) {
	simrt.SetBudget(steps)
	simrt.SetAllocMax(alloc)
}
