// Package simrt is the runtime the instrumented copy of the repository is
// linked against: yield points, step budgets, statement coverage, allocation
// limits, map iteration order, simulated tasks and a simulated clock.
//
// It is inert until Begin is called. All of its state is touched either by
// exactly one running task at a time (tasks are handed off with a plain,
// deliberately unsynchronised variable so that the race detector does not see
// happens-before edges the code under test did not create) or before/after
// the tasks run.
package simrt

import (
	"encoding/json"
	"fmt"
	"runtime"
	"sync"
	"time"
)

// Site is a place in the instrumented source.
type Site struct {
	ID   int    `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	Kind string `json:"kind"`
}

// MetaJSON is filled in by the instrumenter.
var MetaJSON string

// Meta describes the instrumented program.
var Meta struct {
	Sites    []Site   `json:"sites"`
	Channels bool     `json:"channels"`
	GoStmts  int      `json:"go_stmts"`
	Warnings []string `json:"warnings"`
	Packages []string `json:"packages"`
	Module   string   `json:"module"`
}

// Generation counts the runs, so that caches which outlive a run can be told
// from those made in it.
var Generation uint64

// Cov marks the sites executed since the process started.
var Cov [1 << 16]uint8

func initMeta() {
	if err := json.Unmarshal([]byte(MetaJSON), &Meta); err != nil {
		panic(err)
	}
}

const never = ^uint64(0)

var (
	steps     uint64
	next      = never // first step that needs the slow path
	budget    = never
	preemptAt = never
)

// Sticky is a panic of the simulator itself: the run is over. It is raised
// again at every later yield point, so code under test can not swallow it.
type Sticky struct {
	Class string
	Msg   string
}

func (s Sticky) Error() string { return s.Class + ": " + s.Msg }

var sticky *Sticky

// Y is a yield point.
//
//go:norace
func Y(id uint32) {
	Cov[id&(1<<16-1)] = 1
	steps++
	if steps >= next {
		slow(id)
	}
}

// Tick is a yield point of a simulated component.
//
//go:norace
func Tick() {
	steps++
	if steps >= next {
		slow(0)
	}
}

//go:norace
func setNext() {
	next = budget
	if preemptAt < next {
		next = preemptAt
	}
	if sticky != nil {
		next = 0
	}
}

//go:norace
func slow(id uint32) {
	if sticky != nil {
		panic(*sticky)
	}
	if steps >= budget {
		where := ""
		if id != 0 && int(id) <= len(Meta.Sites) {
			s := Meta.Sites[id-1]
			where = fmt.Sprintf(" near %s:%d", s.File, s.Line)
		}
		Stick("hang", fmt.Sprintf("no result within %d steps%s", budget, where))
	}
	if steps >= preemptAt {
		preempt()
	}
}

// Stick ends the run with a violation seen by the simulator.
//
//go:norace
func Stick(class, msg string) {
	if sticky == nil {
		sticky = &Sticky{class, msg}
		setNext()
	}
	panic(*sticky)
}

// Stuck returns the violation the simulator ended the run with, if any.
//
//go:norace
func Stuck() *Sticky { return sticky }

// Steps is the number of yield points passed in this run.
//
//go:norace
func Steps() uint64 { return steps }

// Config sets up one run.
type Config struct {
	Budget    uint64 // steps
	MapMode   int    // 0 sorted, 1 reversed, 2 permuted
	MapSeed   uint64
	AllocMax  int64 // bytes one make may ask for (0: no limit)
	SchedDraw func(n uint64) uint64
	GapMean   uint64 // average number of steps between preemptions
}

// Begin starts a run; the calling goroutine is task 0.
//
//go:norace
func Begin(c Config) {
	steps, sticky = 0, nil
	budget = c.Budget
	if budget == 0 {
		budget = never
	}
	preemptAt = never
	mapMode, mapSeed, mapCount = c.MapMode, c.MapSeed, 0
	allocMax = c.AllocMax
	allocPeak = 0
	schedDraw = c.SchedDraw
	gapMean = c.GapMean
	Generation++
	if ntasks == 0 {
		ntasks, nlive = 1, 1
		table[0] = &task{wake: make(chan struct{}, 1), live: true}
	}
	turn = 0
	switches = 0
	schedHash = 14695981039346656037
	spins = 0
	concurrent = nlive > 1
	clock = 0
	nextGap()
}

// SetBudget changes the step budget to n more steps.
//
//go:norace
func SetBudget(n uint64) {
	budget = steps + n
	setNext()
}

// SetAllocMax changes the largest allocation allowed.
//
//go:norace
func SetAllocMax(n int64) { allocMax = n }

// End stops the simulation; the rest runs natively.
//
//go:norace
func End() {
	budget, preemptAt, next = never, never, never
	sticky = nil
	allocMax = 0
	schedDraw = nil
	concurrent = false
}

// --- allocation ---------------------------------------------------------

var (
	allocMax  int64
	allocPeak int64
)

// Integer is any integer type.
type Integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

// N checks a size given to make.
func N[I Integer](site, elem int, n I) I {
	checkAlloc(site, elem, uint64(n), n < 0)
	return n
}

//go:norace
func checkAlloc(site, elem int, n uint64, negative bool) {
	if allocMax == 0 || negative {
		return
	}
	if elem < 1 {
		elem = 1
	}
	if n > uint64(allocMax)/uint64(elem) {
		where := ""
		if site <= len(Meta.Sites) {
			where = fmt.Sprintf(" at %s:%d", Meta.Sites[site-1].File, Meta.Sites[site-1].Line)
		}
		Stick("allocation", fmt.Sprintf("%d elements of %d bytes requested%s, limit %d bytes", n, elem, where, allocMax))
	}
	if int64(n)*int64(elem) > allocPeak {
		allocPeak = int64(n) * int64(elem)
	}
}

// --- tasks --------------------------------------------------------------

// maxTasks bounds the tasks alive at one time; slots are used again.
const maxTasks = 1 << 14

type task struct {
	wake  chan struct{}
	live  bool
	user  bool // started by the code under test
	num   int  // which of RunTasks' functions it runs
	panic interface{}
	stack string
}

var (
	ntasks     int // slots in use, including free ones in between
	nlive      int
	nharness   int // live tasks of RunTasks
	draining   bool
	turn       int32
	table      [maxTasks]*task
	schedDraw  func(n uint64) uint64
	gapMean    uint64
	switches   int
	schedHash  uint64
	spins      int
	concurrent bool
	joining    chan struct{} // task 0 waits in Join for the last of RunTasks' tasks
	wg         sync.WaitGroup
)

// park waits for the task's turn. The race detector must not see the hand-over
// as synchronisation: it is the simulator's, not the code's.
//
//go:norace
func park(t *task) {
	raceDisable()
	<-t.wake
	raceEnable()
}

//go:norace
func unpark(t *task) {
	raceDisable()
	t.wake <- struct{}{}
	raceEnable()
}

// switchTo hands the processor to another task and waits to get it back.
//
//go:norace
func switchTo(id int32) {
	me := turn
	if id == me {
		return
	}
	switches++
	schedHash = (schedHash ^ uint64(id)) * 1099511628211
	schedHash = (schedHash ^ steps) * 1099511628211
	turn = id
	unpark(table[id])
	park(table[me])
}

//go:norace
func nextGap() {
	preemptAt = never
	if schedDraw != nil && concurrent && nlive > 1 {
		// 0 means: run on for long, or until something blocks
		d := schedDraw(2*gapMean + 1)
		if d == 0 {
			d = 100_000
		}
		preemptAt = steps + d
	}
	setNext()
}

// pick draws one of the live tasks other than me (or -1).
//
//go:norace
func pick(me int32) int32 {
	n := nlive
	if me >= 0 && table[me].live {
		n--
	}
	if n == 0 {
		return -1
	}
	k := 0
	if n > 1 && schedDraw != nil {
		k = int(schedDraw(uint64(n)))
	}
	for i := 0; i < ntasks; i++ {
		if table[i].live && int32(i) != me {
			if k == 0 {
				return int32(i)
			}
			k--
		}
	}
	return -1
}

//go:norace
func preempt() {
	spins = 0
	t := pick(turn)
	nextGap()
	if t >= 0 {
		switchTo(t)
		if sticky != nil {
			panic(*sticky)
		}
	}
}

// Block gives way because the running task can not continue.
//
//go:norace
func Block(why string) {
	if Free() || !running() {
		runtime.Gosched()
		return
	}
	steps++
	if sticky != nil {
		panic(*sticky)
	}
	spins++
	if spins > 4*nlive+64 && !draining {
		Stick("deadlock", "every task waits ("+why+")")
	}
	others()
	if sticky != nil {
		panic(*sticky)
	}
}

// BlockOutside waits for something outside of the simulation.
//
//go:norace
func BlockOutside() {
	runtime.Gosched()
	if Free() || !running() {
		return
	}
	Tick()
	if sticky != nil {
		panic(*sticky)
	}
	if !draining {
		spins = 0
	}
	others()
	if sticky != nil {
		panic(*sticky)
	}
}

// others gives the next live task its turn, round robin, so that every one of
// them gets a chance to make progress.
//
//go:norace
func others() {
	me := turn
	for i := 1; i < ntasks; i++ {
		t := (me + int32(i)) % int32(ntasks)
		if table[t].live {
			switchTo(t)
			return
		}
	}
}

// Yield lets another task run, if the scheduler wants to.
//
//go:norace
func Yield() {
	if Free() || !running() {
		runtime.Gosched()
		return
	}
	steps++
	if nlive > 1 {
		preempt()
	}
	if sticky != nil {
		panic(*sticky)
	}
}

// Progress tells the scheduler that a blocked task got what it waited for.
//
//go:norace
func Progress() { spins = 0 }

// Free reports that goroutines are not simulated, because the code does
// something with channels that is not: they run natively.
func Free() bool { return Meta.Channels }

// newTask finds a slot for a task, or returns -1.
//
//go:norace
func newTask(num int) int {
	id := -1
	for i := 1; i < ntasks; i++ {
		if !table[i].live && table[i].panic == nil {
			id = i
			break
		}
	}
	if id < 0 {
		if ntasks >= maxTasks {
			return -1
		}
		id = ntasks
		ntasks++
	}
	table[id] = &task{wake: make(chan struct{}, 1), live: true, user: num == 0, num: num}
	nlive++
	if num > 0 {
		nharness++
	}
	return id
}

//go:norace
func finish(id int) {
	me := table[id]
	me.live = false
	nlive--
	spins = 0
	if !me.user {
		nharness--
		if nharness == 0 && joining != nil {
			turn = 0
			raceDisable()
			joining <- struct{}{}
			raceEnable()
			return
		}
	}
	t := pick(int32(id))
	nextGap()
	if t >= 0 {
		switches++
		schedHash = (schedHash ^ uint64(t+100)) * 1099511628211
		turn = t
		unpark(table[t])
	}
}

//go:norace
func setPanic(id int, p interface{}, stack string) {
	table[id].panic = p
	table[id].stack = stack
}

//go:norace
func stickPanic(p interface{}, stack string) {
	if _, ok := p.(Sticky); ok || sticky != nil {
		return
	}
	sticky = &Sticky{"panic", fmt.Sprintf("a goroutine panicked: %v", p)}
	GoroutineStack = stack
	setNext()
}

// GoroutineStack is where a goroutine of the code under test panicked.
var GoroutineStack string

// Go runs f as a task of its own, or natively outside of a simulation.
func Go(f func()) {
	if Free() || !running() {
		go f()
		return
	}
	Tick()
	id := newTask(0)
	if id < 0 {
		f()
		return
	}
	spawn(id, f)
	startConcurrency()
}

//go:norace
func startConcurrency() {
	concurrent = true
	if preemptAt == never {
		nextGap()
	}
}

//go:norace
func running() bool { return budget != never }

//go:norace
func taskOf(id int) *task { return table[id] }

func spawn(id int, f func()) {
	t := taskOf(id)
	if !t.user {
		wg.Add(1)
	}
	go func() {
		if !t.user {
			defer wg.Done()
		}
		park(t)
		defer finish(id)
		defer func() {
			if p := recover(); p != nil {
				buf := make([]byte, 8192)
				stack := string(buf[:runtime.Stack(buf, false)])
				if t.user {
					// natively, this ends the process
					stickPanic(p, stack)
				} else {
					setPanic(id, p, stack)
				}
			}
		}()
		raise()
		f()
	}()
}

// raise ends a task that starts when the run is already over.
//
//go:norace
func raise() {
	if sticky != nil {
		panic(*sticky)
	}
}

// TaskPanic is what a task died of.
type TaskPanic struct {
	Task  int
	Value interface{}
	Stack string
}

// joinTasks runs the other tasks until those of RunTasks have ended; task 0
// only waits.
//
//go:norace
func joinTasks() {
	if nharness > 0 {
		table[0].live = false
		nlive--
		joining = make(chan struct{}, 1)
		t := pick(0)
		nextGap()
		turn = t
		unpark(table[t])
		raceDisable()
		<-joining
		raceEnable()
		joining = nil
		table[0].live = true
		nlive++
	}
	if nlive == 1 {
		concurrent = false
		preemptAt = never
	}
	setNext()
}

//go:norace
func collectPanics() []TaskPanic {
	var out []TaskPanic
	for i := 1; i < ntasks; i++ {
		if table[i].panic != nil {
			out = append(out, TaskPanic{table[i].num, table[i].panic, table[i].stack})
			table[i].panic = nil
		}
	}
	shrink()
	return out
}

//go:norace
func shrink() {
	for ntasks > 1 && !table[ntasks-1].live {
		ntasks--
	}
}

// Drain lets the goroutines that the code under test left behind run to their
// end, or until all of them wait: those live on in the next run. If the run is
// over because of a violation they are ended. It returns the panic one of them
// died of, if any.
//
//go:norace
func Drain() *Sticky {
	if Free() || nlive <= 1 || turn != 0 || !running() {
		return nil
	}
	before := sticky
	if before == nil {
		budget = steps + 5_000_000
		setNext()
	}
	draining = true
	spins = 0
	for nlive > 1 && (sticky != nil || spins <= 4*nlive+64) {
		spins++
		others()
	}
	draining = false
	shrink()
	if s := sticky; before == nil && s != nil && s.Class == "panic" {
		return s
	}
	return nil
}

// Switches is the number of task switches of this run and a hash of them.
//
//go:norace
func Switches() (int, uint64) { return switches, schedHash }

// RunTasks runs the functions as concurrent tasks until all have ended.
func RunTasks(fs []func()) []TaskPanic {
	for i, f := range fs {
		id := newTask(i + 1)
		if Free() {
			f := f
			wg.Add(1)
			func() {
				defer wg.Done()
				defer release(id)
				defer func() {
					if p := recover(); p != nil {
						setPanic(id, p, "")
					}
				}()
				f()
			}()
			continue
		}
		spawn(id, f)
	}
	markConcurrent()
	if !Free() {
		joinTasks()
	}
	wg.Wait()
	return collectPanics()
}

//go:norace
func release(id int) { table[id].live = false; nlive--; nharness-- }

//go:norace
func markConcurrent() { concurrent = true }

// --- clock --------------------------------------------------------------

var clock time.Duration

// Now is simulated time: one microsecond per step plus time slept.
//
//go:norace
func Now() time.Time {
	if !running() {
		return time.Now()
	}
	return time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC).Add(clock + time.Duration(steps)*time.Microsecond)
}

// Since is time.Since in simulated time.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Sleep advances simulated time and lets other tasks run.
//
//go:norace
func Sleep(d time.Duration) {
	if !running() {
		time.Sleep(d)
		return
	}
	clock += d
	Yield()
}
