package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/encoding"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/verifsim/simrt"
)

func init() {
	scenarios["C21"] = c21
	plans["C21"] = Plan{Quick: 70000, Thorough: 900000, Chunk: 100,
		Rule: "One run draws two to six programs and connections of bounded capacity between them (a chain that passes recordings on, a dialogue, clients of one server, an exchange in both directions), what each program sends (recordings of its own, version 1 files, files of the earlier release, what it received, whole or sliced) and with which codecs; the programs share recordings and codec values, and a seeded scheduler runs them with preemption between statements of rap's code and at every full or empty connection. In one run in two, connections break after a drawn number of bytes, or programs die; then all programs are run again over new connections. Non-trivial: at least two recordings arrived and the schedule switched between programs; distinct by shapes and by schedule.",
		Real: []string{"rap's readers and writers at both ends of every connection"},
		Stub: []string{"connections (bounded, fragmenting, breakable)", "goroutine scheduler", "earlier release of rap (model of its version 2 format)", "version 1 encoder"},
	}
}

// link is one direction of a connection.
type link struct {
	name    string
	cap     int
	piece   int // a write is taken in pieces of at most this size
	d       Delivery
	buf     []byte
	log     []byte
	breakAt int  // breaks after this many bytes (-1: never)
	lose    bool // what is on its way is lost then
	werr    error
	rerr    error
	broken  bool
	along   []*link // break at the same moment
	closedW bool
	closedR bool
	sent    []*parcel
	got     []*arrival
	zeros   int
	waits   int
	// what the connection answered its users
	failedW, failedR error
}

// parcel is a recording on its way.
type parcel struct {
	what       string
	m          *MRec
	cfg        Config
	codecs     []encoding.Encoder
	raw        []byte // not written by rap
	old        bool
	slack      []loose
	start, end int
	n          int
	err        error
}

type arrival struct {
	rec format.Recording
	m   *MRec
	n   int
	err error
}

func (l *link) snap() {
	if !l.broken {
		l.broken = true
		if l.lose {
			l.buf = nil
		}
		simrt.Progress()
	}
}

func (l *link) Write(b []byte) (n int, err error) {
	defer func() {
		if err != nil {
			l.failedW = err
		}
	}()
	for len(b) > 0 {
		simrt.Tick()
		if l.breakAt >= 0 && len(l.log) >= l.breakAt {
			l.snap()
			for _, x := range l.along {
				x.snap()
			}
		}
		switch {
		case l.broken:
			return n, l.werr
		case l.closedR || l.closedW:
			return n, io.ErrClosedPipe
		}
		k := l.cap - len(l.buf)
		if k > len(b) {
			k = len(b)
		}
		if k > l.piece {
			k = l.piece
		}
		if l.breakAt >= 0 && k > l.breakAt-len(l.log) {
			k = l.breakAt - len(l.log)
		}
		if k <= 0 {
			l.waits++
			simrt.Block("a connection is full")
			continue
		}
		l.buf = append(l.buf, b[:k]...)
		l.log = append(l.log, b[:k]...)
		b = b[k:]
		n += k
		simrt.Progress()
	}
	return n, nil
}

func (l *link) Read(b []byte) (n int, err error) {
	defer func() {
		if err != nil {
			l.failedR = err
		}
	}()
	for {
		simrt.Tick()
		if len(b) == 0 {
			return 0, nil
		}
		if l.d.Zeros > 0 && l.zeros < 3 && l.d.rng.Int(l.d.Zeros) == 1 {
			l.zeros++
			return 0, nil
		}
		if n := len(l.buf); n > 0 {
			l.zeros = 0
			switch l.d.Mode {
			case 1:
				n = 1
			case 2:
				if n > l.d.Max {
					n = l.d.Max
				}
			case 3:
				if k := 1 + l.d.rng.Int(l.d.Max); n > k {
					n = k
				}
			}
			if n > len(b) {
				n = len(b)
			}
			copy(b, l.buf[:n])
			l.buf = l.buf[n:]
			simrt.Progress()
			return n, nil
		}
		switch {
		case l.broken:
			return 0, l.rerr
		case l.closedR:
			return 0, os.ErrClosed
		case l.closedW:
			return 0, io.EOF
		}
		l.waits++
		simrt.Block("a connection is empty")
	}
}

// step is what a program does next.
type step struct {
	link    int
	recv    bool
	forward bool // send what was received last
	own     int  // or a recording of its own
	slice   bool
	lo, hi  float64
	keep    bool
	cfg     Config
	codecs  []encoding.Encoder
	raw     []byte // or a file written by somebody else
	old     bool
	m       *MRec
	slack   []loose
}

func (s step) String() string {
	x := ""
	if s.cfg.Compress {
		x = " compressed"
	}
	switch {
	case s.recv:
		return fmt.Sprintf("receive from %d", s.link)
	case s.forward && s.slice:
		return fmt.Sprintf("send a slice of what arrived to %d%s", s.link, x)
	case s.forward:
		return fmt.Sprintf("send what arrived to %d%s", s.link, x)
	case s.old:
		return fmt.Sprintf("send a file of the earlier release to %d%s", s.link, x)
	case s.raw != nil:
		return fmt.Sprintf("send a version 1 file to %d", s.link)
	}
	return fmt.Sprintf("send recording %d to %d%s", s.own, s.link, x)
}

type program struct {
	steps   []step
	in, out []int // links it reads from, writes to
	dieAt   int   // before this step (-1: never)
	stays   bool  // keeps its connections open in the end
	failed  error
	done    bool
}

type talk struct {
	links []*link
	progs []*program
	recs  []format.Recording
	ms    []*MRec
}

func (t *talk) add(p *program) *program {
	p.dieAt = -1
	t.progs = append(t.progs, p)
	return p
}

func (t *talk) run(p *program) {
	leave := func() {
		for _, i := range p.out {
			t.links[i].closedW = true
		}
		for _, i := range p.in {
			t.links[i].closedR = true
		}
		simrt.Progress()
	}
	var last format.Recording
	for i, s := range p.steps {
		if i == p.dieAt {
			p.failed = errors.New("killed")
			leave()
			return
		}
		l := t.links[s.link]
		if s.recv {
			a := &arrival{}
			a.rec, a.n, a.err = rapio.NewReader(s.codecs, l.reader()).Read()
			if a.err == nil {
				a.m, a.err = observe(a.rec)
				if a.err != nil {
					a.err = fmt.Errorf("unusable: %w", a.err)
				}
			}
			l.got = append(l.got, a)
			if a.err != nil {
				p.failed = a.err
				leave()
				return
			}
			last = a.rec
			continue
		}
		o := &parcel{what: s.String(), cfg: s.cfg, codecs: s.codecs, start: len(l.log), raw: s.raw, old: s.old, m: s.m, slack: s.slack}
		if s.raw != nil {
			l.sent = append(l.sent, o)
			o.n, o.err = l.Write(s.raw)
		} else {
			rec := last
			if !s.forward {
				rec = t.recs[s.own]
			}
			if s.slice {
				rec = format.Slice(rec, format.BeginningOfSlice(s.lo), format.EndOfSlice(s.hi), format.KeepBinariesInSlice(s.keep))
			}
			o.m, o.err = observe(rec)
			l.sent = append(l.sent, o)
			if o.err == nil {
				o.n, o.err = rapio.NewWriter(s.codecs, s.cfg.Compress, l.writer(), s.cfg.Time).Write(rec)
			}
		}
		o.end = len(l.log)
		if o.err != nil {
			p.failed = o.err
			leave()
			return
		}
	}
	p.done = true
	if !p.stays {
		// (whoever sends to it may still be busy with what no one needs)
		for _, i := range p.out {
			t.links[i].closedW = true
		}
		simrt.Progress()
	}
}

type linkReader struct{ l *link }

func (x linkReader) Read(b []byte) (int, error) { return x.l.Read(b) }

type linkConn struct{ *link } // reads, writes and closes

func (x linkConn) Close() error {
	x.link.closedR, x.link.closedW = true, true
	simrt.Progress()
	return nil
}

type linkWriter struct{ l *link }

func (x linkWriter) Write(b []byte) (int, error) { return x.l.Write(b) }

func (l *link) reader() io.Reader {
	if l.d.Kind == 4 {
		return linkConn{l}
	}
	return linkReader{l}
}

func (l *link) writer() io.Writer {
	if l.d.Kind == 4 {
		return linkConn{l}
	}
	return linkWriter{l}
}

// c21: programs exchange recordings over connections.
func c21(r *Run) {
	kinds := []int{kPosition, kEuler, kEvent, kEnum, kFloat}
	nrec := 1 + r.Int(3)
	var ms []*MRec
	shape := uint64(7)
	for i := 0; i < nrec; i++ {
		m := r.genRecording(genOpts{kinds: kinds, small: !r.Chance(1, 15)})
		ms = append(ms, m)
		shape = shape*31 + m.hash()
		r.desc += m.describe() + "; "
	}
	var cfgs []Config
	var codecs [][]encoding.Encoder
	for i := 0; i < 1+r.Int(3); i++ {
		c := r.drawConfig()
		c.Default, c.Third, c.Sig, c.Ver = false, 0, "", 0
		c.Order = append([]int{}, kinds...)
		for j := range c.Order {
			k := j + r.Int(len(c.Order)-j)
			c.Order[j], c.Order[k] = c.Order[k], c.Order[j]
		}
		cfgs = append(cfgs, c)
		codecs = append(codecs, c.encoders())
	}
	r.drawMapOrder()
	r.shape = shape

	t := &talk{ms: ms}
	newLink := func() int {
		t.links = append(t.links, &link{})
		return len(t.links) - 1
	}
	send := func(link int, forward bool) step {
		k := r.Int(len(cfgs))
		s := step{link: link, cfg: cfgs[k], codecs: codecs[k]}
		switch r.Pick(6, 1, 1) {
		case 1:
			if !forward {
				v := r.genV1(true)
				s.raw, s.m = v.file(r.OneOf(6, 9, 1, 0)), v.loaded()
				return s
			}
		case 2:
			if !forward {
				s.old = true
				s.own = r.Int(len(ms))
				return s
			}
		}
		s.forward = forward
		s.own = r.Int(len(ms))
		if r.Chance(1, 4) {
			s.slice, s.keep = true, r.Bool()
			s.lo, s.hi = sliceBounds(r, ms[r.Int(len(ms))])
		}
		return s
	}
	recv := func(link int) step { return step{link: link, recv: true, codecs: codecs[r.Int(len(codecs))]} }
	full := false // connections have to hold what a program sends before it listens
	var shapeName string
	n := 1 + r.Pick(3, 3, 2, 1)
	switch r.Pick(4, 3, 3, 2) {
	case 0:
		shapeName = "chain"
		k := 2 + r.Pick(3, 3, 1)
		for i := 0; i+1 < k; i++ {
			newLink()
		}
		for i := 0; i < k; i++ {
			p := t.add(&program{})
			if i > 0 {
				p.in = []int{i - 1}
			}
			if i+1 < k {
				p.out = []int{i}
			}
			for j := 0; j < n; j++ {
				if i > 0 {
					p.steps = append(p.steps, recv(i-1))
				}
				if i+1 < k {
					p.steps = append(p.steps, send(i, i > 0))
				}
			}
		}
	case 1:
		shapeName = "dialogue"
		a, b := newLink(), newLink()
		p := t.add(&program{in: []int{b}, out: []int{a}})
		q := t.add(&program{in: []int{a}, out: []int{b}})
		for j := 0; j < n; j++ {
			p.steps = append(p.steps, send(a, j > 0 && r.Bool()), recv(b))
			q.steps = append(q.steps, recv(a), send(b, r.Chance(2, 3)))
		}
	case 2:
		shapeName = "server"
		for i := 2 + r.Int(2); i > 0; i-- {
			a, b := newLink(), newLink()
			p := t.add(&program{in: []int{b}, out: []int{a}})
			q := t.add(&program{in: []int{a}, out: []int{b}})
			for j := 0; j < 1+n/2; j++ {
				p.steps = append(p.steps, send(a, false), recv(b))
				q.steps = append(q.steps, recv(a), send(b, r.Bool()))
			}
		}
	case 3:
		shapeName = "exchange"
		a, b := newLink(), newLink()
		if r.Bool() {
			// each side has a program that sends and one that listens
			for _, x := range [][2]int{{a, b}, {b, a}} {
				p := t.add(&program{out: []int{x[0]}})
				q := t.add(&program{in: []int{x[1]}})
				for j := 0; j < n; j++ {
					p.steps = append(p.steps, send(x[0], false))
					q.steps = append(q.steps, recv(x[1]))
				}
			}
		} else {
			full = true
			for _, x := range [][2]int{{a, b}, {b, a}} {
				p := t.add(&program{out: []int{x[0]}, in: []int{x[1]}})
				for j := 0; j < n; j++ {
					p.steps = append(p.steps, send(x[0], false), recv(x[1]))
				}
			}
		}
	}
	// nothing can follow a compressed recording
	lastOn := map[int]*step{}
	for _, p := range t.progs {
		for i := range p.steps {
			if s := &p.steps[i]; !s.recv {
				lastOn[s.link] = s
			}
		}
	}
	squeezed := map[int]bool{}
	for _, p := range t.progs {
		for i := range p.steps {
			s := &p.steps[i]
			if s.recv {
				continue
			}
			if lastOn[s.link] != s {
				s.cfg.Compress = false
			}
			squeezed[s.link] = squeezed[s.link] || s.cfg.Compress
			if s.old {
				s.raw = oldWrite(ms[s.own], s.cfg, r.Sub())
				var err error
				if s.m, s.slack, err = oldRead(s.raw); err != nil {
					panic("harness: the model can not read its own file: " + err.Error())
				}
			}
		}
		p.stays = r.Bool()
	}
	for i, l := range t.links {
		l.name = fmt.Sprint("connection ", i)
		l.cap = r.OneOf(4096, 1, 7, 64, 700, 65536)
		if squeezed[i] && l.cap < 700 {
			l.cap = 700 // the end of a compressed file need not be taken
		}
		if full {
			l.cap = 1 << 30
		}
		l.piece = r.OneOf(1<<20, 1, 3, 100)
		l.d = r.drawDelivery()
		l.breakAt = -1
		r.note("%s: holds %d, %s", l.name, l.cap, l.d)
	}
	for i, p := range t.progs {
		for _, s := range p.steps {
			r.note("program %d: %s", i+1, s)
		}
	}
	r.note("%s of %d programs; %s", shapeName, len(t.progs), r.desc)
	faulty := r.Bool()
	if faulty {
		for k := 1 + r.Int(2); k > 0; k-- {
			if r.Chance(1, 4) {
				p := t.progs[r.Int(len(t.progs))]
				p.dieAt = r.Int(len(p.steps))
				r.fault("a program dies between two steps")
				continue
			}
			l := t.links[r.Int(len(t.links))]
			switch r.Int(4) {
			case 0:
				l.breakAt = r.Int(60)
			case 1:
				l.breakAt = r.Int(700)
			case 2:
				l.breakAt = r.Int(3000)
			case 3:
				l.breakAt = r.Int(20000)
			}
			l.lose = r.Bool()
			l.werr, l.rerr = r.drawSinkError(), r.drawError()
			what := "a connection breaks"
			if r.Bool() {
				what = "a program dies while it sends"
				for _, p := range t.progs {
					if len(p.out) > 0 && t.links[p.out[0]] == l {
						for _, i := range append(append([]int{}, p.in...), p.out...) {
							if x := t.links[i]; x != l {
								x.lose = r.Bool()
								x.werr, x.rerr = r.drawSinkError(), r.drawError()
								l.along = append(l.along, x)
							}
						}
					}
				}
			}
			r.fault(what)
			r.note("%s: %s after %d bytes; %v / %v, what is on its way is lost: %v", what, l.name, l.breakAt, l.werr, l.rerr, l.lose)
		}
	}
	gap := uint64(r.OneOf(2000, 300, 40, 20000))
	r.pre("building", func() error {
		for _, m := range ms {
			t.recs = append(t.recs, build(m))
		}
		return nil
	})
	arrived := r.converse(t, gap, faulty, "")
	if faulty {
		// all again over new connections
		u := &talk{recs: t.recs, ms: ms}
		for _, l := range t.links {
			u.links = append(u.links, &link{name: l.name, cap: l.cap, piece: l.piece, d: l.d, breakAt: -1})
		}
		for _, p := range t.progs {
			u.add(&program{steps: p.steps, in: p.in, out: p.out, stays: p.stays})
		}
		r.note("and again over new connections")
		arrived += r.converse(u, gap, false, " (after connecting again)")
	}
	r.nontrivial = arrived >= 2 && r.switches > 1
}

// converse runs the programs and judges what arrived.
func (r *Run) converse(t *talk, gap uint64, faulty bool, again string) int {
	r.begin(simrt.Config{GapMean: gap})
	if simrt.Free() {
		// goroutines are not simulated: the programs can not take turns
		r.skip("goroutines are not simulated")
	}
	r.reserveSched()
	r.muted = true
	var fs []func()
	for _, p := range t.progs {
		p := p
		fs = append(fs, func() { t.run(p) })
	}
	panics := simrt.RunTasks(fs)
	n, sh := simrt.Switches()
	r.muted = false
	r.scheds = append(r.scheds, sh)
	r.switches += n
	r.hash ^= sh
	r.note("%d switches, schedule %016x", n, sh)
	if st := simrt.Stuck(); st != nil {
		for i, p := range t.progs {
			if !p.done {
				r.note("program %d has not ended", i+1)
			}
		}
		r.Fail(st.Class, "programs that exchange recordings%s: %s", again, st.Msg)
	}
	for _, p := range panics {
		r.note("%s", p.Stack)
		r.Fail("panic", "program %d panicked%s: %v%s", p.Task, again, p.Value, where(p.Stack))
	}
	if !faulty {
		for i, p := range t.progs {
			if p.failed != nil {
				r.note("program %d failed: %v", i+1, p.failed)
			}
		}
		for i, p := range t.progs {
			if p.failed != nil {
				r.Fail("failed", "program %d failed though nothing went wrong%s: %v", i+1, again, p.failed)
			}
		}
	}
	arrived := 0
	for _, l := range t.links {
		for i, o := range l.sent {
			what := fmt.Sprintf("%s, recording %d (%s)%s", l.name, i+1, o.what, again)
			r.evals++
			switch {
			case o.err == nil:
				if o.raw == nil && !o.cfg.Compress && o.n != o.end-o.start {
					r.Fail("count", "%s: Write reported %d bytes, the connection took %d", what, o.n, o.end-o.start)
				}
			case l.failedW == nil:
				r.Fail("failed", "%s: Write failed though the connection was fine: %v", what, o.err)
			case !errors.Is(o.err, l.failedW):
				r.Fail("other-error", "%s: the connection failed with %v, Write with %v", what, l.failedW, o.err)
			}
			if i >= len(l.got) {
				continue
			}
			a := l.got[i]
			if a.err != nil {
				continue
			}
			arrived++
			if o.m == nil {
				r.Fail("content", "%s: something arrived that was not sent", what)
			}
			c := o.cfg
			if o.raw != nil && !o.old {
				if x := diff(o.m, a.m, diffOpts{captures: true}); x != "" {
					r.Fail("content", "%s: %s", what, x)
				}
			} else {
				if x := diff(o.m, a.m, diffOpts{}); x != "" {
					r.Fail("content", "%s: %s", what, x)
				}
				x := ""
				if o.old {
					x = diffUnderstood(o.m, a.m, o.slack)
				} else {
					x = diffCaptures(o.m, a.m, c, "recording")
				}
				if x != "" {
					r.Fail("content", "%s: %s", what, x)
				}
			}
			if o.err == nil {
				var alone *MRec
				r.again()
				r.pre("reading alone", func() error {
					rec, _, err := rapio.NewReader(c.encoders(), bytes.NewReader(l.log[o.start:o.end])).Read()
					if err != nil {
						return err
					}
					alone, err = observe(rec)
					return err
				})
				if x := diff(alone, a.m, diffOpts{captures: true, strs: true}); x != "" {
					r.Fail("content", "%s differs from reading it alone: %s", what, x)
				}
			}
			r.fold(a.m.describe())
		}
		for i, a := range l.got {
			what := fmt.Sprintf("%s, recording %d%s", l.name, i+1, again)
			r.evals++
			switch {
			case a.err == nil:
				if i >= len(l.sent) {
					r.Fail("content", "%s: something arrived that was not sent", what)
				}
			case l.failedR == nil:
				r.Fail("failed", "%s: Read failed though the connection was fine: %v", what, a.err)
			case !isNil(a.rec):
				r.Fail("content", "%s: Read failed and returned a recording: %v", what, a.err)
			case !errors.Is(l.failedR, io.EOF) && !errors.Is(l.failedR, io.ErrUnexpectedEOF) && !errors.Is(a.err, l.failedR):
				r.Fail("other-error", "%s: the connection failed with %v, Read with %v", what, l.failedR, a.err)
			}
		}
		if !faulty && len(l.got) != len(l.sent) {
			r.Fail("content", "%s%s: %d recordings were sent and %d arrived", l.name, again, len(l.sent), len(l.got))
		}
	}
	return arrived
}
