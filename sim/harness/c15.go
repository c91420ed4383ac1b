package main

import (
	"errors"
	"fmt"
	"io"
	"os"

	"github.com/recolude/rap/format"
	rapio "github.com/recolude/rap/format/io"
)

func init() {
	scenarios["C15"] = c15
	plans["C15"] = Plan{Quick: 40000, Thorough: 1000000, Chunk: 200,
		Rule: "One run stores one to five recordings (version 1, uncompressed and, last, compressed version 2), sends them over one simulated connection that stays open, with a drawn arrival schedule, and reads them one after the other. A read after everything has arrived would block for ever: it ends the run. In a second pass the connection delivers the bytes of each recording only once it is asked for. Non-trivial: at least one recording with content; distinct by shapes and by the sequence of reads.",
		Stub: []string{"a live stream that has no end and records what is asked of it"},
	}
}

// wire is a connection that stays open.
type wire struct {
	*SimReader
	allowed int // bytes that have been sent so far
	asked   int // reads that would have blocked
}

var errBlocked = errors.New("sim: nothing has been sent, the read would block")

func (w *wire) Read(b []byte) (int, error) {
	if len(b) > 0 && w.pos >= w.allowed {
		w.asked++
		if w.run != nil {
			w.run.event("blocked", len(b), 0, errBlocked)
		}
		return 0, errBlocked
	}
	full := w.data
	w.data = full[:w.allowed]
	n, err := w.SimReader.Read(b)
	w.data = full
	return n, err
}

type wireByte struct{ *wire }

func (w wireByte) ReadByte() (byte, error) {
	var b [1]byte
	for {
		n, err := w.wire.Read(b[:])
		if n == 1 {
			return b[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
}

// closingWire is a connection that is gone once it has been closed.
type closingWire struct {
	*wire
	closed bool
}

func (w *closingWire) Close() error { w.closed = true; return nil }
func (w *closingWire) Read(b []byte) (int, error) {
	if w.closed {
		return 0, os.ErrClosed
	}
	return w.wire.Read(b)
}

type plainWire struct{ w *wire }

func (p plainWire) Read(b []byte) (int, error) { return p.w.Read(b) }

func c15(r *Run) {
	k := 1 + r.Pick(4, 4, 2, 1, 1)
	var files []*File
	var all []byte
	var ends []int
	shape := uint64(0)
	desc := ""
	some := false
	for i := 0; i < k; i++ {
		f := r.drawFile(fileOpts{small: i > 0 || !r.Chance(1, 3)})
		if f.comp && i < k-1 {
			// what follows a compressed recording is out of reach: it is last
			f.cfg.Default, f.cfg.Compress = false, false
			if len(f.cfg.Order) == 4 {
				f.cfg = f.cfg.effective()
				f.cfg.Pos, f.cfg.Compress = posOct48, false
			}
			rec, seen := r.modelled(f.m)
			f.m = seen
			f.data, _ = r.stored(rec, f.cfg)
			f.comp = false
		}
		files = append(files, f)
		all = append(all, f.data...)
		ends = append(ends, len(all))
		shape = shape*31 + f.m.hash()
		desc += f.String() + "; "
		some = some || caps(f.m) > 0
	}
	r.shape, r.desc = shape, desc
	r.note("on the wire: %s", desc)
	r.nontrivial = some
	for pass := 0; pass < 2; pass++ {
		r.again()
		d := r.drawDelivery()
		d.Kind = r.Pick(4, 1, 1)
		r.note("%s", d)
		w := &wire{SimReader: r.reader(all, d)}
		w.live = true
		if pass == 0 {
			w.allowed = len(all)
		}
		closer := &closingWire{wire: w}
		for i, f := range files {
			if pass == 1 {
				w.allowed = ends[i]
			}
			rd := f.reader([]io.Reader{plainWire{w}, wireByte{w}, closer}[d.Kind])
			start := w.pos
			var o outcome
			what := fmt.Sprintf("recording %d of %d (%s)", i+1, k, f)
			r.guard("reading "+what, func() {
				o.raw, o.n, o.err = rd.Read()
			})
			r.evals++
			if w.asked > 0 || w.PastEnd > 0 {
				r.Fail("blocks", "%s: reading it asks for more than the connection has sent; at %d of %d bytes, after all %d of its own had been taken", what, w.pos-start, w.allowed-start, ends[i]-start)
			}
			if o.err != nil {
				r.Fail("read-failed", "%s: %v", what, o.err)
			}
			if w.pos > ends[i] || (w.pos < ends[i] && i < k-1) {
				r.Fail("misplaced", "%s: reading it took %d bytes of the connection, it has %d", what, w.pos-start, ends[i]-start)
			}
			r.guard("walking "+what, func() {
				var err error
				if o.m, err = observe(o.raw); err != nil {
					r.Fail("content", "%s: %v", what, err)
				}
			})
			if x := diff(f.m, o.m, diffOpts{}); x != "" {
				r.Fail("content", "%s: %s", what, x)
			}
			ref := r.alone(f)
			if x := diff(ref, o.m, diffOpts{captures: true}); x != "" {
				r.Fail("content", "%s differs from reading it alone: %s", what, x)
			}
			r.fold(o.m.describe())
		}
		r.fault("connection left open")
	}
}

// alone is what reading a file by itself gives.
func (r *Run) alone(f *File) *MRec {
	var m *MRec
	r.pre("reading alone", func() error {
		s := r.reader(f.data, Delivery{})
		s.quiet = true
		var rec format.Recording
		var err error
		if f.v1 || f.cfg.Default {
			rec, _, err = rapio.Load(plainReader{s})
		} else {
			rec, _, err = f.cfg.reader(plainReader{s}).Read()
		}
		if err != nil {
			return err
		}
		m, err = observe(rec)
		return err
	})
	return m
}

func (f *File) reader(in io.Reader) rapio.Reader {
	c := f.cfg
	if f.v1 {
		c = Config{Order: []int{kEvent, kPosition, kEuler, kEnum}, Pos: posOct48}
	}
	return c.reader(in)
}
