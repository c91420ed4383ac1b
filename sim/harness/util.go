package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"syscall"

	"github.com/recolude/rap/format"
	rapio "github.com/recolude/rap/format/io"
)

// outcome is what an attempt to load gave.
type outcome struct {
	raw format.Recording
	m   *MRec
	n   int
	err error
}

// write writes a recording to a healthy sink.
func (r *Run) write(what string, rec format.Recording, c Config) ([]byte, int, error) {
	w := r.writer()
	var n int
	var err error
	sink, done := r.drawSink(w)
	r.guard(what, func() { n, err = c.writer(sink).Write(rec) })
	done()
	return w.buf, n, err
}

// stored is write for properties that only presuppose a file.
func (r *Run) stored(rec format.Recording, c Config) ([]byte, int) {
	w := r.writer()
	w.quiet = true
	var n int
	r.pre("writing", func() (err error) {
		n, err = c.writer(w).Write(rec)
		return err
	})
	return w.buf, n
}

// load reads with the reader and walks the result.
func (r *Run) load(what string, rd rapio.Reader) outcome {
	var o outcome
	r.guard(what, func() {
		o.raw, o.n, o.err = rd.Read()
	})
	if o.err == nil {
		r.guard(what+" and walking the result", func() {
			var err error
			o.m, err = observe(o.raw)
			if err != nil {
				r.Fail("unusable", "%s: %v", what, err)
			}
		})
	}
	return o
}

// reference reads a file the simplest way, for properties that presuppose that
// this works.
func (r *Run) reference(data []byte, c Config) outcome {
	var o outcome
	r.pre("reading", func() error {
		rd := r.reader(data, Delivery{})
		rd.quiet = true
		o.raw, o.n, o.err = c.reader(rd.Stream()).Read()
		if o.err == nil {
			var err error
			o.m, err = observe(o.raw)
			return err
		}
		return nil
	})
	return o
}

// modelled builds a recording and what it shows.
func (r *Run) modelled(m *MRec) (format.Recording, *MRec) {
	var rec format.Recording
	var seen *MRec
	r.pre("building", func() error {
		rec = build(m)
		var err error
		seen, err = observe(rec)
		return err
	})
	r.shape = m.hash()
	r.desc = m.describe()
	r.note("recording: %s", r.desc)
	return rec, seen
}

func size(m *MRec) int {
	n := 0
	m.walk(func(x *MRec) { n += 1 + len(x.Cols) + len(x.Meta) + len(x.Bins) + len(x.Refs) })
	return n
}

// --- errors of simulated streams --------------------------------------------

type simError struct{ s string }

func (e *simError) Error() string { return e.s }

// Temporary and Timeout make it look like a network error.
func (e *simError) Temporary() bool { return true }
func (e *simError) Timeout() bool   { return true }

var errWrapped = errors.New("sim: device gone")

func (r *Run) drawError() error {
	switch r.Int(11) {
	case 6:
		return &os.PathError{Op: "read", Path: "/dev/x", Err: syscall.EINTR}
	case 7:
		return syscall.EAGAIN
	case 8:
		return os.ErrDeadlineExceeded
	case 9:
		return context.Canceled
	case 10:
		return os.ErrClosed
	case 0:
		return errors.New("sim: input/output error")
	case 1:
		return &simError{"sim: connection reset"}
	case 2:
		return io.ErrUnexpectedEOF // what a cut connection gives
	case 3:
		return &os.PathError{Op: "read", Path: "/dev/x", Err: syscall.EIO}
	case 4:
		return io.ErrClosedPipe
	}
	return fmt.Errorf("sim: read /dev/x: %w", errWrapped)
}

// drawSinkError draws what an output stream may fail with.
func (r *Run) drawSinkError() error {
	switch r.Int(9) {
	case 3:
		return &os.PathError{Op: "write", Path: "/dev/stdout", Err: syscall.EPIPE}
	case 0:
		return io.ErrShortWrite
	case 1:
		return io.EOF // the other end is gone
	case 2:
		return &os.PathError{Op: "write", Path: "/dev/x", Err: syscall.ENOSPC}
	}
	return r.drawError()
}

// offsets draws places in n bytes: all of them if there are few.
func (r *Run) offsets(n, max int) []int {
	var out []int
	if n+1 <= max {
		for i := 0; i <= n; i++ {
			out = append(out, i)
		}
		return out
	}
	g := r.Sub()
	seen := map[int]bool{}
	add := func(i int) {
		if i >= 0 && i <= n && !seen[i] {
			seen[i] = true
			out = append(out, i)
		}
	}
	for _, i := range []int{0, 1, 2, n, n - 1, n - 2, n - 5} {
		add(i)
	}
	for k := 0; len(out) < max && k < 4*max; k++ {
		switch g.Int(4) {
		case 0:
			add(g.Int(64))
		case 1:
			add(n - g.Int(64))
		case 2:
			b := 4096 * (1 + g.Int(1+n/4096))
			add(b - 1 + g.Int(3))
		default:
			add(g.Int(n + 1))
		}
	}
	return out
}
