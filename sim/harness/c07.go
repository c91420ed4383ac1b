package main

import (
	"fmt"
)

func init() {
	scenarios["C07"] = c07
	plans["C07"] = Plan{Quick: 100000, Thorough: 1500000, Chunk: 150,
		Rule: "One run draws a file, compares what Write reported with what the sink accepted, what Read reported with both under drawn deliveries (sometimes followed by other bytes), then makes sink and source fail or the file end at up to 30 places and damages the file, and compares the counts reported on failure with the bytes actually accepted or handed out. Non-trivial: at least five counts compared; distinct by shape and stream traffic.",
	}
}

// C07: reported byte counts are truthful.
func c07(r *Run) {
	f := r.drawFile(fileOpts{small: !r.Chance(1, 6)})
	plain := f.v1 || !f.comp
	if !f.v1 && plain && f.n != len(f.data) {
		r.Fail("write-count", "Write reported %d bytes, the sink accepted %d", f.n, len(f.data))
	}
	if !f.v1 && r.Chance(1, 3) {
		// writing it to another kind of sink
		w := r.writer()
		sink, done := r.drawSink(w)
		rec := build(f.m)
		r.again()
		var n int
		r.pre("writing", func() (err error) { n, err = f.cfg.writer(sink).Write(rec); return err })
		done()
		r.evals++
		if plain && n != len(w.buf) {
			r.Fail("write-count", "Write to a %T reported %d bytes, the sink accepted %d", sink, n, len(w.buf))
		}
	}
	// reading the complete recording
	for i := 0; i < 2; i++ {
		data := f.data
		if r.Chance(1, 3) {
			data = append(append([]byte{}, data...), r.Sub().Bytes(1+r.Int(300))...)
			r.fault("trailing bytes")
		}
		d := r.drawStream()
		r.again()
		s := r.reader(data, d)
		var n int
		r.pre("reading", func() (err error) { _, n, err = f.cfg.reader(s.Stream()).Read(); return err })
		r.evals++
		if !f.v1 && n != f.n {
			r.Fail("read-count", "Read reported %d bytes, Write had reported %d (%s; %s)", n, f.n, f, d)
		}
		if plain && n != len(f.data) {
			r.Fail("read-count", "Read reported %d bytes of a file of %d (%s; %s)", n, len(f.data), f, d)
		}
	}
	max := 30
	if len(f.data) > 20000 {
		max = 8
	}
	if !f.v1 && plain {
		rec := build(f.m)
		for _, at := range r.offsets(len(f.data), max) {
			w := r.writer()
			w.failAt, w.failErr, w.partial, w.once = at, r.drawSinkError(), r.Int(3), r.Bool()
			sink := w.Sink(r.drawSinkKind())
			r.again()
			var n int
			var err error
			r.pre("writing", func() error { n, err = f.cfg.writer(sink).Write(rec); return nil })
			r.evals++
			if w.failed > 0 {
				r.fault("write error")
			}
			if n != len(w.buf) {
				r.Fail("write-count", "the sink failed at %d of %d bytes and accepted %d, Write reported %d (error %v)", at, len(f.data), len(w.buf), n, err)
			}
		}
	}
	if plain {
		for _, at := range r.offsets(len(f.data), max) {
			data, kind := f.data, "stream cut"
			mode := r.Int(4)
			switch mode {
			case 0:
				data = data[:at]
			case 3:
				data, kind = r.damaged(f, r.Sub()), "damage"
			default:
				kind = "read error"
			}
			s := r.reader(data, r.drawDelivery())
			if mode == 1 || mode == 2 {
				s.failAt, s.failErr, s.failWith = at, r.drawError(), mode == 2
			}
			r.fault(kind)
			r.again()
			r.limit(20_000_000, 64<<20)
			var n int
			var err error
			ok := func() (ok bool) {
				defer func() {
					if p := recover(); p != nil {
						if mode != 3 {
							panic(p)
						}
						ok = false // damage that crashes is not this property's business
					}
				}()
				_, n, err = f.cfg.reader(s.Stream()).Read()
				return true
			}
			var fine bool
			r.pre("reading", func() error {
				fine = ok()
				if !fine {
					return fmt.Errorf("crash on damaged input")
				}
				return nil
			})
			r.evals++
			if err != nil && (n > s.pos || n < 0) {
				r.Fail("failed-read-count", "%s at %d of %d bytes: Read was given %d bytes and reported %d (error %v)", kind, at, len(f.data), s.pos, n, err)
			}
		}
	}
	r.nontrivial = r.evals >= 5
}
