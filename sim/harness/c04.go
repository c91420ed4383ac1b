package main

import (
	"errors"
)

func init() {
	scenarios["C04"] = c04
	plans["C04"] = Plan{Quick: 60000, Thorough: 800000, Chunk: 100,
		Rule: "One run draws a file and up to 60 places in it (every place of a file shorter than 60 bytes; otherwise both ends, 4096-byte boundaries and drawn places). At each the stream ends or fails for good, fails once and then goes on, or fails together with its last bytes, under a drawn delivery. Every attempt must give an error and no recording, or exactly what was stored. Non-trivial: at least ten interrupted attempts; distinct by shape and by the sequence of reads.",
	}
}

// C04: interrupted input is never mistaken for complete.
func c04(r *Run) {
	f := r.drawFile(fileOpts{small: !r.Chance(1, 6)})
	r.again()
	ref := r.reference(f.data, f.cfg)
	if ref.err != nil {
		r.skip("an intact file does not load")
	}
	if !f.v1 {
		if x := diff(f.m, ref.m, diffOpts{}); x != "" {
			r.skip("an intact file loads differently: " + x)
		}
	}
	max := 60
	if len(f.data) > 20000 {
		max = 14
	}
	for _, at := range r.offsets(len(f.data), max) {
		mode := r.Int(4)
		d := r.drawStream()
		r.again()
		var s *SimReader
		kind := "stream cut"
		if mode == 0 {
			s = r.reader(f.data[:at], d)
		} else {
			s = r.reader(f.data, d)
			s.failAt, s.failErr = at, r.drawError()
			kind = "read error"
			switch mode {
			case 2:
				s.failWith = true
				kind = "read error with data"
			case 3:
				s.failOnce = true
				kind = "transient read error"
			}
		}
		r.fault(kind)
		r.note("%s at %d of %d; %s", kind, at, len(f.data), d)
		var o outcome
		r.guard("loading", func() { o.raw, o.n, o.err = f.cfg.reader(s.Stream()).Read() })
		r.evals++
		if o.err != nil {
			if !isNil(o.raw) {
				r.Fail("recording-with-error", "%s at %d of %d bytes: an error (%v) and a recording", kind, at, len(f.data), o.err)
			}
			if s.failed > 0 && !errors.Is(o.err, s.failErr) {
				r.Fail("other-error", "%s at %d of %d bytes: the stream failed with %q, loading with %q", kind, at, len(f.data), s.failErr, o.err)
			}
			continue
		}
		r.guard("walking the result", func() {
			var err error
			if o.m, err = observe(o.raw); err != nil {
				r.Fail("unusable", "%s at %d of %d bytes: %v", kind, at, len(f.data), err)
			}
		})
		if x := diff(ref.m, o.m, diffOpts{captures: true, strs: true}); x != "" {
			r.Fail("incomplete", "%s at %d of %d bytes was not reported and the recording differs: %s", kind, at, len(f.data), x)
		}
	}
	r.nontrivial = r.evals >= 10
}
