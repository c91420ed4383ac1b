package main

import (
	"fmt"

	rapio "github.com/recolude/rap/format/io"
)

func init() {
	scenarios["C03"] = c03
	plans["C03"] = Plan{Quick: 44000, Thorough: 700000, Chunk: 250,
		Rule: "One run draws a file (version 1, compressed or uncompressed version 2; sometimes truncated, damaged or followed by other bytes), loads it from a stream that hands over everything at once, and then from three to six streams with drawn deliveries (piece sizes, zero-length reads, end of file with or after the data, byte-level and seekable streams); result, failure and byte count must agree. Non-trivial: more than ten bytes; distinct by shape and by the sequence of reads.",
	}
}

// C03: loading does not depend on how the stream delivers.
func c03(r *Run) {
	f := r.drawFile(fileOpts{})
	data := f.data
	switch r.Pick(5, 2, 4, 1) {
	case 1:
		data = data[:r.Int(len(data)+1)]
		r.fault("truncation")
	case 2:
		data = r.damaged(f, r.Sub())
	case 3:
		data = append(append([]byte{}, data...), r.Sub().Bytes(1+r.Int(20))...)
		r.fault("trailing bytes")
	}
	useLoad := r.Chance(1, 8)
	load := func(s *SimReader) rapio.Reader { return f.cfg.reader(s.Stream()) }
	what := fmt.Sprintf("loading %d bytes", len(data))

	var ref outcome
	r.again()
	r.limit(20_000_000, 64<<20)
	r.pre("reading", func() (err error) {
		s := r.reader(data, Delivery{})
		s.quiet = true
		ref = rawLoad(load(s), s, useLoad)
		if ref.err == nil {
			ref.m, err = observe(ref.raw)
		}
		return err
	})
	r.note("reference: %d bytes counted, error %v", ref.n, ref.err)
	r.nontrivial = len(data) > 10
	k := 3 + r.Int(4)
	for i := 0; i < k; i++ {
		r.again()
		d := r.drawStream()
		r.note("%s", d)
		s := r.reader(data, d)
		var o outcome
		r.guard(what, func() {
			o = rawLoad(load(s), s, useLoad)
			if o.err == nil {
				var err error
				if o.m, err = observe(o.raw); err != nil {
					r.Fail("unusable", "%s, %s: %v", what, d, err)
				}
			}
		})
		r.evals++
		switch {
		case (o.err == nil) != (ref.err == nil):
			r.Fail("outcome", "%s gave error %v from a stream that delivers everything at once, but %v with %s", what, ref.err, o.err, d)
		case o.err != nil:
			continue
		case o.n != ref.n:
			r.Fail("count", "%s reported %d bytes from a stream that delivers everything at once, but %d with %s", what, ref.n, o.n, d)
		}
		if x := diff(ref.m, o.m, diffOpts{captures: true, strs: true}); x != "" {
			r.Fail("content", "%s differs from what a stream that delivers everything at once gave, with %s: %s", what, d, x)
		}
	}
}

func rawLoad(rd rapio.Reader, s *SimReader, useLoad bool) (o outcome) {
	if useLoad {
		o.raw, o.n, o.err = rapio.Load(s.Stream())
	} else {
		o.raw, o.n, o.err = rd.Read()
	}
	return o
}
