package main

import (
	"errors"
	"fmt"
	"io"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/verifsim/simrt"
)

func init() {
	scenarios["C10"] = c10
	plans["C10"] = Plan{Quick: 100000, Thorough: 3000000, Chunk: 200,
		Rule: "One run draws a recording with binaries whose bytes come from simulated streams (drawn piece sizes, zero-length reads, end of file with the data, byte readers, seekers, writers-to; a new stream or the same one for every call of Data) and usually makes one or two of them misbehave: fail at a drawn byte (also after the last one, or together with the last bytes), end early, go on for too long, or declare a size that is wrong, zero or enormous. A write must store the bytes exactly or return an error, the stream's own if it had one. Non-trivial: always; distinct by shape and by the streams' traffic.",
		Stub: []string{"binaries (format.Binary) whose data are simulated streams"},
	}
}

// simWriterTo is a stream that prefers to write itself.
type simWriterTo struct{ *SimReader }

func (s simWriterTo) WriteTo(w io.Writer) (total int64, err error) {
	b := make([]byte, 1+s.d.rng.Int(5000))
	for {
		n, err := s.SimReader.Read(b)
		if n > 0 {
			m, werr := w.Write(b[:n])
			total += int64(m)
			if werr != nil {
				return total, werr
			}
			if m != n {
				return total, io.ErrShortWrite
			}
		}
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
}

// oneShot gives the same stream whenever it is asked for its data.
type oneShot struct {
	simBinary
	s io.Reader
}

func (b *oneShot) Data() io.Reader { return b.s }

type streamedBinary struct {
	simBinary
	make func() io.Reader
}

func (b *streamedBinary) Data() io.Reader { return b.make() }

const (
	bExact = iota
	bFailAt
	bFailWith
	bShort
	bLong
	bDeclaredMore
	bDeclaredLess
	bHuge
)

var binFault = []string{"", "binary stream fails", "binary stream fails together with bytes", "binary stream ends early", "binary stream too long", "declared size too large", "declared size too small", "enormous declared size"}

// c10: embedded binaries are stored exactly, or the write fails.
func c10(r *Run) {
	c := r.drawConfig()
	m := r.genRecording(genOpts{kinds: c.kinds(), small: !r.Chance(1, 20), binHeavy: true, huge: true})
	var all []*MBin
	m.walk(func(x *MRec) {
		for i := range x.Bins {
			all = append(all, &x.Bins[i])
		}
	})
	if r.Chance(1, 3) {
		b := all[r.Int(len(all))]
		b.Data = r.Sub().Bytes(r.OneOf(32767, 32768, 32769, 4096, 65536, 65537, 100000))
		b.Size = uint64(len(b.Data))
	}
	r.drawMapOrder()
	r.shape, r.desc = m.hash(), m.describe()+"; "+c.String()
	r.note("recording: %s", r.desc)

	faults := map[*MBin]int{}
	nf := r.Pick(3, 6, 1)
	for i := 0; i < nf; i++ {
		b := all[r.Int(len(all))]
		k := 1 + r.Int(len(binFault)-1)
		if (k == bShort || k == bDeclaredLess) && len(b.Data) == 0 {
			k = bFailAt
		}
		faults[b] = k
	}
	type made struct {
		err     error
		fault   int
		streams []*SimReader
	}
	mades := map[*MBin]*made{}
	bd := builder{binary: func(b *MBin) format.Binary {
		k := faults[b]
		mk := &made{fault: k}
		mades[b] = mk
		data, size := b.Data, uint64(len(b.Data))
		at := -1
		switch k {
		case bFailAt, bFailWith:
			at = len(data)
			if r.Chance(2, 3) {
				at = r.Int(len(data) + 1)
			}
			mk.err = r.drawError()
			r.fault(binFault[k])
			if r.Chance(1, 3) {
				size = uint64(at) // what it delivered is all it promised
			}
		case bShort:
			data = data[:r.Int(len(data))]
		case bLong:
			data = append(append([]byte{}, data...), r.Sub().Bytes(r.OneOf(1, 2, 300, 40000))...)
		case bDeclaredMore:
			size += uint64(r.OneOf(1, 2, 128, 40000))
		case bDeclaredLess:
			if r.Bool() {
				size--
			} else {
				size = 0
			}
		case bHuge:
			size = []uint64{1 << 31, 1 << 32, 1 << 40, 1<<63 - 1, 1 << 63, 1<<64 - 1, ^uint64(len(data)), 1<<32 + uint64(len(data))}[r.Int(8)]
			if size == uint64(len(data)) {
				size = 1 << 40
			}
		}
		if k >= bShort {
			r.fault(binFault[k])
		}
		d := r.drawStream()
		if d.Kind < streamFile || d.Kind == streamLimited && at >= 0 {
			// (a limited stream may end before it fails)
			d.Kind = r.Int(4)
		}
		stream := func() io.Reader {
			s := r.reader(data, d)
			if at >= 0 {
				s.failAt, s.failErr, s.failWith = at, mk.err, k == bFailWith
			}
			mk.streams = append(mk.streams, s)
			if d.Kind == 3 {
				return simWriterTo{s}
			}
			return s.Stream()
		}
		base := simBinary{run: r, name: b.Name, data: data, size: size, meta: buildBlock(b.Meta)}
		r.note("binary %s: %d bytes, declared %d, %s, %s", short(b.Name), len(data), size, binFault[k], d)
		if r.Bool() {
			return &oneShot{base, stream()}
		}
		return &streamedBinary{base, stream}
	}}
	var rec format.Recording
	r.pre("building", func() error { rec = bd.rec(m); return nil })
	r.again()
	r.limit(50_000_000, 256<<20)
	w := r.writer()
	sink := w.Sink(r.drawSinkKind())
	var err error
	r.guard("writing a recording with streamed binaries", func() { _, err = c.writer(sink).Write(rec) })
	r.evals++
	r.nontrivial = true
	r.fold(fmt.Sprint(err))
	if len(faults) > 0 {
		if err == nil {
			var why string
			for _, k := range faults {
				why += binFault[k] + "; "
			}
			r.Fail("success", "Write reported success although: %s", why)
		}
		// the error of a stream that failed, unless another binary was wrong
		own := false
		for _, mk := range mades {
			failed := false
			for _, s := range mk.streams {
				failed = failed || s.failed > 0
			}
			if mk.fault > bFailWith || (failed && errors.Is(err, mk.err)) {
				own = true
			}
		}
		if !own {
			hit := false
			for _, mk := range mades {
				for _, s := range mk.streams {
					hit = hit || s.failed > 0
				}
			}
			if hit {
				r.Fail("other-error", "a binary's stream failed, but Write reported %q", err)
			}
			// refused for another reason before the stream failed: that the
			// size can not be right, say
		}
		return
	}
	if err != nil {
		r.Fail("spurious", "every binary delivered what it declared, but Write reported %v", err)
	}
	if !r.large {
		simrt.SetBudget(200_000_000)
	}
	o := r.load("reading back streamed binaries", c.reader(plainReader{r.reader(w.buf, Delivery{})}))
	if o.err != nil {
		r.Fail("content", "a written recording with streamed binaries can not be read: %v", o.err)
	}
	var got []*MBin
	o.m.walk(func(x *MRec) {
		for i := range x.Bins {
			got = append(got, &x.Bins[i])
		}
	})
	want := &MRec{}
	have := &MRec{}
	for _, b := range all {
		want.Bins = append(want.Bins, *b)
	}
	for _, b := range got {
		have.Bins = append(have.Bins, *b)
	}
	if x := diff(want, have, diffOpts{}); x != "" {
		r.Fail("content", "after writing and reading streamed binaries: %s", x)
	}
}
