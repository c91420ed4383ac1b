package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"strings"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/encoding"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/format/metadata"
)

func init() {
	scenarios["C08"] = c08
	plans["C08"] = Plan{Quick: 26000, Thorough: 300000, Chunk: 100,
		Rule: "One run draws one to three recordings (built from parts, loaded from version 1 and version 2 files), one or two sets of codec values, writers and readers over them, records what each write, load and measurement gives when it is the first thing that happens, and then performs six to thirty operations on the shared values, about half of them made to fail by a sink, a source, damage, a codec or a binary. Every healthy operation must give what it gave at first and no recording may change. Non-trivial: a healthy operation was compared after one that failed; distinct by shapes and by everything that crossed the streams.",
		Stub: []string{"codecs and binaries that fail on demand"},
	}
}

// swStream is a stream that can be exchanged under a reader or writer.
// It is its owner's to close.
type swStream struct {
	w      io.Writer
	r      io.Reader
	closed bool
}

func (s *swStream) Close() error { s.closed = true; return nil }
func (s *swStream) Write(b []byte) (int, error) {
	if s.closed {
		return 0, os.ErrClosed
	}
	return s.w.Write(b)
}
func (s *swStream) Read(b []byte) (int, error) {
	if s.closed {
		return 0, os.ErrClosed
	}
	return s.r.Read(b)
}

// openData is a binary's data that somebody is in the middle of reading.
type openData struct {
	r    io.Reader
	data []byte
	got  int
	what string
}

// step reads up to n bytes more and compares.
func (o *openData) step(n int) string {
	buf := make([]byte, n)
	k, err := io.ReadFull(o.r, buf)
	if o.got+k > len(o.data) || !bytes.Equal(buf[:k], o.data[o.got:o.got+k]) {
		return fmt.Sprintf("%d bytes at %d of %s, which somebody is reading, are others now", k, o.got, o.what)
	}
	o.got += k
	if err != nil && o.got < len(o.data) {
		return fmt.Sprintf("%s, which somebody is reading, ends at %d of %d bytes (%v)", o.what, o.got, len(o.data), err)
	}
	return ""
}

// ownBinaries are the binaries of rap's own in a tree.
func ownBinaries(rec format.Recording) []format.Binary {
	var out []format.Binary
	for _, b := range rec.Binaries() {
		if _, sim := b.(*simBinary); !sim {
			out = append(out, b)
		}
	}
	for _, x := range rec.Recordings() {
		out = append(out, ownBinaries(x)...)
	}
	return out
}

// trip makes codecs fail.
type trip struct {
	left int // calls until the failure (-1: never)
	err  error
	hit  bool
}

func (t *trip) now() bool {
	if t.left < 0 {
		return false
	}
	t.left--
	if t.left < 0 {
		t.hit = true
		return true
	}
	return false
}

// trippable is a codec that can be made to fail, early or late in its work.
type trippable struct {
	encoding.Encoder
	t    *trip
	late bool
}

func (c trippable) Encode(cols []format.CaptureCollection) ([]byte, [][]byte, error) {
	fail := c.t.now()
	if fail && !c.late {
		return nil, nil, c.t.err
	}
	h, d, err := c.Encoder.Encode(cols)
	if fail {
		return nil, nil, c.t.err
	}
	return h, d, err
}

func (c trippable) Decode(name string, header, data []byte, times []float64) (format.CaptureCollection, error) {
	fail := c.t.now()
	if fail && !c.late {
		return nil, c.t.err
	}
	col, err := c.Encoder.Decode(name, header, data, times)
	if fail {
		return nil, c.t.err
	}
	return col, err
}

// simBinary is a binary whose bytes come from a simulated stream.
type simBinary struct {
	run  *Run
	name string
	data []byte
	size uint64
	meta metadata.Block
	d    Delivery
	t    *trip // fails when tripped
	at   int
}

func (b *simBinary) Name() string             { return b.name }
func (b *simBinary) Size() uint64             { return b.size }
func (b *simBinary) Metadata() metadata.Block { return b.meta }
func (b *simBinary) Data() io.Reader {
	d := b.d
	if d.rng != nil { // the same every time
		rng := *d.rng
		d.rng = &rng
	}
	s := b.run.reader(b.data, d) // run may be nil
	s.quiet = true
	if b.t != nil && b.t.now() {
		s.failAt, s.failErr = b.at%(len(b.data)+1), b.t.err
	}
	if d.Kind == 3 {
		return simWriterTo{s}
	}
	return s.Stream()
}

type pooled struct {
	rec   format.Recording
	m     *MRec // what it showed when it was obtained
	kinds map[int]bool
	how   string
	binT  *trip
}

type setup struct {
	cfg    Config
	encs   []encoding.Encoder
	codecT *trip
	out    *swStream
	in     *swStream
	w      rapio.Writer
	rd     rapio.Reader
}

func kindsOf(m *MRec) map[int]bool {
	k := map[int]bool{}
	m.walk(func(x *MRec) {
		for _, c := range x.Cols {
			k[c.Kind] = true
		}
	})
	return k
}

func (s *setup) handles(k map[int]bool) bool {
	have := map[int]bool{}
	for _, x := range s.cfg.kinds() {
		have[x] = true
	}
	for x := range k {
		if !have[x] {
			return false
		}
	}
	return true
}

// c08: no operation, failed or not, leaves a trace.
func c08(r *Run) {
	var pool []*pooled
	var setups []*setup
	var files []*File
	fileWants := map[int]outcome{}
	drawn := false
	once := func() {
		if !drawn {
			drawn = true
			r.drawMapOrder()
		}
	}

	// workload
	ns := 1 + r.Int(2)
	for i := 0; i < ns; i++ {
		s := &setup{cfg: r.drawConfig(), codecT: &trip{left: -1}, out: &swStream{}, in: &swStream{}}
		base := s.cfg.encoders()
		for _, e := range base {
			s.encs = append(s.encs, trippable{e, s.codecT, r.Bool()})
		}
		if s.cfg.Default && r.Bool() {
			s.w = rapio.NewRecoludeWriter(s.out)
		} else if s.cfg.Default {
			e := s.cfg.effective()
			s.w = rapio.NewWriter(wrapAll(e.encoders(), s.codecT), true, s.out, e.Time)
		} else {
			s.w = rapio.NewWriter(s.encs, s.cfg.Compress, s.out, s.cfg.Time)
		}
		s.rd = rapio.NewReader(s.encs, s.in)
		setups = append(setups, s)
	}
	np := 1 + r.Int(3)
	var h uint64
	for i := 0; i < np; i++ {
		p := &pooled{}
		switch r.Pick(4, 1, 1) {
		case 1, 2:
			f := r.drawFile(fileOpts{small: true, onlyV1: r.Bool()})
			drawn = true
			o := r.reference(f.data, f.cfg)
			if o.err != nil {
				r.skip(fmt.Sprint("reading: ", o.err))
			}
			p.rec, p.m, p.how = o.raw, o.m, "loaded from a "+f.String()
			files = append(files, f)
			fileWants[len(files)-1] = o
		default:
			s := setups[r.Int(len(setups))]
			m := r.genRecording(genOpts{kinds: s.cfg.kinds(), small: !r.Chance(1, 30)})
			p.binT = &trip{left: -1}
			sim := r.Bool()
			bd := builder{}
			if sim {
				bd.binary = func(b *MBin) format.Binary {
					x := &simBinary{run: r, name: b.Name, data: b.Data, size: uint64(len(b.Data)), meta: buildBlock(b.Meta), t: p.binT}
					if b.Via != nil {
						x.d = *b.Via
					}
					return x
				}
			}
			once()
			r.pre("building", func() (err error) {
				p.rec = bd.rec(m)
				p.m, err = observe(p.rec)
				return err
			})
			p.how = "built"
		}
		p.kinds = kindsOf(p.m)
		h = h*31 + p.m.hash()
		r.note("recording %d (%s): %s", i, p.how, p.m.describe())
		pool = append(pool, p)
	}
	once()
	r.shape = h
	r.desc = fmt.Sprintf("%d recordings, %d setups", len(pool), len(setups))
	for _, s := range setups {
		r.note("setup: %s", s.cfg)
	}

	// what everything gives when nothing has happened before: other codec,
	// writer and recording values with the same content
	type baseline struct {
		data []byte
		n    int
		m    *MRec
		fail string
	}
	bases := map[[2]int]*baseline{}
	base := func(pi, si int) *baseline {
		k := [2]int{pi, si}
		if b, ok := bases[k]; ok {
			return b
		}
		b := &baseline{}
		bases[k] = b
		c := setups[si].cfg
		w := r.writer()
		w.quiet = true
		rec := build(pool[pi].m)
		r.again()
		r.pre("writing", func() error {
			n, err := c.writer(w).Write(rec)
			b.n = n
			if err != nil {
				b.fail = err.Error()
			}
			return nil
		})
		b.data = w.buf
		if b.fail == "" {
			r.again()
			o := r.reference(b.data, c)
			if o.err != nil {
				b.fail = "not readable: " + o.err.Error()
			}
			b.m = o.m
		}
		return b
	}
	for pi := range pool {
		for si, s := range setups {
			if s.handles(pool[pi].kinds) {
				base(pi, si)
			}
		}
	}
	unchanged := func(after string) {
		for i, p := range pool {
			var got *MRec
			var err error
			r.again()
			r.guard("walking a recording after "+after, func() { got, err = observe(p.rec) })
			if err != nil {
				r.Fail("changed", "recording %d (%s) is unusable after %s: %v", i, p.how, after, err)
			}
			if x := diff(p.m, got, diffOpts{captures: true, strs: true}); x != "" {
				r.Fail("changed", "recording %d (%s) changed: after %s: %s", i, p.how, after, x)
			}
		}
	}
	firsts := map[string]string{}
	same := func(key, got string) {
		if w, ok := firsts[key]; !ok {
			firsts[key] = got
		} else if w != got {
			r.Fail("trace", "%s gave %s, at first it gave %s", key, short(got), short(w))
		}
	}
	for pi, p := range pool {
		same(fmt.Sprintf("measuring recording %d", pi), measure(r, p.rec))
	}

	// some data is being read meanwhile
	var open []*openData
	for pi, p := range pool {
		if r.Chance(1, 2) {
			continue
		}
		r.pre("opening binaries", func() error {
			for bi, b := range ownBinaries(p.rec) {
				if len(open) < 6 {
					data, err := io.ReadAll(b.Data())
					if err != nil {
						return err
					}
					open = append(open, &openData{r: b.Data(), data: data, what: fmt.Sprintf("the data of binary %d of recording %d", bi, pi)})
				}
			}
			return nil
		})
	}
	reading := func(n int, after string) {
		for _, o := range open {
			var x string
			r.guard("reading "+o.what+" after "+after, func() { x = o.step(n) })
			if x != "" {
				r.Fail("changed", "%s: after %s", x, after)
			}
		}
	}
	reading(r.Int(8), "opening it")

	failedBefore := ""
	ops := 6 + r.Int(25)
	for k := 0; k < ops; k++ {
		si := r.Int(len(setups))
		s := setups[si]
		var able []int
		for pi := range pool {
			if s.handles(pool[pi].kinds) {
				able = append(able, pi)
			}
		}
		s.codecT.left = -1
		what := ""
		failing := false
		r.again()
		switch op := r.Pick(5, 4, 4, 3, 2, 2, 1, 1); op {
		case 0, 1: // write
			if len(able) == 0 {
				continue
			}
			pi := able[r.Int(len(able))]
			p := pool[pi]
			b := base(pi, si)
			if b.fail != "" {
				continue
			}
			r.again()
			w := r.writer()
			what = fmt.Sprintf("a write of recording %d with setup %d", pi, si)
			if op == 1 {
				switch kind := r.Int(3); {
				case kind == 1:
					s.codecT.left, s.codecT.err, s.codecT.hit = r.Int(4), r.drawError(), false
				case kind == 2 && p.binT != nil:
					p.binT.left, p.binT.err, p.binT.hit = r.Int(3), r.drawError(), false
				default:
					w.failAt, w.failErr = r.Int(len(b.data)+1), r.drawSinkError()
					w.partial, w.once = r.Int(3), r.Bool()
				}
			}
			s.out.w = w
			var n int
			var err error
			call := func() {
				if r.Chance(1, 4) && !s.cfg.Default {
					n, err = rapio.NewWriter(s.encs, s.cfg.Compress, w, s.cfg.Time).Write(p.rec)
				} else {
					n, err = s.w.Write(p.rec)
				}
			}
			if op == 0 {
				r.guard(what, call)
			} else {
				r.pre(what, func() error { call(); return nil })
			}
			binHit := p.binT != nil && p.binT.hit
			failing = w.failed > 0 || s.codecT.hit || binHit
			if p.binT != nil {
				p.binT.left, p.binT.hit = -1, false
			}
			s.codecT.left, s.codecT.hit = -1, false
			if failing {
				r.fault("failing write")
				what = "a failed write of recording " + fmt.Sprint(pi)
				break
			}
			after := what
			if failedBefore != "" {
				after += " after " + failedBefore
			}
			if err != nil {
				r.Fail("trace", "%s failed, at first it worked: %v", after, err)
			}
			if !bytes.Equal(w.buf, b.data) {
				var o outcome
				r.again()
				r.guard("reading what "+after+" gave", func() { o = r.reference(w.buf, s.cfg) })
				if o.err != nil {
					r.Fail("trace", "%s gave a file that does not load, at first it did: %v", after, o.err)
				}
				if x := diff(b.m, o.m, diffOpts{captures: true, strs: true}); x != "" {
					r.Fail("trace", "%s gave another file than at first: %s", after, x)
				}
			} else if n != b.n {
				r.Fail("trace", "%s reported %d bytes, at first %d", after, n, b.n)
			}
			r.evals++
			if failedBefore != "" {
				r.nontrivial = true
			}
		case 2, 3: // load
			// a file written by setup si, or one of the drawn files
			var data []byte
			var want *MRec
			fi := -1
			if len(files) > 0 && r.Chance(1, 3) {
				fi = r.Int(len(files))
				data, want = files[fi].data, fileWants[fi].m
				what = fmt.Sprintf("a load of file %d", fi)
			} else if len(able) > 0 {
				pi := able[r.Int(len(able))]
				b := base(pi, si)
				if b.fail != "" {
					continue
				}
				data, want = b.data, b.m
				what = fmt.Sprintf("a load of recording %d written with setup %d", pi, si)
			} else {
				continue
			}
			buf := append([]byte{}, data...)
			d := r.drawDelivery()
			if op == 3 {
				switch r.Int(4) {
				case 0:
					buf = buf[:r.Int(len(buf)+1)]
				case 1:
					f := &File{data: buf, cfg: s.cfg, v1: fi >= 0 && files[fi].v1, comp: s.cfg.Compress || s.cfg.Default}
					if fi >= 0 {
						f.comp = files[fi].comp
					}
					buf = r.damaged(f, r.Sub())
				case 2:
					if fi < 0 {
						s.codecT.left, s.codecT.err, s.codecT.hit = r.Int(4), r.drawError(), false
					}
				}
			}
			sr := r.reader(buf, d)
			if op == 3 && r.Chance(1, 3) {
				sr.failAt, sr.failErr, sr.failWith = r.Int(len(buf)+1), r.drawError(), r.Bool()
			}
			var o outcome
			call := func() {
				switch {
				case fi >= 0:
					o.raw, o.n, o.err = files[fi].cfg.reader(sr.Stream()).Read()
				case s.cfg.Default && r.Chance(1, 3):
					o.raw, o.n, o.err = rapio.Load(sr.Stream())
				default:
					s.in.r = sr.Stream()
					o.raw, o.n, o.err = s.rd.Read()
				}
			}
			r.limit(50_000_000, 64<<20)
			if op == 2 {
				r.guard(what, call)
			} else {
				r.pre(what, func() error { call(); return nil })
				s.codecT.left, s.codecT.hit = -1, false
				what = "a failed load"
				failing = true
				r.fault("failing load")
				break
			}
			if op == 2 && o.err != nil {
				r.Fail("trace", "%s failed, at first it worked: %v (before: %s)", what, o.err, failedBefore)
			}
			if o.err == nil {
				r.guard("walking the result of "+what, func() {
					var err error
					if o.m, err = observe(o.raw); err != nil {
						r.Fail("trace", "%s gave an unusable recording: %v", what, err)
					}
				})
				if x := diff(want, o.m, diffOpts{captures: true, strs: true}); x != "" {
					r.Fail("trace", "%s gave another recording than at first (before: %s): %s", what, failedBefore, x)
				}
				// the memory the file was in is used for something else
				for i := range buf {
					buf[i] = 0xAA
				}
				if len(pool) < 6 {
					pool = append(pool, &pooled{rec: o.raw, m: o.m, kinds: kindsOf(o.m), how: "loaded by operation " + fmt.Sprint(k)})
					same(fmt.Sprintf("measuring recording %d", len(pool)-1), measure(r, o.raw))
				}
				r.evals++
				if failedBefore != "" {
					r.nontrivial = true
				}
			}
		case 4: // slice
			pi := r.Int(len(pool))
			p := pool[pi]
			lo, hi := sliceBounds(r, p.m)
			keep := r.Bool()
			what = fmt.Sprintf("slicing recording %d to [%v, %v) keeping binaries: %v", pi, lo, hi, keep)
			var cut format.Recording
			var m *MRec
			r.guard(what, func() {
				cut = format.Slice(p.rec, format.BeginningOfSlice(lo), format.EndOfSlice(hi), format.KeepBinariesInSlice(keep))
				var err error
				if m, err = observe(cut); err != nil {
					r.Fail("trace", "%s gave an unusable recording: %v", what, err)
				}
			})
			same(what, fmt.Sprint(m.describe(), m.hash()))
			if len(pool) < 6 {
				pool = append(pool, &pooled{rec: cut, m: m, kinds: kindsOf(m), how: "sliced by operation " + fmt.Sprint(k), binT: p.binT})
				same(fmt.Sprintf("measuring recording %d", len(pool)-1), measure(r, cut))
			}
		case 5: // measure
			pi := r.Int(len(pool))
			what = fmt.Sprintf("measuring recording %d", pi)
			var got string
			r.guard(what, func() { got = measure(r, pool[pi].rec) })
			same(what, got)
			r.evals++
		case 6: // convert metadata
			pi := r.Int(len(pool))
			what = fmt.Sprintf("converting the metadata of recording %d", pi)
			var got string
			r.pre(what, func() error { got = convertMeta(pool[pi].rec); return nil })
			same(what, got)
		case 7: // convert on the command line
			var data []byte
			var m *MRec
			fi := -1
			if len(files) > 0 && r.Bool() {
				fi = r.Int(len(files))
				data, m = files[fi].data, fileWants[fi].m
				what = fmt.Sprintf("file %d", fi)
			} else if len(able) > 0 {
				pi := able[r.Int(len(able))]
				b := base(pi, si)
				if b.fail != "" {
					continue
				}
				data, m = b.data, b.m
				what = fmt.Sprintf("recording %d written with setup %d", pi, si)
			} else {
				continue
			}
			if hasFloat(m) || fi >= 0 && files[fi].cfg.Third != 0 || fi < 0 && s.cfg.Third != 0 {
				continue
			}
			cmd := []string{"to-json", "summarize", "upgrade"}[r.Int(3)]
			what = "rap-cli " + cmd + " of " + what
			v := &invocation{args: []string{cmd, "-f", "in.rap"}, files: map[string][]byte{"in.rap": data}, noFail: true}
			if r.Chance(1, 3) {
				failing = true
				r.fault("failing command")
				v.stdout = r.writer()
				v.stdout.failAt, v.stdout.failErr = r.Int(len(data)+1), r.drawSinkError()
				r.invoke(v)
				what = "a failed " + what
				break
			}
			r.again()
			r.invoke(v)
			if v.crashed != "" {
				r.skip(what + " crashed")
			}
			got := fmt.Sprint(v.code, " ", string(v.stdout.buf))
			if w, ok := firsts[what]; ok && w != got && cmd == "upgrade" && v.code == 0 && strings.HasPrefix(w, "0 ") {
				// another way to store the same is fine
				a := r.reference([]byte(w[2:]), Config{Default: true, Order: []int{kEvent, kPosition, kEuler, kEnum}})
				b := r.reference(v.stdout.buf, Config{Default: true, Order: []int{kEvent, kPosition, kEuler, kEnum}})
				if a.err != nil || b.err != nil {
					r.Fail("trace", "%s does not give the same at every time: %v, %v", what, a.err, b.err)
				}
				if x := diff(a.m, b.m, diffOpts{captures: true}); x != "" {
					r.Fail("trace", "%s gave another file than at first: %s", what, x)
				}
			} else {
				same(what, got)
			}
		}
		r.note("%s", what)
		unchanged(what)
		if len(open) > 0 {
			reading(r.Int(30), what)
		}
		if failing {
			failedBefore = what
		}
		r.fold(what)
	}
	if len(open) > 0 {
		reading(1<<20, "everything")
	}
}

func wrapAll(encs []encoding.Encoder, t *trip) []encoding.Encoder {
	var out []encoding.Encoder
	for _, e := range encs {
		out = append(out, trippable{e, t, false})
	}
	return out
}

// measure is what validating and measuring a recording says.
func measure(r *Run, rec format.Recording) string {
	say := func(err error) string {
		if err == nil {
			return "fine"
		}
		return err.Error()
	}
	f := func(x float64) string { return fmt.Sprintf("%x", math.Float64bits(x)) }
	return fmt.Sprint(
		say(format.Validate(rec)), " ", say(format.Validate(rec, format.RequireChronologicalCapture(false))), " ",
		f(format.RecordingStart(rec)), " ", f(format.RecordingEnd(rec)), " ", f(format.RecordingDuration(rec)))
}

// convertMeta is the recording's metadata as JSON.
func convertMeta(rec format.Recording) string {
	b, err := json.Marshal(rec.Metadata().Mapping())
	if err != nil {
		return "error"
	}
	return string(b)
}

// sliceBounds draws an interval that cuts through the recording's captures.
func sliceBounds(r *Run, m *MRec) (lo, hi float64) {
	var ts []float64
	m.walk(func(x *MRec) {
		for _, c := range x.Cols {
			for _, e := range c.Caps {
				if len(ts) < 200 {
					ts = append(ts, e.T)
				}
			}
		}
	})
	pick := func(d float64) float64 {
		if len(ts) == 0 || r.Chance(1, 5) {
			return d
		}
		return ts[r.Int(len(ts))]
	}
	return pick(math.Inf(-1)), pick(math.Inf(1))
}
