package main

import (
	"fmt"
	"math"

	"github.com/recolude/rap/format"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/verifsim/simrt"
)

const windowsRule = "One run is a history of one to three users of one to three recordings (built, or loaded from version 1 or 2 bytes), each with up to six operations: slicing (also slices, and single collections), storing to sinks that may fail and loading from streams that may fail what was stored, measuring, walking. A seeded scheduler preempts the users between statements of rap's code. "

func init() {
	scenarios["C16"] = func(r *Run) { windows(r, true) }
	plans["C16"] = Plan{Quick: 90000, Thorough: 1200000, Chunk: 150,
		Rule: windowsRule + "Every slice is compared with a model of it when it is taken, when all users are done, and after having been stored and loaded. Non-trivial: at least one slice was judged; distinct by shapes of the recordings and by schedule and results.",
		Stub: []string{"goroutine scheduler and sync primitives (one task runs at a time; the scheduler draws which)"}}
}

// view is a recording in somebody's hands and what it has to show.
type view struct {
	rec  format.Recording
	want *MRec
	what string
}

// sighting is something that a user saw.
type sighting struct {
	what   string
	want   *MRec
	got    *MRec
	err    string
	rec    format.Recording // looked at again in the end
	stored bool             // within the precision of the codecs only
	said   *said
}

// said is what rap says about a recording.
type said struct {
	strict, byDefault, lax error
	start, end, duration   float64
}

func cutModel(m *MRec, lo, hi float64, keep bool) *MRec {
	out := *m
	out.Cols = nil
	for _, c := range m.Cols {
		out.Cols = append(out.Cols, cutCol(c, lo, hi))
	}
	out.Recs = nil
	for _, x := range m.Recs {
		out.Recs = append(out.Recs, cutModel(x, lo, hi, keep))
	}
	if !keep {
		out.Bins = nil
	}
	return &out
}

func cutCol(c MCol, lo, hi float64) MCol {
	caps := c.Caps
	c.Caps = nil
	for _, e := range caps {
		if e.T >= lo && e.T < hi {
			c.Caps = append(c.Caps, e)
		}
	}
	return c
}

// drawBounds draws an interval, often with capture times or their neighbours
// as bounds.
func drawBounds(r *Run, m *MRec) (lo, hi float64) {
	lo, hi = sliceBounds(r, m)
	nudge := func(x float64) float64 {
		switch r.Pick(6, 1, 1) {
		case 1:
			return math.Nextafter(x, math.Inf(1))
		case 2:
			return math.Nextafter(x, math.Inf(-1))
		}
		return x
	}
	lo, hi = nudge(lo), nudge(hi)
	if lo > hi && !r.Chance(1, 6) {
		lo, hi = hi, lo
	}
	return
}

// disturb makes one or two captures of an ordered recording come too early, or
// at the same time as the one before.
func disturb(r *Run, m *MRec) {
	var cols []*MCol
	m.walk(func(x *MRec) {
		for i := range x.Cols {
			if len(x.Cols[i].Caps) > 1 {
				cols = append(cols, &x.Cols[i])
			}
		}
	})
	if len(cols) == 0 {
		return
	}
	for n := r.OneOf(1, 0, 2); n > 0; n-- {
		c := cols[r.Int(len(cols))]
		i := 1 + r.Int(len(c.Caps)-1)
		switch r.Int(4) {
		case 0:
			i = 1
		case 1:
			i = len(c.Caps) - 1
		}
		t := c.Caps[i-1].T
		if math.IsInf(t, 0) {
			continue
		}
		switch r.Int(5) {
		case 0:
			c.Caps[i].T = t
		case 1:
			c.Caps[i].T = math.Nextafter(t, math.Inf(-1))
		case 2:
			c.Caps[i].T = t - math.Abs(t)/1000 - 0.001
		case 3:
			c.Caps[i-1].T, c.Caps[i].T = c.Caps[i].T, t
		case 4:
			c.Caps[i].T = t - 1e9
		}
	}
}

const (
	uSlice = iota
	uCollection
	uStore
	uLoad
	uMeasure
	uWalk
)

// use is one operation of a user, with all that is random about it.
type use struct {
	op       int
	src      int
	lo, hi   float64
	how      int // which options are given to Slice
	keep     bool
	col      int
	failAt   int // -1: no failure
	failErr  error
	deliver  Delivery
	partial  int
	loadFail int
}

func (r *Run) drawUse(ms []*MRec, slices bool) use {
	u := use{src: r.Int(8), failAt: -1, loadFail: -1, deliver: r.drawStream()}
	if slices {
		u.op = r.Pick(8, 3, 3, 2, 1, 1)
	} else {
		u.op = r.Pick(3, 0, 2, 2, 8, 1)
	}
	switch u.op {
	case uSlice, uCollection:
		u.lo, u.hi = drawBounds(r, ms[u.src%len(ms)])
		u.how = r.Pick(5, 1, 1, 1, 1)
		u.keep = r.Bool()
		u.col = r.Int(50)
	case uStore:
		if r.Chance(1, 3) {
			u.failAt = r.Int(3000)
			if r.Bool() {
				u.failAt = r.Int(100)
			}
			u.failErr = r.drawError()
			u.partial = r.Int(3)
			r.fault("failing write")
		}
		fallthrough
	case uLoad:
		if r.Chance(1, 3) {
			u.loadFail = r.Int(2000)
			u.failErr = r.drawError()
			r.fault("failing load")
		}
	}
	return u
}

// windows: slices contain exactly the captures of a half-open interval (C16);
// validation and duration are exact (C17).
func windows(r *Run, slices bool) {
	c := r.drawConfig()
	if c.Default {
		c = c.effective()
	}
	var ms []*MRec
	var built []*MRec
	var data [][]byte
	big := r.Chance(1, 12)
	np := 1 + r.Pick(4, 2, 1)
	if big {
		np = 1
	}
	var h uint64
	for i := 0; i < np; i++ {
		if r.Chance(1, 6) {
			v := r.genV1(!big)
			built, data = append(built, nil), append(data, v.file(r.OneOf(6, 1)))
			ms = append(ms, v.loaded())
			h = h*31 + v.loaded().hash()
			continue
		}
		m := r.genRecording(genOpts{kinds: c.kinds(), small: !big, ordered: !slices && !r.Chance(1, 5) || r.Chance(1, 2), focusCaps: r.Bool(), noMeta: !slices && r.Bool()})
		if r.Chance(2, 3) {
			disturb(r, m)
		}
		h = h*31 + m.hash()
		ms = append(ms, m)
		if r.Chance(1, 3) {
			rec, _ := r.modelled(m)
			b, _ := r.stored(rec, c)
			built, data = append(built, nil), append(data, b)
		} else {
			built, data = append(built, m), append(data, nil)
		}
	}
	r.shape = h
	r.desc = fmt.Sprintf("%d recordings, %s", np, c)
	nt := 1 + r.Pick(3, 3, 2)
	if big {
		nt = 1
	}
	plan := make([][]use, nt)
	for t := range plan {
		for k := 1 + r.Int(6); k > 0; k-- {
			plan[t] = append(plan[t], r.drawUse(ms, slices))
		}
	}
	codec := c.encoders()
	var shared []view
	r.pre("building", func() error {
		for i := range ms {
			v := view{what: fmt.Sprintf("recording %d", i)}
			if built[i] != nil {
				v.rec = build(built[i])
			} else {
				in := &SimReader{data: data[i], failAt: -1}
				var err error
				if v.rec, _, err = rapio.NewReader(codec, in.Stream()).Read(); err != nil {
					return err
				}
				v.what += " (loaded)"
			}
			var err error
			if v.want, err = observe(v.rec); err != nil {
				return err
			}
			shared = append(shared, v)
		}
		return nil
	})

	seen := make([][]sighting, nt)
	run := func(t int) {
		mine := append([]view{}, shared...)
		var files [][]byte
		var wants []*MRec
		saw := func(s sighting) { seen[t] = append(seen[t], s) }
		for _, u := range plan[t] {
			src := mine[u.src%len(mine)]
			if u.src > 4 {
				src = mine[len(mine)-1]
			}
			switch u.op {
			case uSlice:
				lo, hi, keep := u.lo, u.hi, u.keep
				opts := []format.SliceOption{format.BeginningOfSlice(lo), format.EndOfSlice(hi), format.KeepBinariesInSlice(keep)}
				switch u.how {
				case 1: // options in another order
					opts[0], opts[2] = opts[2], opts[0]
				case 2: // no beginning
					opts, lo = opts[1:], math.Inf(-1)
				case 3: // no end
					opts, hi = []format.SliceOption{opts[0], opts[2]}, math.Inf(1)
				case 4: // a later option replaces an earlier one
					opts = append([]format.SliceOption{format.KeepBinariesInSlice(!keep), format.EndOfSlice(lo)}, opts...)
				}
				v := view{rec: format.Slice(src.rec, opts...)}
				v.what = fmt.Sprintf("%s sliced [%v, %v) binaries %v", src.what, lo, hi, keep)
				got, err := observe(v.rec)
				v.want = got
				if slices {
					v.want = cutModel(src.want, lo, hi, keep)
					saw(sighting{what: v.what, want: v.want, got: got, err: errText(err), rec: v.rec})
				}
				if got == nil {
					continue
				}
				mine = append(mine, v)
			case uCollection:
				cols := src.rec.CaptureCollections()
				if len(cols) == 0 || len(src.want.Cols) != len(cols) {
					continue
				}
				i := u.col % len(cols)
				var wrap = func(x format.CaptureCollection) format.Recording {
					return format.NewRecording("", "", []format.CaptureCollection{x}, nil, src.rec.Metadata(), nil, nil)
				}
				rec := wrap(cols[i].Slice(u.lo, u.hi))
				got, err := observe(rec)
				want := &MRec{Meta: src.want.Meta, Cols: []MCol{cutCol(src.want.Cols[i], u.lo, u.hi)}}
				saw(sighting{what: fmt.Sprintf("collection %d of %s sliced [%v, %v)", i, src.what, u.lo, u.hi), want: want, got: got, err: errText(err), rec: rec})
			case uStore:
				if u.failAt >= 0 {
					w := &SimWriter{failAt: u.failAt, failErr: u.failErr, partial: u.partial}
					rapio.NewWriter(codec, c.Compress, w, c.Time).Write(src.rec)
				}
				w := &SimWriter{failAt: -1}
				_, err := rapio.NewWriter(codec, c.Compress, w, c.Time).Write(src.rec)
				if err != nil {
					// whether it should have worked is not for here to say
					continue
				}
				files, wants = append(files, w.buf), append(wants, src.want)
				fallthrough
			case uLoad:
				if len(files) == 0 {
					continue
				}
				i := u.src % len(files)
				if u.op == uStore {
					i = len(files) - 1
				}
				if u.loadFail >= 0 {
					in := &SimReader{data: files[i], failAt: u.loadFail % (len(files[i]) + 1), failErr: u.failErr}
					rapio.NewReader(codec, in.Stream()).Read()
				}
				d := u.deliver
				g := *d.rng
				d.rng = &g
				in := &SimReader{data: files[i], d: d, failAt: -1}
				rec, _, err := rapio.NewReader(codec, in.Stream()).Read()
				if err != nil {
					continue
				}
				got, err := observe(rec)
				if err != nil {
					continue
				}
				if slices {
					saw(sighting{what: src.what + ", stored and loaded", want: wants[i], got: got, stored: true})
				}
				mine = append(mine, view{rec, got, src.what + ", stored and loaded"})
			case uMeasure:
				s := &said{}
				if slices {
					measure(r, src.rec)
					continue
				}
				s.strict = format.Validate(src.rec, format.RequireChronologicalCapture(true))
				s.byDefault = format.Validate(src.rec)
				s.lax = format.Validate(src.rec, format.RequireChronologicalCapture(false))
				s.start, s.end, s.duration = format.RecordingStart(src.rec), format.RecordingEnd(src.rec), format.RecordingDuration(src.rec)
				saw(sighting{what: src.what, want: src.want, said: s})
			case uWalk:
				observe(src.rec)
			}
		}
	}
	gap := uint64(r.OneOf(2000, 300, 40, 5, 20000))
	r.begin(simrt.Config{GapMean: gap})
	r.reserveSched()
	r.muted = true
	var fs []func()
	for t := 0; t < nt; t++ {
		t := t
		fs = append(fs, func() { run(t) })
	}
	panics := simrt.RunTasks(fs)
	n, sh := simrt.Switches()
	r.muted = false
	r.scheds = append(r.scheds, sh)
	r.switches += n
	r.hash ^= sh
	if st := simrt.Stuck(); st != nil {
		r.Fail(st.Class, "%s", st.Msg)
	}
	for _, p := range panics {
		r.note("%s", p.Stack)
		r.Fail("panic", "user %d panicked: %v%s", p.Task, p.Value, where(p.Stack))
	}
	for t := range seen {
		for _, s := range seen[t] {
			r.note("user %d: %s", t+1, s.what)
			r.evals++
			r.nontrivial = true
			if s.said != nil {
				judgeSaid(r, s)
				continue
			}
			if s.err != "" {
				r.Fail("unusable", "%s: %s", s.what, s.err)
			}
			r.fold(s.got.describe())
			if s.stored {
				x := diff(s.want, s.got, diffOpts{})
				if x == "" {
					x = diffAllCaptures(s.want, s.got, c)
				}
				if x != "" {
					r.Fail("stored", "%s: %s (%s)", s.what, x, c)
				}
				continue
			}
			if x := diff(s.want, s.got, diffOpts{captures: true}); x != "" {
				r.Fail("slice", "%s: %s", s.what, x)
			}
		}
	}
	for t := range seen {
		for _, s := range seen[t] {
			if s.rec == nil {
				continue
			}
			r.again()
			var got *MRec
			r.guard("walking a slice", func() {
				var err error
				if got, err = observe(s.rec); err != nil {
					r.Fail("unusable", "%s, in the end: %v", s.what, err)
				}
			})
			if x := diff(s.want, got, diffOpts{captures: true}); x != "" {
				r.Fail("slice", "%s, in the end: %s", s.what, x)
			}
		}
	}
}
