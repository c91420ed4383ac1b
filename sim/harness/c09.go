package main

import (
	"bytes"
	"fmt"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/encoding"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/format/parsing"
	"github.com/recolude/rap/verifsim/simrt"
)

func init() {
	scenarios["C09"] = c09
	plans["C09"] = Plan{Quick: 16000, Thorough: 200000, Chunk: 50, Race: 40,
		Rule: "One run draws one to three recordings (built or loaded), a set of codec values, and two to four tasks of one to four operations each (write, load, slice, validate and measure, walk, convert metadata, parse JSON; some to failing streams) that share the recordings, codecs and stored bytes; a seeded scheduler preempts the tasks between statements of rap's code. Afterwards every operation runs alone on equal values and must give the same. Two runs in five are also executed under the race detector, whose happens-before edges are those of the code under test only. Non-trivial: the schedule switched between tasks at least twice; distinct by shapes and by schedule.",
		Stub: []string{"goroutine scheduler and sync primitives (one task runs at a time; the scheduler draws which)"},
	}
}

// shared are the values that the tasks of a run share.
type shared struct {
	recs  []format.Recording
	codec []encoding.Encoder
	cfg   Config
	data  [][]byte
	docs  [][]byte
}

type result struct {
	text string
	err  string
	data []byte
	m    *MRec
}

type coop struct {
	what string
	run  func(s *shared) result
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return "error: " + err.Error()
}

// drawCoop draws an operation on shared values; everything random about it is
// drawn now, so that it can run twice.
func (r *Run) drawCoop(ms []*MRec, files []*File, docs int, c Config) coop {
	ri := r.Int(len(ms))
	seen := func(rec format.Recording, err error) result {
		if err != nil {
			return result{err: errText(err)}
		}
		m, err := observe(rec)
		return result{m: m, err: errText(err)}
	}
	writer := func(s *shared, w *SimWriter) rapio.Writer {
		return rapio.NewWriter(s.codec, s.cfg.Compress, w, s.cfg.Time)
	}
	switch r.Pick(5, 5, 2, 2, 2, 2, 1, 1, 1) {
	case 1: // load
		fi := r.Int(len(files))
		d := r.drawDelivery()
		seed := *d.rng
		useLoad := files[fi].cfg.Default && r.Bool()
		return coop{fmt.Sprintf("loading file %d", fi), func(s *shared) result {
			g := seed
			d := d
			d.rng = &g
			in := &SimReader{data: s.data[fi], d: d, failAt: -1}
			var rec format.Recording
			var err error
			if useLoad {
				rec, _, err = rapio.Load(in.Stream())
			} else {
				rec, _, err = rapio.NewReader(s.codec, in.Stream()).Read()
			}
			return seen(rec, err)
		}}
	case 2: // failing load
		fi := r.Int(len(files))
		at := r.Int(len(files[fi].data) + 1)
		e := r.drawError()
		cut := r.Bool()
		r.fault("failing load")
		return coop{fmt.Sprintf("loading file %d from a stream that fails at %d", fi, at), func(s *shared) result {
			in := &SimReader{data: s.data[fi], failAt: at, failErr: e}
			if cut {
				in.data, in.failAt = in.data[:at], -1
			}
			rec, _, err := rapio.NewReader(s.codec, in.Stream()).Read()
			return seen(rec, err)
		}}
	case 3: // slice
		lo, hi := sliceBounds(r, ms[ri])
		keep := r.Bool()
		write := r.Bool()
		return coop{fmt.Sprintf("slicing recording %d", ri), func(s *shared) result {
			cut := format.Slice(s.recs[ri], format.BeginningOfSlice(lo), format.EndOfSlice(hi), format.KeepBinariesInSlice(keep))
			if write {
				w := &SimWriter{failAt: -1}
				_, err := writer(s, w).Write(cut)
				return result{data: w.buf, err: errText(err)}
			}
			return seen(cut, nil)
		}}
	case 4: // measure
		return coop{fmt.Sprintf("measuring recording %d", ri), func(s *shared) result {
			return result{text: measure(r, s.recs[ri])}
		}}
	case 5: // walk
		return coop{fmt.Sprintf("walking recording %d", ri), func(s *shared) result {
			return seen(s.recs[ri], nil)
		}}
	case 6:
		return coop{fmt.Sprintf("converting metadata of recording %d", ri), func(s *shared) result {
			return result{text: convertMeta(s.recs[ri])}
		}}
	case 7:
		di := r.Int(docs)
		return coop{fmt.Sprintf("parsing document %d", di), func(s *shared) result {
			rec, err := parsing.FromJSON(s.docs[di])
			return seen(rec, err)
		}}
	case 8: // failing write
		at := r.Int(4000)
		if r.Bool() {
			at = r.Int(100)
		}
		e := r.drawError()
		partial := r.Int(3)
		r.fault("failing write")
		return coop{fmt.Sprintf("writing recording %d to a stream that fails at %d", ri, at), func(s *shared) result {
			w := &SimWriter{failAt: at, failErr: e, partial: partial}
			_, err := writer(s, w).Write(s.recs[ri])
			return result{text: fmt.Sprint("failed: ", w.failed > 0), err: errText(err)}
		}}
	}
	return coop{fmt.Sprintf("writing recording %d", ri), func(s *shared) result {
		w := &SimWriter{failAt: -1}
		_, err := writer(s, w).Write(s.recs[ri])
		return result{data: w.buf, err: errText(err)}
	}}
}

// c09: recordings and codecs can be shared by concurrent users.
func c09(r *Run) {
	c := r.drawConfig()
	if c.Default {
		c = c.effective()
	}
	var ms []*MRec
	var loadedFrom []int // which file a recording is loaded from (-1: built)
	var files []*File
	np := 1 + r.Int(3)
	var h uint64
	addFile := func(f *File) int { files = append(files, f); return len(files) - 1 }
	for i := 0; i < np; i++ {
		m := r.genRecording(genOpts{kinds: c.kinds(), small: !r.Chance(1, 60)})
		r.mapMode = 0
		rec, seen := r.modelled(m)
		from := -1
		data, _ := r.stored(rec, c)
		fi := addFile(&File{data: data, cfg: c, comp: c.Compress, m: seen})
		if r.Chance(1, 3) {
			from = fi
		}
		ms = append(ms, seen)
		loadedFrom = append(loadedFrom, from)
		h = h*31 + seen.hash()
	}
	if r.Chance(1, 3) {
		v := r.genV1(true)
		fi := addFile(&File{data: v.file(r.OneOf(6, 1)), cfg: c, v1: true, m: v.loaded()})
		ms = append(ms, v.loaded())
		loadedFrom = append(loadedFrom, fi)
	}
	r.mapMode, r.mapSeed = 0, 0
	var docs [][]byte
	docs = append(docs, []byte(`{"id":"a","name":"b","metadata":{"k":1,"l":{"m":[1,2]}},"collections":[{"name":"p","type":"recolude.position","captures":[{"time":1,"data":{"x":1,"y":2,"z":3}}]}],"recordings":[{"id":"c","name":"d"}]}`))
	r.shape = h
	r.desc = fmt.Sprintf("%d recordings, %d files, %s", len(ms), len(files), c)

	nt := 2 + r.Int(3)
	var tasks [][]coop
	var results [][]result
	same := r.Chance(1, 4) // every task does the same
	for t := 0; t < nt; t++ {
		if same && t > 0 {
			tasks = append(tasks, tasks[0])
		} else {
			var ops []coop
			for k := 1 + r.Int(4); k > 0; k-- {
				ops = append(ops, r.drawCoop(ms, files, len(docs), c))
			}
			tasks = append(tasks, ops)
		}
		results = append(results, make([]result, len(tasks[t])))
		for k, o := range tasks[t] {
			r.note("task %d operation %d: %s", t+1, k, o.what)
		}
	}
	// equal values, made anew
	fresh := func() *shared {
		s := &shared{cfg: c, codec: c.encoders(), docs: docs}
		for i, m := range ms {
			if f := loadedFrom[i]; f >= 0 {
				rec, _, err := rapio.NewReader(s.codec, bytes.NewReader(files[f].data)).Read()
				if err != nil {
					r.skip(fmt.Sprint("reading: ", err))
				}
				s.recs = append(s.recs, rec)
			} else {
				s.recs = append(s.recs, build(m))
			}
		}
		for _, f := range files {
			s.data = append(s.data, f.data)
		}
		return s
	}
	var s *shared
	r.pre("building", func() error { s = fresh(); return nil })

	gap := uint64(r.OneOf(2000, 300, 40, 5, 20000))
	r.begin(simrt.Config{GapMean: gap})
	r.reserveSched()
	r.muted = true
	var fs []func()
	for t := range tasks {
		ops, out := tasks[t], results[t]
		fs = append(fs, func() {
			for k := range ops {
				out[k] = ops[k].run(s)
			}
		})
	}
	panics := simrt.RunTasks(fs)
	n, sh := simrt.Switches()
	r.muted = false
	r.scheds = append(r.scheds, sh)
	r.switches += n
	r.hash ^= sh
	r.note("%d switches, schedule %016x", n, sh)
	if st := simrt.Stuck(); st != nil {
		r.Fail(st.Class, "concurrent operations: %s", st.Msg)
	}
	r.nontrivial = n >= nt+2

	// each operation alone, on equal values
	for t := range tasks {
		for k, o := range tasks[t] {
			var alone result
			var base *shared
			r.again()
			r.pre("alone: "+o.what, func() error {
				base = fresh()
				r.again()
				alone = o.run(base)
				return nil
			})
			for _, p := range panics {
				if p.Task == t+1 {
					r.note("%s", p.Stack)
					r.Fail("panic", "task %d panicked when run among others, alone its operations work: %v%s", p.Task, p.Value, where(p.Stack))
				}
			}
			r.evals++
			got := results[t][k]
			what := fmt.Sprintf("task %d, %s", t+1, o.what)
			if got.err != alone.err && ((got.err == "") != (alone.err == "")) {
				r.Fail("outcome", "%s: %q among other tasks, %q alone", what, got.err, alone.err)
			}
			if got.err != "" {
				continue
			}
			if got.text != alone.text {
				r.Fail("outcome", "%s gave %s among other tasks, %s alone", what, short(got.text), short(alone.text))
			}
			if (got.m == nil) != (alone.m == nil) {
				r.Fail("outcome", "%s gave a recording only once", what)
			}
			if got.m != nil {
				if x := diff(alone.m, got.m, diffOpts{captures: true, strs: true}); x != "" {
					r.Fail("outcome", "%s gave something else among other tasks than alone: %s", what, x)
				}
			}
			if !bytes.Equal(got.data, alone.data) {
				a, b := r.reference(alone.data, c), r.reference(got.data, c)
				if a.err == nil && b.err != nil {
					r.Fail("outcome", "%s wrote a file among other tasks that does not load: %v", what, b.err)
				}
				if a.err == nil {
					if x := diff(a.m, b.m, diffOpts{captures: true, strs: true}); x != "" {
						r.Fail("outcome", "%s wrote another file among other tasks than alone: %s", what, x)
					}
				}
			}
		}
	}
	// what was shared is as it was
	for i := range s.recs {
		base := ms[i]
		var got *MRec
		r.again()
		r.pre("walking", func() (err error) {
			got, err = observe(s.recs[i])
			if loadedFrom[i] >= 0 {
				base, err = observe(fresh().recs[i])
			}
			return err
		})
		if x := diff(base, got, diffOpts{captures: true, strs: true}); x != "" {
			r.Fail("changed", "recording %d changed while tasks shared it: %s", i, x)
		}
	}
}
