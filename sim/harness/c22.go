package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"runtime"

	"github.com/recolude/rap/format"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/format/metadata"
	"github.com/recolude/rap/verifsim/simrt"
)

func init() {
	scenarios["C22"] = c22
	plans["C22"] = Plan{Quick: 160000, Thorough: 2400000, Chunk: 400,
		Rule: "One run draws up to 14 properties and writes them one after the other to a sink; reads them back from streams with drawn deliveries, from one that stays open and from streams that end or fail at up to 40 places; writes them to sinks that fail at up to 20; damages the bytes eight times and uses what is still read; and finally has two to four users, interleaved by a seeded scheduler, write the shared properties to links of their own and read them from there. Non-trivial: more than ten outcomes judged; distinct by shape, stream traffic and schedule.",
		Stub: []string{"goroutine scheduler and sync primitives (one task runs at a time; the scheduler draws which)"},
	}
}

// c22: metadata properties can be streamed on their own.
func c22(r *Run) {
	m := r.genRecording(genOpts{small: !r.Chance(1, 12), noBins: true, noRefs: true, kinds: []int{kEvent}})
	var pool []MProp
	add := func(b MBlock) {
		for _, e := range b {
			if len(pool) < 200 {
				pool = append(pool, e.P)
			}
		}
		if len(b) > 0 && len(pool) < 200 {
			pool = append(pool, MProp{Code: 11, Block: b})
		}
	}
	m.walk(func(x *MRec) {
		add(x.Meta)
		for _, c := range x.Cols {
			for _, e := range c.Caps {
				add(e.Meta)
			}
		}
	})
	if len(pool) == 0 {
		pool = append(pool, MProp{Code: byte(r.Int(6))}, MProp{Code: 11})
	}
	r.drawMapOrder()
	var ps []MProp
	for i := 1 + r.Int(14); i > 0; i-- {
		ps = append(ps, pool[r.Int(len(pool))])
	}
	shape := MBlock{}
	var props []metadata.Property
	r.pre("building", func() error {
		for i, p := range ps {
			q := buildProp(p)
			props = append(props, q)
			ps[i] = obsProp(q, "property") // maps may have been thinned out
			shape = append(shape, MEntry{fmt.Sprint(i), ps[i]})
		}
		return nil
	})
	r.shape = (&MRec{Meta: shape}).hash()
	r.desc = fmt.Sprintf("%d properties", len(ps))
	r.note("%s", r.desc)

	same := func(what string, i int, p metadata.Property) {
		if p == nil {
			r.Fail("lost", "%s: reading property %d gave neither a property nor an error", what, i)
		}
		var got MProp
		r.guard("walking property "+fmt.Sprint(i), func() { got = obsProp(p, "property") })
		if x := diffProp(ps[i], got, fmt.Sprintf("property %d", i), true); x != "" {
			r.Fail("content", "%s: %s", what, x)
		}
	}

	// all of them, to one sink
	w := r.writer()
	sink, done := r.drawSink(w)
	counts := make([]int, len(ps))
	r.again()
	total := 0
	for i, p := range props {
		var err error
		r.guard("writing a property", func() { counts[i], err = metadata.WriteProprty(sink, p) })
		if err != nil {
			r.Fail("refused", "writing property %d: %v", i, err)
		}
		total += counts[i]
		r.evals++
	}
	done()
	if total != len(w.buf) {
		r.Fail("count", "WriteProprty reported %d bytes, the sink accepted %d", total, len(w.buf))
	}
	data := append([]byte{}, w.buf...)
	ends := []int{}
	for i, n := range counts {
		if i > 0 {
			n += ends[i-1]
		}
		ends = append(ends, n)
	}

	// and back, one after the other
	for k := 1 + r.Int(3); k > 0; k-- {
		behind := 0
		all := data
		if r.Bool() {
			behind = 1 + r.Int(50)
			all = append(append([]byte{}, data...), r.Sub().Bytes(behind)...)
		}
		d := r.drawStream()
		exact := d.Kind < streamFile
		s := r.reader(all, d)
		s.live = exact && behind == 0 && r.Bool()
		if s.live {
			r.fault("connection left open")
		}
		in := s.Stream()
		r.again()
		what := fmt.Sprintf("%d properties in %d bytes, %s", len(ps), len(data), d)
		for i := range ps {
			var p metadata.Property
			var err error
			r.guard("reading a property", func() { p, err = metadata.ReadProperty(in) })
			r.evals++
			if err != nil {
				r.Fail("read-failed", "%s: reading property %d: %v", what, i, err)
			}
			same(what, i, p)
			if exact && s.pos != ends[i] {
				r.Fail("misplaced", "%s: property %d ends after %d bytes, reading it took %d", what, i, ends[i], s.pos)
			}
			if s.PastEnd > 0 {
				r.Fail("blocks", "%s: reading property %d asks for more than it consists of", what, i)
			}
		}
	}

	// from streams that end or fail
	max := 40
	if len(data) > 20000 {
		max = 8
	}
	for _, at := range r.offsets(len(data), max) {
		mode := r.Int(4)
		d := r.drawStream()
		kind := "stream cut"
		s := r.reader(data, d)
		if mode == 0 {
			s = r.reader(data[:at], d)
		} else {
			kind = "read error"
			s.failAt, s.failErr, s.failWith, s.failOnce = at, r.drawError(), mode == 2, mode == 3
		}
		r.fault(kind)
		in := s.Stream()
		r.again()
		what := fmt.Sprintf("%s at %d of %d bytes, %s", kind, at, len(data), d)
		for i := range ps {
			var p metadata.Property
			var err error
			r.guard("reading a property", func() { p, err = metadata.ReadProperty(in) })
			r.evals++
			if err == nil {
				if mode == 0 && ends[i] > at {
					r.Fail("incomplete", "%s: property %d, which ends at %d, was read", what, i, ends[i])
				}
				same(what, i, p)
				continue
			}
			if p != nil {
				r.Fail("property-with-error", "%s: reading property %d gave an error (%v) and a property", what, i, err)
			}
			if mode == 0 && ends[i] <= at {
				r.Fail("read-failed", "%s: reading property %d, which ends at %d: %v", what, i, ends[i], err)
			}
			if mode != 0 && s.failed == 0 && d.Kind <= streamTee {
				r.Fail("read-failed", "%s: reading property %d: %v", what, i, err)
			}
			if s.failed > 0 && !errors.Is(err, s.failErr) {
				r.Fail("other-error", "%s: the stream failed with %q, reading property %d with %q", what, s.failErr, i, err)
			}
			break
		}
	}

	// to sinks that fail
	for _, at := range r.offsets(len(data), (max+1)/2) {
		f := r.writer()
		f.failAt, f.failErr, f.partial, f.once = at, r.drawSinkError(), r.Int(3), r.Bool()
		out := f.Sink(r.drawSinkKind())
		r.again()
		for i, p := range props {
			before, failed := len(f.buf), f.failed
			var n int
			var err error
			r.guard("writing a property", func() { n, err = metadata.WriteProprty(out, p) })
			r.evals++
			what := fmt.Sprintf("property %d, the sink failing at %d of %d bytes", i, at, len(data))
			if n != len(f.buf)-before {
				r.Fail("count", "%s: WriteProprty reported %d bytes, the sink accepted %d (error %v)", what, n, len(f.buf)-before, err)
			}
			if f.failed > failed {
				r.fault("write error")
				if err == nil {
					r.Fail("success", "%s: WriteProprty reported success", what)
				}
				if !errors.Is(err, f.failErr) {
					r.Fail("other-error", "%s: the sink failed with %q, WriteProprty with %q", what, f.failErr, err)
				}
				break
			}
			if err != nil {
				r.Fail("refused", "%s: %v", what, err)
			}
			if i > 0 && ends[i-1]+n != ends[i] || i == 0 && n != ends[0] {
				// the entries of a block may be drawn in another order, but
				// they are the same bytes in all
				r.Fail("success", "%s: WriteProprty reported success after %d bytes", what, n)
			}
		}
	}

	// damaged
	var ms runtime.MemStats
	for k := 8; k > 0; k-- {
		b := data
		g := r.Sub()
		for faults := 1 + g.Int(3); faults > 0; faults-- {
			var kind string
			b, kind = damage(g, b, nil)
			r.fault(kind)
		}
		r.again()
		r.limit(2_000_000+3000*uint64(len(b)), 1<<20+200*int64(len(b)))
		s := r.reader(b, r.drawDelivery())
		in := s.Stream()
		what := fmt.Sprintf("damaged properties in %d bytes", len(b))
		if r.tracing && len(b) < 600 {
			r.note("bytes: %x", b)
		}
		runtime.ReadMemStats(&ms)
		before := ms.TotalAlloc
		var got []metadata.Property
		r.guard("reading "+what, func() {
			for i := 0; i < len(ps)+20; i++ {
				p, err := metadata.ReadProperty(in)
				if err != nil {
					if p != nil {
						r.Fail("property-with-error", "%s: an error (%v) and a property", what, err)
					}
					return
				}
				got = append(got, p)
			}
		})
		runtime.ReadMemStats(&ms)
		if used := ms.TotalAlloc - before; used > 32<<20+4000*uint64(len(b)) {
			r.Fail("allocation", "reading %s allocated %d bytes in all", what, used/1000*1000)
		}
		r.evals++
		r.limit(20_000_000+20000*uint64(len(b)), 1<<24+2000*int64(len(b)))
		for _, p := range got {
			if p == nil {
				r.Fail("unusable", "%s: neither a property nor an error", what)
			}
			r.guard("using a property from "+what, func() {
				obsProp(p, "property")
				_ = p.String()
				json.Marshal(p)
				q := r.writer()
				q.quiet = true
				metadata.WriteProprty(q, p)
				block := metadata.NewBlock(map[string]metadata.Property{"p": p})
				rapio.NewWriter(nil, false, q, rapio.Raw64).Write(format.NewRecording("", "", nil, nil, block, nil, nil))
			})
		}
	}

	// several users at once
	nt := 2 + r.Int(3)
	type use struct{ a, n, failAt, cut int }
	plan := make([][]use, nt)
	for t := range plan {
		for k := 1 + r.Int(3); k > 0; k-- {
			u := use{a: r.Int(len(ps)), failAt: -1, cut: -1}
			u.n = 1 + r.Int(len(ps)-u.a)
			if r.Chance(1, 3) {
				u.failAt = r.Int(40)
				r.fault("write error")
			}
			if r.Chance(1, 3) {
				u.cut = r.Int(40)
				r.fault("stream cut")
			}
			plan[t] = append(plan[t], u)
		}
	}
	seen := make([][]string, nt)
	judged := make([]int, nt)
	run := func(t int) {
		say := func(f string, a ...interface{}) { seen[t] = append(seen[t], fmt.Sprintf(f, a...)) }
		for _, u := range plan[t] {
			if u.failAt >= 0 {
				w := &SimWriter{failAt: u.failAt, failErr: errWrapped}
				for i := u.a; i < u.a+u.n; i++ {
					n, err := metadata.WriteProprty(w, props[i])
					if (err != nil) != (w.failed > 0) {
						say("property %d: the sink failed %d times, WriteProprty reported %d bytes and %v", i, w.failed, n, err)
					}
					if err != nil {
						break
					}
				}
			}
			w := &SimWriter{failAt: -1}
			for i := u.a; i < u.a+u.n; i++ {
				before := len(w.buf)
				n, err := metadata.WriteProprty(w, props[i])
				if err != nil || n != len(w.buf)-before {
					say("property %d: WriteProprty reported %d of %d bytes and %v", i, n, len(w.buf)-before, err)
				}
			}
			b := w.buf
			if u.cut >= 0 && u.cut < len(b) {
				b = b[:u.cut]
			}
			in := &SimReader{data: b, failAt: -1}
			for i := u.a; i < u.a+u.n; i++ {
				p, err := metadata.ReadProperty(in)
				judged[t]++
				if err != nil {
					if len(b) == len(w.buf) {
						say("property %d: %v", i, err)
					}
					break
				}
				if x := diffProp(ps[i], obsProp(p, "property"), fmt.Sprintf("property %d", i), true); x != "" {
					say("%s", x)
				}
			}
		}
	}
	gap := uint64(r.OneOf(2000, 300, 40, 5, 20000))
	r.begin(simrt.Config{GapMean: gap})
	r.reserveSched()
	r.muted = true
	var fs []func()
	for t := 0; t < nt; t++ {
		t := t
		fs = append(fs, func() { run(t) })
	}
	panics := simrt.RunTasks(fs)
	n, sh := simrt.Switches()
	r.muted = false
	r.scheds = append(r.scheds, sh)
	r.switches += n
	r.hash ^= sh
	if st := simrt.Stuck(); st != nil {
		r.Fail(st.Class, "%s", st.Msg)
	}
	for _, p := range panics {
		r.note("%s", p.Stack)
		r.Fail("panic", "user %d panicked: %v%s", p.Task, p.Value, where(p.Stack))
	}
	for t := range seen {
		r.evals += judged[t]
		for _, s := range seen[t] {
			r.Fail("shared", "user %d: %s", t+1, s)
		}
	}
	for i, p := range props {
		r.again()
		same("after all this", i, p)
	}
	r.nontrivial = r.evals > 10
}
