package main

import "fmt"

func init() {
	scenarios["C02"] = c02
	plans["C02"] = Plan{Quick: 44000, Thorough: 1000000, Chunk: 150,
		Rule: "One run draws collections of every kind with captures in varied regimes (constant, random walk, jumps, cell borders, gaps over several magnitudes, duplicates, disorder, non-finite), codecs and techniques; writes, reads back and judges each capture against an independent reference quantiser. Non-trivial: at least one capture judged; distinct by shape and stream traffic.",
	}
}

// C02: captures keep value, time and order within the chosen precision.
func c02(r *Run) {
	c := r.drawConfig()
	m := r.genRecording(genOpts{kinds: c.kinds(), focusCaps: true, noBins: true, noRefs: true, huge: true})
	r.drawMapOrder()
	rec, want := r.modelled(m)
	r.desc += "; " + c.String()
	data, _, err := r.write("Write", rec, c)
	if err != nil {
		r.Fail("write-failed", "a valid recording could not be written: %v", err)
	}
	rd := r.reader(data, r.drawStream())
	o := r.load("Read", r.readerFor(c, rd.Stream()))
	if o.err != nil {
		r.Fail("read-failed", "a written recording could not be read: %v", o.err)
	}
	if x := diffAllCaptures(want, o.m, c); x != "" {
		r.Fail("capture", "%s (%s)", x, c)
	}
	r.fold(o.m.describe())
	want.walk(func(x *MRec) {
		for _, col := range x.Cols {
			r.evals += len(col.Caps)
		}
	})
	r.nontrivial = r.evals > 0
}

// diffAllCaptures compares the captures of all collections in the order of
// the tree, whatever else may differ.
func diffAllCaptures(want, got *MRec, c Config) string {
	type col struct {
		path string
		c    *MCol
	}
	flat := func(m *MRec) (out []col) {
		var rec func(m *MRec, path string)
		rec = func(m *MRec, path string) {
			for i := range m.Cols {
				out = append(out, col{fmt.Sprintf("%s.collections[%d]", path, i), &m.Cols[i]})
			}
			for i, x := range m.Recs {
				rec(x, fmt.Sprintf("%s.recordings[%d]", path, i))
			}
		}
		rec(m, "recording")
		return
	}
	a, b := flat(want), flat(got)
	for i, x := range a {
		if i >= len(b) {
			return fmt.Sprintf("%s: its %d captures are lost", x.path, len(x.c.Caps))
		}
		y := b[i]
		if x.c.Kind != y.c.Kind {
			return fmt.Sprintf("%s: %s captures, want %s", x.path, kindName[y.c.Kind], kindName[x.c.Kind])
		}
		if len(x.c.Caps) != len(y.c.Caps) {
			return fmt.Sprintf("%s: %d captures, want %d", x.path, len(y.c.Caps), len(x.c.Caps))
		}
		if d := diffColCaptures(x.c, y.c, c, x.path); d != "" {
			return d
		}
	}
	if len(b) > len(a) {
		return fmt.Sprintf("%s: captures from nowhere", b[len(a)].path)
	}
	return ""
}
