package main

import "fmt"

func init() {
	scenarios["C01"] = c01
	plans["C01"] = Plan{Quick: 36000, Thorough: 1500000, Chunk: 150,
		Rule: "One run draws a recording (swarm of features, now and then one dimension at a varint or buffer boundary), codecs and their order, storage techniques, compression, map iteration order and a delivery of the stored bytes; writes, reads back and compares the tree; sometimes writes and reads the result again with other codecs. Non-trivial: the recording has at least two parts; distinct by shape of the recording and by everything that crossed the streams.",
	}
}

// C01: a written recording reads back whole.
func c01(r *Run) {
	c := r.drawConfig()
	m := r.genRecording(genOpts{kinds: c.kinds(), huge: true})
	r.drawMapOrder()
	r.shape, r.desc = m.hash(), m.describe()+"; "+c.String()
	r.note("recording: %s", r.desc)

	rec := build(m)
	want, err := observe(rec)
	if err != nil {
		r.Fail("unusable", "a recording built from its parts: %v", err)
	}
	if d := diff(m, want, diffOpts{captures: true}); d != "" {
		r.Fail("content", "a recording built from its parts differs: %s", d)
	}
	r.nontrivial = size(m) > 1

	gens := 1
	if r.Chance(1, 3) {
		gens = 2
	}
	for g := 0; g < gens; g++ {
		if g > 0 {
			next := r.drawConfig()
			if next.Default && hasFloat(want) {
				next = c
			}
			c = next
			r.note("second generation: %s", c)
		}
		data, _, err := r.write("Write", rec, c)
		if err != nil {
			r.Fail("write-failed", "a valid recording could not be written: %v", err)
		}
		d := r.drawStream()
		r.note("%d bytes; %s", len(data), d)
		rd := r.reader(data, d)
		o := r.load("Read", r.readerFor(c, rd.Stream()))
		if o.err != nil {
			r.Fail("read-failed", "a written recording could not be read: %v", o.err)
		}
		if x := diff(want, o.m, diffOpts{strs: true}); x != "" {
			r.Fail("content", "%s", x)
		}
		if g == 0 {
			if x := mixedUp(want, o.m, c); x != "" {
				r.Fail("content", "%s", x)
			}
		}
		r.evals++
		rec = o.raw
		r.fold(o.m.describe())
	}
}

// mixedUp looks for a collection that holds the captures of another one. How
// exactly captures are kept is not this property's business.
func mixedUp(want, got *MRec, c Config) string {
	var ws, gs []*MCol
	want.walk(func(x *MRec) {
		for i := range x.Cols {
			ws = append(ws, &x.Cols[i])
		}
	})
	got.walk(func(x *MRec) {
		for i := range x.Cols {
			gs = append(gs, &x.Cols[i])
		}
	})
	for i, g := range gs {
		own := diffColCaptures(ws[i], g, c, "")
		if own == "" {
			continue
		}
		for j, w := range ws {
			if j != i && w.Kind == g.Kind && len(w.Caps) == len(g.Caps) && len(g.Caps) > 0 && diffColCaptures(w, g, c, "") == "" {
				return fmt.Sprintf("collection %d (%s) holds the captures of collection %d (%s): %s", i, short(g.Name), j, short(w.Name), own)
			}
		}
	}
	return ""
}

func hasFloat(m *MRec) bool {
	found := false
	m.walk(func(x *MRec) {
		for _, c := range x.Cols {
			found = found || c.Kind == kFloat
		}
	})
	return found
}
