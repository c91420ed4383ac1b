package main

import (
	"bytes"
	"errors"
	"fmt"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/collection/event"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/format/metadata"
)

func init() {
	scenarios["C06"] = c06
	plans["C06"] = Plan{Quick: 40000, Thorough: 700000, Chunk: 150,
		Rule: "One run either draws a recording and configuration, writes it to a healthy sink, and then to sinks that fail at up to 50 places (every place of a short file), accepting nothing, a part or all of the failing write, once or for good, all under one map order; or takes one part out of a recording (nil part anywhere, nil metadata property at any nesting, a collection without codec, an unknown technique) and writes it. Non-trivial: at least one failing write or refusal judged; distinct by shape and by the sequence of writes.",
	}
}

// prefixed reports whether what a write left behind starts the file that the
// same write, scheduled the same way, stores in a healthy sink. (A writer that
// does several things at once may store one recording in several ways.)
func (r *Run) prefixed(rec format.Recording, c Config, seen *MRec, got []byte) bool {
	r.repeat()
	w := r.writer()
	var err error
	r.guard("writing", func() { _, err = c.writer(w.Sink(0)).Write(rec) })
	if err != nil || !bytes.HasPrefix(w.buf, got) {
		return false
	}
	o := r.reference(w.buf, c)
	return o.err == nil && diff(seen, o.m, diffOpts{}) == ""
}

// C06: a write that reports success has delivered the whole recording.
func c06(r *Run) {
	if r.Chance(1, 4) {
		c06refuse(r)
		return
	}
	c := r.drawConfig()
	m := r.genRecording(genOpts{kinds: c.kinds(), small: !r.Chance(1, 6)})
	r.drawMapOrder()
	rec, seen := r.modelled(m)
	r.desc += "; " + c.String()
	r.again()
	want, n := r.stored(rec, c)
	_ = n
	max := 50
	if len(want) > 20000 {
		max = 10
	}
	for _, at := range r.offsets(len(want), max) {
		w := r.writer()
		w.failAt, w.failErr = at, r.drawSinkError()
		w.partial = r.Int(3)
		w.once = r.Bool()
		sink := w.Sink(r.drawSinkKind())
		kind := []string{"write refused", "write accepted in part", "write accepted and reported as failed"}[w.partial]
		if w.once {
			kind += ", then healthy"
		}
		what := fmt.Sprintf("%s at %d of %d bytes", kind, at, len(want))
		r.note("%s", what)
		r.again()
		var err error
		r.guard("writing: "+what, func() { _, err = c.writer(sink).Write(rec) })
		r.evals++
		if w.failed > 0 {
			r.fault(kind)
			switch {
			case err == nil:
				r.Fail("success", "%s, and Write reported success", what)
			case !errors.Is(err, w.failErr):
				r.Fail("other-error", "%s: the sink failed with %q, Write with %q", what, w.failErr, err)
			}
			if !bytes.HasPrefix(want, w.buf) && !r.prefixed(rec, c, seen, w.buf) {
				r.Fail("not-a-prefix", "%s: the sink holds %d bytes that are no prefix of a valid file", what, len(w.buf))
			}
			continue
		}
		if err != nil {
			r.Fail("spurious", "%s: nothing failed, but Write reported %v", what, err)
		}
		if !bytes.Equal(w.buf, want) {
			// another way to store the same is fine
			o := r.reference(w.buf, c)
			if o.err != nil {
				r.Fail("success", "%s: Write reported success but the file does not load: %v", what, o.err)
			}
			if x := diff(seen, o.m, diffOpts{}); x != "" {
				r.Fail("success", "%s: Write reported success but the file differs: %s", what, x)
			}
		}
	}
	r.nontrivial = r.evals > 1
}

var holeKinds = []string{
	"nil sub-recording", "nil collection", "nil binary", "nil reference",
	"nil property of a recording", "nil property of a reference", "nil property of a binary", "nil property of an event",
	"collection without codec",
	"nil capture", "foreign capture",
	"unknown time technique", "unknown position technique", "unknown euler technique", "unknown float technique",
}

// c06refuse: what can not be serialised is refused.
func c06refuse(r *Run) {
	c := r.drawConfig()
	m := r.genRecording(genOpts{kinds: c.kinds(), small: true})
	var all []*MRec
	m.walk(func(x *MRec) { all = append(all, x) })
	target := all[r.Int(len(all))]
	kind := r.Int(len(holeKinds))
	g := r.Sub()
	nesting := r.Int(4)
	r.drawMapOrder()
	r.shape = m.hash()*31 + uint64(kind)
	r.desc = m.describe() + "; " + c.String() + "; " + holeKinds[kind]
	r.note("recording: %s", r.desc)

	spoilt := func(base MBlock) metadata.Block {
		b := map[string]metadata.Property{}
		for _, e := range base {
			b[e.Key] = buildProp(e.P)
		}
		var p metadata.Property
		for i := 0; i < nesting; i++ {
			inner := map[string]metadata.Property{"in": p, "x": metadata.NewIntProperty(1)}
			if g.Int(2) == 0 {
				p = metadata.NewMetadataProperty(metadata.NewBlock(inner))
			} else {
				p = metadata.NewMetadataArrayProperty([]metadata.Block{metadata.EmptyBlock(), metadata.NewBlock(inner)})
			}
		}
		b["hole"] = p
		return metadata.NewBlock(b)
	}
	bd := builder{}
	refuse := true
	bd.hole = func(x *MRec, p *parts) {
		if x != target {
			return
		}
		switch kind {
		case 0:
			i := g.Int(len(p.recs) + 1)
			p.recs = append(p.recs[:i:i], append([]format.Recording{nil}, p.recs[i:]...)...)
		case 1:
			i := g.Int(len(p.cols) + 1)
			p.cols = append(p.cols[:i:i], append([]format.CaptureCollection{nil}, p.cols[i:]...)...)
		case 2:
			i := g.Int(len(p.bins) + 1)
			p.bins = append(p.bins[:i:i], append([]format.Binary{nil}, p.bins[i:]...)...)
		case 3:
			i := g.Int(len(p.refs) + 1)
			p.refs = append(p.refs[:i:i], append([]format.BinaryReference{nil}, p.refs[i:]...)...)
		case 4:
			p.meta = spoilt(x.Meta)
		case 5:
			p.refs = append(p.refs, rapio.NewBinaryReference("ref", "uri", 3, spoilt(nil)))
		case 6:
			p.bins = append(p.bins, rapio.NewBinary("bin", []byte{1, 2, 3}, spoilt(nil)))
		case 7:
			caps := []event.Capture{}
			for i := g.Int(3); i > 0; i-- {
				caps = append(caps, event.NewCapture(0, "fine", metadata.EmptyBlock()))
			}
			caps = append(caps, event.NewCapture(1, "spoilt", spoilt(nil)))
			p.cols = append(p.cols, event.NewCollection("events", caps))
		case 8:
			i := g.Int(len(p.cols) + 1)
			x := &simCol{sig: "sim.unknown", name: "unknown", caps: make([]MCap, g.Int(3))}
			p.cols = append(p.cols[:i:i], append([]format.CaptureCollection{x}, p.cols[i:]...)...)
		case 9, 10:
			i := g.Int(len(p.cols) + 1)
			p.cols = append(p.cols[:i:i], append([]format.CaptureCollection{spoiltCol(g, kind == 9, c.Order[g.Int(len(c.Order))])}, p.cols[i:]...)...)
		default:
			refuse = false
		}
	}
	var rec format.Recording
	r.pre("building", func() error { rec = bd.rec(m); return nil })
	bad := c
	applies := refuse
	if !refuse {
		if c.Default {
			bad = c.effective()
		}
		has := map[int]bool{}
		m.walk(func(x *MRec) {
			for _, col := range x.Cols {
				has[col.Kind] = true
			}
		})
		switch kind {
		case 11:
			bad.Time = rapio.TimeStorageTechnique(r.OneOf(3, 77, 200))
			applies = len(has) > 0
		case 12:
			bad.Pos = r.OneOf(4, 99)
			applies = has[kPosition]
		case 13:
			bad.Euler = r.OneOf(3, 99)
			applies = has[kEuler]
		case 14:
			bad.Float = r.OneOf(3, 99)
			applies = has[kFloat]
		}
		if !applies {
			r.skip("the technique is not needed")
		}
	}
	w := r.writer()
	var err error
	r.again()
	r.guard("writing a recording with a "+holeKinds[kind], func() { _, err = bad.writer(w).Write(rec) })
	r.evals++
	r.nontrivial = true
	r.fault(holeKinds[kind])
	if err == nil {
		r.Fail("accepted", "a recording with a %s (nesting %d) was written without error", holeKinds[kind], nesting)
	}
	// only the codec can tell a foreign capture
	if refuse && kind != 10 && len(w.buf) > 0 {
		r.Fail("late", "a recording with a %s was refused only after %d bytes had been written: %v", holeKinds[kind], len(w.buf), err)
	}
}

// spoiltCol makes a third-party collection that a codec accepts, with a
// capture that is nil, or with captures of a type the codec does not know.
func spoiltCol(g *Rng, isNil bool, kind int) format.CaptureCollection {
	n := 1 + g.Int(4)
	c := &simCol{sig: kindName[kind], name: "foreign", caps: make([]MCap, n)}
	if isNil {
		return &holedCol{c, g.Int(n)}
	}
	return c
}

// holedCol is a collection one of whose captures is nil.
type holedCol struct {
	*simCol
	at int
}

func (c *holedCol) CaptureAt(i int) format.Capture {
	if i == c.at {
		return nil
	}
	return c.simCol.CaptureAt(i)
}

func (c *holedCol) Captures() []format.Capture {
	out := c.simCol.Captures()
	out[c.at] = nil
	return out
}
