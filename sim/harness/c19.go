package main

import (
	"errors"

	rapio "github.com/recolude/rap/format/io"
)

func init() {
	scenarios["C19"] = c19
	plans["C19"] = Plan{Quick: 30000, Thorough: 1200000, Chunk: 150,
		Rule: "One run is a history of up to four stores and loads of one recording, each by the current release (rap) or by the earlier one (an executable model of the stored format that shares no code with rap), with codecs, techniques, compression, map order and delivery drawn anew for every step and crashes that leave a prefix of the file behind. Whatever a release loads has to be what the other stored. Non-trivial: at least one file crossed between releases; distinct by shape of the recording and by everything that crossed the streams.",
		Stub: []string{"earlier release of rap (model of its version 2 format)"},
	}
}

// C19: recordings cross between releases.
func c19(r *Run) {
	kinds := []int{kPosition, kEuler, kEvent, kEnum, kFloat}
	if r.Chance(1, 6) {
		kinds = kinds[:4]
	}
	m := r.genRecording(genOpts{kinds: kinds, focusCaps: r.Bool()})
	rec, cur := r.modelled(m)
	hops := 1 + r.Pick(6, 3, 1, 1)
	for hop := 0; hop < hops; hop++ {
		c := r.drawConfig()
		c.Third, c.Sig, c.Ver = 0, "", 0
		if c.Default && hasFloat(cur) {
			c.Default, c.Order = false, []int{kEvent, kPosition, kEuler, kEnum, kFloat}
		}
		r.drawMapOrder()
		r.again()
		if r.Bool() {
			r.note("upgrade: stored by the earlier release, loaded by this one; %s", c)
			data := oldWrite(cur, c, r.Sub())
			want, slack, err := oldRead(data)
			if err != nil {
				panic("harness: the model can not read its own file: " + err.Error())
			}
			r.crashed(data, want, slack, c)
			d := r.drawStream()
			r.note("%d bytes; %s", len(data), d)
			r.again()
			o := r.understand(data, d, c)
			if o.err != nil {
				r.Fail("old-refused", "a file of the earlier release is refused: %v (%s)", o.err, c)
			}
			if x := diff(want, o.m, diffOpts{}); x != "" {
				r.Fail("old-misread", "a file of the earlier release loads differently: %s (%s)", x, c)
			}
			if x := diffUnderstood(want, o.m, slack); x != "" {
				r.Fail("old-misread", "a file of the earlier release loads differently: %s (%s)", x, c)
			}
			rec, cur = o.raw, o.m
			r.evals++
			r.nontrivial = true
			r.fault("upgrade")
		} else {
			r.note("downgrade: stored by this release, loaded by the earlier one; %s", c)
			var data []byte
			r.pre("writing", func() error {
				w := r.writer()
				_, err := c.writer(w).Write(rec)
				data = w.buf
				return err
			})
			got, _, err := oldRead(data)
			if errors.Is(err, errNewer) {
				r.skip("the file is marked as newer")
			}
			if err != nil {
				r.Fail("new-refused", "a file of this release is refused by the earlier one: %v (%s)", err, c)
			}
			if x := diff(cur, got, diffOpts{}); x != "" {
				r.Fail("new-misread", "a file of this release is understood differently by the earlier one: %s (%s)", x, c)
			}
			// the earlier release's own words for properties are not modelled
			cur.walk(func(x *MRec) {
				for _, col := range x.Cols {
					for _, y := range col.Caps {
						for i := range y.Meta {
							y.Meta[i].P.Str = ""
						}
					}
				}
			})
			if x := diffCaptures(cur, got, c, "recording"); x != "" {
				r.Fail("new-misread", "a file of this release is understood differently by the earlier one: %s (%s)", x, c)
			}
			r.evals++
			r.nontrivial = true
			r.fault("downgrade")
			if hop+1 < hops {
				r.pre("building", func() (err error) {
					rec = build(got)
					cur, err = observe(rec)
					return err
				})
			}
		}
	}
	r.fold(cur.describe())
}

// understand loads a file of the earlier release.
func (r *Run) understand(data []byte, d Delivery, c Config) outcome {
	rd := r.reader(data, d)
	if !c.Default || r.Bool() {
		return r.load("Read", r.readerFor(c, rd.Stream()))
	}
	var o outcome
	r.guard("Load", func() { o.raw, o.n, o.err = rapio.Load(rd.Stream()) })
	if o.err == nil {
		r.guard("walking the result", func() {
			var err error
			if o.m, err = observe(o.raw); err != nil {
				r.Fail("unusable", "%v", err)
			}
		})
	}
	return o
}

// crashed loads what a crash of the earlier release left of a file.
func (r *Run) crashed(data []byte, want *MRec, slack []loose, c Config) {
	if !r.Chance(1, 3) {
		return
	}
	at := r.offsets(len(data)-1, 1+r.Int(6))
	for _, n := range at {
		r.again()
		r.note("the earlier release crashed after %d of %d bytes", n, len(data))
		r.fault("crash while storing")
		o := r.load("Read", c.reader(r.reader(data[:n], Delivery{}).Stream()))
		r.evals++
		if o.err != nil {
			continue
		}
		if x := diff(want, o.m, diffOpts{}); x != "" {
			r.Fail("torn", "what a crash left (%d of %d bytes) loads without an error: %s", n, len(data), x)
		}
		if x := diffUnderstood(want, o.m, slack); x != "" {
			r.Fail("torn", "what a crash left (%d of %d bytes) loads without an error: %s", n, len(data), x)
		}
	}
}
