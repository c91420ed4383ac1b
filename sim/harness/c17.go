package main

import (
	"fmt"
	"math"
)

func init() {
	scenarios["C17"] = func(r *Run) { windows(r, false) }
	plans["C17"] = Plan{Quick: 120000, Thorough: 1200000, Chunk: 150,
		Rule: windowsRule + "Every verdict of validation and every start, end and duration is compared with what the captures say that the recording shows. Non-trivial: at least one recording was judged; distinct by shapes of the recordings and by schedule and results.",
		Stub: []string{"goroutine scheduler and sync primitives (one task runs at a time; the scheduler draws which)"}}
}

// judgeSaid compares what rap says of a recording with what its captures say.
func judgeSaid(r *Run, s sighting) {
	disordered := ""
	start, end := math.Inf(1), math.Inf(-1)
	any, nan := false, false
	s.want.walk(func(x *MRec) {
		for i, c := range x.Cols {
			for k := range c.Caps {
				nan = nan || math.IsNaN(c.Caps[k].T)
				if k > 0 && c.Caps[k].T < c.Caps[k-1].T && disordered == "" {
					disordered = fmt.Sprintf("capture %d of collection %d of recording %s", k, i, short(x.ID))
				}
			}
			if len(c.Caps) > 0 {
				any = true
				start = math.Min(start, c.Caps[0].T)
				end = math.Max(end, c.Caps[len(c.Caps)-1].T)
			}
		}
	})
	for i, err := range []error{s.said.strict, s.said.byDefault} {
		how := []string{"with chronological order required", "by default"}[i]
		if err == nil && disordered != "" {
			r.Fail("valid", "%s is found valid %s, but %s is earlier than its predecessor", s.what, how, disordered)
		}
		if err != nil && disordered == "" {
			r.Fail("valid", "%s is found invalid %s, but all its captures are in order: %v", s.what, how, err)
		}
	}
	if s.said.lax != nil {
		r.Fail("valid", "%s is found invalid without chronological order being required: %v", s.what, s.said.lax)
	}
	r.fold(fmt.Sprint(disordered == "", start, end))
	if !any || nan {
		return
	}
	if s.said.start != start {
		r.Fail("measure", "%s starts at %v, want %v", s.what, s.said.start, start)
	}
	if s.said.end != end {
		r.Fail("measure", "%s ends at %v, want %v", s.what, s.said.end, end)
	}
	if d := end - start; s.said.duration != d && !(math.IsNaN(d) && math.IsNaN(s.said.duration)) {
		r.Fail("measure", "%s lasts %v, want %v", s.what, s.said.duration, d)
	}
}
