package main

import (
	"fmt"
	"math"
	"runtime"

	"github.com/recolude/rap/format"
	rapio "github.com/recolude/rap/format/io"
)

func init() {
	scenarios["C05"] = c05
	plans["C05"] = Plan{Quick: 80000, Thorough: 1200000, Chunk: 100,
		Rule: "One run draws a file and damages it 12 times with one to four byte-level faults (bit flips, overwritten bytes and counts, dropped, duplicated, inserted, zeroed and misplaced ranges, truncation), in front of or behind its compression, and loads it within budgets of steps, single allocations and total allocation proportional to the data present. What loads is walked, measured, validated, sliced, written again and now and then given to every rap-cli command. Non-trivial: at least one damaged file was neither refused at its first bytes nor identical to the original; distinct by shape and by the sequence of reads.",
	}
}

// C05: damaged input never crashes, hangs or exhausts memory, and what it
// loads as can be used.
func c05(r *Run) {
	f := r.drawFile(fileOpts{small: !r.Chance(1, 10)})
	k := 12
	if len(f.data) > 20000 {
		k = 4
	}
	var ms runtime.MemStats
	for i := 0; i < k; i++ {
		data := r.damaged(f, r.Sub())
		room := len(data)
		if off, comp, ok := v2Body(data); ok && comp {
			room += len(inflate(data[off:]))
		} else if len(data) > 13 && data[0] == 1 {
			room += len(inflate(data[13:]))
		}
		r.again()
		r.limit(2_000_000+3000*uint64(room), 1<<20+200*int64(room))
		s := r.reader(data, Delivery{})
		if r.Chance(1, 4) {
			s = r.reader(data, r.drawStream())
		}
		r.note("damaged file of %d bytes (%d inflated)", len(data), room)
		if r.tracing && len(data) < 600 {
			r.note("bytes: %x", data)
		}
		var o outcome
		c := f.cfg
		useLoad := r.Chance(1, 6)
		what := fmt.Sprintf("loading a damaged file of %d bytes", len(data))
		runtime.ReadMemStats(&ms)
		before := ms.TotalAlloc
		r.guard(what, func() {
			if useLoad {
				o.raw, o.n, o.err = rapio.Load(s.Stream())
			} else {
				o.raw, o.n, o.err = c.reader(s.Stream()).Read()
			}
		})
		runtime.ReadMemStats(&ms)
		if used := ms.TotalAlloc - before; used > 32<<20+4000*uint64(room) {
			r.Fail("allocation", "%s (%d inflated) allocated %d bytes in all", what, room, used/1000*1000)
		}
		r.evals++
		r.event("outcome", len(data), o.n, o.err)
		if o.err != nil {
			if s.pos > 40 {
				r.nontrivial = true
			}
			continue
		}
		r.nontrivial = true
		r.limit(20_000_000+20000*uint64(room), 1<<24+2000*int64(room))
		r.use(what, o.raw, i == 0 && r.Bool())
		if i == 0 && r.Chance(1, 3) {
			for _, args := range [][]string{{"summarize", "-f", "x"}, {"to-json", "-f", "x"}, {"upgrade", "-f", "x"}} {
				r.again()
				r.invoke(&invocation{args: args, files: map[string][]byte{"x": data}, what: "rap-cli " + args[0] + " on a damaged file"})
			}
		}
	}
}

// use does with a recording what its users do.
func (r *Run) use(what string, rec format.Recording, deep bool) {
	r.guard("walking the result of "+what, func() {
		if _, err := observe(rec); err != nil {
			r.Fail("unusable", "%s succeeded but %v", what, err)
		}
	})
	r.guard("measuring the result of "+what, func() {
		format.RecordingStart(rec)
		format.RecordingEnd(rec)
		format.RecordingDuration(rec)
	})
	r.guard("validating the result of "+what, func() { format.Validate(rec) })
	r.guard("slicing the result of "+what, func() {
		s := format.Slice(rec, format.BeginningOfSlice(1), format.EndOfSlice(math.Inf(1)), format.KeepBinariesInSlice(deep))
		if _, err := observe(s); err != nil {
			r.Fail("unusable", "a slice of the result of %s: %v", what, err)
		}
	})
	r.guard("writing the result of "+what, func() {
		c := Config{Order: []int{kEvent, kPosition, kEuler, kEnum, kFloat}, Pos: posOct48, Compress: deep, Time: rapio.BST16}
		w := r.writer()
		w.quiet = true
		c.writer(w).Write(rec)
	})
}
