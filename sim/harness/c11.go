package main

import (
	"encoding/binary"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/encoding/euler"
	rapio "github.com/recolude/rap/format/io"
)

func init() {
	scenarios["C11"] = c11
	plans["C11"] = Plan{Quick: 64000, Thorough: 800000, Chunk: 200,
		Rule: "One run draws a version 1 recording, encodes it with an encoder that shares nothing with rap, loads it from two or three streams with drawn deliveries (sometimes followed by other bytes) and compares everything it holds; draws three files that hold only part of a recording, or several, and requires that loading and upgrading refuse them; then it upgrades the file with the simulated command line, whose file reads are fragmented, and compares what the resulting version 2 file holds, within the precision of the upgrade's codecs. Non-trivial: at least one capture or metadata entry; distinct by shape and stream traffic.",
		Real: []string{"rap-cli's upgrade command (urfave/cli as shipped)"},
		Stub: []string{"version 1 files come from an encoder of our own", "disk, standard streams, log and exit"},
	}
}

// upgraded is how rap-cli upgrade stores recordings.
var upgradedConfig = Config{Pos: posOct24, Euler: int(euler.Raw16), Order: []int{kEvent, kPosition, kEuler, kEnum, kFloat}, Compress: true}

// ordered reports whether captures are in chronological order.
func ordered(m *MRec) bool {
	ok := true
	m.walk(func(x *MRec) {
		for _, c := range x.Cols {
			for i := 1; i < len(c.Caps); i++ {
				if c.Caps[i].T < c.Caps[i-1].T {
					ok = false
				}
			}
		}
	})
	return ok
}

// anyTime reports whether some time satisfies f.
func anyTime(m *MRec, f func(t float64) bool) bool {
	found := false
	m.walk(func(x *MRec) {
		for _, c := range x.Cols {
			for _, e := range c.Caps {
				found = found || f(e.T)
			}
		}
	})
	return found
}

// c11: version 1 files load and upgrade without losing content.
func c11(r *Run) {
	v := r.genV1(!r.Chance(1, 10))
	want := v.loaded()
	level := r.OneOf(6, 9, 1, 0)
	data := v.file(level)
	r.drawMapOrder()
	r.shape, r.desc = want.hash(), want.describe()
	r.note("recording: %s; %d bytes", r.desc, len(data))
	caps := 0
	want.walk(func(x *MRec) {
		caps += len(x.Meta)
		for _, c := range x.Cols {
			caps += len(c.Caps)
		}
	})
	r.nontrivial = caps > 0
	k := 2 + r.Int(2)
	for i := 0; i < k; i++ {
		d := r.drawStream()
		r.note("%s", d)
		in := data
		if r.Chance(1, 5) {
			in = append(append([]byte{}, data...), r.Sub().Bytes(1+r.Int(300))...)
			r.fault("trailing bytes")
		}
		s := r.reader(in, d)
		var o outcome
		r.again()
		if r.Bool() {
			r.guard("loading a version 1 file", func() { o.raw, o.n, o.err = rapio.Load(s.Stream()) })
			if o.err == nil {
				r.guard("walking a version 1 recording", func() {
					var err error
					if o.m, err = observe(o.raw); err != nil {
						r.Fail("unusable", "a version 1 file: %v", err)
					}
				})
			}
		} else {
			o = r.load("loading a version 1 file", rapio.NewReader(nil, s.Stream()))
		}
		r.evals++
		if o.err != nil {
			r.Fail("load-failed", "a version 1 file of %d bytes does not load with %s: %v", len(data), d, o.err)
		}
		if x := diff(want, o.m, diffOpts{captures: true}); x != "" {
			r.Fail("load-content", "with %s: %s", d, x)
		}
	}

	// what is only part of a recording is not one
	for i := 0; i < 3; i++ {
		what, in := r.partV1(v, level)
		if in == nil {
			continue
		}
		r.fault(what)
		d := r.drawStream()
		r.note("%s, %s: %x", what, d, in[:13])
		r.again()
		if r.Chance(1, 4) {
			inv := &invocation{args: []string{"upgrade", "-f", "in.rap"}, files: map[string][]byte{"in.rap": in}}
			inv.hook = r.shortReads()
			r.invoke(inv)
			r.evals++
			if inv.code == 0 {
				r.Fail("part-accepted", "%s: upgrading it succeeded", what)
			}
			continue
		}
		var rec format.Recording
		var err error
		s := r.reader(in, d)
		r.guard("loading "+what, func() { rec, _, err = rapio.Load(s.Stream()) })
		r.evals++
		if err == nil {
			r.Fail("part-accepted", "%s: it loads with %s", what, d)
		}
		if rec != nil {
			r.Fail("part-accepted", "%s: a recording and an error (%v) with %s", what, err, d)
		}
	}

	// upgrade
	r.again()
	inv := &invocation{args: []string{"upgrade", "-f", "in.rap"}, files: map[string][]byte{"in.rap": data}}
	inv.hook = r.shortReads()
	r.invoke(inv)
	if inv.code != 0 {
		r.Fail("upgrade-failed", "upgrading a version 1 file failed with status %d: %s", inv.code, inv.stderr.buf)
	}
	c := upgradedConfig
	c.Time = rapio.BST16
	if !ordered(want) {
		c.Time = rapio.Raw64
	}
	r.again()
	o := r.load("loading an upgraded file", c.reader(plainReader{r.reader(inv.stdout.buf, Delivery{})}))
	r.evals++
	if o.err != nil {
		r.Fail("upgrade-content", "an upgraded file does not load: %v", o.err)
	}
	if len(inv.stdout.buf) == 0 || inv.stdout.buf[0] != 2 {
		r.Fail("upgrade-content", "an upgraded file is not of version 2")
	}
	if x := diff(want, o.m, diffOpts{}); x != "" {
		r.Fail("upgrade-content", "after upgrading: %s", x)
	}
	if x := diffCaptures(want, o.m, c, "recording"); x != "" {
		r.Fail("upgrade-content", "after upgrading: %s", x)
	}
	r.fold(o.m.describe())
}

// partV1 draws a version 1 file that does not hold all of one recording, or
// nothing else.
func (r *Run) partV1(v *V1Rec, level int) (string, []byte) {
	proto := v.proto()
	switch r.Int(4) {
	case 0:
		in := v.file(level)
		n := r.OneOf(0, 2, 3, 256, 257, 65537, 1<<24+1, 1<<31, 1<<31+1, 1<<32-1)
		binary.LittleEndian.PutUint32(in[1:], uint32(n))
		for i := 1; i < n && i < 3; i++ {
			in = append(in, v.file(level)[5:]...)
		}
		return "file of another number of recordings than one", in
	case 1:
		z := deflate(proto, level)
		return "compressed recording that ends early", v1Wrap(z[:r.Int(len(z))])
	case 2:
		if len(proto) < 2 {
			return "", nil
		}
		at := 1 + r.Int(len(proto)-1)
		for p := 0; p < len(proto); {
			if p == at {
				return "", nil // between two of its parts
			}
			n, k := binary.Uvarint(proto[p+1:])
			p += 1 + k + int(n)
		}
		return "encoded recording that ends early", v1Wrap(deflate(proto[:at], level))
	default:
		in := v.file(level)
		n := uint64(len(in)-13) + uint64(r.OneOf(1, 2, 8, 1000, 1<<16, 1<<32, 1<<62, 1<<62+1<<61))
		if r.Chance(1, 8) {
			n |= 1 << 63
		}
		binary.LittleEndian.PutUint64(in[5:], n)
		return "file that ends before the recording it announces", in
	}
}

// shortReads makes simulated files deliver drawn pieces.
func (r *Run) shortReads() func(op, name string, n int) (int, error) {
	mode := r.Int(3)
	max := r.OneOf(1, 2, 7, 100, 1000)
	g := r.Sub()
	if mode > 0 {
		r.fault("short file reads")
	}
	return func(op, name string, n int) (int, error) {
		r.event(op+" "+name, n, 0, nil)
		if op != "read" || mode == 0 {
			return n, nil
		}
		k := max
		if mode == 2 {
			k = 1 + g.Int(max)
		}
		if k > n {
			k = n
		}
		return k, nil
	}
}
