package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"strings"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/encoding"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/verifsim/simrt"
)

func init() {
	scenarios["C14"] = c14
	plans["C14"] = Plan{Quick: 100000, Thorough: 3000000, Chunk: 200,
		Rule: "One run draws a set of simulated third-party codecs (signatures, versions, overlapping sets of accepted collections), some of rap's own, their order, and a tree of collections; it writes, reads with the codecs in another order and with other versions, and compares every call the codecs saw with the calls that produced the data. Then it lets one codec call fail, on either side, and reads with a codec missing, older or newer. Non-trivial: at least one collection; distinct by the configuration of codecs, the tree and the traffic.",
		Stub: []string{"third-party codecs that record what they are given and fail on demand"},
	}
}

// encoded is what a codec produced for one collection.
type encoded struct {
	codec        int
	header, data []byte
}

// decoded is what a codec was given for one collection.
type decoded struct {
	sig          string
	name         string
	header, data []byte
	times        []float64
}

// ledger records what codecs see.
type ledger struct {
	enc      map[int][]encoded // by collection
	dec      []*decoded
	encodes  int
	decodes  int
	failEnc  int // the encode call that fails (-1: none)
	failDec  int
	failed   int
	failWith int // 0: nothing but the error; 1: with a part of the result; 2: with a result
	err      error
	strange  string
}

// simCodec is a third-party codec.
type simCodec struct {
	id      int
	sig     string
	version uint
	accepts uint // set of classes
	mod     int  // if not 0, accepts one in so many collections, by number
	rem     int
	own     encoding.Encoder
	l       *ledger
	rng     *Rng
	sizes   []int
}

func classOf(c format.CaptureCollection) (class, uid int) {
	switch x := c.(type) {
	case *simCol:
		return x.class, x.uid
	default:
		for k := kPosition; k <= kFloat; k++ {
			if kindName[k] == c.Signature() {
				fmt.Sscanf(c.Name(), "own %d", &uid)
				return k, uid
			}
		}
	}
	return -1, -1
}

func (c *simCodec) Accepts(col format.CaptureCollection) bool {
	simrt.Tick()
	if col == nil {
		return false
	}
	if c.own != nil && !c.own.Accepts(col) {
		return false
	}
	class, uid := classOf(col)
	if c.mod > 0 {
		return class > kFloat && uid%c.mod == c.rem
	}
	return class >= 0 && c.accepts>>uint(class)&1 == 1
}

func (c *simCodec) Signature() string { return c.sig }
func (c *simCodec) Version() uint     { return c.version }

func (c *simCodec) Encode(cols []format.CaptureCollection) ([]byte, [][]byte, error) {
	simrt.Tick()
	c.l.encodes++
	if c.l.encodes-1 == c.l.failEnc {
		c.l.failed++
		switch c.l.failWith {
		case 1: // what there is of it
			return []byte{1}, make([][]byte, c.rng.Int(len(cols)+1)), c.l.err
		case 2: // all of it, all the same
			data := make([][]byte, len(cols))
			for i := range data {
				data[i] = []byte{byte(i)}
			}
			return []byte{1}, data, c.l.err
		}
		return nil, nil, c.l.err
	}
	for _, col := range cols {
		if !c.Accepts(col) {
			c.l.strange = fmt.Sprintf("codec %d was asked to encode %q, which it does not accept", c.id, col.Name())
		}
	}
	var header []byte
	var data [][]byte
	if c.own != nil {
		var err error
		header, data, err = c.own.Encode(cols)
		if err != nil {
			return header, data, err
		}
	} else {
		header = c.rng.Bytes(c.sizes[c.rng.Int(len(c.sizes))])
		for range cols {
			data = append(data, c.rng.Bytes(c.sizes[c.rng.Int(len(c.sizes))]))
		}
	}
	for i, col := range cols {
		_, uid := classOf(col)
		c.l.enc[uid] = append(c.l.enc[uid], encoded{c.id, append([]byte{}, header...), append([]byte{}, data[i]...)})
	}
	return header, data, nil
}

func (c *simCodec) Decode(name string, header, data []byte, times []float64) (format.CaptureCollection, error) {
	simrt.Tick()
	c.l.decodes++
	if c.l.decodes-1 == c.l.failDec {
		c.l.failed++
		if c.l.failWith == 2 {
			return &simCol{sig: "decoded", name: name, seen: &decoded{sig: c.sig, name: name}}, c.l.err
		}
		return nil, c.l.err
	}
	d := &decoded{c.sig, name, append([]byte{}, header...), append([]byte{}, data...), append([]float64{}, times...)}
	if c.own != nil {
		col, err := c.own.Decode(name, header, data, times)
		return &ownCol{col, d}, err
	}
	out := &simCol{sig: "decoded", name: name, seen: d}
	for _, t := range times {
		out.caps = append(out.caps, MCap{T: t})
	}
	return out, nil
}

// ownCol is a collection of rap's, with the call that made it.
type ownCol struct {
	format.CaptureCollection
	seen *decoded
}

type codecSet struct {
	codecs []*simCodec
	l      *ledger
}

func (s *codecSet) encoders(order []int) []encoding.Encoder {
	var out []encoding.Encoder
	for _, i := range order {
		out = append(out, s.codecs[i])
	}
	return out
}

func (s *codecSet) first(col format.CaptureCollection) int {
	for i, c := range s.codecs {
		if c.Accepts(col) {
			return i
		}
	}
	return -1
}

func c14(r *Run) {
	s := &codecSet{l: &ledger{enc: map[int][]encoded{}, failEnc: -1, failDec: -1}}
	const classes = kFloat + 1 + 6
	n := 1 + r.Int(8)
	shared := r.Chance(1, 6) // codecs may share a signature
	cfg := r.drawConfig()
	cfg.Default, cfg.Third = false, 0
	g := r.Sub()
	for i := 0; i < n; i++ {
		c := &simCodec{id: i, l: s.l, rng: g, sizes: []int{0, 1, 2, 17}}
		if r.Chance(1, 6) {
			c.sizes = append(c.sizes, 127, 128, 300, 5000)
		}
		if r.Chance(1, 3) {
			k := r.Int(kFloat + 1)
			c.own = codec(k, cfg)
			c.sig, c.version, c.accepts = c.own.Signature(), c.own.Version(), 1<<uint(k)
			for _, o := range s.codecs {
				if o.sig == c.sig {
					c.own = nil
				}
			}
		}
		if c.own == nil {
			c.sig = []string{"sim.a", "sim.b", "recolude.custom", "", "ünï", "sim.a2", "SIM.A", "Sim.b"}[r.Int(8)] + fmt.Sprint(i)
			if i > 0 && s.codecs[i-1].own == nil && r.Chance(1, 6) {
				// all but the same
				p := s.codecs[i-1].sig
				c.sig = []string{strings.ToUpper(p), p + " ", " " + p, p + "\x00", strings.Title(p), "recolude." + p}[r.Int(6)]
				for _, o := range s.codecs {
					if o.sig == c.sig {
						c.sig = fmt.Sprint("sim.c", i)
					}
				}
			}
			if i == 0 && r.Chance(1, 8) {
				c.sig = ""
			}
			if shared && i > 0 && r.Bool() && s.codecs[i-1].own == nil {
				c.sig = s.codecs[i-1].sig
			}
			c.version = []uint{0, 1, 2, 127, 128, 1 << 20, math.MaxInt64, math.MaxUint64}[r.Pick(6, 4, 2, 1, 1, 1, 1, 1)]
			c.accepts = uint(r.Int(1 << classes))
			if r.Chance(1, 4) {
				c.accepts = 1<<classes - 1
			}
		}
		s.codecs = append(s.codecs, c)
	}
	// now and then more codecs than one byte counts
	many := 0
	if r.Chance(1, 60) {
		many = []int{120, 127, 128, 129, 200, 255, 256, 257, 300}[r.Int(9)]
		for i := 0; i < many; i++ {
			s.codecs = append(s.codecs, &simCodec{id: n, sig: fmt.Sprint("many ", i), version: uint(r.Int(3)), mod: many, rem: i, l: s.l, rng: g, sizes: []int{0, 1, 2}})
			n++
		}
		if r.Chance(2, 3) {
			for _, c := range s.codecs[:n-many] {
				c.accepts &= 1<<(kFloat+1) - 1
			}
		}
	}
	// the last codec takes everything, so that there always is one
	if r.Chance(5, 6) || n == 1 {
		last := &simCodec{id: n, sig: "sim.last", version: uint(r.Int(3)), accepts: 1<<classes - 1, l: s.l, rng: g, sizes: []int{0, 1, 33}}
		s.codecs = append(s.codecs, last)
		n++
	}
	m := r.genRecording(genOpts{kinds: []int{kPosition, kEuler, kEvent, kEnum, kFloat, kSim, kSim, kSim}, small: !r.Chance(1, 10), enumValid: true, focusCaps: r.Chance(3, 4)})
	for i := 0; i < many; i++ {
		c := MCol{Kind: kSim, Sig: kindName[kSim], Name: fmt.Sprint("one of many ", i)}
		for k := i % 3; k > 0; k-- {
			c.Caps = append(c.Caps, MCap{T: float64(4 - k), N: k})
		}
		to := m
		if len(m.Recs) > 0 && i%3 == 0 {
			to = m.Recs[i%len(m.Recs)]
		}
		to.Cols = append(to.Cols, c)
	}
	r.drawMapOrder()
	uid := 0
	var want []wanted
	bd := builder{collection: func(c MCol) format.CaptureCollection {
		id := uid
		uid++
		if c.Kind != kSim {
			c.Name = fmt.Sprintf("own %d", id)
			return buildCol(c)
		}
		return &simCol{sig: c.Sig, name: c.Name, caps: c.Caps, class: kFloat + 1 + g.Int(6), uid: id}
	}}
	var rec format.Recording
	r.pre("building", func() error { rec = bd.rec(m); return nil })
	unaccepted := false
	r.eachCol(rec, func(c format.CaptureCollection) {
		class, id := classOf(c)
		w := wanted{col: c, uid: id, class: class, codec: s.first(c)}
		unaccepted = unaccepted || w.codec < 0
		want = append(want, w)
	})
	sigs := ""
	for i, c := range s.codecs {
		sigs += fmt.Sprintf(" %d:%q v%d accepts %#x own=%v", i, c.sig, c.version, c.accepts, c.own != nil)
	}
	r.shape = m.hash()
	for _, c := range s.codecs {
		r.shape = r.shape*1099511628211 ^ uint64(c.accepts)<<8 ^ uint64(len(c.sig))
	}
	r.desc = fmt.Sprintf("%s; %d codecs, compress=%v time=%d", m.describe(), n, cfg.Compress, cfg.Time)
	r.note("recording: %s; codecs:%s", r.desc, sigs)
	r.nontrivial = len(want) > 0
	order := make([]int, n)
	for i := range order {
		order[i] = i
	}
	write := func() ([]byte, error) {
		w := r.writer()
		var err error
		r.again()
		r.guard("writing", func() {
			_, err = rapio.NewWriter(s.encoders(order), cfg.Compress, w, cfg.Time).Write(rec)
		})
		return w.buf, err
	}
	data, err := write()
	r.evals++
	if unaccepted {
		if err == nil {
			r.Fail("no-codec", "a recording with a collection no codec accepts was written")
		}
		return
	}
	if err != nil {
		r.Fail("refused", "writing fails: %v", err)
	}
	if s.l.strange != "" {
		r.Fail("wrong-codec", "%s", s.l.strange)
	}
	calls := s.l.encodes
	for _, w := range want {
		es := s.l.enc[w.uid]
		if len(es) == 0 {
			r.Fail("wrong-codec", "collection %d was encoded by nobody", w.uid)
		}
		for _, e := range es {
			if e.codec != w.codec {
				r.Fail("wrong-codec", "collection %d of class %d was encoded by codec %d; codec %d comes first", w.uid, w.class, e.codec, w.codec)
			}
		}
	}
	// one codec for each signature reads
	var readers []int
	seen := map[string]bool{}
	used := map[string]uint{}
	for _, w := range want {
		c := s.codecs[w.codec]
		if v, ok := used[c.sig]; !ok || v < c.version {
			used[c.sig] = c.version
		}
	}
	for _, i := range r.Perm(n) {
		c := s.codecs[i]
		if !seen[c.sig] && (used[c.sig] <= c.version) {
			seen[c.sig] = true
			readers = append(readers, i)
		}
	}
	read := func(encs []encoding.Encoder) (format.Recording, error) {
		var got format.Recording
		var err error
		r.again()
		s.l.decodes = 0
		r.guard("reading", func() { got, _, err = rapio.NewReader(encs, r.reader(data, r.drawStream()).Stream()).Read() })
		return got, err
	}
	rounds := 1 + r.Int(4)
	for round := 0; round <= rounds; round++ {
		kind := 0
		if round > 0 {
			kind = 1 + r.Int(5)
		}
		s.l.failEnc, s.l.failDec, s.l.failed = -1, -1, 0
		switch kind {
		case 0, 5: // the codecs are there, perhaps newer; some that are not needed are missing
			var encs []encoding.Encoder
			for _, i := range readers {
				c := *s.codecs[i]
				if round > 0 && c.own == nil && r.Bool() && c.version < math.MaxInt64 {
					c.version += uint(1 + r.Int(3))
					r.fault("newer codec registered")
				}
				if _, needed := used[c.sig]; !needed && r.Bool() {
					r.fault("unneeded codec missing")
					continue
				}
				encs = append(encs, &c)
			}
			r.evals++
			got, err := read(encs)
			if err != nil {
				r.Fail("refused", "reading fails: %v", err)
			}
			r.compareCodecCalls(s, cfg, want, got)
			r.fold(fmt.Sprint(s.l.decodes))
		case 1: // an encoding fails
			if calls == 0 {
				continue
			}
			s.l.encodes, s.l.failEnc, s.l.err = 0, r.Int(calls), r.drawError()
			s.l.failWith = r.Int(3)
			r.note("encode call %d fails", s.l.failEnc)
			_, err := write()
			if s.l.failed == 0 {
				continue
			}
			r.evals++
			r.fault("codec fails to encode")
			if err == nil {
				r.Fail("swallowed", "encode call %d failed, and writing succeeded", s.l.failEnc)
			}
			if !errors.Is(err, s.l.err) {
				r.Fail("swallowed", "encode call %d failed with %q, and writing with %q", s.l.failEnc, s.l.err, err)
			}
		case 2: // a decoding fails
			if len(want) == 0 {
				continue
			}
			s.l.failDec, s.l.err = r.Int(len(want)), r.drawError()
			s.l.failWith = r.Int(3)
			if r.Chance(1, 5) {
				s.l.err = io.EOF
			}
			r.note("decode call %d fails", s.l.failDec)
			_, err := read(s.encoders(readers))
			if s.l.failed == 0 {
				continue
			}
			r.evals++
			r.fault("codec fails to decode")
			if err == nil {
				r.Fail("swallowed", "decode call %d failed, and reading succeeded", s.l.failDec)
			}
			if !errors.Is(err, s.l.err) {
				r.Fail("swallowed", "decode call %d failed with %q, and reading with %q", s.l.failDec, s.l.err, err)
			}
		case 3, 4: // a needed codec is missing or too old
			if len(want) == 0 {
				continue
			}
			victim := s.codecs[want[r.Int(len(want))].codec].sig
			need := used[victim]
			var encs []encoding.Encoder
			what := ""
			for _, i := range readers {
				c := *s.codecs[i]
				if c.sig == victim {
					if kind == 3 || need == 0 {
						what = "missing"
						continue
					}
					what = "too old"
					c.version = []uint{need - 1, 0, need / 2}[r.Int(3)]
				}
				encs = append(encs, &c)
			}
			if r.Chance(1, 3) {
				// something else with nearly its name
				c := *s.codecs[0]
				c.own = nil
				c.sig, c.version = []string{victim + "x", strings.ToUpper(victim) + " ", strings.Title(victim) + "\x00"}[r.Int(3)], need
				if up := strings.ToUpper(victim); up != victim && r.Bool() {
					c.sig = up
				}
				encs = append(encs, &c)
			}
			r.note("codec %q is %s", victim, what)
			_, err := read(encs)
			r.evals++
			r.fault("needed codec " + what)
			if err == nil {
				r.Fail("accepted", "codec %q, version %d, is %s, and reading succeeded", victim, need, what)
			}
		}
	}
}

type wanted struct {
	col               format.CaptureCollection
	uid, class, codec int
}

// eachCol visits the collections of a tree in order.
func (r *Run) eachCol(rec format.Recording, f func(format.CaptureCollection)) {
	for _, c := range rec.CaptureCollections() {
		f(c)
	}
	for _, x := range rec.Recordings() {
		r.eachCol(x, f)
	}
}

func (r *Run) compareCodecCalls(s *codecSet, cfg Config, want []wanted, got format.Recording) {
	i := 0
	r.eachCol(got, func(c format.CaptureCollection) {
		if i >= len(want) {
			r.Fail("content", "more than %d collections came back", len(want))
		}
		w := want[i]
		i++
		var d *decoded
		switch x := c.(type) {
		case *simCol:
			d = x.seen
		case *ownCol:
			d = x.seen
		}
		if d == nil {
			r.Fail("content", "collection %d came back as a %T no codec made", w.uid, c)
		}
		codec := s.codecs[w.codec]
		if d.sig != codec.sig {
			r.Fail("wrong-codec", "collection %d was encoded by %q and decoded by %q", w.uid, codec.sig, d.sig)
		}
		if d.name != w.col.Name() {
			r.Fail("content", "collection %d: the codec was given the name %s, want %s", w.uid, short(d.name), short(w.col.Name()))
		}
		match := false
		for _, e := range s.l.enc[w.uid] {
			match = match || bytes.Equal(e.header, d.header) && bytes.Equal(e.data, d.data)
		}
		if !match {
			e := s.l.enc[w.uid][0]
			r.Fail("content", "collection %d: codec %q produced a header of %d bytes and %d bytes of data, and was given others of %d and %d", w.uid, codec.sig, len(e.header), len(e.data), len(d.header), len(d.data))
		}
		a, b := MCol{}, MCol{}
		for _, x := range w.col.Captures() {
			a.Caps = append(a.Caps, MCap{T: x.Time()})
		}
		for _, t := range d.times {
			b.Caps = append(b.Caps, MCap{T: t})
		}
		if len(a.Caps) != len(b.Caps) {
			r.Fail("content", "collection %d: the codec was given %d times, want %d", w.uid, len(b.Caps), len(a.Caps))
		}
		if x := diffTimes(&a, &b, cfg.Time, fmt.Sprintf("collection %d", w.uid)); x != "" {
			r.Fail("content", "%s", x)
		}
	})
	if i != len(want) {
		r.Fail("content", "%d of %d collections came back", i, len(want))
	}
}
