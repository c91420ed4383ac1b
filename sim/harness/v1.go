package main

import (
	"bytes"
	"compress/flate"
	"encoding/binary"
	"fmt"
	"math"
	"strconv"
)

// Version 1 files: a model, an encoder that shares nothing with rap, and what
// loading them must give.

type V1Event struct {
	T        float32
	Name     string
	Contents string
	Data     [][2]string
}

type V1Vec struct{ T, X, Y, Z float32 }

type V1Life struct {
	T    float32
	Type int
}

type V1Subject struct {
	ID     int32
	Name   string
	Meta   [][2]string
	Events []V1Event
	Life   []V1Life
	Pos    []V1Vec
	Rot    []V1Vec
}

type V1Rec struct {
	Name     string
	Meta     [][2]string
	Subjects []V1Subject
	Events   []V1Event
}

type pb struct{ bytes.Buffer }

func (b *pb) varint(v uint64) {
	var t [10]byte
	b.Write(t[:binary.PutUvarint(t[:], v)])
}
func (b *pb) tag(field, wire int) { b.varint(uint64(field<<3 | wire)) }
func (b *pb) bytes(field int, d []byte) {
	b.tag(field, 2)
	b.varint(uint64(len(d)))
	b.Write(d)
}
func (b *pb) str(field int, s string) {
	if s != "" {
		b.bytes(field, []byte(s))
	}
}
func (b *pb) f32(field int, f float32) {
	if math.Float32bits(f) != 0 {
		b.tag(field, 5)
		var t [4]byte
		binary.LittleEndian.PutUint32(t[:], math.Float32bits(f))
		b.Write(t[:])
	}
}
func (b *pb) mapping(field int, m [][2]string) {
	for _, kv := range m {
		var e pb
		e.str(1, kv[0])
		e.str(2, kv[1])
		b.bytes(field, e.Bytes())
	}
}

func v1Event(e V1Event) []byte {
	var b pb
	b.f32(1, e.T)
	b.str(2, e.Name)
	b.str(3, e.Contents)
	b.mapping(4, e.Data)
	return b.Bytes()
}

func v1Vec(v V1Vec) []byte {
	var b pb
	b.f32(1, v.T)
	b.f32(2, v.X)
	b.f32(3, v.Y)
	b.f32(4, v.Z)
	return b.Bytes()
}

func v1Subject(s V1Subject) []byte {
	var b pb
	if s.ID != 0 {
		b.tag(1, 0)
		b.varint(uint64(int64(s.ID)))
	}
	b.str(2, s.Name)
	b.mapping(3, s.Meta)
	for _, e := range s.Events {
		b.bytes(4, v1Event(e))
	}
	for _, l := range s.Life {
		var e pb
		e.f32(1, l.T)
		if l.Type != 0 {
			e.tag(2, 0)
			e.varint(uint64(l.Type))
		}
		b.bytes(5, e.Bytes())
	}
	for _, v := range s.Pos {
		b.bytes(6, v1Vec(v))
	}
	for _, v := range s.Rot {
		b.bytes(7, v1Vec(v))
	}
	return b.Bytes()
}

func (m *V1Rec) proto() []byte {
	var b pb
	b.str(1, m.Name)
	b.mapping(2, m.Meta)
	for _, s := range m.Subjects {
		b.bytes(3, v1Subject(s))
	}
	for _, e := range m.Events {
		b.bytes(4, v1Event(e))
	}
	return b.Bytes()
}

func deflate(b []byte, level int) []byte {
	var out bytes.Buffer
	w, _ := flate.NewWriter(&out, level)
	w.Write(b)
	w.Close()
	return out.Bytes()
}

func v1Wrap(deflated []byte) []byte {
	out := []byte{1, 1, 0, 0, 0}
	var t [8]byte
	binary.LittleEndian.PutUint64(t[:], uint64(len(deflated)))
	return append(append(out, t[:]...), deflated...)
}

func (m *V1Rec) file(level int) []byte { return v1Wrap(deflate(m.proto(), level)) }

var v1Members = []string{"START", "ENABLE", "DISABLE", "DESTROY"}

func strProp(s string) MProp { return MProp{S: s, Str: s} }

func v1Meta(kv [][2]string) MBlock {
	out := MBlock{}
	for _, e := range kv {
		if f, err := strconv.ParseFloat(e[1], 32); err == nil {
			out = append(out, MEntry{e[0], MProp{Code: 2, F: math.Float32bits(float32(f))}})
		} else {
			out = append(out, MEntry{e[0], strProp(e[1])})
		}
	}
	return out.sorted()
}

func v1Events(es []V1Event) MCol {
	c := MCol{Kind: kEvent, Sig: kindName[kEvent], Name: "Custom Event"}
	for _, e := range es {
		mc := MCap{T: float64(e.T), Name: e.Name}
		if len(e.Data) == 0 {
			mc.Meta = MBlock{{"value", strProp(e.Contents)}}
		} else {
			for _, kv := range e.Data {
				mc.Meta = append(mc.Meta, MEntry{kv[0], strProp(kv[1])})
			}
			mc.Meta.sorted()
		}
		c.Caps = append(c.Caps, mc)
	}
	return c
}

func v1Vecs(kind int, name string, vs []V1Vec) MCol {
	c := MCol{Kind: kind, Sig: kindName[kind], Name: name}
	for _, v := range vs {
		c.Caps = append(c.Caps, MCap{T: float64(v.T), V: [3]float64{float64(v.X), float64(v.Y), float64(v.Z)}})
	}
	return c
}

// loaded is what loading the file must show.
func (m *V1Rec) loaded() *MRec {
	out := &MRec{ID: m.Name, Name: m.Name, Meta: v1Meta(m.Meta), Cols: []MCol{v1Events(m.Events)}}
	for _, s := range m.Subjects {
		life := MCol{Kind: kEnum, Sig: kindName[kEnum], Name: "Life Cycle", Members: v1Members}
		for _, l := range s.Life {
			life.Caps = append(life.Caps, MCap{T: float64(l.T), N: l.Type})
		}
		out.Recs = append(out.Recs, &MRec{
			ID: fmt.Sprint(s.ID), Name: s.Name, Meta: v1Meta(s.Meta),
			Cols: []MCol{v1Vecs(kPosition, "Position", s.Pos), v1Vecs(kEuler, "Rotation", s.Rot), v1Events(s.Events), life},
		})
	}
	return out
}

// genV1 draws a version 1 recording.
func (r *Run) genV1(small bool) *V1Rec {
	g := &gen{r: r, o: genOpts{utf8: true, kinds: []int{kPosition}}}
	n := r.Int(5)
	if !small && r.Chance(1, 8) {
		n = r.OneOf(20, 127, 128, 300)
	}
	max := r.OneOf(0, 1, 3, 10, 30)
	if !small && r.Chance(1, 6) {
		max = r.OneOf(100, 1000, 5000)
		if n > 5 {
			n = 5
		}
	}
	g.rng = r.Sub()
	for i := 0; i < 3; i++ {
		g.names = append(g.names, g.freshName())
	}
	ordered := r.Chance(2, 3)
	g.o.ordered = ordered
	g.o.f32 = true
	g.o.jsonSafe = r.Chance(2, 3)
	kv := func() [][2]string {
		var out [][2]string
		seen := map[string]bool{}
		for i := g.rng.Int(4); i > 0; i-- {
			k := fmt.Sprint(g.name(), g.rng.Int(4))
			if seen[k] {
				continue
			}
			seen[k] = true
			v := []string{"", "text", "1", "-2.5", "1e3", "0x10", "1e99", "12abc", " 3", "3.4028235e38", "007", "null"}[g.rng.Int(12)]
			if !g.o.jsonSafe && g.rng.Chance(1, 5) {
				v = []string{"NaN", "Inf", "-inf", "+Infinity", "nan", "0x1p-2", "1_0", "-0", "1e-46", "1E5"}[g.rng.Int(10)]
			}
			if g.rng.Chance(1, 4) {
				v = g.name()
			}
			out = append(out, [2]string{k, v})
		}
		return out
	}
	count := func() int { return g.rng.Int(max + 1) }
	times := func(n int) []float32 {
		out := make([]float32, n)
		for i, t := range g.times(n) {
			out[i] = float32(t)
			if math.IsInf(float64(out[i]), 0) {
				out[i] = float32(i)
			}
		}
		return out
	}
	events := func() (out []V1Event) {
		c := count()
		for _, t := range times(c) {
			e := V1Event{T: t, Name: g.name()}
			if g.rng.Chance(1, 2) {
				e.Contents = g.name()
			}
			if g.rng.Chance(1, 2) {
				e.Data = kv()
			}
			out = append(out, e)
		}
		return
	}
	vecs := func(kind int) (out []V1Vec) {
		c := count()
		w := g.values(kind)
		for i, t := range times(c) {
			v := w(i)
			out = append(out, V1Vec{t, float32(v[0]), float32(v[1]), float32(v[2])})
		}
		return
	}
	m := &V1Rec{Name: g.name(), Meta: kv(), Events: events()}
	for i := 0; i < n; i++ {
		s := V1Subject{ID: []int32{int32(i), 0, -1, 1 << 30, int32(g.rng.Int(1000)), math.MinInt32}[g.rng.Int(6)], Name: g.name(), Meta: kv(), Events: events()}
		c := count()
		for _, t := range times(c) {
			k := g.rng.Int(4)
			if g.rng.Chance(1, 30) { // written by a version that knows more of them
				k = []int{4, 5, 127, 1 << 20, -1}[g.rng.Int(5)]
			}
			s.Life = append(s.Life, V1Life{t, k})
		}
		s.Pos, s.Rot = vecs(kPosition), vecs(kEuler)
		m.Subjects = append(m.Subjects, s)
	}
	return m
}
