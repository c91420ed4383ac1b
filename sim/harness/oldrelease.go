package main

import (
	"bytes"
	"compress/flate"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"

	"github.com/recolude/rap/format/encoding/euler"
	"github.com/recolude/rap/format/encoding/float"
	"github.com/recolude/rap/format/encoding/position"
	rapio "github.com/recolude/rap/format/io"
)

// The release of rap that these checks were written for, as far as its version
// 2 files go: an executable model of what it stores and of how it understands
// what is stored. It shares no code with rap.

// --- storing ------------------------------------------------------------------

type enc struct{ bytes.Buffer }

func (e *enc) uvarint(v uint64) {
	var t [binary.MaxVarintLen64]byte
	e.Write(t[:binary.PutUvarint(t[:], v)])
}
func (e *enc) str(s string) { e.uvarint(uint64(len(s))); e.WriteString(s) }
func (e *enc) block(b []byte) {
	e.uvarint(uint64(len(b)))
	e.Write(b)
}
func (e *enc) u32(v uint32) {
	var t [4]byte
	binary.LittleEndian.PutUint32(t[:], v)
	e.Write(t[:])
}
func (e *enc) u64(v uint64) {
	var t [8]byte
	binary.LittleEndian.PutUint64(t[:], v)
	e.Write(t[:])
}
func (e *enc) f32(v float64) { e.u32(math.Float32bits(float32(v))) }
func (e *enc) f64(v float64) { e.u64(math.Float64bits(v)) }

// prop writes a property without its code.
func (e *enc) prop(p MProp) {
	switch p.Code {
	case 0:
		e.str(p.S)
	case 1:
		e.u32(uint32(p.I))
	case 2:
		e.u32(p.F)
	case 3, 4:
	case 5:
		e.WriteByte(byte(p.I))
	case 6:
		e.f64(p.V[0])
		e.f64(p.V[1])
	case 7:
		e.f64(p.V[0])
		e.f64(p.V[1])
		e.f64(p.V[2])
	case 11:
		e.uvarint(uint64(len(p.Block)))
		for _, x := range p.Block {
			e.str(x.Key)
		}
		for _, x := range p.Block {
			e.WriteByte(x.P.Code)
			e.prop(x.P)
		}
	case 12:
		e.u64(uint64(p.I))
	case 16:
		e.uvarint(uint64(len(p.B)))
		for _, x := range p.B {
			e.WriteByte(x & 1)
		}
	case 18:
		e.block(p.B)
	case 13, 14, 15, 19, 20, 24, 25:
		e.uvarint(uint64(len(p.Arr)))
		for _, x := range p.Arr {
			x.Code = p.Code - 13
			e.prop(x)
		}
	default:
		panic(fmt.Sprint("harness: property code ", p.Code))
	}
}

// slot says which of 2^bits parts of [lo, lo+span] v falls into.
func slot(v, lo, span float64, bits uint) uint32 {
	n := math.Ldexp(1, int(bits))
	k := math.Floor((v - lo) / span * n)
	if !(k > 0) {
		return 0
	}
	if k > n-1 {
		return uint32(n - 1)
	}
	return uint32(k)
}

func slotValue(k uint32, lo, span float64, bits uint) float64 {
	return lo + span*(float64(k)+0.5)/math.Ldexp(1, int(bits))
}

// bst16 stores the most significant bit of a slot first, from bit 0 of the
// first byte up.
func (e *enc) bst16(k uint32) {
	var b [2]byte
	for i := 0; i < 16; i++ {
		if k>>(15-uint(i))&1 == 1 {
			b[i/8] |= 1 << uint(i%8)
		}
	}
	e.Write(b[:])
}

func unbst16(b []byte) uint32 {
	var k uint32
	for i := 0; i < 16; i++ {
		k |= uint32(b[i/8]>>uint(i%8)&1) << (15 - uint(i))
	}
	return k
}

// oct stores the slots of three axes: per eight levels a byte of z, of x and
// of y, most significant first from bit 0 up, where a set bit is the lower
// half.
func (e *enc) oct(k [3]uint32, bits uint) {
	for lvl := uint(0); lvl < bits; lvl += 8 {
		for _, axis := range []int{2, 0, 1} {
			var b byte
			for i := uint(0); i < 8; i++ {
				if k[axis]>>(bits-1-lvl-i)&1 == 0 {
					b |= 1 << i
				}
			}
			e.WriteByte(b)
		}
	}
}

func unoct(b []byte, bits uint) (k [3]uint32) {
	for lvl := uint(0); lvl < bits; lvl += 8 {
		for j, axis := range []int{2, 0, 1} {
			x := b[lvl/8*3+uint(j)]
			for i := uint(0); i < 8; i++ {
				if x>>i&1 == 0 {
					k[axis] |= 1 << (bits - 1 - lvl - i)
				}
			}
		}
	}
	return k
}

func (e *enc) times(c *MCol, tech rapio.TimeStorageTechnique) {
	e.WriteByte(timeCode(tech))
	e.uvarint(uint64(len(c.Caps)))
	switch tech {
	case rapio.Raw64:
		for _, x := range c.Caps {
			e.f64(x.T)
		}
	case rapio.Raw32:
		for _, x := range c.Caps {
			e.f32(x.T)
		}
	case rapio.BST16:
		if len(c.Caps) == 0 {
			return
		}
		start, gap := math.Inf(1), math.Inf(-1)
		for i, x := range c.Caps {
			start = math.Min(start, x.T)
			if i > 0 {
				gap = math.Max(gap, x.T-c.Caps[i-1].T)
			}
		}
		e.f32(start)
		if len(c.Caps) == 1 {
			return
		}
		e.f32(gap)
		for i := 1; i < len(c.Caps); i++ {
			k := slot(c.Caps[i].T-start, 0, gap, 16)
			e.bst16(k)
			start += slotValue(k, 0, gap, 16)
		}
	}
}

// The values of rap's constants in the old release.
func timeCode(t rapio.TimeStorageTechnique) byte {
	switch t {
	case rapio.Raw64:
		return 0
	case rapio.Raw32:
		return 1
	}
	return 2
}

func posCode(t int) byte {
	switch position.StorageTechnique(t) {
	case position.Raw64:
		return 0
	case position.Raw32:
		return 1
	case position.Oct48:
		return 2
	}
	return 3
}

func eulerCode(t int) byte {
	switch euler.StorageTechnique(t) {
	case euler.Raw64:
		return 0
	case euler.Raw32:
		return 1
	}
	return 2
}

func floatCode(t int) byte {
	switch float.StorageTechnique(t) {
	case float.Raw64:
		return 0
	case float.Raw32:
		return 1
	}
	return 2
}

func (e *enc) position(c *MCol, code byte) {
	e.WriteByte(code)
	bits := uint(16)
	switch code {
	case 0:
		for _, x := range c.Caps {
			for k := 0; k < 3; k++ {
				e.f64(x.V[k])
			}
		}
		return
	case 1:
		for _, x := range c.Caps {
			for k := 0; k < 3; k++ {
				e.f32(x.V[k])
			}
		}
		return
	case 3:
		bits = 8
	}
	if len(c.Caps) == 0 {
		return
	}
	if len(c.Caps) > 1 {
		var lo, hi [3]float64
		for k := range lo {
			lo[k], hi[k] = math.Inf(1), math.Inf(-1)
			for i := 1; i < len(c.Caps); i++ {
				d := c.Caps[i].V[k] - c.Caps[i-1].V[k]
				if d > hi[k] {
					hi[k] = d
				}
				if d < lo[k] {
					lo[k] = d
				}
			}
			e.f32(lo[k])
		}
		for k := range hi {
			e.f32(hi[k])
		}
		defer func() {
			at := c.Caps[0].V
			for i := 1; i < len(c.Caps); i++ {
				var s [3]uint32
				for k := range s {
					s[k] = slot(c.Caps[i].V[k]-at[k], lo[k], hi[k]-lo[k], bits)
					at[k] += slotValue(s[k], lo[k], hi[k]-lo[k], bits)
				}
				e.oct(s, bits)
			}
		}()
	}
	for k := 0; k < 3; k++ {
		e.f32(c.Caps[0].V[k])
	}
}

func (e *enc) euler(c *MCol, code byte) {
	e.WriteByte(code)
	wrap := func(a float64) float64 { return a - 360*math.Floor(a/360) }
	for _, x := range c.Caps {
		for k := 0; k < 3; k++ {
			switch {
			case code == 0:
				e.f64(x.V[k])
				e.Write([]byte{0, 0})
			case code == 1:
				e.f32(x.V[k])
			case len(c.Caps) == 1:
				e.f32(wrap(x.V[k]))
			default:
				e.bst16(slot(wrap(x.V[k]), 0, 360, 16))
			}
		}
	}
}

func (e *enc) float(c *MCol, code byte) {
	e.WriteByte(code)
	lo, hi := math.Inf(1), math.Inf(-1)
	if code == 2 {
		for _, x := range c.Caps {
			if x.V[0] < lo {
				lo = x.V[0]
			}
			if x.V[0] > hi {
				hi = x.V[0]
			}
		}
		e.f32(lo)
		e.f32(hi)
	}
	for _, x := range c.Caps {
		switch code {
		case 0:
			e.f64(x.V[0])
		case 1:
			e.f32(x.V[0])
		case 2:
			e.bst16(slot(x.V[0], lo, hi-lo, 16))
		}
	}
}

// table numbers strings.
type table struct {
	at   map[string]uint64
	list []string
}

func (t *table) of(s string) uint64 {
	if t.at == nil {
		t.at = map[string]uint64{}
	}
	i, ok := t.at[s]
	if !ok {
		i = uint64(len(t.list))
		t.at[s] = i
		t.list = append(t.list, s)
	}
	return i
}

func (e *enc) table(t *table) {
	e.uvarint(uint64(len(t.list)))
	for _, s := range t.list {
		e.str(s)
	}
}

// oldWrite stores a recording as the old release does.
func oldWrite(m *MRec, c Config, g *Rng) []byte {
	c = c.effective()
	var all []*MCol
	m.walk(func(x *MRec) {
		for i := range x.Cols {
			all = append(all, &x.Cols[i])
		}
	})
	// codecs in use, in order of first use or of registration
	var order []int
	used := map[int]bool{}
	for _, x := range all {
		if !used[x.Kind] {
			used[x.Kind] = true
			order = append(order, x.Kind)
		}
	}
	if g.Int(2) == 0 {
		order = nil
		for _, k := range c.Order {
			if used[k] {
				order = append(order, k)
			}
		}
	}
	index := map[int]uint64{}
	var names, members, keys, eventKeys table
	for i, k := range order {
		index[k] = uint64(i)
	}
	// where a block lists its keys first
	entries := func(b MBlock) MBlock {
		out := append(MBlock{}, b...)
		for i := len(out) - 1; i > 0; i-- {
			j := g.Int(i + 1)
			out[i], out[j] = out[j], out[i]
		}
		return out
	}
	indexed := func(e *enc, b MBlock, t *table) {
		b = entries(b)
		e.uvarint(uint64(len(b)))
		for _, x := range b {
			e.uvarint(t.of(x.Key))
		}
		for _, x := range b {
			e.WriteByte(x.P.Code)
			e.prop(x.P)
		}
	}
	blocks := map[*MCol][]byte{}
	for _, x := range all {
		var e enc
		switch x.Kind {
		case kPosition:
			e.position(x, posCode(c.Pos))
		case kEuler:
			e.euler(x, eulerCode(c.Euler))
		case kFloat:
			e.float(x, floatCode(c.Float))
		case kEnum:
			e.uvarint(uint64(len(x.Members)))
			for _, s := range x.Members {
				e.uvarint(members.of(s))
			}
			for _, y := range x.Caps {
				e.uvarint(uint64(y.N))
			}
		case kEvent:
			for _, y := range x.Caps {
				e.uvarint(names.of(y.Name))
				indexed(&e, y.Meta, &eventKeys)
			}
		}
		blocks[x] = e.Bytes()
	}
	var tree enc
	var rec func(x *MRec)
	rec = func(x *MRec) {
		tree.str(x.ID)
		tree.str(x.Name)
		indexed(&tree, x.Meta, &keys)
		tree.uvarint(uint64(len(x.Cols)))
		for i := range x.Cols {
			y := &x.Cols[i]
			tree.uvarint(index[y.Kind])
			tree.str(y.Name)
			tree.times(y, c.Time)
			tree.block(blocks[y])
		}
		tree.uvarint(uint64(len(x.Refs)))
		for i := range x.Refs {
			tree.str(x.Refs[i].Name)
			tree.str(x.Refs[i].URI)
			tree.uvarint(x.Refs[i].Size)
			indexed(&tree, x.Refs[i].Meta, &keys)
		}
		tree.uvarint(uint64(len(x.Bins)))
		for i := range x.Bins {
			tree.str(x.Bins[i].Name)
			tree.uvarint(uint64(len(x.Bins[i].Data)))
			indexed(&tree, x.Bins[i].Meta, &keys)
			tree.Write(x.Bins[i].Data)
		}
		tree.uvarint(uint64(len(x.Recs)))
		for _, y := range x.Recs {
			rec(y)
		}
	}
	rec(m)

	var body, out enc
	for _, k := range order {
		var h enc
		switch k {
		case kEnum:
			h.table(&members)
		case kEvent:
			h.table(&names)
			h.table(&eventKeys)
		}
		body.block(h.Bytes())
	}
	body.table(&keys)
	body.Write(tree.Bytes())

	out.WriteByte(2)
	out.uvarint(uint64(len(order)))
	for _, k := range order {
		out.str(kindName[k])
	}
	for range order {
		out.uvarint(0)
	}
	if !c.Compress {
		out.WriteByte(0)
		out.Write(body.Bytes())
		return out.Bytes()
	}
	out.WriteByte(1)
	w, _ := flate.NewWriter(&out, 9)
	w.Write(body.Bytes())
	w.Close()
	return out.Bytes()
}

// --- understanding --------------------------------------------------------------

// errNewer says that a file claims to be of a later release.
var errNewer = errors.New("the file is marked as newer")

// loose tells how far the captures of a collection may be off from what the
// old release makes of them, because of the order of floating point operations:
// per capture, the more the later (negative: anything goes).
type loose struct{ t, v float64 }

// oldRead loads a version 2 file as the old release does.
func oldRead(b []byte) (m *MRec, slack []loose, err error) {
	defer func() {
		if p := recover(); p != nil {
			if p == errNewer {
				m, slack, err = nil, nil, errNewer
				return
			}
			if u, ok := p.(unusable); ok {
				m, slack, err = nil, nil, u
				return
			}
			panic(p)
		}
	}()
	d := &dec{b: b, path: "file"}
	switch v := d.take(1)[0]; {
	case v == 2:
	case v > 2:
		panic(errNewer)
	default:
		bad("version %d", v)
	}
	var kinds []int
	d.each(func(i uint64) {
		s := d.str()
		kind := -1
		for k, name := range kindName {
			if k != kSim && s == name {
				kind = k
			}
		}
		if kind < 0 {
			bad("no registered encoder has signature %q", s)
		}
		kinds = append(kinds, kind)
	})
	for range kinds {
		if d.uvarint() > 0 {
			panic(errNewer)
		}
	}
	if d.take(1)[0] == 1 {
		d.b, _ = io.ReadAll(io.LimitReader(flate.NewReader(bytes.NewReader(d.b)), 256<<20))
	}
	headers := make([][]byte, len(kinds))
	for i := range kinds {
		headers[i] = d.take(d.uvarint())
	}
	keys := d.strs()
	m = d.rec(kinds, headers, keys, &slack)
	return m, slack, nil
}

func (d *dec) each(f func(i uint64)) {
	n := d.uvarint()
	for i := uint64(0); i < n; i++ {
		f(i)
	}
}

func (d *dec) strs() []string {
	var out []string
	d.each(func(uint64) { out = append(out, d.str()) })
	return out
}

func (d *dec) f32() float64 {
	return float64(math.Float32frombits(binary.LittleEndian.Uint32(d.take(4))))
}

func (d *dec) indexed(keys []string) MBlock {
	var at []uint64
	d.each(func(uint64) { at = append(at, d.uvarint()) })
	out := MBlock{}
	seen := map[uint64]bool{}
	for _, i := range at {
		if i >= uint64(len(keys)) {
			bad("%s: key %d of %d", d.path, i, len(keys))
		}
		if seen[i] {
			bad("%s: key %d twice", d.path, i)
		}
		seen[i] = true
		p := d.prop(d.take(1)[0])
		out = append(out, MEntry{keys[i], p})
	}
	return out.sorted()
}

func (d *dec) rec(kinds []int, headers [][]byte, keys []string, slack *[]loose) *MRec {
	m := &MRec{ID: d.str(), Name: d.str()}
	m.Meta = d.indexed(keys)
	d.each(func(uint64) {
		k := d.uvarint()
		if k >= uint64(len(kinds)) {
			bad("%s: codec %d of %d", d.path, k, len(kinds))
		}
		c := MCol{Kind: kinds[k], Sig: kindName[kinds[k]], Name: d.str()}
		var l loose
		l.t = d.times(&c)
		l.v = decodeCol(&c, headers[k], d.take(d.uvarint()))
		m.Cols = append(m.Cols, c)
		*slack = append(*slack, l)
	})
	d.each(func(uint64) {
		x := MRef{Name: d.str(), URI: d.str(), Size: d.uvarint()}
		x.Meta = d.indexed(keys)
		m.Refs = append(m.Refs, x)
	})
	d.each(func(uint64) {
		x := MBin{Name: d.str(), Size: d.uvarint()}
		x.Meta = d.indexed(keys)
		x.Data = append([]byte{}, d.take(x.Size)...)
		m.Bins = append(m.Bins, x)
	})
	d.each(func(uint64) { m.Recs = append(m.Recs, d.rec(kinds, headers, keys, slack)) })
	return m
}

func wild(v ...float64) bool {
	for _, x := range v {
		if math.IsNaN(x) || math.IsInf(x, 0) {
			return true
		}
	}
	return false
}

func (d *dec) times(c *MCol) float64 {
	code := d.take(1)[0]
	n := d.uvarint()
	if n > uint64(len(d.b)) {
		bad("%s: %d captures in %d bytes", d.path, n, len(d.b))
	}
	c.Caps = make([]MCap, n)
	switch code {
	case 0:
		for i := range c.Caps {
			c.Caps[i].T = d.f64()
		}
	case 1:
		for i := range c.Caps {
			c.Caps[i].T = d.f32()
		}
	case 2:
		if n == 0 {
			return 0
		}
		t := d.f32()
		c.Caps[0].T = t
		if n == 1 {
			return 0
		}
		gap := d.f32()
		big := math.Abs(t) + math.Abs(gap)*float64(n)
		for i := 1; i < int(n); i++ {
			t += slotValue(unbst16(d.take(2)), 0, gap, 16)
			c.Caps[i].T = t
		}
		if wild(c.Caps[0].T, gap) {
			return -1
		}
		return big * 1e-14
	default:
		bad("%s: time technique %d", d.path, code)
	}
	return 0
}

func decodeCol(c *MCol, header, data []byte) float64 {
	d := &dec{b: data, path: "collection " + short(c.Name)}
	switch c.Kind {
	case kEnum:
		h := &dec{b: header, path: d.path + ": header"}
		all := h.strs()
		d.each(func(uint64) {
			i := d.uvarint()
			if i >= uint64(len(all)) {
				bad("%s: member %d of %d", d.path, i, len(all))
			}
			c.Members = append(c.Members, all[i])
		})
		for i := range c.Caps {
			c.Caps[i].N = int(d.uvarint())
		}
	case kEvent:
		h := &dec{b: header, path: d.path + ": header"}
		names, keys := h.strs(), h.strs()
		for i := range c.Caps {
			k := d.uvarint()
			if k >= uint64(len(names)) {
				bad("%s: event name %d of %d", d.path, k, len(names))
			}
			c.Caps[i].Name = names[k]
			c.Caps[i].Meta = d.indexed(keys)
		}
	case kFloat:
		switch code := d.take(1)[0]; code {
		case 0:
			for i := range c.Caps {
				c.Caps[i].V[0] = d.f64()
			}
		case 1:
			for i := range c.Caps {
				c.Caps[i].V[0] = d.f32()
			}
		case 2:
			lo, hi := d.f32(), d.f32()
			for i := range c.Caps {
				c.Caps[i].V[0] = slotValue(unbst16(d.take(2)), lo, hi-lo, 16)
			}
			if wild(lo, hi, float64(float32(hi)-float32(lo))) {
				return -1
			}
			return (math.Abs(lo)+math.Abs(hi))*2*ulp32 + 1e-44
		default:
			bad("%s: float technique %d", d.path, code)
		}
	case kEuler:
		switch code := d.take(1)[0]; code {
		case 0:
			for i := range c.Caps {
				for k := 0; k < 3; k++ {
					c.Caps[i].V[k] = d.f64()
					if len(d.b) > 0 || i+1 < len(c.Caps) || k < 2 {
						d.take(2)
					}
				}
			}
		case 1:
			d.vec32(c, len(c.Caps))
		case 2:
			if len(c.Caps) == 1 {
				d.vec32(c, 1)
				return 0
			}
			for i := range c.Caps {
				for k := 0; k < 3; k++ {
					c.Caps[i].V[k] = slotValue(unbst16(d.take(2)), 0, 360, 16)
				}
			}
			return 1e-11
		default:
			bad("%s: euler technique %d", d.path, code)
		}
	case kPosition:
		bits := uint(16)
		switch code := d.take(1)[0]; code {
		case 0:
			for i := range c.Caps {
				for k := 0; k < 3; k++ {
					c.Caps[i].V[k] = d.f64()
				}
			}
			return 0
		case 1:
			d.vec32(c, len(c.Caps))
			return 0
		case 2:
		case 3:
			bits = 8
		default:
			bad("%s: position technique %d", d.path, code)
		}
		if len(c.Caps) < 2 {
			d.vec32(c, len(c.Caps))
			return 0
		}
		var lo, hi [3]float64
		big := 0.0
		for k := range lo {
			lo[k] = d.f32()
		}
		for k := range hi {
			hi[k] = d.f32()
		}
		d.vec32(c, 1)
		for k := range lo {
			if wild(lo[k], hi[k], c.Caps[0].V[k]) {
				big = math.Inf(1)
			}
			big = math.Max(big, math.Abs(c.Caps[0].V[k])+(math.Abs(lo[k])+math.Abs(hi[k]))*float64(len(c.Caps)))
		}
		for i := 1; i < len(c.Caps); i++ {
			s := unoct(d.take(uint64(bits)/8*3), bits)
			for k := range s {
				c.Caps[i].V[k] = c.Caps[i-1].V[k] + slotValue(s[k], lo[k], hi[k]-lo[k], bits)
			}
		}
		if math.IsInf(big, 0) {
			return -1
		}
		return big * 1e-14
	}
	return 0
}

func (d *dec) vec32(c *MCol, n int) {
	for i := 0; i < n; i++ {
		for k := 0; k < 3; k++ {
			c.Caps[i].V[k] = d.f32()
		}
	}
}

// diffUnderstood compares the captures of what rap makes of a file with what
// the old release does.
func diffUnderstood(want, got *MRec, slack []loose) string {
	var ws, gs []*MCol
	want.walk(func(x *MRec) {
		for i := range x.Cols {
			ws = append(ws, &x.Cols[i])
		}
	})
	got.walk(func(x *MRec) {
		for i := range x.Cols {
			gs = append(gs, &x.Cols[i])
		}
	})
	for j, w := range ws {
		g := gs[j]
		path := fmt.Sprintf("collection %s (%s)", short(w.Name), kindName[w.Kind])
		if d := diffMembers(w, g, path); d != "" {
			return d
		}
		for i := range w.Caps {
			x, y := &w.Caps[i], &g.Caps[i]
			n := float64(i + 1)
			if l := slack[j].t; l >= 0 && !within(x.T, y.T, l*n) {
				return fmt.Sprintf("%s: the time of capture %d is %v, was %v", path, i, y.T, x.T)
			}
			if l := slack[j].v; l >= 0 {
				for k := range x.V {
					if !within(x.V[k], y.V[k], l*n) {
						return fmt.Sprintf("%s: component %d of capture %d is %v, was %v", path, k, i, y.V[k], x.V[k])
					}
				}
			}
			if x.N != y.N {
				return fmt.Sprintf("%s: the value of capture %d is %d, was %d", path, i, y.N, x.N)
			}
			if x.Name != y.Name {
				return fmt.Sprintf("%s: event %d is %s, was %s", path, i, short(y.Name), short(x.Name))
			}
			if d := diffBlock(x.Meta, y.Meta, fmt.Sprintf("%s: event %d", path, i), false); d != "" {
				return d
			}
		}
	}
	return ""
}
