package main

import (
	"bytes"
	"compress/flate"
	"encoding/binary"
	"fmt"
	"io"

	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/verifsim/simos"
)

// File is a stored recording.
type File struct {
	data []byte
	cfg  Config
	v1   bool
	comp bool
	m    *MRec  // what was stored (version 2)
	v1m  *V1Rec // what was stored (version 1)
	n    int    // what Write said it wrote (version 2)
}

func (f *File) String() string {
	switch {
	case f.v1:
		return fmt.Sprintf("version 1 file of %d bytes", len(f.data))
	case f.comp:
		return fmt.Sprintf("compressed version 2 file of %d bytes", len(f.data))
	}
	return fmt.Sprintf("version 2 file of %d bytes", len(f.data))
}

type fileOpts struct {
	small  bool
	noV1   bool
	onlyV1 bool
}

// drawFile stores a drawn recording.
func (r *Run) drawFile(o fileOpts) *File {
	f := &File{}
	if !o.noV1 && (o.onlyV1 || r.Chance(1, 4)) {
		f.v1 = true
		f.v1m = r.genV1(o.small)
		f.cfg = Config{Default: true, Order: []int{kEvent, kPosition, kEuler, kEnum}, Compress: true, Time: rapio.BST16}
		f.data = f.v1m.file(r.OneOf(6, 9, 1, 0))
		f.m = f.v1m.loaded()
		r.shape = f.m.hash()*31 + 1
		r.desc = f.m.describe() + "; " + f.String()
		r.note("recording: %s", r.desc)
		r.drawMapOrder()
		return f
	}
	f.cfg = r.drawConfig()
	m := r.genRecording(genOpts{kinds: f.cfg.kinds(), small: o.small})
	r.drawMapOrder()
	rec, seen := r.modelled(m)
	f.m = seen
	f.data, f.n = r.stored(rec, f.cfg)
	f.comp = f.cfg.Compress || f.cfg.Default
	r.desc += "; " + f.cfg.String() + "; " + f.String()
	return f
}

// v2Body finds where the part that may be compressed starts.
func v2Body(b []byte) (off int, compressed, ok bool) {
	if len(b) < 2 || b[0] != 2 {
		return 0, false, false
	}
	p := 1
	uv := func() (uint64, bool) {
		v, n := binary.Uvarint(b[p:])
		if n <= 0 {
			return 0, false
		}
		p += n
		return v, true
	}
	n, good := uv()
	if !good || n > 1000 {
		return 0, false, false
	}
	for i := uint64(0); i < n; i++ {
		l, good := uv()
		if !good || l > uint64(len(b)-p) {
			return 0, false, false
		}
		p += int(l)
	}
	for i := uint64(0); i < n; i++ {
		if _, good := uv(); !good {
			return 0, false, false
		}
	}
	if p >= len(b) {
		return 0, false, false
	}
	return p + 1, b[p] == 1, true
}

// inflate decompresses what there is.
func inflate(b []byte) []byte {
	out, _ := io.ReadAll(io.LimitReader(flate.NewReader(bytes.NewReader(b)), 64<<20))
	return out
}

var blowups = []uint64{0, 1, 2, 127, 128, 300, 1 << 14, 1 << 20, 1 << 26, 1 << 31, 1<<31 - 1, 1 << 32, 1 << 40, 1 << 62, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 1, 1<<64 - 8}

// damage applies one byte-level fault.
func damage(g *Rng, b []byte, other []byte) ([]byte, string) {
	b = append([]byte{}, b...)
	pos := g.Int(len(b) + 1)
	switch g.Int(5) {
	case 0:
		if len(b) > 48 {
			pos = g.Int(48)
		}
	}
	at := func() int {
		if pos >= len(b) && pos > 0 {
			pos = len(b) - 1
		}
		return pos
	}
	cut := func(lo, hi int) []byte {
		if lo > len(b) {
			lo = len(b)
		}
		if hi > len(b) {
			hi = len(b)
		}
		return b[lo:hi]
	}
	if len(b) == 0 {
		return append(b, byte(g.Int(256))), "insert"
	}
	switch g.Int(12) {
	case 0:
		i := at()
		b[i] ^= 1 << uint(g.Int(8))
		return b, "bit flip"
	case 1:
		b[at()] = byte(g.Int(256))
		return b, "overwrite"
	case 2:
		b[at()] = []byte{0, 1, 0x7f, 0x80, 0xff, 2, 3}[g.Int(7)]
		return b, "overwrite"
	case 3, 4, 5: // a count or length blows up
		var t [10]byte
		n := binary.PutUvarint(t[:], blowups[g.Int(len(blowups))])
		i := at()
		return append(append(append([]byte{}, b[:i]...), t[:n]...), b[i+1:]...), "count overwritten"
	case 6:
		i := at()
		j := i + 1 + g.Int(4)
		if g.Chance(1, 4) {
			j = i + 1 + g.Int(len(b))
		}
		return append(append([]byte{}, cut(0, i)...), cut(j, len(b))...), "bytes dropped"
	case 7:
		i := at()
		j := i + 1 + g.Int(16)
		if g.Chance(1, 4) {
			j = i + 1 + g.Int(len(b))
		}
		out := append([]byte{}, cut(0, j)...)
		out = append(out, cut(i, j)...)
		return append(out, cut(j, len(b))...), "bytes duplicated"
	case 8:
		i := at()
		return append(append(append([]byte{}, b[:i]...), g.Bytes(1+g.Int(9))...), b[i:]...), "bytes inserted"
	case 9:
		i := at()
		n := []int{2, 8, 16, 512}[g.Int(4)]
		for k := i; k < i+n && k < len(b); k++ {
			b[k] = 0
		}
		return b, "bytes zeroed"
	case 10: // misdirected write: content of another place
		i := at()
		src := other
		if len(src) == 0 {
			src = b
		}
		j := g.Int(len(src))
		n := 1 + g.Int(32)
		for k := 0; k < n && i+k < len(b) && j+k < len(src); k++ {
			b[i+k] = src[j+k]
		}
		return b, "misdirected write"
	}
	i := g.Int(len(b) + 1)
	return b[:i:i], "truncation"
}

// damaged applies one or more faults to a file, in front of or behind its
// compression.
func (r *Run) damaged(f *File, g *Rng) []byte {
	b, inner := f.data, []byte(nil)
	faults := 1
	for faults < 4 && g.Chance(1, 3) {
		faults++
	}
	head := 0
	if f.v1 {
		head = 13
	} else if off, _, ok := v2Body(b); ok {
		head = off
	}
	behind := (f.v1 || f.comp) && head > 0 && head <= len(b) && g.Chance(2, 3)
	if behind {
		inner = inflate(b[head:])
	}
	for i := 0; i < faults; i++ {
		var kind string
		if behind && g.Chance(7, 8) {
			inner, kind = damage(g, inner, b)
			r.fault("behind compression: " + kind)
		} else if behind {
			// damage to the header in front of it
			var h []byte
			h, kind = damage(g, b[:head], nil)
			b = append(h, b[head:]...)
			r.fault(kind)
			if len(h) != head || !f.v1 {
				head = len(h)
			}
		} else {
			b, kind = damage(g, b, nil)
			r.fault(kind)
		}
	}
	if behind {
		d := deflate(inner, 1)
		h := append([]byte{}, b[:head]...)
		if f.v1 && len(h) == 13 && bytes.Equal(h, f.data[:13]) {
			binary.LittleEndian.PutUint64(h[5:], uint64(len(d)))
		}
		b = append(h, d...)
	}
	return b
}

func peek(name string) ([]byte, bool) { return simos.Peek(name) }
