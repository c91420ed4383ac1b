package main

import (
	"fmt"
	"io"
	"math"
	"strings"

	"github.com/recolude/rap/format/encoding"
	"github.com/recolude/rap/format/encoding/enum"
	"github.com/recolude/rap/format/encoding/euler"
	"github.com/recolude/rap/format/encoding/event"
	"github.com/recolude/rap/format/encoding/float"
	"github.com/recolude/rap/format/encoding/position"
	rapio "github.com/recolude/rap/format/io"
)

// Config is how a recording is written.
type Config struct {
	Pos, Euler, Float int
	Order             []int // kinds, in order of registration
	Compress          bool
	Time              rapio.TimeStorageTechnique
	Default           bool // NewRecoludeWriter and Load
	// kinds whose codec is wrapped as somebody else's, with this suffix to
	// its signature and this version
	Third uint
	Sig   string
	Ver   uint
}

// thirdParty is one of rap's codecs under another name and version.
type thirdParty struct {
	encoding.Encoder
	sig string
	ver uint
}

func (t thirdParty) Signature() string { return t.sig }
func (t thirdParty) Version() uint     { return t.ver }

func (c Config) String() string {
	if c.Default {
		return "default writer"
	}
	s := fmt.Sprintf("pos=%d euler=%d float=%d order=%v compress=%v time=%d", c.Pos, c.Euler, c.Float, c.Order, c.Compress, c.Time)
	if c.Third != 0 {
		s += fmt.Sprintf(" third=%#x (suffix of %d bytes, version %d)", c.Third, len(c.Sig), c.Ver)
	}
	return s
}

func codec(kind int, c Config) encoding.Encoder {
	if c.Third>>uint(kind)&1 == 1 {
		e := ownCodec(kind, c)
		return thirdParty{e, e.Signature() + c.Sig, c.Ver}
	}
	return ownCodec(kind, c)
}

func ownCodec(kind int, c Config) encoding.Encoder {
	switch kind {
	case kPosition:
		return position.NewEncoder(position.StorageTechnique(c.Pos))
	case kEuler:
		return euler.NewEncoder(euler.StorageTechnique(c.Euler))
	case kEvent:
		return event.NewEncoder()
	case kEnum:
		return enum.NewEncoder()
	case kFloat:
		return float.NewEncoder(float.StorageTechnique(c.Float))
	}
	panic("harness: codec kind")
}

func (c Config) encoders() []encoding.Encoder {
	var out []encoding.Encoder
	for _, k := range c.Order {
		out = append(out, codec(k, c))
	}
	return out
}

func (c Config) writer(w io.Writer) rapio.Writer {
	if c.Default {
		return rapio.NewRecoludeWriter(w)
	}
	return rapio.NewWriter(c.encoders(), c.Compress, w, c.Time)
}

// reader builds the reader for files written with c; permuted registers the
// codecs in another order.
func (c Config) reader(r io.Reader) rapio.Reader {
	return rapio.NewReader(c.encoders(), r)
}

var (
	posRaw64 = int(position.Raw64)
	posRaw32 = int(position.Raw32)
	posOct48 = int(position.Oct48)
	posOct24 = int(position.Oct24)
)

// effective spells out the techniques of the default writer.
func (c Config) effective() Config {
	if c.Default {
		return Config{Pos: posOct48, Euler: int(euler.Raw32), Float: 0, Order: []int{kEvent, kPosition, kEuler, kEnum}, Compress: true, Time: rapio.BST16}
	}
	return c
}

func (r *Run) drawConfig() Config {
	c := Config{Order: []int{kEvent, kPosition, kEuler, kEnum, kFloat}}
	c.Compress = r.Bool()
	c.Time = rapio.TimeStorageTechnique(r.Int(3))
	c.Pos = r.Int(4)
	c.Euler = r.Int(3)
	c.Float = r.Int(3)
	if r.Chance(1, 2) {
		p := r.Perm(5)
		o := make([]int, 5)
		for i, j := range p {
			o[i] = c.Order[j]
		}
		c.Order = o
	}
	if r.Chance(1, 7) {
		c.Third = uint(1 + r.Int(1<<(kFloat+1)-1))
		c.Sig = []string{"", ".x", "", strings.Repeat(".long", 30), "\xff✓"}[r.Int(5)]
		c.Ver = []uint{1, 127, 128, 16383, 16384, 1 << 40, math.MaxInt64, math.MaxUint64}[r.Int(8)]
	}
	if r.Chance(1, 8) {
		c = Config{Default: true, Order: []int{kEvent, kPosition, kEuler, kEnum}}
		c.Compress = true
		c.Time = rapio.BST16
	}
	return c
}

// kinds are the kinds of collections the configuration has codecs for.
func (c Config) kinds() []int {
	if c.Default {
		return []int{kEvent, kPosition, kEuler, kEnum}
	}
	return []int{kPosition, kEuler, kEvent, kEnum, kFloat}
}

// readerFor builds a reader for files written with c: its codecs may be
// registered in another order, and default files may be read with Load's.
func (r *Run) readerFor(c Config, in io.Reader) rapio.Reader {
	if r.Chance(1, 3) {
		// codecs read every technique whatever their own
		d := Config{Pos: r.Int(4), Euler: r.Int(3), Float: r.Int(3), Third: c.Third, Sig: c.Sig, Ver: c.Ver}
		d.Order = make([]int, len(c.Order))
		for i, j := range r.Perm(len(c.Order)) {
			d.Order[i] = c.Order[j]
		}
		return d.reader(in)
	}
	return c.reader(in)
}
