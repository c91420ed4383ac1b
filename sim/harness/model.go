package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"reflect"
	"sort"
	"time"

	"github.com/EliCDavis/vector/vector2"
	"github.com/EliCDavis/vector/vector3"
	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/collection/enum"
	"github.com/recolude/rap/format/collection/euler"
	"github.com/recolude/rap/format/collection/event"
	"github.com/recolude/rap/format/collection/float"
	"github.com/recolude/rap/format/collection/position"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/format/metadata"
)

// The model of a recording: plain values, independent of rap's own types.

const (
	kPosition = iota
	kEuler
	kEvent
	kEnum
	kFloat
	kSim // a collection of a simulated third-party type
)

var kindName = []string{"recolude.position", "recolude.euler", "recolude.event", "recolude.enum", "recolude.float", "sim"}

type MProp struct {
	Code  byte
	S     string
	I     int64
	F     uint32 // float32 bits
	V     [3]float64
	B     []byte
	Arr   []MProp
	Block MBlock
	Str   string // what String() said, when observed
}

type MEntry struct {
	Key string
	P   MProp
}

// MBlock is sorted by key.
type MBlock []MEntry

type MCap struct {
	T    float64
	V    [3]float64
	N    int
	Name string
	Meta MBlock
}

type MCol struct {
	Kind    int
	Sig     string
	Name    string
	Members []string
	Caps    []MCap
}

type MRef struct {
	Name, URI string
	Size      uint64
	Meta      MBlock
}

type MBin struct {
	Name string
	Data []byte
	Size uint64
	Meta MBlock
	Via  *Delivery // how its bytes are handed out, when not by NewBinary
}

type MRec struct {
	Own      bool // of a type of the program's own, as are its references
	ID, Name string
	Meta     MBlock
	Cols     []MCol
	Refs     []MRef
	Bins     []MBin
	Recs     []*MRec
}

func (b MBlock) sorted() MBlock {
	sort.SliceStable(b, func(i, j int) bool { return b[i].Key < b[j].Key })
	return b
}

// --- building rap values --------------------------------------------------

func buildProp(p MProp) metadata.Property {
	switch p.Code {
	case 0:
		return metadata.NewStringProperty(p.S)
	case 1:
		return metadata.NewIntProperty(int(int32(p.I)))
	case 2:
		return metadata.NewFloat32Property(math.Float32frombits(p.F))
	case 3:
		return metadata.NewBoolProperty(true)
	case 4:
		return metadata.NewBoolProperty(false)
	case 5:
		return metadata.NewByteProperty(byte(p.I))
	case 6:
		return metadata.NewVector2Property(p.V[0], p.V[1])
	case 7:
		return metadata.NewVector3Property(p.V[0], p.V[1], p.V[2])
	case 11:
		return metadata.NewMetadataProperty(buildBlock(p.Block))
	case 12:
		return metadata.NewTimeProperty(time.UnixMicro(p.I))
	case 13:
		a := make([]string, len(p.Arr))
		for i, e := range p.Arr {
			a[i] = e.S
		}
		return metadata.NewStringArrayProperty(a)
	case 14:
		a := make([]int, len(p.Arr))
		for i, e := range p.Arr {
			a[i] = int(int32(e.I))
		}
		return metadata.NewIntArrayProperty(a)
	case 15:
		a := make([]float32, len(p.Arr))
		for i, e := range p.Arr {
			a[i] = math.Float32frombits(e.F)
		}
		return metadata.NewFloat32ArrayProperty(a)
	case 16:
		a := make([]bool, len(p.B))
		for i, e := range p.B {
			a[i] = e != 0
		}
		return metadata.NewBoolArrayProperty(a)
	case 18:
		return metadata.NewBinaryArrayProperty(append([]byte{}, p.B...))
	case 19:
		a := make([]vector2.Float64, len(p.Arr))
		for i, e := range p.Arr {
			a[i] = vector2.New(e.V[0], e.V[1])
		}
		return metadata.NewVector2ArrayProperty(a)
	case 20:
		a := make([]vector3.Float64, len(p.Arr))
		for i, e := range p.Arr {
			a[i] = vector3.New(e.V[0], e.V[1], e.V[2])
		}
		return metadata.NewVector3ArrayProperty(a)
	case 24:
		a := make([]metadata.Block, len(p.Arr))
		for i, e := range p.Arr {
			a[i] = buildBlock(e.Block)
		}
		return metadata.NewMetadataArrayProperty(a)
	case 25:
		a := make([]time.Time, len(p.Arr))
		for i, e := range p.Arr {
			a[i] = time.UnixMicro(e.I)
		}
		return metadata.NewTimestampArrayProperty(a)
	}
	panic(fmt.Sprint("harness: property code ", p.Code))
}

func buildBlock(b MBlock) metadata.Block {
	m := make(map[string]metadata.Property, len(b))
	for _, e := range b {
		m[e.Key] = buildProp(e.P)
	}
	return metadata.NewBlock(m)
}

func buildCol(c MCol) format.CaptureCollection {
	switch c.Kind {
	case kPosition:
		caps := make([]position.Capture, len(c.Caps))
		for i, x := range c.Caps {
			caps[i] = position.NewCapture(x.T, x.V[0], x.V[1], x.V[2])
		}
		return position.NewCollection(c.Name, caps)
	case kEuler:
		caps := make([]euler.Capture, len(c.Caps))
		for i, x := range c.Caps {
			caps[i] = euler.NewEulerZXYCapture(x.T, x.V[0], x.V[1], x.V[2])
		}
		return euler.NewCollection(c.Name, caps)
	case kEvent:
		caps := make([]event.Capture, len(c.Caps))
		for i, x := range c.Caps {
			caps[i] = event.NewCapture(x.T, x.Name, buildBlock(x.Meta))
		}
		return event.NewCollection(c.Name, caps)
	case kEnum:
		caps := make([]enum.Capture, len(c.Caps))
		for i, x := range c.Caps {
			caps[i] = enum.NewCapture(x.T, x.N)
		}
		return enum.NewCollection(c.Name, append([]string{}, c.Members...), caps)
	case kFloat:
		caps := make([]float.Capture, len(c.Caps))
		for i, x := range c.Caps {
			caps[i] = float.NewCapture(x.T, x.V[0])
		}
		return float.NewCollection(c.Name, caps)
	case kSim:
		return &simCol{sig: c.Sig, name: c.Name, caps: c.Caps}
	}
	panic("harness: kind")
}

// builder turns models into recordings.
type builder struct {
	// binary, when set, builds the binaries
	binary func(b *MBin) format.Binary
	// hole, when set, gets a chance to take a part out of a recording
	hole func(m *MRec, p *parts)
	// collection, when set, builds the collections
	collection func(c MCol) format.CaptureCollection
}

// parts are the arguments of NewRecording.
type parts struct {
	cols []format.CaptureCollection
	recs []format.Recording
	meta metadata.Block
	bins []format.Binary
	refs []format.BinaryReference
}

func (bd builder) rec(m *MRec) format.Recording {
	var cols []format.CaptureCollection
	for _, c := range m.Cols {
		if bd.collection != nil {
			cols = append(cols, bd.collection(c))
		} else {
			cols = append(cols, buildCol(c))
		}
	}
	var recs []format.Recording
	for _, c := range m.Recs {
		recs = append(recs, bd.rec(c))
	}
	var bins []format.Binary
	for i := range m.Bins {
		if bd.binary != nil {
			bins = append(bins, bd.binary(&m.Bins[i]))
		} else if b := &m.Bins[i]; b.Via != nil {
			bins = append(bins, &simBinary{name: b.Name, data: b.Data, size: uint64(len(b.Data)), meta: buildBlock(b.Meta), d: *b.Via})
		} else {
			bins = append(bins, rapio.NewBinary(m.Bins[i].Name, append([]byte{}, m.Bins[i].Data...), buildBlock(m.Bins[i].Meta)))
		}
	}
	var refs []format.BinaryReference
	for _, c := range m.Refs {
		if m.Own {
			refs = append(refs, &simRef{c.Name, c.URI, c.Size, buildBlock(c.Meta)})
			continue
		}
		refs = append(refs, rapio.NewBinaryReference(c.Name, c.URI, c.Size, buildBlock(c.Meta)))
	}
	p := parts{cols, recs, buildBlock(m.Meta), bins, refs}
	if bd.hole != nil {
		bd.hole(m, &p)
	}
	if m.Own {
		return &simRec{m.ID, m.Name, p}
	}
	return format.NewRecording(m.ID, m.Name, p.cols, p.recs, p.meta, p.bins, p.refs)
}

// simRec is a recording of a program's own making: it lists its parts anew
// whenever it is asked.
type simRec struct {
	id, name string
	p        parts
}

func (s *simRec) ID() string               { return s.id }
func (s *simRec) Name() string             { return s.name }
func (s *simRec) Metadata() metadata.Block { return s.p.meta }
func (s *simRec) CaptureCollections() []format.CaptureCollection {
	return append([]format.CaptureCollection(nil), s.p.cols...)
}
func (s *simRec) Recordings() []format.Recording {
	return append([]format.Recording(nil), s.p.recs...)
}
func (s *simRec) Binaries() []format.Binary { return append([]format.Binary(nil), s.p.bins...) }
func (s *simRec) BinaryReferences() []format.BinaryReference {
	return append([]format.BinaryReference(nil), s.p.refs...)
}

// simRef is a reference of a program's own making.
type simRef struct {
	name, uri string
	size      uint64
	meta      metadata.Block
}

func (s *simRef) Name() string             { return s.name }
func (s *simRef) URI() string              { return s.uri }
func (s *simRef) Size() uint64             { return s.size }
func (s *simRef) Metadata() metadata.Block { return s.meta }

func build(m *MRec) format.Recording { return builder{}.rec(m) }

// --- a third-party collection ----------------------------------------------

type simCol struct {
	sig, name  string
	caps       []MCap
	class, uid int
	seen       *decoded // the call that made it
}

type simCap struct{ c MCap }

func (c simCap) Time() float64                   { return c.c.T }
func (c simCap) String() string                  { return fmt.Sprint(c.c.T, c.c.N) }
func (c *simCol) Name() string                   { return c.name }
func (c *simCol) Signature() string              { return c.sig }
func (c *simCol) Length() int                    { return len(c.caps) }
func (c *simCol) Start() float64                 { return c.caps[0].T }
func (c *simCol) End() float64                   { return c.caps[len(c.caps)-1].T }
func (c *simCol) CaptureAt(i int) format.Capture { return simCap{c.caps[i]} }
func (c *simCol) Captures() []format.Capture {
	out := make([]format.Capture, len(c.caps))
	for i := range c.caps {
		out[i] = simCap{c.caps[i]}
	}
	return out
}
func (c *simCol) Slice(b, e float64) format.CaptureCollection {
	out := &simCol{sig: c.sig, name: c.name}
	for _, x := range c.caps {
		if x.T >= b && x.T < e {
			out.caps = append(out.caps, x)
		}
	}
	return out
}

// --- observing rap values ---------------------------------------------------

type unusable struct{ msg string }

func (u unusable) Error() string { return u.msg }

func bad(f string, a ...interface{}) { panic(unusable{fmt.Sprintf(f, a...)}) }

// observe walks everything a recording shows and returns it as a model. The
// error says what makes the recording unusable (a nil part, contradicting
// getters, undecodable metadata).
func observe(rec format.Recording) (m *MRec, err error) {
	defer func() {
		if p := recover(); p != nil {
			if u, ok := p.(unusable); ok {
				m, err = nil, u
				return
			}
			panic(p)
		}
	}()
	return obsRec(rec, "recording", 0), nil
}

func isNil(x interface{}) bool {
	if x == nil {
		return true
	}
	v := reflect.ValueOf(x)
	return (v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface || v.Kind() == reflect.Map) && v.IsNil()
}

func obsRec(rec format.Recording, path string, depth int) *MRec {
	if isNil(rec) {
		bad("%s is nil", path)
	}
	m := &MRec{ID: rec.ID(), Name: rec.Name(), Meta: obsBlock(rec.Metadata(), path+".metadata")}
	for i, c := range rec.CaptureCollections() {
		m.Cols = append(m.Cols, obsCol(c, fmt.Sprintf("%s.collections[%d]", path, i)))
	}
	for i, b := range rec.BinaryReferences() {
		p := fmt.Sprintf("%s.references[%d]", path, i)
		if isNil(b) {
			bad("%s is nil", p)
		}
		m.Refs = append(m.Refs, MRef{b.Name(), b.URI(), b.Size(), obsBlock(b.Metadata(), p+".metadata")})
	}
	for i, b := range rec.Binaries() {
		p := fmt.Sprintf("%s.binaries[%d]", path, i)
		if isNil(b) {
			bad("%s is nil", p)
		}
		d := b.Data()
		if d == nil {
			bad("%s has no data", p)
		}
		data, err := io.ReadAll(d)
		if err != nil {
			bad("%s can not be read: %v", p, err)
		}
		m.Bins = append(m.Bins, MBin{Name: b.Name(), Data: data, Size: b.Size(), Meta: obsBlock(b.Metadata(), p+".metadata")})
	}
	for i, c := range rec.Recordings() {
		m.Recs = append(m.Recs, obsRec(c, fmt.Sprintf("%s.recordings[%d]", path, i), depth+1))
	}
	return m
}

func obsCol(c format.CaptureCollection, path string) MCol {
	if isNil(c) {
		bad("%s is nil", path)
	}
	m := MCol{Sig: c.Signature(), Name: c.Name(), Kind: -1}
	caps := c.Captures()
	if len(caps) != c.Length() {
		bad("%s has %d captures but says %d", path, len(caps), c.Length())
	}
	switch x := c.(type) {
	case enum.Collection:
		m.Kind = kEnum
		m.Members = append([]string{}, x.EnumMembers()...)
	case event.Collection:
		m.Kind = kEvent
	case position.Collection:
		m.Kind = kPosition
	case euler.Collection:
		m.Kind = kEuler
	case float.Collection:
		m.Kind = kFloat
	case *simCol:
		m.Kind = kSim
	default:
		bad("%s is of an unknown type %T", path, c)
	}
	if m.Kind != kSim && m.Sig != kindName[m.Kind] {
		bad("%s has signature %q", path, m.Sig)
	}
	for i, cp := range caps {
		if isNil(cp) {
			bad("%s.captures[%d] is nil", path, i)
		}
		if at := c.CaptureAt(i); isNil(at) || math.Float64bits(at.Time()) != math.Float64bits(cp.Time()) {
			bad("%s.captures[%d] differs between getters", path, i)
		}
		mc := MCap{T: cp.Time()}
		switch y := cp.(type) {
		case position.Capture:
			p := y.Position()
			mc.V = [3]float64{p.X(), p.Y(), p.Z()}
		case euler.Capture:
			p := y.EulerZXY()
			mc.V = [3]float64{p.X(), p.Y(), p.Z()}
		case enum.Capture:
			mc.N = y.Value()
		case event.Capture:
			mc.Name = y.Name()
			mc.Meta = obsBlock(y.Metadata(), fmt.Sprintf("%s.captures[%d].metadata", path, i))
		case float.Capture:
			mc.V[0] = y.Value()
		case simCap:
			mc = y.c
		default:
			bad("%s.captures[%d] is of an unknown type %T", path, i, cp)
		}
		_ = cp.String()
		m.Caps = append(m.Caps, mc)
	}
	if len(caps) > 0 {
		if math.Float64bits(c.Start()) != math.Float64bits(caps[0].Time()) || math.Float64bits(c.End()) != math.Float64bits(caps[len(caps)-1].Time()) {
			bad("%s: start or end differ from its captures", path)
		}
	}
	return m
}

func obsBlock(b metadata.Block, path string) MBlock {
	m := b.Mapping()
	out := make(MBlock, 0, len(m))
	for k, p := range m {
		out = append(out, MEntry{k, obsProp(p, path+"["+k+"]")})
	}
	return out.sorted()
}

func obsProp(p metadata.Property, path string) MProp {
	if isNil(p) {
		bad("%s is nil", path)
	}
	data := p.Data()
	rd := &dec{b: data, path: path}
	m := rd.prop(p.Code())
	if len(rd.b) != 0 {
		bad("%s: %d bytes too many in its data", path, len(rd.b))
	}
	m.Str = p.String()
	if mp, ok := p.(metadata.MetadataProperty); ok {
		viaBlock := obsBlock(mp.Block(), path)
		if d := diffBlock(viaBlock, m.Block, path, false); d != "" {
			bad("%s: block and data differ: %s", path, d)
		}
	}
	if bp, ok := p.(metadata.BoolProperty); ok && bp.Value() != (m.Code == 3) {
		bad("%s: value and code differ", path)
	}
	if bp, ok := p.(metadata.ByteProperty); ok && int64(bp.Value()) != m.I {
		bad("%s: value and data differ", path)
	}
	return m
}

// dec is an independent decoder of the metadata encoding.
type dec struct {
	b     []byte
	path  string
	depth int
}

func (d *dec) take(n uint64) []byte {
	if n > uint64(len(d.b)) {
		bad("%s: data ends early", d.path)
	}
	out := d.b[:n]
	d.b = d.b[n:]
	return out
}

func (d *dec) uvarint() uint64 {
	v, n := binary.Uvarint(d.b)
	if n <= 0 {
		bad("%s: bad varint", d.path)
	}
	d.b = d.b[n:]
	return v
}

func (d *dec) str() string { return string(d.take(d.uvarint())) }
func (d *dec) f64() float64 {
	return math.Float64frombits(binary.LittleEndian.Uint64(d.take(8)))
}

func (d *dec) prop(code byte) MProp {
	m := MProp{Code: code}
	d.depth++
	defer func() { d.depth-- }()
	if d.depth > 10000 {
		bad("%s: nested too deeply", d.path)
	}
	switch code {
	case 0:
		m.S = d.str()
	case 1:
		m.I = int64(int32(binary.LittleEndian.Uint32(d.take(4))))
	case 2:
		m.F = binary.LittleEndian.Uint32(d.take(4))
	case 3, 4:
	case 5:
		m.I = int64(d.take(1)[0])
	case 6:
		m.V[0], m.V[1] = d.f64(), d.f64()
	case 7:
		m.V[0], m.V[1], m.V[2] = d.f64(), d.f64(), d.f64()
	case 11:
		n := d.uvarint()
		var keys []string
		for i := uint64(0); i < n; i++ {
			keys = append(keys, d.str())
		}
		m.Block = MBlock{}
		seen := map[string]bool{}
		for _, k := range keys {
			p := d.prop(d.take(1)[0])
			if seen[k] {
				bad("%s: key %q twice", d.path, k)
			}
			seen[k] = true
			m.Block = append(m.Block, MEntry{k, p})
		}
		m.Block.sorted()
	case 12:
		m.I = int64(binary.LittleEndian.Uint64(d.take(8)))
	case 16:
		m.B = append([]byte{}, d.take(d.uvarint())...)
		for i := range m.B {
			m.B[i] &= 1
		}
	case 18:
		m.B = append([]byte{}, d.take(d.uvarint())...)
	case 13, 14, 15, 19, 20, 24, 25:
		n := d.uvarint()
		if n > uint64(len(d.b)) {
			bad("%s: array of %d elements in %d bytes", d.path, n, len(d.b))
		}
		for i := uint64(0); i < n; i++ {
			m.Arr = append(m.Arr, d.prop(code-13))
		}
	default:
		bad("%s: unknown property code %d", d.path, code)
	}
	return m
}

// --- comparing --------------------------------------------------------------

func sameF(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || (math.IsNaN(a) && math.IsNaN(b))
}

func short(s string) string {
	if len(s) > 40 {
		return fmt.Sprintf("%q...(%d bytes)", s[:40], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func diffProp(a, b MProp, path string, strs bool) string {
	if a.Code != b.Code {
		return fmt.Sprintf("%s: type %d, want %d", path, b.Code, a.Code)
	}
	if a.S != b.S {
		return fmt.Sprintf("%s: %s, want %s", path, short(b.S), short(a.S))
	}
	if a.I != b.I || a.F != b.F {
		return fmt.Sprintf("%s: %d/%#x, want %d/%#x", path, b.I, b.F, a.I, a.F)
	}
	for i := range a.V {
		if !sameF(a.V[i], b.V[i]) {
			return fmt.Sprintf("%s: component %d is %v, want %v", path, i, b.V[i], a.V[i])
		}
	}
	if !bytes.Equal(a.B, b.B) {
		return fmt.Sprintf("%s: bytes differ (%d, want %d)", path, len(b.B), len(a.B))
	}
	if len(a.Arr) != len(b.Arr) {
		return fmt.Sprintf("%s: %d elements, want %d", path, len(b.Arr), len(a.Arr))
	}
	for i := range a.Arr {
		if d := diffProp(a.Arr[i], b.Arr[i], fmt.Sprintf("%s[%d]", path, i), false); d != "" {
			return d
		}
	}
	if d := diffBlock(a.Block, b.Block, path, strs); d != "" {
		return d
	}
	if strs && a.Str != b.Str {
		return fmt.Sprintf("%s: printed as %s, want %s", path, short(b.Str), short(a.Str))
	}
	return ""
}

func diffBlock(a, b MBlock, path string, strs bool) string {
	for i, j := 0, 0; i < len(a) || j < len(b); {
		switch {
		case j >= len(b) || (i < len(a) && a[i].Key < b[j].Key):
			return fmt.Sprintf("%s: key %s lost", path, short(a[i].Key))
		case i >= len(a) || b[j].Key < a[i].Key:
			return fmt.Sprintf("%s: key %s appeared", path, short(b[j].Key))
		}
		if d := diffProp(a[i].P, b[j].P, path+"["+short(a[i].Key)+"]", strs); d != "" {
			return d
		}
		i++
		j++
	}
	return ""
}

type diffOpts struct {
	captures bool // compare the captures, exactly
	strs     bool // compare what String() of properties says
}

// diff says how got differs from want.
func diff(want, got *MRec, o diffOpts) string { return diffRec(want, got, "recording", o) }

func diffRec(a, b *MRec, path string, o diffOpts) string {
	switch {
	case a == nil && b == nil:
		return ""
	case a == nil:
		return path + " should not be there"
	case b == nil:
		return path + " is missing"
	}
	if a.ID != b.ID {
		return fmt.Sprintf("%s: id %s, want %s", path, short(b.ID), short(a.ID))
	}
	if a.Name != b.Name {
		return fmt.Sprintf("%s: name %s, want %s", path, short(b.Name), short(a.Name))
	}
	if d := diffBlock(a.Meta, b.Meta, path+".metadata", o.strs); d != "" {
		return d
	}
	if len(a.Cols) != len(b.Cols) {
		return fmt.Sprintf("%s: %d collections, want %d", path, len(b.Cols), len(a.Cols))
	}
	for i := range a.Cols {
		if d := diffCol(&a.Cols[i], &b.Cols[i], fmt.Sprintf("%s.collections[%d]", path, i), o); d != "" {
			return d
		}
	}
	if len(a.Refs) != len(b.Refs) {
		return fmt.Sprintf("%s: %d references, want %d", path, len(b.Refs), len(a.Refs))
	}
	for i := range a.Refs {
		x, y := &a.Refs[i], &b.Refs[i]
		p := fmt.Sprintf("%s.references[%d]", path, i)
		if x.Name != y.Name || x.URI != y.URI || x.Size != y.Size {
			return fmt.Sprintf("%s: %s %s %d, want %s %s %d", p, short(y.Name), short(y.URI), y.Size, short(x.Name), short(x.URI), x.Size)
		}
		if d := diffBlock(x.Meta, y.Meta, p+".metadata", o.strs); d != "" {
			return d
		}
	}
	if len(a.Bins) != len(b.Bins) {
		return fmt.Sprintf("%s: %d binaries, want %d", path, len(b.Bins), len(a.Bins))
	}
	for i := range a.Bins {
		x, y := &a.Bins[i], &b.Bins[i]
		p := fmt.Sprintf("%s.binaries[%d]", path, i)
		if x.Name != y.Name || x.Size != y.Size {
			return fmt.Sprintf("%s: %s %d bytes, want %s %d bytes", p, short(y.Name), y.Size, short(x.Name), x.Size)
		}
		if !bytes.Equal(x.Data, y.Data) {
			return fmt.Sprintf("%s: content differs (%d bytes, want %d)", p, len(y.Data), len(x.Data))
		}
		if d := diffBlock(x.Meta, y.Meta, p+".metadata", o.strs); d != "" {
			return d
		}
	}
	if len(a.Recs) != len(b.Recs) {
		return fmt.Sprintf("%s: %d recordings, want %d", path, len(b.Recs), len(a.Recs))
	}
	for i := range a.Recs {
		if d := diffRec(a.Recs[i], b.Recs[i], fmt.Sprintf("%s.recordings[%d]", path, i), o); d != "" {
			return d
		}
	}
	return ""
}

func diffCol(a, b *MCol, path string, o diffOpts) string {
	if a.Kind != b.Kind || (a.Kind == kSim && a.Sig != b.Sig) {
		return fmt.Sprintf("%s: kind %d %q, want %d %q", path, b.Kind, b.Sig, a.Kind, a.Sig)
	}
	if a.Name != b.Name {
		return fmt.Sprintf("%s: name %s, want %s", path, short(b.Name), short(a.Name))
	}
	if len(a.Caps) != len(b.Caps) {
		return fmt.Sprintf("%s: %d captures, want %d", path, len(b.Caps), len(a.Caps))
	}
	if !o.captures {
		return ""
	}
	if d := diffMembers(a, b, path); d != "" {
		return d
	}
	for i := range a.Caps {
		x, y := &a.Caps[i], &b.Caps[i]
		p := fmt.Sprintf("%s.captures[%d]", path, i)
		if !sameF(x.T, y.T) {
			return fmt.Sprintf("%s: time %v, want %v", p, y.T, x.T)
		}
		for k := range x.V {
			if !sameF(x.V[k], y.V[k]) {
				return fmt.Sprintf("%s: component %d is %v, want %v", p, k, y.V[k], x.V[k])
			}
		}
		if x.N != y.N || x.Name != y.Name {
			return fmt.Sprintf("%s: %d %s, want %d %s", p, y.N, short(y.Name), x.N, short(x.Name))
		}
		if d := diffBlock(x.Meta, y.Meta, p+".metadata", o.strs); d != "" {
			return d
		}
	}
	return ""
}

func diffMembers(a, b *MCol, path string) string {
	if len(a.Members) != len(b.Members) {
		return fmt.Sprintf("%s: %d enum members, want %d", path, len(b.Members), len(a.Members))
	}
	for i := range a.Members {
		if a.Members[i] != b.Members[i] {
			return fmt.Sprintf("%s: enum member %d is %s, want %s", path, i, short(b.Members[i]), short(a.Members[i]))
		}
	}
	return ""
}

// walk visits every recording of the tree.
func (m *MRec) walk(f func(*MRec)) {
	f(m)
	for _, c := range m.Recs {
		c.walk(f)
	}
}

// hash fingerprints the shape of a recording.
func (m *MRec) hash() uint64 {
	h := uint64(14695981039346656037)
	add := func(v uint64) { h = (h ^ v) * 1099511628211 }
	m.walk(func(r *MRec) {
		add(uint64(len(r.Name)))
		add(uint64(len(r.Meta)))
		for _, e := range r.Meta {
			add(uint64(e.P.Code))
		}
		add(uint64(len(r.Cols)))
		for _, c := range r.Cols {
			add(uint64(c.Kind))
			add(uint64(len(c.Caps)))
		}
		add(uint64(len(r.Refs)))
		add(uint64(len(r.Bins)))
		for _, b := range r.Bins {
			add(uint64(len(b.Data)))
		}
		add(uint64(len(r.Recs)))
	})
	return h
}

// describe is a one-line summary for samples and traces.
func (m *MRec) describe() string {
	recs, cols, caps, bins, refs, keys, depth := 0, 0, 0, 0, 0, 0, 0
	bytes := 0
	var f func(r *MRec, d int)
	f = func(r *MRec, d int) {
		if d > depth {
			depth = d
		}
		recs++
		cols += len(r.Cols)
		for _, c := range r.Cols {
			caps += len(c.Caps)
		}
		bins += len(r.Bins)
		for _, b := range r.Bins {
			bytes += len(b.Data)
		}
		refs += len(r.Refs)
		keys += len(r.Meta)
		for _, c := range r.Recs {
			f(c, d+1)
		}
	}
	f(m, 0)
	return fmt.Sprintf("recordings=%d depth=%d collections=%d captures=%d metadata_keys=%d binaries=%d (%d bytes) references=%d", recs, depth, cols, caps, keys, bins, bytes, refs)
}
