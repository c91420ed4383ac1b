package main

import (
	"fmt"
	"math"
	"strings"
)

// Boundary counts: around varint and buffer limits.
var boundary = []int{127, 128, 129, 200, 255, 256, 257, 300}
var boundaryHuge = []int{4097, 5000, 16385, 32769, 65537, 66000, 70000}
var boundaryMega = []int{1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<21 - 1, 1 << 21, 1<<21 + 1, 3000000}
var boundaryBig = []int{1023, 1024, 1025, 4095, 4096, 4097, 16383, 16384, 16385, 32767, 32768, 32769, 40000, 65535, 65536, 65537, 70000}

// genOpts restricts what is generated.
type genOpts struct {
	kinds     []int // kinds of collections
	noMeta    bool
	noBins    bool
	noRefs    bool
	ordered   bool // chronologically ordered, finite times
	utf8      bool // only valid UTF-8 strings
	plain     bool // no control characters
	small     bool // no large dimension
	minCaps   int
	f32       bool // all numbers are float32 values
	focusCaps bool // spend the effort on captures
	noNest    bool
	enumValid bool // enum values index their members
	zeroBins  bool
	binHeavy  bool
	jsonSafe  bool // only finite numbers
	huge      bool // now and then a dimension beyond 16 bits
}

type gen struct {
	r     *Run
	o     genOpts
	nodes int // recordings left
	rng   *Rng
	// swarm: features that are on in this run
	fMeta, fBins, fRefs, fCols, fNest bool
	keys                              []string
	names                             []string
	dim                               int // the large dimension of this run (0: none)
	dimN                              int
	dimUsed, huge                     bool
	maxCaps                           int
	via                               *Delivery // of binaries
	own                               int       // one recording in that many is of a program's own type
}

const (
	dNone = iota
	dChildren
	dDepth
	dCols
	dCaps
	dKeys
	dBinBytes
	dString
	dRefs
	dBins
	dArray
	dMembers
	dEventNames
	dOwners // many different keys over many owners
	dEventKeys
	nDims
)

func (r *Run) genRecording(o genOpts) *MRec {
	g := &gen{r: r, o: o}
	switch r.Pick(2, 5, 5, 2) {
	case 0:
		g.nodes = 0
	case 1:
		g.nodes = r.Int(4)
	case 2:
		g.nodes = r.Int(12)
	case 3:
		g.nodes = r.Int(60)
	}
	sw := r.Int(32)
	g.fMeta = sw&1 == 1 && !o.noMeta
	g.fBins = (sw&2 == 2 || o.binHeavy) && !o.noBins
	g.fRefs = sw&4 == 4 && !o.noRefs
	g.fCols = (sw&8 == 8 || o.focusCaps) && len(o.kinds) > 0
	g.fNest = sw&16 == 16 && !o.noNest
	g.rng = r.Sub()
	if !o.small && r.Chance(1, 6) {
		g.dim = 1 + r.Int(nDims-1)
		if r.Chance(1, 3) {
			g.dimN = boundaryBig[r.Int(len(boundaryBig))]
		} else {
			g.dimN = boundary[r.Int(len(boundary))]
		}
		g.huge = o.huge && r.Chance(1, 25)
		if g.huge {
			g.dimN = boundaryHuge[r.Int(len(boundaryHuge))]
			switch {
			case g.dim == dDepth:
				g.dimN = 260 + r.Int(900)
			case (g.dim == dBinBytes || g.dim == dString) && r.Bool():
				g.dimN = boundaryMega[r.Int(len(boundaryMega))]
			case g.dim == dCaps && r.Chance(1, 3):
				g.dimN = 90000 // more than 2 MB of payload
			}
			g.nodes = r.Int(3)
			r.large = true
		}
		// what is expensive per element is kept moderate
		limit := g.dimN
		switch g.dim {
		case dChildren, dCols, dRefs, dBins, dOwners, dDepth:
			limit = 400
		case dKeys, dArray:
			limit = 17000
		case dMembers, dEventNames, dEventKeys:
			limit = 3000
		case dCaps:
			limit = 33000
		}
		if !g.huge && g.dimN > limit {
			g.dimN = limit
		}
		if !g.huge && g.dim == dDepth && g.dimN > 130 {
			g.dimN = 130
		}
		g.applyDim()
	}
	g.maxCaps = r.OneOf(0, 1, 2, 3, 6, 12, 40)
	if o.focusCaps {
		g.maxCaps = r.OneOf(1, 2, 3, 12, 40, 150, 400)
		if !o.small && r.Chance(1, 40) {
			g.maxCaps = 5000
		}
	}
	pool := r.OneOf(1, 2, 3, 12)
	for i := 0; i < pool; i++ {
		g.names = append(g.names, g.freshName())
		key := g.freshName()
		if g.dim == dString && g.rng.Chance(1, 3) {
			key = strings.Repeat("k", g.dimN-2)
		}
		g.keys = append(g.keys, fmt.Sprintf("%s%d", key, i))
	}
	if g.fBins && r.Chance(1, 3) {
		d := r.drawStream()
		if r.Chance(1, 8) {
			d.Kind = 3
		}
		g.via = &d
	}
	g.own = r.OneOf(0, 0, 0, 2, 1)
	return g.rec(0)
}

// delivery is how the bytes of a binary of that size are handed out.
func (g *gen) delivery(size int) *Delivery {
	if g.via == nil || g.rng.Chance(1, 4) {
		return nil
	}
	d := *g.via
	if size > 5000 && (d.Mode == 1 || d.Max < 500) && d.Mode != 0 {
		d.Mode, d.Max = 3, 5000
	}
	d.rng = &Rng{s: 1 + g.rng.next()>>1}
	return &d
}

func (g *gen) applyDim() {
	switch g.dim {
	case dCols, dCaps, dMembers, dEventNames, dEventKeys:
		g.fCols = len(g.o.kinds) > 0
	case dKeys, dArray, dOwners:
		g.fMeta = !g.o.noMeta
	case dBinBytes, dBins:
		g.fBins = !g.o.noBins
	case dRefs:
		g.fRefs = !g.o.noRefs
	}
}

var namePool = []string{"", "a", "Position", "Custom Event", "Life Cycle", "b c", "ünïcode ✓", "x", "value", "name"}
var oddNames = []string{"quote\"d", "back\\slash", "new\nline", "tab\t", "\x00", "\x1b[0m", "100%d", "%s%n", "</script>", "\u2028", "comma,semi;", "'single'"}
var badUTF8 = []string{"\xff", "a\xc3", "\xed\xa0\x80"}

func (g *gen) freshName() string {
	k := g.rng.Int(20)
	switch {
	case k < 12:
		return namePool[g.rng.Int(len(namePool))]
	case k < 14 && !g.o.plain:
		return oddNames[g.rng.Int(len(oddNames))]
	case k < 15 && !g.o.utf8:
		return badUTF8[g.rng.Int(len(badUTF8))]
	case k < 17:
		return fmt.Sprintf("n%d", g.rng.Int(1000))
	default:
		return strings.Repeat("long ", g.rng.Int(12)) + string(rune('a'+g.rng.Int(26)))
	}
}

func (g *gen) name() string {
	if g.dim == dString && !g.dimUsed && g.rng.Chance(1, 4) {
		g.dimUsed = g.rng.Chance(1, 2)
		return strings.Repeat("s", g.dimN-1) + "e"
	}
	if len(g.names) == 0 || !g.huge && g.rng.Chance(1, 4) {
		return g.freshName()
	}
	return g.names[g.rng.Int(len(g.names))]
}

func (g *gen) rec(depth int) *MRec {
	m := &MRec{ID: g.name(), Name: g.name()}
	r := g.r
	m.Own = g.own > 0 && g.rng.Int(g.own) == 0
	if g.fMeta {
		m.Meta = g.block(0)
	}
	if g.fCols {
		n := r.Int(4)
		if g.dim == dCols && !g.dimUsed {
			g.dimUsed = true
			n = g.dimN
		}
		if (g.dim == dCaps || g.dim == dMembers || g.dim == dEventNames || g.dim == dEventKeys || g.o.focusCaps) && n == 0 {
			n = 1
		}
		for i := 0; i < n; i++ {
			m.Cols = append(m.Cols, g.col(n > 20))
		}
	}
	if g.fRefs {
		n := g.rng.Int(4)
		if g.dim == dRefs && !g.dimUsed {
			g.dimUsed = true
			n = g.dimN
		}
		for i := 0; i < n; i++ {
			ref := MRef{Name: g.name(), URI: "https://" + g.name(), Size: g.refSize()}
			if g.fMeta && n < 20 {
				ref.Meta = g.block(0)
			}
			m.Refs = append(m.Refs, ref)
		}
	}
	if g.fBins {
		n := g.rng.Int(4)
		if g.o.binHeavy && n == 0 {
			n = 1
		}
		if g.dim == dBins && !g.dimUsed {
			g.dimUsed = true
			n = g.dimN
		}
		for i := 0; i < n; i++ {
			size := []int{0, 1, 2, 5, 17, 100, 129, 513}[g.rng.Int(8)]
			if g.dim == dBinBytes && !g.dimUsed {
				g.dimUsed = true
				size = g.dimN
			}
			b := MBin{Name: g.name(), Data: g.rng.Bytes(size)}
			b.Size = uint64(len(b.Data))
			b.Via = g.delivery(size)
			if g.fMeta && n < 20 {
				b.Meta = g.block(0)
			}
			m.Bins = append(m.Bins, b)
		}
	}
	n := 0
	if g.nodes > 0 {
		n = r.Int(4)
		if depth > 0 && n > 2 {
			n = 2
		}
		if n > g.nodes {
			n = g.nodes
		}
		g.nodes -= n
	}
	if (g.dim == dChildren || g.dim == dOwners) && !g.dimUsed {
		g.dimUsed = true
		for i := 0; i < g.dimN; i++ {
			c := &MRec{ID: fmt.Sprint(i), Name: g.name()}
			if g.dim == dOwners && g.fMeta {
				c.Meta = MBlock{{fmt.Sprintf("own%d", i), g.prop(1, 3)}}
			}
			if i%7 == 3 && g.fCols {
				c.Cols = append(c.Cols, g.col(true))
			}
			m.Recs = append(m.Recs, c)
		}
	}
	if g.dim == dDepth && !g.dimUsed {
		g.dimUsed = true
		cur := m
		for i := 0; i < g.dimN; i++ {
			c := &MRec{ID: fmt.Sprint("d", i), Name: "deep"}
			if i%11 == 5 && g.fCols {
				c.Cols = append(c.Cols, g.col(true))
			}
			if i%13 == 7 {
				c.Recs = append(c.Recs, &MRec{ID: "leaf"})
			}
			cur.Recs = append(cur.Recs, c)
			cur = c
		}
	}
	for i := 0; i < n; i++ {
		m.Recs = append(m.Recs, g.rec(depth+1))
	}
	return m
}

func (g *gen) refSize() uint64 {
	switch g.rng.Int(6) {
	case 0:
		return 0
	case 1:
		return uint64(g.rng.Int(1000))
	case 2:
		return 1<<32 + uint64(g.rng.Int(10))
	case 3:
		return math.MaxUint64
	case 4:
		return 1 << 63
	}
	return uint64(127 + g.rng.Int(3))
}

func (g *gen) key(i int) string {
	if len(g.keys) > 0 && g.rng.Chance(2, 3) {
		return g.keys[g.rng.Int(len(g.keys))]
	}
	if g.rng.Chance(1, 8) {
		return g.freshName() // "" among others
	}
	return fmt.Sprintf("k%d", g.rng.Int(40))
}

func (g *gen) block(depth int) MBlock {
	n := g.rng.Int(4)
	if g.rng.Chance(1, 10) {
		n = 9 + g.rng.Int(12)
	}
	if depth > 0 && n > 3 {
		n = 3
	}
	kind := 0
	if g.dim == dKeys && !g.dimUsed && depth == 0 {
		g.dimUsed = true
		n = g.dimN
		kind = 1
	}
	seen := map[string]bool{}
	out := MBlock{}
	for i := 0; i < n; i++ {
		k := g.key(i)
		if kind == 1 {
			k = fmt.Sprintf("key%d", i)
		}
		if seen[k] {
			continue
		}
		seen[k] = true
		if kind == 1 {
			out = append(out, MEntry{k, MProp{Code: 1, I: int64(i)}})
		} else {
			out = append(out, MEntry{k, g.prop(depth, -1)})
		}
	}
	return out.sorted()
}

var propCodes = []byte{0, 1, 2, 3, 4, 5, 6, 7, 12, 13, 14, 15, 16, 18, 19, 20, 25, 11, 24}

func (g *gen) prop(depth, code int) MProp {
	c := byte(0)
	if code >= 0 {
		c = byte(code)
	} else {
		n := len(propCodes)
		if depth > 2 || !g.fNest {
			n -= 2
		}
		c = propCodes[g.rng.Int(n)]
	}
	p := MProp{Code: c}
	switch c {
	case 0:
		p.S = g.name()
	case 1:
		p.I = []int64{0, 1, -1, 42, math.MaxInt32, math.MinInt32, 127, 128}[g.rng.Int(8)]
		if g.rng.Chance(1, 3) {
			p.I = int64(int32(g.rng.next() >> (32 + uint(g.rng.Int(32)))))
		}
	case 2:
		p.F = math.Float32bits(float32(g.num()))
	case 5:
		p.I = int64(g.rng.Int(256))
	case 6:
		p.V[0], p.V[1] = g.num(), g.num()
	case 7:
		p.V[0], p.V[1], p.V[2] = g.num(), g.num(), g.num()
	case 11:
		p.Block = g.block(depth + 1)
	case 12:
		p.I = []int64{0, 1, -1, 1_600_000_000_000_000, 1_700_000_000_123_456, -62_000_000_000_000_000, 999_999}[g.rng.Int(7)]
		if g.rng.Chance(1, 3) {
			p.I = int64(g.rng.next() % 4_000_000_000_000_000)
		}
	case 16, 18:
		p.B = g.rng.Bytes(g.arrLen())
		if c == 16 {
			for i := range p.B {
				p.B[i] &= 1
			}
		}
	case 13, 14, 15, 19, 20, 24, 25:
		n := g.arrLen()
		if c == 24 && n > 4 {
			n = 4
		}
		for i := 0; i < n; i++ {
			p.Arr = append(p.Arr, g.prop(depth+1, int(c)-13))
		}
	}
	return p
}

func (g *gen) arrLen() int {
	if g.dim == dArray && !g.dimUsed {
		g.dimUsed = true
		return g.dimN
	}
	return []int{0, 1, 2, 3, 9}[g.rng.Int(5)]
}

func (g *gen) num() float64 {
	v := 0.0
	switch g.rng.Int(8) {
	case 0:
		v = 0
	case 1:
		v = float64(g.rng.Int(100))
	case 2:
		v = -g.rng.Float()
	case 3:
		v = g.rng.Float() * 1e6
	case 4:
		v = 0.1
	case 5:
		v = -12345.6789
	case 6:
		if g.o.jsonSafe {
			v = 2.5
		} else {
			v = []float64{math.Inf(1), math.Inf(-1), math.NaN(), math.Copysign(0, -1), math.MaxFloat64, 5e-324}[g.rng.Int(6)]
		}
	case 7:
		v = g.rng.Float() * 1e-5
	}
	if g.o.f32 {
		v = float64(float32(v))
	}
	return v
}

func (g *gen) col(tiny bool) MCol {
	kind := g.o.kinds[g.r.Int(len(g.o.kinds))]
	if g.huge && !g.dimUsed && !tiny {
		for _, k := range g.o.kinds {
			if k == kEnum && g.dim == dMembers || k == kEvent && (g.dim == dEventNames || g.dim == dEventKeys) {
				kind = k
			}
		}
	}
	c := MCol{Kind: kind, Sig: kindName[kind], Name: g.name()}
	n := 0
	if tiny {
		n = g.rng.Int(3)
	} else {
		n = g.r.Int(g.maxCaps + 1)
	}
	if n < g.o.minCaps {
		n = g.o.minCaps
	}
	big := false
	if g.dim == dCaps && !g.dimUsed {
		g.dimUsed = true
		n = g.dimN
		big = true
	}
	many := 0
	if (g.dim == dMembers && kind == kEnum || (g.dim == dEventNames || g.dim == dEventKeys && !g.o.noMeta) && kind == kEvent) && !g.dimUsed {
		g.dimUsed = true
		many = g.dimN
	}
	if kind == kEvent && many > n {
		n = many
	}
	times := g.times(n)
	var walk func(i int) [3]float64
	if kind == kPosition || kind == kEuler || kind == kFloat {
		walk = g.values(kind)
	}
	if kind == kEnum {
		k := g.rng.Int(5)
		if many > 0 {
			for i := 0; i < many; i++ {
				c.Members = append(c.Members, fmt.Sprintf("member %d", i))
			}
			k = 0
		}
		for i := 0; i < k; i++ {
			c.Members = append(c.Members, g.name())
		}
		if g.o.enumValid && len(c.Members) == 0 {
			c.Members = []string{"only"}
		}
	}
	for i := 0; i < n; i++ {
		m := MCap{T: times[i]}
		switch kind {
		case kEnum:
			if g.o.enumValid || g.rng.Chance(4, 5) && len(c.Members) > 0 {
				m.N = g.rng.Int(len(c.Members))
			} else {
				m.N = []int{0, 1, 127, 128, -1, 1 << 20, math.MaxInt32, math.MaxInt64, math.MinInt64}[g.rng.Int(9)]
			}
		case kEvent:
			m.Name = g.name()
			if many > 0 && g.dim == dEventNames {
				m.Name = fmt.Sprintf("event %d", i)
			} else if many > 0 {
				m.Meta = MBlock{{fmt.Sprintf("key %d", i), MProp{Code: 1, I: int64(i)}}}
			}
			if !g.o.noMeta && !big && !(g.huge && tiny) && many == 0 && g.rng.Chance(1, 2) {
				m.Meta = g.block(1)
			}
		case kSim:
			m.N = i
		default:
			m.V = walk(i)
			if kind == kFloat {
				m.V[1], m.V[2] = 0, 0
			}
			if g.o.f32 {
				for k := range m.V {
					m.V[k] = float64(float32(m.V[k]))
				}
			}
		}
		c.Caps = append(c.Caps, m)
	}
	return c
}

// times draws n capture times in one of several regimes.
func (g *gen) times(n int) []float64 {
	regimes := 9
	if !g.o.ordered {
		regimes = 12
	}
	reg := g.rng.Int(regimes)
	start := []float64{0, 0, 1, -3.25, 1000.5, 86400 * 365, 1e9}[g.rng.Int(7)]
	step := []float64{1, 0.1, 1.0 / 60, 0.5, 0.001, 30, 1e-6}[g.rng.Int(7)]
	out := make([]float64, n)
	t := start
	for i := range out {
		switch reg {
		case 0, 1:
			t = start + float64(i)*step
		case 2, 3, 4:
			if i > 0 {
				t += step * g.rng.Float()
			}
		case 5:
			if i > 0 && g.rng.Chance(1, 2) {
				t += step
			}
		case 6:
			t = start
		case 7:
			if i > 0 {
				t += step * g.rng.Float()
				if g.rng.Chance(1, 7) {
					t += 1000 * step
				}
			}
		case 8:
			if i > 0 {
				t += step * math.Pow(2, float64(g.rng.Int(12)-6))
			}
		case 9:
			t = start + (g.rng.Float()-0.5)*step*100
		case 10:
			t = start - float64(i)*step
		case 11:
			t = []float64{0, -1, 1e300, -1e300, 0.5, math.Inf(1), math.Inf(-1), math.MaxFloat64}[g.rng.Int(8)]
			if g.o.jsonSafe && math.IsInf(t, 0) {
				t = 3
			}
		}
		if g.o.f32 {
			t = float64(float32(t))
		}
		out[i] = t
	}
	return out
}

// values draws how numeric payloads evolve.
func (g *gen) values(kind int) func(i int) [3]float64 {
	reg := g.rng.Int(8)
	var base, vel, cur [3]float64
	scale := []float64{1, 10, 0.01, 1000, 1e6, 360}[g.rng.Int(6)]
	for k := range base {
		base[k] = (g.rng.Float() - 0.5) * 2 * scale
		vel[k] = (g.rng.Float() - 0.5) * scale / 10
		cur[k] = base[k]
	}
	if kind == kEuler && g.rng.Chance(2, 3) {
		scale = 360
	}
	return func(i int) [3]float64 {
		var v [3]float64
		for k := range v {
			switch reg {
			case 0:
				v[k] = base[k]
			case 1, 2: // random walk
				if i > 0 {
					cur[k] += (g.rng.Float() - 0.5) * scale / 5
				}
				v[k] = cur[k]
			case 3: // straight line
				v[k] = base[k] + vel[k]*float64(i)
			case 4: // independent
				v[k] = (g.rng.Float() - 0.5) * 2 * scale
			case 5: // jumps
				if i > 0 && g.rng.Chance(1, 5) {
					cur[k] += (g.rng.Float() - 0.5) * scale * 50
				}
				v[k] = cur[k]
			case 6: // one axis only
				v[k] = base[k]
				if k == 0 {
					v[k] += float64(i) * scale / 7
				}
			case 7: // exact values at cell borders
				v[k] = []float64{0, 90, 180, 270, 360, -90, -360, 359.9999999, 0.5, 720.25}[g.rng.Int(10)]
			}
		}
		return v
	}
}
