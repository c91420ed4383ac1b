package main

import (
	"encoding/binary"
	"os"
)

// Every decision of a run is drawn from one of two choice sequences: the main
// one (workload, delivery, faults) and the scheduler's. In a generating run the
// values come from a seeded generator and are recorded; in a replay they come
// from the recording, reduced modulo the number of options, and 0 (always the
// simplest option) once the recording is used up.

const (
	sMain  = 0
	sSched = 1
)

const schedCap = 8192

type cstream struct {
	in  []uint64
	pos int
	rec []uint64
	rng uint64
}

// Choices is the source of every decision.
type Choices struct {
	st     [2]cstream
	replay bool
	log    *os.File // receives every choice as it is made
}

// persist writes every choice to a file, so that it survives the process.
func (c *Choices) persist(name string) {
	f, err := os.Create(name)
	if err != nil {
		fatal("%v", err)
	}
	c.log = f
}

// readPersisted reads what persist wrote.
func readPersisted(name string) [2][]uint64 {
	var out [2][]uint64
	b, _ := os.ReadFile(name)
	for len(b) >= 9 {
		s := int(b[0]) & 1
		out[s] = append(out[s], binary.LittleEndian.Uint64(b[1:9]))
		b = b[9:]
	}
	return trim(out)
}

func newChoices(seed uint64) *Choices {
	c := &Choices{}
	for i := range c.st {
		c.st[i].rng = mix64(seed + uint64(i)*0x51ED270B)
	}
	c.st[sMain].rec = make([]uint64, 0, 64)
	c.st[sSched].rec = make([]uint64, 0, 256)
	return c
}

func replayChoices(in [2][]uint64) *Choices {
	c := &Choices{replay: true}
	for i := range c.st {
		c.st[i].in = in[i]
		c.st[i].rec = make([]uint64, 0, len(in[i])+256)
	}
	return c
}

// reserveSched makes sure that recording a scheduler decision never allocates
// while tasks run.
func (c *Choices) reserveSched() {
	r := make([]uint64, len(c.st[sSched].rec), schedCap)
	copy(r, c.st[sSched].rec)
	c.st[sSched].rec = r
}

//go:norace
func (c *Choices) draw(s int, n uint64) uint64 {
	if n <= 1 {
		return 0
	}
	st := &c.st[s]
	if s == sSched && len(st.rec) >= cap(st.rec) {
		return 0
	}
	var v uint64
	if c.replay {
		if st.pos < len(st.in) {
			v = st.in[st.pos] % n
		}
		st.pos++
	} else {
		st.rng += 0x9E3779B97F4A7C15
		v = mix64raw(st.rng) % n
	}
	st.rec = append(st.rec, v)
	if c.log != nil {
		c.write(s, v)
	}
	return v
}

func (c *Choices) write(s int, v uint64) {
	var b [9]byte
	b[0] = byte(s)
	binary.LittleEndian.PutUint64(b[1:], v)
	c.log.Write(b[:])
}

//go:norace
func (c *Choices) schedDraw(n uint64) uint64 { return c.draw(sSched, n) }

func (c *Choices) recorded() [2][]uint64 {
	var out [2][]uint64
	for i := range c.st {
		out[i] = append([]uint64{}, c.st[i].rec...)
	}
	return out
}

//go:norace
func mix64raw(x uint64) uint64 {
	x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9
	x = (x ^ (x >> 27)) * 0x94D049BB133111EB
	return x ^ (x >> 31)
}

func mix64(x uint64) uint64 { return mix64raw(x + 0x9E3779B97F4A7C15) }

// Int draws from [0, n).
func (c *Choices) Int(n int) int { return int(c.draw(sMain, uint64(n))) }

// Range draws from [lo, hi].
func (c *Choices) Range(lo, hi int) int { return lo + c.Int(hi-lo+1) }

// Chance is true num times in den; 0 is false.
func (c *Choices) Chance(num, den int) bool { return c.Int(den) >= den-num }

// Bool is a coin toss.
func (c *Choices) Bool() bool { return c.Int(2) == 1 }

// Pick draws an index with the given weights.
func (c *Choices) Pick(weights ...int) int {
	t := 0
	for _, w := range weights {
		t += w
	}
	v := c.Int(t)
	for i, w := range weights {
		if v < w {
			return i
		}
		v -= w
	}
	return 0
}

// OneOf draws one of the values.
func (c *Choices) OneOf(vals ...int) int { return vals[c.Int(len(vals))] }

// Sub draws a seed for a generator of bulk content, so that content costs one
// choice. The seed 0 gives a generator that only returns 0.
func (c *Choices) Sub() *Rng { return &Rng{s: c.draw(sMain, 1<<32)} }

// Perm draws a permutation of n elements; 0s give the identity.
func (c *Choices) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i < n-1; i++ {
		j := i + c.Int(n-i)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Rng is a small generator for content.
type Rng struct {
	s uint64
	n uint64
}

//go:norace
func (g *Rng) next() uint64 {
	if g.s == 0 {
		return 0
	}
	g.n++
	return mix64raw(g.s*0xD1342543DE82EF95 + g.n*0x9E3779B97F4A7C15)
}

//go:norace
func (g *Rng) Int(n int) int {
	if n <= 1 {
		return 0
	}
	return int(g.next() % uint64(n))
}

func (g *Rng) Chance(num, den int) bool { return g.Int(den) >= den-num }

// Float is in [0, 1).
func (g *Rng) Float() float64 { return float64(g.next()>>11) / (1 << 53) }

func (g *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; {
		v := g.next()
		for k := 0; k < 8 && i < n; k++ {
			b[i] = byte(v)
			v >>= 8
			i++
		}
	}
	return b
}
