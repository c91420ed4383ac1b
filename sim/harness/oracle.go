package main

import (
	"fmt"
	"math"

	"github.com/recolude/rap/format/encoding/euler"
	"github.com/recolude/rap/format/encoding/float"
	rapio "github.com/recolude/rap/format/io"
)

// What captures may look like after being written with a configuration and
// read back. The oracle has its own reference quantiser; it never calls rap.

const ulp32 = 1.0 / (1 << 24)

// fits says whether x survives being stored as a finite float32.
func fits(x float64) bool { return !math.IsNaN(x) && math.Abs(x) < 3.0e38 }

func round32(x float64) float64 { return float64(float32(x)) }

// feedback is a reference quantiser with error feedback: values[0] is stored
// as a float32, every later value as one of 2^bits steps of [lo, hi], applied
// to what has been reconstructed so far. It returns, for every index, how far
// the reconstruction has been off so far.
func feedback(values []float64, lo, hi float64, bits uint) []float64 {
	n := math.Ldexp(1, int(bits))
	span := hi - lo
	cur := values[0]
	worst := 0.0
	out := make([]float64, len(values))
	for i := 1; i < len(values); i++ {
		k := 0.0
		if span > 0 {
			k = math.Floor((values[i] - cur - lo) / span * n)
		}
		if !(k > 0) {
			k = 0
		}
		if k > n-1 {
			k = n - 1
		}
		cur += lo + span*(k+0.5)/n
		if e := math.Abs(cur - values[i]); e > worst {
			worst = e
		}
		out[i] = worst
	}
	return out
}

// tolSeries says, per index, how far a value stored with error feedback may be
// off; nil if the technique promises nothing for such values.
func tolSeries(values []float64, bits uint) []float64 {
	for _, v := range values {
		if !fits(v) {
			return nil
		}
	}
	if len(values) == 0 {
		return nil
	}
	lo, hi := math.Inf(1), math.Inf(-1)
	for i := 1; i < len(values); i++ {
		d := values[i] - values[i-1]
		lo, hi = math.Min(lo, d), math.Max(hi, d)
	}
	out := make([]float64, len(values))
	if len(values) == 1 {
		out[0] = math.Abs(values[0])*ulp32 + 1e-44
		return out
	}
	if !fits(lo) || !fits(hi) {
		return nil
	}
	return spread(values, lo, hi, bits)
}

func spread(values []float64, lo, hi float64, bits uint) []float64 {
	ref := feedback(values, lo, hi, bits)
	cell := (hi - lo) / math.Ldexp(1, int(bits))
	out := make([]float64, len(values))
	big := 0.0
	for i := range values {
		big = math.Max(big, math.Abs(values[i]))
		fi := float64(i)
		out[i] = ref[i] + math.Abs(values[0])*ulp32*1.01 + fi*(math.Abs(lo)+math.Abs(hi))*ulp32*1.01 + fi*big*4e-16 + (fi+2)*1e-44
		if i > 0 {
			out[i] += 1.01 * cell
		}
	}
	return out
}

// tolTimes is tolSeries for BST16 times, whose steps start at 0.
func tolTimes(values []float64) []float64 {
	if len(values) == 0 {
		return nil
	}
	for i, v := range values {
		if !fits(v) || (i > 0 && v < values[i-1]) {
			return nil
		}
	}
	hi := 0.0
	for i := 1; i < len(values); i++ {
		hi = math.Max(hi, values[i]-values[i-1])
	}
	if !fits(hi) {
		return nil
	}
	if len(values) == 1 {
		return []float64{math.Abs(values[0])*ulp32*1.01 + 1e-44}
	}
	return spread(values, 0, hi, 16)
}

// diffCaptures compares the captures of two trees of the same structure that
// went through the configuration.
func diffCaptures(want, got *MRec, c Config, path string) string {
	for i := range want.Cols {
		if d := diffColCaptures(&want.Cols[i], &got.Cols[i], c, fmt.Sprintf("%s.collections[%d]", path, i)); d != "" {
			return d
		}
	}
	for i := range want.Recs {
		if d := diffCaptures(want.Recs[i], got.Recs[i], c, fmt.Sprintf("%s.recordings[%d]", path, i)); d != "" {
			return d
		}
	}
	return ""
}

// within reports whether got is inside tol of want, treating non-finite
// originals as equal to themselves.
func within(want, got, tol float64) bool {
	if sameF(want, got) {
		return true
	}
	return math.Abs(want-got) <= tol
}

func diffColCaptures(a, b *MCol, c Config, path string) string {
	c = c.effective()
	if d := diffMembers(a, b, path); d != "" {
		return d
	}
	if d := diffTimes(a, b, c.Time, path); d != "" {
		return d
	}
	switch a.Kind {
	case kEvent:
		for i := range a.Caps {
			x, y := &a.Caps[i], &b.Caps[i]
			p := fmt.Sprintf("%s.captures[%d]", path, i)
			if x.Name != y.Name {
				return fmt.Sprintf("%s: event %s, want %s", p, short(y.Name), short(x.Name))
			}
			if d := diffBlock(x.Meta, y.Meta, p+".metadata", true); d != "" {
				return d
			}
		}
	case kEnum:
		for i := range a.Caps {
			if a.Caps[i].N != b.Caps[i].N {
				return fmt.Sprintf("%s.captures[%d]: enum value %d, want %d", path, i, b.Caps[i].N, a.Caps[i].N)
			}
		}
	case kPosition:
		switch c.Pos {
		case posRaw64:
			return diffVec(a, b, path, 3, exact)
		case posRaw32:
			return diffVec(a, b, path, 3, as32)
		case posOct48:
			return diffOct(a, b, path, 16)
		case posOct24:
			return diffOct(a, b, path, 8)
		}
	case kEuler:
		switch euler.StorageTechnique(c.Euler) {
		case euler.Raw64:
			return diffVec(a, b, path, 3, exact)
		case euler.Raw32:
			return diffVec(a, b, path, 3, as32)
		case euler.Raw16:
			step := 360.0 / 65536
			if len(a.Caps) == 1 {
				step = 360 * ulp32
			}
			return diffVec(a, b, path, 3, func(w, g float64) string {
				if !fits(w) || math.Abs(w) > 1e9 {
					return ""
				}
				if !(g >= -step && g <= 360+step) {
					return fmt.Sprintf("%v is not an angle of one turn (from %v)", g, w)
				}
				d := math.Mod(math.Abs(w-g), 360)
				if d > 180 {
					d = 360 - d
				}
				if !(d <= step*1.01+math.Abs(w)*1e-14) {
					return fmt.Sprintf("%v, want %v modulo 360 within %v", g, w, step)
				}
				return ""
			})
		}
	case kFloat:
		switch float.StorageTechnique(c.Float) {
		case float.Raw64:
			return diffVec(a, b, path, 1, exact)
		case float.Raw32:
			return diffVec(a, b, path, 1, as32)
		case float.BST16:
			lo, hi := math.Inf(1), math.Inf(-1)
			for _, x := range a.Caps {
				if !fits(x.V[0]) {
					return ""
				}
				lo, hi = math.Min(lo, x.V[0]), math.Max(hi, x.V[0])
			}
			if !fits(hi - lo) {
				return ""
			}
			tol := (hi-lo)/65536*1.01 + (math.Abs(lo)+math.Abs(hi))*ulp32*3 + 1e-44
			return diffVec(a, b, path, 1, func(w, g float64) string {
				if !within(w, g, tol) {
					return fmt.Sprintf("%v, want %v within %v", g, w, tol)
				}
				return ""
			})
		}
	}
	return ""
}

func exact(w, g float64) string {
	if !sameF(w, g) {
		return fmt.Sprintf("%v, want exactly %v", g, w)
	}
	return ""
}

func as32(w, g float64) string {
	if !sameF(round32(w), g) {
		return fmt.Sprintf("%v, want %v", g, round32(w))
	}
	return ""
}

func diffVec(a, b *MCol, path string, n int, f func(w, g float64) string) string {
	for i := range a.Caps {
		for k := 0; k < n; k++ {
			if d := f(a.Caps[i].V[k], b.Caps[i].V[k]); d != "" {
				return fmt.Sprintf("%s.captures[%d] component %d: %s", path, i, k, d)
			}
		}
	}
	return ""
}

func diffOct(a, b *MCol, path string, bits uint) string {
	// every axis is judged on its own, but a collection holding a value that
	// does not survive as a float32 promises nothing
	vals := make([]float64, len(a.Caps))
	var tols [3][]float64
	for k := 0; k < 3; k++ {
		for i := range a.Caps {
			vals[i] = a.Caps[i].V[k]
		}
		tols[k] = tolSeries(vals, bits)
		if tols[k] == nil {
			return ""
		}
	}
	for k := 0; k < 3; k++ {
		for i := range a.Caps {
			if !within(a.Caps[i].V[k], b.Caps[i].V[k], tols[k][i]) {
				return fmt.Sprintf("%s.captures[%d] component %d: %v, want %v within %v", path, i, k, b.Caps[i].V[k], a.Caps[i].V[k], tols[k][i])
			}
		}
	}
	return ""
}

func diffTimes(a, b *MCol, tech rapio.TimeStorageTechnique, path string) string {
	switch tech {
	case rapio.Raw64:
		for i := range a.Caps {
			if d := exact(a.Caps[i].T, b.Caps[i].T); d != "" {
				return fmt.Sprintf("%s.captures[%d] time: %s", path, i, d)
			}
		}
	case rapio.Raw32:
		for i := range a.Caps {
			if d := as32(a.Caps[i].T, b.Caps[i].T); d != "" {
				return fmt.Sprintf("%s.captures[%d] time: %s", path, i, d)
			}
		}
	case rapio.BST16:
		vals := make([]float64, len(a.Caps))
		for i := range a.Caps {
			vals[i] = a.Caps[i].T
		}
		tol := tolTimes(vals)
		if tol == nil {
			return ""
		}
		for i := range a.Caps {
			if !within(vals[i], b.Caps[i].T, tol[i]) {
				return fmt.Sprintf("%s.captures[%d] time: %v, want %v within %v", path, i, b.Caps[i].T, vals[i], tol[i])
			}
			if i > 0 && b.Caps[i].T < b.Caps[i-1].T {
				return fmt.Sprintf("%s.captures[%d] time: %v is before the previous capture's %v", path, i, b.Caps[i].T, b.Caps[i-1].T)
			}
		}
	}
	return ""
}
