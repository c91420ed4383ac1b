package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"
	"unicode/utf16"
)

// JSON documents and CSV tables for the command line, with the recordings they
// describe.

// --- JSON values ------------------------------------------------------------

const (
	jNull = iota
	jBool
	jNum
	jStr
	jArr
	jObj
)

type jval struct {
	k    int
	b    bool
	n    float64
	s    string
	a    []*jval // elements, or values of the keys
	keys []string
	// what a defect may do to the members of an object
	need []bool // the member is required; its type matters for all of them that are listed
}

func jstr(s string) *jval   { return &jval{k: jStr, s: s} }
func jnum(n float64) *jval  { return &jval{k: jNum, n: n} }
func jarr(a ...*jval) *jval { return &jval{k: jArr, a: a} }
func (o *jval) set(key string, v *jval, need bool) {
	o.keys = append(o.keys, key)
	o.a = append(o.a, v)
	o.need = append(o.need, need)
}

// style decides how a document is spelled.
type style struct {
	g      *Rng
	spaces int
	fancy  bool
}

func (s *style) ws(w *bytes.Buffer) {
	for i := 0; i < s.spaces && s.g.Chance(1, 3); i++ {
		w.WriteByte(" \n\t\r"[s.g.Int(4)])
	}
}

func (s *style) str(w *bytes.Buffer, v string) {
	w.WriteByte('"')
	for _, c := range v {
		switch {
		case c == '"' || c == '\\':
			w.WriteByte('\\')
			w.WriteRune(c)
		case c == '\n' && s.g.Chance(1, 2):
			w.WriteString("\\n")
		case c == '\t' && s.g.Chance(1, 2):
			w.WriteString("\\t")
		case c == '/' && s.fancy && s.g.Chance(1, 2):
			w.WriteString("\\/")
		case c < 0x20 || (s.fancy && s.g.Chance(1, 5)):
			if c >= 0x10000 {
				a, b := utf16.EncodeRune(c)
				fmt.Fprintf(w, "\\u%04x\\u%04X", a, b)
			} else {
				fmt.Fprintf(w, "\\u%04x", c)
			}
		default:
			w.WriteRune(c)
		}
	}
	w.WriteByte('"')
}

func (s *style) num(w *bytes.Buffer, v float64) {
	out := strconv.FormatFloat(v, 'g', -1, 64)
	if s.fancy {
		switch s.g.Int(4) {
		case 0:
			out = strconv.FormatFloat(v, 'e', -1, 64)
		case 1:
			if math.Abs(v) < 1e15 {
				out = strconv.FormatFloat(v, 'f', -1, 64)
				if !strings.Contains(out, ".") {
					out += ".0"
				} else {
					out += "00"
				}
			}
		case 2:
			out = strings.Replace(strconv.FormatFloat(v, 'e', -1, 64), "e", "E", 1)
		}
	}
	w.WriteString(out)
}

func (s *style) write(w *bytes.Buffer, v *jval) {
	s.ws(w)
	switch v.k {
	case jNull:
		w.WriteString("null")
	case jBool:
		fmt.Fprint(w, v.b)
	case jNum:
		s.num(w, v.n)
	case jStr:
		s.str(w, v.s)
	case jArr:
		w.WriteByte('[')
		for i, e := range v.a {
			if i > 0 {
				w.WriteByte(',')
			}
			s.write(w, e)
		}
		s.ws(w)
		w.WriteByte(']')
	case jObj:
		w.WriteByte('{')
		order := make([]int, len(v.a))
		for i := range order {
			order[i] = i
			j := s.g.Int(i + 1)
			if !s.fancy {
				j = i
			}
			order[i], order[j] = order[j], order[i]
		}
		for n, i := range order {
			if n > 0 {
				w.WriteByte(',')
			}
			s.ws(w)
			s.str(w, v.keys[i])
			s.ws(w)
			w.WriteByte(':')
			s.write(w, v.a[i])
		}
		s.ws(w)
		w.WriteByte('}')
	}
	s.ws(w)
}

// --- metadata written in JSON -----------------------------------------------

// verdicts on a document
const (
	vKeep   = iota // it describes a recording
	vMay           // it may be refused; if not, it is kept
	vAny           // it may be refused; nothing is said about what else happens
	vReject        // it has to be refused
)

func worse(a, b int) int {
	if b > a {
		return b
	}
	return a
}

// jprop is the reference for what a JSON value means as metadata.
func jprop(v *jval) (MProp, int) {
	switch v.k {
	case jBool:
		if v.b {
			return MProp{Code: 3, Str: "true"}, vKeep
		}
		return MProp{Code: 4, Str: "false"}, vKeep
	case jNum:
		if v.n == math.Trunc(v.n) {
			if v.n >= math.MinInt32 && v.n <= math.MaxInt32 {
				return MProp{Code: 1, I: int64(v.n)}, vKeep
			}
			if math.IsInf(float64(float32(v.n)), 0) {
				return MProp{}, vReject
			}
			return MProp{Code: 2, F: math.Float32bits(float32(v.n))}, vMay
		}
		return MProp{Code: 2, F: math.Float32bits(float32(v.n))}, vKeep
	case jStr:
		if strings.HasPrefix(v.s, "0x") {
			b, err := hex.DecodeString(v.s[2:])
			switch {
			case err != nil:
				return MProp{S: v.s}, vMay
			case len(b) == 1:
				return MProp{Code: 5, I: int64(b[0])}, vKeep
			}
			return MProp{Code: 18, B: b}, vKeep
		}
		if t, err := time.Parse(time.RFC3339Nano, v.s); err == nil {
			return MProp{Code: 12, I: t.UnixMicro()}, vKeep
		}
		return MProp{S: v.s}, vKeep
	case jArr:
		if len(v.a) == 0 {
			return MProp{}, vReject
		}
		var ps []MProp
		verdict := vKeep
		for _, e := range v.a {
			p, d := jprop(e)
			if e.k == jArr {
				d = vReject
			}
			verdict = worse(verdict, d)
			ps = append(ps, p)
		}
		if verdict == vReject || verdict == vAny {
			return MProp{}, verdict
		}
		if verdict == vMay {
			return MProp{}, vAny
		}
		code := ps[0].Code
		floats, bools := true, true
		mixed := false
		for _, p := range ps {
			floats = floats && (p.Code == 1 || p.Code == 2)
			bools = bools && (p.Code == 3 || p.Code == 4)
			mixed = mixed || p.Code != code
		}
		switch {
		case bools:
			out := MProp{Code: 16}
			for _, p := range ps {
				out.B = append(out.B, 4-p.Code)
			}
			return out, vKeep
		case mixed && floats:
			out := MProp{Code: 15}
			for _, p := range ps {
				if p.Code == 1 {
					p = MProp{Code: 2, F: math.Float32bits(float32(p.I))}
				}
				out.Arr = append(out.Arr, p)
			}
			return out, vKeep
		case mixed || code >= 13:
			return MProp{}, vReject
		case code == 5:
			out := MProp{Code: 18}
			for _, p := range ps {
				out.B = append(out.B, byte(p.I))
			}
			return out, vKeep
		}
		return MProp{Code: 13 + code, Arr: ps}, vKeep
	case jObj:
		num := map[string]float64{}
		for i, k := range v.keys {
			if v.a[i].k == jNum {
				num[k] = v.a[i].n
			}
		}
		_, x := num["x"]
		_, y := num["y"]
		_, z := num["z"]
		if x && y && len(v.keys) == 2 {
			return MProp{Code: 6, V: [3]float64{num["x"], num["y"]}}, vKeep
		}
		if x && y && z && len(v.keys) == 3 {
			return MProp{Code: 7, V: [3]float64{num["x"], num["y"], num["z"]}}, vKeep
		}
		b, d := jblock(v)
		return MProp{Code: 11, Block: b}, d
	}
	return MProp{}, vReject
}

func jblock(v *jval) (MBlock, int) {
	out := MBlock{}
	verdict := vKeep
	for i, k := range v.keys {
		p, d := jprop(v.a[i])
		verdict = worse(verdict, d)
		out = append(out, MEntry{k, p})
	}
	return out.sorted(), verdict
}

// --- documents --------------------------------------------------------------

type docGen struct {
	r    *Run
	g    *Rng
	odd  bool // values that can not be represented may occur
	spot []spot
	meta bool
	cost int
}

type spot struct {
	o *jval
	i int
}

func (d *docGen) text() string {
	pool := [][]string{namePool, oddNames, {"😀 wide", "a/b", "<b>&amp;</b>", "2020-13-45", "12", "true", "null", "0", "1e5", "-"}}
	p := pool[d.g.Int(3)]
	return p[d.g.Int(len(p))]
}

func (d *docGen) number() float64 {
	switch d.g.Int(10) {
	case 0:
		return 0
	case 1:
		return float64(d.g.Int(1000))
	case 2:
		return -float64(d.g.Int(100000))
	case 3:
		return float64(d.g.Int(1000)) / 8
	case 4:
		return 0.1
	case 5:
		return d.g.Float() * 1e6
	case 6:
		return math.MaxInt32
	case 7:
		return math.MinInt32
	case 8:
		return 1e6
	}
	if d.odd {
		return []float64{1e300, 2147483648, -2147483649, 1e10, 1e21, 9007199254740993, 4e38}[d.g.Int(7)]
	}
	return -2.5e-7
}

func (d *docGen) mval(depth int) *jval {
	n := 12
	if depth > 2 {
		n = 6
	}
	switch d.g.Int(n) {
	case 0, 1:
		return jstr(d.text())
	case 2:
		return jnum(d.number())
	case 3:
		return &jval{k: jBool, b: d.g.Chance(1, 2)}
	case 4:
		return jstr([]string{"0x00", "0xff", "0x7F", "0xdeadBEEF", "0x", "0x0102030405"}[d.g.Int(6)])
	case 5:
		return jstr([]string{"2006-01-02T15:04:05Z", "1969-12-31T23:59:59.999999Z", "2023-06-01T00:00:00.123456+02:00", "0001-01-01T00:00:00Z", "9999-12-31T23:59:59.000001Z", "2400-02-29T12:00:00.5-07:30"}[d.g.Int(6)])
	case 6:
		o := &jval{k: jObj}
		o.set("x", jnum(d.number()), false)
		o.set("y", jnum(d.number()), false)
		if d.g.Chance(1, 2) {
			o.set("z", jnum(d.number()), false)
		}
		if d.g.Chance(1, 5) {
			o.set("w", jnum(d.number()), false)
		}
		if d.g.Chance(1, 5) {
			o.a[d.g.Int(len(o.a))] = jstr(d.text())
		}
		return o
	case 7, 8:
		return d.mobj(depth + 1)
	}
	// arrays
	m := 1 + d.g.Int(4)
	if d.odd && d.g.Chance(1, 8) {
		m = 0
	}
	out := jarr()
	kind := d.g.Int(8)
	for i := 0; i < m; i++ {
		k := kind
		if d.odd && d.g.Chance(1, 8) {
			k = d.g.Int(9)
		}
		var e *jval
		switch k {
		case 0:
			e = jstr("s" + d.text())
		case 1:
			e = jnum(float64(d.g.Int(2000) - 1000))
		case 2:
			e = jnum(d.number())
		case 3:
			e = &jval{k: jBool, b: d.g.Chance(1, 2)}
		case 4:
			e = jstr(fmt.Sprintf("0x%02x", d.g.Int(256)))
		case 5:
			e = jstr("2020-01-01T00:00:00Z")
		case 6:
			e = &jval{k: jObj}
			e.set("x", jnum(d.number()), false)
			e.set("y", jnum(d.number()), false)
		case 7:
			e = d.mobj(depth + 1)
		case 8:
			e = d.mval(depth + 1)
		}
		out.a = append(out.a, e)
	}
	return out
}

func (d *docGen) mobj(depth int) *jval {
	o := &jval{k: jObj}
	n := d.g.Int(4)
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		k := []string{"a", "b", "x", "y", "z", "key one", "metadata", "a.b", "", "ünï", "quote\"", "name", "0"}[d.g.Int(13)]
		if seen[k] {
			continue
		}
		seen[k] = true
		v := d.mval(depth)
		if d.odd && d.g.Chance(1, 30) {
			v = &jval{k: jNull}
		}
		if d.odd && d.g.Chance(1, 30) {
			v = jstr([]string{"0xzz", "0x123", "0x1", "0xgg00"}[d.g.Int(4)])
		}
		o.set(k, v, false)
	}
	return o
}

// metaOf adds metadata to a part of the document.
func (d *docGen) metaOf(o *jval) (MBlock, int) {
	if !d.meta || d.cost > 300 || d.g.Chance(1, 3) {
		return MBlock{}, vKeep
	}
	d.cost++
	m := d.mobj(0)
	b, v := jblock(m)
	d.add(o, "metadata", m, false)
	return b, v
}

func (d *docGen) add(o *jval, key string, v *jval, need bool) {
	o.set(key, v, need)
	if len(d.spot) < 3000 {
		d.spot = append(d.spot, spot{o, len(o.keys) - 1})
	}
}

func (d *docGen) rec(m *MRec) (*jval, *MRec, int) {
	o := &jval{k: jObj}
	out := &MRec{ID: m.ID, Name: m.Name}
	verdict := vKeep
	d.add(o, "id", jstr(m.ID), true)
	d.add(o, "name", jstr(m.Name), true)
	b, v := d.metaOf(o)
	out.Meta, verdict = b, worse(verdict, v)
	if len(m.Cols) > 0 || d.g.Chance(1, 4) {
		a := jarr()
		for i := range m.Cols {
			jc, c, v := d.col(&m.Cols[i])
			verdict = worse(verdict, v)
			a.a = append(a.a, jc)
			out.Cols = append(out.Cols, c)
		}
		d.add(o, "collections", a, false)
	}
	if len(m.Refs) > 0 || d.g.Chance(1, 4) {
		a := jarr()
		for _, f := range m.Refs {
			jr := &jval{k: jObj}
			size := f.Size & (1<<53 - 1)
			d.add(jr, "name", jstr(f.Name), true)
			d.add(jr, "uri", jstr(f.URI), true)
			d.add(jr, "size", jnum(float64(size)), true)
			b, v := d.metaOf(jr)
			verdict = worse(verdict, v)
			out.Refs = append(out.Refs, MRef{f.Name, f.URI, size, b})
			a.a = append(a.a, jr)
		}
		d.add(o, "references", a, false)
	}
	if len(m.Recs) > 0 || d.g.Chance(1, 4) {
		a := jarr()
		for _, c := range m.Recs {
			jr, mr, v := d.rec(c)
			verdict = worse(verdict, v)
			a.a = append(a.a, jr)
			out.Recs = append(out.Recs, mr)
		}
		d.add(o, "recordings", a, false)
	}
	return o, out, verdict
}

func (d *docGen) col(c *MCol) (*jval, MCol, int) {
	o := &jval{k: jObj}
	out := MCol{Kind: c.Kind, Sig: c.Sig, Name: c.Name}
	verdict := vKeep
	d.add(o, "name", jstr(c.Name), true)
	d.add(o, "type", jstr(c.Sig), true)
	caps := jarr()
	index := map[string]int{}
	for _, x := range c.Caps {
		jc := &jval{k: jObj}
		d.add(jc, "time", jnum(x.T), true)
		y := MCap{T: x.T}
		switch c.Kind {
		case kPosition, kEuler:
			v := &jval{k: jObj}
			y.V = x.V
			d.add(v, "x", jnum(x.V[0]), true)
			d.add(v, "y", jnum(x.V[1]), true)
			d.add(v, "z", jnum(x.V[2]), true)
			d.add(jc, "data", v, true)
		case kEvent:
			v := &jval{k: jObj}
			y.Name = x.Name
			d.add(v, "name", jstr(x.Name), true)
			b, w := d.metaOf(v)
			y.Meta, verdict = b, worse(verdict, w)
			d.add(jc, "data", v, true)
		case kEnum:
			s := c.Members[x.N]
			i, ok := index[s]
			if !ok {
				i = len(index)
				index[s] = i
				out.Members = append(out.Members, s)
			}
			y.N = i
			d.add(jc, "data", jstr(s), true)
		}
		out.Caps = append(out.Caps, y)
		caps.a = append(caps.a, jc)
	}
	d.add(o, "captures", caps, true)
	return o, out, verdict
}

// Doc is a JSON document for from-json.
type Doc struct {
	data    []byte
	m       *MRec
	verdict int
	what    string // the defect
}

type docOpts struct {
	small  bool
	valid  bool // only documents that describe a recording
	defect bool // only documents that have to be refused
}

func (r *Run) drawDoc(o docOpts) *Doc {
	base := r.genRecording(genOpts{kinds: []int{kPosition, kEuler, kEvent, kEnum}, noMeta: true, noBins: true, utf8: true, jsonSafe: true, enumValid: true, small: o.small})
	d := &docGen{r: r, meta: r.Chance(3, 4)}
	defect := o.defect || !o.valid && r.Chance(1, 4)
	d.odd = !o.valid && !o.defect && r.Chance(1, 4)
	d.g = r.Sub()
	tree, m, verdict := d.rec(base)
	doc := &Doc{m: m, verdict: verdict}
	s := &style{g: d.g, spaces: r.Int(4), fancy: r.Bool()}
	kind := 0
	if defect {
		kind = 1 + r.Pick(5, 5, 2, 1, 1, 1, 2)
		doc.verdict = vReject
		p := d.spot[d.g.Int(len(d.spot))]
		switch kind {
		case 1: // a required member is missing
			for i := 0; i < 200 && !p.o.need[p.i]; i++ {
				p = d.spot[d.g.Int(len(d.spot))]
			}
			if !p.o.need[p.i] {
				p = d.spot[0]
			}
			doc.what = "no " + p.o.keys[p.i]
			p.o.keys[p.i] = "renamed " + p.o.keys[p.i]
		case 2: // a member has the wrong type
			old := p.o.a[p.i].k
			var wrong *jval
			switch d.g.Int(5) {
			case 0:
				wrong = jnum(5)
			case 1:
				wrong = jstr("5")
			case 2:
				wrong = jarr(jnum(1), jnum(2))
			case 3:
				wrong = &jval{k: jBool, b: true}
			case 4:
				wrong = &jval{k: jObj}
				wrong.set("q", jnum(1), false)
			}
			if wrong.k == old {
				wrong = &jval{k: jBool, b: true}
			}
			p.o.a[p.i] = wrong
			doc.what = "wrong type of " + p.o.keys[p.i]
		case 3: // a value out of range
			tree.set("references", jarr(badRef(d.g)), false)
			for i, k := range tree.keys[:len(tree.keys)-1] {
				if k == "references" {
					tree.keys[i] = "other"
				}
			}
			doc.what = "impossible size"
		case 4:
			tree.set("collections", jarr(badCol(d.g)), false)
			for i, k := range tree.keys[:len(tree.keys)-1] {
				if k == "collections" {
					tree.keys[i] = "other"
				}
			}
			doc.what = "unknown type of collection"
		case 7:
			var arrs []*jval
			for _, q := range d.spot {
				if a := q.o.a[q.i]; a.k == jArr {
					arrs = append(arrs, a)
				}
			}
			if len(arrs) == 0 {
				for i, k := range tree.keys {
					if k == "recordings" {
						tree.keys[i] = "other"
					}
				}
				tree.set("recordings", jarr(), false)
				arrs = append(arrs, tree.a[len(tree.a)-1])
			}
			a := arrs[d.g.Int(len(arrs))]
			a.a = append(a.a, []*jval{jnum(5), jstr("x"), jarr(), {k: jNull}, {k: jObj}}[d.g.Int(5)])
			doc.what = "foreign element in an array"
		}
	}
	var w bytes.Buffer
	s.write(&w, tree)
	doc.data = w.Bytes()
	switch kind {
	case 5:
		t := bytes.TrimRight(doc.data, " \n\t\r")
		doc.data = t[:d.g.Int(len(t))]
		doc.what = fmt.Sprintf("cut after %d bytes", len(doc.data))
	case 6:
		doc.data = append(doc.data, []string{"x", "{}", ",", "]", "null"}[d.g.Int(5)]...)
		doc.what = "something after the document"
	}
	if defect {
		r.fault("bad document: " + strings.SplitN(doc.what, " ", 2)[0])
	}
	r.shape = m.hash()*7 + uint64(doc.verdict) + uint64(kind)<<8
	r.desc = fmt.Sprintf("%s; JSON document of %d bytes", m.describe(), len(doc.data))
	if doc.what != "" {
		r.desc += ": " + doc.what
	}
	r.note("%s", r.desc)
	return doc
}

func badRef(g *Rng) *jval {
	o := &jval{k: jObj}
	o.set("name", jstr("n"), true)
	o.set("uri", jstr("u"), true)
	o.set("size", jnum([]float64{-1, 0.5, 1e30, -1e30}[g.Int(4)]), true)
	return o
}

func badCol(g *Rng) *jval {
	o := &jval{k: jObj}
	o.set("name", jstr("n"), true)
	o.set("type", jstr([]string{"", "position", "recolude.float", "recolude.Position", "recolude.position "}[g.Int(5)]), true)
	o.set("captures", jarr(), true)
	return o
}

// --- CSV tables ---------------------------------------------------------------

// Table is a CSV file for from-csv.
type Table struct {
	data    []byte
	m       *MRec
	verdict int
	what    string
}

func csvField(g *Rng, s string, crlf bool) string {
	if strings.ContainsAny(s, "\",\n\r") || strings.HasPrefix(s, " ") && g.Chance(1, 3) || g.Chance(1, 6) || s == "" && g.Chance(1, 2) {
		return `"` + strings.ReplaceAll(s, `"`, `""`) + `"`
	}
	return s
}

func csvNumber(g *Rng, v float64) string {
	var out string
	switch g.Int(5) {
	case 0:
		out = strconv.FormatFloat(v, 'e', -1, 64)
	case 1:
		if math.Abs(v) < 1e15 {
			out = strconv.FormatFloat(v, 'f', -1, 64)
			break
		}
		out = strconv.FormatFloat(v, 'g', -1, 64)
	case 2:
		out = strconv.FormatFloat(v, 'x', -1, 64)
	default:
		out = strconv.FormatFloat(v, 'g', -1, 64)
	}
	if out[0] >= '0' && out[0] <= '9' && g.Chance(1, 10) {
		out = "+" + out
	}
	if g.Chance(1, 5) {
		out = " " + out
	}
	if g.Chance(1, 10) {
		out += " \t"
	}
	return out
}

func (r *Run) drawTable(o docOpts) *Table {
	g0 := &gen{r: r, rng: r.Sub()}
	g := g0.rng
	t := &Table{m: &MRec{}}
	rows := r.OneOf(0, 1, 2, 3, 8, 30, 100)
	if !o.small && r.Chance(1, 15) {
		rows = r.OneOf(257, 1000, 4000)
	}
	owners := 1 + r.Int(6)
	if r.Chance(1, 10) {
		owners = 40
	}
	type key struct{ id, name string }
	var pool []key
	for i := 0; i < owners; i++ {
		k := key{[]string{"0", "1", "2", "a", "", "10", "x y", "#1", " 1", "01", "A"}[g.Int(11)], []string{"bob", "alice", " bob", "", "quo\"te", "com,ma", "two\nlines", "ünï", "bob ", "#", "Bob", "\tbob", "'bob'"}[g.Int(13)]}
		if owners > 10 {
			k.id = fmt.Sprint(i / 2)
		}
		pool = append(pool, k)
	}
	cols := []string{"time", "id", "name", "x", "y", "z"}
	extra := r.Int(3)
	for i := 0; i < extra; i++ {
		cols = append(cols, []string{"comment", "w", "Time", "X", ""}[g.Int(5)])
	}
	if r.Bool() {
		order := make([]string, len(cols))
		for i, j := range r.Perm(len(cols)) {
			order[i] = cols[j]
		}
		cols = order
	}
	nl := "\n"
	if r.Bool() {
		nl = "\r\n"
	}
	defect := 0
	if o.defect || !o.valid && r.Chance(1, 4) {
		defect = 1 + r.Int(5)
		if defect > 1 && rows == 0 {
			rows = 1
		}
		t.verdict = vReject
	}
	badRow := g.Int(rows + 1)
	if badRow == rows {
		badRow = rows - 1
	}
	var w bytes.Buffer
	head := append([]string{}, cols...)
	if defect == 1 {
		for {
			i := g.Int(len(head))
			if c := head[i]; c == "time" || c == "id" || c == "name" || c == "x" || c == "y" || c == "z" {
				t.what = "no column " + c
				head[i] = "not" + c
				break
			}
		}
	}
	for i, c := range head {
		if i > 0 {
			w.WriteByte(',')
		}
		if g.Chance(1, 4) && c != "" {
			w.WriteString(" " + c + " ")
		} else {
			w.WriteString(csvField(g, c, false))
		}
	}
	w.WriteString(nl)
	at := map[key]int{}
	times := g0.times(rows)
	walk := g0.values(kPosition)
	for i := 0; i < rows; i++ {
		k := pool[g.Int(len(pool))]
		c := MCap{T: times[i], V: walk(i)}
		if g.Chance(1, 30) {
			c.V[g.Int(3)] = []float64{math.Inf(1), math.NaN(), 0, math.MaxFloat64, 5e-324}[g.Int(5)]
		}
		var row []string
		for _, col := range cols {
			var f string
			switch col {
			case "time":
				f = csvNumber(g, c.T)
			case "x":
				f = csvNumber(g, c.V[0])
			case "y":
				f = csvNumber(g, c.V[1])
			case "z":
				f = csvNumber(g, c.V[2])
			case "id":
				f = csvField(g, k.id, false)
			case "name":
				f = csvField(g, k.name, false)
			default:
				f = csvField(g, []string{"", "note", "a,b"}[g.Int(3)], false)
			}
			if defect == 2 && i == badRow && (col == "time" || col == "x" || col == "y" || col == "z") && t.what == "" && g.Chance(1, 2) {
				f = []string{"", "abc", "1.2.3", "1 2", "--1", "1e999", "1,5"[:2] + "x", "0x"}[g.Int(8)]
				t.what = "bad number"
			}
			row = append(row, f)
		}
		if i == badRow {
			switch defect {
			case 2:
				if t.what == "" {
					for j, col := range cols {
						if col == "z" {
							row[j] = "nope"
						}
					}
					t.what = "bad number"
				}
			case 3:
				row = row[:len(row)-1]
				t.what = "a short row"
			case 4:
				row = append(row, "more")
				t.what = "a long row"
			case 5:
				row[0] = `"open` + row[0]
				t.what = "a quote that is never closed"
				if strings.Count(row[0], `"`)%2 == 0 {
					row[0] = `a"b`
					t.what = "a quote within a field"
				}
			}
		}
		w.WriteString(strings.Join(row, ","))
		if defect == 5 && i == badRow {
			w.WriteString(nl)
			break
		}
		if i < rows-1 || g.Chance(4, 5) {
			w.WriteString(nl)
			if g.Chance(1, 10) {
				w.WriteString(nl)
			}
		}
		if _, ok := at[k]; !ok {
			at[k] = len(t.m.Recs)
			t.m.Recs = append(t.m.Recs, &MRec{ID: k.id, Name: k.name, Cols: []MCol{{Kind: kPosition, Sig: kindName[kPosition], Name: "Position"}}})
		}
		rec := t.m.Recs[at[k]]
		rec.Cols[0].Caps = append(rec.Cols[0].Caps, c)
	}
	t.data = w.Bytes()
	if t.verdict == vReject {
		r.fault("bad table: " + t.what)
	}
	r.shape = t.m.hash()*7 + uint64(t.verdict)
	r.desc = fmt.Sprintf("%s; CSV table of %d rows, %d bytes", t.m.describe(), rows, len(t.data))
	if t.what != "" {
		r.desc += ": " + t.what
	}
	r.note("%s", r.desc)
	return t
}

// --- JSON the command line prints ---------------------------------------------

// jnode is parsed JSON; an object has each key once.
type jnode struct {
	null bool
	b    *bool
	n    json.Number
	s    *string
	arr  []*jnode
	isA  bool
	obj  map[string]*jnode
	keys []string
}

func parseJSON(data []byte) (*jnode, error) {
	if !json.Valid(data) {
		var v interface{}
		return nil, fmt.Errorf("it is not valid JSON: %v", json.Unmarshal(data, &v))
	}
	d := json.NewDecoder(bytes.NewReader(data))
	d.UseNumber()
	return parseValue(d)
}

func parseValue(d *json.Decoder) (*jnode, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch v := t.(type) {
	case nil:
		return &jnode{null: true}, nil
	case bool:
		return &jnode{b: &v}, nil
	case json.Number:
		return &jnode{n: v}, nil
	case string:
		return &jnode{s: &v}, nil
	case json.Delim:
		if v == '[' {
			n := &jnode{isA: true}
			for d.More() {
				e, err := parseValue(d)
				if err != nil {
					return nil, err
				}
				n.arr = append(n.arr, e)
			}
			_, err := d.Token()
			return n, err
		}
		n := &jnode{obj: map[string]*jnode{}}
		for d.More() {
			k, err := d.Token()
			if err != nil {
				return nil, err
			}
			e, err := parseValue(d)
			if err != nil {
				return nil, err
			}
			if _, ok := n.obj[k.(string)]; ok {
				return nil, fmt.Errorf("key %q appears twice in one object", k)
			}
			n.obj[k.(string)] = e
			n.keys = append(n.keys, k.(string))
		}
		_, err := d.Token()
		return n, err
	}
	return nil, fmt.Errorf("unexpected token")
}

// jsonText is how a string looks after having been printed as JSON.
func jsonText(s string) string { return string([]rune(s)) }

// finite reports whether JSON has numbers for everything in the property.
func (p MProp) finite() bool {
	bad := func(f float64) bool { return math.IsNaN(f) || math.IsInf(f, 0) }
	switch p.Code {
	case 2:
		return !bad(float64(math.Float32frombits(p.F)))
	case 6, 7:
		return !bad(p.V[0]) && !bad(p.V[1]) && !bad(p.V[2])
	}
	for _, e := range p.Arr {
		if !e.finite() {
			return false
		}
	}
	return p.Block.finite()
}

func (b MBlock) finite() bool {
	for _, e := range b {
		if !e.P.finite() {
			return false
		}
	}
	return true
}

// printable reports whether JSON can say everything to-json prints.
func (m *MRec) printable() bool {
	ok := true
	m.walk(func(x *MRec) {
		ok = ok && x.Meta.finite()
		for _, c := range x.Cols {
			if c.Kind != kEvent {
				continue
			}
			for _, e := range c.Caps {
				ok = ok && !math.IsNaN(e.T) && !math.IsInf(e.T, 0) && e.Meta.finite()
			}
		}
	})
	return ok
}

func (n *jnode) str(path, key, want string) string {
	v := n.obj[key]
	if v == nil || v.s == nil {
		return fmt.Sprintf("%s has no %s", path, key)
	}
	if *v.s != jsonText(want) {
		return fmt.Sprintf("%s: %s is %s, want %s", path, key, short(*v.s), short(want))
	}
	return ""
}

func (n *jnode) num(want float64) bool {
	f, err := strconv.ParseFloat(string(n.n), 64)
	return err == nil && f == want
}

func jdiffProp(n *jnode, p MProp, path string) string {
	wrong := func(want interface{}) string { return fmt.Sprintf("%s is not printed as %v", path, want) }
	switch p.Code {
	case 0:
		if n.s == nil || *n.s != jsonText(p.S) {
			return wrong(short(p.S))
		}
	case 1:
		if !n.num(float64(p.I)) {
			return wrong(p.I)
		}
	case 2:
		f, err := strconv.ParseFloat(string(n.n), 32)
		if err != nil || float32(f) != math.Float32frombits(p.F) {
			return wrong(math.Float32frombits(p.F))
		}
	case 3, 4:
		if n.b == nil || *n.b != (p.Code == 3) {
			return wrong(p.Code == 3)
		}
	case 5:
		if n.s == nil || !strings.EqualFold(*n.s, fmt.Sprintf("0x%02x", p.I)) {
			return wrong(fmt.Sprintf("0x%02x", p.I))
		}
	case 6, 7:
		names := []string{"x", "y", "z"}[:p.Code-4]
		if len(n.obj) != len(names) {
			return wrong(p.V)
		}
		for i, k := range names {
			if n.obj[k] == nil || !n.obj[k].num(p.V[i]) {
				return wrong(p.V)
			}
		}
	case 11:
		if n.obj == nil {
			return wrong("an object")
		}
		return jdiffBlock(n, p.Block, path)
	case 12:
		if n.s == nil {
			return wrong("a time")
		}
		t, err := time.Parse(time.RFC3339Nano, *n.s)
		if err != nil {
			// years RFC 3339 has no way to write
			if y := time.UnixMicro(p.I).UTC().Year(); y < 1 || y > 9998 {
				return ""
			}
			return fmt.Sprintf("%s: %q is not a time", path, *n.s)
		}
		if t.UnixMicro() != p.I {
			return fmt.Sprintf("%s is printed as %s, want %s", path, *n.s, time.UnixMicro(p.I).UTC().Format(time.RFC3339Nano))
		}
	case 18:
		if n.s == nil || !strings.EqualFold(*n.s, "0x"+hex.EncodeToString(p.B)) {
			return wrong("0x...")
		}
	default:
		count := len(p.Arr)
		if p.Code == 16 {
			count = len(p.B)
		}
		if n.null && count == 0 {
			return ""
		}
		if !n.isA || len(n.arr) != count {
			return wrong(fmt.Sprintf("an array of %d", count))
		}
		for i, e := range n.arr {
			ep := fmt.Sprintf("%s[%d]", path, i)
			if p.Code == 16 {
				if e.b == nil || *e.b != (p.B[i] == 1) {
					return fmt.Sprintf("%s is not printed as %v", ep, p.B[i] == 1)
				}
				continue
			}
			if d := jdiffProp(e, p.Arr[i], ep); d != "" {
				return d
			}
		}
	}
	return ""
}

func jdiffBlock(n *jnode, b MBlock, path string) string {
	if n == nil || n.obj == nil {
		return path + " is not printed as an object"
	}
	// keys that are no text may fall together
	want := map[string]int{}
	for _, e := range b {
		want[jsonText(e.Key)]++
	}
	if len(n.obj) != len(want) {
		return fmt.Sprintf("%s has %d entries, want %d", path, len(n.obj), len(want))
	}
	for _, e := range b {
		v := n.obj[jsonText(e.Key)]
		if v == nil {
			return fmt.Sprintf("%s lacks %s", path, short(e.Key))
		}
		if want[jsonText(e.Key)] > 1 {
			continue
		}
		if d := jdiffProp(v, e.P, path+"["+short(e.Key)+"]"); d != "" {
			return d
		}
	}
	return ""
}

// jdiffRec compares what to-json printed with the recording.
func jdiffRec(n *jnode, m *MRec, path string) string {
	if n == nil || n.obj == nil {
		return path + " is not an object"
	}
	if d := n.str(path, "id", m.ID); d != "" {
		return d
	}
	if d := n.str(path, "name", m.Name); d != "" {
		return d
	}
	if d := jdiffBlock(n.obj["metadata"], m.Meta, path+".metadata"); d != "" {
		return d
	}
	cols := n.obj["collections"]
	if cols == nil || len(cols.arr) != len(m.Cols) {
		return fmt.Sprintf("%s does not show its %d collections", path, len(m.Cols))
	}
	for i, c := range m.Cols {
		p := fmt.Sprintf("%s.collections[%d]", path, i)
		j := cols.arr[i]
		if d := j.str(p, "name", c.Name); d != "" {
			return d
		}
		if d := j.str(p, "signature", c.Sig); d != "" {
			return d
		}
		if j.obj["count"] == nil || !j.obj["count"].num(float64(len(c.Caps))) {
			return fmt.Sprintf("%s: the count is not %d", p, len(c.Caps))
		}
		if c.Kind != kEvent {
			continue
		}
		caps := j.obj["captures"]
		if caps == nil || len(caps.arr) != len(c.Caps) {
			return fmt.Sprintf("%s does not show its %d events", p, len(c.Caps))
		}
		for k, e := range c.Caps {
			ep := fmt.Sprintf("%s.captures[%d]", p, k)
			je := caps.arr[k]
			if d := je.str(ep, "name", e.Name); d != "" {
				return d
			}
			if je.obj["time"] == nil {
				return ep + " has no time"
			}
			t, err := strconv.ParseFloat(string(je.obj["time"].n), 64)
			if err != nil || math.Abs(t-e.T) > 1e-6+math.Abs(e.T)*1e-12 {
				return fmt.Sprintf("%s: time %s, want %v", ep, je.obj["time"].n, e.T)
			}
			if d := jdiffBlock(je.obj["data"], e.Meta, ep+".data"); d != "" {
				return d
			}
		}
	}
	recs := n.obj["recordings"]
	if recs == nil || len(recs.arr) != len(m.Recs) {
		return fmt.Sprintf("%s does not show its %d recordings", path, len(m.Recs))
	}
	for i, c := range m.Recs {
		if d := jdiffRec(recs.arr[i], c, fmt.Sprintf("%s.recordings[%d]", path, i)); d != "" {
			return d
		}
	}
	return ""
}
