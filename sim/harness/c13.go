package main

import (
	"bytes"
	"fmt"
	"math"
	"strconv"
	"strings"

	rapio "github.com/recolude/rap/format/io"
)

func init() {
	scenarios["C13"] = c13
	plans["C13"] = Plan{Quick: 80000, Thorough: 3000000, Chunk: 300,
		Rule: "One run draws a CSV table, a JSON document or a stored recording (some with a defect that makes them impossible to represent), runs the real command line on it in the simulated machine with drawn fragmentation of its inputs and a drawn map order, and compares what comes out with an independent reference; valid input is then converted again under another map order. Non-trivial: at least one capture, entry or refusal judged; distinct by shape and traffic.",
		Real: []string{"rap-cli from main() on (urfave/cli as shipped)"},
		Stub: []string{"disk (os), standard streams, log and exit"},
	}
}

// noStr forgets how properties were printed.
func (m *MRec) noStr() *MRec {
	var block func(b MBlock)
	prop := func(p *MProp) {
		p.Str = ""
		block(p.Block)
		for i := range p.Arr {
			p.Arr[i].Str = ""
			block(p.Arr[i].Block)
		}
	}
	block = func(b MBlock) {
		for i := range b {
			prop(&b[i].P)
		}
	}
	m.walk(func(x *MRec) {
		block(x.Meta)
		for _, c := range x.Cols {
			for _, e := range c.Caps {
				block(e.Meta)
			}
		}
		for _, f := range x.Refs {
			block(f.Meta)
		}
		for _, f := range x.Bins {
			block(f.Meta)
		}
	})
	return m
}

// output finds what a command wrote to its output.
func (v *invocation) result(name string) []byte {
	if name == "" {
		return v.stdout.buf
	}
	b, _ := peek(name)
	return b
}

// loadPlain loads a file a command produced.
func (r *Run) loadPlain(what string, data []byte, c Config) *MRec {
	r.again()
	o := r.load("loading "+what, c.reader(plainReader{r.reader(data, Delivery{})}))
	if o.err != nil {
		r.Fail("content", "%s does not load: %v", what, o.err)
	}
	return o.m
}

func c13(r *Run) {
	switch r.Pick(3, 5, 4, 2) {
	case 0:
		c13csv(r)
	case 1:
		c13from(r)
	case 2:
		c13to(r)
	case 3:
		c13summary(r)
	}
}

// judged applies the verdict on some input to the status of a command.
func (r *Run) judged(v *invocation, verdict int, what string) bool {
	r.evals++
	switch {
	case verdict == vReject && v.code == 0:
		r.Fail("accepted", "%s accepts input with %s", v.what, what)
	case verdict == vKeep && v.code != 0:
		r.Fail("refused", "%s refuses good input with status %d: %s", v.what, v.code, v.stderr.buf)
	}
	return v.code == 0 && verdict <= vMay
}

func caps(m *MRec) int {
	n := 0
	m.walk(func(x *MRec) {
		n += len(x.Meta) + len(x.Refs)
		for _, c := range x.Cols {
			n += len(c.Caps)
		}
	})
	return n
}

func c13csv(r *Run) {
	t := r.drawTable(docOpts{})
	r.drawMapOrder()
	r.nontrivial = caps(t.m) > 0 || t.verdict == vReject
	for round := 0; round < 2; round++ {
		v := &invocation{args: []string{"from-csv", "-f", "t.csv"}, files: map[string][]byte{"t.csv": t.data}, hook: r.shortReads()}
		r.invoke(v)
		if !r.judged(v, t.verdict, t.what) {
			return
		}
		c := Config{Pos: posRaw64, Order: []int{kPosition, kEvent, kEnum, kEuler}, Compress: true, Time: rapio.Raw64}
		got := r.loadPlain("what from-csv wrote", v.stdout.buf, c)
		if x := diff(t.m, got, diffOpts{captures: true}); x != "" {
			r.Fail("content", "from-csv: %s", x)
		}
		r.fold(got.describe())
		r.drawMapOrder()
	}
}

func c13from(r *Run) {
	d := r.drawDoc(docOpts{})
	d.m.noStr()
	r.drawMapOrder()
	r.nontrivial = caps(d.m) > 0 || d.verdict == vReject
	for round := 0; round < 2; round++ {
		v := &invocation{args: []string{"from-json"}}
		out := ""
		if r.Bool() {
			v.args = append(v.args, "-i", "in.json")
			v.files = map[string][]byte{"in.json": d.data}
		} else {
			v.stdin = r.reader(d.data, r.drawDelivery())
		}
		if r.Bool() {
			out = "out.rap"
			v.args = append(v.args, "--out", out)
		}
		v.hook = r.shortReads()
		r.invoke(v)
		if !r.judged(v, d.verdict, d.what) {
			return
		}
		c := upgradedConfig
		c.Time = rapio.BST16
		if !ordered(d.m) {
			c.Time = rapio.Raw64
		}
		got := r.loadPlain("what from-json wrote", v.result(out), c).noStr()
		if x := diff(d.m, got, diffOpts{}); x != "" {
			r.Fail("content", "from-json: %s", x)
		}
		if x := diffCaptures(d.m, got, c, "recording"); x != "" {
			r.Fail("content", "from-json: %s", x)
		}
		r.fold(got.describe())
		r.drawMapOrder()
	}
}

// drawStored draws a file the command line can load, and what is in it.
func (r *Run) drawStored(o genOpts) ([]byte, *MRec) {
	if r.Chance(1, 4) {
		f := r.drawFile(fileOpts{onlyV1: true, small: !r.Chance(1, 4)})
		return f.data, f.m
	}
	c := r.drawConfig()
	c.Third = 0
	c.Order = []int{kEvent, kEnum, kPosition, kEuler}
	o.kinds = c.Order
	m := r.genRecording(o)
	r.drawMapOrder()
	rec, _ := r.modelled(m)
	data, _ := r.stored(rec, c)
	ref := r.reference(data, c)
	if ref.err != nil {
		r.skip(fmt.Sprint("reading: ", ref.err))
	}
	r.desc += "; " + c.String()
	return data, ref.m
}

func c13to(r *Run) {
	data, m := r.drawStored(genOpts{utf8: r.Chance(3, 4), jsonSafe: !r.Chance(1, 5), small: !r.Chance(1, 4)})
	printable := m.printable()
	r.nontrivial = caps(m) > 0
	var first []byte
	for round := 0; round < 2; round++ {
		v := &invocation{args: []string{"to-json"}}
		if r.Bool() {
			v.args = append(v.args, "-f", "in.rap")
			v.files = map[string][]byte{"in.rap": data}
		} else {
			v.stdin = r.reader(data, r.drawDelivery())
		}
		v.hook = r.shortReads()
		r.invoke(v)
		r.evals++
		if v.code != 0 {
			if printable {
				r.Fail("refused", "to-json refuses a recording with status %d: %s", v.code, v.stderr.buf)
			}
			return
		}
		n, err := parseJSON(v.stdout.buf)
		if err != nil {
			r.Fail("content", "to-json: %v", err)
		}
		if printable {
			if x := jdiffRec(n, m, "recording"); x != "" {
				r.Fail("content", "to-json: %s", x)
			}
		}
		if round > 0 && !bytes.Equal(first, v.stdout.buf) {
			m1, _ := parseJSON(first)
			if x := jsame(m1, n, "document"); x != "" {
				r.Fail("content", "to-json prints one recording in two ways: %s", x)
			}
		}
		first = v.stdout.buf
		r.fold(string(first))
		r.drawMapOrder()
	}
}

// jsame compares two documents.
func jsame(a, b *jnode, path string) string {
	if a == nil || b == nil || a.null != b.null || a.n != b.n || a.isA != b.isA || (a.obj == nil) != (b.obj == nil) || len(a.arr) != len(b.arr) || len(a.obj) != len(b.obj) ||
		(a.s == nil) != (b.s == nil) || (a.s != nil && *a.s != *b.s) || (a.b == nil) != (b.b == nil) || (a.b != nil && *a.b != *b.b) {
		return path + " differs"
	}
	for i := range a.arr {
		if d := jsame(a.arr[i], b.arr[i], fmt.Sprintf("%s[%d]", path, i)); d != "" {
			return d
		}
	}
	for _, k := range a.keys {
		if d := jsame(a.obj[k], b.obj[k], path+"."+k); d != "" {
			return d
		}
	}
	return ""
}

// drawSized draws a stored recording of an exact size in bytes, at or near
// which the unit changes.
func (r *Run) drawSized() ([]byte, *MRec) {
	size := r.OneOf(1023, 1024, 1025, 1024*1024-1, 1024*1024, 1024*1024+1, 1200*1024, 3*1024*1024)
	if r.Chance(1, 3) {
		size = 1000 + r.Int(3000000)
	}
	c := r.drawConfig()
	c.Third = 0
	c.Order = []int{kEvent, kEnum, kPosition, kEuler}
	c.Compress = false
	c.Default = false
	m := &MRec{ID: "id", Name: "sized", Bins: []MBin{{Name: "bin", Data: r.Sub().Bytes(size)}}}
	for round := 0; ; round++ {
		rec, _ := r.modelled(m)
		data, _ := r.stored(rec, c)
		b := &m.Bins[0]
		more := size - len(data)
		if more == 0 || round == 4 || -more > len(b.Data) {
			ref := r.reference(data, c)
			if ref.err != nil {
				r.skip(fmt.Sprint("reading: ", ref.err))
			}
			return data, ref.m
		}
		if more > 0 {
			b.Data = append(b.Data, r.Sub().Bytes(more)...)
		} else {
			b.Data = b.Data[:len(b.Data)+more]
		}
	}
}

func c13summary(r *Run) {
	var data []byte
	var m *MRec
	if r.Chance(1, 40) {
		data, m = r.drawSized()
	} else {
		data, m = r.drawStored(genOpts{utf8: r.Bool(), small: !r.Chance(1, 4), ordered: r.Bool()})
	}
	r.nontrivial = caps(m) > 0
	v := &invocation{args: []string{"summarize", "--file", "in.rap"}, files: map[string][]byte{"in.rap": data}, hook: r.shortReads()}
	r.again()
	r.invoke(v)
	r.judged(v, vKeep, "")
	if x := checkSummary(string(v.stdout.buf), m, len(data)); x != "" {
		r.Fail("content", "summarize: %s", x)
	}
	r.fold(string(v.stdout.buf))
}

func checkSummary(out string, m *MRec, size int) string {
	cut := strings.LastIndex(out, "\nFile Size:")
	if cut < 0 {
		return "no file size"
	}
	name := out[:cut]
	want := m.Name
	if want == "" {
		want = "[No Name]"
	}
	if !strings.HasSuffix(name, want) || strings.TrimSpace(strings.TrimSuffix(name, want)) != "Name:" {
		return fmt.Sprintf("the name is printed as %s, want %s", short(name), short(want))
	}
	field := map[string]string{}
	for _, l := range strings.Split(out[cut+1:], "\n") {
		if i := strings.Index(l, ":"); i > 0 {
			field[l[:i]] = strings.TrimSpace(l[i+1:])
		}
	}
	count := map[int]int{}
	start, end := math.Inf(1), math.Inf(-1)
	m.walk(func(x *MRec) {
		for _, c := range x.Cols {
			count[c.Kind] += len(c.Caps)
			for _, e := range c.Caps {
				start, end = math.Min(start, e.T), math.Max(end, e.T)
			}
		}
	})
	for label, n := range map[string]int{
		"Sub Recordings":          len(m.Recs),
		"Total Position Captures": count[kPosition],
		"Total Euler Captures":    count[kEuler],
		"Total Event Captures":    count[kEvent],
		"Total Enum Captures":     count[kEnum],
		"Total Other Captures":    0,
	} {
		if field[label] != strconv.Itoa(n) {
			return fmt.Sprintf("%s is %q, want %d", label, field[label], n)
		}
	}
	if !ordered(m) || anyTime(m, func(t float64) bool { return math.IsNaN(t) || math.IsInf(t, 0) }) {
		return ""
	}
	if end >= start && !math.IsInf(end-start, 0) {
		d, err := strconv.ParseFloat(strings.TrimSuffix(field["Duration"], "s"), 64)
		if err != nil || !strings.HasSuffix(field["Duration"], "s") || math.Abs(d-(end-start)) > 0.0051+(end-start)*1e-12 {
			return fmt.Sprintf("the duration is %q, want %v", field["Duration"], end-start)
		}
	}
	fs := field["File Size"]
	unit, div := "b", 1.0
	if strings.HasSuffix(fs, "kb") {
		unit, div = "kb", 1024
	} else if strings.HasSuffix(fs, "mb") {
		unit, div = "mb", 1024*1024
	}
	n, err := strconv.ParseFloat(strings.TrimSuffix(fs, unit), 64)
	if err != nil || math.Abs(n-float64(size)/div) > 0.00501 {
		return fmt.Sprintf("the file size is %q, want %d bytes", fs, size)
	}
	return ""
}
