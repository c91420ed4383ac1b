package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/recolude/rap/format"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/format/metadata"
	"github.com/recolude/rap/verifsim/simrt"
	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/bsontype"
)

func init() {
	scenarios["C18"] = c18
	plans["C18"] = Plan{Quick: 400000, Thorough: 1600000, Chunk: 150,
		Rule: "One run lets one to three users pass blocks of metadata on, each in up to six steps: as JSON text and back, property by property through the type it has, as BSON, and through a recording that is stored to a sink and loaded from a stream that may both fail first. The blocks are shared and each step starts from what an earlier one left; a seeded scheduler preempts the users between statements of rap's code. What arrives is compared with a model of the block that set out. Non-trivial: at least one step was judged; distinct by shapes of the blocks, by schedule and by results.",
		Stub: []string{"goroutine scheduler and sync primitives (one task runs at a time; the scheduler draws which)"},
	}
}

// jsonCan reports whether JSON text alone tells what the property is.
func jsonCan(p MProp) bool {
	text := func(s string) bool { return utf8.ValidString(s) }
	num := func(f float64) bool { return !math.IsNaN(f) && !math.IsInf(f, 0) }
	switch p.Code {
	case 0:
		if _, err := time.Parse(time.RFC3339Nano, p.S); err == nil || strings.HasPrefix(p.S, "0x") {
			return false // looks like a time or like bytes
		}
		return text(p.S)
	case 2:
		f := float64(math.Float32frombits(p.F))
		return num(f) && f != math.Trunc(f) // a whole number is an integer
	case 6, 7:
		return num(p.V[0]) && num(p.V[1]) && num(p.V[2])
	case 11:
		return blockJSONCan(p.Block)
	case 12:
		y := time.UnixMicro(p.I).UTC().Year()
		return y >= 1 && y <= 9998
	case 16:
		return len(p.B) > 0
	case 18:
		return len(p.B) != 1 // looks like a byte
	case 13, 14, 19, 20, 24, 25:
		for _, e := range p.Arr {
			if !jsonCan(e) {
				return false
			}
		}
		return len(p.Arr) > 0
	case 15:
		fraction := false
		for _, e := range p.Arr {
			f := float64(math.Float32frombits(e.F))
			if !num(f) || f == 0 && math.Signbit(f) || f == math.Trunc(f) && math.Abs(f) > 1e6 {
				return false
			}
			fraction = fraction || f != math.Trunc(f)
		}
		return fraction
	}
	return true
}

func blockJSONCan(b MBlock) bool {
	axes, numbers := "", true
	for _, e := range b {
		if !utf8.ValidString(e.Key) || !jsonCan(e.P) {
			return false
		}
		axes += e.Key
		numbers = numbers && (e.P.Code == 1 || e.P.Code == 2)
	}
	return !(numbers && (axes == "xy" || axes == "xyz")) // looks like a vector
}

// prune takes out what JSON can not express.
func prune(b MBlock) MBlock {
	out := MBlock{}
	for _, e := range b {
		if e.P.Code == 11 {
			e.P.Block = prune(e.P.Block)
		}
		if jsonCan(e.P) && utf8.ValidString(e.Key) {
			out = append(out, e)
		}
	}
	if !blockJSONCan(out) {
		return MBlock{}
	}
	return out
}

// bsonDiff compares a BSON value with the property it stands for.
func bsonDiff(v bson.RawValue, p MProp, path string) string {
	wrong := func(want interface{}) string {
		return fmt.Sprintf("%s is %s %s in BSON, want %v", path, v.Type, short(v.String()), want)
	}
	double := func(v bson.RawValue, f float64) bool {
		x, ok := v.DoubleOK()
		return ok && sameF(x, f)
	}
	switch p.Code {
	case 0:
		if s, ok := v.StringValueOK(); !ok || s != p.S {
			return wrong(short(p.S))
		}
	case 1, 5:
		if i, ok := v.AsInt64OK(); !ok || i != p.I || v.Type == bsontype.Double {
			return wrong(p.I)
		}
	case 2:
		if f := float64(math.Float32frombits(p.F)); !double(v, f) {
			return wrong(f)
		}
	case 3, 4:
		if b, ok := v.BooleanOK(); !ok || b != (p.Code == 3) {
			return wrong(p.Code == 3)
		}
	case 6, 7:
		d, ok := v.DocumentOK()
		if !ok {
			return wrong(p.V)
		}
		for i, k := range []string{"x", "y", "z"}[:p.Code-4] {
			if x, err := d.LookupErr(k); err != nil || !double(x, p.V[i]) {
				return wrong(p.V)
			}
		}
		if es, err := d.Elements(); err != nil || len(es) != int(p.Code)-4 {
			return wrong(p.V)
		}
	case 11:
		d, ok := v.DocumentOK()
		if !ok {
			return wrong("a document")
		}
		return bsonDiffBlock(d, p.Block, path)
	case 12:
		ms := int64(math.Floor(float64(p.I) / 1000))
		if t, ok := v.DateTimeOK(); !ok || t != ms {
			return wrong(ms)
		}
	case 18:
		if _, b, ok := v.BinaryOK(); !ok || string(b) != string(p.B) {
			return wrong(fmt.Sprintf("%x", p.B))
		}
	default:
		n := len(p.Arr)
		if p.Code == 16 {
			n = len(p.B)
		}
		a, ok := v.ArrayOK()
		if !ok {
			return wrong("an array")
		}
		es, err := a.Values()
		if err != nil || len(es) != n {
			return wrong(fmt.Sprintf("an array of %d", n))
		}
		for i, e := range es {
			var x MProp
			if p.Code == 16 {
				x.Code = 4 - p.B[i]&1
			} else {
				x = p.Arr[i]
			}
			if d := bsonDiff(e, x, fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
	}
	return ""
}

func bsonDiffBlock(d bson.Raw, b MBlock, path string) string {
	if err := d.Validate(); err != nil {
		return fmt.Sprintf("%s is no BSON document: %v", path, err)
	}
	es, err := d.Elements()
	if err != nil || len(es) != len(b) {
		return fmt.Sprintf("%s has %d elements in BSON, want %d", path, len(es), len(b))
	}
	have := map[string]bson.RawValue{}
	for _, e := range es {
		have[e.Key()] = e.Value()
	}
	for _, e := range b {
		v, ok := have[e.Key]
		if !ok {
			return fmt.Sprintf("%s lacks %s in BSON", path, short(e.Key))
		}
		if x := bsonDiff(v, e.P, path+"["+short(e.Key)+"]"); x != "" {
			return x
		}
	}
	return ""
}

// bsonCan reports whether BSON has keys and text for the block.
func bsonCan(b MBlock) bool {
	ok := true
	var prop func(p MProp)
	var block func(b MBlock)
	prop = func(p MProp) {
		ok = ok && utf8.ValidString(p.S)
		for _, e := range p.Arr {
			prop(e)
		}
		block(p.Block)
	}
	block = func(b MBlock) {
		for _, e := range b {
			ok = ok && utf8.ValidString(e.Key) && !strings.Contains(e.Key, "\x00")
			prop(e.P)
		}
	}
	block(b)
	return ok
}

// sameType parses text as the type the property has.
func sameType(p metadata.Property, text []byte) (metadata.Property, error) {
	switch p.(type) {
	case metadata.StringProperty:
		var x metadata.StringProperty
		err := json.Unmarshal(text, &x)
		return x, err
	case metadata.Int32Property:
		return metadata.UnmarshalNewInt32Property(text)
	case metadata.Float32Property:
		return metadata.UnmarshalNewFloat32Property(text)
	case metadata.BoolProperty:
		return metadata.UnmarshalNewBoolProperty(text)
	case metadata.ByteProperty:
		return metadata.UnmarshalNewByteProperty(text)
	case metadata.Vector2Property:
		return metadata.UnmarshalNewVector2Property(text)
	case metadata.Vector3Property:
		return metadata.UnmarshalNewVector3Property(text)
	case metadata.MetadataProperty:
		return metadata.UnmarshalNewMetadataProperty(text)
	case metadata.TimeProperty:
		return metadata.UnmarshalNewTimeProperty(text)
	case metadata.ArrayProperty:
		var x metadata.ArrayProperty
		err := json.Unmarshal(text, &x)
		return x, err
	case metadata.ArrayPropertyRaw:
		var x metadata.ArrayPropertyRaw
		err := json.Unmarshal(text, &x)
		return x, err
	}
	return nil, nil
}

// typedCan reports whether JSON can express the value of a property whose type
// is known.
func typedCan(p MProp) bool {
	switch p.Code {
	case 0:
		return utf8.ValidString(p.S)
	case 2:
		f := float64(math.Float32frombits(p.F))
		return !math.IsNaN(f) && !math.IsInf(f, 0)
	}
	return jsonCan(p)
}

func isNumber(c byte) bool { return c == '-' || '0' <= c && c <= '9' }

type passing struct {
	block metadata.Block
	want  MBlock
	what  string
}

// c18: metadata survives JSON and BSON.
func c18(r *Run) {
	c := r.drawConfig()
	if c.Default {
		c = c.effective()
	}
	np := 1 + r.Pick(3, 1)
	var ms []MBlock
	for i := 0; i < np; i++ {
		m := r.genRecording(genOpts{kinds: c.kinds(), small: !r.Chance(1, 20), noBins: true, noRefs: true, utf8: !r.Chance(1, 8), jsonSafe: !r.Chance(1, 8)})
		var all []MBlock
		m.walk(func(x *MRec) {
			all = append(all, x.Meta)
			for _, col := range x.Cols {
				for _, e := range col.Caps {
					if len(e.Meta) > 0 && len(all) < 50 {
						all = append(all, e.Meta)
					}
				}
			}
		})
		b := all[r.Int(len(all))]
		for k := 0; len(b) == 0 && k < len(all); k++ {
			b = all[k]
		}
		if !r.Chance(1, 4) {
			b = prune(b)
		}
		ms = append(ms, b)
		r.shape = r.shape*31 + (&MRec{Meta: b}).hash()
	}
	r.drawMapOrder()
	r.desc = fmt.Sprintf("%d blocks, %s", np, c)
	type step struct {
		op, src  int
		pick     int
		failAt   int
		loadFail int
		err      error
	}
	nt := 1 + r.Pick(3, 2, 1)
	plan := make([][]step, nt)
	for t := range plan {
		for k := 1 + r.Int(6); k > 0; k-- {
			s := step{op: r.Pick(4, 3, 3, 2), src: r.Int(8), pick: r.Int(64), failAt: -1, loadFail: -1}
			if s.op == 3 {
				if r.Bool() {
					s.failAt, s.err = r.Int(200), r.drawError()
					r.fault("failing write")
				}
				if r.Bool() {
					s.loadFail, s.err = r.Int(300), r.drawError()
					r.fault("failing load")
				}
			}
			plan[t] = append(plan[t], s)
		}
	}
	codec := c.encoders()
	var shared []passing
	r.pre("building", func() error {
		for i, m := range ms {
			b := buildBlock(m)
			shared = append(shared, passing{b, obsBlock(b, "metadata"), fmt.Sprintf("block %d", i)})
		}
		return nil
	})
	type saw struct{ what, wrong string }
	seen := make([][]saw, nt)
	run := func(t int) {
		mine := append([]passing{}, shared...)
		for _, s := range plan[t] {
			src := mine[s.src%len(mine)]
			if s.src > 4 {
				src = mine[len(mine)-1]
			}
			say := func(what, wrong string) { seen[t] = append(seen[t], saw{src.what + " " + what, wrong}) }
			// arrives takes in a block that came out
			arrives := func(b metadata.Block, what string, exact bool) {
				rec := format.NewRecording("", "", nil, nil, b, nil, nil)
				got, err := observe(rec)
				if err != nil {
					say(what, err.Error())
					return
				}
				if exact {
					say(what, diffBlock(src.want, got.Meta, "metadata", false))
				}
				mine = append(mine, passing{b, got.Meta, src.what + " " + what})
			}
			switch s.op {
			case 0:
				text, err := metadata.NewMetadataProperty(src.block).MarshalJSON()
				if err != nil {
					if src.want.finite() && blockJSONCan(src.want) {
						say("as JSON", "can not be marshalled: "+err.Error())
					}
					continue
				}
				if n, err := parseJSON(text); err != nil {
					say("as JSON", "is no JSON: "+err.Error())
					continue
				} else {
					say("as JSON", jdiffBlock(n, src.want, "metadata"))
				}
				p, err := metadata.UnmarshalNewMetadataProperty(text)
				can := blockJSONCan(src.want)
				if err != nil {
					if can {
						say("through JSON", "can not be parsed: "+err.Error())
					}
					continue
				}
				arrives(p.Block(), "through JSON", can)
			case 1:
				if len(src.want) == 0 {
					continue
				}
				e := src.want[s.pick%len(src.want)]
				if !typedCan(e.P) {
					continue
				}
				p := src.block.Mapping()[e.Key]
				text, err := json.Marshal(p)
				if err != nil {
					say("property "+short(e.Key)+" as JSON", "can not be marshalled: "+err.Error())
					continue
				}
				q, err := sameType(p, text)
				if q == nil && err == nil {
					continue // not a type that is known here
				}
				what := "property " + short(e.Key) + " through JSON as " + fmt.Sprintf("%T", p)
				if err != nil {
					say(what, "can not be parsed: "+err.Error())
					continue
				}
				rec := format.NewRecording("", "", nil, nil, metadata.NewBlock(map[string]metadata.Property{e.Key: q}), nil, nil)
				got, err := observe(rec)
				if err != nil {
					say(what, err.Error())
					continue
				}
				say(what, diffBlock(MBlock{e}, got.Meta, "metadata", false))
				// what is not such a value is refused
				for k := 0; k < 4; k++ {
					bad := text[:(s.pick*7+k*13)%len(text)]
					if json.Valid(bad) {
						continue // a shorter number
					}
					if _, err := sameType(p, bad); err == nil {
						say(what, fmt.Sprintf("is taken from %s, which was cut short", short(string(bad))))
					}
				}
				for _, other := range []string{`"text"`, `12.5`, `true`, `[1,2]`, `{"a":1}`} {
					_, plain := p.(metadata.StringProperty)
					if kind := other[0]; kind == text[0] && (kind != '"' || plain) || kind == '1' && isNumber(text[0]) || kind == 't' && text[0] == 'f' {
						continue
					}
					if _, raw := p.(metadata.ArrayPropertyRaw); raw && other[0] == '[' {
						continue
					}
					if _, err := sameType(p, []byte(other)); err == nil {
						say(what, "is taken from "+other)
					}
				}
			case 2:
				if !bsonCan(src.want) {
					continue
				}
				data, err := metadata.NewMetadataProperty(src.block).MarshalBSON()
				if err != nil {
					say("as BSON", "can not be marshalled: "+err.Error())
					continue
				}
				say("as BSON", bsonDiffBlock(bson.Raw(data), src.want, "metadata"))
			case 3:
				rec := format.NewRecording("a", "b", nil, nil, src.block, nil, nil)
				if s.failAt >= 0 {
					w := &SimWriter{failAt: s.failAt, failErr: s.err}
					rapio.NewWriter(codec, c.Compress, w, c.Time).Write(rec)
				}
				w := &SimWriter{failAt: -1}
				if _, err := rapio.NewWriter(codec, c.Compress, w, c.Time).Write(rec); err != nil {
					continue
				}
				if s.loadFail >= 0 {
					in := &SimReader{data: w.buf, failAt: s.loadFail % (len(w.buf) + 1), failErr: s.err}
					rapio.NewReader(codec, in.Stream()).Read()
				}
				in := &SimReader{data: w.buf, failAt: -1}
				got, _, err := rapio.NewReader(codec, in.Stream()).Read()
				if err != nil {
					continue
				}
				// that it arrives whole is for C01 to say
				arrives(got.Metadata(), "through a file", false)
			}
		}
	}
	gap := uint64(r.OneOf(2000, 300, 40, 5, 20000))
	r.begin(simrt.Config{GapMean: gap})
	r.reserveSched()
	r.muted = true
	var fs []func()
	for t := 0; t < nt; t++ {
		t := t
		fs = append(fs, func() { run(t) })
	}
	panics := simrt.RunTasks(fs)
	n, sh := simrt.Switches()
	r.muted = false
	r.scheds = append(r.scheds, sh)
	r.switches += n
	r.hash ^= sh
	if st := simrt.Stuck(); st != nil {
		r.Fail(st.Class, "%s", st.Msg)
	}
	for _, p := range panics {
		r.note("%s", p.Stack)
		r.Fail("panic", "user %d panicked: %v%s", p.Task, p.Value, where(p.Stack))
	}
	for t := range seen {
		for _, s := range seen[t] {
			r.note("user %d: %s", t+1, s.what)
			r.evals++
			r.nontrivial = true
			r.fold(s.what)
			if s.wrong != "" {
				r.Fail("metadata", "%s: %s", s.what, s.wrong)
			}
		}
	}
	for i, s := range shared {
		r.again()
		var got MBlock
		r.guard("walking a block", func() { got = obsBlock(s.block, "metadata") })
		if x := diffBlock(s.want, got, "metadata", true); x != "" {
			r.Fail("metadata", "block %d changed while it was passed on: %s", i, x)
		}
	}
}
