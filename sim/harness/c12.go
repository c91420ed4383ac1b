package main

import (
	"bytes"
	"fmt"
	"strings"
	"syscall"

	rapio "github.com/recolude/rap/format/io"
)

func init() {
	scenarios["C12"] = c12
	plans["C12"] = Plan{Quick: 60000, Thorough: 1500000, Chunk: 100,
		Rule: "One run draws a command, its input (file or standard stream) and its output, runs the real command line once without faults, and then up to 14 times with a fault: a failing open, create, stat, remove, read, write or close of any file, with a part of the bytes transferred, once or from then on; a disk that loses what it accepted and tells so at close; standard input failing or ending at any offset; standard output failing at any offset; a full standard error; missing or misplaced files; rejected or damaged input. Exit status and outputs are compared with the fault-free run. Non-trivial: at least one injected fault was hit; distinct by workload and by the sequence of operations.",
		Real: []string{"rap-cli from main() on (urfave/cli as shipped)"},
		Stub: []string{"disk (os), standard streams, log and exit"},
	}
}

type fop struct {
	op, name string
	n        int
}

// cmd is a command with its input.
type cmd struct {
	name   string
	input  []byte
	kind   int // 0: recording, 1: JSON, 2: CSV
	stdin  bool
	out    string // output file ("": standard output)
	before []byte // what the output file held before
	in     string
	m      *MRec
	cfg    Config // of the output
	what   string
	sound  bool // the command has to succeed
}

func (c *cmd) invocation(r *Run) *invocation {
	v := &invocation{args: []string{c.name}, files: map[string][]byte{}, what: "rap-cli " + c.name}
	if c.before != nil {
		v.files[c.out] = c.before
	}
	flag := "-f"
	if c.kind == 1 {
		flag = "-i"
	}
	if c.stdin {
		v.stdin = r.reader(c.input, Delivery{})
	} else {
		v.args = append(v.args, flag, c.in)
		v.files[c.in] = c.input
	}
	if c.out != "" {
		v.args = append(v.args, "-o", c.out)
	}
	return v
}

// same reports whether the output of a run that says it succeeded is as
// complete as want.
func (c *cmd) same(r *Run, v *invocation, want []byte) string {
	got := v.result(c.out)
	if bytes.Equal(got, want) {
		return ""
	}
	switch c.name {
	case "to-json":
		a, _ := parseJSON(want)
		b, err := parseJSON(got)
		if err != nil {
			return err.Error()
		}
		return jsame(a, b, "document")
	case "summarize":
		if c.m == nil {
			return "the summary differs"
		}
		return checkSummary(string(got), c.m, len(c.input))
	}
	a := r.reference(want, c.cfg)
	r.again()
	o := r.load("loading the output", c.cfg.reader(plainReader{r.reader(got, Delivery{})}))
	if o.err != nil {
		return fmt.Sprintf("the output of %d bytes does not load: %v", len(got), o.err)
	}
	return diff(a.m, o.m, diffOpts{captures: true})
}

func (r *Run) drawCommand() *cmd {
	c := &cmd{in: "in.dat"}
	switch r.Pick(2, 3, 5, 2, 2) {
	case 0:
		c.name = "summarize"
	case 1:
		c.name = "to-json"
		c.stdin = r.Bool()
	case 2:
		c.name, c.kind = "from-json", 1
		c.stdin = r.Bool()
		if r.Chance(2, 3) {
			c.out = "out.rap"
			if r.Bool() {
				c.before = []byte("what was there before")
			}
			if !c.stdin && r.Chance(1, 10) {
				c.out, c.before = c.in, nil
			}
		}
	case 3:
		c.name = "upgrade"
	case 4:
		c.name, c.kind = "from-csv", 2
	}
	small := !r.Chance(1, 12)
	c.cfg = upgradedConfig
	switch c.kind {
	case 0:
		c.input, c.m = r.drawStored(genOpts{utf8: true, jsonSafe: true, small: small})
		c.sound = c.name != "to-json" || c.m.printable()
	case 1:
		d := r.drawDoc(docOpts{small: small, valid: true})
		c.input, c.m = d.data, d.m
		c.sound = d.verdict == vKeep
	case 2:
		t := r.drawTable(docOpts{small: small, valid: true})
		c.input, c.m = t.data, t.m
		c.sound = t.verdict == vKeep
		c.cfg = Config{Pos: posRaw64, Order: []int{kPosition, kEvent, kEnum, kEuler}, Compress: true, Time: rapio.Raw64}
	}
	if c.cfg.Time != rapio.Raw64 {
		c.cfg.Time = rapio.BST16
		if !ordered(c.m) {
			c.cfg.Time = rapio.Raw64
		}
	}
	c.what = c.name
	if c.stdin {
		c.what += " from standard input"
	}
	if c.out != "" {
		c.what += " to a file"
	}
	r.desc = c.what + ": " + r.desc
	r.note("%s", c.what)
	return c
}

func c12(r *Run) {
	c := r.drawCommand()
	if r.mapMode == 0 {
		r.drawMapOrder()
	}
	r.shape = r.shape*31 + uint64(len(c.what))*7 + uint64(len(c.before))

	var ops []fop
	r.again()
	v := c.invocation(r)
	v.hook = func(op, name string, n int) (int, error) {
		if len(ops) < 4000 {
			ops = append(ops, fop{op, name, n})
		}
		r.event(op+" "+name, n, 0, nil)
		return n, nil
	}
	r.invoke(v)
	if v.code != 0 {
		if c.sound {
			r.Fail("spurious", "%s: nothing fails, but the command exits with %d: %s", c.what, v.code, v.stderr.buf)
		}
		r.skip("can not be represented")
	}
	want := append([]byte{}, v.result(c.out)...)
	if len(want) == 0 {
		r.Fail("success", "%s succeeds without any output", c.what)
	}
	switch c.name {
	case "to-json":
		if _, err := parseJSON(want); err != nil {
			r.Fail("success", "%s succeeds with an incomplete document: %v", c.what, err)
		}
	case "summarize":
	default:
		if a := r.reference(want, c.cfg); a.err != nil {
			r.Fail("success", "%s succeeds with an output that does not load: %v", c.what, a.err)
		}
	}

	rounds := 2 + r.Int(13)
	for i := 0; i < rounds; i++ {
		r.again()
		switch r.Pick(6, 4, 2, 1, 1) {
		case 0:
			if c.out != "" && r.Chance(1, 10) {
				c.lateFault(r)
			} else {
				c.fileFault(r, ops, want)
			}
		case 1:
			c.streamFault(r, want)
		case 2:
			c.cut(r, want)
		case 3:
			c.misplaced(r)
		case 4:
			c.spoilt(r)
		}
	}
}

// untouched checks the output file after its input was rejected.
func (c *cmd) untouched(r *Run, what string) {
	if c.before == nil {
		return
	}
	got, ok := peek(c.out)
	if !ok || !bytes.Equal(got, c.before) {
		r.Fail("output-lost", "%s: %s, and the existing output file is gone", c.what, what)
	}
}

// fileFault lets one operation on a file fail.
func (c *cmd) fileFault(r *Run, ops []fop, want []byte) {
	if len(ops) == 0 {
		return
	}
	// every kind of operation is as likely as another
	var kinds []string
	seen := map[string]bool{}
	for _, o := range ops {
		if k := o.op + " " + o.name; !seen[k] {
			seen[k] = true
			kinds = append(kinds, k)
		}
	}
	kind := kinds[r.Int(len(kinds))]
	count := 0
	for _, o := range ops {
		if o.op+" "+o.name == kind {
			count++
		}
	}
	at := r.Int(count)
	if count > 3 && r.Bool() {
		at = []int{0, 1, count - 1, count - 2}[r.Int(4)]
	}
	op, name := ops[0].op, ""
	for _, o := range ops {
		if o.op+" "+o.name == kind {
			op, name = o.op, o.name
			break
		}
	}
	err := r.drawError()
	switch op {
	case "write", "close", "sync":
		err = r.drawSinkError()
		if op == "close" && r.Chance(1, 3) {
			err = syscall.EDQUOT
		}
	case "open", "create", "stat", "remove", "rename":
		if r.Bool() {
			err = []syscall.Errno{syscall.ENOENT, syscall.EACCES, syscall.EROFS, syscall.EMFILE, syscall.EBUSY, syscall.EEXIST}[r.Int(6)]
		}
	}
	part := r.Int(3)
	forever := r.Bool()
	g := r.Sub()
	frag := r.Int(3)
	short := op == "write" && r.Chance(1, 4)
	hit, num := 0, 0
	v := c.invocation(r)
	if r.Chance(1, 5) {
		v.stderrFails = true
		r.fault("standard error full")
	}
	v.hook = func(o, n string, k int) (int, error) {
		if o+" "+n == kind {
			num++
			if num-1 == at || (forever && num > at) {
				hit++
				t := 0
				switch part {
				case 1:
					t = g.Int(k + 1)
				case 2:
					t = k
				}
				if short && k > 0 {
					t = g.Int(k)
					r.event("short "+kind, k, t, nil)
					return t, nil
				}
				r.event(kind, k, t, err)
				return t, err
			}
		}
		if o == "read" && frag > 0 && k > 1 {
			k = 1 + g.Int(k)
		}
		r.event(o+" "+n, k, 0, nil)
		return k, nil
	}
	what := fmt.Sprintf("%s number %d of %s fails", op, at, name)
	if short {
		what = fmt.Sprintf("%s number %d of %s is short", op, at, name)
	}
	r.note("%s", what)
	r.invoke(v)
	r.evals++
	if hit == 0 {
		c.expect(r, v, want, what+" was not reached")
		return
	}
	r.nontrivial = true
	r.fault(op + " failed")
	strict := true
	switch op {
	case "read":
		strict = c.kind != 0
	case "close":
		strict = c.out != "" && name == c.out && c.out != c.in
	case "stat", "remove", "rename", "sync", "mkdir":
		strict = false
	}
	c.judge(r, v, want, what, strict)
	if op == "read" && v.code != 0 {
		c.untouched(r, what)
	}
	c.inputKept(r, what)
}

// lateFault lets the disk accept what is written to a file and find out
// afterwards that it can not store it, which it tells whoever syncs or closes
// the file.
func (c *cmd) lateFault(r *Run) {
	err := []syscall.Errno{syscall.EDQUOT, syscall.ENOSPC, syscall.EIO}[r.Int(3)]
	v := c.invocation(r)
	pending := map[string]bool{}
	lost := 0
	v.hook = func(o, n string, k int) (int, error) {
		r.event(o+" "+n, k, 0, nil)
		switch o {
		case "write":
			if k > 0 {
				pending[n] = true
				lost += k
			}
		case "close", "sync":
			if pending[n] {
				delete(pending, n)
				return 0, err
			}
		}
		return k, nil
	}
	what := fmt.Sprintf("the disk loses what it accepted (%v)", err)
	r.note("%s", what)
	r.invoke(v)
	r.evals++
	if lost == 0 {
		return
	}
	r.nontrivial = true
	r.fault("written data lost before close")
	if v.code == 0 {
		r.Fail("success", "%s: %s, and the command succeeds", c.what, what)
	}
	c.inputKept(r, what)
}

// inputKept checks that a command leaves its input alone.
func (c *cmd) inputKept(r *Run, what string) {
	if c.stdin || c.in == c.out {
		return
	}
	if got, ok := peek(c.in); !ok || !bytes.Equal(got, c.input) {
		r.Fail("input-lost", "%s: %s, and the input file changed", c.what, what)
	}
}

func (c *cmd) judge(r *Run, v *invocation, want []byte, what string, strict bool) {
	if v.code != 0 {
		return
	}
	if strict {
		r.Fail("success", "%s: %s, and the command succeeds", c.what, what)
	}
	if x := c.same(r, v, want); x != "" {
		r.Fail("success", "%s: %s, and the command succeeds with other output: %s", c.what, what, x)
	}
}

// expect checks a run in which nothing failed.
func (c *cmd) expect(r *Run, v *invocation, want []byte, what string) {
	if v.code != 0 {
		r.Fail("spurious", "%s: %s, but the command fails with status %d: %s", c.what, what, v.code, v.stderr.buf)
	}
	if x := c.same(r, v, want); x != "" {
		r.Fail("success", "%s: %s, but the output differs: %s", c.what, what, x)
	}
}

// streamFault lets a standard stream fail.
func (c *cmd) streamFault(r *Run, want []byte) {
	v := c.invocation(r)
	useIn := c.stdin && (c.out != "" || r.Bool())
	if r.Chance(1, 5) {
		v.stderrFails = true
		r.fault("standard error full")
	}
	if useIn {
		v.stdin = r.reader(c.input, r.drawDelivery())
		at := r.offsets(len(c.input), 1+r.Int(8))
		v.stdin.failAt = at[len(at)-1]
		v.stdin.failErr = r.drawError()
		v.stdin.failWith = r.Bool()
		what := fmt.Sprintf("standard input fails after %d of %d bytes", v.stdin.failAt, len(c.input))
		r.note("%s", what)
		r.invoke(v)
		r.evals++
		if v.stdin.failed == 0 {
			c.expect(r, v, want, what+" was not reached")
			return
		}
		r.nontrivial = true
		r.fault("standard input failed")
		// the last bytes of a compressed recording may hold nothing of it
		c.judge(r, v, want, what, c.kind != 0)
		if v.code != 0 {
			c.untouched(r, what)
		}
		return
	}
	if c.out != "" {
		return
	}
	w := r.writer()
	at := r.offsets(len(want), 1+r.Int(8))
	w.failAt = at[len(at)-1]
	w.failErr = r.drawSinkError()
	w.partial = r.Int(3)
	w.once = r.Bool()
	v.stdout = w
	what := fmt.Sprintf("standard output fails after %d of %d bytes", w.failAt, len(want))
	r.note("%s", what)
	r.invoke(v)
	r.evals++
	if w.failed == 0 {
		c.expect(r, v, want, what+" was not reached")
		return
	}
	r.nontrivial = true
	r.fault("standard output failed")
	if v.code == 0 {
		r.Fail("success", "%s: %s, and the command succeeds", c.what, what)
	}
}

// cut ends the input early.
func (c *cmd) cut(r *Run, want []byte) {
	if len(c.input) == 0 {
		return
	}
	at := r.offsets(len(c.input)-1, 1+r.Int(8))
	n := at[len(at)-1]
	d := *c
	d.input = c.input[:n]
	v := d.invocation(r)
	if c.stdin {
		v.stdin = r.reader(d.input, r.drawDelivery())
	}
	what := fmt.Sprintf("the input ends after %d of %d bytes", n, len(c.input))
	r.note("%s", what)
	r.invoke(v)
	r.evals++
	r.nontrivial = true
	r.fault("input cut short")
	if c.kind == 2 || (c.kind == 1 && strings.TrimSpace(string(c.input[n:])) == "") {
		// a part of a table is a table
		return
	}
	c.judge(r, v, want, what, false)
	if v.code != 0 {
		c.untouched(r, what)
	}
}

// misplaced runs the command without something it needs.
func (c *cmd) misplaced(r *Run) {
	v := c.invocation(r)
	var what string
	k := r.Int(4)
	if c.stdin && k < 3 {
		k = 3
	}
	if k == 3 && c.out == "" {
		k = r.Int(2)
		if c.stdin {
			return
		}
	}
	switch k {
	case 0:
		delete(v.files, c.in)
		what = "the input file is missing"
	case 1:
		for i := range v.args {
			if v.args[i] == c.in {
				v.args[i] = "/tmp"
				break
			}
		}
		what = "the input file is a directory"
	case 2:
		if c.kind == 1 || c.name == "to-json" {
			return // they read standard input then
		}
		v.args = v.args[:1]
		what = "the file is not given"
	case 3:
		p := []string{"no/such/directory/out.rap", "/tmp"}[r.Int(2)]
		for i := range v.args {
			if v.args[i] == c.out && i > 0 && v.args[i-1] == "-o" {
				v.args[i] = p
			}
		}
		if p == "/tmp" {
			// the command may try to make room for its output
			v.hook = func(op, name string, n int) (int, error) {
				if op == "remove" && name == p {
					return 0, fmt.Errorf("directory not empty")
				}
				return n, nil
			}
		}
		what = "the output can not be created at " + p
	}
	r.note("%s", what)
	r.invoke(v)
	r.evals++
	r.nontrivial = true
	r.fault("file missing or misplaced")
	if v.code == 0 {
		r.Fail("success", "%s: %s, and the command succeeds", c.what, what)
	}
	if k < 3 {
		c.untouched(r, what)
	}
}

// spoilt runs the command on input that has to be rejected, or that is
// damaged.
func (c *cmd) spoilt(r *Run) {
	d := *c
	what := ""
	r.muted = true
	desc, shape := r.desc, r.shape
	switch c.kind {
	case 0:
		f := &File{data: c.input}
		if len(c.input) > 0 && c.input[0] == 1 {
			f.v1 = true
		} else if _, comp, ok := v2Body(c.input); ok {
			f.comp = comp
		}
		d.input = r.damaged(f, r.Sub())
		what = "the input is damaged"
	case 1:
		doc := r.drawDoc(docOpts{small: true, defect: true})
		d.input, what = doc.data, "the document has "+doc.what
	case 2:
		t := r.drawTable(docOpts{small: true, defect: true})
		d.input, what = t.data, "the table has "+t.what
	}
	r.desc, r.shape = desc, shape
	r.muted = false
	r.note("%s", what)
	v := d.invocation(r)
	r.invoke(v)
	r.evals++
	r.nontrivial = true
	if c.kind != 0 {
		r.fault("rejected input")
		if v.code == 0 {
			r.Fail("success", "%s: %s, and the command succeeds", c.what, what)
		}
		c.untouched(r, what)
		return
	}
	if v.code != 0 {
		return
	}
	// it still makes a recording; what came out has to be one as well
	out := v.stdout.buf
	switch c.name {
	case "to-json":
		if _, err := parseJSON(out); err != nil {
			r.Fail("success", "%s: %s, the command succeeds and %v", c.what, what, err)
		}
	case "upgrade":
		r.again()
		o := r.load("loading the output", c.cfg.reader(plainReader{r.reader(out, Delivery{})}))
		if o.err != nil {
			r.Fail("success", "%s: %s, the command succeeds and its output does not load: %v", c.what, what, o.err)
		}
	}
}
