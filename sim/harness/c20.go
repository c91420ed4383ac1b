package main

import (
	"bytes"
	"errors"
	"fmt"
	"sort"

	"github.com/recolude/rap/verifsim/simos"
)

func init() {
	scenarios["C20"] = c20
	plans["C20"] = Plan{Quick: 30000, Thorough: 1200000, Chunk: 100,
		Rule: "One run draws a command and a disk with its input, whatever its output file held before and files of others, runs the real command line once undisturbed, and then goes through up to six histories: the process is killed up to three times, before, in the middle of or after any operation on any file (what it did until then survives on the simulated disk, nothing it does afterwards takes effect), each time the disk is inspected, and at last the same command is run undisturbed on what is left. What reaches standard output is cut at any byte and handed to a second command as a pipe would. Non-trivial: a kill took effect before the command was done; distinct by workload and sequence of operations.",
		Real: []string{"rap-cli from main() on (urfave/cli as shipped)"},
		Stub: []string{"disk (os), standard streams, log and exit"},
	}
}

var errKilled = errors.New("sim: killed")

func c20(r *Run) {
	c := r.drawCommand()
	if c.in == c.out {
		c.out = "out.rap"
	}
	if r.mapMode == 0 {
		r.drawMapOrder()
	}
	disk := map[string][]byte{}
	others := []string{"notes.txt", "other.rap", "/home/sim/in.dat", "/tmp/session.rap", "recordings.json", "1.rap"}
	for i := r.Int(3); i > 0; i-- {
		disk[others[r.Int(len(others))]] = []byte(fmt.Sprintf("file number %d of somebody else", i))
	}
	if c.out != "" && c.before != nil && r.Bool() {
		// an earlier recording
		x, _ := r.drawStored(genOpts{utf8: true, jsonSafe: true, small: r.Bool()})
		c.before = x
	}
	if !c.stdin {
		disk[c.in] = c.input
	}
	kept := make([]string, 0, len(disk))
	for n := range disk {
		kept = append(kept, n)
	}
	sort.Strings(kept)
	if c.before != nil {
		disk[c.out] = c.before
	}
	start := copyDisk(disk)

	var ops []fop
	r.again()
	v := c.on(r, disk)
	v.hook = func(op, name string, n int) (int, error) {
		if len(ops) < 4000 {
			ops = append(ops, fop{op, name, n})
		}
		r.event(op+" "+name, n, 0, nil)
		return n, nil
	}
	r.invoke(v)
	if v.code != 0 {
		r.skip("an undisturbed run fails")
	}
	want := append([]byte{}, v.result(c.out)...)
	c.keptAll(r, start, kept, "an undisturbed run")

	rounds := 1 + r.Int(6)
	for i := 0; i < rounds; i++ {
		if c.out == "" && r.Bool() {
			c.piped(r, want)
			continue
		}
		c.history(r, copyDisk(start), kept, ops, want)
	}
	r.shape = r.shape*31 + uint64(len(c.what))*7 + uint64(len(c.before))
}

func copyDisk(d map[string][]byte) map[string][]byte {
	out := map[string][]byte{}
	for n, b := range d {
		out[n] = append([]byte{}, b...)
	}
	return out
}

func survivors() map[string][]byte {
	out := map[string][]byte{}
	for _, n := range simos.Names() {
		b, _ := simos.Peek(n)
		out[n] = append([]byte{}, b...)
	}
	return out
}

// on is an invocation on the given disk.
func (c *cmd) on(r *Run, disk map[string][]byte) *invocation {
	v := c.invocation(r)
	v.files = disk
	return v
}

// keptAll checks that the input and everybody else's files are what they were.
func (c *cmd) keptAll(r *Run, start map[string][]byte, kept []string, what string) {
	for _, n := range kept {
		got, ok := peek(n)
		switch {
		case !ok:
			r.Fail("file-lost", "%s: after %s the file %s is gone", c.what, what, n)
		case !bytes.Equal(got, start[n]):
			r.Fail("file-changed", "%s: after %s the file %s is another", c.what, what, n)
		}
	}
}

// history kills the command a few times and runs it again on what is left.
func (c *cmd) history(r *Run, disk map[string][]byte, kept []string, ops []fop, want []byte) {
	start := disk
	for k := 1 + r.Pick(4, 2, 1); k > 0; k-- {
		r.again()
		at := c.drawKill(r, ops)
		part := r.Int(3)
		g := r.Sub()
		frag := r.Int(3)
		v := c.on(r, disk)
		num, killed := 0, false
		var name string
		v.hook = func(op, n string, size int) (int, error) {
			if killed {
				return 0, errKilled
			}
			num++
			if num-1 == at {
				killed = true
				name = op + " " + n
				v.stdout.failAt, v.stdout.failErr = len(v.stdout.buf), errKilled
				t := 0
				if op == "write" {
					switch part {
					case 1:
						t = g.Int(size + 1)
					case 2:
						t = size
					}
				}
				r.event("killed "+name, size, t, nil)
				return t, errKilled
			}
			if op == "read" && frag > 0 && size > 1 {
				size = 1 + g.Int(size)
			}
			r.event(op+" "+n, size, 0, nil)
			return size, nil
		}
		r.invokeKilled(v)
		r.evals++
		what := fmt.Sprintf("being killed at operation %d (%s)", at, name)
		if !killed {
			what = fmt.Sprintf("a run of less than %d operations", at+1)
			r.note("%s", what)
			c.expect(r, v, want, what)
			c.keptAll(r, start, kept, what)
			disk = survivors()
			continue
		}
		r.note("%s", what)
		r.nontrivial = true
		r.fault("killed")
		c.keptAll(r, start, kept, what)
		left := survivors()
		if c.out != "" {
			got, ok := left[c.out]
			old, had := disk[c.out]
			if ok && !(had && bytes.Equal(old, got)) {
				c.torn(r, got, want, what)
			}
		} else {
			c.torn(r, v.stdout.buf, want, what)
		}
		disk = left
	}
	r.again()
	v := c.on(r, disk)
	what := "running the command again"
	r.note("%s", what)
	r.invoke(v)
	r.evals++
	c.expect(r, v, want, what)
	c.keptAll(r, start, kept, what)
	r.fault("run again")
}

// drawKill draws the operation at which the process is killed; every kind of
// operation is as likely as another.
func (c *cmd) drawKill(r *Run, ops []fop) int {
	if len(ops) == 0 || r.Chance(1, 12) {
		return len(ops) + r.Int(3)
	}
	if r.Bool() {
		return r.Int(len(ops))
	}
	var kinds []string
	where := map[string][]int{}
	for i, o := range ops {
		k := o.op + " " + o.name
		if where[k] == nil {
			kinds = append(kinds, k)
		}
		where[k] = append(where[k], i)
	}
	l := where[kinds[r.Int(len(kinds))]]
	at := l[r.Int(len(l))]
	if r.Bool() {
		at++ // just after it
	}
	return at
}

// torn checks what a killed command left of its output.
func (c *cmd) torn(r *Run, got, want []byte, what string) {
	if bytes.Equal(got, want) {
		return
	}
	r.evals++
	switch c.name {
	case "to-json":
		if b, err := parseJSON(got); err == nil {
			a, _ := parseJSON(want)
			if x := jsame(a, b, "document"); x != "" {
				r.Fail("torn", "%s: %s leaves %d of %d bytes, which are another document: %s", c.what, what, len(got), len(want), x)
			}
		}
		return
	case "summarize":
		return
	}
	a := r.reference(want, c.cfg)
	r.again()
	o := r.load("loading what is left", c.cfg.reader(plainReader{r.reader(got, r.drawDelivery())}))
	if o.err != nil {
		return
	}
	if x := diff(a.m, o.m, diffOpts{captures: true}); x != "" {
		r.Fail("torn", "%s: %s leaves %d bytes (of %d) that load as something else: %s", c.what, what, len(got), len(want), x)
	}
}

// piped hands what a command printed until it was killed to another command.
func (c *cmd) piped(r *Run, want []byte) {
	if len(want) == 0 {
		return
	}
	at := r.offsets(len(want)-1, 1+r.Int(8))
	n := at[len(at)-1]
	what := fmt.Sprintf("being killed after printing %d of %d bytes", n, len(want))
	r.note("%s", what)
	r.fault("pipe broken")
	r.nontrivial = true
	c.torn(r, want[:n], want, what)
	next := &invocation{}
	switch c.name {
	case "upgrade", "from-csv":
		next.args = []string{"to-json"}
	case "to-json":
		next.args = []string{"from-json"}
	default:
		return
	}
	run := func(b []byte) *invocation {
		r.again()
		v := &invocation{args: next.args, stdin: r.reader(b, r.drawDelivery())}
		r.invoke(v)
		r.evals++
		return v
	}
	whole := run(want)
	if whole.code != 0 {
		return
	}
	doc := append([]byte{}, whole.stdout.buf...)
	v := run(want[:n])
	if v.code != 0 || bytes.Equal(doc, v.stdout.buf) {
		return
	}
	if c.name != "to-json" {
		a, _ := parseJSON(doc)
		b, err := parseJSON(v.stdout.buf)
		x := ""
		if err != nil {
			x = err.Error()
		} else {
			x = jsame(a, b, "document")
		}
		if x != "" {
			r.Fail("pipe", "%s | to-json: %s, the second command succeeds with another document: %s", c.what, what, x)
		}
		return
	}
	if _, err := parseJSON(want[:n]); err != nil {
		r.Fail("pipe", "to-json | from-json: %s, and the second command succeeds", what)
	}
}

// invokeKilled is invoke for a process that is killed on the way: what it
// does afterwards does not count, crashes included.
func (r *Run) invokeKilled(v *invocation) {
	v.noFail = true
	r.invoke(v)
	v.noFail = false
	if v.crashed != "" && v.stdout.failErr != errKilled {
		r.Fail("panic", "%s: %s", v.what, v.crashed)
	}
}
