package main

import (
	"runtime/debug"

	"github.com/recolude/rap/verifsim/simcli"
	"github.com/recolude/rap/verifsim/simos"
	"github.com/urfave/cli/v2"
)

// A simulated invocation of rap-cli: the real main function with simulated
// standard streams and a simulated disk.

type invocation struct {
	args    []string
	stdin   *SimReader
	files   map[string][]byte
	stdout  *SimWriter
	hook    func(op, name string, n int) (int, error)
	what    string
	noFail  bool // panics are only recorded
	code    int
	stderr  *SimWriter
	crashed string
	// nothing can be written to standard error
	stderrFails bool
}

func (r *Run) invoke(v *invocation) {
	if v.stdin == nil {
		v.stdin = r.reader(nil, Delivery{})
	}
	if v.stdout == nil {
		v.stdout = r.writer()
	}
	v.stderr = r.writer()
	v.stderr.quiet = true
	if v.stderrFails {
		v.stderr.failAt, v.stderr.failErr = 0, errWrapped
	}
	if v.what == "" {
		v.what = "rap-cli " + v.args[0]
	}
	simos.Reset(plainReader{v.stdin}, v.stdout, v.stderr, append([]string{"rap-cli"}, v.args...))
	for n, d := range v.files {
		simos.Put(n, d)
	}
	simos.Hook = v.hook
	cli.OsExiter = func(c int) { panic(simos.ExitPanic{Code: c}) }
	cli.ErrWriter = v.stderr
	defer func() { simos.Hook = nil }()
	defer func() {
		if p := recover(); p != nil {
			if e, ok := p.(simos.ExitPanic); ok {
				v.code = e.Code
				return
			}
			if v.noFail {
				switch p.(type) {
				case failPanic, skipPanic:
					panic(p)
				}
				v.crashed = "panic" + where(string(debug.Stack()))
				v.code = 2
				return
			}
			r.crash(v.what, p, string(debug.Stack()))
		}
	}()
	simcli.Main()
}
