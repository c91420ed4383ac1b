// Package simio is io.Pipe between simulated goroutines.
package simio

import (
	"io"

	"github.com/recolude/rap/verifsim/simsync"
)

type pipe struct {
	wr   simsync.Mutex // one Write at a time
	mu   simsync.Mutex
	cond *simsync.Cond

	offered bool // a Write waits for its data to be taken
	data    []byte

	done       bool
	rerr, werr error
}

// PipeReader is the read half of a pipe.
type PipeReader struct{ p *pipe }

// PipeWriter is the write half of a pipe.
type PipeWriter struct{ p *pipe }

// Pipe is io.Pipe.
func Pipe() (*PipeReader, *PipeWriter) {
	p := &pipe{}
	p.cond = simsync.NewCond(&p.mu)
	return &PipeReader{p}, &PipeWriter{p}
}

func (r *PipeReader) Read(b []byte) (int, error) {
	p := r.p
	p.mu.Lock()
	defer p.mu.Unlock()
	for {
		switch {
		case p.done && p.rerr == nil && p.werr != nil:
			return 0, p.werr
		case p.done:
			return 0, io.ErrClosedPipe
		case p.offered:
			n := copy(b, p.data)
			p.data = p.data[n:]
			if len(p.data) == 0 {
				p.offered = false
			}
			p.cond.Broadcast()
			return n, nil
		}
		p.cond.Wait()
	}
}

func (p *pipe) writeError() error {
	if p.werr == nil && p.rerr != nil {
		return p.rerr
	}
	return io.ErrClosedPipe
}

func (w *PipeWriter) Write(b []byte) (int, error) {
	p := w.p
	p.wr.Lock()
	defer p.wr.Unlock()
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.done {
		return 0, p.writeError()
	}
	p.offered, p.data = true, b
	p.cond.Broadcast()
	for p.offered && !p.done {
		p.cond.Wait()
	}
	n := len(b) - len(p.data)
	if p.offered {
		p.offered = false
		n = len(b) - len(p.data)
		p.data = nil
		return n, p.writeError()
	}
	p.data = nil
	return n, nil
}

func (r *PipeReader) Close() error { return r.CloseWithError(nil) }

// CloseWithError makes writes fail with err.
func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = io.ErrClosedPipe
	}
	p := r.p
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.rerr == nil {
		p.rerr = err
	}
	p.done = true
	p.cond.Broadcast()
	return nil
}

func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }

// CloseWithError makes reads fail with err.
func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = io.EOF
	}
	p := w.p
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.werr == nil {
		p.werr = err
	}
	p.done = true
	p.cond.Broadcast()
	return nil
}
