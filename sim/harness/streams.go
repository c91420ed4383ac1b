package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/recolude/rap/verifsim/simrt"
)

// --- input streams ----------------------------------------------------------

// Delivery decides how a simulated input stream hands out its bytes.
type Delivery struct {
	Mode    int // 0: as much as asked for; 1: one byte; 2: at most Max bytes; 3: random pieces up to Max
	Max     int
	Zeros   int  // a read in Zeros returns no bytes and no error (0: none)
	EOFWith bool // the last bytes come together with the end of file
	Kind    int  // 0: io.Reader only; 1: also io.ByteReader; 2: also io.Seeker; 3: also io.WriterTo; 4: also io.Closer, and of no use once closed
	Base    int  // bytes that precede the recording and have been passed over
	Buf     int  // size of the buffer of a buffered stream
	rng     *Rng
}

// Streams of the kinds that programs really hand to rap. Those from
// streamBytes on hold the bytes themselves and can not fail.
const (
	streamFile     = iota + 5 // like os.File: also io.Seeker, io.ReaderAt, Stat-like Size
	streamBuffered            // *bufio.Reader over the simulated stream
	streamLimited             // *io.LimitedReader over it
	streamTee                 // io.TeeReader over it
	streamBytes               // *bytes.Reader
	streamBuffer              // *bytes.Buffer
	streamStrings             // *strings.Reader
	streamSection             // *io.SectionReader
	streamMulti               // io.MultiReader
	streamKinds
)

func (d Delivery) String() string {
	s := fmt.Sprintf("delivery{mode=%d max=%d zeros=%d eofwith=%v kind=%d}", d.Mode, d.Max, d.Zeros, d.EOFWith, d.Kind)
	if d.Kind >= streamFile {
		s = s[:len(s)-1] + fmt.Sprintf(" base=%d buf=%d}", d.Base, d.Buf)
	}
	return s
}

// drawStream is drawDelivery with all kinds of streams, for properties that
// do not look at what is asked of them.
func (r *Run) drawStream() Delivery {
	d := r.drawDelivery()
	if r.Chance(1, 4) {
		d.Kind = streamFile + r.Int(streamKinds-streamFile)
		if r.Bool() {
			d.Base = r.OneOf(1, 2, 9, 1000, 5000)
		}
		d.Buf = r.OneOf(16, 17, 64, 512, 4096, 65536)
		r.fault("stream of another kind")
	}
	return d
}

func (r *Run) drawDelivery() Delivery {
	d := Delivery{Mode: r.Pick(3, 2, 2, 5)}
	switch d.Mode {
	case 2:
		d.Max = r.OneOf(2, 3, 7, 8, 9, 64, 512, 4096)
	case 3:
		d.Max = r.OneOf(2, 3, 5, 16, 100, 1000, 5000)
	}
	if r.Chance(1, 3) {
		d.Zeros = r.OneOf(2, 3, 10)
	}
	d.EOFWith = r.Bool()
	d.Kind = []int{0, 1, 2, 4}[r.Pick(8, 2, 1, 1)]
	d.rng = r.Sub()
	if d.Mode != 0 {
		r.fault("fragmented input")
	}
	if d.Zeros > 0 {
		r.fault("zero-length reads")
	}
	if d.EOFWith {
		r.fault("end of file with data")
	}
	return d
}

// SimReader is a simulated input stream.
type SimReader struct {
	run      *Run
	data     []byte
	pos      int
	d        Delivery
	failAt   int // offset at which it fails (-1: never)
	failErr  error
	failWith bool // the failure comes together with the bytes before it
	failOnce bool // it works again after failing once
	failed   int
	zerosRow int
	live     bool // never ends: reading past the data is recorded and refused
	PastEnd  int  // reads issued once all data had been delivered
	Reads    int
	AtEOF    bool // said end of file
	quiet    bool
}

var errPastEnd = errors.New("sim: the stream has nothing more to deliver and would block")

func (r *Run) reader(data []byte, d Delivery) *SimReader {
	return &SimReader{run: r, data: data, d: d, failAt: -1}
}

// Stream wraps the reader with the extra interfaces its delivery asks for.
func (s *SimReader) Stream() io.Reader {
	switch s.d.Kind {
	case 1:
		return &simByteReader{s}
	case 2:
		return &simSeeker{s}
	case 4:
		return &simCloser{SimReader: s}
	case streamFile:
		return &simFile{s}
	case streamBuffered:
		return bufio.NewReaderSize(plainReader{s}, s.d.Buf)
	case streamLimited:
		return io.LimitReader(plainReader{s}, int64(len(s.data)-s.pos+s.d.Base))
	case streamTee:
		return io.TeeReader(plainReader{s}, io.Discard)
	}
	if s.d.Kind > streamTee && s.failAt < 0 && !s.live {
		all := append(bytes.Repeat([]byte{2, 0xAA}, s.d.Base), s.data[s.pos:]...)
		base := int64(2 * s.d.Base)
		switch s.d.Kind {
		case streamBytes:
			b := bytes.NewReader(all)
			b.Seek(base, io.SeekStart)
			return b
		case streamBuffer:
			b := bytes.NewBuffer(all)
			b.Next(int(base))
			return b
		case streamStrings:
			b := strings.NewReader(string(all))
			b.Seek(base, io.SeekStart)
			return b
		case streamSection:
			return io.NewSectionReader(bytes.NewReader(all), base, int64(len(all))-base)
		case streamMulti:
			all = all[base:]
			i := s.d.rng.Int(len(all) + 1)
			j := i + s.d.rng.Int(len(all)-i+1)
			return io.MultiReader(bytes.NewReader(all[:i]), strings.NewReader(string(all[i:j])), plainReader{&SimReader{data: all[j:], d: s.d, failAt: -1, quiet: true}})
		}
	}
	return plainReader{s}
}

// simFile is like a file whose first bytes have been read before.
type simFile struct{ *SimReader }

func (s *simFile) before(i int64) byte { return byte(0xA0 + i%7) }
func (s *simFile) Size() int64         { return int64(s.d.Base + len(s.data)) }

func (s *simFile) Read(b []byte) (int, error) {
	if s.pos < 0 { // someone went back before the recording
		n := 0
		for ; n < len(b) && s.pos < 0; n++ {
			b[n] = s.before(int64(s.pos + s.d.Base))
			s.pos++
		}
		return n, nil
	}
	return s.SimReader.Read(b)
}

func (s *simFile) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += int64(s.pos + s.d.Base)
	case io.SeekEnd:
		off += s.Size()
	}
	if off < 0 {
		return 0, errors.New("sim: seek before start")
	}
	s.pos = int(off) - s.d.Base
	if s.pos > len(s.data) {
		s.pos = len(s.data)
	}
	return off, nil
}

func (s *simFile) ReadAt(b []byte, off int64) (n int, err error) {
	simrt.Tick()
	for ; n < len(b); n++ {
		i := off + int64(n) - int64(s.d.Base)
		if s.failAt >= 0 && i >= int64(s.failAt) {
			s.failed++
			return n, s.failErr
		}
		if i >= int64(len(s.data)) {
			return n, io.EOF
		}
		if i < 0 {
			b[n] = s.before(i + int64(s.d.Base))
		} else {
			b[n] = s.data[i]
		}
	}
	return n, nil
}

type plainReader struct{ s *SimReader }

func (p plainReader) Read(b []byte) (int, error) { return p.s.Read(b) }

type simByteReader struct{ *SimReader }

func (s *simByteReader) ReadByte() (byte, error) {
	var b [1]byte
	for {
		n, err := s.SimReader.Read(b[:])
		if n == 1 {
			return b[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
}

// simCloser is a stream that is of no use once somebody has closed it.
type simCloser struct {
	*SimReader
	closed bool
}

func (s *simCloser) Close() error { s.closed = true; return nil }
func (s *simCloser) Read(b []byte) (int, error) {
	if s.closed {
		return 0, os.ErrClosed
	}
	return s.SimReader.Read(b)
}

type simSeeker struct{ *SimReader }

func (s *simSeeker) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case 1:
		off += int64(s.pos)
	case 2:
		off += int64(len(s.data))
	}
	if off < 0 {
		return 0, errors.New("sim: seek before start")
	}
	s.pos = int(off)
	if s.pos > len(s.data) {
		s.pos = len(s.data)
	}
	return off, nil
}

func (s *SimReader) Read(b []byte) (n int, err error) {
	simrt.Tick()
	s.Reads++
	if len(b) == 0 {
		return 0, nil
	}
	defer func() {
		if s.run != nil && !s.quiet {
			s.run.event("read", len(b), n, err)
		}
	}()
	limit := len(s.data)
	failing := s.failAt >= 0 && s.failAt <= len(s.data) && !(s.failOnce && s.failed > 0)
	if failing {
		limit = s.failAt
	}
	left := limit - s.pos
	if left > 0 && s.d.Zeros > 0 && s.zerosRow < 3 && s.d.rng.Int(s.d.Zeros) == 1 {
		s.zerosRow++
		return 0, nil
	}
	s.zerosRow = 0
	n = len(b)
	switch s.d.Mode {
	case 1:
		n = 1
	case 2:
		if n > s.d.Max {
			n = s.d.Max
		}
	case 3:
		if k := 1 + s.d.rng.Int(s.d.Max); n > k {
			n = k
		}
	}
	if n > left {
		n = left
	}
	if n < 0 {
		n = 0
	}
	copy(b, s.data[s.pos:s.pos+n])
	s.pos += n
	if s.pos >= limit {
		if failing && (n == 0 || s.failWith) {
			s.failed++
			return n, s.failErr
		}
		if !failing {
			if s.live {
				if n == 0 {
					s.PastEnd++
					return 0, errPastEnd
				}
				return n, nil
			}
			if n == 0 || s.d.EOFWith {
				s.AtEOF = true
				return n, io.EOF
			}
		}
	}
	return n, nil
}

// --- output streams ---------------------------------------------------------

// SimWriter is a simulated output stream.
type SimWriter struct {
	run      *Run
	buf      []byte
	failAt   int // offset from which it fails (-1: never)
	failErr  error
	partial  int  // 0: nothing of the failing write is accepted; 1: everything up to failAt; 2: all of it, and still an error
	once     bool // it works again after failing once
	failed   int
	Writes   int
	after    int // writes issued after the first failure
	quiet    bool
	maxChunk int
}

func (r *Run) writer() *SimWriter { return &SimWriter{run: r, failAt: -1} }

func (s *SimWriter) Write(b []byte) (n int, err error) {
	simrt.Tick()
	s.Writes++
	if s.failed > 0 {
		s.after++
	}
	if len(b) > s.maxChunk {
		s.maxChunk = len(b)
	}
	defer func() {
		if s.run != nil && !s.quiet {
			s.run.event("write", len(b), n, err)
		}
	}()
	if s.failAt >= 0 && !(s.once && s.failed > 0) && (s.failed > 0 || len(s.buf)+len(b) > s.failAt) {
		first := s.failed == 0
		s.failed++
		k := 0
		if first {
			switch s.partial {
			case 1:
				k = s.failAt - len(s.buf)
			case 2:
				k = len(b)
			}
		}
		s.buf = append(s.buf, b[:k]...)
		return k, s.failErr
	}
	s.buf = append(s.buf, b...)
	return len(b), nil
}

// Sink wraps the writer with extra interfaces a sink may have: io.ByteWriter
// and io.StringWriter, io.ReaderFrom, io.Closer.
func (s *SimWriter) Sink(kind int) io.Writer {
	switch kind {
	case 1:
		return sinkByte{s}
	case 2:
		return sinkFrom{s}
	case 3:
		return &sinkCloser{SimWriter: s}
	}
	return s
}

// drawSink wraps a healthy sink in what programs really hand to rap. The
// function it returns makes the bytes written visible in the simulated sink.
func (r *Run) drawSink(s *SimWriter) (io.Writer, func()) {
	switch k := r.Pick(12, 2, 2, 1, 1, 1); k {
	case 1:
		b := bufio.NewWriterSize(s, r.OneOf(16, 64, 512, 4096, 65536))
		return b, func() { b.Flush() }
	case 2, 3:
		b := &bytes.Buffer{}
		old := r.OneOf(0, 1, 9, 1000)
		b.Write(bytes.Repeat([]byte{2}, old))
		if k == 3 {
			b.Next(old)
			old = 0
		}
		return b, func() {
			if b.Len() < old {
				r.Fail("sink", "what the sink held before is gone")
			}
			s.buf = append(s.buf, b.Bytes()[old:]...)
		}
	case 4:
		return io.MultiWriter(s, io.Discard), func() {}
	case 5:
		return &sinkFile{SimWriter: s, base: int64(r.OneOf(0, 1, 9, 1000))}, func() {}
	}
	return s.Sink(r.drawSinkKind()), func() {}
}

// sinkFile is like a file that has been written to before.
type sinkFile struct {
	*SimWriter
	base, pos int64
}

func (s *sinkFile) Write(b []byte) (int, error) {
	if s.pos == int64(len(s.buf)) {
		s.pos += int64(len(b))
		return s.SimWriter.Write(b)
	}
	n, err := s.WriteAt(b, s.pos+s.base)
	s.pos += int64(n)
	return n, err
}

func (s *sinkFile) WriteString(x string) (int, error) { return s.Write([]byte(x)) }

func (s *sinkFile) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += s.pos + s.base
	case io.SeekEnd:
		off += int64(len(s.buf)) + s.base
	}
	if off < 0 {
		return 0, errors.New("sim: seek before start")
	}
	s.pos = off - s.base
	return off, nil
}

func (s *sinkFile) WriteAt(b []byte, off int64) (int, error) {
	simrt.Tick()
	off -= s.base
	if off < 0 {
		s.run.Fail("sink", "what the sink held before was overwritten")
	}
	for int64(len(s.buf)) < off+int64(len(b)) {
		s.buf = append(s.buf, 0)
	}
	copy(s.buf[off:], b)
	return len(b), nil
}

func (r *Run) drawSinkKind() int { return r.Pick(6, 1, 1, 1) }

type sinkByte struct{ *SimWriter }

func (s sinkByte) WriteByte(b byte) error { _, err := s.Write([]byte{b}); return err }
func (s sinkByte) WriteString(x string) (int, error) {
	return s.Write([]byte(x))
}

type sinkFrom struct{ *SimWriter }

func (s sinkFrom) ReadFrom(r io.Reader) (total int64, err error) {
	buf := make([]byte, 700)
	for {
		n, rerr := r.Read(buf)
		if n > 0 {
			m, err := s.Write(buf[:n])
			total += int64(m)
			if err != nil {
				return total, err
			}
		}
		if rerr == io.EOF {
			return total, nil
		}
		if rerr != nil {
			return total, rerr
		}
	}
}

// sinkCloser is a sink that is of no use once somebody has closed it.
type sinkCloser struct {
	*SimWriter
	closed bool
}

func (s *sinkCloser) Close() error { s.closed = true; return nil }
func (s *sinkCloser) Write(b []byte) (int, error) {
	if s.closed {
		return 0, os.ErrClosed
	}
	return s.SimWriter.Write(b)
}
