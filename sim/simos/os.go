// Package simos stands in for package os: files live in a simulated disk, the
// standard streams are simulated, and Exit ends the simulated process. Every
// operation first asks a hook, which the scenario uses to inject faults.
package simos

import (
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/recolude/rap/verifsim/simrt"
)

// Hook decides how an operation goes: for read and write, how many of n bytes
// are transferred before err (n, nil: all of it); for the others only err
// counts.
var Hook func(op, name string, n int) (int, error)

// Node is a simulated file.
type Node struct {
	Data []byte
	mode fs.FileMode
	mod  time.Time
	dir  bool
}

var disk map[string]*Node
var tempCount int

// ExitPanic ends the simulated process.
type ExitPanic struct{ Code int }

// Reset empties the disk and attaches the standard streams.
func Reset(stdin io.Reader, stdout, stderr io.Writer, args []string) {
	disk = map[string]*Node{}
	for _, d := range []string{"/", ".", "/tmp", "/home", "/home/sim"} {
		disk[d] = &Node{dir: true, mode: fs.ModeDir | 0o755}
	}
	tempCount = 0
	Stdin = &File{name: "/dev/stdin", r: stdin}
	Stdout = &File{name: "/dev/stdout", w: stdout}
	Stderr = &File{name: "/dev/stderr", w: stderr}
	Args = args
	Hook = nil
	env = map[string]string{"HOME": "/home/sim", "PATH": "/bin"}
}

// Put places a file on the disk.
func Put(name string, data []byte) {
	disk[clean(name)] = &Node{Data: append([]byte(nil), data...), mode: 0o644}
}

// Peek returns the contents of a file.
func Peek(name string) ([]byte, bool) {
	n, ok := disk[clean(name)]
	if !ok || n.dir {
		return nil, false
	}
	return n.Data, true
}

// Names lists the files on the disk.
func Names() []string {
	var out []string
	for n, f := range disk {
		if !f.dir {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}

func clean(name string) string { return path.Clean(name) }

func ask(op, name string, n int) (int, error) {
	simrt.Tick()
	if Hook == nil {
		return n, nil
	}
	return Hook(op, name, n)
}

type (
	FileInfo     = fs.FileInfo
	FileMode     = fs.FileMode
	PathError    = fs.PathError
	DirEntry     = fs.DirEntry
	Signal       = os.Signal
	SyscallError = os.SyscallError
	LinkError    = os.LinkError
)

const (
	O_RDONLY = os.O_RDONLY
	O_WRONLY = os.O_WRONLY
	O_RDWR   = os.O_RDWR
	O_APPEND = os.O_APPEND
	O_CREATE = os.O_CREATE
	O_EXCL   = os.O_EXCL
	O_SYNC   = os.O_SYNC
	O_TRUNC  = os.O_TRUNC

	ModePerm = fs.ModePerm
	ModeDir  = fs.ModeDir

	PathSeparator     = os.PathSeparator
	PathListSeparator = os.PathListSeparator
	DevNull           = os.DevNull

	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2
)

var (
	ErrInvalid          = fs.ErrInvalid
	ErrPermission       = fs.ErrPermission
	ErrExist            = fs.ErrExist
	ErrNotExist         = fs.ErrNotExist
	ErrClosed           = fs.ErrClosed
	ErrNoDeadline       = os.ErrNoDeadline
	ErrDeadlineExceeded = os.ErrDeadlineExceeded
	ErrProcessDone      = os.ErrProcessDone

	Interrupt = os.Interrupt
	Kill      = os.Kill

	Args   = []string{"sim"}
	Stdin  = &File{name: "/dev/stdin"}
	Stdout = &File{name: "/dev/stdout"}
	Stderr = &File{name: "/dev/stderr"}

	env = map[string]string{}
)

func IsNotExist(err error) bool    { return os.IsNotExist(err) }
func IsExist(err error) bool       { return os.IsExist(err) }
func IsPermission(err error) bool  { return os.IsPermission(err) }
func IsTimeout(err error) bool     { return os.IsTimeout(err) }
func IsPathSeparator(c uint8) bool { return os.IsPathSeparator(c) }

// File is an open simulated file or standard stream.
type File struct {
	name   string
	node   *Node
	pos    int
	flag   int
	closed bool
	r      io.Reader
	w      io.Writer
}

func fail(op, name string, err error) error {
	if err == nil {
		return nil
	}
	return &fs.PathError{Op: op, Path: name, Err: err}
}

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	op := "open"
	if flag&O_CREATE != 0 {
		op = "create"
	}
	if _, err := ask(op, name, 0); err != nil {
		return nil, fail("open", name, err)
	}
	key := clean(name)
	n, ok := disk[key]
	if ok && n.dir && flag&(O_WRONLY|O_RDWR) != 0 {
		return nil, fail("open", name, errIsDir)
	}
	if ok && flag&O_CREATE != 0 && flag&O_EXCL != 0 {
		return nil, fail("open", name, fs.ErrExist)
	}
	if !ok {
		if flag&O_CREATE == 0 {
			return nil, fail("open", name, fs.ErrNotExist)
		}
		if d, ok := disk[path.Dir(key)]; !ok || !d.dir {
			return nil, fail("open", name, fs.ErrNotExist)
		}
		n = &Node{mode: perm}
		disk[key] = n
	}
	if flag&O_TRUNC != 0 && flag&(O_WRONLY|O_RDWR) != 0 {
		n.Data = nil
	}
	n.mod = simrt.Now()
	return &File{name: name, node: n, flag: flag}, nil
}

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0o666) }

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return ^uintptr(0) }

func (f *File) Read(b []byte) (int, error) {
	if f == nil {
		return 0, fs.ErrInvalid
	}
	if f.closed {
		return 0, fail("read", f.name, fs.ErrClosed)
	}
	if f.r != nil {
		return f.r.Read(b)
	}
	if f.node == nil {
		return 0, io.EOF
	}
	if f.node.dir {
		return 0, fail("read", f.name, errIsDir)
	}
	if f.flag&(O_WRONLY|O_RDWR) == O_WRONLY {
		return 0, fail("read", f.name, errBadFd)
	}
	if len(b) == 0 {
		return 0, nil
	}
	n := len(b)
	if left := len(f.node.Data) - f.pos; left < n {
		n = left
	}
	if n < 0 {
		n = 0
	}
	k, err := ask("read", f.name, n)
	if k > n {
		k = n
	}
	copy(b, f.node.Data[f.pos:f.pos+k])
	f.pos += k
	if err != nil {
		return k, fail("read", f.name, err)
	}
	if n == 0 {
		return 0, io.EOF
	}
	return k, nil
}

func (f *File) Write(b []byte) (int, error) {
	if f == nil {
		return 0, fs.ErrInvalid
	}
	if f.closed {
		return 0, fail("write", f.name, fs.ErrClosed)
	}
	if f.w != nil {
		return f.w.Write(b)
	}
	if f.node == nil {
		return len(b), nil
	}
	if f.flag&(O_WRONLY|O_RDWR) == 0 {
		return 0, fail("write", f.name, errBadFd)
	}
	k, err := ask("write", f.name, len(b))
	if k > len(b) {
		k = len(b)
	}
	if f.flag&O_APPEND != 0 {
		f.pos = len(f.node.Data)
	}
	for len(f.node.Data) < f.pos {
		f.node.Data = append(f.node.Data, 0)
	}
	f.node.Data = append(f.node.Data[:f.pos:f.pos], append(append([]byte(nil), b[:k]...), tail(f.node.Data, f.pos+k)...)...)
	f.pos += k
	if err != nil {
		return k, fail("write", f.name, err)
	}
	if k < len(b) {
		return k, io.ErrShortWrite
	}
	return k, nil
}

func tail(b []byte, i int) []byte {
	if i >= len(b) {
		return nil
	}
	return b[i:]
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	save := f.pos
	f.pos = int(off)
	if f.node != nil && f.pos > len(f.node.Data) {
		f.pos = len(f.node.Data)
	}
	n, err := io.ReadFull(readerOnly{f}, b)
	f.pos = save
	if err == io.ErrUnexpectedEOF {
		err = io.EOF
	}
	return n, err
}

type readerOnly struct{ io.Reader }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	save := f.pos
	f.pos = int(off)
	n, err := f.Write(b)
	f.pos = save
	return n, err
}

func (f *File) Seek(offset int64, whence int) (int64, error) {
	if f.closed {
		return 0, fail("seek", f.name, fs.ErrClosed)
	}
	if f.node == nil {
		return 0, fail("seek", f.name, errSeek)
	}
	switch whence {
	case 1:
		offset += int64(f.pos)
	case 2:
		offset += int64(len(f.node.Data))
	}
	if offset < 0 {
		return 0, fail("seek", f.name, fs.ErrInvalid)
	}
	f.pos = int(offset)
	if f.pos > len(f.node.Data) && f.flag&(O_WRONLY|O_RDWR) == 0 {
		f.pos = len(f.node.Data)
	}
	return offset, nil
}

func (f *File) Close() error {
	if f == nil {
		return fs.ErrInvalid
	}
	if f.closed {
		return fail("close", f.name, fs.ErrClosed)
	}
	f.closed = true
	_, err := ask("close", f.name, 0)
	return fail("close", f.name, err)
}

func (f *File) Sync() error {
	_, err := ask("sync", f.name, 0)
	return fail("sync", f.name, err)
}

func (f *File) Truncate(size int64) error {
	if f.node == nil {
		return fail("truncate", f.name, fs.ErrInvalid)
	}
	if _, err := ask("truncate", f.name, 0); err != nil {
		return fail("truncate", f.name, err)
	}
	for int64(len(f.node.Data)) < size {
		f.node.Data = append(f.node.Data, 0)
	}
	f.node.Data = f.node.Data[:size]
	return nil
}

func (f *File) Stat() (FileInfo, error) {
	if _, err := ask("stat", f.name, 0); err != nil {
		return nil, fail("stat", f.name, err)
	}
	if f.node == nil {
		return info{path.Base(f.name), &Node{mode: fs.ModeCharDevice | 0o666}}, nil
	}
	return info{path.Base(f.name), f.node}, nil
}

func (f *File) Chmod(FileMode) error        { return nil }
func (f *File) SetDeadline(time.Time) error { return ErrNoDeadline }

type info struct {
	name string
	n    *Node
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return int64(len(i.n.Data)) }
func (i info) Mode() fs.FileMode  { return i.n.mode }
func (i info) ModTime() time.Time { return i.n.mod }
func (i info) IsDir() bool        { return i.n.dir }
func (i info) Sys() interface{}   { return nil }

func Stat(name string) (FileInfo, error) {
	if _, err := ask("stat", name, 0); err != nil {
		return nil, fail("stat", name, err)
	}
	n, ok := disk[clean(name)]
	if !ok {
		return nil, fail("stat", name, fs.ErrNotExist)
	}
	return info{path.Base(name), n}, nil
}

func Lstat(name string) (FileInfo, error) { return Stat(name) }

func Remove(name string) error {
	if _, err := ask("remove", name, 0); err != nil {
		return fail("remove", name, err)
	}
	if _, ok := disk[clean(name)]; !ok {
		return fail("remove", name, fs.ErrNotExist)
	}
	delete(disk, clean(name))
	return nil
}

func RemoveAll(name string) error {
	if _, err := ask("remove", name, 0); err != nil {
		return fail("remove", name, err)
	}
	key := clean(name)
	for n := range disk {
		if n == key || strings.HasPrefix(n, key+"/") {
			delete(disk, n)
		}
	}
	return nil
}

func Rename(from, to string) error {
	if _, err := ask("rename", to, 0); err != nil {
		return fail("rename", from, err)
	}
	n, ok := disk[clean(from)]
	if !ok {
		return fail("rename", from, fs.ErrNotExist)
	}
	if there, ok := disk[clean(to)]; ok && there.dir && !n.dir {
		return fail("rename", from, fs.ErrExist)
	}
	if parent, ok := disk[path.Dir(clean(to))]; !ok || !parent.dir {
		return fail("rename", from, fs.ErrNotExist)
	}
	delete(disk, clean(from))
	disk[clean(to)] = n
	return nil
}

func Mkdir(name string, perm FileMode) error {
	if _, ok := disk[clean(name)]; ok {
		return fail("mkdir", name, fs.ErrExist)
	}
	return MkdirAll(name, perm)
}

func MkdirAll(name string, perm FileMode) error {
	if _, err := ask("mkdir", name, 0); err != nil {
		return fail("mkdir", name, err)
	}
	for d := clean(name); ; d = path.Dir(d) {
		if _, ok := disk[d]; !ok {
			disk[d] = &Node{dir: true, mode: fs.ModeDir | perm}
		}
		if d == "/" || d == "." {
			return nil
		}
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	name := tempName(dir, pattern)
	return name, MkdirAll(name, 0o700)
}

func tempName(dir, pattern string) string {
	if dir == "" {
		dir = TempDir()
	}
	before, after := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		before, after = pattern[:i], pattern[i+1:]
	}
	for {
		tempCount++
		name := path.Join(dir, fmt.Sprintf("%s%07d%s", before, tempCount, after))
		if _, ok := disk[clean(name)]; !ok {
			return name
		}
	}
}

func CreateTemp(dir, pattern string) (*File, error) {
	return OpenFile(tempName(dir, pattern), O_RDWR|O_CREATE|O_EXCL, 0o600)
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if cerr := f.Close(); cerr != nil && err == nil {
		err = cerr
	}
	return err
}

func Truncate(name string, size int64) error {
	n, ok := disk[clean(name)]
	if !ok {
		return fail("truncate", name, fs.ErrNotExist)
	}
	return (&File{name: name, node: n}).Truncate(size)
}

func Chmod(string, FileMode) error                  { return nil }
func Chtimes(string, time.Time, time.Time) error    { return nil }
func Getwd() (string, error)                        { return "/home/sim", nil }
func Chdir(string) error                            { return nil }
func TempDir() string                               { return "/tmp" }
func UserHomeDir() (string, error)                  { return "/home/sim", nil }
func Hostname() (string, error)                     { return "sim", nil }
func Executable() (string, error)                   { return "/bin/rap-cli", nil }
func Getpid() int                                   { return 100 }
func Getuid() int                                   { return 1000 }
func Getenv(k string) string                        { return env[k] }
func LookupEnv(k string) (string, bool)             { v, ok := env[k]; return v, ok }
func Setenv(k, v string) error                      { env[k] = v; return nil }
func Unsetenv(k string) error                       { delete(env, k); return nil }
func Environ() []string                             { return nil }
func ExpandEnv(s string) string                     { return os.Expand(s, Getenv) }
func Expand(s string, f func(string) string) string { return os.Expand(s, f) }
func SameFile(a, b FileInfo) bool                   { return a == b }

// Exit ends the simulated process.
func Exit(code int) { panic(ExitPanic{code}) }
