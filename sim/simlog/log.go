// Package simlog stands in for package log: the standard logger writes to the
// simulated standard error and Fatal ends the simulated process.
package simlog

import (
	"fmt"
	"io"
	"log"

	"github.com/recolude/rap/verifsim/simos"
)

type Logger = log.Logger

const (
	Ldate         = log.Ldate
	Ltime         = log.Ltime
	Lmicroseconds = log.Lmicroseconds
	Llongfile     = log.Llongfile
	Lshortfile    = log.Lshortfile
	LUTC          = log.LUTC
	Lmsgprefix    = log.Lmsgprefix
	LstdFlags     = log.LstdFlags
)

func New(w io.Writer, prefix string, flag int) *Logger { return log.New(w, prefix, 0) }

type stderr struct{}

func (stderr) Write(b []byte) (int, error) { return simos.Stderr.Write(b) }

var std = log.New(stderr{}, "", 0)

func Default() *Logger                  { return std }
func SetFlags(int)                      {}
func SetPrefix(p string)                { std.SetPrefix(p) }
func SetOutput(w io.Writer)             { std.SetOutput(w) }
func Writer() io.Writer                 { return std.Writer() }
func Flags() int                        { return 0 }
func Prefix() string                    { return std.Prefix() }
func Print(v ...interface{})            { std.Print(v...) }
func Println(v ...interface{})          { std.Println(v...) }
func Printf(f string, v ...interface{}) { std.Printf(f, v...) }

func Fatal(v ...interface{})               { std.Print(v...); simos.Exit(1) }
func Fatalln(v ...interface{})             { std.Println(v...); simos.Exit(1) }
func Fatalf(f string, v ...interface{})    { std.Printf(f, v...); simos.Exit(1) }
func Panic(v ...interface{})               { s := fmt.Sprint(v...); std.Print(s); panic(s) }
func Panicln(v ...interface{})             { s := fmt.Sprintln(v...); std.Print(s); panic(s) }
func Panicf(f string, v ...interface{})    { s := fmt.Sprintf(f, v...); std.Print(s); panic(s) }
func Output(calldepth int, s string) error { std.Print(s); return nil }
