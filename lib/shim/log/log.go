// Package log discards messages; Fatal is the end of the program and therefore a crash.
package log

import (
	"fmt"
	"io"
	orig "log"

	"github.com/ftl/sdrainer/zzverif/vsched"
)

func note(s string) {
	if vsched.Tracing() {
		vsched.TraceNote("log: " + s)
	}
}

func Print(v ...any)                 { note(fmt.Sprint(v...)) }
func Printf(format string, v ...any) { note(fmt.Sprintf(format, v...)) }
func Println(v ...any)               { note(fmt.Sprintln(v...)) }

func Fatal(v ...any)                 { fatal("log.Fatal", fmt.Sprint(v...)) }
func Fatalf(format string, v ...any) { fatal("log.Fatalf", fmt.Sprintf(format, v...)) }
func Fatalln(v ...any)               { fatal("log.Fatalln", fmt.Sprintln(v...)) }

// OnFatal is told about the end of the program, if the harness takes care of it.
var OnFatal func(msg string)

var exit vsched.Obj

func fatal(how, msg string) {
	if OnFatal == nil {
		vsched.Crash("exit", "%s: %s", how, msg)
	}
	vsched.Point("exit", &exit, true, func() { OnFatal(msg) })
	vsched.Block("dead", &exit, func() bool { return false }, nil)
}

func Panic(v ...any)                 { panic(fmt.Sprint(v...)) }
func Panicf(format string, v ...any) { panic(fmt.Sprintf(format, v...)) }
func Panicln(v ...any)               { panic(fmt.Sprintln(v...)) }

// Logger is a logger of the program; all of them behave as the standard logger.
type Logger struct {
	prefix string
	flags  int
	out    io.Writer
}

var std = &Logger{}

func Default() *Logger                                    { return std }
func New(out io.Writer, prefix string, flags int) *Logger { return &Logger{prefix, flags, out} }
func (l *Logger) Print(v ...any)                          { Print(v...) }
func (l *Logger) Printf(format string, v ...any)          { Printf(format, v...) }
func (l *Logger) Println(v ...any)                        { Println(v...) }
func (l *Logger) Fatal(v ...any)                          { Fatal(v...) }
func (l *Logger) Fatalf(format string, v ...any)          { Fatalf(format, v...) }
func (l *Logger) Fatalln(v ...any)                        { Fatalln(v...) }
func (l *Logger) Panic(v ...any)                          { Panic(v...) }
func (l *Logger) Panicf(format string, v ...any)          { Panicf(format, v...) }
func (l *Logger) Panicln(v ...any)                        { Panicln(v...) }
func (l *Logger) SetPrefix(prefix string)                 { l.prefix = prefix }
func (l *Logger) Prefix() string                          { return l.prefix }
func (l *Logger) SetFlags(flags int)                      { l.flags = flags }
func (l *Logger) Flags() int                              { return l.flags }
func (l *Logger) SetOutput(w io.Writer)                   { l.out = w }
func (l *Logger) Writer() io.Writer                       { return io.Discard }
func (l *Logger) Output(calldepth int, s string) error    { note(s); return nil }
func Output(calldepth int, s string) error                { note(s); return nil }
func Writer() io.Writer                                   { return io.Discard }

var _ = orig.Printf
