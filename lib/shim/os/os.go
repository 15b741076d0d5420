// Package os captures the standard output.
package os

import (
	"io"
	orig "os"

	"github.com/ftl/sdrainer/zzverif/vsched"
)

type StdFile struct{ name string }

// File is the type of the standard streams; the program opens no files.
type File = StdFile

func (f *StdFile) Read(b []byte) (int, error) { return 0, io.EOF }

var Stdin = &StdFile{"stdin"}

var Stdout = &StdFile{"stdout"}
var Stderr = &StdFile{"stderr"}

// OnStdout receives everything the program writes to its standard output.
var OnStdout func(b []byte)

var stdout vsched.Obj

func (f *StdFile) Write(b []byte) (int, error) {
	if f.name == "stdout" && OnStdout != nil && !vsched.Killing() {
		vsched.Point("stdout", &stdout, true, nil)
		OnStdout(b)
	}
	return len(b), nil
}

func (f *StdFile) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *StdFile) Sync() error                       { return nil }
func (f *StdFile) Close() error                      { return nil }
func (f *StdFile) Name() string                      { return f.name }
func (f *StdFile) Fd() uintptr                       { return 1 }

// OnExit is told about the end of the program, if the harness takes care of it.
var OnExit func(code int)

var exit vsched.Obj

func Exit(code int) {
	if OnExit == nil {
		vsched.Crash("exit", "os.Exit(%d)", code)
	}
	vsched.Point("exit", &exit, true, func() { OnExit(code) })
	vsched.Block("dead", &exit, func() bool { return false }, nil)
}

var _ = orig.Exit
