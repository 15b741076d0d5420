// Package fmt prints to the captured standard output.
package fmt

import (
	orig "fmt"

	"github.com/ftl/sdrainer/zzverif/shim/os"
)

func Print(a ...any) (int, error)                 { return orig.Fprint(os.Stdout, a...) }
func Printf(format string, a ...any) (int, error) { return orig.Fprintf(os.Stdout, format, a...) }
func Println(a ...any) (int, error)               { return orig.Fprintln(os.Stdout, a...) }
