package log

import (
	"io"
	rl "log"

	"github.com/innerr/ticat/zsim/rt"
	"github.com/innerr/ticat/zsim/shim/os"
)

type stderr struct{}

func (stderr) Write(b []byte) (int, error) { return os.GetStderr().Write(b) }

func l() *rl.Logger {
	return *rt.PV("log.std", func() *rl.Logger { return rl.New(stderr{}, "", 0) })
}
func Default() *rl.Logger              { return l() }
func SetOutput(w io.Writer)            { l().SetOutput(w) }
func SetFlags(int)                     {}
func SetPrefix(p string)               { l().SetPrefix(p) }
func Print(a ...interface{})           { l().Print(a...) }
func Println(a ...interface{})         { l().Println(a...) }
func Printf(f string, a ...interface{}) { l().Printf(f, a...) }
func Fatal(a ...interface{})           { l().Print(a...); os.Exit(1) }
func Fatalln(a ...interface{})         { l().Println(a...); os.Exit(1) }
func Fatalf(f string, a ...interface{}) { l().Printf(f, a...); os.Exit(1) }
func Panic(a ...interface{})           { l().Panic(a...) }
func Panicf(f string, a ...interface{}) { l().Panicf(f, a...) }
