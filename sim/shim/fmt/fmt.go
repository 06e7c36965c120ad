package fmt

import (
	rf "fmt"

	"github.com/innerr/ticat/zsim/shim/os"
)

func Print(a ...interface{}) (int, error)            { return rf.Fprint(os.GetStdout(), a...) }
func Println(a ...interface{}) (int, error)          { return rf.Fprintln(os.GetStdout(), a...) }
func Printf(f string, a ...interface{}) (int, error) { return rf.Fprintf(os.GetStdout(), f, a...) }
func Scan(a ...interface{}) (int, error)             { return rf.Fscan(os.GetStdin(), a...) }
func Scanln(a ...interface{}) (int, error)           { return rf.Fscanln(os.GetStdin(), a...) }
func Scanf(f string, a ...interface{}) (int, error)  { return rf.Fscanf(os.GetStdin(), f, a...) }
