package signal

import "github.com/innerr/ticat/zsim/shim/os"

func Notify(c chan<- os.Signal, sig ...os.Signal) {}
func Stop(c chan<- os.Signal)                      {}
func Ignore(sig ...os.Signal)                      {}
func Reset(sig ...os.Signal)                       {}
