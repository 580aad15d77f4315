// Command mc model-checks aarondl/bpass; see /verif/DESIGN.md.
package main

import (
	"os"
	"os/signal"
	"syscall"
	"testing"

	"bpassmc/checks"
	"bpassmc/core"
)

func main() {
	if checks.PinMain() {
		return
	}
	if len(os.Args) == 4 && os.Args[1] == "fresh-child" {
		checks.FreshChild(os.Args[2], os.Args[3])
		return
	}
	// what is ignored here would be ignored in the programs that are run, too
	for _, sig := range []os.Signal{syscall.SIGINT, syscall.SIGHUP, syscall.SIGTERM, syscall.SIGQUIT, syscall.SIGPIPE} {
		if signal.Ignored(sig) {
			signal.Notify(make(chan os.Signal, 1), sig)
		}
	}
	if len(os.Args) > 1 && os.Args[1] == "C17" {
		testing.Main(func(pat, str string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "C17", F: func(t *testing.T) {
			checks.ClockT = t
			core.Main()
		}}}, nil, nil)
	}
	core.Main()
}
