package main

import (
	"os"
	"runtime"

	"verif/mc/eng"
	"verif/mc/props"
)

// the helper that is traced does all its work in one thread
func init() { runtime.LockOSThread() }

func main() {
	if len(os.Args) > 1 && props.Helpers[os.Args[1]] != nil {
		props.Helpers[os.Args[1]](os.Args[2:])
		return
	}
	runtime.UnlockOSThread()
	eng.Main()
}
