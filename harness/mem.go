package main

import (
	"os"
	"runtime"
	"time"
)

const memLimit = 14 << 30

// watchMemory ends the process when the heap runs away, so that the driver can
// tell which case did it.
func watchMemory() {
	for {
		time.Sleep(200 * time.Millisecond)
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > memLimit {
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			os.Stderr.WriteString("vh: memory limit exceeded\n")
			os.Stderr.Write(buf[:n])
			os.Exit(97)
		}
	}
}
