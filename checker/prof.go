package main

import (
	"os"
	"runtime/debug"
	"runtime/metrics"
	"runtime/pprof"
	"sync/atomic"
	"time"
)

// memHigh is set while the analyses together hold more memory than they should.
var memHigh atomic.Bool

func watchMemory() {
	debug.SetMemoryLimit(18 << 30)
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for range time.Tick(300 * time.Millisecond) {
		metrics.Read(s)
		memHigh.Store(s[0].Value.Uint64() > 17<<30)
	}
}

// startProfile: development aid.
func startProfile() func() {
	if f := os.Getenv("RPPROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		return pprof.StopCPUProfile
	}
	return func() {}
}
