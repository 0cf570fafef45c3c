package main

// A bound on memory: an analysis that grows too large is given up, not the process.

import (
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sync/atomic"
	"time"
)

var memHigh atomic.Bool

const memLimit = 8 << 30

func watchMemory() {
	debug.SetMemoryLimit(memLimit - memLimit/4) // collect before the bound is reached
	go func() {
		s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
		for {
			time.Sleep(20 * time.Millisecond)
			metrics.Read(s)
			if s[0].Value.Uint64() > memLimit {
				memHigh.Store(true)
			}
		}
	}()
}

// settleMemory is called between units of work.
func settleMemory() {
	if !memHigh.Load() {
		return
	}
	productCache = map[dfaPair]*DFA{}
	concatCache = map[string]*DFA{}
	boxCache = map[string]*DFA{}
	infixCache = map[[4]int]*DFA{}
	memoDFAs = map[string]*DFA{}
	splitCache = map[splitKey]splitVal{}
	interned = map[string]*DFA{}
	runtime.GC()
	memHigh.Store(false)
}
