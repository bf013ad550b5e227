//go:build spy

package main

import (
	"runtime"
	"syscall"
	"time"
)

const spying = true

func envReads() []string { return syscall.VerifEnvReads() }

// age lets seconds pass.
func age(s int64) { time.VerifJump += s }

func clockShifted() int64 { return time.Now().Unix() }

// trapCounts gives the system calls made through the syscall package, by number, and what print has written at index 1023.
func trapCounts() (out [1024]uint32) {
	out = *syscall.VerifTraps()
	out[1023] = uint32(runtime.VerifPrints())
	return
}

// startTraps is what package initialization had done before main.
var startTraps = trapCounts()
