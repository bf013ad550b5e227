//go:build !spy

package main

import "time"

const spying = false

func envReads() []string { return nil }

func age(s int64) {}

func clockShifted() int64 { return time.Now().Unix() }

func trapCounts() (out [1024]uint32) { return }

var startTraps [1024]uint32
