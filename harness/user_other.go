//go:build !unix

package main

import "os/exec"

func asUser(*exec.Cmd, uint32) {}
