//go:build unix

package main

import (
	"os/exec"
	"syscall"
)

// asUser makes the command run as another user; 0 stands for this one.
func asUser(cmd *exec.Cmd, uid uint32) {
	if uid != 0 {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: uid, Gid: uid}}
	}
}
