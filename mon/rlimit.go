package main

import (
	"syscall"
	"unsafe"
)

// setCPULimit bounds the CPU seconds of a running child (prlimit64)
func setCPULimit(pid int, sec uint64) {
	lim := [2]uint64{sec, sec + 5}
	syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(pid), uintptr(syscall.RLIMIT_CPU), uintptr(unsafe.Pointer(&lim[0])), 0, 0, 0)
}
