package main

import "syscall"

const odirect = syscall.O_DIRECT

// a worker of which the code under test wants endless memory must not use up all there is
func limitMemory(n uint64) {
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: n, Max: n})
}
