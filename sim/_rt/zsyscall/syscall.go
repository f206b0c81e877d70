// Package zsyscall stands in for package syscall.
package zsyscall

import (
	"syscall"

	"robpike.io/ivy/zzsim"
)

func Getrusage(who int, ru *syscall.Rusage) error {
	u, s := zzsim.CPU()
	*ru = syscall.Rusage{}
	ru.Utime = syscall.NsecToTimeval(u)
	ru.Stime = syscall.NsecToTimeval(s)
	return nil
}
