package venv

import "syscall"

func Getrusage(who int, r *syscall.Rusage) error {
	if g := get().Rusage; g != nil {
		return g(who, r)
	}
	return syscall.Getrusage(who, r)
}
