// Package venv replaces answers of the environment by scripted ones.
package venv

import (
	"errors"
	"os"
	"runtime"
	"runtime/debug"
	"syscall"
	"time"
)

// Env holds scripted answers; nil ones are the real ones.
type Env struct {
	GC         func(*debug.GCStats)
	Mem        func(*runtime.MemStats)
	Goroutines func() int
	Rusage     func(who int, r *syscall.Rusage) error
	File       func(name string) (data []byte, err error, ok bool)
}

// read without synchronisation by the one running thread
var env Env

// Script installs scripted answers.
//
//go:norace
func Script(e Env) { env = e }

//go:norace
func get() Env { return env }

func ReadGCStats(s *debug.GCStats) {
	if g := get().GC; g != nil {
		g(s)
		return
	}
	debug.ReadGCStats(s)
}

func ReadMemStats(s *runtime.MemStats) {
	if g := get().Mem; g != nil {
		g(s)
		return
	}
	runtime.ReadMemStats(s)
}

func NumGoroutine() int {
	if g := get().Goroutines; g != nil {
		return g()
	}
	return runtime.NumGoroutine()
}

func ReadFile(name string) ([]byte, error) {
	if f := get().File; f != nil {
		if d, err, ok := f(name); ok {
			return d, err
		}
	}
	return os.ReadFile(name)
}

// ErrPartial makes Open give a file that fails after the scripted content.
var ErrPartial = errors.New("partial")

var held []*os.File

// CloseHeld closes what partial files have kept open.
func CloseHeld() {
	for _, f := range held {
		f.Close()
	}
	held = nil
}

// Open gives scripted content through a pipe.
func Open(name string) (*os.File, error) {
	if f := get().File; f != nil {
		if d, err, ok := f(name); ok {
			part := err == ErrPartial
			if err != nil && !part {
				return nil, err
			}
			r, w, err := os.Pipe()
			if err != nil {
				return nil, err
			}
			w.Write(d) // far less than a pipe holds
			if part {
				held = append(held, w)
				r.SetReadDeadline(time.Now().Add(10 * time.Millisecond))
				return r, nil
			}
			w.Close()
			return r, nil
		}
	}
	return os.Open(name)
}

// OpenFile is Open for reading.
func OpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	if f := get().File; f != nil {
		if _, _, ok := f(name); ok {
			return Open(name)
		}
	}
	return os.OpenFile(name, flag, perm)
}

func ReadDir(name string) ([]os.DirEntry, error) {
	if f := get().File; f != nil {
		if _, err, ok := f(name); ok && err != nil {
			return nil, err
		}
	}
	return os.ReadDir(name)
}

// ReadDirInfo stands for ioutil.ReadDir.
func ReadDirInfo(name string) (out []os.FileInfo, err error) {
	es, err := ReadDir(name)
	if err != nil {
		return nil, err
	}
	for _, e := range es {
		if i, err := e.Info(); err == nil {
			out = append(out, i)
		}
	}
	return out, nil
}
