//go:build unix

package main

import (
	"os"
	"syscall"
	"unsafe"
)

// progress file: one 16-byte slot per runner: stage+1 (8 bytes), idx (8 bytes); survives a crash.
type progress struct{ b []byte }

func openProgress(path string, slots int) *progress {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	must(err)
	must(f.Truncate(int64(slots * 16)))
	b, err := syscall.Mmap(int(f.Fd()), 0, slots*16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	must(err)
	f.Close()
	return &progress{b}
}

// guardString places s right against an inaccessible page on both sides (as far as alignment allows).
func guardString(s string, low bool) (string, func()) {
	page := 4096
	n := (len(s)+page-1)/page*page + page
	mem, err := syscall.Mmap(-1, 0, n+2*page, syscall.PROT_NONE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		return s, func() {}
	}
	if err := syscall.Mprotect(mem[page:page+n], syscall.PROT_READ|syscall.PROT_WRITE); err != nil {
		syscall.Munmap(mem)
		return s, func() {}
	}
	off := page + n - len(s)
	if low {
		off = page
	}
	copy(mem[off:], s)
	syscall.Mprotect(mem[page:page+n], syscall.PROT_READ)
	var out string
	if len(s) > 0 {
		out = unsafe.String(&mem[off], len(s))
	}
	return out, func() { syscall.Munmap(mem) }
}
