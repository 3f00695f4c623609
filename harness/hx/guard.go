package hx

import (
	"runtime/debug"
	"sync"
	"syscall"
)

const guardSize = 64 << 10

var guard struct {
	sync.Mutex
	ring [][]byte
	next int
	off  bool
}

// Guarded copies b to memory that ends where inaccessible memory begins, so
// that reading behind b is a fault. The copy is good until a few hundred more
// were made; long inputs are copied to ordinary memory. Faults of the calling
// goroutine become panics.
func Guarded(b []byte) []byte {
	debug.SetPanicOnFault(true)
	guard.Lock()
	defer guard.Unlock()
	if len(b) > guardSize || guard.off {
		return append([]byte{}, b...)
	}
	if len(guard.ring) < 512 {
		page := syscall.Getpagesize()
		m, err := syscall.Mmap(-1, 0, guardSize+page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
		if err == nil {
			err = syscall.Mprotect(m[guardSize:], syscall.PROT_NONE)
		}
		if err != nil {
			guard.off = true
			return append([]byte{}, b...)
		}
		guard.ring = append(guard.ring, m)
	}
	guard.next = (guard.next + 1) % 512
	if guard.next >= len(guard.ring) {
		guard.next = 0
	}
	m := guard.ring[guard.next]
	out := m[guardSize-len(b) : guardSize : guardSize]
	copy(out, b)
	return out
}
