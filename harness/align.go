package main

import "unsafe"

// alignOffset is the distance from the start of b to the next 512-byte boundary in memory.
func alignOffset(b []byte) int {
	a := int(uintptr(unsafe.Pointer(&b[0])) & 511)
	if a == 0 {
		return 0
	}
	return 512 - a
}
