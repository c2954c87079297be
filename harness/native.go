package main

/*
#include <malloc.h>
static unsigned long long inUse(void) {
	struct mallinfo2 m = mallinfo2();
	return (unsigned long long)m.uordblks + (unsigned long long)m.hblkhd;
}
*/
import "C"

// nativeInUse is the memory allocated outside of Go (the library keeps its index and its free space in such memory).
func nativeInUse() uint64 { return uint64(C.inUse()) }

// nativeTunables make nativeInUse exact: no free memory is parked in per-thread caches.
const nativeTunables = "GLIBC_TUNABLES=glibc.malloc.tcache_count=0:glibc.malloc.arena_max=1"
