package main

import (
	"os"
	"os/signal"
	"strconv"
	"syscall"

	"github.com/thesues/cannyls-go/address"
)

func itoa(i int) string { return strconv.Itoa(i) }

func addrOf(n uint64) address.Address { return address.AddressFromU64(n) }

func mustMkdir(d string) {
	if err := os.MkdirAll(d, 0755); err != nil {
		harnessFail(err)
	}
}

func mustRemove(d string) { os.RemoveAll(d) }

func init() { signal.Ignore(syscall.SIGXFSZ) } // a write beyond the file size limit only fails

// limitFiles lets no file of this process grow beyond n bytes (0: no limit), as if the disk were full.
func limitFiles(n int) {
	var l syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		harnessFail(err)
	}
	l.Cur = l.Max
	if n > 0 {
		l.Cur = min(l.Max, uint64(n))
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		harnessFail(err)
	}
}
