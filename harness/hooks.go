package main

import (
	"sync"

	"github.com/thesues/cannyls-go/nvm"
)

// hookFn is the device callback of the running case.
var hookMu sync.RWMutex
var hookFn func(io *nvm.VerifIO) error

func init() {
	nvm.VerifHook = func(io *nvm.VerifIO) error {
		hookMu.RLock()
		f := hookFn
		hookMu.RUnlock()
		if f == nil {
			return nil
		}
		return f(io)
	}
}

func setHook(f func(io *nvm.VerifIO) error) {
	hookMu.Lock()
	hookFn = f
	hookMu.Unlock()
}

func resetHooks() { setHook(nil) }
