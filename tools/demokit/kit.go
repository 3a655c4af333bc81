// Package kit runs a demonstration under virtual time.
package kit

import (
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/childe/healer"
	"github.com/go-logr/logr"
)

var failed atomic.Bool

// Fail records a failure of the demonstration.
func Fail(f string, a ...any) {
	failed.Store(true)
	fmt.Printf("FAIL: "+f+"\n", a...)
}

// Run runs f under virtual time and exits: 0 if nothing failed.
func Run(f func()) {
	healer.SetLogger(logr.Discard())
	func() {
		defer func() {
			if e := recover(); e != nil && !strings.Contains(fmt.Sprint(e), "main bubble goroutine has exited") {
				Fail("%v", e)
			}
		}()
		synctest.Run(func() {
			defer func() {
				if e := recover(); e != nil {
					Fail("panic: %v\n%s", e, debug.Stack())
				}
			}()
			f()
		})
	}()
	if failed.Load() {
		os.Exit(1)
	}
	fmt.Println("ok")
	os.Exit(0)
}

// Within runs f and reports whether it returned within d of virtual time.
func Within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}
