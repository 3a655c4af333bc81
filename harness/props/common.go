// Package props holds the executable properties.
package props

import (
	"bytes"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"testing/synctest"
	"time"

	"github.com/childe/healer"
	"github.com/go-logr/logr"
	"github.com/go-logr/logr/funcr"

	"verif/kafka"
	"verif/memnet"
	"verif/pbt"
	"verif/wire"
)

func init() {
	if os.Getenv("VERIF_HEALER_LOG") != "" {
		healer.SetLogger(funcr.New(func(p, a string) { fmt.Fprintln(os.Stderr, time.Now().Format("05.000"), p, a) }, funcr.Options{Verbosity: 9}))
	} else {
		healer.SetLogger(logr.Discard())
	}
}

// bubble runs f under virtual time. Goroutines of the library that outlive f are abandoned.
func bubble(r *pbt.R, f func()) {
	defer func() {
		if e := recover(); e != nil {
			s := fmt.Sprint(e)
			if strings.Contains(s, "deadlock: main bubble goroutine has exited") {
				return
			}
			if strings.Contains(s, "deadlock") {
				r.Fail("deadlock", "all goroutines blocked for ever: %v", s)
				return
			}
			panic(e)
		}
	}()
	synctest.Run(func() {
		defer func() {
			if e := recover(); e != nil {
				r.Fail("panic", "panic in the caller's goroutine: %v\n%s", e, debug.Stack())
			}
		}()
		f()
	})
}

// within runs f in a goroutine and waits at most d of virtual time; false if it did not return.
func within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-done:
		return true
	case <-t.C:
		return false
	}
}

// within with panic capture.
func guarded(r *pbt.R, what string, d time.Duration, f func()) bool {
	return within(d, func() {
		defer func() {
			if e := recover(); e != nil {
				r.Fail("panic", "panic in %s: %v\n%s", what, e, debug.Stack())
			}
		}()
		f()
	})
}

// noteHistory attaches the request history to a failed case.
func noteHistory(r *pbt.R, c *kafka.Cluster) {
	if r.Failed() {
		for _, l := range c.Describe(80) {
			r.Note("%s", l)
		}
		for _, e := range c.ProtoErrs {
			r.Note("protocol error: %s", e)
		}
	}
}

func q(b []byte) string {
	if b == nil {
		return "null"
	}
	if len(b) > 40 {
		return fmt.Sprintf("%q...(%d bytes)", b[:40], len(b))
	}
	return fmt.Sprintf("%q", b)
}

func sameBytes(a, b []byte) bool { return (a == nil) == (b == nil) && bytes.Equal(a, b) }

func recStr(r wire.Rec) string {
	return fmt.Sprintf("offset %d ts %d key %s value %s headers %d", r.Offset, r.TS, q(r.Key), q(r.Value), len(r.Headers))
}

// until polls cond every step of virtual time until d passed.
func until(d, step time.Duration, cond func() bool) bool {
	end := time.Now().Add(d)
	for !cond() {
		if !time.Now().Before(end) {
			return false
		}
		time.Sleep(step)
	}
	return true
}

func dialRefused() error { return memnet.ErrRefused }
func dialTimeout() error { return memnet.ErrDialTimeout }

// libraryGoroutines returns the stacks of the goroutines of this case that run code of the library.
func libraryGoroutines() (r []string) {
	buf := make([]byte, 1<<16)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	gs := strings.Split(string(buf), "\n\n")
	bubble := func(s string) string { // named in the first line
		s, _, _ = strings.Cut(s, "\n")
		_, s, ok := strings.Cut(s, "synctest bubble ")
		s, _, _ = strings.Cut(s, "]")
		if !ok {
			return "none"
		}
		s, _, _ = strings.Cut(s, ",")
		return s
	}
	own := bubble(gs[0]) // the caller comes first
	for _, g := range gs[1:] {
		if bubble(g) == own && strings.Contains(g, "github.com/childe/healer.") {
			r = append(r, g)
		}
	}
	return
}
