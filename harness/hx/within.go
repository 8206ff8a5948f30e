package hx

import (
	"fmt"
	"runtime"
	"sync/atomic"
	"time"
)

// Patience is how long something that takes microseconds may take before it is
// believed to never end.
//
// Once a case has failed that took this long, the search for a smaller one that
// fails the same way has less of it, so that it ends in time; what it finds is
// no more than another way to show the violation.
func Patience() time.Duration {
	at := atomic.LoadInt64(&slowFailure)
	if at == 0 {
		return patience
	}
	switch d := time.Since(time.Unix(0, at)); {
	case d < 30*time.Second:
		return patience / 10
	case d < 90*time.Second:
		return patience / 40
	default:
		return patience / 400
	}
}

const patience = 20 * time.Second

// slowFailure is when a case of the running Check first failed slowly, or 0.
var slowFailure int64

// Within runs f, which should return at once, and says whether it did. A panic
// in f is passed on. When it did not return, the stacks of all goroutines are
// returned.
func Within(f func()) (stacks string, ok bool) {
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case p := <-done:
		if p != nil {
			panic(fmt.Sprint(p))
		}
		return "", true
	case <-time.After(Patience()):
		buf := make([]byte, 1<<15)
		return string(buf[:runtime.Stack(buf, true)]), false
	}
}

// Eventually polls cond until it holds, and says whether it did.
func Eventually(cond func() bool) bool {
	end := time.Now().Add(Patience())
	for wait := 10 * time.Microsecond; ; wait *= 2 {
		if cond() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		if wait > 20*time.Millisecond {
			wait = 20 * time.Millisecond
		}
		time.Sleep(wait)
	}
}
