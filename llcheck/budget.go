package main

import (
	"fmt"
	"runtime"
	"sync/atomic"
	"time"
)

// A check that would take too long, or too much memory, gives up: what it
// could not decide is reported, as it is not known to hold.

const (
	budgetTime = 9 * time.Minute
	budgetHeap = 14 << 30
)

var spent atomic.Pointer[string]

func burnt() {
	if s := spent.Load(); s != nil {
		panic(abort{*s})
	}
}

// watch sets spent once the budget is used up, until it is told to stop.
func watch() (stop func()) {
	spent.Store(nil)
	quit := make(chan bool)
	t0 := time.Now()
	go func() {
		t := time.NewTicker(200 * time.Millisecond)
		defer t.Stop()
		for {
			select {
			case <-quit:
				return
			case <-t.C:
				var m runtime.MemStats
				runtime.ReadMemStats(&m)
				var s string
				if time.Since(t0) > budgetTime {
					s = fmt.Sprintf("not decided in %v", budgetTime)
				} else if m.HeapAlloc > budgetHeap {
					s = fmt.Sprintf("not decided with %d GB of memory", budgetHeap>>30)
				} else {
					continue
				}
				spent.Store(&s)
			}
		}
	}()
	return func() { close(quit); spent.Store(nil) }
}
