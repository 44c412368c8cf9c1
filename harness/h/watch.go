package h

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"
)

// The watchdog tells a case that never ends from a slow machine: it counts its own ticks, during
// which the process was running, and the processor time used, not the time of day alone.

var watch struct {
	sync.Mutex
	once sync.Once
	cur  *C
}

const (
	tick      = 5 * time.Second
	idleTicks = 12  // a minute in which the process did next to nothing
	endless   = 150 // seconds of processor time in one case
)

func cpu() time.Duration {
	var u syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &u) != nil {
		return 0
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func watching(c *C) {
	watch.Lock()
	watch.cur = c
	watch.Unlock()
	watch.once.Do(func() { go watchdog() })
}

func watchdog() {
	var seen *C
	var began, last time.Duration
	idle := 0
	for {
		time.Sleep(tick)
		now := cpu()
		watch.Lock()
		cur := watch.cur
		watch.Unlock()
		if cur == nil || cur != seen {
			seen, began, last, idle = cur, now, now, 0
			continue
		}
		if now-last < 50*time.Millisecond {
			idle++
		} else {
			idle = 0
		}
		last = now
		if idle < idleTicks && now-began < endless*time.Second {
			continue
		}
		cur.mu.Lock()
		trace := strings.Join(cur.trace, "\n  ")
		cur.mu.Unlock()
		buf := make([]byte, 1<<16)
		buf = buf[:runtime.Stack(buf, true)]
		fmt.Printf("VERIF-HANG: the case does not end: idle for %v, %v of processor time\n  %s\n%s\n", time.Duration(idle)*tick, now-began, trace, buf)
		os.Exit(1)
	}
}
