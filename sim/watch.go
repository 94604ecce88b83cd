package main

import (
	"bytes"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// The watch notices when the goroutine that is to run stands still in the
// library, waiting for a lock or a channel. If the holder of the lock is another
// task, that one is scheduled; if there is nobody left, it is a deadlock.
var watch struct {
	goid    atomic.Int64 // who is to run, 0: nobody
	beat    atomic.Uint64
	charge  atomic.Bool // a scheduler wants to hear of it
	started atomic.Bool
}

// stuck tells the scheduler in charge that the task with the baton stands still.
var stuck = make(chan struct{}, 1)

const (
	watchTick = 40 * time.Millisecond
	deadAfter = 4 * time.Second
)

// goid is the number of the calling goroutine.
func goid() int64 {
	var b [64]byte
	f := bytes.Fields(b[:runtime.Stack(b[:], false)])
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(string(f[1]), 10, 64)
	return n
}

// waits tells what a goroutine waits for in the library, "" if it does not, and
// where.
func waits(id int64) (string, string) {
	b := make([]byte, 1<<18)
	for {
		n := runtime.Stack(b, true)
		if n < len(b) {
			b = b[:n]
			break
		}
		b = make([]byte, 2*len(b))
	}
	head := "goroutine " + strconv.FormatInt(id, 10) + " [" // no fmt: its pool would look like a race
	what, where := "", ""
	for _, g := range strings.Split(string(b), "\n\n") {
		st, lib, yields := stateOf(g)
		if len(lib) == 0 || yields {
			continue
		}
		waiting := false
		for _, w := range []string{"sync.", "semacquire", "chan ", "select"} {
			waiting = waiting || strings.HasPrefix(st, w)
		}
		if !waiting {
			return "", "" // the library is at work, if only in a helper
		}
		if strings.HasPrefix(g, head) {
			what, where = st, strings.Join(lib, " < ")
		}
	}
	return what, where
}

// stateOf takes a goroutine's stack apart: its state, the innermost functions of
// the library on it, and whether it stands at a seam.
func stateOf(g string) (string, []string, bool) {
	i, j := strings.IndexByte(g, '['), strings.IndexByte(g, ']')
	if i < 0 || j < i {
		return "", nil, false
	}
	st, _, _ := strings.Cut(g[i+1:j], ",")
	var lib []string
	for _, l := range strings.Split(g, "\n")[1:] {
		if strings.HasPrefix(l, "main.(*simTask).yield(") {
			return st, nil, true
		}
		if strings.HasPrefix(l, "github.com/") && len(lib) < 5 {
			l = l[strings.LastIndexByte(l, '/')+1:]
			if k := strings.LastIndex(l, "(0x"); k > 0 {
				l = l[:k]
			}
			lib = append(lib, l)
		}
	}
	return st, lib, false
}

func startWatch() {
	if watch.started.Swap(true) {
		return
	}
	go func() {
		raceOff()
		var beat uint64
		still := time.Duration(0)
		for {
			time.Sleep(watchTick)
			id, b := watch.goid.Load(), watch.beat.Load()
			if id == 0 || b != beat {
				beat, still = b, 0
				continue
			}
			still += watchTick
			if still < 2*watchTick || still > 1*time.Second && still%(10*watchTick) != 0 {
				continue
			}
			st, where := waits(id)
			if st == "" || watch.beat.Load() != b {
				continue
			}
			if watch.charge.Load() {
				select {
				case stuck <- struct{}{}:
				default:
				}
				continue
			}
			if still >= deadAfter {
				deadlock(st, where)
			}
		}
	}()
}

var deadCode = 67

// deadlock ends the process: nothing that waits in the library will go on.
func deadlock(st, where string) {
	fmt.Fprintf(os.Stderr, "deadlock: waiting for ever (%s) in %s\n", st, where)
	os.Exit(deadCode)
}

// watched marks the calling goroutine as the one that is to run.
func watched(f func()) {
	watch.beat.Add(1)
	watch.goid.Store(goid())
	defer watch.goid.Store(0)
	f()
}
