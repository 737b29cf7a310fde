package mon

import (
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// threadCPU is the processor time a thread of this process used so far.
func threadCPU(tid int) (time.Duration, bool) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/self/task/%d/stat", tid))
	if err != nil {
		return 0, false
	}
	s := string(b)
	f := strings.Fields(s[strings.LastIndexByte(s, ')')+1:])
	if len(f) < 13 {
		return 0, false
	}
	u, _ := strconv.ParseInt(f[11], 10, 64)
	k, _ := strconv.ParseInt(f[12], 10, 64)
	return time.Duration(u+k) * 10 * time.Millisecond, true
}

// Bounded runs f on a thread of its own and returns the goroutine's panic, if
// any.  If f itself burns more than limit of processor time (which no load on
// the machine can inflate), spin is called with a stack dump; it must not
// return normally.
func Bounded(limit time.Duration, spin func(stacks string), f func()) *PanicInfo {
	done := make(chan *PanicInfo, 1)
	tid := make(chan int, 1)
	go func() {
		runtime.LockOSThread()
		defer runtime.UnlockOSThread()
		tid <- syscall.Gettid()
		done <- Try(f)
	}()
	id := <-tid
	// Processor time grows at most as fast as the clock.
	select {
	case p := <-done:
		return p
	case <-time.After(limit):
	}
	base := time.Duration(0)
	for {
		select {
		case p := <-done:
			return p
		case <-time.After(200 * time.Millisecond):
		}
		c, ok := threadCPU(id)
		if !ok {
			continue
		}
		if base == 0 {
			base = c // whatever the thread did before counts for nothing
		}
		if c-base > limit {
			select {
			case p := <-done:
				return p
			default:
			}
			spin(AllStacks())
		}
	}
}
