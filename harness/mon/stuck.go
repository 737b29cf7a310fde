package mon

import (
	"os"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"time"
)

// Goroutine is one entry of a stack dump.
type Goroutine struct {
	ID    string
	State string
	Top   string // topmost frame outside the runtime and sync
	Stack string
}

var goHdr = regexp.MustCompile(`^goroutine (\d+)(?: gp=\S+ m=\S+(?: mp=\S+)?)? \[([^\],]*)[^\]]*\]:`)

// ParseStacks splits a full stack dump.
func ParseStacks(dump string) (out []Goroutine) {
	for _, part := range strings.Split(dump, "\n\n") {
		part = strings.TrimSpace(part)
		m := goHdr.FindStringSubmatch(part)
		if m == nil {
			continue
		}
		g := Goroutine{ID: m[1], State: m[2], Stack: part}
		for _, l := range strings.Split(part, "\n")[1:] {
			if strings.HasPrefix(l, "\t") || l == "" {
				continue
			}
			if strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "sync.") ||
				strings.HasPrefix(l, "internal/") || strings.HasPrefix(l, "sync/") {
				continue
			}
			g.Top = l
			break
		}
		out = append(out, g)
	}
	return
}

// AllStacks dumps all goroutines.
func AllStacks() string {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			return string(buf[:n])
		}
		buf = make([]byte, 2*len(buf))
	}
}

func blockedState(s string) bool {
	switch {
	case strings.HasPrefix(s, "sync."), strings.HasPrefix(s, "semacquire"),
		strings.HasPrefix(s, "chan "), strings.HasPrefix(s, "select"):
		return true
	}
	return false
}

const libPkg = "github.com/bwesterb/go-xmssmt"

// StuckIn inspects one dump.  stuck lists the goroutines blocked inside the
// library on synchronisation; alive tells whether any goroutine of library or
// harness is running, runnable, sleeping or in a system call (so that the
// blocked ones may still be woken).
func StuckIn(dump string) (stuck []Goroutine, alive bool) {
	for _, g := range ParseStacks(dump) {
		lib := strings.HasPrefix(g.Top, libPkg)
		if lib && blockedState(g.State) {
			stuck = append(stuck, g)
			continue
		}
		if blockedState(g.State) {
			continue // harness waiting
		}
		if strings.Contains(g.Stack, "mon.Watch") || strings.Contains(g.Stack, "os/signal.") {
			continue
		}
		switch g.State {
		case "running", "runnable", "sleep", "syscall", "IO wait", "waiting", "copystack", "preempted":
			// Background goroutines of the runtime itself do not appear.
			alive = true
		}
		if strings.HasPrefix(g.State, "GC ") {
			alive = true
		}
	}
	return
}

// frames is a stack without the header, which tells how long it waits.
func frames(stack string) string {
	_, f, _ := strings.Cut(stack, "\n")
	return f
}

type gateT struct {
	mu     sync.Mutex
	cond   *sync.Cond
	closed bool
}

var gate = func() *gateT { g := &gateT{}; g.cond = sync.NewCond(&g.mu); return g }()

func (g *gateT) set(closed bool) {
	g.mu.Lock()
	g.closed = closed
	g.mu.Unlock()
	if !closed {
		g.cond.Broadcast()
	}
}

// Gate waits while calls into the library are suspected to be stuck.
func Gate() {
	gate.mu.Lock()
	for gate.closed {
		gate.cond.Wait()
	}
	gate.mu.Unlock()
}

// Suspect says whether calls into the library are suspected to be stuck.
func Suspect() bool {
	gate.mu.Lock()
	defer gate.mu.Unlock()
	return gate.closed
}

// WatchStuck watches this process for a deadlock inside the library: the same
// goroutines blocked in it, and nothing else alive, in many consecutive
// snapshots.  A snapshot in which anything can run resets the watch, so that
// load never makes it fire.
//
// A goroutine that stays blocked in one place of the library for a long time
// while other cases keep the process alive is no verdict yet: no further case
// is started (Gate) until either it moves or nothing else is alive.
func WatchStuck(onStuck func(stacks string)) {
	go func() {
		last := ""
		same := 0
		since := map[string]time.Time{}
		for {
			time.Sleep(500 * time.Millisecond)
			dump := AllStacks()
			stuck, alive := StuckIn(dump)
			now := map[string]time.Time{}
			long := false
			for _, g := range stuck {
				k := g.ID + " " + frames(g.Stack)
				t, ok := since[k]
				if !ok {
					t = time.Now()
				}
				now[k] = t
				long = long || time.Since(t) > 45*time.Second
			}
			since = now
			gate.set(long)
			if alive || len(stuck) == 0 {
				last, same = "", 0
				continue
			}
			ids := ""
			for _, g := range stuck {
				// The arguments in the frames tell apart the calls which one
				// goroutine makes one after the other.
				ids += g.ID + frames(g.Stack) + ","
			}
			if ids == last {
				same++
			} else {
				last, same = ids, 1
			}
			if same >= 10 {
				var b strings.Builder
				for _, g := range stuck {
					b.WriteString(g.Stack + "\n\n")
				}
				onStuck(b.String())
				os.Exit(1)
			}
		}
	}()
}

// WatchEvery calls f again and again until stopped; the goroutine doing so
// does not count as alive.
func WatchEvery(d time.Duration, f func()) (stop func()) {
	done := make(chan struct{})
	go func() {
		for {
			select {
			case <-done:
				return
			case <-time.After(d):
			}
			f()
		}
	}()
	return func() { close(done) }
}
