package main

import (
	"bufio"
	"fmt"
	"hash/fnv"
	"io"
	mrand2 "math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/bwesterb/go-xmssmt"
	"xverif/memctr"
	"xverif/mon"
	"xverif/ref"
)

func init() {
	checks["C13"] = check{run: runC13,
		rule: "Worker processes run rounds of concurrent signing, waiting, repairing, failing, borrowing, precomputing and closing with delays placed at container and log calls (among them: generation held until the other signers block in the library, and background work held while Close is called). A watchdog that looks at goroutine states reports a deadlock only when callers are blocked inside the library and nothing that could wake them is alive; endless work is judged by processor time. After every Close the container must not be called and no goroutine of the library may remain. Non-trivial: distinct sequences of container calls observed."}
	workers["c13"] = c13Worker
}

var c13Scenarios = []string{"waiters", "repair", "failing", "closing", "storm", "faultpoints", "end", "fs", "reader", "deep", "closeorder", "open", "tall"}

func runC13(t *mon.T) {
	per := t.Pick(12, 60)
	n := per * len(c13Scenarios)
	mon.ParN(6, n, func(i int) {
		sc := c13Scenarios[i%len(c13Scenarios)]
		l := fmt.Sprintf("%s/%d", sc, i/len(c13Scenarios))
		cs(t, l, func() { c13Run(t, l, sc) })
	})
	t.Require("rounds", n*5)
	t.Require("closes", n*5)
	t.Require("closes while background work was held", 20)
	t.Require("signers seen waiting", 50)
	t.Require("three or more waiting for one subtree", 20)
}

func c13Run(t *mon.T, label, sc string) {
	dir := scratchDir("c13")
	defer os.RemoveAll(dir)
	res := runWorker(nil, []string{fmt.Sprintf("GOMAXPROCS=%d", 1+mrand2.IntN(8))}, "c13", sc, fmt.Sprint(t.Sub(label)), dir, fmt.Sprint(t.Pick(12, 30)))
	in := bufio.NewScanner(strings.NewReader(res.stdout))
	in.Buffer(nil, 1<<24)
	for in.Scan() {
		k, v, _ := strings.Cut(in.Text(), " ")
		switch k {
		case "C":
			n, name, _ := strings.Cut(v, " ")
			x, _ := strconv.Atoi(n)
			t.Count(name, x)
		case "H":
			t.Nontrivial(sc + v)
			t.Distinct("sequences of container calls", v)
		case "V":
			key, what, _ := strings.Cut(v, " ")
			t.Violate(key+":"+sc, label, lastBytes(res.stderr, 30000), "scenario %s: %s", sc, what)
		}
	}
	switch {
	case res.code == 0:
	case res.code == 7:
		t.Violate("stuck:"+sc, label, lastBytes(res.stderr, 30000), "scenario %s: calls into the library are blocked for ever:\n%s", sc, clip(res.stderr, 6000))
	case res.code == 8:
		t.Violate("spin:"+sc, label, lastBytes(res.stderr, 30000), "scenario %s: a round used minutes of processor time without finishing:\n%s", sc, clip(res.stderr, 6000))
	case res.code == 9: // judged above
	default:
		if k, what := crashVerdict(res.stderr); k != "" {
			t.Violate("crash:"+sc+":"+k, label, lastBytes(res.stderr, 30000), "scenario %s crashed inside the library: %s", sc, what)
		} else {
			t.Inconclusive("scenario %s ended with %d %s:\n%s", sc, res.code, res.signal, lastBytes(res.stderr, 6000))
		}
	}
}

type c13w struct {
	dir  string
	mu   sync.Mutex
	n    map[string]int
	cpu0 int64 // processor time at the start of the round
	viol int
}

func (w *c13w) count(k string, n int) {
	w.mu.Lock()
	w.n[k] += n
	w.mu.Unlock()
}

func (w *c13w) violate(key, format string, a ...any) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.viol++
	if w.viol <= 3 {
		fmt.Printf("V %s %s\n", key, strings.ReplaceAll(fmt.Sprintf(format, a...), "\n", " | "))
	}
}

func cpuTime() int64 {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return u.Utime.Nano() + u.Stime.Nano()
}

func c13Worker(args []string) int {
	sc := args[0]
	seed, _ := strconv.ParseInt(args[1], 10, 64)
	rounds, _ := strconv.Atoi(args[3])
	w := &c13w{dir: args[2], n: map[string]int{}}
	mon.WatchStuck(func(stacks string) {
		fmt.Fprintln(os.Stderr, stacks)
		os.Exit(7)
	})
	atomic.StoreInt64(&w.cpu0, cpuTime())
	mon.WatchEvery(time.Second, func() {
		if cpuTime()-atomic.LoadInt64(&w.cpu0) > int64(120*time.Second) {
			fmt.Fprintln(os.Stderr, mon.AllStacks())
			os.Exit(8)
		}
	})
	for i := 0; i < rounds; i++ {
		atomic.StoreInt64(&w.cpu0, cpuTime())
		w.round(sc, seed+int64(i)*104729)
		w.count("rounds", 1)
	}
	for k, v := range w.n {
		fmt.Printf("C %d %s\n", v, k)
	}
	if w.viol > 0 {
		return 9
	}
	return 0
}

// c13log is the logger of a round.
type c13log struct {
	f func(msg string)
}

func (l c13log) Logf(format string, a ...interface{}) { l.f(format) }

// blockedInLibrary counts goroutines blocked on synchronisation in the library.
func blockedInLibrary() (n int) {
	stuck, _ := mon.StuckIn(mon.AllStacks())
	return len(stuck)
}

// waiting lists the goroutines which wait in the library for another one to
// finish with a subtree.
func waiting() (out []string) {
	stuck, _ := mon.StuckIn(mon.AllStacks())
	for _, g := range stuck {
		if strings.HasPrefix(g.State, "sync.Cond") || strings.HasPrefix(g.State, "chan ") || strings.HasPrefix(g.State, "select") {
			out = append(out, g.ID)
		}
	}
	return
}

// libraryGoroutines lists goroutines with a frame of the library.
func libraryGoroutines() (out []string) {
	for _, g := range mon.ParseStacks(mon.AllStacks()) {
		if mon.Library(g.Stack) {
			out = append(out, g.Stack)
		}
	}
	return
}

type c13trace struct {
	mu sync.Mutex
	h  uint64
	b  strings.Builder
}

func (w *c13w) ctr(st *memctr.State, tr *c13trace, level int) *memctr.Ctr {
	var c *memctr.Ctr
	if st == nil {
		c = memctr.New()
	} else {
		c = memctr.From(st)
	}
	c.Before = func(op string) { jitter(level) }
	c.OnCall = func(op string, sta STA, arg uint64, ex bool) {
		tr.mu.Lock()
		fmt.Fprintf(&tr.b, "%s %v %d %v;", op, sta, arg, ex)
		tr.mu.Unlock()
	}
	c.Broken = func(what string) { w.violate("contract", "%s", what) }
	return c
}

func (w *c13w) emit(tr *c13trace) {
	tr.mu.Lock()
	h := fnv.New64a()
	h.Write([]byte(tr.b.String()))
	tr.mu.Unlock()
	fmt.Printf("H %x\n", h.Sum64())
}

// done closes a key and watches what happens after.
func (w *c13w) done(sk *xmssmt.PrivateKey, ctr *memctr.Ctr) {
	err := sk.Close()
	w.count("closes", 1)
	if ctr != nil && err == nil && !ctr.Closed {
		w.violate("not-closed", "Close returned without closing the container")
	}
	// The goroutines that are just returning get time to do so.
	for i := 0; ; i++ {
		gs := libraryGoroutines()
		if len(gs) == 0 {
			break
		}
		if i == 1500 {
			w.violate("runs-after-close", "half a minute after Close returned the library still runs: %s", strings.Join(gs, "\n\n"))
			break
		}
		if i < 10 {
			runtime.Gosched()
		} else {
			time.Sleep(20 * time.Millisecond)
		}
	}
}

// spawn runs g goroutines and waits for all.
func spawn(g int, f func(i int)) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := 0; i < g; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			f(i)
		}()
	}
	close(start)
	wg.Wait()
}

func (w *c13w) sign(sk *xmssmt.PrivateKey, pk *xmssmt.PublicKey, ids *sync.Map) bool {
	sig, err := sk.Sign([]byte("m"))
	if err != nil {
		w.count("refusals", 1)
		return false
	}
	w.count("signatures", 1)
	if ids != nil {
		if _, dup := ids.LoadOrStore(uint64(sig.SeqNo()), true); dup {
			w.violate("duplicate", "index %d was used twice", sig.SeqNo())
		}
	}
	if mrand2.IntN(8) == 0 {
		if ok, err := pk.Verify(sig, []byte("m")); !ok {
			w.violate("invalid", "a signature is invalid: %v", err)
		}
	}
	return true
}

func must13(err xmssmt.Error) {
	if err != nil {
		panic("harness: unexpected refusal: " + err.Error())
	}
}

func (w *c13w) round(sc string, seed int64) {
	r := newRand(seed)
	shapes := []ref.P{cheap(4, 2), cheap(6, 3), cheap(3, 1), cheap(4, 4), cheap(6, 2), cheap(2, 2)}
	p := shapes[r.Intn(len(shapes))]
	s := mkSeeds(r, p.N)
	g := 2 + r.Intn(9)
	tr := &c13trace{}
	level := 1 + r.Intn(3)
	xmssmt.SetLogger(jitterLogger{level: level})
	defer xmssmt.SetLogger(nil)
	start := uint64(r.Int63()) % p.Max()
	st := storedKey(p, s, start)
	// gate makes the first log call after arming wait until k goroutines are
	// blocked in the library, or for a while.
	gate := func(k int) {
		var armed int32 = 1
		xmssmt.SetLogger(c13log{func(string) {
			if atomic.CompareAndSwapInt32(&armed, 1, 0) {
				most := 0
				for i := 0; i < 200; i++ {
					if n := blockedInLibrary(); n > most {
						most = n
					}
					if most >= k {
						break
					}
					time.Sleep(500 * time.Microsecond)
				}
				w.count("signers seen waiting", most)
			}
			jitter(level)
		}})
	}
	switch sc {
	case "waiters":
		// All signers need the same subtrees, none of which is there.
		ctr := w.ctr(st, tr, level)
		sk, pk, _, err := xmssmt.LoadPrivateKeyFrom(ctr)
		must13(err)
		gate(g - 1)
		ids := &sync.Map{}
		spawn(g, func(i int) {
			w.sign(sk, pk, ids)
			w.sign(sk, pk, ids)
		})
		w.done(sk, ctr)
	case "repair":
		c0, sk0, _, _, err := loadKey(st)
		must13(err)
		st = signWarm(c0, sk0)
		sk0.Close()
		for _, b := range st.Trees {
			if r.Intn(3) > 0 {
				b[r.Intn(len(b)-8)] ^= byte(1 + r.Intn(255))
			}
		}
		if st.SeqNo >= p.Max() {
			return
		}
		ctr := w.ctr(st, tr, level)
		sk, pk, _, err := xmssmt.LoadPrivateKeyFrom(ctr)
		must13(err)
		if r.Intn(2) == 0 {
			sk.EnableSubTreePrecomputation()
		}
		gate(g - 1)
		ids := &sync.Map{}
		spawn(g, func(i int) {
			w.sign(sk, pk, ids)
			if i%2 == 0 {
				sk.EnableSubTreePrecomputation()
			}
			w.sign(sk, pk, ids)
		})
		w.done(sk, ctr)
	case "tall":
		// Exactly one subtree, tall enough for all other signers to arrive
		// while it is being filled, is damaged, missing, or fails to be
		// signed by its parent: nothing happens afterwards that would wake a
		// signer which was not woken when that was over.
		p = cheap(14, 2)
		if r.Intn(3) == 0 {
			p = cheap(18, 3)
		}
		th := uint(p.TreeHeight())
		st = storedKey(p, s, uint64(r.Int63())%p.Max()>>th<<th+uint64(r.Intn(20)))
		kind := r.Intn(4) // damaged, damaged, missing, failing
		victim := STA{Layer: 0, Tree: st.SeqNo >> th}
		if kind < 2 {
			c0, sk0, _, _, err := loadKey(st)
			must13(err)
			st = signWarm(c0, sk0)
			sk0.Close()
			if p.D == 3 && r.Intn(2) == 0 {
				victim = STA{Layer: 1, Tree: st.SeqNo >> (2 * th)}
			}
			b := st.Trees[victim]
			if b == nil {
				w.violate("not-cached", "after signing the subtree %v is not in the cache", victim)
				return
			}
			b[r.Intn(len(b))] ^= byte(1 + r.Intn(255))
		}
		ctr := w.ctr(st, tr, level)
		ctr.Before = nil
		sk, pk, _, err := xmssmt.LoadPrivateKeyFrom(ctr)
		must13(err)
		var most, fail int32
		stopWatch := mon.WatchEvery(3*time.Millisecond, func() {
			if n := int32(len(waiting())); n > atomic.LoadInt32(&most) {
				atomic.StoreInt32(&most, n)
			}
		})
		if kind == 3 {
			// The one who fills the subtree fails to get its parent.
			seen := false
			ctr.Fault = func(op string, n int) error {
				if op == "GetSubTree" && !seen && len(waiting()) > 0 {
					seen = true
					fail = 1
					return fmt.Errorf("injected")
				}
				return nil
			}
		}
		ids := &sync.Map{}
		var refused int32
		spawn(4+r.Intn(5), func(i int) {
			if !w.sign(sk, pk, ids) {
				atomic.AddInt32(&refused, 1)
			}
		})
		stopWatch()
		ctr.Fault = nil
		if refused > fail {
			w.violate("refused", "%d signers failed after %d failures", refused, fail)
		}
		if atomic.LoadInt32(&most) >= 3 {
			w.count("three or more waiting for one subtree", 1)
		}
		w.count("signers seen waiting", int(atomic.LoadInt32(&most)))
		w.done(sk, ctr)
	case "failing":
		// Generation of an upper subtree fails while others wait below.
		ctr := w.ctr(st, tr, level)
		sk, pk, _, err := xmssmt.LoadPrivateKeyFrom(ctr)
		must13(err)
		var fails int32 = int32(1 + r.Intn(6))
		every := 1 + r.Intn(4)
		ctr.Fault = func(op string, n int) error {
			if op == "GetSubTree" && n%every == 0 && atomic.AddInt32(&fails, -1) >= 0 {
				return fmt.Errorf("injected")
			}
			return nil
		}
		gate(min(g-1, 3))
		ids := &sync.Map{}
		spawn(g, func(i int) {
			for k := 0; k < 3; k++ {
				w.sign(sk, pk, ids)
			}
		})
		if uint64(sk.SeqNo()) < p.Max() && atomic.LoadInt32(&fails) <= 0 && !w.sign(sk, pk, ids) {
			w.violate("no-recovery", "after the container stopped failing, signing still fails")
		}
		ctr.Fault = nil
		w.done(sk, ctr)
	case "closing", "closeorder":
		// Close while a subtree is computed in the background.
		th := uint(p.TreeHeight())
		start = start >> th << th
		st.SeqNo = start
		ctr := w.ctr(st, tr, level)
		sk, pk, _, err := xmssmt.LoadPrivateKeyFrom(ctr)
		must13(err)
		ids := &sync.Map{}
		if r.Intn(2) == 0 {
			w.sign(sk, pk, ids)
		}
		var held, released, closed int32
		release := make(chan struct{})
		if sc == "closeorder" {
			var armed int32 = 1
			xmssmt.SetLogger(c13log{func(string) {
				// The first log call made by background work is held.
				if strings.Contains(stackOf(), ".Close") || !strings.Contains(stackOf(), "created by github.com/bwesterb/go-xmssmt") {
					return
				}
				if atomic.CompareAndSwapInt32(&armed, 1, 0) {
					atomic.StoreInt32(&held, 1)
					<-release
				}
			}})
		}
		sk.EnableSubTreePrecomputation()
		var wg sync.WaitGroup
		if sc == "closeorder" {
			for i := 0; i < 400 && atomic.LoadInt32(&held) == 0; i++ {
				time.Sleep(250 * time.Microsecond)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 40+r.Intn(60); i++ {
					time.Sleep(250 * time.Microsecond)
				}
				if atomic.LoadInt32(&held) == 1 {
					if atomic.LoadInt32(&closed) == 1 {
						w.violate("close-did-not-wait", "Close returned while a subtree was still being computed in the background")
					}
					w.count("closes while background work was held", 1)
				}
				atomic.StoreInt32(&released, 1)
				close(release)
			}()
		} else if r.Intn(2) == 0 {
			w.sign(sk, pk, ids)
		}
		err = sk.Close()
		atomic.StoreInt32(&closed, 1)
		must13(err)
		w.count("closes", 1)
		wg.Wait()
		for i := 0; len(libraryGoroutines()) > 0; i++ {
			if i == 1500 {
				w.violate("runs-after-close", "the library still runs long after Close: %s", strings.Join(libraryGoroutines(), "\n"))
				break
			}
			time.Sleep(20 * time.Millisecond)
		}
	case "storm":
		ctr := w.ctr(st, tr, level)
		sk, pk, _, err := xmssmt.LoadPrivateKeyFrom(ctr)
		must13(err)
		ids := &sync.Map{}
		spawn(g, func(i int) {
			for k := 0; k < 10; k++ {
				switch mrand2.IntN(9) {
				case 0:
					sk.BorrowExactly(uint32(mrand2.IntN(8)))
				case 1:
					sk.BorrowExactlyIfBelow(uint32(mrand2.IntN(8)), uint32(mrand2.IntN(4)))
				case 2:
					sk.EnableSubTreePrecomputation()
				case 3:
					sk.SeqNo()
					sk.BorrowedSeqNos()
					sk.UnretiredSeqNos()
					sk.CachedSubTrees()
				default:
					w.sign(sk, pk, ids)
				}
				w.count("calls", 1)
			}
		})
		w.done(sk, ctr)
	case "faultpoints":
		// Each container call fails once; everything afterwards returns.
		at := r.Intn(25)
		ctr := w.ctr(st, tr, 1)
		sk, pk, _, err := xmssmt.LoadPrivateKeyFrom(ctr)
		must13(err)
		var n int32
		hit := ""
		f := func(op string, _ int) error {
			if op != "Close" && int(atomic.AddInt32(&n, 1)) == at+1 {
				hit = op
				return fmt.Errorf("injected")
			}
			return nil
		}
		if r.Intn(2) == 0 {
			ctr.Fault = f
		} else {
			ctr.FailAfter = f
		}
		ids := &sync.Map{}
		spawn(1+r.Intn(3), func(i int) {
			for k := 0; k < 5; k++ {
				w.sign(sk, pk, ids)
				sk.BorrowExactly(uint32(3 - k%3))
				if k == 2 {
					sk.EnableSubTreePrecomputation()
				}
				sk.BorrowExactlyIfBelow(2, 1)
				sk.SeqNo()
			}
		})
		ctr.Fault, ctr.FailAfter = nil, nil
		if uint64(sk.SeqNo()) < p.Max() && !w.sign(sk, pk, ids) {
			w.violate("no-recovery", "after one failing %s signing still fails", hit)
		}
		w.count("single faults placed", 1)
		w.done(sk, ctr)
	case "end":
		if p.Max() > 6 {
			st.SeqNo = p.Max() - uint64(r.Intn(6))
		}
		ctr := w.ctr(st, tr, level)
		sk, pk, _, err := xmssmt.LoadPrivateKeyFrom(ctr)
		must13(err)
		if r.Intn(2) == 0 {
			sk.EnableSubTreePrecomputation()
		}
		ids := &sync.Map{}
		spawn(g, func(i int) {
			for k := 0; k < 4; k++ {
				w.sign(sk, pk, ids)
				sk.BorrowExactly(uint32(k))
			}
		})
		w.done(sk, ctr)
	case "fs":
		path := filepath.Join(w.dir, fmt.Sprintf("k%d", r.Intn(1<<30)))
		sk, pk, err := mustCtx(p).Derive(path, s.pub, s.sk, s.prf)
		must13(err)
		ids := &sync.Map{}
		for round := 0; round < 2; round++ {
			if r.Intn(2) == 0 {
				sk.EnableSubTreePrecomputation()
			}
			spawn(g, func(i int) {
				for k := 0; k < 3; k++ {
					w.sign(sk, pk, ids)
					if mrand2.IntN(4) == 0 {
						sk.BorrowExactly(uint32(mrand2.IntN(5)))
					}
					if i == 0 {
						if _, err := xmssmt.OpenFSPrivateKeyContainer(path); err == nil {
							w.violate("opened-twice", "an open key was opened again")
						}
					}
				}
			})
			w.done(sk, nil)
			if round == 0 {
				sk2, pk2, _, err := xmssmt.LoadPrivateKey(path)
				must13(err)
				sk, pk = sk2, pk2
			} else {
				sk.Close() // once more: must return
				sk.Sign([]byte("x"))
				sk.SeqNo()
			}
		}
	case "reader":
		// A message that becomes available only when others have signed.
		ctr := w.ctr(st, tr, level)
		sk, pk, _, err := xmssmt.LoadPrivateKeyFrom(ctr)
		must13(err)
		ids := &sync.Map{}
		if uint64(sk.SeqNo())+4 > p.Max() {
			ctr.Before = nil
			w.done(sk, ctr)
			return
		}
		th := make(chan struct{})
		spawn(3, func(i int) {
			switch i {
			case 0:
				first := true
				sig, err := sk.SignFrom(readerFunc(func(b []byte) (int, error) {
					if first {
						first = false
						<-th
						sk.SeqNo()
						b[0] = 'm'
						return 1, nil
					}
					return 0, io.EOF
				}))
				if err != nil {
					w.violate("reader", "signing a slowly arriving message failed: %v", err)
				} else if ok, _ := pk.Verify(sig, []byte("m")); !ok {
					w.violate("reader", "the signature on a slowly arriving message is invalid")
				}
			case 1:
				w.sign(sk, pk, ids)
				sk.BorrowExactly(1)
				w.sign(sk, pk, ids)
				sk.EnableSubTreePrecomputation()
				close(th)
			case 2:
				sk.UnretiredSeqNos()
			}
		})
		// and a reader that signs itself
		if uint64(sk.SeqNo())+2 <= p.Max() {
			sk.SignFrom(readerFunc(func(b []byte) (int, error) {
				w.sign(sk, pk, ids)
				return 0, io.EOF
			}))
			w.count("messages that needed other signatures", 2)
		}
		w.done(sk, ctr)
	case "deep":
		p = cheap(24, 12)
		st = storedKey(p, s, uint64(r.Int63())%p.Max())
		ctr := w.ctr(st, tr, level)
		sk, pk, _, err := xmssmt.LoadPrivateKeyFrom(ctr)
		must13(err)
		sk.EnableSubTreePrecomputation()
		gate(2)
		ids := &sync.Map{}
		spawn(g, func(i int) {
			for k := 0; k < 3; k++ {
				w.sign(sk, pk, ids)
			}
		})
		w.done(sk, ctr)
	case "open":
		// Deriving and loading with a container that fails somewhere.
		at := r.Intn(12)
		ctr := w.ctr(nil, tr, 1)
		n := 0
		ctr.Fault = func(op string, _ int) error {
			n++
			if n == at+1 && op != "Close" {
				return fmt.Errorf("injected")
			}
			return nil
		}
		sk, pk, err := mustCtx(p).DeriveInto(ctr, s.pub, s.sk, s.prf)
		if err == nil {
			spawn(2, func(int) { w.sign(sk, pk, nil) })
			w.done(sk, ctr)
		}
		ctr = w.ctr(st, tr, 1)
		n = 0
		ctr.Fault = func(op string, _ int) error {
			n++
			if n == at+1 && op != "Close" {
				return fmt.Errorf("injected")
			}
			return nil
		}
		sk, pk, _, err = xmssmt.LoadPrivateKeyFrom(ctr)
		if err == nil {
			spawn(2, func(int) { w.sign(sk, pk, nil) })
			w.done(sk, ctr)
		} else {
			w.count("closes", 1)
		}
	}
	w.emit(tr)
}

type readerFunc func(b []byte) (int, error)

func (f readerFunc) Read(b []byte) (int, error) { return f(b) }

// stackOf is the stack of the calling goroutine.
func stackOf() string {
	b := make([]byte, 16<<10)
	return string(b[:runtime.Stack(b, false)])
}
