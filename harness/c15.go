package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/bwesterb/go-xmssmt"
	"xverif/memctr"
	"xverif/mon"
	"xverif/ref"
)

func init() {
	checks["C15"] = check{run: runC15,
		rule: "Signers are held inside their message reader and let go in chosen completion orders (all orders for up to four signers, random ones for more) around subtree boundaries, 2^32 and the end; storms of signers, failing readers and containers, late background work, crashes with reserved numbers and file-backed keys add other histories. A monitor judges every drop (a subtree of an operation in progress or of an unused index must not go) and, whenever nothing is in progress, the exact content of the cache and the number of unretired indices. Non-trivial: distinct sequences of completions and cache events."}
}

// c15Watch follows one handle of a key.
type c15Watch struct {
	t     *mon.T
	label string
	p     ref.P
	mu    sync.Mutex
	base  uint64         // sequence number the handle started at
	begun uint64         // signing calls begun (upper bound on indices taken)
	prog  map[uint64]int // indices known to be in progress
	ev    strings.Builder
	nev   int
	load  bool // loading: exhausted subtrees of an earlier life may go
	pre   bool // precomputation was enabled at some time
}

func (w *c15Watch) path(idx uint64) []STA {
	var out []STA
	for l := 0; l < w.p.D; l++ {
		out = append(out, STA{Layer: uint32(l), Tree: idx >> (uint(l+1) * uint(w.p.TreeHeight()))})
	}
	return out
}

// onCall is the container's hook.
func (w *c15Watch) onCall(op string, sta STA, arg uint64, exists bool) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if op == "DropSubTree" || (op == "GetSubTree" && !exists) {
		w.nev++
		if w.ev.Len() < 4000 {
			fmt.Fprintf(&w.ev, "%c%d.%d ", op[0], sta.Layer, sta.Tree)
		}
	}
	if op != "DropSubTree" || !exists {
		return
	}
	w.t.Count("drops judged", 1)
	for idx := range w.prog {
		if w.path(idx)[sta.Layer] == sta {
			w.t.Violate("dropped-in-use", w.label, w.ev.String(), "%v: subtree %v was dropped while the signature with index %d, which depends on it, was in progress", w.p, sta, idx)
		}
	}
	// All indices below base+begun may have been handed out by now, the
	// others are unused for sure.
	if int(sta.Layer) < w.p.D {
		if w.path(w.base + w.begun)[sta.Layer].Tree <= sta.Tree && (w.begun > 0 || !w.load) {
			w.t.Violate("dropped-needed", w.label, w.ev.String(), "%v: subtree %v was dropped although at most index %d was taken", w.p, sta, int64(w.base+w.begun)-1)
		}
	}
}

func (w *c15Watch) begin() { w.mu.Lock(); w.begun++; w.mu.Unlock() }

// cacheIs judges the cache of a key on which nothing is in progress.
func (w *c15Watch) cacheIs(seq uint64, trees []STA) (bad string) {
	ok := map[STA]bool{}
	for _, s := range w.path(seq) {
		ok[s] = true
	}
	th := uint(w.p.TreeHeight())
	if next := (seq>>th + 1) << th; w.pre && next < w.p.Max()+1 && next > seq {
		for _, s := range w.path(next) {
			ok[s] = true
		}
	}
	seen := map[STA]bool{}
	for _, s := range trees {
		if seen[s] {
			return fmt.Sprintf("subtree %v is cached twice", s)
		}
		seen[s] = true
		if !ok[s] {
			return fmt.Sprintf("at sequence number %d (precomputation %v) subtree %v is cached: %v", seq, w.pre, s, sortSTA(trees))
		}
	}
	return ""
}

func sortSTA(x []STA) []STA {
	y := append([]STA(nil), x...)
	sort.Slice(y, func(i, j int) bool {
		if y[i].Layer != y[j].Layer {
			return y[i].Layer < y[j].Layer
		}
		return y[i].Tree < y[j].Tree
	})
	return y
}

// backgroundGone waits until the goroutines which the library has started
// until now (of any key in the process) are gone.
func backgroundGone(limit time.Duration) bool {
	bg := func() map[string]bool {
		m := map[string]bool{}
		for _, g := range mon.ParseStacks(mon.AllStacks()) {
			if strings.Contains(g.Stack, "created by github.com/bwesterb/go-xmssmt") {
				m[g.ID] = true
			}
		}
		return m
	}
	start := bg()
	end := time.Now().Add(limit)
	for {
		if len(start) == 0 {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(300 * time.Microsecond)
		now := bg()
		for id := range start {
			if !now[id] {
				delete(start, id)
			}
		}
	}
}

// quiet judges a key on which no call is in progress.
func (w *c15Watch) quiet(sk *xmssmt.PrivateKey, trees func() []STA, where string) {
	w.t.Count("quiet moments judged", 1)
	bad := ""
	for try := 0; try < 4; try++ {
		bad = ""
		if u := sk.UnretiredSeqNos(); u != 0 {
			bad = fmt.Sprintf("%d sequence numbers are unretired", u)
		} else {
			bad = w.cacheIs(uint64(sk.SeqNo()), trees())
		}
		if bad == "" {
			return
		}
		if !w.pre && try > 0 {
			break
		}
		if !backgroundGone(60 * time.Second) {
			w.t.Inconclusive("%s: background work did not finish in time", w.label)
			return
		}
	}
	w.mu.Lock()
	ev := w.ev.String()
	w.mu.Unlock()
	w.t.Violate("cache", w.label, ev, "%v, %s, nothing in progress: %s", w.p, where, bad)
}

func memTrees(c *memctr.Ctr) func() []STA {
	return func() (out []STA) {
		for s := range c.Snapshot().Trees {
			out = append(out, s)
		}
		return
	}
}

// c15Held is a signer held in its message reader.
type c15Held struct {
	idx     uint64
	release chan bool // false: the reader fails
	done    chan struct{}
	sig     *xmssmt.Signature
	err     xmssmt.Error
}

// hold starts a signer and waits until its reader is called.
func (w *c15Watch) hold(g *group, sk *xmssmt.PrivateKey, idx uint64, r *ref.Key) *c15Held {
	h := &c15Held{idx: idx, release: make(chan bool, 1), done: make(chan struct{})}
	in := make(chan struct{}, 1)
	w.mu.Lock()
	w.begun++
	w.prog[idx] = 1
	w.mu.Unlock()
	n := 0
	g.Go(func() {
		defer close(h.done)
		sig, err := sk.SignFrom(readerFunc(func(b []byte) (int, error) {
			n++
			if n == 1 {
				in <- struct{}{}
				if !<-h.release {
					return 0, fmt.Errorf("injected")
				}
				return copy(b, "held"), nil
			}
			return 0, errEOF
		}))
		h.sig, h.err = sig, err
		if err == nil && uint64(sig.SeqNo()) != idx {
			w.t.Violate("index", w.label, nil, "expected index %d, got %d", idx, sig.SeqNo())
		}
	})
	select {
	case <-in:
	case <-h.done:
	}
	return h
}

// let finishes a held signer.
func (w *c15Watch) let(h *c15Held, ok bool) {
	// From now on its subtrees may go.
	w.mu.Lock()
	delete(w.prog, h.idx)
	fmt.Fprintf(&w.ev, "r%d ", h.idx)
	w.mu.Unlock()
	h.release <- ok
	<-h.done
}

func (w *c15Watch) checkSig(k *ref.Key, sig *xmssmt.Signature, msg string) {
	if sig == nil {
		return
	}
	if string(sigBytes(sig)) != string(k.Sign(uint64(sig.SeqNo()), []byte(msg))) {
		w.t.Violate("signature", w.label, nil, "%v: the signature with index %d differs from the reference (a dropped subtree was used?)", w.p, sig.SeqNo())
	}
	w.t.Count("signatures compared", 1)
}

var c15Shapes = []ref.P{cheap(4, 2), cheap(3, 3), cheap(4, 4), cheap(6, 3), cheap(6, 2), cheap(8, 4), cheap(40, 20), cheap(60, 30), cheap(36, 18), cheap(3, 1)}

// c15Starts are sequence numbers just before something happens.
func c15Starts(p ref.P, r *rand.Rand) []uint64 {
	th := uint(p.TreeHeight())
	out := []uint64{0}
	for l := 1; l <= p.D; l++ {
		b := uint64(1) << (uint(l) * th) // boundary of layer l-1
		out = append(out, b-1)
		if b > 2 {
			out = append(out, b-2)
		}
		// another boundary of exactly this layer
		k := uint64(r.Int63())%(p.Max()/b+1) | 1
		if x := k * b; x > 2 && x < p.Max() {
			out = append(out, x-2)
		}
	}
	if p.H > 33 {
		out = append(out, 1<<32-2, 1<<32-1, 1<<31-1)
	}
	out = append(out, p.Max()-1, p.Max()-3)
	return out
}

func c15Handle(t *mon.T, label string, p ref.P, st *memctr.State) (*c15Watch, *memctr.Ctr, *xmssmt.PrivateKey) {
	w := &c15Watch{t: t, label: label, p: p, prog: map[uint64]int{}, base: st.SeqNo, load: true}
	c := memctr.From(st)
	c.OnCall = w.onCall
	c.Broken = func(s string) { t.Violate("container-misuse", label, s, "%s", s) }
	sk, _, _, err := xmssmt.LoadPrivateKeyFrom(c)
	if err != nil {
		panic(libErr{"load: " + err.Error()})
	}
	w.load = false
	return w, c, sk
}

func perms(n int) (out [][]int) {
	if n == 0 {
		return [][]int{{}}
	}
	for _, p := range perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int(nil), p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return
}

func runC15(t *mon.T) {
	t.Assume = []string{"dropping subtrees from the container does not fail (failures are covered separately)", "DangerousSetSeqNo, which documents that it may forget to drop, is not used"}
	xmssmt.SetLogger(jitterLogger{1})
	// 1. completion orders
	type job struct {
		p     ref.P
		start uint64
	}
	var jobs []job
	for _, p := range c15Shapes {
		starts := c15Starts(p, t.Rng("starts "+p.String()))
		if p.D > 10 && !t.Thorough() {
			r := t.Rng("pick " + p.String())
			r.Shuffle(len(starts), func(a, b int) { starts[a], starts[b] = starts[b], starts[a] })
			starts = append(starts[:8], 1<<32-2, 1<<32-1)
		}
		for _, x := range starts {
			jobs = append(jobs, job{p, x})
		}
	}
	mon.Par(len(jobs), func(i int) {
		l := fmt.Sprintf("orders/%d/%v/%d", i, jobs[i].p, jobs[i].start)
		cs(t, l, func() { c15Orders(t, l, jobs[i].p, jobs[i].start) })
	})
	n := t.Pick(80, 1500)
	mon.ParN(6, n, func(i int) {
		l := fmt.Sprintf("many/%d", i)
		cs(t, l, func() { c15Many(t, l, i) })
	})
	n = t.Pick(120, 2500)
	mon.ParN(6, n, func(i int) {
		l := fmt.Sprintf("storm/%d", i)
		cs(t, l, func() { c15Storm(t, l, i) })
	})
	n = t.Pick(60, 800)
	mon.ParN(1, n, func(i int) {
		l := fmt.Sprintf("late/%d", i)
		cs(t, l, func() { c15Late(t, l, i) })
	})
	n = t.Pick(150, 3000)
	mon.Par(n, func(i int) {
		l := fmt.Sprintf("crash/%d", i)
		cs(t, l, func() { c15Crash(t, l, i) })
	})
	n = t.Pick(24, 300)
	mon.ParN(6, n, func(i int) {
		l := fmt.Sprintf("fs/%d", i)
		cs(t, l, func() { c15FS(t, l, i) })
	})
	t.Require("completion orders", 800)
	t.Require("quiet moments judged", 3000)
	t.Require("drops judged", 3000)
	t.Require("unretired numbers compared", 5000)
	t.Require("stale subtrees at reload", 50)
}

func c15Orders(t *mon.T, label string, p ref.P, start uint64) {
	r := t.Rng(label)
	s := mkSeeds(r, p.N)
	k := ref.NewKey(p, s.pub, s.sk, s.prf)
	stored := storedKey(p, s, start)
	for n := 1; n <= 4; n++ {
		if start+uint64(n) > p.Max() {
			continue
		}
		for pi, perm := range perms(n) {
			if t.Stop() {
				return
			}
			if n == 4 && !t.Thorough() && (pi+int(start))%3 > 0 {
				continue // a sample of the orders
			}
			fail := r.Intn(4) == 0
			w, c, sk := c15Handle(t, label, p, stored.Clone())
			if w.pre = r.Intn(4) == 0; w.pre {
				sk.EnableSubTreePrecomputation()
			}
			w.quiet(sk, memTrees(c), "after loading")
			g := &group{t: t, label: label}
			var hs []*c15Held
			for i := 0; i < n; i++ {
				hs = append(hs, w.hold(g, sk, start+uint64(i), k))
				w.unretired(sk, i+1)
				if i == 0 && !w.pre && len(stored.Trees) == 0 {
					// later runs start with what is cached now
					stored = c.Snapshot()
					stored.SeqNo, stored.Borrowed = start, 0
				}
			}
			for i, j := range perm {
				w.let(hs[j], !(fail && r.Intn(2) == 0))
				w.unretired(sk, n-i-1)
			}
			g.Wait()
			for i, h := range hs {
				if i == 0 || p.D < 10 || pi%4 == 0 {
					w.checkSig(k, h.sig, "held")
				}
			}
			w.quiet(sk, memTrees(c), fmt.Sprintf("%d signers from %d finished in order %v", n, start, perm))
			sk.Close()
			t.Count("completion orders", 1)
			t.Nontrivial(fmt.Sprint(p, start, perm))
		}
	}
}

// unretired compares the number of unretired sequence numbers.
func (w *c15Watch) unretired(sk *xmssmt.PrivateKey, want int) {
	w.t.Count("unretired numbers compared", 1)
	if u := sk.UnretiredSeqNos(); int(u) != want {
		w.t.Violate("unretired", w.label, w.ev.String(), "%v: %d signing operations are in progress, the key reports %d unretired sequence numbers", w.p, want, u)
	}
}

// c15Many holds many signers at once and finishes them in random orders,
// starting others in between.
func c15Many(t *mon.T, label string, i int) {
	r := t.Rng(label)
	p := c15Shapes[i%(len(c15Shapes)-1)]
	s := mkSeeds(r, p.N)
	k := ref.NewKey(p, s.pub, s.sk, s.prf)
	starts := c15Starts(p, r)
	start := starts[r.Intn(len(starts))]
	if x := uint64(r.Intn(12)); start > x {
		start -= x
	}
	w, c, sk := c15Handle(t, label, p, storedKey(p, s, start))
	if w.pre = r.Intn(3) == 0; w.pre {
		sk.EnableSubTreePrecomputation()
	}
	g := &group{t: t, label: label}
	var open []*c15Held
	next := start
	most := 0
	for ops := t.Pick(60, 160); ops > 0 && !t.Stop(); ops-- {
		if next < p.Max() && (len(open) == 0 || r.Intn(5) < 3) && len(open) < 40 {
			open = append(open, w.hold(g, sk, next, k))
			next++
		} else if len(open) > 0 {
			j := r.Intn(len(open))
			switch r.Intn(4) {
			case 0:
				j = len(open) - 1
			case 1:
				j = 0
			}
			h := open[j]
			open = append(open[:j], open[j+1:]...)
			w.let(h, r.Intn(5) > 0)
			w.checkSig(k, h.sig, "held")
		}
		most = max(most, len(open))
		w.unretired(sk, len(open))
		if len(open) == 0 {
			w.quiet(sk, memTrees(c), "random completion order")
		}
	}
	r.Shuffle(len(open), func(a, b int) { open[a], open[b] = open[b], open[a] })
	for len(open) > 0 {
		w.let(open[0], true)
		open = open[1:]
		w.unretired(sk, len(open))
	}
	g.Wait()
	w.quiet(sk, memTrees(c), "random completion order")
	if n := sk.CachedSubTrees(); n != len(memTrees(c)()) {
		if !backgroundGone(time.Minute) || sk.CachedSubTrees() != len(memTrees(c)()) {
			t.Violate("cached-number", label, nil, "%v: the key reports %d cached subtrees, the container holds %d", p, n, len(memTrees(c)()))
		}
	}
	sk.Close()
	t.Nontrivial(label + w.ev.String())
	t.Distinct("event sequences", w.ev.String())
	if i < 5 {
		t.Sample(map[string]any{"case": label, "shape": p.String(), "start": start, "most in progress": most, "events": clip(w.ev.String(), 600)})
	}
}

// c15Storm runs free signers, some of which fail, and judges quiet moments.
func c15Storm(t *mon.T, label string, i int) {
	r := t.Rng(label)
	p := c15Shapes[i%len(c15Shapes)]
	s := mkSeeds(r, p.N)
	k := ref.NewKey(p, s.pub, s.sk, s.prf)
	starts := c15Starts(p, r)
	start := starts[r.Intn(len(starts))]
	if x := uint64(r.Intn(30)); start > x {
		start -= x
	}
	w, c, sk := c15Handle(t, label, p, storedKey(p, s, start))
	c.Before = func(string) { jitter(3) }
	if w.pre = r.Intn(2) == 0; w.pre {
		sk.EnableSubTreePrecomputation()
	}
	var faults int32
	if i%3 == 0 {
		every := 2 + r.Intn(9)
		var n int32
		c.Fault = func(op string, _ int) error {
			if op == "GetSubTree" && atomic.LoadInt32(&faults) > 0 && int(atomic.AddInt32(&n, 1))%every == 0 {
				t.Count("container faults", 1)
				return fmt.Errorf("injected")
			}
			return nil
		}
	}
	for round := 0; round < t.Pick(5, 12) && !t.Stop(); round++ {
		if uint64(sk.SeqNo()) >= p.Max() {
			break
		}
		if i%3 == 0 {
			atomic.StoreInt32(&faults, int32(r.Intn(2)))
		}
		g := &group{t: t, label: label}
		for j := 1 + r.Intn(8); j > 0; j-- {
			rr := newRand(t.Sub(fmt.Sprint(label, round, j)))
			g.Go(func() {
				for q := 1 + rr.Intn(4); q > 0; q-- {
					w.begin()
					if rr.Intn(6) == 0 {
						sk.SignFrom(readerFunc(func([]byte) (int, error) { jitter(4); return 0, fmt.Errorf("injected") }))
						continue
					}
					sig, err := sk.Sign([]byte("storm"))
					if err == nil && rr.Intn(4) == 0 {
						w.checkSig(k, sig, "storm")
					}
				}
			})
		}
		g.Wait()
		atomic.StoreInt32(&faults, 0)
		w.quiet(sk, memTrees(c), fmt.Sprintf("round %d of a storm", round))
	}
	if err := sk.Close(); err != nil {
		t.Violate("close-failed", label, nil, "Close: %v", err)
	}
	if bad := w.cacheIs(uint64(sk.SeqNo()), memTrees(c)()); bad != "" {
		t.Violate("cache-closed", label, w.ev.String(), "%v, closed: %s", p, bad)
	}
	// and once more
	w2, c2, sk2 := c15Handle(t, label, p, c.Snapshot())
	w2.pre = w.pre
	w2.quiet(sk2, memTrees(c2), "reloaded")
	sk2.Close()
	t.Nontrivial(label + w.ev.String())
	t.Distinct("event sequences", w.ev.String())
}

// c15Late holds the background work until the signers have passed.
func c15Late(t *mon.T, label string, i int) {
	r := t.Rng(label)
	p := []ref.P{cheap(6, 3), cheap(4, 4), cheap(8, 4), cheap(40, 20), cheap(6, 2), cheap(5, 5)}[i%6]
	s := mkSeeds(r, p.N)
	starts := c15Starts(p, r)
	start := starts[r.Intn(len(starts))]
	w, c, sk := c15Handle(t, label, p, storedKey(p, s, start))
	release := make(chan struct{})
	var held, armed int32
	holdNth := int32(1 + r.Intn(3))
	var seen sync.Map
	xmssmt.SetLogger(c13log{func(string) {
		// The first log call of some piece of background work waits (not for
		// ever: it might be holding what the signers need).
		if atomic.LoadInt32(&held) > 0 {
			return
		}
		st := stackOf()
		if !strings.Contains(st, "created by github.com/bwesterb/go-xmssmt") {
			return
		}
		if _, dup := seen.LoadOrStore(strings.Fields(st)[1], true); dup {
			return
		}
		if atomic.AddInt32(&armed, 1) == holdNth {
			atomic.StoreInt32(&held, 1)
			// Sleeping, so that the process does not seem dead.
			for until := time.Now().Add(time.Second); ; time.Sleep(200 * time.Microsecond) {
				select {
				case <-release:
					return
				default:
				}
				if time.Now().After(until) {
					t.Count("holds given up", 1)
					return
				}
			}
		}
	}})
	defer xmssmt.SetLogger(jitterLogger{1})
	w.pre = true
	sk.EnableSubTreePrecomputation()
	for j := 0; j < 50 && atomic.LoadInt32(&armed) == 0; j++ {
		time.Sleep(100 * time.Microsecond)
	}
	// Sign past the subtree in question (and maybe several more).
	th := uint(p.TreeHeight())
	for j := (1+r.Intn(4))<<th + 1; j > 0; j-- {
		w.begin()
		if r.Intn(5) == 0 {
			sk.SignFrom(readerFunc(func([]byte) (int, error) { return 0, fmt.Errorf("injected") }))
		} else {
			sk.Sign([]byte("x"))
		}
		if holdNth > 1 && atomic.LoadInt32(&held) == 0 {
			time.Sleep(50 * time.Microsecond)
		}
	}
	if atomic.LoadInt32(&held) > 0 {
		t.Count("background work overtaken by signers", 1)
	}
	close(release)
	w.quiet(sk, memTrees(c), "background work was late")
	sk.Close()
	if bad := w.cacheIs(uint64(sk.SeqNo()), memTrees(c)()); bad != "" {
		t.Violate("cache-late", label, w.ev.String(), "%v, closed after late background work: %s", p, bad)
	}
	t.Nontrivial(label + w.ev.String())
}

// c15Crash reloads states in which cached subtrees were overtaken by lost
// signatures (or by a jump), and signs on.
func c15Crash(t *mon.T, label string, i int) {
	r := t.Rng(label)
	p := c15Shapes[i%len(c15Shapes)]
	s := mkSeeds(r, p.N)
	k := ref.NewKey(p, s.pub, s.sk, s.prf)
	starts := c15Starts(p, r)
	start := starts[r.Intn(len(starts))]
	if start >= p.Max() {
		start = 0
	}
	w, c, sk := c15Handle(t, label, p, storedKey(p, s, start))
	pre := r.Intn(3) == 0
	if w.pre = pre; pre {
		sk.EnableSubTreePrecomputation()
	}
	for life := 0; life < 3; life++ {
		amount := uint32(r.Intn(4 << uint(p.TreeHeight())))
		if r.Intn(3) == 0 {
			amount = uint32(min(p.Max(), 1<<uint(r.Intn(min(p.H, 31)))))
		}
		if r.Intn(4) > 0 {
			if err := sk.BorrowExactly(amount); err != nil {
				t.Violate("reserve-failed", label, nil, "BorrowExactly: %v", err)
				return
			}
		}
		for j := r.Intn(6); j > 0; j-- {
			w.begin()
			sk.Sign([]byte("x"))
		}
		var st *memctr.State
		if r.Intn(2) == 0 {
			// the crash comes while a signature is being made
			w.begin()
			sk.SignFrom(hookReader(func() { st = c.Snapshot() }))
		}
		if st == nil {
			st = c.Snapshot()
		}
		if r.Intn(5) == 0 && st.SeqNo < p.Max() {
			// a jump while the key was closed
			st.SeqNo += uint64(r.Int63n(int64(min(p.Max()-st.SeqNo, 1<<uint(r.Intn(40)))) + 1))
		}
		stale := 0
		for sta := range st.Trees {
			if w.path(st.SeqNo)[sta.Layer].Tree > sta.Tree {
				stale++
			}
		}
		t.Count("stale subtrees at reload", stale)
		t.Count("crashes", 1)
		old := sk
		w, c, sk = c15Handle(t, label, p, st)
		w.pre = pre // the cache may hold what was computed ahead before
		w.quiet(sk, memTrees(c), "reloaded after a crash")
		if life == 1 && pre {
			sk.EnableSubTreePrecomputation()
		}
		for j := 1 + r.Intn(5); j > 0; j-- {
			w.begin()
			sig, _ := sk.Sign([]byte("x"))
			if j == 1 {
				w.checkSig(k, sig, "x")
			}
		}
		w.quiet(sk, memTrees(c), "signed on after a crash")
		old.Close()
		t.Nontrivial(fmt.Sprint(label, life, st.SeqNo, stale))
	}
	sk.Close()
}

// c15FS watches a file-backed key: what a reopened container lists, and that
// the cache file does not grow for ever.
func c15FS(t *mon.T, label string, i int) {
	r := t.Rng(label)
	p := []ref.P{cheap(8, 4), cheap(10, 5), cheap(6, 2), cheap(40, 20), cheap(6, 3)}[i%5]
	dir := scratchDir("c15")
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "key")
	s := mkSeeds(r, p.N)
	w := &c15Watch{t: t, label: label, p: p}
	sk, pk, err := mustCtx(p).Derive(path, s.pub, s.sk, s.prf)
	if err != nil {
		panic(libErr{"Derive: " + err.Error()})
	}
	big := int64(0)
	g := 1 + r.Intn(4)
	for life := 0; life < t.Pick(4, 8); life++ {
		if r.Intn(3) == 0 {
			w.pre = true
			sk.EnableSubTreePrecomputation()
		}
		if r.Intn(3) == 0 {
			if err := sk.BorrowExactly(uint32(r.Intn(20))); err != nil {
				t.Violate("reserve-failed", label, nil, "BorrowExactly: %v", err)
			}
		}
		gr := &group{t: t, label: label}
		for j := 0; j < g; j++ {
			gr.Go(func() {
				for q := 0; q < 40/g; q++ {
					sig, err := sk.Sign([]byte("x"))
					if err == nil && q%8 == 0 && !verify(t, label, pk, sig, []byte("x")) {
						t.Violate("invalid", label, nil, "%v: a signature is invalid", p)
					}
				}
			})
		}
		gr.Wait()
		if u := sk.UnretiredSeqNos(); u != 0 {
			t.Violate("unretired", label, nil, "%v: nothing is in progress, %d sequence numbers are unretired", p, u)
		}
		if err := sk.Close(); err != nil {
			t.Violate("close-failed", label, nil, "Close: %v", err)
		}
		seq := uint64(sk.SeqNo())
		c, err := xmssmt.OpenFSPrivateKeyContainer(path)
		if err != nil {
			panic(libErr{"open: " + err.Error()})
		}
		list, err := c.ListSubTrees()
		if err != nil {
			panic(libErr{"ListSubTrees: " + err.Error()})
		}
		c.Close()
		t.Count("quiet moments judged", 1)
		if bad := w.cacheIs(seq, list); bad != "" {
			t.Violate("cache-fs", label, nil, "%v, file-backed, closed: %s", p, bad)
		}
		if fi, err := os.Stat(path + ".cache"); err == nil {
			big = max(big, fi.Size())
		}
		if sk, pk, _, err = xmssmt.LoadPrivateKey(path); err != nil {
			panic(libErr{"load: " + err.Error()})
		}
	}
	sk.Close()
	// At no time are more than these cached: the subtrees of the signers
	// in progress, and those computed ahead (by everyone who might be late).
	q := fromRef(p)
	slots := int64((p.D + 1) * (g + 2) * 2)
	if limit := slots * int64(q.CachedSubTreeSize()+3*4096); big > limit {
		t.Violate("cache-grows", label, nil, "%v: the cache file grew to %d bytes; a subtree takes %d", p, big, q.CachedSubTreeSize())
	}
	t.Note("largest cache file seen ("+p.String()+")", big)
	t.Nontrivial(label)
	if i < 2 {
		c15Growth(t, label+"/growth", i)
	}
}

// c15Growth signs one after another over many subtrees: the cache file must
// not be larger in the end than after the first few.
func c15Growth(t *mon.T, label string, i int) {
	p := cheap(12, 6)
	dir := scratchDir("c15g")
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "key")
	s := mkSeeds(t.Rng(label), p.N)
	sk, _, err := mustCtx(p).Derive(path, s.pub, s.sk, s.prf)
	if err != nil {
		panic(libErr{"Derive: " + err.Error()})
	}
	if err := sk.BorrowExactly(3000); err != nil {
		panic(libErr{"BorrowExactly: " + err.Error()})
	}
	size := func() int64 {
		fi, err := os.Stat(path + ".cache")
		if err != nil {
			return 0
		}
		return fi.Size()
	}
	var early int64
	for j := 0; j < 1500; j++ {
		if _, err := sk.Sign(nil); err != nil {
			panic(libErr{"Sign: " + err.Error()})
		}
		if j == 300 {
			early = size()
		}
		if i == 1 && j%100 == 0 {
			sk.Close()
			if sk, _, _, err = xmssmt.LoadPrivateKey(path); err != nil {
				panic(libErr{"load: " + err.Error()})
			}
		}
	}
	if n := sk.CachedSubTrees(); n > p.D {
		t.Violate("cache-count", label, nil, "%v: %d subtrees are cached after signing one by one", p, n)
	}
	sk.Close()
	if size() > early {
		t.Violate("cache-grows", label, nil, "%v: the cache file grew from %d bytes after 300 signatures to %d after 1500", p, early, size())
	}
	t.Count("subtrees passed in growth runs", 375)
}
