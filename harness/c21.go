package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"syscall"
	"time"

	"xverif/memctr"
	"xverif/mon"
	"xverif/ref"

	"github.com/bwesterb/go-xmssmt"
)

func init() {
	checks["C21"] = check{run: runC21,
		rule: "Cached subtrees lie in memory of their own which the monitor write-protects as soon as the first signature using them is out (or nothing is in progress), and from the very beginning after a reload: recomputing one faults. Allocations per subtree are counted over histories of signers, precomputation, reloads and damaged neighbours. Processor time, measured in a process that does nothing else, is compared with that of computing one subtree. With precomputation the next bottom subtree must have been asked for before the signers cross. Non-trivial: distinct (instance, index, event) judged."}
	workers["cost"] = costWorker
}

// c21 watches a key in a container whose finished subtrees are protected.
type c21 struct {
	t         *mon.T
	label     string
	p         ref.P
	key       *ref.Key
	ctr       *memctr.Ctr
	sk        *xmssmt.PrivateKey
	pre       bool
	faultless bool
	mu        sync.Mutex
	hist      []string
}

func (c *c21) path(idx uint64) (out []STA) {
	th := uint(c.p.TreeHeight())
	for l := 0; l < c.p.D; l++ {
		out = append(out, STA{Layer: uint32(l), Tree: idx >> (uint(l+1) * th)})
	}
	return
}

func (c *c21) step(f string, a ...any) {
	c.mu.Lock()
	c.hist = append(c.hist, fmt.Sprintf(f, a...))
	c.mu.Unlock()
}

func (c *c21) viol(key, f string, a ...any) {
	c.mu.Lock()
	h := append([]string(nil), tail(c.hist, 20)...)
	c.mu.Unlock()
	c.t.Violate(key, c.label, h, "%v: %s; after %s", c.p, fmt.Sprintf(f, a...), strings.Join(tail(h, 8), ", "))
}

// guard turns a memory fault in f, on this goroutine, into a violation.
func (c *c21) guard(what string, f func()) (ok bool) {
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	defer func() {
		e := recover()
		if e == nil {
			return
		}
		if x, isFault := e.(interface{ Addr() uintptr }); isFault {
			st := string(debug.Stack())
			if mon.Library(st) {
				c.viol("written-again", "%s touches memory at %#x: a subtree that is finished is written to (or a dropped one used), at %s", what, x.Addr(), mon.PanicSite(st))
				ok = false
				return
			}
		}
		panic(e)
	}()
	f()
	return true
}

// sign signs and protects what the signature has shown to be finished.
func (c *c21) sign(r *rand.Rand, expectFail bool) bool {
	gens := map[STA]int{}
	idx0 := uint64(c.sk.SeqNo())
	for d := uint64(0); d < 10; d++ {
		for _, s := range c.path(idx0 + d) {
			gens[s], _ = c.ctr.Gen(s)
		}
	}
	msg := randBytes(r, r.Intn(50))
	var sig *xmssmt.Signature
	var err xmssmt.Error
	if !c.guard("Sign", func() { sig, err = c.sk.Sign(msg) }) {
		return false
	}
	if err != nil {
		if !expectFail {
			panic(libErr{"Sign: " + err.Error()})
		}
		return true
	}
	c.t.Count("signatures", 1)
	idx := uint64(sig.SeqNo())
	for _, s := range c.path(idx) {
		g0, known := gens[s]
		g1, cached := c.ctr.Gen(s)
		if !cached || !known || !(g0 == g1 || g0 == 0 && g1 == 1) {
			continue
		}
		if c.ctr.ProtectGen(s, g1) {
			c.t.Count("protections of finished subtrees", 1)
		}
	}
	if r.Intn(8) == 0 {
		if b, want := sigBytes(sig), c.key.Sign(idx, msg); !bytes.Equal(b, want) {
			c.viol("wrong-signature", "the signature with index %d is wrong", idx)
		}
	}
	return true
}

// quiet: nothing is in progress; everything cached is finished.
func (c *c21) quiet() bool {
	if !backgroundGone(60 * time.Second) {
		c.t.Inconclusive("%s: background work did not finish in time", c.label)
		return false
	}
	c.t.Count("protections of finished subtrees", c.ctr.ProtectAll())
	c.t.Count("quiet moments", 1)
	return true
}

// once judges the allocations: no drops, no second allocation.
func (c *c21) once(when string) {
	s := c.ctr
	s.Snapshot() // takes the container's lock
	for sta, n := range s.Allocs {
		if n > 1+s.Drops[sta] {
			c.viol("allocated-again", "%s: subtree %v was allocated %d times with %d drops", when, sta, n, s.Drops[sta])
		}
		c.t.Nontrivial(fmt.Sprintf("%v/%v/%s", c.p, sta, when))
	}
	c.t.Count("subtrees counted", len(s.Allocs))
}

func newC21(t *mon.T, label string, p ref.P, st *memctr.State, s seeds, threads int) *c21 {
	c := &c21{t: t, label: label, p: p, key: ref.NewKey(p, s.pub, s.sk, s.prf)}
	if st == nil {
		c.ctr = memctr.New()
		c.ctr.Mmap = true
		c.ctr.Broken = func(w string) { c.viol("contract", "%s", w) }
		ctx := mustCtx(p)
		ctx.Threads = threads
		ok := c.guard("DeriveInto", func() {
			sk, _, err := ctx.DeriveInto(c.ctr, clone(s.pub), clone(s.sk), clone(s.prf))
			if err != nil {
				panic(libErr{"DeriveInto: " + err.Error()})
			}
			c.sk = sk
		})
		if !ok {
			return nil
		}
		c.step("derive")
		return c
	}
	return c.load(st, nil)
}

// load reloads a stored state with every subtree protected but the damaged.
func (c *c21) load(st *memctr.State, damaged map[STA]bool) *c21 {
	c.ctr = memctr.From(st)
	c.ctr.Mmap = true
	c.ctr.Broken = func(w string) { c.viol("contract", "%s", w) }
	c.ctr.Import()
	for s := range st.Trees {
		if !damaged[s] {
			c.ctr.Protect(s)
			c.t.Count("protections of reloaded subtrees", 1)
		}
	}
	c.step("load at %d with %d subtrees", st.SeqNo, len(st.Trees))
	ok := c.guard("LoadPrivateKeyFrom", func() {
		sk, _, _, err := xmssmt.LoadPrivateKeyFrom(c.ctr)
		if err != nil {
			panic(libErr{"LoadPrivateKeyFrom: " + err.Error()})
		}
		c.sk = sk
	})
	if !ok {
		return nil
	}
	c.t.Count("reloads", 1)
	return c
}

// shut closes and returns what is stored.
func (c *c21) shut() *memctr.State {
	ok := c.guard("Close", func() {
		if err := c.sk.Close(); err != nil {
			panic(libErr{"Close: " + err.Error()})
		}
	})
	if !ok {
		return nil
	}
	c.once("at Close")
	c.step("close")
	st := c.ctr.Snapshot()
	c.ctr.UnprotectAll()
	c.ctr.Free()
	return st
}

func runC21(t *mon.T) {
	t.Assume = []string{"the container does not fail, except where said", "DangerousSetSeqNo is not used", "no cached subtree is damaged, except where said"}
	n := t.Pick(160, 2000)
	mon.ParN(6, n, func(i int) {
		l := fmt.Sprintf("life/%d", i)
		cs(t, l, func() { c21Life(t, l, i) })
	})
	n = t.Pick(80, 800)
	mon.ParN(4, n, func(i int) {
		l := fmt.Sprintf("crowd/%d", i)
		cs(t, l, func() { c21Crowd(t, l, i) })
	})
	n = t.Pick(120, 1500)
	mon.ParN(6, n, func(i int) {
		l := fmt.Sprintf("damage/%d", i)
		cs(t, l, func() { c21Damage(t, l, i) })
	})
	n = t.Pick(80, 800)
	mon.ParN(4, n, func(i int) {
		l := fmt.Sprintf("ahead/%d", i)
		cs(t, l, func() { c21Ahead(t, l, i) })
	})
	for _, s := range []string{"memory", "files"} {
		cs(t, "cost/"+s, func() { c21Cost(t, "cost/"+s, s) })
	}
	t.Require("protections of finished subtrees", 1000)
	t.Require("protections of reloaded subtrees", 200)
	t.Require("subtrees counted", 500)
	t.Require("crossings judged", 100)
	t.Require("costs compared", 20)
}

var c21Shapes = []ref.P{cheap(4, 2), cheap(6, 3), cheap(6, 2), cheap(4, 4), cheap(3, 1), cheap(8, 4), cheap(9, 3),
	shape(ref.P{Func: ref.SHA2, N: 32, W: 16}, 4, 2), shape(ref.P{Func: ref.SHAKE256, N: 24, W: 4, Prf: 1}, 6, 3), shape(ref.P{Func: ref.SHAKE, N: 32, W: 256}, 2, 2)}

// c21Life: sequential lives with reloads.
func c21Life(t *mon.T, label string, i int) {
	r := t.Rng(label)
	p := c21Shapes[i%len(c21Shapes)]
	c := newC21(t, label, p, nil, mkSeeds(r, p.N), i/2%3)
	if c == nil {
		return
	}
	left := int(p.Max())
	if left > 90 {
		left = 90
	}
	for left > 0 {
		switch r.Intn(10) {
		case 0:
			st := c.shut()
			if st == nil || c.load(st, nil) == nil {
				return
			}
		case 1:
			c.sk.EnableSubTreePrecomputation()
			c.step("precompute")
			if r.Intn(2) == 0 && !c.quiet() {
				return
			}
		case 2:
			k := uint32(r.Intn(5))
			c.sk.BorrowExactly(k)
			c.step("borrow %d", k)
		case 3:
			// a crash
			st := c.ctr.Snapshot()
			if !c.quiet() {
				return
			}
			if st.SeqNo > p.Max() {
				continue
			}
			for s := range st.Trees {
				if _, ok := c.ctr.Snapshot().Trees[s]; !ok {
					delete(st.Trees, s)
				}
			}
			st2 := c.shut()
			if st2 == nil {
				return
			}
			st2.SeqNo = st.SeqNo // as if the numbers had not been handed back
			if c.load(st2, nil) == nil {
				return
			}
			left = min(left, int(p.Max()-uint64(c.sk.SeqNo())))
		default:
			if !c.sign(r, false) {
				return
			}
			left--
			c.step("sign")
			if r.Intn(4) == 0 {
				if !c.quiet() {
					return
				}
			}
		}
	}
	if !c.quiet() {
		return
	}
	if i < 2 {
		t.Sample(map[string]any{"case": label, "instance": p.String(), "steps": c.hist})
	}
	c.shut()
}

// c21Crowd: several signers that need the same subtrees at the same moment.
func c21Crowd(t *mon.T, label string, i int) {
	r := t.Rng(label)
	p := c21Shapes[i%7]
	s := mkSeeds(r, p.N)
	var c *c21
	if i%2 == 0 {
		st := storedKey(p, s, uint64(r.Int63n(int64(p.Max()))))
		c = newC21(t, label, p, st, s, 0)
	} else {
		c = newC21(t, label, p, nil, s, 1+i/4%4)
	}
	if c == nil {
		return
	}
	if i/2%2 == 0 {
		c.sk.EnableSubTreePrecomputation()
	}
	lvl := i % 3
	c.ctr.Before = func(string) { jitter(lvl) }
	for round := 0; round < 4; round++ {
		left := int(p.Max() - uint64(c.sk.SeqNo()))
		if left <= 0 {
			break
		}
		n := min(left, 3+r.Intn(24))
		g := &group{t: t, label: label}
		start := make(chan struct{})
		per := (n + 5) / 6
		done := 0
		for w := 0; w < 6 && done < n; w++ {
			k := min(per, n-done)
			done += k
			rw := newRand(r.Int63())
			g.Go(func() {
				<-start
				for j := 0; j < k; j++ {
					if !c.sign(rw, false) {
						return
					}
				}
			})
		}
		close(start)
		g.Wait()
		c.step("%d signatures by 6 goroutines", n)
		if r.Intn(2) == 0 && !c.quiet() {
			return
		}
		t.Count("crowds", 1)
	}
	if !c.quiet() {
		return
	}
	st := c.shut()
	if st == nil || st.SeqNo >= p.Max() {
		return
	}
	// Reload and let them all need the unchecked subtrees at once.
	if c.load(st, nil) == nil {
		return
	}
	n := int(min(p.Max()-uint64(c.sk.SeqNo()), 6))
	g := &group{t: t, label: label}
	for w := 0; w < n; w++ {
		rw := newRand(r.Int63())
		g.Go(func() { c.sign(rw, false) })
	}
	g.Wait()
	if c.quiet() {
		c.shut()
	}
}

// c21Damage: neighbours of a damaged subtree are not recomputed.
func c21Damage(t *mon.T, label string, i int) {
	r := t.Rng(label)
	p := c21Shapes[i%len(c21Shapes)]
	s := mkSeeds(r, p.N)
	c := newC21(t, label, p, nil, s, 1)
	if c == nil {
		return
	}
	for n := r.Intn(int(min(p.Max()-1, 20))); n > 0; n-- {
		if !c.sign(r, false) {
			return
		}
	}
	c.sk.EnableSubTreePrecomputation()
	if !c.quiet() {
		return
	}
	st := c.shut()
	if st == nil {
		return
	}
	stas := make([]STA, 0, len(st.Trees))
	for sta := range st.Trees {
		stas = append(stas, sta)
	}
	sortSTA(stas)
	bad := map[STA]bool{}
	for _, sta := range stas {
		if r.Intn(len(stas)) == 0 || len(bad) == 0 && sta == stas[len(stas)-1] {
			b := st.Trees[sta]
			switch r.Intn(3) {
			case 0:
				b[r.Intn(len(b))] ^= byte(1 + r.Intn(255))
			case 1:
				for j := range b {
					b[j] = 0
				}
			case 2:
				r.Read(b)
			}
			bad[sta] = true
		}
	}
	c.step("damage %v of %d subtrees", bad, len(stas))
	if c.load(st, bad) == nil {
		return
	}
	if r.Intn(2) == 0 {
		c.sk.EnableSubTreePrecomputation()
	}
	left := int(min(p.Max()-uint64(c.sk.SeqNo()), 12))
	for j := 0; j < left; j++ {
		if !c.sign(r, false) {
			return
		}
		c.step("sign")
	}
	t.Count("damaged neighbours", len(bad))
	if c.quiet() {
		c.shut()
	}
}

// c21Ahead: with precomputation the next bottom subtree is there in time.
func c21Ahead(t *mon.T, label string, i int) {
	r := t.Rng(label)
	p := c21Shapes[i%len(c21Shapes)]
	if p.H == p.D && i%3 > 0 {
		p = cheap(6, 3)
	}
	s := mkSeeds(r, p.N)
	th := uint(p.TreeHeight())
	start := uint64(0)
	if i%3 == 1 {
		// close before a border
		start = uint64(r.Int63n(int64(p.Max()>>th)+1))<<th + uint64(r.Intn(3))
		if b := uint64(r.Intn(3)); start > b {
			start -= b
		}
		if start >= p.Max() {
			start = p.Max() - 1
		}
	} else if i%3 == 2 {
		start = uint64(r.Int63n(int64(p.Max())))
	}
	c := newC21(t, label, p, storedKey(p, s, start), s, 1+i%2)
	if c == nil {
		return
	}
	c.pre = true
	if r.Intn(3) == 0 {
		c.sk.BorrowExactly(uint32(r.Intn(9)))
	}
	c.sk.EnableSubTreePrecomputation()
	c.step("enable at %d", c.sk.SeqNo())
	asked := func(tree uint64, when string) {
		if tree > p.Max()>>th {
			return
		}
		sta := STA{Layer: 0, Tree: tree}
		for try := 0; ; try++ {
			if g, cached := c.ctr.Gen(sta); g > 0 || cached {
				c.t.Count("crossings judged", 1)
				c.t.Nontrivial(fmt.Sprintf("%v/%d/%s", p, tree, when))
				return
			}
			// It need not have got around to it yet.
			if try > 2 {
				c.viol("not-ahead", "%s (sequence number %d): nothing is in progress, and the next bottom subtree %v has not been asked for", when, c.sk.SeqNo(), sta)
				return
			}
			if !backgroundGone(60 * time.Second) {
				c.t.Inconclusive("%s: background work did not finish in time", c.label)
				return
			}
		}
	}
	asked(uint64(c.sk.SeqNo())>>th+1, "after enabling")
	conc := i%4 == 3
	for {
		seq := uint64(c.sk.SeqNo())
		if seq >= p.Max() || t.Stop() {
			break
		}
		if c.t.Counter("crossings judged") > int64(t.Pick(40000, 400000)) {
			break
		}
		if r.Intn(6) == 0 {
			c.sk.BorrowExactly(uint32(r.Intn(1 << th)))
			c.step("borrow")
		}
		if conc {
			n := int(min(uint64(1+r.Intn(1<<th)), p.Max()-seq))
			g := &group{t: t, label: label}
			for w := 0; w < n; w++ {
				rw := newRand(r.Int63())
				g.Go(func() { c.sign(rw, false) })
			}
			g.Wait()
			c.step("%d signatures at once", n)
		} else if r.Intn(5) == 0 {
			c.guard("SignFrom", func() { c.sk.SignFrom(&failReader{b: []byte("x")}) })
			c.step("failing sign")
		} else {
			if !c.sign(r, false) {
				return
			}
			c.step("sign")
		}
		if seq = uint64(c.sk.SeqNo()); seq < p.Max() {
			// Judged at every index: the next one the signers cross into.
			asked(seq>>th+1, "between signatures")
			if seq&(1<<th-1) == 0 {
				asked(seq>>th, "at the border")
			}
		}
		if r.Intn(5) == 0 && !c.quiet() {
			return
		}
	}
	if c.quiet() {
		c.shut()
	}
}

// Costs are measured by a process that does nothing else.

func cpuNow() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// realign rewrites a cache file with its subtrees aligned to al bytes, or in
// format 0.
func realign(path string, p ref.P, al int) {
	old, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	from := int(binary.BigEndian.Uint32(old[13:]))
	if from == 0 {
		from = 4096
	}
	to := al
	if al == 0 {
		to = 4096
	}
	entry := fromRefPtr(p).CachedSubTreeSize() + 13
	pad := func(a int) int { return (entry + a - 1) / a * a }
	n := int(binary.BigEndian.Uint32(old[8:]))
	out := make([]byte, to+n*pad(to))
	copy(out, old[:17])
	if al == 0 {
		m, _ := hex.DecodeString("e77957607ef79446")
		copy(out, m)
		clear(out[12:17])
	} else {
		m, _ := hex.DecodeString("5a11d7cf4a1f6314")
		copy(out, m)
		out[12] = 1
		binary.BigEndian.PutUint32(out[13:], uint32(al))
	}
	for i := 0; i < n; i++ {
		copy(out[to+i*pad(to):][:entry], old[from+i*pad(from):])
	}
	if err := os.WriteFile(path, out, 0600); err != nil {
		panic(err)
	}
}

func fromRefPtr(p ref.P) *xmssmt.Params {
	x := fromRef(p)
	return &x
}

// costWorker prints "name got baseline" lines, in microseconds of processor
// time: the least over several rounds.
func costWorker(args []string) int {
	fs := args[0] == "files"
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(3 << 30)
	p := cheap(16, 2) // subtrees of 256 leaves
	th := uint(p.TreeHeight())
	size := uint64(1) << th
	r := newRand(1)
	best := map[string]time.Duration{}
	var names []string
	measure := func(name string, f func()) {
		runtime.GC()
		t0 := cpuNow()
		f()
		d := cpuNow() - t0
		if b, ok := best[name]; !ok || d < b {
			if !ok {
				names = append(names, name)
			}
			best[name] = d
		}
	}
	chk := func(err error) {
		if err != nil {
			panic(libErr{err.Error()})
		}
	}
	xchk := func(err xmssmt.Error) {
		if err != nil {
			panic(libErr{err.Error()})
		}
	}
	dir := scratchDir("c21")
	defer os.RemoveAll(dir)
	for round := 0; round < 6; round++ {
		s := mkSeeds(r, p.N)
		path := filepath.Join(dir, fmt.Sprint("key", round))
		// stores
		var st *memctr.State
		var ctr *memctr.Ctr
		open := func() *xmssmt.PrivateKey {
			if fs {
				sk, _, _, err := xmssmt.LoadPrivateKey(path)
				xchk(err)
				return sk
			}
			ctr = memctr.From(st)
			sk, _, _, err := xmssmt.LoadPrivateKeyFrom(ctr)
			xchk(err)
			return sk
		}
		shut := func(sk *xmssmt.PrivateKey) {
			xchk(sk.Close())
			if !fs {
				st = ctr.S
			}
		}
		seek := func(sk *xmssmt.PrivateKey, seq uint64) {
			sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(seq))
		}
		sign := func(sk *xmssmt.PrivateKey, n int) {
			for j := 0; j < n; j++ {
				_, err := sk.Sign([]byte("cost"))
				xchk(err)
			}
		}
		crowd := func(sk *xmssmt.PrivateKey, n int) {
			var wg sync.WaitGroup
			for j := 0; j < n; j++ {
				wg.Add(1)
				go func() { defer wg.Done(); sign(sk, 1) }()
			}
			wg.Wait()
		}
		var sk *xmssmt.PrivateKey
		ctx := mustCtx(p)
		measure("two subtrees", func() {
			if fs {
				x, _, err := ctx.Derive(path, clone(s.pub), clone(s.sk), clone(s.prf))
				xchk(err)
				sk = x
			} else {
				ctr = memctr.New()
				x, _, err := ctx.DeriveInto(ctr, clone(s.pub), clone(s.sk), clone(s.prf))
				xchk(err)
				sk = x
			}
		})
		measure("signing 8 times", func() { sign(sk, 8) })
		measure("8 signers at once", func() { crowd(sk, 8) })
		measure("closing and reloading", func() { shut(sk); sk = open() })
		measure("signing after the reload", func() { sign(sk, 3) })
		measure("reloading three times and signing", func() {
			for j := 0; j < 3; j++ {
				shut(sk)
				sk = open()
				sign(sk, 1)
			}
		})
		shut(sk)
		sk = open()
		measure("8 signers at once after the reload", func() { crowd(sk, 8) })
		if fs {
			// The same cache, laid out as other versions and machines do.
			for _, al := range []int{0, 8192, 16384, 65536} {
				shut(sk)
				realign(path+".cache", p, al)
				name := fmt.Sprintf("reloading a cache aligned to %d bytes and signing", al)
				if al == 0 {
					name = "reloading a cache of format 0 and signing"
				}
				measure(name, func() { sk = open(); sign(sk, 1); shut(sk); sk = open(); sign(sk, 1) })
			}
			shut(sk)
			realign(path+".cache", p, 4096)
			sk = open()
		}
		// crossing
		seek(sk, size-1)
		measure("one subtree: crossing", func() { sign(sk, 2) })
		seek(sk, 2*size-2)
		measure("one subtree: crossing at once", func() { crowd(sk, 8) })
		measure("one subtree: enabling precomputation", func() { sk.EnableSubTreePrecomputation(); backgroundGone(time.Minute) })
		measure("precomputation enabled again", func() { sk.EnableSubTreePrecomputation(); backgroundGone(time.Minute) })
		seek(sk, 3*size-4)
		measure("one subtree: crossing into a precomputed one", func() { sign(sk, 6); backgroundGone(time.Minute) })
		// While the next one is being computed.
		seek(sk, 3*size+5)
		shut(sk)
		sk = open()
		// The next subtree (4) is cached from before.
		measure("precomputation of a cached one after the reload", func() { sk.EnableSubTreePrecomputation(); sign(sk, 1); backgroundGone(time.Minute) })
		seek(sk, 5*size-4)
		sign(sk, 3) // uses 4
		backgroundGone(time.Minute)
		// The step to 5 triggers 6 in the background, and 5 has to be computed.
		measure("two subtrees: signers while precomputing", func() { crowd(sk, 8); backgroundGone(time.Minute) })
		seek(sk, 9*size)
		measure("one subtree: signer and precomputation of the same one", func() {
			sk.EnableSubTreePrecomputation() // 10
			seek(sk, 10*size+1)
			crowd(sk, 8)
			backgroundGone(time.Minute)
		})
		seek(sk, 20*size-3)
		sign(sk, 1)
		backgroundGone(time.Minute)
		shut(sk)
		os.Remove(path)
		os.Remove(path + ".cache")
	}
	_ = chk
	for _, n := range names {
		fmt.Printf("%s=%d\n", n, best[n].Microseconds())
	}
	return 0
}

func c21Cost(t *mon.T, label, store string) {
	res := runWorker(nil, nil, "cost", store)
	if res.code != 0 {
		if k, what := crashVerdict(res.stderr); k != "" {
			t.Violate(k, label, lastBytes(res.stderr, 20000), "the library crashed: %s", what)
			return
		}
		if strings.Contains(res.stderr, "libErr") {
			t.Violate("refused", label, lastBytes(res.stderr, 5000), "the library refused: %s", lastBytes(res.stderr, 500))
			return
		}
		t.Inconclusive("%s: the worker ended with %d %v: %s", label, res.code, res.signal, lastBytes(res.stderr, 3000))
		return
	}
	us := map[string]float64{}
	var names []string
	for _, l := range strings.Split(strings.TrimSpace(res.stdout), "\n") {
		n, v, _ := strings.Cut(l, "=")
		var x float64
		fmt.Sscan(v, &x)
		us[n] = x
		names = append(names, n)
	}
	base := us["two subtrees"] / 2
	if base < 5000 {
		t.Inconclusive("%s: computing two subtrees takes %v us: too little to compare with", label, us["two subtrees"])
		return
	}
	for _, n := range names {
		f := us[n] / base
		limit := 0.4
		if strings.HasPrefix(n, "one subtree") {
			limit = 1.6
		} else if strings.HasPrefix(n, "two subtrees") {
			limit = 2.6
		}
		t.Count("costs compared", 1)
		t.Nontrivial(label + n)
		if f > limit {
			t.Violate("cost:"+n, label, res.stdout, "store in %s: %s costs as much as computing %.2f subtrees", store, n, f)
		}
	}
	t.Note(label, res.stdout)
}
