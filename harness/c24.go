package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/bwesterb/go-xmssmt"
	"xverif/mon"
	"xverif/ref"
)

func init() {
	checks["C24"] = check{run: runC24,
		rule: "Processes that do one thing for a long time (sign by one or many goroutines, with precomputation, reservations, failing readers and containers; open, load, sign, close, crash and reload; fail to open, load and derive in all ways; use keys while the disk is full; decode and verify) count goroutines, open files, mappings, cached subtrees, files and their sizes and live heap at several moments of rest; none may grow with the number of repetitions. Non-trivial: (activity, quantity, moment) that was measured."}
	workers["leak"] = c24Worker
}

// c24Sample is what a process holds at a moment of rest.
type c24Sample struct {
	Cycles     int
	Goroutines int
	Files      int
	Maps       int
	Heap       int
	Trees      int
	OnDisk     int
	DirEntries int
}

// c24Limit is what may be held at most, and how far the heap may grow.
type c24Report struct {
	Samples  []c24Sample
	MaxTrees int
	MaxDisk  int
	MaxMaps  int // while open
	Entries  int
	PerCycle int // bytes of heap per cycle that count as growth
}

// c24Ctr is a container that keeps nothing but its state.
type c24Ctr struct {
	mu    sync.Mutex
	p     *xmssmt.Params
	key   []byte
	seq   xmssmt.SignatureSeqNo
	lost  uint32
	trees map[STA][]byte
	fail  func(op string) bool
	calls int
}

type c24Err struct{}

func (c24Err) Error() string { return "injected failure" }
func (c24Err) Locked() bool  { return false }
func (c24Err) Inner() error  { return nil }

func (c *c24Ctr) in(op string) xmssmt.Error {
	c.calls++
	if c.fail != nil && c.fail(op) {
		return c24Err{}
	}
	return nil
}
func (c *c24Ctr) ResetCache() xmssmt.Error {
	c.trees = map[STA][]byte{}
	return nil
}
func (c *c24Ctr) GetSubTree(a STA) ([]byte, bool, xmssmt.Error) {
	if err := c.in("get"); err != nil {
		return nil, false, err
	}
	b, ok := c.trees[a]
	if !ok {
		b = make([]byte, c.p.CachedSubTreeSize())
		c.trees[a] = b
	}
	return b, ok, nil
}
func (c *c24Ctr) HasSubTree(a STA) bool { _, ok := c.trees[a]; return ok }
func (c *c24Ctr) DropSubTree(a STA) xmssmt.Error {
	delete(c.trees, a)
	return nil
}
func (c *c24Ctr) ListSubTrees() (l []STA, err xmssmt.Error) {
	for a := range c.trees {
		l = append(l, a)
	}
	return
}
func (c *c24Ctr) Reset(k []byte, p xmssmt.Params) xmssmt.Error {
	c.key, c.p, c.seq, c.lost = clone(k), &p, 0, 0
	return c.ResetCache()
}
func (c *c24Ctr) BorrowSeqNos(n uint32) (xmssmt.SignatureSeqNo, xmssmt.Error) {
	if err := c.in("borrow"); err != nil {
		return 0, err
	}
	c.seq += xmssmt.SignatureSeqNo(n)
	c.lost += n
	return c.seq - xmssmt.SignatureSeqNo(n), nil
}
func (c *c24Ctr) SetSeqNo(s xmssmt.SignatureSeqNo) xmssmt.Error {
	if err := c.in("set"); err != nil {
		return err
	}
	c.seq, c.lost = s, 0
	return nil
}
func (c *c24Ctr) GetSeqNo() (xmssmt.SignatureSeqNo, uint32, xmssmt.Error) { return c.seq, c.lost, nil }
func (c *c24Ctr) GetPrivateKey() ([]byte, xmssmt.Error)                   { return c.key, nil }
func (c *c24Ctr) Initialized() *xmssmt.Params                             { return c.p }
func (c *c24Ctr) CacheInitialized() bool                                  { return c.trees != nil }
func (c *c24Ctr) Close() xmssmt.Error                                     { return nil }

type c24Job struct {
	name   string
	cycles int // per block, quick
	run    func(w *c24W)
}

// c24W is a worker.
type c24W struct {
	dir    string
	cycles int
	rep    c24Report
	trees  func() int
	total  int
	base   int
}

func (w *c24W) sample() {
	dead := time.Now().Add(10 * time.Second)
	for runtime.NumGoroutine() > w.base && time.Now().Before(dead) {
		time.Sleep(time.Millisecond)
	}
	s := c24Sample{Cycles: w.total, Goroutines: runtime.NumGoroutine()}
	if fs, err := os.ReadDir("/proc/self/fd"); err == nil {
		for _, f := range fs { // the runtime keeps some of its own (pidfd, epoll)
			if l, err := os.Readlink("/proc/self/fd/" + f.Name()); err == nil && strings.HasPrefix(l, w.dir) {
				s.Files++
			}
		}
	}
	if b, err := os.ReadFile("/proc/self/maps"); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			if strings.Contains(l, w.dir) {
				s.Maps++
			}
		}
	}
	filepath.Walk(w.dir, func(_ string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			s.OnDisk += int(fi.Size())
			s.DirEntries++
		}
		return nil
	})
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	s.Heap = int(ms.HeapAlloc)
	if w.trees != nil {
		s.Trees = w.trees()
	}
	w.rep.Samples = append(w.rep.Samples, s)
}

// blocks runs f for every cycle and samples after each of six blocks.
func (w *c24W) blocks(f func(i int)) {
	for b := 0; b < 6; b++ {
		for i := 0; i < w.cycles; i++ {
			f(w.total)
			w.total++
		}
		w.sample()
	}
}

func c24Must(err xmssmt.Error) {
	if err != nil {
		panic(libErr{err.Error()})
	}
}

var c24P = cheap(24, 24) // subtrees of two leaves: one is dropped every other signature

func (w *c24W) memKey(seq uint64) (*xmssmt.PrivateKey, *xmssmt.PublicKey, *c24Ctr) {
	s := mkSeeds(newRand(24), c24P.N)
	par := fromRef(c24P)
	c := &c24Ctr{key: bytes.Join([][]byte{s.sk, s.prf, s.pub}, nil), p: &par, seq: xmssmt.SignatureSeqNo(seq)}
	sk, pk, _, err := xmssmt.LoadPrivateKeyFrom(c)
	c24Must(err)
	sk.Context().Threads = 1
	w.trees = func() int { return max(sk.CachedSubTrees(), len(c.trees)) }
	w.rep.MaxTrees = 2*c24P.D + 2
	return sk, pk, c
}

func (w *c24W) fsKey(p ref.P, path string) *xmssmt.PrivateKey {
	s := mkSeeds(newRand(24), p.N)
	ctx := mustCtx(p)
	ctx.Threads = 1
	sk, _, err := ctx.Derive(path, s.pub, s.sk, s.prf)
	c24Must(err)
	return sk
}

// par runs g goroutines that call f n times in all.
func c24Par(g, n int, f func()) {
	var wg sync.WaitGroup
	for i := 0; i < g; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < n/g; j++ {
				f()
			}
		}()
	}
	wg.Wait()
}

type c24Bad struct{ n int }

func (b *c24Bad) Read(p []byte) (int, error) {
	if b.n++; b.n > 2 {
		return 0, errors.New("injected failure")
	}
	return copy(p, "some bytes"), nil
}

var c24Jobs = []c24Job{
	{"sign", 4000, func(w *c24W) {
		sk, _, _ := w.memKey(1<<22 - 5000)
		w.blocks(func(int) {
			_, err := sk.Sign([]byte("m"))
			c24Must(err)
		})
	}},
	{"sign from many goroutines with precomputation", 700, func(w *c24W) {
		sk, _, _ := w.memKey(77)
		sk.EnableSubTreePrecomputation()
		w.rep.PerCycle = 20
		w.blocks(func(int) {
			c24Par(4, 4, func() {
				_, err := sk.Sign([]byte("m"))
				c24Must(err)
			})
		})
	}},
	{"sign while another signature is made", 2500, func(w *c24W) {
		sk, _, _ := w.memKey(0)
		w.blocks(func(i int) {
			_, err := sk.SignFrom(readerFunc(func([]byte) (int, error) {
				// the number taken last is retired first
				done := make(chan bool)
				go func() {
					_, err := sk.Sign([]byte("m"))
					c24Must(err)
					close(done)
				}()
				<-done
				return 0, io.EOF
			}))
			c24Must(err)
		})
	}},
	{"sign with failing readers", 4000, func(w *c24W) {
		sk, _, _ := w.memKey(0)
		w.blocks(func(i int) {
			if _, err := sk.SignFrom(&c24Bad{}); err == nil {
				panic(libErr{"a reader failed, but not SignFrom"})
			}
		})
	}},
	{"sign in a failing container", 1000, func(w *c24W) {
		sk, _, c := w.memKey(0)
		r := newRand(5)
		w.rep.PerCycle = 20
		w.blocks(func(i int) {
			c.fail = func(string) bool { return r.Intn(60) == 0 }
			c24Par(2, 4, func() { sk.Sign([]byte("m")) })
			c.fail = nil
			_, err := sk.Sign([]byte("m"))
			c24Must(err)
		})
	}},
	{"reserve and sign", 4000, func(w *c24W) {
		sk, _, _ := w.memKey(0)
		r := newRand(5)
		w.blocks(func(i int) {
			c24Must(sk.BorrowExactlyIfBelow(uint32(r.Intn(5)), uint32(r.Intn(2))))
			_, err := sk.Sign([]byte("m"))
			c24Must(err)
		})
	}},
	{"sign from files", 6000, func(w *c24W) {
		p := cheap(40, 20)
		sk := w.fsKey(p, filepath.Join(w.dir, "key"))
		w.trees = sk.CachedSubTrees
		w.rep.PerCycle = 6
		w.rep.MaxTrees = 2*p.D + 2
		w.rep.MaxMaps = 2*p.D + 2
		w.rep.Entries = 3
		w.rep.MaxDisk = (2*p.D + 6) * 8192
		sk.EnableSubTreePrecomputation()
		w.blocks(func(i int) {
			if i%100 == 0 {
				c24Must(sk.BorrowExactly(100))
			}
			_, err := sk.Sign([]byte("m"))
			c24Must(err)
		})
	}},
	{"load, sign and close", 150, func(w *c24W) {
		debug.SetGCPercent(-1)
		p := cheap(12, 6)
		path := filepath.Join(w.dir, "key")
		c24Must(w.fsKey(p, path).Close())
		w.rep.Entries = 2
		w.rep.MaxDisk = (2*p.D + 6) * 8192
		w.rep.PerCycle = 200
		w.blocks(func(i int) {
			sk, _, _, err := xmssmt.LoadPrivateKey(path)
			c24Must(err)
			if i%3 == 0 {
				sk.EnableSubTreePrecomputation()
			}
			if _, err := sk.Sign([]byte("m")); err != nil {
				panic(libErr{err.Error()})
			}
			if i%20 == 0 {
				sk.BorrowExactly(9)
			}
			c24Must(sk.Close())
			if i%400 == 217 {
				os.Remove(path + ".cache")
			}
		})
	}},
	{"crash and reload", 150, func(w *c24W) {
		debug.SetGCPercent(-1)
		p := cheap(40, 20)
		path := filepath.Join(w.dir, "key")
		c24Must(w.fsKey(p, path).Close())
		w.rep.Entries = 2
		w.rep.MaxDisk = (2*p.D + 6) * 8192
		w.rep.PerCycle = 200
		r := newRand(9)
		w.blocks(func(i int) {
			sk, _, _, err := xmssmt.LoadPrivateKey(path)
			c24Must(err)
			sk.EnableSubTreePrecomputation()
			c24Must(sk.BorrowExactly(uint32(1 + r.Intn(12))))
			_, err = sk.Sign([]byte("m"))
			c24Must(err)
			b, err2 := os.ReadFile(path)
			if err2 != nil {
				panic(err2)
			}
			c24Must(sk.Close())
			// as it was before closing
			if err2 := os.WriteFile(path, b, 0600); err2 != nil {
				panic(err2)
			}
		})
	}},
	{"derive, sign and close at other places", 120, func(w *c24W) {
		debug.SetGCPercent(-1)
		p := cheap(4, 2)
		w.rep.PerCycle = 200
		w.blocks(func(i int) {
			path := filepath.Join(w.dir, fmt.Sprint("key", i))
			sk := w.fsKey(p, path)
			_, err := sk.Sign([]byte("m"))
			c24Must(err)
			if i%2 == 0 {
				sk.EnableSubTreePrecomputation()
			}
			c24Must(sk.Close())
			for _, f := range []string{path, path + ".cache", path + ".lock", path + ".tmp"} {
				os.Remove(f)
			}
		})
	}},
	{"open and close at other places", 3000, func(w *c24W) {
		w.rep.PerCycle = 50
		dir := filepath.Join(w.dir, strings.Repeat("long", 50))
		os.Mkdir(dir, 0700)
		w.blocks(func(i int) {
			ctr, err := xmssmt.OpenFSPrivateKeyContainer(filepath.Join(dir, fmt.Sprintf("key%0120d", i)))
			c24Must(err)
			c24Must(ctr.Close())
		})
	}},
	{"fail to open, load and derive", 60, func(w *c24W) {
		debug.SetGCPercent(-1)
		p := cheap(4, 2)
		good := filepath.Join(w.dir, "good")
		held := filepath.Join(w.dir, "held")
		c24Must(w.fsKey(p, good).Close())
		file, _ := os.ReadFile(good)
		hk := w.fsKey(p, held)
		defer runtime.KeepAlive(hk)
		bad := map[string][]byte{"empty": nil, "short": file[:20], "cut": file[:len(file)-1]}
		for k, o := range map[string]int{"magic": 3, "func": 8, "n": 12, "d": 20, "w": 22, "prf": 23, "seqno": 24} {
			b := clone(file)
			b[o] ^= 0x55
			bad[k] = b
		}
		for k, b := range bad {
			os.WriteFile(filepath.Join(w.dir, "bad-"+k), b, 0600)
		}
		os.MkdirAll(filepath.Join(w.dir, "cachedir.cache"), 0700)
		os.WriteFile(filepath.Join(w.dir, "cachedir"), file, 0600)
		os.MkdirAll(filepath.Join(w.dir, "tmpdir.tmp"), 0700)
		os.WriteFile(filepath.Join(w.dir, "tmpdir"), file, 0600)
		os.MkdirAll(filepath.Join(w.dir, "isdir"), 0700)
		for _, f := range []string{"junkcache", "cutcache", "zerocache"} {
			os.WriteFile(filepath.Join(w.dir, f), file, 0600)
		}
		cache, _ := os.ReadFile(good + ".cache")
		w.rep.MaxMaps = 10
		w.rep.Entries = 200
		w.rep.MaxDisk = 1 << 20
		w.rep.PerCycle = 2000
		w.blocks(func(i int) {
			must := func(what string, err xmssmt.Error) {
				if err == nil {
					panic(libErr{what + ": no error"})
				}
			}
			for k := range bad {
				_, _, _, err := xmssmt.LoadPrivateKey(filepath.Join(w.dir, "bad-"+k))
				must(k, err)
			}
			for _, f := range []string{"cachedir", "isdir", "missing", "held", "no/such/dir", "held/file"} {
				_, _, _, err := xmssmt.LoadPrivateKey(filepath.Join(w.dir, f))
				must(f, err)
			}
			for _, f := range []string{"isdir", "held", "no/such/dir", "held/file"} {
				_, _, err := mustCtx(p).GenerateKeyPair(filepath.Join(w.dir, f))
				must(f, err)
			}
			// This one only fails if the temporary key file has the name
			// we think it has.
			if sk, _, err := mustCtx(p).GenerateKeyPair(filepath.Join(w.dir, "tmpdir")); err == nil {
				c24Must(sk.Close())
			}
			_, err := xmssmt.Sign(filepath.Join(w.dir, "bad-magic"), []byte("m"))
			must("Sign", err)
			_, _, err = mustCtx(p).Derive(filepath.Join(w.dir, "x"), nil, nil, nil)
			must("no seeds", err)
			for f, b := range map[string][]byte{"junkcache": []byte("junk"), "cutcache": cache[:len(cache)-5000], "zerocache": make([]byte, 50000)} {
				os.WriteFile(filepath.Join(w.dir, f+".cache"), b, 0600)
				sk, _, _, err := xmssmt.LoadPrivateKey(filepath.Join(w.dir, f))
				c24Must(err)
				c24Must(sk.Close())
			}
			os.Remove(filepath.Join(w.dir, "missing.lock"))
		})
	}},
	{"use keys on a full disk", 120, func(w *c24W) {
		debug.SetGCPercent(-1)
		p := cheap(40, 20)
		path := filepath.Join(w.dir, "key")
		sk := w.fsKey(p, path)
		other := filepath.Join(w.dir, "other")
		c24Must(w.fsKey(p, other).Close())
		w.trees = sk.CachedSubTrees
		w.rep.PerCycle = 400
		w.rep.MaxTrees = 2*p.D + 2
		w.rep.MaxMaps = 2 * (2*p.D + 2)
		w.rep.Entries = 12
		w.rep.MaxDisk = 2 * (2*p.D + 6) * 8192
		sk.EnableSubTreePrecomputation()
		// No file may grow beyond that many bytes.
		signal.Ignore(syscall.SIGXFSZ)
		var old syscall.Rlimit
		if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
			panic(err)
		}
		full := func(n int) {
			lim := old
			if n >= 0 {
				lim.Cur = uint64(n)
			}
			if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
				panic(err)
			}
		}
		w.blocks(func(i int) {
			full([]int{0, 10, 30, 60, 80, 100, 5000, 9000, 40000, 80000}[i%10])
			for k := 0; k < 3; k++ {
				sk.Sign([]byte("m"))
				sk.BorrowExactly(uint32(k))
			}
			if k2, _, _, err := xmssmt.LoadPrivateKey(other); err == nil {
				k2.Sign([]byte("m"))
				k2.BorrowExactly(3)
				k2.Sign([]byte("m"))
				k2.Close()
			}
			if i%5 == 0 {
				s := mkSeeds(newRand(25), p.N)
				if k3, _, err := mustCtx(cheap(4, 2)).Derive(filepath.Join(w.dir, "new"), s.pub, s.sk, s.prf); err == nil {
					k3.Close()
				}
			}
			full(-1)
			_, err := sk.Sign([]byte("m"))
			c24Must(err)
			k2, _, _, err := xmssmt.LoadPrivateKey(other)
			c24Must(err)
			_, err = k2.Sign([]byte("m"))
			c24Must(err)
			c24Must(k2.Close())
		})
	}},
	{"decode and verify", 1200, func(w *c24W) {
		p := cheap(6, 3)
		c := &c24Ctr{}
		s := mkSeeds(newRand(1), p.N)
		sk, pk, err := mustCtx(p).DeriveInto(c, s.pub, s.sk, s.prf)
		c24Must(err)
		sig, err := sk.Sign([]byte("m"))
		c24Must(err)
		sb, pb := sigBytes(sig), pkBytes(pk)
		names := xmssmt.ListNames()
		w.blocks(func(i int) {
			if ok, _ := xmssmt.Verify(pb, sb, []byte("m")); !ok {
				panic(libErr{"valid signature rejected"})
			}
			b := clone(sb)
			b[i%len(b)] ^= 1
			xmssmt.Verify(pb, b, []byte("m"))
			xmssmt.Verify(pb[:i%len(pb)], sb, nil)
			pk.VerifyFrom(sig, &c24Bad{})
			pk.VerifyFrom(sig, io.LimitReader(&c24Bad{}, 5))
			xmssmt.NewContextFromName(names[i%len(names)])
			xmssmt.NewContextFromName2(fmt.Sprintf("XMSS-SHA2_%d_256", i))
			xmssmt.NewContextFromOid(i%2 == 0, uint32(i))
		})
	}},
}

func c24Worker(args []string) int {
	xmssmt.SetLogger(nil)
	for _, j := range c24Jobs {
		if j.name != args[0] {
			continue
		}
		w := &c24W{dir: scratchDir("c24"), cycles: j.cycles}
		defer os.RemoveAll(w.dir)
		fmt.Sscan(args[1], &w.cycles)
		w.base = runtime.NumGoroutine()
		j.run(w)
		b, _ := json.Marshal(w.rep)
		fmt.Println("REPORT " + string(b))
		return 0
	}
	return 4
}

func runC24(t *mon.T) {
	t.Assume = []string{"the Go runtime's own bookkeeping does not grow by more than the stated allowance"}
	mon.Par(len(c24Jobs), func(i int) {
		j := c24Jobs[i]
		cs(t, j.name, func() { c24Judge(t, j) })
	})
	t.Require("quantities compared", 6*5*len(c24Jobs))
}

func c24Judge(t *mon.T, j c24Job) {
	n := j.cycles * t.Pick(1, 12)
	res := runWorker(nil, nil, "leak", j.name, fmt.Sprint(n))
	if res.code != 0 {
		if k, what := crashVerdict(res.stderr); k != "" {
			t.Violate(k, j.name, lastBytes(res.stderr, 20000), "the library crashed: %s", what)
			return
		}
		if i := strings.Index(res.stderr, "libErr"); i >= 0 {
			t.Violate("refused", j.name, lastBytes(res.stderr, 5000), "%s: the library refused: %s", j.name, lastBytes(res.stderr[:min(len(res.stderr), i+400)], 500))
			return
		}
		t.Inconclusive("%s: the worker ended with %d %v: %s", j.name, res.code, res.signal, lastBytes(res.stderr, 3000))
		return
	}
	_, s, _ := strings.Cut(res.stdout, "REPORT ")
	var rep c24Report
	if err := json.Unmarshal([]byte(s), &rep); err != nil || len(rep.Samples) != 6 {
		t.Inconclusive("%s: no report: %q", j.name, lastBytes(res.stdout, 1000))
		return
	}
	t.Note(j.name, rep)
	t.Count("repetitions", rep.Samples[5].Cycles)
	bad := func(what, f string, a ...any) {
		t.Violate("grows:"+what, j.name, rep, "%s: %s", j.name, fmt.Sprintf(f, a...))
	}
	first := rep.Samples[0]
	for i, s := range rep.Samples {
		for what, v := range map[string][2]int{"goroutines": {s.Goroutines, first.Goroutines}, "open files": {s.Files, first.Files},
			"mappings": {s.Maps, rep.MaxMaps}, "cached subtrees": {s.Trees, rep.MaxTrees}, "bytes of files": {s.OnDisk, rep.MaxDisk},
			"files": {s.DirEntries, rep.Entries}} {
			t.Count("quantities compared", 1)
			t.Nontrivial(fmt.Sprint(j.name, what, i))
			if v[0] > v[1] {
				bad(what, "after %d repetitions %d %s (at most %d expected)", s.Cycles, v[0], what, v[1])
			}
		}
	}
	if first.Files > 4 {
		bad("open files", "after %d repetitions %d files are open", first.Cycles, first.Files)
	}
	// The heap: growth between the second and each later sample.
	per, floor := 5, 60000
	if rep.PerCycle != 0 { // goroutines, or the runtime's handles: slow to settle
		per, floor = rep.PerCycle, 250000
	}
	second, last := rep.Samples[1], rep.Samples[5]
	low := last.Heap
	for _, s := range rep.Samples[4:] {
		low = min(low, s.Heap)
	}
	high := 0
	for _, s := range rep.Samples[:2] {
		high = max(high, s.Heap)
	}
	t.Count("quantities compared", 1)
	if g := low - high; g > per*(last.Cycles-second.Cycles) && g > floor {
		bad("heap", "the live heap grew from %d to %d bytes in %d repetitions", high, low, last.Cycles-second.Cycles)
	}
}
