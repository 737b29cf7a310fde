package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"sync"

	"github.com/bwesterb/go-xmssmt"
	"xverif/memctr"
	"xverif/mon"
	"xverif/ref"
)

func init() {
	checks["C01"] = check{run: runC01,
		rule: "Histories of a key (concurrent signing, reserving, returning, querying, closing, reloading, cache resets, precomputation, processes taking turns) run against the real code; an online ledger of every index handed out flags repeats, gaps within a handle, and indices below the end of an earlier handle. Non-trivial: distinct histories (operation sequence and observed hand-out order)."}
}

// ledger is the monitor: every index handed out over the life of one key.
type ledger struct {
	t     *mon.T
	label string
	mu    sync.Mutex
	who   map[uint64]string
	order []uint64
	n     int
}

func newLedger(t *mon.T, label string) *ledger {
	return &ledger{t: t, label: label, who: map[uint64]string{}}
}

func (l *ledger) take(idx uint64, who string) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if prev, dup := l.who[idx]; dup {
		l.t.Violate("reused", l.label, map[string]any{"index": idx, "first": prev, "second": who},
			"index %d was handed out twice: to %s and to %s", idx, prev, who)
	}
	l.who[idx] = who
	l.order = append(l.order, idx)
	l.n++
}

// since returns the indices handed out after the first n, sorted.
func (l *ledger) since(n int) []uint64 {
	l.mu.Lock()
	defer l.mu.Unlock()
	r := append([]uint64(nil), l.order[n:]...)
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func (l *ledger) count() int { l.mu.Lock(); defer l.mu.Unlock(); return l.n }

// checkHandle verifies the contract of one finished handle: it started at
// start, and handed out exactly start, start+1, ...
func (l *ledger) checkHandle(from int, start uint64, end uint64) {
	ids := l.since(from)
	for i, id := range ids {
		if id != start+uint64(i) {
			l.t.Violate("not-consecutive", l.label, map[string]any{"start": start, "indices": ids},
				"the handle started at %d but its %dth index is %d", start, i, id)
			return
		}
	}
	if end != start+uint64(len(ids)) {
		l.t.Violate("seqno-off", l.label, map[string]any{"start": start, "end": end, "indices": ids},
			"after %d signatures from %d on the key reports sequence number %d", len(ids), start, end)
	}
}

func runC01(t *mon.T) {
	t.Assume = []string{"the container honours its documented contract", "DangerousSetSeqNo is only called to move ahead", "copies of the key file are not restored"}
	xmssmt.SetLogger(jitterLogger{2})
	// 1. sequential histories on a memory container and on files
	n := t.Pick(60, 1500)
	mon.Par(n, func(i int) {
		label := fmt.Sprintf("seq/%d", i)
		cs(t, label, func() { c01History(t, label, i%3 == 2, 1, t.Pick(60, 200)) })
	})
	// 2. concurrent histories
	n = t.Pick(48, 1500)
	mon.ParN(4, n, func(i int) {
		label := fmt.Sprintf("conc/%d", i)
		cs(t, label, func() { c01History(t, label, i%4 == 3, 2+i%7, t.Pick(12, 30)) })
	})
	// 3. several processes taking turns on one key file
	n = t.Pick(4, 60)
	mon.ParN(4, n, func(i int) {
		label := fmt.Sprintf("procs/%d", i)
		cs(t, label, func() { c01Procs(t, label, 2+i%3, t.Pick(15, 40)) })
	})
	t.Require("indices handed out", 5000)
	t.Require("reloads", 100)
	t.Require("reservations", 100)
	t.Require("key files brought to large numbers", 3)
	t.Require("turns taken between processes", 5)
}

// c01History runs a random history; with g > 1 every step runs g goroutines.
func c01History(t *mon.T, label string, fs bool, g int, steps int) {
	r := t.Rng(label)
	shapes := [][2]int{{8, 4}, {9, 3}, {10, 5}, {12, 3}, {7, 1}, {12, 6}, {40, 20}, {60, 20}}
	sh := shapes[r.Intn(len(shapes))]
	p := cheap(sh[0], sh[1])
	max := uint64(1)<<uint(p.H) - 1
	s := mkSeeds(r, p.N)
	rk := ref.NewKey(p, s.pub, s.sk, s.prf)
	l := newLedger(t, label)
	var ctr *memctr.Ctr
	var sk *xmssmt.PrivateKey
	var pk *xmssmt.PublicKey
	var path string
	if fs {
		d := scratchDir("c01")
		defer os.RemoveAll(d)
		path = filepath.Join(d, "key")
	}
	brk := func(c *memctr.Ctr) {
		c.Broken = func(w string) { t.Violate("container-misuse", label, w, "%s", w) }
		if g > 1 {
			c.Before = func(string) { jitter(2) }
		}
	}
	startSeq := uint64(0)
	if fs {
		ctx := mustCtx(p)
		var err xmssmt.Error
		sk, pk, err = ctx.Derive(path, clone(s.pub), clone(s.sk), clone(s.prf))
		if err != nil {
			panic(libErr{"Derive: " + err.Error()})
		}
		// A key that has made many signatures: numbers that need more than
		// 32 bits in the file.
		if p.H > 33 && r.Intn(4) > 0 {
			startSeq = []uint64{1<<32 - uint64(r.Intn(40)), 1<<32 + uint64(r.Intn(1000)), uint64(r.Int63()) % (max - 3000)}[r.Intn(3)]
			sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(startSeq))
			t.Count("key files brought to large numbers", 1)
		}
	} else {
		if r.Intn(2) == 0 {
			switch r.Intn(3) {
			case 0:
				startSeq = uint64(r.Int63()) % max
			case 1:
				startSeq = uint64(r.Intn(int(min(max, 1000))))
			case 2:
				if p.H > 33 {
					startSeq = 1<<32 - uint64(r.Intn(200))
				}
			}
			if startSeq+3000 > max && p.H > 20 {
				startSeq = 0
			}
		}
		var err xmssmt.Error
		st := storedKey(p, s, startSeq)
		ctr = memctr.From(st)
		brk(ctr)
		sk, pk, _, err = xmssmt.LoadPrivateKeyFrom(ctr)
		if err != nil {
			panic(libErr{"Load: " + err.Error()})
		}
	}
	_ = rk
	handleFrom, handleStart := 0, startSeq
	hist := ""
	if got := uint64(sk.SeqNo()); got != startSeq {
		t.Violate("start", label, nil, "key stored with sequence number %d starts at %d", startSeq, got)
	}
	sign := func(who string, rr *rand.Rand) {
		var sig *xmssmt.Signature
		var err xmssmt.Error
		if rr.Intn(3) == 0 {
			m := randBytes(rr, rr.Intn(200))
			sig, err = sk.SignFrom(&chunkReader{b: m, next: func(int) int { return 7 }})
		} else {
			sig, err = sk.Sign([]byte(who))
		}
		if err != nil {
			if uint64(sk.SeqNo()) < max {
				t.Violate("sign-failed", label, nil, "Sign failed at %d of %d: %v", sk.SeqNo(), max, err)
			}
			return
		}
		idx := uint64(sig.SeqNo())
		if idx >= max {
			t.Violate("beyond-end", label, nil, "index %d handed out, maximum is %d", idx, max)
		}
		// the index inside the signature is what matters: it picks the
		// one-time key
		if b := sigBytes(sig); len(b) >= 4+p.IndexBytes() {
			e := uint64(0)
			for _, x := range b[4 : 4+p.IndexBytes()] {
				e = e<<8 | uint64(x)
			}
			if e != idx {
				t.Violate("index-differs", label, nil, "signature reports index %d but encodes %d", idx, e)
			}
		}
		l.take(idx, who)
		t.Count("indices handed out", 1)
	}
	for step := 0; step < steps && !t.Stop(); step++ {
		op := r.Intn(10)
		hist += strconv.Itoa(op)
		seedOf := func(i int) *rand.Rand {
			return rand.New(rand.NewSource(t.Sub(fmt.Sprintf("%s/%d/%d", label, step, i))))
		}
		switch {
		case op < 5:
			if g == 1 {
				for i := r.Intn(6); i >= 0; i-- {
					sign(fmt.Sprintf("step %d", step), r)
				}
				break
			}
			grp := &group{t: t, label: label}
			for i := 0; i < g; i++ {
				i := i
				rr := seedOf(i)
				grp.Go(func() {
					for k := 1 + rr.Intn(6); k > 0; k-- {
						switch rr.Intn(8) {
						case 0:
							sk.BorrowExactly(uint32(rr.Intn(12)))
							t.Count("reservations", 1)
						case 1:
							sk.BorrowExactlyIfBelow(uint32(rr.Intn(12)), uint32(rr.Intn(5)))
							t.Count("reservations", 1)
						case 2:
							sk.SeqNo()
							sk.BorrowedSeqNos()
							sk.UnretiredSeqNos()
							sk.CachedSubTrees()
							sk.PublicKey()
						}
						sign(fmt.Sprintf("step %d goroutine %d", step, i), rr)
					}
				})
			}
			grp.Wait()
		case op < 7:
			k := uint32(r.Intn(20))
			var err xmssmt.Error
			if op == 5 {
				err = sk.BorrowExactly(k)
			} else {
				err = sk.BorrowExactlyIfBelow(k, uint32(r.Intn(10)))
			}
			if err != nil {
				t.Violate("borrow-failed", label, nil, "reserving failed: %v", err)
			}
			t.Count("reservations", 1)
		case op == 7:
			sk.EnableSubTreePrecomputation()
		default:
			l.checkHandle(handleFrom, handleStart, uint64(sk.SeqNo()))
			end := uint64(sk.SeqNo())
			if err := sk.Close(); err != nil {
				t.Violate("close-failed", label, nil, "Close failed: %v", err)
				return
			}
			var err xmssmt.Error
			var lost uint32
			resetCache := r.Intn(3) == 0
			if fs {
				if resetCache {
					c, err := xmssmt.OpenFSPrivateKeyContainer(path)
					if err != nil {
						panic(libErr{"open: " + err.Error()})
					}
					if err := c.ResetCache(); err != nil {
						panic(libErr{"ResetCache: " + err.Error()})
					}
					c.Close()
				}
				sk, pk, lost, err = xmssmt.LoadPrivateKey(path)
			} else {
				st := ctr.Snapshot()
				if resetCache {
					st.CacheInit = false
					st.Trees = nil
				}
				ctr = memctr.From(st)
				brk(ctr)
				sk, pk, lost, err = xmssmt.LoadPrivateKeyFrom(ctr)
			}
			if err != nil {
				t.Violate("reload-failed", label, nil, "reloading after a clean close failed: %v", err)
				return
			}
			t.Count("reloads", 1)
			if got := uint64(sk.SeqNo()); got < end {
				t.Violate("went-back", label, nil, "after a clean close at %d the key reloads at %d", end, got)
			}
			_ = lost
			handleFrom, handleStart = l.count(), uint64(sk.SeqNo())
		}
	}
	l.checkHandle(handleFrom, handleStart, uint64(sk.SeqNo()))
	sk.Close()
	_ = pk
	t.Nontrivial(label + hist + fmt.Sprint(l.order))
	t.Distinct("hand-out orders", fmt.Sprint(l.order))
	t.Distinct("operation sequences", hist)
	if l.n > 0 && g > 1 {
		t.Sample(map[string]any{"case": label, "shape": p.String(), "goroutines": g, "files": fs, "operations": hist, "order_head": head(l.order, 20)})
	}
}

func head(x []uint64, n int) []uint64 {
	if len(x) > n {
		return x[:n]
	}
	return x
}

// c01Procs lets several long-lived processes use the package-level helpers on
// one key file, retrying while it is locked.
func c01Procs(t *mon.T, label string, procs, each int) {
	d := scratchDir("c01p")
	defer os.RemoveAll(d)
	seed := t.Sub(label) % 100000
	h, dd := 12, 3
	ev := filepath.Join(d, "events")
	r := runWorker(nil, nil, "fs", d, ev, fmt.Sprint(seed), fmt.Sprint(h), fmt.Sprint(dd), "gen 1,sign 3,close")
	if r.code != 0 {
		t.Inconclusive("%s: cannot generate: %s", label, lastBytes(r.stderr, 2000))
		return
	}
	var wg sync.WaitGroup
	res := make([]procResult, procs)
	for i := 0; i < procs; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			res[i] = runWorker(nil, nil, "turns", filepath.Join(d, "key"), ev, fmt.Sprint(each), fmt.Sprint(procs), filepath.Join(d, "barrier"), fmt.Sprint(i))
		}(i)
	}
	wg.Wait()
	for i := range res {
		if res[i].code != 0 {
			if k, what := crashVerdict(res[i].stderr); k != "" {
				t.Violate(k, label, lastBytes(res[i].stderr, 10000), "a process crashed in the library: %s", what)
				return
			}
			t.Inconclusive("%s: worker %d ended with %d %s: %s", label, i, res[i].code, res[i].signal, lastBytes(res[i].stderr, 2000))
			return
		}
	}
	l := newLedger(t, label)
	last, turns := "", 0
	for _, e := range readEvents(ev) {
		var idx uint64
		var err error
		switch e.kind {
		case "REL":
			idx, err = strconv.ParseUint(e.f[0], 10, 64)
		case "TURN":
			idx, err = strconv.ParseUint(e.f[1], 10, 64)
			if e.f[0] != last {
				turns++
			}
			last = e.f[0]
		default:
			continue
		}
		if err != nil {
			t.Inconclusive("%s: unreadable event %q", label, e.raw)
			return
		}
		l.take(idx, e.raw)
		t.Count("indices handed out", 1)
	}
	if l.n < procs*each {
		t.Inconclusive("%s: only %d signatures of %d", label, l.n, procs*each)
	}
	l.checkHandle(0, 0, uint64(l.n))
	t.Count("turns taken between processes", turns)
	t.Nontrivial(label + fmt.Sprint(l.n, turns))
}
