package main

import (
	"bytes"
	"fmt"
	mrand2 "math/rand/v2"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"github.com/bwesterb/go-xmssmt"
	"xverif/memctr"
	"xverif/mon"
	"xverif/ref"
)

func init() {
	checks["C12"] = check{run: runC12,
		rule: "The library and the harness are built with the Go race detector. Worker processes run concurrent scenarios (signing, borrowing, counters, verification, precomputation, shared contexts, damaged caches discovered by several signers, failing containers, file containers, opening and closing) over a memory container that performs no synchronisation of its own, with random yields at every container and log call. Every race report with a frame of the library is a violation. Non-trivial: distinct (scenario, seed) runs that finished; the number of operations each performed is counted."}
	workers["c12"] = c12Worker
}

var c12Scenarios = []string{"sign", "cross", "damaged", "context", "verify", "fs", "fslock", "threads", "close", "faults", "values", "damagedfs", "derive", "failpre"}

func runC12(t *mon.T) {
	if !raceEnabled {
		t.Inconclusive("the harness was built without the race detector")
		return
	}
	seeds := t.Pick(36, 400)
	n := seeds * len(c12Scenarios)
	mon.ParN(4, n, func(i int) {
		sc := c12Scenarios[i%len(c12Scenarios)]
		if sc == "failpre" && i/len(c12Scenarios)%3 != 0 {
			return // an expensive one
		}
		l := fmt.Sprintf("%s/%d", sc, i/len(c12Scenarios))
		cs(t, l, func() { c12Run(t, l, sc) })
	})
	t.Require("scenario runs", n*3/4)
	t.Require("signatures", 500)
}

func c12Run(t *mon.T, label, sc string) {
	dir := scratchDir("c12")
	defer os.RemoveAll(dir)
	logp := filepath.Join(dir, "race")
	res := runWorker(nil, []string{
		"GORACE=log_path=" + logp + " exitcode=0 halt_on_error=0 history_size=5 atexit_sleep_ms=0",
		fmt.Sprintf("GOMAXPROCS=%d", 2+mrand2.IntN(7)),
	}, "c12", sc, fmt.Sprint(t.Sub(label)), dir, fmt.Sprint(t.Pick(1, 4)))
	logs, _ := filepath.Glob(logp + ".*")
	var all string
	for _, f := range logs {
		b, _ := os.ReadFile(f)
		all += string(b)
	}
	all += res.stderr
	for _, rep := range strings.Split(all, "==================") {
		if !strings.Contains(rep, "WARNING: DATA RACE") {
			continue
		}
		t.Count("race reports", 1)
		acc := c12Accesses(rep)
		if !mon.Library(rep) {
			t.Inconclusive("a data race inside the harness:\n%s", rep)
			continue
		}
		t.Violate("race:"+strings.Join(acc, "|"), label, rep, "data race between %s:\n%s", strings.Join(acc, " and "), rep)
	}
	if res.code != 0 {
		if k, what := crashVerdict(res.stderr); k != "" {
			t.Violate("crash:"+sc+":"+k, label, lastBytes(res.stderr, 20000), "scenario %s crashed inside the library: %s", sc, what)
		} else if i := strings.Index(res.stderr, "fatal error: concurrent map"); i >= 0 && mon.Library(res.stderr) {
			t.Violate("map:"+sc, label, lastBytes(res.stderr, 20000), "concurrent map access in scenario %s", sc)
		} else {
			t.Inconclusive("scenario %s ended with %d %s:\n%s", sc, res.code, res.signal, lastBytes(res.stderr, 4000))
		}
		return
	}
	t.Count("scenario runs", 1)
	t.Nontrivial(label)
	for _, f := range strings.Fields(res.stdout) {
		if k, v, ok := strings.Cut(f, "="); ok {
			n, _ := strconv.Atoi(v)
			t.Count(k, n)
		}
	}
}

var c12Fn = regexp.MustCompile(`(?m)^  (github\.com/bwesterb/go-xmssmt[^\s(]*(?:\(\*?\w+\))?[^\s(]*)`)

// c12Accesses names the library functions of the two accesses of a report.
func c12Accesses(rep string) (out []string) {
	for _, part := range strings.Split(rep, "\n\n") {
		p := strings.TrimSpace(part)
		if !strings.HasPrefix(p, "WARNING") && !strings.HasPrefix(p, "Previous") && !strings.HasPrefix(p, "Read") && !strings.HasPrefix(p, "Write") {
			continue
		}
		if m := c12Fn.FindStringSubmatch(part); m != nil {
			out = append(out, strings.TrimPrefix(m[1], "github.com/bwesterb/go-xmssmt."))
		} else {
			out = append(out, "?")
		}
	}
	sort.Strings(out)
	return
}

// c12Worker runs one scenario; races go to the log of the race detector.
func c12Worker(args []string) int {
	sc := args[0]
	seed, _ := strconv.ParseInt(args[1], 10, 64)
	dir := args[2]
	rounds, _ := strconv.Atoi(args[3])
	mon.WatchStuck(func(stacks string) {
		fmt.Fprintln(os.Stderr, "harness: stuck in scenario "+sc+":\n"+stacks)
		os.Exit(5)
	})
	r := newRand(seed)
	xmssmt.SetLogger(jitterLogger{level: 1 + r.Intn(2)})
	w := &c12w{dir: dir, n: make([]map[string]int, 0)}
	for i := 0; i < rounds; i++ {
		w.run(sc, newRand(seed+int64(i)*7919))
	}
	total := map[string]int{}
	for _, m := range w.n {
		for k, v := range m {
			total[k] += v
		}
	}
	for k, v := range total {
		fmt.Printf("%s=%d ", k, v)
	}
	return 0
}

type c12w struct {
	dir string
	n   []map[string]int // one map per goroutine, summed at the end
}

// par runs f in g goroutines which start together.
func (w *c12w) par(g int, f func(i int, m map[string]int)) {
	start := make(chan struct{})
	done := make(chan struct{})
	base := len(w.n)
	for i := 0; i < g; i++ {
		w.n = append(w.n, map[string]int{})
	}
	for i := 0; i < g; i++ {
		m := w.n[base+i]
		i := i
		go func() {
			<-start
			f(i, m)
			done <- struct{}{}
		}()
	}
	close(start)
	for i := 0; i < g; i++ {
		<-done
	}
}

func quiet(st *memctr.State) *memctr.Ctr {
	var c *memctr.Ctr
	if st == nil {
		c = memctr.New()
	} else {
		c = memctr.From(st)
	}
	c.Quiet = true
	c.Before = func(string) { jitter(1) }
	return c
}

func check12(err xmssmt.Error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

// ops does one random thing to the key.
func (w *c12w) op(k int, m map[string]int, sk *xmssmt.PrivateKey, pk *xmssmt.PublicKey) {
	switch mrand2.IntN(14) {
	case 0:
		sk.SeqNo()
	case 1:
		sk.BorrowedSeqNos()
	case 2:
		sk.UnretiredSeqNos()
	case 3:
		sk.CachedSubTrees()
	case 4:
		sk.BorrowExactly(uint32(mrand2.IntN(6)))
	case 5:
		sk.BorrowExactlyIfBelow(uint32(mrand2.IntN(6)), uint32(mrand2.IntN(3)))
	case 6:
		sk.EnableSubTreePrecomputation()
	case 7:
		b, _ := sk.PublicKey().MarshalBinary()
		_ = b
		p := sk.Context().Params()
		_ = p.String()
		sk.Context().Name()
		sk.Context().Oid()
		sk.Context().SignatureSize()
	default:
		msg := []byte{byte(k), byte(mrand2.IntN(256))}
		sig, err := sk.Sign(msg)
		if err != nil {
			m["refused"]++
			return
		}
		m["signatures"]++
		if mrand2.IntN(3) == 0 {
			if ok, err := pk.Verify(sig, msg); !ok {
				m["invalid"]++
				_ = err
			}
			m["verifications"]++
			sig.MarshalBinary()
			_ = sig.String()
		}
	}
	m["operations"]++
}

func (w *c12w) run(sc string, r interface{ Intn(int) int }) {
	rr := newRand(int64(r.Intn(1 << 30)))
	small := []ref.P{cheap(4, 2), cheap(6, 3), cheap(3, 1), cheap(6, 2), cheap(5, 5),
		{Func: ref.SHA2, N: 32, H: 4, D: 2, W: 16, Prf: ref.RFC}, {Func: ref.SHAKE256, N: 24, H: 4, D: 2, W: 4, Prf: ref.NIST}, {Func: ref.SHAKE, N: 32, H: 6, D: 3, W: 16, Prf: ref.RFC}}
	p := small[rr.Intn(len(small))]
	s := mkSeeds(rr, p.N)
	g := 2 + rr.Intn(7)
	switch sc {
	case "sign", "cross", "threads":
		ctx := mustCtx(p)
		ctx.Threads = []int{0, 1, 2, 3, 5, 33}[rr.Intn(6)]
		if sc == "threads" {
			ctx.Threads = []int{2, 3, 8, 17, 64}[rr.Intn(5)]
			p = shape(p, 6, 1)
			if rr.Intn(2) == 0 {
				p = shape(p, 12, 2)
			}
			th := ctx.Threads
			ctx = mustCtx(p)
			ctx.Threads = th
		}
		sk, pk, err := ctx.DeriveInto(quiet(nil), s.pub, s.sk, s.prf)
		check12(err)
		if sc == "cross" {
			sk.EnableSubTreePrecomputation()
		}
		w.par(g, func(i int, m map[string]int) {
			for k := 0; k < 14; k++ {
				w.op(k, m, sk, pk)
			}
		})
		sk.Close()
	case "damaged", "faults":
		st := storedKey(p, s, 0)
		ctr0, sk0, _, _, err := loadKey(st.Clone())
		check12(err)
		sk0.Sign([]byte("x"))
		sk0.Close()
		st = ctr0.Snapshot()
		for _, b := range st.Trees {
			if rr.Intn(4) > 0 {
				b[rr.Intn(len(b))] ^= byte(1 + rr.Intn(255))
			}
		}
		ctr := quiet(st)
		sk, pk, _, err := xmssmt.LoadPrivateKeyFrom(ctr)
		check12(err)
		if sc == "faults" {
			ctr.Fault = func(op string, n int) error {
				if op != "Close" && mrand2.IntN(12) == 0 {
					return fmt.Errorf("injected")
				}
				return nil
			}
		}
		if rr.Intn(2) == 0 {
			sk.EnableSubTreePrecomputation()
		}
		w.par(g, func(i int, m map[string]int) {
			for k := 0; k < 8; k++ {
				w.op(k, m, sk, pk)
			}
		})
		sk.Close()
	case "failpre":
		// All signatures of a subtree fail, and it is exhausted by that,
		// while it is still being generated in the background.
		p = []ref.P{{Func: ref.SHA2, N: 32, H: 10, D: 2, W: 16, Prf: ref.RFC}, {Func: ref.SHAKE, N: 16, H: 12, D: 3, W: 256, Prf: ref.NIST}, {Func: ref.SHAKE256, N: 32, H: 8, D: 2, W: 256, Prf: ref.RFC}}[rr.Intn(3)]
		s = mkSeeds(rr, p.N)
		th := p.H / p.D
		ctr := quiet(storedKey(p, s, uint64(rr.Intn(1<<th))))
		ctr.Before = func(string) {}
		sk, pk, _, err := xmssmt.LoadPrivateKeyFrom(ctr)
		check12(err)
		_, err = sk.Sign([]byte("x"))
		check12(err)
		var armed, started atomic.Bool
		armed.Store(true)
		ctr.Fault = func(op string, n int) error {
			if op != "GetSubTree" || !armed.Load() || started.CompareAndSwap(false, true) {
				return nil
			}
			return fmt.Errorf("injected")
		}
		sk.EnableSubTreePrecomputation()
		for !started.Load() {
			jitter(1)
		}
		end := uint64(2<<th + rr.Intn(3))
		w.par(1+rr.Intn(3), func(i int, m map[string]int) {
			for uint64(sk.SeqNo()) < end {
				if _, err := sk.Sign([]byte("lost")); err == nil {
					m["signatures"]++
				}
				m["refused"]++
			}
		})
		armed.Store(false)
		w.par(2, func(i int, m map[string]int) {
			sig, err := sk.Sign([]byte("y"))
			if err != nil {
				return
			}
			pk.Verify(sig, []byte("y"))
			m["signatures"]++
		})
		sk.Close()
	case "context":
		// One context for everything.
		ctx := mustCtx(p)
		if rr.Intn(2) == 0 {
			ctx = xmssmt.NewContextFromName("XMSS-SHAKE_10_256")
			q := ctx.Params()
			_ = q
			ctx = mustCtx(p)
		}
		w.par(g, func(i int, m map[string]int) {
			s := mkSeeds(newRand(int64(i)), p.N)
			sk, pk, err := ctx.DeriveInto(quiet(nil), s.pub, s.sk, s.prf)
			check12(err)
			for k := 0; k < 4; k++ {
				w.op(k, m, sk, pk)
			}
			ctx.Name()
			ctx.Oid()
			ctx.FromRFC()
			ctx.FromNIST()
			q := ctx.Params()
			q.MarshalBinary()
			ctx.SignatureSize()
			xmssmt.ListNames()
			xmssmt.ListNames2()
			c, err := xmssmt.NewContextFromName2([]string{"XMSS-SHA2_10_256", "XMSSMT-SHAKE_20/4_256", "XMSSMT-SHAKE_6/3_128_w4"}[mrand2.IntN(3)])
			check12(err)
			c.Name()
			if o := xmssmt.NewContextFromOid(true, uint32(1+mrand2.IntN(8))); o != nil {
				o.Name()
			}
			xmssmt.ParamsFromName("XMSS-SHA2_10_512").LookupNameAndOid()
			sk.Close()
			m["contexts"]++
		})
	case "verify":
		sk, pk, err := mustCtx(p).DeriveInto(quiet(nil), s.pub, s.sk, s.prf)
		check12(err)
		var sigs []*xmssmt.Signature
		for k := 0; k < 4; k++ {
			sig, err := sk.Sign([]byte{byte(k)})
			check12(err)
			sigs = append(sigs, sig)
		}
		w.par(g, func(i int, m map[string]int) {
			for k := 0; k < 12; k++ {
				j := mrand2.IntN(4)
				pk.Verify(sigs[j], []byte{byte(j)})
				pk.VerifyFrom(sigs[j], bytes.NewReader([]byte{byte(j + 1)}))
				b, _ := sigs[j].MarshalBinary()
				pb, _ := pk.MarshalBinary()
				pk.MarshalText()
				_ = sigs[j].String()
				sigs[j].SeqNo()
				sigs[j].Context().Name()
				pk.Context().Oid()
				xmssmt.Verify(pb, b, []byte{byte(j)})
				var s2 xmssmt.Signature
				s2.UnmarshalBinary(b)
				pk.Verify(&s2, []byte{byte(j)})
				m["verifications"] += 4
				if i == 0 {
					sk.Sign([]byte("more"))
					m["signatures"]++
				}
			}
		})
		sk.Close()
	case "values":
		// Values outlive the key and are read while it moves on.
		sk, pk, err := mustCtx(p).DeriveInto(quiet(nil), s.pub, s.sk, s.prf)
		check12(err)
		sig, err := sk.Sign([]byte("first"))
		check12(err)
		w.par(g, func(i int, m map[string]int) {
			for k := 0; k < 8; k++ {
				if i%2 == 0 {
					sk.Sign([]byte("x"))
					m["signatures"]++
				} else {
					pk.Verify(sig, []byte("first"))
					sk.PublicKey().Verify(sig, []byte("first"))
					sig.MarshalBinary()
					m["verifications"] += 2
				}
			}
		})
		w.par(2, func(i int, m map[string]int) {
			if i == 0 {
				sk.Close()
			} else {
				for k := 0; k < 10; k++ {
					pk.Verify(sig, []byte("first"))
					sk.PublicKey()
					sk.SeqNo()
					sk.CachedSubTrees()
					sk.BorrowedSeqNos()
					sk.UnretiredSeqNos()
				}
			}
		})
	case "close":
		st := storedKey(p, s, uint64(rr.Intn(int(p.Max()))))
		for k := 0; k < 3; k++ {
			sk, pk, _, err := xmssmt.LoadPrivateKeyFrom(quiet(st))
			check12(err)
			sk.EnableSubTreePrecomputation()
			w.par(g, func(i int, m map[string]int) {
				for k := 0; k < 2; k++ {
					w.op(k, m, sk, pk)
				}
				sk.EnableSubTreePrecomputation()
			})
			sk.Close()
		}
	case "fs", "damagedfs":
		path := filepath.Join(w.dir, fmt.Sprintf("key%d", rr.Intn(1<<30)))
		sk, pk, err := mustCtx(p).Derive(path, s.pub, s.sk, s.prf)
		check12(err)
		if sc == "damagedfs" {
			sk.Sign([]byte("x"))
			sk.Close()
			b, _ := os.ReadFile(path + ".cache")
			for k := 0; k < 200; k++ {
				if o := 4096 + 13 + rr.Intn(max(len(b)-4109, 1)); o < len(b) {
					b[o] ^= byte(rr.Intn(256))
				}
			}
			os.WriteFile(path+".cache", b, 0600)
			sk, pk, _, err = xmssmt.LoadPrivateKey(path)
			check12(err)
		}
		if rr.Intn(2) == 0 {
			sk.EnableSubTreePrecomputation()
		}
		w.par(g, func(i int, m map[string]int) {
			for k := 0; k < 8; k++ {
				w.op(k, m, sk, pk)
			}
		})
		sk.Close()
	case "fslock":
		path := filepath.Join(w.dir, fmt.Sprintf("key%d", rr.Intn(1<<30)))
		sk, _, err := mustCtx(p).Derive(path, s.pub, s.sk, s.prf)
		check12(err)
		sk.Close()
		w.par(g, func(i int, m map[string]int) {
			for k := 0; k < 6; k++ {
				switch mrand2.IntN(3) {
				case 0:
					ctr, err := xmssmt.OpenFSPrivateKeyContainer(path)
					if err == nil {
						jitter(2)
						ctr.Close()
						m["opens"]++
					}
				case 1:
					sk, pk, _, err := xmssmt.LoadPrivateKey(path)
					if err == nil {
						w.op(k, m, sk, pk)
						sk.Close()
						m["opens"]++
					}
				case 2:
					own := fmt.Sprintf("%s.own%d", path, i)
					sk, pk, _, err := xmssmt.LoadPrivateKey(own)
					if err != nil {
						s := mkSeeds(newRand(int64(i)), p.N)
						sk, pk, err = mustCtx(p).Derive(own, s.pub, s.sk, s.prf)
					}
					check12(err)
					w.op(k, m, sk, pk)
					sk.Close()
					m["opens"]++
				}
			}
		})
	case "derive":
		// Keys generated at once, from seeds the caller goes on using.
		w.par(g, func(i int, m map[string]int) {
			s := mkSeeds(newRand(int64(i)), p.N)
			sk, pk, err := mustCtx(p).DeriveInto(quiet(nil), s.pub, s.sk, s.prf)
			check12(err)
			sk.EnableSubTreePrecomputation()
			clear(s.pub)
			clear(s.sk)
			clear(s.prf)
			w.op(0, m, sk, pk)
			sk.Close()
			m["derivations"]++
			path := filepath.Join(w.dir, fmt.Sprintf("gen%d-%d", i, mrand2.Uint32()))
			gk, gp, err := mustCtx(p).GenerateKeyPair(path)
			check12(err)
			w.op(1, m, gk, gp)
			gk.Close()
		})
	}
	time.Sleep(0)
}
