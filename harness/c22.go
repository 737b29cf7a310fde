package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/bwesterb/go-xmssmt"
	"xverif/memctr"
	"xverif/mon"
	"xverif/ref"
)

func init() {
	checks["C22"] = check{run: runC22,
		rule: "Goroutines sign, reserve, reserve conditionally and query one key while container calls are delayed (so that calls overlap and queue); calls and results are recorded with their order in real time, and a linearizability checker (porcupine) searches for a sequential history of the documented counter semantics that explains them. Non-trivial: distinct recorded histories in which calls overlapped."}
}

// c22In and c22Out are one call on the key.
type c22In struct {
	op     string // sign, exactly, below, seqno, reserved
	n, thr uint32
}

type c22Out struct {
	v    uint64
	err  bool
	hurt bool // a container call made for this call failed
}

// c22State is the position of the key.
type c22State struct {
	seq uint64
	res uint32
}

// c22Model is the documented meaning of the calls.
func c22Model(start c22State, max uint64) porcupine.Model {
	exactly := func(s c22State, n uint32) c22State {
		left := uint64(0)
		if s.seq < max {
			left = max - s.seq
		}
		if uint64(n) > left {
			n = uint32(left)
		}
		return c22State{s.seq, n}
	}
	nm := porcupine.NondeterministicModel{
		Init: func() []interface{} { return []interface{}{start} },
		Step: func(st, input, output interface{}) []interface{} {
			s, in, out := st.(c22State), input.(c22In), output.(c22Out)
			one := func(x c22State) []interface{} { return []interface{}{x} }
			switch in.op {
			case "sign":
				next := c22State{s.seq + 1, s.res}
				if next.res > 0 {
					next.res--
				}
				switch {
				case out.err && s.seq >= max:
					return one(s)
				case out.err && out.hurt:
					// the number may be lost, or not
					if s.seq >= max {
						return one(s)
					}
					return []interface{}{s, next}
				case out.err || s.seq >= max || out.v != s.seq:
					return nil
				}
				return one(next)
			case "exactly", "below":
				to := s
				if in.op == "exactly" || s.res <= in.thr {
					to = exactly(s, in.n)
				}
				switch {
				case out.err && out.hurt:
					// the reservation may be as before, gone, or partly back
					if in.op == "below" && s.res > in.thr {
						return nil
					}
					return []interface{}{s, c22State{s.seq, 0}}
				case out.err:
					return nil
				}
				return one(to)
			case "seqno":
				if out.v == s.seq {
					return one(s)
				}
			case "reserved":
				if out.v == uint64(s.res) {
					return one(s)
				}
			}
			return nil
		},
		DescribeOperation: func(input, output interface{}) string {
			return fmt.Sprintf("%v -> %v", input, output)
		},
	}
	m := nm.ToModel()
	return m
}

func runC22(t *mon.T) {
	xmssmt.SetLogger(nil)
	t.Assume = []string{"DangerousSetSeqNo and Close are not called while other calls are in progress"}
	n := t.Pick(3000, 60000)
	mon.ParN(16, n, func(i int) {
		l := fmt.Sprintf("hist/%d", i)
		cs(t, l, func() { c22Run(t, l, i) })
	})
	t.Require("operations", 50000)
	t.Require("histories with overlapping calls", 1500)
	t.Require("histories in which calls failed", 200)
}

func c22Run(t *mon.T, label string, i int) {
	r := t.Rng(label)
	p := []ref.P{cheap(4, 2), cheap(40, 20), cheap(6, 3), cheap(60, 20)}[r.Intn(4)]
	s := mkSeeds(r, p.N)
	max := p.Max()
	start := []uint64{0, 1<<uint(p.TreeHeight()) - 1, uint64(r.Int63()) % max, max - uint64(r.Intn(12)), 1<<32 - 3}[r.Intn(5)]
	if start > max {
		start = 0
	}
	faulty := i%5 == 0
	fs := i%7 == 0 && !faulty
	var ctr *memctr.Ctr
	var sk *xmssmt.PrivateKey
	var err xmssmt.Error
	slow := []time.Duration{0, 200 * time.Microsecond, 1500 * time.Microsecond}[r.Intn(3)]
	if fs {
		d := scratchDir("c22")
		defer os.RemoveAll(d)
		sk, _, err = mustCtx(p).Derive(filepath.Join(d, "key"), s.pub, s.sk, s.prf)
		start = 0
	} else {
		ctr = memctr.From(storedKey(p, s, start))
		ctr.Broken = func(w string) { t.Violate("container-misuse", label, w, "%s", w) }
		sk, _, _, err = xmssmt.LoadPrivateKeyFrom(ctr)
	}
	if err != nil {
		panic(libErr{"opening: " + err.Error()})
	}
	defer sk.Close()
	if uint64(sk.SeqNo()) != start {
		t.Violate("start", label, nil, "stored at %d, loaded at %d", start, sk.SeqNo())
	}
	res0 := uint32(r.Intn(4))
	if e := sk.BorrowExactly(res0); e != nil {
		panic(libErr{"BorrowExactly: " + e.Error()})
	}
	res0 = sk.BorrowedSeqNos()
	// Failures: while a call that failed is in progress some container call
	// failed.  Which call it belongs to is not visible, so every call that
	// overlaps a failure may be the one.
	var clock, fails int64
	if ctr != nil {
		rr := rand.New(rand.NewSource(r.Int63()))
		var mu sync.Mutex
		dice := func(k int) int { mu.Lock(); defer mu.Unlock(); return rr.Intn(k) }
		if slow > 0 {
			ctr.Before = func(string) {
				if dice(3) > 0 {
					time.Sleep(time.Duration(dice(int(slow))))
				}
			}
		}
		if faulty {
			ctr.Fault = func(op string, _ int) error {
				if dice(8) == 0 {
					atomic.AddInt64(&fails, 1)
					return fmt.Errorf("injected")
				}
				return nil
			}
		}
	}
	g := 2 + r.Intn(5)
	each := 4 + r.Intn(4)
	ops := make([][]porcupine.Operation, g)
	grp := &group{t: t, label: label}
	ready := make(chan struct{})
	// one kind of history is heavy on conditional reservations
	mix := r.Intn(3)
	for c := 0; c < g; c++ {
		cr := newRand(t.Sub(fmt.Sprint(label, c)))
		grp.Go(func() {
			<-ready
			for k := 0; k < each; k++ {
				in := c22In{op: []string{"sign", "sign", "exactly", "below", "seqno", "reserved", "below"}[cr.Intn(7)]}
				if mix == 1 {
					in.op = []string{"exactly", "below", "below", "reserved"}[cr.Intn(4)]
				}
				in.n, in.thr = uint32(cr.Intn(9)), uint32(cr.Intn(5))
				var out c22Out
				f0 := atomic.LoadInt64(&fails)
				call := atomic.AddInt64(&clock, 1)
				switch in.op {
				case "sign":
					sig, err := sk.Sign([]byte("m"))
					if out.err = err != nil; !out.err {
						out.v = uint64(sig.SeqNo())
					}
				case "exactly":
					out.err = sk.BorrowExactly(in.n) != nil
				case "below":
					out.err = sk.BorrowExactlyIfBelow(in.n, in.thr) != nil
				case "seqno":
					out.v = uint64(sk.SeqNo())
				case "reserved":
					out.v = uint64(sk.BorrowedSeqNos())
				}
				ret := atomic.AddInt64(&clock, 1)
				out.hurt = atomic.LoadInt64(&fails) > f0
				ops[c] = append(ops[c], porcupine.Operation{ClientId: c, Input: in, Call: call, Output: out, Return: ret})
			}
		})
	}
	close(ready)
	grp.Wait()
	var hist []porcupine.Operation
	for _, o := range ops {
		hist = append(hist, o...)
	}
	// what is left in the end
	for _, in := range []c22In{{op: "seqno"}, {op: "reserved"}} {
		v := uint64(sk.SeqNo())
		if in.op == "reserved" {
			v = uint64(sk.BorrowedSeqNos())
		}
		call := atomic.AddInt64(&clock, 2)
		hist = append(hist, porcupine.Operation{ClientId: g, Input: in, Call: call - 1, Output: c22Out{v: v}, Return: call})
	}
	overlap, failed := 0, false
	var text []string
	for i, a := range hist {
		text = append(text, fmt.Sprintf("%d [%d,%d] %+v -> %+v", a.ClientId, a.Call, a.Return, a.Input, a.Output))
		failed = failed || a.Output.(c22Out).hurt && a.Output.(c22Out).err
		for _, b := range hist[i+1:] {
			if a.Call < b.Return && b.Call < a.Return {
				overlap++
			}
		}
	}
	t.Count("operations", len(hist))
	t.Count("overlapping pairs of calls", overlap)
	if overlap > 0 {
		t.Count("histories with overlapping calls", 1)
		t.Nontrivial(strings.Join(text, ";"))
	}
	if failed {
		t.Count("histories in which calls failed", 1)
	}
	switch porcupine.CheckOperationsTimeout(c22Model(c22State{start, res0}, max), hist, time.Minute) {
	case porcupine.Illegal:
		t.Violate("not-atomic", label, text, "%v from %d with %d reserved: no order of these calls explains their results:\n%s", p, start, res0, strings.Join(text, "\n"))
	case porcupine.Unknown:
		t.Inconclusive("%s: the linearizability checker ran out of time", label)
	}
	// Nothing is in progress: what is stored covers what was given out.
	if ctr != nil && !failed {
		if got, want := ctr.Persisted(), uint64(sk.SeqNo())+uint64(sk.BorrowedSeqNos()); got != want {
			t.Violate("stored-position", label, text, "%v: the container holds %d, the key is at %d with %d reserved", p, got, sk.SeqNo(), sk.BorrowedSeqNos())
		}
	}
	if u := sk.UnretiredSeqNos(); u != 0 {
		t.Violate("unretired", label, text, "nothing is in progress, but %d numbers are unretired", u)
	}
	if i < 3 {
		t.Sample(map[string]any{"case": label, "history": text})
	}
}
