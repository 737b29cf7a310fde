package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/bwesterb/go-xmssmt"
	"xverif/memctr"
	"xverif/mon"
	"xverif/ref"
)

func init() {
	checks["C17"] = check{run: runC17,
		rule: "Histories of a key (derive, load, sign, reserve, shrink, precompute, close, reload) are run once per container call and failure mode: the call fails once before or after taking effect, fails in a burst, or keeps failing; readers fail at every position in several ways; concurrent signers run under random failures; with the file container, each file operation fails once as the kernel would report it (strace injection). A monitor judges every outcome: errors only where a failure fired, failures of the accounting never swallowed, every released signature byte-identical to the reference, unrepeated and persisted before release, and full recovery as soon as the failures stop. Non-trivial: distinct (history, call, mode) with the call's name and outcome."}
}

func runC17(t *mon.T) {
	t.Assume = []string{"a failing call either had its documented effect or none", "readers do not panic"}
	xmssmt.SetLogger(nil)
	nh := t.Pick(20, 160)
	var jobs []func()
	var mu sync.Mutex
	mon.Par(nh, func(i int) {
		l := fmt.Sprintf("hist/%d", i)
		cs(t, l, func() {
			h := c17Make(t, l, i)
			n := h.dry()
			mu.Lock()
			defer mu.Unlock()
			for c := 0; c < n; c++ {
				for m := range c17Modes {
					if !t.Thorough() && n > 60 && (c+m)%((n+59)/60) > 0 {
						continue
					}
					jobs = append(jobs, func() {
						l := fmt.Sprintf("%s/%d/%s", l, c, c17Modes[m])
						cs(t, l, func() { h.run(l, c, m) })
					})
				}
			}
		})
	})
	mon.Par(len(jobs), func(i int) { jobs[i]() })
	n := t.Pick(150, 3000)
	mon.ParN(6, n, func(i int) {
		l := fmt.Sprintf("conc/%d", i)
		cs(t, l, func() { c17Conc(t, l, i) })
	})
	n = t.Pick(40, 600)
	mon.Par(n, func(i int) {
		l := fmt.Sprintf("readers/%d", i)
		cs(t, l, func() { c17Readers(t, l, i) })
	})
	cs(t, "loading", func() { c17Loading(t) })
	c17Files(t)
	t.Require("failures fired", 3000)
	t.Require("operations after failures stopped", 3000)
	t.Require("signatures judged", 8000)
	t.Require("reader failures", 500)
	t.Require("failures while others waited", 30)
}

var c17Modes = []string{"once", "after", "burst", "until-noticed", "from-now-on"}

type c17Op struct {
	kind byte // s sign, b borrow, p precompute, c close+reload, q query
	arg  uint32
}

type c17Hist struct {
	t      *mon.T
	label  string
	p      ref.P
	s      seeds
	k      *ref.Key
	start  uint64
	derive bool
	ops    []c17Op
	pre    bool
}

func c17Make(t *mon.T, label string, i int) *c17Hist {
	r := t.Rng(label)
	shapes := []ref.P{cheap(4, 2), cheap(6, 3), cheap(4, 4), cheap(3, 1), cheap(6, 6), cheap(40, 20)}
	h := &c17Hist{t: t, label: label, p: shapes[i%len(shapes)]}
	h.s = mkSeeds(r, h.p.N)
	h.k = ref.NewKey(h.p, h.s.pub, h.s.sk, h.s.prf)
	h.derive = i%3 == 0
	if !h.derive {
		h.start = c15Starts(h.p, r)[r.Intn(len(c15Starts(h.p, r)))]
	}
	n := 6 + r.Intn(5)
	for j := 0; j < n; j++ {
		switch r.Intn(9) {
		case 0, 1:
			h.ops = append(h.ops, c17Op{'b', uint32(r.Intn(6))})
		case 2:
			h.ops = append(h.ops, c17Op{'c', 0})
		case 3:
			if i%2 == 0 {
				h.ops = append(h.ops, c17Op{'p', 0})
				h.pre = true
			}
		default:
			h.ops = append(h.ops, c17Op{'s', 0})
		}
	}
	h.ops = append(h.ops, c17Op{'c', 0}, c17Op{'s', 0})
	return h
}

// c17Run is one execution of a history.
type c17Run struct {
	h     *c17Hist
	t     *mon.T
	label string
	ctr   *memctr.Ctr
	sk    *xmssmt.PrivateKey
	pk    *xmssmt.PublicKey
	at    int
	mode  int
	total int // container calls over all handles
	fired []string
	off   bool
	mu    sync.Mutex
	used  map[uint64]bool
	burst int
	log   []string
}

func (r *c17Run) viol(key, f string, a ...any) {
	r.t.Violate(key, r.label, map[string]any{"shape": r.h.p.String(), "start": r.h.start, "log": append([]string(nil), r.log...)},
		"%v from %d: %s; failed calls %v; history %s", r.h.p, r.h.start, fmt.Sprintf(f, a...), r.fired, strings.Join(tail(r.log, 10), ", "))
}

// fault decides on a container call.
func (r *c17Run) fault(op string) bool {
	n := r.total
	r.total++
	if r.off || r.at < 0 || n < r.at {
		return false
	}
	switch c17Modes[r.mode] {
	case "once", "after":
		return n == r.at
	case "burst":
		return n < r.at+3
	}
	return true // until switched off
}

func (r *c17Run) attach(st *memctr.State) {
	if st == nil {
		r.ctr = memctr.New()
	} else {
		r.ctr = memctr.From(st)
	}
	r.ctr.Broken = func(w string) { r.viol("container-misuse", "%s", w) }
	hit := func(op string) error {
		r.mu.Lock()
		defer r.mu.Unlock()
		if !r.fault(op) {
			return nil
		}
		r.fired = append(r.fired, op)
		r.t.Count("failures fired", 1)
		r.t.Distinct("failing calls", op+" "+c17Modes[r.mode])
		return fmt.Errorf("injected")
	}
	if c17Modes[r.mode] == "after" && r.at >= 0 {
		// HasSubTree, Initialized and the like cannot fail; calls without a
		// "failing, yet done" variant fail before their effect.
		r.ctr.Fault = func(op string, _ int) error {
			switch op {
			case "GetSubTree", "SetSeqNo", "BorrowSeqNos":
				return nil
			}
			return hit(op)
		}
		r.ctr.FailAfter = func(op string, _ int) error { return hit(op) }
		return
	}
	r.ctr.Fault = func(op string, _ int) error { return hit(op) }
}

func (r *c17Run) nfired() int { r.mu.Lock(); defer r.mu.Unlock(); return len(r.fired) }

func (r *c17Run) firedSince(n int) []string {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]string(nil), r.fired[n:]...)
}

func (r *c17Run) stop() { r.mu.Lock(); r.off = true; r.mu.Unlock() }

// calm waits until no background work of the key can be hit any more.
func (r *c17Run) calm() {
	if r.h.pre {
		for i := 0; i < 30 && !mon.Suspect() && !backgroundGone(time.Second); i++ {
		}
	}
}

func (r *c17Run) judge(sig *xmssmt.Signature, msg []byte) {
	idx := uint64(sig.SeqNo())
	r.t.Count("signatures judged", 1)
	if r.ctr.Persisted() <= idx {
		r.viol("not-persisted", "index %d was released while %d is persisted", idx, r.ctr.Persisted())
	}
	if r.used[idx] {
		r.viol("reused", "index %d was released twice", idx)
	}
	r.used[idx] = true
	if idx >= r.h.p.Max() {
		r.viol("past-end", "index %d was released", idx)
	} else if !bytes.Equal(sigBytes(sig), r.h.k.Sign(idx, msg)) {
		r.viol("invalid", "the signature with index %d is not the right one", idx)
	}
}

// invariant holds whenever no call is in progress.
func (r *c17Run) invariant() {
	if r.sk == nil {
		return
	}
	seq, b := uint64(r.sk.SeqNo()), uint64(r.sk.BorrowedSeqNos())
	if r.ctr.Persisted() < seq+b {
		r.viol("reserved-uncovered", "%d is persisted, but the key is at %d with %d reserved", r.ctr.Persisted(), seq, b)
	}
	if u := r.sk.UnretiredSeqNos(); u != 0 {
		r.viol("unretired", "nothing is in progress, %d numbers are unretired", u)
	}
}

// must says whether a failure of the call has to surface as an error.
func (r *c17Run) mustSurface(fired []string, ops string) bool {
	for _, f := range fired {
		if strings.Contains(ops, f) {
			return true
		}
	}
	return false
}

func (r *c17Run) open() bool {
	h := r.h
	for try := 0; ; try++ {
		n := r.nfired()
		var err xmssmt.Error
		var what string
		if r.sk == nil && h.derive && len(r.used) == 0 && (r.ctr == nil || !r.ctr.S.Init || r.ctr.S.SeqNo == 0 && try > 0) && len(r.log) == try {
			what = "derive"
			r.attach(nil)
			r.sk, r.pk, err = mustCtx(h.p).DeriveInto(r.ctr, clone(h.s.pub), clone(h.s.sk), clone(h.s.prf))
		} else {
			what = "load"
			var st *memctr.State
			if r.ctr == nil {
				st = storedKey(h.p, h.s, h.start)
			} else {
				st = r.ctr.Snapshot()
			}
			r.attach(st)
			r.sk, r.pk, _, err = xmssmt.LoadPrivateKeyFrom(r.ctr)
			if err != nil && !r.ctr.Closed && !r.mustSurface(r.firedSince(n), "Close") {
				r.viol("not-closed", "loading failed but left the container open: %v", err)
			}
		}
		r.log = append(r.log, fmt.Sprintf("%s: %v", what, e2(err)))
		fired := r.firedSince(n)
		if err == nil {
			if r.sk == nil || r.pk == nil {
				r.viol("nil", "%s returned neither a key nor an error", what)
				return false
			}
			if r.mustSurface(fired, "SetSeqNo BorrowSeqNos GetSeqNo GetPrivateKey ListSubTrees Reset ResetCache") {
				r.viol("swallowed", "%s ignored that %v failed", what, fired)
			}
			r.invariant()
			return true
		}
		if r.sk != nil || r.pk != nil {
			r.viol("key-with-error", "%s returned a key along with an error", what)
		}
		if len(fired) == 0 {
			r.viol("spurious", "%s failed although no call did: %v", what, err)
			return false
		}
		r.stop()
		if try > 0 {
			r.t.Count("operations after failures stopped", 1)
		}
		if try > 2 {
			r.viol("no-recovery", "%s keeps failing: %v", what, err)
			return false
		}
	}
}

// attempt runs an operation, retrying it when a failure that fired made it
// fail.
func (r *c17Run) attempt(what, surface string, f func() xmssmt.Error) bool {
	for try := 0; try < 4; try++ {
		n := r.nfired()
		err := f()
		r.log = append(r.log, fmt.Sprintf("%s: %v", what, e2(err)))
		if try > 0 || r.off {
			r.t.Count("operations after failures stopped", 1)
		}
		fired := r.firedSince(n)
		if err == nil {
			if r.mustSurface(fired, surface) {
				r.viol("swallowed", "%s ignored that %v failed", what, fired)
			}
			r.invariant()
			return true
		}
		if err.Error() == "" {
			r.viol("empty-error", "%s failed without a message", what)
		}
		if len(fired) == 0 {
			r.viol("spurious", "%s failed although no container call did: %v", what, err)
			return false
		}
		r.invariant()
		if c17Modes[r.mode] != "from-now-on" || try == 1 {
			r.stop()
			r.calm()
		}
	}
	r.viol("no-recovery", "%s keeps failing after the container stopped failing", what)
	return false
}

func (h *c17Hist) exec(r *c17Run) {
	if !r.open() {
		return
	}
	getOK := "SetSeqNo BorrowSeqNos GetSeqNo"
	getStrict := getOK + " GetSubTree"
	if h.pre {
		getStrict = getOK // the background's failures do not concern the signer
	}
	for i, op := range h.ops {
		switch op.kind {
		case 's':
			if uint64(r.sk.SeqNo()) >= h.p.Max() {
				if sig, err := r.sk.Sign(nil); err == nil {
					r.viol("past-end", "signed with index %d", sig.SeqNo())
				}
				continue
			}
			msg := []byte(fmt.Sprint("message ", i))
			ok := r.attempt("sign", getStrict, func() xmssmt.Error {
				if uint64(r.sk.SeqNo()) >= h.p.Max() {
					return nil // a failed attempt burnt the last one
				}
				sig, err := r.sk.Sign(msg)
				if err == nil {
					r.judge(sig, msg)
				} else if sig != nil {
					r.viol("signature-with-error", "a failed Sign returned a signature")
				}
				return err
			})
			if !ok {
				return
			}
		case 'b':
			if !r.attempt(fmt.Sprintf("reserve %d", op.arg), getStrict, func() xmssmt.Error { return r.sk.BorrowExactly(op.arg) }) {
				return
			}
			want := min(uint64(op.arg), h.p.Max()-uint64(r.sk.SeqNo()))
			if b := uint64(r.sk.BorrowedSeqNos()); b != want {
				r.viol("reserved", "%d numbers are reserved instead of %d", b, want)
			}
		case 'p':
			r.sk.EnableSubTreePrecomputation()
			r.log = append(r.log, "precompute")
		case 'c':
			n := r.nfired()
			err := r.sk.Close()
			r.log = append(r.log, fmt.Sprintf("close: %v", e2(err)))
			fired := r.firedSince(n)
			if err == nil && !r.ctr.Closed {
				r.viol("not-closed", "Close succeeded and left the container open")
			}
			if err == nil && r.mustSurface(fired, "SetSeqNo GetSeqNo Close") {
				r.viol("swallowed", "Close ignored that %v failed", fired)
			}
			if err != nil && len(fired) == 0 {
				r.viol("spurious", "Close failed although no container call did: %v", err)
			}
			if err != nil && !r.ctr.Closed && !r.mustSurface(fired, "Close") {
				r.viol("not-closed", "a failing Close left the container open")
			}
			if err == nil {
				if st := r.ctr.Snapshot(); st.SeqNo != uint64(r.sk.SeqNo()) || st.Borrowed != 0 {
					r.viol("close-record", "after a successful Close at %d the container holds %d with %d possibly lost", r.sk.SeqNo(), st.SeqNo, st.Borrowed)
				}
			}
			r.sk = nil
			if !r.open() {
				return
			}
			for idx := range r.used {
				if uint64(r.sk.SeqNo()) <= idx {
					r.viol("went-back", "the key reloads at %d although %d was released", r.sk.SeqNo(), idx)
					return
				}
			}
		}
	}
	r.stop()
	r.calm()
	// In the end everything works again.
	for i := 0; i < 2 && uint64(r.sk.SeqNo()) < h.p.Max(); i++ {
		msg := []byte("end")
		sig, err := r.sk.Sign(msg)
		r.t.Count("operations after failures stopped", 1)
		if err != nil {
			r.viol("no-recovery", "signing fails after the failures stopped: %v", err)
			return
		}
		r.judge(sig, msg)
	}
	if pkb := pkBytes(r.sk.PublicKey()); !bytes.Equal(pkb, h.k.PublicKey()) {
		r.viol("public-key", "the public key changed")
	}
	if err := r.sk.Close(); err != nil {
		r.viol("close-failed", "Close fails after the failures stopped: %v", err)
	}
}

// dry counts the container calls of an undisturbed run.
func (h *c17Hist) dry() int {
	r := &c17Run{h: h, t: h.t, label: h.label, at: -1, used: map[uint64]bool{}}
	h.exec(r)
	h.t.Count("container calls in undisturbed histories", r.total)
	return r.total
}

func (h *c17Hist) run(label string, at, mode int) {
	r := &c17Run{h: h, t: h.t, label: label, at: at, mode: mode, used: map[uint64]bool{}}
	h.exec(r)
	h.t.Nontrivial(label + strings.Join(r.fired, ","))
	h.t.Distinct("outcomes", strings.Join(r.log, ";"))
	if at == 7 && mode == 1 {
		h.t.Sample(map[string]any{"case": label, "shape": h.p.String(), "failed calls": r.fired, "log": r.log})
	}
}

// c17Conc lets signers work on a key whose container fails at random.
func c17Conc(t *mon.T, label string, i int) {
	r := t.Rng(label)
	p := []ref.P{cheap(4, 2), cheap(6, 3), cheap(6, 2), cheap(8, 4), cheap(40, 20)}[i%5]
	s := mkSeeds(r, p.N)
	k := ref.NewKey(p, s.pub, s.sk, s.prf)
	starts := c15Starts(p, r)
	start := starts[r.Intn(len(starts))]
	if x := uint64(r.Intn(10)); start > x {
		start -= x
	}
	ctr := memctr.From(storedKey(p, s, start))
	ctr.Broken = func(w string) { t.Violate("container-misuse", label, w, "%s", w) }
	sk, _, _, err := xmssmt.LoadPrivateKeyFrom(ctr)
	if err != nil {
		panic(libErr{"load: " + err.Error()})
	}
	var on, fired int32
	rate := 1 + r.Intn(6)
	kind := r.Intn(3) // which calls fail
	var rmu sync.Mutex
	rr := rand.New(rand.NewSource(r.Int63()))
	dice := func(n int) int { rmu.Lock(); defer rmu.Unlock(); return rr.Intn(n) }
	hit := func(op string) error {
		if atomic.LoadInt32(&on) == 0 || dice(rate+1) > 0 {
			return nil
		}
		if kind == 0 && op != "GetSubTree" || kind == 1 && op == "GetSubTree" {
			return nil
		}
		atomic.AddInt32(&fired, 1)
		t.Count("failures fired", 1)
		return fmt.Errorf("injected")
	}
	ctr.Fault = func(op string, _ int) error { return hit(op) }
	ctr.FailAfter = func(op string, _ int) error { return hit(op) }
	ctr.Before = func(string) { jitter(2) }
	if r.Intn(2) == 0 {
		sk.EnableSubTreePrecomputation()
	}
	var mu sync.Mutex
	used := map[uint64]bool{}
	judge := func(sig *xmssmt.Signature, msg []byte, check bool) {
		idx := uint64(sig.SeqNo())
		t.Count("signatures judged", 1)
		if ctr.Persisted() <= idx {
			t.Violate("not-persisted", label, nil, "%v: index %d was released while %d is persisted", p, idx, ctr.Persisted())
		}
		mu.Lock()
		dup := used[idx]
		used[idx] = true
		mu.Unlock()
		if dup {
			t.Violate("reused", label, nil, "%v: index %d was released twice", p, idx)
		}
		if idx >= p.Max() || check && !bytes.Equal(sigBytes(sig), k.Sign(idx, msg)) {
			t.Violate("invalid", label, nil, "%v: the signature with index %d is not the right one", p, idx)
		}
	}
	for round := 0; round < t.Pick(5, 10) && uint64(sk.SeqNo()) < p.Max(); round++ {
		atomic.StoreInt32(&on, 1)
		var waited int32
		g := &group{t: t, label: label}
		for j := 2 + r.Intn(7); j > 0; j-- {
			jr := newRand(t.Sub(fmt.Sprint(label, round, j)))
			g.Go(func() {
				for q := 0; q < 3; q++ {
					if jr.Intn(4) == 0 {
						sk.BorrowExactlyIfBelow(uint32(jr.Intn(8)), uint32(jr.Intn(4)))
					}
					msg := []byte("m")
					var sig *xmssmt.Signature
					var err xmssmt.Error
					if jr.Intn(5) == 0 {
						sig, err = sk.SignFrom(&failReader{b: make([]byte, jr.Intn(3)), with: jr.Intn(2) == 0})
						t.Count("reader failures", 1)
						if err == nil {
							t.Violate("reader-ignored", label, nil, "a failing message was signed")
							continue
						}
					} else {
						sig, err = sk.Sign(msg)
					}
					if err != nil {
						atomic.AddInt32(&waited, 1)
						if sig != nil {
							t.Violate("signature-with-error", label, nil, "a failing Sign returned a signature")
						}
						continue
					}
					judge(sig, msg, jr.Intn(2) == 0)
				}
			})
		}
		g.Wait()
		atomic.StoreInt32(&on, 0)
		t.Count("failures while others waited", int(waited))
		if ctr.Persisted() < uint64(sk.SeqNo())+uint64(sk.BorrowedSeqNos()) {
			t.Violate("reserved-uncovered", label, nil, "%v: %d is persisted, the key is at %d with %d reserved", p, ctr.Persisted(), sk.SeqNo(), sk.BorrowedSeqNos())
		}
		if u := sk.UnretiredSeqNos(); u != 0 {
			t.Violate("unretired", label, nil, "%v: %d numbers are unretired after all signers returned", p, u)
		}
		// As soon as the failures stop the key works (what runs in the
		// background might have failed just before, which must not matter).
		if uint64(sk.SeqNo()) < p.Max() {
			sig, err := sk.Sign([]byte("ok"))
			t.Count("operations after failures stopped", 1)
			if err != nil {
				t.Violate("no-recovery", label, nil, "%v: signing fails after the failures stopped: %v", p, err)
				break
			}
			judge(sig, []byte("ok"), true)
		}
	}
	at := uint64(sk.SeqNo())
	if err := sk.Close(); err != nil {
		t.Violate("close-failed", label, nil, "Close fails after the failures stopped: %v", err)
	}
	c2, sk, _, lost, err := loadKey(ctr.Snapshot())
	if err != nil {
		t.Violate("reload-failed", label, nil, "the key does not load after a clean close: %v", err)
		return
	}
	if uint64(sk.SeqNo()) != at || lost != 0 {
		t.Violate("reload-position", label, nil, "closed at %d, reloaded at %d with %d lost", at, sk.SeqNo(), lost)
	}
	ctr = c2
	if at < p.Max() {
		if sig, err := sk.Sign([]byte("ok")); err != nil {
			t.Violate("no-recovery", label, nil, "signing fails after a reload: %v", err)
		} else {
			judge(sig, []byte("ok"), true)
		}
	}
	sk.Close()
	t.Nontrivial(fmt.Sprint(label, fired, len(used)))
}

// c17Readers signs and verifies messages whose readers fail.
func c17Readers(t *mon.T, label string, i int) {
	r := t.Rng(label)
	fams := families()
	p := shape(fams[i%len(fams)], 4, 2)
	if p.W == 256 && p.N == 64 {
		p = shape(p, 2, 2)
	}
	s := mkSeeds(r, p.N)
	ctr := memctr.New()
	k := newKey(p, s, ctr, 0)
	size := []int{0, 1, 63, 64, 136, 137, 200, 1000, 40000}[r.Intn(9)]
	msg := randBytes(r, size)
	sig, err := k.sk.Sign(msg)
	if err != nil {
		panic(libErr{"Sign: " + err.Error()})
	}
	var cuts []int
	for _, c := range []int{0, 1, size / 2, size - 1, size, r.Intn(size + 1)} {
		if c >= 0 && c <= size {
			cuts = append(cuts, c)
		}
	}
	used := map[uint64]bool{uint64(sig.SeqNo()): true}
	fails := []error{fmt.Errorf("own error"), io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, fmt.Errorf("wrapped: %w", io.EOF)}
	for ci, cut := range cuts {
		for fi, e := range fails {
			if uint64(k.sk.SeqNo())+2 >= p.Max() {
				k.sk.Close()
				return
			}
			with := (ci+fi)%2 == 0
			mk := func() io.Reader {
				b := msg[:cut]
				return readerFunc(func(out []byte) (int, error) {
					n := copy(out, b)
					b = b[n:]
					if len(b) == 0 && (n == 0 || with) {
						return n, e
					}
					return n, nil
				})
			}
			was := uint64(k.sk.SeqNo())
			got, err := k.sk.SignFrom(mk())
			t.Count("reader failures", 1)
			if err == nil || got != nil {
				t.Violate("reader-ignored", label, nil, "%v: a message of which reading failed after %d of %d bytes (%v) was signed: %v, %v", p, cut, size, e, got != nil, err)
				continue
			}
			if now := uint64(k.sk.SeqNo()); now > was+1 || now < was {
				t.Violate("reader-cost", label, nil, "%v: a failing reader moved the sequence number from %d to %d", p, was, now)
			}
			if u := k.sk.UnretiredSeqNos(); u != 0 {
				t.Violate("unretired", label, nil, "%v: %d numbers are unretired after a failing reader", p, u)
			}
			ok, err := k.pk.VerifyFrom(sig, mk())
			t.Count("reader failures", 1)
			if ok || err == nil {
				t.Violate("reader-ignored", label, nil, "%v: verifying a message of which reading failed after %d of %d bytes (%v) gave %v, %v", p, cut, size, e, ok, err)
			}
			if fi == 0 {
				good, err := k.sk.Sign(msg)
				t.Count("operations after failures stopped", 1)
				if err != nil {
					t.Violate("no-recovery", label, nil, "%v: signing fails after a reader failed: %v", p, err)
					continue
				}
				t.Count("signatures judged", 1)
				if used[uint64(good.SeqNo())] || !bytes.Equal(sigBytes(good), k.ref.Sign(uint64(good.SeqNo()), msg)) {
					t.Violate("invalid", label, nil, "%v: after a failing reader the signature with index %d is not the right one", p, good.SeqNo())
				}
				used[uint64(good.SeqNo())] = true
				if !verify(t, label, k.pk, sig, msg) {
					t.Violate("verify-broken", label, nil, "%v: after a failing reader a valid signature is refused", p)
				}
			}
		}
	}
	k.sk.Close()
	t.Nontrivial(label + p.String())
}

// c17Loading fails every call of loading in several states of the container.
func c17Loading(t *mon.T) {
	r := t.Rng("loading")
	p := cheap(6, 3)
	s := mkSeeds(r, p.N)
	base := storedKey(p, s, 9)
	c, sk, _, _, err := loadKey(base.Clone())
	if err != nil {
		panic(libErr{"load: " + err.Error()})
	}
	warm := signWarm(c, sk)
	sk.Close()
	stale := warm.Clone()
	stale.SeqNo = 40
	damaged := warm.Clone()
	for _, b := range damaged.Trees {
		b[0] ^= 1
	}
	reserved := warm.Clone()
	reserved.SeqNo, reserved.Borrowed = 20, 10
	for name, st := range map[string]*memctr.State{"cold": base, "warm": warm, "stale": stale, "damaged": damaged, "reserved": reserved} {
		n := 1 << 20
		for at := 0; at < n; at++ {
			label := fmt.Sprintf("loading/%s/%d", name, at)
			ctr := memctr.From(st.Clone())
			ctr.Broken = func(w string) { t.Violate("container-misuse", label, w, "%s", w) }
			calls, hit := 0, ""
			ctr.Fault = func(op string, _ int) error {
				calls++
				if calls-1 == at {
					hit = op
					t.Count("failures fired", 1)
					return fmt.Errorf("injected")
				}
				return nil
			}
			sk, pk, _, err := xmssmt.LoadPrivateKeyFrom(ctr)
			ctr.Fault = nil
			if hit == "" {
				n = at
			}
			switch {
			case err != nil:
				if hit == "" {
					t.Violate("spurious", label, nil, "loading fails although no call did: %v", err)
				}
				if sk != nil || pk != nil {
					t.Violate("key-with-error", label, nil, "a failing load returned a key")
				}
				if !ctr.Closed {
					t.Violate("not-closed", label, nil, "a failing load (call %s) left the container open", hit)
				}
			default:
				if hit != "" && hit != "DropSubTree" && hit != "Initialized" && hit != "CacheInitialized" && hit != "HasSubTree" {
					t.Violate("swallowed", label, nil, "loading ignored that %s failed", hit)
				}
				sig, err := sk.Sign([]byte("m"))
				if err != nil || uint64(sig.SeqNo()) != st.SeqNo || !bytes.Equal(sigBytes(sig), ref.NewKey(p, s.pub, s.sk, s.prf).Sign(st.SeqNo, []byte("m"))) {
					t.Violate("no-recovery", label, nil, "signing after loading with a failing %s: %v", hit, err)
				}
				sk.Close()
			}
			// The same stored key loads when nothing fails.
			c2, sk, _, _, err := loadKey(ctr.Snapshot())
			if err != nil {
				t.Violate("no-recovery", label, nil, "after a failing load the key does not load: %v", err)
				continue
			}
			if _, err := sk.Sign([]byte("m")); err != nil {
				t.Violate("no-recovery", label, nil, "after a failing load the key does not sign: %v", err)
			}
			t.Count("operations after failures stopped", 1)
			sk.Close()
			_ = c2
			t.Nontrivial(label)
		}
	}
}
