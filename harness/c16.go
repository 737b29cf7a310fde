package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sync"
	"sync/atomic"

	"github.com/bwesterb/go-xmssmt"
	"xverif/mon"
	"xverif/ref"
)

func init() {
	checks["C16"] = check{run: runC16,
		rule: "Keys are driven to and past their last index: whole lives of every small shape, races for the last numbers with reservations reaching past the end and refills in flight, failing readers and containers on the last numbers, crashes with everything reserved, reloads, jumps, and the package-level helper on files. A monitor counts what is handed out (every index below the maximum exactly as often as it must be), and judges every refusal (an error, no signature, nothing persisted, position unchanged) and the state an exhausted key reports. Non-trivial: distinct ways of reaching the end."}
}

var c16Shapes = func() (out []ref.P) {
	for h := 1; h <= 8; h++ {
		for d := 1; d <= h; d++ {
			if h%d == 0 {
				out = append(out, cheap(h, d))
			}
		}
	}
	return
}()

var c16Big = []ref.P{cheap(40, 20), cheap(60, 30), cheap(60, 20), cheap(63, 21), cheap(33, 11), cheap(62, 31), cheap(32, 16), cheap(31, 31)}

func runC16(t *mon.T) {
	t.Assume = []string{"DangerousSetSeqNo is not used with a number beyond the maximum"}
	xmssmt.SetLogger(jitterLogger{1})
	mon.Par(len(c16Shapes), func(i int) {
		l := fmt.Sprintf("life/%v", c16Shapes[i])
		cs(t, l, func() { c16Life(t, l, c16Shapes[i]) })
	})
	cs(t, "nothing", func() { c16Nothing(t, "nothing") })
	n := t.Pick(240, 6000)
	mon.ParN(6, n, func(i int) {
		l := fmt.Sprintf("race/%d", i)
		cs(t, l, func() { c16Race(t, l, i) })
	})
	n = t.Pick(240, 6000)
	mon.Par(n, func(i int) {
		l := fmt.Sprintf("end/%d", i)
		cs(t, l, func() { c16End(t, l, i) })
	})
	n = t.Pick(16, 200)
	mon.Par(n, func(i int) {
		l := fmt.Sprintf("helper/%d", i)
		cs(t, l, func() { c16Helper(t, l, i) })
	})
	t.Require("keys exhausted", 400)
	t.Require("refusals judged", 3000)
	t.Require("signatures up to the end", 3000)
	t.Require("reloads of exhausted keys", 400)
}

// c16Key is a key near its end, in memory or in files.
type c16Key struct {
	t     *mon.T
	label string
	p     ref.P
	s     seeds
	ref   *ref.Key
	st    *c14store
	sk    *xmssmt.PrivateKey
	pkB   []byte
	used  map[uint64]bool
	mu    sync.Mutex
	how   string
}

func c16New(t *mon.T, label string, p ref.P, start uint64, fs, conc bool, r *rand.Rand) *c16Key {
	k := &c16Key{t: t, label: label, p: p, s: mkSeeds(r, p.N), used: map[uint64]bool{}}
	k.ref = ref.NewKey(p, k.s.pub, k.s.sk, k.s.prf)
	k.st = &c14store{t: t, label: label, fs: fs, conc: conc}
	if fs {
		k.st.dir = scratchDir("c16")
	}
	k.sk, _ = k.st.create(p, k.s, start)
	k.pkB = pkBytes(k.sk.PublicKey())
	return k
}

func (k *c16Key) done() {
	k.sk.Close()
	if k.st.fs {
		os.RemoveAll(k.st.dir)
	}
}

func (k *c16Key) viol(key, f string, a ...any) {
	k.t.Violate(key, k.label, k.how, "%v (files %v) %s: %s", k.p, k.st.fs, k.how, fmt.Sprintf(f, a...))
}

// took records a released signature and checks it now and then.
func (k *c16Key) took(sig *xmssmt.Signature, msg []byte, check bool) {
	idx := uint64(sig.SeqNo())
	k.mu.Lock()
	if k.used[idx] {
		k.viol("twice", "index %d was handed out twice", idx)
	}
	k.used[idx] = true
	k.mu.Unlock()
	k.t.Count("signatures up to the end", 1)
	if idx >= k.p.Max() {
		k.viol("past-end", "index %d was handed out, the maximum is %d", idx, k.p.Max())
		return
	}
	if check && !bytes.Equal(sigBytes(sig), k.ref.Sign(idx, msg)) {
		k.viol("invalid", "the signature with index %d of %d is not the right one", idx, k.p.Max())
	}
}

// refused judges attempts on an exhausted key.
func (k *c16Key) refused(n int) {
	before := k.st.stamp()
	for i := 0; i < n; i++ {
		read := 0
		sig, err := k.sk.SignFrom(readerFunc(func([]byte) (int, error) { read++; return 0, errEOF }))
		k.t.Count("refusals judged", 1)
		if err == nil {
			k.viol("signed-past-end", "an exhausted key signed with index %d (maximum %d)", sig.SeqNo(), k.p.Max())
			continue
		}
		if sig != nil {
			k.viol("signature-with-error", "a refusal returned a signature (index %d)", sig.SeqNo())
		}
		if err.Error() == "" {
			k.viol("empty-error", "the refusal has no message")
		}
	}
	if k.st.stamp() != before {
		k.viol("wrote", "refused attempts wrote to the container")
	}
	k.state()
}

// state judges what an exhausted key reports.
func (k *c16Key) state() {
	if g := uint64(k.sk.SeqNo()); g != k.p.Max() {
		k.viol("seqno", "an exhausted key reports sequence number %d, the maximum is %d", g, k.p.Max())
	}
	if b := k.sk.BorrowedSeqNos(); b != 0 {
		k.viol("reserved", "an exhausted key reports %d reserved numbers", b)
	}
	if u := k.sk.UnretiredSeqNos(); u != 0 {
		k.viol("unretired", "an exhausted key reports %d numbers in use", u)
	}
	if n := k.sk.CachedSubTrees(); n < 0 || n > 4*k.p.D+4 {
		k.viol("cached", "an exhausted key reports %d cached subtrees", n)
	}
	if !bytes.Equal(pkBytes(k.sk.PublicKey()), k.pkB) {
		k.viol("public-key", "an exhausted key reports another public key")
	}
	if seq, _ := k.st.stored(); seq > k.p.Max() {
		k.viol("persisted", "%d is persisted, the maximum is %d", seq, k.p.Max())
	}
}

// exhausted puts an exhausted key through everything that may still be done.
func (k *c16Key) exhausted(r *rand.Rand) {
	k.t.Count("keys exhausted", 1)
	k.refused(3)
	for i := 0; i < 3; i++ {
		switch r.Intn(5) {
		case 0:
			a := uint32(r.Intn(1 << uint(r.Intn(31))))
			if err := k.sk.BorrowExactly(a); err != nil {
				k.viol("reserve-failed", "reserving %d of none failed: %v", a, err)
			}
		case 1:
			if err := k.sk.BorrowExactlyIfBelow(5, uint32(r.Intn(3))); err != nil {
				k.viol("reserve-failed", "reserving failed: %v", err)
			}
		case 2:
			k.sk.EnableSubTreePrecomputation()
		case 3:
			var wg sync.WaitGroup
			for j := 0; j < 4; j++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					if sig, err := k.sk.Sign(nil); err == nil {
						k.viol("signed-past-end", "an exhausted key signed with index %d (maximum %d)", sig.SeqNo(), k.p.Max())
					}
				}()
			}
			wg.Wait()
		case 4:
			var lost uint32
			if r.Intn(2) == 0 {
				if err := k.sk.Close(); err != nil {
					k.viol("close-failed", "closing an exhausted key failed: %v", err)
				}
				k.sk, lost = k.st.reload()
			} else {
				k.sk, _ = k.st.crash(k.sk)
			}
			if lost != 0 {
				k.viol("lost", "an exhausted and closed key reports %d lost signatures", lost)
			}
			k.t.Count("reloads of exhausted keys", 1)
		}
		k.refused(2)
	}
	if err := k.sk.Close(); err != nil {
		k.viol("close-failed", "closing an exhausted key failed: %v", err)
	}
	var lost uint32
	k.sk, lost = k.st.reload()
	k.t.Count("reloads of exhausted keys", 1)
	if lost != 0 {
		k.viol("lost", "an exhausted and closed key reports %d lost signatures", lost)
	}
	k.refused(2)
}

func c16Life(t *mon.T, label string, p ref.P) {
	r := t.Rng(label)
	for _, fs := range []bool{false, true} {
		k := c16New(t, label, p, 0, fs, false, r)
		k.how = "signing one by one"
		msg := []byte("life")
		for i := uint64(0); i < p.Max(); i++ {
			if r.Intn(40) == 0 {
				k.sk.Close()
				k.sk, _ = k.st.reload()
			}
			if r.Intn(10) == 0 {
				k.sk.BorrowExactly(uint32(r.Intn(2 << uint(p.H))))
			}
			if r.Intn(20) == 0 {
				k.sk.EnableSubTreePrecomputation()
			}
			sig, err := k.sk.Sign(msg)
			if err != nil {
				k.viol("refused-early", "signing with index %d of %d failed: %v", i, p.Max(), err)
				break
			}
			k.took(sig, msg, true)
			if uint64(sig.SeqNo()) != i {
				k.viol("index", "signature %d has index %d", i, sig.SeqNo())
			}
		}
		k.exhausted(r)
		k.done()
		t.Nontrivial(fmt.Sprint(label, fs))
	}
}

// c16Nothing covers the smallest instances, and keys stored exhausted.
func c16Nothing(t *mon.T, label string) {
	r := t.Rng(label)
	for _, p := range append(append([]ref.P{}, c16Shapes...), c16Big...) {
		k := c16New(t, label, p, p.Max(), false, false, r)
		k.how = "stored at the maximum"
		k.exhausted(r)
		k.done()
		// One left.
		k = c16New(t, label, p, p.Max()-1, r.Intn(3) == 0, false, r)
		k.how = "stored one before the maximum"
		sig, err := k.sk.Sign([]byte("last"))
		if err != nil {
			k.viol("refused-early", "the last index, %d, was refused: %v", p.Max()-1, err)
		} else {
			k.took(sig, []byte("last"), true)
		}
		k.exhausted(r)
		k.done()
		t.Nontrivial(label + p.String())
		// A key stored beyond its maximum never signs.
		if p.H < 63 {
			st := storedKey(p, k.s, p.Max()+1+uint64(r.Intn(5)))
			_, sk, _, _, err := loadKey(st)
			if err == nil {
				if sig, err := sk.Sign(nil); err == nil {
					k.viol("past-end", "a key stored at %d, beyond the maximum %d, signed with index %d", st.SeqNo, p.Max(), sig.SeqNo())
				}
				sk.Close()
			}
		}
	}
}

// c16Race lets signers race for the last numbers.
func c16Race(t *mon.T, label string, i int) {
	r := t.Rng(label)
	var p ref.P
	if i%3 == 0 {
		p = c16Big[r.Intn(len(c16Big))]
	} else {
		p = c16Shapes[r.Intn(len(c16Shapes))]
	}
	left := uint64(r.Intn(40))
	if left > p.Max() {
		left = p.Max()
	}
	start := p.Max() - left
	k := c16New(t, label, p, start, i%4 == 1, true, r)
	defer k.done()
	k.how = fmt.Sprintf("signers racing for the last %d numbers", left)
	if r.Intn(2) == 0 {
		k.sk.EnableSubTreePrecomputation()
	}
	reserve := r.Intn(3)
	if reserve > 0 {
		k.sk.BorrowExactly(uint32(r.Intn(60)))
	}
	g := 2 + r.Intn(9)
	var ok, no, burnt int64
	var over int32
	grp := &group{t: t, label: label}
	for j := 0; j < g; j++ {
		rr := newRand(t.Sub(fmt.Sprint(label, j)))
		grp.Go(func() {
			for q := 0; q < int(left)*2/g+4; q++ {
				if reserve == 2 && rr.Intn(3) == 0 {
					if err := k.sk.BorrowExactlyIfBelow(uint32(rr.Intn(50)), uint32(rr.Intn(10))); err != nil {
						k.viol("reserve-failed", "reserving failed: %v", err)
					}
				}
				exhausted := uint64(k.sk.SeqNo()) == p.Max()
				if rr.Intn(12) == 0 {
					// This one burns its number.
					n := 0
					_, err := k.sk.SignFrom(readerFunc(func([]byte) (int, error) { n++; return 0, fmt.Errorf("injected") }))
					if err == nil {
						k.viol("reader-ignored", "a failing message was signed")
					}
					if n > 0 {
						atomic.AddInt64(&burnt, 1)
						if exhausted {
							atomic.StoreInt32(&over, 1)
						}
					}
					continue
				}
				sig, err := k.sk.Sign([]byte("race"))
				if err != nil {
					atomic.AddInt64(&no, 1)
					t.Count("refusals judged", 1)
					if uint64(k.sk.SeqNo()) != p.Max() {
						k.viol("refused-early", "signing was refused at %d of %d: %v", k.sk.SeqNo(), p.Max(), err)
					}
					if sig != nil {
						k.viol("signature-with-error", "a refusal returned a signature")
					}
					continue
				}
				if exhausted {
					atomic.StoreInt32(&over, 1)
				}
				atomic.AddInt64(&ok, 1)
				k.took(sig, []byte("race"), rr.Intn(3) == 0)
				if uint64(sig.SeqNo()) < start {
					k.viol("index", "index %d was handed out, the key started at %d", sig.SeqNo(), start)
				}
			}
		})
	}
	grp.Wait()
	if over != 0 {
		k.viol("signed-past-end", "an attempt begun when the key reported to be exhausted went through")
	}
	// A failing reader burns at most its own number.
	for uint64(k.sk.SeqNo()) < p.Max() {
		sig, err := k.sk.Sign([]byte("race"))
		if err != nil {
			k.viol("refused-early", "signing was refused at %d of %d: %v", k.sk.SeqNo(), p.Max(), err)
			return
		}
		ok++
		k.took(sig, []byte("race"), true)
	}
	if uint64(ok+burnt) != left {
		k.viol("number", "%d numbers were left, %d signatures were made and %d numbers burnt", left, ok, burnt)
	}
	k.exhausted(r)
	t.Nontrivial(fmt.Sprint(label, ok, no, burnt))
	t.Distinct("races (left, signers, refusals)", fmt.Sprint(left, g, no))
}

// c16End reaches the end in odd ways.
func c16End(t *mon.T, label string, i int) {
	r := t.Rng(label)
	var p ref.P
	if i%3 == 0 {
		p = c16Big[r.Intn(len(c16Big))]
	} else {
		p = c16Shapes[r.Intn(len(c16Shapes))]
	}
	left := uint64(r.Intn(8))
	if left > p.Max() {
		left = p.Max()
	}
	start := p.Max() - left
	k := c16New(t, label, p, start, i%5 == 4, false, r)
	defer k.done()
	sign := func() bool {
		sig, err := k.sk.Sign([]byte("end"))
		if err != nil {
			return false
		}
		k.took(sig, []byte("end"), true)
		return true
	}
	if r.Intn(2) == 0 {
		k.sk.EnableSubTreePrecomputation()
	}
	switch kind := r.Intn(6); kind {
	case 0:
		k.how = "everything reserved, crash"
		a := uint32(left) + uint32(r.Intn(100))
		if err := k.sk.BorrowExactly(a); err != nil {
			k.viol("reserve-failed", "BorrowExactly(%d): %v", a, err)
		}
		used := uint64(r.Intn(int(left) + 1))
		for j := uint64(0); j < used; j++ {
			if !sign() {
				k.viol("refused-early", "signing was refused at %d of %d", k.sk.SeqNo(), p.Max())
			}
		}
		var lost uint32
		k.sk, lost = k.st.crash(k.sk)
		if uint64(lost) < left-used || uint64(lost) > left {
			k.viol("lost", "%d numbers were lost at the end, the reload reports %d", left-used, lost)
		}
	case 1:
		k.how = "jump to the maximum"
		k.sk.BorrowExactly(uint32(r.Intn(12)))
		k.sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(p.Max()))
		k.refused(2)
		// Closing persists the jump.
		if err := k.sk.Close(); err != nil {
			k.viol("close-failed", "Close: %v", err)
		}
		k.sk, _ = k.st.reload()
	case 2:
		k.how = "jump to the last number"
		k.sk.BorrowExactly(uint32(r.Intn(12)))
		k.sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(p.Max() - 1))
		k.sk.BorrowExactly(uint32(r.Intn(12)))
		if !sign() {
			k.viol("refused-early", "the last number was refused")
		}
	case 3:
		k.how = "failing readers burn the last numbers"
		for j := uint64(0); j < left; j++ {
			if r.Intn(2) == 0 {
				k.sk.BorrowExactlyIfBelow(uint32(r.Intn(20)), 1)
			}
			if r.Intn(3) > 0 {
				k.sk.SignFrom(readerFunc(func([]byte) (int, error) { return 0, fmt.Errorf("injected") }))
			} else if !sign() {
				k.viol("refused-early", "signing was refused at %d of %d", k.sk.SeqNo(), p.Max())
			}
		}
	case 4:
		k.how = "a failing container at the end"
		if k.st.fs {
			break
		}
		var on int32
		k.st.ctr.Fault = func(op string, n int) error {
			if atomic.LoadInt32(&on) == 1 && (op == "SetSeqNo" || op == "BorrowSeqNos") {
				return fmt.Errorf("injected")
			}
			return nil
		}
		for j := 0; j < 30 && uint64(k.sk.SeqNo()) < p.Max(); j++ {
			f := int32(r.Intn(2))
			atomic.StoreInt32(&on, f)
			was := uint64(k.sk.SeqNo())
			reserved := k.sk.BorrowedSeqNos() > 0
			done := sign()
			if done != (f == 0 || reserved) {
				k.viol("fault-ignored", "container failing: %v, numbers reserved: %v, signed: %v", f == 1, reserved, done)
			}
			if !done && uint64(k.sk.SeqNo()) != was {
				k.viol("fault-moved", "a refused signature moved the sequence number from %d to %d", was, k.sk.SeqNo())
			}
			k.sk.BorrowExactly(uint32(r.Intn(2)) * uint32(r.Intn(20)))
			atomic.StoreInt32(&on, 0)
			if r.Intn(2) == 0 {
				k.sk.BorrowExactly(0)
			}
		}
		k.st.ctr.Fault = nil
	case 5:
		k.how = "reloading before every signature"
		for j := uint64(0); j < left; j++ {
			k.sk.BorrowExactly(uint32(r.Intn(20)))
			if !sign() {
				k.viol("refused-early", "signing was refused at %d of %d", k.sk.SeqNo(), p.Max())
			}
			if err := k.sk.Close(); err != nil {
				k.viol("close-failed", "Close: %v", err)
			}
			k.sk, _ = k.st.reload()
		}
	}
	for uint64(k.sk.SeqNo()) < p.Max() {
		if !sign() {
			k.viol("refused-early", "signing was refused at %d of %d", k.sk.SeqNo(), p.Max())
			return
		}
	}
	how := k.how
	k.exhausted(r)
	t.Nontrivial(label + how)
	t.Distinct("ways to the end", fmt.Sprint(how, left, p.H > 30))
}

// c16Helper exhausts a key file with the package-level helper.
func c16Helper(t *mon.T, label string, i int) {
	r := t.Rng(label)
	p := c16Shapes[r.Intn(len(c16Shapes))]
	dir := scratchDir("c16h")
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "key")
	s := mkSeeds(r, p.N)
	sk, pk, err := mustCtx(p).Derive(path, s.pub, s.sk, s.prf)
	if err != nil {
		panic(libErr{"Derive: " + err.Error()})
	}
	left := uint64(r.Intn(int(min(p.Max(), 6)) + 1))
	if left < p.Max() {
		sk.BorrowExactly(uint32(p.Max() - left))
		sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(p.Max() - left))
	}
	if err := sk.Close(); err != nil {
		panic(libErr{"Close: " + err.Error()})
	}
	used := map[uint64]bool{}
	for j := uint64(0); j < left+3; j++ {
		b, err := xmssmt.Sign(path, []byte("m"))
		if j >= left {
			t.Count("refusals judged", 1)
			if err == nil || len(b) > 0 {
				t.Violate("helper-past-end", label, nil, "%v: the helper signed %d times with %d numbers left", p, j+1, left)
			}
			if err != nil && err.Locked() {
				t.Violate("helper-locked", label, nil, "%v: the helper reports the exhausted key as locked", p)
			}
			continue
		}
		if err != nil {
			t.Violate("helper-refused", label, nil, "%v: the helper refused signature %d of the %d left: %v", p, j, left, err)
			return
		}
		var sig xmssmt.Signature
		if err := sig.UnmarshalBinary(b); err != nil || !verify(t, label, pk, &sig, []byte("m")) || used[uint64(sig.SeqNo())] {
			t.Violate("helper-invalid", label, nil, "%v: the helper's signature %d of the last %d is invalid or repeats an index: %v", p, j, left, err)
		}
		used[uint64(sig.SeqNo())] = true
		t.Count("signatures up to the end", 1)
	}
	sk, _, lost, err := xmssmt.LoadPrivateKey(path)
	if err != nil {
		t.Violate("helper-load", label, nil, "%v: the exhausted key does not load: %v", p, err)
		return
	}
	if uint64(sk.SeqNo()) != p.Max() || lost != 0 {
		t.Violate("helper-state", label, nil, "%v: the exhausted key is at %d of %d with %d lost", p, sk.SeqNo(), p.Max(), lost)
	}
	if err := sk.Close(); err != nil {
		t.Violate("helper-close", label, nil, "%v: %v", p, err)
	}
	t.Count("reloads of exhausted keys", 1)
	t.Count("keys exhausted", 1)
	t.Nontrivial(label)
}
