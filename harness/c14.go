package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"

	"github.com/bwesterb/go-xmssmt"
	"xverif/memctr"
	"xverif/mon"
	"xverif/ref"
)

func init() {
	checks["C14"] = check{run: runC14,
		rule: "Random histories of reserve / reserve-if-below / shrink / return / sign / jump / close / crash / reload are run on the real code over memory and file containers and, after every step, compared with a model of the accounting: number reserved, numbers persisted, writes to the container while reserved numbers are used, sequence number and reported losses after every reload. Concurrent histories (signers racing with refills) are compared with the model whenever they are quiet. Non-trivial: distinct histories."}
}

// c14store hides whether a key lives in memory or in files.
type c14store struct {
	t     *mon.T
	label string
	fs    bool
	dir   string
	n     int
	ctr   *memctr.Ctr
	path  string
	conc  bool
}

func (s *c14store) wire() {
	s.ctr.Broken = func(w string) { s.t.Violate("container-misuse", s.label, w, "%s", w) }
	if s.conc {
		s.ctr.Before = func(string) { jitter(2) }
	}
}

// create stores a key at a sequence number.
func (s *c14store) create(p ref.P, se seeds, at uint64) (*xmssmt.PrivateKey, uint32) {
	if !s.fs {
		s.ctr = memctr.From(storedKey(p, se, at))
		s.wire()
		sk, _, lost, err := xmssmt.LoadPrivateKeyFrom(s.ctr)
		if err != nil {
			panic(libErr{"LoadPrivateKeyFrom: " + err.Error()})
		}
		return sk, lost
	}
	s.path = filepath.Join(s.dir, "key0")
	c, err := xmssmt.OpenFSPrivateKeyContainer(s.path)
	if err == nil {
		err = c.Reset(append(append(clone(se.sk), se.prf...), se.pub...), fromRef(p))
	}
	if err == nil {
		err = c.SetSeqNo(xmssmt.SignatureSeqNo(at))
	}
	if err == nil {
		err = c.Close()
	}
	if err != nil {
		panic(libErr{"file container: " + err.Error()})
	}
	return s.reload()
}

// reload loads after a clean close.
func (s *c14store) reload() (*xmssmt.PrivateKey, uint32) {
	var sk *xmssmt.PrivateKey
	var lost uint32
	var err xmssmt.Error
	if s.fs {
		sk, _, lost, err = xmssmt.LoadPrivateKey(s.path)
	} else {
		s.ctr = memctr.From(s.ctr.Snapshot())
		s.wire()
		sk, _, lost, err = xmssmt.LoadPrivateKeyFrom(s.ctr)
	}
	if err != nil {
		panic(libErr{"reload: " + err.Error()})
	}
	return sk, lost
}

// crash leaves the old handle behind and loads what is stored right now.
func (s *c14store) crash(old *xmssmt.PrivateKey) (*xmssmt.PrivateKey, uint32) {
	if s.fs {
		s.n++
		np := filepath.Join(s.dir, fmt.Sprintf("key%d", s.n))
		for _, x := range []string{"", ".cache"} {
			b, err := os.ReadFile(s.path + x)
			if err != nil {
				panic("harness: " + err.Error())
			}
			if err := os.WriteFile(np+x, b, 0600); err != nil {
				panic("harness: " + err.Error())
			}
		}
		old.Close() // the dead process's files are no longer looked at
		s.path = np
		return s.reload()
	}
	st := s.ctr.Snapshot()
	s.ctr = memctr.From(st)
	s.wire()
	sk, _, lost, err := xmssmt.LoadPrivateKeyFrom(s.ctr)
	if err != nil {
		panic(libErr{"reload after a crash: " + err.Error()})
	}
	return sk, lost
}

// stamp identifies the last write of the key's accounting.
func (s *c14store) stamp() string {
	if !s.fs {
		return fmt.Sprint(s.ctr.NOps("SetSeqNo", "BorrowSeqNos", "Reset"))
	}
	var st syscall.Stat_t
	if err := syscall.Stat(s.path, &st); err != nil {
		return "gone"
	}
	b, _ := os.ReadFile(s.path)
	return fmt.Sprint(st.Ino, st.Mtim, st.Ctim, mon.Hex(b))
}

// stored decodes what is persisted.
func (s *c14store) stored() (seq uint64, rec uint32) {
	if !s.fs {
		st := s.ctr.Snapshot()
		return st.SeqNo, st.Borrowed
	}
	// The format is the library's business: ask it, on a copy.
	b, err := os.ReadFile(s.path)
	if err != nil {
		panic("harness: " + err.Error())
	}
	q := filepath.Join(s.dir, "peek")
	if err := os.WriteFile(q, b, 0600); err != nil {
		panic("harness: " + err.Error())
	}
	c, e := xmssmt.OpenFSPrivateKeyContainer(q)
	if e != nil {
		panic(libErr{"open a copy: " + e.Error()})
	}
	defer c.Close()
	sn, rec, e := c.GetSeqNo()
	if e != nil {
		panic(libErr{"GetSeqNo of a copy: " + e.Error()})
	}
	return uint64(sn), rec
}

// c14model is the accounting as documented.
type c14model struct {
	seq, max uint64
	b        uint64 // reserved and not used
	pers     uint64 // where a reload would start
	cum      uint64 // reserved since the losses were last settled
}

func (m *c14model) want(k uint64) uint64 {
	if k > m.max-m.seq {
		return m.max - m.seq
	}
	return k
}

func (m *c14model) reserve(k uint64) {
	k = m.want(k)
	if k == m.b {
		return
	}
	if k < m.b {
		m.b, m.cum = 0, 0
	}
	m.cum += k - m.b
	m.b = k
	m.pers = m.seq + k
}

func (m *c14model) sign() {
	m.seq++
	if m.b > 0 {
		m.b--
		return
	}
	m.pers = m.seq
	m.cum = 0
}

func runC14(t *mon.T) {
	t.Assume = []string{"containers honour their contract", "sequence numbers are only ever moved forward by DangerousSetSeqNo"}
	xmssmt.SetLogger(jitterLogger{1})
	n := t.Pick(400, 8000)
	mon.Par(n, func(i int) {
		l := fmt.Sprintf("seq/%d", i)
		cs(t, l, func() { c14Seq(t, l, i) })
	})
	n = t.Pick(160, 3000)
	mon.ParN(6, n, func(i int) {
		l := fmt.Sprintf("conc/%d", i)
		cs(t, l, func() { c14Conc(t, l, i) })
	})
	cs(t, "amounts", func() { c14Amounts(t) })
	t.Require("steps compared", 5000)
	t.Require("crashes", 300)
	t.Require("clean reloads", 300)
	t.Require("signatures from reserved numbers", 2000)
	t.Require("reservations cut at the end", 50)
	t.Require("quiet moments after concurrent use", 300)
}

func c14Start(r *rand.Rand, p ref.P) uint64 {
	max := uint64(1)<<uint(p.H) - 1
	if p.H > 63 {
		max = 1<<63 - 1
	}
	switch r.Intn(5) {
	case 0:
		return 0
	case 1:
		return max - uint64(r.Int63n(int64(min(max, 60))+1))
	case 2:
		if p.H > 33 {
			return 1<<32 - uint64(r.Intn(60))
		}
		return uint64(r.Int63n(int64(max)))
	case 3:
		// around a boundary of subtrees
		th := uint(p.TreeHeight())
		x := (uint64(r.Int63n(int64(max))) >> th) << th
		if x > 3 {
			x -= uint64(r.Intn(4))
		}
		return x
	}
	return uint64(r.Int63n(int64(max)))
}

func c14Amount(r *rand.Rand, m *c14model) uint32 {
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return uint32(m.b)
	case 3:
		if m.b > 0 {
			return uint32(m.b) - 1
		}
	case 4:
		return uint32(m.b) + 1
	case 5:
		if m.max-m.seq < 1<<20 {
			return uint32(m.max-m.seq) + uint32(r.Intn(4)) - uint32(min(1, m.max-m.seq))
		}
		return uint32(r.Intn(100000))
	}
	return uint32(r.Intn(30))
}

func c14Seq(t *mon.T, label string, i int) {
	r := t.Rng(label)
	shapes := [][2]int{{8, 4}, {6, 3}, {10, 5}, {3, 1}, {12, 6}, {40, 20}, {60, 30}, {4, 4}}
	sh := shapes[r.Intn(len(shapes))]
	p := cheap(sh[0], sh[1])
	s := &c14store{t: t, label: label, fs: i%4 == 3}
	if s.fs {
		s.dir = scratchDir("c14")
		defer os.RemoveAll(s.dir)
	}
	m := &c14model{max: uint64(1)<<uint(p.H) - 1}
	m.seq = c14Start(r, p)
	m.pers = m.seq
	sk, lost := s.create(p, mkSeeds(r, p.N), m.seq)
	defer func() { sk.Close() }()
	var hist []string
	viol := func(key, f string, a ...any) {
		t.Violate(key, label, map[string]any{"shape": p.String(), "files": s.fs, "history": append([]string(nil), hist...)},
			"%s after %s", fmt.Sprintf(f, a...), strings.Join(tail(hist, 12), ", "))
	}
	if lost != 0 {
		viol("lost-from-nothing", "a key without reservations reports %d lost signatures", lost)
	}
	compare := func() {
		t.Count("steps compared", 1)
		if g := uint64(sk.BorrowedSeqNos()); g != m.b {
			viol("reserved-wrong", "the key reports %d reserved numbers, %d are", g, m.b)
		}
		if g := uint64(sk.SeqNo()); g != m.seq {
			viol("seqno-wrong", "the key is at %d, expected %d", g, m.seq)
		}
	}
	compareStored := func() {
		seq, rec := s.stored()
		if seq != m.pers {
			viol("persisted-wrong", "%d is persisted, expected %d (at %d with %d reserved)", seq, m.pers, m.seq, m.b)
		}
		if uint64(rec) < m.b || uint64(rec) > m.cum {
			viol("record-wrong", "the container records %d possibly lost numbers; %d are reserved now, %d were since the last settlement", rec, m.b, m.cum)
		}
	}
	steps := t.Pick(40, 80)
	if s.fs {
		steps = t.Pick(24, 60)
	}
	for k := 0; k < steps && !t.Stop(); k++ {
		switch op := r.Intn(12); op {
		case 0, 1:
			a := c14Amount(r, m)
			hist = append(hist, fmt.Sprintf("reserve %d", a))
			if uint64(a) > m.max-m.seq {
				t.Count("reservations cut at the end", 1)
			}
			if err := sk.BorrowExactly(a); err != nil {
				viol("reserve-failed", "BorrowExactly(%d) failed: %v", a, err)
				return
			}
			m.reserve(uint64(a))
		case 2:
			a, th := c14Amount(r, m), c14Amount(r, m)
			hist = append(hist, fmt.Sprintf("reserve %d if at most %d", a, th))
			before := s.stamp()
			if err := sk.BorrowExactlyIfBelow(a, th); err != nil {
				viol("reserve-failed", "BorrowExactlyIfBelow(%d, %d) failed: %v", a, th, err)
				return
			}
			if m.b <= uint64(th) {
				m.reserve(uint64(a))
			} else if s.stamp() != before {
				viol("needless-write", "BorrowExactlyIfBelow(%d, %d) with %d reserved wrote to the container", a, th, m.b)
			}
		case 3, 4, 5, 6, 7:
			for j := r.Intn(5); j >= 0; j-- {
				hist = append(hist, "sign")
				was := m.b
				before := ""
				if was > 0 {
					before = s.stamp()
				}
				sig, err := sk.Sign([]byte{byte(k)})
				if m.seq >= m.max {
					if err == nil {
						viol("past-end", "index %d was signed with, the maximum is %d", sig.SeqNo(), m.max)
						return
					}
					break
				}
				if err != nil {
					viol("sign-failed", "signing failed at %d of %d: %v", m.seq, m.max, err)
					return
				}
				if uint64(sig.SeqNo()) != m.seq {
					viol("wrong-index", "signed with %d, expected %d", sig.SeqNo(), m.seq)
				}
				m.sign()
				if was > 0 {
					t.Count("signatures from reserved numbers", 1)
					if s.stamp() != before {
						viol("write-while-reserved", "a signature wrote the sequence number although %d were reserved", was)
					}
				}
				compare()
			}
		case 8:
			hist = append(hist, "return all")
			if err := sk.BorrowExactly(0); err != nil {
				viol("return-failed", "BorrowExactly(0) failed: %v", err)
				return
			}
			m.reserve(0)
		case 9:
			hist = append(hist, "close and reload")
			if err := sk.Close(); err != nil {
				viol("close-failed", "Close failed: %v", err)
				return
			}
			m.b, m.cum, m.pers = 0, 0, m.seq
			compareStored()
			sk, lost = s.reload()
			t.Count("clean reloads", 1)
			if lost != 0 {
				viol("lost-after-close", "a reload after a clean close reports %d lost signatures", lost)
			}
		case 10:
			hist = append(hist, "crash")
			sk, lost = s.crash(sk)
			t.Count("crashes", 1)
			if uint64(lost) < m.b {
				viol("lost-too-few", "%d signatures were lost in a crash, the reload reports %d", m.b, lost)
			}
			if uint64(lost) > m.cum {
				viol("lost-too-many", "the reload after a crash reports %d lost signatures, only %d were reserved", lost, m.cum)
			}
			if m.b > 0 {
				t.Count("crashes with reserved numbers", 1)
			}
			m.seq, m.b = m.pers, 0
		case 11:
			if r.Intn(3) > 0 || m.seq >= m.max {
				continue
			}
			m.seq += uint64(r.Int63n(int64(min(m.max-m.seq, 40)) + 1))
			// What was reserved is forgotten, not returned: the numbers
			// skipped over can never be used.
			m.b = 0
			hist = append(hist, fmt.Sprintf("jump to %d", m.seq))
			sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(m.seq))
			compare()
			// A crash right now would be the caller's problem; the next
			// write settles the position.
			if m.pers < m.seq {
				if r.Intn(2) == 0 && m.seq < m.max {
					hist = append(hist, "sign")
					if _, err := sk.Sign([]byte{1}); err != nil {
						viol("sign-failed", "signing failed at %d of %d: %v", m.seq, m.max, err)
						return
					}
					m.sign()
				} else {
					hist = append(hist, "reserve 3")
					if err := sk.BorrowExactly(3); err != nil {
						viol("reserve-failed", "BorrowExactly(3) failed: %v", err)
						return
					}
					if m.want(3) > 0 {
						m.reserve(3)
						m.cum = max(m.cum, m.b)
					}
				}
			}
		}
		compare()
		if r.Intn(3) == 0 || !s.fs {
			compareStored()
		}
		if t.Violated() {
			return
		}
	}
	t.Nontrivial(fmt.Sprint(p, s.fs, hist))
	t.Distinct("histories", strings.Join(hist, ","))
	if i < 6 {
		t.Sample(map[string]any{"case": label, "shape": p.String(), "files": s.fs, "history": hist})
	}
}

func tail(x []string, n int) []string {
	if len(x) > n {
		return x[len(x)-n:]
	}
	return x
}

// c14Conc lets signers race with each other and with refills.
func c14Conc(t *mon.T, label string, i int) {
	r := t.Rng(label)
	shapes := [][2]int{{10, 5}, {8, 2}, {12, 6}, {40, 20}, {60, 30}}
	sh := shapes[r.Intn(len(shapes))]
	p := cheap(sh[0], sh[1])
	s := &c14store{t: t, label: label, fs: i%4 == 3, conc: true}
	if s.fs {
		s.dir = scratchDir("c14c")
		defer os.RemoveAll(s.dir)
	}
	max := uint64(1)<<uint(p.H) - 1
	start := c14Start(r, p)
	if i%5 > 0 && max-start < 200 {
		start = max - 200
	}
	sk, _ := s.create(p, mkSeeds(r, p.N), start)
	defer func() { sk.Close() }()
	viol := func(key, f string, a ...any) {
		t.Violate(key, label, map[string]any{"shape": p.String(), "files": s.fs}, f, a...)
	}
	if r.Intn(2) == 0 {
		sk.EnableSubTreePrecomputation()
	}
	seq := start
	cum := uint64(0) // upper bound on what was reserved and not settled
	for round := 0; round < t.Pick(6, 12) && !t.Stop(); round++ {
		g := 2 + r.Intn(6)
		switch r.Intn(3) {
		case 0:
			// Exactly as many signers as numbers reserved.
			k := uint64(1 + r.Intn(24))
			if err := sk.BorrowExactly(uint32(k)); err != nil {
				viol("reserve-failed", "BorrowExactly failed: %v", err)
				return
			}
			if k > max-seq {
				k = max - seq
			}
			if b := uint64(sk.BorrowedSeqNos()); b != k {
				viol("reserved-wrong", "reserved %d, the key reports %d", k, b)
			}
			before := s.stamp()
			left := int64(k)
			var done int64
			grp := &group{t: t, label: label}
			for j := 0; j < g; j++ {
				grp.Go(func() {
					for atomic.AddInt64(&left, -1) >= 0 {
						if _, err := sk.Sign([]byte("x")); err != nil {
							viol("sign-failed", "signing with reserved numbers failed: %v", err)
						} else {
							atomic.AddInt64(&done, 1)
						}
					}
				})
			}
			grp.Go(func() {
				last := k
				for q := 0; q < 20; q++ {
					b := uint64(sk.BorrowedSeqNos())
					if b > last {
						viol("reserved-wrong", "the number of reserved numbers grew from %d to %d while signing", last, b)
					}
					last = b
					jitter(2)
				}
			})
			grp.Wait()
			seq += uint64(done)
			if k > 0 && s.stamp() != before {
				viol("write-while-reserved", "%d concurrent signatures wrote the sequence number although %d were reserved", done, k)
			}
			if b := sk.BorrowedSeqNos(); b != 0 {
				viol("reserved-wrong", "after using all %d reserved numbers the key reports %d", k, b)
			}
			t.Count("signatures from reserved numbers", int(done))
			cum += k + 24 // the reservation might have been shrunk and grown
		case 1:
			// The pattern of a server: refill below a threshold.
			var mu sync.Mutex
			grp := &group{t: t, label: label}
			for j := 0; j < g; j++ {
				rr := newRand(t.Sub(fmt.Sprint(label, round, j)))
				grp.Go(func() {
					for q := 0; q < 6; q++ {
						var a uint64
						if rr.Intn(3) == 0 {
							a = uint64(rr.Intn(20))
							if err := sk.BorrowExactlyIfBelow(uint32(a), uint32(rr.Intn(8))); err != nil {
								viol("reserve-failed", "BorrowExactlyIfBelow failed: %v", err)
							}
						} else if rr.Intn(6) == 0 {
							a = uint64(rr.Intn(5))
							if err := sk.BorrowExactly(uint32(a)); err != nil {
								viol("reserve-failed", "BorrowExactly failed: %v", err)
							}
						}
						sig, err := sk.Sign([]byte("x"))
						mu.Lock()
						cum += a
						if err == nil {
							seq++
						} else if uint64(sk.SeqNo()) < max {
							viol("sign-failed", "signing failed: %v", err)
						}
						mu.Unlock()
						_ = sig
					}
				})
			}
			grp.Wait()
		case 2:
			var n int64
			grp := &group{t: t, label: label}
			for j := 0; j < g; j++ {
				grp.Go(func() {
					for q := 0; q < 3; q++ {
						if _, err := sk.Sign([]byte("x")); err == nil {
							atomic.AddInt64(&n, 1)
						} else if uint64(sk.SeqNo()) < max {
							viol("sign-failed", "signing failed: %v", err)
						}
					}
				})
			}
			grp.Wait()
			seq += uint64(n)
		}
		// quiet
		t.Count("quiet moments after concurrent use", 1)
		b := uint64(sk.BorrowedSeqNos())
		if got := uint64(sk.SeqNo()); got != seq {
			viol("seqno-wrong", "%d signatures were made from %d on, the key is at %d", seq-start, start, got)
			return
		}
		pers, rec := s.stored()
		if pers != seq+b {
			viol("persisted-wrong", "%d is persisted with the key at %d and %d reserved", pers, seq, b)
		}
		if uint64(rec) < b || uint64(rec) > cum {
			viol("record-wrong", "the container records %d possibly lost numbers; %d are reserved, at most %d were", rec, b, cum)
		}
		switch r.Intn(4) {
		case 0:
			var lost uint32
			sk, lost = s.crash(sk)
			t.Count("crashes", 1)
			if uint64(lost) < b || uint64(lost) > cum {
				viol("lost-wrong", "a crash lost %d reserved numbers (at most %d were reserved), the reload reports %d", b, cum, lost)
			}
			seq += b
		case 1:
			if err := sk.Close(); err != nil {
				viol("close-failed", "Close failed: %v", err)
				return
			}
			if pers, rec := s.stored(); pers != seq || rec != 0 {
				viol("close-record", "after a clean close at %d the container holds %d with %d possibly lost", seq, pers, rec)
			}
			var lost uint32
			sk, lost = s.reload()
			t.Count("clean reloads", 1)
			if lost != 0 {
				viol("lost-after-close", "a reload after a clean close reports %d lost signatures", lost)
			}
			cum = 0
		}
		if got := uint64(sk.SeqNo()); got != seq {
			viol("reload-wrong", "the key reloads at %d, expected %d", got, seq)
			return
		}
	}
	t.Nontrivial(label + fmt.Sprint(seq, cum))
}

// c14Amounts reserves amounts at the limits of the counters.
func c14Amounts(t *mon.T) {
	p := cheap(40, 20)
	r := t.Rng("amounts")
	const big = 1<<32 - 1
	for i, fs := range []bool{false, true} {
		for _, start := range []uint64{0, 5, 1<<32 - 3, 1<<40 - 1 - big, 1<<40 - big, 1<<40 - 40} {
			label := fmt.Sprintf("amounts/%v/%d", fs, start)
			s := &c14store{t: t, label: label, fs: fs}
			if fs {
				s.dir = scratchDir("c14a")
			}
			m := &c14model{max: 1<<40 - 1, seq: start, pers: start}
			sk, _ := s.create(p, mkSeeds(r, p.N), start)
			check := func(what string) {
				t.Count("steps compared", 1)
				pers, rec := s.stored()
				if g := uint64(sk.BorrowedSeqNos()); g != m.b || uint64(sk.SeqNo()) != m.seq || pers != m.pers {
					t.Violate("amounts", label, what, "%s: the key is at %d with %d reserved and %d persisted, expected %d, %d and %d", what, sk.SeqNo(), g, pers, m.seq, m.b, m.pers)
				}
				if uint64(rec) < m.b || uint64(rec) > m.cum {
					t.Violate("amounts-record", label, what, "%s: the container records %d possibly lost numbers; %d are reserved, %d were", what, rec, m.b, m.cum)
				}
			}
			do := func(a uint32) {
				if err := sk.BorrowExactly(a); err != nil {
					t.Violate("amounts-failed", label, a, "BorrowExactly(%d) failed: %v", a, err)
				}
				m.reserve(uint64(a))
				check(fmt.Sprintf("reserve %d", a))
			}
			sign := func() {
				if m.seq >= m.max {
					return
				}
				if sig, err := sk.Sign(nil); err != nil || uint64(sig.SeqNo()) != m.seq {
					t.Violate("amounts-sign", label, nil, "signing at %d: %v", m.seq, err)
					return
				}
				m.sign()
				check("sign")
			}
			do(big)
			sign()
			sign()
			do(big) // tops up
			sign()
			do(big - 1)
			do(1)
			sign()
			do(1 << 31)
			do(1<<31 + 1)
			before := m.b
			pers := m.pers
			var lost uint32
			sk, lost = s.crash(sk)
			if uint64(lost) < before || uint64(lost) > m.cum {
				t.Violate("amounts-lost", label, nil, "%d reserved numbers were lost, the reload reports %d (%d were reserved)", before, lost, m.cum)
			}
			m.seq, m.b = pers, 0
			check("crash")
			do(big)
			before, pers = m.b, m.pers
			sk, lost = s.crash(sk)
			if uint64(lost) < before || uint64(lost) > m.cum {
				t.Violate("amounts-lost", label, nil, "%d reserved numbers were lost, the reload reports %d (%d were reserved)", before, lost, m.cum)
			}
			m.seq, m.b = pers, 0
			check("second crash")
			do(0)
			sk.Close()
			if fs {
				os.RemoveAll(s.dir)
			}
			t.Nontrivial(label)
			_ = i
		}
	}
}
