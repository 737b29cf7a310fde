package main

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"sync"
	"syscall"
	"unsafe"

	"github.com/bwesterb/go-xmssmt"
	"xverif/memctr"
	"xverif/mon"
	"xverif/ref"
)

func init() {
	checks["C20"] = check{run: runC20,
		rule: "Every buffer handed to the library lies in write-protected memory during the call, with bytes before and after it, and is overwritten with garbage right after; every buffer handed out is overwritten up to its capacity. Random lives of keys of all families (memory container with poisoned drops, file container with unmapped ones, several goroutines, precomputation) are compared, byte by byte, with a reference that kept its own copies: all later signatures, all signatures and public keys handed out earlier, before and after closing. Non-trivial: distinct (instance, call, later use) judged."}
}

// arena lends buffers to calls.
type arena struct {
	r    *rand.Rand
	mem  []byte
	prot bool
}

const arenaSize = 1 << 18

func newArena(r *rand.Rand, prot bool) *arena {
	a := &arena{r: r, prot: prot}
	if !prot {
		a.mem = make([]byte, arenaSize)
		return a
	}
	b, err := syscall.Mmap(-1, 0, arenaSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic("harness: mmap: " + err.Error())
	}
	a.mem = b
	return a
}

func (a *arena) free() {
	if a.prot {
		syscall.Munmap(a.mem)
	}
}

func (a *arena) protect(how int) {
	if a.prot {
		if err := syscall.Mprotect(a.mem, how); err != nil {
			panic("harness: mprotect: " + err.Error())
		}
	}
}

// holds tells whether an address lies in the arena.
func (a *arena) holds(x uintptr) bool {
	lo := uintptr(unsafe.Pointer(&a.mem[0]))
	return x >= lo && x < lo+uintptr(len(a.mem))
}

// lend copies the buffers into the arena, runs f on the copies and overwrites
// them.  changed tells what happened to the memory during f.
func (a *arena) lend(f func(b [][]byte), bufs ...[]byte) (changed string) {
	size := 64
	for _, b := range bufs {
		size += len(b) + 80
	}
	if size > len(a.mem) {
		panic("harness: arena too small")
	}
	win := a.mem[:size]
	a.r.Read(win)
	var lent [][]byte
	at := a.r.Intn(32)
	for _, b := range bufs {
		copy(win[at:], b)
		// Some buffers have spare capacity which is not theirs to use.
		hi := at + len(b)
		if a.r.Intn(4) > 0 {
			hi = min(hi+1+a.r.Intn(60), len(win))
		}
		s := win[at : at+len(b) : hi]
		if b == nil {
			s = nil
		}
		lent = append(lent, s)
		at += len(b) + a.r.Intn(40)
	}
	before := clone(win)
	func() {
		a.protect(syscall.PROT_READ)
		defer a.protect(syscall.PROT_READ | syscall.PROT_WRITE)
		defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
		defer func() {
			e := recover()
			if e == nil {
				return
			}
			if x, ok := e.(interface{ Addr() uintptr }); ok && a.holds(x.Addr()) {
				stack := string(debug.Stack())
				if !mon.Library(stack) {
					panic(e)
				}
				changed = fmt.Sprintf("a write to the caller's buffer was attempted at %s", mon.PanicSite(stack))
				return
			}
			panic(e)
		}()
		f(lent)
	}()
	if changed == "" && !bytes.Equal(before, win) {
		i := 0
		for before[i] == win[i] {
			i++
		}
		changed = fmt.Sprintf("byte %d of the memory around the caller's buffers was changed", i)
	}
	a.r.Read(win)
	return
}

// wipe overwrites a buffer handed out, up to its capacity.
func wipe(r *rand.Rand, b []byte) { r.Read(b[:cap(b)]) }

// c20Kept is something handed out that must stay as it is.
type c20Kept struct {
	what string
	pk   *xmssmt.PublicKey
	sig  *xmssmt.Signature
	want []byte
	msg  []byte
}

type c20 struct {
	t     *mon.T
	label string
	p     ref.P
	key   *ref.Key
	pk    []byte // right encoding of the public key
	mu    sync.Mutex
	kept  []c20Kept
	hist  []string
}

func (c *c20) step(f string, a ...any) {
	c.mu.Lock()
	c.hist = append(c.hist, fmt.Sprintf(f, a...))
	c.mu.Unlock()
}

func (c *c20) viol(key, f string, a ...any) {
	c.mu.Lock()
	h := append([]string(nil), tail(c.hist, 12)...)
	c.mu.Unlock()
	c.t.Violate(key, c.label, h, "%v: %s; after %v", c.p, fmt.Sprintf(f, a...), tail(h, 6))
}

// lend judges what happened to lent buffers.
func (c *c20) lend(a *arena, what string, f func(b [][]byte), bufs ...[]byte) {
	c.step("%s", what)
	if ch := a.lend(f, bufs...); ch != "" {
		c.viol("changed:"+what, "%s changed a buffer passed to it: %s", what, ch)
	}
	c.t.Count("buffers lent", len(bufs))
}

func (c *c20) keepPK(what string, pk *xmssmt.PublicKey) {
	c.mu.Lock()
	c.kept = append(c.kept, c20Kept{what: what, pk: pk, want: c.pk})
	c.mu.Unlock()
}

func (c *c20) keepSig(what string, sig *xmssmt.Signature, want, msg []byte) {
	c.mu.Lock()
	c.kept = append(c.kept, c20Kept{what: what, sig: sig, want: want, msg: msg})
	c.mu.Unlock()
}

// look compares everything handed out with what it was.
func (c *c20) look(a *arena, when string, use bool) {
	c.mu.Lock()
	kept := append([]c20Kept(nil), c.kept...)
	c.mu.Unlock()
	r := a.r
	for _, k := range kept {
		if k.pk != nil {
			b := pkBytes(k.pk)
			if !bytes.Equal(b, k.want) {
				c.viol("public-key-changed", "%s: the public key from %s is %s, not %s any more", when, k.what, mon.Hex(b), mon.Hex(k.want))
				continue
			}
			wipe(r, b)
			tx, err := k.pk.MarshalText()
			if err != nil || string(tx) != base64.StdEncoding.EncodeToString(k.want) {
				c.viol("public-key-changed", "%s: the text of the public key from %s is %q (%v)", when, k.what, tx, err)
			}
			wipe(r, tx)
			w := bytes.Repeat([]byte{0xa5}, len(k.want)+r.Intn(3)*r.Intn(300))
			if err := k.pk.WriteInto(w); err != nil || !bytes.Equal(w[:len(k.want)], k.want) {
				c.viol("public-key-changed", "%s: WriteInto of the public key from %s gives %s (%v)", when, k.what, mon.Hex(w), err)
			}
			if len(bytes.Trim(w[len(k.want):], "\xa5")) > 0 {
				c.viol("wrote-beyond", "%s: WriteInto of the public key from %s wrote beyond its %d bytes", when, k.what, len(k.want))
			}
			wipe(r, w)
			if b := pkBytes(k.pk); !bytes.Equal(b, k.want) {
				c.viol("public-key-changed", "%s: the public key from %s changed with the encodings handed out before", when, k.what)
			}
			c.t.Count("later looks at public keys", 1)
		} else {
			b := sigBytes(k.sig)
			if !bytes.Equal(b, k.want) {
				c.viol("signature-changed", "%s: the signature from %s changed at byte %d of %d", when, k.what, firstDiff(b, k.want), len(b))
				continue
			}
			wipe(r, b)
			w := bytes.Repeat([]byte{0xa5}, len(k.want)+r.Intn(3)*r.Intn(300))
			if err := k.sig.WriteInto(w); err != nil || !bytes.Equal(w[:len(k.want)], k.want) {
				c.viol("signature-changed", "%s: WriteInto of the signature from %s gives something else (%v)", when, k.what, err)
			}
			if len(bytes.Trim(w[len(k.want):], "\xa5")) > 0 {
				c.viol("wrote-beyond", "%s: WriteInto of the signature from %s wrote beyond its %d bytes", when, k.what, len(k.want))
			}
			wipe(r, w)
			if b := sigBytes(k.sig); !bytes.Equal(b, k.want) {
				c.viol("signature-changed", "%s: the signature from %s changed with the encodings handed out before", when, k.what)
			}
			c.t.Count("later looks at signatures", 1)
		}
		c.t.Nontrivial(fmt.Sprintf("%v/%s/%s", c.p, when, k.what))
	}
	if !use {
		return
	}
	var pks, sigs []c20Kept
	for _, k := range kept {
		if k.pk != nil {
			pks = append(pks, k)
		} else {
			sigs = append(sigs, k)
		}
	}
	for j, s := range sigs {
		if j > 40 || len(pks) == 0 {
			break
		}
		pk := pks[j%len(pks)]
		bad := clone(s.msg)
		bad = append(bad, 'x')
		for _, m := range []struct {
			msg []byte
			ok  bool
		}{{s.msg, true}, {bad, false}} {
			c.lend(a, "Verify", func(b [][]byte) {
				if ok, _ := pk.pk.Verify(s.sig, b[0]); ok != m.ok {
					c.viol("verdict", "%s: the public key from %s gives %v on the signature from %s, expected %v", when, pk.what, ok, s.what, m.ok)
				}
			}, m.msg)
		}
		c.t.Count("later verifications", 2)
	}
}

func firstDiff(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

// got judges a fresh signature and hands it around.
func (c *c20) got(a *arena, what string, sig *xmssmt.Signature, msg []byte) {
	r := a.r
	idx := uint64(sig.SeqNo())
	if idx >= c.p.Max()+1 {
		c.viol("wrong-signature", "%s gave index %d", what, idx)
		return
	}
	want := c.key.Sign(idx, msg)
	b := sigBytes(sig)
	if !bytes.Equal(b, want) {
		c.viol("wrong-signature", "%s gave a signature of index %d that differs from the scheme's at byte %d of %d", what, idx, firstDiff(b, want), len(b))
		return
	}
	c.t.Count("signatures compared with the reference", 1)
	c.keepSig(fmt.Sprintf("%s (index %d)", what, idx), sig, want, msg)
	// decoded copies
	var s2 xmssmt.Signature
	c.lend(a, "Signature.UnmarshalBinary", func(x [][]byte) {
		if err := s2.UnmarshalBinary(x[0]); err != nil {
			c.viol("refused", "UnmarshalBinary: %v", err)
		}
	}, b)
	wipe(r, b)
	c.keepSig(fmt.Sprintf("decoding (index %d)", idx), &s2, want, msg)
}

func (c *c20) gotPK(a *arena, what string, pk *xmssmt.PublicKey) {
	r := a.r
	c.keepPK(what, pk)
	b := pkBytes(pk)
	if !bytes.Equal(b, c.pk) {
		c.viol("wrong-public-key", "%s gave the public key %s, not %s", what, mon.Hex(b), mon.Hex(c.pk))
		return
	}
	var p2, p3 xmssmt.PublicKey
	c.lend(a, "PublicKey.UnmarshalBinary", func(x [][]byte) {
		if err := p2.UnmarshalBinary(x[0]); err != nil {
			c.viol("refused", "UnmarshalBinary: %v", err)
		}
	}, b)
	wipe(r, b)
	tx, err := pk.MarshalText()
	if err != nil {
		c.viol("refused", "MarshalText: %v", err)
		return
	}
	c.lend(a, "PublicKey.UnmarshalText", func(x [][]byte) {
		if err := p3.UnmarshalText(x[0]); err != nil {
			c.viol("refused", "UnmarshalText: %v", err)
		}
	}, tx)
	wipe(r, tx)
	c.keepPK(what+", binary", &p2)
	c.keepPK(what+", text", &p3)
}

func runC20(t *mon.T) {
	t.Assume = []string{"readers keep to io.Reader's contract: they use the buffer passed to Read during the call only"}
	n := t.Pick(144, 1440)
	mon.Par(n, func(i int) {
		l := fmt.Sprintf("life/%d", i)
		cs(t, l, func() { c20Life(t, l, i) })
	})
	n = t.Pick(48, 480)
	mon.Par(n, func(i int) {
		l := fmt.Sprintf("files/%d", i)
		cs(t, l, func() { c20Files(t, l, i) })
	})
	n = t.Pick(144, 1440)
	mon.Par(n, func(i int) {
		l := fmt.Sprintf("refused/%d", i)
		cs(t, l, func() { c20Refused(t, l, i) })
	})
	n = t.Pick(24, 240)
	mon.Par(n, func(i int) {
		l := fmt.Sprintf("reuse/%d", i)
		cs(t, l, func() { c20Reuse(t, l, i) })
	})
	t.Require("buffers lent", 5000)
	t.Require("later looks at signatures", 5000)
	t.Require("later looks at public keys", 1000)
	t.Require("signatures compared with the reference", 1000)
	t.Require("later verifications", 1000)
}

func c20Shape(i int) ref.P {
	f := families()
	p := f[i%len(f)]
	hd := [][2]int{{4, 2}, {3, 1}, {4, 4}, {6, 3}, {2, 2}, {6, 2}}[(i/len(f)+i)%6]
	if p.W == 256 || p.N == 64 {
		hd = [][2]int{{2, 1}, {3, 3}, {4, 2}}[i%3]
	}
	return shape(p, hd[0], hd[1])
}

func newC20(t *mon.T, label string, p ref.P, s seeds) *c20 {
	c := &c20{t: t, label: label, p: p}
	c.key = ref.NewKey(p, s.pub, s.sk, s.prf)
	c.pk = c.key.PublicKey()
	return c
}

// c20Life lives a key's life with its buffers overwritten all the time.
func c20Life(t *mon.T, label string, i int) {
	r := t.Rng(label)
	p := c20Shape(i)
	s := mkSeeds(r, p.N)
	c := newC20(t, label, p, s)
	a := newArena(r, true)
	defer a.free()
	ctx := mustCtx(p)
	ctx.Threads = r.Intn(4)
	ctr := memctr.New()
	ctr.Broken = func(w string) { c.viol("contract", "%s", w) }
	var sk *xmssmt.PrivateKey
	var pk *xmssmt.PublicKey
	c.lend(a, "DeriveInto", func(b [][]byte) {
		x, y, err := ctx.DeriveInto(ctr, b[0], b[1], b[2])
		if err != nil {
			panic(libErr{"DeriveInto: " + err.Error()})
		}
		sk, pk = x, y
	}, s.pub, s.sk, s.prf)
	if sk == nil {
		return
	}
	c.gotPK(a, "DeriveInto", pk)
	if want := bytes.Join([][]byte{s.sk, s.prf, s.pub}, nil); !bytes.Equal(ctr.S.SK, want) {
		c.viol("stored-key", "the container got another private key than derived from")
	}
	if r.Intn(2) == 0 {
		sk.EnableSubTreePrecomputation()
		c.step("EnableSubTreePrecomputation")
	}
	left := int(p.Max())
	conc := i%3 == 2
	for left > 0 {
		n := 1 + r.Intn(left)
		if n > 12 {
			n = 12
		}
		if conc {
			g := &group{t: t, label: label}
			for w := 0; w < 3; w++ {
				rw := newRand(r.Int63())
				k := n / 3
				if w < n%3 {
					k++
				}
				g.Go(func() {
					aw := newArena(rw, false)
					for j := 0; j < k; j++ {
						c.sign(aw, sk)
					}
				})
			}
			g.Wait()
		} else {
			for j := 0; j < n; j++ {
				c.sign(a, sk)
			}
		}
		left -= n
		switch r.Intn(4) {
		case 0:
			c.gotPK(a, "PublicKey()", sk.PublicKey())
		case 1:
			c.look(a, "while the key signs", false)
		case 2:
			if r.Intn(2) == 0 {
				sk.BorrowExactly(uint32(r.Intn(3)))
			}
		case 3:
			// close and reload
			if err := sk.Close(); err != nil {
				panic(libErr{"Close: " + err.Error()})
			}
			c.step("Close and reload")
			st := ctr.Snapshot()
			c20Poison(ctr, r)
			c.look(a, "after closing", false)
			ctr = memctr.From(st)
			ctr.Broken = func(w string) { c.viol("contract", "%s", w) }
			var err xmssmt.Error
			sk, pk, _, err = xmssmt.LoadPrivateKeyFrom(ctr)
			if err != nil {
				panic(libErr{"LoadPrivateKeyFrom: " + err.Error()})
			}
			c.gotPK(a, "LoadPrivateKeyFrom", pk)
		}
	}
	c.look(a, "after the last signature", true)
	if err := sk.Close(); err != nil {
		panic(libErr{"Close: " + err.Error()})
	}
	c20Poison(ctr, r)
	c.step("Close")
	c.look(a, "after closing", true)
	t.Distinct("instances", p.String())
	if i < 2 {
		t.Sample(map[string]any{"case": label, "instance": p.String(), "handed out": len(c.kept), "last steps": tail(c.hist, 20)})
	}
}

// c20Poison overwrites the cache of a closed container.
func c20Poison(ctr *memctr.Ctr, r *rand.Rand) {
	if !ctr.Closed {
		return
	}
	for _, b := range ctr.S.Trees {
		r.Read(b)
	}
}

func (c *c20) sign(a *arena, sk *xmssmt.PrivateKey) {
	r := a.r
	msg := randBytes(r, []int{0, 1, 31, 64, 100, 136, 1000, 5000}[r.Intn(8)])
	var got *xmssmt.Signature
	var gotHow string
	c.lend(a, "Sign", func(b [][]byte) {
		var sig *xmssmt.Signature
		var err xmssmt.Error
		how := "Sign"
		if r.Intn(3) == 0 {
			how = "SignFrom"
			sig, err = sk.SignFrom(bytes.NewReader(b[0]))
		} else {
			sig, err = sk.Sign(b[0])
		}
		if err != nil {
			panic(libErr{how + ": " + err.Error()})
		}
		// Judged only after the message has been overwritten.
		got, gotHow = sig, how
	}, msg)
	if got != nil {
		c.got(a, gotHow, got, msg)
	}
}

// c20Files does the same with keys in files.
func c20Files(t *mon.T, label string, i int) {
	r := t.Rng(label)
	p := c20Shape(i * 7)
	s := mkSeeds(r, p.N)
	c := newC20(t, label, p, s)
	a := newArena(r, true)
	defer a.free()
	dir := scratchDir("c20")
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "key")
	var sk *xmssmt.PrivateKey
	c.lend(a, "Derive", func(b [][]byte) {
		x, y, err := mustCtx(p).Derive(path, b[0], b[1], b[2])
		if err != nil {
			panic(libErr{"Derive: " + err.Error()})
		}
		sk = x
		c.keepPK("Derive", y)
	}, s.pub, s.sk, s.prf)
	if sk == nil {
		return
	}
	left := int(p.Max())
	for left > 0 {
		switch {
		case sk != nil && r.Intn(5) > 0:
			c.sign(a, sk)
			left--
		case sk != nil:
			if err := sk.Close(); err != nil {
				panic(libErr{"Close: " + err.Error()})
			}
			sk = nil
			c.step("Close")
			c.look(a, "after closing", false)
		case r.Intn(2) == 0:
			x, y, _, err := xmssmt.LoadPrivateKey(path)
			if err != nil {
				panic(libErr{"LoadPrivateKey: " + err.Error()})
			}
			sk = x
			c.gotPK(a, "LoadPrivateKey", y)
		default:
			// the package-level functions
			msg := randBytes(r, r.Intn(300))
			var sig []byte
			c.lend(a, "the package's Sign", func(b [][]byte) {
				x, err := xmssmt.Sign(path, b[0])
				if err != nil {
					panic(libErr{"Sign: " + err.Error()})
				}
				sig = x
			}, msg)
			left--
			if sig == nil {
				continue
			}
			ps, ok := ref.ParseSig(sig)
			if !ok || !bytes.Equal(sig, c.key.Sign(ps.Idx, msg)) {
				c.viol("wrong-signature", "the package's Sign gave something else than the scheme")
				continue
			}
			t.Count("signatures compared with the reference", 1)
			for _, good := range []bool{true, false} {
				m := clone(msg)
				if !good {
					m = append(m, 0)
				}
				c.lend(a, "the package's Verify", func(b [][]byte) {
					if ok, _ := xmssmt.Verify(b[0], b[1], b[2]); ok != good {
						c.viol("verdict", "the package's Verify gave %v, expected %v", ok, good)
					}
				}, c.pk, sig, m)
			}
			wipe(r, sig)
		}
	}
	if sk != nil {
		c.look(a, "after the last signature", true)
		if err := sk.Close(); err != nil {
			panic(libErr{"Close: " + err.Error()})
		}
	}
	c.look(a, "after closing", true)
	os.RemoveAll(dir)
	c.look(a, "after deleting the files", true)
}

// c20Refused: calls that fail do not touch their arguments either, and leave
// nothing behind that the arguments matter to.
func c20Refused(t *mon.T, label string, i int) {
	r := t.Rng(label)
	p := c20Shape(i)
	s := mkSeeds(r, p.N)
	c := newC20(t, label, p, s)
	a := newArena(r, true)
	defer a.free()
	idx := uint64(r.Int63n(int64(p.Max())))
	msg := randBytes(r, r.Intn(200))
	sig := c.key.Sign(idx, msg)
	var pk xmssmt.PublicKey
	c.lend(a, "PublicKey.UnmarshalBinary", func(b [][]byte) {
		if err := pk.UnmarshalBinary(b[0]); err != nil {
			panic(libErr{"UnmarshalBinary: " + err.Error()})
		}
	}, c.pk)
	c.keepPK("decoding", &pk)
	for j := 0; j < 12; j++ {
		x := clone(sig)
		switch r.Intn(4) {
		case 0:
			x = x[:r.Intn(len(x))]
		case 1:
			x = append(x, byte(r.Intn(256)))
		case 2:
			x[r.Intn(len(x))] ^= byte(1 + r.Intn(255))
		case 3:
			x[r.Intn(4)] ^= byte(1 + r.Intn(255))
		}
		var s2 xmssmt.Signature
		c.lend(a, "Signature.UnmarshalBinary of a bad encoding", func(b [][]byte) {
			if s2.UnmarshalBinary(b[0]) == nil {
				pk.Verify(&s2, b[1])
			}
		}, x, msg)
		y := clone(c.pk)
		switch r.Intn(3) {
		case 0:
			y = y[:r.Intn(len(y))]
		case 1:
			y = append(y, byte(r.Intn(256)))
		case 2:
			y[r.Intn(4)] ^= byte(1 + r.Intn(255))
		}
		var p2, p3 xmssmt.PublicKey
		c.lend(a, "PublicKey.UnmarshalBinary of a bad encoding", func(b [][]byte) { p2.UnmarshalBinary(b[0]) }, y)
		tx := []byte(base64.StdEncoding.EncodeToString(y))
		if len(tx) > 0 && r.Intn(2) == 0 {
			tx[r.Intn(len(tx))] = byte(r.Intn(256))
		}
		c.lend(a, "PublicKey.UnmarshalText of a bad encoding", func(b [][]byte) { p3.UnmarshalText(b[0]) }, tx)
		c.lend(a, "the package's Verify of bad encodings", func(b [][]byte) { xmssmt.Verify(b[0], b[1], b[2]) }, y, x, msg)
		var pr xmssmt.Params
		c.lend(a, "Params.UnmarshalBinary", func(b [][]byte) { pr.UnmarshalBinary(b[0]) }, y[:min(len(y), 4)])
		c.lend(a, "DeriveInto with wrong seeds", func(b [][]byte) {
			sk, _, err := mustCtx(p).DeriveInto(memctr.New(), b[0], b[1], b[2])
			if err == nil {
				sk.Close()
			}
		}, s.pub[:r.Intn(p.N+1)], s.sk[:r.Intn(p.N)], s.prf)
	}
	// Decoding over a good object keeps what else came from the same bytes.
	var s1, s2 xmssmt.Signature
	if s1.UnmarshalBinary(sig) != nil || s2.UnmarshalBinary(sig) != nil {
		panic(libErr{"UnmarshalBinary"})
	}
	c.keepSig("decoding", &s1, sig, msg)
	other := c.key.Sign((idx+1)%(p.Max()), msg)
	if err := s2.UnmarshalBinary(other); err != nil {
		panic(libErr{"UnmarshalBinary: " + err.Error()})
	}
	c.keepSig("decoding over another signature", &s2, other, msg)
	c.look(a, "after refusals", true)
}

// c20Reuse decodes into objects the key handed out.
func c20Reuse(t *mon.T, label string, i int) {
	r := t.Rng(label)
	p := c20Shape(i * 5)
	s := mkSeeds(r, p.N)
	c := newC20(t, label, p, s)
	a := newArena(r, true)
	defer a.free()
	o := mkSeeds(r, p.N)
	other := ref.NewKey(p, o.pub, o.sk, o.prf)
	k := newKey(p, s, memctr.New(), 1)
	c.gotPK(a, "DeriveInto", k.pk)
	for j := uint64(0); j+1 < p.Max(); j++ {
		pk := k.sk.PublicKey()
		if err := pk.UnmarshalBinary(other.PublicKey()); err != nil {
			panic(libErr{"UnmarshalBinary: " + err.Error()})
		}
		c.step("decode another public key into the key's")
		msg := randBytes(r, 20)
		sig, err := k.sk.Sign(msg)
		if err != nil {
			panic(libErr{"Sign: " + err.Error()})
		}
		c.got(a, "Sign", sig, msg)
		if r.Intn(2) == 0 {
			// The signature object is the caller's.
			sig2, err := k.sk.Sign(msg)
			if err != nil {
				panic(libErr{"Sign: " + err.Error()})
			}
			j++
			oth := other.Sign(uint64(r.Int63n(int64(p.Max()))), msg)
			if err := sig2.UnmarshalBinary(oth); err != nil {
				panic(libErr{"UnmarshalBinary: " + err.Error()})
			}
			c.keepSig("decoding over a fresh signature", sig2, oth, msg)
			// Of another key: only its bytes are looked at.
		}
		if !bytes.Equal(pkBytes(pk), other.PublicKey()) {
			c.viol("public-key-changed", "a public key decoded into changed back")
		}
		if b := pkBytes(k.sk.PublicKey()); !bytes.Equal(b, c.pk) {
			c.viol("wrong-public-key", "the key's public key changed to %s when another was decoded into what PublicKey() returned", mon.Hex(b))
		}
	}
	c.look(a, "after decoding over", false)
	k.sk.Close()
	c.look(a, "after closing", false)
}
