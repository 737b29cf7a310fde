package main

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
	"time"

	"github.com/bwesterb/go-xmssmt"
	"xverif/memctr"
	"xverif/mon"
	"xverif/ref"
)

func init() {
	checks["C09"] = check{run: runC09,
		rule: "All 2^22 four-byte encodings with the right magic and version, random and mutated signatures, public keys, texts, names and OIDs, and damaged key and cache files are given to every decoding entry point. Watched: panics (also of background goroutines), processor time of each call, bytes allocated by rejected inputs, re-encoding of everything accepted, and that what was accepted can be passed to every other operation. Non-trivial: distinct (entry point, header, length, outcome)."}
}

// c09Params calls everything a decoded parameter set offers.
func c09Params(p *xmssmt.Params) {
	_ = p.String()
	p.BareSubTreeSize()
	p.CachedSubTreeSize()
	p.PrivateKeySize()
	p.WotsLogW()
	p.WotsLen()
	p.WotsSignatureSize()
	p.MaxSignatureSeqNo()
	p.LookupNameAndOid()
}

func c09Ctx(c *xmssmt.Context) {
	_ = c.Name()
	c.Oid()
	c.FromNIST()
	c.FromRFC()
	c.MT()
	c.Params()
	c.SignatureSize()
}

// c09Spin reports a call that burnt processor time without end.
func c09Spin(t *mon.T, label string, detail any) func(string) {
	return func(stacks string) {
		t.Violate("spin", label, detail, "a call used more than a minute of processor time:\n%s", clip(stacks, 6000))
		t.Finish()
		os.Exit(1)
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func runC09(t *mon.T) {
	// An input that makes the library ask for gigabytes crashes this process
	// (which its supervisor judges), rather than the machine.
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 8 << 30, Max: 8 << 30})
	mon.Par(32, func(i int) {
		l := fmt.Sprintf("params/%02x", i)
		cs(t, l, func() { c09AllParams(t, l, uint32(i)) })
	})
	cs(t, "lengths", func() { c09Lengths(t, "lengths") })
	n := t.Pick(240, 3000)
	mon.Par(n, func(i int) {
		l := fmt.Sprintf("sig/%d", i)
		cs(t, l, func() { c09Sig(t, l, i) })
	})
	n = t.Pick(120, 1500)
	mon.Par(n, func(i int) {
		l := fmt.Sprintf("pk/%d", i)
		cs(t, l, func() { c09Pk(t, l) })
	})
	mon.Par(16, func(i int) {
		l := fmt.Sprintf("name/%d", i)
		cs(t, l, func() { c09Names(t, l) })
	})
	n = t.Pick(64, 800)
	mon.Par(n, func(i int) {
		l := fmt.Sprintf("file/%d", i)
		cs(t, l, func() { c09File(t, l, i) })
	})
	mon.Par(4, func(i int) {
		l := fmt.Sprintf("seeds/%d", i)
		cs(t, l, func() { c09Seeds(t, l, i) })
	})
	t.Require("seeds refused", 1000)
	// Allocation is measured for the whole process, so one at a time.
	cs(t, "alloc", func() { c09Alloc(t, "alloc") })
	t.Require("parameter encodings accepted", 1000)
	t.Require("signatures accepted", 100)
	t.Require("signatures rejected", 1000)
	t.Require("public keys accepted", 50)
	t.Require("public keys rejected", 500)
	t.Require("key files loaded", 10)
	t.Require("key files rejected", 100)
	t.Require("rejected inputs whose allocation was measured", 100)
}

// c09Seeds derives keys from seeds of all combinations of lengths.
func c09Seeds(t *mon.T, label string, i int) {
	r := t.Rng(label)
	p := shape(families()[[]int{0, 7, 14, 21}[i]], 2, 1)
	p.N = []int{16, 24, 32, 64}[i]
	dir := scratchDir("c09s")
	defer os.RemoveAll(dir)
	path, keyb, _, pkb := c09Store(t, label, p, dir, 1)
	ctx := mustCtx(p)
	lens := []int{0, 1, p.N - 1, p.N, p.N + 1, 2 * p.N, 3 * p.N}
	for _, a := range lens {
		for _, b := range lens {
			for _, c := range lens {
				good := a == p.N && b == p.N && c == p.N
				seeds := [3][]byte{randBytes(r, a), randBytes(r, b), randBytes(r, c)}
				what := fmt.Sprintf("%v with seeds of %d, %d and %d bytes", p, a, b, c)
				judge := func(where string, f func() (*xmssmt.PrivateKey, *xmssmt.PublicKey, xmssmt.Error)) {
					pi := mon.Bounded(time.Minute, c09Spin(t, label, what), func() {
						sk, pk, err := f()
						if good && err != nil {
							t.Violate("seeds-refused", label, what, "deriving %s (%s) failed: %v", what, where, err)
						}
						if !good && err == nil {
							t.Violate("seeds-accepted", label, what, "a key was derived: %s (%s)", what, where)
						}
						if !good && err != nil && (sk != nil || pk != nil) {
							t.Violate("seeds-key", label, what, "an error and a key: %s (%s)", what, where)
						}
						if err == nil {
							sk.Close()
						} else {
							_ = err.Error()
							t.Count("seeds refused", 1)
						}
					})
					if pi != nil {
						t.Violate("panic:"+mon.PanicSite(pi.Stack), label, what+pi.Stack, "deriving panicked: %s (%s): %s", what, where, pi.Val)
					}
				}
				ctr := memctr.New()
				judge("memory", func() (*xmssmt.PrivateKey, *xmssmt.PublicKey, xmssmt.Error) {
					return ctx.DeriveInto(ctr, seeds[0], seeds[1], seeds[2])
				})
				if !good {
					if ctr.Initialized() != nil {
						t.Violate("seeds-stored", label, what, "something was stored: %s", what)
					}
					judge("file", func() (*xmssmt.PrivateKey, *xmssmt.PublicKey, xmssmt.Error) {
						return ctx.Derive(path, seeds[0], seeds[1], seeds[2])
					})
					if b, err := os.ReadFile(path); err != nil || !bytes.Equal(b, keyb) {
						t.Violate("seeds-overwrote", label, what, "the key that was there changed: %s", what)
						return
					}
				}
				t.Nontrivial("seeds " + what)
			}
		}
	}
	sk, pk, _, err := xmssmt.LoadPrivateKey(path)
	if err != nil || !bytes.Equal(pkBytes(pk), pkb) {
		t.Violate("seeds-lost", label, nil, "the key does not load any more: %v", err)
		return
	}
	sk.Close()
}

// c09AllParams decodes all encodings with the given upper bits.
func c09AllParams(t *mon.T, label string, part uint32) {
	var acc, rej, ctxs int
	for v := part << 16; v < (part+1)<<16; v++ {
		// 22 bits: version 0 and 1 and everything below
		for _, ver := range []uint32{0, 1 << 21} {
			var b [4]byte
			binary.BigEndian.PutUint32(b[:], 0xea000000|ver|(v&0x1fffff))
			var p xmssmt.Params
			if err := p.UnmarshalBinary(b[:]); err != nil {
				rej++
				continue
			}
			acc++
			if ver != 0 {
				t.Violate("version-accepted", label, mon.Hex(b[:]), "an unknown encoding version was accepted: %x", b)
			}
			e, err := p.MarshalBinary()
			if err != nil || !bytes.Equal(e, b[:]) {
				t.Violate("params-reencode", label, mon.Hex(b[:]), "parameters %x were accepted but re-encode to %x, %v", b, e, err)
				return
			}
			buf := []byte{1, 2, 3, 4}
			if err := p.WriteInto(buf); err != nil || !bytes.Equal(buf, b[:]) {
				t.Violate("params-writeinto", label, mon.Hex(b[:]), "WriteInto gives %x, %v for %x", buf, err, b)
				return
			}
			c09Params(&p)
			ctx, err2 := xmssmt.NewContext(p)
			if err2 == nil {
				ctxs++
				c09Ctx(ctx)
			}
			if v%97 == 0 {
				t.Nontrivial(fmt.Sprintf("params/%x/%v", b, err2 == nil))
			}
		}
	}
	t.Count("parameter encodings accepted", acc)
	t.Count("parameter encodings rejected", rej)
	t.Count("contexts made of decoded parameters", ctxs)
}

// c09Lengths gives every decoder every short length.
func c09Lengths(t *mon.T, label string) {
	r := t.Rng(label)
	good := []byte{0xea, 0x01, 0x50, 0x41} // N=16, SHAKE, w=16, H=1, D=1
	for n := 0; n <= 400; n++ {
		for k := 0; k < 4; k++ {
			b := randBytes(r, n)
			switch k {
			case 1:
				copy(b, good)
			case 2:
				b = make([]byte, n)
			case 3:
				copy(b, good[:2])
			}
			if n == 0 && k == 2 {
				b = nil
			}
			var s xmssmt.Signature
			var pk xmssmt.PublicKey
			var p xmssmt.Params
			if s.UnmarshalBinary(b) == nil {
				c09Re(t, label, "Signature", b, &s)
				t.Count("signatures accepted", 1)
			} else {
				t.Count("signatures rejected", 1)
			}
			if pk.UnmarshalBinary(b) == nil {
				c09Re(t, label, "PublicKey", b, &pk)
				t.Count("public keys accepted", 1)
			} else {
				t.Count("public keys rejected", 1)
			}
			if p.UnmarshalBinary(b) == nil {
				c09Re(t, label, "Params", b, &p)
			}
			pk.UnmarshalText(b)
			pk.UnmarshalText([]byte(base64.StdEncoding.EncodeToString(b)))
			if ok, err := xmssmt.Verify(b, b, b); ok || err == nil {
				t.Violate("verify-junk", label, mon.Hex(b), "Verify accepted junk: %v %v", ok, err)
			}
			t.Nontrivial(fmt.Sprintf("len/%d/%d", n, k))
		}
	}
}

type binaryMarshaler interface{ MarshalBinary() ([]byte, error) }

// c09Re checks that accepted bytes re-encode to themselves.
func c09Re(t *mon.T, label, what string, b []byte, v binaryMarshaler) bool {
	e, err := v.MarshalBinary()
	if err != nil || !bytes.Equal(e, b) {
		t.Violate("reencode:"+what, label, map[string]string{"in": mon.Hex(b), "out": mon.Hex(e)},
			"%s: %d bytes were accepted but re-encode to %d other bytes (%v)", what, len(b), len(e), err)
		return false
	}
	return true
}

// c09Header draws a parameter set the library supports, of a size that can be
// verified.
func c09Header(r *rand.Rand, maxD int) ref.P {
	fams := families()
	p := fams[r.Intn(len(fams))]
	p.D = 1 + r.Intn(maxD)
	if r.Intn(3) == 0 {
		p.D = 1
	}
	p.H = p.D * r.Intn(63/p.D+1)
	return p
}

func c09Sig(t *mon.T, label string, i int) {
	r := t.Rng(label)
	maxD := 8
	if i%9 == 0 {
		maxD = 63
	}
	p := c09Header(r, maxD)
	size := p.SigBytes()
	b := randBytes(r, 4+size)
	copy(b, p.Header())
	idx := b[4 : 4+p.IndexBytes()]
	switch i % 4 {
	case 0:
		for k := range idx {
			idx[k] = 0xff
		}
	case 1:
		for k := range idx {
			idx[k] = 0
		}
	}
	var s xmssmt.Signature
	decode := func(what string, in []byte, want bool) (ok bool) {
		in = clone(in)
		keep := clone(in)
		var err error
		pi := mon.Bounded(time.Minute, c09Spin(t, label, mon.Hex(in)), func() { err = s.UnmarshalBinary(in) })
		if pi != nil {
			t.Violate("panic:"+mon.PanicSite(pi.Stack), label, map[string]any{"input": mon.Hex(in), "stack": pi.Stack},
				"decoding a signature (%s, %v) panicked: %s", what, p, pi.Val)
			return false
		}
		if !bytes.Equal(in, keep) {
			t.Violate("input-changed", label, nil, "decoding a signature changed the input")
		}
		if (err == nil) != want {
			t.Violate("sig-length:"+what, label, mon.Hex(in), "%v: a signature of %d bytes (%s, proper size %d) was decoded with result %v", p, len(in), what, 4+size, err)
			return err == nil
		}
		if err == nil {
			t.Count("signatures accepted", 1)
			return c09Re(t, label, "Signature", in, &s)
		}
		t.Count("signatures rejected", 1)
		return false
	}
	if !decode("exact", b, true) {
		return
	}
	t.Nontrivial(fmt.Sprintf("sig/%v", p))
	// Use it everywhere.
	_ = s.String()
	s.SeqNo()
	c09Ctx(s.Context())
	wi := make([]byte, len(b)+3)
	if err := s.WriteInto(wi); err != nil || !bytes.Equal(wi[:len(b)], b) || !bytes.Equal(wi[len(b):], []byte{0, 0, 0}) {
		t.Violate("sig-writeinto", label, mon.Hex(b), "WriteInto of a decoded signature: %v", err)
	}
	pkb := append(clone(p.Header()), randBytes(r, 2*p.N)...)
	var pk xmssmt.PublicKey
	if err := pk.UnmarshalBinary(pkb); err != nil {
		t.Violate("pk-length:exact", label, mon.Hex(pkb), "%v: a public key of the right length was refused: %v", p, err)
		return
	}
	msg := randBytes(r, r.Intn(100))
	use := func(what string, f func() (bool, error)) {
		var ok bool
		var err error
		if pi := mon.Bounded(time.Minute, c09Spin(t, label, mon.Hex(b)), func() { ok, err = f() }); pi != nil {
			t.Violate("panic:"+mon.PanicSite(pi.Stack), label, map[string]any{"sig": mon.Hex(b), "stack": pi.Stack},
				"%s with a decoded signature of %v panicked: %s", what, p, pi.Val)
			return
		}
		if ok || err == nil {
			t.Violate("verify-junk", label, mon.Hex(b), "%s accepted junk: %v %v", what, ok, err)
		}
		t.Count("decoded signatures passed to verification", 1)
	}
	use("Verify", func() (bool, error) { ok, err := pk.Verify(&s, msg); return ok, e2(err) })
	use("package Verify", func() (bool, error) { ok, err := xmssmt.Verify(pkb, b, msg); return ok, e2(err) })
	q := c09Header(r, 4)
	if q != p {
		qb := append(clone(q.Header()), randBytes(r, 2*q.N)...)
		var qk xmssmt.PublicKey
		if qk.UnmarshalBinary(qb) == nil {
			use("Verify with another instance's key", func() (bool, error) { ok, err := qk.Verify(&s, msg); return ok, e2(err) })
		}
	}

	// Wrong lengths, on an object that holds a valid signature already.
	cuts := []int{0, 1, 3, 4, 5, 4 + p.IndexBytes(), 4 + p.IndexBytes() + p.N, len(b) / 2, len(b) - p.N, len(b) - 1}
	for k := 0; k < 4; k++ {
		cuts = append(cuts, r.Intn(len(b)))
	}
	for _, c := range cuts {
		if c >= 0 && c < len(b) {
			decode(fmt.Sprint("cut at ", c), b[:c], false)
		}
	}
	for _, e := range []int{1, 4, p.N, 1000} {
		decode("extended", append(clone(b), randBytes(r, e)...), false)
	}
	// A failed decoding leaves the object as it was, or at least usable.
	var after []byte
	if pi := mon.Try(func() { after, _ = s.MarshalBinary(); s.SeqNo(); _ = s.String(); pk.Verify(&s, msg) }); pi != nil {
		t.Violate("panic:after-failed-decode", label, map[string]any{"sig": mon.Hex(b), "stack": pi.Stack},
			"after a failed decoding the signature it held cannot be used: %s", pi.Val)
	}
	_ = after
	// Altered headers in front of the same body.
	for k := 0; k < 60; k++ {
		c := clone(b)
		switch k % 3 {
		case 0:
			c[k/3%4] ^= byte(1 << uint(r.Intn(8)))
		case 1:
			copy(c, randBytes(r, 4))
			c[0] = 0xea
			c[1] &= 0x1f
		case 2:
			c[3] = byte(r.Intn(256))
			c[2] = c[2]&0xf0 | byte(r.Intn(16))
		}
		q, ok := ref.ParseHeader(c[:4])
		want := ok && q.Supported() && len(c) == 4+q.SigBytes()
		decode("altered header", c, want)
		t.Nontrivial(fmt.Sprintf("sighdr/%x/%v", c[:4], want))
	}
	// Random bits flipped in the body stay decodable and verifiable.
	for k := 0; k < 3; k++ {
		c := flip(b, 32+r.Intn(8*(len(b)-4)))
		if decode("flipped", c, true) {
			use("Verify", func() (bool, error) { ok, err := pk.Verify(&s, msg); return ok, e2(err) })
		}
	}
}

// e2 turns the library's error interface into a plain one without wrapping nil.
func e2(err xmssmt.Error) error {
	if err == nil {
		return nil
	}
	return err
}

func c09Pk(t *mon.T, label string) {
	r := t.Rng(label)
	p := c09Header(r, 63)
	b := append(clone(p.Header()), randBytes(r, 2*p.N)...)
	var pk xmssmt.PublicKey
	try := func(what string, in []byte, want bool) bool {
		in = clone(in)
		keep := clone(in)
		var err error
		if pi := mon.Bounded(time.Minute, c09Spin(t, label, mon.Hex(in)), func() { err = pk.UnmarshalBinary(in) }); pi != nil {
			t.Violate("panic:"+mon.PanicSite(pi.Stack), label, map[string]any{"input": mon.Hex(in), "stack": pi.Stack}, "decoding a public key (%s) panicked: %s", what, pi.Val)
			return false
		}
		if !bytes.Equal(in, keep) {
			t.Violate("input-changed", label, nil, "decoding a public key changed the input")
		}
		if (err == nil) != want {
			t.Violate("pk-length:"+what, label, mon.Hex(in), "%v: a public key of %d bytes (%s, proper size %d) was decoded with result %v", p, len(in), what, 4+2*p.N, err)
			return err == nil
		}
		if err != nil {
			t.Count("public keys rejected", 1)
			return false
		}
		t.Count("public keys accepted", 1)
		c09Re(t, label, "PublicKey", in, &pk)
		return true
	}
	if !try("exact", b, true) {
		return
	}
	t.Nontrivial(fmt.Sprintf("pk/%v", p))
	c09Ctx(pk.Context())
	for c := 0; c < len(b); c++ {
		try("cut", b[:c], false)
	}
	for _, e := range []int{1, 2, p.N, 2 * p.N, 4096} {
		try("extended", append(clone(b), randBytes(r, e)...), false)
	}
	if pi := mon.Try(func() { pk.MarshalBinary(); pk.MarshalText(); pk.Context() }); pi != nil {
		t.Violate("panic:after-failed-decode", label, pi, "after a failed decoding the public key cannot be used: %s", pi.Val)
	}
	for k := 0; k < 60; k++ {
		c := clone(b)
		if k%2 == 0 {
			c[k/2%4] ^= byte(1 << uint(r.Intn(8)))
		} else {
			copy(c, randBytes(r, 4))
			c[0] = 0xea
			c[1] &= 0x1f
		}
		q, ok := ref.ParseHeader(c[:4])
		want := ok && q.Supported() && len(c) == 4+2*q.N
		try("altered header", c, want)
		t.Nontrivial(fmt.Sprintf("pkhdr/%x/%v", c[:4], want))
	}
	// The text form.
	if !try("exact", b, true) {
		return
	}
	tx, err := pk.MarshalText()
	if err != nil {
		t.Violate("pk-text", label, mon.Hex(b), "MarshalText: %v", err)
		return
	}
	for k := 0; k < 80; k++ {
		c := clone(tx)
		switch k % 5 {
		case 0:
			c = c[:r.Intn(len(c))]
		case 1:
			c[r.Intn(len(c))] = byte(r.Intn(256))
		case 2:
			c = append(c, randBytes(r, 1+r.Intn(5))...)
		case 3:
			j := r.Intn(len(c))
			c = append(append(clone(c[:j]), "=\n\r -_"[r.Intn(6)]), c[j:]...)
		case 4:
			c = randBytes(r, r.Intn(200))
		}
		var q xmssmt.PublicKey
		var err error
		if pi := mon.Try(func() { err = q.UnmarshalText(c) }); pi != nil {
			t.Violate("panic:"+mon.PanicSite(pi.Stack), label, map[string]any{"text": string(c), "stack": pi.Stack}, "decoding a text public key panicked: %s", pi.Val)
			continue
		}
		if err != nil {
			t.Count("texts rejected", 1)
			continue
		}
		t.Count("texts accepted", 1)
		// What was accepted is the text of exactly one key.
		raw, derr := base64.StdEncoding.DecodeString(string(c))
		if derr == nil {
			c09Re(t, label, "PublicKey from text", raw, &q)
		}
		q.MarshalText()
		c09Ctx(q.Context())
	}
}

func c09Names(t *mon.T, label string) {
	r := t.Rng(label)
	names := append(xmssmt.ListNames(), xmssmt.ListNames2()...)
	specials := []string{"", " ", "XMSS", "XMSSMT", "XMSS-", "XMSSMT-", "XMSS-SHA2", "XMSS-SHA2_", "XMSSMT-SHA2_20", "XMSSMT-SHA2_20/",
		"XMSSMT-SHA2_20/2", "XMSSMT-SHA2_20/0_256", "XMSSMT-SHA2_0/0_256", "XMSSMT-SHA2_1/1_0", "XMSS-SHA2_10_0", "XMSS-SHA2_0_256",
		"XMSS-SHA2_-1_256", "XMSSMT-SHA2_20/-2_256", "XMSSMT-SHA2_20/18446744073709551618_256", "XMSS-SHA2_99999999999999999999_256",
		"XMSS-SHA2_4294967306_256", "XMSS-SHA2_10_4294967552", "XMSS-SHA2_10_256_w0", "XMSS-SHA2_10_256_w", "XMSS-SHA2_10_256_w65552",
		"XMSS-SHA2_10_256_w16_w16", "XMSS-SHAKE_10_256_w-16", "XMSS-SHAKE256_10_256", "XMSS-SHAKE256_10_192_NIST", "XMSSMT-SHA2_20//4_256",
		"XMSSMT-SHA2_20/4/2_256", "XMSS-SHA2_10_2560", "XMSS-SHA2_10_264", "XMSS-SHA2_10_257", "XMSS-SHA2_10_4096", "\x00", "XMSS-SHA2_10_256\x00",
		strings.Repeat("_", 100000), strings.Repeat("XMSS-SHA2_10_256_", 3000), "XMSS-SHA2_1/1/1/1_1", "_-_/-", "XMSS-_10_256", "-SHA2_10_256",
		"XMSSMT-SHA2_64/1_256", "XMSSMT-SHA2_63/63_256", "XMSSMT-SHA2_64/64_256", "XMSSMT-SHA2_63/1_512_w256", "XMSSMT-SHA2_4294967295/4294967295_256"}
	try := func(s string) {
		if pi := mon.Bounded(time.Minute, c09Spin(t, label, clip(s, 200)), func() {
			p, err := xmssmt.ParamsFromName2(s)
			ctx, err2 := xmssmt.NewContextFromName2(s)
			c1 := xmssmt.NewContextFromName(s)
			p1 := xmssmt.ParamsFromName(s)
			if (p == nil) == (err == nil) || (ctx == nil) == (err2 == nil) {
				t.Violate("name-result", label, s, "name %q: neither a value nor an error, or both (%v %v, %v %v)", clip(s, 100), p, err, ctx, err2)
				return
			}
			if err != nil {
				_ = err.Error()
				t.Count("names rejected", 1)
			} else {
				t.Count("names accepted", 1)
				c09Params2(t, label, s, p)
			}
			if ctx != nil {
				c09Ctx(ctx)
			}
			if c1 != nil {
				c09Ctx(c1)
			}
			if p1 != nil {
				c09Params2(t, label, s, p1)
			}
			t.Nontrivial(fmt.Sprintf("name/%s/%v", clip(s, 200), err == nil))
		}); pi != nil {
			t.Violate("panic:"+mon.PanicSite(pi.Stack), label, map[string]any{"name": clip(s, 300), "stack": pi.Stack}, "name %q panicked: %s", clip(s, 100), pi.Val)
		}
	}
	for _, s := range specials {
		try(s)
	}
	toks := []string{"XMSS", "XMSSMT", "SHA2", "SHAKE", "SHAKE256", "-", "_", "/", "10", "16", "20", "40", "60", "2", "4", "8", "12", "128", "192", "256", "512", "w4", "w16", "w256", "NIST", "RFC", "0", "1", "63", "64", "4294967296", "18446744073709551616", "", "w", "x"}
	for k := 0; k < t.Pick(3000, 60000); k++ {
		s := names[r.Intn(len(names))]
		switch k % 4 {
		case 0:
			s = ""
			for j := r.Intn(12); j >= 0; j-- {
				s += toks[r.Intn(len(toks))]
			}
		case 1:
			b := []byte(s)
			b[r.Intn(len(b))] = byte(r.Intn(256))
			s = string(b)
		case 2:
			j := r.Intn(len(s))
			s = s[:j] + toks[r.Intn(len(toks))] + s[j:]
		case 3:
			f := strings.FieldsFunc(s, func(c rune) bool { return strings.ContainsRune("-_/", c) })
			f[r.Intn(len(f))] = toks[r.Intn(len(toks))]
			s = f[0] + "-" + strings.Join(f[1:], "_")
			if r.Intn(2) == 0 && len(f) > 3 {
				s = f[0] + "-" + f[1] + "_" + f[2] + "/" + strings.Join(f[3:], "_")
			}
		}
		try(s)
	}
	for k := 0; k < 5000; k++ {
		o := r.Uint32()
		if k%2 == 0 {
			o = uint32(k)
		}
		for _, mt := range []bool{false, true} {
			if c := xmssmt.NewContextFromOid(mt, o); c != nil {
				c09Ctx(c)
			}
		}
		t.Count("OIDs looked up", 2)
	}
}

// c09Params2 passes the parameters a name gave to everything else.
func c09Params2(t *mon.T, label, name string, p *xmssmt.Params) {
	c09Params(p)
	p.MarshalBinary()
	p.WriteInto(make([]byte, 4))
	if ctx, err := xmssmt.NewContext(*p); err == nil {
		c09Ctx(ctx)
	} else {
		_ = err.Error()
	}
}

// c09Store makes a small key on disk with a few signatures made and returns
// its files' contents.
func c09Store(t *mon.T, label string, p ref.P, dir string, signs int) (path string, keyb, cacheb []byte, pkb []byte) {
	r := t.Rng(label + "/store")
	s := mkSeeds(r, p.N)
	path = filepath.Join(dir, "key")
	ctx := mustCtx(p)
	sk, pk, err := ctx.Derive(path, s.pub, s.sk, s.prf)
	if err != nil {
		panic(libErr{"Derive: " + err.Error()})
	}
	for k := 0; k < signs; k++ {
		if _, err := sk.Sign([]byte{byte(k)}); err != nil {
			panic(libErr{"Sign: " + err.Error()})
		}
	}
	pkb = pkBytes(pk)
	if err := sk.Close(); err != nil {
		panic(libErr{"Close: " + err.Error()})
	}
	var e1, e2 error
	keyb, e1 = os.ReadFile(path)
	cacheb, e2 = os.ReadFile(path + ".cache")
	if e1 != nil || e2 != nil {
		panic(fmt.Sprint("harness: ", e1, e2))
	}
	return
}

// c09File loads damaged files.
func c09File(t *mon.T, label string, i int) {
	r := t.Rng(label)
	shapes := []ref.P{cheap(2, 1), cheap(4, 2), cheap(3, 3), {Func: ref.SHA2, N: 32, H: 4, D: 2, W: 256, Prf: ref.NIST}}
	p := shapes[i%len(shapes)]
	dir := scratchDir("c09")
	defer os.RemoveAll(dir)
	path, keyb, cacheb, _ := c09Store(t, label, p, dir, r.Intn(3))
	hdr := len(keyb) - 3*p.N // the parameters and counters
	put := func(f string, b []byte) {
		os.RemoveAll(f)
		if err := os.WriteFile(f, b, 0600); err != nil {
			panic("harness: " + err.Error())
		}
	}
	try := func(what string, k, c []byte, mustFail bool) {
		put(path, k)
		put(path+".cache", c)
		if c == nil {
			os.Remove(path + ".cache")
		}
		detail := func() any {
			return map[string]any{"what": what, "keyfile": fmt.Sprintf("%x", k), "cache": mon.Hex(c)}
		}
		// A key file may declare a tree nobody can compute.
		small := true
		oc, oerr := xmssmt.OpenFSPrivateKeyContainer(path)
		if oerr == nil {
			if q := oc.Initialized(); q != nil {
				c09Params(q)
				rp := toRef(*q)
				small = rp.D > 0 && rp.H/rp.D <= 8
			}
			oc.CacheInitialized()
			oc.HasSubTree(STA{})
			oc.GetSeqNo()
			oc.GetPrivateKey()
			oc.ListSubTrees()
			if e := oc.Close(); e != nil {
				t.Violate("container-close", label, detail(), "closing a container over a damaged file (%s) failed: %v", what, e)
			}
		} else {
			_ = oerr.Error()
		}
		t.Nontrivial(fmt.Sprintf("file/%v/%s/%v", p, what, oerr == nil))
		if !small {
			t.Count("key files with infeasible trees (opened only)", 1)
			return
		}
		var usable bool
		pi := mon.Bounded(time.Minute, c09Spin(t, label, detail()), func() { usable = c09Load(t, label, what, path, detail) })
		if pi != nil {
			t.Violate("panic:"+mon.PanicSite(pi.Stack), label, map[string]any{"files": detail(), "stack": pi.Stack}, "loading a damaged file (%s) panicked: %s", what, pi.Val)
			return
		}
		if usable && mustFail {
			t.Violate("junk-loaded", label, detail(), "a key file that cannot be one was loaded: %s", what)
		}
		if usable {
			t.Count("key files loaded", 1)
		} else {
			t.Count("key files rejected", 1)
		}
	}
	switch i / len(shapes) % 8 {
	case 0: // every header byte, a few values
		for o := 0; o < hdr; o++ {
			for _, v := range []byte{0, 1, 0x7f, 0x80, 0xff, keyb[o] ^ 1, keyb[o] + 1, byte(r.Intn(256))} {
				if v == keyb[o] {
					continue
				}
				c := clone(keyb)
				c[o] = v
				try(fmt.Sprintf("byte %d set to %#x", o, v), c, cacheb, false)
			}
		}
	case 1: // every truncation and some extensions
		for n := 0; n < len(keyb); n++ {
			try(fmt.Sprintf("truncated to %d", n), keyb[:n], cacheb, true)
		}
		for _, e := range []int{1, 7, 4096} {
			try("extended", append(clone(keyb), randBytes(r, e)...), cacheb, false)
		}
	case 2: // random contents
		for k := 0; k < 60; k++ {
			c := randBytes(r, r.Intn(300))
			if k%2 == 0 {
				copy(c, keyb[:8])
			}
			if k%4 == 0 {
				copy(c, keyb[:min(len(c), hdr)])
			}
			try("random", c, cacheb, false)
		}
	case 3: // sequence number and borrowed count
		rp := p
		for _, v := range []uint64{0, 1, rp.Max() - 1, rp.Max(), rp.Max() + 1, 1<<uint(rp.H) - 1, 1 << uint(rp.H), 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1} {
			for _, bw := range []uint32{0, 1, 5, 1 << 31, 1<<32 - 1} {
				c := clone(keyb)
				binary.BigEndian.PutUint64(c[hdr-12:], v)
				binary.BigEndian.PutUint32(c[hdr-4:], bw)
				try(fmt.Sprintf("seqno %d borrowed %d", v, bw), c, cacheb, false)
			}
		}
	case 4: // parameters of every kind over the same key
		for k := 0; k < 80; k++ {
			q := c09Header(r, 6)
			if k%2 == 0 {
				q.H = q.D * r.Intn(4)
			}
			var buf bytes.Buffer
			fp := fromRef(q)
			if k%5 == 0 {
				fp.N = r.Uint32()
			}
			if k%7 == 0 {
				fp.D = uint32(r.Intn(3)) * r.Uint32()
			}
			if k%11 == 0 {
				fp.WotsW = uint16(r.Uint32())
			}
			if k%13 == 0 {
				fp.FullHeight = r.Uint32()
			}
			buf.Write(keyb[:8])
			binary.Write(&buf, binary.BigEndian, &fp)
			buf.Write(keyb[hdr-12 : hdr])
			buf.Write(randBytes(r, []int{3 * q.N, 3*q.N - 1, 0, 192}[r.Intn(4)]))
			try(fmt.Sprintf("params %v", fp), buf.Bytes(), cacheb, false)
		}
	case 5: // cache: headers and slot headers
		offs := []int{}
		for o := 0; o < 17; o++ {
			offs = append(offs, o)
		}
		for o := 4096; o+13 <= len(cacheb); o += 4096 {
			for k := 0; k < 13; k++ {
				offs = append(offs, o+k)
			}
		}
		for _, o := range offs {
			if o >= len(cacheb) {
				continue
			}
			for _, v := range []byte{0, 1, 0xff, cacheb[o] ^ 1, byte(r.Intn(256))} {
				c := clone(cacheb)
				c[o] = v
				try(fmt.Sprintf("cache byte %d set to %#x", o, v), keyb, c, false)
			}
		}
	case 6: // cache: truncations, extensions, random
		for k := 0; k < 60; k++ {
			n := r.Intn(len(cacheb))
			if k < 20 {
				n = k
			}
			try(fmt.Sprintf("cache truncated to %d", n), keyb, cacheb[:n], false)
		}
		for k := 0; k < 10; k++ {
			try("cache extended", keyb, append(clone(cacheb), randBytes(r, r.Intn(9000))...), false)
			c := randBytes(r, r.Intn(20000))
			copy(c, cacheb[:min(len(c), 17)])
			try("cache random", keyb, c, false)
		}
		try("cache empty", keyb, []byte{}, false)
		try("no cache", keyb, nil, false)
	case 7: // odd things in place of files
		os.RemoveAll(path)
		os.RemoveAll(path + ".cache")
		os.Mkdir(path, 0700)
		if pi := mon.Try(func() {
			if sk, _, _, err := xmssmt.LoadPrivateKey(path); err == nil {
				sk.Close()
				t.Violate("junk-loaded", label, nil, "a directory was loaded as a key")
			}
		}); pi != nil {
			t.Violate("panic:"+mon.PanicSite(pi.Stack), label, pi, "loading a directory panicked: %s", pi.Val)
		}
		os.RemoveAll(path)
		os.RemoveAll(path + ".lock")
		put(path, keyb)
		os.Mkdir(path+".cache", 0700)
		if pi := mon.Try(func() { c09Load(t, label, "cache is a directory", path, func() any { return nil }) }); pi != nil {
			t.Violate("panic:"+mon.PanicSite(pi.Stack), label, pi, "a directory in place of the cache: panic %s", pi.Val)
		}
		os.RemoveAll(path + ".cache")
		for k := 0; k < 40; k++ {
			l := [][]byte{{}, []byte("x"), []byte("-1\n"), []byte("0\n"), []byte("99999999999999999999\n"), []byte("1 2 3\n"), randBytes(r, 20), []byte("4194305\n"), []byte("\n\n")}[k%9]
			os.RemoveAll(path + ".lock")
			os.WriteFile(path+".lock", l, 0600)
			if pi := mon.Try(func() {
				if sk, _, _, err := xmssmt.LoadPrivateKey(path); err == nil {
					sk.Close()
				}
			}); pi != nil {
				t.Violate("panic:"+mon.PanicSite(pi.Stack), label, pi, "lock file %q: panic %s", l, pi.Val)
			}
			t.Count("odd lock files", 1)
		}
		os.RemoveAll(path + ".lock")
		for _, s := range []string{"", "\x00", "/", "a/b/c/nope", strings.Repeat("x", 5000), dir, dir + "/", "."} {
			if s == "" || s == "/" || s == "." {
				continue // would create files in the working directory or the root
			}
			if pi := mon.Try(func() {
				if sk, _, _, err := xmssmt.LoadPrivateKey(s); err == nil {
					sk.Close()
				}
				xmssmt.Sign(s, []byte("x"))
			}); pi != nil {
				t.Violate("panic:"+mon.PanicSite(pi.Stack), label, pi, "path %q: panic %s", clip(s, 60), pi.Val)
			}
			os.RemoveAll(dir + ".lock")
		}
	}
}

// c09Load loads the key at path: an error, or a key that can be used.
func c09Load(t *mon.T, label, what, path string, detail func() any) bool {
	sk, pk, _, err := xmssmt.LoadPrivateKey(path)
	if err != nil {
		_ = err.Error()
		if sk != nil || pk != nil {
			t.Violate("value-and-error", label, detail(), "loading (%s) returned both a key and an error", what)
		}
		return false
	}
	if sk == nil || pk == nil {
		t.Violate("no-value-no-error", label, detail(), "loading (%s) returned neither a key nor an error", what)
		return false
	}
	p := toRef(sk.Context().Params())
	start := uint64(sk.SeqNo())
	if start > p.Max() {
		t.Violate("seqno-beyond-max", label, detail(), "a key was loaded (%s) with sequence number %d beyond the maximum %d", what, start, p.Max())
	}
	sk.BorrowedSeqNos()
	sk.UnretiredSeqNos()
	sk.CachedSubTrees()
	n := 0
	for k := 0; k < 3; k++ {
		msg := []byte{1, byte(k)}
		sig, err := sk.Sign(msg)
		if uint64(start)+uint64(k) >= p.Max() {
			if err == nil {
				t.Violate("signed-beyond-max", label, detail(), "a key loaded at %d signed beyond the maximum %d (%s)", start, p.Max(), what)
			}
			continue
		}
		if err != nil {
			t.Violate("loaded-unusable", label, detail(), "a key was loaded (%s) but cannot sign: %v", what, err)
			break
		}
		n++
		if ok, err := pk.Verify(sig, msg); !ok {
			t.Violate("loaded-invalid", label, detail(), "a key was loaded (%s) but its signature is invalid: %v", what, err)
		}
	}
	if err := sk.BorrowExactly(2); err != nil {
		t.Violate("loaded-unusable", label, detail(), "a key was loaded (%s) but cannot reserve: %v", what, err)
	}
	if err := sk.Close(); err != nil {
		t.Violate("loaded-unclosable", label, detail(), "a key was loaded (%s) but cannot be closed: %v", what, err)
		return true
	}
	sk2, pk2, lost, err := xmssmt.LoadPrivateKey(path)
	if err != nil {
		t.Violate("reload-refused", label, detail(), "a key was loaded (%s) and closed, but does not load again: %v", what, err)
		return true
	}
	if uint64(sk2.SeqNo()) != start+uint64(n) || lost != 0 || !bytes.Equal(pkBytes(pk), pkBytes(pk2)) {
		t.Violate("reload-differs", label, detail(), "a key loaded at %d (%s) signed %d times and was closed; the reload gives %d, %d lost", start, what, n, sk2.SeqNo(), lost)
	}
	sk2.Close()
	return true
}

// c09Alloc measures how much memory rejected inputs make the library allocate.
func c09Alloc(t *mon.T, label string) {
	r := t.Rng(label)
	const slack = 1 << 20
	// The figure is that of the whole process, in which watchdogs run as
	// well, so what is too much once is looked at again.
	measure := func(f func()) uint64 {
		least := uint64(1<<64 - 1)
		for k := 0; k < 8 && least > slack; k++ {
			var a, b runtime.MemStats
			runtime.ReadMemStats(&a)
			f()
			runtime.ReadMemStats(&b)
			least = min(least, b.TotalAlloc-a.TotalAlloc)
		}
		return least
	}
	judge := func(what string, in int, rejected bool, n uint64, detail any) {
		limit := uint64(slack) + 32*uint64(in)
		if n > limit {
			t.Violate("allocation:"+what, label, detail, "%s: an input of %d bytes (rejected: %v) made the library allocate %d bytes", what, in, rejected, n)
		}
		t.Count("rejected inputs whose allocation was measured", 1)
		t.Nontrivial(fmt.Sprintf("alloc/%s/%d/%v", what, in, rejected))
	}
	for k := 0; k < t.Pick(400, 4000); k++ {
		var p ref.P
		if k%2 == 0 {
			p = ref.P{Func: r.Intn(3), N: 64, H: 63, D: []int{63, 21, 9, 7, 3, 1}[k/2%6], W: 4, Prf: r.Intn(2)}
		} else {
			p = c09Header(r, 63)
		}
		n := r.Intn(64)
		switch k % 3 {
		case 1:
			n = p.SigBytes() - 1 - r.Intn(10)
		case 2:
			n = p.SigBytes()
		}
		if n < 0 {
			n = 0
		}
		b := append(clone(p.Header()), randBytes(r, n)...)
		var s xmssmt.Signature
		var err error
		judge("Signature.UnmarshalBinary", len(b), err != nil, measure(func() { err = s.UnmarshalBinary(b) }), mon.Hex(b))
		var pk xmssmt.PublicKey
		judge("PublicKey.UnmarshalBinary", len(b), err != nil, measure(func() { err = pk.UnmarshalBinary(b) }), mon.Hex(b))
		judge("PublicKey.UnmarshalText", len(b), err != nil, measure(func() { err = pk.UnmarshalText(b) }), mon.Hex(b))
		judge("Verify", len(b), err != nil, measure(func() { _, e := xmssmt.Verify(b, b, nil); err = e2(e) }), mon.Hex(b))
	}
	for _, s := range []string{"XMSSMT-SHA2_63/63_512_w4", "XMSS-SHA2_4294967295_256", "XMSSMT-SHA2_4294967295/4294967295_256", "XMSS-SHA2_10_4294967288", "XMSSMT-SHA2_60/1_512", strings.Repeat("9", 5000)} {
		judge("names", len(s), false, measure(func() { xmssmt.ParamsFromName2(s); xmssmt.NewContextFromName2(s) }), s)
	}
	// Key files that end early, whatever they declare.
	dir := scratchDir("c09a")
	defer os.RemoveAll(dir)
	path, keyb, cacheb, _ := c09Store(t, label, cheap(2, 1), dir, 0)
	hdr := len(keyb) - 48
	for k := 0; k < 60; k++ {
		fp := fromRef(c09Header(r, 63))
		switch k % 6 {
		case 0:
			fp.N = 1 << 30
		case 1:
			fp.N = 0xffffffff
		case 2:
			fp.FullHeight = 0xffffffff
		case 3:
			fp.D = 0
		case 4:
			fp.N = 0x10000000
		}
		var buf bytes.Buffer
		buf.Write(keyb[:8])
		binary.Write(&buf, binary.BigEndian, &fp)
		buf.Write(keyb[hdr-12 : hdr-1])
		if k%6 != 5 {
			buf.WriteByte(0)
			buf.Write(randBytes(r, 20))
		}
		var err xmssmt.Error
		n := measure(func() {
			os.WriteFile(path, buf.Bytes(), 0600)
			os.WriteFile(path+".cache", cacheb, 0600)
			sk, _, _, e := xmssmt.LoadPrivateKey(path)
			err = e
			if e == nil {
				sk.Close()
			}
		})
		if err == nil {
			t.Violate("junk-loaded", label, fmt.Sprintf("%x", buf.Bytes()), "a key file that ends early was loaded: %v", fp)
		}
		judge("LoadPrivateKey", buf.Len(), err != nil, n, fmt.Sprintf("%x", buf.Bytes()))
	}
	// A cache that declares far more subtrees than it has.
	for k := 0; k < 8; k++ {
		c := clone(cacheb)
		binary.BigEndian.PutUint32(c[8:], []uint32{1 << 20, 1 << 31, 1<<32 - 1, 1000}[k%4])
		if k >= 4 {
			binary.BigEndian.PutUint32(c[13:], []uint32{0, 1, 1 << 31, 1<<32 - 1}[k%4])
		}
		n := measure(func() {
			os.WriteFile(path, keyb, 0600)
			os.WriteFile(path+".cache", c, 0600)
			sk, _, _, e := xmssmt.LoadPrivateKey(path)
			if e == nil {
				sk.Close()
			}
		})
		judge("LoadPrivateKey with a bad cache", len(c), false, n, mon.Hex(c))
	}
}
