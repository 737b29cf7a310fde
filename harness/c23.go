package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"

	"github.com/bwesterb/go-xmssmt"
	"xverif/mon"
	old "xverif/old"
	"xverif/ref"
)

func init() {
	checks["C23"] = check{run: runC23,
		rule: "Key files of every family of parameters are written byte by byte from the documented layout and loaded, and the key files the library writes are parsed byte by byte after every operation; keys wander between the current tree and a copy of the first version, with clean closes and crashes in between and caches of both formats, and after every step public key, position, loss count and signatures are compared with the file's and the reference's. Non-trivial: distinct (instance, position, reserved count, writer) that were read back."}
}

// A key file: magic, parameters, position, reserved count, seeds.
type c23Rec struct {
	p    ref.P
	seq  uint64
	res  uint32
	s    seeds
	rest []byte
}

var c23Magic = []byte{0x40, 0x89, 0x43, 0x0a, 0x5c, 0xed, 0x68, 0x44}

func (k c23Rec) bytes() []byte {
	b := append([]byte(nil), c23Magic...)
	b = append(b, byte(k.p.Func))
	b = binary.BigEndian.AppendUint32(b, uint32(k.p.N))
	b = binary.BigEndian.AppendUint32(b, uint32(k.p.H))
	b = binary.BigEndian.AppendUint32(b, uint32(k.p.D))
	b = binary.BigEndian.AppendUint16(b, uint16(k.p.W))
	b = append(b, byte(k.p.Prf))
	b = binary.BigEndian.AppendUint64(b, k.seq)
	b = binary.BigEndian.AppendUint32(b, k.res)
	return bytes.Join([][]byte{b, k.s.sk, k.s.prf, k.s.pub, k.rest}, nil)
}

func c23Parse(b []byte) (k c23Rec, err error) {
	if len(b) < 36 || !bytes.Equal(b[:8], c23Magic) {
		return k, fmt.Errorf("no header or other magic: % x", b[:min(len(b), 36)])
	}
	k.p = ref.P{Func: int(b[8]), N: int(binary.BigEndian.Uint32(b[9:])), H: int(binary.BigEndian.Uint32(b[13:])),
		D: int(binary.BigEndian.Uint32(b[17:])), W: int(binary.BigEndian.Uint16(b[21:])), Prf: int(b[23])}
	k.seq = binary.BigEndian.Uint64(b[24:])
	k.res = binary.BigEndian.Uint32(b[32:])
	n := k.p.N
	if n > 64 || len(b) < 36+3*n {
		return k, fmt.Errorf("%d bytes, header % x", len(b), b[:36])
	}
	k.s = seeds{b[36+2*n : 36+3*n], b[36 : 36+n], b[36+n : 36+2*n]}
	k.rest = b[36+3*n:]
	return k, nil
}

func c23Copy(from, to string, cache bool) {
	if err := os.MkdirAll(to, 0700); err != nil {
		panic("harness: " + err.Error())
	}
	for _, f := range []string{"key", "key.cache"} {
		b, err := os.ReadFile(filepath.Join(from, f))
		if err != nil || !cache && f != "key" {
			continue
		}
		if err := os.WriteFile(filepath.Join(to, f), b, 0600); err != nil {
			panic("harness: " + err.Error())
		}
	}
}

// The first version computed other keys for these (and with AVX2 only).
func c23OldDiffers(p ref.P) bool { return p.Func != ref.SHA2 && p.Prf == ref.NIST }

// The first version mistook the checksum of these.
func c23OldSigDiffers(p ref.P) bool { return p.W == 256 || p.W == 4 && p.N == 16 }

func runC23(t *mon.T) {
	xmssmt.SetLogger(nil)
	t.Assume = []string{"The first version is a copy of the repository's base commit in /verif/harness/old"}
	fams := families()
	n := t.Pick(2, 12) * len(fams)
	mon.Par(n, func(i int) {
		l := fmt.Sprintf("read/%d", i)
		cs(t, l, func() { c23Read(t, l, fams[i%len(fams)], i/len(fams)) })
	})
	n = t.Pick(1, 8) * len(fams)
	mon.Par(n, func(i int) {
		l := fmt.Sprintf("wander/%d", i)
		cs(t, l, func() { c23Wander(t, l, fams[i%len(fams)], i/len(fams)) })
	})
	n = t.Pick(200, 2000)
	mon.Par(n, func(i int) {
		l := fmt.Sprintf("cheap/%d", i)
		cs(t, l, func() {
			if i%2 == 0 {
				c23Read(t, l, cheap(0, 0), i)
			} else {
				c23Wander(t, l, cheap(0, 0), i)
			}
		})
	})
	t.Require("files read", 200)
	t.Require("files parsed", 1000)
	t.Require("handovers between versions", 200)
}

func c23Shape(r *rand.Rand, p ref.P) ref.P {
	s := [][2]int{{2, 1}, {4, 2}, {6, 3}, {3, 1}, {8, 4}, {3, 3}, {40, 20}, {20, 10}, {60, 20}, {63, 21}}[r.Intn(10)]
	if (p.W == 256 || p.N == 64) && s[0] > 10 && r.Intn(8) > 0 {
		s = [2]int{5, 5}
	}
	return shape(p, s[0], s[1])
}

// c23Read writes a file independently and loads it.
func c23Read(t *mon.T, label string, p ref.P, i int) {
	r := t.Rng(label)
	p = c23Shape(r, p)
	max := p.Max()
	k := c23Rec{p: p, s: mkSeeds(r, p.N)}
	k.seq = []uint64{0, 1, max, max - 1, uint64(r.Int63()) % (max + 1), uint64(r.Int63()) % (max + 1), 1 << 32, 0xfffefdfcfbfaf9f8, 255, 256}[r.Intn(10)]
	if k.seq > max {
		k.seq %= max
	}
	k.res = []uint32{0, 1, 0xffffffff, 0x01020304, uint32(r.Intn(100)), r.Uint32()}[r.Intn(6)]
	d := scratchDir("c23")
	defer os.RemoveAll(d)
	path := filepath.Join(d, "key")
	if err := os.WriteFile(path, k.bytes(), 0600); err != nil {
		panic("harness: " + err.Error())
	}
	bad := func(key, f string, a ...any) {
		t.Violate("read-"+key, label, map[string]any{"file": mon.Hex(k.bytes())}, "%v, file at %d with %d reserved: %s", p, k.seq, k.res, fmt.Sprintf(f, a...))
	}
	c, err := xmssmt.OpenFSPrivateKeyContainer(path)
	if err != nil {
		bad("open", "opening the container failed: %v", err)
		return
	}
	if ip := c.Initialized(); ip == nil || toRef(*ip) != p {
		bad("params", "the parameters read are %v", ip)
	}
	if seq, lost, err := c.GetSeqNo(); err != nil || uint64(seq) != k.seq || lost != k.res {
		bad("pos", "the container reads position %d and %d reserved (%v)", seq, lost, err)
	}
	if b, err := c.GetPrivateKey(); err != nil || !bytes.Equal(b, bytes.Join([][]byte{k.s.sk, k.s.prf, k.s.pub}, nil)) {
		bad("seeds", "other seeds are read (%v)", err)
	}
	if err := c.Close(); err != nil {
		bad("close", "Close: %v", err)
	}
	if b, _ := os.ReadFile(path); !bytes.Equal(b, k.bytes()) {
		bad("touched", "opening and closing the container changed the file to % x", b)
	}
	sk, pk, lost, err := xmssmt.LoadPrivateKey(path)
	if err != nil {
		bad("load", "loading failed: %v", err)
		return
	}
	defer sk.Close()
	rk := ref.NewKey(p, k.s.pub, k.s.sk, k.s.prf)
	if !bytes.Equal(pkBytes(pk), rk.PublicKey()) {
		bad("pk", "the public key is another one")
	}
	if uint64(sk.SeqNo()) != k.seq || lost != k.res {
		bad("load-pos", "loaded at %d with %d lost", sk.SeqNo(), lost)
	}
	msg := []byte(label)
	if k.seq < max {
		sig, err := sk.Sign(msg)
		switch {
		case err != nil:
			bad("sign", "signing failed: %v", err)
		case !bytes.Equal(sigBytes(sig), rk.Sign(k.seq, msg)):
			bad("sig", "the signature differs from the reference's")
		}
	}
	t.Count("files read", 1)
	t.Nontrivial(fmt.Sprint("r", p, k.seq, k.res))
	if i < 1 {
		t.Sample(map[string]any{"case": label, "instance": p.String(), "position": k.seq, "reserved": k.res})
	}
}

// c23Wander moves one key between the two versions.
func c23Wander(t *mon.T, label string, p ref.P, i int) {
	r := t.Rng(label)
	p = c23Shape(r, p)
	s := mkSeeds(r, p.N)
	rk := ref.NewKey(p, s.pub, s.sk, s.prf)
	d := scratchDir("c23")
	defer os.RemoveAll(d)
	gen := 0
	dir := func() string { return filepath.Join(d, fmt.Sprint(gen)) }
	path := func() string { return filepath.Join(dir(), "key") }
	os.MkdirAll(dir(), 0700)
	var hist []string
	bad := func(key, f string, a ...any) {
		b, _ := os.ReadFile(path())
		t.Violate("wander-"+key, label, map[string]any{"history": hist, "file": mon.Hex(b)}, "%v, after %v: %s", p, tail(hist, 12), fmt.Sprintf(f, a...))
	}
	note := func(f string, a ...any) { hist = append(hist, fmt.Sprintf(f, a...)) }
	// parse reads the current file.
	parse := func(want int64) (c23Rec, bool) {
		b, err := os.ReadFile(path())
		if err != nil {
			bad("file", "%v", err)
			return c23Rec{}, false
		}
		k, err := c23Parse(b)
		t.Count("files parsed", 1)
		switch {
		case err != nil:
			bad("layout", "the key file does not have the documented layout: %v", err)
		case k.p != p || len(k.rest) > 0 || !bytes.Equal(k.s.sk, s.sk) || !bytes.Equal(k.s.prf, s.prf) || !bytes.Equal(k.s.pub, s.pub):
			bad("content", "the key file states parameters %v, and seeds or length may differ: % x", k.p, b)
		case want >= 0 && k.seq != uint64(want):
			bad("position", "the key file states position %d instead of %d", k.seq, want)
		default:
			return k, true
		}
		return k, false
	}
	max := p.Max()
	oldOK := !c23OldDiffers(p)
	useOld := oldOK && r.Intn(2) == 0
	rounds := 3 + r.Intn(3)
	var last c23Rec
	for round := 0; round < rounds; round++ {
		steps := r.Intn(5)
		crash := r.Intn(3) == 0
		jump := round == 0 && r.Intn(2) == 0 && !useOld
		if useOld {
			var sk *old.PrivateKey
			var pk *old.PublicKey
			var lost uint32
			var err old.Error
			if round == 0 {
				note("old:derive")
				ctx, err2 := old.NewContext(old.Params{Func: old.HashFunc(p.Func), N: uint32(p.N), FullHeight: uint32(p.H), D: uint32(p.D), WotsW: uint16(p.W), Prf: old.PrfConstruction(p.Prf)})
				if err2 != nil {
					panic("harness: " + err2.Error())
				}
				sk, pk, err = ctx.Derive(path(), clone(s.pub), clone(s.sk), clone(s.prf))
			} else {
				note("old:load")
				sk, pk, lost, err = old.LoadPrivateKey(path())
			}
			if err != nil {
				bad("old", "the first version can't load the key file: %v", err)
				return
			}
			pb, _ := pk.MarshalBinary()
			if !bytes.Equal(pb, rk.PublicKey()) || uint64(sk.SeqNo()) != last.seq || lost != last.res {
				bad("old-read", "the first version reads a key at %d with %d lost (expected %d and %d), or another public key", sk.SeqNo(), lost, last.seq, last.res)
				sk.Close()
				return
			}
			note("old:%d", sk.SeqNo())
			for j := 0; j < steps; j++ {
				if r.Intn(4) == 0 && sk.BorrowedSeqNos() == 0 && uint64(sk.SeqNo())+20 < max {
					n := uint32(1 + r.Intn(9))
					note("old:reserve %d", n)
					sk.BorrowExactly(n)
					continue
				}
				if uint64(sk.SeqNo()) >= max {
					break
				}
				at := uint64(sk.SeqNo())
				sig, err := sk.Sign([]byte("m"))
				if err != nil {
					panic("harness: old version: " + err.Error())
				}
				note("old:sign %d", at)
				sb, _ := sig.MarshalBinary()
				if !c23OldSigDiffers(p) {
					// a signature of the first version still verifies
					if ok, err := xmssmt.Verify(pb, sb, []byte("m")); !ok {
						bad("old-sig", "a signature of the first version does not verify: %v", err)
					}
					t.Count("signatures of the first version verified", 1)
				}
			}
			if crash {
				gen++
				c23Copy(filepath.Join(d, fmt.Sprint(gen-1)), dir(), true)
				note("old:crash")
			} else {
				note("old:close")
			}
			sk.Close()
		} else {
			var sk *xmssmt.PrivateKey
			var pk *xmssmt.PublicKey
			var lost uint32
			var err xmssmt.Error
			if round == 0 {
				note("derive")
				sk, pk, err = mustCtx(p).Derive(path(), clone(s.pub), clone(s.sk), clone(s.prf))
			} else {
				note("load")
				sk, pk, lost, err = xmssmt.LoadPrivateKey(path())
			}
			if err != nil {
				bad("load", "the key can't be loaded: %v", err)
				return
			}
			if !bytes.Equal(pkBytes(pk), rk.PublicKey()) || uint64(sk.SeqNo()) != last.seq || lost != last.res {
				bad("read", "a key at %d with %d lost is loaded (expected %d and %d), or another public key", sk.SeqNo(), lost, last.seq, last.res)
				sk.Close()
				return
			}
			note("%d", sk.SeqNo())
			if jump {
				to := uint64(r.Int63()) % max
				note("jump to %d", to)
				sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(to))
				if sk.BorrowExactly(1); r.Intn(2) == 0 {
					if _, err := sk.Sign([]byte("m")); err != nil {
						bad("sign", "signing failed: %v", err)
					}
				}
			}
			for j := 0; j < steps; j++ {
				if r.Intn(3) == 0 {
					n := uint32(r.Intn(9))
					note("reserve %d", n)
					if err := sk.BorrowExactly(n); err != nil {
						bad("reserve", "BorrowExactly failed: %v", err)
					}
				} else if at := uint64(sk.SeqNo()); at < max {
					sig, err := sk.Sign([]byte("m"))
					if err != nil {
						bad("sign", "signing failed: %v", err)
						break
					}
					note("sign %d", at)
					sb := sigBytes(sig)
					if !bytes.Equal(sb, rk.Sign(at, []byte("m"))) {
						bad("sig", "the signature at %d differs from the reference's", at)
					}
					if oldOK && !c23OldSigDiffers(p) {
						pb, _ := pk.MarshalBinary()
						if ok, err := old.Verify(pb, sb, []byte("m")); !ok {
							bad("sig-old", "the first version does not accept the signature: %v", err)
						}
					}
				}
				if _, ok := parse(int64(sk.SeqNo()) + int64(sk.BorrowedSeqNos())); !ok {
					sk.Close()
					return
				}
			}
			if crash {
				gen++
				c23Copy(filepath.Join(d, fmt.Sprint(gen-1)), dir(), true)
				note("crash")
			} else {
				note("close")
			}
			at := uint64(sk.SeqNo())
			if err := sk.Close(); err != nil {
				bad("close", "Close failed: %v", err)
			}
			if !crash {
				if k, ok := parse(int64(at)); ok && k.res != 0 {
					bad("reserved", "after a clean close the key file states %d reserved numbers", k.res)
				}
			}
		}
		var ok bool
		if last, ok = parse(-1); !ok {
			return
		}
		t.Nontrivial(fmt.Sprint("w", p, last.seq, last.res, useOld))
		was := useOld
		useOld = oldOK && r.Intn(2) == 0
		if was != useOld {
			t.Count("handovers between versions", 1)
			cache := filepath.Join(dir(), "key.cache")
			switch b, _ := os.ReadFile(cache); {
			case useOld:
				// older versions need not know newer caches
				h := append([]byte{0x5a, 0x11, 0xd7, 0xcf, 0x4a, 0x1f, 0x63, 0x14}, 0, 0, 0, 0, 1, 0, 0, 0x10, 0)
				if err := os.WriteFile(cache, h, 0600); err != nil {
					panic("harness: " + err.Error())
				}
			case r.Intn(2) == 0 && len(b) >= 4096:
				note("format 0")
				h := append([]byte{0xe7, 0x79, 0x57, 0x60, 0x7e, 0xf7, 0x94, 0x46}, b[8:12]...)
				copy(b, append(h, make([]byte, 5)...))
				if err := os.WriteFile(cache, b, 0600); err != nil {
					panic("harness: " + err.Error())
				}
				t.Count("caches in format 0", 1)
			}
		}
	}
	if i < 1 {
		t.Sample(map[string]any{"case": label, "instance": p.String(), "history": hist})
	}
}
