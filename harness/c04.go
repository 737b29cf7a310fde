package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"testing/iotest"

	"github.com/bwesterb/go-xmssmt"
	"xverif/memctr"
	"xverif/mon"
	"xverif/ref"
)

func init() {
	checks["C04"] = check{run: runC04,
		rule: "Every supported family and many shapes; every index of small trees and boundary indices of big ones; messages of many lengths handed over as bytes or through readers that deliver them in odd pieces. Each signature is verified directly, after round trips through the binary and text encodings, by streaming verification, by the package-level function and by the reference verifier. Non-trivial: distinct (instance, index, message length, reader kind) whose signature was verified."}
}

// readers deliver a message in every legal way an io.Reader may.
var readerKinds = []string{"bytes", "one", "half", "dataerr", "odd", "zero", "scratch", "pipe", "writerto", "big", "multi"}

func reader(kind string, r *rand.Rand, m []byte) io.Reader {
	switch kind {
	case "one":
		return iotest.OneByteReader(bytes.NewReader(m))
	case "half":
		return iotest.HalfReader(bytes.NewReader(m))
	case "dataerr":
		return iotest.DataErrReader(bytes.NewReader(m))
	case "odd":
		return &chunkReader{b: clone(m), next: func(int) int { return 1 + r.Intn(71) }, eof: r.Intn(2) == 0}
	case "zero":
		return &chunkReader{b: clone(m), next: func(int) int { return 1 + r.Intn(137) }, zero: true}
	case "scratch":
		return &chunkReader{b: clone(m), next: func(int) int { return 1 + r.Intn(200) }, junk: true, zero: r.Intn(2) == 0, eof: r.Intn(2) == 0}
	case "pipe":
		a, b := io.Pipe()
		c := clone(m)
		cut := 0
		if len(c) > 0 {
			cut = r.Intn(len(c))
		}
		go func() {
			b.Write(c[:cut])
			b.Write(nil)
			b.Write(c[cut:])
			b.Close()
		}()
		return a
	case "writerto":
		return bytes.NewBuffer(clone(m))
	case "multi":
		cut := 0
		if len(m) > 0 {
			cut = r.Intn(len(m))
		}
		return io.MultiReader(bytes.NewReader(m[:cut]), bytes.NewReader(nil), bytes.NewReader(m[cut:]))
	}
	return struct{ io.Reader }{bytes.NewReader(m)}
}

// c04Sign signs one message and checks that everybody accepts the result.
func c04Sign(t *mon.T, label string, k *key, r *rand.Rand, msg []byte, kind string, full bool) *xmssmt.Signature {
	var sig *xmssmt.Signature
	var err xmssmt.Error
	keep := clone(msg)
	if kind == "bytes" {
		sig, err = k.sk.Sign(msg)
	} else {
		sig, err = k.sk.SignFrom(reader(kind, r, msg))
	}
	if err != nil {
		t.Violate("sign-failed", label, nil, "signing %d bytes (%s reader) failed: %v", len(msg), kind, err)
		return nil
	}
	idx := uint64(sig.SeqNo())
	bad := func(how string) {
		t.Violate("rejected:"+how, label, map[string]any{"index": idx, "msg": mon.Hex(keep), "reader": kind, "sig": mon.Hex(sigBytes(sig))},
			"a signature of %v at index %d on %d bytes (%s reader) was rejected: %s", k.p, idx, len(keep), kind, how)
	}
	t.Count("signatures", 1)
	if !verify(t, label, k.pk, sig, keep) {
		bad("directly")
		return nil
	}
	t.Count("verifications", 1)
	t.Nontrivial(fmt.Sprintf("%v/%d/%d/%s", k.p, idx, len(msg), kind))
	t.Distinct("message lengths", fmt.Sprint(len(msg)))
	if !full {
		return sig
	}
	sb, pb := sigBytes(sig), pkBytes(k.pk)
	var sig2 xmssmt.Signature
	if err := sig2.UnmarshalBinary(sb); err != nil {
		bad("not decodable: " + err.Error())
		return nil
	}
	if sig2.SeqNo() != sig.SeqNo() {
		bad("index changed in the round trip")
	}
	var pk2, pk3 xmssmt.PublicKey
	if err := pk2.UnmarshalBinary(pb); err != nil {
		bad("public key not decodable: " + err.Error())
		return nil
	}
	tx, err2 := k.pk.MarshalText()
	if err2 != nil || pk3.UnmarshalText(tx) != nil {
		bad("public key text not decodable")
		return nil
	}
	if !verify(t, label, &pk2, sig, keep) {
		bad("by the decoded public key")
	}
	if !verify(t, label, k.pk, &sig2, keep) {
		bad("after decoding")
	}
	if !verify(t, label, &pk3, &sig2, keep) {
		bad("after decoding, by the key decoded from text")
	}
	if !verify(t, label, k.sk.PublicKey(), &sig2, keep) {
		bad("by the private key's public key")
	}
	kind2 := readerKinds[r.Intn(len(readerKinds))]
	if ok, err := pk2.VerifyFrom(&sig2, reader(kind2, r, keep)); !ok || err != nil {
		bad("streamed through a " + kind2 + " reader")
	}
	if ok, err := xmssmt.Verify(pb, sb, keep); !ok || err != nil {
		bad("by the package-level function")
	}
	t.Count("verifications", 6)
	if k.p.W != 256 && r.Intn(3) == 0 || r.Intn(12) == 0 {
		if !ref.Verify(pb, sb, keep) {
			bad("by the reference verifier")
		}
		t.Count("verifications by the reference", 1)
	}
	return sig
}

func c04Load(p ref.P, s seeds, idx uint64, threads int) *key {
	_, sk, pk, _, err := loadKey(storedKey(p, s, idx))
	if err != nil {
		panic(libErr{fmt.Sprintf("loading %v at %d: %v", p, idx, err)})
	}
	sk.Context().Threads = threads
	return &key{p: p, s: s, sk: sk, pk: pk}
}

func runC04(t *mon.T) {
	fam := families()
	// every family, a few shapes
	type job struct {
		p    ref.P
		ids  []uint64
		n    int // signatures from each start
		name string
	}
	var jobs []job
	for i, f := range fam {
		shapes := [][2]int{{1, 1}, {3, 1}, {4, 2}, {6, 3}}
		if t.Thorough() {
			shapes = append(shapes, [2]int{5, 1}, [2]int{8, 4}, [2]int{40, 20}, [2]int{33, 11}, [2]int{62, 31}, [2]int{63, 63})
		} else if f.W == 256 {
			shapes = [][2]int{{1, 1}, {2, 2}}
		}
		for _, sh := range shapes {
			p := shape(f, sh[0], sh[1])
			r := t.Rng(fmt.Sprint("ids", p))
			ids := []uint64{0}
			n := 1 << p.H
			if p.H > 4 {
				ids = boundaryIndices(p, func(n uint64) uint64 { return uint64(r.Int63()) % max(n, 1) }, 2)
				r.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
				ids = append(ids[:min(len(ids), t.Pick(2, 8))], (uint64(1)<<p.H)-4)
				n = 4
			}
			jobs = append(jobs, job{p, ids, n, fmt.Sprintf("family/%03d/%v", i, p)})
		}
	}
	mon.Par(len(jobs), func(i int) {
		j := jobs[i]
		cs(t, j.name, func() {
			r := t.Rng(j.name)
			s := mkSeeds(r, j.p.N)
			for _, id := range j.ids {
				k := c04Load(j.p, s, id, 1+r.Intn(3))
				for n := 0; n < j.n && uint64(k.sk.SeqNo()) < k.p.Max() && !t.Stop(); n++ {
					c04Sign(t, j.name, k, r, randBytes(r, r.Intn(150)), readerKinds[r.Intn(len(readerKinds))], j.p.W != 256 || n == 0)
				}
				k.sk.Close()
			}
			t.Distinct("instances", j.p.String())
		})
	})
	// every message length, every reader, on one cheap key per hash input
	// layout
	var lay []ref.P
	for f := 0; f < 3; f++ {
		for _, n := range []int{16, 24, 32, 64} {
			for prf := 0; prf < 2; prf++ {
				lay = append(lay, ref.P{Func: f, N: n, H: 14, D: 7, W: 16, Prf: prf})
			}
		}
	}
	nl := t.Pick(300, 1200)
	mon.Par(len(lay), func(i int) {
		label := fmt.Sprintf("lengths/%v", lay[i])
		cs(t, label, func() {
			r := t.Rng(label)
			k := c04Load(lay[i], mkSeeds(r, lay[i].N), uint64(r.Intn(1000)), 1)
			for l := 0; l <= nl && !t.Stop(); l++ {
				c04Sign(t, label, k, r, randBytes(r, l), readerKinds[(l+i)%len(readerKinds)], l%8 == 0)
			}
			for _, l := range []int{4095, 4096, 4097, 32767, 32768, 32769, 65536, 1 << 20, 1<<20 + 1} {
				for _, kind := range readerKinds {
					if l > 100000 && kind == "one" {
						continue
					}
					c04Sign(t, label, k, r, randBytes(r, l), kind, false)
				}
			}
			for _, b := range []byte{0, 0xff} { // constant messages
				c04Sign(t, label, k, r, bytes.Repeat([]byte{b}, 64), "bytes", true)
			}
			k.sk.Close()
		})
	})
	// a long history on one key: every index, crossing all subtree borders
	long := [][2]int{{10, 5}, {11, 1}, {12, 4}, {9, 3}, {10, 2}}
	mon.Par(len(long)*t.Pick(1, 4), func(i int) {
		sh := long[i%len(long)]
		f := cheap(sh[0], sh[1])
		if i >= len(long) {
			g := fam[t.Rng(fmt.Sprint("fam", i)).Intn(len(fam))]
			if g.W == 256 {
				g.W = 4
			}
			f = shape(g, sh[0], sh[1])
		}
		label := fmt.Sprintf("every/%v", f)
		cs(t, label, func() {
			r := t.Rng(label)
			k := newKey(f, mkSeeds(r, f.N), memctr.New(), 2)
			if i%2 == 0 {
				k.sk.EnableSubTreePrecomputation()
			}
			var kept []*xmssmt.Signature
			var msgs [][]byte
			for uint64(k.sk.SeqNo()) < f.Max() && !t.Stop() {
				m := randBytes(r, r.Intn(80))
				sig := c04Sign(t, label, k, r, m, "bytes", k.sk.SeqNo()%16 == 0)
				if r.Intn(20) == 0 && sig != nil {
					kept, msgs = append(kept, sig), append(msgs, m)
				}
			}
			// old signatures still verify after everything was dropped
			for i, s := range kept {
				if !verify(t, label, k.pk, s, msgs[i]) {
					t.Violate("rejected:later", label, map[string]any{"index": s.SeqNo()}, "signature %d no longer verifies later on", s.SeqNo())
				}
			}
			k.sk.Close()
		})
	})
	// on disk, through the package-level functions, standard instances only
	// by name where they are small enough
	names := []string{"XMSSMT-SHA2_4/2_256", "XMSSMT-SHAKE_4/2_256", "XMSS-SHAKE_5_128", "XMSSMT-SHAKE_6/3_512", "XMSSMT-SHA2_4/4_192", "XMSS-SHAKE256_4_256", "XMSSMT-SHA2_20/10_256", "XMSSMT-SHAKE_40/20_256_w4"}
	mon.Par(len(names), func(i int) {
		label := "files/" + names[i]
		cs(t, label, func() {
			d := scratchDir("c04")
			defer os.RemoveAll(d)
			path := filepath.Join(d, "key")
			sk, pk, err := xmssmt.GenerateKeyPair(names[i], path)
			if err != nil {
				t.Violate("gen", label, nil, "GenerateKeyPair(%s): %v", names[i], err)
				return
			}
			pb := pkBytes(pk)
			if err := sk.Close(); err != nil {
				t.Violate("close", label, nil, "Close: %v", err)
			}
			r := t.Rng(label)
			for n := 0; n < 12; n++ {
				m := randBytes(r, r.Intn(99))
				sb, err := xmssmt.Sign(path, m)
				if err != nil {
					t.Violate("sign-failed", label, nil, "Sign: %v", err)
					return
				}
				if ok, err := xmssmt.Verify(pb, sb, m); !ok {
					t.Violate("rejected:files", label, map[string]any{"sig": mon.Hex(sb)}, "signature %d made from files was rejected: %v", n, err)
				}
				if n%4 == 0 && !ref.Verify(pb, sb, m) {
					t.Violate("rejected:files-ref", label, map[string]any{"sig": mon.Hex(sb)}, "signature %d made from files is rejected by the reference", n)
				}
				t.Count("signatures", 1)
				t.Nontrivial(fmt.Sprint(label, n))
			}
		})
	})
	t.Require("signatures", 5000)
	t.Require("verifications", 10000)
	t.Require("verifications by the reference", 200)
}
