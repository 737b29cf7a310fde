package main

import (
	"bufio"
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"

	"github.com/bwesterb/go-xmssmt"
	"golang.org/x/sys/cpu"
	"xverif/memctr"
	"xverif/mon"
	"xverif/ref"
)

func init() {
	checks["C08"] = check{run: runC08,
		rule: "For every family and several shapes, public key and signatures are made under many configurations (worker threads, vectorised hash on and off by subprocess, a 32-bit build by subprocess (which also continues the key files of the 64-bit one and the other way round), caches fresh, precomputed, reloaded, dropped or partly missing, memory and file containers, one context shared by keys, indices reached by signing or jumping, concurrent signers) and compared byte for byte with those of one plain single-threaded configuration; signatures depend on (seeds, index, message) only. Non-trivial: distinct (instance, configuration, index) compared."}
	workers["c08"] = c08Worker
}

// base holds what the plain configuration produced: index -> signature on
// msgOf(index).
type c08Base struct {
	p   ref.P
	s   seeds
	pk  []byte
	sig map[uint64][]byte
}

func c08Msg(idx uint64) []byte { return []byte(fmt.Sprintf("message for index %d", idx)) }

func c08Plain(t *mon.T, p ref.P, s seeds, ids []uint64) *c08Base {
	b := &c08Base{p: p, s: s, sig: map[uint64][]byte{}}
	st := storedKey(p, s, ids[0])
	ctr := memctr.From(st)
	// one worker thread from the start: derive instead of load when possible
	ctx := mustCtx(p)
	ctx.Threads = 1
	if ids[0] == 0 {
		ctr = memctr.New()
		sk, pk, err := ctx.DeriveInto(ctr, clone(s.pub), clone(s.sk), clone(s.prf))
		if err != nil {
			panic(libErr{"DeriveInto: " + err.Error()})
		}
		b.run(sk, pk, ids)
		return b
	}
	sk, pk, _, err := xmssmt.LoadPrivateKeyFrom(ctr)
	if err != nil {
		panic(libErr{"load: " + err.Error()})
	}
	sk.Context().Threads = 1
	b.run(sk, pk, ids)
	return b
}

func (b *c08Base) run(sk *xmssmt.PrivateKey, pk *xmssmt.PublicKey, ids []uint64) {
	b.pk = pkBytes(pk)
	for _, id := range ids {
		if uint64(sk.SeqNo()) != id {
			sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(id))
		}
		sig, err := sk.Sign(c08Msg(id))
		if err != nil {
			panic(libErr{"Sign: " + err.Error()})
		}
		b.sig[id] = sigBytes(sig)
	}
	sk.Close()
}

func (b *c08Base) compare(t *mon.T, label, conf string, sk *xmssmt.PrivateKey, pk *xmssmt.PublicKey, ids []uint64) {
	if !bytes.Equal(pkBytes(pk), b.pk) || !bytes.Equal(pkBytes(sk.PublicKey()), b.pk) {
		t.Violate("pk:"+conf, label, map[string]any{"got": mon.Hex(pkBytes(pk)), "want": mon.Hex(b.pk)}, "%v: the public key differs under %s", b.p, conf)
	}
	for _, id := range ids {
		if uint64(sk.SeqNo()) != id {
			sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(id))
		}
		sig, err := sk.Sign(c08Msg(id))
		if err != nil {
			t.Violate("sign:"+conf, label, nil, "%v: signing at %d under %s failed: %v", b.p, id, conf, err)
			return
		}
		b.same(t, label, conf, id, sigBytes(sig))
	}
}

func (b *c08Base) same(t *mon.T, label, conf string, id uint64, got []byte) {
	t.Count("signatures compared", 1)
	t.Nontrivial(fmt.Sprint(b.p, conf, id))
	t.Distinct("configurations", conf)
	if !bytes.Equal(got, b.sig[id]) {
		o := 0
		for o < len(got) && o < len(b.sig[id]) && got[o] == b.sig[id][o] {
			o++
		}
		t.Violate("sig:"+conf, label, map[string]any{"index": id, "offset": o, "seeds": fmt.Sprintf("%x %x %x", b.s.pub, b.s.sk, b.s.prf)},
			"%v: the signature at index %d differs under %s from byte %d on (%s)", b.p, id, conf, o, c05Where(b.p, o))
	}
}

var c08Threads = []int{0, 1, 2, 3, 5, 8, 33, 100}

func c08Case(t *mon.T, label string, p ref.P) {
	r := t.Rng(label)
	s := mkSeeds(r, p.N)
	th := uint(p.TreeHeight())
	// indices around the borders of bottom subtrees, in increasing order
	max := p.Max()
	start := uint64(r.Int63()) % max
	if p.H <= 10 || r.Intn(3) == 0 {
		start = 0
	}
	if p.D > 1 && r.Intn(2) == 0 { // cross an upper border
		l := uint(1 + r.Intn(p.D-1))
		b := (start>>(th*(l+1)) + 1) << (th * (l + 1))
		if b > 4 && b < max {
			start = b - 3
		}
	}
	n := uint64(10)
	if p.W == 256 {
		n = 4
	}
	if start+n > max {
		start = max - min(n, max)
	}
	var seq []uint64
	for i := start; i < min(start+n, max); i++ {
		seq = append(seq, i)
	}
	if len(seq) == 0 {
		return
	}
	b := c08Plain(t, p, s, seq)
	// the reference for some, so that an error of the base itself is seen
	if p.W != 256 && p.TreeHeight() < 6 {
		k := ref.NewKey(p, s.pub, s.sk, s.prf)
		if !bytes.Equal(k.PublicKey(), b.pk) || !bytes.Equal(k.Sign(seq[0], c08Msg(seq[0])), b.sig[seq[0]]) {
			t.Violate("base", label, nil, "%v: the plain configuration differs from the reference", p)
		}
	}
	load := func(st *memctr.State, threads int) (*memctr.Ctr, *xmssmt.PrivateKey, *xmssmt.PublicKey) {
		c, sk, pk, _, err := loadKey(st)
		if err != nil {
			panic(libErr{"load: " + err.Error()})
		}
		sk.Context().Threads = threads
		return c, sk, pk
	}
	// threads
	var snap *memctr.State
	ths := c08Threads
	if !t.Thorough() && p.W == 256 {
		ths = []int{0, 3}
	}
	for _, n := range ths {
		var c *memctr.Ctr
		var sk *xmssmt.PrivateKey
		var pk *xmssmt.PublicKey
		conf := fmt.Sprintf("%d threads", n)
		if start == 0 {
			k := newKey(p, s, memctr.New(), n)
			c, sk, pk = k.ctr, k.sk, k.pk
		} else {
			c, sk, pk = load(storedKey(p, s, start), n)
		}
		snap = c.Snapshot()
		b.compare(t, label, conf, sk, pk, seq)
		sk.Close()
	}
	// reloaded from cache, cache dropped, cache partly missing
	for v, conf := range []string{"cache reloaded", "cache dropped", "cache partly missing", "cache reloaded after each signature", "cache dropped half-way"} {
		st := snap.Clone()
		switch v {
		case 1:
			st.CacheInit, st.Trees = false, nil
		case 2:
			var ks []STA
			for k := range st.Trees {
				ks = append(ks, k)
			}
			sort.Slice(ks, func(i, j int) bool { return ks[i].Layer < ks[j].Layer })
			for _, k := range ks {
				if r.Intn(2) == 0 {
					delete(st.Trees, k)
				}
			}
		}
		c, sk, pk := load(st, 1+r.Intn(4))
		if v < 3 {
			b.compare(t, label, conf, sk, pk, seq)
		} else {
			for i, id := range seq {
				b.compare(t, label, conf, sk, pk, []uint64{id})
				if v == 3 && i%3 != 2 || v == 4 && i != len(seq)/2 {
					continue
				}
				sk.Close()
				st := c.Snapshot()
				if v == 4 {
					st.CacheInit, st.Trees = false, nil
				}
				c, sk, pk = load(st, 1+r.Intn(4))
			}
		}
		sk.Close()
	}
	// precomputed
	for v, conf := range []string{"precomputation", "precomputation and reservation", "reservation"} {
		_, sk, pk := load(snap.Clone(), v)
		if v != 2 {
			sk.EnableSubTreePrecomputation()
		}
		if v != 0 {
			sk.BorrowExactly(uint32(1 + r.Intn(10)))
		}
		b.compare(t, label, conf, sk, pk, seq)
		sk.Close()
	}
	// jumping around in random order
	{
		_, sk, pk := load(snap.Clone(), 2)
		perm := r.Perm(len(seq))
		var ids []uint64
		for _, q := range perm {
			ids = append(ids, seq[q])
		}
		b.compare(t, label, "jumping", sk, pk, ids)
		sk.Close()
	}
	// concurrent signers; the message must depend on the index, which the
	// signer does not know in advance, so all sign the same message
	{
		_, sk, _ := load(snap.Clone(), 0)
		if r.Intn(2) == 0 {
			sk.EnableSubTreePrecomputation()
		}
		m := randBytes(r, 33)
		one := &c08Base{p: p, s: s, sig: map[uint64][]byte{}}
		c2, sk2, _ := load(snap.Clone(), 1)
		for range seq {
			sig, err := sk2.Sign(m)
			if err != nil {
				panic(libErr{"Sign: " + err.Error()})
			}
			one.sig[uint64(sig.SeqNo())] = sigBytes(sig)
		}
		sk2.Close()
		_ = c2
		g := group{t: t, label: label}
		for w := 0; w < len(seq); w++ {
			w := w
			g.Go(func() {
				sig, err := sk.SignFrom(&chunkReader{b: clone(m), next: func(int) int { jitter(1); return 1 + w }})
				if err != nil {
					t.Violate("sign:concurrent", label, nil, "Sign: %v", err)
					return
				}
				one.same(t, label, "concurrent signers", uint64(sig.SeqNo()), sigBytes(sig))
			})
		}
		g.Wait()
		sk.Close()
	}
	// files
	d := scratchDir("c08")
	defer os.RemoveAll(d)
	path := filepath.Join(d, "key")
	if start == 0 {
		ctx := mustCtx(p)
		ctx.Threads = r.Intn(5)
		sk, pk, err := ctx.Derive(path, clone(s.pub), clone(s.sk), clone(s.prf))
		if err != nil {
			panic(libErr{"Derive: " + err.Error()})
		}
		b.compare(t, label, "files", sk, pk, seq[:(len(seq)+1)/2])
		sk.Close()
		sk, pk, _, err = xmssmt.LoadPrivateKey(path)
		if err != nil {
			panic(libErr{"LoadPrivateKey: " + err.Error()})
		}
		b.compare(t, label, "files reloaded", sk, pk, seq[(len(seq)+1)/2:])
		sk.Close()
		sk, pk, _, err = xmssmt.LoadPrivateKey(path)
		if err != nil {
			panic(libErr{"LoadPrivateKey: " + err.Error()})
		}
		b.compare(t, label, "files reloaded, jumping back", sk, pk, seq)
		sk.Close()
	}
	// one context shared by two keys used at the same time
	if start == 0 {
		ctx := mustCtx(p)
		ctx.Threads = 1 + r.Intn(3)
		s2 := mkSeeds(r, p.N)
		b2 := c08Plain(t, p, s2, seq)
		g := group{t: t, label: label}
		for q := 0; q < 2; q++ {
			bb, ss := b, s
			if q == 1 {
				bb, ss = b2, s2
			}
			g.Go(func() {
				sk, pk, err := ctx.DeriveInto(memctr.New(), clone(ss.pub), clone(ss.sk), clone(ss.prf))
				if err != nil {
					t.Violate("derive", label, nil, "DeriveInto: %v", err)
					return
				}
				bb.compare(t, label, "context shared by two keys", sk, pk, seq)
				sk.Close()
			})
		}
		g.Wait()
	}
	t.Distinct("instances", p.String())
	t.Sample(map[string]any{"instance": p.String(), "first index": start, "signatures": len(seq)})
}

// The worker makes public keys, signatures and verdicts for all families and
// prints their digests; it is run with and without the vectorised hash.
func c08Lines(seed int64, thorough, few bool) (out []string) {
	fam := families()
	res := make([][]string, len(fam))
	mon.Par(len(fam), func(i int) {
		f := fam[i]
		shapes := [][2]int{{4, 2}, {3, 1}}
		if f.W == 256 && !thorough {
			shapes = [][2]int{{2, 2}}
		}
		if few {
			shapes = shapes[:1]
			if f.W == 256 && i%4 > 0 {
				shapes = nil
			}
		}
		if thorough {
			shapes = append(shapes, [2]int{12, 4}, [2]int{6, 1}, [2]int{40, 20})
		}
		for _, sh := range shapes {
			p := shape(f, sh[0], sh[1])
			r := rand.New(rand.NewSource(seed + int64(i)*100 + int64(sh[0])))
			s := mkSeeds(r, p.N)
			ids := []uint64{0, 1, p.Max() - 1}
			if p.H > 2 {
				ids = append(ids, uint64(r.Int63())%p.Max(), uint64(r.Int63())%p.Max())
			}
			_, sk, pk, _, err := loadKey(storedKey(p, s, ids[0]))
			if err != nil {
				res[i] = append(res[i], fmt.Sprintf("%v load %v", p, err))
				continue
			}
			add := func(f string, a ...any) { res[i] = append(res[i], fmt.Sprintf("%v ", p)+fmt.Sprintf(f, a...)) }
			pb := pkBytes(pk)
			add("pk %x", pb)
			for _, id := range ids {
				sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(id))
				m := randBytes(r, r.Intn(300))
				sig, err := sk.Sign(m)
				if err != nil {
					add("sign %v", err)
					continue
				}
				b := sigBytes(sig)
				add("index %d sig %s", id, mon.Hex(b))
				ok, _ := pk.Verify(sig, m)
				add("index %d verdict %v", id, ok)
				for q := 0; q < 6; q++ {
					bit := r.Intn(8*(len(b)-4)) + 32
					ok, _ := xmssmt.Verify(pb, flip(b, bit), m)
					add("index %d bit %d verdict %v", id, bit, ok)
				}
			}
			sk.Close()
		}
	})
	for _, l := range res {
		out = append(out, l...)
	}
	return
}

func c08Worker(args []string) int {
	var seed int64
	fmt.Sscan(args[0], &seed)
	w := bufio.NewWriter(os.Stdout)
	fmt.Fprintf(w, "avx2 %v\n", cpu.X86.HasAVX2)
	for _, l := range c08Lines(seed, args[1] == "true", false) {
		fmt.Fprintln(w, l)
	}
	w.Flush()
	return 0
}

func runC08(t *mon.T) {
	// the vectorised hash on and off
	cs(t, "vector", func() {
		here := c08Lines(t.Sub("vector"), t.Thorough(), false)
		r := runWorker(nil, []string{"GODEBUG=cpu.avx2=off"}, "c08", fmt.Sprint(t.Sub("vector")), fmt.Sprint(t.Thorough()))
		if r.code != 0 {
			if k, what := crashVerdict(r.stderr); k != "" {
				t.Violate(k, "vector", lastBytes(r.stderr, 10000), "crash without the vectorised hash: %s", what)
				return
			}
			t.Inconclusive("vector: worker ended with %d: %s", r.code, lastBytes(r.stderr, 2000))
			return
		}
		lines := strings.Split(strings.TrimSpace(r.stdout), "\n")
		t.Note("vectorised hash available here", cpu.X86.HasAVX2)
		if lines[0] != "avx2 false" {
			t.Note("vectorised hash", "could not be switched off: "+lines[0])
		} else if cpu.X86.HasAVX2 {
			t.Count("lines compared between vectorised and plain hash", len(here))
		}
		lines = lines[1:]
		for i := range here {
			if i >= len(lines) || lines[i] != here[i] {
				other := "(missing)"
				if i < len(lines) {
					other = lines[i]
				}
				t.Violate("vector", "vector", map[string]string{"with": here[i], "without": other}, "results differ between vectorised hash on and off: %s / %s", head2(here[i]), head2(other))
				break
			}
			t.Nontrivial("vector" + here[i])
		}
	})
	c08Word(t)
	var ps []ref.P
	fam := families()
	for i, f := range fam {
		switch {
		case t.Thorough() && f.W == 256:
			ps = append(ps, shape(f, 2, 2), shape(f, 4, 2), shape(f, 3, 1))
		case t.Thorough():
			ps = append(ps, shape(f, 4, 2), shape(f, 6, 3), shape(f, 6, 1), shape(f, 12, 6), shape(f, 12, 2), shape(f, 40, 20), shape(f, 3, 3))
		case f.W == 256:
			ps = append(ps, shape(f, 2, 2))
		case i%3 == 0:
			ps = append(ps, shape(f, 4, 2), shape(f, 6, 1))
		default:
			ps = append(ps, shape(f, 6, 3))
		}
	}
	for _, sh := range [][2]int{{7, 1}, {8, 1}, {10, 2}, {12, 2}, {20, 4}, {60, 20}, {40, 8}, {14, 2}, {5, 5}, {62, 31}, {36, 6}} {
		ps = append(ps, cheap(sh[0], sh[1]))
	}
	// most threads are inside the library
	mon.ParN(max(2, runtime.NumCPU()/2), len(ps), func(i int) {
		label := fmt.Sprintf("conf/%03d/%v", i, ps[i])
		cs(t, label, func() { c08Case(t, label, ps[i]) })
	})
	t.Require("signatures compared", 3000)
}

func head2(s string) string {
	if len(s) > 120 {
		return s[:120] + "..."
	}
	return s
}
