package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"sync"
	"time"

	"github.com/bwesterb/go-xmssmt"
	"xverif/mon"
	"xverif/ref"
)

func init() {
	checks["C05"] = check{run: runC05,
		rule: "Valid signatures of every family are tampered with: every bit (cheap families) or every byte (all families) of the serialised signature, message and public key, all parameter bits on one or both sides, parts swapped within and between signatures, other keys, truncation and extension; signatures made with the secrets that are wrong in a single thing (one byte of the root, the index, the leaf, the randomiser). Each tampered triple must get verdict false with an error from the package function and from the decoded objects; the untouched triple in between must still get true. Non-trivial: distinct tampered triples that were decoded and went through verification."}
}

// tamper is the oracle's side: a triple that differs from a valid one.
type tamper struct {
	t     *mon.T
	label string
	p     ref.P
	// objects that live through all calls, to notice state kept between them
	sig xmssmt.Signature
	pk  xmssmt.PublicKey
	n   int
	ok  [3][]byte // the valid triple
	// expensive instances: after the first few of a kind only some are tried
	thin int
	kind map[string]int
}

func (x *tamper) accept(pk, sig, msg []byte) {
	if ok, err := xmssmt.Verify(pk, sig, msg); !ok || err != nil {
		x.t.Violate("valid-rejected", x.label, map[string]any{"pk": mon.Hex(pk), "sig": mon.Hex(sig), "msg": mon.Hex(msg)}, "the untouched signature is rejected: %v", err)
	}
}

// reject checks a triple that must not verify.
func (x *tamper) reject(what string, pk, sig, msg []byte) {
	if bytes.Equal(pk, x.ok[0]) && bytes.Equal(sig, x.ok[1]) && bytes.Equal(msg, x.ok[2]) {
		return // not tampered with after all (a zero overwritten by zero)
	}
	if x.thin > 1 {
		x.kind[what]++
		if k := x.kind[what]; k > 2 && k%x.thin != 0 {
			return
		}
	}
	x.n++
	x.t.Count("tampered triples", 1)
	bad := func(how string, err any) {
		x.t.Violate("accepted:"+what, x.label, map[string]any{"pk": fmt.Sprintf("%x", pk), "sig": fmt.Sprintf("%x", sig), "msg": mon.Hex(msg), "how": how},
			"%v: %s: %s (error %v)", x.p, what, how, err)
	}
	p := mon.Try(func() {
		ok, err := xmssmt.Verify(pk, sig, msg)
		if ok {
			bad("accepted by the package function", err)
		}
		if !ok && err == nil {
			bad("rejected by the package function without an error", nil)
		}
	})
	if p == nil && x.n%5 == 0 {
		p = mon.Try(func() {
			if x.sig.UnmarshalBinary(sig) != nil || x.pk.UnmarshalBinary(pk) != nil {
				x.t.Count("refused when decoding", 1)
				return
			}
			x.t.Count("verified as objects", 1)
			ok, err := x.pk.VerifyFrom(&x.sig, bytes.NewReader(msg))
			if ok || err == nil {
				bad(fmt.Sprintf("verdict %v from decoded objects", ok), err)
			}
		})
	}
	if p != nil {
		x.t.Violate("crash:"+mon.PanicSite(p.Stack), x.label, map[string]any{"pk": fmt.Sprintf("%x", pk), "sig": fmt.Sprintf("%x", sig), "panic": p}, "%v: %s: verification panicked: %s", x.p, what, p.Val)
	}
}

// c05Key is a key with some signatures at known indices.
type c05Key struct {
	pk   []byte
	ids  []uint64
	msgs [][]byte
	sigs [][]byte
}

func c05Make(p ref.P, s seeds, r *rand.Rand, ids ...uint64) *c05Key {
	_, sk, pk, _, err := loadKey(storedKey(p, s, ids[0]))
	if err != nil {
		panic(libErr{"load: " + err.Error()})
	}
	defer sk.Close()
	k := &c05Key{pk: pkBytes(pk)}
	for _, id := range ids {
		sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(id))
		m := randBytes(r, 20+r.Intn(30))
		sig, err := sk.Sign(m)
		if err != nil {
			panic(libErr{"Sign: " + err.Error()})
		}
		k.ids, k.msgs, k.sigs = append(k.ids, id), append(k.msgs, m), append(k.sigs, sigBytes(sig))
	}
	return k
}

func flip(b []byte, bit int) []byte {
	c := clone(b)
	c[bit/8] ^= 1 << (bit % 8)
	return c
}

func c05Tamper(t *mon.T, label string, p ref.P, r *rand.Rand, allBits bool, stride int) {
	th := p.TreeHeight()
	s := mkSeeds(r, p.N)
	i := uint64(r.Int63()) % p.Max()
	j := i ^ 1 // sibling leaf (same subtrees)
	if j >= p.Max() {
		j = i - 1
	}
	ids := []uint64{i}
	if j < p.Max() && j != i {
		ids = append(ids, j)
	}
	for l := 0; l < p.D && len(ids) < 5; l++ { // neighbours in other subtrees
		if q := i ^ uint64(1)<<uint(l*th+r.Intn(max(th, 1))); q < p.Max() && q != i && q != j {
			ids = append(ids, q)
		}
	}
	k := c05Make(p, s, r, ids...)
	x := &tamper{t: t, label: label, p: p, kind: map[string]int{}}
	if !allBits && !t.Thorough() {
		x.thin = p.D * p.Len() * p.W * p.N / 120000
	}
	sig, msg := k.sigs[0], k.msgs[0]
	x.ok = [3][]byte{k.pk, sig, msg}
	if os.Getenv("XV_DEBUG") != "" {
		st := time.Now()
		defer func() { fmt.Println(label, x.n, time.Since(st)) }()
	}
	x.accept(k.pk, sig, msg)

	// bits of signature, key and message
	step := func() int {
		if allBits {
			return 1
		}
		return 1 + r.Intn(2*stride-1)
	}
	head := 8 * (4 + p.IndexBytes())
	for b := 0; b < 8*len(sig) && !t.Stop(); {
		x.reject(fmt.Sprintf("signature bit at %s", c05Where(p, b/8)), k.pk, flip(sig, b), msg)
		t.Nontrivial(fmt.Sprint(p, i, "sig", b))
		if b < head {
			b++
		} else {
			b += step()
		}
	}
	if t.Stop() {
		return
	}
	// whole bytes, words and fields zeroed or inverted
	for _, f := range c05Fields(p) {
		for _, v := range []byte{0x00, 0xff} {
			c := clone(sig)
			for q := f.off; q < f.off+f.n; q++ {
				c[q] = v
			}
			if !bytes.Equal(c, sig) {
				x.reject("field overwritten: "+f.name, k.pk, c, msg)
			}
		}
	}
	for b := 0; b < 8*len(k.pk); b += 1 + (step()-1)%3 {
		x.reject("public key bit", flip(k.pk, b), sig, msg)
		t.Nontrivial(fmt.Sprint(p, i, "pk", b))
	}
	for b := 0; b < 8*len(msg); b += 1 + (step()-1)%5 {
		x.reject("message bit", k.pk, sig, flip(msg, b))
	}
	x.accept(k.pk, sig, msg)
	// message length
	for _, m := range [][]byte{nil, msg[:len(msg)-1], msg[1:], append(clone(msg), 0), append(clone(msg), 0x80), append([]byte{0}, msg...), append(clone(msg), msg...), k.msgs[len(k.msgs)-1]} {
		if !bytes.Equal(m, msg) {
			x.reject("another message", k.pk, sig, m)
		}
	}
	// lengths of signature and key
	for _, n := range []int{0, 1, 3, 4, 5, 4 + p.IndexBytes(), 4 + p.IndexBytes() + p.N, len(sig) - p.N, len(sig) - 1} {
		x.reject("truncated signature", k.pk, sig[:n], msg)
		x.reject("zero-padded signature", k.pk, append(clone(sig[:n]), make([]byte, len(sig)-n)...), msg)
	}
	for _, n := range []int{1, 4, p.N, len(sig)} {
		x.reject("extended signature", k.pk, append(clone(sig), make([]byte, n)...), msg)
		x.reject("extended signature", k.pk, append(clone(sig), sig[:n]...), msg)
		x.reject("extended public key", append(clone(k.pk), make([]byte, n)...), sig, msg)
		x.reject("truncated public key", k.pk[:max(0, len(k.pk)-n)], sig, msg)
	}
	// fields swapped between signatures of the same key
	fs := c05Fields(p)
	for q := 1; q < len(ids); q++ {
		x.accept(k.pk, k.sigs[q], k.msgs[q])
		x.reject("message of another signature", k.pk, k.sigs[q], msg)
		for _, f := range fs {
			c := clone(sig)
			copy(c[f.off:f.off+f.n], k.sigs[q][f.off:f.off+f.n])
			if !bytes.Equal(c, sig) {
				x.reject("field of another signature: "+f.name, k.pk, c, msg)
				t.Nontrivial(fmt.Sprint(p, i, "field", q, f.name))
			}
		}
		// the same, several fields at once (all but one)
		for _, f := range fs {
			c := clone(k.sigs[q])
			copy(c[f.off:f.off+f.n], sig[f.off:f.off+f.n])
			if !bytes.Equal(c, sig) && !bytes.Equal(c, k.sigs[q]) {
				x.reject("all but one field of another signature: "+f.name, k.pk, c, msg)
				x.reject("field of another signature: "+f.name, k.pk, c, k.msgs[q])
			}
		}
	}
	// parts moved around within the signature
	swap := func(what string, a, b, n int) {
		c := clone(sig)
		copy(c[a:a+n], sig[b:b+n])
		copy(c[b:b+n], sig[a:a+n])
		if !bytes.Equal(c, sig) {
			x.reject("swapped "+what, k.pk, c, msg)
		}
	}
	o := 4 + p.IndexBytes() + p.N
	ll := (p.Len() + th) * p.N
	for l := 0; l < min(p.D, 6); l++ {
		b := o + l*ll
		for c := 0; c+1 < p.Len(); c += 1 + r.Intn(8) {
			swap("chains", b+c*p.N, b+(c+1)*p.N, p.N)
		}
		swap("checksum chains", b+(p.Len()-1)*p.N, b+(p.Len()-2)*p.N, p.N)
		for h := 0; h+1 < th; h++ {
			swap("nodes of an authentication path", b+(p.Len()+h)*p.N, b+(p.Len()+h+1)*p.N, p.N)
		}
		if l+1 < p.D {
			swap("layers", b, b+ll, ll)
			swap("one-time signatures", b, b+ll, p.Len()*p.N)
			if th > 0 {
				swap("authentication paths", b+p.Len()*p.N, b+ll+p.Len()*p.N, th*p.N)
			}
		}
	}
	swap("randomiser and chain", 4+p.IndexBytes(), o, p.N)
	// every other index
	for q := 0; q < 40; q++ {
		id := uint64(r.Int63()) >> uint(r.Intn(62))
		if q < 10 {
			id = i + uint64(q) - 5
		} else if q < 20 && p.IndexBytes()*8 > p.H {
			id = i + uint64(q-9)<<uint(p.H) // beyond the last index
		}
		c := clone(sig)
		for b := 0; b < p.IndexBytes(); b++ {
			c[4+b] = byte(id >> (8 * uint(p.IndexBytes()-1-b)))
		}
		if !bytes.Equal(c, sig) {
			x.reject("index changed", k.pk, c, msg)
		}
	}
	// other keys
	for q, s2 := range []seeds{mkSeeds(r, p.N), {s.pub, randBytes(r, p.N), s.prf}, {randBytes(r, p.N), s.sk, s.prf}} {
		if p.W == 256 && q > 0 {
			break
		}
		k2 := c05Make(p, s2, r, i)
		x.reject("another key", k2.pk, sig, msg)
		x.reject("another key's signature", k.pk, k2.sigs[0], msg)
		x.reject("another key's signature", k.pk, k2.sigs[0], k2.msgs[0])
		a, b := clone(k.pk), clone(k.pk)
		copy(a[4:4+p.N], k2.pk[4:4+p.N])
		copy(b[4+p.N:], k2.pk[4+p.N:])
		for _, m := range [][]byte{a, b} {
			if !bytes.Equal(m, k.pk) {
				x.reject("public key mixed from two", m, sig, msg)
			}
		}
		for _, f := range fs {
			c := clone(sig)
			copy(c[f.off:f.off+f.n], k2.sigs[0][f.off:f.off+f.n])
			if !bytes.Equal(c, sig) && f.name != "index" {
				x.reject("field of another key's signature: "+f.name, k.pk, c, msg)
			}
		}
	}
	sw := append(append(clone(k.pk[:4]), k.pk[4+p.N:]...), k.pk[4:4+p.N]...)
	x.reject("root and seed swapped", sw, sig, msg)
	// other parameters on one or both sides
	for v := 0; v < 1<<16; v++ {
		if v&(v-1) != 0 && v%97 != r.Intn(97) { // all single bits, some others
			continue
		}
		h := []byte{sig[0], sig[1] ^ byte(v>>14), sig[2] ^ byte(v>>6), sig[3] ^ byte(v<<2|v>>13)}
		if bytes.Equal(h, sig[:4]) {
			continue
		}
		s2 := append(clone(h), sig[4:]...)
		p2 := append(clone(h), k.pk[4:]...)
		x.reject("parameters of the signature", k.pk, s2, msg)
		x.reject("parameters of the public key", p2, sig, msg)
		if !ref.Verify(p2, s2, msg) {
			x.reject("parameters of both", p2, s2, msg)
		}
	}
	// the instances of the same sizes: parameters of both replaced
	for f := 0; f < 3; f++ {
		for prf := 0; prf < 2; prf++ {
			for _, hd := range [][2]int{{p.H, p.D}, {p.H + p.D, p.D}, {p.H - p.D, p.D}} {
				q := p
				q.Func, q.Prf, q.H, q.D = f, prf, hd[0], hd[1]
				if q == p || q.H < 0 || q.H > 63 || !q.Supported() {
					continue
				}
				p2 := append(q.Header(), k.pk[4:]...)
				s2 := append(q.Header(), sig[4:]...)
				if d := q.SigBytes() - p.SigBytes(); d > 0 {
					s2 = append(s2, make([]byte, d)...)
				} else {
					s2 = s2[:len(s2)+d]
				}
				if !ref.Verify(p2, s2, msg) {
					x.reject("reinterpreted under other parameters", p2, s2, msg)
				}
				x.reject("parameters of the signature replaced", k.pk, s2, msg)
				x.reject("parameters of the public key replaced", p2, sig, msg)
				t.Nontrivial(fmt.Sprint(p, i, "params", q))
			}
		}
	}
	x.accept(k.pk, sig, msg)
	t.Distinct("instances", p.String())
}

// c05Twin gives signatures made with the secrets, right in everything except
// for one thing that only one comparison of the verifier can notice.
func c05Twin(t *mon.T, label string, p ref.P, r *rand.Rand) {
	s := mkSeeds(r, p.N)
	k := ref.NewKey(p, s.pub, s.sk, s.prf)
	idx := uint64(r.Int63()) % p.Max()
	msg := randBytes(r, r.Intn(90))
	root, rnd := k.Root(), k.R(idx)
	pk := k.PublicKey()
	x := &tamper{t: t, label: label, p: p, kind: map[string]int{}}
	x.ok = [3][]byte{pk, k.Sign(idx, msg), msg}
	x.accept(x.ok[0], x.ok[1], x.ok[2])
	for b := 0; b < p.N && !t.Stop(); b++ {
		// the same key with a root that differs in one bit
		c := flip(root, 8*b+r.Intn(8))
		pk2 := clone(pk)
		copy(pk2[4:], c)
		x.reject(fmt.Sprintf("signature for a root that differs at byte %d", b), pk2, k.SignDigest(idx, idx, rnd, p.MsgDigest(rnd, c, idx, msg)), msg)
		t.Nontrivial(fmt.Sprint(label, "root", b))
	}
	// indices that the key does not have
	for b := p.H; b < 8*p.IndexBytes() && b < 64; b++ {
		idx2 := idx | 1<<uint(b)
		d := p.MsgDigest(rnd, root, idx2, msg)
		x.reject("index beyond the last", pk, k.SignDigest(idx2, idx, rnd, d), msg)
		x.reject("index and leaf beyond the last", pk, k.SignDigest(idx2, idx2, rnd, d), msg)
		t.Nontrivial(fmt.Sprint(label, "index", b))
	}
	if p.Max() > 1 {
		// another leaf than the index says
		idx2 := idx ^ 1<<uint(r.Intn(p.H))
		x.reject("leaf of another index", pk, k.SignDigest(idx, idx2, rnd, p.MsgDigest(rnd, root, idx, msg)), msg)
		x.reject("digest with another index", pk, k.SignDigest(idx, idx, rnd, p.MsgDigest(rnd, root, idx2, msg)), msg)
	}
	x.reject("digest with another randomiser", pk, k.SignDigest(idx, idx, rnd, p.MsgDigest(k.R(idx+1), root, idx, msg)), msg)
	x.reject("digest with another root", pk, k.SignDigest(idx, idx, rnd, p.MsgDigest(rnd, s.pub, idx, msg)), msg)
	x.accept(x.ok[0], x.ok[1], x.ok[2])
	t.Count("signatures wrong in one thing", x.n)
}

func c05Where(p ref.P, off int) string {
	for _, f := range c05Fields(p) {
		if off >= f.off && off < f.off+f.n {
			return f.name
		}
	}
	return "?"
}

type c05Field struct {
	name   string
	off, n int
}

func c05Fields(p ref.P) []c05Field {
	fs := []c05Field{{"params", 0, 4}, {"index", 4, p.IndexBytes()}, {"randomiser", 4 + p.IndexBytes(), p.N}}
	o := 4 + p.IndexBytes() + p.N
	for l := 0; l < p.D; l++ {
		fs = append(fs, c05Field{fmt.Sprintf("one-time signature %d", l), o, p.Len() * p.N})
		o += p.Len() * p.N
		if p.TreeHeight() > 0 {
			fs = append(fs, c05Field{fmt.Sprintf("authentication path %d", l), o, p.TreeHeight() * p.N})
			o += p.TreeHeight() * p.N
		}
	}
	return fs
}

// c05Concurrent: good and bad signatures checked at the same time on shared
// objects must not influence each other's verdicts.
func c05Concurrent(t *mon.T, label string, p ref.P) {
	r := t.Rng(label)
	k := c05Make(p, mkSeeds(r, p.N), r, 0, 1, 2, p.Max()-1)
	var pk xmssmt.PublicKey
	if err := pk.UnmarshalBinary(k.pk); err != nil {
		panic(libErr{err.Error()})
	}
	type item struct {
		sig *xmssmt.Signature
		msg []byte
		ok  bool
	}
	var items []item
	for i := range k.ids {
		for v := 0; v < 4; v++ {
			b, m := k.sigs[i], k.msgs[i]
			switch v {
			case 1:
				b = flip(b, 8*(4+p.IndexBytes())+r.Intn(8*(len(b)-4-p.IndexBytes())))
			case 2:
				m = append(clone(m), 1)
			case 3:
				m = k.msgs[(i+1)%len(k.msgs)]
			}
			var s xmssmt.Signature
			if err := s.UnmarshalBinary(b); err != nil {
				panic(libErr{err.Error()})
			}
			items = append(items, item{&s, m, v == 0})
		}
	}
	var wg sync.WaitGroup
	n := t.Pick(40, 400)
	for g := 0; g < 12; g++ {
		wg.Add(1)
		rr := rand.New(rand.NewSource(t.Sub(fmt.Sprint(label, g))))
		go func() {
			defer wg.Done()
			for q := 0; q < n; q++ {
				it := items[rr.Intn(len(items))]
				var ok bool
				var err xmssmt.Error
				if q%3 == 0 {
					ok, err = pk.VerifyFrom(it.sig, &chunkReader{b: clone(it.msg), next: func(int) int { return 3 }})
				} else {
					ok, err = pk.Verify(it.sig, it.msg)
				}
				if ok != it.ok || ok != (err == nil) {
					t.Violate("concurrent-verdict", label, nil, "concurrent verification gave %v (%v), expected %v", ok, err, it.ok)
				}
				t.Count("concurrent verdicts", 1)
			}
		}()
	}
	wg.Wait()
	// a reader that fails must never lead to acceptance, wherever it fails
	for i := range k.ids {
		var s xmssmt.Signature
		if err := s.UnmarshalBinary(k.sigs[i]); err != nil {
			panic(libErr{err.Error()})
		}
		for cut := 0; cut <= len(k.msgs[i]); cut++ {
			ok, err := pk.VerifyFrom(&s, &failReader{b: k.msgs[i][:cut]})
			if ok || err == nil {
				t.Violate("failing-reader-accepted", label, map[string]any{"cut": cut}, "verification over a reader failing after %d of %d bytes gave %v, %v", cut, len(k.msgs[i]), ok, err)
			}
			t.Count("failing readers", 1)
		}
		if !verify(t, label, &pk, &s, k.msgs[i]) {
			t.Violate("valid-rejected", label, nil, "the untouched signature is rejected")
		}
	}
}

// failReader delivers some bytes and then an error.
type failReader struct {
	b    []byte
	with bool // error together with the last bytes
}

var errReader = errors.New("reader failed")

func (r *failReader) Read(p []byte) (int, error) {
	n := copy(p, r.b)
	r.b = r.b[n:]
	if len(r.b) == 0 && (n == 0 || r.with) {
		return n, errReader
	}
	return n, nil
}

func runC05(t *mon.T) {
	type job struct {
		p      ref.P
		all    bool
		stride int
		name   string
	}
	var jobs []job
	// every bit
	every := []ref.P{cheap(1, 1), cheap(4, 2), cheap(6, 3), {Func: ref.SHA2, N: 16, H: 4, D: 1, W: 16}, {Func: ref.SHA2, N: 16, H: 2, D: 2, W: 4, Prf: 1}, {Func: ref.SHAKE256, N: 16, H: 4, D: 2, W: 4}, {Func: ref.SHAKE, N: 16, H: 2, D: 2, W: 16, Prf: 1}}
	for i, p := range every {
		jobs = append(jobs, job{p, true, 1, fmt.Sprintf("bits/%d/%v", i, p)})
	}
	for i, f := range families() {
		shapes := [][2]int{{4, 2}}
		if i%4 == 0 {
			shapes = append(shapes, [2]int{5, 1})
		}
		if t.Thorough() {
			shapes = append(shapes, [2]int{9, 3}, [2]int{12, 4}, [2]int{60, 20}, [2]int{5, 5}, [2]int{0, 1})
		}
		for _, sh := range shapes {
			st := t.Pick(40, 8) * f.N / 16
			if f.W == 256 {
				if !t.Thorough() && sh[0] > 1 {
					sh = [2]int{2, 1 + i%2}
				}
				st *= 8
			}
			if f.H > 10 {
				st *= 4
			}
			p := shape(f, sh[0], sh[1])
			if p.H == 0 {
				continue
			}
			jobs = append(jobs, job{p, t.Thorough() && f.N <= 24 && f.W < 256 && p.H < 10, st, fmt.Sprintf("family/%03d/%v", i, p)})
		}
	}
	for i, sh := range [][2]int{{40, 20}, {33, 11}, {62, 31}} {
		p := cheap(sh[0], sh[1])
		jobs = append(jobs, job{p, false, 100, fmt.Sprintf("tall/%d/%v", i, p)})
	}
	mon.Par(len(jobs), func(i int) {
		j := jobs[i]
		cs(t, j.name, func() { c05Tamper(t, j.name, j.p, t.Rng(j.name), j.all, j.stride) })
	})
	fams := families()
	mon.Par(len(fams), func(i int) {
		p := shape(fams[i], 4, 2)
		if p.W == 256 {
			p = shape(p, 2, 1+i%2)
		}
		for k := 0; k < t.Pick(1, 8); k++ {
			label := fmt.Sprintf("twin/%d/%v", k, p)
			cs(t, label, func() { c05Twin(t, label, p, t.Rng(label)) })
		}
	})
	t.Require("signatures wrong in one thing", 2000)
	conc := []ref.P{cheap(4, 2), {Func: ref.SHA2, N: 32, H: 4, D: 2, W: 16}, {Func: ref.SHAKE, N: 32, H: 4, D: 1, W: 4}, {Func: ref.SHAKE256, N: 64, H: 4, D: 2, W: 16, Prf: 1}}
	for i, p := range conc {
		label := fmt.Sprintf("conc/%d/%v", i, p)
		cs(t, label, func() { c05Concurrent(t, label, p) })
	}
	t.Assume = []string{"the hash functions behave: no collision was found by chance"}
	t.Require("tampered triples", 20000)
	t.Require("verified as objects", 1000)
	t.Require("concurrent verdicts", 500)
}
