package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"sync"

	"github.com/bwesterb/go-xmssmt"
	"xverif/memctr"
	"xverif/mon"
	"xverif/ref"
)

func init() {
	checks["C11"] = check{run: runC11,
		rule: "Caches of real keys are damaged (missing, cut, single bits in every field, zeroed, swapped and relabelled entries, entries of other keys and of the same seeds under other parameters, caches of earlier states, states caught in the middle of subtree generation) in the file and the memory container, and the key is loaded and used, by one signer or several at once, with and without precomputation. Watched: load result, public key, sequence number, every signature byte for byte against the reference, and that afterwards every cached subtree on the used path holds what an undamaged run stores. Non-trivial: distinct (instance, kind of damage, place) that the key survived."}
}

// c11Case is a key with a known undamaged course.
type c11Key struct {
	p    ref.P
	s    seeds
	k    *ref.Key
	mu   sync.Mutex
	sigs map[uint64][]byte
	want map[string]map[STA][]byte
}

func c11New(p ref.P, s seeds) *c11Key {
	return &c11Key{p: p, s: s, k: ref.NewKey(p, s.pub, s.sk, s.prf), sigs: map[uint64][]byte{}, want: map[string]map[STA][]byte{}}
}

func (k *c11Key) path(idx uint64) (out []STA) {
	for l := 0; l < k.p.D; l++ {
		out = append(out, STA{Layer: uint32(l), Tree: idx >> (uint(l+1) * uint(k.p.TreeHeight()))})
	}
	return
}

// pristine gives the cached subtrees of an undamaged run that ends with idx.
func (k *c11Key) pristine(idx uint64) map[STA][]byte {
	key := fmt.Sprint(idx)
	k.mu.Lock()
	defer k.mu.Unlock()
	if m, ok := k.want[key]; ok {
		return m
	}
	ctr, sk, _, _, err := loadKey(storedKey(k.p, k.s, idx))
	if err != nil {
		panic(libErr{"load: " + err.Error()})
	}
	m := signWarm(ctr, sk).Trees
	sk.Close()
	k.want[key] = m
	return m
}

// signWarm makes a signature and returns the state afterwards, with the
// subtrees it needed in the cache even if it was the last that needed them.
func signWarm(ctr *memctr.Ctr, sk *xmssmt.PrivateKey) *memctr.State {
	ctr.Keep = map[STA][]byte{}
	p := sk.Context().Params()
	if _, err := sk.Sign(nil); err != nil && uint64(sk.SeqNo()) < p.MaxSignatureSeqNo() {
		panic(libErr{"Sign: " + err.Error()})
	}
	st := ctr.Snapshot()
	for sta, b := range ctr.Keep {
		st.Trees[sta] = b
	}
	ctr.Keep = nil
	return st
}

// hookReader is an empty message that calls f when it is read.
var errEOF = io.EOF

type hookReader func()

func (h hookReader) Read([]byte) (int, error) { h(); return 0, errEOF }

// use signs n messages with a loaded key (from g goroutines) and judges
// everything it sees.
func (k *c11Key) use(t *mon.T, label, what string, detail any, sk *xmssmt.PrivateKey, pk *xmssmt.PublicKey, start uint64, n, g int, pre bool) (last uint64, ok bool) {
	bad := func(key, f string, a ...any) {
		ok = false
		t.Violate(key+":"+what, label, detail, "%v, cache damage %q: %s", k.p, what, fmt.Sprintf(f, a...))
	}
	ok = true
	if !bytes.Equal(pkBytes(pk), k.k.PublicKey()) || !bytes.Equal(pkBytes(sk.PublicKey()), k.k.PublicKey()) {
		bad("pk", "the public key changed")
		return
	}
	if uint64(sk.SeqNo()) != start {
		bad("seqno", "the sequence number is %d instead of %d", sk.SeqNo(), start)
		return
	}
	if pre {
		sk.EnableSubTreePrecomputation()
	}
	last = start
	left := int(k.p.Max() - start)
	if n > left {
		n = left
	}
	var mu sync.Mutex
	sign := func() {
		// The message depends on the index, which is known only when the
		// signature is there: sign a fixed message and compare with that.
		sig, err := sk.Sign([]byte("fixed"))
		if err != nil {
			mu.Lock()
			bad("sign", "signing failed: %v", err)
			mu.Unlock()
			return
		}
		idx := uint64(sig.SeqNo())
		got := sigBytes(sig)
		t.Count("signatures compared with the reference", 1)
		want := k.fixed(idx)
		if !bytes.Equal(got, want) {
			o := 0
			for o < len(got) && o < len(want) && got[o] == want[o] {
				o++
			}
			mu.Lock()
			bad("sig", "the signature at %d is wrong from byte %d on (%s); it verifies: %v", idx, o, c05Where(k.p, o), verify(t, label, pk, sig, []byte("fixed")))
			mu.Unlock()
		}
		mu.Lock()
		if idx > last {
			last = idx
		}
		mu.Unlock()
	}
	if g <= 1 {
		for i := 0; i < n && ok; i++ {
			sign()
		}
	} else {
		gr := &group{t: t, label: label}
		var start sync.WaitGroup
		start.Add(1)
		var mu2 sync.Mutex
		todo := n
		for i := 0; i < g; i++ {
			gr.Go(func() {
				start.Wait()
				for {
					mu2.Lock()
					todo--
					x := todo
					mu2.Unlock()
					if x < 0 {
						return
					}
					sign()
				}
			})
		}
		start.Done()
		gr.Wait()
	}
	if int(uint64(sk.SeqNo())-start) != n {
		bad("seqno", "after %d signatures from %d on the sequence number is %d", n, start, sk.SeqNo())
	}
	return
}

func (k *c11Key) fixed(idx uint64) []byte {
	k.mu.Lock()
	defer k.mu.Unlock()
	if b, ok := k.sigs[idx]; ok {
		return b
	}
	b := k.k.Sign(idx, []byte("fixed"))
	k.sigs[idx] = b
	return b
}

func runC11(t *mon.T) {
	n := t.Pick(56, 500)
	mon.Par(n, func(i int) {
		l := fmt.Sprintf("mem/%d", i)
		cs(t, l, func() { c11Mem(t, l, i) })
	})
	n = t.Pick(48, 400)
	mon.Par(n, func(i int) {
		l := fmt.Sprintf("fs/%d", i)
		cs(t, l, func() { c11FS(t, l, i) })
	})
	n = t.Pick(40, 400)
	mon.Par(n, func(i int) {
		l := fmt.Sprintf("caught/%d", i)
		cs(t, l, func() { c11Caught(t, l, i) })
	})
	n = t.Pick(40, 300)
	mon.Par(n, func(i int) {
		l := fmt.Sprintf("overwritten/%d", i)
		cs(t, l, func() { c11Overwritten(t, l, i) })
	})
	t.Require("damaged caches survived", 1000)
	t.Require("cached subtrees found repaired", 500)
}

var c11Shapes = []ref.P{
	cheap(4, 2), cheap(6, 3), cheap(3, 1), cheap(6, 2), cheap(4, 4),
	{Func: ref.SHA2, N: 32, H: 4, D: 2, W: 16, Prf: ref.RFC},
	{Func: ref.SHAKE256, N: 24, H: 4, D: 2, W: 16, Prf: ref.NIST},
	{Func: ref.SHAKE, N: 64, H: 3, D: 3, W: 4, Prf: ref.RFC},
	cheap(7, 1), // one subtree of more than a page
}

// related gives seeds and parameters of a key that could be confused with k.
func (k *c11Key) related(r *rand.Rand, kind int) *c11Key {
	q, s := k.p, seeds{clone(k.s.pub), clone(k.s.sk), clone(k.s.prf)}
	switch kind % 5 {
	case 0:
		s = mkSeeds(r, q.N)
	case 1:
		q.Func = (q.Func + 1 + r.Intn(2)) % 3
	case 2:
		q.Prf = 1 - q.Prf
	case 3:
		s.sk = randBytes(r, q.N)
	case 4:
		s.pub = randBytes(r, q.N)
	}
	return c11New(q, s)
}

// treesAt gives the cache of k loaded at idx with n signatures made.
func (k *c11Key) treesAt(idx uint64, n int) map[STA][]byte {
	ctr, sk, _, _, err := loadKey(storedKey(k.p, k.s, idx))
	if err != nil {
		panic(libErr{"load: " + err.Error()})
	}
	for i := 0; i < n && uint64(sk.SeqNo()) < k.p.Max(); i++ {
		if _, err := sk.Sign([]byte("x")); err != nil {
			panic(libErr{"Sign: " + err.Error()})
		}
	}
	sk.Close()
	return ctr.Snapshot().Trees
}

func sortedSTAs(m map[STA][]byte) (out []STA) {
	for s := range m {
		out = append(out, s)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].Layer != out[j].Layer {
			return out[i].Layer < out[j].Layer
		}
		return out[i].Tree < out[j].Tree
	})
	return
}

// field names the part of a cached subtree a byte belongs to.
func (k *c11Key) field(off, size int) string {
	tree := (2<<uint(k.p.TreeHeight()) - 1) * k.p.N
	switch {
	case off >= size-8:
		return "checksum"
	case off < tree:
		if off >= tree-k.p.N {
			return "root"
		}
		if off < (1<<uint(k.p.TreeHeight()))*k.p.N {
			return "leaf"
		}
		return "node"
	}
	return "wots"
}

// same compares cached subtrees; the root has no signature above it, so the
// space for that (and with it the checksum) is arbitrary.
func (k *c11Key) same(s STA, a, b []byte) bool {
	if int(s.Layer) == k.p.D-1 {
		n := (2<<uint(k.p.TreeHeight()) - 1) * k.p.N
		return len(a) == len(b) && bytes.Equal(a[:n], b[:n])
	}
	return bytes.Equal(a, b)
}

type damage struct {
	what string
	f    func(m map[STA][]byte)
}

// damages lists what is done to the entries of a cache.
func (k *c11Key) damages(r *rand.Rand, m map[STA][]byte, start uint64) (out []damage) {
	add := func(what string, f func(m map[STA][]byte)) { out = append(out, damage{what, f}) }
	stas := sortedSTAs(m)
	add("nothing", func(map[STA][]byte) {})
	add("all entries missing", func(m map[STA][]byte) {
		for _, s := range stas {
			delete(m, s)
		}
	})
	for _, s := range stas {
		s := s
		nm := fmt.Sprintf("layer %d", s.Layer)
		add("missing "+nm, func(m map[STA][]byte) { delete(m, s) })
		add("zeroed "+nm, func(m map[STA][]byte) { clear(m[s]) })
		add("ones "+nm, func(m map[STA][]byte) {
			for i := range m[s] {
				m[s][i] = 0xff
			}
		})
		size := len(m[s])
		// one bit in every field, and random places
		tree := (2<<uint(k.p.TreeHeight()) - 1) * k.p.N
		places := []int{0, k.p.N, (1 << uint(k.p.TreeHeight())) * k.p.N, tree - k.p.N, tree - 1, tree, tree + k.p.N*(k.p.Len()-1), size - 9, size - 8, size - 1}
		for i := 0; i < 6; i++ {
			places = append(places, r.Intn(size))
		}
		for _, o := range places {
			o := o
			if o < 0 || o >= size {
				continue
			}
			bit := byte(1) << uint(r.Intn(8))
			add("bit in "+k.field(o, size)+" "+nm, func(m map[STA][]byte) { m[s][o] ^= bit })
		}
		// half-written by a crash: only a prefix reached the disk
		for _, c := range []int{k.p.N, tree / 2, tree, size - 8, size - 4} {
			c := c
			add("tail lost "+nm, func(m map[STA][]byte) { clear(m[s][min(c, size):]) })
			add("head lost "+nm, func(m map[STA][]byte) { clear(m[s][:min(c, size)]) })
		}
		for _, o := range stas {
			o := o
			if o != s {
				add("swapped "+nm, func(m map[STA][]byte) { m[s], m[o] = m[o], m[s] })
				add("copied over "+nm, func(m map[STA][]byte) { copy(m[s], m[o]) })
			}
		}
		// relabelled: the neighbour's address, another layer's
		for _, to := range []STA{{s.Layer, s.Tree + 1}, {s.Layer, s.Tree ^ 1}, {s.Layer + 1, s.Tree}, {s.Layer + 1, s.Tree >> uint(k.p.TreeHeight())}, {0, s.Tree}, {s.Layer + 100, s.Tree}, {s.Layer, 1 << 63}, {0xffffffff, ^uint64(0)}} {
			to := to
			add(fmt.Sprintf("relabelled %s as layer+%d tree+%d", nm, int64(to.Layer)-int64(s.Layer), int64(to.Tree-s.Tree)), func(m map[STA][]byte) {
				b := m[s]
				delete(m, s)
				m[to] = b
			})
		}
	}
	// entries of other keys
	for kind := 0; kind < 5; kind++ {
		o := k.related(r, kind)
		om := o.treesAt(start, 1)
		what := []string{"other seeds", "other hash", "other prf", "other secret seed", "other public seed"}[kind]
		add("entries of a key with "+what, func(m map[STA][]byte) {
			for s := range m {
				if b, ok := om[s]; ok && len(b) == len(m[s]) {
					copy(m[s], b)
				}
			}
		})
		add("bottom entry of a key with "+what, func(m map[STA][]byte) {
			for s := range m {
				if b, ok := om[s]; ok && len(b) == len(m[s]) && s.Layer == 0 {
					copy(m[s], b)
				}
			}
		})
	}
	// left over from other states of the same key
	for _, at := range []uint64{0, uint64(r.Int63()) % k.p.Max()} {
		om := k.treesAt(at, 1)
		add("entries of another state", func(m map[STA][]byte) {
			for s := range m {
				delete(m, s)
			}
			for s, b := range om {
				m[s] = clone(b)
			}
		})
		add("additional entries of another state", func(m map[STA][]byte) {
			for s, b := range om {
				if _, ok := m[s]; !ok {
					m[s] = clone(b)
				}
			}
		})
	}
	add("junk entries", func(m map[STA][]byte) {
		for i := 0; i < 5; i++ {
			m[STA{uint32(r.Intn(8)), uint64(r.Intn(1 << uint(k.p.H)))}] = randBytes(r, fromRefSize(k.p))
		}
	})
	add("several damaged", func(m map[STA][]byte) {
		for _, s := range sortedSTAs(m) {
			m[s][r.Intn(len(m[s]))] ^= byte(1 + r.Intn(255))
		}
	})
	return
}

func fromRefSize(p ref.P) int { q := fromRef(p); return q.CachedSubTreeSize() }

// startFor picks a sequence number worth starting from.
func startFor(r *rand.Rand, p ref.P, i int) uint64 {
	th := uint(p.TreeHeight())
	max := p.Max()
	var s uint64
	switch i % 4 {
	case 0:
		s = 0
	case 1:
		s = 1<<th - 1 // last of the first bottom subtree
	case 2:
		s = uint64(r.Int63()) % max
	case 3:
		s = 1 << th // first of the second
	}
	if s >= max {
		s = max - 1
	}
	return s
}

func c11Mem(t *mon.T, label string, i int) {
	r := t.Rng(label)
	p := c11Shapes[i%len(c11Shapes)]
	k := c11New(p, mkSeeds(r, p.N))
	start := startFor(r, p, i/len(c11Shapes))
	base := storedKey(p, k.s, start)
	base.CacheInit = true
	base.Trees = k.treesAt(start, 1)
	// what an undamaged container at start holds
	for s, b := range k.pristine(start) {
		base.Trees[s] = b
	}
	n := 2
	if p.W != 256 && i%3 == 0 {
		n = 1<<uint(p.TreeHeight()) + 2
	}
	for di, d := range k.damages(r, base.Trees, start) {
		if t.Stop() {
			return
		}
		st := base.Clone()
		d.f(st.Trees)
		conc := []int{1, 1, 4, 8}[(i+di)%4]
		pre := (i+di)%3 == 0
		k.load(t, label, d.what, st, start, n, conc, pre)
	}
}

// load loads a stored state, uses it, and looks at what is cached afterwards.
func (k *c11Key) load(t *mon.T, label, what string, st *memctr.State, start uint64, n, conc int, pre bool) {
	t.Eval(1)
	ctr := memctr.From(st)
	ctr.Broken = func(w string) { t.Violate("contract:"+w, label, nil, "%s", w) }
	detail := map[string]any{"damage": what, "start": start, "params": k.p.String(), "seeds": fmt.Sprintf("%x %x %x", k.s.pub, k.s.sk, k.s.prf)}
	borrowed := st.Borrowed
	sk, pk, lost, err := xmssmt.LoadPrivateKeyFrom(ctr)
	if err != nil {
		t.Violate("load:"+what, label, detail, "%v, cache damage %q: loading failed: %v", k.p, what, err)
		return
	}
	if lost != borrowed {
		t.Violate("lost:"+what, label, detail, "%v, cache damage %q: %d lost signatures reported instead of %d", k.p, what, lost, borrowed)
	}
	last, ok := k.use(t, label, what, detail, sk, pk, start, n, conc, pre)
	if !ok {
		sk.Close()
		return
	}
	// Look at the subtrees of the next signature once it was made.
	idx := last + 1
	if start == k.p.Max() {
		idx = start
	}
	if idx < k.p.Max() {
		ctr.Keep = map[STA][]byte{}
		sig, err := sk.Sign(nil)
		m := ctr.Snapshot().Trees
		for s, b := range ctr.Keep {
			m[s] = b
		}
		if err != nil {
			t.Violate("sign:"+what, label, detail, "%v, cache damage %q: signing failed: %v", k.p, what, err)
		} else if uint64(sig.SeqNo()) == idx {
			want := k.pristine(idx)
			for _, s := range k.path(idx) {
				if b, ok := m[s]; ok {
					t.Count("cached subtrees found repaired", 1)
					if !k.same(s, b, want[s]) {
						t.Violate("not-repaired:"+what, label, detail, "%v, cache damage %q: after signing with it, the cached subtree %v still holds wrong bytes", k.p, what, s)
					}
				}
			}
		}
	}
	if err := sk.Close(); err != nil {
		t.Violate("close:"+what, label, detail, "%v, cache damage %q: closing failed: %v", k.p, what, err)
	}
	// And once more.
	ctr2 := memctr.From(ctr.Snapshot())
	sk2, pk2, lost, err := xmssmt.LoadPrivateKeyFrom(ctr2)
	if err != nil || lost != 0 || !bytes.Equal(pkBytes(pk2), k.k.PublicKey()) {
		t.Violate("reload:"+what, label, detail, "%v, cache damage %q: the reload gives lost=%d, error %v or another public key", k.p, what, lost, err)
		return
	}
	if uint64(sk2.SeqNo()) < k.p.Max() {
		sig, err := sk2.Sign([]byte("fixed"))
		if err != nil || !bytes.Equal(sigBytes(sig), k.fixed(uint64(sig.SeqNo()))) {
			t.Violate("reload-sig:"+what, label, detail, "%v, cache damage %q: the signature after the reload is wrong (%v)", k.p, what, err)
		}
	}
	sk2.Close()
	t.Count("damaged caches survived", 1)
	t.Nontrivial(fmt.Sprint("mem", k.p, what, start, conc, pre))
	t.Distinct("kinds of damage", what)
}

// c11Caught takes states in the middle of whatever the library is doing and
// loads them.
func c11Caught(t *mon.T, label string, i int) {
	r := t.Rng(label)
	p := c11Shapes[i%len(c11Shapes)]
	k := c11New(p, mkSeeds(r, p.N))
	start := startFor(r, p, i/len(c11Shapes))
	base := storedKey(p, k.s, start)
	ctr := memctr.From(base)
	type caught struct {
		st *memctr.State
		op string
	}
	var snaps []caught
	n := 0
	ctr.OnCall = func(op string, sta STA, arg uint64, exists bool) {
		n++
		if op != "GetSubTree" || !exists || n%3 == 0 {
			if len(snaps) < 40 {
				snaps = append(snaps, caught{ctr.Snapshot(), op})
			}
		}
	}
	sk, _, _, err := xmssmt.LoadPrivateKeyFrom(ctr)
	if err != nil {
		panic(libErr{"load: " + err.Error()})
	}
	if i%2 == 0 {
		sk.EnableSubTreePrecomputation()
	}
	steps := 1<<uint(p.TreeHeight()) + 2
	if p.N == 64 {
		steps = 3
	}
	for j := 0; j < steps && uint64(sk.SeqNo()) < p.Max(); j++ {
		if j == 1 && i%3 == 0 {
			sk.BorrowExactly(3)
		}
		if _, err := sk.Sign([]byte("x")); err != nil {
			panic(libErr{"Sign: " + err.Error()})
		}
	}
	sk.Close()
	for si, s := range snaps {
		if t.Stop() {
			return
		}
		if !s.st.CacheInit {
			s.st.Trees = nil
		}
		if s.st.SeqNo >= p.Max() {
			continue
		}
		k.load(t, label, "caught after "+s.op, s.st, s.st.SeqNo, 2, []int{1, 4}[si%2], si%3 == 1)
		// Parts of what was being written may have reached the disk.
		if si%4 == 0 {
			st := s.st.Clone()
			st.SeqNo, st.Borrowed = s.st.SeqNo, s.st.Borrowed
			for _, b := range st.Trees {
				if c := r.Intn(len(b)); r.Intn(2) == 0 {
					clear(b[c:])
				} else {
					clear(b[:c])
				}
			}
			k.load(t, label, "caught and half-written", st, st.SeqNo, 2, 1, false)
		}
	}
}

// c11Overwritten derives a key into a container that holds another.
func c11Overwritten(t *mon.T, label string, i int) {
	r := t.Rng(label)
	p := c11Shapes[i%len(c11Shapes)]
	k := c11New(p, mkSeeds(r, p.N))
	o := k.related(r, i/len(c11Shapes))
	if i%7 == 0 { // another shape altogether
		o = c11New(c11Shapes[(i+1)%len(c11Shapes)], mkSeeds(r, c11Shapes[(i+1)%len(c11Shapes)].N))
	}
	dir := scratchDir("c11o")
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "key")
	osk, _, err := mustCtx(o.p).Derive(path, clone(o.s.pub), clone(o.s.sk), clone(o.s.prf))
	if err != nil {
		panic(libErr{"Derive: " + err.Error()})
	}
	for j := 0; j < 3 && uint64(osk.SeqNo()) < o.p.Max(); j++ {
		osk.Sign([]byte("x"))
	}
	osk.Close()
	old, _ := os.ReadFile(path + ".cache")
	detail := map[string]any{"old": o.p.String(), "new": k.p.String()}
	sk, pk, err := mustCtx(p).Derive(path, clone(k.s.pub), clone(k.s.sk), clone(k.s.prf))
	if err != nil {
		t.Violate("overwrite", label, detail, "deriving %v over a key of %v failed: %v", p, o.p, err)
		return
	}
	last, ok := k.use(t, label, "overwritten key", detail, sk, pk, 0, 2, 1, i%2 == 0)
	sk.Close()
	if !ok {
		return
	}
	_ = last
	// A crash before the new cache was there leaves the old one.
	os.WriteFile(path+".cache", old, 0600)
	sk2, pk2, lost, err := xmssmt.LoadPrivateKey(path)
	if err != nil || lost != 0 {
		t.Violate("load:overwritten", label, detail, "a key of %v with the cache of the overwritten one of %v does not load: %v (lost %d)", p, o.p, err, lost)
		return
	}
	k.use(t, label, "cache of the overwritten key", detail, sk2, pk2, 2, 3, 1+i%2*3, i%3 == 0)
	sk2.Close()
	t.Count("overwritten keys", 1)
	t.Nontrivial(fmt.Sprint("overwritten", p, o.p, i))
}

// slots parses a cache file: offset of each slot, and the slot size.
func c11Slots(p ref.P, b []byte) (offs []int, size int) {
	if len(b) < 17 {
		return nil, 0
	}
	n := int(binary.BigEndian.Uint32(b[8:]))
	al := int(binary.BigEndian.Uint32(b[13:]))
	if al == 0 {
		al = 4096
	}
	size = (fromRefSize(p) + 13 + al - 1) / al * al
	for i := 0; i < n && al+(i+1)*size <= len(b); i++ {
		offs = append(offs, al+i*size)
	}
	return
}

func c11FS(t *mon.T, label string, i int) {
	r := t.Rng(label)
	p := c11Shapes[i%len(c11Shapes)]
	k := c11New(p, mkSeeds(r, p.N))
	dir := scratchDir("c11")
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "key")
	sk, _, err := mustCtx(p).Derive(path, clone(k.s.pub), clone(k.s.sk), clone(k.s.prf))
	if err != nil {
		panic(libErr{"Derive: " + err.Error()})
	}
	if i%2 == 0 {
		sk.EnableSubTreePrecomputation()
	}
	start := startFor(r, p, i/len(c11Shapes))
	if start > 20 {
		start = 20
	}
	var earlier []byte
	for uint64(sk.SeqNo()) < start {
		if _, err := sk.Sign([]byte("x")); err != nil {
			panic(libErr{"Sign: " + err.Error()})
		}
		if earlier == nil {
			earlier, _ = os.ReadFile(path + ".cache")
		}
	}
	if err := sk.Close(); err != nil {
		panic(libErr{"Close: " + err.Error()})
	}
	keyb, _ := os.ReadFile(path)
	cache, _ := os.ReadFile(path + ".cache")
	offs, size := c11Slots(p, cache)
	rel := k.related(r, i)
	relPath := filepath.Join(dir, "rel")
	rsk, _, err := mustCtx(rel.p).Derive(relPath, clone(rel.s.pub), clone(rel.s.sk), clone(rel.s.prf))
	if err != nil {
		panic(libErr{"Derive: " + err.Error()})
	}
	rsk.Close()
	relCache, _ := os.ReadFile(relPath + ".cache")

	run := func(what string, c []byte, put func()) {
		if t.Stop() {
			return
		}
		t.Eval(1)
		os.RemoveAll(path + ".cache")
		os.WriteFile(path, keyb, 0600)
		if put != nil {
			put()
		} else if c != nil {
			os.WriteFile(path+".cache", c, 0600)
		}
		detail := map[string]any{"damage": what, "start": start, "cache": mon.Hex(c), "seeds": fmt.Sprintf("%x %x %x", k.s.pub, k.s.sk, k.s.prf)}
		sk, pk, lost, err := xmssmt.LoadPrivateKey(path)
		if err != nil || lost != 0 {
			t.Violate("load:"+what, label, detail, "%v, cache file %q: loading gives lost=%d, error %v", p, what, lost, err)
			return
		}
		last, ok := k.use(t, label, what, detail, sk, pk, start, 2, []int{1, 1, 4}[r.Intn(3)], r.Intn(3) == 0)
		if err := sk.Close(); err != nil {
			t.Violate("close:"+what, label, detail, "%v, cache file %q: closing failed: %v", p, what, err)
		}
		if !ok {
			return
		}
		sk, pk, lost, err = xmssmt.LoadPrivateKey(path)
		if err != nil || lost != 0 {
			t.Violate("reload:"+what, label, detail, "%v, cache file %q: the reload gives lost=%d, error %v", p, what, lost, err)
			return
		}
		next := uint64(sk.SeqNo())
		k.use(t, label, what+", reloaded", detail, sk, pk, last+1, 1, 1, false)
		sk.Close()
		// What is on disk now for the path that was used is right.
		if next+1 < p.Max() {
			ctr, err := xmssmt.OpenFSPrivateKeyContainer(path)
			if err != nil {
				t.Violate("reopen:"+what, label, detail, "%v, cache file %q: opening the container afterwards: %v", p, what, err)
				return
			}
			if ctr.CacheInitialized() {
				want := k.pristine(next)
				still := k.path(next + 1)
				for l, s := range k.path(next) {
					if s != still[l] || !ctr.HasSubTree(s) {
						continue
					}
					b, ex, err := ctr.GetSubTree(s)
					if err != nil || !ex || !k.same(s, b[:len(want[s])], want[s]) {
						t.Violate("not-repaired:"+what, label, detail, "%v, cache file %q: after signing with it, the cached subtree %v on disk still holds wrong bytes (%v)", p, what, s, err)
					} else {
						t.Count("cached subtrees found repaired", 1)
					}
				}
			} else {
				t.Violate("not-repaired:"+what, label, detail, "%v, cache file %q: the cache on disk is still unusable", p, what)
			}
			ctr.Close()
		}
		t.Count("damaged caches survived", 1)
		t.Nontrivial(fmt.Sprint("fs", p, what, start))
		t.Distinct("kinds of damage", what)
	}
	mut := func(what string, f func(c []byte) []byte) { run(what, f(clone(cache)), nil) }
	put32 := func(what string, o int, v uint32) {
		mut(what, func(c []byte) []byte { binary.BigEndian.PutUint32(c[o:], v); return c })
	}
	run("intact", cache, nil)
	run("missing", nil, func() {})
	run("empty", []byte{}, nil)
	run("a directory", nil, func() { os.Mkdir(path+".cache", 0700); os.RemoveAll(path + ".cache") })
	cuts := []int{1, 8, 11, 12, 13, 16, 17, 18, 4095, 4096, 4097, 4096 + 12, 4096 + 13, len(cache) - 1, len(cache) - 8, len(cache) - 4096, len(cache) - size, r.Intn(len(cache))}
	for n := 8192; n < len(cache) && n < 8*4096; n += 4096 {
		cuts = append(cuts, n)
	}
	for _, n := range cuts {
		if n > 0 && n < len(cache) {
			run(fmt.Sprintf("cut to %d", n), cache[:n], nil)
		}
	}
	mut("extended", func(c []byte) []byte { return append(c, randBytes(r, r.Intn(9000))...) })
	mut("bad magic", func(c []byte) []byte { c[r.Intn(8)] ^= 1 << uint(r.Intn(8)); return c })
	mut("old format", func(c []byte) []byte {
		copy(c, []byte{0xe7, 0x79, 0x57, 0x60, 0x7e, 0xf7, 0x94, 0x46})
		c[12] = 0
		return c
	})
	mut("old magic, new version", func(c []byte) []byte { copy(c, []byte{0xe7, 0x79, 0x57, 0x60, 0x7e, 0xf7, 0x94, 0x46}); return c })
	for v := 0; v < 4; v++ {
		mut("version", func(c []byte) []byte { c[12] = byte(v * 85); return c })
	}
	for _, v := range []uint32{0, 1, uint32(len(offs)) - 1, uint32(len(offs)) + 1, 1 << 16, 1 << 31, 1<<32 - 1} {
		put32(fmt.Sprintf("%d slots declared (really %d)", v, len(offs)), 8, v)
	}
	for _, v := range []uint32{0, 1, 2, 512, 4095, 4097, 8192, 1 << 20, 1 << 31, 1<<32 - 1} {
		put32(fmt.Sprintf("alignment %d", v), 13, v)
	}
	run("of a related key", relCache, nil)
	if earlier != nil {
		run("of an earlier state", earlier, nil)
	}
	mut("random contents", func(c []byte) []byte { return randBytes(r, len(c)) })
	mut("random slots", func(c []byte) []byte { copy(c[4096:], randBytes(r, len(c))); return c })
	mut("zeros", func(c []byte) []byte { return make([]byte, len(c)) })
	bodyLen := fromRefSize(p)
	for j, o := range offs {
		o := o
		mut("slot freed", func(c []byte) []byte { c[o] = 0; return c })
		mut("slot flag", func(c []byte) []byte { c[o] = byte(r.Intn(256)); return c })
		mut("slot zeroed", func(c []byte) []byte { clear(c[o : o+size]); return c })
		mut("slot contents zeroed", func(c []byte) []byte { clear(c[o+13 : o+size]); return c })
		mut("slot layer", func(c []byte) []byte { c[o+1+r.Intn(4)] ^= 1 << uint(r.Intn(8)); return c })
		mut("slot tree", func(c []byte) []byte { c[o+5+r.Intn(8)] ^= 1 << uint(r.Intn(8)); return c })
		mut("slot address random", func(c []byte) []byte { copy(c[o+1:o+13], randBytes(r, 12)); return c })
		for x := 0; x < 6; x++ {
			off := r.Intn(bodyLen)
			mut("bit in "+k.field(off, bodyLen), func(c []byte) []byte { c[o+13+off] ^= 1 << uint(r.Intn(8)); return c })
		}
		mut("checksum", func(c []byte) []byte { c[o+13+bodyLen-1-r.Intn(8)] ^= 1 << uint(r.Intn(8)); return c })
		if len(offs) > 1 {
			q := offs[(j+1+r.Intn(len(offs)-1))%len(offs)]
			if q != o {
				mut("slots swapped", func(c []byte) []byte {
					x := clone(c[o : o+size])
					copy(c[o:o+size], c[q:q+size])
					copy(c[q:q+size], x)
					return c
				})
				mut("slot contents swapped", func(c []byte) []byte {
					x := clone(c[o+13 : o+size])
					copy(c[o+13:o+size], c[q+13:q+size])
					copy(c[q+13:q+size], x)
					return c
				})
				mut("slot addresses swapped", func(c []byte) []byte {
					x := clone(c[o : o+13])
					copy(c[o:o+13], c[q:q+13])
					copy(c[q:q+13], x)
					return c
				})
				mut("slot duplicated", func(c []byte) []byte { copy(c[o:o+size], c[q:q+size]); return c })
				mut("address duplicated", func(c []byte) []byte { copy(c[o:o+13], c[q:q+13]); return c })
			}
		}
		if len(relCache) >= o+size {
			mut("slot of a related key", func(c []byte) []byte { copy(c[o:o+size], relCache[o:o+size]); return c })
		}
	}
}
