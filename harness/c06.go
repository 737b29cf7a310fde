package main

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"
	"sync"

	"github.com/bwesterb/go-xmssmt"
	"xverif/mon"
	"xverif/ref"
)

func init() {
	checks["C06"] = check{run: runC06,
		rule: "For every family, messages are searched for (by hashing) whose digests have extreme or carry-crossing digit sums; the library signs them at one index and a monitor knowing the one-time secrets reads off the chain positions every one-time signature reveals, on every layer. Judged: the positions encode the digest, and no larger digit sum has checksum positions at or below those of a smaller one (exactly the condition for positions of different digests to be incomparable). The verifier is known to use the same positions because it accepts. Forgeries by advancing chains are attempted. Non-trivial: distinct (family, digit sum) pairs observed."}
}

// observe finds the positions a one-time signature reveals.
func observe(k *ref.Key, layer uint32, tree uint64, leaf uint32, wots [][]byte) ([]int, int) {
	p := k.P
	out := make([]int, len(wots))
	for c := range wots {
		x := k.OneTimeSecret(layer, tree, leaf, c)
		a := p.ChainAdrs(layer, tree, leaf, c)
		pos := 0
		for ; pos < p.W; pos++ {
			if bytes.Equal(x, wots[c]) {
				break
			}
			if pos < p.W-1 {
				x = p.Chain(x, pos, 1, k.PubSeed, a)
			}
		}
		if pos == p.W {
			return nil, c
		}
		out[c] = pos
	}
	return out, -1
}

type sumObs struct {
	sum  int
	pos  []int
	what string
}

type posMonitor struct {
	t     *mon.T
	label string
	p     ref.P
	mu    sync.Mutex
	seen  []sumObs
}

// add judges one observed one-time signature on a digest.
func (m *posMonitor) add(digest []byte, pos []int, what string) {
	p := m.p
	lw := uint(p.LogW())
	if len(pos) != p.Len() {
		m.t.Violate("chains:"+famKey(p), m.label, nil, "%s: %d chains, expected %d", what, len(pos), p.Len())
		return
	}
	v := new(big.Int)
	sum := 0
	for _, d := range pos[:p.Len1()] {
		v.Lsh(v, lw).Or(v, big.NewInt(int64(d)))
		sum += p.W - 1 - d
	}
	if v.Cmp(new(big.Int).SetBytes(digest)) != 0 {
		m.t.Violate("digits:"+famKey(p), m.label, map[string]any{"digest": fmt.Sprintf("%x", digest), "positions": pos},
			"%v: %s: the revealed positions encode %x instead of the digest %x", p, what, v, digest)
	}
	m.t.Count("one-time signatures observed", 1)
	m.t.Nontrivial(fmt.Sprint(famKey(p), sum))
	m.mu.Lock()
	defer m.mu.Unlock()
	m.seen = append(m.seen, sumObs{sum, clonei(pos), what})
}

func clonei(x []int) []int { return append([]int(nil), x...) }

func leq(a, b []int) bool {
	for i := range a {
		if a[i] > b[i] {
			return false
		}
	}
	return true
}

// judge compares all observations pairwise.
func (m *posMonitor) judge() {
	p := m.p
	s := m.seen
	sort.SliceStable(s, func(i, j int) bool { return s[i].sum < s[j].sum })
	pairs := 0
	for i := range s {
		for j := range s[:i] {
			pairs++
			// s[i] has the larger (or equal) sum
			if s[i].sum > s[j].sum && leq(s[i].pos[p.Len1():], s[j].pos[p.Len1():]) {
				m.t.Violate("checksum:"+famKey(p), m.label, map[string]any{"a": s[i].what, "positions_a": s[i].pos, "b": s[j].what, "positions_b": s[j].pos},
					"%v: digit sum %d has checksum positions %v, not above those of digit sum %d, %v: digests with these sums can be comparable", p,
					s[i].sum, s[i].pos[p.Len1():], s[j].sum, s[j].pos[p.Len1():])
				return
			}
			if leq(s[i].pos, s[j].pos) && !leq(s[j].pos, s[i].pos) || leq(s[j].pos, s[i].pos) && !leq(s[i].pos, s[j].pos) {
				m.t.Violate("comparable:"+famKey(p), m.label, map[string]any{"a": s[i], "b": s[j]}, "%v: the positions of %s and %s are comparable", p, s[i].what, s[j].what)
				return
			}
		}
	}
	m.t.Count("pairs of observations compared", pairs)
}

// c06Family observes one family at one index.
func c06Family(t *mon.T, label string, p ref.P, search, want int) {
	r := t.Rng(label)
	s := mkSeeds(r, p.N)
	k := ref.NewKey(p, s.pub, s.sk, s.prf)
	idx := uint64(r.Int63()) % p.Max()
	_, sk, pk, _, err := loadKey(storedKey(p, s, idx))
	if err != nil {
		panic(libErr{"load: " + err.Error()})
	}
	defer sk.Close()
	root := k.Root()
	rnd := k.R(idx)
	// search for digests with many different digit sums
	type cand struct {
		msg []byte
		dig []byte
		sum int
	}
	bySum := map[int]cand{}
	pre := randBytes(r, 8)
	for i := 0; i < search; i++ {
		msg := append(clone(pre), byte(i>>24), byte(i>>16), byte(i>>8), byte(i))
		d := p.MsgDigest(rnd, root, idx, msg)
		sum := digitSum(p, d)
		if _, ok := bySum[sum]; !ok {
			bySum[sum] = cand{msg, d, sum}
		}
	}
	var cs []cand
	for _, c := range bySum {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].sum < cs[j].sum })
	lo, hi := cs[0].sum, cs[len(cs)-1].sum
	// prefer the ends and the carries of the checksum digits
	prio := func(i int) int {
		c := cs[i]
		if i < 3 || i >= len(cs)-3 {
			return 0
		}
		x := c.sum
		for d := 0; d < p.Len2()-1; d++ {
			x /= p.W
		}
		for q := p.W; q <= hi; q *= p.W {
			if c.sum%q == 0 || c.sum%q == q-1 {
				return 1
			}
		}
		if c.sum%p.W < 2 {
			return 2
		}
		return 3 + r.Intn(4)
	}
	type pc struct{ pr, i int }
	var order []pc
	for i := range cs {
		order = append(order, pc{prio(i), i})
	}
	sort.SliceStable(order, func(i, j int) bool { return order[i].pr < order[j].pr })
	if len(order) > want {
		order = order[:want]
	}
	m := &posMonitor{t: t, label: label, p: p}
	th := uint(p.TreeHeight())
	for n, o := range order {
		c := cs[o.i]
		sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(idx))
		sig, err := sk.Sign(c.msg)
		if err != nil {
			t.Violate("sign", label, nil, "Sign: %v", err)
			return
		}
		if !verify(t, label, pk, sig, c.msg) {
			t.Violate("rejected", label, nil, "the library rejects its own signature, so the verifier's positions are unknown")
			return
		}
		ps, ok := ref.ParseSig(sigBytes(sig))
		if !ok {
			t.Violate("unparsable", label, nil, "the signature of %v does not have the specified layout", p)
			return
		}
		layers := 1
		if n == 0 {
			layers = p.D
		}
		digest, rest := c.dig, idx
		for l := 0; l < layers; l++ {
			leaf := uint32(rest & (1<<th - 1))
			rest >>= th
			pos, bad := observe(k, uint32(l), rest, leaf, ps.Wots[l])
			if pos == nil {
				t.Violate("not-on-chain:"+famKey(p), label, map[string]any{"layer": l, "chain": bad}, "%v: chain %d of the one-time signature on layer %d reveals no position of its chain", p, bad, l)
				return
			}
			m.add(digest, pos, fmt.Sprintf("index %d layer %d message %x", idx, l, c.msg))
			t.Count("layers observed", 1)
			tr := k.Tree(uint32(l), rest)
			digest = tr[th][0]
		}
	}
	m.judge()
	t.Distinct("families", famKey(p))
	t.Note("sums "+famKey(p), fmt.Sprintf("%d sums in [%d, %d] of max %d", len(order), lo, hi, p.Len1()*(p.W-1)))
}

func digitSum(p ref.P, d []byte) int {
	s := 0
	lw := uint(p.LogW())
	for _, b := range d {
		for sh := uint(0); sh < 8; sh += lw {
			s += p.W - 1 - int(b>>sh)&(p.W-1)
		}
	}
	return s
}

// c06Upper observes many one-time signatures on the upper layers (they sign
// roots of subtrees, so every subtree gives another digest).
func c06Upper(t *mon.T, label string, p ref.P, n int) {
	r := t.Rng(label)
	s := mkSeeds(r, p.N)
	k := ref.NewKey(p, s.pub, s.sk, s.prf)
	m := &posMonitor{t: t, label: label, p: p}
	_, sk, pk, _, err := loadKey(storedKey(p, s, 0))
	if err != nil {
		panic(libErr{"load: " + err.Error()})
	}
	defer sk.Close()
	th := uint(p.TreeHeight())
	for i := 0; i < n; i++ {
		idx := uint64(r.Int63()) % p.Max()
		sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(idx))
		sig, err := sk.Sign([]byte("m"))
		if err != nil {
			t.Violate("sign", label, nil, "Sign: %v", err)
			return
		}
		if !verify(t, label, pk, sig, []byte("m")) {
			t.Violate("rejected", label, nil, "the library rejects its own signature at %d", idx)
			return
		}
		ps, ok := ref.ParseSig(sigBytes(sig))
		if !ok {
			t.Violate("unparsable", label, nil, "the signature does not have the specified layout")
			return
		}
		digest := p.MsgDigest(ps.R, k.Root(), idx, []byte("m"))
		rest := idx
		for l := 0; l < p.D; l++ {
			leaf := uint32(rest & (1<<th - 1))
			rest >>= th
			pos, bad := observe(k, uint32(l), rest, leaf, ps.Wots[l])
			if pos == nil {
				t.Violate("not-on-chain:"+famKey(p), label, map[string]any{"layer": l, "chain": bad}, "chain %d of the one-time signature on layer %d at index %d reveals no position of its chain", bad, l, idx)
				return
			}
			m.add(digest, pos, fmt.Sprintf("index %d layer %d", idx, l))
			tr := k.Tree(uint32(l), rest)
			digest = tr[th][0]
		}
	}
	m.judge()
}

// c06Forge plays the attacker: it holds one signature, looks for another
// message whose digest digits are all at or beyond the ones revealed, and
// advances chains.
func c06Forge(t *mon.T, label string, p ref.P, first, search int) {
	r := t.Rng(label)
	s := mkSeeds(r, p.N)
	k := ref.NewKey(p, s.pub, s.sk, s.prf)
	idx := uint64(r.Int63()) % p.Max()
	_, sk, pk, _, err := loadKey(storedKey(p, s, idx))
	if err != nil {
		panic(libErr{"load: " + err.Error()})
	}
	defer sk.Close()
	root, rnd := k.Root(), k.R(idx)
	pre := randBytes(r, 8)
	mk := func(i int) []byte { return append(clone(pre), byte(i>>24), byte(i>>16), byte(i>>8), byte(i)) }
	digits := func(msg []byte) []int { return p.Positions(p.MsgDigest(rnd, root, idx, msg))[:p.Len1()] }
	// the victim signs the message with the lowest digits of many
	best, bestSum := 0, -1
	for i := 0; i < first; i++ {
		if s := digitSum(p, p.MsgDigest(rnd, root, idx, mk(i))); s > bestSum {
			best, bestSum = i, s
		}
	}
	sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(idx))
	sig, err := sk.Sign(mk(best))
	if err != nil {
		t.Violate("sign", label, nil, "Sign: %v", err)
		return
	}
	ps, ok := ref.ParseSig(sigBytes(sig))
	if !ok {
		t.Violate("unparsable", label, nil, "the signature does not have the specified layout")
		return
	}
	th := uint(p.TreeHeight())
	leaf, tree := uint32(idx&(1<<th-1)), idx>>th
	have, _ := observe(k, 0, tree, leaf, ps.Wots[0])
	if have == nil {
		t.Violate("not-on-chain:"+famKey(p), label, nil, "the one-time signature reveals no positions of its chains")
		return
	}
	var mu sync.Mutex
	type near struct {
		i, short int
	}
	var found []near
	chunks := 64
	mon.Par(chunks, func(c int) {
		for i := first + c; i < first+search; i += chunks {
			d := digits(mk(i))
			short := 0
			for q := range d {
				if d[q] < have[q] {
					short++
				}
			}
			if short == 0 {
				mu.Lock()
				found = append(found, near{i, short})
				mu.Unlock()
			}
		}
	})
	t.Count("digests tried for forging", search)
	for _, f := range found {
		t.Count("digests dominating the signed one", 1)
		msg := mk(f.i)
		// With the full checksum known to the attacker, and with each
		// conceivable loss of it: chains that would have to go back stay.
		want := p.Positions(p.MsgDigest(rnd, root, idx, msg))
		fs := *ps
		fs.Wots = append([][][]byte{}, ps.Wots...)
		w := append([][]byte{}, ps.Wots[0]...)
		for c := range w {
			if want[c] > have[c] {
				w[c] = p.Chain(w[c], have[c], want[c]-have[c], s.pub, p.ChainAdrs(0, tree, leaf, c))
			}
		}
		fs.Wots[0] = w
		var x xmssmt.Signature
		if err := x.UnmarshalBinary(fs.Bytes()); err != nil {
			t.Violate("unparsable", label, nil, "%v", err)
			return
		}
		t.Count("forgeries attempted", 1)
		if okv, _ := pk.Verify(&x, msg); okv {
			t.Violate("forged:"+famKey(p), label, map[string]any{"index": idx, "signed": fmt.Sprintf("%x", mk(best)), "forged": fmt.Sprintf("%x", msg)},
				"%v: from the signature on %x at index %d a valid signature on %x was made without any secret", p, mk(best), idx, msg)
			return
		}
	}
}

func runC06(t *mon.T) {
	t.Assume = []string{"digit sums beyond those found by hashing cannot be produced (neither by an attacker nor by this check)"}
	fam := families()
	mon.Par(len(fam), func(i int) {
		f := fam[len(fam)-1-i] // the expensive ones first
		p := shape(f, 4, 2)
		if f.W == 256 {
			p = shape(f, 2, 2)
		}
		label := fmt.Sprintf("family/%s", famKey(p))
		cs(t, label, func() {
			want := t.Pick(240, 900)
			if p.W == 256 {
				want = t.Pick(70, 400) * 16 / p.N
			}
			c06Family(t, label, p, t.Pick(1<<15, 1<<19), want)
		})
	})
	upp := []ref.P{cheap(12, 12), cheap(30, 15), {Func: ref.SHA2, N: 16, H: 8, D: 8, W: 4}, {Func: ref.SHAKE256, N: 16, H: 4, D: 4, W: 256}, {Func: ref.SHAKE, N: 24, H: 8, D: 8, W: 16, Prf: 1}}
	mon.Par(len(upp), func(i int) {
		label := fmt.Sprintf("upper/%v", upp[i])
		cs(t, label, func() {
			n := t.Pick(30, 300)
			if upp[i].W == 256 {
				n /= 5
			}
			c06Upper(t, label, upp[i], n)
		})
	})
	type fj struct {
		p             ref.P
		first, search int
	}
	forge := []fj{}
	for f := 0; f < 3; f++ {
		for prf := 0; prf < 2; prf++ {
			forge = append(forge, fj{ref.P{Func: f, N: 16, H: 2, D: 1, W: 256, Prf: prf}, 1 << 12, t.Pick(1<<17, 1<<21)})
			if t.Thorough() {
				forge = append(forge, fj{ref.P{Func: f, N: 24, H: 2, D: 1, W: 256, Prf: prf}, 1 << 17, 1 << 23})
			}
		}
	}
	// W=16, N=16: the signed message is the best of many
	forge = append(forge, fj{ref.P{Func: ref.SHA2, N: 16, H: 2, D: 1, W: 16}, 1 << 18, t.Pick(1<<19, 1<<25)})
	for _, f := range forge {
		label := fmt.Sprintf("forge/%v", f.p)
		cs(t, label, func() { c06Forge(t, label, f.p, f.first, f.search) })
	}
	t.Require("one-time signatures observed", 4000)
	t.Require("pairs of observations compared", 100000)
	t.Require("forgeries attempted", 10)
}
