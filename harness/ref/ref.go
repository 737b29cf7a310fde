// Package ref is an independent, straightforward implementation of XMSS and
// XMSS^MT as specified by RFC 8391 and NIST SP 800-208, generalised to the
// parameter sets go-xmssmt documents.  It shares no code with the library
// under test: it is the oracle the library's bytes are compared with.
//
// It is written from the standards' text: every hash call is spelled out, no
// precomputation, no vectorisation, no in-place tricks.
package ref

import (
	"bytes"
	"crypto/sha256"
	"crypto/sha3"
	"crypto/sha512"
	"encoding/binary"
	"fmt"
	"math/big"
	"sync"
)

const (
	SHA2     = 0
	SHAKE    = 1
	SHAKE256 = 2

	RFC  = 0
	NIST = 1
)

// P are the parameters of an instance.
type P struct {
	Func int
	N    int
	H    int // full height
	D    int
	W    int
	Prf  int
}

func (p P) String() string {
	return fmt.Sprintf("func=%d,n=%d,h=%d,d=%d,w=%d,prf=%d", p.Func, p.N, p.H, p.D, p.W, p.Prf)
}

func (p P) LogW() int {
	l := 0
	for 1<<l < p.W {
		l++
	}
	return l
}

func (p P) Len1() int { return (8*p.N + p.LogW() - 1) / p.LogW() }

// len_2 = floor(lg(len_1 * (w-1)) / lg(w)) + 1
func (p P) Len2() int {
	max := p.Len1() * (p.W - 1)
	lg := 0
	for (1 << (lg + 1)) <= max {
		lg++
	}
	return lg/p.LogW() + 1
}

func (p P) Len() int        { return p.Len1() + p.Len2() }
func (p P) TreeHeight() int { return p.H / p.D }

func (p P) IndexBytes() int {
	if p.D == 1 {
		return 4
	}
	return (p.H + 7) / 8
}

// Size of a signature without the 4 byte parameter prefix.
func (p P) SigBytes() int {
	return p.IndexBytes() + p.N + p.D*(p.Len()+p.TreeHeight())*p.N
}

// Supported says whether the instance is one the library supports.
func (p P) Supported() bool {
	okN := p.N == 16 || p.N == 24 || p.N == 32 || p.N == 64
	okW := p.W == 4 || p.W == 16 || p.W == 256
	return okN && okW && p.Func >= 0 && p.Func <= 2 && p.Prf >= 0 && p.Prf <= 1 &&
		p.D >= 1 && p.H%p.D == 0
}

// Header is the 4-byte compressed parameter encoding documented by the
// library.
func (p P) Header() []byte {
	var w uint32
	switch p.W {
	case 4:
		w = 0
	case 16:
		w = 1
	case 256:
		w = 2
	}
	v := uint32(0xea)<<24 | uint32(p.Prf)<<20 | uint32(p.N/8-1)<<16 |
		uint32(p.Func)<<14 | w<<12 | uint32(p.H)<<6 | uint32(p.D)
	var b [4]byte
	binary.BigEndian.PutUint32(b[:], v)
	return b[:]
}

// ParseHeader decodes the documented encoding; ok is false when it is not a
// valid encoding of anything.
func ParseHeader(b []byte) (p P, ok bool) {
	if len(b) != 4 || b[0] != 0xea || b[1]>>5 != 0 {
		return
	}
	v := binary.BigEndian.Uint32(b)
	p.Prf = int(v >> 20 & 1)
	p.N = (int(v>>16&15) + 1) * 8
	p.Func = int(v >> 14 & 3)
	w := int(v >> 12 & 3)
	p.H = int(v >> 6 & 63)
	p.D = int(v & 63)
	if w == 3 || p.Func == 3 {
		return p, false
	}
	p.W = []int{4, 16, 256}[w]
	return p, true
}

func toByte(x uint64, n int) []byte {
	b := make([]byte, n)
	for i := n - 1; i >= 0 && x > 0; i-- {
		b[i] = byte(x)
		x >>= 8
	}
	return b
}

func (p P) prefix(x uint64) []byte {
	if p.Prf == NIST {
		return toByte(x, 4)
	}
	return toByte(x, p.N)
}

// Hash is the underlying n-byte hash.
func (p P) Hash(parts ...[]byte) []byte {
	in := bytes.Join(parts, nil)
	switch p.Func {
	case SHA2:
		if p.N <= 32 {
			h := sha256.Sum256(in)
			return h[:p.N:p.N]
		}
		h := sha512.Sum512(in)
		return h[:p.N:p.N]
	case SHAKE:
		if p.N <= 32 {
			return sha3.SumSHAKE128(in, p.N)
		}
		return sha3.SumSHAKE256(in, p.N)
	case SHAKE256:
		return sha3.SumSHAKE256(in, p.N)
	}
	panic("ref: bad hash function")
}

// Adrs is the 32-byte hash function address.
type Adrs [8]uint32

func (a Adrs) bytes() []byte {
	b := make([]byte, 32)
	for i, w := range a {
		binary.BigEndian.PutUint32(b[4*i:], w)
	}
	return b
}

func base(layer uint32, tree uint64, typ uint32) Adrs {
	return Adrs{layer, uint32(tree >> 32), uint32(tree), typ}
}

func (p P) prf(key []byte, a Adrs) []byte { return p.Hash(p.prefix(3), key, a.bytes()) }

func xor(a, b []byte) []byte {
	r := make([]byte, len(a))
	for i := range a {
		r[i] = a[i] ^ b[i]
	}
	return r
}

func (p P) randHash(left, right, seed []byte, a Adrs) []byte {
	a[7] = 0
	key := p.prf(seed, a)
	a[7] = 1
	bm0 := p.prf(seed, a)
	a[7] = 2
	bm1 := p.prf(seed, a)
	return p.Hash(p.prefix(1), key, xor(left, bm0), xor(right, bm1))
}

// Chain applies steps steps from position start.
func (p P) Chain(x []byte, start, steps int, seed []byte, a Adrs) []byte {
	for i := start; i < start+steps; i++ {
		a[6] = uint32(i)
		a[7] = 0
		key := p.prf(seed, a)
		a[7] = 1
		bm := p.prf(seed, a)
		x = p.Hash(p.prefix(0), key, xor(x, bm))
	}
	return x
}

func baseW(x *big.Int, logw, n int) []int {
	out := make([]int, n)
	v := new(big.Int).Set(x)
	mask := big.NewInt(int64(1<<logw - 1))
	for i := n - 1; i >= 0; i-- {
		out[i] = int(new(big.Int).And(v, mask).Int64())
		v.Rsh(v, uint(logw))
	}
	return out
}

// Positions gives the WOTS+ chain positions of a digest: the digest in base
// w, followed by the checksum in base w (most significant digit first).
func (p P) Positions(digest []byte) []int {
	lw := p.LogW()
	out := baseW(new(big.Int).SetBytes(digest), lw, p.Len1())
	sum := 0
	for _, d := range out {
		sum += p.W - 1 - d
	}
	return append(out, baseW(big.NewInt(int64(sum)), lw, p.Len2())...)
}

func (p P) otsAdrs(layer uint32, tree uint64, leaf uint32) Adrs {
	a := base(layer, tree, 0)
	a[4] = leaf
	return a
}

func (p P) wotsSk(skSeed, pubSeed []byte, a Adrs, chain int) []byte {
	a[5] = uint32(chain)
	a[6], a[7] = 0, 0
	return p.Hash(p.prefix(4), skSeed, pubSeed, a.bytes())
}

// ChainAdrs is the address of a WOTS+ chain.
func (p P) ChainAdrs(layer uint32, tree uint64, leaf uint32, chain int) Adrs {
	a := p.otsAdrs(layer, tree, leaf)
	a[5] = uint32(chain)
	return a
}

func (p P) lTree(pk [][]byte, seed []byte, layer uint32, tree uint64, leaf uint32) []byte {
	a := base(layer, tree, 1)
	a[4] = leaf
	height := uint32(0)
	for len(pk) > 1 {
		a[5] = height
		var next [][]byte
		for i := 0; i+1 < len(pk); i += 2 {
			a[6] = uint32(i / 2)
			next = append(next, p.randHash(pk[i], pk[i+1], seed, a))
		}
		if len(pk)%2 == 1 {
			next = append(next, pk[len(pk)-1])
		}
		pk = next
		height++
	}
	return pk[0]
}

// Leaf computes the tree leaf of a WOTS+ keypair.
func (p P) Leaf(skSeed, pubSeed []byte, layer uint32, tree uint64, leaf uint32) []byte {
	pk := make([][]byte, p.Len())
	for i := range pk {
		a := p.ChainAdrs(layer, tree, leaf, i)
		pk[i] = p.Chain(p.wotsSk(skSeed, pubSeed, a, i), 0, p.W-1, pubSeed, a)
	}
	return p.lTree(pk, pubSeed, layer, tree, leaf)
}

type sta struct {
	layer uint32
	tree  uint64
}

// Key is a secret key.  Safe for concurrent use.
type Key struct {
	P                      P
	SkSeed, SkPrf, PubSeed []byte

	mu    sync.Mutex
	trees map[sta][][][]byte // levels of nodes
}

func NewKey(p P, pubSeed, skSeed, skPrf []byte) *Key {
	c := func(b []byte) []byte { return append([]byte(nil), b...) }
	return &Key{P: p, SkSeed: c(skSeed), SkPrf: c(skPrf), PubSeed: c(pubSeed),
		trees: map[sta][][][]byte{}}
}

// Tree returns all levels of a subtree, leaves first.
func (k *Key) Tree(layer uint32, tree uint64) [][][]byte {
	k.mu.Lock()
	t, ok := k.trees[sta{layer, tree}]
	k.mu.Unlock()
	if ok {
		return t
	}
	p := k.P
	lvl := make([][]byte, 1<<p.TreeHeight())
	for i := range lvl {
		lvl[i] = p.Leaf(k.SkSeed, k.PubSeed, layer, tree, uint32(i))
	}
	t = append(t, lvl)
	a := base(layer, tree, 2)
	for h := 0; h < p.TreeHeight(); h++ {
		next := make([][]byte, len(lvl)/2)
		for i := range next {
			a[5] = uint32(h)
			a[6] = uint32(i)
			next[i] = p.randHash(lvl[2*i], lvl[2*i+1], k.PubSeed, a)
		}
		t = append(t, next)
		lvl = next
	}
	k.mu.Lock()
	k.trees[sta{layer, tree}] = t
	k.mu.Unlock()
	return t
}

func (k *Key) Root() []byte {
	t := k.Tree(uint32(k.P.D-1), 0)
	return t[len(t)-1][0]
}

// PublicKey in the library's serialised form.
func (k *Key) PublicKey() []byte {
	return bytes.Join([][]byte{k.P.Header(), k.Root(), k.PubSeed}, nil)
}

func (k *Key) wotsSign(digest []byte, layer uint32, tree uint64, leaf uint32) []byte {
	var out []byte
	for i, pos := range k.P.Positions(digest) {
		a := k.P.ChainAdrs(layer, tree, leaf, i)
		out = append(out, k.P.Chain(k.P.wotsSk(k.SkSeed, k.PubSeed, a, i), 0, pos, k.PubSeed, a)...)
	}
	return out
}

// OneTimeSecret gives the secret start of a WOTS+ chain.
func (k *Key) OneTimeSecret(layer uint32, tree uint64, leaf uint32, chain int) []byte {
	return k.P.wotsSk(k.SkSeed, k.PubSeed, k.P.otsAdrs(layer, tree, leaf), chain)
}

// R is the message randomiser for an index.
func (k *Key) R(idx uint64) []byte {
	return k.P.Hash(k.P.prefix(3), k.SkPrf, toByte(idx, 32))
}

// MsgDigest is H_msg.
func (p P) MsgDigest(r, root []byte, idx uint64, msg []byte) []byte {
	return p.Hash(p.prefix(2), r, root, toByte(idx, p.N), msg)
}

// Sign gives the signature in the library's serialised form.
func (k *Key) Sign(idx uint64, msg []byte) []byte {
	r := k.R(idx)
	return k.SignDigest(idx, idx, r, k.P.MsgDigest(r, k.Root(), idx, msg))
}

// SignDigest signs a digest with the leaf of index leafIdx and claims another
// index, randomiser and so on: only the owner of the key can do that.
func (k *Key) SignDigest(idx, leafIdx uint64, r, digest []byte) []byte {
	p := k.P
	out := bytes.Join([][]byte{p.Header(), toByte(idx, p.IndexBytes()), r}, nil)
	th := uint(p.TreeHeight())
	rest := leafIdx
	for layer := uint32(0); layer < uint32(p.D); layer++ {
		leaf := uint32(rest & (1<<th - 1))
		rest >>= th
		t := k.Tree(layer, rest)
		out = append(out, k.wotsSign(digest, layer, rest, leaf)...)
		for h := uint(0); h < th; h++ {
			out = append(out, t[h][(leaf>>h)^1]...)
		}
		digest = t[th][0]
	}
	return out
}

// Sig is a parsed signature.
type Sig struct {
	P    P
	Idx  uint64
	R    []byte
	Wots [][][]byte // per layer, per chain
	Auth [][][]byte // per layer, per height
}

// ParseSig parses the serialised form strictly.
func ParseSig(b []byte) (*Sig, bool) {
	if len(b) < 4 {
		return nil, false
	}
	p, ok := ParseHeader(b[:4])
	if !ok || !p.Supported() || len(b) != 4+p.SigBytes() {
		return nil, false
	}
	b = b[4:]
	take := func(n int) []byte { r := b[:n:n]; b = b[n:]; return r }
	s := &Sig{P: p}
	for _, x := range take(p.IndexBytes()) {
		s.Idx = s.Idx<<8 | uint64(x)
	}
	s.R = take(p.N)
	for l := 0; l < p.D; l++ {
		var w, a [][]byte
		for i := 0; i < p.Len(); i++ {
			w = append(w, take(p.N))
		}
		for i := 0; i < p.TreeHeight(); i++ {
			a = append(a, take(p.N))
		}
		s.Wots = append(s.Wots, w)
		s.Auth = append(s.Auth, a)
	}
	return s, true
}

// Bytes serialises again.
func (s *Sig) Bytes() []byte {
	out := bytes.Join([][]byte{s.P.Header(), toByte(s.Idx, s.P.IndexBytes()), s.R}, nil)
	for l := range s.Wots {
		for _, x := range s.Wots[l] {
			out = append(out, x...)
		}
		for _, x := range s.Auth[l] {
			out = append(out, x...)
		}
	}
	return out
}

// Verify checks a serialised signature under a serialised public key.
func Verify(pk, sig, msg []byte) bool {
	s, ok := ParseSig(sig)
	if !ok || len(pk) != 4+2*s.P.N || !bytes.Equal(pk[:4], sig[:4]) {
		return false
	}
	p := s.P
	root, seed := pk[4:4+p.N], pk[4+p.N:]
	node := p.MsgDigest(s.R, root, s.Idx, msg)
	th := uint(p.TreeHeight())
	rest := s.Idx
	for layer := uint32(0); layer < uint32(p.D); layer++ {
		leaf := uint32(rest & (1<<th - 1))
		rest >>= th
		node = s.RootFrom(int(layer), node, seed, rest, leaf)
	}
	return rest == 0 && bytes.Equal(node, root)
}

// RootFrom recomputes the root of the subtree at a layer from the digest it
// signs.
func (s *Sig) RootFrom(layer int, digest, seed []byte, tree uint64, leaf uint32) []byte {
	p := s.P
	pk := make([][]byte, p.Len())
	for i, pos := range p.Positions(digest) {
		a := p.ChainAdrs(uint32(layer), tree, leaf, i)
		pk[i] = p.Chain(s.Wots[layer][i], pos, p.W-1-pos, seed, a)
	}
	node := p.lTree(pk, seed, uint32(layer), tree, leaf)
	a := base(uint32(layer), tree, 2)
	for h, sib := range s.Auth[layer] {
		a[5] = uint32(h)
		a[6] = leaf >> (uint(h) + 1)
		if leaf>>uint(h)&1 == 0 {
			node = p.randHash(node, sib, seed, a)
		} else {
			node = p.randHash(sib, node, seed, a)
		}
	}
	return node
}

// max is the first index that may not be used.
func (p P) Max() uint64 { return uint64(1)<<uint(p.H) - 1 }
