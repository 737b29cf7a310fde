package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	mrand2 "math/rand/v2"
	"runtime"
	"sync"
	"time"

	"github.com/bwesterb/go-xmssmt"
	"xverif/memctr"
	"xverif/mon"
	"xverif/ref"
)

type STA = xmssmt.SubTreeAddress

// toRef converts library parameters.
func toRef(p xmssmt.Params) ref.P {
	return ref.P{Func: int(p.Func), N: int(p.N), H: int(p.FullHeight), D: int(p.D), W: int(p.WotsW), Prf: int(p.Prf)}
}

func fromRef(p ref.P) xmssmt.Params {
	return xmssmt.Params{Func: xmssmt.HashFunc(p.Func), N: uint32(p.N), FullHeight: uint32(p.H), D: uint32(p.D),
		WotsW: uint16(p.W), Prf: xmssmt.PrfConstruction(p.Prf)}
}

// cheap is the cheapest instance of a shape (16 byte hashes, w=16).
func cheap(h, d int) ref.P { return ref.P{Func: ref.SHAKE, N: 16, H: h, D: d, W: 16, Prf: ref.RFC} }

// families are all 72 supported combinations of hash, N, W and PRF.
func families() (out []ref.P) {
	for f := 0; f < 3; f++ {
		for _, n := range []int{16, 24, 32, 64} {
			for _, w := range []int{4, 16, 256} {
				for prf := 0; prf < 2; prf++ {
					out = append(out, ref.P{Func: f, N: n, W: w, Prf: prf})
				}
			}
		}
	}
	return
}

func shape(p ref.P, h, d int) ref.P { p.H = h; p.D = d; return p }

func mustCtx(p ref.P) *xmssmt.Context {
	ctx, err := xmssmt.NewContext(fromRef(p))
	if err != nil {
		panic(libErr{fmt.Sprintf("NewContext(%v): %v", p, err)})
	}
	return ctx
}

// libErr is panicked with when the library refuses something the check needs;
// catch reports it as a violation.
type libErr struct{ msg string }

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

type seeds struct{ pub, sk, prf []byte }

func mkSeeds(r *rand.Rand, n int) seeds {
	return seeds{randBytes(r, n), randBytes(r, n), randBytes(r, n)}
}

func newRand(seed int64) *rand.Rand { return rand.New(rand.NewSource(seed)) }

func clone(b []byte) []byte { return append([]byte(nil), b...) }

// key is a key under test in a memory container with its reference twin.
type key struct {
	p   ref.P
	s   seeds
	ctr *memctr.Ctr
	ctx *xmssmt.Context
	sk  *xmssmt.PrivateKey
	pk  *xmssmt.PublicKey
	ref *ref.Key
}

// newKey derives a key into a fresh memory container.
func newKey(p ref.P, s seeds, ctr *memctr.Ctr, threads int) *key {
	k := &key{p: p, s: s, ctr: ctr, ctx: mustCtx(p)}
	k.ctx.Threads = threads
	k.ref = ref.NewKey(p, s.pub, s.sk, s.prf)
	sk, pk, err := k.ctx.DeriveInto(ctr, clone(s.pub), clone(s.sk), clone(s.prf))
	if err != nil {
		panic(libErr{fmt.Sprintf("DeriveInto(%v): %v", p, err)})
	}
	k.sk, k.pk = sk, pk
	return k
}

// lazyState makes a stored key without running the library's key generation,
// at a given sequence number (needed for huge trees at huge indices).
func storedKey(p ref.P, s seeds, seqNo uint64) *memctr.State {
	return &memctr.State{Init: true, CacheInit: false, Params: fromRef(p),
		SK: bytes.Join([][]byte{s.sk, s.prf, s.pub}, nil), SeqNo: seqNo}
}

func loadKey(st *memctr.State) (*memctr.Ctr, *xmssmt.PrivateKey, *xmssmt.PublicKey, uint32, xmssmt.Error) {
	c := memctr.From(st)
	sk, pk, lost, err := xmssmt.LoadPrivateKeyFrom(c)
	return c, sk, pk, lost, err
}

func sigBytes(sig *xmssmt.Signature) []byte {
	b, err := sig.MarshalBinary()
	if err != nil {
		panic(libErr{"Signature.MarshalBinary: " + err.Error()})
	}
	return b
}

func pkBytes(pk *xmssmt.PublicKey) []byte {
	b, err := pk.MarshalBinary()
	if err != nil {
		panic(libErr{"PublicKey.MarshalBinary: " + err.Error()})
	}
	return b
}

// cs runs a case; the library refusing something it must support is reported
// as a violation of the property being checked.
func cs(t *mon.T, label string, f func()) {
	t.Case(label, func() {
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(libErr); ok {
					t.Violate("refused:"+label, label, nil, "the library refused: %s", e.msg)
					return
				}
				panic(r)
			}
		}()
		f()
	})
}

// group runs goroutines whose panics are judged like those of a case.
type group struct {
	t     *mon.T
	label string
	wg    sync.WaitGroup
}

func (g *group) Go(f func()) {
	g.wg.Add(1)
	go func() {
		defer g.wg.Done()
		p := mon.Try(f)
		if p == nil {
			return
		}
		if mon.Library(p.Stack) {
			g.t.Violate("panic:"+mon.PanicSite(p.Stack), g.label, p, "the library panicked: %s", p.Val)
			return
		}
		panic("harness: " + p.Val + "\n" + p.Stack)
	}()
}

func (g *group) Wait() { g.wg.Wait() }

// jitter yields or sleeps at random, without any synchronisation of its own.
func jitter(level int) {
	switch mrand2.IntN(8) {
	case 0, 1, 2:
		runtime.Gosched()
	case 3:
		if level > 1 {
			time.Sleep(time.Duration(mrand2.IntN(level*50)) * time.Microsecond)
		} else {
			runtime.Gosched()
		}
	}
}

// jitterLogger is installed with SetLogger: the library logs outside and
// inside its critical regions, which makes the log calls delay points.
type jitterLogger struct{ level int }

func (l jitterLogger) Logf(string, ...interface{}) { jitter(l.level) }

// chunkReader hands out a message in odd pieces.
type chunkReader struct {
	b    []byte
	next func(left int) int
	eof  bool // return io.EOF together with the last bytes
	zero bool // sometimes return 0, nil
	junk bool // use the rest of the buffer as scratch space
	n    int
}

func (r *chunkReader) Read(p []byte) (int, error) {
	r.n++
	if r.junk {
		for i := range p {
			p[i] = byte(i*7 + r.n)
		}
	}
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	if r.zero && r.n%3 == 0 {
		return 0, nil
	}
	k := r.next(len(r.b))
	if k > len(p) {
		k = len(p)
	}
	if k > len(r.b) {
		k = len(r.b)
	}
	copy(p, r.b[:k])
	r.b = r.b[k:]
	if len(r.b) == 0 && r.eof {
		return k, io.EOF
	}
	return k, nil
}

// verify runs the library's verification and reports the verdict; an error
// alongside true, or no error alongside false, is inconsistent.
func verify(t *mon.T, label string, pk *xmssmt.PublicKey, sig *xmssmt.Signature, msg []byte) bool {
	ok, err := pk.Verify(sig, msg)
	if ok != (err == nil) {
		t.Violate("verdict-inconsistent", label, nil, "Verify returned %v with error %v", ok, err)
	}
	return ok
}
