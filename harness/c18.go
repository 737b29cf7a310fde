package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"

	"github.com/bwesterb/go-xmssmt"
	"xverif/mon"
	"xverif/ref"
)

func init() {
	checks["C18"] = check{run: runC18,
		rule: "The file container is driven directly: all short sequences of cache operations over a few addresses, and long random sequences of all operations with odd addresses, parameter changes, reopening (in this and in other processes) and operations in states that do not allow them. After every step results are compared with a key-value model, including the bytes of every subtree buffer, which are rewritten all the time. Non-trivial: distinct operation sequences."}
	workers["c18"] = c18Worker
}

// c18Model is the documented contract.
type c18Model struct {
	init  bool
	cache bool
	open  bool
	key   []byte
	p     xmssmt.Params
	seq   uint64
	lost  uint64
	trees map[STA][]byte
}

type c18Run struct {
	t     *mon.T
	label string
	path  string
	r     *rand.Rand
	c     xmssmt.PrivateKeyContainer
	m     c18Model
	bufs  map[STA][]byte // buffers handed out by the current handle
	hist  []string
	fill  uint32
}

func (x *c18Run) viol(key, f string, a ...any) {
	x.t.Violate(key, x.label, append([]string(nil), x.hist...), "%s; after %s", fmt.Sprintf(f, a...), strings.Join(tail(x.hist, 14), ", "))
}

func (x *c18Run) open() bool {
	c, err := xmssmt.OpenFSPrivateKeyContainer(x.path)
	x.hist = append(x.hist, "open")
	if err != nil {
		x.viol("open", "opening failed: %v", err)
		return false
	}
	x.c = c
	x.m.open = true
	x.bufs = map[STA][]byte{}
	x.t.Count("opens", 1)
	return true
}

func (x *c18Run) close() {
	x.hist = append(x.hist, "close")
	if err := x.c.Close(); err != nil {
		x.viol("close", "Close failed: %v", err)
	}
	x.m.open = false
	x.bufs = map[STA][]byte{}
}

// scribble fills a buffer with bytes that occur nowhere else.
func (x *c18Run) scribble(a STA, b []byte) {
	x.fill++
	v := x.fill
	for i := range b {
		v = v*1664525 + 1013904223
		b[i] = byte(v >> 24)
	}
	x.m.trees[a] = clone(b)
}

func (x *c18Run) get(a STA) {
	x.hist = append(x.hist, fmt.Sprintf("get %d.%d", a.Layer, a.Tree))
	b, ex, err := x.c.GetSubTree(a)
	if !x.m.open || !x.m.cache {
		if err == nil {
			x.viol("get-unready", "GetSubTree works on a container that is not ready")
		}
		return
	}
	if err != nil {
		x.viol("get", "GetSubTree(%v) failed: %v", a, err)
		return
	}
	want, exists := x.m.trees[a]
	if ex != exists {
		x.viol("exists", "GetSubTree(%v) reports exists=%v", a, ex)
	}
	if len(b) != x.m.p.CachedSubTreeSize() {
		x.viol("size", "GetSubTree(%v) gave %d bytes, %d are documented for %v", a, len(b), x.m.p.CachedSubTreeSize(), x.m.p)
		return
	}
	if exists && !bytes.Equal(b, want) {
		x.viol("content", "GetSubTree(%v) gave other bytes than were written (first difference at %d of %d)", a, diffAt(b, want), len(b))
	}
	x.bufs[a] = b
	if !exists {
		x.scribble(a, b)
	}
	x.t.Count("buffers judged", 1)
}

func diffAt(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

func (x *c18Run) drop(a STA) {
	x.hist = append(x.hist, fmt.Sprintf("drop %d.%d", a.Layer, a.Tree))
	err := x.c.DropSubTree(a)
	if !x.m.open || !x.m.cache {
		if err == nil {
			x.viol("drop-unready", "DropSubTree works on a container that is not ready")
		}
		return
	}
	if err != nil {
		x.viol("drop", "DropSubTree(%v) failed: %v", a, err)
	}
	delete(x.m.trees, a)
	delete(x.bufs, a)
}

func (x *c18Run) resetCache() {
	x.hist = append(x.hist, "reset cache")
	err := x.c.ResetCache()
	if !x.m.open || !x.m.init {
		if err == nil {
			x.viol("resetcache-unready", "ResetCache works on a container that is not ready")
		}
		return
	}
	if err != nil {
		x.viol("resetcache", "ResetCache failed: %v", err)
	}
	x.m.cache = true
	x.m.trees = map[STA][]byte{}
	x.bufs = map[STA][]byte{}
}

func (x *c18Run) reset(p ref.P) {
	x.hist = append(x.hist, "reset "+p.String())
	key := randBytes(x.r, 3*p.N)
	err := x.c.Reset(clone(key), fromRef(p))
	if !x.m.open {
		if err == nil {
			x.viol("reset-closed", "Reset works on a closed container")
		}
		return
	}
	if err != nil {
		x.viol("reset", "Reset failed: %v", err)
	}
	x.m.init, x.m.cache = true, true
	x.m.key, x.m.p = key, fromRef(p)
	x.m.seq, x.m.lost = 0, 0
	x.m.trees = map[STA][]byte{}
	x.bufs = map[STA][]byte{}
}

func (x *c18Run) set(v uint64) {
	x.hist = append(x.hist, fmt.Sprintf("set %d", v))
	err := x.c.SetSeqNo(xmssmt.SignatureSeqNo(v))
	if !x.m.open || !x.m.init {
		if err == nil {
			x.viol("set-unready", "SetSeqNo works on a container that is not ready")
		}
		return
	}
	if err != nil {
		x.viol("set", "SetSeqNo failed: %v", err)
	}
	x.m.seq, x.m.lost = v, 0
}

func (x *c18Run) borrow(n uint32) {
	x.hist = append(x.hist, fmt.Sprintf("borrow %d", n))
	s, err := x.c.BorrowSeqNos(n)
	if !x.m.open || !x.m.init {
		if err == nil {
			x.viol("borrow-unready", "BorrowSeqNos works on a container that is not ready")
		}
		return
	}
	if err != nil {
		x.viol("borrow", "BorrowSeqNos failed: %v", err)
		return
	}
	if uint64(s) != x.m.seq {
		x.viol("borrow-seq", "BorrowSeqNos returned %d, the sequence number was %d", s, x.m.seq)
	}
	x.m.seq += uint64(n)
	x.m.lost = min(x.m.lost+uint64(n), 1<<32-1)
}

// away changes the sequence number while the key's directory is missing.
func (x *c18Run) away(home string) {
	if !x.m.open || !x.m.init {
		return
	}
	move := func(from, to string) {
		if err := os.Rename(from, to); err != nil {
			panic("harness: " + err.Error())
		}
	}
	x.hist = append(x.hist, "take the directory away")
	move(home, home+".away")
	v, n := uint64(x.r.Intn(1000)), uint32(1+x.r.Intn(1000))
	set := x.r.Intn(2) == 0
	var err xmssmt.Error
	if set {
		x.hist = append(x.hist, fmt.Sprintf("set %d", v))
		err = x.c.SetSeqNo(xmssmt.SignatureSeqNo(v))
	} else {
		x.hist = append(x.hist, fmt.Sprintf("borrow %d", n))
		_, err = x.c.BorrowSeqNos(n)
	}
	move(home+".away", home)
	if err != nil {
		// It failed, so nothing changed.
		x.t.Count("changes that failed", 1)
	} else if set {
		x.m.seq, x.m.lost = v, 0
	} else {
		x.m.seq += uint64(n)
		x.m.lost = min(x.m.lost+uint64(n), 1<<32-1)
	}
	x.compare(false)
}

// compare judges everything that can be asked without side effects, and the
// bytes of all buffers which were handed out.
func (x *c18Run) compare(full bool) {
	x.t.Count("states compared", 1)
	p := x.c.Initialized()
	if (p != nil) != (x.m.init && x.m.open) {
		x.viol("initialized", "Initialized reports %v", p)
	} else if p != nil && *p != x.m.p {
		x.viol("params", "Initialized reports %v instead of %v", *p, x.m.p)
	}
	if ci := x.c.CacheInitialized(); ci != (x.m.cache && x.m.open) {
		x.viol("cache-initialized", "CacheInitialized reports %v", ci)
	}
	s, l, err := x.c.GetSeqNo()
	k, err2 := x.c.GetPrivateKey()
	if x.m.init && x.m.open {
		if err != nil || uint64(s) != x.m.seq || uint64(l) != x.m.lost {
			x.viol("seqno", "GetSeqNo gives %d, %d, %v instead of %d, %d", s, l, e2(err), x.m.seq, x.m.lost)
		}
		if err2 != nil || !bytes.Equal(k, x.m.key) {
			x.viol("key", "GetPrivateKey gives another key or an error: %v", e2(err2))
		}
	} else if err == nil || err2 == nil {
		x.viol("unready", "GetSeqNo or GetPrivateKey work on a container that is not ready")
	}
	list, err := x.c.ListSubTrees()
	if x.m.cache && x.m.open {
		if err != nil {
			x.viol("list", "ListSubTrees failed: %v", err)
		}
		seen := map[STA]bool{}
		for _, a := range list {
			if seen[a] {
				x.viol("list-twice", "ListSubTrees lists %v twice", a)
			}
			seen[a] = true
			if _, ok := x.m.trees[a]; !ok {
				x.viol("list-extra", "ListSubTrees lists %v, which is not cached", a)
			}
		}
		for a := range x.m.trees {
			if !seen[a] {
				x.viol("list-missing", "ListSubTrees does not list %v", a)
			}
			if !x.c.HasSubTree(a) {
				x.viol("has", "HasSubTree(%v) is false", a)
			}
		}
		for i := 0; i < 2; i++ {
			a := x.addr()
			if _, ok := x.m.trees[a]; ok != x.c.HasSubTree(a) {
				x.viol("has", "HasSubTree(%v) is %v", a, !ok)
			}
		}
	} else {
		if err == nil {
			x.viol("list-unready", "ListSubTrees works on a container without a cache")
		}
		if x.c.HasSubTree(x.addr()) {
			x.viol("has", "HasSubTree is true without a cache")
		}
	}
	for a, b := range x.bufs {
		if !bytes.Equal(b, x.m.trees[a]) {
			x.viol("content", "the buffer of %v changed (first difference at %d of %d)", a, diffAt(b, x.m.trees[a]), len(b))
			x.m.trees[a] = clone(b)
		}
	}
	if full && x.m.open && x.m.cache {
		for a := range x.m.trees {
			x.get(a)
		}
	}
}

func (x *c18Run) addr() STA {
	r := x.r
	switch r.Intn(10) {
	case 0:
		return STA{Layer: r.Uint32(), Tree: r.Uint64()}
	case 1:
		return STA{Layer: 1<<32 - 1, Tree: 1<<64 - 1}
	case 2:
		// differs from small ones in the high bytes only
		return STA{Layer: uint32(r.Intn(3)) | 1<<uint(8*r.Intn(4)), Tree: uint64(r.Intn(3)) | 1<<uint(8*r.Intn(8))}
	}
	return STA{Layer: uint32(r.Intn(3)), Tree: uint64(r.Intn(6))}
}

var c18Params = []ref.P{cheap(4, 2), cheap(20, 2), cheap(10, 1), cheap(60, 12),
	{Func: ref.SHA2, N: 64, H: 10, D: 1, W: 4}, {Func: ref.SHAKE, N: 32, H: 20, D: 4, W: 16},
	{Func: ref.SHA2, N: 24, H: 40, D: 8, W: 256}, {Func: ref.SHAKE, N: 64, H: 14, D: 2, W: 256}, cheap(1, 1), cheap(63, 63)}

// odd names of key files
var c18Names = []string{"key", "a key with spaces", "schlüssel", ".hidden", "key.key.tmp.x", "-", strings.Repeat("n", 200)}

func runC18(t *mon.T) {
	t.Assume = []string{"no two containers with clashing file names (key and key.cache) are used", "nothing else writes to the files"}
	// 1. all short sequences of cache operations
	depth := t.Pick(5, 6)
	const ops = 9
	total := 1
	for i := 0; i < depth; i++ {
		total *= ops
	}
	const chunk = 729
	mon.Par(total/chunk, func(i int) {
		l := fmt.Sprintf("short/%d", i)
		cs(t, l, func() { c18Short(t, l, i*chunk, chunk, depth, ops) })
	})
	// 2. long random sequences
	n := t.Pick(480, 6000)
	mon.Par(n, func(i int) {
		l := fmt.Sprintf("long/%d", i)
		cs(t, l, func() { c18Long(t, l, i) })
	})
	// 3. handed over between processes
	n = t.Pick(10, 100)
	mon.Par(n, func(i int) {
		l := fmt.Sprintf("procs/%d", i)
		cs(t, l, func() { c18Procs(t, l, i) })
	})
	t.Require("states compared", 100000)
	t.Require("buffers judged", 100000)
	t.Require("opens", 5000)
	t.Require("processes", 20)
}

func c18Short(t *mon.T, label string, from, n, depth, ops int) {
	dir := scratchDir("c18")
	defer os.RemoveAll(dir)
	x := &c18Run{t: t, label: label, r: t.Rng(label), path: filepath.Join(dir, "key"), bufs: map[STA][]byte{}}
	x.m.trees = map[STA][]byte{}
	if !x.open() {
		return
	}
	x.reset(c18Params[(from/n)%3])
	a := []STA{{Layer: 0, Tree: 1}, {Layer: 1, Tree: 0}, {Layer: 0, Tree: 1 << 32}}
	for code := from; code < from+n && !t.Stop(); code++ {
		x.hist = x.hist[:0]
		x.resetCache()
		for c, i := code, 0; i < depth; i++ {
			switch op := c % ops; op {
			case 0, 1, 2:
				x.get(a[op])
			case 3, 4, 5:
				x.drop(a[op-3])
			case 6:
				x.close()
				if !x.open() {
					return
				}
			case 7:
				x.resetCache()
			case 8: // write through all buffers which are held
				x.hist = append(x.hist, "write")
				for b := range x.bufs {
					x.scribble(b, x.bufs[b])
				}
			}
			c /= ops
			x.compare(i == depth-1)
		}
		t.Nontrivial(fmt.Sprint(code))
	}
	x.close()
}

func c18Long(t *mon.T, label string, i int) {
	r := t.Rng(label)
	dir := scratchDir("c18")
	defer os.RemoveAll(dir)
	home := filepath.Join(dir, "home")
	if err := os.Mkdir(home, 0755); err != nil {
		panic("harness: " + err.Error())
	}
	x := &c18Run{t: t, label: label, r: r, path: filepath.Join(home, c18Names[i%len(c18Names)]), bufs: map[STA][]byte{}}
	x.m.trees = map[STA][]byte{}
	if !x.open() {
		return
	}
	many := i%4 == 0
	steps := t.Pick(120, 400)
	for s := 0; s < steps && !t.Stop() && !t.Violated(); s++ {
		switch op := r.Intn(43); {
		case op >= 40:
			x.away(home)
		case op == 0 || op < 12 && !x.m.init && x.m.open:
			if many && x.m.init {
				break
			}
			x.reset(c18Params[r.Intn(len(c18Params))])
		case op < 12:
			x.get(x.addr())
			if many {
				for k := 0; k < 5; k++ {
					x.get(STA{Layer: uint32(r.Intn(2)), Tree: uint64(r.Intn(80))})
				}
			}
		case op < 19:
			if len(x.m.trees) > 0 && r.Intn(3) > 0 {
				as := sortedSTAs(x.m.trees)
				x.drop(as[r.Intn(len(as))])
			} else {
				x.drop(x.addr())
			}
		case op < 24:
			x.hist = append(x.hist, "write")
			for a, b := range x.bufs {
				if r.Intn(2) == 0 {
					continue
				}
				if r.Intn(2) == 0 {
					x.scribble(a, b)
				} else {
					j := r.Intn(len(b))
					b[j] ^= byte(1 + r.Intn(255))
					x.m.trees[a] = clone(b)
				}
			}
		case op < 26:
			if !many {
				x.resetCache()
			}
		case op < 29:
			v := uint64(r.Intn(1000))
			if r.Intn(3) == 0 {
				v = r.Uint64() >> 1
			}
			x.set(v)
		case op < 32:
			n := uint32(r.Intn(1000))
			if r.Intn(4) == 0 {
				n = r.Uint32()
			}
			x.borrow(n)
		case op < 36:
			if x.m.open {
				x.close()
			}
			if r.Intn(5) > 0 && !x.open() {
				return
			}
		case op < 38:
			if !x.m.open && !x.open() {
				return
			}
		default:
			// a second opening of an open key fails and changes nothing
			if x.m.open {
				x.hist = append(x.hist, "open again")
				if c2, err := xmssmt.OpenFSPrivateKeyContainer(x.path); err == nil {
					x.viol("open-twice", "an open container was opened again")
					c2.Close()
				}
			} else if err := x.c.Close(); err != nil {
				x.viol("close-twice", "closing a second time failed: %v", err)
			}
		}
		x.compare(r.Intn(6) == 0)
	}
	if !x.m.open && !x.open() {
		return
	}
	x.compare(true)
	x.close()
	t.Nontrivial(label + strings.Join(x.hist, ","))
	t.Distinct("long sequences", strings.Join(x.hist, ","))
	if i < 3 {
		t.Sample(map[string]any{"case": label, "operations": head18(x.hist, 60)})
	}
}

func head18(x []string, n int) []string {
	if len(x) > n {
		return x[:n]
	}
	return append([]string(nil), x...)
}

// c18Procs hands a container from process to process.
func c18Procs(t *mon.T, label string, i int) {
	dir := scratchDir("c18p")
	defer os.RemoveAll(dir)
	for turn := 0; turn < 4; turn++ {
		res := runWorker(nil, nil, "c18", filepath.Join(dir, "key"), fmt.Sprint(t.Sub(label)), fmt.Sprint(turn))
		t.Count("processes", 1)
		if res.code == 3 {
			for _, l := range strings.Split(strings.TrimSpace(res.stdout), "\n") {
				t.Violate("procs", label, res.stdout, "process %d: %s", turn, l)
			}
			return
		}
		if res.code != 0 {
			if k, what := crashVerdict(res.stderr); k != "" {
				t.Violate(k, label, lastBytes(res.stderr, 10000), "a process crashed in the library: %s", what)
			} else {
				t.Inconclusive("%s: worker ended with %d %s: %s", label, res.code, res.signal, lastBytes(res.stderr, 2000))
			}
			return
		}
	}
	t.Nontrivial(label)
}

// c18Worker replays the history of all turns on the model, and the last turn
// on the container.  Even turns end by dying without closing.
func c18Worker(args []string) int {
	path := args[0]
	var seed int64
	var turn int
	fmt.Sscan(args[1], &seed)
	fmt.Sscan(args[2], &turn)
	bad := int32(0)
	fail := func(f string, a ...any) {
		atomic.StoreInt32(&bad, 1)
		fmt.Printf(f+"\n", a...)
	}
	trees := map[STA][]byte{}
	var seq uint64
	var p ref.P
	var key []byte
	for tn := 0; tn <= turn; tn++ {
		r := newRand(seed + int64(tn))
		live := tn == turn
		var c xmssmt.PrivateKeyContainer
		var err xmssmt.Error
		if live {
			if c, err = xmssmt.OpenFSPrivateKeyContainer(path); err != nil {
				fail("opening failed: %v", err)
				return 3
			}
		}
		if tn == 0 {
			p = c18Params[r.Intn(len(c18Params))]
			key = randBytes(r, 3*p.N)
			if live {
				if err := c.Reset(clone(key), fromRef(p)); err != nil {
					fail("Reset failed: %v", err)
				}
			}
		} else if live {
			if q := c.Initialized(); q == nil || *q != fromRef(p) {
				fail("Initialized gives %v", q)
				return 3
			}
			if k, err := c.GetPrivateKey(); err != nil || !bytes.Equal(k, key) {
				fail("another key, %v", err)
			}
			if s, _, err := c.GetSeqNo(); err != nil || uint64(s) != seq {
				fail("sequence number %d instead of %d, %v", s, seq, err)
			}
			list, err := c.ListSubTrees()
			if err != nil || len(list) != len(trees) {
				fail("%d subtrees instead of %d, %v", len(list), len(trees), err)
			}
			for a, w := range trees {
				b, ex, err := c.GetSubTree(a)
				if err != nil || !ex || !bytes.Equal(b, w) {
					fail("subtree %v: exists %v, error %v, bytes as written %v", a, ex, err, bytes.Equal(b, w))
				}
			}
		}
		for j := 0; j < 40; j++ {
			a := STA{Layer: uint32(r.Intn(3)), Tree: uint64(r.Intn(8))}
			switch r.Intn(3) {
			case 0:
				delete(trees, a)
				if live {
					if err := c.DropSubTree(a); err != nil {
						fail("drop: %v", err)
					}
				}
			case 1:
				seq += uint64(r.Intn(5))
				if live && j%10 == 0 {
					if err := c.SetSeqNo(xmssmt.SignatureSeqNo(seq)); err != nil {
						fail("set: %v", err)
					}
				}
			default:
				q := fromRef(p)
				w := randBytes(r, q.CachedSubTreeSize())
				if live {
					b, ex, err := c.GetSubTree(a)
					if _, had := trees[a]; err != nil || ex != had {
						fail("get: exists %v, %v", ex, err)
						return 3
					}
					copy(b, w)
				}
				trees[a] = w
			}
		}
		if live {
			if err := c.SetSeqNo(xmssmt.SignatureSeqNo(seq)); err != nil {
				fail("set: %v", err)
			}
			if tn%2 == 1 {
				if err := c.Close(); err != nil {
					fail("close: %v", err)
				}
			}
		}
	}
	if bad != 0 {
		return 3
	}
	return 0
}
