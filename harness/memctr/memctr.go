// Package memctr is an in-memory PrivateKeyContainer that honours the
// documented container contract and watches how the library uses it.
//
//   - calls must be serialised by the library (a container need not be thread
//     safe), and none may come after Close;
//   - the persisted sequence number is visible to the monitor at any moment;
//   - any call can be made to fail;
//   - dropped subtree buffers are poisoned (heap mode) or made inaccessible
//     (mmap mode), finished ones can be write-protected (mmap mode).
package memctr

import (
	"fmt"
	"sync"
	"sync/atomic"
	"syscall"

	"github.com/bwesterb/go-xmssmt"
)

type STA = xmssmt.SubTreeAddress

// Error implements xmssmt.Error.
type Error struct{ Msg string }

func (e *Error) Error() string { return e.Msg }
func (e *Error) Locked() bool  { return false }
func (e *Error) Inner() error  { return nil }

// State is what a real container would have on disk.
type State struct {
	Init      bool
	CacheInit bool
	Params    xmssmt.Params
	SK        []byte
	SeqNo     uint64
	Borrowed  uint32
	Trees     map[STA][]byte
}

// Clone deep-copies, as a crash or a reload would see it.
func (s *State) Clone() *State {
	r := *s
	r.SK = append([]byte(nil), s.SK...)
	r.Trees = map[STA][]byte{}
	for k, v := range s.Trees {
		r.Trees[k] = append([]byte(nil), v...)
	}
	return &r
}

// Ctr is the container.
type Ctr struct {
	mu   sync.Mutex // protects the monitor's own reads only
	busy int32

	S      *State
	Closed bool

	// Quiet: no synchronisation, no faults (race detector runs).
	Quiet bool
	// Mmap: allocate subtree buffers outside the Go heap.
	Mmap bool
	// NoPoison leaves dropped buffers as they are.
	NoPoison bool
	// Keep, if not nil, receives what dropped subtrees contained.
	Keep map[STA][]byte
	// Fault is asked before every call; a non-nil error fails the call.
	Fault func(op string, n int) error
	// FailAfter, like Fault, but asked after the effect was applied: a
	// failing call whose effect happened nevertheless.
	FailAfter func(op string, n int) error
	// Before runs inside every call (delays).
	Before func(op string)
	// OnCall sees every call with its result, inside the call.
	OnCall func(op string, sta STA, arg uint64, exists bool)
	// Broken collects contract violations by the library.
	Broken func(what string)

	calls   int64
	Ops     map[string]int
	Allocs  map[STA]int // how often each subtree was allocated
	Drops   map[STA]int
	maps    map[STA][]byte
	retired [][]byte // dropped mmap regions, PROT_NONE
	// persisted sequence number and borrowed, readable at any time
	persisted int64
}

// New makes an empty container.
func New() *Ctr { return From(&State{Trees: map[STA][]byte{}}) }

// From makes a container over a stored state (which it then owns).
func From(s *State) *Ctr {
	if s.Trees == nil {
		s.Trees = map[STA][]byte{}
	}
	c := &Ctr{S: s, Ops: map[string]int{}, Allocs: map[STA]int{}, Drops: map[STA]int{}, maps: map[STA][]byte{}}
	atomic.StoreInt64(&c.persisted, int64(s.SeqNo))
	return c
}

// Persisted is the sequence number a reload would start from.
func (c *Ctr) Persisted() uint64 { return uint64(atomic.LoadInt64(&c.persisted)) }

func (c *Ctr) broken(f string, a ...any) {
	if c.Broken != nil {
		c.Broken(fmt.Sprintf(f, a...))
	}
}

// In Quiet mode the container performs no synchronisation at all, so that it
// creates no happens-before edges that could hide a data race.
func (c *Ctr) lock() {
	if !c.Quiet {
		c.mu.Lock()
	}
}

func (c *Ctr) unlock() {
	if !c.Quiet {
		c.mu.Unlock()
	}
}

func (c *Ctr) persist(v int64) {
	if !c.Quiet {
		atomic.StoreInt64(&c.persisted, v)
	}
}

func (c *Ctr) enter(op string) error {
	if c.Quiet {
		if c.Before != nil {
			c.Before(op)
		}
		c.Ops[op]++
		if c.Fault != nil {
			return c.Fault(op, 0)
		}
		return nil
	}
	if !atomic.CompareAndSwapInt32(&c.busy, 0, 1) {
		c.broken("container call %s overlaps another call: calls are not serialised", op)
	}
	if c.Closed && op != "Close" {
		c.broken("container call %s after Close", op)
	}
	if c.Before != nil {
		c.Before(op)
	}
	c.lock()
	c.Ops[op]++
	n := int(c.calls)
	c.calls++
	c.unlock()
	if c.Fault != nil {
		return c.Fault(op, n)
	}
	return nil
}

func (c *Ctr) after(op string) error {
	if c.FailAfter != nil {
		return c.FailAfter(op, int(c.calls-1))
	}
	return nil
}

func (c *Ctr) leave() {
	if !c.Quiet {
		atomic.StoreInt32(&c.busy, 0)
	}
}

func (c *Ctr) note(op string, sta STA, arg uint64, exists bool) {
	if c.OnCall != nil {
		c.OnCall(op, sta, arg, exists)
	}
}

// NOps reads an operation counter.
func (c *Ctr) NOps(ops ...string) (n int) {
	c.lock()
	defer c.unlock()
	for _, o := range ops {
		n += c.Ops[o]
	}
	return
}

func ferr(err error) xmssmt.Error { return &Error{err.Error()} }

func (c *Ctr) alloc(n int) []byte {
	if !c.Mmap {
		return make([]byte, n)
	}
	b, err := syscall.Mmap(-1, 0, (n+4095)&^4095, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic("harness: mmap: " + err.Error())
	}
	return b[:n:n]
}

func full(b []byte) []byte {
	// regions are page multiples; recover the whole region
	n := (len(b) + 4095) &^ 4095
	return unsafeSlice(b, n)
}

// Protect makes a finished subtree read-only (mmap mode).
func (c *Ctr) Protect(sta STA) {
	c.lock()
	defer c.unlock()
	if b, ok := c.S.Trees[sta]; ok && c.Mmap {
		syscall.Mprotect(full(b), syscall.PROT_READ)
	}
}

// Unprotect undoes Protect.
func (c *Ctr) Unprotect(sta STA) {
	c.lock()
	defer c.unlock()
	if b, ok := c.S.Trees[sta]; ok && c.Mmap {
		syscall.Mprotect(full(b), syscall.PROT_READ|syscall.PROT_WRITE)
	}
}

func (c *Ctr) discard(b []byte) {
	if c.Mmap {
		// Inaccessible for ever: a later access faults.
		syscall.Mprotect(full(b), 0)
		c.retired = append(c.retired, full(b))
		return
	}
	if !c.NoPoison {
		for i := range b {
			b[i] = 0xdb
		}
	}
}

// Free releases all mmap regions.
func (c *Ctr) Free() {
	if !c.Mmap {
		return
	}
	for _, b := range c.retired {
		syscall.Munmap(b)
	}
	c.retired = nil
	for _, b := range c.S.Trees {
		syscall.Munmap(full(b))
	}
	c.S.Trees = map[STA][]byte{}
}

// Import turns plain buffers of a stored state into regions (mmap mode).
func (c *Ctr) Import() {
	if !c.Mmap {
		return
	}
	for k, v := range c.S.Trees {
		b := c.alloc(len(v))
		copy(b, v)
		c.S.Trees[k] = b
	}
}

func (c *Ctr) ResetCache() xmssmt.Error {
	err := c.enter("ResetCache")
	defer c.leave()
	if err != nil {
		return ferr(err)
	}
	if !c.S.Init {
		return &Error{"not initialized"}
	}
	c.lock()
	for _, b := range c.S.Trees {
		c.discard(b)
	}
	c.S.Trees = map[STA][]byte{}
	c.S.CacheInit = true
	c.unlock()
	c.note("ResetCache", STA{}, 0, false)
	return nil
}

func (c *Ctr) GetSubTree(sta STA) ([]byte, bool, xmssmt.Error) {
	err := c.enter("GetSubTree")
	defer c.leave()
	if err != nil {
		return nil, false, ferr(err)
	}
	if !c.S.CacheInit {
		return nil, false, &Error{"cache not initialized"}
	}
	c.lock()
	b, ok := c.S.Trees[sta]
	if !ok {
		b = c.alloc(c.S.Params.CachedSubTreeSize())
		c.S.Trees[sta] = b
		c.Allocs[sta]++
	}
	c.unlock()
	c.note("GetSubTree", sta, 0, ok)
	if err := c.after("GetSubTree"); err != nil {
		return nil, false, ferr(err)
	}
	return b, ok, nil
}

func (c *Ctr) HasSubTree(sta STA) bool {
	c.enter("HasSubTree")
	defer c.leave()
	_, ok := c.S.Trees[sta]
	return ok && c.S.CacheInit
}

func (c *Ctr) DropSubTree(sta STA) xmssmt.Error {
	err := c.enter("DropSubTree")
	defer c.leave()
	if err != nil {
		return ferr(err)
	}
	if !c.S.CacheInit {
		return &Error{"cache not initialized"}
	}
	c.lock()
	b, ok := c.S.Trees[sta]
	if ok {
		if c.Keep != nil {
			c.Keep[sta] = append([]byte(nil), b...)
		}
		c.discard(b)
		delete(c.S.Trees, sta)
		c.Drops[sta]++
	}
	c.unlock()
	c.note("DropSubTree", sta, 0, ok)
	return nil
}

func (c *Ctr) ListSubTrees() ([]STA, xmssmt.Error) {
	err := c.enter("ListSubTrees")
	defer c.leave()
	if err != nil {
		return nil, ferr(err)
	}
	if !c.S.CacheInit {
		return nil, &Error{"cache not initialized"}
	}
	var r []STA
	for k := range c.S.Trees {
		r = append(r, k)
	}
	return r, nil
}

func (c *Ctr) Reset(sk []byte, p xmssmt.Params) xmssmt.Error {
	err := c.enter("Reset")
	defer c.leave()
	if err != nil {
		return ferr(err)
	}
	c.lock()
	for _, b := range c.S.Trees {
		c.discard(b)
	}
	*c.S = State{Init: true, CacheInit: true, Params: p, SK: sk, Trees: map[STA][]byte{}}
	c.persist(0)
	c.unlock()
	c.note("Reset", STA{}, 0, false)
	return nil
}

func (c *Ctr) BorrowSeqNos(n uint32) (xmssmt.SignatureSeqNo, xmssmt.Error) {
	err := c.enter("BorrowSeqNos")
	defer c.leave()
	if err != nil {
		return 0, ferr(err)
	}
	if !c.S.Init {
		return 0, &Error{"not initialized"}
	}
	c.lock()
	old := c.S.SeqNo
	c.S.SeqNo += uint64(n)
	if c.S.Borrowed += n; c.S.Borrowed < n {
		c.S.Borrowed = ^uint32(0)
	}
	c.persist(int64(c.S.SeqNo))
	c.unlock()
	c.note("BorrowSeqNos", STA{}, uint64(n), false)
	if err := c.after("BorrowSeqNos"); err != nil {
		return 0, ferr(err)
	}
	return xmssmt.SignatureSeqNo(old), nil
}

func (c *Ctr) SetSeqNo(s xmssmt.SignatureSeqNo) xmssmt.Error {
	err := c.enter("SetSeqNo")
	defer c.leave()
	if err != nil {
		return ferr(err)
	}
	if !c.S.Init {
		return &Error{"not initialized"}
	}
	c.lock()
	c.S.SeqNo = uint64(s)
	c.S.Borrowed = 0
	c.persist(int64(s))
	c.unlock()
	c.note("SetSeqNo", STA{}, uint64(s), false)
	if err := c.after("SetSeqNo"); err != nil {
		return ferr(err)
	}
	return nil
}

func (c *Ctr) GetSeqNo() (xmssmt.SignatureSeqNo, uint32, xmssmt.Error) {
	err := c.enter("GetSeqNo")
	defer c.leave()
	if err != nil {
		return 0, 0, ferr(err)
	}
	if !c.S.Init {
		return 0, 0, &Error{"not initialized"}
	}
	return xmssmt.SignatureSeqNo(c.S.SeqNo), c.S.Borrowed, nil
}

func (c *Ctr) GetPrivateKey() ([]byte, xmssmt.Error) {
	err := c.enter("GetPrivateKey")
	defer c.leave()
	if err != nil {
		return nil, ferr(err)
	}
	if !c.S.Init {
		return nil, &Error{"not initialized"}
	}
	return append([]byte(nil), c.S.SK...), nil
}

func (c *Ctr) Initialized() *xmssmt.Params {
	c.enter("Initialized")
	defer c.leave()
	if !c.S.Init {
		return nil
	}
	p := c.S.Params
	return &p
}

func (c *Ctr) CacheInitialized() bool {
	c.enter("CacheInitialized")
	defer c.leave()
	return c.S.CacheInit
}

func (c *Ctr) Close() xmssmt.Error {
	err := c.enter("Close")
	defer c.leave()
	if err != nil {
		return ferr(err)
	}
	c.note("Close", STA{}, 0, false)
	c.Closed = true
	return nil
}

// Snapshot clones the stored state at this moment (a crash).
func (c *Ctr) Snapshot() *State {
	c.lock()
	defer c.unlock()
	return c.S.Clone()
}

// Gen tells how often a subtree has been allocated and whether it is cached.
// Subtrees that were there from the beginning have generation 0.
func (c *Ctr) Gen(sta STA) (gen int, cached bool) {
	c.lock()
	defer c.unlock()
	_, cached = c.S.Trees[sta]
	return c.Allocs[sta], cached
}

// ProtectGen write-protects a subtree if it is cached in this generation.
func (c *Ctr) ProtectGen(sta STA, gen int) bool {
	c.lock()
	defer c.unlock()
	b, ok := c.S.Trees[sta]
	if !ok || c.Allocs[sta] != gen || !c.Mmap {
		return false
	}
	syscall.Mprotect(full(b), syscall.PROT_READ)
	return true
}

// ProtectAll write-protects all cached subtrees.
func (c *Ctr) ProtectAll() (n int) {
	c.lock()
	defer c.unlock()
	for _, b := range c.S.Trees {
		if c.Mmap {
			syscall.Mprotect(full(b), syscall.PROT_READ)
			n++
		}
	}
	return
}

// UnprotectAll undoes ProtectAll.
func (c *Ctr) UnprotectAll() {
	c.lock()
	defer c.unlock()
	for _, b := range c.S.Trees {
		if c.Mmap {
			syscall.Mprotect(full(b), syscall.PROT_READ|syscall.PROT_WRITE)
		}
	}
}
