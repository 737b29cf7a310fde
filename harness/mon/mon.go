// Package mon is the reporting side of the monitors: seeded randomness,
// counters, evidence, violations and their replay files.
package mon

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// T collects what one run of a check observed.
type T struct {
	ID       string
	Tier     string
	Seed     int64
	Level    string
	Rule     string
	Assume   []string
	VerifDir string
	Only     string // restrict to case labels with this prefix (replay)

	start time.Time
	mu    sync.Mutex
	evals int64
	cnt   map[string]int64
	dist  map[string]map[uint64]struct{}
	nontr map[uint64]struct{}
	samp  []any
	viol  []violation
	incon []string
	extra map[string]any
	known []known
	hit   map[string]bool
	stop  atomic.Bool
}

type violation struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Seed     int64  `json:"seed"`
	Tier     string `json:"tier"`
	Case     string `json:"case"`
	Detail   any    `json:"detail,omitempty"`
	Rerun    string `json:"rerun"`
}

type known struct {
	prop, key, what string
}

// New makes the collector for a property from the environment.
func New(id string) *T {
	t := &T{ID: id, Tier: "quick", Seed: 1, Level: "exploration", start: time.Now(),
		cnt: map[string]int64{}, dist: map[string]map[uint64]struct{}{},
		nontr: map[uint64]struct{}{}, extra: map[string]any{}, hit: map[string]bool{}}
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			t.Seed = v
		}
	}
	if s := os.Getenv("VERIF_TIER"); s == "thorough" {
		t.Tier = s
	}
	t.Only = os.Getenv("XV_ONLY")
	t.VerifDir = os.Getenv("XV_VERIF")
	if t.VerifDir == "" {
		t.VerifDir = "/verif"
	}
	t.loadKnown()
	return t
}

func (t *T) Thorough() bool { return t.Tier == "thorough" }

// Pick returns quick or thorough depending on the tier.
func (t *T) Pick(quick, thorough int) int {
	if t.Thorough() {
		return thorough
	}
	return quick
}

var knownRe = regexp.MustCompile(`^known: property=(\S+) key=(\S+) (.*)$`)

func (t *T) loadKnown() {
	b, err := os.ReadFile(filepath.Join(t.VerifDir, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if m := knownRe.FindStringSubmatch(l); m != nil {
			t.known = append(t.known, known{m[1], m[2], m[3]})
		}
	}
}

// Sub derives a seed for a label, so that every case has its own
// reproducible randomness whatever the order cases run in.
func (t *T) Sub(label string) int64 {
	h := fnv.New64a()
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], uint64(t.Seed))
	h.Write(b[:])
	h.Write([]byte(t.ID + "/" + label))
	return int64(h.Sum64() >> 1)
}

func (t *T) Rng(label string) *rand.Rand { return rand.New(rand.NewSource(t.Sub(label))) }

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// Eval counts executed cases.
func (t *T) Eval(n int) { atomic.AddInt64(&t.evals, int64(n)) }

// Nontrivial records a distinct, non-trivial case.
func (t *T) Nontrivial(key string) {
	k := hash64(key)
	t.mu.Lock()
	t.nontr[k] = struct{}{}
	t.mu.Unlock()
}

// Count adds to a named counter.
func (t *T) Count(name string, n int) {
	t.mu.Lock()
	t.cnt[name] += int64(n)
	t.mu.Unlock()
}

func (t *T) Counter(name string) int64 {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.cnt[name]
}

// Distinct records a distinct value under a name.
func (t *T) Distinct(name, key string) {
	t.mu.Lock()
	m := t.dist[name]
	if m == nil {
		m = map[uint64]struct{}{}
		t.dist[name] = m
	}
	m[hash64(key)] = struct{}{}
	t.mu.Unlock()
}

func (t *T) DistinctCount(name string) int {
	t.mu.Lock()
	defer t.mu.Unlock()
	return len(t.dist[name])
}

// Sample keeps a few written-out cases.
func (t *T) Sample(v any) {
	t.mu.Lock()
	if len(t.samp) < 6 {
		t.samp = append(t.samp, v)
	}
	t.mu.Unlock()
}

// Note stores an extra evidence field.
func (t *T) Note(k string, v any) {
	t.mu.Lock()
	t.extra[k] = v
	t.mu.Unlock()
}

// Violate records a violation.  key identifies the failing input or call
// site; cs the case label it can be replayed with.
func (t *T) Violate(key, cs string, detail any, format string, a ...any) {
	t.mu.Lock()
	defer t.mu.Unlock()
	key = strings.ReplaceAll(key, " ", "_")
	for _, k := range t.known {
		if k.prop == t.ID && k.key == key {
			t.hit[key] = true
			return
		}
	}
	n := 0
	for _, v := range t.viol {
		if v.Key == key {
			n++
		}
	}
	max := 4
	if s := os.Getenv("XV_MAXVIOL"); s != "" { // exploring a tree known to be broken
		max, _ = strconv.Atoi(s)
	}
	if n >= 2 || len(t.viol) >= max {
		return
	}
	t.viol = append(t.viol, violation{Property: t.ID, Key: key,
		What: fmt.Sprintf(format, a...), Seed: t.Seed, Tier: t.Tier, Case: cs, Detail: detail,
		Rerun: fmt.Sprintf("cd /verif && VERIF_SEED=%d VERIF_TIER=%s XV_ONLY='%s' ./run.sh %s", t.Seed, t.Tier, cs, t.ID)})
	if len(t.viol) >= max {
		t.stop.Store(true)
	}
}

// Violated says whether anything was reported so far.
func (t *T) Violated() bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	return len(t.viol) > 0
}

// Stop says that enough violations were collected.
func (t *T) Stop() bool { return t.stop.Load() }

// Inconclusive records that some part could not be decided.
func (t *T) Inconclusive(format string, a ...any) {
	t.mu.Lock()
	t.incon = append(t.incon, fmt.Sprintf(format, a...))
	t.mu.Unlock()
}

// Require makes the run inconclusive when a counter stayed below a minimum:
// a monitor that saw nothing has decided nothing.
func (t *T) Require(name string, min int) {
	if t.Only != "" {
		return
	}
	if v := t.Counter(name); v < int64(min) {
		t.Inconclusive("only %d %s observed (need %d)", v, name, min)
	}
}

// Skip says whether a case is excluded by XV_ONLY.
func (t *T) Skip(cs string) bool {
	return t.Only != "" && !strings.HasPrefix(cs, t.Only) && !strings.HasPrefix(t.Only, cs)
}

// PanicInfo is what Try caught.
type PanicInfo struct {
	Val   string
	Stack string
}

// Try runs f and reports a panic of its goroutine (including memory faults
// when faults are turned into panics).
func Try(f func()) (p *PanicInfo) {
	defer func() {
		if r := recover(); r != nil {
			p = &PanicInfo{fmt.Sprint(r), string(debug.Stack())}
		}
	}()
	old := debug.SetPanicOnFault(true)
	defer debug.SetPanicOnFault(old)
	f()
	return nil
}

// Library says whether a stack passes through the library under test.
func Library(stack string) bool {
	return strings.Contains(stack, "github.com/bwesterb/go-xmssmt")
}

// Case runs a case: skip filter, evaluation count, and any panic that passed
// through the library is a violation of the property (it did not deliver
// what the property promises); a panic of the harness itself is re-raised.
func (t *T) Case(label string, f func()) {
	if t.Skip(label) {
		return
	}
	Gate()
	if t.Stop() {
		return
	}
	t.Eval(1)
	if p := Try(f); p != nil {
		if !Library(p.Stack) {
			panic("harness: " + label + ": " + p.Val + "\n" + p.Stack)
		}
		t.Violate("panic:"+PanicSite(p.Stack), label, p, "the library panicked: %s", p.Val)
	}
}

var siteRe = regexp.MustCompile(`(?m)^(github\.com/bwesterb/go-xmssmt[^\n(]*(?:\([^)\n]*\)[^\n(]*)?)\(`)

// PanicSite names the topmost library function on a stack.
func PanicSite(stack string) string {
	if i := strings.LastIndex(stack, "panic("); i >= 0 {
		stack = stack[i:]
	}
	if m := siteRe.FindStringSubmatch(stack); m != nil {
		return strings.TrimPrefix(m[1], "github.com/bwesterb/go-xmssmt.")
	}
	return "?"
}

// Par runs n cases on all cores.
func Par(n int, f func(i int)) {
	w := runtime.NumCPU()
	ParN(w, n, f)
}

// ParN runs n cases on w goroutines.  A panic is re-raised in the caller.
func ParN(w, n int, f func(i int)) {
	var next int64 = -1
	var wg sync.WaitGroup
	var pv atomic.Value
	for k := 0; k < w && k < n; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					pv.Store(fmt.Sprintf("%v\n%s", r, debug.Stack()))
				}
			}()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || pv.Load() != nil {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
	if r := pv.Load(); r != nil {
		panic(r)
	}
}

// Finish writes the evidence and result and gives the exit code.
func (t *T) Finish() int {
	t.mu.Lock()
	defer t.mu.Unlock()
	cov := map[string]any{
		"evaluations":         atomic.LoadInt64(&t.evals),
		"distinct_nontrivial": len(t.nontr),
		"rule":                t.Rule,
		"samples":             t.samp,
	}
	if t.samp == nil {
		cov["samples"] = []any{}
	}
	obs := map[string]int64{}
	for k, v := range t.cnt {
		obs[k] = v
	}
	cov["observed"] = obs
	d := map[string]int{}
	for k, v := range t.dist {
		d[k] = len(v)
	}
	cov["distinct_observed"] = d
	for k, v := range t.extra {
		cov[k] = v
	}
	var hits []string
	for k := range t.hit {
		hits = append(hits, k)
	}
	sort.Strings(hits)
	ev := map[string]any{
		"property": t.ID, "tier": t.Tier, "seed": t.Seed, "level": t.Level,
		"coverage": cov, "assumptions": t.Assume,
		"wall_s":         float64(int(time.Since(t.start).Seconds()*100)) / 100,
		"violations":     len(t.viol),
		"inconclusive":   t.incon,
		"known_findings": hits,
	}
	if t.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		panic(err)
	}
	os.MkdirAll(filepath.Join(t.VerifDir, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(t.VerifDir, "evidence", t.ID+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 3
	}
	for _, k := range t.known {
		if k.prop == t.ID {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", t.ID, k.what)
		}
	}
	for i, v := range t.viol {
		dir := filepath.Join(t.VerifDir, "evidence", "replay")
		os.MkdirAll(dir, 0755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", t.ID, i))
		b, err := json.MarshalIndent(v, "", " ")
		if err != nil {
			b = []byte(fmt.Sprintf("%+v", v))
		}
		os.WriteFile(path, append(b, '\n'), 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", t.ID, path)
		fmt.Printf("  case %s: [%s] %s\n", v.Case, v.Key, firstLines(v.What, 12))
	}
	for _, s := range t.incon {
		fmt.Printf("INCONCLUSIVE property=%s %s\n", t.ID, s)
	}
	fmt.Printf("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d violations, %.1fs %v %v\n",
		t.ID, t.Tier, t.Seed, atomic.LoadInt64(&t.evals), len(t.nontr), len(t.viol), time.Since(t.start).Seconds(), obs, d)
	if len(t.viol) > 0 {
		return 1
	}
	if len(t.incon) > 0 {
		return 3
	}
	return 0
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n  ")
}

// Hex shortens bytes for reports.
func Hex(b []byte) string {
	if len(b) > 96 {
		return fmt.Sprintf("%x..(%d bytes, fnv %x)", b[:64], len(b), hash64(string(b)))
	}
	return fmt.Sprintf("%x", b)
}
