package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/bwesterb/go-xmssmt"
	"xverif/mon"
)

func init() {
	checks["C03"] = check{run: runC03,
		rule: "A holder (this process or another) opens a key by every entry point; every entry point, path spelling and process then attempts it: each attempt must fail as locked and leave lock file, key file and holder as they were; afterwards (close, failed open, failed load, failed generation, death) the key must be available. Races of many openers: holding intervals must not overlap. Non-trivial: distinct (holder, attempt, spelling, ending) combinations and contended acquisitions."}
}

// fsState is what an attempt on a held key must not change.
type fsSnap struct {
	lock, key, cache []byte
	lockIno          uint64
	names            string
}

func snapDir(dir string) (s fsSnap) {
	s.lock, _ = os.ReadFile(filepath.Join(dir, "key.lock"))
	s.key, _ = os.ReadFile(filepath.Join(dir, "key"))
	s.cache, _ = os.ReadFile(filepath.Join(dir, "key.cache"))
	var st syscall.Stat_t
	if syscall.Lstat(filepath.Join(dir, "key.lock"), &st) == nil {
		s.lockIno = st.Ino
	}
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		s.names += e.Name() + " "
	}
	return
}

// spellings of <dir>/key; rel is usable only by a process whose working
// directory is the parent of dir.
func spellings(dir string, rel bool) map[string]string {
	base := filepath.Base(dir)
	par := filepath.Dir(dir)
	m := map[string]string{
		"plain":        dir + "/key",
		"dot":          dir + "/./key",
		"slashes":      dir + "//key",
		"dotdot":       dir + "/../" + base + "/key",
		"dirsymlink":   par + "/dlink/key",
		"symlinkchain": par + "/dlink2/./key",
		"keysymlink":   par + "/klink",
	}
	if rel {
		m["relative"] = base + "/key"
		m["reldots"] = "./" + base + "/../" + base + "/key"
	}
	return m
}

// attempts on a path; each must fail with a locked error.
var attempts = map[string]func(p *rpcProc, path string) string{
	"load":   func(p *rpcProc, path string) string { return p.do("load", "x", path) },
	"open":   func(p *rpcProc, path string) string { return p.do("open", "x", path) },
	"derive": func(p *rpcProc, path string) string { return p.do("derive", "x", path, "2") },
	"gen":    func(p *rpcProc, path string) string { return p.do("gen", "x", path, "XMSSMT-SHAKE_4/2_128") },
	"helper": func(p *rpcProc, path string) string { return p.do("helper", path) },
}

func runC03(t *mon.T) {
	t.Assume = []string{"openers of one path end by closing or dying; a lock left by a dead process whose pid now belongs to another live process is outside the claim", "key files have a single hard link"}
	type combo struct{ holder, attempt, where, ending, via string }
	var combos []combo
	for _, holder := range []string{"load", "derive", "open", "gen", "openfresh"} {
		for _, where := range []string{"same", "other"} {
			for _, ending := range []string{"close", "kill", "close2"} {
				combos = append(combos, combo{holder: holder, where: where, ending: ending})
			}
		}
	}
	mon.Par(len(combos)*t.Pick(1, 6), func(i int) {
		c := combos[i%len(combos)]
		label := fmt.Sprintf("held/%s-%s-%s/%d", c.holder, c.where, c.ending, i/len(combos))
		cs(t, label, func() { c03Held(t, label, c.holder, c.where, c.ending) })
	})
	fails := []string{"truncated", "garbage", "badmagic", "empty", "isdir", "missing", "badderive", "missingdir", "exhausted+1", "badparams", "nokeybytes"}
	mon.Par(len(fails)*2*t.Pick(1, 5), func(i int) {
		f := fails[i%len(fails)]
		where := []string{"same", "other"}[(i/len(fails))%2]
		label := fmt.Sprintf("failed/%s-%s/%d", f, where, i/len(fails)/2)
		cs(t, label, func() { c03Failed(t, label, f, where) })
	})
	mon.Par(t.Pick(9, 90), func(i int) {
		label := fmt.Sprintf("names/%d", i)
		cs(t, label, func() { c03Names(t, label, i) })
	})
	mon.Par(t.Pick(16, 300), func(i int) {
		label := fmt.Sprintf("race/%d", i)
		cs(t, label, func() { c03Race(t, label, i) })
	})
	mon.ParN(3, t.Pick(4, 60), func(i int) {
		label := fmt.Sprintf("procrace/%d", i)
		cs(t, label, func() { c03ProcRace(t, label, i) })
	})
	t.Require("attempts on a held key", 400)
	t.Require("reopened after an ending", 25)
	t.Require("reopened after a failure", 15)
	t.Require("contended acquisitions", 100)
	t.Require("attempts among similarly named keys", 300)
}

// rpcWorker processes for rpc h=4,d=2
const c03H, c03D = 6, 3

func c03Dir(t *mon.T) (root, dir string) {
	root = scratchDir("c03")
	dir = filepath.Join(root, "d")
	os.Mkdir(dir, 0700)
	os.Symlink(dir, filepath.Join(root, "dlink"))
	os.Symlink("dlink", filepath.Join(root, "dlink2"))
	os.Symlink("d/key", filepath.Join(root, "klink"))
	return
}

func c03Held(t *mon.T, label, how, where, ending string) {
	root, dir := c03Dir(t)
	defer os.RemoveAll(root)
	path := filepath.Join(dir, "key")
	seed := t.Sub(label) % 100000
	// a key to begin with
	if how != "openfresh" {
		g := rpcStart(nil, seed, c03H, c03D)
		if a := g.do("derive", "g", path, "1"); !strings.HasPrefix(a, "OK") {
			panic(libErr{"derive: " + a})
		}
		g.do("sign", "g", "2")
		if a := g.do("close", "g"); a != "OK" {
			panic(libErr{"close: " + a})
		}
		g.quit()
	}
	if ending == "kill" && where == "same" {
		where = "other" // this process cannot die
	}
	holder := rpcStart(nil, seed, c03H, c03D)
	defer holder.kill()
	// the attempts come from: the holder's process and another one
	other := rpcStart(nil, seed, c03H, c03D)
	defer other.kill()
	other.do("cd", root)
	holder.do("cd", root)
	var a string
	switch how {
	case "load":
		a = holder.do("load", "h", path)
	case "derive":
		a = holder.do("derive", "h", path, "3")
	case "gen":
		a = holder.do("gen", "h", path, "XMSSMT-SHAKE_6/3_128")
	default:
		a = holder.do("open", "h", path)
	}
	if !strings.HasPrefix(a, "OK") {
		t.Violate("cannot-open:"+how, label, nil, "opening an available key failed: %s", a)
		return
	}
	r := t.Rng(label)
	who := other
	if where == "same" {
		who = holder
	}
	names := []string{"load", "open", "derive", "gen", "helper"}
	sp := spellings(dir, true)
	var spn []string
	for k := range sp {
		if k == "keysymlink" && how == "openfresh" {
			continue // dangling
		}
		spn = append(spn, k)
	}
	for _, k := range sortStrings(spn) {
		for _, n := range names {
			if r.Intn(3) != 0 && k != "plain" && n != "load" {
				continue
			}
			before := snapDir(dir)
			a := attempts[n](who, sp[k])
			after := snapDir(dir)
			t.Count("attempts on a held key", 1)
			t.Nontrivial(strings.Join([]string{how, where, ending, n, k}, "/"))
			det := map[string]any{"attempt": n, "spelling": sp[k], "answer": a, "holder": how, "process": where, "names_before": before.names, "names_after": after.names}
			if a == "DEAD" {
				t.Violate("attempt-crashed", label, lastBytes(who.err.String(), 5000), "an attempt on a held key crashed the process")
				return
			}
			if !strings.HasPrefix(a, "ERR") {
				t.Violate("second-open:"+n+":"+where, label, det, "%s (%s, %s process) succeeded on a key that is open", n, k, where)
				return
			}
			if !strings.HasPrefix(a, "ERR locked=true") {
				t.Violate("not-reported-locked:"+n, label, det, "%s (%s, %s process) on an open key failed without reporting it as locked: %s", n, k, where, a)
			}
			if !bytes.Equal(before.lock, after.lock) || before.lockIno != after.lockIno {
				t.Violate("lock-disturbed", label, det, "%s changed the holder's lock file", n)
			}
			if !bytes.Equal(before.key, after.key) || !bytes.Equal(before.cache, after.cache) {
				t.Violate("key-disturbed", label, det, "%s changed the files of an open key", n)
			}
			if before.names != after.names {
				t.Violate("litter", label, det, "%s left other files behind", n)
			}
		}
	}
	// the holder is undisturbed
	if how == "load" || how == "derive" || how == "gen" {
		if a := holder.do("sign", "h", "2"); !strings.HasPrefix(a, "OK") {
			t.Violate("holder-disturbed", label, a, "the holder cannot sign any more: %s", a)
		}
	}
	if strings.TrimSpace(string(snapDir(dir).lock)) != fmt.Sprint(holder.pid()) {
		t.Violate("lock-content", label, nil, "the lock file does not name the holder")
	}
	// ending
	switch ending {
	case "close", "close2":
		if a := holder.do("close", "h"); a != "OK" {
			t.Violate("close-failed", label, nil, "the holder's Close failed: %s", a)
			return
		}
	case "kill":
		holder.kill()
		clearReusedPid(t, path+".lock")
	}
	// available again; in another process first or in the same
	next := other
	if ending != "kill" && r.Intn(2) == 0 {
		next = holder
	}
	ok := func(a, what string) bool {
		if !strings.HasPrefix(a, "OK") {
			t.Violate("not-available:"+ending, label, a, "after the holder's %s, %s fails: %s", ending, what, a)
			return false
		}
		return true
	}
	if how == "openfresh" {
		if !ok(next.do("derive", "n", path, "1"), "generation") {
			return
		}
	} else if !ok(next.do("load", "n", sp[spn[r.Intn(len(spn))]]), "loading") {
		return
	}
	t.Count("reopened after an ending", 1)
	if ending == "close2" {
		// a second Close of the old handle must not free the new one
		before := snapDir(dir)
		holder.do("close", "h")
		after := snapDir(dir)
		if !bytes.Equal(before.lock, after.lock) || before.lockIno != after.lockIno {
			t.Violate("lock-stolen", label, nil, "closing an already closed handle removed the lock of the next holder")
		}
		for _, who := range []*rpcProc{other, holder} {
			a := who.do("load", "y", path)
			if !strings.HasPrefix(a, "ERR locked=true") {
				t.Violate("second-open-after-close2", label, a, "after closing an old handle twice a held key can be opened: %s", a)
			}
		}
	}
	ok(next.do("sign", "n", "1"), "signing")
	ok(next.do("close", "n"), "closing")
	if how != "openfresh" {
		t.Sample(map[string]any{"case": label, "attempts_on": sortStrings(spn)})
	}
}

// c03Names: keys with similar names are different keys.  Each can be opened
// whatever the state of the others, and closing one frees that one only.
func c03Names(t *mon.T, label string, i int) {
	root := scratchDir("c03n")
	defer os.RemoveAll(root)
	sets := [][]string{
		{"key.a", "key.b", "key", "key.", "key.a.b"},
		{"key", "Key", "KEY", "key1", "key11"},
		{"a/key", "b/key", "key", "a/b/key"},
		{"key ", " key", "key", "ke y", "key~"},
		{".key", "key", "..key", "_key", "-key"},
		{"k\u00e9y", "ke\u0301y", "k?y", "k*y", "k%79y"},
		{"x.tar.gz", "x.tar.xz", "x.tar", "x"},
		{strings.Repeat("n", 200) + "1", strings.Repeat("n", 200) + "2", strings.Repeat("n", 200)},
		{"lock", "cache", "tmp", "key.lock.x", "key.cache.y", "key"},
	}
	names := sets[i%len(sets)]
	r := t.Rng(label)
	seed := t.Sub(label) % 100000
	a := rpcStart(nil, seed, c03H, c03D)
	defer a.kill()
	b := rpcStart(nil, seed, c03H, c03D)
	defer b.kill()
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	path := func(n string) string { return filepath.Join(root, n) }
	holder := map[string]*rpcProc{}
	for _, n := range names {
		os.MkdirAll(filepath.Dir(path(n)), 0700)
		who := []*rpcProc{a, b}[r.Intn(2)]
		if ans := who.do("derive", n, path(n), fmt.Sprint(len(holder)+1)); !strings.HasPrefix(ans, "OK") {
			t.Violate("similar-name-refused", label, names, "with keys of similar names open, generating %q fails: %s", n, ans)
			return
		}
		holder[n] = who
	}
	for step := 0; step < 30; step++ {
		n := names[r.Intn(len(names))]
		who := []*rpcProc{a, b}[r.Intn(2)]
		if h := holder[n]; h != nil && r.Intn(3) == 0 {
			if ans := h.do("close", n); ans != "OK" {
				t.Violate("close-failed", label, names, "closing %q fails: %s", n, ans)
				return
			}
			holder[n] = nil
		} else if h != nil {
			for _, at := range []string{"load", "open", "helper"} {
				ans := attempts[at](who, path(n))
				t.Count("attempts among similarly named keys", 1)
				if !strings.HasPrefix(ans, "ERR locked=true") {
					t.Violate("second-open:"+at, label, map[string]any{"names": names, "answer": ans}, "with keys of similar names around, %s succeeded on %q although it is open: %s", at, n, clip(ans, 200))
					return
				}
			}
			if ans := h.do("sign", n, "1"); !strings.HasPrefix(ans, "OK") {
				t.Violate("holder-disturbed", label, ans, "the holder of %q cannot sign: %s", n, ans)
				return
			}
		} else {
			ans := who.do("load", n, path(n))
			t.Count("attempts among similarly named keys", 1)
			if !strings.HasPrefix(ans, "OK") {
				t.Violate("not-available:similar", label, names, "%q is not open, but cannot be loaded with keys of similar names around: %s", n, ans)
				return
			}
			holder[n] = who
		}
	}
	t.Nontrivial(label + strings.Join(names, "/"))
}

func sortStrings(x []string) []string {
	x = append([]string(nil), x...)
	for i := range x {
		for j := i; j > 0 && x[j] < x[j-1]; j-- {
			x[j], x[j-1] = x[j-1], x[j]
		}
	}
	return x
}

// c03Failed: a failed open, load or generation must not keep the key locked.
func c03Failed(t *mon.T, label, what, where string) {
	root, dir := c03Dir(t)
	defer os.RemoveAll(root)
	path := filepath.Join(dir, "key")
	seed := t.Sub(label) % 100000
	a := rpcStart(nil, seed, c03H, c03D)
	defer a.kill()
	b := a
	if where == "other" {
		b = rpcStart(nil, seed, c03H, c03D)
		defer b.kill()
	}
	var good []byte
	prepare := func() {
		if r := a.do("derive", "g", path, "1"); !strings.HasPrefix(r, "OK") {
			panic(libErr{"derive: " + r})
		}
		a.do("sign", "g", "1")
		a.do("close", "g")
		good, _ = os.ReadFile(path)
	}
	damage := func(f func(b []byte) []byte) {
		prepare()
		os.WriteFile(path, f(clone(good)), 0600)
	}
	repair := func() { os.WriteFile(path, good, 0600) }
	var fails []string
	switch what {
	case "truncated":
		damage(func(b []byte) []byte { return b[:len(b)-7] })
	case "nokeybytes":
		damage(func(b []byte) []byte { return b[:36] })
	case "garbage":
		damage(func(b []byte) []byte {
			return []byte("this is not a key file, not even nearly; it is much longer than a header")
		})
	case "badmagic":
		damage(func(b []byte) []byte { b[0] ^= 1; return b })
	case "empty":
		damage(func(b []byte) []byte { return nil })
	case "badparams":
		damage(func(b []byte) []byte { b[12] = 7; return b })
	case "exhausted+1":
		damage(func(b []byte) []byte {
			// the sequence number follows the 16 byte parameters
			for i := 0; i+8 <= len(b); i++ {
				if bytes.Equal(b[i:i+8], []byte{0, 0, 0, 0, 0, 0, 0, 1}) {
					copy(b[i:], []byte{0, 0, 0, 1, 0, 0, 0, 1})
					break
				}
			}
			return b
		})
	case "isdir":
		os.Mkdir(path, 0700)
		repair = func() { os.Remove(path) }
	case "missing":
		repair = func() {}
	case "badderive":
		fails = append(fails, a.do("badderive", path))
		repair = func() {}
	case "missingdir":
		path = filepath.Join(dir, "later", "key")
		for _, n := range []string{"load", "derive", "helper"} {
			fails = append(fails, attempts[n](a, path))
		}
		for _, f := range fails {
			if strings.HasPrefix(f, "ERR locked=true") {
				t.Violate("wrongly-locked", label, f, "a path in a missing directory is reported as locked")
			}
		}
		os.Mkdir(filepath.Join(dir, "later"), 0700)
		repair = func() {}
	}
	if what != "badderive" && what != "missingdir" {
		fails = append(fails, a.do("load", "x", path), a.do("helper", path), a.do("load", "x", path))
		if what == "isdir" {
			fails = append(fails, a.do("derive", "x", path, "1"))
		}
	}
	for i, f := range fails {
		if f == "DEAD" {
			t.Violate("failed-open-crashed", label, lastBytes(a.err.String(), 4000), "opening a bad key crashed")
			return
		}
		if !strings.HasPrefix(f, "ERR") {
			t.Violate("bad-accepted:"+what, label, f, "attempt %d on a bad key (%s) succeeded: %s", i, what, f)
			return
		}
		if strings.HasPrefix(f, "ERR locked=true") {
			t.Violate("kept-lock:"+what, label, fails, "attempt %d after a failure (%s) reports the key as locked: the failed one kept the lock", i, what)
			return
		}
	}
	repair()
	var r string
	if good == nil {
		r = b.do("derive", "y", path, "1")
	} else {
		r = b.do("load", "y", path)
	}
	if !strings.HasPrefix(r, "OK") {
		t.Violate("not-available-after:"+what, label, map[string]any{"fails": fails, "answer": r}, "after a failed attempt (%s) the %s process cannot open the key: %s", what, where, r)
		return
	}
	t.Count("reopened after a failure", 1)
	t.Nontrivial("failed/" + what + "/" + where)
	b.do("sign", "y", "1")
	b.do("close", "y")
}

// c03Race: goroutines of one process race for a key; holding intervals must
// not overlap, and everybody gets it in the end.
func c03Race(t *mon.T, label string, i int) {
	root, dir := c03Dir(t)
	defer os.RemoveAll(root)
	path := filepath.Join(dir, "key")
	s := mkSeeds(t.Rng(label), 16)
	ctx := mustCtx(cheap(8, 4))
	ctx.Threads = 1
	sk, _, err := ctx.Derive(path, s.pub, s.sk, s.prf)
	if err != nil {
		panic(libErr{"Derive: " + err.Error()})
	}
	sk.Close()
	var sp []string
	for _, v := range spellings(dir, false) {
		sp = append(sp, v)
	}
	sp = sortStrings(sp)
	var mu sync.Mutex
	held := 0
	l := newLedger(t, label)
	grp := &group{t: t, label: label}
	lockedSeen := 0
	deadline := time.Now().Add(100 * time.Second)
	for g := 0; g < 4; g++ {
		g := g
		rr := t.Rng(fmt.Sprintf("%s/%d", label, g))
		grp.Go(func() {
			for k := 0; k < 5; {
				if time.Now().After(deadline) {
					t.Inconclusive("%s: out of time", label)
					return
				}
				sk, _, _, err := xmssmt.LoadPrivateKey(sp[rr.Intn(len(sp))])
				if err != nil {
					if !err.Locked() {
						t.Violate("race-error", label, err.Error(), "opening a contended key failed, not as locked: %v", err)
						return
					}
					mu.Lock()
					lockedSeen++
					mu.Unlock()
					time.Sleep(time.Duration(rr.Intn(500)) * time.Microsecond)
					continue
				}
				mu.Lock()
				held++
				if held > 1 {
					t.Violate("held-twice", label, nil, "two goroutines hold the same key file at once")
				}
				mu.Unlock()
				sig, err := sk.Sign(nil)
				if err == nil {
					l.take(uint64(sig.SeqNo()), fmt.Sprint(g))
				}
				jitter(4)
				mu.Lock()
				held--
				mu.Unlock()
				if err := sk.Close(); err != nil {
					t.Violate("race-close", label, nil, "Close failed: %v", err)
					return
				}
				t.Count("contended acquisitions", 1)
				k++
			}
		})
	}
	grp.Wait()
	t.Count("refusals seen", lockedSeen)
	t.Nontrivial(fmt.Sprintf("%s %d %v", label, lockedSeen, l.order))
	t.Distinct("acquisition orders", fmt.Sprint(l.who))
}

// c03ProcRace: the same between processes, some of which die while holding.
// The holding intervals come from the event log: an acquisition is logged
// after the open returned and a release before the close is called.
func c03ProcRace(t *mon.T, label string, i int) {
	root, dir := c03Dir(t)
	defer os.RemoveAll(root)
	path := filepath.Join(dir, "key")
	seed := t.Sub(label) % 100000
	g := rpcStart(nil, seed, c03H, c03D)
	g.do("derive", "g", path, "1")
	g.do("close", "g")
	g.quit()
	ev := filepath.Join(root, "events")
	procs := 3 + i%3
	var wg sync.WaitGroup
	res := make([]procResult, procs)
	for k := 0; k < procs; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			res[k] = runWorker(nil, nil, "lockrace", path, ev, "12", fmt.Sprint(procs), filepath.Join(root, "bar"), fmt.Sprint(k))
		}(k)
	}
	wg.Wait()
	for k := range res {
		if res[k].code != 0 {
			if key, what := crashVerdict(res[k].stderr); key != "" {
				t.Violate(key, label, lastBytes(res[k].stderr, 10000), "a process crashed in the library: %s", what)
				return
			}
			t.Inconclusive("%s: worker ended with %d %s %s", label, res[k].code, res[k].signal, lastBytes(res[k].stderr, 2000))
			return
		}
	}
	holder, seq := "", []string{}
	for _, e := range readEvents(ev) {
		switch e.kind {
		case "ACQ":
			if holder != "" {
				t.Violate("held-by-two-processes", label, map[string]any{"first": holder, "second": e.f[0]}, "process %s opened the key while %s held it", e.f[0], holder)
				return
			}
			holder = e.f[0]
			seq = append(seq, holder)
			t.Count("contended acquisitions", 1)
		case "REL":
			holder = ""
		case "ERR":
			t.Violate("race-error", label, e.raw, "opening a contended key failed, not as locked: %s", e.raw)
			return
		case "BUSY":
			n, _ := strconv.Atoi(e.f[1])
			t.Count("refusals seen", n)
		}
	}
	t.Nontrivial(label + strings.Join(seq, ","))
	t.Distinct("acquisition orders", strings.Join(seq, ","))
}

func init() {
	workers["lockrace"] = func(args []string) int {
		emit := appendEvents(args[1])
		n, _ := strconv.Atoi(args[2])
		procs, _ := strconv.Atoi(args[3])
		barrier(args[4]+"-a", procs, args[5])
		busy := 0
		for i := 0; i < n; {
			sk, _, _, err := xmssmt.LoadPrivateKey(args[0])
			if err != nil {
				if !err.Locked() {
					emit("ERR %s %v", args[5], err)
					break
				}
				busy++
				time.Sleep(time.Duration(busy%7) * 100 * time.Microsecond)
				continue
			}
			emit("ACQ %s", args[5])
			sk.Sign(nil)
			emit("REL %s", args[5])
			if err := sk.Close(); err != nil {
				emit("ERR %s close: %v", args[5], err)
				break
			}
			i++
		}
		emit("BUSY %s %d", args[5], busy)
		barrier(args[4]+"-b", procs, args[5])
		return 0
	}
}
