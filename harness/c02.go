package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"

	"github.com/bwesterb/go-xmssmt"
	"xverif/mon"
	"xverif/ref"
)

func init() {
	checks["C02"] = check{run: runC02, level: "fault_enumeration",
		rule: "Scripts of key operations run in a real process under strace. For every file system call the process makes: once killed at that call, once per errno with that call failing; then the key is recovered by a fresh process and signs on. Additionally every durable state that a power loss may leave (directory updates since the last directory fsync applied up to any point, unsynced file data absent) is rebuilt from the system call log at every moment and loaded. Oracle: per key, indices released before and after never repeat, recovery works with the same public key, signatures verify against the reference. Non-trivial: distinct (script, fault kind, system call occurrence) that were really hit."}
}

// sysCall is one line of a strace log.
type sysCall struct {
	tid      string
	name     string
	args     string
	ret      string
	raw      string
	injected bool
	nth      int // occurrence number of this syscall on its thread
}

var scRe = regexp.MustCompile(`^(\d+)\s+(\w+)\((.*)\)\s+= (.*)$`)
var scUnf = regexp.MustCompile(`^(\d+)\s+(\w+)\((.*)<unfinished \.\.\.>$`)
var scRes = regexp.MustCompile(`^(\d+)\s+<\.\.\. (\w+) resumed>(.*)\)\s+= (.*)$`)

// parseStrace reads a strace -f -o log.  The main thread is the first.
func parseStrace(path string) (calls []sysCall, mainTid string) {
	b, _ := os.ReadFile(path)
	pend := map[string]string{}
	nth := map[string]int{}
	for _, l := range strings.Split(string(b), "\n") {
		var c sysCall
		if m := scUnf.FindStringSubmatch(l); m != nil {
			if mainTid == "" {
				mainTid = m[1]
			}
			pend[m[1]+m[2]] = m[3]
			// counted when issued
			nth[m[1]+" "+m[2]]++
			continue
		} else if m := scRes.FindStringSubmatch(l); m != nil {
			c = sysCall{tid: m[1], name: m[2], args: pend[m[1]+m[2]] + m[3], ret: m[4], raw: l}
			c.nth = nth[m[1]+" "+m[2]]
		} else if m := scRe.FindStringSubmatch(l); m != nil {
			c = sysCall{tid: m[1], name: m[2], args: m[3], ret: m[4], raw: l}
			if mainTid == "" {
				mainTid = m[1]
			}
			nth[m[1]+" "+m[2]]++
			c.nth = nth[m[1]+" "+m[2]]
		} else {
			continue
		}
		c.injected = strings.Contains(c.ret, "(INJECTED)")
		calls = append(calls, c)
	}
	return
}

const fsCalls = "open,openat,creat,write,pwrite64,writev,read,pread64,fsync,fdatasync,sync_file_range,close,rename,renameat,renameat2,link,linkat,unlink,unlinkat,symlink,symlinkat,ftruncate,truncate,fallocate,lseek,mmap,munmap,msync,newfstatat,fstat,chmod,fchmod,fchmodat,flock,mkdir,mkdirat,copy_file_range,sendfile"

// errnos that a call can realistically fail with.
var errnosFor = map[string][]string{
	"open": {"EMFILE", "ENOSPC"}, "openat": {"EMFILE", "ENOSPC", "EACCES"},
	"write": {"ENOSPC", "EIO"}, "pwrite64": {"ENOSPC", "EIO"}, "read": {"EIO"}, "pread64": {"EIO"},
	"fsync": {"EIO", "ENOSPC"}, "fdatasync": {"EIO"}, "close": {"EIO"},
	"rename": {"EIO", "ENOSPC"}, "renameat": {"EIO", "ENOSPC"}, "renameat2": {"EIO"},
	"link": {"ENOSPC"}, "linkat": {"ENOSPC", "EEXIST"}, "unlink": {"EIO"}, "unlinkat": {"EIO"},
	"ftruncate": {"ENOSPC"}, "fallocate": {"ENOSPC"}, "lseek": {"EIO"}, "mmap": {"ENOMEM"}, "munmap": {"EINVAL"},
	"newfstatat": {"EIO"}, "fstat": {"EIO"}, "chmod": {"EPERM"}, "fchmod": {"EPERM"}, "flock": {"EINTR"},
}

type fsScenario struct {
	name   string
	h, d   int
	prep   string // run first, undisturbed
	script string
	grown  bool
}

const fsRecover = "load,sign 2,borrow 3,sign 1,close,load,sign 1,close"

func strace(log string, extra ...string) []string {
	a := []string{"strace", "-f", "-qq", "-xx", "-s", "70000", "-o", log, "-e", "trace=" + fsCalls, "-e", "signal=none"}
	return append(a, extra...)
}

// relevant says whether a call of the worker touches the key's directory (and
// not the event log).
func relevant(c sysCall, fds *fdTable) bool {
	return fds.touches(c)
}

// fdTable follows which descriptors belong to the key's directory.
type fdTable struct {
	dir string
	fds map[string]string // fd -> path
}

func newFdTable(dir string) *fdTable { return &fdTable{dir, map[string]string{}} }

func unxx(s string) string {
	var b []byte
	for i := 0; i < len(s); {
		if i+3 < len(s) && s[i] == '\\' && s[i+1] == 'x' {
			v, err := strconv.ParseUint(s[i+2:i+4], 16, 8)
			if err == nil {
				b = append(b, byte(v))
				i += 4
				continue
			}
		}
		b = append(b, s[i])
		i++
	}
	return string(b)
}

var strArg = regexp.MustCompile(`"((?:\\x[0-9a-f]{2})*)"`)

func strArgs(args string) (out []string) {
	for _, m := range strArg.FindAllStringSubmatch(args, -1) {
		out = append(out, unxx(m[1]))
	}
	return
}

func firstArg(args string) string {
	f, _, _ := strings.Cut(args, ",")
	return strings.TrimSpace(f)
}

// touches updates the table and tells whether the call concerns the
// directory.
func (f *fdTable) touches(c sysCall) bool {
	ok := !strings.HasPrefix(c.ret, "-1") && !strings.HasPrefix(c.ret, "?")
	in := func(p string) bool { return p == f.dir || strings.HasPrefix(p, f.dir+"/") }
	switch c.name {
	case "open", "openat", "creat":
		s := strArgs(c.args)
		if len(s) == 0 || !in(s[0]) {
			return false
		}
		if ok {
			f.fds[strings.Fields(c.ret)[0]] = s[0]
		}
		return true
	case "close":
		_, had := f.fds[firstArg(c.args)]
		if ok {
			delete(f.fds, firstArg(c.args))
		}
		return had
	case "mmap":
		p := strings.Split(c.args, ",")
		if len(p) < 5 {
			return false
		}
		_, had := f.fds[strings.TrimSpace(p[4])]
		return had
	case "munmap", "msync":
		return false
	case "write", "pwrite64", "writev", "read", "pread64", "fsync", "fdatasync", "sync_file_range", "ftruncate", "fallocate", "lseek", "fstat", "fchmod", "flock":
		_, had := f.fds[firstArg(c.args)]
		return had
	}
	for _, s := range strArgs(c.args) {
		if in(s) {
			return true
		}
	}
	return false
}

// fsRun is one run of a scenario with an optional fault.
type fsRun struct {
	sc     fsScenario
	dir    string
	seed   int64
	events []event
}

func runC02(t *mon.T) {
	scs := []fsScenario{
		{name: "gen", h: 4, d: 2, script: "gen 1,sign 2,close"},
		{name: "sign", h: 4, d: 2, prep: "gen 1,sign 1,close", script: "load,sign 3,close,load,sign 1,close"},
		{name: "borrow", h: 6, d: 2, prep: "gen 1,close", script: "load,borrow 6,sign 2,borrow 2,sign 3,borrow 4,sign 1,close,load,sign 1,drop"},
		{name: "shrink", h: 6, d: 2, prep: "gen 1,close", script: "load,borrow 6,sign 1,borrow 2,sign 4,drop"},
		{name: "overwrite", h: 4, d: 2, prep: "gen 1,sign 5,close", script: "gen 2,sign 2,close"},
	}
	scs = append(scs,
		fsScenario{name: "helper", h: 4, d: 2, prep: "gen 1,close", script: "help 3,load,sign 1,close,help 1"},
		fsScenario{name: "grow", h: 6, d: 3, prep: "gen 1,close", script: "load,sign 9,close,load,sign 5,close"},
		fsScenario{name: "cache", h: 4, d: 2, prep: "gen 1,sign 2,close", script: "load,sign 1,close,resetcache,load,sign 2,close"},
		fsScenario{name: "ifbelow", h: 6, d: 2, prep: "gen 1,close", script: "load,ifbelow 4 0,sign 3,ifbelow 6 2,sign 2,borrow 0,sign 2,drop"},
		fsScenario{name: "end", h: 2, d: 1, prep: "gen 1,close", script: "load,borrow 9,sign 2,drop,load,sign 5,close"},
		fsScenario{name: "jump", h: 6, d: 2, prep: "gen 1,close", script: "load,borrow 3,sign 1,setseq 4,sign 2,borrow 5,sign 1,drop"},
		fsScenario{name: "precomp", h: 4, d: 2, prep: "gen 1,close", script: "load,precomp,sign 6,close"},
	)
	if t.Thorough() {
		scs = append(scs,
			fsScenario{name: "jumpdrop", h: 6, d: 2, prep: "gen 1,close", script: "load,borrow 3,sign 1,setseq 4,sign 2,drop"},
			fsScenario{name: "reborrow", h: 6, d: 2, prep: "gen 1,close", script: "load,borrow 3,sign 3,borrow 5,sign 1,borrow 7,sign 2,borrow 1,sign 1,borrow 0,sign 1,drop,load,sign 1,drop"},
			fsScenario{name: "reload", h: 6, d: 2, prep: "gen 1,close", script: "load,borrow 5,sign 1,drop,load,borrow 4,sign 2,close,load,sign 1,drop,load,sign 1,close"},
		)
	}
	for _, sc := range scs {
		if t.Skip(sc.name) && !strings.HasPrefix(t.Only, sc.name+"/") {
			continue
		}
		enumerateFaults(t, sc)
		if t.Stop() {
			break
		}
	}
	if !t.Stop() {
		killAtRandomTimes(t)
	}
	t.Require("crash points hit", 100)
	t.Require("i/o errors hit", 100)
	t.Require("durable states loaded", 20)
	t.Assume = append(t.Assume,
		"power loss model: file data is durable after fsync of the file, names after fsync of the directory, directory updates become durable in order; cache contents after power loss are arbitrary (C11)",
		"a failing system call has no effect (the fault is injected instead of the call), a killed process stops at the call")
}

type faultPoint struct {
	kind string // kill or an errno
	call string
	nth  int
	desc string
}

func prepScenario(t *mon.T, sc fsScenario, seed int64) string {
	dir := scratchDir("fs-" + sc.name)
	if err := os.Mkdir(filepath.Join(dir, "k"), 0755); err != nil {
		panic("harness: " + err.Error())
	}
	if sc.prep != "" {
		r := runWorker(nil, nil, "fs", filepath.Join(dir, "k"), filepath.Join(dir, "events"), fmt.Sprint(seed), fmt.Sprint(sc.h), fmt.Sprint(sc.d), sc.prep)
		if r.code != 0 {
			t.Violate("prep:"+sc.name, sc.name, r, "undisturbed key operations failed: %s", lastBytes(r.stderr, 2000))
		}
	}
	return dir
}

// cloneDir copies a prepared directory (key, cache, events).
func cloneDir(src, name string) string {
	dst := scratchDir(name)
	os.Mkdir(filepath.Join(dst, "k"), 0755)
	for _, sub := range []string{"", "k"} {
		ents, _ := os.ReadDir(filepath.Join(src, sub))
		for _, e := range ents {
			if e.IsDir() {
				continue
			}
			b, err := os.ReadFile(filepath.Join(src, sub, e.Name()))
			if err == nil {
				os.WriteFile(filepath.Join(dst, sub, e.Name()), b, 0600)
			}
		}
	}
	return dst
}

// faultPoints lists the kills and failures that a run can be subjected to.
func faultPoints(calls []sysCall, mainTid, dir string, few bool, seen func()) (points []faultPoint) {
	fds := newFdTable(dir)
	for _, c := range calls {
		if !fds.touches(c) {
			continue
		}
		seen()
		if c.tid != mainTid {
			continue // not addressable by number
		}
		points = append(points, faultPoint{"kill", c.name, c.nth, ""})
		errs := errnosFor[c.name]
		if few && len(errs) > 1 {
			errs = errs[:1]
		}
		for _, e := range errs {
			points = append(points, faultPoint{e, c.name, c.nth, ""})
		}
	}
	return
}

func enumerateFaults(t *mon.T, sc fsScenario) {
	seed := t.Sub("keys/"+sc.name) % 1000000
	base := prepScenario(t, sc, seed)
	defer os.RemoveAll(base)
	// Dry run: which calls are there?  Twice, for a stable numbering.
	dry := cloneDir(base, "dry")
	defer os.RemoveAll(dry)
	log := filepath.Join(dry, "strace")
	r := runWorker(strace(log), nil, "fs", filepath.Join(dry, "k"), filepath.Join(dry, "events"), fmt.Sprint(seed), fmt.Sprint(sc.h), fmt.Sprint(sc.d), sc.script)
	calls, mainTid := parseStrace(log)
	if r.code != 0 || len(calls) == 0 {
		if r.code == 2 && mon.Library(r.stderr) && !strings.Contains(r.stderr, "runtime: cannot allocate memory") && !strings.Contains(r.stderr, "runtime: out of memory") {
			t.Violate("crash:"+sc.name, sc.name, lastBytes(r.stderr, 8000), "undisturbed key operations crashed: %s", lastBytes(r.stderr, 1500))
		} else {
			t.Inconclusive("strace dry run of %s failed (%d %s): %s", sc.name, r.code, r.signal, lastBytes(r.stderr, 1500))
		}
		return
	}
	judge(t, sc, sc.name+"/dry", seed, dry, true, "undisturbed run")
	powerLoss(t, sc, seed, dry, calls)
	points := faultPoints(calls, mainTid, filepath.Join(dry, "k"), !t.Thorough(), func() { t.Count("file system calls seen", 1) })
	mon.Par(len(points), func(i int) {
		p := points[i]
		label := fmt.Sprintf("%s/%s@%s#%d", sc.name, p.kind, p.call, p.nth)
		cs(t, label, func() {
			d := cloneDir(base, "run")
			defer os.RemoveAll(d)
			lg := filepath.Join(d, "strace")
			inj := fmt.Sprintf("inject=%s:error=%s:when=%d", p.call, p.kind, p.nth)
			if p.kind == "kill" {
				inj = fmt.Sprintf("inject=%s:error=EIO:signal=SIGKILL:when=%d", p.call, p.nth)
			}
			r := runWorker(strace(lg, "-e", inj), nil, "fs", filepath.Join(d, "k"), filepath.Join(d, "events"), fmt.Sprint(seed), fmt.Sprint(sc.h), fmt.Sprint(sc.d), sc.script)
			got, _ := parseStrace(lg)
			hit := false
			ft := newFdTable(filepath.Join(d, "k"))
			for _, c := range got {
				rel := ft.touches(c)
				if c.injected && rel {
					hit = true
				}
			}
			if p.kind == "kill" {
				// the last line has no result
				if r.signal == "killed" || r.code == 137 {
					hit = true
				}
			}
			if r.killed {
				t.Inconclusive("%s: the worker did not end: %s", label, lastBytes(r.stderr, 3000))
				return
			}
			if !hit {
				t.Count("faults that missed", 1)
				// still a valid run
			} else {
				if p.kind == "kill" {
					t.Count("crash points hit", 1)
				} else {
					t.Count("i/o errors hit", 1)
				}
				t.Nontrivial(label)
			}
			if r.code == 2 && mon.Library(r.stderr) && !strings.Contains(r.stderr, "runtime: cannot allocate memory") && !strings.Contains(r.stderr, "runtime: out of memory") {
				t.Count("runs that crashed in the library", 1)
				if os.Getenv("XV_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, label, inj, r.stderr)
				}
			}
			judge(t, sc, label, seed, d, false, inj)
		})
	})
}

// judge recovers the key in a fresh process and applies the oracle.
func judge(t *mon.T, sc fsScenario, label string, seed int64, dir string, undisturbed bool, fault string) {
	before := readEvents(filepath.Join(dir, "events"))
	recoverKey := func(script string) procResult {
		return runWorker(nil, nil, "fs", filepath.Join(dir, "k"), filepath.Join(dir, "events"), fmt.Sprint(seed), fmt.Sprint(sc.h), fmt.Sprint(sc.d), script)
	}
	clearReusedPid(t, filepath.Join(dir, "k", "key.lock"))
	r := recoverKey(fsRecover)
	evs := readEvents(filepath.Join(dir, "events"))
	after := evs[len(before):]
	detail := map[string]any{"fault": fault, "script": sc.script, "prep": sc.prep, "events": eventLines(evs), "stderr": lastBytes(r.stderr, 3000)}
	if r.killed {
		t.Inconclusive("%s: recovery did not end", label)
		return
	}
	if r.code == 2 {
		t.Violate("recover-crash:"+sc.name, label, detail, "recovering the key after %s crashed: %s", fault, lastBytes(r.stderr, 1500))
		return
	}
	// What may be at the path?  Keys whose generation was begun, unless a
	// later one was completed.
	begun := map[string]bool{}
	must := false
	for _, e := range before {
		switch e.kind {
		case "BEGIN":
			k, _ := strconv.Atoi(e.f[1])
			root := fmt.Sprintf("%x", fsRefKey(seed, sc.h, sc.d, k).Root())
			if !must {
				begun = map[string]bool{}
			}
			begun[root] = true
		case "GEN":
			begun = map[string]bool{e.f[1]: true}
			must = true
		case "REL":
			must = true
		}
	}
	loaded := ""
	for _, e := range after {
		if e.kind == "LOAD" && loaded == "" {
			loaded = e.f[2]
		}
		if e.kind == "LOAD" && loaded != e.f[2] {
			t.Violate("pk-changed", label, detail, "the public key changed between two loads")
		}
	}
	if loaded != "" && !begun[loaded] {
		t.Violate("wrong-key:"+sc.name, label, detail, "the recovered key is not one that was generated")
	}
	if loaded == "" && must {
		msg := ""
		for _, e := range after {
			if e.kind == "ERR" {
				msg = e.raw
				break
			}
		}
		t.Violate("lost-key:"+sc.name, label, detail, "after %s a key that had been generated cannot be opened: %s", fault, msg)
	}
	checkReleases(t, label, seed, sc.h, sc.d, evs, detail, fault)
	if loaded != "" {
		n := 0
		for _, e := range after {
			if e.kind == "REL" {
				n++
			}
			if e.kind == "ERR" && !strings.Contains(e.raw, "No unused signatures") && e.f[0] == "sign" {
				t.Violate("recovered-cannot-sign:"+sc.name, label, detail, "after %s the recovered key cannot sign: %s", fault, e.raw)
			}
		}
		t.Count("signatures after recovery", n)
		t.Count("recoveries", 1)
	}
}

func eventLines(evs []event) (out []string) {
	for _, e := range evs {
		s := e.raw
		if len(s) > 120 {
			s = s[:120]
		}
		out = append(out, s)
	}
	return
}

// checkReleases: no index twice per key, all signatures valid.
func checkReleases(t *mon.T, label string, seed int64, h, d int, evs []event, detail any, fault string) {
	seen := map[string]bool{}
	keys := map[string][]byte{}
	for k := 1; k <= 3; k++ {
		rk := fsRefKey(seed, h, d, k)
		keys[fmt.Sprintf("%x", rk.Root())] = rk.PublicKey()
		if h/d > 4 {
			break
		}
	}
	for _, r := range releases(evs) {
		t.Count("signatures released", 1)
		id := fmt.Sprintf("%s/%d", r.key, r.idx)
		if seen[id] {
			t.Violate("index-reuse", label, detail, "index %d was released twice by one key (%s)", r.idx, fault)
		}
		seen[id] = true
		pk, ok := keys[r.key]
		if !ok {
			t.Violate("unknown-key", label, detail, "signature under a public key that does not belong to the generated key")
			continue
		}
		if !r.ok || !ref.Verify(pk, r.sig, r.msg) {
			t.Violate("invalid-signature", label, detail, "the signature released at index %d is invalid (%s)", r.idx, fault)
		}
	}
}

// clearReusedPid removes a lock file whose (dead) owner's pid now belongs to
// an unrelated process: an artefact of pid reuse in a busy sandbox.
func clearReusedPid(t *mon.T, lock string) {
	b, err := os.ReadFile(lock)
	if err != nil {
		return
	}
	pid, err := strconv.Atoi(strings.TrimSpace(string(b)))
	if err != nil {
		return
	}
	if syscall.Kill(pid, 0) == nil {
		// no worker of this directory is alive any more
		os.Remove(lock)
		t.Count("stale locks with a reused pid", 1)
	}
}

// ---- power loss ----

type pinode struct {
	durable []byte // content guaranteed
	synced  bool   // no unsynced change
	data    []byte
}

type dirOp struct {
	name  string
	inode *pinode // nil: removed
}

// powerLoss replays the log against the durability model.
func powerLoss(t *mon.T, sc fsScenario, seed int64, dry string, calls []sysCall) {
	dir := filepath.Join(dry, "k")
	evFile := filepath.Join(dry, "events")
	names := map[string]*pinode{}   // current directory
	durable := map[string]*pinode{} // durable directory
	var pending []dirOp
	type ofd struct {
		ino  *pinode
		pos  int
		dir  bool
		ev   bool
		sync bool
		path string
	}
	fds := map[string]*ofd{}
	// The prepared files are durable.  Their contents are those of the base
	// clone: rebuild them by running prep alone.
	prep := prepScenario(t, fsScenario{name: "pl-" + sc.name, h: sc.h, d: sc.d, prep: sc.prep}, seed)
	defer os.RemoveAll(prep)
	ents, _ := os.ReadDir(filepath.Join(prep, "k"))
	for _, e := range ents {
		b, _ := os.ReadFile(filepath.Join(prep, "k", e.Name()))
		ino := &pinode{durable: b, data: clone(b), synced: true}
		names[e.Name()] = ino
		durable[e.Name()] = ino
	}
	released := map[string]uint64{} // root -> highest released + 1
	var mu sync.Mutex
	states := map[string]map[string]uint64{} // key file content -> released at that time
	note := func(content []byte) {
		mu.Lock()
		defer mu.Unlock()
		m := states[string(content)]
		if m == nil {
			m = map[string]uint64{}
			states[string(content)] = m
		}
		for k, v := range released {
			if v > m[k] {
				m[k] = v
			}
		}
	}
	for _, r := range releases(readEvents(filepath.Join(prep, "events"))) {
		released[r.key] = max(released[r.key], r.idx+1)
	}
	generated := sc.prep != ""
	label := sc.name + "/power"
	check := func(c sysCall) {
		// every prefix of the pending directory operations
		cur := durable["key"]
		cands := []*pinode{cur}
		for _, op := range pending {
			if op.name == "key" {
				cands = append(cands, op.inode)
			}
		}
		for _, ino := range cands {
			t.Count("power loss moments", 1)
			if ino == nil {
				if len(released) > 0 || generated {
					t.Violate("power-lost-key:"+sc.name, label, c.raw, "a power loss here leaves no key file although the key was in use")
				}
				continue
			}
			if !ino.synced {
				t.Violate("power-torn-key:"+sc.name, label, map[string]any{"call": c.raw}, "a power loss here leaves a key file whose contents were not yet fsynced")
				continue
			}
			note(ino.durable)
		}
	}
	basen := func(p string) (string, bool) {
		if filepath.Dir(p) == dir {
			return filepath.Base(p), true
		}
		return "", false
	}
	for _, c := range calls {
		if strings.HasPrefix(c.ret, "-1") || strings.HasPrefix(c.ret, "?") {
			continue
		}
		s := strArgs(c.args)
		fd := firstArg(c.args)
		switch c.name {
		case "open", "openat", "creat":
			if len(s) == 0 {
				continue
			}
			nfd := strings.Fields(c.ret)[0]
			delete(fds, nfd)
			if s[0] == dir {
				fds[nfd] = &ofd{dir: true}
				continue
			}
			if s[0] == evFile {
				fds[nfd] = &ofd{ev: true}
				continue
			}
			b, in := basen(s[0])
			if !in {
				continue
			}
			ino := names[b]
			if ino == nil {
				ino = &pinode{synced: true}
				if strings.Contains(c.args, "O_CREAT") {
					names[b] = ino
					pending = append(pending, dirOp{b, ino})
				}
			} else if strings.Contains(c.args, "O_TRUNC") && len(ino.data) > 0 {
				ino.data = nil
				ino.synced = false
			}
			fds[nfd] = &ofd{ino: ino, path: b, sync: strings.Contains(c.args, "O_SYNC") || strings.Contains(c.args, "O_DSYNC")}
		case "close":
			delete(fds, fd)
		case "lseek":
			if o := fds[fd]; o != nil && o.ino != nil {
				v, _ := strconv.Atoi(strings.Fields(c.ret)[0])
				o.pos = v
			}
		case "write", "pwrite64":
			o := fds[fd]
			if o == nil {
				continue
			}
			if len(s) == 0 {
				continue
			}
			if o.ev {
				for _, r := range releases(parseEvents(s[0])) {
					released[r.key] = max(released[r.key], r.idx+1)
				}
				for _, e := range parseEvents(s[0]) {
					if e.kind == "GEN" {
						generated = true
					}
				}
				check(c)
				continue
			}
			if o.ino == nil {
				continue
			}
			n, _ := strconv.Atoi(strings.Fields(c.ret)[0])
			pos := o.pos
			if c.name == "pwrite64" {
				a := strings.Split(c.args, ",")
				pos, _ = strconv.Atoi(strings.TrimSpace(a[len(a)-1]))
			} else {
				o.pos += n
			}
			for len(o.ino.data) < pos+n {
				o.ino.data = append(o.ino.data, 0)
			}
			copy(o.ino.data[pos:], s[0][:min(n, len(s[0]))])
			o.ino.synced = false
			if o.sync {
				o.ino.durable, o.ino.synced = clone(o.ino.data), true
			}
		case "ftruncate":
			if o := fds[fd]; o != nil && o.ino != nil {
				o.ino.synced = false
			}
		case "fsync", "fdatasync":
			o := fds[fd]
			if o == nil {
				continue
			}
			if o.dir {
				for _, op := range pending {
					if op.inode == nil {
						delete(durable, op.name)
					} else {
						durable[op.name] = op.inode
					}
				}
				pending = nil
			} else if o.ino != nil {
				o.ino.durable, o.ino.synced = clone(o.ino.data), true
			}
		case "rename", "renameat", "renameat2":
			if len(s) < 2 {
				continue
			}
			a, in1 := basen(s[0])
			b, in2 := basen(s[1])
			if in1 {
				ino := names[a]
				delete(names, a)
				pending = append(pending, dirOp{a, nil})
				if in2 && ino != nil {
					names[b] = ino
					// a rename is atomic: both changes at once
					pending[len(pending)-1] = dirOp{b, ino}
				}
			}
		case "link", "linkat":
			if len(s) < 2 {
				continue
			}
			a, in1 := basen(s[0])
			b, in2 := basen(s[1])
			if in1 && in2 && names[a] != nil {
				names[b] = names[a]
				pending = append(pending, dirOp{b, names[a]})
			}
		case "unlink", "unlinkat":
			if len(s) < 1 {
				continue
			}
			if b, in := basen(s[0]); in {
				delete(names, b)
				pending = append(pending, dirOp{b, nil})
			}
		default:
			continue
		}
		check(c)
	}
	// Load every distinct durable state and see where it would continue.
	var contents []string
	for c := range states {
		contents = append(contents, c)
	}
	sort.Strings(contents)
	for _, content := range contents {
		d := scratchDir("pl")
		p := filepath.Join(d, "key")
		os.WriteFile(p, []byte(content), 0600)
		sk, pk, _, err := xmssmt.LoadPrivateKey(p)
		if err != nil {
			t.Violate("power-unloadable:"+sc.name, label, fmt.Sprintf("%x", content), "a key file that a power loss may leave cannot be loaded: %v", err)
		} else {
			root := fmt.Sprintf("%x", pkBytes(pk)[4:20])
			if uint64(sk.SeqNo()) < states[content][root] {
				t.Violate("power-index-reuse:"+sc.name, label, fmt.Sprintf("%x", content),
					"after a power loss the key may continue at %d although %d was released", sk.SeqNo(), states[content][root]-1)
			}
			sk.Close()
			t.Count("durable states loaded", 1)
			t.Nontrivial(label + content)
		}
		os.RemoveAll(d)
	}
}

// killAtRandomTimes kills concurrent signers at random moments (not only at
// system calls of one thread).
func killAtRandomTimes(t *mon.T) {
	n := t.Pick(24, 300)
	mon.Par(n, func(i int) {
		label := fmt.Sprintf("randkill/%d", i)
		cs(t, label, func() {
			r := t.Rng(label)
			sc := fsScenario{name: "randkill", h: 12, d: 4, script: ""}
			seed := t.Sub(label) % 1000000
			d := scratchDir("rk")
			defer os.RemoveAll(d)
			os.Mkdir(filepath.Join(d, "k"), 0755)
			rounds := 2 + r.Intn(2)
			for k := 0; k < rounds; k++ {
				sub := "load"
				if k == 0 {
					sub = "gen"
				}
				clearReusedPid(t, filepath.Join(d, "k", "key.lock"))
				pr := runWorker(nil, nil, "fsconc", filepath.Join(d, "k"), filepath.Join(d, "events"), fmt.Sprint(seed), sub,
					fmt.Sprint(1+r.Intn(4)), fmt.Sprint(r.Intn(3)), fmt.Sprint(20+r.Intn(200)), fmt.Sprint(r.Int63()))
				if pr.code == 2 && mon.Library(pr.stderr) {
					t.Violate("crash", label, lastBytes(pr.stderr, 8000), "signing crashed: %s", lastBytes(pr.stderr, 1500))
				}
				if pr.signal == "killed" {
					t.Count("random kills", 1)
					t.Nontrivial(label + fmt.Sprint(k))
				}
			}
			judge(t, sc, label, seed, d, false, "SIGKILL at random moments of concurrent signing")
		})
	})
}

func init() {
	// fsconc: concurrent signers on one key, killing themselves after a
	// number of releases.
	workers["fsconc"] = func(args []string) int {
		dir, evPath := args[0], args[1]
		seed, _ := strconv.ParseInt(args[2], 10, 64)
		nthr, _ := strconv.Atoi(args[4])
		mode, _ := strconv.Atoi(args[5])
		nrel, _ := strconv.Atoi(args[6])
		rs, _ := strconv.ParseInt(args[7], 10, 64)
		rr := rand.New(rand.NewSource(rs))
		ev, err := os.OpenFile(evPath, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0600)
		if err != nil {
			return 3
		}
		emit := func(f string, a ...any) { syscall.Write(int(ev.Fd()), []byte(fmt.Sprintf(f, a...)+"\n")) }
		ctx := mustCtx(cheap(12, 4))
		path := filepath.Join(dir, "key")
		var sk *xmssmt.PrivateKey
		var pk *xmssmt.PublicKey
		if args[3] == "gen" {
			s := fsSeeds(seed, 1)
			emit("BEGIN gen 1")
			k, p, err := ctx.Derive(path, s.pub, s.sk, s.prf)
			if err != nil {
				emit("ERR gen locked=%v %v", err.Locked(), err)
				return 0
			}
			sk, pk = k, p
			emit("GEN 1 %x", pkBytes(pk)[4:20])
		} else {
			k, p, _, err := xmssmt.LoadPrivateKey(path)
			if err != nil {
				emit("ERR load locked=%v %v", err.Locked(), err)
				return 0
			}
			sk, pk = k, p
		}
		pkb := pkBytes(pk)
		xmssmt.SetLogger(jitterLogger{1})
		if mode > 0 {
			sk.BorrowExactly(uint32(3 + rr.Intn(20)))
		}
		if mode > 1 {
			sk.EnableSubTreePrecomputation()
		}
		var wg sync.WaitGroup
		var mu sync.Mutex
		count := 0
		for w := 0; w < nthr; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for {
					mu.Lock()
					n := count
					mu.Unlock()
					m := []byte(fmt.Sprintf("%d %d %d", os.Getpid(), w, n))
					sig, err := sk.Sign(m)
					if err != nil {
						emit("ERR sign locked=%v %v", err.Locked(), err)
						return
					}
					b := sigBytes(sig)
					ok, _ := xmssmt.Verify(pkb, b, m)
					emit("REL %d %x %v %x %x", sig.SeqNo(), pkb[4:20], ok, m, b)
					if mode > 0 && n%7 == 3 {
						sk.BorrowExactlyIfBelow(uint32(2+n%11), 1)
					}
					mu.Lock()
					count++
					if count == nrel {
						syscall.Kill(os.Getpid(), syscall.SIGKILL)
						select {}
					}
					mu.Unlock()
				}
			}(w)
		}
		wg.Wait()
		return 0
	}
}
