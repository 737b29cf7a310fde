package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"xverif/mon"
)

// c17Files lets every single file operation of the file container fail once
// (as the kernel would report it) and watches the key from outside: no crash,
// no second error, and all later operations succeed.
func c17Files(t *mon.T) {
	scs := []fsScenario{
		{name: "deep", h: 6, d: 3, prep: "gen 1,close", script: "load,load,sign 3,borrow 4,sign 3,close,load,load,sign 2,close"},
		{name: "warm", h: 4, d: 2, prep: "gen 1,sign 2,close", script: "load,load,sign 4,precomp,sign 3,close,load,load,sign 2,close"},
		{name: "new", h: 4, d: 2, script: "gen 1,load,sign 3,close,load,load,sign 2,close"},
	}
	for _, sc := range scs {
		c17FilesScenario(t, sc)
	}
	t.Require("file operations failed", 100)
	t.Require("files: signatures after a failure", 300)
}

func c17FilesScenario(t *mon.T, sc fsScenario) {
	if t.Skip("files/"+sc.name) && !strings.HasPrefix(t.Only, "files/"+sc.name) {
		return
	}
	seed := t.Sub("files/"+sc.name) % 1000000
	run := func(base, inj string) (string, procResult, []sysCall, string) {
		d := cloneDir(base, "c17")
		lg := filepath.Join(d, "strace")
		var extra []string
		if inj != "" {
			extra = []string{"-e", inj}
		}
		r := runWorker(strace(lg, extra...), nil, "fs", filepath.Join(d, "k"), filepath.Join(d, "events"), fmt.Sprint(seed), fmt.Sprint(sc.h), fmt.Sprint(sc.d), sc.script)
		calls, tid := parseStrace(lg)
		return d, r, calls, tid
	}
	base := prepScenario(t, sc, seed)
	defer os.RemoveAll(base)
	dry, r, calls, tid := run(base, "")
	defer os.RemoveAll(dry)
	if r.code != 0 || len(calls) == 0 {
		t.Inconclusive("strace dry run of files/%s failed (%d %s): %s", sc.name, r.code, r.signal, lastBytes(r.stderr, 1500))
		return
	}
	want := len(releases(readEvents(filepath.Join(dry, "events")))) // with those of prep
	points := faultPoints(calls, tid, filepath.Join(dry, "k"), !t.Thorough(), func() {})
	mon.Par(len(points), func(i int) {
		p := points[i]
		if p.kind == "kill" {
			return
		}
		label := fmt.Sprintf("files/%s/%s@%s#%d", sc.name, p.kind, p.call, p.nth)
		cs(t, label, func() {
			d, r, got, _ := run(base, fmt.Sprintf("inject=%s:error=%s:when=%d", p.call, p.kind, p.nth))
			defer os.RemoveAll(d)
			if r.killed {
				t.Inconclusive("%s: the worker did not end: %s", label, lastBytes(r.stderr, 3000))
				return
			}
			ft := newFdTable(filepath.Join(d, "k"))
			hits := 0
			for _, c := range got {
				if rel := ft.touches(c); c.injected && rel {
					hits++
				}
			}
			if hits != 1 {
				t.Count("files: faults that missed", 1)
				return
			}
			t.Count("file operations failed", 1)
			t.Nontrivial(label)
			evs := readEvents(filepath.Join(d, "events"))
			detail := map[string]any{"script": sc.script, "prep": sc.prep, "events": eventLines(evs), "stderr": lastBytes(r.stderr, 3000)}
			if r.code == 2 && mon.Library(r.stderr) && !strings.Contains(r.stderr, "runtime: cannot allocate memory") && !strings.Contains(r.stderr, "runtime: out of memory") {
				t.Violate("files-crash:"+mon.PanicSite(r.stderr), label, detail, "after %s of %s number %d the library crashed instead of returning an error: %s", p.kind, p.call, p.nth, lastBytes(r.stderr, 1200))
				return
			}
			if r.code != 0 {
				t.Count("files: runs that ended otherwise", 1)
				return
			}
			checkReleases(t, label, seed, sc.h, sc.d, evs, detail, p.kind+" "+p.call)
			var errs []string
			for _, e := range evs {
				if e.kind == "ERR" && e.f[1] == "locked=false" {
					errs = append(errs, e.raw)
				}
			}
			n := len(releases(evs))
			t.Count("files: signatures after a failure", n)
			if len(errs) > 0 && strings.HasPrefix(errs[0], "ERR gen") && n == 0 {
				return // no key came to be
			}
			t.Count("files: later operations that worked", len(evs))
			lost := 0
			if len(errs) > 0 && strings.HasPrefix(errs[0], "ERR sign") {
				lost = 1
			}
			switch {
			case len(errs) > 1:
				t.Violate("files-lasting:"+sc.name, label, detail, "%s of %s number %d happened once, but several operations failed: %v", p.kind, p.call, p.nth, errs)
			case n != want-lost:
				t.Violate("files-signatures:"+sc.name, label, detail, "after %s of %s number %d there were %d signatures instead of %d (errors: %v)", p.kind, p.call, p.nth, n, want-lost, errs)
			case len(errs) == 0 && (p.call == "fsync" || strings.HasPrefix(p.call, "rename")):
				t.Violate("files-swallowed:"+sc.name, label, detail, "%s of %s number %d was not reported by any operation", p.kind, p.call, p.nth)
			}
		})
	})
}
