package main

import (
	"bytes"
	"crypto/rand"
	"encoding/base64"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"io/fs"
	mrand "math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"

	"github.com/bwesterb/go-xmssmt"
	"xverif/memctr"
	"xverif/mon"
	"xverif/ref"
)

func init() {
	checks["C19"] = check{run: runC19,
		rule: "Processes run scripts of all key operations under several umasks while strace records every file they create or change the mode of; after every step all files they left are scanned for the secret seeds and their modes are judged. All log lines (formatted and raw arguments), error messages, answers, standard output and error, public keys and signatures of workloads full of failures are scanned for the secrets in several encodings. The random source is replaced by a recorder, and keys generated in many processes are compared. Non-trivial: distinct (script, umask), failures and generated keys."}
}

// secretSet searches text for secrets.
type secretSet struct {
	names []string
	pats  [][]byte
}

// add registers a secret: raw, hex, base64 and as printed by %v and %d.
func (s *secretSet) add(name string, b []byte) {
	put := func(enc string, x []byte) {
		s.names = append(s.names, name+" ("+enc+")")
		s.pats = append(s.pats, x)
	}
	// Half a seed is enough to give it away.
	for i, part := range [][]byte{b[:len(b)/2], b[len(b)/2:]} {
		put("bytes", part)
		h := hex.EncodeToString(part)
		put("hex", []byte(h))
		put("HEX", []byte(strings.ToUpper(h)))
		l := strings.Trim(fmt.Sprint(part), "[]")
		put("list", []byte(l))
		put("Go", []byte(strings.TrimSuffix(strings.SplitN(fmt.Sprintf("%#v", part), "{", 2)[1], "}")))
		put("spaced hex", []byte(strings.Trim(fmt.Sprintf("% x", part), " ")))
		if i == 0 {
			for off := 0; off < 3; off++ {
				// the inner quartets do not depend on the alignment's rest
				e := base64.StdEncoding.EncodeToString(b[off : off+(len(b)-off)/3*3])
				if len(e) >= 16 {
					put("base64", []byte(e))
				}
				put("base64url", []byte(base64.URLEncoding.EncodeToString(b[off:off+(len(b)-off)/3*3])))
			}
		}
		if q := strconv.QuoteToASCII(string(part)); len(q) > 12 {
			put("quoted", []byte(q[1:len(q)-1]))
		}
	}
}

func (s *secretSet) find(text []byte) string {
	for i, p := range s.pats {
		if bytes.Contains(text, p) {
			return s.names[i]
		}
	}
	return ""
}

func runC19(t *mon.T) {
	t.Assume = []string{"no file of the key was planted by someone else with wider permissions", "one-time secrets may show up in signatures exactly where the scheme reveals them"}
	n := t.Pick(24, 200)
	mon.Par(n, func(i int) {
		l := fmt.Sprintf("files/%d", i)
		cs(t, l, func() { c19Files(t, l, i) })
	})
	scs := []fsScenario{
		{name: "faults/gen", h: 4, d: 2, script: "gen 1,sign 2,borrow 3,sign 1,close"},
		{name: "faults/load", h: 4, d: 2, prep: "gen 1,sign 1,close", script: "load,sign 5,borrow 2,close,help 1,resetcache"},
		{name: "faults/overwrite", h: 4, d: 2, prep: "gen 1,sign 5,close", script: "gen 2,sign 1,close"},
	}
	for _, sc := range scs {
		cs(t, sc.name, func() { c19Faults(t, sc) })
	}
	rec := &c19Logger{t: t}
	xmssmt.SetLogger(rec)
	n = t.Pick(72, 720)
	mon.Par(n, func(i int) {
		l := fmt.Sprintf("text/%d", i)
		cs(t, l, func() { c19Text(t, l, i, rec) })
	})
	rec.finish()
	xmssmt.SetLogger(nil)
	cs(t, "random", func() { c19Random(t, "random") })
	n = t.Pick(12, 60)
	var mu sync.Mutex
	seen := map[string]string{}
	mon.Par(n, func(i int) {
		l := fmt.Sprintf("fresh/%d", i)
		cs(t, l, func() { c19Fresh(t, l, i, &mu, seen) })
	})
	cs(t, "fresh/bits", func() { c19Bits(t, seen) })
	t.Require("files scanned", 500)
	t.Require("outputs with failing system calls scanned", 60)
	t.Require("files created under strace", 100)
	t.Require("log lines scanned", 1000)
	t.Require("error messages scanned", 500)
	t.Require("signatures scanned", 100)
	t.Require("seeds compared", 100)
}

var straceMode = regexp.MustCompile(`^(?:\d+ +)?(openat|open|creat|chmod|fchmod|fchmodat|fchmodat2|mkdir|mkdirat|mknod|mknodat)\((.*)\) += (-?\d+)`)

// c19Files runs a script in a process and looks at its files.
func c19Files(t *mon.T, label string, i int) {
	r := t.Rng(label)
	dir := scratchDir("c19")
	defer os.RemoveAll(dir)
	kd, tmp := filepath.Join(dir, "keys"), filepath.Join(dir, "tmp")
	os.Mkdir(kd, 0777)
	os.Mkdir(tmp, 0777)
	os.Chmod(kd, 0777)
	umask := []string{"0", "022", "0", "077", "0777", "0", "002", "0555"}[i%8]
	log := filepath.Join(dir, "strace")
	wrap := []string{"env", "TMPDIR=" + tmp, "HOME=" + tmp, "XV_LOG=1", "strace", "-f", "-qq", "-y", "-s", "4096", "-o", log, "-e", "signal=none",
		"-e", "trace=openat,open,creat,chmod,fchmod,fchmodat,mkdir,mkdirat,mknod,mknodat"}
	seed := t.Sub(label) % 100000
	p := rpcStart(wrap, seed, 6, 3)
	defer p.kill()
	var sec secretSet
	secretsOf := func(k int) {
		s := fsSeeds(seed, k)
		sec.add(fmt.Sprintf("secret seed of key %d", k), s.sk)
		sec.add(fmt.Sprintf("PRF seed of key %d", k), s.prf)
	}
	for k := 0; k < 4; k++ {
		secretsOf(k)
	}
	var hist []string
	viol := func(key, f string, a ...any) {
		t.Violate(key, label, hist, "umask %s: %s; after %s", umask, fmt.Sprintf(f, a...), strings.Join(tail(hist, 8), ", "))
	}
	open := map[string]bool{} // keys that are open
	scan := func() {
		filepath.WalkDir(dir, func(path string, e fs.DirEntry, err error) error {
			if err != nil || e.IsDir() || path == log {
				return nil
			}
			fi, err := os.Lstat(path)
			if err != nil {
				return nil
			}
			b, err := os.ReadFile(path)
			if err != nil {
				return nil
			}
			t.Count("files scanned", 1)
			what := sec.find(b)
			if isPid := len(b) < 16 && len(strings.Trim(string(b), "0123456789\n")) == 0; isPid {
				return nil // a lock
			}
			rel, _ := filepath.Rel(dir, path)
			if m := fi.Mode().Perm(); m&0077 != 0 {
				viol("mode", "%s has mode %04o (holding %q)", rel, m, what)
			}
			if what == "" {
				return nil
			}
			t.Count("files holding secrets", 1)
			base := path
			for k := range open {
				if strings.HasPrefix(path, k) {
					return nil // while a key is open its files come and go
				}
			}
			switch filepath.Base(base) {
			case "a", "b", "c":
			default:
				viol("leftover", "%s, which is not a key file, holds the %s and all keys are closed", rel, what)
			}
			return nil
		})
	}
	do := func(f ...string) bool {
		hist = append(hist, strings.Join(f, " "))
		a := p.do(f...)
		t.Count("error messages scanned", 1)
		if what := sec.find([]byte(a)); what != "" {
			viol("in-answer", "the %s appears in what %s returned", what, f[0])
		}
		if strings.HasPrefix(a, "HARNESS") || a == "DEAD" {
			t.Inconclusive("%s: %v: %s: %s", label, f, a, lastBytes(p.err.String(), 2000))
			return false
		}
		if f[0] == "derive" || f[0] == "load" || f[0] == "gen" {
			if strings.HasPrefix(a, "OK") {
				open[f[2]] = true
			}
		}
		scan()
		return strings.HasPrefix(a, "OK")
	}
	must := func(f ...string) {
		if !do(f...) {
			viol("refused", "%v was refused", f)
		}
	}
	do("umask", umask)
	names := []string{"a", "b", "c"}
	paths := map[string]string{}
	for j, n := range names {
		paths[n] = filepath.Join(kd, n)
		must("derive", n, paths[n], fmt.Sprint(j))
		if r.Intn(2) == 0 {
			do("precompute", n)
		}
	}
	closed := map[string]bool{}
	for s := 0; s < t.Pick(14, 40); s++ {
		n := names[r.Intn(3)]
		switch op := r.Intn(8); {
		case closed[n] && op < 3:
			closed[n] = !do("load", n, paths[n])
		case closed[n] && op < 5:
			do("helper", paths[n])
		case closed[n] && op == 5:
			do("resetcache", paths[n])
		case closed[n]:
			if do("derive", n, paths[n], "3") { // overwrites the key
				closed[n] = false
			}
		case op < 3:
			do("sign", n, fmt.Sprint(1+r.Intn(6)))
		case op == 3:
			do("borrow", n, fmt.Sprint(r.Intn(9)))
		case op == 4:
			do("load", "x", paths[n]) // locked
		case op == 5:
			do("badderive", filepath.Join(kd, "nokey"))
		default:
			hist = append(hist, "close "+n)
			if a := p.do("close", n); !strings.HasPrefix(a, "OK") {
				viol("refused", "closing was refused: %s", a)
			}
			closed[n] = true
			delete(open, paths[n])
			scan()
		}
	}
	for _, n := range names {
		if !closed[n] {
			hist = append(hist, "close "+n)
			if a := p.do("close", n); !strings.HasPrefix(a, "OK") {
				viol("refused", "closing was refused: %s", a)
			}
		}
	}
	open = map[string]bool{}
	scan()
	p.quit()
	if what := sec.find(p.err.Bytes()); what != "" {
		viol("in-stderr", "the %s was printed", what)
	}
	t.Count("log lines scanned", bytes.Count(p.err.Bytes(), []byte("\n")))
	// what strace saw
	b, err := os.ReadFile(log)
	if err != nil {
		t.Inconclusive("%s: no strace log: %v", label, err)
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		m := straceMode.FindStringSubmatch(l)
		if m == nil || !strings.Contains(m[2], dir) || strings.HasPrefix(m[3], "-") {
			continue
		}
		if (m[1] == "openat" || m[1] == "open") && !strings.Contains(m[2], "O_CREAT") && !strings.Contains(m[2], "O_TMPFILE") {
			continue
		}
		if strings.Contains(m[2], ".lock") {
			continue
		}
		f := strings.Split(m[2], ", ")
		mode := ""
		for j := len(f) - 1; j > 0; j-- {
			if strings.HasPrefix(f[j], "0") {
				mode = f[j]
				break
			}
		}
		v, err := strconv.ParseInt(mode, 8, 32)
		if err != nil {
			continue
		}
		t.Count("files created under strace", 1)
		if v&0077 != 0 {
			viol("created-open", "a file was created or made accessible to others: %s", l)
		}
	}
	t.Nontrivial(label + strings.Join(hist, ","))
	t.Distinct("scripts", umask+strings.Join(hist, ","))
	if i < 2 {
		t.Sample(map[string]any{"case": label, "umask": umask, "script": hist})
	}
}

// c19Faults lets every file system call of a script fail, one at a time, and
// scans what the process says: answers, errors in all their formats and what
// they wrap, log and standard error.
func c19Faults(t *mon.T, sc fsScenario) {
	seed := t.Sub("keys/"+sc.name) % 1000000
	fl := sc
	fl.name = strings.ReplaceAll(sc.name, "/", "-")
	base := prepScenario(t, fl, seed)
	defer os.RemoveAll(base)
	dry := cloneDir(base, "dry")
	defer os.RemoveAll(dry)
	log := filepath.Join(dry, "strace")
	run := func(d, log string, extra ...string) procResult {
		return runWorker(strace(log, extra...), []string{"XV_LOG=1"}, "fs", filepath.Join(d, "k"), filepath.Join(d, "events"), fmt.Sprint(seed), fmt.Sprint(sc.h), fmt.Sprint(sc.d), sc.script)
	}
	r := run(dry, log)
	calls, tid := parseStrace(log)
	if r.code != 0 || len(calls) == 0 {
		t.Inconclusive("strace dry run of %s failed (%d %s): %s", sc.name, r.code, r.signal, lastBytes(r.stderr, 1500))
		return
	}
	var sec secretSet
	for k := 1; k <= 2; k++ {
		s := fsSeeds(seed, k)
		sec.add(fmt.Sprintf("secret seed of key %d", k), s.sk)
		sec.add(fmt.Sprintf("PRF seed of key %d", k), s.prf)
	}
	points := faultPoints(calls, tid, filepath.Join(dry, "k"), !t.Thorough(), func() {})
	mon.Par(len(points), func(i int) {
		p := points[i]
		if p.kind == "kill" {
			return
		}
		label := fmt.Sprintf("%s/%s@%s#%d", sc.name, p.kind, p.call, p.nth)
		cs(t, label, func() {
			d := cloneDir(base, "run")
			defer os.RemoveAll(d)
			r := run(d, filepath.Join(d, "strace"), "-e", fmt.Sprintf("inject=%s:error=%s:when=%d", p.call, p.kind, p.nth))
			ev, _ := os.ReadFile(filepath.Join(d, "events"))
			t.Count("outputs with failing system calls scanned", 1)
			if bytes.Contains(ev, []byte("\nERR ")) {
				t.Count("error messages scanned", bytes.Count(ev, []byte("\nERR ")))
				t.Distinct("error messages of failing system calls", string(ev[bytes.Index(ev, []byte("\nERR ")):]))
				t.Nontrivial(label)
			}
			for where, b := range map[string][]byte{"events": ev, "stderr": []byte(r.stderr), "stdout": []byte(r.stdout)} {
				if what := sec.find(b); what != "" {
					t.Violate("in-error", label, lastBytes(r.stderr, 3000), "when %s fails with %s the %s is given away (%s)", p.call, p.kind, what, where)
				}
			}
			filepath.WalkDir(filepath.Join(d, "k"), func(path string, e fs.DirEntry, err error) error {
				if err != nil || e.IsDir() || strings.Contains(filepath.Base(path), ".lock") {
					return nil
				}
				fi, err := os.Lstat(path)
				b, err2 := os.ReadFile(path)
				if err == nil && err2 == nil && fi.Mode().Perm()&0077 != 0 {
					t.Violate("mode", label, nil, "after %s failed %s has mode %04o (holding %q)", p.call, filepath.Base(path), fi.Mode().Perm(), sec.find(b))
				}
				t.Count("files scanned", 1)
				return nil
			})
		})
	})
}

// c19Logger records what the library logs.
type c19Logger struct {
	t    *mon.T
	mu   sync.Mutex
	buf  bytes.Buffer
	secs []*secretSet
	n    int
}

func (l *c19Logger) Logf(f string, a ...interface{}) {
	l.mu.Lock()
	defer l.mu.Unlock()
	fmt.Fprintf(&l.buf, f, a...)
	for _, x := range a {
		fmt.Fprintf(&l.buf, " %v %x", x, x)
	}
	l.buf.WriteByte('\n')
	l.n++
}

func (l *c19Logger) add(s *secretSet) { l.mu.Lock(); l.secs = append(l.secs, s); l.mu.Unlock() }

func (l *c19Logger) finish() {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.t.Count("log lines scanned", l.n)
	for _, s := range l.secs {
		if what := s.find(l.buf.Bytes()); what != "" {
			l.t.Violate("in-log", "text", what, "the %s was logged", what)
		}
	}
	l.buf.Reset()
	l.secs = nil
}

// c19Text scans everything the library says.
func c19Text(t *mon.T, label string, i int, rec *c19Logger) {
	r := t.Rng(label)
	fams := families()
	p := shape(fams[i%len(fams)], 4, 2)
	if p.W == 256 {
		p = shape(p, 2, 2)
	}
	s := mkSeeds(r, p.N)
	k := ref.NewKey(p, s.pub, s.sk, s.prf)
	var sec secretSet
	sec.add("secret seed", s.sk)
	sec.add("PRF seed", s.prf)
	sec.add("both", append(clone(s.sk), s.prf...))
	seeds := sec
	th := uint(p.TreeHeight())
	for idx := uint64(0); idx < p.Max(); idx++ {
		for l := 0; l < p.D; l++ {
			for c := 0; c < 3; c++ {
				sec.add(fmt.Sprintf("one-time secret of index %d layer %d chain %d", idx, l, c),
					k.OneTimeSecret(uint32(l), idx>>(uint(l+1)*th), uint32(idx>>(uint(l)*th)&(1<<th-1)), c))
			}
		}
	}
	// The random source of messages, R, is public in signatures; as long as
	// the signature is not out it is not in the logs either.
	rec.add(&sec)
	text := func(where string, err error) {
		if err == nil {
			return
		}
		t.Count("error messages scanned", 1)
		x := []byte(err.Error())
		for e := err; e != nil; {
			x = append(x, fmt.Sprintf(" %v %+v", e, e)...)
			if in, ok := e.(interface{ Inner() error }); ok && in.Inner() != nil {
				e = in.Inner()
				continue
			}
			e = errors.Unwrap(e)
		}
		if what := sec.find(x); what != "" {
			t.Violate("in-error", label, string(x), "%v: the %s appears in the error of %s", p, what, where)
		}
		t.Nontrivial(where + err.Error())
	}
	xe := func(where string, err xmssmt.Error) {
		if err != nil {
			text(where, err)
		}
	}
	ctx := mustCtx(p)
	// refused derivations
	for _, ss := range [][3][]byte{{s.pub[:3], s.sk, s.prf}, {s.pub, s.sk[:5], s.prf}, {s.pub, s.sk, append(clone(s.prf), 1)}, {s.pub, nil, s.prf}} {
		_, _, err := ctx.DeriveInto(memctr.New(), ss[0], ss[1], ss[2])
		xe("DeriveInto", err)
	}
	for op := 0; op < 12; op++ {
		c := memctr.New()
		c.Fault = func(_ string, n int) error {
			if n == op {
				return fmt.Errorf("injected")
			}
			return nil
		}
		_, _, err := ctx.DeriveInto(c, s.pub, s.sk, s.prf)
		xe("DeriveInto with a failing container", err)
	}
	// a life with failures
	ctr := memctr.New()
	sk, pk, err := ctx.DeriveInto(ctr, s.pub, s.sk, s.prf)
	if err != nil {
		panic(libErr{"DeriveInto: " + err.Error()})
	}
	sk.EnableSubTreePrecomputation()
	pub := func(where string, b []byte, all bool) {
		x := &seeds
		if all {
			x = &sec
		}
		if what := x.find(b); what != "" {
			t.Violate("in-"+where, label, mon.Hex(b), "%v: the %s appears in a %s", p, what, where)
		}
	}
	pub("public key", pkBytes(pk), true)
	txt, e := pk.MarshalText()
	if e == nil {
		pub("public key", txt, true)
	}
	var n int
	ctr.Fault = func(op string, _ int) error {
		if n++; n%4 == 0 {
			return fmt.Errorf("injected")
		}
		return nil
	}
	var last []byte
	for j := 0; j < 3*int(p.Max()); j++ {
		m := randBytes(r, r.Intn(100))
		sig, err := sk.Sign(m)
		xe("Sign", err)
		if err == nil {
			b := sigBytes(sig)
			last = b
			pub("signature", b, false)
			text("Signature.String", fmt.Errorf("%s", sig.String()))
			// One-time secrets show only where the digits are zero.
			c19Reveal(t, label, k, sig, b, m)
			t.Count("signatures scanned", 1)
			bad := clone(b)
			bad[r.Intn(len(bad))] ^= 1
			var s2 xmssmt.Signature
			if e := s2.UnmarshalBinary(bad); e != nil {
				text("UnmarshalBinary", e)
			} else {
				_, err := pk.Verify(&s2, m)
				xe("Verify", err)
			}
			_, err = sk.SignFrom(&failReader{b: m})
			xe("SignFrom", err)
		}
		xe("BorrowExactly", sk.BorrowExactly(uint32(r.Intn(3))))
	}
	xe("Close", sk.Close())
	ctr.Fault = nil
	// loading with failures and damage
	base := ctr.Snapshot()
	for op := 0; op < 14; op++ {
		c := memctr.From(base.Clone())
		c.Fault = func(_ string, n int) error {
			if n == op {
				return fmt.Errorf("injected")
			}
			return nil
		}
		sk, _, _, err := xmssmt.LoadPrivateKeyFrom(c)
		xe("LoadPrivateKeyFrom", err)
		if err == nil {
			c.Fault = nil
			sk.Close()
		}
	}
	st := base.Clone()
	st.SeqNo = p.Max() + 3
	_, _, _, _, err = loadKey(st)
	xe("LoadPrivateKeyFrom", err)
	// files
	dir := scratchDir("c19t")
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "key")
	fk, _, err := ctx.Derive(path, s.pub, s.sk, s.prf)
	if err != nil {
		panic(libErr{"Derive: " + err.Error()})
	}
	_, _, _, err = xmssmt.LoadPrivateKey(path)
	xe("LoadPrivateKey of an open key", err)
	xe("Close", fk.Close())
	kf, e2 := os.ReadFile(path)
	if e2 != nil {
		panic("harness: " + e2.Error())
	}
	for j := 0; j < 40; j++ {
		b := clone(kf)
		switch j % 4 {
		case 0:
			b = b[:r.Intn(len(b))]
		case 1:
			b[r.Intn(min(len(b), 40))] ^= byte(1 << uint(r.Intn(8)))
		case 2:
			b[r.Intn(len(b))] = byte(r.Intn(256))
		case 3:
			b = append(b[len(b)-3*p.N:], b...) // the key first
		}
		os.WriteFile(path, b, 0600)
		c, err := xmssmt.OpenFSPrivateKeyContainer(path)
		xe("opening a damaged key", err)
		if err == nil {
			c.Close()
		}
	}
	// key material passed as something else
	for _, b := range [][]byte{s.sk, kf, append(clone(s.sk), s.prf...), last} {
		var pk2 xmssmt.PublicKey
		var s2 xmssmt.Signature
		text("PublicKey.UnmarshalBinary", pk2.UnmarshalBinary(b))
		text("PublicKey.UnmarshalText", pk2.UnmarshalText(b))
		text("Signature.UnmarshalBinary", s2.UnmarshalBinary(b))
		_, err := xmssmt.Verify(b, b, b)
		xe("Verify", err)
	}
	t.Nontrivial(label + p.String())
}

// c19Reveal checks that one-time secrets appear in a signature only where the
// message's digits are zero.
func c19Reveal(t *mon.T, label string, k *ref.Key, sig *xmssmt.Signature, b, msg []byte) {
	p := k.P
	idx := uint64(sig.SeqNo())
	if _, ok := ref.ParseSig(b); !ok || idx >= p.Max() {
		return // judged by other checks
	}
	want := k.Sign(idx, msg)
	if bytes.Equal(b, want) {
		return
	}
	// The bytes differ from the scheme's: does a secret show?
	th := uint(p.TreeHeight())
	for l := 0; l < p.D; l++ {
		for c := 0; c < p.Len(); c++ {
			ots := k.OneTimeSecret(uint32(l), idx>>(uint(l+1)*th), uint32(idx>>(uint(l)*th)&(1<<th-1)), c)
			if bytes.Contains(b, ots) && !bytes.Contains(want, ots) {
				t.Violate("in-signature", label, mon.Hex(b), "%v: the signature with index %d reveals the secret start of chain %d on layer %d", p, idx, c, l)
			}
		}
	}
}

// recReader records what is drawn from the random source.
type recReader struct {
	mu  sync.Mutex
	r   *mrand.Rand
	got []byte
}

func (x *recReader) Read(b []byte) (int, error) {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.r.Read(b)
	x.got = append(x.got, b...)
	return len(b), nil
}

// c19Random replaces the random source and looks for its bytes in the key.
func c19Random(t *mon.T, label string) {
	r := t.Rng(label)
	old := rand.Reader
	defer func() { rand.Reader = old }()
	shapes := []ref.P{cheap(4, 2), shape(ref.P{Func: ref.SHA2, N: 32, W: 16}, 4, 2), shape(ref.P{Func: ref.SHA2, N: 64, W: 16, Prf: 1}, 2, 1), shape(ref.P{Func: ref.SHAKE256, N: 24, W: 16, Prf: 1}, 4, 4)}
	for j := 0; j < t.Pick(24, 200); j++ {
		p := shapes[j%len(shapes)]
		dir := scratchDir("c19r")
		src := &recReader{r: newRand(r.Int63())}
		rand.Reader = io.Reader(src)
		path := filepath.Join(dir, "key")
		sk, _, err := mustCtx(p).GenerateKeyPair(path)
		rand.Reader = old
		if err != nil {
			panic(libErr{"GenerateKeyPair: " + err.Error()})
		}
		sk.Close()
		pub, ss, prf := c19Seeds(path, p.N)
		os.RemoveAll(dir)
		used := make([]bool, len(src.got))
		for n, s := range map[string][]byte{"public seed": pub, "secret seed": ss, "PRF seed": prf} {
			at := bytes.Index(src.got, s)
			if at < 0 {
				t.Violate("not-random", label, mon.Hex(s), "%v: the %s of a generated key does not come from the random source (%d bytes were drawn)", p, n, len(src.got))
				continue
			}
			for q := at; q < at+len(s); q++ {
				if used[q] {
					t.Violate("shared-random", label, nil, "%v: the %s of a generated key shares random bytes with another seed", p, n)
					break
				}
				used[q] = true
			}
		}
		t.Count("keys generated over a recorded source", 1)
		t.Nontrivial(fmt.Sprint(label, j))
	}
}

// c19Seeds reads the seeds of a stored key.
func c19Seeds(path string, n int) (pub, sk, prf []byte) {
	c, err := xmssmt.OpenFSPrivateKeyContainer(path)
	if err != nil {
		panic(libErr{"open: " + err.Error()})
	}
	defer c.Close()
	b, err := c.GetPrivateKey()
	if err != nil || len(b) != 3*n {
		panic(libErr{"GetPrivateKey"})
	}
	return clone(b[2*n:]), clone(b[:n]), clone(b[n : 2*n])
}

// c19Fresh generates keys in processes of their own.
func c19Fresh(t *mon.T, label string, i int, mu *sync.Mutex, seen map[string]string) {
	dir := scratchDir("c19f")
	defer os.RemoveAll(dir)
	alg := []string{"XMSSMT-SHA2_20/4_256", "XMSSMT-SHAKE_20/4_256", "XMSSMT-SHAKE256_20/4_256", "XMSSMT-SHA2_20/4_192"}[i%4]
	ctx := xmssmt.NewContextFromName(alg)
	if ctx == nil {
		panic(libErr{"NewContextFromName(" + alg + ")"})
	}
	n := ctx.Params().N
	p := rpcStart(nil, 1, 4, 2)
	defer p.kill()
	for j := 0; j < 4; j++ {
		path := filepath.Join(dir, fmt.Sprint("key", j))
		if a := p.do("gen", "k", path, alg); !strings.HasPrefix(a, "OK") {
			t.Violate("gen-failed", label, nil, "GenerateKeyPair(%s) failed: %s", alg, a)
			return
		}
		if a := p.do("close", "k"); !strings.HasPrefix(a, "OK") {
			t.Violate("gen-failed", label, nil, "Close failed: %s", a)
		}
		pub, sk, prf := c19Seeds(path, int(n))
		mu.Lock()
		for k, s := range map[string][]byte{"public": pub, "secret": sk, "PRF": prf} {
			t.Count("seeds compared", 1)
			// Even half of a seed never occurs twice.
			for h, part := range [][]byte{s[:n/2], s[n/2:]} {
				who := fmt.Sprintf("%s seed of key %d of process %d, half %d", k, j, i, h)
				if prev, dup := seen[string(part)]; dup {
					t.Violate("repeated", label, mon.Hex(part), "the %s equals the %s", who, prev)
				}
				seen[string(part)] = who
			}
		}
		mu.Unlock()
		t.Nontrivial(mon.Hex(sk))
	}
	p.quit()
}

// c19Bits looks at the distribution of all bits of the seeds.
func c19Bits(t *mon.T, seen map[string]string) {
	n, ones := 0, 0
	var pos [64]int
	cnt := 0
	for s := range seen {
		cnt++
		for i := 0; i < len(s); i++ {
			for b := 0; b < 8; b++ {
				n++
				if s[i]>>uint(b)&1 == 1 {
					ones++
					if i < 8 {
						pos[i*8+b]++
					}
				}
			}
		}
	}
	t.Count("random bits looked at", n)
	// Ten standard deviations.
	if d := float64(2*ones - n); d*d > 100*float64(n) {
		t.Violate("biased", "fresh/bits", ones, "%d of %d bits of the seeds are set", ones, n)
	}
	for i, c := range pos {
		if d := float64(2*c - cnt); d*d > 100*float64(cnt) {
			t.Violate("biased", "fresh/bits", c, "bit %d is set in %d of %d halves of seeds", i, c, cnt)
		}
	}
}
