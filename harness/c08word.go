package main

import (
	"crypto/sha256"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"

	"xverif/mon"

	"github.com/bwesterb/go-xmssmt"
)

func init() {
	workers["c08word"] = c08WordWorker
	workers["c08probe"] = func([]string) int { fmt.Println("word", strconv.IntSize); return 0 }
}

// c08Word compares a 32-bit build of the library with the one at hand: the
// same keys, signatures, verdicts, key files and sequence numbers, and each
// continues the keys the other left on disk.
func c08Word(t *mon.T) {
	exe := os.Getenv("XV_386")
	if exe == "" {
		t.Note("32-bit build", "not built")
		return
	}
	if out, err := exec.Command(exe, "worker", "c08probe").Output(); err != nil || strings.TrimSpace(string(out)) != "word 32" {
		t.Note("32-bit build", fmt.Sprintf("does not run here: %v", err))
		return
	}
	cs(t, "word", func() {
		seed := t.Sub("word")
		d := scratchDir("word")
		defer os.RemoveAll(d)
		type side struct {
			name, exe string
			lines     []string
		}
		sides := []*side{{name: "64", exe: selfExe()}, {name: "32", exe: exe}}
		ok := true
		// Round 1: each for itself.  Round 2: each continues the other's keys.
		for round := 1; round <= 2 && ok; round++ {
			for _, s := range sides {
				clearReusedPid(t, filepath.Join(d, s.name, "key6.lock"))
			}
			mon.Par(2, func(i int) {
				s := sides[i]
				mine := filepath.Join(d, s.name)
				if round == 2 {
					mine = filepath.Join(d, sides[1-i].name)
				}
				r := runWorkerExe(s.exe, nil, nil, "c08word", fmt.Sprint(seed), fmt.Sprint(round), mine, fmt.Sprint(t.Thorough()))
				if r.code != 0 {
					ok = false
					if k, what := crashVerdict(r.stderr); k != "" {
						t.Violate("word-"+s.name+":"+k, "word", lastBytes(r.stderr, 10000), "crash in the %s-bit build, round %d: %s", s.name, round, what)
						return
					}
					t.Inconclusive("word: the %s-bit worker ended with %d: %s", s.name, r.code, lastBytes(r.stderr, 2000))
					return
				}
				s.lines = append(s.lines, strings.Split(strings.TrimSpace(r.stdout), "\n")...)
			})
		}
		if !ok {
			return
		}
		a, b := sides[0].lines, sides[1].lines
		if a[0] != "word 64" || b[0] != "word 32" {
			t.Note("32-bit build", "is not: "+a[0]+"/"+b[0])
			return
		}
		for i := 1; i < len(a) || i < len(b); i++ {
			x, y := "(missing)", "(missing)"
			if i < len(a) {
				x = a[i]
			}
			if i < len(b) {
				y = b[i]
			}
			if strings.HasPrefix(x, "word ") && strings.HasPrefix(y, "word ") {
				continue
			}
			t.Count("lines compared between 32-bit and 64-bit builds", 1)
			if x != y {
				t.Violate("word", "word", map[string]string{"64-bit": x, "32-bit": y}, "the 64-bit and 32-bit builds differ: %s / %s", head2(x), head2(y))
				return
			}
			t.Nontrivial("word" + x)
		}
	})
}

func c08WordWorker(args []string) int {
	var seed int64
	fmt.Sscan(args[0], &seed)
	round, dir := args[1], args[2]
	out := func(f string, a ...any) { fmt.Printf(f+"\n", a...) }
	out("word %d", strconv.IntSize)
	dig := func(b []byte) string { h := sha256.Sum256(b); return fmt.Sprintf("%d bytes %x", len(b), h[:12]) }
	if round == "1" {
		for _, l := range c08Lines(seed, false, args[3] != "true") {
			out("%s", l)
		}
		// indices beyond 32 bits
		for _, sh := range [][2]int{{40, 20}, {60, 20}, {62, 31}, {36, 6}, {32, 8}} {
			p := cheap(sh[0], sh[1])
			r := rand.New(rand.NewSource(seed + int64(sh[0])))
			s := mkSeeds(r, p.N)
			for _, id := range []uint64{1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<33 + 5, uint64(r.Int63()) % p.Max(), p.Max() - 2} {
				if id >= p.Max() {
					continue
				}
				ctr, sk, pk, lost, err := loadKey(storedKey(p, s, id))
				if err != nil {
					out("%v %d load %v", p, id, err)
					continue
				}
				out("%v %d pk %x lost %d", p, id, pkBytes(pk), lost)
				for i := 0; i < 3; i++ {
					m := randBytes(r, 40)
					sig, err := sk.Sign(m)
					if err != nil {
						out("%v %d sign %d: %v", p, id, i, err)
						continue
					}
					v, verr := pk.Verify(sig, m)
					out("%v %d sig %d %s %v %v", p, id, sig.SeqNo(), dig(sigBytes(sig)), v, verr)
				}
				err = sk.BorrowExactly(4000000000)
				out("%v %d borrow %v next %d borrowed %d unretired %v", p, id, err, sk.SeqNo(), sk.BorrowedSeqNos(), sk.UnretiredSeqNos())
				out("%v %d stored %d %d", p, id, ctr.Snapshot().SeqNo, ctr.Snapshot().Borrowed)
				out("%v %d close %v stored %d", p, id, sk.Close(), ctr.Snapshot().SeqNo)
			}
		}
		if err := os.Mkdir(dir, 0700); err != nil {
			out("mkdir %v", err)
			return 0
		}
	}
	for _, sh := range [][2]int{{4, 2}, {6, 3}, {40, 20}} {
		p := cheap(sh[0], sh[1])
		r := rand.New(rand.NewSource(seed + 7*int64(sh[0])))
		s := mkSeeds(r, p.N)
		path := filepath.Join(dir, fmt.Sprint("key", sh[0]))
		var sk *xmssmt.PrivateKey
		var pk *xmssmt.PublicKey
		var err xmssmt.Error
		var lost uint32
		if round == "1" {
			sk, pk, err = mustCtx(p).Derive(path, s.pub, s.sk, s.prf)
		} else {
			sk, pk, lost, err = xmssmt.LoadPrivateKey(path)
		}
		if err != nil {
			out("file %v: %v", p, err)
			continue
		}
		if round == "1" && sh[0] == 40 {
			sk.DangerousSetSeqNo(1<<35 + 3)
		}
		out("file %v pk %x at %d lost %d", p, pkBytes(pk), sk.SeqNo(), lost)
		if err := sk.BorrowExactly(5); err != nil {
			out("file borrow %v", err)
		}
		for i := 0; i < 4; i++ {
			m := []byte(fmt.Sprint("file message ", i))
			sig, err := sk.Sign(m)
			if err != nil {
				out("file sign %v", err)
				continue
			}
			out("file sig %d %s", sig.SeqNo(), dig(sigBytes(sig)))
		}
		if round == "1" && sh[0] == 6 {
			// left open: the other one sees lost sequence numbers
		} else if err := sk.Close(); err != nil {
			out("file close %v", err)
		}
		b, _ := os.ReadFile(path)
		out("file holds %x", b[:min(len(b), 40)])
		out("file %s", dig(b))
	}
	return 0
}
