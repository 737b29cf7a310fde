package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/bwesterb/go-xmssmt"
	"xverif/ref"
)

// The fs worker is a process that runs a script of key operations on a key
// file and appends what it observed to an event log, one write(2) per event.
// A signature counts as released once its event is in the log.
//
//	xv worker fs <dir> <events file> <key seed> <h> <d> <script>
//
// Script operations, separated by commas:
//
//	gen K      derive key number K at the path (K selects the seeds)
//	load       open the key
//	sign N     sign N messages
//	borrow N   BorrowExactly(N)
//	ifbelow N T
//	close      close the key
//	drop       forget the handle without closing (only before exit)
//	help N     use the package level Sign helper N times
//	resetcache open the container, ResetCache, close it
//	precomp    EnableSubTreePrecomputation
//	setseq N   DangerousSetSeqNo(current + N)
//	kill       kill this process with SIGKILL
//	mark X     write an event
func init() { workers["fs"] = fsWorker }

type fsParams struct {
	h, d int
	seed int64
}

func fsSeeds(seed int64, k int) seeds {
	return mkSeeds(rand.New(rand.NewSource(seed*1000+int64(k))), 16)
}

func fsRefKey(seed int64, h, d, k int) *ref.Key {
	s := fsSeeds(seed, k)
	return ref.NewKey(cheap(h, d), s.pub, s.sk, s.prf)
}

func fsWorker(args []string) int {
	runtime.LockOSThread()
	debug.SetGCPercent(-1)
	dir, evPath := args[0], args[1]
	seed, _ := strconv.ParseInt(args[2], 10, 64)
	h, _ := strconv.Atoi(args[3])
	d, _ := strconv.Atoi(args[4])
	ev, err := os.OpenFile(evPath, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0600)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	emit := func(f string, a ...any) {
		line := fmt.Sprintf(f, a...)
		line = strings.ReplaceAll(line, "\n", " ") + "\n"
		syscall.Write(int(ev.Fd()), []byte(line))
	}
	path := filepath.Join(dir, "key")
	if len(args) > 6 {
		path = args[6]
	}
	ctx := mustCtx(cheap(h, d))
	ctx.Threads = 1
	var sk *xmssmt.PrivateKey
	var pk *xmssmt.PublicKey
	msgN := 0
	if os.Getenv("XV_LOG") != "" {
		xmssmt.EnableLogging()
	}
	fail := func(op string, err xmssmt.Error) {
		if os.Getenv("XV_LOG") != "" {
			fmt.Fprintf(os.Stderr, "%v\n%+v\n%#v\n", err, err, err)
			for e := error(err); e != nil; {
				fmt.Fprintf(os.Stderr, "%v %T\n", e, e)
				x, ok := e.(xmssmt.Error)
				if !ok {
					break
				}
				e = x.Inner()
			}
		}
		emit("ERR %s locked=%v %s", op, err.Locked(), err.Error())
	}
	rel := func(idx uint64, sig []byte, msg []byte, pkb []byte) {
		ok, _ := xmssmt.Verify(pkb, sig, msg)
		emit("REL %d %x %v %x %x", idx, pkb[4:20], ok, msg, sig)
	}
	nextMsg := func() []byte {
		msgN++
		return []byte(fmt.Sprintf("msg %d of %d", msgN, os.Getpid()))
	}
	emit("START %d", os.Getpid())
	for _, op := range strings.Split(args[5], ",") {
		f := strings.Fields(op)
		n := 1
		if len(f) > 1 {
			n, _ = strconv.Atoi(f[1])
		}
		switch f[0] {
		case "gen":
			s := fsSeeds(seed, n)
			emit("BEGIN gen %d", n)
			k, p, err := ctx.Derive(path, s.pub, s.sk, s.prf)
			if err != nil {
				fail("gen", err)
				continue
			}
			sk, pk = k, p
			emit("GEN %d %x", n, pkBytes(pk)[4:20])
		case "genrand":
			k, p, err := ctx.GenerateKeyPair(path)
			if err != nil {
				fail("gen", err)
				continue
			}
			sk, pk = k, p
			emit("GEN %d %x", -1, pkBytes(pk)[4:20])
		case "load":
			k, p, lost, err := xmssmt.LoadPrivateKey(path)
			if err != nil {
				fail("load", err)
				continue
			}
			sk, pk = k, p
			emit("LOAD %d %d %x", sk.SeqNo(), lost, pkBytes(pk)[4:20])
		case "sign":
			for i := 0; i < n && sk != nil; i++ {
				m := nextMsg()
				sig, err := sk.Sign(m)
				if err != nil {
					fail("sign", err)
					continue
				}
				rel(uint64(sig.SeqNo()), sigBytes(sig), m, pkBytes(pk))
			}
		case "help":
			for i := 0; i < n; i++ {
				m := nextMsg()
				sig, err := xmssmt.Sign(path, m)
				if err != nil {
					fail("help", err)
					continue
				}
				var s xmssmt.Signature
				if e := s.UnmarshalBinary(sig); e != nil {
					emit("BADSIG %v", e)
					continue
				}
				emit("RELH %d %x %x", s.SeqNo(), m, sig)
			}
		case "borrow":
			if sk != nil {
				if err := sk.BorrowExactly(uint32(n)); err != nil {
					fail("borrow", err)
				}
			}
		case "ifbelow":
			th, _ := strconv.Atoi(f[2])
			if sk != nil {
				if err := sk.BorrowExactlyIfBelow(uint32(n), uint32(th)); err != nil {
					fail("borrow", err)
				}
			}
		case "precomp":
			if sk != nil {
				sk.EnableSubTreePrecomputation()
			}
		case "setseq":
			if sk != nil {
				sk.DangerousSetSeqNo(sk.SeqNo() + xmssmt.SignatureSeqNo(n))
			}
		case "close":
			if sk != nil {
				if err := sk.Close(); err != nil {
					fail("close", err)
					continue
				}
				emit("CLOSED %d", sk.SeqNo())
				sk = nil
			}
		case "drop":
			sk = nil
		case "kill":
			syscall.Kill(os.Getpid(), syscall.SIGKILL)
			select {}
		case "mark":
			emit("MARK %s", f[1])
		case "resetcache":
			c, err := xmssmt.OpenFSPrivateKeyContainer(path)
			if err != nil {
				fail("open", err)
				if c != nil {
					c.Close()
				}
				continue
			}
			if err := c.ResetCache(); err != nil {
				fail("resetcache", err)
			}
			if err := c.Close(); err != nil {
				fail("cclose", err)
			}
		}
	}
	emit("DONE")
	return 0
}

// event is one parsed line of an event log.
type event struct {
	kind string
	f    []string
	raw  string
}

func readEvents(path string) (out []event) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	return parseEvents(string(b))
}

func parseEvents(s string) (out []event) {
	for _, l := range strings.Split(s, "\n") {
		f := strings.Fields(l)
		if len(f) == 0 {
			continue
		}
		out = append(out, event{f[0], f[1:], l})
	}
	return
}

type release struct {
	idx uint64
	key string // hex of the root
	ok  bool
	msg []byte
	sig []byte
}

func releases(evs []event) (out []release) {
	for _, e := range evs {
		if e.kind != "REL" || len(e.f) != 5 {
			continue
		}
		idx, _ := strconv.ParseUint(e.f[0], 10, 64)
		m, _ := hex.DecodeString(e.f[3])
		s, _ := hex.DecodeString(e.f[4])
		out = append(out, release{idx, e.f[1], e.f[2] == "true", m, s})
	}
	return
}

// procResult is how a worker process ended.
type procResult struct {
	code   int
	signal string
	stdout string
	stderr string
	killed bool // by our watchdog
}

// runWorker runs a worker process to its end.  wrap is a command prefix
// (strace).  The watchdog is generous; its firing is never a verdict.
func runWorker(wrap []string, env []string, args ...string) procResult {
	return runWorkerExe(selfExe(), wrap, env, args...)
}

func runWorkerExe(exe string, wrap []string, env []string, args ...string) procResult {
	argv := append(append([]string{}, wrap...), exe, "worker")
	argv = append(argv, args...)
	cmd := exec.Command(argv[0], argv[1:]...)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all")
	cmd.Env = append(cmd.Env, env...)
	var eb, ob bytes.Buffer
	cmd.Stderr, cmd.Stdout = &eb, &ob
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		panic("harness: " + err.Error())
	}
	timer := time.AfterFunc(400*time.Second, func() {
		syscall.Kill(-cmd.Process.Pid, syscall.SIGQUIT)
		time.Sleep(5 * time.Second)
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	})
	cmd.Wait()
	r := procResult{code: cmd.ProcessState.ExitCode(), stderr: eb.String(), stdout: ob.String()}
	r.killed = !timer.Stop()
	if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		r.signal = ws.Signal().String()
	}
	return r
}
