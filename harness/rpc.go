package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/bwesterb/go-xmssmt"
)

// The rpc worker is a process that does what it is told, one command per
// line on stdin, one answer per line on stdout.  Handles are numbered.
//
//	load H PATH | derive H PATH K | gen H PATH NAME | open H PATH | helper PATH
//	sign H N | borrow H N | seqno H | close H | reset H K | umask OCT | cd DIR
//	badderive PATH   (seeds of a wrong length)
//
// Answers: "OK ..." or "ERR locked=<bool> <message>".
func init() { workers["rpc"] = rpcWorker }

type rpcHandle struct {
	sk  *xmssmt.PrivateKey
	pk  *xmssmt.PublicKey
	ctr xmssmt.PrivateKeyContainer
}

func rpcWorker(args []string) int {
	seed, _ := strconv.ParseInt(args[0], 10, 64)
	h, _ := strconv.Atoi(args[1])
	d, _ := strconv.Atoi(args[2])
	hs := map[string]*rpcHandle{}
	if os.Getenv("XV_LOG") != "" {
		xmssmt.EnableLogging()
	}
	return rpcLoop(os.Stdin, os.Stdout, func(f []string) string { return rpcDo(hs, seed, h, d, f) })
}

func rpcLoop(in io.Reader, out io.Writer, do func(f []string) string) int {
	sc := bufio.NewScanner(in)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		f := strings.Split(sc.Text(), "\t")
		fmt.Fprintln(out, strings.ReplaceAll(do(f), "\n", " "))
	}
	return 0
}

func rpcErr(err xmssmt.Error) string {
	return fmt.Sprintf("ERR locked=%v %v", err.Locked(), err.Error())
}

func rpcDo(hs map[string]*rpcHandle, seed int64, h, d int, f []string) string {
	ctx := mustCtx(cheap(h, d))
	num := func(i int) int { n, _ := strconv.Atoi(f[i]); return n }
	switch f[0] {
	case "load":
		sk, pk, lost, err := xmssmt.LoadPrivateKey(f[2])
		if err != nil {
			return rpcErr(err)
		}
		hs[f[1]] = &rpcHandle{sk: sk, pk: pk}
		return fmt.Sprintf("OK %d %d %x", sk.SeqNo(), lost, pkBytes(pk))
	case "derive":
		s := fsSeeds(seed, num(3))
		sk, pk, err := ctx.Derive(f[2], s.pub, s.sk, s.prf)
		if err != nil {
			return rpcErr(err)
		}
		hs[f[1]] = &rpcHandle{sk: sk, pk: pk}
		return fmt.Sprintf("OK %x", pkBytes(pk))
	case "gen":
		sk, pk, err := xmssmt.GenerateKeyPair(f[3], f[2])
		if err != nil {
			return rpcErr(err)
		}
		hs[f[1]] = &rpcHandle{sk: sk, pk: pk}
		return fmt.Sprintf("OK %x", pkBytes(pk))
	case "open":
		c, err := xmssmt.OpenFSPrivateKeyContainer(f[2])
		if err != nil {
			return rpcErr(err)
		}
		hs[f[1]] = &rpcHandle{ctr: c}
		return fmt.Sprintf("OK init=%v", c.Initialized() != nil)
	case "badderive":
		s := fsSeeds(seed, 0)
		_, _, err := ctx.Derive(f[1], s.pub[:5], s.sk, s.prf)
		if err != nil {
			return rpcErr(err)
		}
		return "OK"
	case "helper":
		sig, err := xmssmt.Sign(f[1], []byte("m"))
		if err != nil {
			return rpcErr(err)
		}
		var s xmssmt.Signature
		if e := s.UnmarshalBinary(sig); e != nil {
			return "BADSIG"
		}
		return fmt.Sprintf("OK %d %x", s.SeqNo(), sig)
	case "sign":
		r := "OK"
		for i := 0; i < num(2); i++ {
			sig, err := hs[f[1]].sk.Sign([]byte("m"))
			if err != nil {
				return rpcErr(err)
			}
			r += fmt.Sprintf(" %d:%x", sig.SeqNo(), sigBytes(sig))
		}
		return r
	case "borrow":
		if err := hs[f[1]].sk.BorrowExactly(uint32(num(2))); err != nil {
			return rpcErr(err)
		}
		return "OK"
	case "precompute":
		hs[f[1]].sk.EnableSubTreePrecomputation()
		return "OK"
	case "resetcache":
		c, err := xmssmt.OpenFSPrivateKeyContainer(f[1])
		if err != nil {
			return rpcErr(err)
		}
		defer c.Close()
		if err := c.ResetCache(); err != nil {
			return rpcErr(err)
		}
		return "OK"
	case "seqno":
		return fmt.Sprintf("OK %d", hs[f[1]].sk.SeqNo())
	case "close":
		x := hs[f[1]]
		var err xmssmt.Error
		if x.sk != nil {
			err = x.sk.Close()
		} else {
			err = x.ctr.Close()
		}
		if err != nil {
			return rpcErr(err)
		}
		return "OK"
	case "umask":
		m, _ := strconv.ParseInt(f[1], 8, 32)
		syscall.Umask(int(m))
		return "OK"
	case "cd":
		if err := os.Chdir(f[1]); err != nil {
			return "HARNESS " + err.Error()
		}
		return "OK"
	}
	return "HARNESS unknown command " + f[0]
}

// rpcProc drives an rpc worker.  A nil pointer runs the commands in this
// process.
type rpcProc struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	err   *bytes.Buffer
	local func(f []string) string
	dead  bool
}

func rpcHere(seed int64, h, d int) *rpcProc {
	hs := map[string]*rpcHandle{}
	return &rpcProc{local: func(f []string) string { return rpcDo(hs, seed, h, d, f) }}
}

func rpcStart(wrap []string, seed int64, h, d int) *rpcProc {
	argv := append(append([]string{}, wrap...), selfExe(), "worker", "rpc", fmt.Sprint(seed), fmt.Sprint(h), fmt.Sprint(d))
	p := &rpcProc{cmd: exec.Command(argv[0], argv[1:]...), err: new(bytes.Buffer)}
	p.cmd.Stderr = p.err
	p.cmd.Env = append(os.Environ(), "GOTRACEBACK=all")
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	p.in, _ = p.cmd.StdinPipe()
	o, _ := p.cmd.StdoutPipe()
	p.out = bufio.NewReaderSize(o, 1<<16)
	if err := p.cmd.Start(); err != nil {
		panic("harness: " + err.Error())
	}
	return p
}

// do sends a command and reads the answer; "DEAD" when the process ended.
func (p *rpcProc) do(f ...string) string {
	if p.local != nil {
		return p.local(f)
	}
	if p.dead {
		return "DEAD"
	}
	fmt.Fprintln(p.in, strings.Join(f, "\t"))
	timer := time.AfterFunc(120*time.Second, func() { syscall.Kill(-p.cmd.Process.Pid, syscall.SIGKILL) })
	defer timer.Stop()
	l, err := p.out.ReadString('\n')
	if err != nil {
		p.dead = true
		return "DEAD"
	}
	return strings.TrimRight(l, "\n")
}

func (p *rpcProc) pid() int {
	if p.local != nil {
		return os.Getpid()
	}
	return p.cmd.Process.Pid
}

// kill ends the process with SIGKILL and reaps it.
func (p *rpcProc) kill() {
	if p.local == nil {
		syscall.Kill(-p.cmd.Process.Pid, syscall.SIGKILL)
		p.in.Close()
		p.cmd.Wait()
		p.dead = true
	}
}

// quit lets the process end by itself.
func (p *rpcProc) quit() {
	if p.local == nil {
		p.in.Close()
		t := time.AfterFunc(60*time.Second, func() { syscall.Kill(-p.cmd.Process.Pid, syscall.SIGKILL) })
		p.cmd.Wait()
		t.Stop()
		p.dead = true
	}
}
