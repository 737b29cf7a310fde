// xv runs the monitors of /verif against the go-xmssmt in /repo.
//
//	xv check <id>        supervisor: runs the check in a child process
//	xv worker <name> ... helper processes used by some checks
package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
	"time"

	"xverif/mon"
)

type check struct {
	run   func(t *mon.T)
	level string
	rule  string
	env   []string
}

var checks = map[string]check{}
var workers = map[string]func(args []string) int{}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: xv check <id> | xv worker <name> args...")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "check":
		id := os.Args[2]
		if os.Getenv("XV_CHILD") == id {
			os.Exit(runChild(id))
		}
		os.Exit(supervise(id))
	case "worker":
		f, ok := workers[os.Args[2]]
		if !ok {
			fmt.Fprintln(os.Stderr, "no such worker")
			os.Exit(3)
		}
		os.Exit(f(os.Args[3:]))
	}
	os.Exit(3)
}

func runChild(id string) int {
	c, ok := checks[id]
	if !ok {
		fmt.Println("no such check:", id)
		return 3
	}
	t := mon.New(id)
	t.Rule = c.rule
	if c.level != "" {
		t.Level = c.level
	}
	mon.WatchStuck(func(stacks string) {
		t.Violate("stuck", "", stacks, "calls into the library are blocked for ever:\n%s", stacks)
		t.Finish()
	})
	// What was seen until then counts even if the check does not finish.
	time.AfterFunc(timeLimit()-30*time.Second, func() {
		t.Inconclusive("the check did not finish in time; stacks:\n%s", lastBytes(mon.AllStacks(), 20000))
		os.Exit(t.Finish())
	})
	c.run(t)
	return t.Finish()
}

func timeLimit() time.Duration {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return 3 * time.Hour
	}
	return 830 * time.Second
}

type tailBuf struct {
	head, tail []byte
}

func (b *tailBuf) Write(p []byte) (int, error) {
	n := len(p)
	if room := 256<<10 - len(b.head); room > 0 {
		k := min(room, len(p))
		b.head = append(b.head, p[:k]...)
		p = p[k:]
	}
	b.tail = append(b.tail, p...)
	if len(b.tail) > 512<<10 {
		b.tail = append([]byte(nil), b.tail[len(b.tail)-(256<<10):]...)
	}
	return n, nil
}

func (b *tailBuf) String() string { return string(b.head) + string(b.tail) }

// supervise runs the check in a child, so that a crash of the whole process
// (a panic on a library goroutine, a memory fault, a runtime fatal error) is
// itself observed and judged.
func supervise(id string) int {
	exe, err := os.Executable()
	if err != nil {
		fmt.Println(err)
		return 3
	}
	limit := timeLimit()
	scratch, err := os.MkdirTemp(scratchBase(), "xv-"+id+"-")
	if err != nil {
		fmt.Println(err)
		return 3
	}
	defer os.RemoveAll(scratch)
	cmd := exec.Command(exe, "check", id)
	cmd.Env = append(os.Environ(), "XV_CHILD="+id, "XV_SCRATCH="+scratch, "GOTRACEBACK=all")
	if c, ok := checks[id]; ok {
		cmd.Env = append(cmd.Env, c.env...)
	}
	var errBuf tailBuf
	var outBuf bytes.Buffer
	cmd.Stdout = io.MultiWriter(os.Stdout, &outBuf)
	cmd.Stderr = &errBuf
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	runtime.LockOSThread() // Pdeathsig is tied to the starting thread
	if err := cmd.Start(); err != nil {
		fmt.Println(err)
		return 3
	}
	sigs := make(chan os.Signal, 1)
	signal.Notify(sigs, syscall.SIGINT, syscall.SIGTERM, syscall.SIGHUP)
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	timedOut := false
	select {
	case err = <-done:
	case <-sigs:
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		return 3
	case <-time.After(limit):
		timedOut = true
		cmd.Process.Signal(syscall.SIGQUIT)
		select {
		case err = <-done:
		case <-time.After(20 * time.Second):
			cmd.Process.Kill()
			err = <-done
		}
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	code := cmd.ProcessState.ExitCode()
	stderr := errBuf.String()
	if !timedOut && (code == 0 || code == 1 || code == 3) && strings.Contains(outBuf.String(), id+" ") &&
		strings.Contains(outBuf.String(), " evaluations, ") {
		if code == 3 || len(stderr) > 0 {
			fmt.Fprintln(os.Stderr, lastBytes(stderr, 4000))
		}
		return code
	}
	t := mon.New(id)
	if c, ok := checks[id]; ok {
		t.Rule = c.rule
		if c.level != "" {
			t.Level = c.level
		}
	}
	t.Eval(1)
	switch {
	case timedOut:
		t.Inconclusive("watchdog: the check did not finish within %v; stacks:\n%s", limit, lastBytes(stderr, 20000))
	default:
		if k, what := crashVerdict(stderr); k != "" {
			t.Violate(k, "", lastBytes(stderr, 40000), "the process crashed inside the library: %s", what)
		} else {
			t.Inconclusive("the check's process ended with %v; stderr:\n%s", cmd.ProcessState, lastBytes(stderr, 20000))
		}
	}
	return t.Finish()
}

// crashVerdict judges the stderr of a crashed Go process: key is non-empty
// when the crashing goroutine was inside the library.
func crashVerdict(stderr string) (key, what string) {
	for _, m := range []string{"panic: ", "fatal error: ", "unexpected fault address", "SIGBUS", "SIGSEGV", "runtime: "} {
		i := strings.Index(stderr, m)
		if i < 0 {
			continue
		}
		line, _, _ := strings.Cut(stderr[i:], "\n")
		if strings.HasPrefix(line, "panic: harness") || strings.Contains(line, "harness: ") {
			return "", ""
		}
		// The first goroutine dumped is the one that crashed.
		rest := stderr[i:]
		gs := mon.ParseStacks(rest)
		if len(gs) == 0 {
			if j := strings.Index(rest, "goroutine "); j >= 0 {
				gs = mon.ParseStacks(rest[j:])
			}
		}
		if len(gs) > 0 && mon.Library(gs[0].Stack) {
			return "crash:" + mon.PanicSite(gs[0].Stack), line
		}
		if strings.Contains(line, "deadlock") && mon.Library(rest) {
			return "deadlock", line
		}
		return "", ""
	}
	return "", ""
}

func lastBytes(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func scratchBase() string {
	if s := os.Getenv("XV_SCRATCH"); s != "" {
		return s
	}
	return os.TempDir()
}

// scratchDir makes a directory that the supervisor removes in the end.
func scratchDir(name string) string {
	d, err := os.MkdirTemp(scratchBase(), name+"-")
	if err != nil {
		panic("harness: " + err.Error())
	}
	return d
}

func selfExe() string {
	e, err := os.Executable()
	if err != nil {
		panic("harness: " + err.Error())
	}
	return filepath.Clean(e)
}
