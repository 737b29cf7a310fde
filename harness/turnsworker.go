package main

import (
	"fmt"
	"os"
	"strconv"
	"syscall"
	"time"

	"github.com/bwesterb/go-xmssmt"
)

func init() { workers["turns"] = turnsWorker }

// appendEvents returns a function that appends one line with one write(2).
func appendEvents(path string) func(f string, a ...any) {
	fd, err := syscall.Open(path, syscall.O_APPEND|syscall.O_CREAT|syscall.O_WRONLY|syscall.O_CLOEXEC, 0600)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return func(f string, a ...any) { syscall.Write(fd, []byte(fmt.Sprintf(f, a...)+"\n")) }
}

// barrier waits until n processes have arrived.  Processes stay alive until
// all are done, so that none of them finds the lock of a process that died.
func barrier(path string, n int, me string) {
	os.MkdirAll(path, 0700)
	os.WriteFile(path+"/"+me, nil, 0600)
	for {
		e, _ := os.ReadDir(path)
		if len(e) >= n {
			return
		}
		time.Sleep(2 * time.Millisecond)
	}
}

// turnsWorker signs with the package-level Sign on a shared key file,
// retrying while another process has it open.
//
//	xv worker turns <key file> <events> <signatures> <processes> <barrier> <id>
func turnsWorker(args []string) int {
	emit := appendEvents(args[1])
	n, _ := strconv.Atoi(args[2])
	procs, _ := strconv.Atoi(args[3])
	barrier(args[4]+"-a", procs, args[5])
	for i := 0; i < n; {
		sig, err := xmssmt.Sign(args[0], []byte(fmt.Sprintf("%s %d", args[5], i)))
		if err != nil {
			if err.Locked() {
				time.Sleep(time.Duration(os.Getpid()%5+1) * 300 * time.Microsecond)
				continue
			}
			emit("ERR %s %v", args[5], err)
			fmt.Fprintln(os.Stderr, err)
			return 4
		}
		var s xmssmt.Signature
		if e := s.UnmarshalBinary(sig); e != nil {
			fmt.Fprintln(os.Stderr, e)
			return 4
		}
		emit("TURN %s %d", args[5], s.SeqNo())
		i++
	}
	barrier(args[4]+"-b", procs, args[5])
	return 0
}
