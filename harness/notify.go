//go:build go1.22

package main

import (
	"fmt"
	"net"
	"os"
	"runtime"
	"syscall"
	"unsafe"
)

// A child process stops before every system call that can change a
// file, and continues when the supervisor says so.

type sockFilter struct {
	Code   uint16
	Jt, Jf uint8
	K      uint32
}

type sockFprog struct {
	Len    uint16
	Filter *sockFilter
}

type notif struct {
	ID    uint64
	PID   uint32
	Flags uint32
	Nr    int32
	Arch  uint32
	IP    uint64
	Args  [6]uint64
}

type notifResp struct {
	ID    uint64
	Val   int64
	Error int32
	Flags uint32
}

var watchedCalls = map[int32]string{1: "write", 18: "pwrite", 20: "writev", 296: "pwritev", 257: "openat", 2: "open", 85: "creat", 82: "rename", 264: "renameat", 316: "renameat2", 87: "unlink", 263: "unlinkat",
	83: "mkdir", 258: "mkdirat", 84: "rmdir", 77: "ftruncate", 76: "truncate", 86: "link", 265: "linkat", 88: "symlink", 266: "symlinkat", 285: "fallocate", 326: "copy_file_range", 40: "sendfile", 90: "chmod", 91: "fchmod", 268: "fchmodat"}

// stopBeforeFileChanges installs the filter on all threads and returns
// the notification descriptor.
func stopBeforeFileChanges() (int, error) {
	runtime.LockOSThread()
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRCTL, 38, 1, 0, 0, 0, 0); e != 0 {
		return -1, e
	}
	nrs := []int32{}
	for n := range watchedCalls {
		nrs = append(nrs, n)
	}
	prog := []sockFilter{{0x20, 0, 0, 0}} // load nr
	for i, n := range nrs {
		prog = append(prog, sockFilter{0x15, uint8(len(nrs) - i), 0, uint32(n)})
	}
	prog = append(prog, sockFilter{0x06, 0, 0, 0x7fff0000}, sockFilter{0x06, 0, 0, 0x7fc00000})
	p := sockFprog{uint16(len(prog)), &prog[0]}
	fd, _, e := syscall.RawSyscall(317, 1, 1|8|16, uintptr(unsafe.Pointer(&p)))
	runtime.KeepAlive(prog)
	if e != 0 {
		return -1, e
	}
	return int(fd), nil
}

// sendFD passes a descriptor over a unix socket.
func sendFD(sock, fd int) error {
	return syscall.Sendmsg(sock, []byte{1}, syscall.UnixRights(fd), nil, 0)
}

func recvFD(c *net.UnixConn) (int, error) {
	b, oob := make([]byte, 1), make([]byte, 64)
	_, n, _, _, err := c.ReadMsgUnix(b, oob)
	if err != nil {
		return -1, err
	}
	ms, err := syscall.ParseSocketControlMessage(oob[:n])
	if err != nil || len(ms) == 0 {
		return -1, fmt.Errorf("no descriptor: %v", err)
	}
	fds, err := syscall.ParseUnixRights(&ms[0])
	if err != nil || len(fds) == 0 {
		return -1, fmt.Errorf("no descriptor: %v", err)
	}
	return fds[0], nil
}

func recvNotif(fd int) (*notif, error) {
	for {
		n := &notif{}
		_, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), 0xc0502100, uintptr(unsafe.Pointer(n)))
		switch e {
		case 0:
			return n, nil
		case syscall.EINTR:
			continue
		case syscall.ENOENT:
			// The call was interrupted, or the process is gone.
			return nil, e
		}
		return nil, e
	}
}

func resume(fd int, id uint64) error {
	r := &notifResp{ID: id, Flags: 1}
	_, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), 0xc0182101, uintptr(unsafe.Pointer(r)))
	if e != 0 {
		return e
	}
	return nil
}

// waitNotif waits until a notification is there, or the other end is
// gone (false).
func waitNotif(fd int) bool {
	type pollFd struct {
		fd      int32
		events  int16
		revents int16
	}
	for {
		p := pollFd{int32(fd), 1, 0}
		_, _, e := syscall.Syscall(syscall.SYS_POLL, uintptr(unsafe.Pointer(&p)), 1, 60000)
		if e == syscall.EINTR {
			continue
		}
		return e == 0 && p.revents&1 != 0
	}
}

func socketPair() (*net.UnixConn, *os.File, error) {
	fds, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return nil, nil, err
	}
	f := os.NewFile(uintptr(fds[0]), "sup")
	c, err := net.FileConn(f)
	f.Close()
	if err != nil {
		return nil, nil, err
	}
	return c.(*net.UnixConn), os.NewFile(uintptr(fds[1]), "child"), nil
}
