package boltfake

import (
	"syscall"
	"unsafe"
)

// tcpState returns the state of a TCP socket (1 ESTABLISHED, 4 FIN_WAIT1, 5
// FIN_WAIT2, ...), 0 if the kernel does not tell.
func tcpState(fd uintptr) byte {
	var info [256]byte
	n := uint32(len(info))
	_, _, e := syscall.Syscall6(syscall.SYS_GETSOCKOPT, fd, syscall.IPPROTO_TCP, syscall.TCP_INFO, uintptr(unsafe.Pointer(&info[0])), uintptr(unsafe.Pointer(&n)), 0)
	if e != 0 {
		return 0
	}
	return info[0]
}
