package simos

import "syscall"

const (
	errIsDir = syscall.EISDIR
	errBadFd = syscall.EBADF
	errSeek  = syscall.ESPIPE
)
