package vh

import (
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
	"unsafe"
)

// The numbers are the same on all architectures.
const (
	sysCreateRuleset = 444
	sysAddRule       = 445
	sysRestrictSelf  = 446
	prSetNoNewPrivs  = 38
	oPath            = 0x200000

	writeFile  = 1 << 1
	changeDirs = 1<<4 | 1<<5 | 1<<6 | 1<<7 | 1<<8 | 1<<9 | 1<<10 | 1<<11 | 1<<12
	refer      = 1 << 13
	truncate   = 1 << 14
)

const containedEnv = "VERIF_CONTAINED"

// contain starts this process again, such that neither it nor what it starts
// can change, make, rename or remove files outside the scratch directory and
// the build cache: the code under test may be wrong about where it writes.
// It uses Landlock; where the kernel doesn't have it, the process goes on as
// it is, and all that the workloads name is below the scratch directory.
func contain() {
	if os.Getenv(containedEnv) != "" {
		return
	}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	abi, _, errno := syscall.Syscall(sysCreateRuleset, 0, 0, 1)
	if errno != 0 {
		return
	}
	rights := uint64(writeFile | changeDirs)
	if abi >= 2 {
		rights |= refer
	}
	if abi >= 3 {
		rights |= truncate
	}
	fd, _, errno := syscall.Syscall(sysCreateRuleset, uintptr(unsafe.Pointer(&rights)), 8, 0)
	if errno != 0 {
		return
	}
	allow := func(path string, allowed uint64) bool {
		f, err := syscall.Open(path, oPath|syscall.O_CLOEXEC, 0)
		if err != nil {
			return false
		}
		defer syscall.Close(f)
		rule := [12]byte{} // packed: the rights, the directory
		*(*uint64)(unsafe.Pointer(&rule[0])) = allowed & rights
		*(*int32)(unsafe.Pointer(&rule[8])) = int32(f)
		_, _, errno := syscall.Syscall6(sysAddRule, fd, 1, uintptr(unsafe.Pointer(&rule)), 0, 0, 0)
		return errno == 0
	}
	scratch := os.Getenv("VERIF_SCRATCH")
	if scratch == "" {
		scratch = os.TempDir()
	}
	if !allow(scratch, rights) {
		return
	}
	if cache := os.Getenv("GOCACHE"); cache != "" {
		allow(cache, rights)
	}
	for _, device := range []string{"/dev/null", "/dev/full"} {
		allow(device, writeFile|truncate)
	}
	if _, _, errno := syscall.Syscall6(syscall.SYS_PRCTL, prSetNoNewPrivs, 1, 0, 0, 0, 0); errno != 0 {
		return
	}
	self, err := os.Executable()
	if err != nil {
		return
	}
	if _, _, errno := syscall.Syscall(sysRestrictSelf, fd, 0, 0); errno != 0 {
		return
	}
	err = syscall.Exec(self, os.Args, append(os.Environ(), containedEnv+"=1"))
	panic(err)
}

// contained tells if a file cannot be made outside the scratch directory.
func contained() bool {
	if os.Getenv(containedEnv) == "" {
		return false
	}
	dir := filepath.Dir(strings.TrimSuffix(os.Getenv("VERIF_SCRATCH"), "/"))
	err := os.Mkdir(filepath.Join(dir, "webrpc-check-outside"), 0o700)
	if err == nil {
		_ = os.Remove(filepath.Join(dir, "webrpc-check-outside"))
	}
	return err != nil
}
