// Added to package os through -overlay by the simulator's build.

package os

import "syscall"

// VerifEnv, when set, is the simulated environment. During package
// initialisation it is drawn from the variable VERIF_BOOT, if there is one.
var VerifEnv = verifBootEnv

var verifVals = []string{"", "0", "1", "true", "debug", "off", "/tmp", "de_DE.UTF-8"}

func verifBootEnv(key string) (val string, found, handled bool) {
	b, _ := syscall.Getenv("VERIF_BOOT")
	if b == "" || key == "" {
		return "", false, false
	}
	if _, ok := syscall.Getenv(key); ok {
		return "", false, false
	}
	if b == "0" {
		return "", false, true
	}
	h := uint64(14695981039346656037)
	for _, c := range []byte(b + key) {
		h = (h ^ uint64(c)) * 1099511628211
	}
	if h>>20%3 == 0 {
		return "", false, true
	}
	return verifVals[h>>24%uint64(len(verifVals))], true, true
}

func verifEnv(key string) (val string, found, handled bool) {
	if VerifEnv == nil {
		return "", false, false
	}
	return VerifEnv(key)
}

func verifPid() int {
	v, _, ok := verifEnv("#pid")
	if !ok {
		return syscall.Getpid()
	}
	n := 1000
	for _, c := range []byte(v) {
		n = n*3 + int(c)
	}
	return n
}

// VerifPath, when set, says where a file of the simulated machine really is.
var VerifPath func(name string, create bool) string

func verifPath(name string, create bool) string {
	if VerifPath == nil || name == "" {
		return name
	}
	return VerifPath(name, create)
}
