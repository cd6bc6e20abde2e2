package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"time"
)

// ---------------------------------------------------------------------------------------------------------
// Probe: a worker whose standard library packages os and time are instrumented (go build -overlay). They record
// every environment variable and every path the code under test consults, and show it other variables, another
// name of the host and another time.
// ---------------------------------------------------------------------------------------------------------

const probeOS = `package os

import (
	"sync"
	"syscall"
)

var verifSeed = func() uint32 {
	v, _ := syscall.Getenv("VH_PROBE")
	n := uint32(0)
	for i := 0; i < len(v); i++ {
		n = n*10 + uint32(v[i]-'0')
	}
	return n
}()

var (
	verifMu  sync.Mutex
	verifLog []string
)

// VerifLog returns and clears the record.
func VerifLog() []string {
	verifMu.Lock()
	defer verifMu.Unlock()
	l := verifLog
	verifLog = nil
	return l
}

func verifNote(kind, name string) {
	if kind == "path" && (name == "" || name[0] != '/') {
		if d, err := syscall.Getwd(); err == nil {
			name = d + "/" + name
		}
	}
	verifMu.Lock()
	defer verifMu.Unlock()
	if len(verifLog) < 2000 {
		verifLog = append(verifLog, kind+" "+name)
	}
}

var verifValues = []string{"", "1", "0", "true", "/usr/local/bin/bash", "/bin/bash", "/usr/bin/bash", "/bin/sh", "/opt/x/bin/zsh", "cmd.exe", "C:\\Windows\\system32\\cmd.exe", "de_DE.UTF-8", "C", "dumb", "xterm-256color", "/tmp", "/nonexistent/dir", "3", "100", "80", "windows", "linux", "bash", "batch", "debug", "on", "no", "UTC", "Asia/Tokyo", "root", "someone else"}

func verifEnv(key string) (string, bool) {
	v, ok := syscall.Getenv(key)
	if len(key) >= 5 && key[:5] == "VERIF" || len(key) > 2 && key[:3] == "VH_" || key == "PROBE_LOG" {
		return v, ok
	}
	verifNote("env", key)
	if verifSeed == 0 || key == "HOME" && verifSeed%2 == 0 {
		return v, ok
	}
	h := verifSeed * 2654435761
	for i := 0; i < len(key); i++ {
		h = (h ^ uint32(key[i])) * 16777619
	}
	h ^= h >> 15
	n := uint32(len(verifValues) + 4)
	switch k := h % n; k {
	case n - 1, n - 2:
		return "", false
	case n - 3, n - 4:
		return v, ok
	default:
		return verifValues[k], true
	}
}

func verifHost(name string, err error) (string, error) {
	verifNote("host", "name")
	if verifSeed > 0 {
		return verifValues[4+verifSeed%20], nil
	}
	return name, err
}
`

const probeTime = `package time

import "syscall"

var verifOffset = func() int64 {
	v, _ := syscall.Getenv("VH_TIME")
	n, neg := int64(0), false
	for i := 0; i < len(v); i++ {
		if v[i] == '-' {
			neg = true
		} else {
			n = n*10 + int64(v[i]-'0')
		}
	}
	if neg {
		return -n
	}
	return n
}()
`

// buildProbe builds the instrumented worker and returns its path ("" if it is not available).
func (c *Ctx) buildProbe() string {
	start := time.Now()
	dir := filepath.Join(c.Work, "probe")
	root := runtime.GOROOT()
	if b, err := exec.Command("go", "env", "GOROOT").Output(); err == nil {
		root = strings.TrimSpace(string(b))
	}
	rep := map[string]string{}
	put := func(rel, text string) {
		p := filepath.Join(dir, strings.ReplaceAll(rel, "/", "_"))
		mustWrite(p, text)
		rep[filepath.Join(root, "src", rel)] = p
	}
	ok := true
	edit := func(rel string, pairs ...string) {
		b, err := os.ReadFile(filepath.Join(root, "src", rel))
		s := string(b)
		for k := 0; err == nil && k < len(pairs); k += 2 {
			if !strings.Contains(s, pairs[k]) {
				err = fmt.Errorf("%s does not contain %q", rel, pairs[k])
			}
			s = strings.ReplaceAll(s, pairs[k], pairs[k+1])
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "probe:", err)
			ok = false
			return
		}
		put(rel, s)
	}
	edit("os/env.go", "	testlog.Getenv(key)\n	v, _ := syscall.Getenv(key)\n", "	v, _ := verifEnv(key)\n", "	testlog.Getenv(key)\n	return syscall.Getenv(key)\n", "	return verifEnv(key)\n",
		"\"internal/testlog\"\n", "", "return syscall.Environ()", "verifNote(\"env\", \"all\")\n	return syscall.Environ()")
	edit("os/sys.go", "return hostname()", "return verifHost(hostname())")
	edit("os/file.go", "	testlog.Open(name)\n", "	testlog.Open(name)\n	verifNote(\"path\", name)\n")
	edit("os/stat.go", "	testlog.Stat(name)\n", "	testlog.Stat(name)\n	verifNote(\"path\", name)\n")
	edit("time/time.go", "	sec, nsec, mono := runtimeNow()\n	if mono == 0 {", "	sec, nsec, mono := runtimeNow()\n	sec += verifOffset\n	if mono == 0 {")
	put("os/verif_probe.go", probeOS)
	put("time/verif_probe.go", probeTime)
	if !ok {
		return ""
	}
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	mustWrite(filepath.Join(dir, "overlay.json"), string(b))
	exe := filepath.Join(c.Work, "vhp")
	args := []string{"build", "-overlay", filepath.Join(dir, "overlay.json"), "-tags", "verifprobe", "-o", exe}
	if _, err := os.Stat(filepath.Join(c.Work, "go.mod")); err == nil {
		args = append(args, "-modfile="+filepath.Join(c.Work, "go.mod"))
	}
	cmd := exec.Command("go", append(args, ".")...)
	cmd.Dir = filepath.Join(c.Verif, "harness")
	if out, err := cmd.CombinedOutput(); err != nil {
		fmt.Fprintf(os.Stderr, "probe: %v: %s\n", err, out)
		return ""
	}
	os.Chmod(exe, 0o755)
	fmt.Fprintf(os.Stderr, "[%s] probe built in %.1f s\n", c.ID, time.Since(start).Seconds())
	return exe
}
