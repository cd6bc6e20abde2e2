package main

import (
	"bytes"
	"errors"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// ---------------------------------------------------------------------------------------------------------
// Execution of emitted Bash scripts: unprivileged user, private directory, empty environment, limits.
// ---------------------------------------------------------------------------------------------------------

type Run struct {
	Out, Err string
	Exit     int
	Hang     bool // CPU limit exceeded or output limit exceeded
	Slow     bool // wall clock limit without CPU usage (inconclusive)
	Trunc    bool
	Why      string
}

type limBuf struct {
	bytes.Buffer
	max  int
	over bool
	kill func()
}

func (l *limBuf) Write(p []byte) (int, error) {
	if l.Len()+len(p) > l.max {
		if !l.over {
			l.over = true
			l.kill()
		}
		return len(p), nil
	}
	return l.Buffer.Write(p)
}

var (
	dropUID = uint32(65534)
	canDrop = true
)

func probeDrop() {
	cmd := exec.Command("/bin/bash", "-c", "exit 0")
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: dropUID, Gid: dropUID, NoSetGroups: true}}
	if cmd.Run() != nil {
		canDrop = false
	}
}

func prlimit(pid int, res int, v uint64) {
	l := [2]uint64{v, v}
	syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(pid), uintptr(res), uintptr(unsafe.Pointer(&l)), 0, 0, 0)
}

// treeCPU provides the CPU time of a process and of its terminated children.
func treeCPU(pid int) time.Duration {
	b, err := os.ReadFile("/proc/" + strconv.Itoa(pid) + "/stat")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b[bytes.LastIndexByte(b, ')')+1:]))
	if len(f) < 15 {
		return 0
	}
	n := 0
	for _, x := range f[11:15] {
		v, _ := strconv.Atoi(x)
		n += v
	}
	return time.Duration(n) * 10 * time.Millisecond
}

type RunOpt struct {
	Dir   string
	Stdin string
	Env   []string
	Args  []string // program (default: /bin/bash SCRIPT)
	Max   int
}

// runBash executes a script file.
func (s *Slot) runBash(script string, o RunOpt) Run {
	direct := false
	if o.Args == nil {
		o.Args = []string{"/bin/bash", script}
		// A share of the scripts is executed like a program (by the interpreter which the script names), with
		// arguments, which no script has a use for.
		if t, err := os.ReadFile(script); err == nil && bytes.HasPrefix(t, []byte("#!")) {
			switch k := seedFor("invocation", string(t)) % 16; {
			case k < 3 && os.Chmod(script, 0o755) == nil:
				direct = true
				o.Args = []string{script, "first argument", "*", "-x", "4"}[:1+k*2]
			case k == 3:
				o.Args = append(o.Args, "first argument", "*", "-x", "4")
			}
		}
	}
	if o.Max == 0 {
		o.Max = 2 << 20
	}
	if o.Env == nil {
		o.Env = []string{"PATH=" + s.path()}
	}
	cmd := exec.Command(o.Args[0], o.Args[1:]...)
	cmd.Dir = o.Dir
	if cmd.Dir == "" {
		cmd.Dir = s.roDir
	}
	cmd.Env = o.Env
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if canDrop {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: dropUID, Gid: dropUID, NoSetGroups: true}
	}
	kill := func() {
		if cmd.Process != nil {
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		}
	}
	out := &limBuf{max: o.Max, kill: kill}
	er := &limBuf{max: o.Max, kill: kill}
	cmd.Stdout, cmd.Stderr = out, er
	cmd.Stdin = strings.NewReader(o.Stdin)
	cmd.WaitDelay = 2 * time.Second
	err := cmd.Start()
	for i := 0; direct && errors.Is(err, syscall.ETXTBSY) && i < 50; i++ { // A concurrent fork still holds the written file.
		time.Sleep(5 * time.Millisecond)
		again := exec.Command(o.Args[0], o.Args[1:]...)
		again.Dir, again.Env, again.SysProcAttr, again.Stdin, again.Stdout, again.Stderr, again.WaitDelay = cmd.Dir, cmd.Env, cmd.SysProcAttr, strings.NewReader(o.Stdin), out, er, cmd.WaitDelay
		cmd = again
		err = cmd.Start()
	}
	if direct && (errors.Is(err, syscall.ETXTBSY) || errors.Is(err, syscall.EACCES)) { // Files can't be executed there.
		o.Args = append([]string{"/bin/bash"}, o.Args...)
		return s.runBash(script, o)
	}
	if direct && err == nil && s.c != nil {
		s.c.count("scripts executed by their interpreter line", 1)
	}
	if err != nil && !direct {
		return Run{Slow: true, Why: err.Error()}
	}
	if err != nil {
		return Run{Why: "the script cannot be executed: " + err.Error()}
	}
	prlimit(cmd.Process.Pid, 0 /* CPU */, 30)
	prlimit(cmd.Process.Pid, 1 /* FSIZE */, 16<<20)
	prlimit(cmd.Process.Pid, 9 /* AS */, 5<<29)
	timedOut := false
	t := time.AfterFunc(180*time.Second, func() { timedOut = true; kill() })
	done := make(chan struct{})
	go func() { // The CPU limit only counts the shell itself, so consider its subshells too.
		tick := time.NewTicker(time.Second)
		defer tick.Stop()
		for i := 0; ; i++ {
			select {
			case <-done:
				return
			case <-tick.C:
				if i >= 4 && treeCPU(cmd.Process.Pid) > 60*time.Second {
					kill()
				}
			}
		}
	}()
	cmd.Wait()
	close(done)
	t.Stop()
	kill() // Whatever is left of the process group.
	r := Run{Out: out.String(), Err: er.String(), Exit: cmd.ProcessState.ExitCode(), Trunc: out.over || er.over}
	cpu := cmd.ProcessState.UserTime() + cmd.ProcessState.SystemTime()
	if s.c != nil {
		s.c.maxCPU(cpu)
	}
	if out.over || er.over {
		r.Hang, r.Why = true, "output limit exceeded"
	} else if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		if cpu > 25*time.Second {
			r.Hang, r.Why = true, "CPU limit exceeded"
		} else if timedOut {
			r.Slow, r.Why = true, "wall clock limit"
		} else {
			r.Why = "killed by " + ws.Signal().String()
			r.Exit = 128 + int(ws.Signal())
		}
	}
	return r
}

func (s *Slot) path() string { return "/usr/bin:/bin" }

// freshDir provides an empty directory which the unprivileged user may write to.
func (s *Slot) freshDir(name string) string {
	d := filepath.Join(s.dir, name)
	os.RemoveAll(d)
	os.MkdirAll(d, 0o777)
	os.Chmod(d, 0o777)
	return d
}

func mustWrite(path, text string) {
	os.MkdirAll(filepath.Dir(path), 0o755)
	if err := os.WriteFile(path, []byte(text), 0o644); err != nil {
		panic(err)
	}
}
