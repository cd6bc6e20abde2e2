package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/monstermichl/typeshell/converters/bash"
	"github.com/monstermichl/typeshell/converters/batch"
	"github.com/monstermichl/typeshell/lexer"
	"github.com/monstermichl/typeshell/transpiler"
)

// ---------------------------------------------------------------------------------------------------------
// Worker: runs the real code under test in a process of its own. Requests and answers are JSON lines.
// ---------------------------------------------------------------------------------------------------------

type Req struct {
	Op     string // "transpile", "tokenize", "history"
	Path   string
	Target []string // "bash", "batch"
	Src    []byte
	Hist   []HistStep
}

type HistStep struct {
	Path   string
	Target string
	Dir    string // working directory for the call ("" = leave)

	Swap  string            // directory whose content is replaced by Files before the call
	Files map[string]string // (all with the same time of modification)
}

type Out struct {
	Text  string
	Sum   string // digest of the bytes (JSON replaces invalid UTF-8)
	Err   string
	IsErr bool
	Panic string
}

type WTok struct {
	T    int
	V    []byte
	R, C int
}

type Resp struct {
	Outs  []Out
	Toks  []WTok
	Err   string
	IsErr bool
	Panic string

	Log  []string // what the process has consulted (probe)
	Dead string   `json:"-"` // process died or exceeded its CPU limit
	Slow bool     `json:"-"` // no answer although no CPU limit was exceeded (inconclusive)
}

func newConv(t string) transpiler.Converter {
	if t == "batch" {
		return batch.New()
	}
	return bash.New()
}

func catch(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("%v\n%s", r, debug.Stack())
			if len(msg) > 3000 {
				msg = msg[:3000]
			}
		}
	}()
	f()
	return ""
}

func workerMain() {
	debug.SetMaxStack(512 << 20)
	debug.SetMemoryLimit(3 << 29)
	lim := syscall.Rlimit{Cur: 3 << 30, Max: 3 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	w := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(w)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var q Req
		if err := json.Unmarshal(line, &q); err != nil {
			panic(err)
		}
		var p Resp
		switch q.Op {
		case "transpile":
			for _, t := range q.Target {
				var o Out
				o.Panic = catch(func() {
					tr := transpiler.New()
					text, err := tr.Transpile(q.Path, newConv(t))
					o.Text, o.Sum = text, digest(text)
					if err != nil {
						o.IsErr, o.Err = true, err.Error()
					}
				})
				p.Outs = append(p.Outs, o)
			}
		case "history":
			tr := transpiler.New()
			for _, h := range q.Hist {
				var o Out
				if h.Dir != "" {
					if err := os.Chdir(h.Dir); err != nil {
						panic(err)
					}
				}
				if h.Swap != "" {
					swapFiles(h.Swap, h.Files)
				}
				o.Panic = catch(func() {
					text, err := tr.Transpile(h.Path, newConv(h.Target))
					o.Text, o.Sum = text, digest(text)
					if err != nil {
						o.IsErr, o.Err = true, err.Error()
					}
				})
				p.Outs = append(p.Outs, o)
			}
		case "tokenize":
			p.Panic = catch(func() {
				toks, err := lexer.Tokenize(string(q.Src))
				if err != nil {
					p.IsErr, p.Err = true, err.Error()
				}
				for _, t := range toks {
					p.Toks = append(p.Toks, WTok{int(t.Type()), []byte(t.Value()), t.Row(), t.Column()})
				}
			})
		}
		p.Log = probeLog()
		enc.Encode(p)
		w.Flush()
	}
}

func digest(s string) string {
	h := sha256.Sum256([]byte(s))
	return hex.EncodeToString(h[:8])
}

// swapFiles replaces all files of a scratch directory.
func swapFiles(dir string, files map[string]string) {
	l, err := os.ReadDir(dir)
	if err != nil {
		panic(err)
	}
	for _, e := range l {
		os.RemoveAll(filepath.Join(dir, e.Name()))
	}
	for n, t := range files {
		mustWrite(filepath.Join(dir, n), t)
		os.Chtimes(filepath.Join(dir, n), time.Unix(1700000000, 0), time.Unix(1700000000, 0))
	}
}

type Worker struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	ch     chan []byte
	stderr *capBuf
}

type capBuf struct {
	mu sync.Mutex
	b  []byte
}

func (c *capBuf) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.b) < 4000 {
		c.b = append(c.b, p...)
	}
	return len(p), nil
}

func startWorker() *Worker { return startWorkerAs("", nil, "", false) }

// startWorkerAs starts a worker with another executable (copy), environment, working directory or user.
func startWorkerAs(exe string, env []string, dir string, drop bool) *Worker {
	if exe == "" {
		exe, _ = os.Executable()
	}
	if env == nil {
		env = os.Environ()
	}
	w := &Worker{cmd: exec.Command(exe, "worker"), ch: make(chan []byte, 1), stderr: &capBuf{}}
	w.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if drop && canDrop {
		w.cmd.SysProcAttr.Credential = &syscall.Credential{Uid: dropUID, Gid: dropUID, NoSetGroups: true}
	}
	w.cmd.Dir = dir
	w.cmd.Stderr = w.stderr
	w.cmd.Env = append(append([]string{}, env...), "GOTRACEBACK=single")
	in, err := w.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := w.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	w.in = in
	if err := w.cmd.Start(); err != nil {
		panic(err)
	}
	go func() {
		rd := bufio.NewReaderSize(out, 1<<20)
		for {
			l, err := rd.ReadBytes('\n')
			if err != nil {
				close(w.ch)
				return
			}
			w.ch <- l
		}
	}()
	return w
}

func (w *Worker) stop() {
	w.in.Close()
	syscall.Kill(-w.cmd.Process.Pid, syscall.SIGKILL)
	w.cmd.Wait()
}

// cpuTicks returns the CPU time (in 1/100 s) of one of our own child processes.
func cpuTicks(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(b)
	f := strings.Fields(s[strings.LastIndexByte(s, ')')+1:])
	if len(f) < 13 {
		return 0
	}
	var u, k int64
	fmt.Sscan(f[11], &u)
	fmt.Sscan(f[12], &k)
	return u + k
}

const workerCPULimit = 30 // seconds per request

func (s *Slot) ask(q Req) Resp {
	if s.w == nil {
		s.w = startWorker()
	}
	w := s.w
	b, _ := json.Marshal(q)
	base := cpuTicks(w.cmd.Process.Pid)
	start := time.Now()
	fail := func(p Resp) Resp {
		w.stop()
		s.w = nil
		s.restarts++
		return p
	}
	go w.in.Write(append(b, '\n'))
	tick := time.NewTicker(200 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case l, ok := <-w.ch:
			if !ok {
				w.cmd.Wait()
				w.stderr.mu.Lock()
				msg := string(w.stderr.b)
				w.stderr.mu.Unlock()
				return fail(Resp{Dead: "process died: " + msg})
			}
			var p Resp
			if err := json.Unmarshal(l, &p); err != nil {
				return fail(Resp{Dead: "bad answer"})
			}
			return p
		case <-tick.C:
			used := cpuTicks(w.cmd.Process.Pid) - base
			if used > workerCPULimit*100 {
				return fail(Resp{Dead: fmt.Sprintf("no result after %d s of CPU time", used/100)})
			}
			if time.Since(start) > 300*time.Second {
				return fail(Resp{Slow: true, Dead: "no result after 300 s"})
			}
		}
	}
}

// transpile runs the library for both targets (or the given ones).
func (s *Slot) transpile(path string, targets ...string) Resp {
	if len(targets) == 0 {
		targets = []string{"bash", "batch"}
	}
	return s.ask(Req{Op: "transpile", Path: path, Target: targets})
}
