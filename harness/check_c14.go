package main

import (
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

func init() {
	checks["C14"] = check{run: runC14,
		rule: "a pool of program trees (linked programs of several files, generated programs, library uses, erroneous and incomplete trees) and same-sized twins with one changed digit is translated by a new transpiler in a process of its own: the reference. Then the same bytes are translated in histories of several calls on one transpiler object of a long-living process (random program, version, target, location, spelling of the path, working directory with bait files; errors in between; files replaced under the same path with the same size and time), in fresh processes with another environment, user, working directory and location of the executable, from copies with other names of directories (deep, blanks, quotes, symbolic links), times, modes, unrelated neighbours and names of the main file, in processes of an instrumented build (packages os and time replaced by an overlay) which records every environment variable and path consulted and shows other variables, another host name and another time, again with files created wherever the transpiler looked for one in vain, and by the tsh command with both targets in both orders. Every script must equal the reference byte for byte, every error must be an error again. Distinct = distinct (content, target, situation).",
		asm:  []string{"calls on one transpiler object are sequential", "the wording of errors is outside of the property", "a tree is relocated as a whole"}}
}

type tree struct {
	kind  string
	main  string
	files []map[string]string // versions
	ref   [][]Out             // version -> bash, batch
	note  string
}

var c14Targets = []string{"bash", "batch"}

// twin changes a digit of one file (the size remains).
func twinOf(files map[string]string, r *rand.Rand) map[string]string {
	names := []string{}
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	f := map[string]string{}
	for n, t := range files {
		f[n] = t
	}
	n := names[r.IntN(len(names))]
	b := []byte(f[n])
	pos := []int{}
	for i := range b {
		if b[i] >= '0' && b[i] <= '9' {
			pos = append(pos, i)
		}
	}
	if len(pos) == 0 {
		f[n] += "print(\"twin\")\n"
		return f
	}
	i := pos[r.IntN(len(pos))]
	b[i] = '0' + (b[i]-'0'+1+byte(r.IntN(9)))%10
	f[n] = string(b)
	return f
}

func c14Tree(r *rand.Rand, uses []string) *tree {
	t := &tree{main: "main.tsh"}
	one := func(kind, src string) { t.kind, t.files = kind, []map[string]string{{"main.tsh": src}} }
	switch q := r.IntN(20); {
	case q < 9:
		p := linkProgram(r, false)
		t.kind, t.files = fmt.Sprintf("linked %d files", len(p.mods)), []map[string]string{p.files()}
		t.main = p.mods[0].File
		if q == 8 { // Incomplete tree.
			for n := range t.files[0] {
				if n != t.main && len(p.mods) > 1 && n == p.mods[1].File {
					delete(t.files[0], n)
					t.kind = "incomplete"
				}
			}
		}
	case q < 14:
		var o GenOpt
		switch q {
		case 9:
			o = scalarOpt(r.IntN(4))
		case 10, 11:
			o = funcOpt(r.IntN(4))
		case 12:
			o = sliceOpt(r.IntN(4))
		case 13:
			o = traceOpt(r.IntN(4))
		}
		if m := newGen(r, o).program(); m != nil {
			one("generated", m.Source())
		}
	case q < 16:
		one("library", uses[r.IntN(len(uses))])
	case q < 18:
		s := renameTemplates[r.IntN(len(renameTemplates))].src
		one("template", s)
	default:
		p := linkProgram(r, false)
		f := p.files()
		m := p.mods[r.IntN(len(p.mods))]
		s := f[m.File]
		switch r.IntN(5) {
		case 0:
			s += "\nprint(undefinedThing)\n"
		case 1:
			s += "\nx := \"unterminated\n"
		case 2:
			s += "\nif true {\n"
		case 3:
			s = s[:r.IntN(len(s)+1)]
		case 4:
			s += "\nvar zq int = \"text\"\n"
		}
		f[m.File] = s
		t.kind, t.files, t.main = "erroneous", []map[string]string{f}, p.mods[0].File
	}
	t.files = append(t.files, twinOf(t.files[0], r))
	return t
}

func writeTree(dir string, files map[string]string) {
	for n, t := range files {
		mustWrite(filepath.Join(dir, n), t)
	}
}

// odd names of directories.
var c14Dirs = []string{"plain", "with blank", "std", "strings", "quo\"te", "it's", "a.b.c", "-dash", "$HOME", "ümläut", "x;y", "tab\tx", "100%", "new\nline", "UPPER", strings.Repeat("long", 50), "main.tsh", "1", "[a]*", "..."}

// c14Exe is a copy of the executable with its own standard library (made before anything runs in parallel).
func (c *Ctx) c14Exe() string {
	d := filepath.Join(c.Work, "exe dir")
	p := filepath.Join(d, "other name")
	if _, err := os.Stat(p); err == nil {
		return p
	}
	os.MkdirAll(d, 0o755)
	exe, _ := os.Executable()
	b, err := os.ReadFile(exe)
	if err == nil {
		err = os.WriteFile(p, b, 0o755)
	}
	if err == nil {
		err = os.CopyFS(filepath.Join(d, "std"), os.DirFS(filepath.Join(c.Work, "std")))
	}
	if err != nil {
		panic(err)
	}
	return p
}

// askNew sends one request to a new process.
func (s *Slot) askNew(q Req, exe string, env []string, dir string, drop bool) Resp {
	old := s.w
	s.w = startWorkerAs(exe, env, dir, drop)
	p := s.ask(q)
	if s.w != nil {
		s.w.stop()
	}
	s.w = old
	return p
}

func c14Env(r *rand.Rand, s *Slot) []string {
	switch r.IntN(5) {
	case 0:
		return []string{}
	case 1:
		return []string{"HOME=/nonexistent", "LANG=de_DE.UTF-8", "TZ=Asia/Tokyo", "GOMAXPROCS=1", "PATH="}
	case 2:
		return []string{"HOME=" + s.dir, "PWD=/", "TMPDIR=/nonexistent", "OS=Windows_NT", "SHELL=cmd.exe", "TERM=dumb", "NO_COLOR=1", "PATH=/bin"}
	case 3:
		return append(os.Environ(), "GOGC=1", "LC_ALL=C")
	}
	return append(os.Environ(), "GOMAXPROCS=2", "DEBUG=1", "VERBOSE=1", "USER=someone", "HOSTNAME=other")
}

func (c *Ctx) historyCase(s *Slot, i int, r *rand.Rand, uses []string) {
	kase := fmt.Sprintf("history:%d", i)
	root := s.freshDir("c14")
	trees := []*tree{}
	for k := 1 + r.IntN(4); k >= 0; k-- {
		trees = append(trees, c14Tree(r, uses))
	}
	detail := func(t *tree, v int, got, want string) map[string]string {
		d := map[string]string{"got": got, "want": want}
		for n, x := range t.files[v] {
			d["source "+n] = x
		}
		return d
	}
	fail := func(what string, d map[string]string) { c.violate(kase, what, d) }
	// Reference: a fresh process and a fresh transpiler per tree.
	for k, t := range trees {
		c.count("trees "+strings.Fields(t.kind)[0], 1)
		for v := range t.files {
			d := filepath.Join(root, fmt.Sprintf("ref%d.%d", k, v))
			writeTree(d, t.files[v])
			p := s.askNew(Req{Op: "transpile", Path: filepath.Join(d, t.main), Target: c14Targets}, "", nil, "", false)
			if p.Dead != "" {
				c.inconclusive(kase + ": reference: " + p.Dead)
				return
			}
			t.ref = append(t.ref, p.Outs)
			for _, o := range p.Outs {
				if o.Panic != "" {
					c.inconclusive(kase + ": reference panics (C13)")
					return
				}
			}
			if p.Outs[0].IsErr != p.Outs[1].IsErr {
				c.count("accepted for one target only", 1)
			}
		}
	}
	same := func(situation string, t *tree, v int, target string, o Out) bool {
		want := t.ref[v][0]
		if target == "batch" {
			want = t.ref[v][1]
		}
		c.eval(1)
		c.seen(t.files[v], target, situation)
		if want.IsErr {
			c.count("errors compared", 1)
		} else {
			c.count("scripts compared", 1)
		}
		switch {
		case o.Panic != "":
			fail(fmt.Sprintf("%s: the transpilation to %s panics, in a fresh process it does not: %s", situation, target, clip(o.Panic, 200)), detail(t, v, o.Panic, want.Text))
		case o.IsErr != want.IsErr:
			fail(fmt.Sprintf("%s: the transpilation to %s returns error %q, in a fresh process %q", situation, target, o.Err, want.Err), detail(t, v, o.Err, want.Err))
		case !o.IsErr && o.Sum != want.Sum:
			fail(fmt.Sprintf("%s: the script for %s differs from the one of a fresh process: %s", situation, target, firstDiff(o.Text, want.Text)), detail(t, v, o.Text, want.Text))
		default:
			return true
		}
		return false
	}
	// Locations with copies of all trees (version 0), other times, modes, neighbours and names of the main file.
	type place struct{ dir, main string }
	locs := make([][]place, len(trees))
	for k, t := range trees {
		for l := 0; l < 3; l++ {
			d := filepath.Join(root, fmt.Sprintf("l%d.%d", k, l))
			if l > 0 {
				for n := r.IntN(3); n >= 0; n-- {
					d = filepath.Join(d, c14Dirs[r.IntN(len(c14Dirs))])
				}
			}
			if l == 2 && r.IntN(3) == 0 {
				for n := 0; n < 12; n++ {
					d = filepath.Join(d, strings.Repeat("d", 150+n))
				}
			}
			writeTree(d, t.files[0])
			main := t.main
			if l > 0 {
				switch r.IntN(6) {
				case 0:
					main = "renamed"
				case 1:
					main = "other name.v2.txt"
				case 2:
					main = ".hidden.tsh"
				}
				if main != t.main {
					os.Rename(filepath.Join(d, t.main), filepath.Join(d, main))
				}
				if r.IntN(2) == 0 {
					mustWrite(filepath.Join(d, "zz unrelated.tsh"), "this is no program {{{")
					mustWrite(filepath.Join(d, "zz/more.sh"), "exit 3")
				}
				when := time.Unix(int64(r.IntN(2000000000)), int64(r.IntN(1000)))
				filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
					if err == nil && !fi.IsDir() {
						os.Chtimes(p, when, when)
						os.Chmod(p, []os.FileMode{0o444, 0o644, 0o755, 0o600}[r.IntN(4)])
					}
					return nil
				})
				if r.IntN(3) == 0 {
					ln := filepath.Join(root, fmt.Sprintf("link%d.%d", k, l))
					if os.Symlink(d, ln) == nil {
						d = ln
					}
				}
			}
			locs[k] = append(locs[k], place{d, main})
		}
	}
	// Working directories with other files of the same names.
	baits := []string{root}
	for k, t := range trees {
		d := filepath.Join(root, fmt.Sprintf("bait%d", k))
		writeTree(d, t.files[1])
		mustWrite(filepath.Join(d, "std/strings.tsh"), "this is bait {\n")
		mustWrite(filepath.Join(d, "std/os.tsh"), "func Shell() string {\nreturn \"bait\"\n}\n")
		baits = append(baits, d)
	}
	spell := func(p place) (path, dir string) {
		abs := filepath.Join(p.dir, p.main)
		bait := baits[r.IntN(len(baits))]
		switch r.IntN(8) {
		case 0:
			return p.main, p.dir
		case 1:
			return "./" + p.main, p.dir
		case 2:
			b := filepath.Base(p.dir)
			return filepath.Join(b, p.main), filepath.Dir(p.dir)
		case 3:
			return p.dir + "//.//" + p.main, bait
		case 4:
			return p.dir + "/../" + filepath.Base(p.dir) + "/" + p.main, bait
		case 5:
			if rel, err := filepath.Rel(bait, abs); err == nil {
				return rel, bait
			}
		case 6:
			return "../" + filepath.Base(p.dir) + "/" + p.main, p.dir
		}
		return abs, bait
	}
	// Symbolic links make ".." ambiguous.
	lexical := func(p place) bool { return !strings.Contains(filepath.Base(p.dir), "link") }
	swap := filepath.Join(root, "swap")
	os.MkdirAll(swap, 0o777)
	type stepInfo struct {
		t      *tree
		v      int
		what   string
		target string
	}
	steps := func(n int) (h []HistStep, info []stepInfo) {
		for len(h) < n {
			k := r.IntN(len(trees))
			t := trees[k]
			tgt := c14Targets[r.IntN(2)]
			switch q := r.IntN(10); {
			case q < 3: // Replace the files in one directory (mostly keeping the tree but changing the version).
				v := r.IntN(len(t.files))
				if len(info) > 0 && info[len(info)-1].t != nil && r.IntN(2) == 0 {
					t = info[len(info)-1].t
					v = 1 - info[len(info)-1].v
				}
				h = append(h, HistStep{Path: filepath.Join(swap, t.main), Target: tgt, Swap: swap, Files: t.files[v], Dir: baits[r.IntN(len(baits))]})
				info = append(info, stepInfo{t, v, "same path, other content", tgt})
			case q < 4: // Missing file.
				h = append(h, HistStep{Path: filepath.Join(root, "missing.tsh"), Target: tgt})
				info = append(info, stepInfo{nil, 0, "missing", tgt})
			case q < 5: // Other version in its directory.
				h = append(h, HistStep{Path: filepath.Join(root, fmt.Sprintf("ref%d.1", k), t.main), Target: tgt})
				info = append(info, stepInfo{t, 1, "other version", tgt})
			default:
				l := r.IntN(len(locs[k]))
				path, dir := spell(locs[k][l])
				if !lexical(locs[k][l]) {
					path, dir = filepath.Join(locs[k][l].dir, locs[k][l].main), baits[r.IntN(len(baits))]
				}
				h = append(h, HistStep{Path: path, Target: tgt, Dir: dir})
				info = append(info, stepInfo{t, 0, fmt.Sprintf("location %d", l), tgt})
				if r.IntN(3) == 0 { // Repetition.
					for m := r.IntN(3); m >= 0; m-- {
						h, info = append(h, h[len(h)-1]), append(info, info[len(info)-1])
					}
				}
			}
		}
		return
	}
	judge := func(where string, p Resp, h []HistStep, info []stepInfo) bool {
		if p.Slow {
			c.inconclusive(kase + ": " + p.Dead)
			return false
		}
		if p.Dead != "" {
			fail(where+": "+p.Dead, nil)
			return false
		}
		trace := ""
		for n, o := range p.Outs {
			trace += fmt.Sprintf("step %d: %s of %q from %q (%s)\n", n, h[n].Target, clip(h[n].Path, 300), clip(h[n].Dir, 300), info[n].what)
			if info[n].t == nil {
				if !o.IsErr {
					fail(where+": a missing file is translated", map[string]string{"got": o.Text})
					return false
				}
				continue
			}
			if !same(where+", "+info[n].what, info[n].t, info[n].v, info[n].target, o) {
				c.mu.Lock()
				if len(c.viol) > 0 {
					c.viol[len(c.viol)-1].Detail["steps"] = trace
				}
				c.mu.Unlock()
				return false
			}
		}
		return true
	}
	// One transpiler object of the long-living process.
	for k := 0; k < 2; k++ {
		h, info := steps(4 + r.IntN(10))
		p := s.ask(Req{Op: "history", Hist: h})
		if !judge("one transpiler object", p, h, info) {
			return
		}
		shape := ""
		for n := range info {
			id := "-"
			for j, t := range trees {
				if t == info[n].t {
					id = fmt.Sprint(j)
				}
			}
			shape += id + info[n].target[:3] + " "
		}
		c.seen("history", shape)
		c.count("histories", 1)
		c.count("calls in histories", len(h))
		if k == 0 {
			c.sample("history", shape)
		}
	}
	// Fresh processes with other surroundings.
	for k := 0; k < 2; k++ {
		h, info := steps(1 + r.IntN(3))
		exe, env := "", c14Env(r, s)
		probe := probeExe != "" && r.IntN(2) == 0
		if probe {
			exe = probeExe
			off := []int64{0, 1, 60, 3600, 86400, -86400, 31 * 86400, 366 * 86400, -20 * 365 * 86400, 15 * 365 * 86400}[r.IntN(10)]
			env = append(env, fmt.Sprintf("VH_PROBE=%d", 1+r.IntN(1000)), fmt.Sprintf("VH_TIME=%d", off), "HOME="+root)
		} else if r.IntN(2) == 0 {
			exe = c.c14Exe()
		}
		drop := r.IntN(3) == 0
		if drop { // Only what everybody may read; files cannot be replaced.
			h, info = nil, nil
			for n, t := range trees {
				h = append(h, HistStep{Path: filepath.Join(locs[n][0].dir, locs[n][0].main), Target: c14Targets[r.IntN(2)]})
				info = append(info, stepInfo{t, 0, "other user", h[len(h)-1].Target})
			}
		}
		p := s.askNew(Req{Op: "history", Hist: h}, exe, env, baits[r.IntN(len(baits))], drop)
		what := "fresh process"
		if probe {
			what = "fresh process with another environment, host name and time"
		}
		if !judge(what, p, h, info) {
			return
		}
		c.count("fresh processes", 1)
		if probe {
			c.count("fresh processes with probe", 1)
			for _, e := range p.Log {
				if f := strings.SplitN(e, " ", 2); f[0] != "path" {
					c.count("consulted: "+e, 1)
				}
			}
		}
	}
	if probeExe != "" && i%4 == 0 {
		k := r.IntN(len(trees))
		if !c.consulted(s, r, root, baits[r.IntN(len(baits))], trees[k], filepath.Join(locs[k][0].dir, locs[k][0].main), same) {
			return
		}
	}
	// The command: both targets of one process, in both orders.
	k := r.IntN(len(trees))
	t := trees[k]
	for _, order := range [][]string{{"bash", "batch"}, {"batch", "bash"}, {"bash", "batch", "bash", "batch"}} {
		if !c.c14Tsh(s, filepath.Join(locs[k][0].dir, t.main), order, func(target string, o Out) bool {
			return same(fmt.Sprintf("tsh %v", order), t, 0, target, o)
		}) {
			return
		}
	}
}

func (c *Ctx) c14Tsh(s *Slot, path string, order []string, same func(target string, o Out) bool) bool {
	out := s.freshDir("c14out")
	args := []string{"-i", path, "-o", out}
	for _, t := range order {
		args = append(args, "-t", t)
	}
	cmd := exec.Command(filepath.Join(c.Work, "tsh"), args...)
	cmd.Dir = s.roDir
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	err := cmd.Start()
	if err != nil {
		c.inconclusive(err.Error())
		return false
	}
	prlimit(cmd.Process.Pid, 0, 60)
	prlimit(cmd.Process.Pid, 9 /* AS */, 3<<30)
	err = cmd.Wait()
	c.count("tsh processes", 1)
	base := strings.TrimSuffix(filepath.Base(path), filepath.Ext(path))
	for k, t := range order {
		b, ferr := os.ReadFile(filepath.Join(out, base+"."+map[string]string{"bash": "sh", "batch": "bat"}[t]))
		o := Out{Text: string(b), Sum: digest(string(b))}
		if ferr != nil {
			o = Out{IsErr: true, Err: fmt.Sprintf("tsh: %v", err)}
			if k > 0 && err != nil { // The command stopped at an earlier target.
				continue
			}
		}
		if !same(t, o) {
			return false
		}
	}
	return true
}

// consulted creates files where the transpiler looked for some in vain (apart from imports, which may be found
// there) and translates again.
func (c *Ctx) consulted(s *Slot, r *rand.Rand, root, cwd string, t *tree, path string, same func(situation string, t *tree, v int, target string, o Out) bool) bool {
	ask := func(exe string) Resp {
		return s.askNew(Req{Op: "history", Hist: []HistStep{{Path: path, Target: "bash", Dir: cwd}, {Path: path, Target: "batch", Dir: cwd}}}, exe, append(os.Environ(), "HOME="+root), cwd, false)
	}
	p := ask(probeExe)
	if p.Dead != "" {
		c.inconclusive("probe: " + p.Dead)
		return false
	}
	done := map[string]bool{}
	for _, e := range p.Log {
		f, ok := strings.CutPrefix(e, "path ")
		f = filepath.Clean(f)
		if !ok || done[f] {
			continue
		}
		done[f] = true
		c.count("paths consulted", 1)
		if !strings.HasPrefix(f, root+"/") {
			continue
		}
		if _, err := os.Lstat(f); err == nil {
			continue
		}
		imp := false
		for _, x := range t.files[0] {
			imp = imp || strings.Contains(x, filepath.Base(f)+"\"") || strings.Contains(x, filepath.Base(f)+".tsh\"")
		}
		if imp {
			continue
		}
		c.count("missing paths consulted apart from imports", 1)
		for _, text := range []string{"x := 1\n", "", "{\"indent\": 2}\n"} {
			os.MkdirAll(filepath.Dir(f), 0o777)
			if os.WriteFile(f, []byte(text), 0o666) != nil {
				break
			}
			q := ask("")
			os.Remove(f)
			for k, o := range q.Outs {
				if !same(fmt.Sprintf("with an additional file %q", strings.TrimPrefix(f, root)), t, 0, []string{"bash", "batch"}[k], o) {
					return false
				}
			}
		}
	}
	return true
}

var probeExe string

func runC14(c *Ctx) {
	if probeExe = c.buildProbe(); probeExe == "" {
		c.inconclusive("the instrumented worker could not be built")
	}
	uses := stdUses()
	c.c14Exe()
	c.each("history", c.pick(1200, 16000), func(s *Slot, i int, r *rand.Rand) {
		c.historyCase(s, i, r, uses)
	})
}
