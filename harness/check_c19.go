package main

import (
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

func init() {
	checks["C19"] = check{run: runC19,
		rule: "the tsh binary built from the working tree runs as an unprivileged user in scratch directories whose complete content (names, bytes, modes, links) is recorded before and after. Accepted, rejected, incomplete, empty and large programs times names of the input (several dots, no extension, blanks, dashes, line breaks, long, extensions of the targets) times spellings of paths times all orders, forms and repetitions of the options times states of the output directory (empty, older and longer outputs, read-only outputs, outputs which are links or directories, unwritable, shared with the input or by several processes) times faults (missing, unreadable, directory as input; missing, file, unwritable as output; unknown options and targets, missing values; limited file size). The outputs must be the bytes which the library returns for the same path in another process, nothing else may change, and errors must exit non-zero without new or changed output. Distinct = distinct (command line shape, program, situation).",
		asm:  []string{"messages of tsh are outside of the property", "-i or -o given twice and names of inputs which consist of an extension only are not judged", "write faults are produced by the limit of the file size"}}
}

type fstate struct {
	Mode os.FileMode
	Data string
}

func snapDir(dir string) map[string]fstate {
	m := map[string]fstate{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || p == dir {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		st := fstate{Mode: fi.Mode()}
		switch {
		case fi.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			st.Data = "-> " + l
		case fi.Mode().IsRegular():
			b, _ := os.ReadFile(p)
			st.Data = string(b)
		}
		m[rel] = st
		return nil
	})
	return m
}

type tshRun struct {
	args  []string
	cwd   string
	limit string // ulimit -f
}

func (s *Slot) tsh(q tshRun) (exit int, stderr string, slow bool) {
	bin := filepath.Join(s.c.Work, "tsh")
	argv := append([]string{bin}, q.args...)
	if q.limit != "" {
		argv = append([]string{"/bin/bash", "-c", "ulimit -f " + q.limit + "; exec \"$@\"", "x"}, argv...)
	}
	cmd := exec.Command(argv[0], argv[1:]...)
	cmd.Dir = q.cwd
	cmd.Env = []string{"PATH=/usr/bin:/bin"}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if canDrop {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: dropUID, Gid: dropUID, NoSetGroups: true}
	}
	er := &limBuf{max: 1 << 16, kill: func() {}}
	cmd.Stdout, cmd.Stderr = er, er
	if err := cmd.Start(); err != nil {
		return 0, err.Error(), true
	}
	prlimit(cmd.Process.Pid, 0, 60)
	prlimit(cmd.Process.Pid, 9 /* AS */, 3<<30)
	prlimit(cmd.Process.Pid, 4 /* CORE */, 0)
	late := false
	t := time.AfterFunc(120*time.Second, func() { late = true; syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	cmd.Wait()
	t.Stop()
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	return cmd.ProcessState.ExitCode(), er.String(), late
}

var c19Names = []string{"main.tsh", "main.tsh", "a.b.c.tsh", "noext", "with blank.tsh", " lead.tsh", "trail.tsh ", "dot.", "two..tsh", "x.sh", "x.bat", "x.sh.tsh", "x.bash", "-t.tsh", "-i", "--out.x", "ümläut.tsh", "new\nline.tsh", "quo\"te'.tsh", "$HOME.tsh", "*.tsh", "UPPER.TSH", "a.tsh.tsh", "1", "tab\tx.y", "%s%d.tsh", "x.batch", strings.Repeat("n", 240) + ".tsh", "back\\slash.x", "a b.c d.e f", "x.tsh~", "bat", "sh", "....tsh", "name.verylongextension"}

// c19Program provides sources of a tree; the main file is called main.tsh.
func c19Program(r *rand.Rand, uses []string) (kind string, files map[string]string) {
	one := func(kind, src string) (string, map[string]string) {
		return kind, map[string]string{"main.tsh": src}
	}
	switch q := r.IntN(24); {
	case q < 6:
		p := linkProgram(r, false)
		return "linked", p.files()
	case q < 9:
		return one("generated", newGen(r, funcOpt(r.IntN(4))).program().Source())
	case q < 10:
		return one("generated", newGen(r, sliceOpt(r.IntN(4))).program().Source())
	case q < 12:
		return one("library", uses[r.IntN(len(uses))])
	case q < 14:
		return one("template", renameTemplates[r.IntN(len(renameTemplates))].src)
	case q < 15:
		return one("large", strings.Repeat("print(\"0123456789012345678901234567890123456789\")\n", 500+r.IntN(3000)))
	case q < 16:
		return one("small", []string{"", "\n", "// nothing\n", "print(1)\n", "x := 1\n", "print(\"\xff\xfe\")\n", "print(`\x00\x01`)\n", "/* */"}[r.IntN(8)])
	case q < 17:
		p := linkProgram(r, false)
		f := p.files()
		for _, m := range p.mods[1:] {
			delete(f, m.File)
			return "incomplete", f
		}
		return "linked", f
	case q < 18:
		return "cycle", map[string]string{"main.tsh": "import a \"a.tsh\"\nprint(1)\n", "a.tsh": "import b \"main.tsh\"\nfunc F() {\n}\n"}
	}
	_, f := c19Program2(r)
	return "erroneous", f
}

var c19Errors = []string{
	"print(\"unterminated\n", "print(`unterminated\n", "x := 1 ? 2\n", "print(\"\\q\")\n", "/* open\n", // lexical
	"if true {\n", "print(1\n", "x := \n", "}\n", "for {\n", "func f( {\n}\n", "import \n", "var\n", // syntax
	"var a int = \"x\"\n", "print(1 + \"a\")\n", "if 1 {\n}\n", "print(nowhere)\n", "f()\n", "func f() int {\nreturn \"x\"\n}\n", "a := 1\na := 2\n", "break\n", "x := true + 1\n", // type
	"import m \"missing.tsh\"\n", "import \"nostd\"\n"}

func c19Program2(r *rand.Rand) (string, map[string]string) {
	bad := c19Errors[r.IntN(len(c19Errors))]
	switch r.IntN(4) {
	case 0:
		return "erroneous", map[string]string{"main.tsh": bad}
	case 1: // At the end of something long.
		return "erroneous", map[string]string{"main.tsh": strings.Repeat("print(\"fine\")\n", 1+r.IntN(2000)) + bad}
	case 2: // In an imported file.
		return "erroneous", map[string]string{"main.tsh": "import m \"lib/m.tsh\"\nprint(1)\n", "lib/m.tsh": bad}
	}
	p := linkProgram(r, false)
	f := p.files()
	f["main.tsh"] += bad
	return "erroneous", f
}

// pathTo spells the path of an object.
func spellPath(r *rand.Rand, p, cwd string) string {
	switch r.IntN(6) {
	case 0:
		if rel, err := filepath.Rel(cwd, p); err == nil {
			if !strings.HasPrefix(rel, "-") && r.IntN(2) == 0 {
				return rel
			}
			return "./" + rel
		}
	case 1:
		return filepath.Dir(p) + "//./" + filepath.Base(p)
	case 2:
		return filepath.Dir(p) + "/../" + filepath.Base(filepath.Dir(p)) + "/" + filepath.Base(p)
	case 3:
		if rel, err := filepath.Rel(cwd, p); err == nil {
			return rel
		}
	}
	return p
}

var c19Ext = map[string]string{"bash": "sh", "batch": "bat"}

func (c *Ctx) tshCase(s *Slot, i int, r *rand.Rand, uses []string) {
	root := s.freshDir("c19")
	kind, files := c19Program(r, uses)
	if len(files) == 1 && kind == "erroneous" && r.IntN(2) == 0 {
		kind, files = c19Program2(r)
	}
	name := c19Names[r.IntN(len(c19Names))]
	if kind == "cycle" {
		name = "main.tsh"
	}
	inDir := filepath.Join(root, "in")
	os.MkdirAll(inDir, 0o777)
	for n, t := range files {
		if n == "main.tsh" {
			n = name
		}
		mustWrite(filepath.Join(inDir, n), t)
	}
	in := filepath.Join(inDir, name)
	outDir := filepath.Join(root, []string{"out", "out", "o u t", "out.d", "-o", "deep/er/out"}[r.IntN(6)])
	if r.IntN(5) == 0 {
		outDir = inDir
	}
	os.MkdirAll(outDir, 0o777)
	cwd := filepath.Join(root, "cwd")
	os.MkdirAll(cwd, 0o777)
	switch r.IntN(6) {
	case 0:
		cwd = inDir
	case 1:
		cwd = outDir
	case 2:
		cwd = root
	}
	base := strings.TrimSuffix(name, filepath.Ext(name))
	inArg, outArg := spellPath(r, in, cwd), spellPath(r, outDir, cwd)
	if r.IntN(6) == 0 {
		outArg += "/"
	}
	targets := [][]string{{"bash"}, {"batch"}, {"bash", "batch"}, {"batch", "bash"}, {"bash", "bash"}, {"batch", "batch"}, {"bash", "batch", "bash"}, {"batch", "bash", "bash", "batch"}, {"bash", "bash", "bash"}, {"batch", "batch", "bash"}}[r.IntN(10)]
	type opt struct{ k, v string }
	opts := []opt{{[]string{"-i", "--in"}[r.IntN(2)], inArg}, {[]string{"-o", "--out"}[r.IntN(2)], outArg}}
	for _, t := range targets {
		opts = append(opts, opt{[]string{"-t", "--type"}[r.IntN(2)], t})
	}
	r.Shuffle(len(opts), func(a, b int) { opts[a], opts[b] = opts[b], opts[a] })
	situation, mustFail, mayFail := "", false, false
	limit := ""
	inputGone := false
	argv := func() (l []string) {
		for _, o := range opts {
			l = append(l, o.k, o.v)
		}
		return
	}
	var args []string
	old := func(ext, text string, mode os.FileMode) {
		p := filepath.Join(outDir, base+"."+ext)
		if p == in {
			return
		}
		mustWrite(p, text)
		os.Chmod(p, mode)
	}
	outName := func(ext string) string { return filepath.Join(outDir, base+"."+ext) }
	// State of the output directory.
	for _, ext := range []string{"sh", "bat"} {
		wanted := false
		for _, t := range targets {
			wanted = wanted || c19Ext[t] == ext
		}
		if outName(ext) == in {
			situation += "output is the input;"
			mayFail = mayFail || wanted
			continue
		}
		if _, err := os.Lstat(outName(ext)); err == nil { // Belongs to the program.
			situation += "output is part of the program;"
			continue
		}
		switch r.IntN(14) {
		case 0, 1:
			old(ext, "old content\n", 0o666)
			situation += "old;"
		case 2:
			old(ext, strings.Repeat("old content, much longer than everything else\n", 8000), 0o777)
			situation += "old long;"
		case 3:
			old(ext, "", 0o644)
			situation += "old empty;"
		case 4:
			old(ext, "read-only\n", 0o444)
			situation += "old read-only;"
			mayFail = mayFail || wanted
		case 5:
			if r.IntN(2) == 0 {
				os.Mkdir(outName(ext), 0o777)
				situation += ext + " is a directory;"
				mayFail = mayFail || wanted
			}
		case 6:
			switch r.IntN(5) {
			case 0:
				os.Symlink(in, outName(ext))
				situation += ext + " links to the input;"
				mayFail = mayFail || wanted
			case 1:
				os.Link(in, outName(ext))
				situation += ext + " is the input (hard link);"
				mayFail = mayFail || wanted
			case 2:
				mustWrite(filepath.Join(root, "target"+ext), "somewhere else\n")
				os.Chmod(filepath.Join(root, "target"+ext), 0o666)
				os.Symlink(filepath.Join(root, "target"+ext), outName(ext))
				situation += ext + " is a link;"
				mayFail = mayFail || wanted
			case 3:
				os.Symlink("nowhere/at/all", outName(ext))
				situation += ext + " is a dangling link;"
				mayFail = mayFail || wanted
			}
		}
	}
	if strings.Contains(situation, "part of the program") {
		return // Whether imported files count as input is open.
	}
	// Faults.
	if r.IntN(100) < 45 {
		k := r.IntN(20)
		set := func(key byte, v string) {
			for n := range opts {
				if strings.TrimLeft(opts[n].k, "-")[0] == key {
					opts[n].v = v
					return
				}
			}
		}
		drop := func(key byte) {
			o := []opt{}
			for _, x := range opts {
				if strings.TrimLeft(x.k, "-")[0] != key {
					o = append(o, x)
				}
			}
			opts = o
		}
		mustFail = true
		switch k {
		case 0:
			set('i', filepath.Join(root, "in", "missing.tsh"))
			situation += "missing input"
		case 1:
			set('i', inDir)
			situation += "directory as input"
		case 2:
			os.Chmod(in, 0)
			situation += "unreadable input"
		case 3:
			set('o', filepath.Join(root, "no", "where"))
			situation += "missing output directory"
		case 4:
			mustWrite(filepath.Join(root, "afile"), "text")
			set('o', filepath.Join(root, "afile"))
			situation += "file as output directory"
		case 5:
			set('o', in)
			situation += "input as output directory"
		case 6:
			os.Chmod(outDir, 0o555)
			situation += "unwritable output directory"
			if !canDrop {
				return
			}
		case 7:
			set('t', []string{"Bash", "cmd", "", "sh", "bat", "bash ", "python", "-t", "bash,batch", "BATCH"}[r.IntN(10)])
			situation += "unknown target"
		case 8:
			opts = append(opts, opt{"-t", []string{"nope", "", "bash2"}[r.IntN(3)]})
			situation += "unknown target at last"
		case 9:
			drop('i')
			situation += "no input"
		case 10:
			drop('o')
			situation += "no output"
		case 11:
			drop('t')
			situation += "no target"
		case 12:
			n := r.IntN(len(opts) + 1)
			opts = append(opts[:n:n], append([]opt{{[]string{"-x", "--input", "-T", "i", "", "-", "--", "-in", "--o", "-type", "/i"}[r.IntN(11)], []string{inArg, "bash", "", "x"}[r.IntN(4)]}}, opts[n:]...)...)
			situation += "unknown option"
		case 13:
			args = append(argv(), []string{"-t", "--type", "-x", "bash", inArg, ""}[r.IntN(6)])
			situation += "value missing at the end"
		case 14:
			args = argv()
			n := r.IntN(len(args))
			args = append(args[:n:n], args[n+1:]...)
			situation += "argument missing"
		case 15:
			args = []string{}
			situation += "no arguments"
		case 16:
			set('i', "")
			situation += "empty input name"
		case 17:
			set('o', "")
			situation += "empty output name"
		default: // The limit of the file size: the outcome depends on the script.
			limit = fmt.Sprint([]int{0, 1, 2, 4, 16}[r.IntN(5)])
			situation += "file size limit " + limit
			mustFail, mayFail = false, true
		}
		if k == 14 {
			// An option may have taken the place of a value, so the outcome is not prescribed exactly.
			mayFail, mustFail = true, true
		}
		inputGone = k == 0
	}
	_ = inputGone
	if args == nil {
		args = argv()
	}
	kase := fmt.Sprintf("tsh:%d (%s, %s)", i, kind, situation)
	// The library's answer for the path as given, from the same working directory.
	var lib [2]Out
	if !mustFail || limit != "" {
		for k, t := range c14Targets {
			p := s.ask(Req{Op: "history", Hist: []HistStep{{Path: inArg, Target: t, Dir: cwd}}})
			if p.Dead != "" {
				c.inconclusive(kase + ": library: " + p.Dead)
				return
			}
			lib[k] = p.Outs[0]
			if lib[k].Panic != "" {
				c.inconclusive(kase + ": library panics (C13)")
				return
			}
		}
	}
	if canDrop {
		for _, d := range []string{root, inDir, outDir, cwd} {
			if d != outDir || !strings.Contains(situation, "unwritable") {
				os.Chmod(d, 0o777)
			}
		}
	}
	if r.IntN(6) == 0 {
		os.Chmod(in, 0o666) // An input which could be modified.
		if strings.Contains(situation, "unreadable") {
			os.Chmod(in, 0o200)
		}
	}
	before := snapDir(root)
	exit, msg, slow := s.tsh(tshRun{args, cwd, limit})
	if slow {
		c.inconclusive(kase + ": " + msg)
		return
	}
	after := snapDir(root)
	c.eval(1)
	shape := ""
	for _, o := range opts {
		shape += o.k
		if strings.HasPrefix(strings.TrimLeft(o.k, "-"), "t") {
			shape += "=" + o.v
		}
		shape += " "
	}
	c.seen(shape, situation, name, files)
	c.sample("command", fmt.Sprintf("tsh %q: %s", shape, situation))
	bad := ""
	// Objects which must not have changed.
	relOut, _ := filepath.Rel(root, outDir)
	outKey := func(t string) string { return filepath.Join(relOut, base+"."+c19Ext[t]) }
	requested := map[string]bool{}
	for _, t := range targets {
		requested[t] = true
	}
	wrong := mustFail
	for k, t := range c14Targets {
		if requested[t] && lib[k].IsErr {
			wrong = true
		}
	}
	changed := []string{}
	for n, a := range after {
		b, ok := before[n]
		if !ok {
			changed = append(changed, "new: "+n)
		} else if a != b {
			changed = append(changed, "changed: "+n)
		}
	}
	for n := range before {
		if _, ok := after[n]; !ok {
			changed = append(changed, "gone: "+n)
		}
	}
	sort.Strings(changed)
	isOutput := func(x string) (string, bool) {
		_, n, _ := strings.Cut(x, ": ")
		for _, t := range c14Targets {
			if n == outKey(t) && requested[t] {
				return t, true
			}
		}
		return "", false
	}
	detail := map[string]string{"arguments": fmt.Sprintf("%q", args), "messages": clip(msg, 3000), "changes": strings.Join(changed, "\n"), "cwd": cwd, "file size limit": limit}
	for n, t := range files {
		detail["source "+n] = clip(t, 4000)
	}
	content := func(t string) (string, bool) {
		b, err := os.ReadFile(filepath.Join(outDir, base+"."+c19Ext[t]))
		return string(b), err == nil
	}
	libOf := func(t string) Out {
		if t == "batch" {
			return lib[1]
		}
		return lib[0]
	}
	if b, err := os.ReadFile(in); err != nil || string(b) != files["main.tsh"] {
		bad = "the input is modified"
	}
	exact := func(x string) {
		t, ok := isOutput(x)
		if !ok {
			bad = "something else changes: " + x
			return
		}
		got, rd := content(t)
		if !rd || digest(got) != libOf(t).Sum || libOf(t).IsErr {
			bad = fmt.Sprintf("the output for %s is not what the library returns: %s", t, firstDiff(clip(got, 1<<20), libOf(t).Text))
		}
	}
	switch {
	case bad != "":
	case wrong && exit == 0:
		bad = "exit status 0 in spite of an error"
	case wrong:
		c.count("errors", 1)
		if len(changed) > 0 {
			bad = "in spite of an error: " + strings.Join(changed, ", ")
		}
		// One target may still be fine if only the other one fails.
		if bad != "" && !mustFail {
			bad = ""
			for _, x := range changed {
				if bad == "" {
					exact(x)
				}
			}
		}
	case exit != 0 && !mayFail:
		bad = fmt.Sprintf("exit status %d although nothing is wrong", exit)
	case exit != 0: // Some output could not be written: what has changed is exact.
		c.count("failures which are allowed", 1)
		for _, x := range changed {
			if bad == "" {
				exact(x)
			}
		}
	default:
		c.count("successes", 1)
		for t := range requested {
			got, rd := content(t)
			if bad == "" && (!rd || digest(got) != libOf(t).Sum) {
				bad = fmt.Sprintf("the output for %s is not what the library returns: %s", t, firstDiff(clip(got, 1<<20), libOf(t).Text))
			}
			c.count("output files compared", 1)
		}
		for _, x := range changed {
			if _, ok := isOutput(x); !ok && bad == "" {
				if strings.Contains(x, "target") && strings.Contains(situation, "is a link") {
					continue // Written through the link.
				}
				bad = "something else changes: " + x
			}
		}
	}
	for _, w := range strings.Split(situation, ";") {
		if w != "" {
			c.count("situation: "+w, 1)
		}
	}
	c.count("program "+kind, 1)
	if bad != "" {
		c.violate(kase, bad+fmt.Sprintf(" (tsh %q)", args), detail)
	}
}

// sharedCase runs several commands at the same time into one directory.
func (c *Ctx) sharedCase(s *Slot, i int, r *rand.Rand, uses []string) {
	kase := fmt.Sprintf("shared:%d", i)
	root := s.freshDir("c19")
	out := filepath.Join(root, "out")
	os.MkdirAll(out, 0o777)
	os.Chmod(out, 0o777)
	type job struct {
		path, base string
		outs       []Out
		exit       int
		slow       bool
		msg        string
		targets    []string
	}
	jobs := []*job{}
	for k := 0; k < 6; k++ {
		_, files := c19Program(r, uses)
		d := filepath.Join(root, fmt.Sprint("in", k))
		for n, t := range files {
			if n == "main.tsh" {
				n = fmt.Sprintf("prog%d.tsh", k)
			}
			mustWrite(filepath.Join(d, n), t)
		}
		j := &job{path: filepath.Join(d, fmt.Sprintf("prog%d.tsh", k)), base: fmt.Sprintf("prog%d", k), targets: [][]string{{"bash", "batch"}, {"batch", "bash"}, {"bash"}, {"batch"}}[r.IntN(4)]}
		for _, t := range j.targets {
			p := s.ask(Req{Op: "history", Hist: []HistStep{{Path: j.path, Target: t}}})
			if p.Dead != "" || p.Outs[0].Panic != "" {
				c.inconclusive(kase + ": library " + p.Dead)
				return
			}
			j.outs = append(j.outs, p.Outs[0])
		}
		jobs = append(jobs, j)
	}
	var wg sync.WaitGroup
	for _, j := range jobs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			args := []string{"-i", j.path, "-o", out}
			for _, t := range j.targets {
				args = append(args, "-t", t)
			}
			j.exit, j.msg, j.slow = s.tsh(tshRun{args: args, cwd: root})
		}()
	}
	wg.Wait()
	want := map[string]string{}
	for _, j := range jobs {
		if j.slow {
			c.inconclusive(kase + ": slow")
			return
		}
		failed := false
		for k, t := range j.targets {
			if j.outs[k].IsErr {
				failed = true
			} else {
				want[j.base+"."+c19Ext[t]] = j.outs[k].Sum
			}
		}
		c.eval(1)
		c.seen(j.outs)
		if failed != (j.exit != 0) {
			c.violate(kase, fmt.Sprintf("exit status %d, the library returns an error: %v", j.exit, failed), map[string]string{"messages": j.msg})
			return
		}
	}
	got := snapDir(out)
	for n, st := range got {
		if w, ok := want[n]; !ok || w != digest(st.Data) {
			c.violate(kase, "several commands at the same time: "+n+" is not what the library returns", map[string]string{"got": st.Data})
			return
		}
	}
	for n := range want {
		if _, ok := got[n]; !ok {
			c.violate(kase, "several commands at the same time: "+n+" is missing", nil)
			return
		}
	}
	c.count("commands at the same time", len(jobs))
}

func runC19(c *Ctx) {
	uses := stdUses()
	c.each("tsh", c.pick(7000, 120000), func(s *Slot, i int, r *rand.Rand) {
		c.tshCase(s, i, r, uses)
	})
	c.each("shared", c.pick(120, 1500), func(s *Slot, i int, r *rand.Rand) {
		c.sharedCase(s, i, r, uses)
	})
}
