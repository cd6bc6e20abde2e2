package main

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strings"
	"time"
)

// ---------------------------------------------------------------------------------------------------------
// Oracle of the behavioural checks: source -> real translation -> real execution -> comparison.
// ---------------------------------------------------------------------------------------------------------

// Want is what the reference prescribes.
type Want struct {
	Out   string
	Exit  int
	Files map[string]string // nil: not compared
}

type Target byte

const (
	onBash  Target = 1
	onBatch Target = 2
)

type Prog struct {
	Files map[string]string // path -> source
	Main  string
	Want  Want
	Stdin string
	Dir   string // working directory for the script ("" = an unwritable empty directory)
	Tgt   Target
	Env   []string
	App   func(name string, args []string, stdin string) (string, int) // programs which Batch scripts run
	FS    map[string]string                                            // files of Batch scripts
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("... (%d bytes)", len(s))
	}
	return s
}

// linkMark precedes the target of a symbolic link in a set of files, srcDirMark stands for the directory of the files.
const (
	linkMark   = "\x00link to "
	srcDirMark = "@SRC@"
)

// writeSources puts the files into the slot's source directory and returns the path of the main file.
func (s *Slot) writeSources(files map[string]string, main string) string {
	d := filepath.Join(s.dir, "src")
	os.RemoveAll(d)
	for n, t := range files {
		if target, ok := strings.CutPrefix(t, linkMark); ok {
			os.MkdirAll(filepath.Dir(filepath.Join(d, n)), 0o755)
			if err := os.Symlink(target, filepath.Join(d, n)); err != nil {
				panic(err)
			}
			continue
		}
		mustWrite(filepath.Join(d, n), strings.ReplaceAll(t, srcDirMark, d))
	}
	return filepath.Join(d, main)
}

type Verdict struct {
	Bad    string // empty: fine
	Inc    string // inconclusive
	Detail map[string]string
	Bash   string
	Batch  string
	Runs   int
}

// outcome translates (both targets) and executes the program.
func (s *Slot) outcome(p *Prog) (v Verdict) {
	v.Detail = map[string]string{}
	for n, t := range p.Files {
		v.Detail["source "+n] = t
	}
	path := s.writeSources(p.Files, p.Main)
	resp := s.transpile(path)
	if resp.Slow {
		v.Inc = resp.Dead
		return
	}
	if resp.Dead != "" {
		v.Bad = "transpilation: " + resp.Dead
		return
	}
	for i, t := range []string{"bash", "batch"} {
		o := resp.Outs[i]
		switch {
		case o.Panic != "":
			v.Bad = "transpilation to " + t + " panics: " + clip(o.Panic, 300)
			v.Detail["panic"] = o.Panic
			return
		case o.IsErr:
			v.Bad = "valid program is rejected for " + t + ": " + o.Err
			return
		}
	}
	v.Bash, v.Batch = resp.Outs[0].Text, resp.Outs[1].Text
	v.Detail["expected stdout"] = p.Want.Out
	v.Detail["expected exit"] = fmt.Sprint(p.Want.Exit)
	if p.Tgt&onBash != 0 {
		f := filepath.Join(s.dir, "main.sh")
		mustWrite(f, v.Bash)
		r := s.runBash(f, RunOpt{Dir: p.Dir, Stdin: p.Stdin, Env: p.Env})
		v.Runs++
		if r.Slow {
			v.Inc = r.Why
			return
		}
		if bad := differs(r, p.Want); bad != "" {
			v.Bad = "bash: " + bad
			v.Detail["script"] = v.Bash
			v.Detail["actual stdout"] = r.Out
			v.Detail["actual stderr"] = r.Err
			v.Detail["actual exit"] = fmt.Sprint(r.Exit)
			return
		}
		if p.Want.Files != nil {
			if bad := dirDiffers(p.Dir, p.Want.Files); bad != "" {
				v.Bad = "bash: " + bad
				v.Detail["script"] = v.Bash
				v.Detail["actual stdout"] = r.Out
				return
			}
		}
	}
	if p.Tgt&onBatch != 0 {
		r := runCmdApp(v.Batch, p.Stdin, nil, p.App, p.FS)
		v.Runs++
		if (p.App != nil || p.FS != nil) && strings.Contains(r.Err, "cmd: model:") {
			v.Inc = r.Err // Commands of which the model does not know the effect.
			return
		}
		if r.Slow {
			v.Inc = r.Why
			return
		}
		if bad := differs(r, p.Want); bad != "" {
			v.Bad = "batch: " + bad
			v.Detail["script"] = v.Batch
			v.Detail["actual stdout"] = r.Out
			v.Detail["actual stderr"] = r.Err
			v.Detail["actual exit"] = fmt.Sprint(r.Exit)
			return
		}
		if p.FS != nil && fmt.Sprintf("%q", p.FS) != fmt.Sprintf("%q", p.Want.Files) {
			v.Bad = fmt.Sprintf("batch: files %q, expected %q", p.FS, p.Want.Files)
			v.Detail["script"] = v.Batch
		}
	}
	return
}

// dirDiffers compares a directory with the expected files (names relative to the directory).
func dirDiffers(dir string, want map[string]string) string {
	n := 0
	bad := ""
	filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
		if err != nil || d.IsDir() || bad != "" {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		w, ok := want[rel]
		if !ok {
			bad = fmt.Sprintf("unexpected file %q", rel)
			return nil
		}
		n++
		if b, _ := os.ReadFile(p); string(b) != w {
			bad = fmt.Sprintf("file %q contains %s, expected %s", rel, clip(fmt.Sprintf("%q", b), 200), clip(fmt.Sprintf("%q", w), 200))
		}
		return nil
	})
	if bad == "" && n != len(want) {
		bad = fmt.Sprintf("%d files are missing", len(want)-n)
		for f := range want {
			if _, err := os.Stat(filepath.Join(dir, f)); err != nil {
				bad = fmt.Sprintf("file %q is missing", f)
			}
		}
	}
	return bad
}

func differs(r Run, w Want) string {
	switch {
	case r.Hang:
		return "the script does not terminate: " + r.Why
	case r.Why != "":
		return r.Why
	case r.Out != w.Out:
		return "stdout differs: " + firstDiff(r.Out, w.Out)
	case r.Exit != w.Exit:
		return fmt.Sprintf("exit status %d, expected %d", r.Exit, w.Exit)
	case strings.ReplaceAll(r.Err, probeNoise, "") != "":
		return "stderr is not empty: " + clip(r.Err, 200)
	}
	return ""
}

func firstDiff(got, want string) string {
	g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
	for i := 0; i < len(g) || i < len(w); i++ {
		a, b := "<end>", "<end>"
		if i < len(g) {
			a = fmt.Sprintf("%q", g[i])
		}
		if i < len(w) {
			b = fmt.Sprintf("%q", w[i])
		}
		if a != b {
			return fmt.Sprintf("line %d is %s, expected %s", i+1, clip(a, 200), clip(b, 200))
		}
	}
	return "?"
}

// judge runs a program and reports.
func (c *Ctx) judge(s *Slot, kase string, p *Prog, shrink func() *Prog) bool {
	v := s.outcome(p)
	c.eval(1)
	c.count("scripts executed", v.Runs)
	if v.Inc != "" {
		c.inconclusive(kase + ": " + v.Inc)
		return true
	}
	if v.Bad == "" {
		return true
	}
	if shrink != nil && c.samp == 0 && !strings.Contains(v.Bad, "does not terminate") {
		if q := shrink(); q != nil {
			if w := s.outcome(q); w.Bad != "" {
				v = w
			}
		}
	}
	c.violate(kase, v.Bad, v.Detail)
	return false
}

func mainProg(m *Module, in *Interp, tgt Target) *Prog {
	return &Prog{Files: map[string]string{"main.tsh": m.Source()}, Main: "main.tsh", Want: Want{Out: in.Out.String(), Exit: in.Exit}, Tgt: tgt}
}

// noteProg records what a reference run has exercised.
func (c *Ctx) noteProg(in *Interp) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for i, n := range in.Kinds {
		if n > 0 {
			c.counts["stmt "+stmtNames[i]] += int64(n)
		}
	}
	c.counts["expressions evaluated"] += int64(sum(in.EKinds[:]))
	c.counts["output lines compared"] += int64(in.Lines)
	c.counts["function calls"] += int64(in.calls)
	c.counts["loop iterations"] += int64(in.iters)
	if in.Exit != 0 {
		c.counts["programs ending with panic"]++
	}
}

func sum(x []int) (n int) {
	for _, y := range x {
		n += y
	}
	return
}

// genPhase runs generated programs of a configuration.
func (c *Ctx) genPhase(phase string, n int, o func(i int) GenOpt, tgt Target, nontrivial func(in *Interp) bool) {
	c.each(phase, n, func(s *Slot, i int, r *rand.Rand) {
		opt := o(i)
		max := 1200
		if c.thorough() {
			max = 2500
		}
		m, in := sound(r, opt, max)
		if m == nil {
			c.count("generator gave up", 1)
			return
		}
		c.noteProg(in)
		p := mainProg(m, in, tgt)
		if nontrivial == nil || nontrivial(in) {
			c.seen(p.Files["main.tsh"])
		}
		c.sample(phase, p.Files["main.tsh"]+"\n--> "+clip(p.Want.Out, 300))
		c.judge(s, fmt.Sprintf("%s:%d", phase, i), p, func() *Prog { return c.shrink(s, m, opt.Bits, tgt) })
	})
}

// ---------------------------------------------------------------------------------------------------------
// Shrinking by statement deletion.
// ---------------------------------------------------------------------------------------------------------

func (c *Ctx) shrink(s *Slot, m *Module, bits int, tgt Target) *Prog {
	var best *Prog
	budget := 250
	start := time.Now()
	try := func() bool {
		if best != nil && (c.stop.Load() || time.Since(start) > 30*time.Second) { // Only limits the size of the report.
			budget = 0
		}
		if budget <= 0 || !wellScoped(m) {
			return false
		}
		budget--
		in := &Interp{Bits: bits, Max: 6000}
		if ok, _ := in.Run(m, nil); !ok {
			return false
		}
		p := mainProg(m, in, tgt)
		v := s.outcome(p)
		if v.Inc != "" || v.Bad == "" {
			return false
		}
		best = p
		return true
	}
	if !try() {
		return nil
	}
	var pass func(b []*Stmt) []*Stmt
	shrinkBlock := func(get func() []*Stmt, set func([]*Stmt)) bool {
		changed := false
		for size := len(get()); size >= 1; size /= 2 {
			for i := 0; i+size <= len(get()); {
				old := get()
				n := append(append([]*Stmt{}, old[:i]...), old[i+size:]...)
				set(n)
				if try() {
					changed = true
				} else {
					set(old)
					i++
				}
				if budget <= 0 {
					return changed
				}
			}
		}
		return changed
	}
	_ = pass
	for round := 0; round < 4 && budget > 0; round++ {
		ch := shrinkBlock(func() []*Stmt { return m.Body }, func(b []*Stmt) { m.Body = b })
		var walk func(b []*Stmt)
		walk = func(b []*Stmt) {
			for _, st := range b {
				for k := range st.Blocks {
					if shrinkBlock(func() []*Stmt { return st.Blocks[k] }, func(n []*Stmt) { st.Blocks[k] = n }) {
						ch = true
					}
					walk(st.Blocks[k])
				}
				if st.F != nil {
					if shrinkBlock(func() []*Stmt { return st.F.Body }, func(n []*Stmt) { st.F.Body = n }) {
						ch = true
					}
					walk(st.F.Body)
				}
			}
		}
		walk(m.Body)
		if !ch {
			break
		}
	}
	return best
}

// wellScoped tells if every variable and function is defined in front of its uses (by identity) and if
// functions with results still end with a return statement.
func wellScoped(m *Module) bool {
	ok := true
	funcs := map[*Func]bool{}
	var scopes []map[*Var]bool
	has := func(v *Var) bool {
		for _, s := range scopes {
			if s[v] {
				return true
			}
		}
		return false
	}
	use := func(v *Var) {
		if !has(v) {
			ok = false
		}
	}
	var expr func(e *Expr)
	expr = func(e *Expr) {
		if e == nil {
			return
		}
		if e.V != nil {
			use(e.V)
		}
		if e.F != nil && e.F.Mod == m && !funcs[e.F] {
			ok = false
		}
		for _, x := range e.X {
			expr(x)
		}
		for _, a := range e.Apps {
			for _, x := range a.Args {
				expr(x)
			}
		}
	}
	var block func(b []*Stmt)
	var stmt func(s *Stmt)
	declare := func(vs []*Var, short bool) {
		fresh := 0
		for _, v := range vs {
			if !has(v) {
				scopes[len(scopes)-1][v] = true
				fresh++
			}
		}
		if fresh == 0 {
			ok = false
		}
	}
	stmt = func(s *Stmt) {
		switch s.K {
		case SFunc:
			save := scopes
			g := map[*Var]bool{}
			for _, sc := range scopes {
				for v := range sc {
					g[v] = true
				}
			}
			for _, p := range s.F.Params {
				g[p] = true
			}
			scopes = []map[*Var]bool{g}
			block(s.F.Body)
			scopes = save
			funcs[s.F] = true
			if len(s.F.Rets) > 0 && (len(s.F.Body) == 0 || s.F.Body[len(s.F.Body)-1].K != SReturn) {
				ok = false
			}
			return
		case SFor:
			scopes = append(scopes, map[*Var]bool{})
			if s.Init != nil {
				stmt(s.Init)
			}
			expr(s.Cond)
			if s.Post != nil {
				stmt(s.Post)
			}
			block(s.Blocks[0])
			scopes = scopes[:len(scopes)-1]
			return
		case SRange:
			expr(s.X[0])
			scopes = append(scopes, map[*Var]bool{})
			for _, v := range s.Vars {
				scopes[len(scopes)-1][v] = true
			}
			block(s.Blocks[0])
			scopes = scopes[:len(scopes)-1]
			return
		}
		for _, x := range s.X {
			expr(x)
		}
		expr(s.Tag)
		if s.K == SVar {
			declare(s.Vars, s.Form == ":=")
		} else {
			for _, v := range s.Vars {
				use(v)
			}
		}
		for _, b := range s.Blocks {
			block(b)
		}
	}
	block = func(b []*Stmt) {
		scopes = append(scopes, map[*Var]bool{})
		for _, s := range b {
			stmt(s)
		}
		scopes = scopes[:len(scopes)-1]
	}
	block(m.Body)
	return ok
}

// ---------------------------------------------------------------------------------------------------------
// Regression corpus: NAME.tsh with NAME.out (expected stdout) and an optional NAME.exit / NAME.in.
// ---------------------------------------------------------------------------------------------------------

// regress runs the regression inputs of a check: programs with their output, programs of several files, and
// reject/*.tsh and accept/*.tsh.
func (c *Ctx) regress() {
	switch c.ID {
	case "C05":
		for _, d := range []string{"C01", "C02", "C03", "C04", "C05"} {
			c.corpus(d, onBatch)
		}
	case "C13":
		c.corpusTotal()
	default:
		c.corpus(c.ID, onBash)
		c.corpusDirs(c.ID)
	}
	for want, d := range []string{"reject", "accept"} {
		l, _ := filepath.Glob(filepath.Join(c.Verif, "regress", c.ID, d, "*.tsh"))
		c.each(d, len(l), func(s *Slot, i int, r *rand.Rand) {
			b, _ := os.ReadFile(l[i])
			c.seen(string(b))
			c.count("regression programs", 1)
			c.acceptance(s, d+":"+filepath.Base(l[i]), map[string]string{"main.tsh": string(b)}, want)
		})
	}
}

func (c *Ctx) corpus(dir string, tgt Target) {
	l, _ := filepath.Glob(filepath.Join(c.Verif, "regress", dir, "*.tsh"))
	c.each("corpus-"+dir, len(l), func(s *Slot, i int, r *rand.Rand) {
		b, _ := os.ReadFile(l[i])
		stem := strings.TrimSuffix(l[i], ".tsh")
		out, err := os.ReadFile(stem + ".out")
		if err != nil {
			panic("harness: " + err.Error())
		}
		p := &Prog{Files: map[string]string{"main.tsh": string(b)}, Main: "main.tsh", Want: Want{Out: string(out)}, Tgt: tgt}
		if x, err := os.ReadFile(stem + ".exit"); err == nil {
			fmt.Sscan(string(x), &p.Want.Exit)
		}
		if x, err := os.ReadFile(stem + ".in"); err == nil {
			p.Stdin = string(x)
		}
		if strings.Contains(string(b), "write(") {
			p.Dir = s.freshDir("files")
		}
		c.seen(string(b))
		c.count("regression programs", 1)
		c.judge(s, "corpus:"+filepath.Base(l[i]), p, nil)
	})
}

// corpusDirs runs the regression programs of several files: DIR/NAME/ with main.tsh, expected.out, (input).
func (c *Ctx) corpusDirs(id string) {
	l, _ := filepath.Glob(filepath.Join(c.Verif, "regress", id, "*", "main.tsh"))
	c.each("corpus-"+id, len(l), func(s *Slot, i int, r *rand.Rand) {
		dir := filepath.Dir(l[i])
		files := map[string]string{}
		p := &Prog{Main: "main.tsh", Files: files, Tgt: onBash | onBatch}
		filepath.WalkDir(dir, func(f string, d os.DirEntry, err error) error {
			if err != nil || d.IsDir() {
				return nil
			}
			b, _ := os.ReadFile(f)
			rel, _ := filepath.Rel(dir, f)
			switch rel {
			case "expected.out":
				p.Want.Out = string(b)
			case "input":
				p.Stdin = string(b)
			case "bashonly":
				p.Tgt = onBash
			default:
				files[rel] = string(b)
			}
			return nil
		})
		c.seen(dir)
		c.count("regression programs", 1)
		c.judge(s, "corpus:"+filepath.Base(dir), p, nil)
	})
}
