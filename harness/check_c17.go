package main

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strings"
)

func init() {
	checks["C17"] = check{run: runC17,
		rule: "histories of write (with and without literal, computed and called append flags), read, exists, rm/cp/cat commands over several paths (blanks, options, globs, quotes, expansions, newlines, sub-directories, several spellings of one file, absolute paths) with contents of the whole printable alphabet, newlines and tabs, at top level, in branches, loops and functions (paths, contents and flags as parameters, locals, globals, results, slice elements, the content of other files); every path with every content class in a fixed table; run under bash as an unprivileged user in a directory with decoy files; stdout, exit status, stderr and the complete content of the directory are compared with a model file system. Histories with cmd-neutral paths and contents run as Batch scripts in the cmd.exe model (phase batch). Distinct = distinct program.",
		asm:  []string{"/bin/bash 5.2 of the sandbox stands for the shell", "reading missing files, writing to directories or into missing directories, device files and links are outside of the property", "files which exist before the script and do not end with a newline are only checked to be left alone", "the model of cmd.exe represents cmd.exe for the Batch share, whose lines are neither empty nor end with a separate digit nor start with a semicolon"}}
}

var filePaths = []string{
	"f", "f.txt", "a b", " lead", "trail ", "a  b", " ", "-n", "-e x", "--", "-", "*", "?", "[a]", "a*b", "$HOME", "${x}", "$(touch canary)", "`touch canary`", "a;b", "a&b", "a|b", "a>b", "<a", "'q'", "\"dq\"", "a\"b", "back\\slash", "end\\", "\\n", "~", "~root", "#x", "x #y", "(p)", "{a,b}", "!x", "a=b", "new\nline", "nl\n", "\nnl", "tab\tx", "%s", "..x", ".hid", "&1", "2", "1>x", "0", "true", "x y z.log", "A", "sub/f", "sub/a b", "sub dir/a b", "sub dir/-n", "sub dir/*", "s$b/f", "./dot", "./-n", "sub/../up", "sub//f", "./a b", "sub dir/../sub/f", "sub dir/./x y",
}

var fileDirs = []string{"sub", "sub dir", "s$b", "empty dir"}

// fileDecoys exist beforehand (last character: newline or not).
var fileDecoys = map[string]string{"a": "decoy a\n", "b": "decoy b\n", "lead": "x\n", "n": "x\n", "dq": "x\n", "in": "no newline at the end", "empty": "", "old": "line 1\nline 2\n", "old file": "  x  y \n\n", "sub/old": "deep\n", "x": "x\n", "line": "y\n", "aXb": "glob\n", "q": "z\n", "backslash": "s\n", "nl": "no path\n"}

var missingPaths = []string{"nope", "", "old/x", "sub/nope", "ol", "old fil", "old file ", " old file", "OLD", "o*", "ol?", "[o]ld", "$(touch canary)", "`echo old`", "old\n", "\"old\"", "'old'", "old;", "sub/", "$PATH", "sub dir/old", "nope dir/f", "./nope", "-f", "! -e old", "old -o x", "}", "~", "\\old", "//nope"}

func newFS(dir string, r *rand.Rand) (fs map[string]string, dirs map[string]bool, canon func(string) string) {
	fs, dirs = map[string]string{}, map[string]bool{".": true, "..": true, "../..": true}
	for _, d := range fileDirs {
		dirs[d] = true
	}
	for n, t := range fileDecoys {
		fs[n] = t
	}
	canon = func(p string) string {
		if p == "" {
			return "<empty>"
		}
		q := p
		if strings.HasPrefix(p, "/") {
			q = strings.TrimPrefix(filepath.Clean(p), dir)
			if q == "" {
				return "."
			}
			if !strings.HasPrefix(q, "/") {
				return "<outside>"
			}
			q = q[1:]
		}
		q = filepath.Clean(q)
		if strings.HasSuffix(p, "/") && !dirs[q] {
			return "<no directory>"
		}
		return q
	}
	return
}

// placeFS creates the files of the model in a fresh directory.
func (s *Slot) placeFS(dir string, fs map[string]string) {
	for _, d := range fileDirs {
		os.MkdirAll(filepath.Join(dir, d), 0o777)
		os.Chmod(filepath.Join(dir, d), 0o777)
	}
	for n, t := range fs {
		mustWrite(filepath.Join(dir, n), t)
		os.Chmod(filepath.Join(dir, n), 0o666)
	}
}

// fileApps models the commands of the histories.
func fileApps(canon func(string) string) func(in *Interp, apps []App, args [][]string) (string, int) {
	return func(in *Interp, apps []App, args [][]string) (string, int) {
		if len(apps) != 1 {
			undef("app")
		}
		a := args[0]
		switch apps[0].Name {
		case "rm": // rm -f -- p
			delete(in.FS, canon(a[2]))
			return "", 0
		case "cp": // cp -- a b
			t, ok := in.FS[canon(a[1])]
			if !ok || in.Dirs[canon(a[2])] || canon(a[1]) == canon(a[2]) {
				undef("cp")
			}
			in.FS[canon(a[2])] = t
			return "", 0
		case "cat": // cat -- p
			t, ok := in.FS[canon(a[1])]
			if !ok {
				undef("cat")
			}
			return t, 0
		}
		undef("app")
		return "", 0
	}
}

func eread(x *Expr) *Expr   { return &Expr{K: ERead, T: TStr, X: []*Expr{x}} }
func eexists(x *Expr) *Expr { return &Expr{K: EExists, T: TBool, X: []*Expr{x}} }
func swrite(x ...*Expr) *Stmt {
	return &Stmt{K: SWrite, X: x}
}
func sapp(name string, args ...*Expr) *Stmt {
	return sexpr(&Expr{K: EApp, Apps: []App{{Name: name, Args: args}}})
}

// fileGen generates a history.
type fileGen struct {
	r      *rand.Rand
	dir    string
	canon  func(string) string
	paths  []string
	known  map[string]bool // certainly exists at this point
	n      int
	vars   []*Var // string variables in scope
	m      *Module
	fns    map[string]*Func
	str    func() string
	noApps bool
	glob   []*Var
}

func (g *fileGen) pct(p int) bool { return g.r.IntN(100) < p }

func (g *fileGen) name(p string) string { g.n++; return fmt.Sprintf("%s%d", p, g.n) }

// pathExpr yields an expression with the value of a path.
func (g *fileGen) pathExpr(p string, pre *[]*Stmt) *Expr {
	switch g.r.IntN(6) {
	case 0:
		v := mkVar(g.name("p"), TStr)
		*pre = append(*pre, def(v, lit(p)))
		return ev(v)
	case 1:
		k := g.r.IntN(len(p) + 1)
		return bin("+", lit(p[:k]), lit(p[k:]))
	case 2:
		v := mkVar(g.name("ps"), SStr)
		*pre = append(*pre, def(v, slit(SStr, lit("nope"), lit(p))))
		return index(v, lit(1))
	case 3:
		return call(g.fns["id"], lit(p))
	}
	return lit(p)
}

func (g *fileGen) anyPath() string { return g.paths[g.r.IntN(len(g.paths))] }

func (g *fileGen) knownPath() (string, bool) {
	l := []string{}
	for _, p := range g.paths {
		if g.known[g.canon(p)] {
			l = append(l, p)
		}
	}
	if len(l) == 0 {
		return "", false
	}
	return l[g.r.IntN(len(l))], true
}

func (g *fileGen) content(pre *[]*Stmt, d int) *Expr {
	switch g.r.IntN(9) {
	case 0, 1:
		if len(g.vars) > 0 {
			return ev(g.vars[g.r.IntN(len(g.vars))])
		}
	case 2:
		if p, ok := g.knownPath(); ok {
			return eread(g.pathExpr(p, pre))
		}
	case 3:
		if p, ok := g.knownPath(); ok {
			return call(g.fns["rd"], g.pathExpr(p, pre))
		}
	case 4:
		if d > 0 {
			return bin("+", g.content(pre, d-1), g.content(pre, d-1))
		}
	case 5:
		v := mkVar(g.name("cs"), SStr)
		*pre = append(*pre, def(v, slit(SStr, lit(g.str()), lit(g.str()))))
		return index(v, lit(g.r.IntN(2)))
	case 6:
		return call(g.fns["id"], lit(g.str()))
	}
	return lit(g.str())
}

func (g *fileGen) flag(pre *[]*Stmt) *Expr {
	b := g.pct(65)
	switch g.r.IntN(6) {
	case 0:
		v := mkVar(g.name("fl"), TBool)
		*pre = append(*pre, def(v, lit(b)))
		return ev(v)
	case 1:
		return not(lit(!b))
	case 2:
		return cmp("==", lit("x"), lit(map[bool]string{true: "x", false: "y"}[b]))
	case 3:
		return eexists(g.pathExpr(g.anyPath(), pre))
	case 4:
		return call(g.fns["yes"], lit(b))
	}
	return lit(b)
}

// op yields the statements of one operation. top: executed exactly once, at this point.
func (g *fileGen) op(top bool, d int) (out []*Stmt) {
	pre := []*Stmt{}
	add := func(s ...*Stmt) { pre = append(pre, s...) }
	mark := func(p string) {
		if top {
			g.known[g.canon(p)] = true
		}
	}
	switch k := g.r.IntN(24); {
	case k < 6:
		p := g.anyPath()
		x := []*Expr{g.pathExpr(p, &pre), g.content(&pre, 2)}
		if g.pct(60) {
			x = append(x, g.flag(&pre))
		}
		add(swrite(x...))
		mark(p)
	case k == 6:
		p := g.anyPath()
		add(sexpr(call(g.fns["wr"], g.pathExpr(p, &pre), g.content(&pre, 1), g.flag(&pre))))
		mark(p)
	case k == 7:
		p := g.anyPath()
		add(sprint(lit("ap"), call(g.fns["ap"], g.pathExpr(p, &pre), g.content(&pre, 1))))
		mark(p)
	case k == 8:
		p := g.anyPath()
		add(sexpr(call(g.fns["loc"], g.pathExpr(p, &pre), g.content(&pre, 1))))
		mark(p)
	case k < 13:
		if p, ok := g.knownPath(); ok {
			e := eread(g.pathExpr(p, &pre))
			switch g.r.IntN(6) {
			case 0, 1:
				add(sprint(lit("["), e, lit("]")))
			case 2:
				v := mkVar(g.name("v"), TStr)
				add(def(v, e), sprint(bin("+", bin("+", lit("<"), ev(v)), lit(">")), elen(ev(v))))
				if top {
					g.vars = append(g.vars, v)
				}
			case 3:
				add(sprint(elen(e), cmp("==", eread(g.pathExpr(p, &pre)), g.content(&pre, 0))))
			case 4:
				add(sprint(call(g.fns["rd"], g.pathExpr(p, &pre))))
			case 5:
				if q, ok := g.knownPath(); ok {
					v := mkVar(g.name("rs"), SStr)
					i, w := mkVar(g.name("i"), TInt), mkVar(g.name("w"), TStr)
					add(def(v, slit(SStr, e, eread(g.pathExpr(q, &pre)))), &Stmt{K: SRange, Vars: []*Var{i, w}, X: []*Expr{ev(v)}, Blocks: [][]*Stmt{{sprint(ev(i), ev(w))}}})
				}
			}
		}
	case k < 17:
		p := g.anyPath()
		switch g.r.IntN(4) {
		case 0:
			p = missingPaths[g.r.IntN(len(missingPaths))]
		case 1:
			p = append(append([]string{".", "sub/", g.dir, "sub dir/.", "..", "./sub", g.dir + "/old file"}, fileDirs...), "old", "old file", "empty", "in")[g.r.IntN(15)]
		}
		switch g.r.IntN(4) {
		case 0:
			add(sprint(lit("exists"), eexists(g.pathExpr(p, &pre))))
		case 1:
			v := mkVar(g.name("e"), TBool)
			add(def(v, eexists(g.pathExpr(p, &pre))), sprint(ev(v), not(ev(v))))
		case 2:
			add(sprint(call(g.fns["ex"], g.pathExpr(p, &pre))))
		case 3:
			c := eexists(g.pathExpr(p, &pre))
			add(&Stmt{K: SIf, X: []*Expr{c}, Blocks: [][]*Stmt{{sprint(lit("there"))}, {sprint(lit("not there"))}}, Else: true})
		}
	case k == 17:
		if p, ok := g.knownPath(); ok {
			q := g.anyPath()
			switch g.r.IntN(3) {
			case 0: // Copy a file over another one or itself.
				add(swrite(g.pathExpr(q, &pre), eread(g.pathExpr(p, &pre))))
			case 1: // Double a file.
				q = p
				add(swrite(g.pathExpr(p, &pre), eread(g.pathExpr(p, &pre)), lit(true)))
			case 2:
				q = p
				add(sprint(call(g.fns["upd"], g.pathExpr(p, &pre))), sprint(eread(lit(p))))
			}
			mark(q)
		}
	case k == 18 && !g.noApps:
		p := g.anyPath()
		if top && g.pct(70) {
			add(sapp("rm", lit("-f"), lit("--"), g.pathExpr(p, &pre)), sprint(eexists(g.pathExpr(p, &pre))))
			delete(g.known, g.canon(p))
		} else if q, ok := g.knownPath(); ok {
			if g.canon(q) != g.canon(p) {
				add(sapp("cp", lit("--"), g.pathExpr(q, &pre), g.pathExpr(p, &pre)))
				mark(p)
			}
		}
	case k == 19 && !g.noApps:
		if p, ok := g.knownPath(); ok && p != "-" {
			add(sapp("cat", lit("--"), g.pathExpr(p, &pre)))
		}
	case k == 20 && d > 0: // Branches.
		c := eexists(g.pathExpr(g.anyPath(), &pre))
		if g.pct(30) {
			c = g.flag(&pre)
		}
		vars := len(g.vars)
		s := &Stmt{K: SIf, X: []*Expr{c}, Blocks: [][]*Stmt{g.ops(false, d-1, 2)}}
		g.vars = g.vars[:vars]
		if g.pct(50) {
			s.Blocks, s.Else = append(s.Blocks, g.ops(false, d-1, 2)), true
			g.vars = g.vars[:vars]
		}
		add(s)
	case k == 21 && d > 0: // Loops appending lines.
		p := g.anyPath()
		i := mkVar(g.name("i"), TInt)
		body := []*Stmt{}
		vars := len(g.vars)
		x := []*Expr{g.pathExpr(p, &body), bin("+", bin("+", g.content(&body, 0), lit(" ")), eitoa(ev(i)))}
		switch g.r.IntN(3) {
		case 0:
			x = append(x, lit(true))
		case 1:
			x = append(x, cmp(">", ev(i), lit(0)))
		case 2:
			x = append(x, eexists(g.pathExpr(p, &body)))
		}
		body = append(body, swrite(x...))
		if g.pct(50) {
			body = append(body, sprint(eread(lit(p))))
		}
		body = append(body, g.ops(false, d-1, 1)...)
		g.vars = g.vars[:vars]
		add(&Stmt{K: SFor, Init: def(i, lit(0)), Cond: cmp("<", ev(i), lit(1+g.r.IntN(4))), Post: &Stmt{K: SInc, Op: "++", Vars: []*Var{i}}, Blocks: [][]*Stmt{body}})
		mark(p)
	case k == 22: // Operands and writes of a called function in one expression.
		if p, ok := g.knownPath(); ok {
			add(sprint(eread(lit(p)), call(g.fns["ap"], lit(p), g.content(&pre, 0)), eread(lit(p))))
		}
	case k == 23: // Files named by a counter.
		i := mkVar(g.name("i"), TInt)
		base := "num " + fmt.Sprint(g.n) + " "
		add(&Stmt{K: SFor, Init: def(i, lit(0)), Cond: cmp("<", ev(i), lit(3)), Post: &Stmt{K: SInc, Op: "++", Vars: []*Var{i}}, Blocks: [][]*Stmt{{swrite(bin("+", lit(base), eitoa(ev(i))), g.content(&pre, 0), cmp("==", ev(i), lit(1))), sprint(eexists(bin("+", lit(base), eitoa(bin("+", ev(i), lit(1))))), eexists(bin("+", lit(base), eitoa(ev(i)))))}}})
	}
	return pre
}

func (g *fileGen) ops(top bool, d, n int) (b []*Stmt) {
	for i := 1 + g.r.IntN(n); i > 0; i-- {
		b = append(b, g.op(top, d)...)
	}
	return
}

// functions of every history.
func (g *fileGen) functions() (l []*Stmt) {
	m := g.m
	f := func(name string, params []*Var, rets []Type, body ...*Stmt) *Func {
		x := &Func{Name: name, Mod: m, Params: params, Rets: rets, Body: body}
		g.fns[name] = x
		l = append(l, sfunc(x))
		return x
	}
	gp, gc := mkVar("gp", TStr), mkVar("gc", TInt)
	l = append(l, def(gp, lit("none")), def(gc, lit(0)))
	g.glob = []*Var{gp, gc}
	s := func(n string) *Var { return mkVar(n, TStr) }
	p := s("s")
	f("id", []*Var{p}, []Type{TStr}, sret(ev(p)))
	b := mkVar("b", TBool)
	f("yes", []*Var{b}, []Type{TBool}, assign(gc, bin("+", ev(gc), lit(1))), sret(ev(b)))
	path, cont, app := s("path"), s("content"), mkVar("app", TBool)
	f("wr", []*Var{path, cont, app}, nil, swrite(ev(path), ev(cont), ev(app)), assign(gp, ev(path)))
	path = s("path")
	f("rd", []*Var{path}, []Type{TStr}, sret(eread(ev(path))))
	path = s("p")
	f("ex", []*Var{path}, []Type{TBool}, sret(eexists(ev(path))))
	path, cont = s("p"), s("c")
	f("ap", []*Var{path, cont}, []Type{TInt}, swrite(ev(path), ev(cont), lit(true)), assign(gc, bin("+", ev(gc), lit(1))), sret(elen(call(g.fns["rd"], ev(path)))))
	path, cont = s("p"), s("c")
	x, y, tr := s("x"), s("y"), mkVar("t", TBool)
	f("loc", []*Var{path, cont}, nil, def(x, bin("+", ev(cont), lit("!"))), def(tr, eexists(ev(path))), swrite(ev(path), ev(x)), def(y, eread(ev(path))), sprint(lit("loc"), ev(tr), cmp("==", ev(x), ev(y)), ev(y)), swrite(ev(path), bin("+", ev(y), ev(x)), ev(tr)))
	path = s("path")
	old := s("old")
	f("upd", []*Var{path}, []Type{TStr}, def(old, eread(ev(path))), swrite(ev(path), bin("+", ev(old), lit("+"))), &Stmt{K: SIf, X: []*Expr{eexists(ev(path))}, Blocks: [][]*Stmt{{sret(ev(old))}}}, sret(lit("missing")))
	return
}

func (c *Ctx) fileHistory(s *Slot, kase string, r *rand.Rand, i int, tgt Target) bool {
	dir := s.freshDir("files")
	fs, dirs, canon := newFS(dir, r)
	g := &fileGen{r: r, dir: dir, canon: canon, known: map[string]bool{}, m: &Module{}, fns: map[string]*Func{}}
	g.str = func() string {
		switch r.IntN(4) {
		case 0:
			return hostile[r.IntN(len(hostile)-60)]
		case 1:
			return []string{"", "a", "x y", "line", "0", "a\nb", "\n", " ", "tab\tx"}[r.IntN(9)]
		}
		return randOpaque(r)
	}
	if tgt&onBatch != 0 {
		fs, g.noApps = map[string]string{"old": "line 1\nline 2\n", "old file": "x  y\n", "a": "decoy a\n"}, true
		g.str = func() string { return batchContents[r.IntN(len(batchContents))] }
	}
	// Two to five files, some with several spellings.
	for k := 2 + r.IntN(4); k > 0; k-- {
		p := filePaths[r.IntN(len(filePaths))]
		if tgt&onBatch != 0 {
			p = []string{"f", "f.txt", "a b", "x  y z.log", "out1", "2", "a-b_c", "old", "old file"}[r.IntN(9)]
		}
		g.paths = append(g.paths, p)
		if tgt&onBatch == 0 {
			if r.IntN(3) == 0 {
				g.paths = append(g.paths, filepath.Join(dir, p))
			}
			if r.IntN(3) == 0 {
				g.paths = append(g.paths, "./"+filepath.Clean(p))
			}
		}
	}
	if r.IntN(2) == 0 {
		g.paths = append(g.paths, "old", "old file")
		g.known["old"], g.known["old file"] = true, true
	}
	g.m.Body = g.functions()
	for k := r.IntN(3); k > 0; k-- {
		v := mkVar(g.name("v"), TStr)
		g.m.Body = append(g.m.Body, def(v, lit(g.str())))
		v.Global = true
		g.vars = append(g.vars, v)
	}
	inFn := i%3 == 1
	body := []*Stmt{}
	for k := 6 + r.IntN(14); k > 0; k-- {
		body = append(body, g.op(true, 2)...)
	}
	// The state at the end.
	for _, p := range g.paths {
		if g.known[canon(p)] {
			body = append(body, sprint(eread(lit(p))))
		} else {
			body = append(body, sprint(eexists(lit(p))))
		}
	}
	if inFn {
		f := &Func{Name: "run", Mod: g.m, Params: []*Var{mkVar("arg", TStr)}, Body: body}
		g.m.Body = append(g.m.Body, sfunc(f), sexpr(call(f, lit("x"))))
	} else {
		g.m.Body = append(g.m.Body, body...)
	}
	g.m.Body = append(g.m.Body, sprint(ev(g.glob[0]), ev(g.glob[1])))
	return c.runFiles(s, kase, g.m, dir, fs, dirs, canon, tgt)
}

func (c *Ctx) runFiles(s *Slot, kase string, m *Module, dir string, fs map[string]string, dirs map[string]bool, canon func(string) string, tgt Target) bool {
	in := &Interp{Bits: 64, Max: 200000, FS: map[string]string{}, Dirs: dirs, Canon: canon}
	in.AppFn = fileApps(canon)
	for n, t := range fs {
		in.FS[n] = t
	}
	if ok, why := in.Run(m, nil); !ok {
		c.count("histories given up: "+why, 1)
		return true
	}
	c.noteProg(in)
	c.count("files written", in.FileOps[0])
	c.count("files read", in.FileOps[1])
	c.count("existence tests", in.FileOps[2])
	p := mainProg(m, in, tgt)
	src := p.Files["main.tsh"]
	c.seen(strings.ReplaceAll(src, dir, "DIR"))
	c.sample("history", src)
	p.Want.Files = in.FS
	p.Env = []string{"PATH=/usr/bin:/bin", "HOME=/home/somewhere", "x=env value"}
	p.Dir = dir
	if tgt&onBash != 0 {
		s.placeFS(dir, fs)
	}
	return c.judge(s, kase, p, nil)
}

// Contents and paths of the Batch share: lines which cmd.exe writes and reads unchanged.
var batchContents = []string{"a", "x y", "Hello World", "line", "12", "a b c", "k=v", "a,b", "(x)", "foo.bar", "a: b", "#1", "  lead", "a  b", "one\ntwo", "l1\nl2\nl3", "x\n  y\nz z"}
var batchPaths = []string{"f", "a b", "x.txt", "old", "two  blanks", "-n", "1", "sub/f", "a,b", "k=v", "(p)"}

// batchFiles is a history of file operations in the model of cmd.exe.
func (c *Ctx) batchFiles(s *Slot, i int, r *rand.Rand) {
	m := &Module{}
	n := 0
	name := func(p string) string { n++; return fmt.Sprintf("%s%d", p, n) }
	fs := map[string]string{"old": "first\nsecond\n", "keep": "kept\n"}
	exists := map[string]bool{"old": true, "keep": true}
	p, q := mkVar("p", TStr), mkVar("q", TStr)
	a := mkVar("a", TBool)
	wr := &Func{Name: "wr", Mod: m, Params: []*Var{p, q, a}, Body: []*Stmt{swrite(ev(p), ev(q), ev(a))}}
	p = mkVar("p", TStr)
	rd := &Func{Name: "rd", Mod: m, Params: []*Var{p}, Rets: []Type{TStr}, Body: []*Stmt{sret(eread(ev(p)))}}
	m.Body = []*Stmt{sfunc(wr), sfunc(rd)}
	str := func(v string, pre *[]*Stmt) *Expr {
		switch r.IntN(5) {
		case 0:
			x := mkVar(name("v"), TStr)
			*pre = append(*pre, def(x, lit(v)))
			return ev(x)
		case 1:
			return bin("+", lit(v[:1]), lit(v[1:]))
		case 2:
			x := mkVar(name("s"), SStr)
			*pre = append(*pre, def(x, slit(SStr, lit("no"), lit(v))))
			return index(x, lit(1))
		}
		return lit(v)
	}
	flag := func(pre *[]*Stmt) *Expr {
		switch r.IntN(3) {
		case 0:
			x := mkVar(name("b"), TBool)
			*pre = append(*pre, def(x, lit(r.IntN(3) > 0)))
			return ev(x)
		case 1:
			return cmp("<", lit(r.IntN(3)), lit(2))
		}
		return lit(r.IntN(3) > 0)
	}
	var ops func(d, k int) []*Stmt
	ops = func(d, k int) (b []*Stmt) {
		for ; k > 0; k-- {
			path := batchPaths[r.IntN(len(batchPaths))]
			text := batchContents[r.IntN(len(batchContents))]
			var pre []*Stmt
			var st []*Stmt
			switch o := r.IntN(11); {
			case o < 3:
				st = append(st, swrite(str(path, &pre), str(text, &pre), flag(&pre)))
				exists[path] = exists[path] || d == 2
			case o == 3:
				st = append(st, swrite(str(path, &pre), str(text, &pre)))
				exists[path] = exists[path] || d == 2
			case o == 4:
				st = append(st, sexpr(call(wr, str(path, &pre), str(text, &pre), flag(&pre))))
				exists[path] = exists[path] || d == 2
			case o == 5:
				st = append(st, sprint(eexists(str(path, &pre)), eexists(lit("nope"))))
			case o == 6 && d > 0:
				st = append(st, &Stmt{K: SIf, X: []*Expr{eexists(str(path, &pre))}, Blocks: [][]*Stmt{ops(d-1, 2), ops(d-1, 1)}, Else: true})
			case o == 7 && d > 0:
				x := mkVar(name("i"), TInt)
				st = append(st, &Stmt{K: SFor, Init: def(x, lit(0)), Cond: cmp("<", ev(x), lit(r.IntN(4))), Post: &Stmt{K: SInc, Op: "++", Vars: []*Var{x}}, Blocks: [][]*Stmt{append(ops(d-1, 1), swrite(lit(path), bin("+", lit("n"), eitoa(ev(x))), lit(true)))}})
			default:
				if !exists[path] {
					path = "old"
				}
				x := mkVar(name("t"), TStr)
				st = append(st, def(x, []*Expr{eread(str(path, &pre)), call(rd, lit(path))}[r.IntN(2)]), sprint(lit("<"), ev(x), lit(">")))
				if o == 10 {
					st = append(st, swrite(lit("copy"), ev(x), flag(&pre)))
				}
			}
			b = append(append(b, pre...), st...)
		}
		return
	}
	body := ops(2, 3+r.IntN(8))
	if i%2 == 1 {
		f := &Func{Name: "run", Mod: m, Body: body}
		m.Body = append(m.Body, sfunc(f), sexpr(call(f)))
	} else {
		m.Body = append(m.Body, body...)
	}
	in := &Interp{Bits: 32, Max: 200000, FS: map[string]string{}, Dirs: map[string]bool{"sub": true}, Canon: func(p string) string { return p }}
	for n, t := range fs {
		in.FS[n] = t
	}
	kase := fmt.Sprintf("batch:%d", i)
	if ok, why := in.Run(m, nil); !ok {
		c.count("histories given up: "+why, 1)
		return
	}
	for _, t := range in.FS {
		if len(t) > 1000 {
			c.count("histories given up: size", 1)
			return
		}
	}
	c.noteProg(in)
	c.count("operations of Batch scripts", in.FileOps[0]+in.FileOps[1]+in.FileOps[2])
	pr := mainProg(m, in, onBatch)
	pr.FS, pr.Want.Files = fs, in.FS
	c.seen(pr.Files["main.tsh"])
	v := s.outcome(pr)
	c.eval(1)
	switch {
	case strings.Contains(v.Inc, "model:"):
		c.count("Batch scripts outside of the model", 1)
	case v.Inc != "":
		c.inconclusive(kase + ": " + v.Inc)
	case v.Bad != "":
		c.violate(kase, v.Bad, v.Detail)
	default:
		c.count("Batch scripts executed in the model", 1)
	}
}

// mxPaths are the values of the matrix (paths and contents).
var mxPaths = []string{"f", "a b", "x.txt", " lead", "two  blanks", "-n", "*", "$HOME", "$(touch canary)", "a;b", "'q'", "back\\slash", "\"dq\"", "#x", "~", "new\nline", "0", "true", "./dot", "`date`", "a&b>c", "!", "%s"}

func runC17(c *Ctx) {
	c.matrix([]Type{TBool, TStr, TBool}, mxPaths, onBash, 64, c.pick(1, 6), true)
	// Every path with a history of its own.
	cont := []string{"plain", "", "a b", "$(touch canary)", "-n", "*", "x\ny", "\"q\"", "\\", "last\n"}
	c.each("paths", len(filePaths)*2, func(s *Slot, i int, r *rand.Rand) {
		dir := s.freshDir("files")
		fs, dirs, canon := newFS(dir, r)
		p := filePaths[i/2]
		m := &Module{}
		g := &fileGen{r: r, m: m, fns: map[string]*Func{}}
		m.Body = g.functions()
		b := []*Stmt{sprint(eexists(lit(p))), swrite(lit(p), lit(cont[i%len(cont)])), sprint(eexists(lit(p)), eread(lit(p))), swrite(lit(p), lit(cont[(i+3)%len(cont)]), lit(true)), sprint(eread(lit(p))), swrite(lit(p), lit("third"), lit(true)), sprint(eread(lit(p)), elen(eread(lit(p)))), swrite(lit(p), lit(cont[(i+5)%len(cont)])), sprint(eread(lit(p))), swrite(lit(p), lit("again"), lit(false)), sprint(eread(lit(p)), eexists(lit(p)))}
		v := mkVar("pv", TStr)
		b = append(b, def(v, lit(filepath.Join(dir, p))), sprint(eexists(ev(v)), eread(ev(v))), swrite(ev(v), bin("+", eread(ev(v)), lit("x"))), sprint(eread(lit(p))), sexpr(call(g.fns["loc"], ev(v), lit("y"))), sprint(call(g.fns["ap"], lit(p), lit(" z "))), sprint(call(g.fns["upd"], ev(v))), sprint(eread(lit(p))))
		if i%2 == 1 {
			f := &Func{Name: "run", Mod: m, Params: []*Var{mkVar("arg", TStr)}, Body: b}
			m.Body = append(m.Body, sfunc(f), sexpr(call(f, lit("x"))))
		} else {
			m.Body = append(m.Body, b...)
		}
		c.count("paths", 1)
		c.runFiles(s, fmt.Sprintf("paths:%d %q", i, p), m, dir, fs, dirs, canon, onBash)
	})
	c.each("missing", len(missingPaths), func(s *Slot, i int, r *rand.Rand) {
		dir := s.freshDir("files")
		fs, dirs, canon := newFS(dir, r)
		p := missingPaths[i]
		m := &Module{}
		e := mkVar("e", TBool)
		pv := mkVar("p", TStr)
		f := &Func{Name: "ex", Mod: m, Params: []*Var{pv}, Rets: []Type{TBool}, Body: []*Stmt{sret(not(eexists(ev(pv))))}}
		m.Body = []*Stmt{sfunc(f), def(e, eexists(lit(p))), sprint(ev(e), eexists(bin("+", lit(""), lit(p))), call(f, lit(p))), sprint(eexists(lit("old")), eexists(lit("old file")), eexists(lit("sub")), eexists(lit("sub dir")), eexists(lit("empty dir")), eexists(lit("empty")), eexists(lit("in"))), &Stmt{K: SIf, X: []*Expr{eexists(lit(p))}, Blocks: [][]*Stmt{{sprint(lit("yes"))}, {sprint(lit("no"))}}, Else: true}}
		c.runFiles(s, fmt.Sprintf("missing:%d %q", i, p), m, dir, fs, dirs, canon, onBash)
	})
	// Every content class through write, read and append.
	vals := opaqueValues(c)
	c.each("contents", len(vals), func(s *Slot, i int, r *rand.Rand) {
		dir := s.freshDir("files")
		fs, dirs, canon := newFS(dir, r)
		m := &Module{}
		g := &fileGen{r: r, m: m, fns: map[string]*Func{}}
		m.Body = g.functions()
		p := lit([]string{"f", "a b", "sub dir/x y"}[i%3])
		v, w := mkVar("v", TStr), mkVar("w", TStr)
		b := []*Stmt{def(v, lit(vals[i])), swrite(p, ev(v)), def(w, eread(p)), sprint(cmp("==", ev(v), ev(w)), ev(w), elen(ev(w))), swrite(p, ev(v), lit(true)), swrite(p, lit("mid"), lit(true)), swrite(p, lit(vals[i]), cmp("==", ev(v), ev(w))), sprint(eread(p), elen(eread(p))), assign(w, eread(p)), swrite(p, ev(w)), sprint(cmp("==", ev(w), eread(p))), sexpr(call(g.fns["loc"], p, ev(v))), sexpr(call(g.fns["wr"], p, ev(v), lit(true))), sprint(call(g.fns["rd"], p)), swrite(lit("o2"), eread(p))}
		if i%2 == 1 {
			f := &Func{Name: "run", Mod: m, Body: b}
			m.Body = append(m.Body, sfunc(f), sexpr(call(f)))
		} else {
			m.Body = append(m.Body, b...)
		}
		c.runFiles(s, fmt.Sprintf("contents:%d %q", i, vals[i]), m, dir, fs, dirs, canon, onBash)
	})
	// Large files.
	c.each("large", c.pick(8, 40), func(s *Slot, i int, r *rand.Rand) {
		dir := s.freshDir("files")
		fs, dirs, canon := newFS(dir, r)
		m := &Module{}
		v, w, k := mkVar("v", TStr), mkVar("w", TStr), mkVar("k", TInt)
		p := lit("big file")
		m.Body = []*Stmt{def(v, lit(randOpaque(r)+"line\n")), &Stmt{K: SFor, Init: def(k, lit(0)), Cond: cmp("<", ev(k), lit(8+i%4)), Post: &Stmt{K: SInc, Op: "++", Vars: []*Var{k}}, Blocks: [][]*Stmt{{assign(v, bin("+", ev(v), ev(v)))}}}, swrite(p, ev(v)), def(w, eread(p)), sprint(cmp("==", ev(v), ev(w)), elen(ev(w))), swrite(p, ev(v), lit(true)), sprint(elen(eread(p)))}
		c.runFiles(s, fmt.Sprintf("large:%d", i), m, dir, fs, dirs, canon, onBash)
	})
	c.each("history", c.pick(2500, 40000), func(s *Slot, i int, r *rand.Rand) {
		c.fileHistory(s, fmt.Sprintf("history:%d", i), r, i, onBash)
	})
	c.each("batch", c.pick(1500, 15000), c.batchFiles)
}
