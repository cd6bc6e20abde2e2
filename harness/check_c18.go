package main

import (
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

func init() {
	checks["C18"] = check{run: runC18,
		rule: "command calls of a probe program which records its name, its arguments and its standard input: every value of C08's alphabet list as the only, first, middle, last and repeated argument (literal, raw literal, variable, parameter, slice element, call result, file content, captured output), zero to thirty arguments, hostile program names and paths, chains of one to six programs (probe and real utilities, some also writing to standard error) with outputs with and without final newlines, large data and all kinds of exit status, direct and captured in all forms, at top level, in branches, loops and functions; bait files for globs and canary commands; stdout, exit status, stderr, the directory and the log of all invocations (exactly once each) are compared with a model of the programs. The same for Batch scripts with neutral words in the model of cmd.exe (phase batch). Distinct = distinct program.",
		asm:  []string{"/bin/bash 5.2 of the sandbox stands for the shell", "what programs write to standard error and programs which are shell builtins are outside of the property", "Batch scripts are executed by the model of cmd.exe with models of programs: arguments known at run time are plain words there (they are passed unquoted), outputs have no blank lines and end with a newline (FOR /F)"}}
}

// ---------------------------------------------------------------------------------------------------------
// Probe: the behaviour depends on the name it is called by.
// ---------------------------------------------------------------------------------------------------------

// probeOut models the probe.
func probeOut(name string, args []string, stdin string) (out string, code int) {
	base := filepath.Base(name)
	if i := strings.LastIndexByte(base, '_'); i >= 0 {
		code, _ = strconv.Atoi(base[i+1:])
	}
	switch {
	case strings.HasPrefix(base, "raw"): // Arguments without any addition.
		return strings.Join(args, ""), code
	case strings.HasPrefix(base, "pass"): // Standard input without any addition.
		return stdin, code
	case strings.HasPrefix(base, "mute"):
		return "", code
	case strings.HasPrefix(base, "size"):
		return fmt.Sprintf("%d bytes %d args\n", len(stdin), len(args)), code
	}
	return stdin + probeRecord(base, args) + "\n", code
}

func probeRecord(base string, args []string) string {
	s := strconv.Quote(base) + "/" + strconv.Itoa(len(args))
	for _, a := range args {
		if len(a) > 3000 {
			a = fmt.Sprintf("%d:%x", len(a), seedFor(a))
		}
		s += " " + strconv.QuoteToASCII(a)
	}
	return s
}

// probeNoise is what some probes write to their standard error (which is neither piped nor captured).
const probeNoise = "noise on standard error\n"

func probeMain() {
	stdin, _ := io.ReadAll(os.Stdin)
	name := filepath.Base(os.Args[0])
	if f, err := os.OpenFile(os.Getenv("PROBE_LOG"), os.O_APPEND|os.O_WRONLY, 0); err == nil {
		f.WriteString(fmt.Sprintf("%s <%d:%x\n", probeRecord(name, os.Args[1:]), len(stdin), seedFor(string(stdin))))
		f.Close()
	}
	out, code := probeOut(name, os.Args[1:], string(stdin))
	warn := strings.HasPrefix(name, "warn")
	if warn {
		os.Stderr.WriteString(probeNoise)
	}
	os.Stdout.WriteString(out)
	if warn {
		os.Stderr.WriteString(probeNoise)
	}
	os.Exit(code)
}

var probeNames = []string{"dump", "dump_1", "dump_3", "dump_255", "raw", "raw_7", "raw_127", "pass", "pass_2", "mute", "mute_9", "size", "warn", "warn_4"}

// hostileProbes are names which only string literals can state.
var hostileProbes = []string{"du mp", "my-dump", "dump.exe", " dump", "dump ", "$HOME", "$(touch canary)", "`touch canary`", "a;b", "a&b", "a|b", "*", "?", "[a]", "a\"b", "'a'", "back\\slash", "-n", "--", "-v", "if", "then", "fi", "function", "time", "!", "{", "[[", "for", "case", "a=b", "x=1", "#x", "~", "(p)", "{a,b}", "%s", "a>b", "fn_f", "_sch", "_ech", "new\nline", "tab\tx", "0", "1", "f", "pick", "id"}

// realTools are utilities of the system with a model.
func realTool(name string, args []string, stdin string) (string, int, bool) {
	switch name {
	case "cat":
		return stdin, 0, true
	case "tr":
		if len(args) == 2 && args[0] == "a-z" && args[1] == "A-Z" {
			return strings.ToUpper(stdin), 0, true
		}
	case "sort":
		l := strings.SplitAfter(stdin, "\n")
		if l[len(l)-1] == "" {
			l = l[:len(l)-1]
		} else {
			l[len(l)-1] += "\n"
		}
		sort.Strings(l)
		return strings.Join(l, ""), 0, true
	case "wc": // -l
		return fmt.Sprintf("%d\n", strings.Count(stdin, "\n")), 0, true
	case "grep": // -F -e X
		out, code := "", 1
		for _, l := range strings.SplitAfter(stdin, "\n") {
			if l != "" && strings.Contains(l, args[2]) {
				out, code = out+strings.TrimSuffix(l, "\n")+"\n", 0
			}
		}
		return out, code, true
	}
	return "", 0, false
}

// probeApps models chains; log collects what the probe records.
func probeApps(log *[]string) func(in *Interp, apps []App, args [][]string) (string, int) {
	return func(in *Interp, apps []App, args [][]string) (out string, code int) {
		for i, a := range apps {
			stdin := out
			if o, k, ok := realTool(a.Name, args[i], stdin); ok {
				if a.Name != "cat" && strings.ContainsAny(stdin, "\x00") {
					undef("tool")
				}
				out, code = o, k
				continue
			}
			*log = append(*log, fmt.Sprintf("%s <%d:%x", probeRecord(filepath.Base(a.Name), args[i]), len(stdin), seedFor(stdin)))
			out, code = probeOut(a.Name, args[i], stdin)
		}
		if len(out) > 1<<19 {
			undef("output size")
		}
		return
	}
}

// probeDir provides the directory with all probes (once per slot).
func (s *Slot) probeDir() string {
	d := filepath.Join(s.dir, "bin dir")
	if _, err := os.Stat(d); err == nil {
		return d
	}
	os.MkdirAll(d, 0o755)
	exe, _ := os.Executable()
	for _, n := range append(append([]string{}, probeNames...), hostileProbes...) {
		if err := os.Symlink(exe, filepath.Join(d, n)); err != nil {
			panic(err)
		}
	}
	os.WriteFile(filepath.Join(s.dir, "plog"), nil, 0o666)
	os.Chmod(filepath.Join(s.dir, "plog"), 0o666)
	return d
}

func (c *Ctx) runApps(s *Slot, kase string, m *Module, stdin []string) bool {
	bin := s.probeDir()
	dir := s.freshDir("apps")
	log := []string{}
	in := &Interp{Bits: 64, Max: 200000, FS: map[string]string{}, Stdin: stdin, AppFn: probeApps(&log)}
	for _, b := range baits {
		in.FS[b] = "bait " + b + "\n"
	}
	in.FS["in"] = "file content\n"
	for n, t := range in.FS {
		mustWrite(filepath.Join(dir, n), t)
		os.Chmod(filepath.Join(dir, n), 0o666)
	}
	if ok, why := in.Run(m, nil); !ok {
		c.count("programs given up: "+why, 1)
		return true
	}
	c.noteProg(in)
	c.count("programs invoked", len(log))
	p := mainProg(m, in, onBash)
	p.Dir, p.Want.Files = dir, in.FS
	plog := filepath.Join(s.dir, "plog")
	p.Env = []string{"PATH=" + bin + ":/usr/bin:/bin", "HOME=/home/somewhere", "x=env value", "PROBE_LOG=" + plog}
	src := p.Files["main.tsh"]
	c.seen(strings.ReplaceAll(src, s.dir, "DIR"))
	c.sample("program", src)
	os.Truncate(plog, 0)
	v := s.outcome(p)
	c.eval(1)
	c.count("scripts executed", v.Runs)
	if v.Inc != "" {
		c.inconclusive(kase + ": " + v.Inc)
		return true
	}
	if v.Bad == "" {
		b, _ := os.ReadFile(plog)
		got := strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
		if len(b) == 0 {
			got = nil
		}
		sort.Strings(got)
		sort.Strings(log)
		if strings.Join(got, "\n") != strings.Join(log, "\n") {
			v.Bad = fmt.Sprintf("bash: %d invocations, expected %d: %s", len(got), len(log), firstDiff(strings.Join(got, "\n"), strings.Join(log, "\n")))
			v.Detail["script"] = v.Bash
			v.Detail["invocations"] = string(b)
			v.Detail["expected invocations"] = strings.Join(log, "\n")
		}
	}
	if v.Bad != "" {
		c.violate(kase, v.Bad, v.Detail)
		return false
	}
	return true
}

func app(name string, args ...*Expr) App {
	return App{Name: name, Args: args, Lit: !isIdent(name)}
}
func chainOf(a ...App) *Expr { return &Expr{K: EApp, Apps: a} }

// capture yields the statements which capture a chain and print what was captured.
func (g *appGen) capture(ch *Expr) []*Stmt {
	o, e, k := mkVar(g.name("o"), TStr), mkVar(g.name("e"), TStr), mkVar(g.name("k"), TInt)
	show := []*Stmt{sprint(lit("<"), ev(o), lit(">"), ev(k)), sprint(elen(ev(o)), cmp("==", ev(e), lit("")))}
	switch g.r.IntN(5) {
	case 0:
		return append([]*Stmt{{K: SVar, Form: "=", Vars: []*Var{o, e, k}, X: []*Expr{ch}}}, show...)
	case 1:
		return append([]*Stmt{def(o, lit("old")), def(e, lit("")), def(k, lit(77)), {K: SAssign, Vars: []*Var{o, e, k}, X: []*Expr{ch}}}, show...)
	case 2:
		if g.gl != nil {
			return append([]*Stmt{{K: SAssign, Vars: []*Var{g.gl[0], g.gl[1], g.gl[2]}, X: []*Expr{ch}}}, sprint(lit("g"), ev(g.gl[0]), ev(g.gl[2])))
		}
	}
	if g.r.IntN(3) == 0 {
		g.vars = append(g.vars, o)
	}
	return append([]*Stmt{{K: SVar, Form: ":=", Vars: []*Var{o, e, k}, X: []*Expr{ch}}}, show...)
}

type appGen struct {
	r    *rand.Rand
	n    int
	vars []*Var
	gl   []*Var
	fns  map[string]*Func
	m    *Module
	str  func() string
	bin  string
}

func (g *appGen) name(p string) string { g.n++; return fmt.Sprintf("%s%d", p, g.n) }
func (g *appGen) pct(p int) bool       { return g.r.IntN(100) < p }

// arg yields an argument expression with a value.
func (g *appGen) arg(val string, pre *[]*Stmt) *Expr {
	switch g.r.IntN(10) {
	case 0:
		v := mkVar(g.name("v"), TStr)
		*pre = append(*pre, def(v, lit(val)))
		return ev(v)
	case 1:
		k := g.r.IntN(len(val) + 1)
		return bin("+", lit(val[:k]), lit(val[k:]))
	case 2:
		v := mkVar(g.name("s"), SStr)
		*pre = append(*pre, def(v, slit(SStr, lit("other"), lit(val), lit("x"))))
		return index(v, lit(1))
	case 3:
		return call(g.fns["id"], lit(val))
	case 4:
		if !strings.ContainsAny(val, "`\r") {
			return &Expr{K: EStr, T: TStr, S: val, Raw: true}
		}
	case 5:
		if len(g.vars) > 0 && g.pct(50) {
			return ev(g.vars[g.r.IntN(len(g.vars))])
		}
	case 6:
		f := g.name("file ")
		*pre = append(*pre, swrite(lit(f), lit(val)))
		return eread(lit(f))
	case 7: // Captured output.
		if len(val) < 2000 {
			o, e, k := mkVar(g.name("o"), TStr), mkVar(g.name("e"), TStr), mkVar(g.name("k"), TInt)
			*pre = append(*pre, &Stmt{K: SVar, Form: ":=", Vars: []*Var{o, e, k}, X: []*Expr{chainOf(app("raw", lit(val), lit("\n")))}})
			return ev(o)
		}
	case 8:
		if len(val) > 0 {
			v := mkVar(g.name("v"), TStr)
			*pre = append(*pre, def(v, lit("<"+val+">")))
			return substr(v, "ab", lit(1), bin("-", elen(ev(v)), lit(1)))
		}
	}
	return lit(val)
}

// prog yields a program of a chain.
func (g *appGen) prog(pos, n int, pre *[]*Stmt) App {
	args := []*Expr{}
	nargs := g.r.IntN(4)
	switch g.r.IntN(12) {
	case 0:
		nargs = 9 + g.r.IntN(12)
	case 1:
		nargs = 0
	}
	for i := 0; i < nargs; i++ {
		args = append(args, g.arg(g.str(), pre))
	}
	if pos > 0 && g.pct(25) {
		switch g.r.IntN(5) {
		case 0:
			return app("cat")
		case 1:
			return app("tr", lit("a-z"), lit("A-Z"))
		case 2:
			return app("sort")
		case 3:
			return app("wc", lit("-l"))
		case 4:
			return app("grep", lit("-F"), lit("-e"), lit([]string{"dump", "a", "*"}[g.r.IntN(3)]))
		}
	}
	name := probeNames[g.r.IntN(len(probeNames))]
	if g.pct(40) {
		name = "dump"
	}
	a := app(name, args...)
	if g.pct(15) {
		a = app(hostileProbes[g.r.IntN(len(hostileProbes))], args...)
		a.Lit = true
	} else if g.pct(10) {
		a = app(filepath.Join(g.bin, name), args...)
	}
	if a.Lit && g.pct(40) && !strings.ContainsAny(a.Name, "`") {
		a.Raw = true
	} else if g.pct(15) {
		a.Lit = true
	}
	return a
}

func (g *appGen) chain(pre *[]*Stmt) *Expr {
	n := 1
	for n < 6 && g.pct(45) {
		n++
	}
	e := &Expr{K: EApp}
	for i := 0; i < n; i++ {
		e.Apps = append(e.Apps, g.prog(i, n, pre))
	}
	return e
}

func (g *appGen) ops(d, n int) (b []*Stmt) {
	for k := 1 + g.r.IntN(n); k > 0; k-- {
		pre := []*Stmt{}
		vars := len(g.vars)
		switch q := g.r.IntN(16); {
		case q < 4:
			pre = append(pre, sexpr(g.chain(&pre)))
			// The statement must follow its preparations.
			b = append(b, pre...)
		case q < 9:
			ch := g.chain(&pre)
			b = append(b, pre...)
			b = append(b, g.capture(ch)...)
			continue
		case q == 9 && d > 0:
			c := cmp("==", g.arg("a", &pre), lit("a"))
			b = append(b, pre...)
			b = append(b, &Stmt{K: SIf, X: []*Expr{c}, Blocks: [][]*Stmt{g.ops(d-1, 2), {sprint(lit("no"))}}, Else: true})
			g.vars = g.vars[:vars]
		case q == 10 && d > 0:
			i := mkVar(g.name("i"), TInt)
			body := []*Stmt{sexpr(chainOf(app("dump", bin("+", lit("n "), eitoa(ev(i)))), g.prog(1, 2, &pre)))}
			b = append(b, pre...)
			body = append(body, g.ops(d-1, 2)...)
			g.vars = g.vars[:vars]
			b = append(b, &Stmt{K: SFor, Init: def(i, lit(0)), Cond: cmp("<", ev(i), lit(1+g.r.IntN(3))), Post: &Stmt{K: SInc, Op: "++", Vars: []*Var{i}}, Blocks: [][]*Stmt{body}})
		case q == 11 && g.fns["cap"] != nil:
			a, k := mkVar(g.name("a"), TStr), mkVar(g.name("k"), TInt)
			x := g.arg(g.str(), &pre)
			y := g.arg(g.str(), &pre)
			b = append(b, pre...)
			b = append(b, &Stmt{K: SVar, Form: ":=", Vars: []*Var{a, k}, X: []*Expr{call(g.fns["cap"], x, y)}}, sprint(lit("cap"), ev(a), ev(k)))
		case q == 12 && g.fns["dir"] != nil:
			x := g.arg(g.str(), &pre)
			b = append(b, pre...)
			b = append(b, sexpr(call(g.fns["dir"], x, lit(g.r.IntN(5)))))
		case q == 13 && g.fns["cap"] != nil: // Arguments which run programs themselves.
			x := g.arg(g.str(), &pre)
			b = append(b, pre...)
			b = append(b, sexpr(chainOf(app("dump", call(g.fns["one"], x), lit("|"), call(g.fns["one"], lit("z"))))))
		case q == 14: // Exit statuses do not leak.
			pre = append(pre, sexpr(chainOf(app("dump_3"))), sprint(lit("after")))
			b = append(b, pre...)
		default:
			i, w := mkVar(g.name("i"), TInt), mkVar(g.name("w"), TStr)
			body := []*Stmt{sexpr(chainOf(app("dump", ev(w), eitoa(ev(i)))))}
			b = append(b, &Stmt{K: SRange, Vars: []*Var{i, w}, X: []*Expr{slit(SStr, g.arg(g.str(), &pre), lit(g.str()))}, Blocks: [][]*Stmt{body}})
			b = append(pre, b...)
			_ = body
		}
	}
	return
}

func (g *appGen) functions() (l []*Stmt) {
	f := func(name string, params []*Var, rets []Type, body ...*Stmt) {
		x := &Func{Name: name, Mod: g.m, Params: params, Rets: rets, Body: body}
		g.fns[name] = x
		l = append(l, sfunc(x))
	}
	go1, ge1, gk1 := mkVar("gout", TStr), mkVar("gerr", TStr), mkVar("gcode", TInt)
	l = append(l, def(go1, lit("")), def(ge1, lit("")), def(gk1, lit(0)))
	g.gl = []*Var{go1, ge1, gk1}
	s := func(n string) *Var { return mkVar(n, TStr) }
	p := s("s")
	f("id", []*Var{p}, []Type{TStr}, sret(ev(p)))
	p, q := s("p"), s("q")
	o, e, k := s("o"), s("e"), mkVar("k", TInt)
	f("cap", []*Var{p, q}, []Type{TStr, TInt}, &Stmt{K: SVar, Form: ":=", Vars: []*Var{o, e, k}, X: []*Expr{chainOf(app("dump_1", ev(p), ev(q)), app("raw_7", ev(q), ev(p)))}}, sprint(lit("in cap"), ev(k)), sret(bin("+", ev(o), lit(".")), ev(k)))
	p = s("p")
	n, i := mkVar("n", TInt), mkVar("i", TInt)
	f("dir", []*Var{p, n}, nil, &Stmt{K: SFor, Init: def(i, lit(0)), Cond: cmp("<", ev(i), ev(n)), Post: &Stmt{K: SInc, Op: "++", Vars: []*Var{i}}, Blocks: [][]*Stmt{{sexpr(chainOf(app("dump", ev(p), eitoa(ev(i))), app("pass"), app("dump_3", ev(p))))}}})
	p = s("p")
	o, e, k = s("out"), s("err"), mkVar("code", TInt)
	f("one", []*Var{p}, []Type{TStr}, sexpr(chainOf(app("dump", lit("one"), ev(p)))), &Stmt{K: SVar, Form: ":=", Vars: []*Var{o, e, k}, X: []*Expr{chainOf(app("raw", lit("["), ev(p), lit("]\n")))}}, sret(ev(o)))
	// Functions with the names of programs are not involved.
	f("dump", nil, nil, sprint(lit("WRONG")))
	f("f", nil, nil, sprint(lit("WRONG")))
	l = append(l, &Stmt{K: SIf, X: []*Expr{cmp("==", ev(go1), lit("never"))}, Blocks: [][]*Stmt{{sexpr(call(g.fns["dump"])), sexpr(call(g.fns["f"]))}}})
	return
}

func runC18(c *Ctx) {
	vals := opaqueValues(c)
	// Every value in every argument position.
	c.each("values", len(vals), func(s *Slot, i int, r *rand.Rand) {
		v := vals[i]
		m := &Module{}
		g := &appGen{r: r, m: m, fns: map[string]*Func{}, str: func() string { return v }, bin: s.probeDir()}
		m.Body = g.functions()
		x := mkVar("x", TStr)
		sl := mkVar("sl", SStr)
		b := []*Stmt{def(x, lit(v)), def(sl, slit(SStr, lit(v), ev(x))),
			sexpr(chainOf(app("dump", lit(v)))), sexpr(chainOf(app("dump", ev(x), lit("b")))), sexpr(chainOf(app("dump", lit("a"), lit(v), lit("c")))), sexpr(chainOf(app("dump", lit("a"), index(sl, lit(1))))), sexpr(chainOf(app("dump", ev(x), lit(v), ev(x), lit(""), lit("")))),
			sexpr(chainOf(app("dump", lit(v)), app("dump", ev(x)), app("dump_3", lit(v), lit(v))))}
		b = append(b, g.capture(chainOf(app("raw", lit(v))))...)
		b = append(b, g.capture(chainOf(app("raw_7", ev(x), lit("\n"))))...)
		b = append(b, g.capture(chainOf(app("dump", ev(x)), app("pass_2")))...)
		b = append(b, sexpr(chainOf(app("dump", call(g.fns["one"], ev(x))))))
		a, k := mkVar("a1", TStr), mkVar("k1", TInt)
		b = append(b, &Stmt{K: SVar, Form: ":=", Vars: []*Var{a, k}, X: []*Expr{call(g.fns["cap"], ev(x), lit(v))}}, sprint(ev(a), ev(k)))
		c.finishApps(s, fmt.Sprintf("values:%d %q", i, v), m, b, i%2 == 1)
	})
	// Names.
	names := append(append([]string{}, probeNames...), hostileProbes...)
	c.each("names", len(names)*3, func(s *Slot, i int, r *rand.Rand) {
		m := &Module{}
		n := names[i/3]
		g := &appGen{r: r, m: m, fns: map[string]*Func{}, bin: s.probeDir()}
		m.Body = g.functions()
		switch i % 3 {
		case 1:
			n = filepath.Join(s.probeDir(), n)
		case 2:
			n = "../bin dir/" + n
		}
		a := App{Name: n, Lit: true}
		aa := App{Name: n, Lit: true, Args: []*Expr{lit("a b"), lit("*")}}
		ra := aa
		ra.Raw = !strings.Contains(n, "`")
		b := []*Stmt{sexpr(chainOf(a)), sexpr(chainOf(aa)), sexpr(chainOf(ra)), sexpr(chainOf(app("dump", lit("x")), aa)), sexpr(chainOf(aa, app("dump", lit("x")), ra))}
		b = append(b, g.capture(chainOf(aa))...)
		b = append(b, g.capture(chainOf(app("dump"), ra))...)
		b = append(b, g.capture(chainOf(aa, app("pass_2")))...)
		c.finishApps(s, fmt.Sprintf("names:%d %q", i, n), m, b, i%2 == 1)
	})
	// Argument counts and sizes.
	c.each("counts", 31, func(s *Slot, i int, r *rand.Rand) {
		m := &Module{}
		g := &appGen{r: r, m: m, fns: map[string]*Func{}, bin: s.probeDir()}
		m.Body = g.functions()
		args, empty, vars := []*Expr{}, []*Expr{}, []*Expr{}
		b := []*Stmt{}
		for k := 0; k < i; k++ {
			args = append(args, lit(fmt.Sprintf("arg %d", k)))
			empty = append(empty, lit(""))
			v := mkVar(fmt.Sprintf("q%d", k), TStr)
			b = append(b, def(v, lit([]string{"", "*", " ", "a b", "-n", "\"", "$x"}[k%7])))
			vars = append(vars, ev(v))
		}
		b = append(b, sexpr(chainOf(app("dump", args...))), sexpr(chainOf(app("dump", empty...))), sexpr(chainOf(app("dump", vars...), app("dump", args...), app("size", empty...))))
		b = append(b, g.capture(chainOf(app("dump", vars...)))...)
		big := mkVar("big", TStr)
		k := mkVar("kk", TInt)
		b = append(b, def(big, lit("x *")), &Stmt{K: SFor, Init: def(k, lit(0)), Cond: cmp("<", ev(k), lit(i%15)), Post: &Stmt{K: SInc, Op: "++", Vars: []*Var{k}}, Blocks: [][]*Stmt{{assign(big, bin("+", ev(big), ev(big)))}}}, sexpr(chainOf(app("size", ev(big)))), sexpr(chainOf(app("raw", ev(big), ev(big)), app("pass"), app("cat"), app("size"))))
		b = append(b, g.capture(chainOf(app("raw", ev(big)), app("pass_2")))...)
		c.finishApps(s, fmt.Sprintf("counts:%d", i), m, b, i%2 == 1)
	})
	// Outputs and statuses.
	outs := []string{"", "\n", "\n\n", "a", "a\n", "a\n\n", "a\n\n\n", "\na", "\n\na\n", " ", " \n", "a ", "a \n", "\t\n", "a\nb", "a\nb\n", "x\n", "xx", "x", "\\n", "0", "-n", "*", "a  b", "$x\n", "`", "\"\n", "\\", "\\\n"}
	stat := []string{"raw", "raw_7", "raw_127"}
	c.each("outputs", len(outs)*len(stat), func(s *Slot, i int, r *rand.Rand) {
		m := &Module{}
		g := &appGen{r: r, m: m, fns: map[string]*Func{}, bin: s.probeDir()}
		m.Body = g.functions()
		v, n := outs[i/len(stat)], stat[i%len(stat)]
		b := []*Stmt{}
		b = append(b, g.capture(chainOf(app(n, lit(v))))...)
		b = append(b, g.capture(chainOf(app("raw_7", lit(v)), app("pass")))...)
		b = append(b, g.capture(chainOf(app("raw", lit(v)), app("pass_2")))...)
		b = append(b, g.capture(chainOf(app("raw", lit(v)), app("cat"), app("mute_9")))...)
		b = append(b, g.capture(chainOf(app("mute"), app("cat"), app(n, lit(v))))...)
		b = append(b, sexpr(chainOf(app(n, lit(v)))), sprint(lit("after")), sexpr(chainOf(app("mute_9"), app(n, lit(v)), app("pass"))), sprint(lit("end")))
		c.finishApps(s, fmt.Sprintf("outputs:%d %q %s", i, v, n), m, b, i%2 == 1)
	})
	c.each("random", c.pick(1500, 25000), func(s *Slot, i int, r *rand.Rand) {
		m := &Module{}
		g := &appGen{r: r, m: m, fns: map[string]*Func{}, bin: s.probeDir()}
		g.str = func() string {
			switch r.IntN(4) {
			case 0:
				return hostile[r.IntN(len(hostile)-60)]
			case 1:
				return []string{"", "a", "x y", "-n", "0", "a\nb", "*", " "}[r.IntN(8)]
			}
			return randOpaque(r)
		}
		m.Body = g.functions()
		for k := r.IntN(3); k > 0; k-- {
			v := mkVar(g.name("v"), TStr)
			v.Global = true
			m.Body = append(m.Body, def(v, lit(g.str())))
			g.vars = append(g.vars, v)
		}
		c.finishApps(s, fmt.Sprintf("random:%d", i), m, g.ops(2, 8), i%3 == 1)
	})
	c.each("batch", c.pick(2000, 20000), c.batchApps)
}

// ---------------------------------------------------------------------------------------------------------
// Batch: scripts are executed by the model of cmd.exe, programs by a model with neutral output. Values which are only
// known at run time are plain words.
// ---------------------------------------------------------------------------------------------------------

func batchOut(name string, args []string, stdin string) (out string, code int) {
	if i := strings.LastIndexByte(name, '_'); i >= 0 {
		code, _ = strconv.Atoi(name[i+1:])
	}
	switch {
	case strings.HasPrefix(name, "raw"):
		return "=" + strings.Join(args, "-") + "\n", code // FOR /F drops blank lines.
	case strings.HasPrefix(name, "pass"):
		return stdin, code
	case strings.HasPrefix(name, "mute"):
		return "", code
	case strings.HasPrefix(name, "size"):
		return fmt.Sprintf("%d.%d\n", len(stdin), len(args)), code
	}
	return stdin + batchRecord(name, args) + "\n", code
}

func batchRecord(name string, args []string) string {
	s := fmt.Sprintf("%s.%d", name, len(args))
	for _, a := range args {
		s += " [" + a + "]"
	}
	return s
}

var batchNames = []string{"dump", "dump_1", "dump_3", "dump_255", "raw", "raw_7", "pass", "pass_2", "mute", "mute_9", "size"}
var batchLits = []string{"a", "b", "ab", "x y", "two  blanks", " lead", "0", "12", "-n", "a.b", "a&b", "(x)", "a|b", "a,b", "p;q", "k=v", "a<b", ">", "/C", "/x:y", "*", "?", "~", "$x", "'q'", "`", "#", "@x", "{a}", "on", "nul", "echo", ""}

type batchGen struct {
	r     *rand.Rand
	n     int
	words []*Var // strings with plain words
	ints  []*Var
	sl    *Var
	id    *Func
}

func (g *batchGen) name(p string) string { g.n++; return fmt.Sprintf("%s%d", p, g.n) }
func (g *batchGen) word() string {
	return []string{"w", "word", "0", "7", "Zz", "a-b", "x.y", "dump"}[g.r.IntN(8)]
}

func (g *batchGen) arg() *Expr {
	switch g.r.IntN(12) {
	case 0, 1:
		return ev(g.words[g.r.IntN(len(g.words))])
	case 2:
		return eitoa(ev(g.ints[g.r.IntN(len(g.ints))]))
	case 3:
		return index(g.sl, lit(g.r.IntN(3)))
	case 4:
		return bin("+", ev(g.words[g.r.IntN(len(g.words))]), lit(g.word()))
	case 5:
		return call(g.id, lit(g.word()))
	case 6:
		return substr(g.words[0], "ab", lit(0), lit(2))
	}
	return lit(batchLits[g.r.IntN(len(batchLits))])
}

func (g *batchGen) chain() *Expr {
	e := &Expr{K: EApp}
	for n := 1; ; n++ {
		args := []*Expr{}
		for k := g.r.IntN(5); k > 0; k-- {
			args = append(args, g.arg())
		}
		if g.r.IntN(15) == 0 {
			for k := 0; k < 12; k++ {
				args = append(args, lit(fmt.Sprintf("n%d", k)))
			}
		}
		a := app(batchNames[g.r.IntN(len(batchNames))], args...)
		switch g.r.IntN(8) {
		case 0:
			a = app("du mp", args...)
		case 1:
			a.Lit = true
		}
		e.Apps = append(e.Apps, a)
		if n == 6 || g.r.IntN(100) < 50 {
			return e
		}
	}
}

func (g *batchGen) ops(d, n int) (b []*Stmt) {
	for k := 1 + g.r.IntN(n); k > 0; k-- {
		switch q := g.r.IntN(12); {
		case q < 4:
			b = append(b, sexpr(g.chain()))
		case q < 9:
			o, e, x := mkVar(g.name("o"), TStr), mkVar(g.name("e"), TStr), mkVar(g.name("k"), TInt)
			s := &Stmt{K: SVar, Form: ":=", Vars: []*Var{o, e, x}, X: []*Expr{g.chain()}}
			if g.r.IntN(3) == 0 {
				b = append(b, def(o, lit("old")), def(e, lit("")), def(x, lit(77)))
				s.K, s.Form = SAssign, ""
			}
			b = append(b, s, sprint(lit("out"), ev(o), lit("code"), ev(x)), sprint(cmp("==", ev(e), lit("")), bin("+", ev(x), lit(1))))
		case q == 9 && d > 0:
			b = append(b, &Stmt{K: SIf, X: []*Expr{cmp("==", ev(g.words[0]), lit("word"))}, Blocks: [][]*Stmt{g.ops(d-1, 3), g.ops(d-1, 2)}, Else: true})
		case q == 10 && d > 0:
			i := mkVar(g.name("i"), TInt)
			old := g.ints
			g.ints = append(append([]*Var{}, old...), i)
			b = append(b, &Stmt{K: SFor, Init: def(i, lit(0)), Cond: cmp("<", ev(i), lit(1+g.r.IntN(3))), Post: &Stmt{K: SInc, Op: "++", Vars: []*Var{i}}, Blocks: [][]*Stmt{g.ops(d-1, 3)}})
			g.ints = old
		default:
			b = append(b, sprint(lit("line"), ev(g.words[g.r.IntN(len(g.words))])))
		}
	}
	return
}

func (c *Ctx) batchApps(s *Slot, i int, r *rand.Rand) {
	m := &Module{}
	g := &batchGen{r: r}
	p := mkVar("p", TStr)
	g.id = &Func{Name: "id", Mod: m, Params: []*Var{p}, Rets: []Type{TStr}, Body: []*Stmt{sret(ev(p))}}
	w, v, n, sl := mkVar("word1", TStr), mkVar("word2", TStr), mkVar("num", TInt), mkVar("sl", SStr)
	m.Body = []*Stmt{sfunc(g.id), def(w, lit("word")), def(v, lit(g.word())), def(n, lit(r.IntN(100))), def(sl, slit(SStr, lit("e0"), lit(g.word()), lit("e2")))}
	g.words, g.ints, g.sl = []*Var{w, v}, []*Var{n}, sl
	if r.IntN(2) == 0 {
		a, k := mkVar("arg", TStr), mkVar("cnt", TInt)
		g.words, g.ints = []*Var{a, v}, []*Var{k, n}
		f := &Func{Name: "run", Mod: m, Params: []*Var{a, k}, Body: g.ops(2, 6)}
		m.Body = append(m.Body, sfunc(f), sexpr(call(f, lit("word"), lit(5))), sexpr(call(f, lit("other"), lit(6))))
	} else {
		m.Body = append(m.Body, g.ops(2, 8)...)
	}
	m.Body = append(m.Body, sprint(lit("done")))
	want, got := []string{}, []string{}
	in := &Interp{Bits: 32, Max: 200000, AppFn: func(_ *Interp, apps []App, args [][]string) (out string, code int) {
		for i, a := range apps {
			want = append(want, batchRecord(a.Name, args[i])+" <"+out)
			out, code = batchOut(a.Name, args[i], out)
		}
		return
	}}
	kase := fmt.Sprintf("batch:%d", i)
	if ok, why := in.Run(m, nil); !ok {
		c.count("programs given up: "+why, 1)
		return
	}
	c.noteProg(in)
	q := mainProg(m, in, onBatch)
	q.App = func(name string, args []string, stdin string) (string, int) {
		got = append(got, batchRecord(name, args)+" <"+stdin)
		return batchOut(name, args, stdin)
	}
	c.seen(q.Files["main.tsh"])
	v2 := s.outcome(q)
	c.eval(1)
	if v2.Inc != "" {
		if strings.Contains(v2.Inc, "model:") {
			c.count("Batch scripts outside of the model", 1)
			return
		}
		c.inconclusive(kase + ": " + v2.Inc)
		return
	}
	c.count("Batch scripts executed in the model", 1)
	c.count("programs invoked by Batch scripts", len(got))
	sort.Strings(got)
	sort.Strings(want)
	if v2.Bad == "" && strings.Join(got, "\n") != strings.Join(want, "\n") {
		v2.Bad = "batch: invocations: " + firstDiff(strings.Join(got, "\n"), strings.Join(want, "\n"))
		v2.Detail["script"] = v2.Batch
	}
	if v2.Bad != "" {
		c.violate(kase, v2.Bad, v2.Detail)
	}
}

func (c *Ctx) finishApps(s *Slot, kase string, m *Module, b []*Stmt, inFn bool) {
	if inFn {
		f := &Func{Name: "run", Mod: m, Params: []*Var{mkVar("arg", TStr)}, Body: b}
		m.Body = append(m.Body, sfunc(f), sexpr(call(f, lit("x"))))
	} else {
		m.Body = append(m.Body, b...)
	}
	m.Body = append(m.Body, sprint(lit("done"))) // The status of a script which ends with a command is not specified.
	c.runApps(s, kase, m, nil)
}
