package main

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math/rand/v2"
	"path/filepath"
	"strings"
)

func init() {
	checks["C09"] = check{run: runC09,
		rule: "random acyclic import graphs of 1..6 files (diamonds, repeated imports under several aliases, differently spelled paths, absolute paths, symbolic links to files and directories, sub-directories, files of identical content, std/strings, colliding or chosen hash prefixes) whose files use the same names for globals, functions and aliases; functions are called from every statement position, from functions and from imported top-level code, unused functions are mixed in; branches are selected by standard input and every program runs with several selections. Stdout, exit status and stderr of the bash and (in the cmd.exe model) batch scripts are compared with a module-aware reference interpreter; every invoked name must be defined in the script. Private, undefined, transitive and unimported names must be rejected. Distinct = distinct set of files and selection.",
		asm:  []string{"/bin/bash 5.2 of the sandbox stands for the shell", "the model of cmd.exe represents cmd.exe", "imports are executed once, in the order of the import statements, in front of the importing file's own code"}}
}

type linker struct {
	r     *rand.Rand
	funcs map[*Module][]*Func
	dirs  map[*Module]string
	io    bool
	std   *Module
	stdF  *Func // Index
	stdC  *Func // Contains
	wide  bool
}

var linkFuncNames = []string{"Get", "Set", "get", "set", "Run", "run", "F", "f", "X", "x1", "Do", "helper", "Init", "Index", "contains"}
var linkVarNames = []string{"a", "b", "val", "sum", "State", "tmp", "n", "i"}
var linkAliases = []string{"m", "lib", "util", "x", "s", "A", "strings2", "get2", "q"}

func newStd() (*Module, *Func, *Func) {
	m := &Module{Std: "strings", File: "strings"}
	i := &Func{Name: "Index", Mod: m, Params: []*Var{mkVar("s", TStr), mkVar("t", TStr)}, Rets: []Type{TInt}, Native: func(a []Val) []Val {
		return []Val{{I: int64(strings.Index(a[0].S, a[1].S))}}
	}}
	c := &Func{Name: "Contains", Mod: m, Params: i.Params, Rets: []Type{TBool}, Native: func(a []Val) []Val {
		return []Val{bv(strings.Contains(a[0].S, a[1].S))}
	}}
	return m, i, c
}

func public(n string) bool { return n[0] >= 'A' && n[0] <= 'Z' }

// lmod is the state while a module is generated.
type lmod struct {
	*linker
	m       *Module
	tag     string
	sel     *Var
	globals []*Var
	known   []*Func
}

func (l *lmod) n(n int) int    { return l.r.IntN(n) }
func (l *lmod) pct(p int) bool { return l.r.IntN(100) < p }

// callables are the functions which may be called at the current place.
func (l *lmod) callables() []*Func {
	out := append([]*Func{}, l.known...)
	seen := map[*Module]bool{}
	for _, im := range l.m.Imports {
		if seen[im.Mod] {
			continue
		}
		seen[im.Mod] = true
		for _, f := range l.funcs[im.Mod] {
			if public(f.Name) {
				out = append(out, f)
			}
		}
	}
	return out
}

func (l *lmod) callOf(f *Func, d int, vars []*Var) *Expr {
	x := []*Expr{}
	for _, p := range f.Params {
		switch p.T {
		case TStr:
			x = append(x, lit([]string{"abc", "b", "", "hello"}[l.n(4)]))
		case SInt:
			if sl := l.slice(); sl != nil && l.pct(60) {
				x = append(x, ev(sl))
			} else {
				x = append(x, slit(SInt, lit(1), lit(l.n(9))))
			}
		default:
			x = append(x, l.expr(d-1, vars))
		}
	}
	e := call(f, x...)
	e.Ali = l.n(4)
	return e
}

func (l *lmod) slice() *Var {
	for _, g := range l.globals {
		if g.T == SInt {
			return g
		}
	}
	return nil
}

func (l *lmod) ints(vars []*Var) (o []*Var) {
	for _, v := range append(append([]*Var{}, vars...), l.globals...) {
		if v.T == TInt {
			o = append(o, v)
		}
	}
	return
}

// intCall provides a call of a function with one int result (nil if there is none).
func (l *lmod) intCall(d int, vars []*Var) *Expr {
	if l.pct(10) && l.hasStd() {
		e := call(l.stdF, lit([]string{"abc", "hello", ""}[l.n(3)]), lit([]string{"b", "l", "z", ""}[l.n(4)]))
		e.Ali = l.n(4)
		return e
	}
	c := []*Func{}
	for _, f := range l.callables() {
		if len(f.Rets) == 1 && f.Rets[0] == TInt {
			c = append(c, f)
		}
	}
	if len(c) == 0 {
		return nil
	}
	return l.callOf(c[l.n(len(c))], d, vars)
}

func (l *lmod) hasStd() bool {
	for _, im := range l.m.Imports {
		if im.Mod == l.std {
			return true
		}
	}
	return false
}

func (l *lmod) expr(d int, vars []*Var) *Expr {
	if d > 0 && l.pct(45) {
		if e := l.intCall(d, vars); e != nil {
			return e
		}
	}
	if v := l.ints(vars); len(v) > 0 && l.pct(60) {
		return ev(v[l.n(len(v))])
	}
	if d > 0 && l.pct(30) {
		return bin([]string{"+", "-"}[l.n(2)], l.expr(d-1, vars), l.expr(d-1, vars))
	}
	return lit(l.n(9))
}

// stmts yields statements with a call in a random position. vars: visible local variables.
func (l *lmod) stmts(vars []*Var, d int) []*Stmt {
	e := l.intCall(2, vars)
	if e == nil {
		e = l.expr(1, vars)
	}
	mark := func(x ...*Expr) *Stmt {
		if l.tag != "" {
			x = append([]*Expr{lit(l.tag)}, x...)
		}
		return sprint(x...)
	}
	nv := func(t Type) *Var {
		return mkVar(fmt.Sprintf("l%d", l.n(1000000)), t)
	}
	inner := func() []*Stmt {
		if d <= 0 {
			return []*Stmt{mark(l.expr(1, vars))}
		}
		return l.stmts(vars, d-1)
	}
	var target *Var
	if v := l.ints(vars); len(v) > 0 {
		target = v[l.n(len(v))]
	}
	k := l.n(32)
	switch k {
	case 0, 1:
		return []*Stmt{mark(e)}
	case 2:
		if target != nil {
			return []*Stmt{assign(target, bin("%", e, lit(97)))}
		}
	case 3:
		if target != nil {
			return []*Stmt{{K: SOpAssign, Op: "+=", Vars: []*Var{target}, X: []*Expr{bin("%", e, lit(13))}}}
		}
	case 4:
		return []*Stmt{sif(cmp([]string{"==", "<", ">="}[l.n(3)], e, lit(l.n(5))), inner()...)}
	case 5:
		return []*Stmt{{K: SIf, X: []*Expr{cmp("==", l.expr(0, vars), lit(99)), cmp("!=", e, lit(3))}, Blocks: [][]*Stmt{{mark(lit(1))}, inner(), inner()}, Else: true}}
	case 6:
		return []*Stmt{{K: SSwitch, Def: -1, Tag: e, X: []*Expr{lit(0), lit(l.n(5))}, Blocks: [][]*Stmt{{mark(lit("zero"))}, inner()}}}
	case 7:
		return []*Stmt{{K: SSwitch, Def: 1, Tag: l.expr(0, vars), X: []*Expr{e}, Blocks: [][]*Stmt{inner(), inner()}}}
	case 8:
		i := nv(TInt)
		return []*Stmt{{K: SFor, Form: "3", Init: def(i, bin("*", e, lit(0))), Cond: cmp("<", ev(i), lit(2)), Post: &Stmt{K: SInc, Op: "++", Vars: []*Var{i}}, Blocks: [][]*Stmt{inner()}}}
	case 9:
		i := nv(TInt)
		return []*Stmt{{K: SFor, Form: "3", Init: def(i, lit(0)), Cond: logic("&&", cmp("<", ev(i), lit(2)), cmp("!=", e, lit(-99999))), Post: &Stmt{K: SInc, Op: "++", Vars: []*Var{i}}, Blocks: [][]*Stmt{inner()}}}
	case 10:
		i := nv(TInt)
		return []*Stmt{{K: SFor, Form: "3", Init: def(i, lit(0)), Cond: cmp("<", ev(i), lit(2)), Post: &Stmt{K: SOpAssign, Op: "+=", Vars: []*Var{i}, X: []*Expr{bin("+", lit(1), bin("*", e, lit(0)))}}, Blocks: [][]*Stmt{inner()}}}
	case 11:
		i, v := nv(TInt), nv(TInt)
		return []*Stmt{{K: SRange, Vars: []*Var{i, v}, X: []*Expr{slit(SInt, e, lit(7))}, Blocks: [][]*Stmt{{mark(ev(i), ev(v))}}}}
	case 12:
		if sl := l.slice(); sl != nil {
			return []*Stmt{sset(sl, bin("*", e, lit(0)), l.expr(1, vars)), mark(index(sl, lit(0)))}
		}
	case 13:
		if sl := l.slice(); sl != nil {
			return []*Stmt{sset(sl, lit(l.n(4)), e), mark(elen(ev(sl)))}
		}
	case 14:
		return []*Stmt{mark(eitoa(e))}
	case 15:
		return []*Stmt{mark(elen(slit(SInt, e, lit(1))))}
	case 16:
		return []*Stmt{mark(not(cmp("==", group(e), lit(2))))}
	case 17:
		v := nv(TInt)
		return []*Stmt{{K: SVar, Form: "T=", T: TInt, Vars: []*Var{v}, X: []*Expr{e}}, mark(ev(v))}
	case 18:
		v, w := nv(TInt), nv(TInt)
		if v.Name == w.Name {
			break
		}
		return []*Stmt{{K: SVar, Form: ":=", Vars: []*Var{v, w}, X: []*Expr{e, l.expr(1, vars)}}, mark(ev(v), ev(w))}
	case 19:
		return []*Stmt{sexpr(e)}
	case 20:
		return []*Stmt{mark(logic("||", cmp("==", e, lit(1)), cmp("==", l.expr(1, vars), lit(1))))}
	case 21:
		s := nv(TStr)
		return []*Stmt{def(s, lit("abcdef")), mark(substr(s, "a", bin("*", e, lit(0)))), mark(substr(s, "ab", lit(1), bin("+", bin("*", e, lit(0)), lit(3))))}
	case 22:
		return []*Stmt{sif(cmp("==", e, lit(-12345)), &Stmt{K: SPanic, X: []*Expr{eitoa(e)}})}
	case 23:
		if l.io {
			return []*Stmt{mark(&Expr{K: EExists, T: TBool, X: []*Expr{eitoa(e)}})}
		}
	case 24:
		if l.io {
			return []*Stmt{sexpr(&Expr{K: EApp, Apps: []App{{Name: "echo", Args: []*Expr{eitoa(e), lit("z")}}}})}
		}
	case 25:
		if l.io {
			o, e2, c := nv(TStr), nv(TStr), nv(TInt)
			if o.Name != e2.Name && e2.Name != c.Name && o.Name != c.Name {
				return []*Stmt{{K: SVar, Form: ":=", Vars: []*Var{o, e2, c}, X: []*Expr{{K: EApp, Apps: []App{{Name: "echo", Args: []*Expr{eitoa(e)}}}}}}, mark(ev(o), ev(c))}
			}
		}
	case 26:
		if l.io {
			return []*Stmt{mark(&Expr{K: EInput, T: TStr, X: []*Expr{eitoa(e)}})}
		}
	case 27:
		v := nv(SInt)
		return []*Stmt{{K: SVar, Form: "T", T: SInt, Vars: []*Var{v}}, mark(ecopy(v, slit(SInt, e, lit(3)))), mark(index(v, lit(0)))}
	case 28:
		// Functions without or with several results.
		c := []*Func{}
		for _, f := range l.callables() {
			if len(f.Rets) != 1 {
				c = append(c, f)
			}
		}
		if len(c) > 0 {
			f := c[l.n(len(c))]
			x := l.callOf(f, 1, vars)
			if len(f.Rets) == 2 {
				v, w := nv(f.Rets[0]), nv(f.Rets[1])
				if v.Name == w.Name {
					break
				}
				return []*Stmt{{K: SVar, Form: ":=", Vars: []*Var{v, w}, X: []*Expr{x}}, mark(ev(v), ev(w))}
			}
			return []*Stmt{sexpr(x)}
		}
	case 29:
		if l.hasStd() {
			x := call(l.stdC, lit([]string{"abc", "zz"}[l.n(2)]), lit([]string{"b", ""}[l.n(2)]))
			x.Ali = l.n(4)
			return []*Stmt{sif(x, inner()...), mark(x)}
		}
	case 30:
		if l.sel != nil {
			return []*Stmt{{K: SIf, X: []*Expr{cmp("==", ev(l.sel), lit("1")), cmp("==", ev(l.sel), lit("2"))}, Blocks: [][]*Stmt{inner(), inner(), inner()}, Else: true}}
		}
	case 31:
		if l.sel != nil {
			return []*Stmt{{K: SSwitch, Def: 2, Tag: ev(l.sel), X: []*Expr{lit("1"), lit("0")}, Blocks: [][]*Stmt{inner(), inner(), inner()}}}
		}
	}
	return []*Stmt{mark(e)}
}

func (l *lmod) function(used map[string]bool) {
	f := &Func{Mod: l.m}
	for i := 0; ; i++ {
		f.Name = linkFuncNames[l.n(len(linkFuncNames))]
		if i > 20 {
			f.Name += fmt.Sprint(l.n(90))
		}
		if !used[f.Name] {
			break
		}
	}
	used[f.Name] = true
	for k := l.n(3); k > 0; k-- {
		f.Params = append(f.Params, mkVar([]string{"p", "q", "pp"}[len(f.Params)], TInt))
	}
	if l.pct(20) {
		f.Params = append(f.Params, mkVar("ps", SInt))
	}
	if l.pct(15) {
		f.Params = append(f.Params, mkVar("pt", TStr))
	}
	f.NoPar = len(f.Params) == 0 && l.pct(30)
	body := []*Stmt{}
	vars := append([]*Var{}, f.Params...)
	if l.pct(40) {
		v := mkVar("loc", TInt)
		body = append(body, def(v, l.expr(1, vars)))
		vars = append(vars, v)
	}
	for k := l.n(3); k > 0; k-- {
		body = append(body, l.stmts(vars, 1)...)
	}
	for _, p := range f.Params {
		if p.T == SInt {
			body = append(body, sset(p, lit(0), l.expr(0, vars)))
		}
	}
	switch l.n(6) {
	case 0:
		if len(body) == 0 {
			body = append(body, sprint(lit("void")))
		}
	case 1:
		f.Rets = []Type{TInt, TStr}
		body = append(body, sret(bin("%", l.expr(1, vars), lit(50)), lit(l.tag+f.Name)))
	default:
		f.Rets = []Type{TInt}
		x := l.expr(2, vars)
		body = append(body, sret(bin("%", x, lit(50))))
	}
	f.Body = body
	l.known = append(l.known, f)
	l.m.Body = append(l.m.Body, sfunc(f))
}

func (l *linker) module(seed uint64, m *Module, tag string, sel bool, main bool) {
	save := l.r
	l.r = rand.New(rand.NewPCG(seed, 7))
	defer func() { l.r = save }()
	x := &lmod{linker: l, m: m, tag: tag}
	if sel {
		x.sel = mkVar("sel", TStr)
		m.Body = append(m.Body, def(x.sel, &Expr{K: EInput, T: TStr}))
	}
	used := map[string]bool{}
	names := map[string]bool{}
	glob := func() {
		v := mkVar(linkVarNames[x.n(len(linkVarNames))], []Type{TInt, TInt, SInt}[x.n(3)])
		if names[v.Name] || v.T == SInt && x.slice() != nil {
			return
		}
		names[v.Name] = true
		v.Global = true
		if v.T == SInt {
			m.Body = append(m.Body, def(v, slit(SInt, x.expr(1, nil), lit(x.n(9)))))
		} else {
			m.Body = append(m.Body, def(v, x.expr(1, nil)))
		}
		x.globals = append(x.globals, v)
	}
	glob()
	for k := 1 + x.n(4); k > 0; k-- {
		if x.pct(50) {
			glob()
		}
		if x.pct(40) {
			m.Body = append(m.Body, x.stmts(nil, 1)...)
		}
		x.function(used)
	}
	n := x.n(3)
	if main {
		n = 2 + x.n(4)
	}
	for ; n > 0; n-- {
		m.Body = append(m.Body, x.stmts(nil, 2)...)
	}
	if x.pct(60) || main {
		p := []*Expr{lit("end" + tag)}
		for _, g := range x.globals {
			if g.T == TInt {
				p = append(p, ev(g))
			} else {
				p = append(p, elen(ev(g)))
			}
		}
		m.Body = append(m.Body, sprint(p...))
	}
	l.funcs[m] = x.known
}

func relPath(from, to string) string {
	r, _ := filepath.Rel(filepath.Dir(from), to)
	return r
}

type linked struct {
	mods  []*Module // mods[0] is the main file
	std   *Module
	l     *linker
	lines int // number of input lines
	twins bool
	links map[string]string // symbolic links
}

// linkProgram builds a program of several files.
func linkProgram(r *rand.Rand, io bool) *linked { return linkProgramVia(r, io, false) }

// linkProgramVia also imports by absolute paths and symbolic links.
func linkProgramVia(r *rand.Rand, io, via bool) *linked {
	l := &linker{r: r, funcs: map[*Module][]*Func{}, io: io}
	l.std, l.stdF, l.stdC = newStd()
	n := 1 + r.IntN(6)
	p := &linked{std: l.std, l: l, links: map[string]string{}}
	files := []string{"main.tsh"}
	places := []string{"%s.tsh", "%s.tsh", "lib/%s.tsh", "lib/deep/%s.tsh", "other dir/%s.tsh", "%s.inc", "lib/%s.v2.tsh"}
	for i := 1; i < n; i++ {
		files = append(files, fmt.Sprintf(places[r.IntN(len(places))], []string{"", "a", "b", "util", "strings", "e", "main"}[i]))
	}
	for i := range files {
		if files[i] == "main" || i > 0 && files[i] == "main.tsh" {
			files[i] = "lib/main.tsh"
		}
		p.mods = append(p.mods, &Module{File: files[i]})
	}
	// twin: the last two files have identical content (in the same directory level).
	twin := n >= 3 && r.IntN(4) == 0
	if twin {
		p.mods[n-2].File, p.mods[n-1].File = "lib/t1.tsh", "lib/t2.tsh"
		p.twins = true
	}
	for i := 0; i < n; i++ {
		m := p.mods[i]
		used := map[string]bool{}
		add := func(t *Module, path string) {
			a := ""
			for k := 0; ; k++ {
				a = linkAliases[r.IntN(len(linkAliases))]
				if k > 8 {
					a += fmt.Sprint(k)
				}
				if !used[a] {
					break
				}
			}
			used[a] = true
			m.Imports = append(m.Imports, &Import{Alias: a, Path: path, Mod: t})
		}
		if twin && i >= n-2 {
			continue // no imports: identical content
		}
		cnt := 0
		for j := i + 1; j < n; j++ {
			if r.IntN(100) < 45 || j == i+1 && r.IntN(100) < 70 {
				rel := relPath(m.File, p.mods[j].File)
				for k := 0; k < 3; k++ {
					path := rel
					switch r.IntN(6) {
					case 0:
						path = "./" + rel
					case 1:
						path = "x/../" + rel
					case 2:
						path = "./././" + rel
					case 3:
						if !via {
							break
						}
						switch t := p.mods[j].File; r.IntN(6) {
						case 0: // A link to the file beside the file.
							f := filepath.Join(filepath.Dir(t), fmt.Sprintf("link%d%d.tsh", i, k))
							p.links[f] = filepath.Base(t)
							path = relPath(m.File, f)
						case 1: // A link to the directory beside the directory.
							if d := filepath.Dir(t); d != "." {
								p.links[d+"-link"] = filepath.Base(d)
								path = relPath(m.File, filepath.Join(d+"-link", filepath.Base(t)))
							}
						case 2:
							path = srcDirMark + "/" + t
						}
					}
					add(p.mods[j], path)
					cnt++
					if r.IntN(100) < 75 {
						break
					}
				}
			}
		}
		if r.IntN(100) < 35 {
			if r.IntN(2) == 0 {
				m.Imports = append(m.Imports, &Import{Path: "strings", Mod: l.std})
				used["strings"] = true
			} else {
				add(l.std, "strings")
			}
		}
		r.Shuffle(len(m.Imports), func(a, b int) { m.Imports[a], m.Imports[b] = m.Imports[b], m.Imports[a] })
	}
	// Generate from the leaves to the main file.
	for i := n - 1; i >= 0; i-- {
		seed := r.Uint64()
		tag := fmt.Sprintf("M%d", i)
		sel := r.IntN(3) > 0
		if twin && i == n-1 {
			sel = false
			l.module(seed, p.mods[i], "", sel, false)
			l.module(seed, p.mods[i-1], "", sel, false)
			i--
			continue
		}
		l.module(seed, p.mods[i], tag, sel, i == 0)
	}
	return p
}

func (p *linked) files() map[string]string {
	f := map[string]string{}
	for _, m := range p.mods {
		f[m.File] = m.Source()
	}
	for n, t := range p.links {
		f[n] = linkMark + t
	}
	return f
}

func hash7(s string) string {
	h := sha256.Sum256([]byte(s))
	return hex.EncodeToString(h[:])[:7]
}

// nonce appends a comment until the hash of the text satisfies the condition.
func nonce(text string, ok func(h string) bool) string {
	for i := 0; i < 400000; i++ {
		t := fmt.Sprintf("%s// %d\n", text, i)
		if ok(hash7(t)) {
			return t
		}
	}
	return text
}

// collide appends comments to two texts such that the hash prefixes are equal.
func collide(a, b string) (string, string, bool) {
	seen := map[string]int{}
	for i := 0; i < 40000; i++ {
		seen[hash7(fmt.Sprintf("%s// %d\n", a, i))] = i
	}
	for i := 0; i < 200000; i++ {
		t := fmt.Sprintf("%s// %d\n", b, i)
		if k, ok := seen[hash7(t)]; ok {
			return fmt.Sprintf("%s// %d\n", a, k), t, true
		}
	}
	return a, b, false
}

func allDigits(h string) bool { return strings.Trim(h, "0123456789") == "" }

// runLinked executes a linked program with a selection of input lines.
func (c *Ctx) runLinked(s *Slot, kase string, p *linked, files map[string]string, stdin []string, tgt Target) bool {
	in := &Interp{Bits: 32, Max: 1500, NoWrap: true, Stdin: append([]string{}, stdin...), AppFn: simpleApp}
	if p.l.io {
		in.FS = map[string]string{}
	}
	ok, why := in.Run(p.mods[0], p.mods)
	if !ok {
		c.count("selections without defined meaning: "+why, 1)
		return true
	}
	c.noteProg(in)
	pr := &Prog{Files: files, Main: "main.tsh", Want: Want{Out: in.Out.String(), Exit: in.Exit}, Stdin: strings.Join(stdin, "\n") + "\n", Tgt: tgt}
	v := s.outcome(pr)
	c.eval(1)
	c.count("scripts executed", v.Runs)
	c.seen(files, stdin)
	if v.Inc != "" {
		c.inconclusive(kase + ": " + v.Inc)
		return true
	}
	if v.Bad == "" {
		if bad, st := lintBash(v.Bash, setOf("echo")); bad != "" {
			v.Bad = "bash: " + bad
			v.Detail["script"] = v.Bash
		} else {
			c.count("bash routine invocations resolved", st.Calls)
		}
		if bad, st := lintBatch(v.Batch); bad != "" && v.Bad == "" {
			v.Bad = "batch: " + bad
			v.Detail["script"] = v.Batch
		} else {
			c.count("batch calls resolved", st.Calls)
		}
	}
	if v.Bad != "" {
		v.Detail["stdin"] = pr.Stdin
		c.violate(kase, v.Bad, v.Detail)
		return false
	}
	return true
}

func selections(r *rand.Rand, n int) (l [][]string) {
	for k := 0; k < n; k++ {
		x := []string{}
		for i := 0; i < 12; i++ {
			if k < 3 {
				x = append(x, fmt.Sprint(k))
			} else {
				x = append(x, fmt.Sprint(r.IntN(3)))
			}
		}
		l = append(l, x)
	}
	return
}

func (c *Ctx) linkCase(s *Slot, phase string, i int, r *rand.Rand, shape func(p *linked, files map[string]string) bool) {
	io := i%3 == 0
	for try := 0; try < 20; try++ {
		p := linkProgramVia(r, io, shape == nil)
		files := p.files()
		if shape != nil && !shape(p, files) {
			continue
		}
		// The default selection has to be defined.
		in := &Interp{Bits: 32, Max: 1500, NoWrap: true, AppFn: simpleApp, Stdin: selections(r, 1)[0]}
		if io {
			in.FS = map[string]string{}
		}
		if ok, _ := in.Run(p.mods[0], p.mods); !ok {
			continue
		}
		tgt := onBash | onBatch
		if io {
			tgt = onBash
		}
		c.count(fmt.Sprintf("programs of %d files", len(p.mods)), 1)
		if len(p.links) > 0 {
			c.count("programs with imports via symbolic links", 1)
		}
		if p.twins {
			c.count("programs with files of identical content", 1)
		}
		t := ""
		for f, x := range files {
			t += "--- " + f + "\n" + x
		}
		c.sample(phase, t)
		for k, sel := range selections(r, c.pick(3, 6)) {
			if !c.runLinked(s, fmt.Sprintf("%s:%d/%d", phase, i, k), p, files, sel, tgt) {
				return
			}
		}
		if phase == "link" {
			c.linkReject(s, fmt.Sprintf("%s:%d", phase, i), p, r)
		}
		return
	}
	c.count("generator gave up", 1)
}

// linkReject adds an invalid use of a name to one of the files.
func (c *Ctx) linkReject(s *Slot, kase string, p *linked, r *rand.Rand) {
	for k := 0; k < 3; k++ {
		i := r.IntN(len(p.mods))
		m := p.mods[i]
		if p.twins && i >= len(p.mods)-2 {
			i, m = 0, p.mods[0]
		}
		text := ""
		own := map[string]bool{}
		for _, f := range p.l.funcs[m] {
			own[f.Name] = true
		}
		switch r.IntN(5) {
		case 0: // private function
			for _, im := range m.Imports {
				for _, f := range p.l.funcs[im.Mod] {
					if !public(f.Name) && r.IntN(3) == 0 {
						text = im.Alias + "." + f.Name + argText(f)
					}
				}
			}
		case 1: // function of another file only
			for _, im := range m.Imports {
				for _, o := range p.mods {
					for _, f := range p.l.funcs[o] {
						def := false
						for _, g := range p.l.funcs[im.Mod] {
							def = def || g.Name == f.Name
						}
						if o != im.Mod && !def && public(f.Name) && im.Mod != p.std && r.IntN(3) == 0 {
							text = im.Alias + "." + f.Name + argText(f)
						}
					}
				}
			}
		case 2: // alias of another file
			al := map[string]bool{}
			for _, im := range m.Imports {
				al[im.Alias] = true
			}
			for _, o := range p.mods {
				for _, im := range o.Imports {
					for _, f := range p.l.funcs[im.Mod] {
						if im.Alias != "" && !al[im.Alias] && public(f.Name) && r.IntN(3) == 0 {
							text = im.Alias + "." + f.Name + argText(f)
						}
					}
				}
			}
		case 3: // unqualified name of an imported file
			for _, im := range m.Imports {
				for _, f := range p.l.funcs[im.Mod] {
					if !own[f.Name] && r.IntN(3) == 0 {
						text = f.Name + argText(f)
					}
				}
			}
		case 4: // name of an importing file
			for _, o := range p.mods[:i] {
				for _, f := range p.l.funcs[o] {
					if !own[f.Name] && r.IntN(3) == 0 {
						text = f.Name + argText(f)
					}
				}
			}
		}
		if text == "" {
			continue
		}
		save := m.Body
		st := &Stmt{K: SRawS, Text: text}
		switch r.IntN(3) {
		case 0:
			m.Body = append(append([]*Stmt{}, save...), st)
		case 1:
			m.Body = append(append([]*Stmt{}, save...), sfunc(&Func{Name: "Zz", Mod: m, Body: []*Stmt{st}}))
		case 2:
			m.Body = append(append([]*Stmt{}, save...), sif(lit(true), sif(lit(true), st)))
		}
		// The file must be part of the program.
		reach := map[*Module]bool{}
		var visit func(x *Module)
		visit = func(x *Module) {
			if !reach[x] {
				reach[x] = true
				for _, im := range x.Imports {
					visit(im.Mod)
				}
			}
		}
		visit(p.mods[0])
		files := p.files()
		m.Body = save
		if !reach[m] {
			continue
		}
		c.count("invalid references", 1)
		if !c.acceptance(s, kase+" with "+text+" in "+m.File, files, 0) {
			return
		}
	}
}

func argText(f *Func) string {
	x := []string{}
	for _, p := range f.Params {
		switch p.T {
		case TStr:
			x = append(x, `"a"`)
		case SInt:
			x = append(x, "[]int{1}")
		default:
			x = append(x, "1")
		}
	}
	return "(" + strings.Join(x, ", ") + ")"
}

func runC09(c *Ctx) {
	imp := importScopes()
	c.each("names", len(imp), func(s *Slot, i int, r *rand.Rand) {
		c.seen(fmt.Sprint(imp[i].files))
		c.acceptance(s, fmt.Sprintf("names:%d %s", i, imp[i].name), imp[i].files, imp[i].want)
	})
	c.linkScalePhase()
	c.each("link", c.pick(900, 14000), func(s *Slot, i int, r *rand.Rand) {
		c.linkCase(s, "link", i, r, nil)
	})
	c.each("hash", c.pick(200, 2500), func(s *Slot, i int, r *rand.Rand) {
		c.linkCase(s, "hash", i, r, func(p *linked, files map[string]string) bool {
			if len(p.mods) < 3 || p.twins {
				return false
			}
			k := 0
			for _, m := range p.mods[1:] {
				k++
				want := (i + k) % 20
				files[m.File] = nonce(files[m.File], func(h string) bool {
					switch {
					case want < 16:
						return h[0] == "0123456789abcdef"[want]
					case want < 18:
						return allDigits(h)
					case want == 18:
						return h[:2] == "00"
					}
					return h[0] >= 'a' && h[1] >= 'a' && h[2] >= 'a' && h[3] >= 'a'
				})
			}
			return true
		})
	})
	c.each("collide", c.pick(60, 800), func(s *Slot, i int, r *rand.Rand) {
		c.linkCase(s, "collide", i, r, func(p *linked, files map[string]string) bool {
			n := len(p.mods)
			if n < 3 || p.twins {
				return false
			}
			a, b := p.mods[1+r.IntN(n-1)].File, p.mods[1+r.IntN(n-1)].File
			if a == b {
				a, b = p.mods[1].File, p.mods[2].File
			}
			ok := false
			files[a], files[b], ok = collide(files[a], files[b])
			c.count("hash prefix collisions", 1)
			return ok
		})
	})
}
