package main

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strings"
)

func init() {
	checks["C08"] = check{run: runC08,
		rule: "every printable ASCII character, newline and tab in only/first/middle/last/doubled/blank-surrounded position, hostile strings (command substitutions, options, globs, history, printf and echo escapes, quotes, redirections, with canary commands) and random strings, each from four origins (interpreted literal, raw literal, file, standard input, command output) through all data paths of the language (print, assign, multi-assign, concatenate, compare, switch, pass, return, multi-return, slice literal/store/read/range/copy/pass, string range, subscripts, len, global update, file write/append/read, panic); stdout, exit status, stderr and the complete content of the working directory are compared with the reference. Distinct = distinct (value, origin).",
		asm:  []string{"/bin/bash 5.2 of the sandbox stands for the shell", "NUL, carriage return and non-ASCII characters are outside of the property's alphabet", "standard input values contain no newline"}}
}

func printable() []byte {
	l := []byte{}
	for c := byte(32); c < 127; c++ {
		l = append(l, c)
	}
	return append(l, '\n', '\t')
}

var hostile = []string{
	"$(touch canary)", "`touch canary`", "; touch canary;", "\"; touch canary; \"", "'; touch canary; '", "\" ; touch canary #", "&& touch canary", "| touch canary", "> canary", ">> canary", "2> canary", "< /etc/passwd", "$(touch canary", "`touch canary", "\\$(touch canary)", "\\`touch canary\\`", "\"$(touch canary)\"", "'$(touch canary)'", "\\\"$(touch canary)\\\"",
	"${x:=$(touch canary)}", "$HOME", "${HOME}", "$PATH", "$0", "$1", "$@", "$*", "$#", "$?", "$$", "$!", "$-", "$_", "${#}", "${1}", "${!HOME}", "$((1+1))", "$[1+1]", "${x}", "${", "$", "$$$", "a$", "$ a", "~", "~root", "~/", "a=~", "!", "!!", "!$", "!1", "^a^b",
	"*", "**", "?", "[a-z]", "[!a]", "[ab]*", "a*", "*.txt", "/*", "{a,b}", "{1..3}", "a{b,c}d",
	"-n", "-e", "-E", "-ne", "-n x", "-", "--", "--help", "-e \\n", "-nope", "-n\n", "-i", "-v", "-a", "-f", "-z", "-eq", "=", "==", "!=", "(", ")", "!", "-o", "-gt", "]", "[", "[[", "]]", "test",
	"\\", "\\\\", "\\\\\\", "\\n", "\\t", "\\\\n", "\\0", "\\x41", "\\101", "\\u0041", "\\c", "a\\", "\\a", "\\\"", "\\'", "\\$", "\\`", "\\ ", "\\\nx", "x\\\n", "\\\n",
	"%", "%s", "%d", "%%", "%n", "%5s", "%b", "%q", "100%",
	"'", "''", "'a'", "\"", "\"\"", "\"a\"", "a\"b", "a'b", "\"'\"", "'\"'", "`", "``", "a`b", "$'a'", "$\"a\"", "$'\\n'",
	" ", "  ", "   ", " a", "a ", " a ", "a  b", "a   b", "\t", "\t\t", "a\tb", " \t ", "\n", "\n\n", "a\n", "\na", "a\nb", "a\n\nb", "a\n\n", " \n ", "\n a \n", "a\nb\nc\n",
	"&", "&&", "|", "||", ";", ";;", "a;b", "a&b", "a|b", "a>b", "a<b", "<<", "<<<", "<<EOF", "&>", "#", "# a", "a#b", "a #b", "1>&2", "()", "{}", "a()", "() { :; }; touch canary", "f() { touch canary; }",
	"if", "then", "fi", "done", "esac", "do", "}", "{", "function", "return", "exit 3", "break", "eval", "true", "false", "exec false", "set -e", "local", "unset x", "read x", "kill $$", "IFS=x",
	"_h0", "${_h0}", "$_rv0", "${1}\"", "\"${1}", "v_v", "${v_v}", "_dv1", "${_dvc}", "\\${x}", "\\\"${x}\\\"", "a\"\"b", "eval \"touch canary\"", "\"`touch canary`\"", "x[$(touch canary)]", "a[0]", "0", "00", "-0", "08", "0x10", "1e3", "1+1", "a b c d e f", "\x7f",
	"$(<in)", "$(cat in)", "`cat in`", "in", "./in", "/", "..", "C:\\dir\\file", "C:\\new\\table", "http://x/?a=b&c=d", "{\"k\": \"v\", \"n\": [1, 2]}", "<a href='x'>y</a>", "SELECT * FROM t WHERE a = 'b';", "s/a/b/g", "^[a-z]*$", "a\\.b", "line1\\nline2", "tab\\there", "50% off!", "don't \"do\" `that`", "£",
}

func opaqueValues(c *Ctx) []string {
	l := []string{}
	for _, b := range printable() {
		s := string(b)
		l = append(l, s, s+"b", "a"+s+"c", "a"+s, s+s, " "+s+" ", "a "+s, s+" b")
		if c.thorough() {
			l = append(l, "\""+s+"\"", "'"+s+"'", "\\"+s, s+"\\", "$"+s, "`"+s+"`", "$("+s+")", "\n"+s, s+"\n", s+"\n"+s, "-"+s, "!"+s, "*"+s, "${"+s+"}", "~"+s, "%"+s, "a"+s+s+s+"b", "-n "+s, s+" "+s, "  "+s, s+"  ", "\t"+s+"\t")
		}
	}
	if c.thorough() {
		p := printable()
		for _, a := range p {
			for _, b := range p {
				l = append(l, string([]byte{a, b}))
			}
		}
	}
	for _, h := range hostile {
		if h != "£" && h != "\x7f" {
			l = append(l, h)
		}
	}
	l = append(l, "")
	return l
}

// mxHot are the values of the matrix programs.
var mxHot = []string{"", " ", "a  b", " a ", "*", "[a-z]", "?", "-n", "-e \\n", "$(touch canary)", "`touch canary`", "${x}", "$1", "a\"b", "\"", "'", "\\", "a\\", "\\\\n", "%s", "%d%%", "!", "~", "{a,b}", "a\n", "\n", "a\n\n", "\na b", "\t", "a\t", "# x", "; touch canary", "x=1", "a]", "(", "!=", "$", "a&b|c", "<in", ">canary"}

func randOpaque(r *rand.Rand) string {
	p := printable()
	hot := []byte("\"\"$$``\\\\''  \n\t-*?[]{}()<>|&;!#~%=")
	n := r.IntN(30)
	b := make([]byte, n)
	for i := range b {
		if r.IntN(2) == 0 {
			b[i] = hot[r.IntN(len(hot))]
		} else {
			b[i] = p[r.IntN(len(p))]
		}
	}
	s := string(b)
	for r.IntN(3) == 0 {
		s += hostile[r.IntN(len(hostile)-60)]
	}
	return strings.ReplaceAll(strings.ReplaceAll(s, "£", ""), "\x7f", "")
}

const (
	oLit = iota
	oRaw
	oFile
	oStdin
	oCmd
)

var originNames = []string{"literal", "raw literal", "file", "standard input", "command output"}

// opaqueProgram sends a value along all data paths. inFn: within a function.
func opaqueProgram(val string, origin int, inFn bool, endPanic bool) *Module {
	m := &Module{}
	n := 0
	nv := func(t Type) *Var { n++; return mkVar(fmt.Sprintf("x%d", n), t) }
	// src yields a new expression with the value.
	src := func() (pre []*Stmt, e *Expr) {
		switch origin {
		case oLit:
			return nil, lit(val)
		case oRaw:
			return nil, &Expr{K: EStr, T: TStr, S: val, Raw: true}
		case oFile:
			return nil, &Expr{K: ERead, T: TStr, X: []*Expr{lit("in")}}
		case oStdin:
			return nil, &Expr{K: EInput, T: TStr}
		}
		a, b, c := nv(TStr), nv(TStr), nv(TInt)
		return []*Stmt{{K: SVar, Form: ":=", Vars: []*Var{a, b, c}, X: []*Expr{{K: EApp, Apps: []App{{Name: "cat", Args: []*Expr{lit("in")}}}}}}}, ev(a)
	}
	glob := mkVar("glob", TStr)
	gsl := mkVar("gsl", SStr)
	pass := &Func{Name: "pass", Mod: m, Params: []*Var{mkVar("p", TStr), mkVar("k", TInt), mkVar("q", TStr)}, Rets: []Type{TStr}}
	pass.Body = []*Stmt{sprint(lit("p"), ev(pass.Params[0])), sprint(ev(pass.Params[2])), assign(glob, ev(pass.Params[2])), sret(bin("+", ev(pass.Params[0]), ev(pass.Params[2])))}
	two := &Func{Name: "two", Mod: m, Params: []*Var{mkVar("p", TStr)}, Rets: []Type{TStr, TInt, TStr}}
	two.Body = []*Stmt{sret(ev(two.Params[0]), elen(ev(two.Params[0])), bin("+", lit("<"), bin("+", ev(two.Params[0]), lit(">"))))}
	sl := &Func{Name: "sl", Mod: m, Params: []*Var{mkVar("s", SStr), mkVar("p", TStr)}, Rets: []Type{SStr}}
	sl.Body = []*Stmt{sset(sl.Params[0], lit(1), ev(sl.Params[1])), sprint(index(sl.Params[0], lit(0))), sset(gsl, elen(ev(gsl)), index(sl.Params[0], lit(1))), sret(slit(SStr, ev(sl.Params[1]), index(sl.Params[0], lit(1)), lit("")))}
	b := []*Stmt{}
	add := func(s ...*Stmt) { b = append(b, s...) }
	use := func(f func(e *Expr)) {
		pre, e := src()
		add(pre...)
		f(e)
	}
	v, w, u := mkVar("v", TStr), mkVar("w", TStr), mkVar("u", TStr)
	use(func(e *Expr) { add(def(v, e)) })
	use(func(e *Expr) { add(&Stmt{K: SVar, Form: "T=", T: TStr, Vars: []*Var{w}, X: []*Expr{e}}) })
	add(sprint(ev(v)), sprint(lit("["), ev(w), lit("]")))
	use(func(e *Expr) { add(sprint(e)) })
	add(def(u, lit("")), assign(u, ev(v)), sprint(ev(u), ev(u)))
	// Concatenation and comparison.
	add(sprint(bin("+", bin("+", lit("["), ev(v)), lit("]"))), sprint(bin("+", ev(v), ev(w))))
	add(&Stmt{K: SOpAssign, Op: "+=", Vars: []*Var{u}, X: []*Expr{ev(v)}}, sprint(ev(u)))
	add(sprint(cmp("==", ev(v), ev(w)), cmp("!=", ev(v), ev(w)), cmp("==", ev(v), ev(u)), cmp("!=", ev(u), ev(v)), cmp("==", ev(v), lit("")), cmp("==", lit("zz"), ev(v))))
	use(func(e *Expr) { add(sprint(cmp("==", e, ev(v)))) })
	add(&Stmt{K: SIf, X: []*Expr{cmp("==", ev(u), ev(v)), cmp("==", ev(v), ev(w))}, Blocks: [][]*Stmt{{sprint(lit("first"))}, {sprint(lit("second"), ev(v))}, {sprint(lit("else"))}}, Else: true})
	add(&Stmt{K: SSwitch, Def: 2, Tag: ev(v), X: []*Expr{ev(u), ev(w)}, Blocks: [][]*Stmt{{sprint(lit("case u"))}, {sprint(lit("case w"))}, {sprint(lit("default"))}}})
	// Calls.
	r1, r2, r3 := mkVar("r1", TStr), mkVar("r2", TInt), mkVar("r3", TStr)
	add(def(r1, call(pass, ev(v), lit(7), ev(w))), sprint(ev(r1), ev(glob)))
	use(func(e *Expr) { add(sprint(call(pass, e, lit(7), lit("q")))) })
	use(func(e *Expr) {
		add(&Stmt{K: SVar, Form: ":=", Vars: []*Var{mkVar("t1", TStr), r2, r3}, X: []*Expr{call(two, e)}}, sprint(ev(r2), ev(r3)))
	})
	add(&Stmt{K: SAssign, Vars: []*Var{r3, r2, r1}, X: []*Expr{call(two, bin("+", ev(v), ev(r3)))}}, sprint(ev(r3), ev(r2), ev(r1)))
	add(&Stmt{K: SAssign, Vars: []*Var{r1, u}, X: []*Expr{ev(u), ev(v)}}, sprint(ev(r1)), sprint(ev(u)))
	// Slices.
	s, s2 := mkVar("s", SStr), mkVar("s2", SStr)
	use(func(e *Expr) { add(def(s, slit(SStr, e, lit("mid"), ev(v)))) })
	add(showVar("s", s)...)
	add(sset(s, lit(4), ev(v)), sprint(index(s, lit(4)), index(s, lit(0)), cmp("==", index(s, lit(0)), index(s, lit(4)))))
	use(func(e *Expr) { add(sset(s, lit(1), e)) })
	add(showVar("s", s)...)
	add(def(s2, slit(SStr)), sprint(ecopy(s2, ev(s))))
	add(showVar("s2", s2)...)
	add(def(mkVar("s3", SStr), call(sl, slit(SStr, ev(v), lit("o")), ev(w))))
	add(showVar("s3", b[len(b)-1].Vars[0])...)
	add(showVar("gsl", gsl)...)
	// Strings.
	i, ch := mkVar("i", TInt), mkVar("ch", TStr)
	add(sprint(elen(ev(v))))
	use(func(e *Expr) { add(sprint(elen(e))) })
	add(&Stmt{K: SRange, Vars: []*Var{i, ch}, X: []*Expr{ev(v)}, Blocks: [][]*Stmt{{sprint(ev(i), ev(ch)), sprint(bin("+", bin("+", lit("<"), ev(ch)), lit(">")))}}})
	if val != "" {
		add(sprint(substr(v, "i", lit(0))), sprint(substr(v, "i", bin("-", elen(ev(v)), lit(1)))), sprint(substr(v, "a", lit(1))), sprint(substr(v, "b", lit(1))), sprint(substr(v, "ab", lit(0), elen(ev(v)))), sprint(substr(v, "ab", lit(1), elen(ev(v)))), sprint(substr(v, "")))
		x := mkVar("sub", TStr)
		add(def(x, bin("+", substr(v, "a", lit(1)), substr(v, "b", lit(1)))), sprint(ev(x), cmp("==", ev(x), ev(v))))
	}
	// Files.
	add(&Stmt{K: SWrite, X: []*Expr{lit("out1"), ev(v)}}, sprint(&Expr{K: ERead, T: TStr, X: []*Expr{lit("out1")}}))
	add(&Stmt{K: SWrite, X: []*Expr{lit("out1"), ev(w), lit(true)}}, sprint(&Expr{K: ERead, T: TStr, X: []*Expr{lit("out1")}}))
	use(func(e *Expr) {
		add(&Stmt{K: SWrite, X: []*Expr{lit("out2"), e, lit(false)}}, sprint(cmp("==", &Expr{K: ERead, T: TStr, X: []*Expr{lit("out2")}}, ev(v))))
	})
	add(&Stmt{K: SWrite, X: []*Expr{lit("out3"), bin("+", lit("<"), bin("+", ev(v), lit(">")))}})
	if origin != oStdin {
		inp := mkVar("inp", TStr)
		add(def(inp, &Expr{K: EInput, T: TStr, X: []*Expr{ev(v)}}), sprint(ev(inp)))
	}
	if endPanic {
		add(&Stmt{K: SPanic, X: []*Expr{ev(v)}}, sprint(lit("unreachable")))
	}
	m.Body = []*Stmt{def(glob, lit("g")), def(gsl, slit(SStr, lit("one"))), sfunc(pass), sfunc(two), sfunc(sl)}
	if inFn {
		f := &Func{Name: "run", Mod: m, Params: []*Var{mkVar("pp", TStr)}, Body: b}
		m.Body = append(m.Body, sfunc(f), sexpr(call(f, lit("x y"))), sprint(ev(glob)))
	} else {
		m.Body = append(m.Body, b...)
	}
	return m
}

// baits are files which a globbed value would match.
var baits = []string{"a", "b", "ab", "a.txt", "x y", "0", "-n", "[a-z]"}

func catApp(in *Interp, apps []App, args [][]string) (string, int) {
	if len(apps) == 1 && apps[0].Name == "cat" && len(args[0]) == 1 {
		if t, ok := in.FS[args[0][0]]; ok {
			return t, 0
		}
	}
	undef("app")
	return "", 0
}

func (c *Ctx) opaque(s *Slot, kase, val string, origin int, inFn, endPanic bool) bool {
	if origin == oStdin && strings.Contains(val, "\n") || origin == oRaw && strings.ContainsAny(val, "`\r") {
		return true
	}
	m := opaqueProgram(val, origin, inFn, endPanic)
	in := &Interp{Bits: 64, Max: 100000, FS: map[string]string{}, AppFn: catApp}
	for i := 0; i < 20; i++ {
		in.Stdin = append(in.Stdin, val)
	}
	if strings.Contains(val, "\n") {
		in.Stdin = []string{"line"}
	}
	stdin := strings.Join(in.Stdin, "\n") + "\n"
	in.FS["in"] = val + "\n"
	for _, b := range baits {
		in.FS[b] = "bait " + b + "\n"
	}
	dir := s.freshDir("opq")
	for n, t := range in.FS {
		mustWrite(filepath.Join(dir, n), t)
		os.Chmod(filepath.Join(dir, n), 0o666)
	}
	if ok, why := in.Run(m, nil); !ok {
		panic("harness: opaque program: " + why)
	}
	c.noteProg(in)
	p := mainProg(m, in, onBash)
	p.Dir, p.Stdin = dir, stdin
	p.Want.Files = in.FS
	p.Env = []string{"PATH=/usr/bin:/bin", "HOME=/home/somewhere", "x=env value", "a=env a"}
	c.seen(val, origin)
	c.count("origin "+originNames[origin], 1)
	return c.judge(s, kase+fmt.Sprintf(" %q from %s", val, originNames[origin]), p, nil)
}

func runC08(c *Ctx) {
	vals := opaqueValues(c)
	c.each("values", len(vals)*5, func(s *Slot, i int, r *rand.Rand) {
		v, o := vals[i/5], i%5
		c.sample("value", fmt.Sprintf("%q from %s", v, originNames[o]))
		k := i/5 + o
		c.opaque(s, fmt.Sprintf("values:%d", i), v, o, k%2 == 1, k%3 == 0)
	})
	c.matrix([]Type{TStr}, mxHot, onBash, 64, c.pick(2, 20), true)
	c.each("random", c.pick(1500, 30000), func(s *Slot, i int, r *rand.Rand) {
		c.opaque(s, fmt.Sprintf("random:%d", i), randOpaque(r), i%5, r.IntN(2) == 0, r.IntN(3) == 0)
	})
}
