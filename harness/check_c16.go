package main

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strings"
)

func init() {
	checks["C16"] = check{run: runC16,
		rule: "generated programs of all fragments in which random sub-expressions are replaced by input/read/exists/capture/command calls, write, command and capture statements are inserted everywhere, random blocks and functions are emptied and literals are drawn from the whole printable alphabet; deep nestings of every pair/triple of constructs; every single builtin on its own, in a used and in an unused function; the repository's examples and standard library. The emitted Bash text is judged by bash -n and by a scan of all words at command positions (every invoked name is defined); the emitted Batch text by a structural parse (brackets, labels, calls, helper routines, jump discipline of loops and branches). Distinct = distinct program text.",
		asm:  []string{"bash -n of bash 5.2 stands for the shell's syntax check", "the parser of the cmd.exe model represents cmd.exe's parser"}}
}

// mapBlocks calls f for every block of statements.
func mapBlocks(m *Module, f func(b []*Stmt, fn *Func) []*Stmt) {
	var walk func(b []*Stmt, fn *Func) []*Stmt
	walk = func(b []*Stmt, fn *Func) []*Stmt {
		for _, s := range b {
			for k := range s.Blocks {
				s.Blocks[k] = walk(s.Blocks[k], fn)
			}
			if s.F != nil && s.K == SFunc {
				s.F.Body = walk(s.F.Body, s.F)
			}
		}
		return f(b, fn)
	}
	m.Body = walk(m.Body, nil)
}

var lintStrings = []string{"", "a", "x y", "(", ")", "((", "))", "a)b", "if (", ") else (", "\"", "\"\"", "a\"b", "\")", "(\"", "%", "%%", "%1", "%x%", "100%", "'", "''", "`", "$", "$(", "${", "$(x", "`x", "\\", "a\\", "\\\"", "&", "a&b", "|", "a|b", "<", ">", ">x", "a > b", ":", ":x", "::", ":end", ";", ";;", "#", "#x", "rem", "goto", "goto :eof", "exit", "call :_ech", "{", "}", "fi", "done", "esac", "EOF", "^", "a^", "^^", "=", "a=b", "x:y", "\n", "a\nb", ")\n(", "fi\ndone", "\n:x\n", "\t", "~", "*", "?", "[", "]", "@", "@echo off", "/", "/?", "-n", ",", "1", "é"}

func lintOpt(i int) GenOpt {
	var o GenOpt
	switch i % 5 {
	case 0:
		o = scalarOpt(i)
	case 1, 2:
		o = funcOpt(i)
		o.Slices, o.Strs = true, true
	case 3:
		o = sliceOpt(i)
	case 4:
		o = traceOpt(i)
	}
	if i%3 == 0 {
		o.StrLit = func(r *rand.Rand) string { return lintStrings[r.IntN(len(lintStrings))] }
	}
	return o
}

// ioify inserts operations which cannot be executed blindly.
func ioify(r *rand.Rand, m *Module, apps map[string]bool, str func() *Expr) {
	name := func() App {
		n := []string{"prog", "cat", "my_tool", "a b/c d", "./x", "gcc", "x-y.exe"}[r.IntN(7)]
		apps[n] = true
		a := App{Name: n, Lit: !isIdent(n) || r.IntN(3) == 0}
		for k := r.IntN(4); k > 0; k-- {
			a.Args = append(a.Args, str())
		}
		return a
	}
	chain := func() *Expr {
		e := &Expr{K: EApp, Apps: []App{name()}}
		for r.IntN(3) == 0 {
			e.Apps = append(e.Apps, name())
		}
		return e
	}
	slots := typedSlots(m)
	for _, sl := range slots {
		if r.IntN(100) >= 12 {
			continue
		}
		switch sl.t {
		case TStr:
			switch r.IntN(5) {
			case 0:
				*sl.at = &Expr{K: EInput, T: TStr}
			case 1:
				*sl.at = &Expr{K: EInput, T: TStr, X: []*Expr{str()}}
			case 2:
				*sl.at = &Expr{K: ERead, T: TStr, X: []*Expr{str()}}
			case 3:
				*sl.at = bin("+", &Expr{K: ERead, T: TStr, X: []*Expr{&Expr{K: EInput, T: TStr}}}, str())
			}
		case TBool:
			*sl.at = &Expr{K: EExists, T: TBool, X: []*Expr{str()}}
		}
	}
	n := 0
	mapBlocks(m, func(b []*Stmt, fn *Func) []*Stmt {
		if r.IntN(12) == 0 {
			// Empty blocks.
			if fn != nil && len(b) > 0 && b[len(b)-1].K == SReturn {
				return b
			}
			isTop := len(b) > 0 && len(m.Body) > 0 && &b[0] == &m.Body[0]
			if !isTop {
				return nil
			}
		}
		out := []*Stmt{}
		for _, s := range b {
			if r.IntN(8) == 0 {
				switch r.IntN(4) {
				case 0:
					w := &Stmt{K: SWrite, X: []*Expr{str(), str()}}
					if r.IntN(2) == 0 {
						w.X = append(w.X, lit(r.IntN(2) == 0))
					}
					out = append(out, w)
				case 1:
					out = append(out, sexpr(chain()))
				case 2:
					n++
					out = append(out, &Stmt{K: SVar, Form: ":=", Vars: []*Var{mkVar(fmt.Sprintf("cap%da", n), TStr), mkVar(fmt.Sprintf("cap%db", n), TStr), mkVar(fmt.Sprintf("cap%dc", n), TInt)}, X: []*Expr{chain()}})
				case 3:
					out = append(out, &Stmt{K: SPanic, X: []*Expr{str()}})
				}
			}
			out = append(out, s)
		}
		return out
	})
}

// lint transpiles a valid program and judges both scripts.
func (c *Ctx) lint(s *Slot, kase string, files map[string]string, apps map[string]bool) bool {
	path := s.writeSources(files, "main.tsh")
	resp := s.transpile(path)
	c.eval(1)
	detail := map[string]string{}
	for n, t := range files {
		detail["source "+n] = t
	}
	if resp.Slow {
		c.inconclusive(kase + ": " + resp.Dead)
		return true
	}
	if resp.Dead != "" {
		c.violate(kase, "transpilation: "+clip(resp.Dead, 300), detail)
		return false
	}
	for i, o := range resp.Outs {
		if o.IsErr && resp.Outs[1-i].IsErr && strings.HasPrefix(kase, "expr") {
			c.count("expression statements rejected", 1)
			return true
		}
		if o.Panic != "" || o.IsErr {
			c.violate(kase, "valid program is rejected for "+[]string{"bash", "batch"}[i]+": "+clip(o.Err+o.Panic, 300), detail)
			return false
		}
	}
	detail["bash script"], detail["batch script"] = resp.Outs[0].Text, resp.Outs[1].Text
	r := s.syntaxBash(resp.Outs[0].Text)
	if r.Slow {
		c.inconclusive(kase + ": " + r.Why)
		return true
	}
	if r.Exit != 0 || r.Err != "" || r.Out != "" {
		c.violate(kase, "bash -n: "+clip(r.Err, 300), detail)
		return false
	}
	bad, st := lintBash(resp.Outs[0].Text, apps)
	c.count("bash command words", st.Commands)
	c.count("bash routine invocations", st.Calls)
	c.count("bash routines", st.Regions)
	c.count("bash helper routines", st.Helpers)
	if bad != "" {
		c.violate(kase, "bash: "+bad, detail)
		return false
	}
	bad, st = lintBatch(resp.Outs[1].Text)
	c.count("batch commands", st.Commands)
	c.count("batch jumps", st.Gotos)
	c.count("batch calls", st.Calls)
	c.count("batch labels", st.Labels)
	c.count("batch loops", st.Loops)
	c.count("batch routines", st.Regions)
	c.count("batch helper routines", st.Helpers)
	if bad != "" {
		c.violate(kase, "batch: "+bad, detail)
		return false
	}
	return true
}

// nestings builds programs with every sequence of constructs nested in each other; the innermost block carries
// jumps and is followed by further statements on every level.
func nestings(depth int) (l []string) {
	heads := []string{
		"if c%d == 1 {\n@\n}\n", "if c%d == 1 {\n@\n} else if c%d == 2 {\nprint(1)\n} else {\nprint(2)\n}\n", "if c%d == 1 {\nprint(1)\n} else {\n@\n}\n", "if c%d == 1 {\n} else if c%d == 3 {\n@\n}\n",
		"for c%d < 3 {\n@\nc%d++\n}\n", "for l%d := 0; l%d < 3; l%d++ {\n@\n}\n", "for {\n@\nbreak\n}\n", "for r%d, s%d := range \"ab\" {\nprint(r%d, s%d)\n@\n}\n", "for r%d := range sl {\nprint(r%d)\n@\n}\n",
		"switch c%d {\ncase 1:\n@\ncase 2:\nprint(3)\ndefault:\nprint(4)\n}\n", "switch c%d {\ncase 1:\nprint(5)\ndefault:\n@\n}\n", "switch {\ndefault:\n@\n}\n",
	}
	loopAt := func(h int) bool { return h >= 4 && h <= 8 }
	isSwitch := func(h int) bool { return h >= 9 }
	var rec func(d int, chain []int)
	rec = func(d int, chain []int) {
		if d == 0 {
			inLoop, brk := false, false
			for _, h := range chain {
				if loopAt(h) {
					inLoop, brk = true, true
				}
				if isSwitch(h) {
					brk = false
				}
			}
			inner := "print(0)"
			if brk {
				inner = "if c0 == 9 {\nbreak\n}\nprint(0)\nif c0 == 8 {\ncontinue\n}"
			} else if inLoop {
				inner = "if c0 == 8 {\ncontinue\n}\nprint(0)"
			}
			t := inner
			for k := len(chain) - 1; k >= 0; k-- {
				h := strings.ReplaceAll(heads[chain[k]], "%d", fmt.Sprint(k))
				t = strings.ReplaceAll(h, "@", strings.TrimSuffix(t, "\n")) + fmt.Sprintf("print(\"after %d\")\n", k)
				if k > 0 && loopAt(chain[k-1]) && k%2 == 1 {
					t += "if c0 == 7 {\nbreak\n}\n"
				}
			}
			decl := "sl := []int{1, 2}\n"
			for k := range chain {
				decl += fmt.Sprintf("c%d := %d\n", k, 1+k%2)
			}
			l = append(l, decl+t, "sl := []int{1, 2}\nfunc fn(c0 int, c1 int, c2 int, c3 int) int {\nprint(len(sl))\n"+t+"if c0 == 1 {\nreturn 2\n}\nreturn 1\n}\nprint(fn(1, 2, 1, 2))\nprint(fn(2, 1, 1, 2))\n")
			return
		}
		for h := range heads {
			rec(d-1, append(append([]int{}, chain...), h))
		}
	}
	for d := 1; d <= depth; d++ {
		rec(d, nil)
	}
	return
}

// singles are programs with one builtin/feature each, used at top level, in a called and in an uncalled function.
func singles() (l []string, nstm int) {
	stm := []string{
		"print(1)", "print()", "panic(\"x\")", "s := \"abc\"\nprint(s[1])", "s := \"abc\"\nprint(s[1:])", "s := \"abc\"\nx := s[:2]\nprint(x)", "x := len(\"abc\")\nprint(x)", "sl := []int{1}\nprint(len(sl))", "sl := []int{1, 2}\nprint(sl[0])", "sl := []int{}\nsl[3] = 4", "var sl []string\nsl[0] = \"a\"",
		"sl := []int{}\ncopy(sl, []int{1})", "sl := []int{}\nn := copy(sl, []int{1})\nprint(n)", "for i := range \"abc\" {\nprint(i)\n}", "for i, v := range []int{1, 2} {\nprint(i, v)\n}", "for i := 0; i < 2; i++ {\n}", "for {\nbreak\n}",
		"x := input()\nprint(x)", "x := input(\"p\")\nprint(x)", "input()", "x := read(\"f\")\nprint(x)", "read(\"f\")", "write(\"f\", \"x\")", "write(\"f\", \"x\", true)", "b := true\nwrite(\"f\", \"x\", b)", "x := exists(\"f\")\nprint(x)", "exists(\"f\")", "if exists(\"f\") {\nprint(1)\n}",
		"@prog()", "@prog(\"a\")", "@\"p q\"(\"a b\")", "@a() | @b(\"x\") | @c()", "o, e, c := @prog(\"x\")\nprint(o, e, c)", "var o string\nvar e string\nvar c int\no, e, c = @a() | @b()\nprint(o, e, c)", "x := itoa(3)\nprint(x)", "x := 3\nx += 2\nx++\nprint(x)", "x := !true\nprint(x)", "x := true && false\nprint(x)", "x := \"a\" + \"b\"\nprint(x)",
		"x := \"a\"\nx += \"b\"\nprint(x)", "if true {\n}", "if true {\n} else {\n}", "switch 1 {\n}", "switch {\ncase true:\n}", "switch 1 {\ndefault:\n}", "a, b := 1, 2\na, b = b, a\nprint(a, b)", "x := \"\"\nx = \"a\nb\"\nprint(x)", "x := `a\"b`\nprint(x)", "var x string\nprint(x)", "x := \"q\"\nprint(x == \"\\\"\")", "print(len(read(\"f\")))", "print(input() + read(input()))", "sl := []string{input(), read(\"f\")}\nprint(sl[len(sl) - 1])", "x := \"%\"\nprint(x)", "write(input(), read(input()), exists(input()))",
	}
	nstm = len(stm)
	for _, s := range stm {
		l = append(l, s+"\n", "func f() {\n"+s+"\n}\nf()\n", "func f() {\n"+s+"\n}\n", "func f() {\n"+s+"\n}\nfunc g() {\nf()\n}\ng()\n", "func f() {\n"+s+"\n}\nfunc g() {\nf()\n}\nprint(1)\n", "if 1 == 1 {\n"+s+"\n}\n", "for i0 := 0; i0 < 2; i0++ {\nif i0 == 1 {\n"+s+"\n}\n}\n", "func f() int {\nif true {\n"+s+"\n}\nreturn 1\n}\nif f() == 1 {\nprint(2)\n}\n")
	}
	l = append(l, "", "\n", "// only a comment", "func f() {\n}\n", "func f() {\n}\nf()\n", "var x int\n")
	// Statements which consist of expressions only: the blocks around them have no code of their own.
	for _, e := range []string{"x0", "1", "\"x\"", "(x0)", "true", "x0 + 1", "nil", "\"\"", "[]int{}", "(sl0)", "len(\"a\")", "itoa(x0)", "!true", "x0 == 1", "true && false", "\"a\" + \"b\"", "sl0[0]", "s0[0]", "s0[0:1]", "read(\"f\")", "exists(\"f\")", "g0()", "v0()", "copy(sl0, sl0)", "x0\nx0", "x0\nprint(x0)", "print(x0)\nx0"} {
		p := "x0 := 1\ns0 := \"abc\"\nsl0 := []int{1}\nfunc g0() int {\nreturn x0\n}\nfunc v0() {\nx0\n}\n"
		for _, b := range []string{"@", "if x0 == 1 {\n@\n}", "if x0 == 2 {\n@\n} else {\n@\n}", "if x0 == 2 {\nprint(1)\n} else if x0 == 1 {\n@\n} else {\nprint(2)\n}", "for x0 < 1 {\n@\n}", "for i1 := 0; i1 < 2; i1++ {\n@\n}", "for {\n@\nbreak\n}", "for i1 := range s0 {\n@\n}", "for i1, w1 := range sl0 {\n@\n}", "switch x0 {\ncase 1:\n@\n}", "switch x0 {\ncase 2:\n@\ncase 1:\n@\ndefault:\n@\n}", "switch {\ndefault:\n@\n}", "func f1() {\n@\n}\nf1()", "func f1() {\n@\n}", "func f1() int {\n@\nreturn 1\n}\nprint(f1())", "if x0 == 1 {\nif x0 == 1 {\n@\n}\n}"} {
			if strings.Contains(b, "@") {
				l = append(l, p+strings.ReplaceAll(b, "@", e)+"\n")
			}
		}
	}
	return
}

func runC16(c *Ctx) {
	sg, nstm := singles()
	apps := setOf("prog a b c")
	c.each("single", len(sg), func(s *Slot, i int, r *rand.Rand) {
		c.seen(sg[i])
		kind := "single"
		if i >= 8*nstm+6 {
			kind = "expr" // Statements without effect may be rejected.
		}
		c.lint(s, fmt.Sprintf("%s:%d", kind, i), map[string]string{"main.tsh": sg[i]}, apps)
	})
	c.each("pairs", c.pick(600, 6000), func(s *Slot, i int, r *rand.Rand) {
		// Several features in one program: each in a block of its own.
		t := ""
		for k := 2 + r.IntN(3); k > 0; k-- {
			t += "if 1 == 1 {\n" + strings.TrimSuffix(sg[8*r.IntN(nstm)], "\n") + "\n}\n"
		}
		c.seen(t)
		c.lint(s, fmt.Sprintf("pairs:%d", i), map[string]string{"main.tsh": t}, apps)
	})
	ne := nestings(c.pick(3, 4))
	c.each("nest", len(ne), func(s *Slot, i int, r *rand.Rand) {
		c.seen(ne[i])
		c.sample("nest", ne[i])
		c.lint(s, fmt.Sprintf("nest:%d", i), map[string]string{"main.tsh": ne[i]}, nil)
	})
	c.each("gen", c.pick(4000, 60000), func(s *Slot, i int, r *rand.Rand) {
		o := lintOpt(i)
		g := newGen(r, o)
		m := g.program()
		ap := map[string]bool{}
		if i%4 != 3 {
			ioify(r, m, ap, g.strLit)
		}
		t := m.Source()
		c.seen(t)
		c.sample("gen", t)
		c.lint(s, fmt.Sprintf("gen:%d", i), map[string]string{"main.tsh": t}, ap)
	})
	// Programs of the repository.
	fs, _ := filepath.Glob(filepath.Join(repoDir(), "examples", "*.tsh"))
	c.each("examples", len(fs), func(s *Slot, i int, r *rand.Rand) {
		b, _ := os.ReadFile(fs[i])
		c.seen(string(b))
		c.lint(s, "example "+filepath.Base(fs[i]), map[string]string{"main.tsh": string(b)}, setOf("sh echo ps cut grep find dir cmd"))
	})
	std := stdUses()
	c.each("std", len(std), func(s *Slot, i int, r *rand.Rand) {
		c.seen(std[i])
		c.lint(s, fmt.Sprintf("std:%d", i), map[string]string{"main.tsh": std[i]}, setOf("sh echo ps cut grep"))
	})
	for _, d := range []string{"C01", "C02", "C03", "C04", "C05", "C08", "C09", "C16"} {
		l, _ := filepath.Glob(filepath.Join(c.Verif, "regress", d, "*.tsh"))
		c.each("corpus-"+d, len(l), func(s *Slot, i int, r *rand.Rand) {
			b, _ := os.ReadFile(l[i])
			c.lint(s, "corpus "+d+"/"+filepath.Base(l[i]), map[string]string{"main.tsh": string(b)}, nil)
		})
	}
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// stdUses calls every function of the standard library once.
func stdUses() (l []string) {
	calls := []string{`Index("abc", "c")`, `Contains("abc", "c")`, `Join([]string{"a", "b"}, ",")`, `HasPrefix("ab", "a")`, `HasSuffix("ab", "b")`, `Count("aa", "a")`, `Repeat("a", 2)`, `Replace("aa", "a", "b", 1)`, `ReplaceAll("aa", "a", "b")`, `TrimPrefix("ab", "a")`, `TrimSuffix("ab", "b")`, `TrimLeft("ab", "a")`, `TrimRight("ab", "b")`, `Trim("ab", "b")`, `TrimSpace(" a ")`}
	all := ""
	for _, x := range calls {
		l = append(l, "import \"strings\"\nprint(strings."+x+")\n", "import s \"strings\"\nfunc f() {\nprint(s."+x+")\n}\n", "import s \"strings\"\nfunc f() {\nprint(s."+x+")\n}\nf()\n")
		all += "print(strings." + x + ")\n"
	}
	multi := "a, b, c := strings.Cut(\"a=b\", \"=\")\nprint(a, b, c)\nd, e := strings.CutPrefix(\"ab\", \"a\")\nprint(d, e)\nf, g := strings.CutSuffix(\"ab\", \"b\")\nprint(f, g)\nh := strings.Split(\"a,b\", \",\")\nprint(len(h))\n"
	l = append(l, "import \"strings\"\n"+all, "import \"strings\"\n"+multi, "import (\n\"strings\"\n\"os\"\n)\n"+all+multi+"print(os.Shell())\n", "import \"os\"\nprint(os.Shell())\n", "import \"os\"\nprint(1)\n")
	return
}
