package main

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strings"
)

func init() {
	checks["C13"] = check{run: runC13,
		rule: "Transpile runs for both targets in a process of its own under recover(), a CPU limit and a stack limit on: every single token deletion, duplication, replacement and insertion (vocabulary of all tokens) in templates with every construct, truncations at every byte, token and byte edits of all known programs, random token and statement sequences, random bytes, odd expressions (calls without and with several results, slices, nil, undefined names, nested captures) at every expression position, all import graphs over three files including cycles and missing, unreadable, empty and directory targets in every spelling, deep nestings and long repetitions of every construct. Every call must return a script without error or a non-empty error without script. Distinct = distinct input.",
		asm:  []string{"bounded time stands for 30 s of CPU time per call on inputs of at most some hundred kB"}}
}

// total judges one input.
func (c *Ctx) total(s *Slot, kase string, files map[string]string, main string) bool {
	return c.totalAt(s, kase, s.writeSources(files, main), files)
}

func (c *Ctx) totalAt(s *Slot, kase, path string, files map[string]string) bool {
	resp := s.transpile(path)
	c.eval(1)
	if files != nil {
		c.seen(files)
	} else {
		c.seen(path)
	}
	bad := ""
	if resp.Slow {
		c.inconclusive(kase + ": " + resp.Dead)
		return true
	}
	if resp.Dead != "" {
		bad = "transpilation: " + clip(resp.Dead, 400)
	}
	for i, o := range resp.Outs {
		t := []string{"bash", "batch"}[i]
		switch {
		case o.Panic != "":
			bad = "transpilation to " + t + " panics: " + clip(o.Panic, 300)
		case o.IsErr && o.Text != "":
			bad = "an error and a script are returned for " + t
		case o.IsErr && strings.TrimSpace(o.Err) == "":
			bad = "the error for " + t + " is empty"
		case !o.IsErr && o.Text == "":
			bad = "neither an error nor a script is returned for " + t
		}
		if bad != "" {
			break
		}
	}
	if bad == "" {
		if resp.Outs[0].IsErr {
			c.count("inputs rejected", 1)
		} else {
			c.count("inputs accepted", 1)
		}
		return true
	}
	d := map[string]string{"path": path}
	for n, t := range files {
		d["source "+n] = t
		d["quoted "+n] = clip(fmt.Sprintf("%q", t), 3000)
	}
	for i, o := range resp.Outs {
		if o.Panic != "" {
			d["panic "+[]string{"bash", "batch"}[i]] = o.Panic
		}
	}
	c.violate(kase, bad, d)
	return false
}

func totalVocab() []string {
	l := []string{}
	for _, g := range tokGroups {
		l = append(l, g[0])
	}
	return append(l, "+", "-", "%", "<", "!=", ">=", "||", "+=", "*=", "false", "-7", "`a`", "int", "string", "x", "f", "x[", "[]int{", "s.", "99999999999999999999", "1.5", "f(", "()", "return", "a, b")
}

func totalSources(c *Ctx) (l []string) {
	for _, t := range renameTemplates {
		l = append(l, t.src)
	}
	return append(l, layoutTemplates...)
}

// oddExprs are expressions which are hardly ever valid.
var oddExprs = []string{"v0()", "v2()", "v3()", "nil", "undefined", "undefined()", "sl", "[]int{}", "[]string{v0()}", "[]int{v2()}", "v2", "v0", "int", "print(1)", "len()", "len(v0())", "len(v2())", "len(nil)", "copy(sl, v0())", "copy(v0(), sl)", "copy(sl, sl)", "copy()", "itoa(v0())", "itoa()", "itoa(\"a\")", "exists()", "exists(1)", "exists(v0())", "read(v0())", "read()", "read(1)", "input(v0())", "input(1)", "@p()", "@p(v0())", "@p(v2())", "@p(sl)", "@p(@q())", "@p() | @q(v3())", "!v0()", "!v2()", "!1", "-v0()", "(v0())", "((v2()))", "v0() + 1", "1 + v0()", "v2() + v2()", "v2() == v2()", "v0() == v0()", "nil == nil", "v2() && true", "true && v0()", "sl + sl", "sl == sl", "sl[v0()]", "sl[v2()]", "sl[nil]", "sl[1:2]", "sl[:]", "sl[]", "st[v0()]", "st[v2():]", "st[:v0()]", "st[1:2:3]", "st[\"a\"]", "st[]", "x[0]", "v0()[0]", "\"abc\"[0]", "f1(v0())", "f1(v2())", "f1(v0(), 1)", "f1()", "f1(1, 2)", "f1(f1)", "f1(sl)", "f1(nil)", "s.F()", "strings.Index(\"a\")", "(", ")", "", "1,", ", 1", "1 2", "1 +", "+ 1", "1 + + 1", "1 == 2 == 3", "!!!true", "!!", "true == 1", "\"a\" < 1", "\"a\" - \"b\"", "true + true", "1 && 2", "[]v{}", "[]int{\"a\"}", "[]int{1,}", "[][]int{}", "[]int", "[3]int{}", "{}", "func() {}", "if true {}", "a.b", "a.b.c", "a.", ".a", "a..b", "0x10", "1e5", "1.5", "'a'", "99999999999999999999", "-99999999999999999999", "--1", "1--", "x++", "x := 1", "x = 1", "_", "return 1", "range sl", "write(\"f\", \"x\")", "write()", "panic(\"x\")", "\"\\q\"", "\"unterminated", "`unterminated", "/* unterminated", "// x", "@", "@1", "@\"\"()", "@\"x\"", "@p", "@p(", "@p() |", "| @p()", "@p() | q()", "@p()[0]", "error", "nil()", "true()", "1()", "\"a\"()", "1[0]", "1 / 0", "1 % 0", "st[1:0]", "sl[-1]", "st[-1]"}

const oddPrelude = "sl := []int{1}\nst := \"abc\"\nx := 1\nfunc v0() {\n}\nfunc v2() (int, int) {\n    return 1, 2\n}\nfunc v3() (string, error, int) {\n    return \"\", nil, 1\n}\nfunc f1(p int) int {\n    return p\n}\n"

// oddPlaces are places for expressions.
var oddPlaces = []string{"§", "y := §", "var y int = §", "var y = §", "var y, z = §, 1", "var y, z int = 1, §", "y, z := §", "y, z := §, §", "x = §", "x, st = §", "x, st = §, §", "x += §", "st += §", "sl[0] = §", "sl[§] = 1", "sl[§] = §", "sl[§] += 1", "print(§)", "print(1, §, 2)", "panic(§)", "write(§, \"x\")", "write(\"f\", §)", "write(\"f\", \"x\", §)", "if § {\n}", "if x == 1 {\n} else if § {\n}", "if true {\n§\n}", "for § {\n}", "for § {\nbreak\n}", "for i := §; i < 2; i++ {\n}", "for i := 0; §; i++ {\n}", "for i := 0; i < 2; i += § {\n}", "for §; §; § {\n}", "for ; § ; {\n}", "for i := range § {\n}", "for i, v := range § {\nprint(i, v)\n}", "for i, v, w := range § {\n}", "switch § {\ncase 1:\n}", "switch 1 {\ncase §:\n}", "switch {\ncase §:\nprint(1)\ndefault:\n§\n}", "switch \"a\" {\ncase \"b\":\n§\n}", "func h() int {\nreturn §\n}", "func h() (int, int) {\nreturn §\n}", "func h() (int, string) {\nreturn §, §\n}", "func h() {\nreturn §\n}", "func h() {\n§\n}", "func h(p int, q §) {\n}", "func h() § {\n}", "func h() (int, §) {\nreturn 1, 2\n}", "func h() []int {\nreturn §\n}", "func h() error {\nreturn §\n}", "@p(§)", "o, e, c := @p(§)", "o, e := §", "o, e, c := §", "o, e, c = §", "var o, e, c = §", "o, e, c := @p(\"a\") | @q(§)", "@p(1, §, \"a\")", "f1(§)", "y := f1(§)", "y := len(§)", "y := copy(sl, §)", "y := itoa(§)", "y := read(§)", "y := exists(§)", "y := input(§)", "y := (§)", "y := !§", "y := § + 1", "y := 1 - §", "y := § == §", "y := § && true", "y := true || §", "y := []int{1, §}", "y := []string{§}", "y := sl[§]", "y := st[§]", "y := st[§:]", "y := st[:§]", "y := st[§:§]", "§ := 1", "§ = 1", "var § int", "var § = 1", "§, y := 1, 2", "§, § := 1, 2", "§++", "§ += 1", "§[0] = 1", "import §", "import \"§\"", "import a \"§\"", "import (\n§\n)", "func § {\n}", "func §() {\n}\n§()", "func h(§) {\n}", "func h(§ int) {\n}", "§()", "§(1)", "§.f()", "§[0]", "@§()", "case §:", "return §", "break §", "else §", "if true {\nbreak\n}\n§"}

// repetitions are texts which grow with n. sizes are chosen by depth (nesting) or length.
var repetitions = []struct {
	what string
	deep bool
	f    func(n int) string
}{
	{"round brackets", true, func(n int) string { return "x := " + strings.Repeat("(", n) + "1" + strings.Repeat(")", n) + "\n" }},
	{"open round brackets", true, func(n int) string { return "x := " + strings.Repeat("(", n) }},
	{"open brackets", true, func(n int) string { return "x := " + strings.Repeat("x[", n) }},
	{"open calls", true, func(n int) string { return "func f(a int) int {\nreturn a\n}\nx := " + strings.Repeat("f(", n) }},
	{"calls", true, func(n int) string {
		return "func f(a int) int {\nreturn a\n}\nx := " + strings.Repeat("f(", n) + "1" + strings.Repeat(")", n) + "\n"
	}},
	{"calls with two arguments", true, func(n int) string {
		return "func f(a int, b int) int {\nreturn a\n}\nx := " + strings.Repeat("f(1, ", n) + "1" + strings.Repeat(")", n) + "\n"
	}},
	{"subscripts", true, func(n int) string {
		return "s := []int{0}\nx := " + strings.Repeat("s[", n) + "0" + strings.Repeat("]", n) + "\n"
	}},
	{"string subscripts", true, func(n int) string {
		return "s := \"a\"\nx := " + strings.Repeat("s[len(", n) + "s" + strings.Repeat(")]", n) + "\n"
	}},
	{"len of itoa", true, func(n int) string {
		return "x := " + strings.Repeat("len(itoa(", n) + "1" + strings.Repeat("))", n) + "\n"
	}},
	{"slice literals", true, func(n int) string {
		return "x := " + strings.Repeat("[]int{len(", n) + "\"a\"" + strings.Repeat(")}", n) + "\n"
	}},
	{"negations", true, func(n int) string { return "x := " + strings.Repeat("!", n) + "true\n" }},
	{"negated groups", true, func(n int) string { return "x := " + strings.Repeat("!(", n) + "true" + strings.Repeat(")", n) + "\n" }},
	{"sums", true, func(n int) string { return "x := 1" + strings.Repeat(" + 1", n) + "\n" }},
	{"minus signs", true, func(n int) string { return "x := 1" + strings.Repeat(" - -1", n) + "\n" }},
	{"mixed operators", true, func(n int) string { return "x := 1" + strings.Repeat(" + 1 * 2 % 3", n) + " == 1\n" }},
	{"right nested sums", true, func(n int) string { return "x := " + strings.Repeat("1 + (", n) + "1" + strings.Repeat(")", n) + "\n" }},
	{"conjunctions", true, func(n int) string { return "x := true" + strings.Repeat(" && true || false", n) + "\n" }},
	{"comparisons", true, func(n int) string { return "x := true" + strings.Repeat(" == true", n) + "\n" }},
	{"comparison groups", true, func(n int) string {
		return "x := " + strings.Repeat("(1 == 1) == (", n) + "true" + strings.Repeat(")", n) + "\n"
	}},
	{"string concatenation", true, func(n int) string { return "x := \"a\"" + strings.Repeat(" + \"b\"", n) + "\n" }},
	{"ifs", true, func(n int) string { return strings.Repeat("if true {\n", n) + strings.Repeat("}\n", n) }},
	{"open ifs", true, func(n int) string { return strings.Repeat("if true {\n", n) }},
	{"else ifs", true, func(n int) string { return "if true {\n" + strings.Repeat("} else if false {\n", n) + "}\n" }},
	{"nested elses", true, func(n int) string { return strings.Repeat("if true {\n} else {\n", n) + strings.Repeat("}\n", n) }},
	{"fors", true, func(n int) string { return strings.Repeat("for {\n", n) + strings.Repeat("break\n}\n", n) }},
	{"range loops", true, func(n int) string {
		t := ""
		for i := 0; i < n; i++ {
			t += fmt.Sprintf("for i%d, v%d := range \"abc\" {\n", i, i)
		}
		return t + strings.Repeat("}\n", n)
	}},
	{"switches", true, func(n int) string { return strings.Repeat("switch {\ncase true:\n", n) + strings.Repeat("}\n", n) }},
	{"switch defaults", true, func(n int) string { return strings.Repeat("switch 1 {\ndefault:\n", n) + strings.Repeat("}\n", n) }},
	{"pipes", true, func(n int) string { return "@a()" + strings.Repeat(" | @b(\"x\")", n) + "\n" }},
	{"functions in functions", true, func(n int) string {
		t := ""
		for i := 0; i < n; i++ {
			t += fmt.Sprintf("func f%d() {\n", i)
		}
		return t + strings.Repeat("}\n", n)
	}},
	{"unclosed blocks", true, func(n int) string { return strings.Repeat("{", n) }},
	{"closing brackets", true, func(n int) string { return strings.Repeat("}", n) + strings.Repeat(")", n) + strings.Repeat("]", n) }},
	{"reads", true, func(n int) string {
		return "x := " + strings.Repeat("read(", n) + "\"a\"" + strings.Repeat(")", n) + "\n"
	}},
	{"call chains", false, func(n int) string {
		b := strings.Builder{}
		b.WriteString("func f0() int {\nreturn 1\n}\n")
		for i := 1; i < n; i++ {
			fmt.Fprintf(&b, "func f%d() int {\nreturn f%d() + f%d()\n}\n", i, i-1, i-1)
		}
		fmt.Fprintf(&b, "print(f%d())\n", n-1)
		return b.String()
	}},
	{"call webs", false, func(n int) string {
		b := strings.Builder{}
		n /= 6
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "func f%d() {\n", i)
			for j := 0; j < i && j < 40; j++ {
				fmt.Fprintf(&b, "f%d()\n", j*i/40)
			}
			b.WriteString("}\n")
		}
		fmt.Fprintf(&b, "f%d()\n", n-1)
		return b.String()
	}},
	{"statements", false, func(n int) string { return strings.Repeat("print(1)\n", n) }},
	{"variables", false, func(n int) string {
		b := strings.Builder{}
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "v%d := %d\n", i, i)
		}
		return b.String()
	}},
	{"assignments", false, func(n int) string { return "x := 1\n" + strings.Repeat("x = x + 1\n", n) }},
	{"functions", false, func(n int) string {
		b := strings.Builder{}
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "func f%d(a int) int {\nreturn a\n}\n", i)
		}
		return b.String()
	}},
	{"blocks", false, func(n int) string { return strings.Repeat("if true {\nprint(1)\n}\n", n) }},
	{"loops", false, func(n int) string { return strings.Repeat("for i := 0; i < 2; i++ {\nprint(i)\n}\n", n) }},
	{"cases", false, func(n int) string { return "switch 1 {\n" + strings.Repeat("case 1:\nprint(1)\n", n) + "}\n" }},
	{"blank lines", false, func(n int) string { return strings.Repeat("\n", 10*n) + "print(1)" + strings.Repeat(" \n", 10*n) }},
	{"blanks", false, func(n int) string { return strings.Repeat(" ", 20*n) + "print(1)" + strings.Repeat("\t", 20*n) }},
	{"line comments", false, func(n int) string { return strings.Repeat("// x\n", 5*n) }},
	{"block comments", false, func(n int) string { return strings.Repeat("/* x */", 5*n) }},
	{"long block comment", false, func(n int) string { return "/*" + strings.Repeat("* /\n", 10*n) + "*/" }},
	{"open block comments", false, func(n int) string { return strings.Repeat("/*", 10*n) }},
	{"long string", false, func(n int) string { return "x := \"" + strings.Repeat("a$\\\"", 10*n) + "\"\n" }},
	{"open string", false, func(n int) string { return "x := \"" + strings.Repeat("a\\n", 10*n) }},
	{"quotes", false, func(n int) string { return strings.Repeat("\"", 20*n) }},
	{"odd quotes", false, func(n int) string { return strings.Repeat("\"a", 10*n+1) }},
	{"back quotes", false, func(n int) string { return strings.Repeat("`\n", 10*n+1) }},
	{"long identifier", false, func(n int) string { return strings.Repeat("a", 20*n) + " := 1\n" }},
	{"long number", false, func(n int) string { return "x := " + strings.Repeat("9", 20*n) + "\n" }},
	{"arguments", false, func(n int) string { return "print(1" + strings.Repeat(", 1", n) + ")\n" }},
	{"parameters", false, func(n int) string {
		b := strings.Builder{}
		b.WriteString("func f(p int")
		for i := 0; i < n/4; i++ {
			fmt.Fprintf(&b, ", p%d int", i)
		}
		return b.String() + ") {\n}\nf(1" + strings.Repeat(", 1", n/4) + ")\n"
	}},
	{"results", false, func(n int) string {
		return "func f() (int" + strings.Repeat(", int", n/4) + ") {\nreturn 1" + strings.Repeat(", 1", n/4) + "\n}\nf()\n"
	}},
	{"elements", false, func(n int) string { return "x := []int{1" + strings.Repeat(", 1", n) + "}\n" }},
	{"targets", false, func(n int) string {
		b, e := strings.Builder{}, strings.Builder{}
		b.WriteString("a0")
		e.WriteString(" := 0")
		for i := 1; i < n/4; i++ {
			fmt.Fprintf(&b, ", a%d", i)
			e.WriteString(", 1")
		}
		return b.String() + e.String() + "\n"
	}},
	{"commas", false, func(n int) string { return "a" + strings.Repeat(",", 10*n) + " := 1\n" }},
	{"ats", false, func(n int) string { return strings.Repeat("@", 10*n) }},
	{"dots", false, func(n int) string { return "a" + strings.Repeat(".a", 10*n) + "()\n" }},
	{"imports", false, func(n int) string {
		b := strings.Builder{}
		b.WriteString("import (\n")
		for i := 0; i < n/20; i++ {
			fmt.Fprintf(&b, "s%d \"strings\"\n", i)
		}
		return b.String() + ")\nprint(s1.Index(\"a\", \"b\"))\n"
	}},
}

func runC13(c *Ctx) {
	srcs := totalSources(c)
	voc := totalVocab()
	one := func(t string) map[string]string { return map[string]string{"main.tsh": t} }
	// Every single token edit of the templates.
	type edit struct{ src, at, kind, w int }
	toks := [][]Tok{}
	todo := []edit{}
	for i, t := range srcs {
		tk, err := toToks(t)
		if err != nil {
			panic(err)
		}
		toks = append(toks, tk)
		for at := 0; at <= len(tk); at++ {
			if at < len(tk) {
				todo = append(todo, edit{i, at, 0, 0}, edit{i, at, 1, 0}, edit{i, at, 4, 0}, edit{i, at, 5, 0})
			}
			for w := range voc {
				if at < len(tk) {
					todo = append(todo, edit{i, at, 2, w})
				}
				todo = append(todo, edit{i, at, 3, w})
			}
		}
	}
	stride := 1
	if !c.thorough() {
		stride = 5
	}
	c.each("edits", len(todo)/stride, func(s *Slot, i int, r *rand.Rand) {
		e := todo[i*stride+r.IntN(stride)]
		t := toks[e.src]
		var n []Tok
		switch e.kind {
		case 0: // deletion
			n = append(append(n, t[:e.at]...), t[e.at+1:]...)
		case 1: // duplication
			n = append(append(n, t[:e.at+1]...), t[e.at:]...)
		case 2: // replacement
			n = append(append(append(n, t[:e.at]...), Tok{S: voc[e.w], Sp: true}), t[e.at+1:]...)
		case 3: // insertion
			n = append(append(append(n, t[:e.at]...), Tok{S: voc[e.w], Sp: true}), t[e.at:]...)
		case 4: // truncation
			n = t[:e.at]
		case 5: // the rest only
			n = t[e.at:]
		}
		c.total(s, fmt.Sprintf("edits:%d", i), one(house(n)), "main.tsh")
	})
	// Truncation at every byte.
	cuts := []edit{}
	for i, t := range srcs {
		for at := 0; at < len(t); at++ {
			cuts = append(cuts, edit{i, at, 0, 0})
		}
	}
	c.each("truncations", len(cuts), func(s *Slot, i int, r *rand.Rand) {
		e := cuts[i]
		if !c.thorough() && i%3 != 0 {
			return
		}
		c.total(s, fmt.Sprintf("truncations:%d", i), one(srcs[e.src][:e.at]), "main.tsh")
		if c.thorough() {
			c.total(s, fmt.Sprintf("truncations:%d", i), one(srcs[e.src][e.at:]), "main.tsh")
			c.total(s, fmt.Sprintf("truncations:%d", i), one(srcs[e.src][:e.at]+srcs[e.src][e.at+1:]), "main.tsh")
		}
	})
	// Odd expressions at every place.
	c.each("odd", len(oddPlaces)*len(oddExprs), func(s *Slot, i int, r *rand.Rand) {
		p, e := oddPlaces[i/len(oddExprs)], oddExprs[i%len(oddExprs)]
		t := p
		if strings.Count(p, "§") > 1 && r.IntN(2) == 0 {
			for strings.Contains(t, "§") {
				t = strings.Replace(t, "§", oddExprs[r.IntN(len(oddExprs))], 1)
			}
		} else {
			t = strings.ReplaceAll(t, "§", e)
		}
		kase := fmt.Sprintf("odd:%d", i)
		c.total(s, kase, one(oddPrelude+t+"\n"), "main.tsh")
		if c.thorough() || r.IntN(4) == 0 {
			c.total(s, kase, one(t), "main.tsh")
			c.total(s, kase, one(oddPrelude+"func wrap() {\n"+t+"\n}\nwrap()\n"), "main.tsh")
			c.total(s, kase, one(oddPrelude+"for x == 1 {\n"+t+"\n}\n"), "main.tsh")
			c.total(s, kase, map[string]string{"main.tsh": "import a \"b.tsh\"\na.Wrap()\n", "b.tsh": oddPrelude + "func Wrap() {\n" + t + "\n}\n" + t + "\n"}, "main.tsh")
		}
	})
	// Token and statement soups.
	c.each("soup", c.pick(15000, 250000), func(s *Slot, i int, r *rand.Rand) {
		b := strings.Builder{}
		switch i % 3 {
		case 0: // tokens
			for k := 1 + r.IntN(30); k > 0; k-- {
				b.WriteString(voc[r.IntN(len(voc))])
				b.WriteString([]string{" ", "", "\n"}[r.IntN(3)])
			}
		case 1: // statements with odd expressions
			if r.IntN(2) == 0 {
				b.WriteString(oddPrelude)
			}
			for k := 1 + r.IntN(6); k > 0; k-- {
				t := oddPlaces[r.IntN(len(oddPlaces))]
				for strings.Contains(t, "§") {
					e := oddExprs[r.IntN(len(oddExprs))]
					if r.IntN(2) == 0 {
						e = []string{"x", "1", "st", "sl", "true", "f1(1)", "\"a\""}[r.IntN(7)]
					}
					t = strings.Replace(t, "§", e, 1)
				}
				b.WriteString(t + "\n")
			}
		case 2: // bytes
			for k := r.IntN(60); k > 0; k-- {
				b.WriteByte(byte(r.IntN(256)))
			}
			if r.IntN(2) == 0 {
				b.WriteString("\nx := 1\nprint(x)\n")
			}
		}
		c.total(s, fmt.Sprintf("soup:%d", i), one(b.String()), "main.tsh")
	})
	// Generated programs and libraries with edits.
	lib := []string{}
	for _, g := range []string{"examples", "std"} {
		fs, _ := filepath.Glob(filepath.Join(repoDir(), g, "*.tsh"))
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			lib = append(lib, string(b))
		}
	}
	c.each("mutants", c.pick(2500, 60000), func(s *Slot, i int, r *rand.Rand) {
		src := ""
		if i%4 == 0 && len(lib) > 0 {
			src = lib[r.IntN(len(lib))]
		} else {
			g := newGen(r, lintOpt(i))
			m := g.program()
			if i%2 == 0 {
				ioify(r, m, map[string]bool{}, g.strLit)
			}
			src = m.Source()
		}
		t, err := toToks(src)
		if err != nil {
			return
		}
		for k := 0; k < 4; k++ {
			x := editTokens(r, t)
			if k == 3 {
				p := r.IntN(len(src) + 1)
				x = src[:p] + string([]byte{byte(r.IntN(256))}) + src[min(len(src), p+r.IntN(3)):]
			}
			if !c.total(s, fmt.Sprintf("mutants:%d", i), one(x), "main.tsh") {
				return
			}
		}
	})
	// Import graphs: every directed graph over three files.
	spell := []string{"%s", "./%s", "d/../%s", "../src/%s", "%s"}
	c.each("graphs", 512*c.pick(2, 12), func(s *Slot, i int, r *rand.Rand) {
		names := []string{"main.tsh", "b.tsh", "d/c.tsh"}
		files := map[string]string{"d/x": "", "src/y": ""}
		for k, n := range names {
			t := ""
			for j, o := range names {
				if i%512>>(3*k+j)&1 == 1 {
					rel := relPath(n, o)
					if k < 2 {
						rel = fmt.Sprintf(spell[r.IntN(len(spell))], rel)
					}
					t += fmt.Sprintf("    a%d \"%s\"\n", j, rel)
				}
			}
			if t != "" {
				t = "import (\n" + t + ")\n"
			}
			t += "func F() int {\n    return 1\n}\n"
			for j := range names {
				if i%512>>(3*k+j)&1 == 1 && r.IntN(2) == 0 {
					t += fmt.Sprintf("print(a%d.F())\n", j)
				}
			}
			if i%2 == 0 {
				t += fmt.Sprintf("print(\"%s\")\n", n)
			}
			files[n] = t
		}
		c.count("import graphs", 1)
		c.total(s, fmt.Sprintf("graphs:%d", i), files, "main.tsh")
	})
	// Random graphs of more files, some of which are missing.
	c.each("webs", c.pick(300, 5000), func(s *Slot, i int, r *rand.Rand) {
		n := 2 + r.IntN(12)
		files := map[string]string{}
		for k := 0; k < n; k++ {
			t := "import (\n"
			for e := r.IntN(5); e > 0; e-- {
				to := r.IntN(n + 1)
				if i%2 == 0 {
					to = min(k+1+r.IntN(3), n)
				}
				t += fmt.Sprintf("    m%d \"f%d\"\n", e, to)
			}
			t += ")\nfunc F() {\n}\n"
			if r.IntN(10) > 0 || k == 0 {
				files[fmt.Sprintf("f%d", k)] = t
			}
		}
		c.count("import graphs", 1)
		c.total(s, fmt.Sprintf("webs:%d", i), files, "f0")
	})
	// Layered graphs with many paths.
	c.each("layers", 6, func(s *Slot, i int, r *rand.Rand) {
		files := map[string]string{}
		n := []int{4, 8, 16, 24, 32, 40}[i]
		for k := 0; k < n; k++ {
			for v := 0; v < 2; v++ {
				t := fmt.Sprintf("import (\n    a \"l%d_0\"\n    b \"l%d_1\"\n)\nfunc F() int {\n    return a.F() + b.F() + %d\n}\n", k+1, k+1, v)
				if k == n-1 {
					t = fmt.Sprintf("func F() int {\n    return %d\n}\n", v)
				}
				files[fmt.Sprintf("l%d_%d", k, v)] = t
			}
		}
		files["main.tsh"] = "import a \"l0_0\"\nprint(a.F())\n"
		c.total(s, fmt.Sprintf("layers:%d", i), files, "main.tsh")
	})
	// Import targets of every kind.
	targets := []string{"", ".", "..", "/", "d", "d/", "./d", "missing", "missing.tsh", "d/missing.tsh", "missing/x.tsh", "b.tsh/x", "locked", "empty", "binary", "b.tsh", "B.tsh", "b", " b.tsh", "b.tsh ", "b\\n.tsh", "b\\x00.tsh", "\\xff", strings.Repeat("x", 300), strings.Repeat("x/", 3000), "*", "~", "$HOME", "strings", "os", "strings.tsh", "Strings", "../std/strings", "nonexistentstd", "a b", "loop", "dangling", "main.tsh", "./main.tsh", "../src/main.tsh", "C:\\\\x", "http://x/y", "ä", "\\\"", "crlf", "bom", "d/../b.tsh", "unterminated", "onlyimport", "selfish"}
	c.each("targets", len(targets)*6, func(s *Slot, i int, r *rand.Rand) {
		t := targets[i%len(targets)]
		form := []string{"import \"%s\"\n", "import a \"%s\"\na.F()\n", "import (\n    \"%s\"\n)\n", "import (\n    a \"%s\"\n    b \"%s\"\n)\na.F()\nb.F()\n", "import (\n    a \"b.tsh\"\n    c \"%s\"\n)\na.F()\n", "import a `%s`\na.F()"}[i/len(targets)]
		files := map[string]string{"main.tsh": strings.ReplaceAll(form, "%s", t), "b.tsh": "func F() {\n}\n", "empty": "", "binary": "\x00\xff\xfe", "d/x.tsh": "", "locked": "x", "crlf": "func F() {\r\n}\r\n", "bom": "\xef\xbb\xbffunc F() {\n}\n", "unterminated": "func F() {\n", "onlyimport": "import", "selfish": "import s \"selfish\"\n"}
		p := s.writeSources(files, "main.tsh")
		os.Symlink("loop", filepath.Join(filepath.Dir(p), "loop"))
		os.Symlink("nowhere", filepath.Join(filepath.Dir(p), "dangling"))
		c.count("import targets", 1)
		c.totalAt(s, fmt.Sprintf("targets:%d", i), p, files)
	})
	// Main paths of every kind.
	mains := []string{"", ".", "..", "/", "d", "d/", "missing", "main.tsh/", "main.tsh/x", "loop", "dangling", "empty", "ä", "a\x00b", strings.Repeat("y", 5000), "./main.tsh", "d/../main.tsh", " main.tsh", "no newline"}
	c.each("paths", len(mains), func(s *Slot, i int, r *rand.Rand) {
		p := s.writeSources(map[string]string{"main.tsh": "print(1)\n", "empty": "", "d/x": "", "no newline": "print(1)"}, "main.tsh")
		d := filepath.Dir(p)
		os.Symlink("loop", filepath.Join(d, "loop"))
		os.Symlink("nowhere", filepath.Join(d, "dangling"))
		m := mains[i]
		if m != "" && m[0] != '/' && m[0] != '.' {
			m = d + "/" + m
		}
		c.count("main paths", 1)
		c.totalAt(s, fmt.Sprintf("paths:%d", i), m, nil)
	})
	// Growth.
	sizes := []int{10, 100, 900, 1100, 5000, 30000}
	if c.thorough() {
		sizes = append(sizes, 200, 990, 1000, 1001, 2500, 9000, 10001, 60000)
	}
	c.each("growth", len(repetitions)*len(sizes), func(s *Slot, i int, r *rand.Rand) {
		rep, n := repetitions[i/len(sizes)], sizes[i%len(sizes)]
		if !rep.deep {
			n = n / 5
		}
		t := rep.f(n)
		c.count("repetition: "+rep.what, 1)
		kase := fmt.Sprintf("growth:%d (%s x %d)", i, rep.what, n)
		c.total(s, kase, one(t), "main.tsh")
		if n < 3000 {
			c.total(s, kase, one("func wrap() int {\n"+t+"\nreturn 1\n}\nprint(wrap())\n"), "main.tsh")
		}
	})
	// Chains of imports.
	c.each("chains", 4, func(s *Slot, i int, r *rand.Rand) {
		n := []int{10, 100, 400, 1200}[i]
		files := map[string]string{}
		for k := 0; k < n; k++ {
			files[fmt.Sprintf("f%d", k)] = fmt.Sprintf("import a \"f%d\"\nfunc F() int {\n    return a.F() + 1\n}\n", k+1)
		}
		files[fmt.Sprintf("f%d", n)] = "func F() int {\n    return 1\n}\n"
		files["main.tsh"] = "import a \"f0\"\nprint(a.F())\n"
		c.total(s, fmt.Sprintf("chains:%d", i), files, "main.tsh")
	})
}

// corpusTotal runs the regression inputs: regress/C13/NAME.tsh and regress/C13/NAME/main.tsh.
func (c *Ctx) corpusTotal() {
	l, _ := filepath.Glob(filepath.Join(c.Verif, "regress", "C13", "*.tsh"))
	m, _ := filepath.Glob(filepath.Join(c.Verif, "regress", "C13", "*", "main.tsh"))
	l = append(l, m...)
	c.each("corpus", len(l), func(s *Slot, i int, r *rand.Rand) {
		c.count("regression inputs", 1)
		c.totalAt(s, "corpus:"+l[i], l[i], nil)
	})
}
