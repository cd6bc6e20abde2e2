package main

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strings"
)

func init() {
	checks["C12"] = check{run: runC12,
		rule: "programs (templates with every construct, construct nestings, generated programs with file, input and command builtins, linked programs, examples of the repository, invalid programs from token edits and type and scope corruptions) are transpiled in their original layout and in others: every single layout change at every token gap and line break (blank, tab, no blank, block comments with and without line break, line comment, blank and comment lines, trailing blanks, CRLF, final newline, leading blanks), and random combinations of them. Acceptance and the bytes of both scripts must be the same. Distinct = distinct relaid source.",
		asm:  []string{"layout changes keep the token sequence as given by the reference tokenizer (a minus sign may be joined with a following number only behind an operand)"}}
}

// layoutBase is a program in its original layout.
type layoutBase struct {
	kase  string
	files map[string]string
	toks  []Tok // of main.tsh
	outs  []Out
}

func (c *Ctx) layoutBase(s *Slot, kase string, files map[string]string) *layoutBase {
	t, err := toToks(files["main.tsh"])
	if err != nil {
		return nil
	}
	resp := s.transpile(s.writeSources(files, "main.tsh"))
	if resp.Slow || resp.Dead != "" {
		return nil // judged by C13
	}
	b := &layoutBase{kase, files, t, resp.Outs}
	for _, o := range resp.Outs {
		if o.Panic != "" {
			return nil
		}
	}
	if resp.Outs[0].IsErr {
		c.count("rejected base programs", 1)
	} else {
		c.count("accepted base programs", 1)
	}
	return b
}

// same compares another layout of the main file with the base.
func (c *Ctx) sameLayout(s *Slot, b *layoutBase, kase, what, src string) bool {
	mustWrite(filepath.Join(s.dir, "src", "main.tsh"), src)
	resp := s.transpile(filepath.Join(s.dir, "src", "main.tsh"))
	c.eval(1)
	c.count("layout: "+what, 1)
	c.seen(src)
	if resp.Slow {
		c.inconclusive(kase + ": " + resp.Dead)
		return true
	}
	bad := ""
	if resp.Dead != "" {
		bad = "transpilation: " + resp.Dead
	} else {
		for i, o := range resp.Outs {
			t := []string{"bash", "batch"}[i]
			w := b.outs[i]
			switch {
			case o.Panic != "":
				bad = "transpilation to " + t + " panics"
			case o.IsErr && !w.IsErr:
				bad = "the " + t + " target rejects the other layout: " + o.Err
			case !o.IsErr && w.IsErr:
				bad = "the " + t + " target accepts the other layout, the original is rejected: " + w.Err
			case !o.IsErr && o.Text != w.Text:
				bad = "the " + t + " script differs: " + firstDiff(o.Text, w.Text)
			}
			if bad != "" {
				break
			}
		}
	}
	if bad == "" {
		return true
	}
	d := map[string]string{"other layout": src, "other layout quoted": fmt.Sprintf("%q", src)}
	for n, t := range b.files {
		d["source "+n] = t
	}
	c.violate(kase, "layout change ("+what+"): "+bad, d)
	return false
}

var gapFills = []struct{ what, text string }{
	{"blank", " "}, {"tab", "\t"}, {"blanks", "   \t "}, {"block comment", "/**/"}, {"block comment", " /* a */ "}, {"block comment with line break", "/* a\n b */"}, {"comment with code", "/* \" ` // { */"}, {"comment with stars", "/***/"}, {"comment with slashes", "/*/ x /*/"}, {"comment with a line comment", "/*// x*/"}, {"comment with quotes", "/*'\"`*/"}, {"two comments", "/*a*//*b*/"},
	{"block comment with two line breaks", "/*\n\n*/"}, {"block comment with many line breaks", " /* a\n\n\t// b\n\n c */ "}, {"block comment with CRLF", "/* a\r\n b\r\n*/"}, {"two comments with line breaks", "/*a\n*//*b\n*/"}, {"blank in front of a comment", " /*\n*/"}, {"comment and tab", "/*\n\n\n*/\t"},
}

var lineFills = []struct{ what, text string }{
	{"blank line", "\n"}, {"blank lines", "\n\n\n"}, {"line of blanks", "  \t\n"}, {"comment line", "// x\n"}, {"comment line with code", "    // \" ` /* { x := 1\n"}, {"block comment line", "/* x */\n"}, {"block comment lines", "  /* x\n\n y */  \n"}, {"empty comment line", "//\n"}, {"block comment in front of the line", "/* x */ "}, {"block comment in front of the line", "/* x\n*/"}, {"block comment in front of the line", "/*\n\n x\n*/\t"}, {"block comment lines and blank lines", "\n/*\n\n*/\n\n//\n\n"}, {"comment lines", "//\n//\n\t//\n"}, {"two block comments in a line", "/* a */ /* b */\n"}, {"indentation", "\t"}, {"indentation", "     "},
}

var endFills = []struct{ what, text string }{
	{"trailing blank", " "}, {"trailing blanks", "\t  "}, {"line comment", "// x"}, {"line comment", " // \"x ` /* }"}, {"block comment at the end of the line", " /* x */"}, {"block comment with line break at the end of the line", " /* x\n */"}, {"block comment with line breaks at the end of the line", " /* x\n\n y */"}, {"block and line comment", "/**/ // x"}, {"block comment and blanks at the end of the line", "/*\n\n*/ \t"}, {"empty line comment", "//"}, {"line comment with backslash", "// x \\"},
}

// single applies every layout change at every position of a program. sel thins out the positions.
func (c *Ctx) singleLayouts(s *Slot, b *layoutBase, r *rand.Rand, budget int) {
	// The text of every token and the gaps in house style.
	lead := make([]string, len(b.toks)+1)
	for i, t := range b.toks {
		if i == 0 || t.K == 'l' || b.toks[i-1].K == 'l' {
			continue
		}
		if t.Sp || needSep(b.toks[i-1].S, t.S) {
			lead[i] = " "
		}
	}
	build := func(at int, fill string, after bool, drop bool) func() string {
		return func() string {
			x := strings.Builder{}
			for i, t := range b.toks {
				if i == at {
					if drop {
					} else if after {
						x.WriteString(lead[i] + fill)
					} else {
						x.WriteString(fill + lead[i])
					}
				} else {
					x.WriteString(lead[i])
				}
				x.WriteString(t.S)
			}
			if at == len(b.toks) {
				x.WriteString(fill)
			}
			return x.String()
		}
	}
	ok := true
	// About budget changes are tried (0: all).
	pct := 1000
	if budget > 0 {
		pct = budget * 1000 / (14*len(b.toks) + 1)
	}
	try := func(what string, src func() string) {
		if ok && (pct >= 1000 || r.IntN(1000) < pct) {
			ok = c.sameLayout(s, b, b.kase, what, src())
		}
	}
	plain := build(-1, "", false, false)()
	fix := func(what, src string) {
		if ok {
			ok = c.sameLayout(s, b, b.kase, what, src)
		}
	}
	if !c.sameLayout(s, b, b.kase, "house style", plain) {
		return
	}
	n := len(b.toks)
	for i := 0; i <= n && ok; i++ {
		lineStart := i == 0 || b.toks[i-1].K == 'l'
		lineEnd := i == n || b.toks[i].K == 'l'
		if lineStart {
			for _, f := range lineFills {
				if i == n && (strings.HasSuffix(f.what, "front of the line") || f.what == "indentation") {
					continue
				}
				try(f.what, build(i, f.text, false, false))
				if i < n && b.toks[i].K == 'l' {
					continue
				}
			}
			if i == n {
				try("comment without newline at the end of the file", build(i, "// x", false, false))
				try("block comment without newline at the end of the file", build(i, "/* x */", false, false))
				try("blanks at the end of the file", build(i, "  \t", false, false))
			}
		}
		if lineEnd && !(i == n && lineStart) {
			for _, f := range endFills {
				try(f.what, build(i, f.text, false, false))
			}
		}
		if !lineStart && !lineEnd {
			if lead[i] != "" && !needSep(b.toks[i-1].S, b.toks[i].S) {
				try("blank omitted", build(i, "", false, true))
			}
			// A blank may be omitted between an operand and a subtraction.
			if i >= 2 && b.toks[i-1].S == "-" && b.toks[i].K == 'n' && !strings.HasPrefix(b.toks[i].S, "-") && operandEnd(b.toks[i-2]) && !b.outs[0].IsErr {
				try("blank behind minus omitted", build(i, "", false, true))
			}
			for _, f := range gapFills {
				if b.toks[i-1].S == "/" && strings.HasPrefix(f.text, "/") {
					continue
				}
				after := lead[i] != "" && r.IntN(2) == 0
				if lead[i] == "" && needSep(b.toks[i-1].S, b.toks[i].S) {
					continue
				}
				try(f.what, build(i, f.text, after, false))
				if lead[i] != "" {
					// The comment or blank replaces the separating blank.
					try(f.what+" instead of blank", func() string {
						lead[i] = ""
						defer func() { lead[i] = " " }()
						return build(i, f.text, after, false)()
					})
				}
			}
		}
	}
	fix("CRLF", toCRLF(plain))
	fix("CRLF and final newline omitted", strings.TrimSuffix(toCRLF(plain), "\r\n"))
	fix("final newline omitted", strings.TrimSuffix(plain, "\n"))
	fix("final newlines", plain+"\n\n")
	commented := strings.ReplaceAll(plain, "\n", " // c\n\n")
	if !strings.ContainsAny(plain, "`\"") { // (The line break might stand within a literal.)
		for _, pct := range []int{30, 70, 95} {
			fix("comments, blank lines and mixed line ends", mixedEnds(r, "/* c */\n\n"+commented, pct))
		}
	}
	fix("mixed line ends", mixedEnds(r, plain, 50))
	fix("leading blank lines", "\n \n"+plain)
	fix("leading CRLF", "\r\n\r\n"+toCRLF(plain))
}

// mixedEnds converts some line ends.
func mixedEnds(r *rand.Rand, s string, pct int) string {
	b := strings.Builder{}
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' && (i == 0 || s[i-1] != '\r') && r.IntN(100) < pct {
			b.WriteByte('\r')
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

func (c *Ctx) randomLayouts(s *Slot, b *layoutBase, r *rand.Rand, n int) {
	for k := 0; k < n; k++ {
		o := randLayoutOpt(r)
		o.keepSign = b.outs[0].IsErr
		if !c.sameLayout(s, b, fmt.Sprintf("%s/%d", b.kase, k), "random", relayout(r, b.toks, o)) {
			return
		}
	}
}

// invalidPrograms are rejected programs of every kind.
func editTokens(r *rand.Rand, toks []Tok) string {
	t := append([]Tok{}, toks...)
	for k := 1 + r.IntN(2); k > 0 && len(t) > 1; k-- {
		i := r.IntN(len(t))
		switch r.IntN(5) {
		case 0:
			t = append(t[:i:i], t[i+1:]...)
		case 1:
			t = append(t[:i+1:i+1], t[i:]...)
		case 2:
			j := r.IntN(len(t))
			t[i], t[j] = t[j], t[i]
		case 3:
			t = append(t[:i:i], append([]Tok{{S: "\n", K: 'l'}}, t[i:]...)...)
		case 4:
			w := []string{"if", "case", "{", "}", "(", ")", ",", ":", "func", "1", "x", "\"a\"", ":=", "=", "+", "import", "default", ";", "[", "]", "else", "return", "|", "."}
			t[i] = Tok{S: w[r.IntN(len(w))], K: 'o'}
		}
	}
	return house(t)
}

func runC12(c *Ctx) {
	srcs := []string{}
	for _, t := range renameTemplates {
		srcs = append(srcs, t.src)
	}
	sg, _ := singles()
	for i := 0; i < len(sg); i += 8 {
		srcs = append(srcs, sg[i], sg[i+1])
	}
	srcs = append(srcs, layoutTemplates...)
	srcs = append(srcs, stdUses()...)
	fs, _ := filepath.Glob(filepath.Join(repoDir(), "examples", "*.tsh"))
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		srcs = append(srcs, string(b))
	}
	for _, d := range []string{"C12", "C01", "C02", "C03", "C04", "C07", "C16"} {
		l, _ := filepath.Glob(filepath.Join(c.Verif, "regress", d, "*.tsh"))
		for _, f := range l {
			b, _ := os.ReadFile(f)
			srcs = append(srcs, string(b))
		}
	}
	c.each("single", len(srcs), func(s *Slot, i int, r *rand.Rand) {
		budget := 0
		if (len(srcs[i]) > 3000 || strings.Contains(srcs[i], "import")) && !c.thorough() {
			budget = 150
		}
		kase := fmt.Sprintf("single:%d", i)
		b := c.layoutBase(s, kase, map[string]string{"main.tsh": srcs[i]})
		if b == nil {
			return
		}
		c.singleLayouts(s, b, r, budget)
		c.randomLayouts(s, b, r, 20)
	})
	// The same for files which import others: the layout of the main file only.
	c.each("linked", c.pick(150, 2500), func(s *Slot, i int, r *rand.Rand) {
		p := linkProgram(r, i%2 == 0)
		b := c.layoutBase(s, fmt.Sprintf("linked:%d", i), p.files())
		if b == nil {
			return
		}
		c.singleLayouts(s, b, r, 40)
		c.randomLayouts(s, b, r, 8)
	})
	// Layout of imported files: as names contain a digest of the file, the behaviour is compared.
	c.each("imported", c.pick(150, 2500), func(s *Slot, i int, r *rand.Rand) { c.importedLayouts(s, i, r) })
	ne := nestings(2)
	c.each("nest", c.pick(120, len(ne)), func(s *Slot, i int, r *rand.Rand) {
		src := ne[r.IntN(len(ne))]
		if c.thorough() {
			src = ne[i]
		}
		b := c.layoutBase(s, fmt.Sprintf("nest:%d", i), map[string]string{"main.tsh": src})
		if b == nil {
			return
		}
		c.singleLayouts(s, b, r, c.pick(150, 500))
		c.randomLayouts(s, b, r, 10)
	})
	c.each("gen", c.pick(500, 10000), func(s *Slot, i int, r *rand.Rand) {
		g := newGen(r, lintOpt(i))
		m := g.program()
		if i%2 == 0 {
			ioify(r, m, map[string]bool{}, g.strLit)
		}
		b := c.layoutBase(s, fmt.Sprintf("gen:%d", i), map[string]string{"main.tsh": m.Source()})
		if b == nil {
			return
		}
		c.sample("gen", relayout(r, b.toks, randLayoutOpt(r)))
		c.singleLayouts(s, b, r, c.pick(50, 100))
		c.randomLayouts(s, b, r, 8)
	})
	// Programs which are mostly rejected.
	c.each("edited", c.pick(3000, 50000), func(s *Slot, i int, r *rand.Rand) {
		src := srcs[r.IntN(len(renameTemplates)+len(layoutTemplates)+80)%len(srcs)]
		t, err := toToks(src)
		if err != nil {
			return
		}
		b := c.layoutBase(s, fmt.Sprintf("edited:%d", i), map[string]string{"main.tsh": editTokens(r, t)})
		if b == nil {
			return
		}
		c.randomLayouts(s, b, r, 6)
		c.singleLayouts(s, b, r, 20)
	})
}

func (c *Ctx) importedLayouts(s *Slot, i int, r *rand.Rand) {
	for try := 0; try < 20; try++ {
		p := linkProgram(r, false)
		if len(p.mods) < 2 || p.twins {
			continue
		}
		sel := selections(r, 4)[3]
		in := &Interp{Bits: 32, Max: 600, NoWrap: true, AppFn: simpleApp, Stdin: append([]string{}, sel...)}
		if ok, _ := in.Run(p.mods[0], p.mods); !ok {
			continue
		}
		files := p.files()
		pr := &Prog{Files: files, Main: "main.tsh", Want: Want{Out: in.Out.String(), Exit: in.Exit}, Stdin: strings.Join(sel, "\n") + "\n", Tgt: onBash}
		if v := s.outcome(pr); v.Bad != "" || v.Inc != "" {
			c.count("base programs which behave differently from the reference", 1)
			return
		}
		for k := 0; k < 3; k++ {
			nf := map[string]string{}
			for _, m := range p.mods {
				nf[m.File] = relayout(r, printModule(m), randLayoutOpt(r))
			}
			q := *pr
			q.Files = nf
			c.seen(nf)
			c.count("layout: imported files", 1)
			if !c.judge(s, fmt.Sprintf("imported:%d/%d", i, k), &q, nil) {
				return
			}
		}
		return
	}
}

// layoutTemplates are programs in which line breaks matter.
var layoutTemplates = []string{
	"import (\n    \"strings\"\n    s \"strings\"\n)\nprint(s.Index(\"a\", \"b\") - 1)\nprint(strings.Count(\"a\", \"b\"))\n",
	"import \"strings\"\nx := 3\nx = x - 1\nx -= 1\ny := -1\nprint(x - -1, -2 - 3, x - 1 - 2, y)\nfor i := x - 1; i > -3; i-- {\n    print(i - 1)\n}\nl := []int{-1, x - 1, 2 - 3}\nprint(l[x - 1], l[len(l) - 1])\n",
	"switch 1 {\ncase 1:\n    print(1)\ncase 2:\n    print(2)\ndefault:\n    print(3)\n}\nswitch {\n}\nswitch 2 {\ndefault:\n}\nswitch {\ncase true:\ncase false:\n    print(1)\n}\n",
	"if true {\n} else if false {\n    print(1)\n} else {\n}\nfor {\n    break\n}\nfunc f {\n}\nfunc g() {\n}\nfunc h(a int, b []string) (int, string) {\n    return a, b[0]\n}\n",
	"x := \"a\nb\"\ny := `c\n  d`\nprint(x, y, \"// no comment\", `/* no comment */`, \"\\\"/*\")\n",
	"o, e, c := @echo(\"a\", \"b\") | @cat() | @\"tr a\"(\"-d\")\n@ls()\n@ls(\"-l\") | @wc()\nprint(o, e, c)\n",
	"var a, b int\nvar c int = 1\nvar d, e = 1, \"x\"\nf, g := 1, 2\na, b = b, a\nf++\ng--\na += 1\nb *= 2\nprint(a, b, c, d, e, f, g)\n",
	"a := []string{}\nvar b []int\nb[0] = 1\nn := copy(b, []int{1, 2})\nfor i, v := range b {\n    print(i, v)\n}\nfor i := range \"abc\" {\n    print(i)\n}\nfor i, v := range(b) {\n    print(i, v)\n}\nprint(len(a), n)\n",
	"s := \"hello\"\nprint(s[1], s[1:3], s[:2], s[2:], s[:], s[len(s) - 1:], s[0:len(s) - 1])\nprint(!true, !!false, !(1 == 2) && 2 > 1 || false)\nprint((1 + 2) * 3 % 4 / 1)\n",
	"write(\"f\", \"x\")\nwrite(\"f\", \"x\", true)\nprint(read(\"f\"), exists(\"f\"), input(), input(\"p\"), itoa(3))\npanic(\"end\")\n",
	"\n\n",
	"import \"strings\"\n",
	"import s \"strings\"",
	"import (\n    \"strings\"\n)\n",
	"import (\n    s \"strings\"\n    \"os\"\n)",
	"import \"strings\"\nprint(strings.Contains(\"a\", \"a\"))\n",
	"import \"strings\"\nimport \"os\"\n",
	"import (\n)\n",
	"import\n",
	"if true {\n}",
	"func f() {\n}\n",
	"func f() int {\n    return 1\n}",
	"x := 1",
	"switch 1 {\ncase 1:\n}",
	"",
	"// only a comment",
	"/* only a comment */\n",
	"print(1)",
	"x := 1\nfor ; x < 3; x++ {\n    print(x)\n}\nfor x < 5 {\n    x++\n    if x == 4 {\n        continue\n    }\n}\nfor i := 0; i < 2; {\n    i++\n}\n",
}
