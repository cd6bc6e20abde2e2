package main

import (
	"fmt"
	"math/rand/v2"
	"regexp"
	"sort"
	"strings"
)

func init() {
	checks["C10"] = check{run: runC10,
		rule: "base programs (templates with every construct and builtin, evaluation templates, generated programs, linked programs) whose identifiers are renamed injectively: single identifiers to every word of the scripts emitted for the program, to derived shapes (mangled locals, prefixes, case variants, escapes) and to a pool of shell builtins, keywords, special and environment variables and compiler-owned names; all identifiers at once from those pools; case variants of one stem; permutations of the program's own identifiers; renamings repeated with the words of the renamed script. Stdout, exit status and stderr of the renamed bash script (and of the batch script in the cmd.exe model) must equal those of the original, or both targets report an error. Distinct = distinct renamed program.",
		asm:  []string{"/bin/bash 5.2 of the sandbox stands for the shell", "the model of cmd.exe represents cmd.exe", "a variable and a function never get the same name"}}
}

var reservedWords = setOf("bool int string error import as var func return if else switch case default for range break continue true false nil len print panic input copy itoa exists read write")

var shellWords = strings.Fields(`alias bg bind builtin caller cd command compgen complete compopt continue declare dirs disown echo enable eval exec exit export fc fg getopts hash help history jobs kill let local logout mapfile popd printf pushd pwd readarray readonly return set shift shopt source suspend test times trap type typeset ulimit umask unalias unset wait
 then elif fi done esac do while until select function time coproc in
 PATH HOME IFS PWD OLDPWD SHELL USER UID EUID PPID RANDOM SRANDOM SECONDS LINENO REPLY OPTIND OPTARG OPTERR BASH BASHPID BASHOPTS BASH_ENV BASH_VERSION BASH_SOURCE BASH_COMMAND BASH_SUBSHELL BASH_ARGC BASH_ARGV ENV FUNCNAME GROUPS DIRSTACK PIPESTATUS HOSTNAME HOSTTYPE MACHTYPE OSTYPE SHELLOPTS SHLVL POSIXLY_CORRECT LANG LC_ALL LD_PRELOAD TMOUT PS1 PS2 PS4 PROMPT_COMMAND EPOCHSECONDS EPOCHREALTIME COLUMNS LINES TERM TMPDIR MAPFILE COPROC HISTCMD CDPATH GLOBIGNORE FIGNORE EXECIGNORE TIMEFORMAT _ __ ___
 ls cat sed awk grep sh bash tr cut head tail wc sort env sleep
 ERRORLEVEL errorlevel CMDCMDLINE CMDEXTVERSION DATE TIME date time COMSPEC PATHEXT TEMP TMP OS SystemRoot WINDIR PROMPT NUL CON AUX PRN cls call goto rem setlocal endlocal equ neq lss leq gtr geq not defined exist errorlevel if_ else_ EOF eof end End END main Main init
 _h _h0 _h1 _h2 _h3 _h4 _h5 _h6 _h7 _h8 _h9 _h10 _h11 _h12 _h20 h0 _rv0 _rv1 _rv2 _rv _fa0 _fa1 _fa2 _fa _fv0 _fv1 _fv2 _fv _dv1 _dv2 _dv3 _dv _dvc _dvc1 _s _e _te _dq _a _i _i0 _i1 _w0 _f0 _sub _sh _sih _sch _sah _slh _stsh _stlh _ach _frh _fwh _ech _len _l _r _n _c _v _x _p _q _k _j _tmp _eo _eo_f _ret _ret_f fn v f fn_ v_ f0 f1 f2 f0_ f1_ f0_v f1_v v_v fn_fn f_v fv_ a0 x0 x_ _x x__ __x
 a b c i j k n s x y A B C I X aB Ab AB ab a_b a_B A_b a__b _a_b a_0b a_0 _0 _00 a0b a1 a01 A_ _A _a__ a_ a__ nilx truex falsex printx lenx iff forr funcs vars imports cases defaultx rangex breakx returns inputs reads writes itoas copyx panics existsx True False Nil Print Len If For Func Var String Int Bool`)

var wordRe = regexp.MustCompile(`[A-Za-z_][A-Za-z0-9_]*`)

func wordsOf(texts ...string) []string {
	m := map[string]bool{}
	for _, t := range texts {
		for _, w := range wordRe.FindAllString(t, -1) {
			if !reservedWords[w] && len(w) < 60 {
				m[w] = true
			}
		}
	}
	l := []string{}
	for w := range m {
		l = append(l, w)
	}
	sort.Strings(l)
	return l
}

// shapes are names derived from a name.
func shapes(n string) []string {
	l := []string{"v_" + n, "fn_" + n, "_" + n, "__" + n, n + "_", n + "__", n + "_0", n + "0", n + "1", "f_" + n, "v" + n, strings.ToUpper(n), strings.ToLower(n), strings.ToUpper(n[:1]) + n[1:], strings.ToLower(n[:1]) + n[1:], "_eo_" + n, "_ret_" + n, "_eo_fn_" + n, "_ret_fn_" + n, "_h_" + n, n + n, "_dv1_" + n, "_dv_" + n, n + "_len", "_" + n + "_0", n + "_1", "_v_" + n, "v__" + n, "fn__" + n}
	for k := 0; k < 5; k++ {
		l = append(l, fmt.Sprintf("f%d_%s", k, n), fmt.Sprintf("f%d_v_%s", k, n), fmt.Sprintf("f%d%s", k, n), fmt.Sprintf("f%d__%s", k, n), fmt.Sprintf("_f%d_%s", k, n))
	}
	// Every upper case letter as escape and vice versa.
	b := ""
	for i := 0; i < len(n); i++ {
		if c := n[i]; c >= 'A' && c <= 'Z' {
			b += "_" + string(c+32)
		} else if c == '_' {
			b += "__"
		} else {
			b += string(c)
		}
	}
	l = append(l, b)
	for i := 0; i < len(n) && i < 4; i++ {
		if c := n[i]; c >= 'a' && c <= 'z' {
			l = append(l, n[:i]+string(c-32)+n[i+1:], n[:i]+"_"+n[i:])
		}
	}
	return l
}

// userNames are the identifiers of a program text which might be renamed.
func userNames(toks []RTok) []string {
	m := map[string]bool{}
	for i, t := range toks {
		if renamable(toks, i) {
			m[t.Text] = true
		}
	}
	for i, t := range toks {
		if t.K == 'w' && m[t.Text] && (aliasAt(toks, i) || i > 0 && toks[i-1].Text == "@") {
			delete(m, t.Text)
		}
	}
	l := []string{}
	for n := range m {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}

// aliasAt tells if the token is an alias of an import (in front of a dot or a path).
func aliasAt(toks []RTok, i int) bool {
	return i+1 < len(toks) && (toks[i+1].Text == "." || toks[i+1].K == 's' && (i == 0 || toks[i-1].K == 'l' || toks[i-1].Text == "import" || toks[i-1].Text == "("))
}

func renamable(toks []RTok, i int) bool {
	t := toks[i]
	return t.K == 'w' && !reservedWords[t.Text] && (i == 0 || toks[i-1].Text != "@" && toks[i-1].Text != ".") && !aliasAt(toks, i)
}

// renamed applies a renaming. member yields the renaming of a name of an imported file.
func renamed(src string, toks []RTok, σ map[string]string, member func(alias, name string) string) string {
	b := strings.Builder{}
	pos := 0
	for i, t := range toks {
		n := ""
		if renamable(toks, i) {
			n = σ[t.Text]
		} else if member != nil && i > 1 && toks[i-1].Text == "." && t.K == 'w' {
			n = member(toks[i-2].Text, t.Text)
		}
		if n != "" {
			b.WriteString(src[pos:t.Pos])
			b.WriteString(n)
			pos = t.Pos + len(t.Text)
		}
	}
	b.WriteString(src[pos:])
	return b.String()
}

// renameBase is a program together with its behaviour.
type renameBase struct {
	src  string
	toks []RTok
	own  []string
	prog *Prog
	v    Verdict
	gen  string
}

// base runs the original program.
func (c *Ctx) renameBase(s *Slot, src string, want Want, tgt Target, stdin string, fs bool) *renameBase {
	t, err := tokenize(src)
	if err != nil {
		panic(err)
	}
	b := &renameBase{src: src, toks: t, own: userNames(t)}
	b.prog = &Prog{Files: map[string]string{"main.tsh": src}, Main: "main.tsh", Want: want, Tgt: tgt, Stdin: stdin}
	if fs {
		b.prog.Dir = s.freshDir("ren")
	}
	b.v = s.outcome(b.prog)
	if b.v.Bad != "" || b.v.Inc != "" {
		// Judged by other checks.
		c.count("base programs which behave differently from the reference", 1)
		return nil
	}
	return b
}

func (c *Ctx) renameCase(s *Slot, kase string, b *renameBase, σ map[string]string) *Verdict {
	text := renamed(b.src, b.toks, σ, nil)
	c.seen(text)
	c.eval(1)
	p := *b.prog
	p.Files = map[string]string{"main.tsh": text}
	if p.Dir != "" {
		p.Dir = s.freshDir("ren")
	}
	return c.renameRun(s, kase, &p, σ, b.prog.Files)
}

func (c *Ctx) renameRun(s *Slot, kase string, p *Prog, σ map[string]string, orig map[string]string) *Verdict {
	v := s.outcome(p)
	c.count("renamed scripts executed", v.Runs)
	c.count("identifiers renamed", len(σ))
	if v.Inc != "" {
		c.inconclusive(kase + ": " + v.Inc)
		return nil
	}
	if strings.HasPrefix(v.Bad, "valid program is rejected") {
		c.count("renamed programs rejected with an error", 1)
		return nil
	}
	if v.Bad != "" {
		l := []string{}
		for a, b := range σ {
			l = append(l, a+" -> "+b)
		}
		sort.Strings(l)
		v.Detail["renaming"] = strings.Join(l, "\n")
		for n, t := range orig {
			v.Detail["original "+n] = t
		}
		c.violate(kase, "after renaming "+clip(strings.Join(l, ", "), 200)+": "+v.Bad, v.Detail)
		return nil
	}
	return &v
}

// complete makes a renaming injective: targets which collide with other names of the program are resolved.
func injective(own []string, σ map[string]string) bool {
	seen := map[string]bool{}
	for _, n := range own {
		t := n
		if x, ok := σ[n]; ok {
			t = x
		}
		if seen[t] {
			return false
		}
		seen[t] = true
	}
	return true
}

// randRenaming renames most names to words of the pool.
func randRenaming(r *rand.Rand, own, pool []string, pct int) map[string]string {
	σ := map[string]string{}
	used := map[string]bool{}
	for _, n := range own {
		used[n] = true
	}
	for _, n := range own {
		if r.IntN(100) >= pct {
			continue
		}
		for try := 0; try < 20; try++ {
			w := ""
			switch r.IntN(6) {
			case 0:
				sh := shapes(own[r.IntN(len(own))])
				w = sh[r.IntN(len(sh))]
			case 1:
				w = shellWords[r.IntN(len(shellWords))]
			case 2:
				sh := shapes(pool[r.IntN(len(pool))])
				w = sh[r.IntN(len(sh))]
			default:
				w = pool[r.IntN(len(pool))]
			}
			if !used[w] && !reservedWords[w] && w != "" {
				used[w] = true
				σ[n] = w
				break
			}
		}
	}
	return σ
}

// renameTemplates use every construct of the language with few names. io: uses files, commands or input.
var renameTemplates = []struct {
	src, stdin, out string
	io              bool
	exit            int
}{
	{src: "alpha := 1\nBeta := \"x\"\ngamma := alpha == 1\nprint(alpha, Beta, gamma)\nalpha += 3\nalpha++\nBeta += \"y\"\nalpha, Beta = alpha * 2, Beta + Beta\nif alpha > 3 && gamma || !gamma {\n    delta := alpha % 4\n    print(delta, alpha, Beta)\n} else {\n    print(0)\n}\nvar eta int\nvar zeta, theta string = \"p\", \"q\"\nprint(eta, zeta, theta, len(Beta), itoa(alpha))\n",
		out: "1 x 1\n2 10 xyxy\n0 p q 4 10\n"},
	{src: "sum := 0\nfunc add(left int, right int) int {\n    local1 := left + right\n    sum = sum + local1\n    return local1\n}\nfunc two(left string) (string, int) {\n    add(1, 2)\n    return left + \"!\", add(3, 4)\n}\nfunc none {\n    sum++\n}\nfirst, second := two(\"a\")\nnone()\nthird := add(add(1, second), 5)\nprint(first, second, third, sum)\n",
		out: "a! 7 13 32\n"},
	{src: "func inner(arg int) int {\n    tmp := arg * 2\n    return tmp\n}\nfunc outer(arg int, tmp int) int {\n    res := inner(arg) + tmp\n    other := inner(tmp)\n    return res * 10 + other + arg\n}\ncount := 0\nfor idx := 0; idx < 3; idx++ {\n    part := outer(idx, count)\n    count += part\n    if part > 50 {\n        break\n    }\n    if idx == 1 {\n        continue\n    }\n    print(idx, part, count)\n}\nprint(count)\n",
		out: "0 0 0\n315\n"},
	{src: "list := []int{1, 2, 3}\nvar words []string\nwords[1] = \"w\"\nfunc change(slice []int, pos int) int {\n    slice[pos] = len(slice) * 10\n    copied := []int{0, 0}\n    amount := copy(copied, slice)\n    return amount + copied[0]\n}\nfunc make1(size int) []int {\n    made := []int{}\n    for run := 0; run < size; run++ {\n        made[run] = run * run\n    }\n    return made\n}\nret := change(list, 4)\nfor key, value := range list {\n    print(key, value)\n}\nfor key := range words {\n    print(key)\n}\nfresh := make1(3)\nprint(ret, len(list), len(words), fresh[2], words[1], len(fresh))\n",
		out: "0 1\n1 2\n2 3\n3 0\n4 30\n0\n1\n6 5 2 4 w 3\n"},
	{src: "text := \"hello\"\nfunc cut(string1 string, from int) string {\n    piece := string1[from:from + 2]\n    return piece + string1[:1] + string1[from:]\n}\nlast := text[4]\nfor pos, char := range text {\n    switch char {\n    case \"l\":\n        print(pos, char)\n    case last:\n        print(\"end\")\n    default:\n        print(char)\n    }\n}\nout := cut(text, 1)\nprint(out, last, len(out))\nswitch {\ncase len(out) > 3:\n    print(\"long\")\n}\n",
		out: "h\ne\n2 l\n3 l\nend\nelhello o 7\nlong\n"},
	{src: "state := 5\nfunc fail(limit int) int {\n    if state > limit {\n        reason := \"too big \" + itoa(state)\n        panic(reason)\n    }\n    return limit\n}\nprint(fail(7))\nstate = 9\nprint(fail(8))\n", out: "7\npanic: too big 9\n", exit: 1},
	{src: "var err error = nil\nfunc check(mark bool, err2 string) (bool, error) {\n    return !mark, err2\n}\nok, err3 := check(false, \"bad\")\nif err3 != nil {\n    print(ok, err3)\n}\nif err == nil {\n    print(\"fine\")\n}\nok, err3 = check(ok, \"\")\nprint(ok, err3 == nil)\nfor {\n    ok = !ok\n    if ok {\n        break\n    }\n}\nfor !ok {\n    ok = true\n}\n",
		out: "1 bad\nfine\n0 1\n"},
	{src: "path := \"f1\"\nfunc store(file string, data string, more bool) string {\n    write(file, data, more)\n    back := read(file)\n    return back\n}\nprint(store(path, \"one\", false))\nprint(store(path, \"two\", true))\nhas := exists(path)\nprint(has, exists(\"f2\"))\nline := input()\nrest := input(\"?\")\nprint(line, rest)\n", stdin: "L1\nL2\n", out: "one\none\ntwo\n1 0\nL1 L2\n", io: true},
	{src: "word := \"v1\"\nfunc run(arg string, num int) (string, int) {\n    got, bad, status := @echo(arg, itoa(num), word)\n    print(bad, status)\n    @printf(\"%s-%s\\n\", arg, word)\n    return got, len(got)\n}\nres, size := run(\"a b\", 3)\nprint(res, size)\n@echo(res, word) | @cat() | @cat()\nres, bad2, code2 := @sh(\"-c\", \"echo x; exit 3\")\nprint(res, bad2, code2)\n", out: " 0\na b-v1\na b 3 v1 8\na b 3 v1 v1\nx  3\n", io: true},
	{src: "import (\n    \"strings\"\n    str \"strings\"\n)\nvalue := \"a,b,c\"\nparts := strings.Split(value, \",\")\nfunc sep(index int) string {\n    before, after, found := str.Cut(value, parts[index])\n    if found {\n        return before + \"|\" + after\n    }\n    return \"\"\n}\nprint(len(parts), sep(1), strings.Repeat(parts[2], 3), str.Index(value, \"c\"))\n", out: "3 a,|,c ccc 4\n"},
	{src: "func many(p1 int, p2 string, p3 int, p4 string, p5 int, p6 string, p7 int, p8 string, p9 int, p10 string, p11 int) (int, string, int) {\n    p1 = p1 + p11\n    return p1, p10 + p2, p3 + p9\n}\nr1, r2, r3 := many(1, \"b\", 3, \"d\", 5, \"f\", 7, \"h\", 9, \"j\", 11)\nprint(r1, r2, r3)\nr3, r2, r1 = many(r1, r2, r3, \"d\", 5, \"f\", 7, \"h\", 9, \"j\", 11)\nprint(r1, r2, r3)\n", out: "12 jb 12\n21 jjb 23\n"},
	{src: "outer1 := 0\nfor one := 0; one < 2; one++ {\n    for two := range []int{1, 2} {\n        for three, four := range \"ab\" {\n            if three == 1 && two == 0 {\n                continue\n            }\n            outer1 += one * 100 + two * 10 + three\n            print(one, two, three, four)\n        }\n    }\n}\nfunc loops(five int) int {\n    six := 0\n    for seven := 0; seven < five; seven += 2 {\n        for six < seven {\n            six++\n            if six == 3 {\n                break\n            }\n        }\n    }\n    return six\n}\nprint(outer1, loops(6))\n",
		out: "0 0 0 a\n0 1 0 a\n0 1 1 b\n1 0 0 a\n1 1 0 a\n1 1 1 b\n342 3\n"},
}

func runC10(c *Ctx) {
	tgtOf := func(io bool) Target {
		if io {
			return onBash
		}
		return onBash | onBatch
	}
	bases := make([]*renameBase, len(renameTemplates))
	words := make([][]string, len(renameTemplates))
	c.each("base", len(renameTemplates), func(s *Slot, k int, r *rand.Rand) {
		t := renameTemplates[k]
		b := c.renameBase(s, t.src, Want{Out: t.out, Exit: t.exit}, tgtOf(t.io), t.stdin, t.io)
		if b == nil {
			c.count(fmt.Sprintf("template %d without behaviour", k), 1)
			return
		}
		bases[k] = b
		w := append(wordsOf(b.v.Bash, b.v.Batch), shellWords...)
		for _, n := range b.own {
			w = append(w, shapes(n)...)
		}
		words[k] = wordsOf(strings.Join(w, " "))
	})
	tmplBase := func(s *Slot, k int) *renameBase { return bases[k] }
	// Every pair of a name and a word, several pairs at once while other names keep their spelling.
	type slice struct{ t, k int }
	todo := []slice{}
	for t, w := range words {
		for k := range w {
			todo = append(todo, slice{t, k})
		}
	}
	c.each("pairs", len(todo), func(s *Slot, i int, r *rand.Rand) {
		b, w := bases[todo[i].t], words[todo[i].t]
		for half := 0; half < 2; half++ {
			σ := map[string]string{}
			used := setOf(strings.Join(b.own, " "))
			off := r.IntN(len(w))
			for j, n := range b.own {
				t := w[(todo[i].k+j*off)%len(w)]
				if j == 0 {
					t = w[todo[i].k]
				}
				if half == 0 {
					t = w[(todo[i].k+j)%len(w)]
				}
				if (j+todo[i].k)%2 == half || used[t] || reservedWords[t] {
					continue
				}
				used[t] = true
				σ[n] = t
			}
			c.count("pairs of a name and a word", len(σ))
			c.renameCase(s, fmt.Sprintf("pairs:%d/%d", i, half), b, σ)
		}
	})
	// Single pairs.
	per := c.pick(100, 6000)
	c.each("single", len(renameTemplates)*per, func(s *Slot, i int, r *rand.Rand) {
		b := tmplBase(s, i/per)
		if b == nil {
			return
		}
		words := words[i/per]
		all := len(words) * len(b.own)
		k := i % per
		if all > per {
			k = r.IntN(all)
		} else if k >= all {
			return
		}
		n, w := b.own[k/len(words)], words[k%len(words)]
		σ := map[string]string{n: w}
		if w == n || reservedWords[w] || !injective(b.own, σ) {
			c.count("not injective", 1)
			return
		}
		c.count("single renamings", 1)
		c.renameCase(s, fmt.Sprintf("single:%d", i), b, σ)
	})
	multi := func(s *Slot, kase string, r *rand.Rand, b *renameBase) {
		if b == nil || len(b.own) == 0 {
			return
		}
		pool := wordsOf(b.v.Bash, b.v.Batch)
		for round := 0; round < 3; round++ {
			σ := map[string]string{}
			switch r.IntN(5) {
			case 4: // long names which differ at one end, in the middle or in case
				σ = longNames(r, b.own)
				c.count("renamings to long names", 1)
			case 0: // permutation
				l := append([]string{}, b.own...)
				r.Shuffle(len(l), func(a, b int) { l[a], l[b] = l[b], l[a] })
				for k, n := range b.own {
					σ[n] = l[k]
				}
			case 1: // case variants and escapes of one stem
				stem := []string{"ab", "val", "xY", "f1", "h0", "a_b", "rv0", "v_a", "fn_a", "path"}[r.IntN(10)]
				vars := []string{}
				for m := 0; m < 1<<len(stem); m++ {
					x := []byte(stem)
					for k := range x {
						if m>>k&1 == 1 {
							x[k] = strings.ToUpper(string(x[k]))[0]
						}
					}
					vars = append(vars, string(x), "_"+string(x), string(x)+"_", strings.ReplaceAll(string(x), "a", "_a"), strings.ReplaceAll(string(x), "b", "_b"), strings.ReplaceAll(string(x), "_", "__"))
				}
				vars = wordsOf(strings.Join(vars, " "))
				r.Shuffle(len(vars), func(a, b int) { vars[a], vars[b] = vars[b], vars[a] })
				used := setOf(strings.Join(b.own, " "))
				k := 0
				for _, n := range b.own {
					for k < len(vars) && used[vars[k]] {
						k++
					}
					if k < len(vars) {
						σ[n] = vars[k]
						k++
					}
				}
			default:
				σ = randRenaming(r, b.own, pool, []int{30, 70, 100}[r.IntN(3)])
			}
			if !injective(b.own, σ) {
				continue
			}
			v := c.renameCase(s, fmt.Sprintf("%s/%d", kase, round), b, σ)
			if v != nil {
				pool = append(pool, wordsOf(v.Bash, v.Batch)...)
			}
		}
	}
	c.each("multi", c.pick(700, 12000), func(s *Slot, i int, r *rand.Rand) {
		multi(s, fmt.Sprintf("multi:%d", i), r, tmplBase(s, i%len(renameTemplates)))
	})
	c.each("gen", c.pick(700, 12000), func(s *Slot, i int, r *rand.Rand) {
		o := GenOpt{Bits: 32, NoWrap: true, Slices: true, Strs: true, Funcs: 4, Arity: 4, Stmts: 6, Depth: 3, CallPct: 30, Panic: i%4 == 0}
		m, in := sound(r, o, 700)
		if m == nil {
			return
		}
		c.noteProg(in)
		b := c.renameBase(s, m.Source(), Want{Out: in.Out.String(), Exit: in.Exit}, onBash|onBatch, "", false)
		if b != nil {
			c.sample("gen", b.src)
		}
		multi(s, fmt.Sprintf("gen:%d", i), r, b)
	})
	c.each("link", c.pick(300, 5000), func(s *Slot, i int, r *rand.Rand) { c.renameLinked(s, i, r) })
}

// longNames renames all names to long names which differ in few characters.
func longNames(r *rand.Rand, own []string) map[string]string {
	σ := map[string]string{}
	n := []int{10, 16, 24, 31, 32, 33, 40, 48, 63, 64, 65, 80, 100, 127, 128, 129, 200, 255, 256, 300, 1000}[r.IntN(21)]
	stem := strings.Repeat([]string{"a", "value", "X", "long_name_", "aB", "_", "f1_", "v_"}[r.IntN(8)], n)[:n]
	how := r.IntN(4)
	for k, o := range own {
		d := string(rune('a'+k/26%26)) + string(rune('a'+k%26))
		at := []int{n, 0, n / 2, r.IntN(n + 1)}[how]
		t := stem[:at] + d + stem[at:]
		if at == 0 && k%2 == 1 {
			t = strings.ToUpper(d) + stem
		}
		σ[o] = t
	}
	return σ
}

// renameLinked renames the names of every file of a linked program.
func (c *Ctx) renameLinked(s *Slot, i int, r *rand.Rand) {
	for try := 0; try < 20; try++ {
		p := linkProgram(r, i%4 == 0)
		if len(p.mods) < 2 || p.twins {
			continue
		}
		sel := selections(r, 4)[3]
		in := &Interp{Bits: 32, Max: 800, NoWrap: true, AppFn: simpleApp, Stdin: append([]string{}, sel...)}
		if p.l.io {
			in.FS = map[string]string{}
		}
		if ok, _ := in.Run(p.mods[0], p.mods); !ok {
			continue
		}
		tgt := onBash | onBatch
		if p.l.io {
			tgt = onBash
		}
		files := p.files()
		pr := &Prog{Files: files, Main: "main.tsh", Want: Want{Out: in.Out.String(), Exit: in.Exit}, Stdin: strings.Join(sel, "\n") + "\n", Tgt: tgt}
		v := s.outcome(pr)
		if v.Bad != "" || v.Inc != "" {
			c.count("base programs which behave differently from the reference", 1)
			return
		}
		toks := map[*Module][]RTok{}
		for _, m := range p.mods {
			t, err := tokenize(files[m.File])
			if err != nil {
				panic(err)
			}
			toks[m] = t
		}
		pool := wordsOf(v.Bash, v.Batch)
		for round := 0; round < 3; round++ {
			σs := map[*Module]map[string]string{}
			all := map[string]string{}
			for _, m := range p.mods {
				own := userNames(toks[m])
				if len(own) == 0 {
					continue
				}
				σ := randRenaming(r, own, pool, []int{30, 70, 100}[r.IntN(3)])
				if r.IntN(5) == 0 {
					σ = longNames(r, own)
				}
				// Public functions stay public.
				for _, f := range p.l.funcs[m] {
					if t, ok := σ[f.Name]; ok && public(f.Name) && !public(t) {
						t = strings.ToUpper(t[:1]) + t[1:]
						if !public(t) {
							t = "P" + t
						}
						σ[f.Name] = t
					}
				}
				if !injective(own, σ) {
					σ = nil
				}
				σs[m] = σ
				for a, b := range σ {
					all[m.File+":"+a] = b
				}
			}
			nf := map[string]string{}
			for _, m := range p.mods {
				nf[m.File] = renamed(files[m.File], toks[m], σs[m], func(alias, name string) string {
					for _, im := range m.Imports {
						if im.Alias == alias {
							if n, ok := σs[im.Mod][name]; ok {
								return n
							}
						}
					}
					return ""
				})
			}
			q := *pr
			q.Files = nf
			c.seen(nf)
			c.eval(1)
			c.count("linked programs renamed", 1)
			if w := c.renameRun(s, fmt.Sprintf("link:%d/%d", i, round), &q, all, files); w != nil {
				pool = append(pool, wordsOf(w.Bash, w.Batch)...)
			}
		}
		return
	}
}
