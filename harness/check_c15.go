package main

import (
	"fmt"
	"math/rand/v2"
	"strings"
)

func init() {
	checks["C15"] = check{run: runC15,
		rule: "every function of std/strings called on all tuples over small alphabets up to a length bound (counts from -2), on every ASCII character (1 to 127) in every argument and position, on structured overlaps/borders and on random ASCII strings with planted matches; arguments as literals, variables, slice elements, results of other calls and within functions with locals named like the library's own; results printed, kept in variables and printed later, nested into other calls; run under bash (and for a cmd-neutral alphabet under the cmd.exe model) and compared with Go's strings package. Distinct = distinct call (function, arguments); negative counts of Repeat (Go panics) and NUL are excluded.",
		asm:  []string{"/bin/bash 5.2 of the sandbox stands for the shell", "Go's strings package of the sandbox is the reference", "the model of cmd.exe represents cmd.exe for the Batch share"}}
}

// strCall is one call of the library.
type strCall struct {
	f string
	a []string // string arguments
	n int      // count argument of Repeat and Replace
	l []string // elements of Join
}

// results: rendered values in order; kinds: one letter per result (s, i, b, l).
func (k *strCall) want() (kinds string, vals []any) {
	a := append(append([]string{}, k.a...), "", "", "")
	switch k.f {
	case "Index":
		return "i", []any{strings.Index(a[0], a[1])}
	case "Contains":
		return "b", []any{strings.Contains(a[0], a[1])}
	case "Join":
		return "s", []any{strings.Join(k.l, a[0])}
	case "HasPrefix":
		return "b", []any{strings.HasPrefix(a[0], a[1])}
	case "HasSuffix":
		return "b", []any{strings.HasSuffix(a[0], a[1])}
	case "Count":
		return "i", []any{strings.Count(a[0], a[1])}
	case "Split":
		return "l", []any{strings.Split(a[0], a[1])}
	case "Repeat":
		return "s", []any{strings.Repeat(a[0], k.n)}
	case "Replace":
		return "s", []any{strings.Replace(a[0], a[1], a[2], k.n)}
	case "ReplaceAll":
		return "s", []any{strings.ReplaceAll(a[0], a[1], a[2])}
	case "Cut":
		x, y, z := strings.Cut(a[0], a[1])
		return "ssb", []any{x, y, z}
	case "CutPrefix":
		x, y := strings.CutPrefix(a[0], a[1])
		return "sb", []any{x, y}
	case "CutSuffix":
		x, y := strings.CutSuffix(a[0], a[1])
		return "sb", []any{x, y}
	case "TrimPrefix":
		return "s", []any{strings.TrimPrefix(a[0], a[1])}
	case "TrimSuffix":
		return "s", []any{strings.TrimSuffix(a[0], a[1])}
	case "TrimLeft":
		return "s", []any{strings.TrimLeft(a[0], a[1])}
	case "TrimRight":
		return "s", []any{strings.TrimRight(a[0], a[1])}
	case "Trim":
		return "s", []any{strings.Trim(a[0], a[1])}
	case "TrimSpace":
		return "s", []any{strings.TrimSpace(a[0])}
	}
	panic(k.f)
}

func (k *strCall) String() string {
	return fmt.Sprintf("%s(%q, n=%d, l=%q)", k.f, k.a, k.n, k.l)
}

// two are the functions of (s, t).
var strTwo = []string{"Index", "Contains", "HasPrefix", "HasSuffix", "Count", "Split", "Cut", "CutPrefix", "CutSuffix", "TrimPrefix", "TrimSuffix", "TrimLeft", "TrimRight", "Trim"}

// words yields all strings over an alphabet up to a length.
func wordsUpTo(alpha string, n int) (l []string) {
	l = []string{""}
	from := 0
	for ; n > 0; n-- {
		to := len(l)
		for _, w := range l[from:to] {
			for i := range len(alpha) {
				l = append(l, w+alpha[i:i+1])
			}
		}
		from = to
	}
	return
}

func strTuples(c *Ctx, neutral bool) (l []strCall) {
	th := c.thorough()
	pick := func(a, b int) int {
		if th {
			return b
		}
		return a
	}
	add := func(f string, n int, a ...string) { l = append(l, strCall{f: f, a: a, n: n}) }
	s2 := wordsUpTo("ab", pick(4, 6))
	t2 := wordsUpTo("ab", pick(2, 3))
	if neutral && !th {
		s2 = wordsUpTo("ab", 3)
	}
	for _, s := range s2 {
		for _, t := range t2 {
			for _, f := range strTwo {
				add(f, 0, s, t)
			}
		}
	}
	// Three characters: cutsets and separators with several members.
	for _, s := range wordsUpTo("abc", 3) {
		for _, t := range []string{"ab", "ba", "ca", "abc", "c"} {
			for _, f := range []string{"TrimLeft", "TrimRight", "Trim", "Index", "Split", "Count"} {
				add(f, 0, s, t)
			}
		}
	}
	for _, s := range wordsUpTo("ab", pick(3, 4)) {
		for _, o := range wordsUpTo("ab", 2) {
			for _, w := range []string{"", "a", "b", "ab", "xyz"} {
				for n := -2; n <= pick(3, 5); n++ {
					if n == -2 && !th && w != "b" {
						continue
					}
					add("Replace", n, s, o, w)
				}
				add("ReplaceAll", 0, s, o, w)
			}
		}
	}
	for _, s := range []string{"", "a", "ab", "a b", "-", "0"} {
		for n := 0; n <= 6; n++ {
			add("Repeat", n, s)
		}
		add("Repeat", 50, s)
	}
	el := []string{"", "a", "bc", "0"}
	for _, sep := range []string{"", ",", "a", ", ", "--"} {
		l = append(l, strCall{f: "Join", a: []string{sep}, l: []string{}})
		for _, a := range el {
			l = append(l, strCall{f: "Join", a: []string{sep}, l: []string{a}})
			for _, b := range el {
				l = append(l, strCall{f: "Join", a: []string{sep}, l: []string{a, b}})
				for _, d := range el {
					l = append(l, strCall{f: "Join", a: []string{sep}, l: []string{a, b, d}})
				}
			}
		}
		big := []string{}
		for i := 0; i < 15; i++ {
			big = append(big, fmt.Sprint("e", i))
		}
		l = append(l, strCall{f: "Join", a: []string{sep}, l: big})
	}
	ws := " \t\n"
	if neutral {
		ws = " "
	} else {
		for _, s := range wordsUpTo(" \n\v\f\r\ta", pick(2, 3)) {
			add("TrimSpace", 0, s)
		}
	}
	for _, s := range wordsUpTo(ws+"a", pick(4, 5)) {
		add("TrimSpace", 0, s)
		add("Trim", 0, s, " ")
		add("Split", 0, s, " ")
	}
	// Borders and overlaps.
	for _, s := range []string{"aaaaaaa", "abababab", "aabaabaab", "ababcabababc", "a,b,,c,", ",,,", "abcabcabcab", "hello world", "key=value=x", "a--b---c", "0", "00", "007", "-1", "on", "off", "1 2 3"} {
		for _, t := range []string{"a", "aa", "aaa", "ab", "aba", "abab", "aab", ",", ",,", "abc", "bca", "ababc", "abababc", "o", " ", "=", "--", "-", "0", "00", "1", "on", "l", "x", "hello world", "hello worlds", "key", "value=x"} {
			for fi, f := range strTwo {
				if th || (fi+len(s)+len(t))%2 == 0 {
					add(f, 0, s, t)
				}
			}
			for _, n := range []int{-1, 0, 1, 2, 3, 100} {
				if !th && (n+len(t))%2 == 0 {
					continue
				}
				add("Replace", n, s, t, "<r>"[:(n+1)%3+1])
			}
		}
	}
	if neutral {
		for i := range l {
			l[i].a = append([]string{}, l[i].a...)
			for k := range l[i].a {
				l[i].a[k] = strings.NewReplacer("<", "{", ">", "}").Replace(l[i].a[k])
			}
		}
		return
	}
	// Every character.
	for b := 1; b < 128; b++ {
		x := string(rune(b))
		y := "a"
		if x == y {
			y = "b"
		}
		for _, f := range strTwo {
			for _, s := range []string{x, y + x + y, x + y + x} {
				add(f, 0, s, x)
			}
			add(f, 0, y+x+x, x+y)
			if th {
				add(f, 0, y, x)
				add(f, 0, x+y, x)
				add(f, 0, y+x, x)
				add(f, 0, y+x+y, y)
				add(f, 0, x+x+y, x+x)
				add(f, 0, x+y, y+x)
				add(f, 0, x, "")
				add(f, 0, "", x)
				add(f, 0, " "+x+" ", x)
				add(f, 0, " "+x+" ", " ")
				add(f, 0, x+x+x+y+x+x, x+x)
			}
		}
		add("TrimSpace", 0, x)
		add("TrimSpace", 0, x+y+x)
		add("TrimSpace", 0, " "+x+" ")
		add("TrimSpace", 0, y+x+y)
		for n := -1; n < 3; n++ {
			add("Replace", n, x+y+x, x, y)
			add("Replace", n, y+y+x, y, x)
			add("Replace", n, x+x, "", x)
		}
		add("ReplaceAll", 0, y+x+y+x, x+y, x+x)
		add("Repeat", 3, x)
		add("Repeat", 2, y+x)
		l = append(l, strCall{f: "Join", a: []string{x}, l: []string{x, y, "", x + x}}, strCall{f: "Join", a: []string{""}, l: []string{x, x}})
	}
	return
}

var strAll = append([]string{"Join", "Repeat", "Replace", "ReplaceAll", "TrimSpace", "Replace", "Split"}, strTwo...)

func randStrCall(r *rand.Rand, long bool) strCall {
	alpha := "abc"
	switch r.IntN(4) {
	case 0:
		alpha = "ab"
	case 1:
		alpha = " \t\na\"'\\$*-"
	case 2:
		b := []byte{}
		for k := 1; k < 128; k++ {
			b = append(b, byte(k))
		}
		alpha = string(b)
	}
	word := func(n int) string {
		b := make([]byte, r.IntN(n+1))
		for i := range b {
			b[i] = alpha[r.IntN(len(alpha))]
		}
		return string(b)
	}
	max := 12
	if long {
		max = 60
	}
	s := word(max)
	sub := func() string {
		if len(s) > 0 && r.IntN(3) > 0 {
			i := r.IntN(len(s))
			j := i + r.IntN(min(len(s)-i, 5)+1)
			switch r.IntN(4) {
			case 0:
				return s[:j]
			case 1:
				return s[i:]
			}
			return s[i:j]
		}
		return word(3)
	}
	k := strCall{f: strAll[r.IntN(len(strAll))]}
	switch k.f {
	case "Join":
		k.a = []string{word(3)}
		for n := r.IntN(6); n > 0; n-- {
			k.l = append(k.l, word(6))
		}
	case "Repeat":
		k.a, k.n = []string{word(6)}, r.IntN(8)
	case "Replace":
		k.a, k.n = []string{s, sub(), word(4)}, r.IntN(7)-2
	case "ReplaceAll":
		k.a = []string{s, sub(), word(4)}
	case "TrimSpace":
		ws := " \t\n\v\f\r"
		for n := r.IntN(4); n > 0; n-- {
			s = ws[r.IntN(6):][:1] + s + ws[r.IntN(6):][:1]
		}
		k.a = []string{s}
	default:
		t := sub()
		if r.IntN(2) == 0 {
			s = t + s + t
		}
		k.a = []string{s, t}
	}
	return k
}

// libNames are names of locals and functions of the library.
var libNames = "s c i j l n sul ind last si char elems sep prefix suffix lenS lenSub sLen sepLen startI endI elIndex new old res rep lenOld lenNew cutset lenCS trimmed cut Index HasPrefix CutPrefix"

// stringsProgram calls the library for a list of calls. style selects how arguments and results travel.
func stringsProgram(calls []strCall, style int, r *rand.Rand) (src, want string) {
	var b, w strings.Builder
	q := quoteTS
	alias, imp := "strings", "import \"strings\"\n"
	if style%3 == 1 {
		alias, imp = "s", "import s \"strings\"\n"
	}
	b.WriteString(imp)
	decl := map[string]bool{}
	inFn := style%2 == 1
	own := strings.Fields(libNames)
	// Global variables named like locals of the library keep their values.
	for i, n := range own {
		if n != alias {
			fmt.Fprintf(&b, "%s := \"own %d\"\n", n, i)
		}
	}
	body := &strings.Builder{}
	d := func(n, v string) string { // define or assign
		if decl[n] {
			return n + " = " + v + "\n"
		}
		decl[n] = true
		return n + " := " + v + "\n"
	}
	out := body
	for i := range calls {
		k := &calls[i]
		kinds, vals := k.want()
		args := []string{}
		if k.f == "Join" {
			es := []string{}
			for _, e := range k.l {
				es = append(es, q(e))
			}
			v := "[]string{" + strings.Join(es, ", ") + "}"
			if style%4 >= 2 {
				out.WriteString(d("jl", v))
				v = "jl"
			}
			args = append(args, v)
		}
		for n, a := range k.a {
			v := q(a)
			switch (style + n) % 4 {
			case 1:
				out.WriteString(d(fmt.Sprint("arg", n), v))
				v = fmt.Sprint("arg", n)
			case 2:
				out.WriteString(d("args", "[]string{\"\", "+v+"}"))
				if n == 0 || style%8 < 4 {
					out.WriteString(d(fmt.Sprint("ax", n), "args[1]"))
					v = fmt.Sprint("ax", n)
				} else {
					v = "args[1]"
				}
			case 3:
				if style%8 == 3 {
					v = "(" + v + " + \"\")"
				}
			}
			args = append(args, v)
		}
		if k.f == "Replace" || k.f == "Repeat" {
			args = append(args, fmt.Sprint(k.n))
		}
		c := alias + "." + k.f + "(" + strings.Join(args, ", ") + ")"
		show := func(kind byte, v string) string {
			if kind == 's' {
				return "\"[\" + " + v + " + \"]\""
			}
			return v
		}
		wshow := func(v any) string {
			switch x := v.(type) {
			case string:
				return "[" + x + "]"
			case bool:
				if x {
					return "1"
				}
				return "0"
			}
			return fmt.Sprint(v)
		}
		switch {
		case kinds == "l":
			out.WriteString(d("sl", c))
			fmt.Fprintf(out, "print(\"#%d\", len(sl))\nfor ei, ev := range sl {\nprint(ei, \"[\" + ev + \"]\")\n}\n", i)
			x := vals[0].([]string)
			fmt.Fprintf(&w, "#%d %d\n", i, len(x))
			for ei, ev := range x {
				fmt.Fprintf(&w, "%d [%s]\n", ei, ev)
			}
			if len(x) > 0 {
				out.WriteString(d("kept", "sl"))
			}
		case len(kinds) == 1 && style%5 < 3:
			fmt.Fprintf(out, "print(\"#%d\", %s)\n", i, show(kinds[0], c))
			fmt.Fprintf(&w, "#%d %s\n", i, wshow(vals[0]))
		default:
			names := []string{}
			fresh := true
			for n := range kinds {
				nm := fmt.Sprintf("res%c%d", kinds[n], n)
				names = append(names, nm)
				if decl[nm] {
					fresh = false
				}
			}
			if fresh {
				fmt.Fprintf(out, "%s := %s\n", strings.Join(names, ", "), c)
				for _, n := range names {
					decl[n] = true
				}
			} else {
				for n, nm := range names {
					if !decl[nm] {
						decl[nm] = true
						fmt.Fprintf(out, "var %s %s\n", nm, map[byte]string{'s': "string", 'i': "int", 'b': "bool"}[kinds[n]])
					}
				}
				fmt.Fprintf(out, "%s = %s\n", strings.Join(names, ", "), c)
			}
			// The arguments are as before.
			ps, ws := []string{fmt.Sprintf("\"#%d\"", i)}, []string{fmt.Sprintf("#%d", i)}
			for n := range kinds {
				ps = append(ps, show(kinds[n], names[n]))
				ws = append(ws, wshow(vals[n]))
			}
			for n, a := range args {
				if strings.HasPrefix(a, "a") {
					ps = append(ps, show('s', a))
					ws = append(ws, "["+k.a[len(k.a)-len(args)+n+btoi(k.f == "Replace" || k.f == "Repeat")]+"]")
				}
			}
			fmt.Fprintf(out, "print(%s)\n", strings.Join(ps, ", "))
			w.WriteString(strings.Join(ws, " ") + "\n")
		}
		if k.f == "Join" && style%4 >= 2 {
			out.WriteString("print(len(jl))\n")
			fmt.Fprintf(&w, "%d\n", len(k.l))
		}
	}
	if inFn {
		b.WriteString("func run(p int) int {\nloc := \"loc\"\n" + body.String() + "print(loc, p)\nreturn p\n}\nprint(run(7))\n")
		w.WriteString("loc 7\n7\n")
	} else {
		b.WriteString(body.String())
	}
	for i, n := range own {
		if n != alias {
			fmt.Fprintf(&b, "print(%s)\n", n)
			fmt.Fprintf(&w, "own %d\n", i)
		}
	}
	return b.String(), w.String()
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (c *Ctx) stringsCase(s *Slot, kase string, calls []strCall, style int, r *rand.Rand, tgt Target) bool {
	src, want := stringsProgram(calls, style, r)
	for i := range calls {
		c.seen(calls[i].String())
		c.count("calls of "+calls[i].f, 1)
	}
	run := func(src, want string) Verdict {
		return s.outcome(&Prog{Files: map[string]string{"main.tsh": src}, Main: "main.tsh", Want: Want{Out: want}, Tgt: tgt})
	}
	v := run(src, want)
	c.eval(len(calls))
	c.count("scripts executed", v.Runs)
	if v.Inc != "" {
		c.inconclusive(kase + ": " + v.Inc)
		return true
	}
	if v.Bad == "" {
		return true
	}
	// A single call which fails on its own?
	for i := range calls {
		src, want := stringsProgram(calls[i:i+1], style, r)
		if w := run(src, want); w.Bad != "" {
			w.Bad = calls[i].String() + ": " + w.Bad
			v = w
			break
		}
	}
	c.violate(kase, v.Bad, v.Detail)
	return false
}

func runC15(c *Ctx) {
	group := func(l []strCall, n int) (g [][]strCall) {
		for len(l) > n {
			g = append(g, l[:n])
			l = l[n:]
		}
		return append(g, l)
	}
	// Calls of different functions alternate within a script.
	mix := func(l []strCall) []strCall {
		r := c.rng("mix", 0)
		r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		return l
	}
	tu := group(mix(strTuples(c, false)), 60)
	c.each("tuples", len(tu), func(s *Slot, i int, r *rand.Rand) {
		c.sample("calls", fmt.Sprint(tu[i][:3]))
		c.stringsCase(s, fmt.Sprintf("tuples:%d", i), tu[i], i, r, onBash)
	})
	c.each("random", c.pick(100, 1800), func(s *Slot, i int, r *rand.Rand) {
		l := []strCall{}
		for len(l) < 40 {
			l = append(l, randStrCall(r, len(l)%8 == 7))
		}
		c.stringsCase(s, fmt.Sprintf("random:%d", i), l, i, r, onBash)
	})
	c.compose(c.pick(120, 1500))
	nt := group(mix(strTuples(c, true)), 30)
	c.each("batch", len(nt), func(s *Slot, i int, r *rand.Rand) {
		c.stringsCase(s, fmt.Sprintf("batch:%d", i), nt[i], i, r, onBatch)
	})
}

// compose: random compositions of calls; the reference evaluates the same tree.
func (c *Ctx) compose(n int) {
	c.each("compose", n, func(s *Slot, i int, r *rand.Rand) {
		var str func(d int) (string, string)
		var num func(d int) (string, int)
		var boo func(d int) (string, bool)
		var lst func(d int) (string, []string)
		word := func() string {
			b := make([]byte, r.IntN(7))
			for i := range b {
				b[i] = "aabb, c"[r.IntN(7)]
			}
			return string(b)
		}
		str = func(d int) (string, string) {
			if d == 0 {
				w := word()
				return quoteTS(w), w
			}
			a, x := str(d - 1)
			b, y := str(r.IntN(d))
			switch r.IntN(12) {
			case 0:
				return "strings.TrimLeft(" + a + ", " + b + ")", strings.TrimLeft(x, y)
			case 1:
				return "strings.TrimRight(" + a + ", " + b + ")", strings.TrimRight(x, y)
			case 2:
				return "strings.Trim(" + a + ", " + b + ")", strings.Trim(x, y)
			case 3:
				return "strings.TrimPrefix(" + a + ", " + b + ")", strings.TrimPrefix(x, y)
			case 4:
				return "strings.TrimSuffix(" + a + ", " + b + ")", strings.TrimSuffix(x, y)
			case 5, 6:
				e, z := str(0)
				k, m := num(r.IntN(d))
				if len(x)+len(z)*len(x) > 400 {
					return a, x
				}
				return "strings.Replace(" + a + ", " + b + ", " + e + ", " + k + ")", strings.Replace(x, y, z, m)
			case 7:
				e, z := str(0)
				if len(x)+len(z)*len(x) > 400 {
					return a, x
				}
				return "strings.ReplaceAll(" + a + ", " + b + ", " + e + ")", strings.ReplaceAll(x, y, z)
			case 8:
				if len(x) > 60 {
					return a, x
				}
				k := r.IntN(4)
				return fmt.Sprintf("strings.Repeat(%s, %d)", a, k), strings.Repeat(x, k)
			case 9:
				e, l := lst(d - 1)
				if t := strings.Join(l, y); len(t) < 400 {
					return "strings.Join(" + e + ", " + b + ")", t
				}
				return a, x
			case 10:
				return a + " + " + b, x + y
			}
			return "strings.TrimSpace(" + a + ")", strings.TrimSpace(x)
		}
		num = func(d int) (string, int) {
			if d == 0 {
				k := r.IntN(5) - 1
				return fmt.Sprint(k), k
			}
			a, x := str(d - 1)
			b, y := str(r.IntN(d))
			switch r.IntN(3) {
			case 0:
				return "strings.Index(" + a + ", " + b + ")", strings.Index(x, y)
			case 1:
				return "strings.Count(" + a + ", " + b + ")", strings.Count(x, y)
			}
			return "len(" + a + ")", len(x)
		}
		boo = func(d int) (string, bool) {
			a, x := str(d - 1)
			b, y := str(r.IntN(d))
			switch r.IntN(3) {
			case 0:
				return "strings.Contains(" + a + ", " + b + ")", strings.Contains(x, y)
			case 1:
				return "strings.HasPrefix(" + a + ", " + b + ")", strings.HasPrefix(x, y)
			}
			return "strings.HasSuffix(" + a + ", " + b + ")", strings.HasSuffix(x, y)
		}
		lst = func(d int) (string, []string) {
			if d == 0 || r.IntN(3) == 0 {
				a, x := str(0)
				b, y := str(0)
				return "[]string{" + a + ", " + b + "}", []string{x, y}
			}
			a, x := str(d - 1)
			b, y := str(0)
			return "strings.Split(" + a + ", " + b + ")", strings.Split(x, y)
		}
		src, want := "import \"strings\"\n", ""
		for k := 0; k < 12; k++ {
			d := 1 + r.IntN(3)
			e, x := str(d)
			switch r.IntN(4) {
			case 0:
				e2, n := num(d)
				src += "print(" + e2 + ")\n"
				want += fmt.Sprintln(n)
				c.seen(e2)
			case 1:
				e2, b := boo(d)
				src += "print(" + e2 + ")\n"
				want += fmt.Sprintln(btoi(b))
				c.seen(e2)
			default:
				src += "print(\"<\" + " + e + " + \">\")\n"
				want += "<" + x + ">\n"
				c.seen(e)
			}
			c.count("composed expressions", 1)
		}
		c.sample("compose", src)
		tgt := onBash
		if i%3 == 0 {
			tgt |= onBatch
		}
		c.judge(s, fmt.Sprintf("compose:%d", i), &Prog{Files: map[string]string{"main.tsh": src}, Main: "main.tsh", Want: Want{Out: want}, Tgt: tgt}, nil)
	})
}
