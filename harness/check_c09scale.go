package main

import (
	"fmt"
	"math/rand/v2"
	"strings"
)

type linkFiles struct {
	name  string
	files map[string]string
	out   string
}

// linkScale are programs with many functions, files, imports or globals.
func linkScale(deep bool) (l []linkFiles) {
	sizes := []int{9, 17, 33, 65, 130}
	if deep {
		sizes = append(sizes, 2, 3, 4, 8, 10, 11, 16, 32, 64, 99, 100, 101, 128, 256, 257)
	}
	add := func(name string, out string, kv ...string) {
		f := map[string]string{}
		for i := 0; i < len(kv); i += 2 {
			f[kv[i]] = kv[i+1]
		}
		l = append(l, linkFiles{name, f, out})
	}
	rep := func(n int, f func(i int) string) string {
		b := strings.Builder{}
		for i := 1; i <= n; i++ {
			b.WriteString(f(i))
		}
		return b.String()
	}
	for _, n := range sizes {
		sum := n * (n + 1) / 2
		leaf := func(i int) string { return fmt.Sprintf("func f%d() int {\n\treturn %d\n}\n", i, i) }
		pleaf := func(i int) string { return fmt.Sprintf("func F%d() int {\n\treturn %d\n}\n", i, i) }
		callAll := func(p string) string {
			return "\ts := 0\n" + rep(n, func(i int) string { return fmt.Sprintf("\ts += %s%d()\n", p, i) })
		}
		// One function calls n functions of its file, next to as many unused ones.
		unused := rep(n, func(i int) string { return fmt.Sprintf("func unused%d() int {\n\treturn f%d()\n}\n", i, i) })
		wide := rep(n, leaf) + unused + "func All() int {\n" + callAll("f") + "\treturn s\n}\n"
		add(fmt.Sprintf("wide callee set %d", n), fmt.Sprintln(sum), "main.tsh", "import m \"m.tsh\"\nprint(m.All())\n", "m.tsh", wide)
		add(fmt.Sprintf("wide callee set in main %d", n), fmt.Sprintln(sum), "main.tsh", wide+"print(All())\n")
		// The same in one expression.
		expr := strings.TrimSuffix(rep(n, func(i int) string { return fmt.Sprintf("f%d() + ", i) }), " + ")
		add(fmt.Sprintf("wide expression %d", n), fmt.Sprintln(sum, sum), "main.tsh", "import m \"m.tsh\"\n"+rep(n, leaf)+"print("+expr+", m.All())\n", "m.tsh", rep(n, leaf)+"func All() int {\n\treturn "+expr+"\n}\n")
		// A chain of functions.
		chain := "func f0() int {\n\treturn 0\n}\n" + rep(n, func(i int) string { return fmt.Sprintf("func f%d() int {\n\treturn f%d() + %d\n}\n", i, i-1, i) })
		add(fmt.Sprintf("chain %d", n), fmt.Sprintln(sum, sum), "main.tsh", "import m \"m.tsh\"\n"+chain+fmt.Sprintf("print(m.Run(), f%d())\n", n), "m.tsh", chain+fmt.Sprintf("func Run() int {\n\treturn f%d()\n}\n", n))
		// Every function is called by top-level code of the imported file and by the main file.
		add(fmt.Sprintf("public functions %d", n), fmt.Sprintln(sum)+fmt.Sprintln("main", sum), "main.tsh", "import m \"m.tsh\"\nfunc sum() int {\n"+callAll("m.F")+"\treturn s\n}\nprint(\"main\", sum())\n", "m.tsh", rep(n, pleaf)+"t := 0\n"+rep(n, func(i int) string { return fmt.Sprintf("t += F%d()\n", i) })+"print(t)\n")
		// Every public function needs a private one; only each third is used.
		used := 0
		calls := ""
		for i := 1; i <= n; i += 3 {
			used += i
			calls += fmt.Sprintf("s += m.F%d()\n", i)
		}
		add(fmt.Sprintf("each third %d", n), fmt.Sprintln(used), "main.tsh", "import m \"m.tsh\"\ns := 0\n"+calls+"print(s)\n", "m.tsh", rep(n, leaf)+rep(n, func(i int) string { return fmt.Sprintf("func F%d() int {\n\treturn f%d()\n}\n", i, i) }))
		// Many globals of equal names in two files.
		globals := rep(n, func(i int) string { return fmt.Sprintf("g%d := %d\n", i, i) })
		get := "func Get() int {\n\ts := 0\n" + rep(n, func(i int) string { return fmt.Sprintf("\tg%d++\n\ts += g%d\n", i, i) }) + "\treturn s\n}\n"
		add(fmt.Sprintf("globals %d", n), fmt.Sprintln(sum+n, sum+n, sum+2*n, 1, n), "main.tsh", "import (\n\ta \"a.tsh\"\n\tb \"b.tsh\"\n)\n"+globals+fmt.Sprintf("print(a.Get(), b.Get(), a.Get(), g1, g%d)\n", n), "a.tsh", globals+get, "b.tsh", "// b\n"+globals+get)
		// n files: a star, a chain and a file with n aliases.
		if n <= 65 || deep {
			star, imports := []string{}, "import (\n"
			for i := 1; i <= n; i++ {
				imports += fmt.Sprintf("\tm%d \"m%d.tsh\"\n", i, i)
				star = append(star, fmt.Sprintf("m%d.tsh", i), fmt.Sprintf("v := %d\nfunc get() int {\n\treturn v\n}\nfunc Get() int {\n\treturn get()\n}\n", i))
			}
			add(fmt.Sprintf("star of files %d", n), fmt.Sprintln(sum), append([]string{"main.tsh", imports + ")\ns := 0\n" + rep(n, func(i int) string { return fmt.Sprintf("s += m%d.Get()\n", i) }) + "print(s)\n"}, star...)...)
			files := []string{}
			for i := 1; i <= n; i++ {
				imp, val := "", "0"
				if i < n {
					imp, val = fmt.Sprintf("import next \"m%d.tsh\"\n", i+1), "next.Get()"
				}
				files = append(files, fmt.Sprintf("m%d.tsh", i), fmt.Sprintf("%sv := %d\nfunc get() int {\n\treturn v + %s\n}\nfunc Get() int {\n\treturn get()\n}\nprint(\"load\", %d)\n", imp, i, val, i))
			}
			loads := ""
			for i := n; i >= 1; i-- {
				loads += fmt.Sprintln("load", i)
			}
			add(fmt.Sprintf("chain of files %d", n), loads+fmt.Sprintln(sum), append([]string{"main.tsh", "import next \"m1.tsh\"\nprint(next.Get())\n"}, files...)...)
			// Every file imports all later ones.
			files, loads = files[:0], ""
			k := min(n, 17)
			for i := 1; i <= k; i++ {
				imp, val := "", "0"
				if i < k {
					imp = "import (\n"
					for j := k; j > i; j-- {
						imp += fmt.Sprintf("\tm%d \"m%d.tsh\"\n", j, j)
					}
					imp += ")\n"
					val = fmt.Sprintf("m%d.Get() + m%d.Id()", i+1, k)
				}
				files = append(files, fmt.Sprintf("m%d.tsh", i), fmt.Sprintf("%sfunc Id() int {\n\treturn %d\n}\nfunc Get() int {\n\treturn %s\n}\nprint(\"load\", %d)\n", imp, i, val, i))
			}
			for i := k; i >= 1; i-- {
				loads += fmt.Sprintln("load", i)
			}
			add(fmt.Sprintf("complete graph %d", n), loads+fmt.Sprintln(k*(k-1)), append([]string{"main.tsh", "import m \"m1.tsh\"\nprint(m.Get())\n"}, files...)...)
		}
		aliases := "import (\n" + rep(n, func(i int) string { return fmt.Sprintf("\ta%d \"m.tsh\"\n", i) }) + ")\n"
		add(fmt.Sprintf("aliases %d", n), fmt.Sprintln("load")+fmt.Sprintln(n), "main.tsh", aliases+"s := 0\n"+rep(n, func(i int) string { return fmt.Sprintf("s = a%d.Inc()\n", i) })+"print(s)\n", "m.tsh", "c := 0\nprint(\"load\")\nfunc Inc() int {\n\tc++\n\treturn c\n}\n")
	}
	return
}

func (c *Ctx) linkScalePhase() {
	l := linkScale(c.thorough())
	c.each("scale", len(l), func(s *Slot, i int, r *rand.Rand) {
		kase := fmt.Sprintf("scale:%d %s", i, l[i].name)
		v := s.outcome(&Prog{Files: l[i].files, Main: "main.tsh", Want: Want{Out: l[i].out}, Tgt: onBash | onBatch})
		c.eval(1)
		c.count("scripts executed", v.Runs)
		c.seen(l[i].files)
		if v.Inc != "" {
			c.inconclusive(kase + ": " + v.Inc)
			return
		}
		if v.Bad == "" {
			if bad, _ := lintBash(v.Bash, setOf("echo")); bad != "" {
				v.Bad = "bash: " + bad
			}
			if bad, _ := lintBatch(v.Batch); bad != "" && v.Bad == "" {
				v.Bad = "batch: " + bad
			}
		}
		if v.Bad != "" {
			c.violate(kase, v.Bad, v.Detail)
		}
	})
}
