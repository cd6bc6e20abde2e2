package main

import (
	"fmt"
	"math/rand/v2"
	"strings"
)

func init() {
	checks["C07"] = check{run: runC07,
		rule: "block skeletons (one fixed, many random: functions, if/else-if/else, three-part, conditional and endless loops, range loops, switches, nested up to depth 5) with numbered places; for (definition place, use place) pairs and every kind of definition (short, var forms, loop header, range header, parameter) and use (read, assign, compound, ++, in conditions, headers, cases, returns, second definition) the acceptance by Transpile is compared with lexical scoping; likewise every place of break/continue/return/func, call-before-definition, duplicate names, functions that can fall off their end, and names across imported files. Lists of names of which some exist already or occur twice (all subsets, origins and forms), many definitions of which one is repeated. Distinct = distinct program text.",
		asm:  []string{"excluded as unspecified: break inside of a switch, functions whose every branch returns without a final return, void return statements, one name used for a function and a variable"}}
}

// spot is a place in a skeleton.
type spot struct {
	id    int
	kind  byte // 's' statement, 'e' int expression, 'f' for header variable, 'i' range index, 'v' range value, 'p' parameter
	scope []int
	loop  bool
	sw    bool // a switch lies between the place and its innermost loop
	fn    int  // 0 = top level
	ret   byte // result of the enclosing function: 0 none, 'i' int
	last  bool // trailing statement place of a function with a result (behind it: return)
}

type skeleton struct {
	parts  []string // text with §id§ between
	spots  []*spot
	r      *rand.Rand
	scopes []int
	nscope int
	loop   bool
	sw     bool
	fn     int
	ret    byte
	b      strings.Builder
	budget int
	nvar   int
}

func (k *skeleton) spot(kind byte) string {
	s := &spot{id: len(k.spots), kind: kind, scope: append([]int{}, k.scopes...), loop: k.loop, sw: k.sw, fn: k.fn, ret: k.ret}
	k.spots = append(k.spots, s)
	return fmt.Sprintf("\x00%d\x00", s.id)
}
func (k *skeleton) w(s string) { k.b.WriteString(s) }
func (k *skeleton) push()      { k.nscope++; k.scopes = append(k.scopes, k.nscope) }
func (k *skeleton) pop()       { k.scopes = k.scopes[:len(k.scopes)-1] }
func (k *skeleton) stmtSpot()  { k.w(k.spot('s')) }
func (k *skeleton) v() string  { k.nvar++; return fmt.Sprintf("q%d", k.nvar) }
func (k *skeleton) eq() string { return "1 == " + k.spot('e') }
func (k *skeleton) in() string { k.push(); return "" }
func (k *skeleton) body(d int, choose func(d int) int) {
	k.stmtSpot()
	for k.budget > 0 {
		c := choose(d)
		if c < 0 {
			break
		}
		k.budget--
		k.node(c, d, choose)
		k.stmtSpot()
	}
}

func (k *skeleton) block(d int, choose func(d int) int) {
	k.push()
	k.w("{\n")
	k.body(d+1, choose)
	k.pop()
	k.w("}")
}

const nNodes = 10

func (k *skeleton) node(c, d int, choose func(d int) int) {
	loop, sw := k.loop, k.sw
	defer func() { k.loop, k.sw = loop, sw }()
	switch c {
	case 0:
		k.w("if " + k.eq() + " ")
		k.block(d, choose)
		k.w("\n")
	case 1:
		k.w("if " + k.eq() + " ")
		k.block(d, choose)
		k.w(" else if " + k.eq() + " ")
		k.block(d, choose)
		k.w(" else ")
		k.block(d, choose)
		k.w("\n")
	case 2: // Three-part loop.
		k.push()
		v := k.spot('f')
		ini := k.spot('e')
		k.w("for " + v + " := " + ini + "; " + "1 < " + k.spot('e') + "; " + v + " += " + k.spot('e') + " ")
		k.loop, k.sw = true, false
		k.block(d, choose)
		k.pop()
		k.w("\n")
	case 3:
		k.w("for " + k.eq() + " ")
		k.loop, k.sw = true, false
		k.block(d, choose)
		k.w("\n")
	case 4:
		k.w("for ")
		k.loop, k.sw = true, false
		k.block(d, choose)
		k.w("\n")
	case 5, 6:
		x := "[]int{1, " + k.spot('e') + "}"
		k.push()
		h := k.spot('i')
		if c == 5 {
			h += ", " + k.spot('v')
		}
		k.w("for " + h + " := range " + x + " ")
		k.loop, k.sw = true, false
		k.block(d, choose)
		k.pop()
		k.w("\n")
	case 7:
		k.w("switch " + k.spot('e') + " {\n")
		k.sw = true
		for j := 0; j < 2; j++ {
			k.sw = sw
			k.w("case " + k.spot('e') + ":\n")
			k.sw = true
			k.push()
			k.body(d+1, choose)
			k.pop()
		}
		k.w("default:\n")
		k.push()
		k.body(d+1, choose)
		k.pop()
		k.w("}\n")
	case 8:
		k.w("switch {\ncase " + k.eq() + ":\n")
		k.sw = true
		k.push()
		k.body(d+1, choose)
		k.pop()
		k.w("}\n")
	case 9: // Call with an argument.
		k.w("print(fid(" + k.spot('e') + "), " + k.spot('e') + ")\n")
	}
}

func (k *skeleton) function(d int, ret bool, choose func(d int) int) {
	k.fn++
	fn := k.fn
	_ = fn
	k.push()
	if ret {
		k.ret = 'i'
	}
	k.w(fmt.Sprintf("func zf%d(%s int, %s int) ", k.fn, k.spot('p'), k.spot('p')))
	if ret {
		k.w("int ")
	}
	k.w("{\n")
	cur := k.fn
	k.fn = cur
	k.body(d+1, choose)
	if ret {
		k.w("return " + k.spot('e') + "\n")
	}
	k.w("}\n")
	k.pop()
	k.ret = 0
}

// build creates the text: top level statements and functions.
func (k *skeleton) build(items int, choose func(d int) int, isFn func(i int) (bool, bool)) {
	k.push()
	k.w("func fid(p int) int {\nreturn p\n}\n")
	nf := 0
	k.stmtSpot()
	for i := 0; i < items; i++ {
		k.budget = 6
		if f, ret := isFn(i); f {
			nf++
			k.fn = nf - 1
			k.function(0, ret, choose)
			// Statement places behind a function are at top level.
			save := k.fn
			k.fn = 0
			k.stmtSpot()
			k.fn = save
		} else {
			save := k.fn
			k.fn = 0
			if c := choose(0); c >= 0 {
				k.node(c, 0, choose)
			}
			k.stmtSpot()
			k.fn = save
		}
	}
	k.parts = strings.Split(k.b.String(), "\x00")
}

func (k *skeleton) render(fill map[int]string) string {
	b := strings.Builder{}
	for i, p := range k.parts {
		if i%2 == 0 {
			b.WriteString(p)
			continue
		}
		id := 0
		fmt.Sscan(p, &id)
		if t, ok := fill[id]; ok {
			b.WriteString(t)
			continue
		}
		switch s := k.spots[id]; s.kind {
		case 's':
		case 'e':
			b.WriteString("1")
		default:
			fmt.Fprintf(&b, "zd%d", id)
		}
	}
	return b.String()
}

// sees tells if a definition at d is visible at u.
func sees(d, u *spot) bool {
	if d.id >= u.id && !(d.kind == 'f' && u.kind == 'e' && false) {
		return false
	}
	if len(d.scope) > len(u.scope) {
		return false
	}
	for i := range d.scope {
		if d.scope[i] != u.scope[i] {
			return false
		}
	}
	if d.fn != u.fn && len(d.scope) != 1 {
		return false
	}
	// The initial value of a loop variable does not see the variable.
	if d.kind == 'f' && u.kind == 'e' && u.id == d.id+1 {
		return false
	}
	return true
}

var stmtDefs = []string{"zz := 1\n", "var zz int\n", "var zz = 1\n", "var zz int = 1\n", "ya, zz := 1, 2\n", "zz, ya := 1, 2\n", "var ya, zz int\n", "var zz, ya = 1, 2\n"}
var stmtUses = []string{"print(zz)\n", "zz = 2\n", "zz += 1\n", "zz++\n", "zz--\n", "yb := zz\n", "var yb = zz + 1\n", "if zz == 1 {\n}\n", "for zz < 1 {\n}\n", "fid(zz)\n", "print(itoa(zz + 1))\n", "switch zz {\ncase 1:\n}\n", "switch 1 {\ncase zz:\n}\n", "yb := []int{zz}\n", "zz, yb := 1, 2\n", "for yb := zz; yb < 1; yb++ {\n}\n", "for yb := 1; yb < 1; zz++ {\n}\n", "panic(itoa(zz))\n"}
var defForms = map[byte]int{'s': len(stmtDefs), 'f': 1, 'i': 1, 'v': 1, 'p': 1}

// A second definition of the name.
var stmtRedefs = []string{"zz := 3\n", "var zz int\n", "var zz = 1\n", "var zz bool = true\n", "for zz := 0; zz < 1; zz++ {\n}\n", "for zz, yb := range []int{1} {\n}\n", "for yb, zz := range []int{1} {\n}\n", "for zz := range \"a\" {\n}\n", "yb, yc, zz := 1, 2, 3\nvar zz int\n", "var yb, zz int\n", "var zz, yb int\n", "var yb, yc, zz = 1, 2, 3\n", "var yb, yc, yd, zz, ye int\n", "var yb, yc, zz, yd int = 1, 2, 3, 4\n"}

func defText(d *spot, form int) string {
	if d.kind == 's' {
		return stmtDefs[form%len(stmtDefs)]
	}
	return "zz"
}

func fixedSkeleton() *skeleton {
	k := &skeleton{}
	// Every construct once at top level and within two functions, each with a nested construct.
	depthOf := map[int]int{}
	next := 0
	choose := func(d int) int {
		if d == 0 {
			next++
			return (next - 1) % nNodes
		}
		if d == 1 && depthOf[next] < 12 {
			// Within functions: every construct in turn.
			depthOf[next]++
		}
		return -1
	}
	_ = choose
	items := nNodes + 2
	top := 0
	var ch func(d int) int
	fnMode := false
	cnt := 0
	ch = func(d int) int {
		if !fnMode {
			if d == 0 {
				top++
				cnt = 0
				return (top - 1) % nNodes
			}
			if d == 1 && cnt < 1 {
				cnt++
				return (top + 2) % nNodes
			}
			return -1
		}
		if d == 1 && cnt < nNodes {
			cnt++
			k.budget = 5
			return cnt - 1
		}
		return -1
	}
	k.build(items, ch, func(i int) (bool, bool) {
		f := i == 3 || i == 8
		fnMode = f
		cnt = 0
		return f, i == 8
	})
	return k
}

func randSkeleton(r *rand.Rand) *skeleton {
	k := &skeleton{r: r}
	maxD := 2 + r.IntN(4)
	stop := 0
	ch := func(d int) int {
		if d == 0 {
			stop = 0
			return r.IntN(nNodes)
		}
		if d > maxD || r.IntN(3) == 0 {
			return -1
		}
		return r.IntN(nNodes)
	}
	_ = stop
	k.build(3+r.IntN(5), ch, func(i int) (bool, bool) { return r.IntN(3) == 0, r.IntN(2) == 0 })
	return k
}

type scopeCase struct {
	name string
	src  string
	want int
}

// pairCase places definition and use.
func pairCase(k *skeleton, d, u *spot, form, use int, redef bool) (scopeCase, bool) {
	if d == u {
		return scopeCase{}, false
	}
	fill := map[int]string{d.id: defText(d, form)}
	var c scopeCase
	if redef {
		if u.kind == 's' {
			fill[u.id] = stmtRedefs[use%len(stmtRedefs)]
		} else if u.kind != 'e' {
			fill[u.id] = "zz"
		} else {
			return c, false
		}
		c.want = 1
		if sees(d, u) || sees(u, d) && !(u.kind == 's' && strings.HasPrefix(fill[u.id], "for ")) {
			c.want = 0
		}
		if c.want == 0 && sees(u, d) && d.kind == 's' && strings.Contains(fill[d.id], "ya") && strings.Contains(fill[d.id], ":=") && !strings.Contains(fill[u.id], "bool") {
			c.want = 1 // A short definition with one new name reuses the other one.
		}
		if strings.HasPrefix(fill[u.id], "yb, yc") {
			c.want = 0
		}
		c.name = fmt.Sprintf("second definition: %c%d %q, %c%d %q", d.kind, d.id, fill[d.id], u.kind, u.id, fill[u.id])
	} else {
		switch u.kind {
		case 's':
			fill[u.id] = stmtUses[use%len(stmtUses)]
		case 'e':
			fill[u.id] = []string{"zz", "(zz + 1)", "fid(zz)"}[use%3]
		default:
			return c, false
		}
		if strings.HasPrefix(fill[u.id], "zz, yb :=") {
			// Definition of yb; zz is reused or defined.
			c.want = 1
			if sees(u, d) {
				// zz is introduced here and defined again at d.
				if d.kind == 's' && strings.Contains(fill[d.id], "ya") && strings.Contains(fill[d.id], ":=") {
					c.want = 1
				} else {
					c.want = 0
				}
			}
		} else if sees(d, u) {
			c.want = 1
		}
		c.name = fmt.Sprintf("use: %c%d %q, %c%d %q", d.kind, d.id, fill[d.id], u.kind, u.id, fill[u.id])
	}
	c.src = k.render(fill)
	return c, true
}

// placeCases: break, continue, return, func, calls.
func placeCases(k *skeleton) (l []scopeCase) {
	add := func(name, src string, want bool) {
		w := 0
		if want {
			w = 1
		}
		l = append(l, scopeCase{name, src, w})
	}
	add("skeleton", k.render(nil), true)
	for _, s := range k.spots {
		if s.kind != 's' {
			if s.kind == 'e' {
				add(fmt.Sprintf("undefined variable at %d", s.id), k.render(map[int]string{s.id: "nope"}), false)
				add(fmt.Sprintf("undefined function at %d", s.id), k.render(map[int]string{s.id: "nope(1)"}), false)
			}
			continue
		}
		f := func(t string) string { return k.render(map[int]string{s.id: t}) }
		n := fmt.Sprintf(" at %d", s.id)
		if !s.sw {
			add("break"+n, f("break\n"), s.loop)
			add("break in if"+n, f("if 1 == 1 {\nbreak\n}\n"), s.loop)
			add("break in else"+n, f("if 1 == 1 {\n} else {\nbreak\n}\n"), s.loop)
		}
		add("continue"+n, f("continue\n"), s.loop)
		add("continue in else-if"+n, f("if 1 == 1 {\n} else if 1 == 2 {\ncontinue\n}\n"), s.loop)
		add("continue in switch"+n, f("switch 1 {\ncase 1:\ncontinue\n}\n"), s.loop)
		add("jump after loop"+n, f("for 1 == 1 {\n}\ncontinue\n"), s.loop)
		add("jump in loop"+n, f("for 1 == 1 {\nbreak\ncontinue\n}\n"), true)
		if s.fn == 0 {
			add("return"+n, f("return 1\n"), false)
			add("return in if"+n, f("if 1 == 1 {\nreturn 1\n}\n"), false)
		} else if s.ret == 'i' {
			add("return"+n, f("return 1\n"), true)
			add("return in loop"+n, f("for 1 == 1 {\nreturn 1\n}\n"), true)
			add("return in switch"+n, f("switch 1 {\ncase 1:\nreturn 2\ndefault:\nreturn 3\n}\n"), true)
		} else {
			add("return of a value"+n, f("return 1\n"), false)
		}
		top := len(s.scope) == 1
		add("func"+n, f("func zn() {\nprint(1)\n}\n"), top)
		add("func in if"+n, f("if 1 == 1 {\nfunc zn() {\nprint(1)\n}\n}\n"), false)
		add("func in loop"+n, f("for 1 == 1 {\nfunc zn() int {\nreturn 1\n}\n}\n"), false)
		add("func in func"+n, f("func zn() {\nfunc zo() {\nprint(1)\n}\n}\n"), false)
		add("recursion"+n, f("func zn(p int) int {\nreturn zn(p)\n}\n"), false)
		add("undefined variable"+n, f("print(nope)\n"), false)
		add("undefined variable assigned"+n, f("nope = 1\n"), false)
		add("undefined variable incremented"+n, f("nope++\n"), false)
		add("undefined variable stored"+n, f("nope[0] = 1\n"), false)
		add("undefined variable subscripted"+n, f("print(nope[0])\n"), false)
		add("undefined variable copied"+n, f("copy(nope, []int{1})\n"), false)
		add("undefined function"+n, f("nope()\n"), false)
		add("undefined alias"+n, f("nope.F()\n"), false)
		add("undefined type"+n, f("var yy foo\n"), false)
		add("fid twice"+n, f("func fid(p int) int {\nreturn p\n}\n"), false)
		if top {
			add("parameters of the same name"+n, f("func zn(a int, a int) {\nprint(a)\n}\n"), false)
			add("parameters of the same name and other types"+n, f("func zn(a int, b bool, a string) {\nprint(b)\n}\n"), false)
			add("parameter and local"+n, f("func zn(a int) {\na := 1\nprint(a)\n}\n"), false)
			add("parameter and loop variable"+n, f("func zn(a int) {\nfor a := 0; a < 1; a++ {\n}\n}\n"), false)
			add("parameter and var in block"+n, f("func zn(a int) {\nif a == 1 {\nvar a int\n}\n}\n"), false)
			add("same parameter in two functions"+n, f("func zn(a int) {\nprint(a)\n}\nfunc zo(a bool) {\nprint(a)\n}\n"), true)
			add("same local in two functions"+n, f("func zn() {\na := 1\nprint(a)\n}\nfunc zo() {\na := true\nprint(a)\n}\n"), true)
			add("local and later global"+n, f("func zn() {\nzg := 1\nprint(zg)\n}\nzg := true\nprint(zg)\n"), true)
			add("parameter and later global"+n, f("func zn(zg int) {\nprint(zg)\n}\nzg := true\nzn(1)\nprint(zg)\n"), true)
			add("global and later local"+n, f("zg := true\nfunc zn() {\nzg := 1\nprint(zg)\n}\n"), false)
			add("global and later local var"+n, f("zg := true\nfunc zn() {\nif 1 == 1 {\nvar zg bool\nprint(zg)\n}\n}\n"), false)
			add("locals of the caller"+n, f("func zn() {\nprint(zq)\n}\nfunc zo() {\nzq := 1\nprint(zq)\nzn()\n}\n"), false)
			add("locals of another function"+n, f("func zo() {\nzq := 1\nprint(zq)\n}\nfunc zn() {\nprint(zq)\n}\n"), false)
			add("parameter of another function"+n, f("func zo(zq int) {\nprint(zq)\n}\nfunc zn() {\nprint(zq)\n}\n"), false)
			add("parameter after the function"+n, f("func zo(zq int) {\nprint(zq)\n}\nprint(zq)\n"), false)
			add("local after the function"+n, f("func zo() {\nzq := 1\nprint(zq)\n}\nzq = 2\n"), false)
			add("global defined after the function"+n, f("func zo() {\nprint(zq)\n}\nzq := 1\nzo()\nprint(zq)\n"), false)
			add("global changed before it is defined"+n, f("func zo() {\nzq = 1\n}\nvar zq int\nzo()\nprint(zq)\n"), false)
			add("global of a block in a function"+n, f("if 1 == 1 {\nzq := 1\nprint(zq)\n}\nfunc zo() {\nprint(zq)\n}\n"), false)
			add("loop variable in a function"+n, f("for zq := 0; zq < 1; zq++ {\n}\nfunc zo() {\nprint(zq)\n}\n"), false)
			add("range variable in a function"+n, f("for zq, zr := range \"ab\" {\n}\nfunc zo() {\nprint(zr)\n}\n"), false)
			add("called before it is defined"+n, f("zn()\nfunc zn() {\nprint(1)\n}\n"), false)
			add("called in a function before it is defined"+n, f("func zo() {\nzn()\n}\nfunc zn() {\nprint(1)\n}\nzo()\n"), false)
			add("mutual recursion"+n, f("func zo() int {\nreturn zn()\n}\nfunc zn() int {\nreturn zo()\n}\n"), false)
			add("called after it is defined"+n, f("func zn() {\nprint(1)\n}\nfunc zo() {\nzn()\n}\nzo()\nzn()\n"), true)
			add("function twice"+n, f("func zn() {\nprint(1)\n}\nfunc zn() {\nprint(1)\n}\n"), false)
			add("function twice with other parameters"+n, f("func zn() {\nprint(1)\n}\nfunc zn(a int) int {\nreturn a\n}\n"), false)
			for j, e := range []string{"", "print(1)\n", "if p == 1 {\nreturn 1\n}\n", "if p == 1 {\nreturn 1\n} else if p == 2 {\nreturn 2\n}\n", "for p < 3 {\nreturn 1\n}\n", "for i, v := range \"abc\" {\nreturn 1\n}\n", "switch p {\ncase 1:\nreturn 1\n}\n", "for i := 0; i < 3; i++ {\nif i == p {\nreturn i\n}\n}\n", "if p == 1 {\nreturn 1\n}\nprint(2)\n", "p++\n", "p = 3\n", "q := 1\nif q == p {\n} else {\nreturn 1\n}\n", "return 1\nprint(2)\nif p == 1 {\n}\n"} {
				if j == 12 {
					continue // Unreachable end.
				}
				add(fmt.Sprintf("can fall off its end (%d)", j)+n, f("func zn(p int) int {\n"+e+"}\n"), false)
				add(fmt.Sprintf("ends with return (%d)", j)+n, f("func zn(p int) int {\n"+e+"return 1\n}\n"), true)
			}
		}
		// Calls of the functions of the skeleton and of one defined at another place.
		for _, d := range k.spots {
			if d.kind != 's' || d == s || (d.id+s.id)%7 != 0 {
				continue
			}
			ok := len(d.scope) == 1 && d.id < s.id
			add(fmt.Sprintf("func at %d, call at %d", d.id, s.id), k.render(map[int]string{d.id: "func zn(p int) int {\nreturn p\n}\n", s.id: "print(zn(1))\n"}), ok)
			if len(d.scope) == 1 && top {
				add(fmt.Sprintf("same func at %d and %d", d.id, s.id), k.render(map[int]string{d.id: "func zn(p int) int {\nreturn p\n}\n", s.id: "func zn() {\nprint(1)\n}\n"}), false)
			}
		}
	}
	return l
}

func runC07(c *Ctx) {
	// The fixed skeleton: all pairs.
	k := fixedSkeleton()
	c.count("places of the fixed skeleton", len(k.spots))
	run := func(s *Slot, kase string, sc scopeCase) bool {
		c.seen(sc.src)
		c.count(strings.SplitN(sc.name, ":", 2)[0][:min(8, len(strings.SplitN(sc.name, ":", 2)[0]))]+fmt.Sprintf(".. expected accepted=%v", sc.want == 1), 1)
		c.sample("case", sc.name+"\n"+sc.src)
		return c.acceptance(s, kase+" "+sc.name, map[string]string{"main.tsh": sc.src}, sc.want)
	}
	n := len(k.spots)
	every := c.pick(5, 1)
	c.each("pairs", n*n, func(s *Slot, i int, r *rand.Rand) {
		d, u := k.spots[i/n], k.spots[i%n]
		if d.kind == 'e' {
			return
		}
		if sees(d, u) || i%every == 0 || u.kind != 'e' && d.kind != 's' {
			if sc, ok := pairCase(k, d, u, r.IntN(8), r.IntN(1000), false); ok {
				run(s, fmt.Sprintf("pairs:%d", i), sc)
			}
			if sc, ok := pairCase(k, d, u, r.IntN(8), r.IntN(1000), true); ok {
				run(s, fmt.Sprintf("pairs:%d", i), sc)
			}
		}
	})
	pl := placeCases(k)
	c.each("places", len(pl), func(s *Slot, i int, r *rand.Rand) { run(s, fmt.Sprintf("places:%d", i), pl[i]) })
	c.each("random", c.pick(150, 3000), func(s *Slot, i int, r *rand.Rand) {
		k := randSkeleton(r)
		pl := placeCases(k)
		if !run(s, fmt.Sprintf("random:%d", i), pl[0]) {
			return
		}
		for j := 0; j < 60; j++ {
			if !run(s, fmt.Sprintf("random:%d", i), pl[r.IntN(len(pl))]) {
				return
			}
		}
		for j := 0; j < 150; j++ {
			d, u := k.spots[r.IntN(len(k.spots))], k.spots[r.IntN(len(k.spots))]
			if d.kind == 'e' {
				continue
			}
			if j%3 == 0 && !sees(d, u) { // Prefer visible ones.
				continue
			}
			if sc, ok := pairCase(k, d, u, r.IntN(8), r.IntN(1000), r.IntN(3) == 0); ok {
				if !run(s, fmt.Sprintf("random:%d", i), sc) {
					return
				}
			}
		}
	})
	li := listCases()
	c.each("lists", len(li), func(s *Slot, i int, r *rand.Rand) { run(s, fmt.Sprintf("lists:%d", i), li[i]) })
	imp := importScopes()
	c.each("imports", len(imp), func(s *Slot, i int, r *rand.Rand) {
		c.seen(fmt.Sprint(imp[i].files))
		c.acceptance(s, fmt.Sprintf("imports:%d %s", i, imp[i].name), imp[i].files, imp[i].want)
	})
}

// listCases: lists of names of which some exist already or occur twice, and many definitions with one repeated.
func listCases() (l []scopeCase) {
	add := func(name, src string, ok bool) {
		w := 0
		if ok {
			w = 1
		}
		l = append(l, scopeCase{name, src, w})
	}
	names := func(n int) []string {
		x := []string{}
		for i := 0; i < n; i++ {
			x = append(x, fmt.Sprintf("n%d", i))
		}
		return x
	}
	ones := func(n int) string { return strings.TrimSuffix(strings.Repeat("1, ", n), ", ") }
	forms := []struct {
		name string
		text func(x []string) string
		all  bool // Only rejected if all names exist.
	}{
		{":=", func(x []string) string { return strings.Join(x, ", ") + " := " + ones(len(x)) + "\n" }, true},
		{"var T", func(x []string) string { return "var " + strings.Join(x, ", ") + " int\n" }, false},
		{"var =", func(x []string) string { return "var " + strings.Join(x, ", ") + " = " + ones(len(x)) + "\n" }, false},
		{"var T =", func(x []string) string { return "var " + strings.Join(x, ", ") + " int = " + ones(len(x)) + "\n" }, false},
		{":= call", func(x []string) string { return strings.Join(x, ", ") + fmt.Sprintf(" := res%d()\n", len(x)) }, true},
		{"var = call", func(x []string) string { return "var " + strings.Join(x, ", ") + fmt.Sprintf(" = res%d()\n", len(x)) }, false},
		{"var T = call", func(x []string) string {
			return "var " + strings.Join(x, ", ") + fmt.Sprintf(" int = res%d()\n", len(x))
		}, false},
	}
	head := ""
	for n := 1; n <= 5; n++ {
		res := "(" + strings.TrimSuffix(strings.Repeat("int, ", n), ", ") + ")"
		if n == 1 {
			res = "int"
		}
		head += fmt.Sprintf("func res%d() %s {\nreturn %s\n}\n", n, res, ones(n))
	}
	// The names which exist are defined by one of several constructs around the list.
	type around struct {
		name string
		text func(known []string, list string) string
		same bool // The list is in the block of the known names.
	}
	each := func(k []string, f string) (t string) {
		for _, x := range k {
			t += strings.ReplaceAll(f, "@", x)
		}
		return
	}
	params := func(k []string) string {
		x := []string{"p0 int"}
		for _, n := range k {
			x = append(x, n+" int")
		}
		return strings.Join(x, ", ")
	}
	arounds := []around{
		{"globals", func(k []string, t string) string { return each(k, "@ := 5\n") + t }, true},
		{"globals and others", func(k []string, t string) string {
			return each(k, "@ := 5\n") + each(manyNames(60), "var @ int\n") + t
		}, true},
		{"globals, in a branch", func(k []string, t string) string { return each(k, "@ := 5\n") + "if 1 == 1 {\n" + t + "}\n" }, false},
		{"globals, in a function", func(k []string, t string) string { return each(k, "@ := 5\n") + "func fz() {\n" + t + "}\nfz()\n" }, false},
		{"locals", func(k []string, t string) string { return "func fz() {\n" + each(k, "var @ int\n") + t + "}\nfz()\n" }, true},
		{"locals, in a loop", func(k []string, t string) string {
			return "func fz() {\n" + each(k, "var @ int\n") + "for 1 == 2 {\n" + t + "}\n}\nfz()\n"
		}, false},
		{"parameters", func(k []string, t string) string {
			return "func fz(" + params(k) + ") {\n" + t + "}\nfz(" + ones(len(k)+1) + ")\n"
		}, false},
		{"loop variables", func(k []string, t string) string {
			return each(k, "for @ := 0; @ < 1; @++ {\n") + t + strings.Repeat("}\n", len(k))
		}, false},
		{"range variables", func(k []string, t string) string {
			return each(k, "for @, @v := range \"a\" {\n") + t + strings.Repeat("}\n", len(k))
		}, false},
		{"in a case", func(k []string, t string) string {
			return "switch 1 {\ncase 1:\n" + each(k, "@ := 5\n") + t + "default:\n" + each(k, "@ := 5\n") + "}\n"
		}, true},
	}
	for n := 1; n <= 5; n++ {
		for mask := 0; mask < 1<<n; mask++ {
			if n == 5 && mask != 31 && mask&(mask-1) != 0 && mask != 30 && mask != 15 {
				continue
			}
			x := names(n)
			known := []string{}
			for i := range x {
				if mask>>i&1 == 1 {
					known = append(known, x[i])
				}
			}
			for _, a := range arounds {
				for _, f := range forms {
					ok := len(known) == 0 || f.all && len(known) < n
					if f.all && !a.same && len(known) > 0 && len(known) < n {
						continue // Whether the other names are reused or shadowed is left open.
					}
					add(fmt.Sprintf("list: %d names, %03b known as %s, %s", n, mask, a.name, f.name), head+a.text(known, f.text(x)), ok)
				}
			}
		}
	}
	// A name twice in one list.
	for n := 2; n <= 5; n++ {
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				x := names(n)
				x[j] = x[i]
				for _, f := range forms {
					add(fmt.Sprintf("twice: %d and %d of %d, %s", i, j, n, f.name), head+f.text(x), false)
					add(fmt.Sprintf("twice: %d and %d of %d, %s, in a function", i, j, n, f.name), head+"func fz() {\n"+f.text(x)+"}\nfz()\n", false)
				}
				for k, ty := range []string{"int", "string", "[]int"} {
					ps := []string{}
					for q, y := range x {
						t := "int"
						if q == j {
							t = ty
						}
						ps = append(ps, y+" "+t)
					}
					ret := []string{"", " int", " (int, int)"}[k]
					add(fmt.Sprintf("parameter twice: %d and %d of %d, %s", i, j, n, ty), "func fz("+strings.Join(ps, ", ")+")"+ret+" {\n"+[]string{"print(1)\n", "return 1\n", "return 1, 2\n"}[k]+"}\n", false)
				}
			}
		}
	}
	add("twice: range", "for n0, n0 := range \"a\" {\nprint(1)\n}\n", false)
	add("twice: three-part loop", "for n0, n0 := 1, 2; n0 < 1; n0++ {\nprint(1)\n}\n", false)
	// One of many definitions is repeated.
	for _, n := range []int{2, 3, 10, 33, 70, 130} {
		for _, k := range []int{0, 1, n / 2, n - 1} {
			if k >= n {
				continue
			}
			x := manyNames(n)
			fn := each(x, "func @(p int) int {\nreturn p\n}\n")
			add(fmt.Sprintf("function %d of %d again", k, n), fn+"func "+x[k]+"() {\nprint(1)\n}\n", false)
			add(fmt.Sprintf("function behind %d", n), fn+"func other() {\nprint(1)\n}\nother()\nprint("+x[k]+"(1))\n", true)
			add(fmt.Sprintf("variable %d of %d again", k, n), each(x, "@ := 1\n")+x[k]+" := 2\n", false)
			add(fmt.Sprintf("variable %d of %d as parameter", k, n), each(x, "@ := 1\n")+"func fz(p int, "+x[k]+" int) {\nprint(1)\n}\n", false)
			add(fmt.Sprintf("local %d of %d again", k, n), "func fz() {\n"+each(x, "@ := 1\n")+"if 1 == 1 {\nvar "+x[k]+" int\n}\n}\n", false)
			add(fmt.Sprintf("local %d of %d of another function", k, n), "func fy() {\n"+each(x, "@ := 1\n")+"}\nfunc fz() {\nprint("+x[k]+")\n}\nfz()\n", false)
			add(fmt.Sprintf("local %d of %d in another function as well", k, n), "func fy() {\n"+each(x, "@ := 1\n")+"}\nfunc fz() {\n"+x[k]+" := \"a\"\nprint("+x[k]+")\n}\nfz()\nfy()\n"+x[k]+" := true\nprint("+x[k]+")\n", true)
		}
	}
	return
}

func manyNames(n int) (x []string) {
	for i := 0; i < n; i++ {
		x = append(x, fmt.Sprintf("m%d", i))
	}
	return
}

type importScope struct {
	name  string
	files map[string]string
	want  int
}

func importScopes() (l []importScope) {
	mod := `Gv := 5
gv := 6
func Pub(p int) int {
	return p + Gv
}
func priv(p int) int {
	return p + gv
}
func _und() int {
	return 1
}
func Both(p int) int {
	return priv(p) + Pub(p)
}
`
	outer := "import om \"o.tsh\"\nfunc Through(p int) int {\n\treturn om.Deep(p)\n}\n"
	o := "func Deep(p int) int {\n\treturn p\n}\n"
	add := func(name, main string, want int) {
		for k, head := range []string{"import m \"m.tsh\"\n", "import (\nm \"m.tsh\"\nt \"t.tsh\"\n\"strings\"\n)\n", "import (\n\"strings\"\nx \"m.tsh\"\nm \"m.tsh\"\nt \"t.tsh\"\n)\n"} {
			if k == 0 && (strings.Contains(main, "t.") || strings.Contains(main, "strings.")) {
				continue
			}
			for _, w := range []string{"§\n", "func zz() {\n§\n}\nzz()\n", "if 1 == 1 {\n§\n}\n", "for i := 0; i < 1; i++ {\n§\n}\n"} {
				if strings.Contains(main, "func ") && w != "§\n" {
					continue
				}
				l = append(l, importScope{name, map[string]string{"main.tsh": head + strings.ReplaceAll(w, "§", main), "m.tsh": mod, "t.tsh": outer, "o.tsh": o}, want})
			}
		}
	}
	add("public", "print(m.Pub(1))", 1)
	add("public calls private", "print(m.Both(1))", 1)
	add("public through", "print(t.Through(1))", 1)
	add("std", "print(strings.Contains(\"a\", \"b\"))", 1)
	add("private", "print(m.priv(1))", 0)
	add("private statement", "m.priv(1)", 0)
	add("underscore", "print(m._und())", 0)
	add("undefined in module", "print(m.Nope(1))", 0)
	add("undefined in module statement", "m.Nope()", 0)
	add("undefined in std", "print(strings.Nope(1))", 0)
	add("private in std", "print(strings.contains(\"a\", \"b\"))", 0)
	add("undefined alias", "print(q.Pub(1))", 0)
	add("transitive alias", "print(om.Deep(1))", 0)
	add("transitive name", "print(t.Deep(1))", 0)
	add("transitive chain", "print(t.om.Deep(1))", 0)
	add("file name as alias", "print(o.Deep(1))", 0)
	add("unqualified public", "print(Pub(1))", 0)
	add("unqualified private", "print(priv(1))", 0)
	add("unqualified global", "print(gv)", 0)
	add("unqualified public global", "print(Gv)", 0)
	add("qualified global", "print(m.gv)", 0)
	add("assign global", "gv = 1", 0)
	add("assign public global", "Gv++", 0)
	add("own function via alias", "func Own() int {\nreturn 1\n}\nprint(m.Own())", 0)
	add("same names", "func Pub() string {\nreturn \"x\"\n}\nfunc priv() bool {\nreturn true\n}\ngv := \"g\"\nGv := true\nprint(Pub(), priv(), gv, Gv, m.Pub(1))", 1)
	add("same names in function", "func zq() {\ngv := \"g\"\nGv := true\nprint(gv, Gv, m.Pub(1))\n}\nzq()", 1)
	add("wrong arity", "print(m.Pub())", 0)
	add("wrong type", "print(m.Pub(\"a\"))", 0)
	// Names of the importing file within the imported one.
	bad := func(name, m, main string) {
		l = append(l, importScope{name, map[string]string{"main.tsh": main, "m.tsh": m}, 0})
	}
	bad("global of importer", "func F() int {\nreturn x\n}\n", "import m \"m.tsh\"\nx := 1\nprint(m.F())\n")
	bad("function of importer", "func F() int {\nreturn g()\n}\n", "import m \"m.tsh\"\nfunc g() int {\nreturn 1\n}\nprint(m.F())\n")
	bad("alias of importer", "func F() int {\nreturn n.G()\n}\n", "import (\nn \"n.tsh\"\nm \"m.tsh\"\n)\nprint(m.F())\n")
	bad("break in module", "break\n", "import m \"m.tsh\"\nprint(1)\n")
	bad("continue in module", "if true {\ncontinue\n}\n", "import m \"m.tsh\"\nprint(1)\n")
	bad("return in module", "return 1\n", "import m \"m.tsh\"\nprint(1)\n")
	bad("func in block of module", "if true {\nfunc f() {\nprint(1)\n}\n}\n", "import m \"m.tsh\"\nprint(1)\n")
	bad("undefined in module", "print(x)\n", "import m \"m.tsh\"\nprint(1)\n")
	bad("undefined in function of module", "func F() {\nprint(x)\n}\n", "import m \"m.tsh\"\nprint(1)\n")
	bad("redefined in module", "x := 1\nx := 2\nprint(x)\n", "import m \"m.tsh\"\nprint(1)\n")
	bad("function twice in module", "func F() {\nprint(1)\n}\nfunc F() {\nprint(2)\n}\n", "import m \"m.tsh\"\nm.F()\n")
	bad("std without import", "print(1)\n", "import m \"m.tsh\"\nprint(strings.Contains(\"a\", \"b\"))\n")
	bad("std imported elsewhere", "import \"strings\"\nprint(strings.Contains(\"a\", \"b\"))\n", "import m \"m.tsh\"\nprint(strings.Contains(\"a\", \"b\"))\n")
	bad("called before definition in module", "func A() int {\nreturn B()\n}\nfunc B() int {\nreturn 1\n}\n", "import m \"m.tsh\"\nprint(m.A())\n")
	return l
}
