package main

import (
	"fmt"
	"math/rand/v2"
	"strings"
)

func init() {
	checks["C06"] = check{run: runC06,
		rule: "position table: every typed position of the grammar x every offered kind (int, bool, string, the three slice types, no value, two values, three values) in several spellings x enclosing contexts (top level, used and unused function, if/else-if/else, for, range, switch, nested, imported file); operator tables over all pairs of kinds; arity tables; generated well-typed programs (accepted) with exactly one slot replaced by an expression of another type (rejected). Observed: error/script of Transpile for both converters, which must agree. Distinct = distinct program text.",
		asm:  []string{"excluded as unspecified: ordering of strings, the argument of panic, equality of slices, print of slices and of multi-value calls, nil offered outside of string/error positions and return, slice range subscripts, sub-expression statements without effect"}}
}

// kinds offered to a position.
const (
	kInt   = "int"
	kBool  = "bool"
	kStr   = "string"
	kSInt  = "[]int"
	kSBool = "[]bool"
	kSStr  = "[]string"
	kVoid  = "void"
	kTwo   = "int,int"
	kThree = "string,string,int"
)

var allKinds = []string{kInt, kBool, kStr, kSInt, kSBool, kSStr, kVoid, kTwo, kThree}

// All spellings are primaries.
var spellings = map[string][]string{
	kInt:   {"vi", "7", "fi()", "-3", "li[0]", "len(vs)", "(vi + 1)", "fadd(1, 2)", "len(ls)", "(fi())", "copy(lj, li)"},
	kBool:  {"vb", "true", "fb()", "!vb", "lb[0]", `exists("x")`, "(vi == 1)", "(vb && false)", `(vs != "a")`, "!(vi < 2)"},
	kStr:   {"vs", `"a"`, "fs()", "`r`", "ls[0]", "vs[0]", "itoa(vi)", `(vs + "x")`, "vs[0:1]", "fe()", "ve", `read("f")`, "input()", `input("p")`, "vs[:1]"},
	kSInt:  {"li", "[]int{1, 2}", "fli()", "[]int{}"},
	kSBool: {"lb", "[]bool{true}", "flb()"},
	kSStr:  {"ls", `[]string{"a"}`, "fls()"},
	kVoid:  {"fv()", "fvp(1)"},
	kTwo:   {"f2()"},
	kThree: {"f3()"},
}

const typedPrelude = `var vi int = 1
var vb bool = true
var vs string = "str"
var ve error
li := []int{1, 2}
lj := []int{}
lb := []bool{true}
ls := []string{"x"}
func fi() int {
	return 5
}
func fadd(pa int, pb int) int {
	return pa + pb
}
func fb() bool {
	return true
}
func fs() string {
	return "s"
}
func fe() error {
	return nil
}
func fli() []int {
	return []int{1}
}
func flb() []bool {
	return []bool{true}
}
func fls() []string {
	return []string{"q"}
}
func fv() {
	print("v")
}
func fvp(p int) {
	print(p)
}
func f2() (int, int) {
	return 1, 2
}
func f3() (string, string, int) {
	return "a", "b", 3
}
func fvoid3(a int, b bool, c string) {
	print(a, b, c)
}
func fsl(a []int, b []bool, c []string) int {
	return len(a) + len(b) + len(c)
}
func fmix(a string, b []string, c int) bool {
	return a == b[c]
}
`

// position: a place with one hole (§); ok tells which kinds are valid (nil entry = not decided here).
type position struct {
	text string
	ok   []string
	skip []string // unspecified kinds
	top  bool     // only valid at top level (contains a function)
	fn   string   // must be placed within a function with these results
}

func typedPositions() []position {
	l := []position{}
	add := func(text string, ok ...string) { l = append(l, position{text: text, ok: ok}) }
	addSkip := func(text string, skip []string, ok ...string) {
		l = append(l, position{text: text, ok: ok, skip: skip})
	}
	one := []string{kInt, kBool, kStr, kSInt, kSBool, kSStr}
	vals := map[string]string{kInt: "vi", kBool: "vb", kStr: "vs", kSInt: "li", kSBool: "lb", kSStr: "ls"}
	lits := map[string]string{kInt: "3", kBool: "false", kStr: `"l"`, kSInt: "[]int{4}", kSBool: "[]bool{}", kSStr: "[]string{}"}
	// Definitions.
	add("x := §\nx = x", one...)
	add("var x = §\nx = x", one...)
	add("x, y := §, 1\nx = x\ny = 2", one...)
	add("x, y := 1, §\ny = y\nx = 2", one...)
	add("var x, y = true, §\ny = y", one...)
	for _, t := range one {
		add("var x "+t+" = §", t)
		add("var x, y "+t+" = §, "+lits[t], t)
		add("var x, y "+t+" = "+lits[t]+", §", t)
		add("var x, y, z "+t+" = "+lits[t]+", §, "+vals[t], t)
		add("var x "+t+"\nx = §", t)
		add("x := "+lits[t]+"\nx = §", t)
		add(vals[t]+" = §", t)
		add("x := 1\n"+vals[t]+", x = §, 2", t)
		add("x := \"\"\nx, "+vals[t]+" = \"1\", §", t)
		add("x, "+vals[t]+" := 1, §", t)
		add(vals[t]+", x := §, 1", t)
		// Parameters, results and their uses.
		l = append(l, position{text: "func zf(p " + t + ") {\nprint(1)\n}\nzf(§)", ok: []string{t}, top: true})
		l = append(l, position{text: "func zf(a int, p " + t + ", b string) int {\nreturn a\n}\nprint(zf(1, §, \"\"))", ok: []string{t}, top: true})
		l = append(l, position{text: "func zf(p " + t + ", q " + t + ") " + t + " {\nreturn p\n}\nzx := zf(" + lits[t] + ", §)\nzx = " + vals[t], ok: []string{t}, top: true})
		l = append(l, position{text: "return §", ok: []string{t}, fn: t})
		l = append(l, position{text: "return 1, §", ok: []string{t}, fn: "(int, " + t + ")"})
		l = append(l, position{text: "return §, true", ok: []string{t}, fn: "(" + t + ", bool)"})
		l = append(l, position{text: "return \"a\", §, 4", ok: []string{t}, fn: "(string, " + t + ", int)"})
	}
	add("var x error = §", kStr)
	add("ve = §", kStr)
	l = append(l, position{text: "return §", ok: []string{kStr}, fn: "error"})
	l = append(l, position{text: "return 3, §", ok: []string{kStr}, fn: "(int, error)"})
	// Compound assignments.
	add("vi += §", kInt)
	add("vs += §", kStr)
	add("vb += §")
	add("li += §")
	add("ls += §")
	for _, op := range []string{"-=", "*=", "/=", "%="} {
		add("vi "+op+" §", kInt)
		add("vs " + op + " §")
		add("vb " + op + " §")
		add("lb " + op + " §")
	}
	// Slices.
	add("li[§] = 4", kInt)
	add("ls[§] = \"a\"", kInt)
	add("li[0] = §", kInt)
	add("lb[0] = §", kBool)
	add("ls[0] = §", kStr)
	add("li[len(li)] = §", kInt)
	add("print(li[§])", kInt)
	add("print(ls[§] + \"\")", kInt)
	add("x := lb[§]\nx = true", kInt)
	add("x := []int{§}\nx[0] = 1", kInt)
	add("x := []int{1, §}", kInt)
	add("x := []int{§, 1}", kInt)
	add("x := []bool{§}", kBool)
	add("x := []bool{true, false, §}", kBool)
	add("x := []string{§}", kStr)
	add("x := []string{\"a\", §, \"b\"}", kStr)
	add("x := []string{\"a\", \"b\", §}", kStr)
	add("print(len([]int{§}))", kInt)
	// Strings.
	add("print(vs[§])", kInt)
	add("print(vs[§:2])", kInt)
	add("print(vs[0:§])", kInt)
	add("print(vs[§:])", kInt)
	add("print(vs[:§])", kInt)
	add("x := vs[§]\nx = \"\"", kInt)
	add("x := vs[§:2]\nx = \"\"", kInt)
	// Calls.
	add("fvoid3(§, true, \"c\")", kInt)
	add("fvoid3(1, §, \"c\")", kBool)
	add("fvoid3(1, true, §)", kStr)
	add("print(fsl(§, lb, ls))", kSInt)
	add("print(fsl(li, §, ls))", kSBool)
	add("print(fsl(li, lb, §))", kSStr)
	add("x := fmix(§, ls, 0)", kStr)
	add("x := fmix(\"a\", §, 0)", kSStr)
	add("x := fmix(\"a\", ls, §)", kInt)
	add("print(fadd(fadd(1, §), 2))", kInt)
	add("print(fadd(1, fadd(§, 2)))", kInt)
	// Conditions.
	add("if § {\nprint(1)\n}", kBool)
	add("if vb {\nprint(1)\n} else if § {\nprint(2)\n}", kBool)
	add("if vb {\nprint(1)\n} else if vb {\nprint(2)\n} else if § {\nprint(2)\n} else {\nprint(3)\n}", kBool)
	add("if § {\nprint(1)\n} else if vb {\nprint(2)\n} else {\nprint(3)\n}", kBool)
	add("for § {\nbreak\n}", kBool)
	add("for i := 0; §; i++ {\nbreak\n}", kBool)
	add("for ; §; {\nbreak\n}", kBool)
	add("for i := §; i < 3; i++ {\nprint(i)\n}", kInt)
	add("for i := 0; i < §; i++ {\nprint(i)\n}", kInt)
	add("for i := 0; i < 3; i += § {\nprint(i)\n}", kInt)
	add("for i := 0; i < 3; i = § {\nprint(i)\n}", kInt)
	add("for i, k := 0, §; i < 3; i++ {\nk = k\n}", one...)
	add("for i := §; vb; i += \"a\" {\nbreak\n}", kStr)
	// Switches.
	add("switch § {\ncase 1:\nprint(1)\n}", kInt)
	add("switch § {\ncase true:\nprint(1)\n}", kBool)
	add("switch § {\ncase \"a\":\nprint(1)\n}", kStr)
	add("switch § {\ncase 1:\nprint(1)\ncase vi:\nprint(2)\ndefault:\nprint(3)\n}", kInt)
	add("switch vi {\ncase §:\nprint(1)\n}", kInt)
	add("switch vi {\ncase 1:\nprint(0)\ncase §:\nprint(1)\n}", kInt)
	add("switch vi {\ncase 1:\nprint(0)\ncase 2:\nprint(2)\ncase §:\nprint(1)\ndefault:\nprint(4)\n}", kInt)
	add("switch vi {\ndefault:\nprint(4)\ncase §:\nprint(1)\n}", kInt)
	add("switch vb {\ncase §:\nprint(1)\n}", kBool)
	add("switch vs {\ncase §:\nprint(1)\n}", kStr)
	add("switch vs {\ncase \"q\":\nprint(0)\ncase §:\nprint(1)\n}", kStr)
	add("switch {\ncase §:\nprint(1)\n}", kBool)
	add("switch {\ncase vb:\nprint(1)\ncase §:\nprint(1)\n}", kBool)
	add("switch true {\ncase §:\nprint(1)\n}", kBool)
	// Range loops.
	add("for i, v := range § {\nprint(i)\nv = v\n}", kStr, kSInt, kSBool, kSStr)
	add("for i := range § {\nprint(i)\n}", kStr, kSInt, kSBool, kSStr)
	add("for i, v := range § {\nx := i + v\nprint(x)\n}", kSInt)
	add("for i, v := range § {\nx := !v\nprint(i, x)\n}", kSBool)
	add("for i, v := range § {\nx := v + \"\"\nprint(i, x)\n}", kSStr, kStr)
	// Builtins.
	add("print(len(§))", kStr, kSInt, kSBool, kSStr)
	add("x := len(§) + 1", kStr, kSInt, kSBool, kSStr)
	add("print(itoa(§))", kInt)
	add("print(itoa(§) + \"\")", kInt)
	add("print(exists(§))", kStr)
	add("print(read(§))", kStr)
	add("print(read(§) + \"\")", kStr)
	add("write(§, \"d\")", kStr)
	add("write(\"p\", §)", kStr)
	add("write(§, \"d\", true)", kStr)
	add("write(\"p\", §, true)", kStr)
	add("write(\"p\", \"d\", §)", kBool)
	add("print(input(§))", kStr)
	add("x := input(§) + \"\"", kStr)
	add("print(copy(li, §))", kSInt)
	add("copy(li, §)", kSInt)
	add("print(copy(lb, §))", kSBool)
	add("print(copy(ls, §))", kSStr)
	add("x := copy(ls, §) + 1", kSStr)
	sl := []string{kSInt, kSBool, kSStr, kTwo, kThree}
	addSkip("print(§)", sl, kInt, kBool, kStr)
	addSkip("print(1, §)", sl, kInt, kBool, kStr)
	addSkip("print(§, \"a\")", sl, kInt, kBool, kStr)
	addSkip("print((§))", sl, kInt, kBool, kStr)
	// Negation and grouping.
	add("print(!§)", kBool)
	add("x := !§", kBool)
	add("x := !!§", kBool)
	add("x := !(§)", kBool)
	add("x := (§)\nx = x", one...)
	add("x := ((§)) + 1", kInt)
	add("x := (((§))) + \"\"", kStr)
	// Deeper operands.
	add("x := 1 + 2 * §", kInt)
	add("x := 1 - (2 - §)", kInt)
	add("x := § % 2 + 1", kInt)
	add("x := \"a\" + \"b\" + §", kStr)
	add("x := \"a\" + (\"b\" + §)", kStr)
	add("x := vb && vb && §", kBool)
	add("x := vb || vb && §", kBool)
	add("x := vb && § || vb", kBool)
	add("x := vb || (vb || §)", kBool)
	add("x := vb && !§", kBool)
	add("x := 1 < 2 == §", kBool)
	add("x := vi + 1 == §", kInt)
	add("x := § == vi * 2", kInt)
	add("x := vb && vi < §", kInt)
	add("x := vs + \"a\" == §", kStr)
	add("x := itoa(1 + §)", kInt)
	add("x := li[vi + §]", kInt)
	add("x := li[li[§]]", kInt)
	add("x := fi() + §", kInt)
	add("x := § + fi()", kInt)
	add("x := fs() + §", kStr)
	add("x := § - len(vs)", kInt)
	return l
}

type fixedProg struct {
	text string
	ok   bool
	fn   string
}

// typedFixed lists arity errors, targets of wrong types and the like.
func typedFixed() []fixedProg {
	l := []fixedProg{}
	y := func(t ...string) {
		for _, s := range t {
			l = append(l, fixedProg{text: s, ok: true})
		}
	}
	n := func(t ...string) {
		for _, s := range t {
			l = append(l, fixedProg{text: s})
		}
	}
	// Arity.
	n("fi(1)", "fi(vi, vi)", "print(fi(1))", "fadd(1)", "fadd()", "fadd(1, 2, 3)", "print(fadd(1))", "print(fadd(1, 2, 3))", "fvp()", "fvp(1, 2)", "fv(1)", "fvoid3(1, true)", "fvoid3(1, true, \"a\", 1)", "fvoid3()",
		"x := fsl(li)", "x := fsl(li, lb, ls, ls)", "fadd(f2())\nx := fadd(f2(), f2())")
	y("fi()", "fadd(1, 2)", "fvp(1)", "fv()", "fvoid3(1, true, \"a\")", "f2()", "f3()", "x := fsl(li, lb, ls)")
	n("print(len())", "print(len(vs, vs))", "print(itoa())", "print(itoa(1, 2))", "print(exists())", "print(exists(\"a\", \"b\"))", "print(read())", "print(read(\"a\", \"b\"))", "write()", "write(\"p\")", "write(\"p\", \"d\", true, true)",
		"copy(li)", "copy()", "copy(li, li, li)", "print(input(\"a\", \"b\"))")
	y("write(\"p\", \"d\")", "write(\"p\", \"d\", false)", "print(input())", "copy(li, li)")
	// Values which a function does not have.
	n("x := fv()", "var x = fv()", "var x int = fv()", "vi = fv()", "print(fv())", "print(1 + fv())", "print(fv() + 1)", "x, y := fv()", "if fv() {\nprint(1)\n}", "fvp(fv())", "x := f2() + 1", "x := 1 + f2()", "vi = f2()", "x := f2()", "var x = f2()", "var x int = f2()",
		"x, y, z := f2()", "x, y := f3()", "vi, x := f3()", "x := li[f2()]", "li[f2()] = 1", "li[0] = f2()", "li[0] = fv()", "x := []int{f2()}", "x := !fv()", "x := !f2()", "x, y := 1, f2()", "x, y := f2(), 1", "x, y, z := f2(), 1", "x, y := fi()",
		"x, y := 1", "x := 1, 2", "var x, y int = 1", "var x int = 1, 2", "vi, vb = 1", "vi = 1, 2", "x, y, z := 1, 2")
	y("x, y := f2()", "x, y, z := f3()", "var x, y = f2()", "var x, y int = f2()", "x := 1\nvi, x = f2()", "x, y := 1, \"a\"")
	n("var x, y string = f2()", "var x, y bool = f2()", "var x, y, z string = f3()", "var x, y, z int = f3()", "vi, vb = f2()", "vs, vi = f2()", "vb, vi = f2()", "vi, vs, vi = f3()", "vs, vi, vs = f3()", "vs, vs, vs = f3()",
		"vs, x := f2()", "x, vb := f2()", "vs, x, y := f2()", "x, vb, y := f3()", "vi, x, y := f3()", "x, y, vs := f3()")
	y("vs, x, y := f3()", "x, vs, y := f3()", "x, y, vi := f3()", "vi, x := f2()", "x := \"\"\nvs, x, vi = f3()")
	// Types of introduced variables.
	n("x := fi()\nx = true", "x := fb()\nx = 1", "x := fs()\nx = 1", "x := fe()\nx = 1", "x := fli()\nx = ls", "x := flb()\nx = li", "x, y := f2()\ny = \"a\"", "x, y, z := f3()\nz = \"a\"", "x, y, z := f3()\nx = 1", "x, y, z := f3()\ny = 1",
		"var x int\nx = \"a\"", "var x string\nx = 1", "var x bool\nx = 1", "var x error\nx = 1", "var x []int\nx = ls", "var x, y int\ny = true", "x, y := 1, \"a\"\ny = 2", "x, y := 1, \"a\"\nx = \"b\"", "x := vs[0]\nx = 1", "x := li[0]\nx = \"a\"", "x := ls[0]\nx = 1", "x := lb[0]\nx = 1",
		"x := len(vs)\nx = \"a\"", "x := itoa(1)\nx = 1", "x := exists(\"a\")\nx = 1", "x := read(\"a\")\nx = 1", "x := input()\nx = 1", "x := copy(li, li)\nx = \"\"", "x := vi == 1\nx = 1", "x := vi + 1\nx = true", "x := vs + \"a\"\nx = 1", "x := !vb\nx = 1", "x := vb && vb\nx = \"a\"", "x := (vi)\nx = \"a\"",
		"x := []int{}\nx[0] = \"a\"", "x := []string{}\nx[0] = 1", "x := []bool{}\nx[0] = 1", "var x []string\nx[0] = true", "x := li\nx[0] = \"a\"", "x := fls()\nx[0] = 1", "x := nil\nx = 1")
	// Targets.
	n("vi[0] = 1", "vb[0] = true", "vs[0] = \"a\"", "x := vi[0]", "x := vb[0]", "x := ve[0]\nx = 1", "print(vi[0:1])", "print(vb[0:1])", "print(vi[:])", "print(vb[1:])", "vs++", "vb++", "vs--", "vb--", "li++", "ls--", "copy(vs, vs)", "copy(vi, li)", "copy(ls, vs)", "copy(li, vi)", "copy(vb, lb)",
		"for i := \"a\"; vb; i++ {\nbreak\n}", "for i := true; i; i-- {\nbreak\n}", "for i := 0; i < 2; vs++ {\nprint(i)\n}", "for i, v := range li {\ni = v\nv = \"a\"\n}", "for i, v := range ls {\nv = i\n}", "for i, v := range vs {\nv = i\n}", "for i := range vs {\ni = \"a\"\n}", "for i, v := range lb {\ni = v\n}", "for i := range li {\nx := i + \"\"\n}")
	y("vi++", "vi--", "for i := 0; i < 2; vi-- {\nprint(i)\nbreak\n}", "for i, v := range ls {\nv = itoa(i)\n}", "for i, v := range vs {\nx := v + vs\nprint(i, x)\n}")
	// nil and error.
	y("ve = nil", "var x error = nil", "if ve != nil {\nprint(ve)\n}", "if ve == nil {\nprint(1)\n}", "if nil == ve {\nprint(1)\n}", "vs = ve", "ve = vs", "var x string = ve", "x := ve + vs", "if vs == ve {\nprint(1)\n}", "fvoid3(1, true, ve)")
	n("vi = nil", "vb = nil", "var x int = nil", "var x bool = nil", "x := vi == nil", "x := vb != nil", "x := nil + 1", "x := 1 + nil", "x := !nil", "if nil {\nprint(1)\n}", "vi = ve", "x := ve + 1", "x := ve && vb", "fvoid3(nil, true, vs)", "fvoid3(1, nil, vs)", "x := []int{nil}", "x := []bool{nil}", "x := li[nil]", "for nil {\nprint(1)\n}", "x := vi < nil", "vi += nil", "switch vi {\ncase nil:\nprint(1)\n}", "x := itoa(nil)", "for i, v := range 5 {\nprint(i)\n}", "for i := range true {\nprint(i)\n}")
	// Captured calls.
	y("x, y, z := @ls()", "x, y, z := @ls(vs, \"a\") | @cat()", "vs, ve, vi = @ls()", "x, y, z := @`ls`()\nx = y\nz = 1", "@ls(vs)", "var x, y, z = @ls()")
	n("x, y, z := @ls()\nz = \"a\"", "x, y, z := @ls()\nx = 1", "x, y, z := @ls()\ny = 1", "vi, vs, vs = @ls()", "vs, vs, vs = @ls()", "vs, vi, vi = @ls()", "vb, vs, vi = @ls()", "vs, vs, vb = @ls()", "x, y := @ls()", "x := @ls()", "w, x, y, z := @ls()", "vi = @ls()", "x := 1 + @ls()", "vs = @ls()", "vs, ve = @ls()",
		"var x, y, z string = @ls()", "var x, y, z int = @ls()", "if @ls() {\nprint(1)\n}", "vi += @ls()", "fvp(@ls())")
	// Slices.
	n("li = ls", "li = 1", "li = lb", "x := li + li", "x := li + 1", "x := li && vb", "x := !li", "x := li < li", "x := li < 1", "if li {\nprint(1)\n}", "var x []int = []string{}", "x := []int{1, \"a\"}", "x := []string{1}", "x := []bool{1}", "x := []int{li}", "x := []string{ls}", "li[0] = li", "ls[ls] = \"\"", "li[\"0\"] = 1", "li[true] = 1")
	y("li = []int{1}", "li = fli()", "x := li", "x := []int{vi, fi(), li[0]}", "x := []bool{vb, vi == 1}")
	// Returns.
	f := func(ok bool, fn string, t ...string) {
		for _, s := range t {
			l = append(l, fixedProg{text: s, ok: ok, fn: fn})
		}
	}
	f(false, "int", "return 1, 2", "return f2()", "return nil", "return \"\"", "return fv()", "return f3()")
	f(true, "int", "return 1", "return fi()", "return li[0]")
	f(false, "(int, int)", "return 1", "return 1, 2, 3", "return 1, \"a\"", "return \"a\", 1", "return f2(), 1", "return 1, f2()", "return f3()", "return fi()", "return nil, 1", "return 1, nil")
	f(true, "(int, int)", "return 1, fi()")
	f(false, "(string, string, int)", "return \"a\", \"b\"", "return \"a\", 1, \"b\"", "return 1, \"a\", \"b\"", "return f2()")
	f(true, "(string, string, int)", "return vs, ve, vi", "return nil, nil, 1")
	f(true, "error", "return nil", "return vs", "return \"e\"")
	f(true, "(int, error)", "return 1, nil")
	f(false, "(int, error)", "return nil, 1", "return nil, nil")
	f(false, "bool", "return nil", "return 1", "return vs", "return vb, vb")
	f(false, "[]int", "return ls", "return 1", "return []string{}", "return li, li", "return li[0]")
	f(true, "[]int", "return li", "return []int{}", "return fli()")
	f(false, "[]string", "return li", "return vs", "return ls[0]")
	f(false, "", "return 1", "return vs", "return fi()", "return f2()", "return 1, 2")
	return l
}

// context wraps a statement list; fn: results of the enclosing function ("-" = not within a function).
type tctx struct {
	name string
	fn   bool
	wrap func(s string) string
}

var innerCtx = []tctx{
	{"plain", false, func(s string) string { return s }},
	{"if", false, func(s string) string { return "if vb {\n" + s + "\n}" }},
	{"else", false, func(s string) string { return "if vb {\nprint(0)\n} else {\n" + s + "\n}" }},
	{"else if", false, func(s string) string {
		return "if vb {\nprint(0)\n} else if vi == 1 {\n" + s + "\n} else {\nprint(1)\n}"
	}},
	{"for", false, func(s string) string { return "for zi := 0; zi < 1; zi++ {\n" + s + "\n}" }},
	{"for cond", false, func(s string) string { return "for vb {\nprint(0)\n" + s + "\nbreak\n}" }},
	{"for ever", false, func(s string) string { return "for {\n" + s + "\nbreak\n}" }},
	{"range", false, func(s string) string { return "for zi, zv := range ls {\nprint(zi, zv)\n" + s + "\n}" }},
	{"case", false, func(s string) string { return "switch vi {\ncase 1:\n" + s + "\n}" }},
	{"second case", false, func(s string) string {
		return "switch vs {\ncase \"a\":\nprint(0)\ncase \"b\":\n" + s + "\ndefault:\nprint(2)\n}"
	}},
	{"default", false, func(s string) string { return "switch {\ncase vb:\nprint(0)\ndefault:\n" + s + "\n}" }},
	{"nested", false, func(s string) string {
		return "for zi := 0; zi < 1; zi++ {\nif vb {\nprint(1)\n} else {\nswitch vi {\ncase 3:\n" + s + "\n}\n}\n}"
	}},
	{"nested 2", false, func(s string) string {
		return "if vb {\nfor zi, zv := range li {\nzi = zv\nif vb {\n" + s + "\n}\n}\n}\nprint(3)"
	}},
	{"after", false, func(s string) string { return "if vb {\nprint(1)\n}\n" + s + "\nprint(2)" }},
}

var outerCtx = []string{"top", "func", "funcret", "unused", "module", "module func"}

// place builds a program which contains the statements s at a place; rets: the statements need a function with
// these results ("-": any place).
func place(s string, rets string, outer, inner int) map[string]string {
	needs := rets != "-"
	body := innerCtx[inner].wrap(s)
	o := outerCtx[outer]
	if needs && (o == "top" || o == "funcret") {
		o = "func"
	}
	if needs && o == "module" {
		o = "module func"
	}
	head := "func zzf("
	tail := ""
	params := ""
	if outer%2 == 1 {
		params = "zp int"
	}
	if needs {
		tail = dummyReturn(rets)
	} else if o == "funcret" {
		rets, tail = "int", "return 1"
	} else {
		rets = ""
	}
	fn := head + params + ") " + rets + " {\n" + body + "\n" + tail + "\n}\n"
	use := "zzf("
	if params != "" {
		use += "1"
	}
	use += ")\n"
	switch o {
	case "top":
		return map[string]string{"main.tsh": typedPrelude + body + "\n"}
	case "func", "funcret":
		return map[string]string{"main.tsh": typedPrelude + fn + use}
	case "unused":
		return map[string]string{"main.tsh": typedPrelude + fn + "print(1)\n"}
	case "module":
		return map[string]string{"main.tsh": "import zm \"m.tsh\"\nprint(1)\n", "m.tsh": typedPrelude + body + "\n"}
	case "module func":
		return map[string]string{"main.tsh": "import (\nzm \"m.tsh\"\n)\nprint(1)\n", "m.tsh": typedPrelude + fn}
	}
	panic("place")
}

func dummyReturn(rets string) string {
	if rets == "" {
		return ""
	}
	d := map[string]string{"int": "1", "bool": "true", "string": `""`, "error": "nil", "[]int": "[]int{}", "[]bool": "[]bool{}", "[]string": "[]string{}"}
	x := []string{}
	for _, t := range strings.Split(strings.Trim(rets, "()"), ",") {
		x = append(x, d[strings.TrimSpace(t)])
	}
	return "return " + strings.Join(x, ", ")
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// padding is a long valid prefix: what comes behind it has to be judged the same way.
var padding = func() string {
	b := strings.Builder{}
	for i := 0; i < 14; i++ {
		fmt.Fprintf(&b, "zpadv%d := %s\n", i, []string{"1", `"s"`, "true", "[]int{1, 2}"}[i%4])
	}
	for i := 0; i < 7; i++ {
		fmt.Fprintf(&b, "func zpadf%d(zpa int, zpb string) (int, string) {\nzpc := zpa * %d\nfor zpi := 0; zpi < 2; zpi++ {\nif zpi == zpc {\ncontinue\n}\nzpc += zpi\n}\nreturn zpc, zpb + \"x\"\n}\n", i, i+2)
	}
	b.WriteString("for zpi, zpe := range zpadv3 {\nfor zpj := 0; zpj < 2; zpj++ {\nfor {\nif zpe == zpj {\nswitch zpi {\ncase 0:\nzpadv0 = len(zpadv1) + zpj\ncase 1:\nzpadv3[zpi] = zpe\ndefault:\nzpadv2 = !zpadv2\n}\n}\nbreak\n}\n}\n}\n")
	b.WriteString("zpadx, zpady := zpadf1(zpadv0, zpadv1)\nprint(zpadx, zpady, zpady[0:1], exists(zpady))\nif zpadv2 {\nprint(itoa(zpadx))\n} else if zpadx > 3 {\nzpadx -= 1\n} else {\nzpadf2(zpadv4, \"q\")\n}\n")
	return b.String()
}()

// padded puts the padding in front of the files that do not begin with an import.
func padded(files map[string]string) map[string]string {
	out := map[string]string{}
	for n, t := range files {
		if !strings.HasPrefix(t, "import") {
			t = padding + t
		}
		out[n] = t
	}
	return out
}

// verdict transpiles and compares acceptance. want: 1 accept, 0 reject, -1 only equal for both targets.
func (c *Ctx) acceptance(s *Slot, kase string, files map[string]string, want int) bool {
	if (c.ID == "C06" || c.ID == "C07") && !strings.HasPrefix(kase, "reject") && !strings.HasPrefix(kase, "accept") && seedFor("pad", kase)%10 == 0 {
		files = padded(files)
		c.count("cases behind a long prefix", 1)
	}
	path := s.writeSources(files, "main.tsh")
	resp := s.transpile(path)
	c.eval(1)
	detail := func() map[string]string {
		d := map[string]string{}
		for n, t := range files {
			d["source "+n] = t
		}
		for i, o := range resp.Outs {
			d[[]string{"bash", "batch"}[i]] = fmt.Sprintf("error: %v %s\n%s", o.IsErr, o.Err, clip(o.Text, 4000))
		}
		return d
	}
	if resp.Slow {
		c.inconclusive(kase + ": " + resp.Dead)
		return true
	}
	if resp.Dead != "" {
		c.violate(kase, "transpilation: "+clip(resp.Dead, 300), detail())
		return false
	}
	a, b := resp.Outs[0], resp.Outs[1]
	bad := ""
	for i, o := range resp.Outs {
		t := []string{"bash", "batch"}[i]
		switch {
		case o.Panic != "":
			bad = "transpilation to " + t + " panics: " + clip(o.Panic, 200)
		case o.IsErr && o.Text != "":
			bad = "an error and a script are returned for " + t
		case o.IsErr && strings.TrimSpace(o.Err) == "":
			bad = "empty error for " + t
		case !o.IsErr && o.Text == "":
			bad = "neither error nor script for " + t
		}
	}
	if bad == "" {
		switch {
		case a.IsErr != b.IsErr:
			bad = "the targets disagree about the validity of the program"
		case want == 1 && a.IsErr:
			bad = "valid program is rejected: " + clip(a.Err, 200)
		case want == 0 && !a.IsErr:
			bad = "invalid program is accepted"
		}
	}
	if a.IsErr {
		c.count("rejected", 1)
	} else {
		c.count("accepted", 1)
	}
	if bad != "" {
		c.violate(kase, bad, detail())
		return false
	}
	return true
}

type typeCase struct {
	name         string
	text         string
	rets         string
	top          bool
	outer, inner int
	want         int
}

func typeCases(thorough bool) []typeCase {
	l := []typeCase{}
	rot := 0
	ctxs := func(f func(o, i int), n int) {
		for k := 0; k < n; k++ {
			f(rot%len(outerCtx), rot/len(outerCtx)%len(innerCtx))
			rot++
			if rot%(len(outerCtx)*len(innerCtx)) == 0 {
				rot += 5
			}
		}
	}
	for _, p := range typedPositions() {
		for _, k := range allKinds {
			if has(p.skip, k) {
				continue
			}
			want := 0
			if has(p.ok, k) {
				want = 1
			}
			for _, sp := range spellings[k] {
				n := 3
				if sp == spellings[k][0] {
					n = 14
				}
				if thorough {
					n = len(outerCtx) * len(innerCtx)
				}
				if strings.HasPrefix(sp, "-") && strings.Contains(p.text, "!§") {
					continue // Sign in front of a literal.
				}
				tc := typeCase{name: strings.ReplaceAll(p.text, "\n", "; ") + " <- " + sp, text: strings.ReplaceAll(p.text, "§", sp), rets: "-", want: want}
				if p.top {
					tc.top = true
					l = append(l, tc)
					continue
				}
				if p.fn != "" {
					tc.rets = p.fn
				}
				ctxs(func(o, i int) {
					t := tc
					t.outer, t.inner = o, i
					l = append(l, t)
				}, n)
			}
		}
	}
	// Operators over all pairs of kinds.
	for _, op := range []string{"+", "-", "*", "/", "%", "==", "!=", "<", "<=", ">", ">=", "&&", "||"} {
		for _, a := range allKinds {
			for _, b := range allKinds {
				slices := strings.HasPrefix(a, "[]") && strings.HasPrefix(b, "[]")
				want := 0
				switch op {
				case "+":
					if a == b && (a == kInt || a == kStr) {
						want = 1
					}
				case "-", "*", "/", "%":
					if a == b && a == kInt {
						want = 1
					}
				case "==", "!=":
					if slices && a == b {
						continue
					}
					if a == b && (a == kInt || a == kStr || a == kBool) {
						want = 1
					}
				case "<", "<=", ">", ">=":
					if a == kStr && b == kStr {
						continue
					}
					if a == b && a == kInt {
						want = 1
					}
				default:
					if a == b && a == kBool {
						want = 1
					}
				}
				n := 4
				if thorough {
					n = 40
				}
				for k := 0; k < n; k++ {
					sa, sb := spellings[a][k%len(spellings[a])], spellings[b][(k*3+1)%len(spellings[b])]
					for _, form := range []string{"x := %s", "print(%s)", "x := (%s)\nx = x"} {
						tc := typeCase{name: a + " " + op + " " + b, text: fmt.Sprintf(form, sa+" "+op+" "+sb), rets: "-", want: want}
						ctxs(func(o, i int) { tc.outer, tc.inner = o, i; l = append(l, tc) }, 1)
					}
				}
			}
		}
	}
	for _, f := range typedFixed() {
		want := 0
		if f.ok {
			want = 1
		}
		n := 12
		if thorough {
			n = len(outerCtx) * len(innerCtx)
		}
		rets := "-"
		if f.fn != "" || strings.HasPrefix(f.text, "return") {
			rets = f.fn
		}
		ctxs(func(o, i int) {
			l = append(l, typeCase{name: strings.ReplaceAll(f.text, "\n", "; "), text: f.text, rets: rets, want: want, outer: o, inner: i})
		}, n)
	}
	return l
}

func runC06(c *Ctx) {
	cases := typeCases(c.thorough())
	c.each("positions", len(cases), func(s *Slot, i int, r *rand.Rand) {
		t := cases[i]
		files := map[string]string{}
		if t.top {
			files["main.tsh"] = typedPrelude + t.text + "\n"
		} else {
			files = place(t.text, t.rets, t.outer, t.inner)
		}
		c.seen(fmt.Sprint(files))
		c.sample("position", t.name+fmt.Sprintf(" (in %s/%s): want accepted=%v", outerCtx[t.outer], innerCtx[t.inner].name, t.want == 1))
		c.acceptance(s, fmt.Sprintf("positions:%d %s (in %s/%s)", i, t.name, outerCtx[t.outer], innerCtx[t.inner].name), files, t.want)
	})
	c.corruptions(c.pick(6000, 150000))
}
