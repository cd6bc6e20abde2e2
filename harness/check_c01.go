package main

import (
	"fmt"
	"math/rand/v2"
	"strings"
)

func init() {
	checks["C01"] = check{run: runC01,
		rule: "generated well-typed scalar programs plus exhaustive operator, statement and boundary tables, compiled by the real transpiler and executed by /bin/bash; stdout, exit status and stderr are compared with a reference interpreter. Distinct = distinct program text; non-trivial = at least one loop iteration or branch and at least three lines of output.",
		asm:  []string{"/bin/bash 5.2 of the sandbox stands for the shell", "undefined programs (division by zero, break inside a switch, INT64_MIN / -1) are not generated"}}
}

func scalarOpt(r int) GenOpt {
	o := GenOpt{Bits: 64, Stmts: 8, Depth: 4, EDepth: 4, Panic: true, BigInts: true}
	switch r % 4 {
	case 1:
		o.Stmts, o.Depth, o.EDepth = 5, 5, 3
	case 2:
		o.Stmts, o.Depth, o.EDepth = 4, 1, 7
	case 3:
		o.Stmts, o.Depth, o.EDepth = 14, 3, 2
	}
	return o
}

func nontrivialProg(in *Interp) bool {
	return in.Lines >= 3 && in.Kinds[SFor]+in.Kinds[SIf]+in.Kinds[SSwitch]+in.Kinds[SRange] > 0
}

func runC01(c *Ctx) {
	c.opTables(onBash, 64)
	c.ctlTables(onBash, 64)
	c.tableProgs("scale", scaleTable("s", 64, c.thorough()), onBash, 64)
	c.matrix([]Type{TInt, TBool, TStr}, mxPlain, onBash, 64, c.pick(1, 6), false)
	c.genPhase("gen", c.pick(6000, 120000), func(i int) GenOpt { return scalarOpt(i) }, onBash, nontrivialProg)
}

// opTables evaluates all operator pairs and triples over edge values.
func (c *Ctx) opTables(tgt Target, bits int) {
	type ent struct {
		e *Expr
	}
	ints := []int64{0, 1, -1, 2, -3, 7, 10, 100, 9223372036854775807, -9223372036854775808, -9223372036854775807, 2147483648, -2147483649, 4294967296}
	if bits == 32 {
		ints = []int64{0, 1, -1, 2, -3, 7, 10, 100, 9, 2147483647, -2147483647, 65536, -46341}
	}
	arith := []string{"+", "-", "*", "/", "%"}
	cmps := []string{"==", "!=", "<", "<=", ">", ">="}
	// All expressions are collected and then distributed over scripts.
	exprs := []*Expr{}
	vs := map[int64]*Var{}
	defs := []*Stmt{}
	for i, x := range ints {
		v := &Var{Name: fmt.Sprintf("n%d", i), T: TInt, Global: true}
		vs[x] = v
		defs = append(defs, def(v, lit(x)))
	}
	bt, bf := &Var{Name: "bt", T: TBool, Global: true}, &Var{Name: "bf", T: TBool, Global: true}
	defs = append(defs, def(bt, lit(true)), def(bf, lit(false)))
	strs := []string{"", "a", "A", "0", "-1", "a b", " ", "ab"}
	sv := map[string]*Var{}
	for i, x := range strs {
		v := &Var{Name: fmt.Sprintf("s%d", i), T: TStr, Global: true}
		sv[x] = v
		defs = append(defs, def(v, lit(x)))
	}
	for _, a := range ints {
		for _, b := range ints {
			for _, op := range arith {
				exprs = append(exprs, bin(op, ev(vs[a]), ev(vs[b])), bin(op, lit(a), ev(vs[b])), bin(op, ev(vs[a]), lit(b)))
			}
			for _, op := range cmps {
				exprs = append(exprs, cmp(op, ev(vs[a]), ev(vs[b])), cmp(op, lit(a), lit(b)))
			}
		}
		exprs = append(exprs, eitoa(lit(a)), eitoa(ev(vs[a])), eitoa(bin("-", ev(vs[a]), lit(1))))
	}
	for _, a := range strs {
		for _, b := range strs {
			for _, op := range cmps[:2] {
				exprs = append(exprs, cmp(op, ev(sv[a]), ev(sv[b])), cmp(op, lit(a), ev(sv[b])), cmp(op, bin("+", ev(sv[a]), lit(b)), lit(a+b)))
			}
		}
	}
	// Two arithmetic operators in both tree shapes.
	tri := []int64{7, -3, 2, 100}
	for _, o1 := range arith {
		for _, o2 := range arith {
			for _, a := range tri {
				for _, b := range tri {
					for _, d := range tri[:3] {
						exprs = append(exprs, bin(o2, bin(o1, lit(a), ev(vs[b])), lit(d)), bin(o1, ev(vs[a]), bin(o2, lit(b), ev(vs[d]))))
					}
				}
			}
		}
	}
	// Boolean operators: all trees with three leaves over literals, variables and negations.
	bl := []*Expr{lit(true), lit(false), ev(bt), not(ev(bt)), not(ev(bf)), not(lit(true)), not(not(ev(bt)))}
	lops := []func(a, b *Expr) *Expr{}
	for _, o := range []string{"&&", "||"} {
		lops = append(lops, func(a, b *Expr) *Expr { return logic(o, a, b) })
	}
	for _, o := range []string{"==", "!="} {
		lops = append(lops, func(a, b *Expr) *Expr { return cmp(o, a, b) })
	}
	for _, f := range lops {
		for _, g := range lops {
			for _, a := range bl {
				for _, b := range bl {
					for _, d := range bl[:5] {
						exprs = append(exprs, g(f(a, b), d), f(a, g(b, d)))
					}
				}
			}
		}
	}
	// Four-leaf logical trees mixing comparisons (precedence between the levels).
	for m := 0; m < 64; m++ {
		x := func(k int) *Expr {
			v := []int64{1, 2}[m>>k&1]
			return cmp("==", lit(v), lit(1))
		}
		for _, o := range [][3]string{{"&&", "||", "&&"}, {"||", "&&", "||"}, {"&&", "&&", "||"}, {"||", "&&", "&&"}, {"||", "||", "&&"}, {"&&", "||", "||"}} {
			exprs = append(exprs, mixed(o[:], []*Expr{x(0), x(1), x(2), x(3)}))
			exprs = append(exprs, mixed(o[:], []*Expr{not(x(0)), x(1), not(x(4)), cmp("<", bin("+", lit(m%5), lit(1)), bin("*", lit(2), lit(m%3)))}))
		}
	}
	// String concatenation trees.
	for _, a := range strs {
		for _, b := range strs {
			exprs = append(exprs, bin("+", bin("+", lit("["), ev(sv[a])), bin("+", ev(sv[b]), lit("]"))), bin("+", lit("x"), group(bin("+", ev(sv[a]), bin("+", lit(b), lit("y"))))))
		}
	}
	good := []*Expr{}
	for _, e := range exprs {
		in := &Interp{Bits: bits, Max: 1000}
		if ok, _ := in.Run(&Module{Body: append(append([]*Stmt{}, defs...), sprint(e))}, nil); ok {
			good = append(good, e)
		}
	}
	per := 60
	n := (len(good) + per - 1) / per
	c.each("optable", n, func(s *Slot, i int, r *rand.Rand) {
		m := &Module{Body: append([]*Stmt{}, defs...)}
		k := 0
		for j := i * per; j < (i+1)*per && j < len(good); j++ {
			e := good[j]
			k++
			switch r.IntN(5) {
			case 0:
				v := &Var{Name: fmt.Sprintf("q%d", j), T: e.T, Global: true}
				m.Body = append(m.Body, def(v, e), sprint(lit(j), ev(v)))
			case 1:
				if e.T == TBool {
					m.Body = append(m.Body, sif(e, sprint(lit(j), lit("yes"))))
					continue
				}
				fallthrough
			default:
				m.Body = append(m.Body, sprint(lit(j), e))
			}
		}
		in := &Interp{Bits: bits, Max: 100000}
		if ok, why := in.Run(m, nil); !ok {
			panic("harness: optable " + why)
		}
		c.count("operator table expressions", k)
		p := mainProg(m, in, tgt)
		c.seen(p.Files["main.tsh"])
		c.judge(s, fmt.Sprintf("optable:%d", i), p, func() *Prog { return c.shrink(s, m, bits, tgt) })
	})
}

// mixed builds the tree which Go's precedence gives to x0 o0 x1 o1 x2 ...
func mixed(ops []string, x []*Expr) *Expr {
	lvl := func(o string) int { return map[string]int{"||": 1, "&&": 2}[o] }
	var build func(ops []string, x []*Expr) *Expr
	build = func(ops []string, x []*Expr) *Expr {
		if len(ops) == 0 {
			return x[0]
		}
		k := len(ops) - 1
		for i := k; i >= 0; i-- {
			if lvl(ops[i]) < lvl(ops[k]) {
				k = i
			}
		}
		return logic(ops[k], build(ops[:k], x[:k+1]), build(ops[k+1:], x[k+1:]))
	}
	return build(ops, x)
}

// ctlTables: control flow skeletons, exhaustively over their small parameters.
func (c *Ctx) ctlTables(tgt Target, bits int) {
	type sk struct {
		name string
		m    *Module
	}
	all := []sk{}
	add := func(name string, b ...*Stmt) { all = append(all, sk{name, &Module{Body: b}}) }
	I := func(n string) *Var { return &Var{Name: n, T: TInt} }
	B := func(n string) *Var { return &Var{Name: n, T: TBool} }

	// if / else-if / else chains: all truth patterns.
	for n := 1; n <= 4; n++ {
		for mask := 0; mask < 1<<n; mask++ {
			for els := 0; els < 2; els++ {
				st := &Stmt{K: SIf, Else: els == 1}
				b := []*Stmt{}
				for k := 0; k < n; k++ {
					v := B(fmt.Sprintf("c%d", k))
					b = append(b, def(v, lit(mask>>k&1 == 1)))
					st.X = append(st.X, ev(v))
					st.Blocks = append(st.Blocks, []*Stmt{sprint(lit("b"), lit(k))})
				}
				if els == 1 {
					st.Blocks = append(st.Blocks, []*Stmt{sprint(lit("else"))})
				}
				b = append(b, st, sprint(lit("after")))
				add("if", b...)
			}
		}
	}
	// switch: number of cases x position of default x tag value x tag type (and without tag).
	for n := 0; n <= 3; n++ {
		for d := -1; d <= n; d++ {
			for tv := 0; tv <= n; tv++ {
				for ty := 0; ty < 4; ty++ {
					st := &Stmt{K: SSwitch, Def: d}
					mk := func(k int) *Expr {
						switch ty {
						case 0:
							return lit(k)
						case 1:
							return lit([]string{"a", "b", "", "a b"}[k])
						case 2:
							return lit(k%2 == 0)
						}
						return cmp("==", lit(k), lit(tv))
					}
					if ty != 3 {
						st.Tag = mk(tv)
					}
					for k := 0; k < n; k++ {
						st.X = append(st.X, mk(k))
					}
					nb := n
					if d >= 0 {
						nb++
					}
					for k := 0; k < nb; k++ {
						st.Blocks = append(st.Blocks, []*Stmt{sprint(lit("blk"), lit(k))})
					}
					add("switch", st, sprint(lit("after")))
				}
			}
		}
	}
	// Loops: kind x break/continue position x iteration, single and nested with a second loop, within else-if chains.
	mkLoop := func(kind int, v string, n int, body func(i *Var) []*Stmt) []*Stmt {
		i := I(v)
		switch kind {
		case 0:
			return []*Stmt{{K: SFor, Form: "3", Init: def(i, lit(0)), Cond: cmp("<", ev(i), lit(n)), Post: &Stmt{K: SInc, Op: "++", Vars: []*Var{i}}, Blocks: [][]*Stmt{body(i)}}}
		case 1:
			return []*Stmt{{K: SFor, Form: "3", Init: def(i, lit(n)), Cond: cmp(">", ev(i), lit(0)), Post: &Stmt{K: SInc, Op: "--", Vars: []*Var{i}}, Blocks: [][]*Stmt{body(i)}}}
		case 2:
			return []*Stmt{def(i, lit(0)), {K: SFor, Cond: cmp("<", ev(i), lit(n)), Blocks: [][]*Stmt{append([]*Stmt{{K: SInc, Op: "++", Vars: []*Var{i}}}, body(i)...)}}}
		case 3:
			return []*Stmt{def(i, lit(0)), {K: SFor, Blocks: [][]*Stmt{append([]*Stmt{{K: SInc, Op: "++", Vars: []*Var{i}}, sif(cmp(">", ev(i), lit(n)), &Stmt{K: SBreak})}, body(i)...)}}}
		case 4:
			return []*Stmt{{K: SRange, Vars: []*Var{i, {Name: v + "v", T: TStr}}, X: []*Expr{lit("wxyz"[:n])}, Blocks: [][]*Stmt{body(i)}}}
		}
		return []*Stmt{def(i, lit(0)), {K: SFor, Form: "3", Post: &Stmt{K: SOpAssign, Op: "+=", Vars: []*Var{i}, X: []*Expr{lit(1)}}, Blocks: [][]*Stmt{append([]*Stmt{sif(cmp(">=", ev(i), lit(n)), &Stmt{K: SBreak})}, body(i)...)}}}
	}
	for kind := 0; kind < 6; kind++ {
		for n := 0; n < 4; n++ {
			for jump := 0; jump < 5; jump++ {
				add("loop", append(mkLoop(kind, "i", n, func(i *Var) []*Stmt {
					j := &Stmt{K: SBreak}
					if jump%2 == 1 {
						j = &Stmt{K: SContinue}
					}
					pre, post := sprint(lit("pre"), ev(i)), sprint(lit("post"), ev(i))
					switch jump {
					case 0, 1:
						return []*Stmt{pre, sif(cmp("==", ev(i), lit(1)), j), post}
					case 2, 3:
						return []*Stmt{pre, {K: SIf, X: []*Expr{cmp("==", ev(i), lit(0)), cmp("==", ev(i), lit(2))}, Blocks: [][]*Stmt{{sprint(lit("zero"))}, {sprint(lit("two")), j}, {sprint(lit("other"))}}, Else: true}, post}
					}
					return []*Stmt{pre, post}
				}), sprint(lit("done")))...)
			}
		}
		for kind2 := 0; kind2 < 6; kind2++ {
			for jump := 0; jump < 6; jump++ {
				b := mkLoop(kind, "i", 3, func(i *Var) []*Stmt {
					inner := mkLoop(kind2, "j", 3, func(j *Var) []*Stmt {
						l := []*Stmt{sprint(lit("in"), ev(i), ev(j))}
						switch jump {
						case 0:
							l = append(l, sif(cmp("==", ev(j), lit(1)), &Stmt{K: SBreak}))
						case 1:
							l = append(l, sif(cmp("==", ev(j), ev(i)), &Stmt{K: SContinue}))
						}
						return append(l, sprint(lit("endin"), ev(j)))
					})
					l := append([]*Stmt{sprint(lit("out"), ev(i))}, inner...)
					switch jump {
					case 2:
						l = append(l, sif(cmp("==", ev(i), lit(1)), &Stmt{K: SBreak}))
					case 3:
						l = append(l, sif(cmp("==", ev(i), lit(1)), &Stmt{K: SContinue}))
					case 4:
						l = append([]*Stmt{sif(cmp("==", ev(i), lit(1)), &Stmt{K: SContinue})}, l...)
					case 5:
						// A second loop behind the first.
						l = append(l, mkLoop(kind2, "k", 2, func(k *Var) []*Stmt {
							return []*Stmt{sif(cmp("==", ev(k), lit(1)), sprint(lit("k1")), &Stmt{K: SBreak}), sprint(lit("k"), ev(k))}
						})...)
					}
					return append(l, sprint(lit("endout"), ev(i)))
				})
				add("nest", append(b, sprint(lit("done")))...)
			}
		}
	}
	// Panic at every depth, exit status.
	for d := 0; d < 4; d++ {
		inner := []*Stmt{sprint(lit("before")), {K: SPanic, X: []*Expr{lit("msg text")}}, sprint(lit("not reached"))}
		for k := 0; k < d; k++ {
			switch k % 3 {
			case 0:
				inner = []*Stmt{sif(lit(true), inner...)}
			case 1:
				i := I("i")
				inner = []*Stmt{{K: SFor, Form: "3", Init: def(i, lit(0)), Cond: cmp("<", ev(i), lit(3)), Post: &Stmt{K: SInc, Op: "++", Vars: []*Var{i}}, Blocks: [][]*Stmt{inner}}}
			case 2:
				inner = []*Stmt{{K: SSwitch, Tag: lit(2), Def: 1, X: []*Expr{lit(1)}, Blocks: [][]*Stmt{{sprint(lit("no"))}, inner}}}
			}
		}
		add("panic", append(inner, sprint(lit("not reached either")))...)
	}
	// Compound assignment, increment and decrement of every operator.
	for _, a := range []int64{7, -7, 0, 100} {
		for _, b := range []int64{3, -2, 1} {
			v := I("v")
			l := []*Stmt{}
			for k, op := range []string{"+=", "-=", "*=", "/=", "%="} {
				w := I(fmt.Sprintf("v%d", k))
				l = append(l, def(w, lit(a)), &Stmt{K: SOpAssign, Op: op, Vars: []*Var{w}, X: []*Expr{lit(b)}}, sprint(lit(op), ev(w)))
				l = append(l, &Stmt{K: SOpAssign, Op: op, Vars: []*Var{w}, X: []*Expr{bin("-", lit(b), lit(5))}}, sprint(lit(op), ev(w)))
			}
			l = append(l, def(v, lit(a)), &Stmt{K: SInc, Op: "++", Vars: []*Var{v}}, sprint(ev(v)), &Stmt{K: SInc, Op: "--", Vars: []*Var{v}}, &Stmt{K: SInc, Op: "--", Vars: []*Var{v}}, sprint(ev(v)))
			add("opassign", l...)
		}
	}
	// Several skeletons per script: sections are separated by blocks of their own, so that the counters of the
	// converters (helpers, labels, flags) take many different values.
	groups := [][]sk{}
	for i := 0; i < len(all); {
		n := 1 + i%7
		if i+n > len(all) {
			n = len(all) - i
		}
		groups = append(groups, all[i:i+n])
		i += n
	}
	c.each("control", len(groups), func(s *Slot, i int, r *rand.Rand) {
		m := &Module{}
		names := []string{}
		l := append([]sk{}, groups[i]...)
		r.Shuffle(len(l), func(a, b int) { l[a], l[b] = l[b], l[a] })
		for k, x := range l {
			names = append(names, x.name)
			b := x.m.Body
			if x.name == "panic" && k < len(l)-1 {
				b = []*Stmt{sif(lit(false), b...)}
			} else {
				b = []*Stmt{sprint(lit("#"), lit(k)), sif(lit(true), b...)}
			}
			m.Body = append(m.Body, b...)
		}
		in := &Interp{Bits: bits, Max: 100000}
		if ok, why := in.Run(m, nil); !ok {
			c.count("skeletons without defined meaning", len(l))
			_ = why
			return
		}
		c.noteProg(in)
		c.count("control flow skeletons", len(l))
		p := mainProg(m, in, tgt)
		c.seen(p.Files["main.tsh"])
		c.sample("control "+strings.Join(names, ","), p.Files["main.tsh"])
		c.judge(s, fmt.Sprintf("control:%d", i), p, func() *Prog { return c.shrink(s, m, bits, tgt) })
	})
}
