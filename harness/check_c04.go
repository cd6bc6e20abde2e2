package main

import (
	"fmt"
	"math/rand/v2"
	"strings"
)

// hole fills an operand position: value e of its type.
type hole func(e *Expr) *Expr

type tmpl struct {
	name  string
	holes int
	build func(e *evalEnv, h hole) []*Stmt
}

// evalEnv provides the prelude of the evaluation order programs.
type evalEnv struct {
	m          *Module
	gI, gS, gB *Var
	gL         *Var
	sv, lv     *Var // "hello", []int{5,6,7,8}
	tr, mu     map[Type]*Func
	two        *Func
	three      *Func
	void       *Func
	one        *Func
	cond       *Func
	id         int64
	pre        []*Stmt
	fs         bool
}

func newEvalEnv() *evalEnv {
	e := &evalEnv{m: &Module{}, tr: map[Type]*Func{}, mu: map[Type]*Func{}}
	gv := func(n string, t Type) *Var { return &Var{Name: n, T: t, Global: true} }
	e.gI, e.gS, e.gB, e.gL = gv("gI", TInt), gv("gS", TStr), gv("gB", TBool), gv("gL", SInt)
	e.sv, e.lv = gv("sv", TStr), gv("lv", SInt)
	e.pre = append(e.pre, def(e.gI, lit(1)), def(e.gS, lit("g")), def(e.gB, lit(true)), def(e.gL, slit(SInt, lit(1))), def(e.sv, lit("hello world")), def(e.lv, slit(SInt, lit(5), lit(6), lit(7), lit(8))))
	for _, t := range []Type{TInt, TStr, TBool, SInt} {
		n := map[Type]string{TInt: "I", TStr: "S", TBool: "B", SInt: "L"}[t]
		id, p := mkVar("id", TInt), mkVar("p", t)
		f := &Func{Name: "tr" + n, Mod: e.m, Params: []*Var{id, p}, Rets: []Type{t}}
		show := ev(p)
		if t.Slice {
			show = elen(ev(p))
		}
		f.Body = []*Stmt{sprint(lit("t"), ev(id), show), sret(ev(p))}
		e.tr[t] = f
		id2, p2 := mkVar("id", TInt), mkVar("p", t)
		g := &Func{Name: "mu" + n, Mod: e.m, Params: []*Var{id2, p2}, Rets: []Type{t}}
		show = ev(p2)
		if t.Slice {
			show = elen(ev(p2))
		}
		g.Body = []*Stmt{sprint(lit("m"), ev(id2), show),
			{K: SOpAssign, Op: "+=", Vars: []*Var{e.gI}, X: []*Expr{lit(1)}},
			{K: SOpAssign, Op: "+=", Vars: []*Var{e.gS}, X: []*Expr{lit("x")}},
			assign(e.gB, not(ev(e.gB))),
			assign(e.gL, slit(SInt, ev(e.gI), lit(2))),
			sret(ev(p2))}
		e.mu[t] = g
		e.pre = append(e.pre, sfunc(f), sfunc(g))
	}
	a, b := mkVar("a", TInt), mkVar("b", TInt)
	e.two = &Func{Name: "two", Mod: e.m, Params: []*Var{a, b}, Rets: []Type{TInt, TInt}, Body: []*Stmt{sprint(lit("two"), ev(a), ev(b)), sret(ev(b), ev(a))}}
	x, y, z := mkVar("x", TInt), mkVar("y", TStr), mkVar("z", TBool)
	e.three = &Func{Name: "three", Mod: e.m, Params: []*Var{x, y, z}, Rets: []Type{TInt}, Body: []*Stmt{sprint(lit("three"), ev(x), ev(y), ev(z)), sret(ev(x))}}
	w := mkVar("w", TStr)
	e.void = &Func{Name: "void", Mod: e.m, Params: []*Var{w}, Body: []*Stmt{sprint(lit("void"), ev(w))}}
	e.pre = append(e.pre, sfunc(e.two), sfunc(e.three), sfunc(e.void))
	return e
}

func (e *evalEnv) globalOf(t Type) *Var {
	return map[Type]*Var{TInt: e.gI, TStr: e.gS, TBool: e.gB, SInt: e.gL}[t]
}

func evalTemplates() []tmpl {
	l := []tmpl{}
	add := func(name string, n int, f func(e *evalEnv, h hole) []*Stmt) { l = append(l, tmpl{name, n, f}) }
	one := func(s ...*Stmt) []*Stmt { return s }
	q := func(n string, t Type) *Var { return mkVar(n, t) }

	add("print", 3, func(e *evalEnv, h hole) []*Stmt { return one(sprint(h(lit(1)), h(lit("a")), h(lit(true)))) })
	for _, op := range []string{"+", "-", "*", "/", "%"} {
		add("bin "+op, 2, func(e *evalEnv, h hole) []*Stmt { return one(sprint(bin(op, h(lit(17)), h(lit(5))))) })
		add("def bin "+op, 3, func(e *evalEnv, h hole) []*Stmt {
			v := q("v", TInt)
			return one(def(v, bin("+", bin(op, h(lit(17)), h(lit(5))), h(lit(2)))), sprint(ev(v)))
		})
		add("opassign "+op, 1, func(e *evalEnv, h hole) []*Stmt {
			return one(&Stmt{K: SOpAssign, Op: op + "=", Vars: []*Var{e.gI}, X: []*Expr{h(lit(3))}}, sprint(ev(e.gI)))
		})
		add("opassign local "+op, 2, func(e *evalEnv, h hole) []*Stmt {
			v := q("v", TInt)
			return one(def(v, lit(50)), &Stmt{K: SOpAssign, Op: op + "=", Vars: []*Var{v}, X: []*Expr{bin("+", h(lit(3)), h(lit(4)))}}, sprint(ev(v)))
		})
	}
	add("tree right", 4, func(e *evalEnv, h hole) []*Stmt {
		return one(sprint(bin("-", h(lit(1)), bin("-", h(lit(2)), bin("-", h(lit(3)), h(lit(4)))))))
	})
	add("tree left", 4, func(e *evalEnv, h hole) []*Stmt {
		return one(sprint(bin("-", bin("-", bin("-", h(lit(1)), h(lit(2))), h(lit(3))), h(lit(4)))))
	})
	add("tree prec", 4, func(e *evalEnv, h hole) []*Stmt {
		return one(sprint(bin("+", bin("*", h(lit(1)), h(lit(2))), bin("*", h(lit(3)), h(lit(4))))))
	})
	add("concat", 3, func(e *evalEnv, h hole) []*Stmt {
		return one(sprint(bin("+", bin("+", h(lit("a")), h(lit("b"))), h(lit("c")))))
	})
	add("concat assign", 1, func(e *evalEnv, h hole) []*Stmt {
		return one(&Stmt{K: SOpAssign, Op: "+=", Vars: []*Var{e.gS}, X: []*Expr{h(lit("c"))}}, sprint(ev(e.gS)))
	})
	for _, op := range []string{"==", "!=", "<", "<=", ">", ">="} {
		add("cmp int "+op, 2, func(e *evalEnv, h hole) []*Stmt { return one(sprint(cmp(op, h(lit(1)), h(lit(2))))) })
		add("cmp chain "+op, 3, func(e *evalEnv, h hole) []*Stmt {
			return one(sprint(cmp("==", cmp(op, h(lit(2)), h(lit(2))), h(lit(true)))))
		})
	}
	for _, op := range []string{"==", "!="} {
		add("cmp str "+op, 2, func(e *evalEnv, h hole) []*Stmt { return one(sprint(cmp(op, h(lit("a")), h(lit("gx"))))) })
		add("cmp bool "+op, 2, func(e *evalEnv, h hole) []*Stmt { return one(sprint(cmp(op, h(lit(true)), h(lit(false))))) })
	}
	for k := 0; k < 8; k++ {
		b0, b1, b2 := k&1 == 1, k&2 != 0, k&4 != 0
		for _, o := range [][2]string{{"&&", "&&"}, {"||", "||"}, {"&&", "||"}, {"||", "&&"}} {
			add("logic", 3, func(e *evalEnv, h hole) []*Stmt {
				return one(sprint(mixed(o[:], []*Expr{h(lit(b0)), h(lit(b1)), h(lit(b2))})))
			})
			add("logic if", 3, func(e *evalEnv, h hole) []*Stmt {
				return one(&Stmt{K: SIf, X: []*Expr{mixed(o[:], []*Expr{h(lit(b0)), h(lit(b1)), h(lit(b2))})}, Blocks: [][]*Stmt{{sprint(lit("then"))}, {sprint(lit("else"))}}, Else: true})
			})
		}
	}
	for k := 0; k < 4; k++ {
		b0, b1 := k&1 == 1, k&2 != 0
		for _, o := range []string{"&&", "||"} {
			add("logic 2", 2, func(e *evalEnv, h hole) []*Stmt { return one(sprint(logic(o, h(lit(b0)), h(lit(b1))))) })
			add("logic not", 2, func(e *evalEnv, h hole) []*Stmt {
				v := q("v", TBool)
				return one(def(v, logic(o, not(h(lit(b0))), group(not(h(lit(b1)))))), sprint(ev(v)))
			})
			add("logic loop", 2, func(e *evalEnv, h hole) []*Stmt {
				return one(&Stmt{K: SFor, Cond: logic(o, h(lit(b0)), h(lit(b1))), Blocks: [][]*Stmt{{sprint(lit("body")), {K: SBreak}}}}, sprint(lit("done")))
			})
			add("logic cmp", 4, func(e *evalEnv, h hole) []*Stmt {
				return one(sprint(logic(o, cmp("<", h(lit(k)), h(lit(2))), cmp("==", h(lit("a")), h(lit([]string{"a", "b"}[k%2]))))))
			})
		}
	}
	add("not", 1, func(e *evalEnv, h hole) []*Stmt { return one(sprint(not(h(lit(true))), not(not(h(lit(true)))))) })
	add("group", 1, func(e *evalEnv, h hole) []*Stmt { return one(sprint(group(group(h(lit(4)))))) })
	add("itoa", 2, func(e *evalEnv, h hole) []*Stmt { return one(sprint(eitoa(h(lit(4))), eitoa(h(lit(5))))) })
	add("len str", 2, func(e *evalEnv, h hole) []*Stmt { return one(sprint(elen(h(lit("abc"))), h(lit(2)))) })
	add("len slice", 2, func(e *evalEnv, h hole) []*Stmt {
		return one(sprint(elen(h(slit(SInt, lit(1), lit(2)))), h(lit(2))))
	})
	add("len literal", 3, func(e *evalEnv, h hole) []*Stmt {
		return one(sprint(elen(slit(SInt, h(lit(1)), h(lit(2)))), h(lit(3))))
	})
	// Subscripts.
	add("str index", 1, func(e *evalEnv, h hole) []*Stmt { return one(sprint(substr(e.sv, "i", h(lit(4))))) })
	add("str index expr", 2, func(e *evalEnv, h hole) []*Stmt {
		return one(sprint(substr(e.sv, "i", bin("+", h(lit(2)), h(lit(3))))))
	})
	add("str index def", 1, func(e *evalEnv, h hole) []*Stmt {
		v := q("v", TStr)
		return one(def(v, substr(e.sv, "i", h(lit(4)))), sprint(ev(v)))
	})
	add("str a:b", 2, func(e *evalEnv, h hole) []*Stmt { return one(sprint(substr(e.sv, "ab", h(lit(1)), h(lit(7))))) })
	add("str a:", 1, func(e *evalEnv, h hole) []*Stmt { return one(sprint(substr(e.sv, "a", h(lit(3))))) })
	add("str :b", 1, func(e *evalEnv, h hole) []*Stmt { return one(sprint(substr(e.sv, "b", h(lit(3))))) })
	add("str of global", 1, func(e *evalEnv, h hole) []*Stmt {
		return one(sprint(substr(e.gS, "i", bin("-", h(lit(1)), lit(1))), substr(e.gS, "")))
	})
	add("str twice", 2, func(e *evalEnv, h hole) []*Stmt {
		return one(sprint(bin("+", substr(e.sv, "i", h(lit(0))), substr(e.sv, "i", h(lit(1))))))
	})
	add("slice index", 1, func(e *evalEnv, h hole) []*Stmt { return one(sprint(index(e.lv, h(lit(2))))) })
	add("slice index 2", 2, func(e *evalEnv, h hole) []*Stmt {
		return one(sprint(bin("-", index(e.lv, h(lit(3))), index(e.lv, h(lit(0))))))
	})
	add("slice nested index", 1, func(e *evalEnv, h hole) []*Stmt {
		return one(sprint(index(e.lv, bin("-", index(e.lv, h(lit(1))), lit(5)))))
	})
	add("slice of global", 2, func(e *evalEnv, h hole) []*Stmt {
		return one(sprint(bin("+", index(e.gL, bin("-", h(lit(1)), lit(1))), h(lit(1)))))
	})
	add("slice set", 2, func(e *evalEnv, h hole) []*Stmt {
		return append(one(sset(e.lv, h(lit(1)), h(lit(60)))), showVar("lv", e.lv)...)
	})
	add("slice set grow", 3, func(e *evalEnv, h hole) []*Stmt {
		return append(one(sset(e.lv, bin("+", h(lit(3)), h(lit(2))), h(lit(60)))), showVar("lv", e.lv)...)
	})
	add("slice set read", 2, func(e *evalEnv, h hole) []*Stmt {
		return append(one(sset(e.lv, h(lit(1)), index(e.lv, h(lit(2))))), showVar("lv", e.lv)...)
	})
	add("slice literal", 3, func(e *evalEnv, h hole) []*Stmt {
		v := q("v", SInt)
		return append(one(def(v, slit(SInt, h(lit(1)), h(lit(2)), h(lit(3))))), showVar("v", v)...)
	})
	add("slice literal str", 3, func(e *evalEnv, h hole) []*Stmt {
		v := q("v", SStr)
		return append(one(def(v, slit(SStr, h(lit("1")), h(lit("2")), h(lit("3"))))), showVar("v", v)...)
	})
	add("slice literal bool", 2, func(e *evalEnv, h hole) []*Stmt {
		v := q("v", SBool)
		return append(one(def(v, slit(SBool, h(lit(true)), h(lit(false))))), showVar("v", v)...)
	})
	add("copy", 1, func(e *evalEnv, h hole) []*Stmt {
		v := q("v", SInt)
		return append(one(def(v, slit(SInt)), sprint(ecopy(v, h(slit(SInt, lit(3), lit(4)))))), showVar("v", v)...)
	})
	add("copy stmt", 3, func(e *evalEnv, h hole) []*Stmt {
		v := q("v", SInt)
		return append(one(def(v, slit(SInt)), sexpr(ecopy(v, slit(SInt, h(lit(3)), h(lit(4))))), sprint(h(lit(5)))), showVar("v", v)...)
	})
	// Calls.
	add("call args", 3, func(e *evalEnv, h hole) []*Stmt {
		return one(sexpr(call(e.three, h(lit(1)), h(lit("b")), h(lit(false)))))
	})
	add("call args value", 4, func(e *evalEnv, h hole) []*Stmt {
		return one(sprint(bin("+", call(e.three, h(lit(1)), h(lit("b")), h(lit(false))), h(lit(7)))))
	})
	add("call nested", 4, func(e *evalEnv, h hole) []*Stmt {
		return one(sprint(call(e.three, call(e.three, h(lit(1)), h(lit("i")), lit(true)), h(lit("o")), h(lit(true)))))
	})
	add("call void", 2, func(e *evalEnv, h hole) []*Stmt {
		return one(sexpr(call(e.void, bin("+", h(lit("a")), h(lit("b"))))))
	})
	add("call multi def", 2, func(e *evalEnv, h hole) []*Stmt {
		a, b := q("ra", TInt), q("rb", TInt)
		return one(&Stmt{K: SVar, Form: ":=", Vars: []*Var{a, b}, X: []*Expr{call(e.two, h(lit(1)), h(lit(2)))}}, sprint(ev(a), ev(b)))
	})
	add("call multi assign", 2, func(e *evalEnv, h hole) []*Stmt {
		a := q("ra", TInt)
		return one(def(a, lit(0)), &Stmt{K: SAssign, Vars: []*Var{a, e.gI}, X: []*Expr{call(e.two, h(lit(1)), h(lit(2)))}}, sprint(ev(a), ev(e.gI)))
	})
	// Returns.
	for n := 1; n <= 3; n++ {
		add("return", n, func(e *evalEnv, h hole) []*Stmt {
			f := &Func{Name: "ret", Mod: e.m}
			x := []*Expr{}
			vs := []*Var{}
			for k := 0; k < n; k++ {
				t := []Type{TInt, TStr, TBool}[k]
				f.Rets = append(f.Rets, t)
				x = append(x, h(litOf(t, k)))
				vs = append(vs, q(fmt.Sprintf("r%d", k), t))
			}
			f.Body = []*Stmt{sret(x...)}
			b := one(sfunc(f), &Stmt{K: SVar, Form: ":=", Vars: vs, X: []*Expr{call(f)}})
			for _, v := range vs {
				b = append(b, sprint(ev(v)))
			}
			return append(b, sprint(ev(e.gI), ev(e.gS), ev(e.gB)))
		})
	}
	add("return expr", 3, func(e *evalEnv, h hole) []*Stmt {
		f := &Func{Name: "ret", Mod: e.m, Rets: []Type{TInt, TBool}}
		f.Body = []*Stmt{sif(cmp("==", h(lit(1)), lit(-5)), sret(lit(0), lit(false))), sret(bin("-", h(lit(4)), lit(2)), not(h(lit(true))))}
		a, b := q("ra", TInt), q("rb", TBool)
		return one(sfunc(f), &Stmt{K: SVar, Form: ":=", Vars: []*Var{a, b}, X: []*Expr{call(f)}}, sprint(ev(a), ev(b)))
	})
	// Definitions and assignments.
	for _, form := range []string{":=", "=", "T="} {
		add("def "+form, 3, func(e *evalEnv, h hole) []*Stmt {
			vs := []*Var{q("d0", TInt), q("d1", TInt), q("d2", TInt)}
			return one(&Stmt{K: SVar, Form: form, T: TInt, Vars: vs, X: []*Expr{h(lit(1)), h(lit(2)), h(lit(3))}}, sprint(ev(vs[0]), ev(vs[1]), ev(vs[2])))
		})
	}
	add("assign 3", 3, func(e *evalEnv, h hole) []*Stmt {
		a, b := q("ra", TStr), q("rb", TBool)
		return one(def(a, lit("")), def(b, lit(false)), &Stmt{K: SAssign, Vars: []*Var{e.gI, a, b}, X: []*Expr{h(lit(1)), h(lit("q")), h(lit(true))}}, sprint(ev(e.gI), ev(a), ev(b)))
	})
	add("assign globals", 3, func(e *evalEnv, h hole) []*Stmt {
		return one(&Stmt{K: SAssign, Vars: []*Var{e.gB, e.gI, e.gS}, X: []*Expr{h(lit(false)), h(lit(40)), h(lit("q"))}}, sprint(ev(e.gI), ev(e.gS), ev(e.gB)))
	})
	// If chains: all truth patterns of up to three conditions.
	for n := 1; n <= 3; n++ {
		for mask := 0; mask < 1<<n; mask++ {
			for els := 0; els < 2; els++ {
				add("if", n, func(e *evalEnv, h hole) []*Stmt {
					s := &Stmt{K: SIf, Else: els == 1}
					for k := 0; k < n; k++ {
						s.X = append(s.X, h(lit(mask>>k&1 == 1)))
						s.Blocks = append(s.Blocks, []*Stmt{sprint(lit("branch"), lit(k), ev(e.gI))})
					}
					if els == 1 {
						s.Blocks = append(s.Blocks, []*Stmt{sprint(lit("else"), ev(e.gI))})
					}
					return one(s, sprint(lit("after")))
				})
			}
		}
	}
	add("if nested", 4, func(e *evalEnv, h hole) []*Stmt {
		in := &Stmt{K: SIf, X: []*Expr{h(lit(false)), h(lit(true))}, Blocks: [][]*Stmt{{sprint(lit("i0"))}, {sprint(lit("i1"))}}}
		return one(&Stmt{K: SIf, X: []*Expr{h(lit(false)), h(lit(true))}, Blocks: [][]*Stmt{{sprint(lit("o0"))}, {in, sprint(lit("o1"))}}})
	})
	// Switches.
	for n := 1; n <= 3; n++ {
		for d := -1; d <= n; d++ {
			for tv := 0; tv <= n; tv++ {
				add("switch", min(n+1, 4), func(e *evalEnv, h hole) []*Stmt {
					s := &Stmt{K: SSwitch, Def: d, Tag: h(lit(tv))}
					nb := n
					if d >= 0 {
						nb++
					}
					for k := 0; k < n; k++ {
						s.X = append(s.X, h(lit(k)))
					}
					for k := 0; k < nb; k++ {
						s.Blocks = append(s.Blocks, []*Stmt{sprint(lit("blk"), lit(k))})
					}
					return one(s, sprint(lit("after")))
				})
			}
		}
	}
	add("switch true", 2, func(e *evalEnv, h hole) []*Stmt {
		return one(&Stmt{K: SSwitch, Def: 1, X: []*Expr{h(lit(false)), h(lit(true))}, Blocks: [][]*Stmt{{sprint(lit("a"))}, {sprint(lit("d"))}, {sprint(lit("b"))}}})
	})
	add("switch str", 3, func(e *evalEnv, h hole) []*Stmt {
		return one(&Stmt{K: SSwitch, Def: -1, Tag: h(lit("b")), X: []*Expr{h(lit("a")), h(lit("b"))}, Blocks: [][]*Stmt{{sprint(lit("a"))}, {sprint(lit("b"))}}})
	})
	// Loops.
	for _, j := range []SK{SPrint, SBreak, SContinue} {
		jump := func() *Stmt {
			if j == SPrint {
				return sprint(lit("jp"))
			}
			return &Stmt{K: j}
		}
		add("for 3", 4, func(e *evalEnv, h hole) []*Stmt {
			i := q("i", TInt)
			return one(&Stmt{K: SFor, Form: "3", Init: def(i, h(lit(0))), Cond: cmp("<", ev(i), h(lit(3))), Post: &Stmt{K: SOpAssign, Op: "+=", Vars: []*Var{i}, X: []*Expr{h(lit(1))}}, Blocks: [][]*Stmt{{sprint(lit("body"), ev(i)), sif(cmp("==", ev(i), h(lit(1))), jump()), sprint(lit("tail"))}}}, sprint(lit("done")))
		})
		add("for cond", 2, func(e *evalEnv, h hole) []*Stmt {
			i := q("i", TInt)
			return one(def(i, lit(0)), &Stmt{K: SFor, Cond: logic("&&", h(lit(true)), cmp("<", ev(i), h(lit(3)))), Blocks: [][]*Stmt{{{K: SInc, Op: "++", Vars: []*Var{i}}, sif(cmp("==", ev(i), lit(2)), jump()), sprint(lit("tail"), ev(i))}}}, sprint(lit("done")))
		})
		add("for post assign", 2, func(e *evalEnv, h hole) []*Stmt {
			i, k := q("i", TInt), q("k", TInt)
			return one(def(k, lit(0)), &Stmt{K: SFor, Form: "3", Init: &Stmt{K: SVar, Form: "=", Vars: []*Var{i}, X: []*Expr{lit(0)}}, Cond: cmp("<", ev(i), lit(3)), Post: &Stmt{K: SAssign, Vars: []*Var{i, k}, X: []*Expr{bin("+", ev(i), h(lit(1))), bin("+", ev(i), h(lit(10)))}}, Blocks: [][]*Stmt{{sif(cmp("==", ev(i), lit(1)), jump()), sprint(lit("tail"), ev(i), ev(k))}}}, sprint(lit("done")))
		})
		add("for multi call", 3, func(e *evalEnv, h hole) []*Stmt {
			i, k := q("i", TInt), q("k", TInt)
			return one(&Stmt{K: SFor, Form: "3", Init: &Stmt{K: SVar, Form: ":=", Vars: []*Var{i, k}, X: []*Expr{call(e.two, h(lit(5)), h(lit(0)))}}, Cond: cmp("<", ev(i), lit(3)), Post: &Stmt{K: SAssign, Vars: []*Var{k, i}, X: []*Expr{call(e.two, bin("+", ev(i), lit(1)), h(lit(8)))}}, Blocks: [][]*Stmt{{sif(cmp("==", ev(i), lit(1)), jump()), sprint(lit("tail"), ev(i), ev(k))}}}, sprint(lit("done")))
		})
		add("range slice", 3, func(e *evalEnv, h hole) []*Stmt {
			i, v := q("i", TInt), q("v", TInt)
			return one(&Stmt{K: SRange, Vars: []*Var{i, v}, X: []*Expr{slit(SInt, h(lit(1)), h(lit(2)))}, Blocks: [][]*Stmt{{sif(cmp("==", ev(i), h(lit(0))), jump()), sprint(ev(i), ev(v))}}})
		})
		add("nested", 4, func(e *evalEnv, h hole) []*Stmt {
			i, k := q("i", TInt), q("k", TInt)
			inner := &Stmt{K: SFor, Form: "3", Init: def(k, h(lit(0))), Cond: cmp("<", ev(k), h(lit(2))), Post: &Stmt{K: SOpAssign, Op: "+=", Vars: []*Var{k}, X: []*Expr{h(lit(1))}}, Blocks: [][]*Stmt{{sif(cmp("==", ev(k), ev(i)), jump()), sprint(lit("in"), ev(i), ev(k))}}}
			return one(&Stmt{K: SFor, Form: "3", Init: def(i, lit(0)), Cond: cmp("<", ev(i), h(lit(2))), Post: &Stmt{K: SInc, Op: "++", Vars: []*Var{i}}, Blocks: [][]*Stmt{{inner}}})
		})
	}
	add("range call", 1, func(e *evalEnv, h hole) []*Stmt {
		i, v := q("i", TInt), q("v", TStr)
		return one(&Stmt{K: SRange, Vars: []*Var{i, v}, X: []*Expr{h(lit("abc"))}, Blocks: [][]*Stmt{{sprint(ev(i), ev(v))}}})
	})
	add("range call slice", 1, func(e *evalEnv, h hole) []*Stmt {
		i, v := q("i", TInt), q("v", TInt)
		return one(&Stmt{K: SRange, Vars: []*Var{i, v}, X: []*Expr{h(slit(SInt, lit(7), lit(8)))}, Blocks: [][]*Stmt{{sprint(ev(i), ev(v))}}})
	})
	add("range only index", 1, func(e *evalEnv, h hole) []*Stmt {
		i := q("i", TInt)
		return one(&Stmt{K: SRange, Vars: []*Var{i}, X: []*Expr{h(lit("abc"))}, Blocks: [][]*Stmt{{sprint(ev(i))}}})
	})
	add("panic", 2, func(e *evalEnv, h hole) []*Stmt {
		return one(&Stmt{K: SPanic, X: []*Expr{bin("+", h(lit("p")), h(lit("q")))}}, sprint(lit("unreachable")))
	})
	// Files and programs.
	add("write", 3, func(e *evalEnv, h hole) []*Stmt {
		e.fs = true
		return one(&Stmt{K: SWrite, X: []*Expr{h(lit("f1")), h(lit("data")), h(lit(true))}}, sprint(&Expr{K: EExists, T: TBool, X: []*Expr{lit("f1")}}), sprint(&Expr{K: EExists, T: TBool, X: []*Expr{lit("g")}}))
	})
	add("write 2", 2, func(e *evalEnv, h hole) []*Stmt {
		e.fs = true
		return one(&Stmt{K: SWrite, X: []*Expr{h(lit("f1")), h(lit("data"))}}, sprint(&Expr{K: EExists, T: TBool, X: []*Expr{h(lit("f1"))}}))
	})
	add("read", 2, func(e *evalEnv, h hole) []*Stmt {
		e.fs = true
		return one(&Stmt{K: SWrite, X: []*Expr{lit("f1"), lit("data")}}, &Stmt{K: SWrite, X: []*Expr{lit("g"), lit("data g")}}, sprint(bin("+", &Expr{K: ERead, T: TStr, X: []*Expr{h(lit("f1"))}}, h(lit("!")))))
	})
	add("app", 3, func(e *evalEnv, h hole) []*Stmt {
		return one(sexpr(&Expr{K: EApp, Apps: []App{{Name: "echo", Args: []*Expr{h(lit("a")), h(lit("b"))}}, {Name: "cat"}}}), sprint(h(lit("end"))))
	})
	add("app chain", 2, func(e *evalEnv, h hole) []*Stmt {
		return one(sexpr(&Expr{K: EApp, Apps: []App{{Name: "echo", Args: []*Expr{h(lit("a"))}}, {Name: "grep", Args: []*Expr{h(lit("a"))}}}}), sprint(lit("end")))
	})
	add("app capture", 3, func(e *evalEnv, h hole) []*Stmt {
		a, b, c := q("so", TStr), q("se", TStr), q("rc", TInt)
		return one(&Stmt{K: SVar, Form: ":=", Vars: []*Var{a, b, c}, X: []*Expr{{K: EApp, Apps: []App{{Name: "echo", Args: []*Expr{h(lit("a")), h(lit("b")), h(lit("c"))}}}}}}, sprint(ev(a), ev(c)))
	})
	add("sequence", 4, func(e *evalEnv, h hole) []*Stmt {
		v := q("v", TInt)
		return one(def(v, h(lit(1))), assign(v, h(lit(2))), sset(e.lv, lit(0), h(lit(3))), sprint(ev(v), index(e.lv, lit(0)), h(lit(4))))
	})
	return l
}

func simpleApp(in *Interp, apps []App, args [][]string) (string, int) {
	out := ""
	code := 0
	for i, a := range apps {
		code = 0
		switch a.Name {
		case "echo":
			out = strings.Join(args[i], " ") + "\n"
		case "cat":
		case "grep":
			if !strings.Contains(out, args[i][0]) {
				out, code = "", 1
			}
		default:
			undef("app " + a.Name)
		}
	}
	return out, code
}

func evalTable() (mods []*Module, names []string, fs []bool) {
	for _, t := range evalTemplates() {
		n := 1
		for k := 0; k < t.holes; k++ {
			n *= 3
		}
		for code := 0; code < n; code++ {
			for where := 0; where < 2; where++ {
				if where == 1 && (strings.HasPrefix(t.name, "return") || code%2 == 1) {
					continue
				}
				e := newEvalEnv()
				x := code
				k := 0
				h := func(v *Expr) *Expr {
					w := x % 3
					x /= 3
					k++
					e.id++
					switch w {
					case 0:
						return call(e.tr[v.T], lit(e.id), v)
					case 1:
						return call(e.mu[v.T], lit(e.id), v)
					}
					return ev(e.globalOf(v.T))
				}
				b := t.build(e, h)
				b = append(b, sprint(lit("state"), ev(e.gI), ev(e.gS), ev(e.gB), elen(ev(e.gL))))
				if where == 1 {
					f := &Func{Name: "run", Mod: e.m, Body: b}
					b = []*Stmt{sfunc(f), sexpr(call(f))}
				}
				e.m.Body = append(e.pre, b...)
				mods = append(mods, e.m)
				names = append(names, t.name)
				fs = append(fs, e.fs)
			}
		}
	}
	return
}

func traceOpt(i int) GenOpt {
	o := GenOpt{Bits: 64, Stmts: 8, Depth: 3, EDepth: 3, Funcs: 3, Arity: 5, CallPct: 30, Trace: 35, Slices: i%2 == 0, Strs: i%3 != 0, Panic: i%5 == 0}
	if i%3 == 1 {
		o.Trace, o.EDepth, o.Stmts = 60, 4, 5
	}
	return o
}

func (c *Ctx) evalOrder(tgt Target, bits int) {
	mods, names, fs := evalTable()
	c.each("positions", len(mods), func(s *Slot, i int, r *rand.Rand) {
		m := mods[i]
		if tgt == onBatch && (fs[i] || strings.HasPrefix(names[i], "app")) {
			return
		}
		in := &Interp{Bits: bits, Max: 3000, AppFn: simpleApp}
		if fs[i] {
			in.FS = map[string]string{}
		}
		if ok, why := in.Run(m, nil); !ok {
			c.count("positions without defined meaning: "+why, 1)
			return
		}
		c.noteProg(in)
		c.count("position "+strings.Fields(names[i])[0], 1)
		p := mainProg(m, in, tgt)
		if fs[i] {
			p.Dir = s.freshDir("fs")
		}
		c.seen(p.Files["main.tsh"])
		c.sample("position "+names[i], p.Files["main.tsh"])
		c.judge(s, fmt.Sprintf("positions:%d (%s)", i, names[i]), p, nil)
	})
}

func runC04(c *Ctx) {
	c.tableProgs("scale", scaleTable("t", 64, c.thorough()), onBash, 64)
	c.evalOrder(onBash, 64)
	c.genPhase("gen", c.pick(4000, 80000), traceOpt, onBash, func(in *Interp) bool { return in.calls >= 2 })
}
