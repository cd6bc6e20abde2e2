package main

import (
	"fmt"
	"math/rand/v2"
)

func init() {
	checks["C02"] = check{run: runC02,
		rule: "generated programs with 1..8 functions over a small pool of identifiers (so that parameters, locals and later globals coincide), exhaustive arity tables (0..12 parameters, 0..6 results), call-position tables, swap/rotation tables and in-place global updates, executed by /bin/bash and compared with a reference interpreter (stdout, exit status, stderr). Distinct = distinct program text; non-trivial = at least three calls and three lines of output.",
		asm:  []string{"/bin/bash 5.2 of the sandbox stands for the shell"}}
	checks["C03"] = check{run: runC03,
		rule: "exhaustive (start, end) tables over strings of length 0..9 in every subscript form, slice histories (literal, alias, append, gap, store, copy, range, call by reference, returned slices) over slices of length 0..40 and generated programs, executed by /bin/bash and compared with a reference interpreter. Distinct = distinct program text; non-trivial = at least one slice store or string subscript evaluated.",
		asm:  []string{"/bin/bash 5.2 of the sandbox stands for the shell", "out-of-range reads, negative indices, resizing a ranged slice and copy into a longer destination are not generated"}}
	checks["C04"] = check{run: runC04,
		rule: "every expression position of every statement kind carries tracing calls (each prints an id, some also change a global the neighbouring operand reads), singly, in pairs and in generated programs; the sequence of trace lines in stdout is compared with the strict left-to-right, eager order of the reference. Distinct = distinct program text; non-trivial = at least two tracing calls executed.",
		asm:  []string{"/bin/bash 5.2 of the sandbox stands for the shell"}}
}

func funcOpt(i int) GenOpt {
	o := GenOpt{Bits: 64, Stmts: 10, Depth: 3, EDepth: 3, Funcs: 5, Arity: 12, CallPct: 30, Slices: i%3 == 0, Strs: i%4 == 0, Panic: i%5 == 0}
	switch i % 4 {
	case 0:
		o.Names = []string{"a", "b", "x"}
	case 1:
		o.Names = []string{"a", "b", "x", "y", "i", "tmp"}
	case 2:
		o.Funcs, o.Stmts, o.Depth = 8, 14, 2
		o.Names = []string{"v", "w"}
		o.FNames = []string{"f", "g", "a", "h"}
	}
	return o
}

func runC02(c *Ctx) {
	c.tableProgs("calls", callTable(64), onBash, 64)
	c.tableProgs("scale", scaleTable("f", 64, c.thorough()), onBash, 64)
	c.genPhase("gen", c.pick(5000, 100000), funcOpt, onBash, func(in *Interp) bool { return in.calls >= 3 && in.Lines >= 3 })
}

// tableProgs runs hand-constructed modules whose meaning the reference determines.
func (c *Ctx) tableProgs(phase string, l []*Module, tgt Target, bits int) {
	c.each(phase, len(l), func(s *Slot, i int, r *rand.Rand) {
		m := l[i]
		in := &Interp{Bits: bits, Max: 100000}
		if ok, why := in.Run(m, nil); !ok {
			c.count("table programs without defined meaning: "+why, 1)
			return
		}
		c.noteProg(in)
		c.count("table programs", 1)
		p := mainProg(m, in, tgt)
		c.seen(p.Files["main.tsh"])
		c.sample(phase, p.Files["main.tsh"])
		c.judge(s, fmt.Sprintf("%s:%d", phase, i), p, func() *Prog { return c.shrink(s, m, bits, tgt) })
	})
}

func mkVar(n string, t Type) *Var { return &Var{Name: n, T: t} }

func litOf(t Type, k int) *Expr {
	switch t {
	case TBool:
		return lit(k%2 == 0)
	case TInt:
		return lit(k*3 + 1)
	case TStr:
		return lit(fmt.Sprintf("s%d x", k))
	}
	x := []*Expr{}
	for j := 0; j <= k%3; j++ {
		x = append(x, litOf(t.Elem(), k+j))
	}
	return slit(t, x...)
}

// showVar prints any variable.
func showVar(tag string, v *Var) []*Stmt {
	if v.T.Slice {
		i, e := mkVar("zi", TInt), mkVar("ze", v.T.Elem())
		return []*Stmt{sprint(lit(tag), lit("len"), elen(ev(v))), {K: SRange, Vars: []*Var{i, e}, X: []*Expr{ev(v)}, Blocks: [][]*Stmt{{sprint(ev(i), ev(e))}}}}
	}
	return []*Stmt{sprint(lit(tag), ev(v))}
}

func callTable(bits int) []*Module {
	out := []*Module{}
	add := func(b ...*Stmt) *Module {
		m := &Module{Body: b}
		out = append(out, m)
		var fix func(b []*Stmt)
		fix = func(b []*Stmt) {
			for _, s := range b {
				if s.F != nil && s.K == SFunc {
					s.F.Mod = m
				}
			}
		}
		fix(b)
		return m
	}
	// Arity: every number of parameters, cyclic types, parameters printed in order, in reverse and assigned.
	for n := 0; n <= 12; n++ {
		for sh := 0; sh < 3; sh++ {
			f := &Func{Name: "f", NoPar: n == 0 && sh == 1}
			args := []*Expr{}
			for k := 0; k < n; k++ {
				t := allTypes[(k*(sh+1)+sh)%len(allTypes)]
				f.Params = append(f.Params, mkVar(fmt.Sprintf("p%d", k), t))
				args = append(args, litOf(t, k))
			}
			for k := range f.Params {
				f.Body = append(f.Body, showVar("p", f.Params[k])...)
			}
			for k := n - 1; k >= 0; k-- {
				if !f.Params[k].T.Slice {
					f.Body = append(f.Body, assign(f.Params[k], litOf(f.Params[k].T, k+5)), sprint(ev(f.Params[k])))
				}
			}
			f.Body = append(f.Body, sprint(lit("end")))
			add(sfunc(f), sexpr(call(f, args...)), sexpr(call(f, args...)))
		}
	}
	// Results: number x types, definition, assignment, use as single value, discarded.
	for n := 1; n <= 6; n++ {
		for sh := 0; sh < 4; sh++ {
			f := &Func{Name: "f"}
			p := mkVar("p", TInt)
			f.Params = []*Var{p}
			rets := []*Expr{}
			for k := 0; k < n; k++ {
				t := allTypes[(k+sh)%len(allTypes)]
				if sh == 3 {
					t = TInt
				}
				f.Rets = append(f.Rets, t)
				e := litOf(t, k)
				if t == TInt {
					e = bin("+", ev(p), lit(k))
				}
				rets = append(rets, e)
			}
			f.Body = []*Stmt{sif(cmp("<", ev(p), lit(0)), sprint(lit("neg")), sret(rets...)), sprint(lit("body"), ev(p)), sret(rets...)}
			b := []*Stmt{sfunc(f)}
			vs := []*Var{}
			ws := []*Var{}
			for k := 0; k < n; k++ {
				vs = append(vs, mkVar(fmt.Sprintf("v%d", k), f.Rets[k]))
				ws = append(ws, mkVar(fmt.Sprintf("w%d", k), f.Rets[k]))
			}
			b = append(b, &Stmt{K: SVar, Form: ":=", Vars: vs, X: []*Expr{call(f, lit(10))}})
			b = append(b, &Stmt{K: SVar, Form: "=", Vars: ws, X: []*Expr{call(f, lit(-20))}})
			for k := range vs {
				b = append(b, showVar("v", vs[k])...)
				b = append(b, showVar("w", ws[k])...)
			}
			b = append(b, sexpr(call(f, lit(1))))
			b = append(b, &Stmt{K: SAssign, Vars: vs, X: []*Expr{call(f, lit(30))}})
			for k := range vs {
				b = append(b, showVar("v", vs[k])...)
				b = append(b, showVar("w", ws[k])...)
			}
			if sh == 3 && n > 1 {
				// Results assigned in rotated order.
				rot := append(append([]*Var{}, vs[1:]...), vs[0])
				b = append(b, &Stmt{K: SAssign, Vars: rot, X: []*Expr{call(f, lit(50))}})
				for k := range vs {
					b = append(b, showVar("v", vs[k])...)
				}
			}
			add(b...)
		}
	}
	// Swaps and rotations of every type, at top level and inside of a function (locals, parameters and globals).
	for _, t := range allTypes {
		for n := 2; n <= 4; n++ {
			for where := 0; where < 4; where++ {
				vs := []*Var{}
				defs := []*Stmt{}
				for k := 0; k < n; k++ {
					v := mkVar(fmt.Sprintf("a%d", k), t)
					vs = append(vs, v)
					defs = append(defs, def(v, litOf(t, k)))
				}
				x := []*Expr{}
				for k := range vs {
					x = append(x, ev(vs[(k+1)%n]))
				}
				mv := &Stmt{K: SAssign, Vars: vs, X: x}
				if where == 3 {
					// The same through a short definition with one new variable.
					nv := mkVar("nv", t)
					mv = &Stmt{K: SVar, Form: ":=", Vars: append(append([]*Var{}, vs...), nv), X: append(append([]*Expr{}, x...), ev(vs[0]))}
				}
				b := []*Stmt{mv}
				for _, v := range vs {
					b = append(b, showVar("a", v)...)
				}
				switch where {
				case 0, 3:
					add(append(defs, b...)...)
				case 1: // locals
					f := &Func{Name: "f", Body: append(defs, b...)}
					add(sfunc(f), sexpr(call(f)))
				case 2: // globals from a function
					f := &Func{Name: "f", Body: b}
					l := append(append([]*Stmt{}, defs...), sfunc(f), sexpr(call(f)), sexpr(call(f)))
					for _, v := range vs {
						l = append(l, showVar("g", v)...)
					}
					add(l...)
				}
			}
		}
	}
	// Frame isolation: the same names as parameter, local, loop variable, range variable in caller and callee;
	// the callee changes all of its own; a global of the same name is defined afterwards.
	names := []string{"x", "y", "i", "v", "n"}
	for k := 0; k < 24; k++ {
		inner := &Func{Name: "inner"}
		ip := mkVar(names[k%5], TInt)
		il := mkVar(names[(k+1)%5], TInt)
		ii := mkVar(names[(k+2)%5], TInt)
		is := mkVar(names[(k+3)%5], TStr)
		iv := mkVar(names[(k+4)%5], TStr)
		inner.Params = []*Var{ip}
		inner.Rets = []Type{TInt}
		rI := mkVar("idx", TInt)
		inner.Body = []*Stmt{
			def(il, bin("*", ev(ip), lit(2))),
			def(is, lit("pq")),
			{K: SFor, Form: "3", Init: def(ii, lit(0)), Cond: cmp("<", ev(ii), lit(2)), Post: &Stmt{K: SInc, Op: "++", Vars: []*Var{ii}}, Blocks: [][]*Stmt{{{K: SOpAssign, Op: "+=", Vars: []*Var{il}, X: []*Expr{ev(ii)}}}}},
			{K: SRange, Vars: []*Var{rI, iv}, X: []*Expr{ev(is)}, Blocks: [][]*Stmt{{{K: SOpAssign, Op: "+=", Vars: []*Var{is}, X: []*Expr{ev(iv)}}}}},
			{K: SInc, Op: "++", Vars: []*Var{ip}},
			sprint(lit("inner"), ev(ip), ev(il), ev(is)),
			sret(bin("+", ev(il), ev(ip))),
		}
		outer := &Func{Name: "outer"}
		op := mkVar(names[(k+2)%5], TInt)
		ol := mkVar(names[k%5], TInt)
		oi := mkVar(names[(k+1)%5], TInt)
		os := mkVar(names[(k+4)%5], TStr)
		ot := mkVar(names[(k+3)%5], TInt)
		outer.Params = []*Var{op}
		outer.Rets = []Type{TInt}
		outer.Body = []*Stmt{
			def(ol, lit(100)), def(os, lit("keep")), def(ot, lit(7)),
			{K: SFor, Form: "3", Init: def(oi, lit(0)), Cond: cmp("<", ev(oi), lit(3)), Post: &Stmt{K: SInc, Op: "++", Vars: []*Var{oi}}, Blocks: [][]*Stmt{{
				{K: SOpAssign, Op: "+=", Vars: []*Var{ol}, X: []*Expr{call(inner, bin("+", ev(oi), ev(op)))}},
				sprint(lit("outer"), ev(op), ev(ol), ev(oi), ev(os), ev(ot)),
			}}},
			sret(bin("+", ev(ol), call(inner, call(inner, ev(op))))),
		}
		g1, g2 := mkVar(names[k%5], TInt), mkVar(names[(k+2)%5], TInt)
		g1.Global, g2.Global = true, true
		add(sfunc(inner), sfunc(outer), def(g1, lit(-1)), def(g2, lit(-2)),
			sprint(call(outer, lit(3)), ev(g1), ev(g2)),
			assign(g1, call(outer, ev(g1))), sprint(ev(g1), ev(g2)),
			sprint(bin("+", call(inner, ev(g2)), call(inner, call(outer, lit(1)))), ev(g1), ev(g2)))
	}
	// Globals are changed in place by every kind of statement, also from nested calls and nested blocks.
	for k := 0; k < 12; k++ {
		g := mkVar("g", TInt)
		h := mkVar("h", TInt)
		s := mkVar("s", TStr)
		b := mkVar("b", TBool)
		l := mkVar("l", SInt)
		for _, v := range []*Var{g, h, s, b, l} {
			v.Global = true
		}
		two := &Func{Name: "two", Rets: []Type{TInt, TInt}, Body: []*Stmt{sret(lit(41), lit(42))}}
		chg := []*Stmt{
			assign(g, bin("+", ev(g), lit(1))),
			{K: SOpAssign, Op: "*=", Vars: []*Var{g}, X: []*Expr{lit(3)}},
			{K: SInc, Op: "--", Vars: []*Var{g}},
			{K: SAssign, Vars: []*Var{g, h}, X: []*Expr{ev(h), ev(g)}},
			{K: SAssign, Vars: []*Var{h, g}, X: []*Expr{call(two)}},
			{K: SOpAssign, Op: "+=", Vars: []*Var{s}, X: []*Expr{lit("x")}},
			assign(b, not(ev(b))),
			sset(l, elen(ev(l)), ev(g)),
			assign(l, slit(SInt, lit(9), ev(h))),
			{K: SAssign, Vars: []*Var{s, g}, X: []*Expr{lit("new"), lit(5)}},
			{K: SFor, Form: "3", Init: assign(g, lit(0)), Cond: cmp("<", ev(g), lit(3)), Post: &Stmt{K: SInc, Op: "++", Vars: []*Var{g}}, Blocks: [][]*Stmt{{{K: SInc, Op: "++", Vars: []*Var{h}}}}},
			{K: SVar, Form: ":=", Vars: []*Var{mkVar("loc", TInt), h}, X: []*Expr{lit(1), lit(77)}},
		}[k]
		f := &Func{Name: "f", Body: []*Stmt{chg}}
		f2 := &Func{Name: "f2", Body: []*Stmt{sif(lit(true), sexpr(call(f)))}}
		show := func() []*Stmt {
			return append([]*Stmt{sprint(ev(g), ev(h), ev(s), ev(b))}, showVar("l", l)...)
		}
		body := []*Stmt{def(g, lit(1)), def(h, lit(2)), def(s, lit("s")), def(b, lit(false)), def(l, slit(SInt, lit(4))), sfunc(two), sfunc(f), sfunc(f2)}
		for j := 0; j < 2; j++ {
			body = append(body, sexpr(call(f)))
			body = append(body, show()...)
			body = append(body, sexpr(call(f2)))
			body = append(body, show()...)
		}
		add(body...)
	}
	// Calls in every value position, nested up to depth 4, with interleaved results of the same function.
	id := func() (*Func, *Func) {
		p, q := mkVar("p", TInt), mkVar("q", TInt)
		f := &Func{Name: "dbl", Params: []*Var{p}, Rets: []Type{TInt}, Body: []*Stmt{sret(bin("*", ev(p), lit(2)))}}
		a, b := mkVar("a", TInt), mkVar("b", TInt)
		_ = q
		g := &Func{Name: "sub", Params: []*Var{a, b}, Rets: []Type{TInt}, Body: []*Stmt{sret(bin("-", ev(a), ev(b)))}}
		return f, g
	}
	for k := 0; k < 10; k++ {
		f, g := id()
		v := mkVar("v", TInt)
		l := mkVar("l", SInt)
		exprs := []*Expr{
			call(g, call(f, lit(5)), call(f, lit(3))),
			call(g, call(g, call(f, lit(9)), lit(1)), call(g, lit(4), call(f, lit(1)))),
			bin("-", call(f, call(f, call(f, lit(1)))), call(g, call(f, lit(2)), call(f, lit(3)))),
			bin("*", bin("+", call(f, lit(1)), call(f, lit(2))), call(g, lit(1), lit(3))),
			elen(slit(SInt, call(f, lit(1)), call(g, lit(1), lit(2)))),
			index(l, call(g, call(f, lit(2)), lit(3))),
			ecopy(l, slit(SInt, call(f, lit(1)), call(f, lit(2)), call(f, lit(3)), call(f, lit(4)))),
			bin("+", index(l, call(g, lit(3), lit(2))), index(l, call(f, lit(1)))),
			bin("-", call(g, ev(v), call(f, ev(v))), ev(v)),
			call(g, call(g, call(g, lit(100), call(f, lit(1))), call(f, lit(2))), call(f, call(g, lit(9), call(f, lit(3))))),
		}
		add(sfunc(f), sfunc(g), def(v, lit(6)), def(l, slit(SInt, lit(10), lit(20), lit(30))),
			sprint(exprs[k]), assign(v, exprs[k]), sprint(ev(v)),
			sif(cmp("==", exprs[k], ev(v)), sprint(lit("same"))), sprint(exprs[k], exprs[(k+3)%10], exprs[k]))
	}
	// Slices by reference: stores, growth and copies through a parameter and through returned slices.
	for k := 0; k < 8; k++ {
		for _, t := range []Type{SInt, SStr, SBool} {
			p := mkVar("p", t)
			f := &Func{Name: "f", Params: []*Var{p}, Rets: []Type{t}}
			q := mkVar("q", t)
			f.Body = [][]*Stmt{
				{sset(p, lit(0), litOf(t.Elem(), 9)), sret(ev(p))},
				{sset(p, elen(ev(p)), litOf(t.Elem(), 8)), sret(ev(p))},
				{sset(p, lit(5), litOf(t.Elem(), 7)), sret(ev(p))},
				{def(q, ev(p)), sset(q, lit(1), litOf(t.Elem(), 6)), sret(ev(q))},
				{assign(p, slit(t, litOf(t.Elem(), 1))), sset(p, lit(1), litOf(t.Elem(), 2)), sret(ev(p))},
				{def(q, slit(t)), sexpr(ecopy(q, ev(p))), sset(q, lit(0), litOf(t.Elem(), 3)), sret(ev(q))},
				{sexpr(ecopy(p, slit(t, litOf(t.Elem(), 4), litOf(t.Elem(), 5), litOf(t.Elem(), 6), litOf(t.Elem(), 7)))), sret(ev(p))},
				{def(q, slit(t, litOf(t.Elem(), 2))), assign(p, ev(q)), sset(q, lit(1), litOf(t.Elem(), 3)), sret(ev(p))},
			}[k]
			s, w := mkVar("s", t), mkVar("w", t)
			b := []*Stmt{sfunc(f), def(s, slit(t, litOf(t.Elem(), 0), litOf(t.Elem(), 1))), def(w, call(f, ev(s)))}
			b = append(b, showVar("s", s)...)
			b = append(b, showVar("w", w)...)
			b = append(b, sset(w, lit(0), litOf(t.Elem(), 20)))
			b = append(b, showVar("s", s)...)
			b = append(b, assign(s, call(f, call(f, ev(w)))))
			b = append(b, showVar("s", s)...)
			b = append(b, showVar("w", w)...)
			add(b...)
		}
	}
	return out
}
