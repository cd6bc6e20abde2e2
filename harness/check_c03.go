package main

import (
	"fmt"
	"math/rand/v2"
)

func sliceOpt(i int) GenOpt {
	o := GenOpt{Bits: 64, Stmts: 12, Depth: 3, EDepth: 3, Slices: true, Strs: true, Funcs: 3, Arity: 4, CallPct: 20}
	switch i % 4 {
	case 1:
		o.Funcs = 0
	case 2:
		o.Stmts, o.Depth = 20, 2
	case 3:
		o.EDepth, o.Stmts = 5, 6
	}
	return o
}

func runC03(c *Ctx) {
	c.tableProgs("substr", subTable(c.thorough()), onBash, 64)
	c.tableProgs("scale", scaleTable("l", 64, c.thorough()), onBash, 64)
	c.tableProgs("sites", siteTable(c.thorough()), onBash, 64)
	c.matrix([]Type{SInt, SBool, SStr}, mxPlain, onBash, 64, c.pick(1, 6), false)
	c.histories(c.pick(1500, 20000), onBash, 64)
	c.genPhase("gen", c.pick(4000, 80000), sliceOpt, onBash, func(in *Interp) bool {
		return in.Kinds[SSet]+in.EKinds[ESub]+in.EKinds[ECopy]+in.EKinds[EIndex] > 0
	})
}

const alphabet40 = "abcdefghijABCDEFGHIJ0123456789klmnopqrst"

// subTable: all subscript forms for all in-range indices.
func subTable(deep bool) []*Module {
	out := []*Module{}
	lens := []int{0, 1, 2, 3, 4, 5, 7, 9, 12, 40}
	for _, n := range lens {
		for where := 0; where < 2; where++ {
			str := alphabet40[:n]
			v := mkVar("s", TStr)
			var l []*Stmt
			show := func(e *Expr) {
				l = append(l, sprint(bin("+", bin("+", lit("<"), e), lit(">"))))
			}
			ai, bi := mkVar("p", TInt), mkVar("q", TInt)
			l = append(l, def(ai, lit(0)), def(bi, lit(0)))
			show(substr(v, ""))
			l = append(l, sprint(elen(ev(v))))
			for a := 0; a <= n; a++ {
				if n > 12 && a%7 != 0 && a != n && a != n-1 && a != 10 && !deep {
					continue
				}
				if a < n {
					show(substr(v, "i", lit(a)))
					show(substr(v, "i", bin("-", elen(ev(v)), lit(n-a))))
				}
				show(substr(v, "a", lit(a)))
				show(substr(v, "b", lit(a)))
				show(substr(v, "b", bin("-", elen(ev(v)), lit(n-a))))
				l = append(l, assign(ai, lit(a)))
				show(substr(v, "a", ev(ai)))
				for b := a; b <= n; b++ {
					if n > 12 && b%5 != 0 && b != n && b != a && b != a+1 && !deep {
						continue
					}
					if (a+b)%2 == 0 {
						show(substr(v, "ab", lit(a), lit(b)))
					} else {
						l = append(l, assign(bi, lit(b)))
						show(substr(v, "ab", ev(ai), ev(bi)))
					}
					show(substr(v, "ab", bin("+", lit(a), lit(0)), bin("*", lit(b), lit(1))))
				}
			}
			i, ch := mkVar("i", TInt), mkVar("ch", TStr)
			l = append(l, &Stmt{K: SRange, Vars: []*Var{i, ch}, X: []*Expr{ev(v)}, Blocks: [][]*Stmt{{sprint(ev(i), ev(ch), cmp("==", ev(ch), substr(v, "i", ev(i))), elen(ev(ch)))}}})
			l = append(l, sprint(cmp("==", ev(v), lit(str)), cmp("!=", ev(v), lit(str+"x")), elen(bin("+", ev(v), ev(v)))))
			m := &Module{}
			if where == 0 {
				m.Body = append([]*Stmt{def(v, lit(str))}, l...)
			} else {
				f := &Func{Name: "f", Params: []*Var{v}, Body: l, Mod: m}
				m.Body = []*Stmt{sfunc(f), sexpr(call(f, lit(str)))}
			}
			out = append(out, m)
		}
	}
	// len of string expressions, subscripts of subscripts through variables, substring equality.
	v, w := mkVar("s", TStr), mkVar("w", TStr)
	l := []*Stmt{def(v, lit("hello world")), def(w, lit(""))}
	for a := 0; a < 11; a += 2 {
		l = append(l, assign(w, substr(v, "ab", lit(a), lit(11))), sprint(ev(w), elen(ev(w)), substr(w, "i", lit(0)), substr(w, "a", bin("-", elen(ev(w)), lit(1)))), sprint(elen(substr(v, "ab", lit(a), lit(a+1))), cmp("==", substr(v, "i", lit(a)), lit("o"))))
	}
	out = append(out, &Module{Body: l})
	return out
}

// histories: random sequences of slice operations over a few aliased variables, all observed after each step.
func (c *Ctx) histories(n int, tgt Target, bits int) {
	c.each("history", n, func(s *Slot, i int, r *rand.Rand) {
		m := sliceHistory(r, bits)
		in := &Interp{Bits: bits, Max: 60000}
		if ok, why := in.Run(m, nil); !ok {
			c.count("histories outside of the reference: "+why, 1)
			return
		}
		c.noteProg(in)
		c.count("slice histories", 1)
		p := mainProg(m, in, tgt)
		c.seen(p.Files["main.tsh"])
		c.sample("history", p.Files["main.tsh"])
		c.judge(s, fmt.Sprintf("history:%d", i), p, func() *Prog { return c.shrink(s, m, bits, tgt) })
	})
}

func sliceHistory(r *rand.Rand, bits int) *Module {
	t := []Type{SInt, SStr, SBool}[r.IntN(3)]
	m := &Module{}
	val := func() *Expr {
		switch t {
		case SInt:
			return lit(r.IntN(200) - 50)
		case SStr:
			return lit(simpleStr(r))
		}
		return lit(r.IntN(2) == 0)
	}
	// Shadow model to keep reads within range: lengths per object.
	type obj struct{ n int }
	vars := []*Var{}
	objs := []*obj{}
	maxLen := []int{4, 12, 40}[r.IntN(3)]
	newLit := func() (*Expr, *obj) {
		k := r.IntN(5)
		x := []*Expr{}
		for j := 0; j < k; j++ {
			x = append(x, val())
		}
		return slit(t, x...), &obj{k}
	}
	inFn := r.IntN(3) == 0
	l := []*Stmt{}
	for k := 0; k < 3; k++ {
		v := mkVar(fmt.Sprintf("s%d", k), t)
		e, o := newLit()
		if r.IntN(4) == 0 {
			l = append(l, &Stmt{K: SVar, Form: "T", T: t, Vars: []*Var{v}})
			o = &obj{0}
		} else {
			l = append(l, def(v, e))
		}
		vars, objs = append(vars, v), append(objs, o)
	}
	// Helper functions.
	pa := mkVar("pa", t)
	put := &Func{Name: "put", Mod: m}
	pi, pv := mkVar("pi", TInt), mkVar("pv", t.Elem())
	put.Params = []*Var{pa, pi, pv}
	put.Body = []*Stmt{sset(pa, ev(pi), ev(pv))}
	qa := mkVar("qa", t)
	same := &Func{Name: "same", Mod: m, Params: []*Var{qa}, Rets: []Type{t}, Body: []*Stmt{sret(ev(qa))}}
	ca := mkVar("ca", t)
	cb := mkVar("cb", t)
	clone := &Func{Name: "clone", Mod: m, Params: []*Var{ca}, Rets: []Type{t}, Body: []*Stmt{{K: SVar, Form: "T", T: t, Vars: []*Var{cb}}, sexpr(ecopy(cb, ev(ca))), sret(ev(cb))}}
	// A loop which creates slices, to make sure that each iteration gets its own.
	idx := func(k int) *Expr {
		switch r.IntN(4) {
		case 0:
			return bin("+", lit(k), lit(0))
		case 1:
			return bin("-", lit(k+3), lit(3))
		}
		return lit(k)
	}
	dump := func(k int) {
		i, e := mkVar("i", TInt), mkVar("e", t.Elem())
		l = append(l, sprint(lit(fmt.Sprintf("s%d", k)), elen(ev(vars[k]))))
		l = append(l, &Stmt{K: SRange, Vars: []*Var{i, e}, X: []*Expr{ev(vars[k])}, Blocks: [][]*Stmt{{sprint(ev(i), ev(e))}}})
	}
	steps := 4 + r.IntN(10)
	for k := 0; k < steps; k++ {
		a := r.IntN(len(vars))
		b := r.IntN(len(vars))
		switch r.IntN(13) {
		case 0:
			e, o := newLit()
			l = append(l, assign(vars[a], e))
			objs[a] = o
		case 1, 2:
			l = append(l, assign(vars[a], ev(vars[b])))
			objs[a] = objs[b]
		case 3, 4:
			if objs[a].n < maxLen {
				l = append(l, sset(vars[a], elen(ev(vars[a])), val()))
				objs[a].n++
			}
		case 5:
			at := objs[a].n + r.IntN(maxLen/2+1)
			if at < maxLen {
				l = append(l, sset(vars[a], idx(at), val()))
				objs[a].n = at + 1
			}
		case 6, 7:
			if objs[a].n > 0 {
				l = append(l, sset(vars[a], idx(r.IntN(objs[a].n)), val()))
			}
		case 8:
			if objs[a].n <= objs[b].n {
				cp := ecopy(vars[a], ev(vars[b]))
				if r.IntN(2) == 0 {
					l = append(l, sexpr(cp))
				} else {
					l = append(l, sprint(lit("copied"), cp))
				}
				objs[a].n = objs[b].n
			}
		case 9:
			at := r.IntN(objs[a].n + 2)
			if at < maxLen {
				l = append(l, sexpr(call(put, ev(vars[a]), idx(at), val())))
				objs[a].n = max(objs[a].n, at+1)
			}
		case 10:
			l = append(l, assign(vars[a], call(same, ev(vars[b]))))
			objs[a] = objs[b]
		case 11:
			l = append(l, assign(vars[a], call(clone, ev(vars[b]))))
			objs[a] = &obj{objs[b].n}
		case 12:
			if objs[a].n > 0 && objs[b].n > 0 {
				x, y := r.IntN(objs[a].n), r.IntN(objs[b].n)
				l = append(l, sset(vars[a], idx(x), index(vars[b], idx(y))), sprint(index(vars[a], idx(x)), cmp("==", index(vars[a], idx(x)), index(vars[b], idx(y)))))
			}
		}
		if r.IntN(3) == 0 {
			dump(a)
			dump(b)
		}
	}
	if r.IntN(3) == 0 {
		// Slices of slices via loop: each iteration gets a new one; the last one survives.
		i, q := mkVar("it", TInt), mkVar("fresh", t)
		l = append(l, &Stmt{K: SFor, Form: "3", Init: def(i, lit(0)), Cond: cmp("<", ev(i), lit(3)), Post: &Stmt{K: SInc, Op: "++", Vars: []*Var{i}}, Blocks: [][]*Stmt{{
			def(q, slit(t, val())), sset(q, bin("+", ev(i), lit(1)), val()), assign(vars[0], ev(q)), sprint(elen(ev(q)))}}})
	}
	for k := range vars {
		dump(k)
	}
	m.Body = []*Stmt{sfunc(put), sfunc(same), sfunc(clone)}
	if inFn {
		f := &Func{Name: "work", Mod: m, Body: l}
		m.Body = append(m.Body, sfunc(f), sexpr(call(f)))
		if r.IntN(2) == 0 {
			m.Body = append(m.Body, sexpr(call(f)))
		}
	} else {
		m.Body = append(m.Body, l...)
	}
	return m
}
