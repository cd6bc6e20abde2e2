package main

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
)

// The matrix programs send values from every kind of expression that can produce them (source) to every kind of
// place that can consume them (sink), at several locations (top level, function, loops, branches).

type mx struct {
	m     *Module
	n     int
	t     Type
	file  string // file that holds the value (strings only, "" = not available)
	stdin bool   // every input() yields the value
	app   bool   // @cat(file) is available
	write bool
	files bool // sinks are the file operations
	r     *rand.Rand
}

const (
	mxSources = 20
	mxSinks   = 36
	mxLocs    = 7
)

func (g *mx) name(p string) string { g.n++; return fmt.Sprintf("%s%d", p, g.n) }
func (g *mx) v(t Type) *Var        { return mkVar(g.name("x"), t) }
func (g *mx) fn(f *Func) *Func {
	f.Name = g.name("fn")
	f.Mod = g.m
	g.m.Body = append(g.m.Body, sfunc(f))
	return f
}
func (g *mx) param(t Type) *Var          { return mkVar(g.name("p"), t) }
func (g *mx) put(b *[]*Stmt, s ...*Stmt) { *b = append(*b, s...) }

// lit yields a literal for the value.
func (g *mx) lit(val any) *Expr {
	if l, ok := val.([]any); ok {
		x := []*Expr{}
		for _, e := range l {
			x = append(x, lit(e))
		}
		return slit(g.t, x...)
	}
	return lit(val)
}

// other yields literals that differ from the value.
func (g *mx) other(k int) *Expr {
	switch g.t {
	case TInt:
		return lit(40 + k)
	case TBool:
		return lit(k%2 == 0)
	case TStr:
		return lit(fmt.Sprintf("o %d", k))
	case SInt:
		return slit(SInt, lit(k), lit(k+1))
	case SBool:
		return slit(SBool, lit(k%2 == 0))
	}
	return slit(SStr, lit(fmt.Sprintf("o  %d", k)))
}

func (g *mx) show(e *Expr, tag string) []*Stmt {
	if !g.t.Slice {
		return []*Stmt{sprint(lit(tag), e)}
	}
	v := g.v(g.t)
	i, x := g.v(TInt), g.v(g.t.Elem())
	return []*Stmt{def(v, e), sprint(lit(tag), elen(ev(v))), {K: SRange, Vars: []*Var{i, x}, X: []*Expr{ev(v)}, Blocks: [][]*Stmt{{sprint(ev(i), ev(x))}}}}
}

func brk() *Stmt { return &Stmt{K: SBreak} }

// source adds the statements which are needed for the source and returns an expression with the value and the list
// for the statements that use it. multi: the expression is a call with several results (nil otherwise).
func (g *mx) source(k int, val any, b *[]*Stmt) (*Expr, *[]*Stmt) {
	t := g.t
	one := func(e *Expr) (*Expr, *[]*Stmt) { return e, b }
	bound := func() *Var {
		v := g.v(t)
		g.put(b, def(v, g.lit(val)))
		return v
	}
	switch k {
	case 0:
		return one(g.lit(val))
	case 1:
		return one(ev(bound()))
	case 2: // A global variable.
		v := g.v(t)
		g.m.Body = append([]*Stmt{def(v, g.lit(val))}, g.m.Body...)
		return one(ev(v))
	case 3: // Result of a call.
		p := g.param(t)
		return one(call(g.fn(&Func{Params: []*Var{p}, Rets: []Type{t}, Body: []*Stmt{sret(ev(p))}}), g.lit(val)))
	case 4, 5, 6: // One of several results.
		p := g.param(t)
		f := &Func{Params: []*Var{p}, Rets: []Type{TInt, TStr, TBool}, Body: []*Stmt{}}
		x := []*Expr{lit(-3), lit("  second "), lit(true)}
		f.Rets[k-4] = t
		x[k-4] = ev(p)
		f.Body = append(f.Body, sret(x...))
		g.fn(f)
		vs := []*Var{}
		for _, rt := range f.Rets {
			vs = append(vs, g.v(rt))
		}
		g.put(b, &Stmt{K: SVar, Form: ":=", Vars: vs, X: []*Expr{call(f, g.lit(val))}})
		return one(ev(vs[k-4]))
	case 7: // Brackets.
		return one(group(group(ev(bound()))))
	case 8: // Call in a function that calls.
		p, q := g.param(t), g.param(t)
		f := g.fn(&Func{Params: []*Var{p}, Rets: []Type{t}, Body: []*Stmt{sret(ev(p))}})
		h := g.fn(&Func{Params: []*Var{mkVar(g.name("p"), TInt), q}, Rets: []Type{t}, Body: []*Stmt{sprint(lit("h")), sret(call(f, ev(q)))}})
		return one(call(h, lit(5), g.lit(val)))
	case 9: // Parameter, not changed by a later call of the same function.
		p := g.param(t)
		l := g.v(t)
		f := g.fn(&Func{Params: []*Var{p}, Rets: []Type{t}, Body: []*Stmt{def(l, ev(p)), sret(ev(l))}})
		v := g.v(t)
		g.put(b, def(v, call(f, g.lit(val))), sexpr(call(f, g.other(1))))
		return one(ev(v))
	case 10: // Global variable that is set by a function.
		v := g.v(t)
		p := g.param(t)
		g.m.Body = append([]*Stmt{def(v, g.other(3))}, g.m.Body...)
		f := g.fn(&Func{Params: []*Var{p}, Body: []*Stmt{assign(v, ev(p))}})
		g.put(b, sexpr(call(f, g.lit(val))))
		return one(ev(v))
	case 11: // Assigned in a branch.
		v := g.v(t)
		g.put(b, def(v, g.other(2)), sif(lit(true), assign(v, g.lit(val))))
		return one(ev(v))
	}
	if !t.Slice {
		st := t.SliceOf()
		switch k {
		case 12: // Slice element.
			s := g.v(st)
			g.put(b, def(s, slit(st, g.other(1), g.lit(val), g.other(2))))
			return one(index(s, lit(1)))
		case 13: // Stored slice element, variable index.
			s, i := g.v(st), g.v(TInt)
			g.put(b, def(s, slit(st)), def(i, lit(2)), sset(s, ev(i), g.lit(val)))
			return one(index(s, ev(i)))
		case 14: // Range value.
			i, x := g.v(TInt), g.v(t)
			l := &Stmt{K: SRange, Vars: []*Var{i, x}, X: []*Expr{slit(st, g.lit(val), g.lit(val))}, Blocks: [][]*Stmt{nil}}
			g.put(b, l)
			return ev(x), &l.Blocks[0]
		case 15: // Element of a copy.
			s, d := g.v(st), g.v(st)
			g.put(b, def(s, slit(st, g.lit(val), g.other(2))), def(d, slit(st)), sprint(ecopy(d, ev(s))))
			return one(index(d, lit(0)))
		}
	}
	switch t {
	case TInt:
		n := int64(val.(int))
		switch k {
		case 16:
			return one(bin("+", ev(bound()), lit(0)))
		case 17:
			return one(bin("-", bin("*", lit(n), lit(1)), bin("-", lit(3), lit(3))))
		case 18:
			if n >= 0 && n < 50 {
				s := make([]byte, n)
				for i := range s {
					s[i] = "ab "[i%3]
				}
				return one(elen(lit(string(s))))
			}
		case 19:
			if n >= 0 && n < 20 {
				s := g.v(SInt)
				g.put(b, def(s, slit(SInt)), def(g.v(TInt), lit(0)))
				for i := int64(0); i < n; i++ {
					g.put(b, sset(s, lit(i), lit(i*i)))
				}
				return one(elen(ev(s)))
			}
		}
	case TBool:
		x := g.v(TInt)
		g.put(b, def(x, lit(4)))
		tv := val.(bool)
		switch k {
		case 16:
			if tv {
				return one(cmp(">", ev(x), lit(3)))
			}
			return one(cmp("<=", ev(x), lit(3)))
		case 17:
			return one(not(lit(!tv)))
		case 18:
			return one(logic("||", lit(tv), cmp("==", lit("a"), lit("b"))))
		case 19:
			return one(logic("&&", cmp("!=", ev(x), lit(-4)), group(ev(bound()))))
		}
	case TStr:
		s := val.(string)
		switch k {
		case 16:
			return one(bin("+", bin("+", lit(s[:len(s)/2]), lit(s[len(s)/2:])), lit("")))
		case 17:
			v := g.v(TStr)
			g.put(b, def(v, lit("ab"+s+"c")))
			if len(s) > 0 {
				return one(substr(v, "ab", lit(2), bin("-", elen(ev(v)), lit(1))))
			}
		case 18:
			if g.file != "" {
				return one(&Expr{K: ERead, T: TStr, X: []*Expr{lit(g.file)}})
			}
		case 19:
			if g.app && g.r.IntN(2) == 0 {
				o, e, c := g.v(TStr), g.v(TStr), g.v(TInt)
				g.put(b, &Stmt{K: SVar, Form: ":=", Vars: []*Var{o, e, c}, X: []*Expr{{K: EApp, Apps: []App{{Name: "cat", Args: []*Expr{lit(g.file)}}}}}})
				return one(ev(o))
			}
			if g.stdin {
				return one(&Expr{K: EInput, T: TStr})
			}
		}
	}
	return one(ev(bound()))
}

// sink adds statements that consume the value.
func (g *mx) sink(k, src int, val any, b *[]*Stmt) {
	t := g.t
	tag := g.name("t")
	get := func() *Expr {
		e, nb := g.source(src, val, b)
		b = nb
		return e
	}
	shown := func(v *Var) { g.put(b, g.show(ev(v), tag)...) }
	eq := func(e *Expr) *Expr { return cmp("==", e, g.lit(val)) }
	switch k {
	case 0:
		e := get()
		if t.Slice {
			v := g.v(t)
			g.put(b, def(v, e))
			e = index(v, lit(0))
		}
		g.put(b, sprint(e))
		return
	case 1:
		if !t.Slice {
			g.put(b, sprint(lit(tag), get(), lit("and"), get(), lit("")))
			return
		}
	case 2:
		v := g.v(t)
		e := get()
		g.put(b, def(v, e))
		shown(v)
		return
	case 3:
		v := g.v(t)
		e := get()
		g.put(b, &Stmt{K: SVar, Form: "T=", T: t, Vars: []*Var{v}, X: []*Expr{e}})
		shown(v)
		return
	case 4:
		v, w := g.v(t), g.v(t)
		e := get()
		g.put(b, &Stmt{K: SVar, Form: "=", Vars: []*Var{v, w}, X: []*Expr{e, g.other(4)}})
		shown(w)
		shown(v)
		return
	case 5:
		v := g.v(t)
		g.put(b, def(v, g.other(1)))
		e := get()
		g.put(b, assign(v, e))
		shown(v)
		return
	case 6:
		v, w := g.v(t), g.v(t)
		g.put(b, def(v, g.other(1)), def(w, g.other(2)))
		e := get()
		g.put(b, &Stmt{K: SAssign, Vars: []*Var{v, w}, X: []*Expr{ev(w), e}})
		shown(v)
		shown(w)
		return
	case 7, 8, 9, 10: // Argument of a function without result.
		pos, n := k-7, []int{1, 2, 3, 3}[k-7]
		if pos == 3 {
			pos = 0
		}
		f := &Func{}
		args := []*Expr{}
		for i := 0; i < n; i++ {
			if i == pos {
				p := g.param(t)
				f.Params = append(f.Params, p)
				f.Body = append(f.Body, g.show(ev(p), tag)...)
				args = append(args, get())
			} else {
				p := g.param(TStr)
				f.Params = append(f.Params, p)
				f.Body = append(f.Body, sprint(lit("<"), ev(p), lit(">")))
				args = append(args, lit(fmt.Sprintf(" arg  %d", i)))
			}
		}
		g.fn(f)
		g.put(b, sexpr(call(f, args...)))
		return
	case 11, 12: // Argument of a function with result.
		p, q := g.param(t), g.param(TInt)
		f := &Func{Params: []*Var{p, q}, Rets: []Type{TInt}, Body: append(g.show(ev(p), tag), sret(bin("+", ev(q), lit(1))))}
		args := []*Expr{get(), lit(8)}
		if k == 12 {
			f.Params = []*Var{q, p}
			args = []*Expr{lit(8), args[0]}
		}
		g.fn(f)
		if k == 11 {
			g.put(b, sprint(bin("-", lit(3), call(f, args...))))
		} else {
			g.put(b, sexpr(call(f, args...))) // The result is not used.
		}
		return
	case 13, 14, 15, 16, 17: // Returned value.
		f := &Func{}
		var body []*Stmt
		nb := &body
		e, nb := g.source(src, val, nb)
		switch k {
		case 13:
			f.Rets = []Type{t}
			g.put(nb, sret(e))
		case 14:
			f.Rets = []Type{t, TInt}
			g.put(nb, sret(e, lit(3)))
		case 15:
			f.Rets = []Type{TStr, t}
			g.put(nb, sret(lit(" one  two "), e))
		case 16:
			f.Rets = []Type{TInt, t, TStr}
			g.put(nb, sret(lit(-1), e, lit("k ")))
		case 17:
			f.Rets = []Type{t, t}
			g.put(nb, sret(e, g.other(6)))
		}
		if n := len(body); n == 0 || body[n-1].K != SReturn {
			x := []*Expr{}
			for _, rt := range f.Rets {
				y := &mx{t: rt}
				x = append(x, y.other(9))
			}
			body = append(body, sret(x...))
		}
		f.Body = body
		g.fn(f)
		vs := []*Var{}
		for _, rt := range f.Rets {
			vs = append(vs, g.v(rt))
		}
		g.put(b, &Stmt{K: SVar, Form: ":=", Vars: vs, X: []*Expr{call(f)}})
		for _, v := range vs {
			y := &mx{m: g.m, n: g.n, t: v.T}
			g.put(b, y.show(ev(v), tag)...)
			g.n = y.n
		}
		return
	}
	if t.Slice {
		et := t.Elem()
		switch k {
		case 18:
			g.put(b, sprint(lit(tag), elen(get())))
		case 19, 20:
			i, x := g.v(TInt), g.v(et)
			e := get()
			g.put(b, &Stmt{K: SRange, Vars: []*Var{i, x}, X: []*Expr{e}, Blocks: [][]*Stmt{{sprint(ev(i), ev(x))}}})
		case 21, 22:
			d := g.v(t)
			g.put(b, def(d, slit(t)))
			e := get()
			g.put(b, sprint(ecopy(d, e)))
			shown(d)
		case 23, 24: // Aliases share their elements.
			v, w := g.v(t), g.v(t)
			e := get()
			g.put(b, def(v, e), def(w, ev(v)), sset(w, lit(0), (&mx{t: et}).other(3)), sset(v, lit(k-20), (&mx{t: et}).other(5)))
			shown(v)
			shown(w)
		case 25, 26: // Changed by a function.
			p := g.param(t)
			f := g.fn(&Func{Params: []*Var{p}, Rets: []Type{TInt}, Body: []*Stmt{sset(p, elen(ev(p)), (&mx{t: et}).other(7)), sret(elen(ev(p)))}})
			v := g.v(t)
			e := get()
			g.put(b, def(v, e), sprint(call(f, ev(v)), elen(ev(v))))
			shown(v)
		default:
			v, i := g.v(t), g.v(TInt)
			e := get()
			g.put(b, def(v, e), def(i, bin("-", elen(ev(v)), lit(1))), sif(cmp(">=", ev(i), lit(0)), sprint(lit(tag), index(v, ev(i)))))
		}
		return
	}
	st := t.SliceOf()
	switch k {
	case 18, 19:
		s := g.v(st)
		x := []*Expr{g.other(1), g.other(2), g.other(3)}
		x[(k-18)*2] = get()
		g.put(b, def(s, slit(st, x...)))
		g.put(b, (&mx{m: g.m, n: 1000 + g.n, t: st}).show(ev(s), tag)...)
	case 20, 21, 22:
		s := g.v(st)
		g.put(b, def(s, slit(st, g.other(1))))
		e := get()
		g.put(b, sset(s, lit([]int{0, 1, 4}[k-20]), e))
		g.put(b, (&mx{m: g.m, n: 1000 + g.n, t: st}).show(ev(s), tag)...)
	case 23:
		g.put(b, sprint(lit(tag), eq(get()), cmp("!=", g.lit(val), get()), cmp("==", g.other(1), get())))
	case 24:
		v := g.v(t)
		g.put(b, def(v, g.lit(val)))
		e := get()
		g.put(b, &Stmt{K: SIf, X: []*Expr{cmp("==", ev(v), g.other(8)), cmp("==", e, ev(v))}, Blocks: [][]*Stmt{{sprint(lit("first"))}, {sprint(lit("second"), ev(v))}, {sprint(lit("else"))}}, Else: true})
	case 25:
		e := get()
		g.put(b, &Stmt{K: SSwitch, Def: 0, Tag: e, X: []*Expr{g.other(5), g.lit(val)}, Blocks: [][]*Stmt{{sprint(lit("default"))}, {sprint(lit("case other"))}, {sprint(lit("case value"))}}})
	case 26:
		e := get()
		g.put(b, &Stmt{K: SSwitch, Def: -1, Tag: g.lit(val), X: []*Expr{g.other(5), e}, Blocks: [][]*Stmt{{sprint(lit("case other"))}, {sprint(lit("case value"), lit(tag))}}})
	case 27: // Loop condition.
		i := g.v(TInt)
		v := g.v(t)
		g.put(b, def(v, g.other(1)))
		e := get()
		g.put(b, &Stmt{K: SFor, Init: def(i, lit(0)), Cond: logic("&&", cmp("!=", e, ev(v)), cmp("<", ev(i), lit(3))), Post: &Stmt{K: SInc, Op: "++", Vars: []*Var{i}}, Blocks: [][]*Stmt{{sprint(ev(i)), sif(cmp("==", ev(i), lit(1)), assign(v, g.lit(val)))}}}, sprint(lit("end")))
	default:
		if g.files {
			g.fileSink(k, tag, val, get, func(s ...*Stmt) { g.put(b, s...) })
			return
		}
		switch t {
		case TInt:
			switch k {
			case 28:
				g.put(b, sprint(bin("-", get(), lit(3)), bin("-", lit(3), get()), bin("*", get(), lit(-2))))
			case 29:
				v := g.v(t)
				g.put(b, def(v, lit(100)))
				e := get()
				g.put(b, &Stmt{K: SOpAssign, Op: []string{"+=", "-=", "*="}[g.r.IntN(3)], Vars: []*Var{v}, X: []*Expr{e}}, sprint(ev(v)))
			case 30:
				g.put(b, sprint(eitoa(get()), bin("+", eitoa(get()), lit("|")), elen(eitoa(get()))))
			case 31:
				s := g.v(SStr)
				g.put(b, def(s, slit(SStr, lit("zero"), lit("one"), lit("two"))))
				e := get()
				g.put(b, sprint(index(s, bin("-", e, bin("-", g.lit(val), lit(2))))))
			case 32:
				s := g.v(TStr)
				g.put(b, def(s, lit("abcdefgh")))
				e := get()
				g.put(b, sprint(substr(s, "ab", bin("-", e, g.lit(val)), bin("+", bin("-", get(), g.lit(val)), lit(3))), substr(s, "i", bin("-", get(), g.lit(val)))))
			case 33:
				g.put(b, sprint(cmp("<", get(), lit(5)), cmp(">=", lit(5), get()), cmp("<=", get(), g.lit(val)), cmp(">", get(), lit(-6))))
			case 34:
				s := g.v(SInt)
				g.put(b, def(s, slit(SInt, lit(6))))
				e := get()
				g.put(b, sset(s, bin("+", bin("-", e, g.lit(val)), lit(1)), get()), sprint(elen(ev(s)), index(s, lit(1))))
			case 35:
				g.put(b, sprint(bin("/", get(), lit(3)), bin("%", get(), lit(3))))
			}
		case TBool:
			switch k {
			case 28:
				g.put(b, sprint(not(get()), logic("&&", get(), lit(true)), logic("||", lit(false), get())))
			case 29:
				e := get()
				g.put(b, &Stmt{K: SIf, X: []*Expr{e}, Blocks: [][]*Stmt{{sprint(lit("yes"))}, {sprint(lit("no"))}}, Else: true})
			case 30:
				e := get()
				g.put(b, &Stmt{K: SIf, X: []*Expr{lit(false), e}, Blocks: [][]*Stmt{{sprint(lit("yes"))}, {sprint(lit("no"))}, {sprint(lit("neither"))}}, Else: true})
			case 31:
				i := g.v(TInt)
				g.put(b, def(i, lit(0)))
				e := get()
				g.put(b, &Stmt{K: SFor, Cond: e, Blocks: [][]*Stmt{{sprint(lit("round")), &Stmt{K: SInc, Op: "++", Vars: []*Var{i}}, sif(cmp(">", ev(i), lit(1)), brk())}}})
			case 32:
				g.put(b, sprint(not(not(group(get()))), logic("||", logic("&&", get(), lit(false)), get())))
			case 33:
				e := get()
				g.put(b, &Stmt{K: SSwitch, Def: 0, X: []*Expr{e}, Blocks: [][]*Stmt{{sprint(lit("default"))}, {sprint(lit("true"))}}})
			default:
				if g.write {
					e := get()
					g.put(b, &Stmt{K: SWrite, X: []*Expr{lit("log"), lit(tag), e}}, sprint(&Expr{K: ERead, T: TStr, X: []*Expr{lit("log")}}))
				} else {
					g.put(b, sprint(get(), not(get())))
				}
			}
		case TStr:
			switch k {
			case 28:
				g.put(b, sprint(bin("+", lit("<"), bin("+", get(), lit(">"))), bin("+", bin("+", get(), lit("|")), get())))
			case 29:
				v := g.v(t)
				g.put(b, def(v, lit("k ")))
				e := get()
				g.put(b, &Stmt{K: SOpAssign, Op: "+=", Vars: []*Var{v}, X: []*Expr{e}}, sprint(bin("+", ev(v), lit("."))))
			case 30:
				g.put(b, sprint(lit(tag), elen(get()), bin("*", elen(get()), lit(2))))
			case 31:
				i, x := g.v(TInt), g.v(TStr)
				e := get()
				g.put(b, &Stmt{K: SRange, Vars: []*Var{i, x}, X: []*Expr{e}, Blocks: [][]*Stmt{{sprint(ev(i), bin("+", lit("<"), bin("+", ev(x), lit(">"))))}}})
			case 32:
				v := g.v(TStr)
				e := get()
				g.put(b, def(v, bin("+", e, lit("end"))), sprint(bin("+", bin("+", lit("<"), substr(v, "i", lit(0))), bin("+", substr(v, "a", lit(1)), lit(">")))), sprint(bin("+", substr(v, "b", bin("-", elen(ev(v)), lit(2))), lit("|"))))
			case 33:
				if g.write {
					e := get()
					g.put(b, &Stmt{K: SWrite, X: []*Expr{lit("out"), e}}, sprint(&Expr{K: ERead, T: TStr, X: []*Expr{lit("out")}}))
					return
				}
				g.put(b, sprint(get()))
			case 34:
				if g.write {
					e := get()
					g.put(b, &Stmt{K: SWrite, X: []*Expr{lit("log"), e, lit(true)}}, sprint(elen(&Expr{K: ERead, T: TStr, X: []*Expr{lit("log")}})))
					return
				}
				g.put(b, sprint(lit(tag), get()))
			case 35:
				if g.stdin {
					e := get()
					v := g.v(TStr)
					g.put(b, def(v, &Expr{K: EInput, T: TStr, X: []*Expr{e}}), sprint(ev(v)))
					return
				}
				g.put(b, sprint(get(), lit("."), get()))
			}
		}
	}
}

// fileSink uses the value in file operations.
func (g *mx) fileSink(k int, tag string, val any, get func() *Expr, put func(...*Stmt)) {
	if g.t == TBool { // Append flags.
		f := lit([]string{"log", "a b", tag}[k%3])
		switch k {
		case 28, 29:
			e := get()
			put(swrite(f, lit(tag), e), sprint(eread(f)))
		case 30:
			e := get()
			put(swrite(f, lit("first")), swrite(f, lit("second"), e), swrite(f, lit("third"), e), sprint(eread(f)))
		case 31:
			p := g.param(TBool)
			q := g.param(TStr)
			h := g.fn(&Func{Params: []*Var{q, p}, Body: []*Stmt{swrite(ev(q), lit(tag)), swrite(ev(q), lit("2 "), ev(p))}})
			put(sexpr(call(h, f, get())), sprint(eread(f)))
		case 32:
			i := g.v(TInt)
			e := get()
			put(&Stmt{K: SFor, Init: def(i, lit(0)), Cond: cmp("<", ev(i), lit(2)), Post: &Stmt{K: SInc, Op: "++", Vars: []*Var{i}}, Blocks: [][]*Stmt{{swrite(f, eitoa(ev(i)), e)}}}, sprint(eread(f)))
		case 33:
			e := get()
			put(swrite(f, lit(tag)), swrite(f, lit("x"), not(e)), sprint(eread(f), eexists(f)))
		case 34:
			e := get()
			put(swrite(f, lit(tag)), swrite(f, eread(f), e), sprint(eread(f)))
		default:
			e := get()
			put(swrite(f, lit(tag)), swrite(f, lit("x"), logic("&&", e, eexists(f))), sprint(eread(f)))
		}
		return
	}
	f := g.lit(val)
	switch k { // Paths.
	case 28:
		e := get()
		put(sprint(eexists(e)), swrite(e, lit(tag)), sprint(eexists(e), eread(f)))
	case 29:
		put(swrite(f, lit(tag)))
		e := get()
		put(sprint(eread(e), elen(eread(e))))
	case 30:
		e := get()
		put(swrite(e, lit("1")), swrite(e, lit("2"), lit(true)), sprint(eread(f)))
	case 31:
		e := get()
		put(&Stmt{K: SIf, X: []*Expr{eexists(e)}, Blocks: [][]*Stmt{{sprint(lit("there"), eread(e))}, {swrite(e, lit("new"))}}, Else: true}, sprint(not(eexists(f))))
	case 32:
		e := get()
		put(swrite(e, get()), sprint(cmp("==", eread(e), e), eread(f)))
	case 33:
		put(swrite(f, lit(tag), lit(true)))
		e := get()
		put(swrite(lit("copy"), eread(e)), sprint(eread(lit("copy")), eexists(lit("cop"))))
	case 34:
		e := get()
		put(swrite(lit("log"), e, eexists(lit("log"))), sprint(eread(lit("log"))))
	default:
		e := get()
		p, q := g.param(TStr), g.param(TStr)
		h := g.fn(&Func{Params: []*Var{p, q}, Rets: []Type{TStr}, Body: []*Stmt{swrite(ev(p), ev(q), lit(true)), sret(eread(ev(p)))}})
		put(sprint(call(h, e, get())))
	}
}

// mxProgram builds a program out of pairs (source*mxSinks + sink), every pair has its own value.
func (g *mx) program(pairs []int, vals []any, loc int) *Module {
	g.m = &Module{}
	var main []*Stmt
	for i, p := range pairs {
		var b []*Stmt
		g.sink(p%mxSinks, p/mxSinks, vals[i%len(vals)], &b)
		switch loc % mxLocs {
		case 0:
			main = append(main, b...)
		case 1:
			f := g.fn(&Func{Body: b})
			main = append(main, sexpr(call(f)))
		case 2:
			v := g.v(TInt)
			main = append(main, &Stmt{K: SFor, Init: def(v, lit(0)), Cond: cmp("<", ev(v), lit(2)), Post: &Stmt{K: SInc, Op: "++", Vars: []*Var{v}}, Blocks: [][]*Stmt{b}})
		case 3:
			main = append(main, &Stmt{K: SIf, X: []*Expr{lit(false), lit(true)}, Blocks: [][]*Stmt{{sprint(lit("never"))}, b, {sprint(lit("never"))}}, Else: true})
		case 4:
			main = append(main, &Stmt{K: SSwitch, Def: 1, Tag: lit(3), X: []*Expr{lit(2), lit(3)}, Blocks: [][]*Stmt{{sprint(lit("never"))}, {sprint(lit("never"))}, b}})
		case 5: // Function with parameters and result, called within an expression within a loop.
			p := g.param(TInt)
			v := g.v(TInt)
			f := g.fn(&Func{Params: []*Var{p}, Rets: []Type{TInt}, Body: append(b, sret(bin("+", ev(p), lit(1))))})
			main = append(main, &Stmt{K: SRange, Vars: []*Var{v}, X: []*Expr{lit("ab")}, Blocks: [][]*Stmt{{sprint(bin("-", bin("*", ev(v), lit(10)), call(f, ev(v))))}}})
		case 6: // Nested blocks within a function, second call.
			v := g.v(TInt)
			f := g.fn(&Func{Body: []*Stmt{{K: SFor, Init: def(v, lit(0)), Cond: cmp("<", ev(v), lit(1)), Post: &Stmt{K: SInc, Op: "++", Vars: []*Var{v}}, Blocks: [][]*Stmt{{{K: SSwitch, Def: 0, Blocks: [][]*Stmt{{sif(lit(true), b...)}}}}}}}})
			main = append(main, sexpr(call(f)), sexpr(call(f)))
		}
	}
	g.m.Body = append(g.m.Body, main...)
	return g.m
}

func mxValues(t Type, hot []string) []any {
	switch t {
	case TInt:
		return []any{0, 1, -1, 7, 10, -128, 99999, 2147483646, -2147483647}
	case TBool:
		return []any{true, false}
	case TStr:
		l := []any{}
		for _, s := range hot {
			l = append(l, s)
		}
		return l
	case SInt:
		return []any{[]any{5}, []any{0, -1, 2}, []any{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}}
	case SBool:
		return []any{[]any{false}, []any{true, false, true}}
	}
	return []any{[]any{hot[0]}, []any{hot[len(hot)-1], "", hot[len(hot)/2]}, []any{"", "b b"}}
}

// matrix runs programs of 6 pairs each; every (source, sink) occurs at every location (rounds times).
func (c *Ctx) matrix(types []Type, hot []string, tgt Target, bits, rounds int, fs bool) {
	files := c.ID == "C17"
	const per = 6
	n := (mxSources*mxSinks + per - 1) / per
	c.each("matrix", n*len(types)*mxLocs*rounds, func(s *Slot, i int, r *rand.Rand) {
		t := types[i%len(types)]
		loc := i / len(types) % mxLocs
		k := i / len(types) / mxLocs % n
		g := &mx{t: t, r: r, write: fs, files: files}
		vals := mxValues(t, hot)
		r.Shuffle(len(vals), func(a, b int) { vals[a], vals[b] = vals[b], vals[a] })
		if fs && t == TStr {
			vals = vals[:1] // The file and the standard input hold one value.
			g.file, g.app = "in", true
			g.stdin = !containsByte(vals[0].(string), '\n')
		}
		pairs := []int{}
		for j := 0; j < per; j++ {
			pairs = append(pairs, (k+j*n)%(mxSources*mxSinks))
		}
		m := g.program(pairs, vals, loc)
		in := &Interp{Bits: bits, Max: 100000}
		var dir, stdin string
		if fs {
			in.FS, in.Canon = map[string]string{}, filepath.Clean
			in.AppFn = catApp
			dir = s.freshDir("mx")
			if t == TStr {
				in.FS["in"] = vals[0].(string) + "\n"
				mustWrite(dir+"/in", in.FS["in"])
				if g.stdin {
					for j := 0; j < 100; j++ {
						in.Stdin = append(in.Stdin, vals[0].(string))
						stdin += vals[0].(string) + "\n"
					}
				}
			}
			for _, x := range baits {
				in.FS[x] = "bait " + x + "\n"
				mustWrite(dir+"/"+x, in.FS[x])
				os.Chmod(dir+"/"+x, 0o666)
			}
		}
		if ok, why := in.Run(m, nil); !ok {
			c.count("matrix programs without defined meaning: "+why, 1)
			return
		}
		c.noteProg(in)
		c.count("matrix programs", 1)
		p := mainProg(m, in, tgt)
		if fs {
			p.Dir, p.Stdin, p.Want.Files = dir, stdin, in.FS
		}
		c.seen(p.Files["main.tsh"])
		c.sample("matrix", p.Files["main.tsh"])
		var shrink func() *Prog
		if !fs {
			shrink = func() *Prog { return c.shrink(s, m, bits, tgt) }
		}
		c.judge(s, fmt.Sprintf("matrix:%d", i), p, shrink)
	})
}

func containsByte(s string, b byte) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == b {
			return true
		}
	}
	return false
}

var mxPlain = []string{"x", "a b", "", "two  blanks", "abc", " lead", "Q.", "0", "1-2"}
