package main

// siteTable: one place of the source produces several slices (calls, loop iterations) which stay alive next to each
// other; changes of one of them must not be visible in the others, but in its aliases.
func siteTable(deep bool) (out []*Module) {
	sizes := []int{0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 17}
	if deep {
		sizes = append(sizes, 7, 11, 16, 20, 31, 33, 64, 100)
	}
	types := []Type{SInt, SStr, SBool}
	for kind := 0; kind < 16; kind++ {
		for k, n := range sizes {
			for ti, t := range types {
				if !deep && (k+kind+ti)%2 == 1 && n > 4 {
					continue
				}
				for loc := 0; loc < 2; loc++ {
					out = append(out, siteProg(kind, n, t, loc))
				}
			}
		}
	}
	return
}

func siteProg(kind, n int, t Type, loc int) *Module {
	g := &mx{t: t, m: &Module{}}
	et := t.Elem()
	p := g.param(TInt)
	elem := func(i int, x *Expr) *Expr { // Depends on the call and on the position.
		switch et {
		case TInt:
			return bin("+", bin("*", x, lit(100)), lit(i))
		case TBool:
			return cmp("==", bin("%", bin("+", x, lit(i)), lit(2)), lit(0))
		}
		return bin("+", eitoa(x), lit(string(rune('a'+i%26))))
	}
	elems := func(x *Expr) (l []*Expr) {
		for i := 0; i < n; i++ {
			l = append(l, elem(i, x))
		}
		return
	}
	lits := func(k int) (l []*Expr) {
		for i := 0; i < n; i++ {
			switch et {
			case TInt:
				l = append(l, lit(k*100+i))
			case TBool:
				l = append(l, lit((k+i)%3 == 0))
			default:
				l = append(l, lit(string(rune('a'+(k*7+i)%26))))
			}
		}
		return
	}
	s := g.v(t)
	f := &Func{Params: []*Var{p}, Rets: []Type{t}}
	switch kind {
	case 0:
		f.Body = []*Stmt{sret(slit(t, elems(ev(p))...))}
	case 1:
		f.Body = []*Stmt{sret(slit(t, lits(3)...))} // The same values in every call.
	case 2:
		f.Body = []*Stmt{def(s, slit(t, elems(ev(p))...)), sret(ev(s))}
	case 3: // Element by element.
		f.Body = []*Stmt{def(s, slit(t))}
		for i, x := range elems(ev(p)) {
			f.Body = append(f.Body, sset(s, lit(i), x))
		}
		f.Body = append(f.Body, sret(ev(s)))
	case 4: // Copy.
		d := g.v(t)
		f.Body = []*Stmt{def(s, slit(t, elems(ev(p))...)), def(d, slit(t)), sexpr(ecopy(d, ev(s))), sret(ev(d))}
	case 5: // Branches with literals of their own.
		f.Body = []*Stmt{{K: SIf, X: []*Expr{cmp("==", bin("%", ev(p), lit(2)), lit(0))}, Blocks: [][]*Stmt{{sret(slit(t, elems(ev(p))...))}}}, def(s, slit(t, lits(1)...)), sret(ev(s))}
	case 6: // In a loop, overwritten.
		i := g.v(TInt)
		f.Body = []*Stmt{def(s, slit(t)), {K: SFor, Init: def(i, lit(0)), Cond: cmp("<=", ev(i), ev(p)), Post: &Stmt{K: SInc, Op: "++", Vars: []*Var{i}}, Blocks: [][]*Stmt{{assign(s, slit(t, elems(ev(i))...))}}}, sret(ev(s))}
	case 7: // Through another function.
		q := g.param(t)
		h := g.fn(&Func{Params: []*Var{q}, Rets: []Type{t}, Body: []*Stmt{sret(ev(q))}})
		f.Body = []*Stmt{sret(call(h, slit(t, elems(ev(p))...)))}
	case 8: // Made by another function.
		q := g.param(TInt)
		h := g.fn(&Func{Params: []*Var{q}, Rets: []Type{t}, Body: []*Stmt{sret(slit(t, elems(ev(q))...))}})
		f.Body = []*Stmt{def(s, call(h, bin("+", ev(p), lit(1)))), sret(call(h, ev(p)))}
	case 9: // var without a value.
		f.Body = []*Stmt{{K: SVar, Form: "T", T: t, Vars: []*Var{s}}}
		for i, x := range elems(ev(p)) {
			f.Body = append(f.Body, sset(s, lit(i), x))
		}
		f.Body = append(f.Body, sret(ev(s)))
	case 10: // switch
		f.Body = []*Stmt{def(s, slit(t)), {K: SSwitch, Def: 0, Tag: ev(p), X: []*Expr{lit(1), lit(2)}, Blocks: [][]*Stmt{{assign(s, slit(t, elems(lit(9))...))}, {assign(s, slit(t, elems(ev(p))...))}, {assign(s, slit(t, lits(2)...))}}}, sret(ev(s))}
	case 11: // Descending gaps.
		f.Body = []*Stmt{def(s, slit(t))}
		for i := n - 1; i >= 0; i-- {
			f.Body = append(f.Body, sset(s, lit(i), elem(i, ev(p))))
		}
		f.Body = append(f.Body, sret(ev(s)))
	case 12: // Global slice that is replaced, not changed.
		gv := g.v(t)
		g.m.Body = append([]*Stmt{def(gv, slit(t))}, g.m.Body...)
		f.Body = []*Stmt{assign(gv, slit(t, elems(ev(p))...)), sret(ev(gv))}
	}
	var body []*Stmt
	a, b, d, e := g.v(t), g.v(t), g.v(t), g.v(t)
	switch kind {
	default:
		g.fn(f)
		body = append(body, def(a, call(f, lit(1))), def(b, call(f, lit(2))), def(d, call(f, lit(3))), def(e, ev(b)))
	case 13: // Results of one call.
		f.Rets = []Type{t, TInt, t}
		x, y := g.v(TInt), g.v(TInt)
		f.Body = []*Stmt{def(s, slit(t, elems(ev(p))...)), sret(ev(s), elen(ev(s)), slit(t, elems(bin("+", ev(p), lit(1)))...))}
		g.fn(f)
		o := g.v(t)
		body = append(body, &Stmt{K: SVar, Form: ":=", Vars: []*Var{a, x, b}, X: []*Expr{call(f, lit(1))}}, &Stmt{K: SVar, Form: ":=", Vars: []*Var{d, y, o}, X: []*Expr{call(f, lit(3))}}, def(e, ev(b)), sprint(ev(x), ev(y)))
	case 14: // A loop at the same level.
		i := g.v(TInt)
		body = append(body, def(a, slit(t)), def(b, slit(t)), def(d, slit(t)), &Stmt{K: SFor, Init: def(i, lit(1)), Cond: cmp("<", ev(i), lit(4)), Post: &Stmt{K: SInc, Op: "++", Vars: []*Var{i}}, Blocks: [][]*Stmt{{def(s, slit(t, elems(ev(i))...)), {K: SIf, X: []*Expr{cmp("==", ev(i), lit(1)), cmp("==", ev(i), lit(2))}, Blocks: [][]*Stmt{{assign(a, ev(s))}, {assign(b, ev(s))}, {assign(d, ev(s))}}, Else: true}}}}, def(e, ev(b)))
	case 15: // Literals next to each other, loop variable of a range.
		i, x := g.v(TInt), g.v(TInt)
		body = append(body, &Stmt{K: SVar, Form: ":=", Vars: []*Var{a, b, d}, X: []*Expr{slit(t, lits(1)...), slit(t, lits(1)...), slit(t)}}, &Stmt{K: SRange, Vars: []*Var{i, x}, X: []*Expr{slit(SInt, lit(4), lit(5), lit(6))}, Blocks: [][]*Stmt{{def(s, slit(t, elems(ev(x))...)), {K: SIf, X: []*Expr{cmp("==", ev(i), lit(1))}, Blocks: [][]*Stmt{{assign(d, ev(s))}}}}}}, def(e, ev(b)))
	}
	show := func(tag string) {
		for _, v := range []*Var{a, b, d, e} {
			body = append(body, sprint(lit(tag), elen(ev(v))))
			i, x := g.v(TInt), g.v(et)
			body = append(body, &Stmt{K: SRange, Vars: []*Var{i, x}, X: []*Expr{ev(v)}, Blocks: [][]*Stmt{{sprint(ev(i), ev(x))}}})
		}
	}
	y := &mx{t: et}
	show("new")
	body = append(body, sset(a, lit(0), y.other(6)))
	if n > 1 {
		body = append(body, sset(d, lit(n-1), y.other(7)))
	}
	body = append(body, sset(e, elen(ev(b)), y.other(8)))
	show("changed")
	switch loc {
	case 0:
		g.m.Body = append(g.m.Body, body...)
	default:
		h := g.fn(&Func{Body: body})
		g.m.Body = append(g.m.Body, sexpr(call(h)))
	}
	return g.m
}
