package main

import (
	"fmt"
	"strings"
)

// scaleTable builds programs whose only peculiarity is size: counters of the converters (temporaries, labels,
// flags, snapshots, slices, functions, parameters, results) take values of two to four digits while earlier
// values are still in use.
func scaleTable(kinds string, bits int, deep bool) []*Module {
	out := []*Module{}
	add := func(b ...*Stmt) {
		m := &Module{Body: b}
		for _, s := range b {
			if s.K == SFunc {
				s.F.Mod = m
			}
		}
		out = append(out, m)
	}
	// both adds the statements at top level and inside a function.
	both := func(mk func() []*Stmt) {
		add(mk()...)
		f := &Func{Name: "big", Body: append(mk(), sprint(lit("end of big")))}
		add(sfunc(f), sexpr(call(f)), sexpr(call(f)))
	}
	sizes := []int{9, 11, 33, 65, 101, 130, 260}
	if deep {
		sizes = []int{9, 10, 11, 16, 17, 32, 33, 64, 65, 99, 100, 101, 128, 129, 255, 256, 257, 300, 512, 513, 1001}
	}
	has := func(k byte) bool { return strings.IndexByte(kinds, k) >= 0 }
	if has('s') {
		for _, n := range sizes {
			x, y, z, b, s := mkVar("x", TInt), mkVar("y", TInt), mkVar("z", TInt), mkVar("b", TBool), mkVar("s", TStr)
			pre := func() []*Stmt {
				return []*Stmt{def(x, lit(2)), def(y, lit(5)), def(z, lit(0)), def(b, lit(true)), def(s, lit("q"))}
			}
			leaf := func(k int) *Expr { return bin([]string{"*", "+", "-"}[k%3], ev([]*Var{x, y}[k%2]), lit(k%17+1)) }
			left, right := leaf(0), leaf(n-1)
			for k := 1; k < n; k++ {
				left = bin("+", left, leaf(k))
			}
			for k := n - 2; k >= 0; k-- {
				right = bin([]string{"-", "+"}[k%2], leaf(k), right)
			}
			var bal func(lo, hi int) *Expr
			bal = func(lo, hi int) *Expr {
				if hi-lo == 1 {
					return leaf(lo)
				}
				m := (lo + hi) / 2
				return bin([]string{"+", "-"}[lo%2], bal(lo, m), bal(m, hi))
			}
			for _, e := range []*Expr{left, right, bal(0, n), bin("-", bin("*", ev(x), lit(3)), group(left)), bin("-", bin("*", ev(x), lit(3)), group(right))} {
				both(func() []*Stmt {
					return append(pre(), assign(z, e), sprint(ev(z), ev(x), ev(y)), sif(cmp("<", e, bin("+", e, lit(1))), sprint(lit("less"))))
				})
			}
			// Logic, comparisons and strings.
			lg, st := cmp("<", ev(x), ev(y)), bin("+", lit("<"), ev(s))
			rg, rs := cmp("<", ev(x), ev(y)), lit("end")
			vals := []*Expr{}
			for k := 1; k < n; k++ {
				lg = logic([]string{"&&", "||"}[k%2], lg, not(cmp("==", bin("+", ev(x), lit(k%5)), ev(y))))
				rg = logic([]string{"&&", "||"}[k%3/2], cmp("!=", bin("*", ev(x), lit(k%3)), ev(y)), rg)
				st = bin("+", st, eitoa(bin("+", ev(x), lit(k%9))))
				rs = bin("+", bin("+", eitoa(ev(y)), lit(string(rune('a'+k%26)))), rs)
				vals = append(vals, leaf(k))
			}
			both(func() []*Stmt {
				return append(pre(), assign(b, lg), sprint(ev(b)), assign(b, rg), sprint(ev(b), lg, rg), sif(logic("&&", lg, not(rg)), sprint(lit("both"))))
			})
			both(func() []*Stmt {
				return append(pre(), assign(s, st), sprint(ev(s)), assign(s, rs), sprint(ev(s)), sprint(cmp("==", st, rs)))
			})
			if n <= 130 {
				both(func() []*Stmt { return append(pre(), sprint(vals...), sprint(append(vals, ev(s))...)) })
			}
			// Chains and sequences of statements.
			if n <= 260 {
				both(func() []*Stmt {
					l := pre()
					for _, hit := range []int{0, n / 2, n - 1, n} {
						i := &Stmt{K: SIf, Else: true}
						sw := &Stmt{K: SSwitch, Tag: ev(z), Def: -1}
						l = append(l, assign(z, lit(hit)))
						for k := 0; k < n; k++ {
							i.X = append(i.X, cmp("==", ev(z), lit(k)))
							i.Blocks = append(i.Blocks, []*Stmt{sprint(lit("branch"), lit(k))})
							sw.X = append(sw.X, lit(k))
							sw.Blocks = append(sw.Blocks, []*Stmt{sprint(lit("case"), lit(k))})
						}
						i.Blocks = append(i.Blocks, []*Stmt{sprint(lit("else"))})
						l = append(l, i, sw)
						if n > 65 && bits == 32 {
							break
						}
					}
					return append(l, sprint(lit("done")))
				})
				both(func() []*Stmt {
					l := pre()
					for k := 0; k < n; k++ {
						i := mkVar("i", TInt)
						l = append(l, &Stmt{K: SFor, Form: "3", Init: def(i, lit(0)), Cond: cmp("<", ev(i), lit(3)), Post: &Stmt{K: SInc, Op: "++", Vars: []*Var{i}}, Blocks: [][]*Stmt{{sif(cmp("==", ev(i), lit(k%3)), &Stmt{K: []SK{SContinue, SBreak}[k/3%2]}), {K: SOpAssign, Op: "+=", Vars: []*Var{z}, X: []*Expr{bin("+", ev(i), lit(k))}}}}},
							sif(cmp("==", lit(k%7), lit(3)), sprint(lit("z"), ev(z))))
					}
					return append(l, sprint(ev(z)))
				})
				both(func() []*Stmt {
					l := pre()
					vs := []*Var{}
					for k := 0; k < n; k++ {
						v := mkVar(fmt.Sprintf("v%d", k), TInt)
						vs = append(vs, v)
						l = append(l, def(v, bin("+", bin("*", lit(k), lit(3)), ev(x))))
					}
					for k := 0; k < n; k += 1 + n/20 {
						l = append(l, sprint(ev(vs[k]), ev(vs[n-1-k])))
					}
					return l
				})
			}
		}
		// Deep nesting of blocks.
		for _, d := range []int{10, 12, 25, 40} {
			both(func() []*Stmt {
				x := mkVar("x", TInt)
				nest := []*Stmt{sprint(lit("inner"), ev(x))}
				for k := d - 1; k >= 0; k-- {
					nest = append([]*Stmt{{K: SIf, Else: true, X: []*Expr{cmp("==", ev(x), lit(1000)), cmp(">=", bin("+", ev(x), lit(k)), lit(k))}, Blocks: [][]*Stmt{{sprint(lit("no"))}, nest, {sprint(lit("else"), lit(k))}}}}, sprint(lit("after"), lit(k)))
				}
				return append([]*Stmt{def(x, lit(0))}, nest...)
			})
			if d <= 12 {
				both(func() []*Stmt {
					cnt := mkVar("cnt", TInt)
					nest := []*Stmt{{K: SInc, Op: "++", Vars: []*Var{cnt}}}
					for k := d - 1; k >= 0; k-- {
						i := mkVar(fmt.Sprintf("i%d", k), TInt)
						body := append([]*Stmt{sif(cmp("==", ev(i), lit(k%2)), &Stmt{K: SContinue})}, nest...)
						if k%3 == 1 {
							body = append(body, sif(cmp(">", ev(i), lit(0)), &Stmt{K: SBreak}))
						}
						nest = []*Stmt{{K: SFor, Form: "3", Init: def(i, lit(0)), Cond: cmp("<", ev(i), lit(2)), Post: &Stmt{K: SInc, Op: "++", Vars: []*Var{i}}, Blocks: [][]*Stmt{body}}, {K: SOpAssign, Op: "+=", Vars: []*Var{cnt}, X: []*Expr{lit(k)}}}
					}
					return append(append([]*Stmt{def(cnt, lit(0))}, nest...), sprint(ev(cnt)))
				})
			}
		}
		// Loops with many iterations.
		for _, n := range []int{11, 101, 1005} {
			both(func() []*Stmt {
				i, z := mkVar("i", TInt), mkVar("z", TInt)
				return []*Stmt{def(z, lit(0)), {K: SFor, Form: "3", Init: def(i, lit(0)), Cond: cmp("<", ev(i), lit(n)), Post: &Stmt{K: SInc, Op: "++", Vars: []*Var{i}}, Blocks: [][]*Stmt{{{K: SOpAssign, Op: "+=", Vars: []*Var{z}, X: []*Expr{ev(i)}}, sif(cmp("==", bin("%", ev(i), lit(100)), lit(9)), sprint(ev(i), ev(z)))}}}, sprint(ev(z))}
			})
		}
	}
	if has('f') {
		counts := []int{11, 45, 120}
		if deep {
			counts = []int{9, 10, 11, 12, 45, 99, 100, 101, 120, 300}
		}
		for _, n := range counts {
			// Chain of functions with equal local names, each reading its local after the call.
			for sh := 0; sh < 2; sh++ {
				l := []*Stmt{}
				fs := []*Func{}
				g := mkVar("g", TInt)
				g.Global = true
				l = append(l, def(g, lit(0)))
				for k := 0; k < n; k++ {
					p, v, w := mkVar("p", TInt), mkVar("v", TInt), mkVar("w", TStr)
					f := &Func{Name: fmt.Sprintf("f%d", k), Params: []*Var{p}, Rets: []Type{TInt}}
					f.Body = []*Stmt{def(v, bin("+", bin("*", ev(p), lit(2)), lit(k))), def(w, bin("+", lit("w"), eitoa(ev(p)))), {K: SOpAssign, Op: "+=", Vars: []*Var{g}, X: []*Expr{lit(1)}}}
					r := mkVar("r", TInt)
					f.Body = append(f.Body, def(r, lit(1)))
					if k > 0 {
						callee := fs[k-1]
						if sh == 1 {
							callee = fs[k/2]
						}
						f.Body = append(f.Body, assign(r, bin("%", call(callee, bin("%", bin("+", ev(p), lit(1)), lit(97))), lit(1009))))
						if sh == 1 && k%8 == 7 {
							f.Body = append(f.Body, assign(r, bin("+", ev(r), call(fs[0], ev(v)))))
						}
					}
					if k%10 == 0 || k == n-1 {
						f.Body = append(f.Body, sprint(lit(f.Name), ev(p), ev(v), ev(w), ev(r)))
					}
					f.Body = append(f.Body, sret(bin("%", bin("+", bin("+", ev(p), ev(v)), ev(r)), lit(9973))))
					fs = append(fs, f)
					l = append(l, sfunc(f))
				}
				v := mkVar("v", TInt)
				l = append(l, def(v, lit(7)), sprint(call(fs[n-1], lit(3)), ev(v), ev(g)), sprint(call(fs[n/2], lit(4)), call(fs[1], ev(v)), call(fs[n-1], lit(5)), ev(v)))
				add(l...)
			}
		}
		for _, n := range []int{13, 25, 40} {
			f := &Func{Name: "f"}
			args, rets := []*Expr{}, []*Expr{}
			for k := 0; k < n; k++ {
				t := scalarAt(k)
				p := mkVar(fmt.Sprintf("p%d", k), t)
				f.Params = append(f.Params, p)
				args = append(args, litOf(t, k))
			}
			vs := []*Var{}
			for k := 0; k < n; k++ {
				p := f.Params[n-1-k]
				f.Rets = append(f.Rets, p.T)
				rets = append(rets, ev(p))
				vs = append(vs, mkVar(fmt.Sprintf("r%d", k), p.T))
			}
			f.Body = append(f.Body, sprint(rets...), sret(rets...))
			l := []*Stmt{sfunc(f), {K: SVar, Form: ":=", Vars: vs, X: []*Expr{call(f, args...)}}}
			all := []*Expr{}
			for _, v := range vs {
				all = append(all, ev(v))
			}
			l = append(l, sprint(all...))
			rev := []*Expr{}
			for k := n - 1; k >= 0; k-- {
				rev = append(rev, ev(vs[k]))
			}
			l = append(l, &Stmt{K: SAssign, Vars: vs, X: []*Expr{call(f, rev...)}}, sprint(all...))
			add(l...)
			// Simultaneous assignment of many variables (rotation).
			ws, src := []*Var{}, []*Expr{}
			l = []*Stmt{}
			for k := 0; k < n; k++ {
				w := mkVar(fmt.Sprintf("w%d", k), TInt)
				ws = append(ws, w)
				l = append(l, def(w, lit(k*k)))
			}
			for k := range ws {
				src = append(src, ev(ws[(k*7+3)%n]))
			}
			l = append(l, &Stmt{K: SAssign, Vars: ws, X: src}, sprint(src...))
			add(l...)
		}
		// Calls nested as arguments.
		for _, n := range []int{12, 30, 60} {
			a, b := mkVar("a", TInt), mkVar("b", TInt)
			f := &Func{Name: "f", Params: []*Var{a, b}, Rets: []Type{TInt}, Body: []*Stmt{sret(bin("%", bin("+", bin("*", ev(a), lit(2)), ev(b)), lit(9973)))}}
			l, r := call(f, lit(1), lit(2)), call(f, lit(1), lit(2))
			for k := 0; k < n; k++ {
				l, r = call(f, l, lit(k)), call(f, lit(k), r)
			}
			x := mkVar("x", TInt)
			g := &Func{Name: "g", Params: []*Var{x}, Rets: []Type{TInt}, Body: []*Stmt{sret(bin("+", call(f, ev(x), l), call(f, r, ev(x))))}}
			add(sfunc(f), sfunc(g), sprint(l, r), sprint(call(g, lit(3))), sprint(bin("+", l, r), call(f, l, r)))
		}
	}
	if has('l') {
		for _, n := range []int{11, 45, 101, 130} {
			both(func() []*Stmt {
				x, s, d, t := mkVar("x", TInt), mkVar("s", TInt.SliceOf()), mkVar("d", TInt.SliceOf()), mkVar("t", TStr.SliceOf())
				v1, v2 := []*Expr{}, []*Expr{}
				for k := 0; k < n; k++ {
					v1 = append(v1, bin("+", bin("*", ev(x), lit(k)), lit(1)))
					v2 = append(v2, bin("+", lit("e"), eitoa(lit(k))))
				}
				l := []*Stmt{def(x, lit(3)), def(s, slit(s.T, v1...)), def(t, slit(t.T, v2...)), def(d, slit(d.T)), sprint(ecopy(d, ev(s)), elen(ev(d)), elen(ev(t)))}
				for k := 0; k < n; k += 1 + n/12 {
					l = append(l, sprint(index(s, lit(k)), index(d, bin("-", lit(n-1), lit(k))), index(t, lit(k))))
				}
				l = append(l, sset(s, lit(n+9), lit(5)), sset(t, elen(ev(t)), lit("last")), sprint(elen(ev(s)), elen(ev(t)), elen(ev(d)), index(s, lit(n)), index(s, lit(n+9)), index(t, lit(n))))
				i, e := mkVar("i", TInt), mkVar("e", TInt)
				return append(l, &Stmt{K: SRange, Vars: []*Var{i, e}, X: []*Expr{ev(s)}, Blocks: [][]*Stmt{{sif(logic("||", cmp(">", ev(i), lit(n-3)), cmp("==", bin("%", ev(i), lit(10)), lit(1))), sprint(ev(i), ev(e)))}}})
			})
			// Many slices alive, written in reverse and through aliases.
			both(func() []*Stmt {
				vs, as := []*Var{}, []*Var{}
				l := []*Stmt{}
				m := n
				if bits == 32 && m > 45 {
					m = 101
				}
				for k := 0; k < m; k++ {
					v := mkVar(fmt.Sprintf("s%d", k), TInt.SliceOf())
					vs = append(vs, v)
					if k%2 == 0 {
						l = append(l, def(v, slit(v.T, lit(k), lit(k+1))))
					} else {
						l = append(l, &Stmt{K: SVar, Form: "T", T: v.T, Vars: []*Var{v}}, sset(v, lit(0), lit(k)))
					}
				}
				for k := m - 1; k >= 0; k -= 1 + m/15 {
					a := mkVar(fmt.Sprintf("a%d", k), TInt.SliceOf())
					as = append(as, a)
					l = append(l, def(a, ev(vs[k])), sset(a, lit(1), lit(k*10)))
				}
				for k := range vs {
					l = append(l, sprint(lit(k), elen(ev(vs[k])), index(vs[k], lit(0))))
				}
				for _, a := range as {
					l = append(l, sprint(index(a, lit(0)), index(a, lit(1))))
				}
				return l
			})
			both(func() []*Stmt {
				str := strings.Repeat(alphabet40, n/40+1)[:n]
				s, t := mkVar("s", TStr), mkVar("t", TStr)
				l := []*Stmt{def(s, lit(str)), def(t, lit("")), sprint(elen(ev(s)))}
				for k := 0; k < n; k += 1 + n/9 {
					l = append(l, assign(t, substr(s, "ab", lit(k), lit(n-(n-k)/2))), sprint(ev(t), elen(ev(t))), sprint(substr(s, "i", lit(n-1-k/2)), substr(s, "a", lit(n-1-k)), substr(s, "b", lit(k))))
				}
				i, ch := mkVar("i", TInt), mkVar("ch", TStr)
				return append(l, &Stmt{K: SRange, Vars: []*Var{i, ch}, X: []*Expr{ev(s)}, Blocks: [][]*Stmt{{sif(cmp("==", bin("%", ev(i), lit(9)), lit(1)), sprint(ev(i), ev(ch)))}}})
			})
			// Slices created in a loop and by calls.
			p := mkVar("p", TInt)
			q, r := mkVar("q", TInt.SliceOf()), mkVar("r", TInt.SliceOf())
			keep := mkVar("keep", TInt.SliceOf())
			keep.Global = true
			f := &Func{Name: "mk", Params: []*Var{p}, Rets: []Type{TInt.SliceOf()}, Body: []*Stmt{def(q, slit(q.T, ev(p), bin("*", ev(p), ev(p)))), sset(q, lit(2), ev(p)), sret(ev(q))}}
			i := mkVar("i", TInt)
			add(sfunc(f), def(keep, slit(keep.T, lit(4), lit(2))), &Stmt{K: SFor, Form: "3", Init: def(i, lit(0)), Cond: cmp("<", ev(i), lit(n)), Post: &Stmt{K: SInc, Op: "++", Vars: []*Var{i}}, Blocks: [][]*Stmt{{def(r, call(f, ev(i))), sif(cmp("==", bin("%", ev(i), lit(20)), lit(7)), assign(keep, ev(r))), sset(keep, elen(ev(keep)), ev(i))}}}, sprint(elen(ev(keep)), index(keep, lit(0)), index(keep, lit(1)), index(keep, lit(3))))
		}
	}
	if has('l') {
		gaps := []int{33, 65, 130, 260}
		if bits == 64 {
			gaps = []int{33, 65, 130, 260, 520}
		}
		if deep {
			gaps = append(gaps, 12, 257, 1030)
		}
		for _, n := range gaps {
			// Slices that grow with a large gap, from several lengths, twice.
			both(func() []*Stmt {
				l := []*Stmt{}
				for k, t := range []Type{TInt, TStr, TBool} {
					v, w := []*Expr{lit(7), lit("q"), lit(true)}[k], []*Expr{lit(0), lit(""), lit(false)}[k]
					for m := 0; m < 3; m++ {
						s, o, c := mkVar(fmt.Sprintf("s%d%d", k, m), t.SliceOf()), mkVar(fmt.Sprintf("o%d%d", k, m), t.SliceOf()), mkVar(fmt.Sprintf("c%d%d", k, m), TInt)
						i, e := mkVar("i", TInt), mkVar("e", t)
						x := []*Expr{}
						for j := 0; j < m*2; j++ {
							x = append(x, v)
						}
						l = append(l, def(s, slit(s.T, x...)), def(o, slit(o.T, v)), def(c, lit(0)), sset(s, lit(n+m), v), sprint(elen(ev(s)), index(s, lit(n+m)), index(s, lit(n+m-1)), index(s, lit(n/2))), sset(s, bin("+", elen(ev(s)), lit(n/2)), v))
						l = append(l, &Stmt{K: SRange, Vars: []*Var{i, e}, X: []*Expr{ev(s)}, Blocks: [][]*Stmt{{sif(cmp("==", ev(e), w), assign(c, bin("+", ev(c), lit(1))))}}}, sprint(lit("defaults"), ev(c), elen(ev(s)), elen(ev(o)), index(o, lit(0))))
						if bits == 32 || n > 130 {
							break
						}
					}
					if n > 260 {
						break
					}
				}
				return l
			})
			if n >= 130 {
				// Long strings: lengths, subscripts at the end, comparison of strings that differ at the end only.
				both(func() []*Stmt {
					str := strings.Repeat(alphabet40, n/40+1)[:n]
					s, t, k := mkVar("s", TStr), mkVar("t", TStr), mkVar("k", TInt)
					ss := mkVar("ss", TStr.SliceOf())
					i, ch := mkVar("i", TInt), mkVar("ch", TStr)
					return []*Stmt{def(s, lit(str)), def(t, bin("+", substr(s, "b", lit(n-1)), lit("#"))), def(k, lit(0)), sprint(elen(ev(s)), elen(ev(t)), cmp("==", ev(s), ev(t)), cmp("!=", ev(s), ev(t))), sprint(substr(s, "i", lit(n-1)), substr(s, "a", lit(n-3)), elen(substr(s, "ab", lit(1), lit(n-1)))),
						def(ss, slit(ss.T, ev(s), ev(t), bin("+", ev(s), ev(t)))), sprint(elen(index(ss, lit(2)))), sprint(index(ss, lit(2))),
						{K: SRange, Vars: []*Var{i, ch}, X: []*Expr{ev(s)}, Blocks: [][]*Stmt{{sif(cmp("==", ev(ch), substr(s, "i", ev(i))), assign(k, bin("+", ev(k), lit(1))))}}}, sprint(ev(k))}
				})
			}
		}
	}
	if has('t') {
		for _, n := range []int{9, 12, 40, 110} {
			for sh := 0; sh < 4; sh++ {
				p := mkVar("p", TInt)
				g := mkVar("g", TInt)
				g.Global = true
				h := &Func{Name: "h", Params: []*Var{p}, Rets: []Type{TInt}, Body: []*Stmt{{K: SInc, Op: "++", Vars: []*Var{g}}, sprint(lit("h"), ev(p), ev(g)), sret(ev(p))}}
				vals := []*Expr{}
				var sum, lg *Expr
				for k := 0; k < n; k++ {
					e := call(h, lit(k))
					if k%3 == 1 {
						e = ev(g)
					}
					if k%3 == 2 && sh%2 == 1 {
						e = bin("-", ev(g), call(h, bin("+", ev(g), lit(k))))
					}
					vals = append(vals, e)
					if k == 0 {
						sum, lg = e, cmp("<", e, lit(5))
					} else {
						sum, lg = bin("+", sum, e), logic([]string{"&&", "||"}[k%2], lg, cmp("<", e, lit(k%4)))
					}
				}
				s := mkVar("s", TInt.SliceOf())
				l := []*Stmt{def(g, lit(0)), sfunc(h), sprint(vals...), sprint(sum), sprint(lg), def(s, slit(s.T, vals...)), sprint(index(s, lit(n-1)), index(s, lit(n/2)), index(s, call(h, lit(1))))}
				vs := []*Var{}
				all := []*Expr{}
				for k := 0; k < n; k++ {
					v := mkVar(fmt.Sprintf("v%d", k), TInt)
					vs = append(vs, v)
					all = append(all, ev(v))
				}
				l = append(l, &Stmt{K: SVar, Form: ":=", Vars: vs, X: vals}, sprint(all...))
				i := &Stmt{K: SIf, Else: true}
				sw := &Stmt{K: SSwitch, Tag: lit(n / 2), Def: -1}
				for k := 0; k < n; k++ {
					i.X = append(i.X, cmp("==", call(h, lit(k)), lit(n-2)))
					i.Blocks = append(i.Blocks, []*Stmt{sprint(lit("branch"), lit(k))})
					sw.X = append(sw.X, call(h, lit(k)))
					sw.Blocks = append(sw.Blocks, []*Stmt{sprint(lit("case"), lit(k))})
				}
				i.Blocks = append(i.Blocks, []*Stmt{sprint(lit("else"))})
				l = append(l, i, sw, sprint(lit("done"), ev(g)))
				if sh < 2 {
					add(l...)
					continue
				}
				f := &Func{Name: "f", Body: append([]*Stmt{}, l[2:]...)}
				add(l[0], l[1], sfunc(f), sexpr(call(f)))
			}
		}
	}
	return out
}

func scalarAt(k int) Type { return []Type{TInt, TStr, TBool}[k%3] }
