package main

import (
	"fmt"
	"math/rand/v2"
)

// slot is an expression position of a known required type.
type slot struct {
	at   **Expr
	t    Type
	kind string
}

// typedSlots lists the positions of a module in which an expression of another type is invalid for sure.
func typedSlots(m *Module) []slot {
	l := []slot{}
	put := func(e **Expr, t Type, kind string) { l = append(l, slot{e, t, kind}) }
	var expr func(e **Expr)
	expr = func(p **Expr) {
		e := *p
		if e == nil {
			return
		}
		switch e.K {
		case EBin:
			put(&e.X[0], e.T, "operand "+e.Op)
			put(&e.X[1], e.T, "operand "+e.Op)
		case ECmp:
			put(&e.X[0], e.X[1].T, "operand "+e.Op)
			put(&e.X[1], e.X[0].T, "operand "+e.Op)
		case ELog:
			put(&e.X[0], TBool, "operand "+e.Op)
			put(&e.X[1], TBool, "operand "+e.Op)
		case ENot:
			put(&e.X[0], TBool, "operand !")
		case ECall:
			for i := range e.X {
				put(&e.X[i], e.F.Params[i].T, "argument")
			}
		case ESlice:
			for i := range e.X {
				put(&e.X[i], e.T.Elem(), "slice element")
			}
		case EIndex, ESub:
			for i := range e.X {
				put(&e.X[i], TInt, "index")
			}
		case EItoa:
			put(&e.X[0], TInt, "itoa")
		case ECopy:
			put(&e.X[0], e.V.T, "copy source")
		}
		for i := range e.X {
			expr(&e.X[i])
		}
	}
	var block func(b []*Stmt, f *Func)
	stmt := func(s *Stmt, f *Func) {}
	stmt = func(s *Stmt, f *Func) {
		if s == nil {
			return
		}
		switch s.K {
		case SVar:
			if s.Form == "T=" && len(s.X) == len(s.Vars) {
				for i := range s.X {
					put(&s.X[i], s.T, "definition")
				}
			}
		case SAssign, SOpAssign:
			if len(s.X) == len(s.Vars) {
				for i := range s.X {
					put(&s.X[i], s.Vars[i].T, "assignment")
				}
			}
		case SSet:
			put(&s.X[0], TInt, "store index")
			put(&s.X[1], s.Vars[0].T.Elem(), "store value")
		case SReturn:
			if f != nil && len(s.X) == len(f.Rets) {
				for i := range s.X {
					put(&s.X[i], f.Rets[i], "return")
				}
			}
		case SIf:
			for i := range s.X {
				put(&s.X[i], TBool, "condition")
			}
		case SSwitch:
			t := TBool
			if s.Tag != nil {
				t = s.Tag.T
				if len(s.X) > 0 {
					put(&s.Tag, t, "switch tag")
				}
				expr(&s.Tag)
			}
			for i := range s.X {
				put(&s.X[i], t, "case")
			}
		case SFor:
			if s.Cond != nil {
				put(&s.Cond, TBool, "loop condition")
			}
			expr(&s.Cond)
			stmt(s.Init, f)
			stmt(s.Post, f)
		}
		for i := range s.X {
			expr(&s.X[i])
		}
		for _, b := range s.Blocks {
			block(b, f)
		}
		if s.K == SFunc {
			block(s.F.Body, s.F)
		}
	}
	block = func(b []*Stmt, f *Func) {
		for _, s := range b {
			stmt(s, f)
		}
	}
	block(m.Body, nil)
	return l
}

// corruptions: well-typed generated programs are accepted, with one corrupted slot they are rejected.
func (c *Ctx) corruptions(n int) {
	c.each("corrupt", n, func(s *Slot, i int, r *rand.Rand) {
		var o GenOpt
		switch i % 4 {
		case 0:
			o = scalarOpt(i)
		case 1:
			o = funcOpt(i)
		case 2:
			o = sliceOpt(i)
		case 3:
			o = traceOpt(i)
		}
		m, _ := sound(r, o, 1200)
		if m == nil {
			c.count("generator gave up", 1)
			return
		}
		// Helpers for values of every kind.
		help := map[string]*Func{}
		mk := func(name string, rets ...Type) {
			f := &Func{Name: name, Mod: m, Rets: rets}
			x := []*Expr{}
			for k, t := range rets {
				x = append(x, litOf(t, k))
			}
			if len(x) > 0 {
				f.Body = []*Stmt{sret(x...)}
			}
			help[name] = f
			m.Body = append([]*Stmt{sfunc(f)}, m.Body...)
		}
		mk("zzvoid")
		mk("zztwo", TInt, TInt)
		mk("zzmix", TStr, TBool)
		for k, t := range allTypes {
			mk(fmt.Sprintf("zzt%d", k), t)
		}
		src := m.Source()
		if !c.acceptance(s, fmt.Sprintf("corrupt:%d (original)", i), map[string]string{"main.tsh": src}, 1) {
			return
		}
		l := typedSlots(m)
		if len(l) == 0 {
			return
		}
		for k := 0; k < 6; k++ {
			sl := l[r.IntN(len(l))]
			old := *sl.at
			var e *Expr
			switch q := r.IntN(10); {
			case q == 0:
				e = call(help["zzvoid"])
			case q == 1:
				e = call(help["zztwo"])
			case q == 2:
				e = call(help["zzmix"])
			default:
				for e == nil {
					j := r.IntN(len(allTypes))
					t := allTypes[j]
					if t == sl.t {
						continue
					}
					switch {
					case q < 6:
						e = litOf(t, r.IntN(5))
					case q < 8:
						e = call(help[fmt.Sprintf("zzt%d", j)])
					case t == TBool:
						e = group(cmp("==", lit(1), lit(2)))
					case t == TInt:
						e = group(bin("+", lit(1), lit(2)))
					case t == TStr:
						e = group(bin("+", lit("1"), lit("2")))
					default:
						e = litOf(t, 1)
					}
				}
			}
			*sl.at = e
			bad := m.Source()
			*sl.at = old
			c.count("corrupted "+sl.kind, 1)
			c.seen(bad)
			if !c.acceptance(s, fmt.Sprintf("corrupt:%d/%d (%s of type %s)", i, k, sl.kind, sl.t), map[string]string{"main.tsh": bad}, 0) {
				return
			}
		}
	})
}
