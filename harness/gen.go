package main

import (
	"fmt"
	"math"
	"math/rand/v2"
)

// ---------------------------------------------------------------------------------------------------------
// Generator of well-typed programs.
// ---------------------------------------------------------------------------------------------------------

type GenOpt struct {
	Bits     int
	Slices   bool
	Strs     bool // string operations (subscripts, len, range)
	Funcs    int  // maximum number of functions
	Arity    int  // maximum number of parameters
	Trace    int  // percentage of sub-expressions wrapped by tracing functions
	Panic    bool
	Stmts    int // statements at top level
	Depth    int // block nesting
	EDepth   int // expression depth
	StrLit   func(r *rand.Rand) string
	Names    []string
	FNames   []string
	CallPct  int
	BigInts  bool
	NoEndDmp bool
	NoWrap   bool
}

type idxFact struct{ i, s *Var }

type Gen struct {
	r      *rand.Rand
	o      GenOpt
	scopes [][]*Var
	funcs  []*Func
	cur    *Func
	loop   int
	depth  int
	facts  []idxFact
	tracer map[Type]*Func
	top    []*Stmt
	nTrace int64
	inCall int
	noSets bool // calls must not reassign global slices
	names  map[string]bool
	allFn  []*Func
	mod    *Module
	avoid  map[*Var]bool
}

var defaultNames = []string{"a", "b", "c", "n", "x", "y", "i", "k", "s", "t", "v", "val", "res", "tmp", "A", "X"}
var defaultFNames = []string{"f", "g", "h", "add", "get", "calc", "F", "run", "do1", "step", "mk", "fold"}

var simpleStrings = []string{"", "a", "b", "ab", "abc", "Hello", "x y", "hello world", "0", "1", "00", "-1", "z9", "A", "AbC", "1 0", "foo.bar", "a-b", "q_r", "12345"}

func simpleStr(r *rand.Rand) string { return simpleStrings[r.IntN(len(simpleStrings))] }

func newGen(r *rand.Rand, o GenOpt) *Gen {
	if o.StrLit == nil {
		o.StrLit = simpleStr
	}
	if o.Names == nil {
		o.Names = defaultNames
	}
	if o.FNames == nil {
		o.FNames = defaultFNames
	}
	if o.Bits == 0 {
		o.Bits = 64
	}
	if o.EDepth == 0 {
		o.EDepth = 3
	}
	if o.CallPct == 0 {
		o.CallPct = 15
	}
	g := &Gen{r: r, o: o, scopes: [][]*Var{{}}, tracer: map[Type]*Func{}, mod: &Module{File: "main.tsh"}, avoid: map[*Var]bool{}}
	return g
}

func (g *Gen) n(n int) int    { return g.r.IntN(n) }
func (g *Gen) pct(p int) bool { return g.r.IntN(100) < p }
func (g *Gen) push()          { g.scopes = append(g.scopes, nil) }
func (g *Gen) pop()           { g.scopes = g.scopes[:len(g.scopes)-1] }
func (g *Gen) add(v ...*Var)  { l := len(g.scopes) - 1; g.scopes[l] = append(g.scopes[l], v...) }
func (g *Gen) global() bool   { return g.cur == nil && len(g.scopes) == 1 }
func (g *Gen) visible(name string) bool {
	for _, s := range g.scopes {
		for _, v := range s {
			if v.Name == name {
				return true
			}
		}
	}
	return false
}

func (g *Gen) freshName(taken ...string) string {
	ok := func(n string) bool {
		for _, t := range taken {
			if t == n {
				return false
			}
		}
		return !g.visible(n)
	}
	for i := 0; i < 40; i++ {
		n := g.o.Names[g.n(len(g.o.Names))]
		if i > 10 {
			n += fmt.Sprint(g.n(9))
		}
		if ok(n) {
			return n
		}
	}
	for i := 0; ; i++ {
		if n := fmt.Sprintf("w%d", i); ok(n) {
			return n
		}
	}
}

func (g *Gen) newVar(t Type, taken ...string) *Var {
	return &Var{Name: g.freshName(taken...), T: t, Global: g.global(), Fn: g.cur}
}

func (g *Gen) vars(f func(v *Var) bool) []*Var {
	out := []*Var{}
	for i, s := range g.scopes {
		if g.cur != nil && i == 0 {
			// Globals within functions.
		}
		for _, v := range s {
			if f(v) {
				out = append(out, v)
			}
		}
	}
	return out
}

func (g *Gen) pickVar(f func(v *Var) bool) *Var {
	l := g.vars(f)
	if len(l) == 0 {
		return nil
	}
	// Prefer recently defined variables.
	if g.pct(40) && len(l) > 3 {
		l = l[len(l)-3:]
	}
	return l[g.n(len(l))]
}

func (g *Gen) varOf(t Type) *Var { return g.pickVar(func(v *Var) bool { return v.T == t }) }
func (g *Gen) assignable(t Type) *Var {
	return g.pickVar(func(v *Var) bool { return v.T == t && !v.RO })
}

func (g *Gen) scalarType() Type { return []Type{TBool, TInt, TInt, TStr}[g.n(4)] }
func (g *Gen) anyType() Type {
	if g.o.Slices && g.pct(35) {
		return []Type{SInt, SStr, SBool, SInt}[g.n(4)]
	}
	return g.scalarType()
}

func (g *Gen) intLit() *Expr {
	switch g.n(12) {
	case 0:
		return lit(int64(g.n(2000) - 1000))
	case 1:
		if g.o.BigInts {
			if g.o.Bits == 64 {
				return lit([]int64{math.MaxInt64, math.MinInt64 + 1, 1 << 40, -(1 << 35), math.MaxInt32, math.MinInt32, 1000000007, math.MaxInt64 / 3, math.MinInt64}[g.n(9)])
			}
			return lit([]int64{math.MaxInt32, math.MinInt32 + 1, 65536, -65537, 46341, 1000000007}[g.n(6)])
		}
		return lit(g.n(100))
	case 2:
		return lit(-g.n(10))
	}
	return lit(g.n(6))
}

func (g *Gen) strLit() *Expr {
	e := lit(g.o.StrLit(g.r))
	e.Raw = g.pct(25)
	return e
}

func (g *Gen) literal(t Type) *Expr {
	switch t {
	case TBool:
		return lit(g.pct(50))
	case TInt:
		return g.intLit()
	case TStr:
		return g.strLit()
	}
	x := []*Expr{}
	for n := g.n(4); n > 0; n-- {
		x = append(x, g.literal(t.Elem()))
	}
	return slit(t, x...)
}

func minLen(e *Expr) int {
	switch e.K {
	case EStr:
		return len(e.S)
	case EVar:
		return e.V.MinLen
	case ESlice:
		return len(e.X)
	case EGroup:
		return minLen(e.X[0])
	case EBin:
		if e.T == TStr {
			return minLen(e.X[0]) + minLen(e.X[1])
		}
	case EItoa:
		return 1
	case ESub:
		if e.Op == "i" {
			return 1
		}
	}
	return 0
}

// traceFn provides a function which prints an id and returns its second argument.
func (g *Gen) traceFn(t Type) *Func {
	if f, ok := g.tracer[t]; ok {
		return f
	}
	id := &Var{Name: "id", T: TInt}
	p := &Var{Name: "p", T: t}
	f := &Func{Name: "tr" + map[Type]string{TBool: "B", TInt: "I", TStr: "S", SBool: "SB", SInt: "SI", SStr: "SS"}[t], Params: []*Var{id, p}, Rets: []Type{t}, Tracer: true}
	id.Fn, p.Fn = f, f
	pr := sprint(lit("t"), ev(id), ev(p))
	if t.Slice {
		pr = sprint(lit("t"), ev(id), elen(ev(p)))
	}
	f.Body = []*Stmt{pr, sret(ev(p))}
	g.tracer[t] = f
	return f
}

func (g *Gen) trace(e *Expr) *Expr {
	if g.o.Trace > 0 && g.pct(g.o.Trace) && g.tracer[e.T] != nil {
		g.nTrace++
		return call(g.tracer[e.T], lit(g.nTrace), e)
	}
	return e
}

func (g *Gen) expr(t Type, d int) *Expr {
	e := g.expr0(t, d)
	return g.trace(e)
}

func (g *Gen) callable(t Type) []*Func {
	out := []*Func{}
	for _, f := range g.funcs {
		if len(f.Rets) == 1 && f.Rets[0] == t && f.Cost < 60 && !(g.noSets && f.Sets) {
			out = append(out, f)
		}
	}
	return out
}

func (g *Gen) args(f *Func, d int) []*Expr {
	x := []*Expr{}
	for _, p := range f.Params {
		x = append(x, g.expr(p.T, d-1))
	}
	if g.cur != nil {
		g.cur.Cost += f.Cost + 1
		g.cur.Sets = g.cur.Sets || f.Sets
	}
	return x
}

func (g *Gen) expr0(t Type, d int) *Expr {
	if d <= 0 {
		if v := g.varOf(t); v != nil && g.pct(65) {
			return ev(v)
		}
		return g.literal(t)
	}
	if g.pct(g.o.CallPct) {
		if l := g.callable(t); len(l) > 0 {
			f := l[g.n(len(l))]
			return call(f, g.args(f, d)...)
		}
	}
	if g.pct(8) {
		return group(g.expr(t, d-1))
	}
	if g.o.Slices && !t.Slice && g.pct(20) {
		if e := g.indexExpr(t, d); e != nil {
			return e
		}
	}
	if g.pct(22) {
		if v := g.varOf(t); v != nil {
			return ev(v)
		}
	}
	switch t {
	case TBool:
		switch g.n(8) {
		case 0, 1, 2:
			return cmp([]string{"==", "!=", "<", "<=", ">", ">="}[g.n(6)], g.expr(TInt, d-1), g.expr(TInt, d-1))
		case 3:
			return cmp([]string{"==", "!="}[g.n(2)], g.expr(TStr, d-1), g.expr(TStr, d-1))
		case 4:
			return cmp([]string{"==", "!="}[g.n(2)], g.expr(TBool, d-1), g.expr(TBool, d-1))
		case 5:
			return not(g.expr(TBool, d-1))
		default:
			return logic([]string{"&&", "||"}[g.n(2)], g.expr(TBool, d-1), g.expr(TBool, d-1))
		}
	case TInt:
		switch g.n(10) {
		case 0, 1, 2, 3, 4:
			op := []string{"+", "-", "*"}[g.n(3)]
			return bin(op, g.expr(TInt, d-1), g.expr(TInt, d-1))
		case 5, 6:
			op := []string{"/", "%"}[g.n(2)]
			l := g.expr(TInt, d-1)
			var r *Expr
			if g.pct(75) {
				k := 1 + g.n(9)
				if g.pct(30) {
					k = -k
				}
				r = lit(k)
			} else {
				r = g.expr(TInt, d-1)
			}
			return bin(op, l, r)
		case 7, 8:
			if g.o.Strs || g.o.Slices {
				lt := TStr
				if g.o.Slices && g.pct(60) {
					lt = []Type{SInt, SStr, SBool}[g.n(3)]
				}
				return elen(g.expr(lt, d-1))
			}
			fallthrough
		default:
			return g.intLit()
		}
	case TStr:
		switch g.n(8) {
		case 0, 1, 2:
			return bin("+", g.expr(TStr, d-1), g.expr(TStr, d-1))
		case 3:
			return eitoa(g.expr(TInt, d-1))
		case 4, 5:
			if g.o.Strs {
				if e := g.subExpr(d); e != nil {
					return e
				}
			}
			fallthrough
		default:
			return g.strLit()
		}
	}
	// Slices.
	x := []*Expr{}
	for n := g.n(4); n > 0; n-- {
		x = append(x, g.expr(t.Elem(), d-1))
	}
	return slit(t, x...)
}

// indexOf provides an index below min (as literal or small expression).
func (g *Gen) indexOf(min int, d int) *Expr {
	k := g.n(min)
	switch {
	case g.pct(70):
		return g.trace(lit(k))
	case g.pct(50):
		return bin("-", lit(k+2), g.trace(lit(2)))
	default:
		a := g.n(k + 1)
		return bin("+", g.trace(lit(a)), lit(k-a))
	}
}

func (g *Gen) indexExpr(t Type, d int) *Expr {
	if len(g.facts) > 0 && g.pct(50) {
		f := g.facts[g.n(len(g.facts))]
		if f.s.T == t.SliceOf() {
			return index(f.s, ev(f.i))
		}
	}
	v := g.pickVar(func(v *Var) bool { return v.T == t.SliceOf() && v.MinLen > 0 })
	if v == nil {
		return nil
	}
	if g.pct(20) {
		return index(v, bin("-", elen(ev(v)), lit(1)))
	}
	return index(v, g.indexOf(v.MinLen, d))
}

func (g *Gen) subExpr(d int) *Expr {
	if len(g.facts) > 0 && g.pct(50) {
		f := g.facts[g.n(len(g.facts))]
		if f.s.T == TStr {
			switch g.n(4) {
			case 0:
				return substr(f.s, "a", ev(f.i))
			case 1:
				return substr(f.s, "b", ev(f.i))
			case 2:
				return substr(f.s, "ab", ev(f.i), bin("+", ev(f.i), lit(1)))
			}
			return substr(f.s, "i", ev(f.i))
		}
	}
	v := g.pickVar(func(v *Var) bool { return v.T == TStr && (v.MinLen > 0 || g.pct(20)) })
	if v == nil {
		return nil
	}
	m := v.MinLen
	switch g.n(6) {
	case 0:
		if m > 0 {
			return substr(v, "i", g.indexOf(m, d))
		}
		return substr(v, "")
	case 1:
		a := g.n(m + 1)
		b := a + g.n(m-a+1)
		if b == a && g.pct(50) && b < m {
			b++
		}
		return substr(v, "ab", g.trace(lit(a)), g.trace(lit(b)))
	case 2:
		return substr(v, "a", g.trace(lit(g.n(m+1))))
	case 3:
		return substr(v, "b", g.trace(lit(g.n(m+1))))
	case 4:
		if m > 0 {
			return substr(v, "a", bin("-", elen(ev(v)), lit(1)))
		}
		return substr(v, "ab", lit(0), elen(ev(v)))
	}
	return substr(v, "")
}

func (g *Gen) noteAssign(v *Var, e *Expr, isDef bool) {
	m := minLen(e)
	if e == nil {
		m = 0
	}
	if isDef {
		v.MinLen = m
	} else if m < v.MinLen {
		v.MinLen = m
	}
	if !isDef && v.Global && g.cur != nil && v.T.Slice {
		g.cur.Sets = true
	}
}

func (g *Gen) block(n int, f func()) []*Stmt {
	g.push()
	g.depth++
	facts := len(g.facts)
	out := []*Stmt{}
	save := g.top
	g.top = nil
	if f != nil {
		f()
	}
	g.stmts(n)
	out = append(out, g.top...)
	g.top = save
	g.facts = g.facts[:facts]
	g.depth--
	g.pop()
	return out
}

func (g *Gen) stmts(n int) {
	for i := 0; i < n; i++ {
		g.stmt()
	}
}

func (g *Gen) put(s ...*Stmt) { g.top = append(g.top, s...) }

func (g *Gen) ed() int { return 1 + g.n(g.o.EDepth) }

func (g *Gen) body() int { return g.n(4) }

func (g *Gen) multiFns() []*Func {
	out := []*Func{}
	for _, f := range g.funcs {
		if len(f.Rets) > 1 && f.Cost < 60 {
			out = append(out, f)
		}
	}
	return out
}

func (g *Gen) stmt() {
	w := g.n(100)
	switch {
	case w < 14:
		g.varDef()
	case w < 24:
		g.assignStmt()
	case w < 30:
		g.multiAssign()
	case w < 36:
		if v := g.assignable(TInt); v != nil {
			op := []string{"+=", "-=", "*=", "/=", "%="}[g.n(5)]
			x := g.expr(TInt, g.ed())
			if op == "/=" || op == "%=" {
				x = lit(1 + g.n(7))
			}
			g.put(&Stmt{K: SOpAssign, Op: op, Vars: []*Var{v}, X: []*Expr{x}})
		}
	case w < 39:
		if v := g.assignable(TStr); v != nil {
			g.put(&Stmt{K: SOpAssign, Op: "+=", Vars: []*Var{v}, X: []*Expr{g.expr(TStr, g.ed())}})
		}
	case w < 44:
		if v := g.assignable(TInt); v != nil {
			g.put(&Stmt{K: SInc, Op: []string{"++", "--"}[g.n(2)], Vars: []*Var{v}})
		}
	case w < 56:
		g.printStmt()
	case w < 66:
		g.ifStmt()
	case w < 71:
		g.switchStmt()
	case w < 82:
		g.loopStmt()
	case w < 87:
		if len(g.funcs) > 0 {
			f := g.funcs[g.n(len(g.funcs))]
			if f.Cost < 60 && (len(f.Rets) == 0 || g.pct(40)) {
				g.put(sexpr(call(f, g.args(f, 3)...)))
			}
		}
	case w < 91:
		if g.loop > 0 && g.depth > 0 {
			k := SBreak
			if g.pct(50) {
				k = SContinue
			}
			g.put(sif(g.expr(TBool, g.ed()), &Stmt{K: k}))
		}
	case w < 93:
		if g.cur != nil && len(g.cur.Rets) > 0 {
			g.put(sif(g.expr(TBool, 2), g.retStmt()))
		}
	case w < 94:
		if g.o.Panic && g.pct(30) {
			g.put(sif(g.expr(TBool, g.ed()), &Stmt{K: SPanic, X: []*Expr{g.expr(TStr, 2)}}))
		}
	default:
		if g.o.Slices {
			g.sliceStmt()
		} else {
			g.printStmt()
		}
	}
}

func (g *Gen) retStmt() *Stmt {
	x := []*Expr{}
	for _, t := range g.cur.Rets {
		x = append(x, g.expr(t, g.ed()))
	}
	return sret(x...)
}

func (g *Gen) printStmt() {
	x := []*Expr{}
	for n := 1 + g.n(3); n > 0; n-- {
		t := g.scalarType()
		x = append(x, g.expr(t, g.ed()))
	}
	if g.pct(4) {
		x = nil
	}
	g.put(sprint(x...))
}

func (g *Gen) varDef() {
	if l := g.multiFns(); len(l) > 0 && g.pct(35) {
		f := l[g.n(len(l))]
		c := call(f, g.args(f, 3)...)
		vs := []*Var{}
		names := []string{}
		fresh := 0
		for i, t := range f.Rets {
			// A short definition might reuse existing variables.
			if v := g.assignable(t); v != nil && g.pct(25) && (fresh > 0 || i < len(f.Rets)-1) && !contains(names, v.Name) {
				vs = append(vs, v)
			} else {
				v = g.newVar(t, names...)
				vs = append(vs, v)
				fresh++
			}
			names = append(names, vs[i].Name)
		}
		form := ":="
		if fresh == len(vs) && g.pct(30) {
			form = "="
			same := true
			for _, t := range f.Rets {
				same = same && t == f.Rets[0]
			}
			if same && g.pct(50) {
				form = "T="
			}
		}
		for _, v := range vs {
			v.MinLen = 0
			if !g.visible(v.Name) {
				g.add(v)
			} else if v.Global && g.cur != nil && v.T.Slice {
				g.cur.Sets = true
			}
		}
		g.put(&Stmt{K: SVar, Form: form, T: f.Rets[0], Vars: vs, X: []*Expr{c}})
		return
	}
	n := 1
	if g.pct(20) {
		n = 2 + g.n(2)
	}
	form := []string{"T", "T=", "=", ":=", ":=", ":=", ":="}[g.n(7)]
	t := g.anyType()
	vs, x, names := []*Var{}, []*Expr{}, []string{}
	ts := []Type{}
	for i := 0; i < n; i++ {
		vt := t
		if form[0] != 'T' && i > 0 {
			vt = g.anyType()
		}
		ts = append(ts, vt)
	}
	fresh := 0
	isNew := []bool{}
	for i := 0; i < n; i++ {
		if form == ":=" && n > 1 && g.pct(20) && (fresh > 0 || i < n-1) {
			if v := g.assignable(ts[i]); v != nil && !contains(names, v.Name) {
				vs = append(vs, v)
				names = append(names, v.Name)
				isNew = append(isNew, false)
				continue
			}
		}
		v := g.newVar(ts[i], names...)
		vs = append(vs, v)
		names = append(names, v.Name)
		isNew = append(isNew, true)
		fresh++
	}
	if fresh == 0 {
		return
	}
	if form != "T" {
		for i := 0; i < n; i++ {
			x = append(x, g.expr(ts[i], g.ed()))
		}
	}
	mins := []int{}
	for i := range vs {
		m := 0
		if form != "T" {
			m = minLen(x[i])
		}
		mins = append(mins, m)
	}
	for i, v := range vs {
		if isNew[i] {
			v.MinLen = mins[i]
			g.add(v)
		} else {
			v.MinLen = min(v.MinLen, mins[i])
			if v.Global && g.cur != nil && v.T.Slice {
				g.cur.Sets = true
			}
		}
	}
	g.put(&Stmt{K: SVar, Form: form, T: t, Vars: vs, X: x})
}

func contains[T comparable](l []T, x T) bool {
	for _, y := range l {
		if y == x {
			return true
		}
	}
	return false
}

func (g *Gen) assignStmt() {
	t := g.anyType()
	v := g.assignable(t)
	if v == nil {
		g.varDef()
		return
	}
	x := g.expr(t, g.ed())
	g.noteAssign(v, x, false)
	g.put(assign(v, x))
}

func (g *Gen) multiAssign() {
	if l := g.multiFns(); len(l) > 0 && g.pct(50) {
		f := l[g.n(len(l))]
		vs, names := []*Var{}, []string{}
		for _, t := range f.Rets {
			v := g.assignable(t)
			if v == nil || contains(names, v.Name) {
				return
			}
			vs = append(vs, v)
			names = append(names, v.Name)
		}
		c := call(f, g.args(f, 3)...)
		for _, v := range vs {
			v.MinLen = 0
			if v.Global && g.cur != nil && v.T.Slice {
				g.cur.Sets = true
			}
		}
		g.put(&Stmt{K: SAssign, Vars: vs, X: []*Expr{c}})
		return
	}
	vs, x, names := []*Var{}, []*Expr{}, []string{}
	for n := 2 + g.n(2); n > 0; n-- {
		v := g.assignable(g.anyType())
		if v == nil || contains(names, v.Name) {
			continue
		}
		vs = append(vs, v)
		names = append(names, v.Name)
	}
	if len(vs) == 0 {
		return
	}
	for i, v := range vs {
		// Swaps and rotations are the interesting cases.
		w := vs[(i+1)%len(vs)]
		switch {
		case w.T == v.T && g.pct(60):
			x = append(x, ev(w))
		case w.T == v.T && !v.T.Slice && v.T != TBool && g.pct(50):
			x = append(x, bin("+", ev(w), g.literal(v.T)))
		default:
			x = append(x, g.expr(v.T, g.ed()))
		}
	}
	mins := []int{}
	for _, e := range x {
		mins = append(mins, minLen(e))
	}
	for i, v := range vs {
		v.MinLen = min(v.MinLen, mins[i])
		if v.Global && g.cur != nil && v.T.Slice {
			g.cur.Sets = true
		}
	}
	g.put(&Stmt{K: SAssign, Vars: vs, X: x})
}

func (g *Gen) ifStmt() {
	if g.depth >= g.o.Depth {
		return
	}
	// Guarded subscript.
	if (g.o.Strs || g.o.Slices) && g.pct(20) {
		if v := g.pickVar(func(v *Var) bool { return (v.T == TStr && g.o.Strs || v.T.Slice && g.o.Slices) && v.MinLen == 0 }); v != nil {
			k := g.n(3)
			s := &Stmt{K: SIf, X: []*Expr{cmp(">", elen(ev(v)), lit(k))}}
			v.MinLen = k + 1
			b := g.block(1+g.body(), nil)
			v.MinLen = 0
			s.Blocks = [][]*Stmt{b}
			g.put(s)
			return
		}
	}
	s := &Stmt{K: SIf}
	n := 1
	for g.pct(30) && n < 4 {
		n++
	}
	for i := 0; i < n; i++ {
		s.X = append(s.X, g.expr(TBool, g.ed()))
	}
	for i := 0; i < n; i++ {
		s.Blocks = append(s.Blocks, g.block(g.body(), nil))
	}
	if g.pct(45) {
		s.Else = true
		s.Blocks = append(s.Blocks, g.block(g.body(), nil))
	}
	g.put(s)
}

func (g *Gen) switchStmt() {
	if g.depth >= g.o.Depth {
		return
	}
	s := &Stmt{K: SSwitch, Def: -1}
	t := TBool
	if g.pct(75) {
		t = g.scalarType()
		s.Tag = g.expr(t, g.ed())
	}
	n := g.n(4)
	for i := 0; i < n; i++ {
		e := g.expr(t, g.ed())
		if g.pct(50) {
			e = g.literal(t)
			if t == TInt {
				e = lit(g.n(4))
			}
		}
		s.X = append(s.X, g.trace(e))
	}
	nb := n
	if g.pct(60) {
		s.Def = g.n(n + 1)
		nb++
	}
	loop := g.loop
	g.loop = 0 // break within a switch is not part of the reference
	for i := 0; i < nb; i++ {
		s.Blocks = append(s.Blocks, g.block(g.body(), nil))
	}
	g.loop = loop
	g.put(s)
}

func (g *Gen) loopStmt() {
	if g.depth >= g.o.Depth || g.loop >= 3 {
		return
	}
	switch k := g.n(10); {
	case k < 4: // three-part loop
		s := &Stmt{K: SFor, Form: "3"}
		g.push()
		i := g.newVar(TInt)
		i.RO = true
		n := g.n(5)
		up := g.pct(70)
		c := cmp([]string{"<", "<=", "!="}[g.n(3)], ev(i), lit(n))
		start := lit(0)
		s.Post = &Stmt{K: SInc, Op: "++", Vars: []*Var{i}}
		if !up {
			start = lit(n)
			c = cmp([]string{">", ">=", "!="}[g.n(3)], ev(i), lit(0))
			s.Post = &Stmt{K: SInc, Op: "--", Vars: []*Var{i}}
		}
		if g.pct(30) {
			d := 1 + g.n(2)
			if c.Op == "!=" {
				d = 1
			}
			op := "+="
			if !up {
				op = "-="
			}
			s.Post = &Stmt{K: SOpAssign, Op: op, Vars: []*Var{i}, X: []*Expr{g.trace(lit(d))}}
			if g.pct(40) {
				s.Post = assign(i, bin(op[:1], ev(i), lit(d)))
			}
		}
		var sv *Var
		if (g.o.Slices || g.o.Strs) && up && g.pct(50) {
			sv = g.pickVar(func(v *Var) bool { return v.T.Slice && g.o.Slices || v.T == TStr && g.o.Strs })
			if sv != nil {
				c = cmp("<", ev(i), elen(ev(sv)))
			}
		}
		s.Cond = c
		if g.o.Trace > 0 || g.pct(25) {
			if g.pct(60) {
				s.Cond = g.trace(c)
			} else if sv == nil {
				s.Cond = logic("&&", c, g.expr(TBool, 2))
			}
		}
		var pre *Stmt
		ini := def(i, g.trace(start))
		if g.pct(20) {
			ini = &Stmt{K: SVar, Form: "=", Vars: []*Var{i}, X: []*Expr{start}}
		}
		extra := []*Var{}
		if g.pct(15) {
			j := g.newVar(g.scalarType(), i.Name)
			ini.Vars = append(ini.Vars, j)
			ini.X = append(ini.X, g.expr(j.T, 2))
			extra = append(extra, j)
		}
		s.Init = ini
		if g.pct(20) {
			// Counter defined in front of the loop.
			pre = ini
			s.Init = nil
			if g.pct(50) {
				s.Init = assign(i, start)
			}
			g.pop()
			i.Global = g.global()
			for _, j := range extra {
				j.Global = i.Global
			}
			g.add(i)
			g.add(extra...)
			g.put(pre)
		} else {
			g.add(i)
			g.add(extra...)
		}
		g.loop++
		s.Blocks = [][]*Stmt{g.block(1+g.body(), func() {
			if sv != nil {
				g.facts = append(g.facts, idxFact{i, sv})
			}
		})}
		g.loop--
		if pre == nil {
			g.pop()
		}
		g.put(s)
	case k < 6: // condition only
		i := g.newVar(TInt)
		i.RO = true
		g.put(def(i, lit(g.n(4))))
		g.add(i)
		c := cmp(">", ev(i), lit(0))
		if g.pct(30) {
			c = logic("&&", g.expr(TBool, 2), c)
		}
		s := &Stmt{K: SFor, Cond: g.trace(c)}
		g.loop++
		s.Blocks = [][]*Stmt{g.block(1+g.body(), func() {
			g.put(&Stmt{K: SInc, Op: "--", Vars: []*Var{i}})
		})}
		g.loop--
		g.put(s)
	case k < 7: // endless loop
		i := g.newVar(TInt)
		i.RO = true
		g.put(def(i, lit(g.n(4))))
		g.add(i)
		s := &Stmt{K: SFor}
		if g.pct(30) {
			s.Form = "3"
			if g.pct(50) {
				s.Post = &Stmt{K: SInc, Op: "++", Vars: []*Var{i}}
			}
		}
		g.loop++
		s.Blocks = [][]*Stmt{g.block(1+g.body(), func() {
			lim := 0
			if s.Post == nil {
				g.put(&Stmt{K: SInc, Op: "--", Vars: []*Var{i}})
				g.put(sif(cmp("<", ev(i), lit(lim)), &Stmt{K: SBreak}))
			} else {
				g.put(sif(cmp(">", ev(i), lit(4)), &Stmt{K: SBreak}))
			}
		})}
		g.loop--
		g.put(s)
	default: // range
		t := TStr
		if g.o.Slices && g.pct(65) {
			t = []Type{SInt, SStr, SBool}[g.n(3)]
		}
		x := g.expr(t, g.ed())
		s := &Stmt{K: SRange, X: []*Expr{x}}
		g.push()
		i := g.newVar(TInt)
		s.Vars = []*Var{i}
		if g.pct(80) {
			v := g.newVar(t.Elem(), i.Name)
			if t == TStr {
				v.MinLen = 1
			}
			s.Vars = append(s.Vars, v)
		}
		g.add(s.Vars...)
		i.RO = g.pct(80)
		g.loop++
		s.Blocks = [][]*Stmt{g.block(1+g.body(), func() {
			if x.K == EVar && i.RO {
				g.facts = append(g.facts, idxFact{i, x.V})
			}
		})}
		g.loop--
		g.pop()
		g.put(s)
	}
}

func (g *Gen) sliceStmt() {
	v := g.pickVar(func(v *Var) bool { return v.T.Slice })
	if v == nil {
		return
	}
	save := g.noSets
	g.noSets = v.Global
	defer func() { g.noSets = save }()
	switch g.n(6) {
	case 0, 1:
		if v.MinLen > 0 {
			g.put(sset(v, g.indexOf(v.MinLen, 2), g.expr(v.T.Elem(), g.ed())))
			return
		}
		fallthrough
	case 2: // append
		g.put(sset(v, elen(ev(v)), g.expr(v.T.Elem(), g.ed())))
	case 3: // gap
		k := v.MinLen + g.n(3)
		g.put(sset(v, g.trace(lit(k)), g.expr(v.T.Elem(), g.ed())))
		if g.depth == 0 && g.cur == nil && v.MinLen <= k {
			v.MinLen = k + 1
		}
	case 4, 5:
		c := ecopy(v, g.expr(v.T, 2))
		switch g.n(3) {
		case 0:
			g.put(sexpr(c))
		case 1:
			g.put(sprint(c))
		default:
			n := g.newVar(TInt)
			g.put(def(n, c))
			g.add(n)
		}
	}
}

// function generates a function definition.
func (g *Gen) function() {
	f := &Func{Mod: g.mod}
	used := map[string]bool{}
	for _, h := range g.allFn {
		used[h.Name] = true
	}
	for i := 0; ; i++ {
		f.Name = g.o.FNames[g.n(len(g.o.FNames))]
		if i > 8 {
			f.Name += fmt.Sprint(g.n(50))
		}
		if !used[f.Name] {
			break
		}
	}
	saveScopes, saveDepth, saveLoop, saveFacts, saveTop := g.scopes, g.depth, g.loop, g.facts, g.top
	globals := []*Var{}
	for _, v := range g.scopes[0] {
		if v.Global {
			globals = append(globals, v)
		}
	}
	g.scopes = [][]*Var{globals, nil}
	g.depth, g.loop, g.facts, g.top = 0, 0, nil, nil
	g.cur = f
	names := []string{}
	ar := g.n(4)
	if g.o.Arity > 4 && g.pct(10) {
		ar = 4 + g.n(g.o.Arity-3)
	}
	for i := 0; i < ar; i++ {
		v := &Var{Name: g.freshName(names...), T: g.anyType(), Fn: f}
		names = append(names, v.Name)
		f.Params = append(f.Params, v)
	}
	f.NoPar = len(f.Params) == 0 && g.pct(20)
	for n := []int{0, 1, 1, 1, 2, 2, 3}[g.n(7)]; n > 0; n-- {
		f.Rets = append(f.Rets, g.anyType())
	}
	g.add(f.Params...)
	ct := g.o.CallPct
	g.o.CallPct = ct / 2
	n := 1 + g.n(5)
	if len(f.Rets) == 0 {
		n++
	}
	save := g.o.Depth
	g.o.Depth = min(save, 2)
	g.stmts(n)
	g.o.Depth = save
	g.o.CallPct = ct
	if len(f.Rets) > 0 {
		g.put(g.retStmt())
	}
	f.Body = g.top
	f.Cost += 3
	g.cur = nil
	g.scopes, g.depth, g.loop, g.facts, g.top = saveScopes, saveDepth, saveLoop, saveFacts, saveTop
	g.funcs = append(g.funcs, f)
	g.allFn = append(g.allFn, f)
	g.put(sfunc(f))
}

// program generates the body of the main module.
func (g *Gen) program() *Module {
	if g.o.Trace > 0 {
		ts := []Type{TBool, TInt, TStr}
		if g.o.Slices {
			ts = append(ts, SInt, SStr, SBool)
		}
		for _, t := range ts {
			f := g.traceFn(t)
			f.Mod = g.mod
			g.put(sfunc(f))
		}
	}
	// A few globals to start with.
	for i := 0; i < 3; i++ {
		g.varDef()
	}
	nf := 0
	if g.o.Funcs > 0 {
		nf = 1 + g.n(g.o.Funcs)
	}
	for i := 0; i < g.o.Stmts; i++ {
		if nf > 0 && g.pct(100*nf/(g.o.Stmts-i)) {
			g.function()
			nf--
		}
		g.stmt()
	}
	if !g.o.NoEndDmp {
		g.dump()
	}
	g.mod.Body = g.top
	return g.mod
}

// dump prints the final state of all globals.
func (g *Gen) dump() {
	x := []*Expr{lit("end")}
	for _, v := range g.scopes[0] {
		if !v.Global {
			continue
		}
		if v.T.Slice {
			i := &Var{Name: g.freshName(), T: TInt}
			e := &Var{Name: g.freshName(i.Name), T: v.T.Elem()}
			g.put(sprint(lit("len"), elen(ev(v))))
			g.put(&Stmt{K: SRange, Vars: []*Var{i, e}, X: []*Expr{ev(v)}, Blocks: [][]*Stmt{{sprint(ev(i), ev(e))}}})
		} else {
			x = append(x, ev(v))
		}
	}
	g.put(sprint(x...))
}

// sound generates a program whose behaviour is defined by the reference.
func sound(r *rand.Rand, o GenOpt, max int) (*Module, *Interp) {
	for try := 0; try < 60; try++ {
		g := newGen(r, o)
		m := g.program()
		in := &Interp{Bits: o.Bits, Max: max, NoWrap: o.NoWrap}
		if ok, _ := in.Run(m, nil); ok {
			return m, in
		}
	}
	return nil, nil
}
