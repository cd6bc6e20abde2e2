package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------------------------------------------------
// Reference interpreter: Go semantics of the shared syntax, README for the rest.
// ---------------------------------------------------------------------------------------------------------

type SliceObj struct{ E []Val }

type Val struct {
	I int64 // int, bool (0/1)
	S string
	L *SliceObj
}

func bv(b bool) Val {
	if b {
		return Val{I: 1}
	}
	return Val{}
}

func zero(t Type) Val {
	if t.Slice {
		return Val{L: &SliceObj{}}
	}
	return Val{}
}

func show(v Val, t Type) string {
	if t.Base == 's' {
		return v.S
	}
	return strconv.FormatInt(v.I, 10)
}

// Undefined is raised (as panic) if a program leaves the domain in which the reference defines a result.
type Undefined struct{ Why string }
type tshPanic struct{}

type Interp struct {
	env     map[*Var]Val // Programs are shared by concurrent runs, so they hold no state.
	done    map[*Module]bool
	Bits    int // 64 or 32
	Out     strings.Builder
	Lines   int
	Steps   int
	Max     int
	Exit    int
	Stdin   []string
	FS      map[string]string // model file system (nil: no file operations)
	Kinds   [nStmts]int
	EKinds  [nKinds]int
	depth   int
	calls   int
	iters   int
	rets    []Val
	Canon   func(path string) string // canonical name of a path (nil: the path itself)
	Dirs    map[string]bool          // directories (canonical names)
	FileOps [3]int                   // writes, reads, exists
	AppFn   func(in *Interp, apps []App, args [][]string) (string, int)
	NoWrap  bool // overflow counts as undefined
}

func undef(why string) { panic(Undefined{why}) }

func (in *Interp) step() {
	in.Steps++
	if in.Steps > in.Max {
		undef("steps")
	}
}

func (in *Interp) wrap(x int64) int64 {
	if in.Bits == 32 {
		return int64(int32(x))
	}
	return x
}

// Run executes the program. ok is false if the program leaves the defined domain.
func (in *Interp) Run(main *Module, _ []*Module) (ok bool, why string) {
	if in.Max == 0 {
		in.Max = 20000
	}
	if in.Bits == 0 {
		in.Bits = 64
	}
	in.env, in.done = map[*Var]Val{}, map[*Module]bool{}
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case Undefined:
				ok, why = false, x.Why
			case tshPanic:
				in.Exit = 1
				ok = true
			default:
				panic(r)
			}
		}
	}()
	in.module(main)
	return true, ""
}

func (in *Interp) module(m *Module) {
	if in.done[m] || m.Std != "" {
		return
	}
	in.done[m] = true
	for _, im := range m.Imports {
		in.module(im.Mod)
	}
	in.block(m.Body)
}

type flow byte

const (
	fNext flow = iota
	fBreak
	fContinue
	fReturn
)

func (in *Interp) block(b []*Stmt) flow {
	for _, s := range b {
		if f := in.stmt(s); f != fNext {
			return f
		}
	}
	return fNext
}

func (in *Interp) println(s string) {
	in.Out.WriteString(s)
	in.Out.WriteByte('\n')
	in.Lines++
	if in.Out.Len() > 200000 {
		undef("output")
	}
}

func (in *Interp) vals(x []*Expr) []Val {
	v := make([]Val, len(x))
	for i, e := range x {
		v[i] = in.expr(e)
	}
	return v
}

// assignList evaluates the values (or a multi-value call) for n variables.
func (in *Interp) assignList(x []*Expr, n int) []Val {
	if len(x) == 1 && n > 1 {
		return in.multi(x[0])
	}
	return in.vals(x)
}

func (in *Interp) multi(e *Expr) []Val {
	in.EKinds[e.K]++
	switch e.K {
	case ECall:
		return in.call(e)
	case EApp:
		out, code := in.app(e)
		return []Val{{S: strings.TrimSuffix(out, "\n")}, {S: ""}, {I: int64(code)}}
	}
	panic("harness: multi")
}

func (in *Interp) canon(p string) string {
	if in.Canon != nil {
		return in.Canon(p)
	}
	return p
}

func (in *Interp) app(e *Expr) (string, int) {
	args := [][]string{}
	for _, a := range e.Apps {
		l := []string{}
		for _, x := range a.Args {
			l = append(l, show(in.expr(x), x.T))
		}
		args = append(args, l)
	}
	if in.AppFn == nil {
		undef("app")
	}
	return in.AppFn(in, e.Apps, args)
}

func (in *Interp) stmt(s *Stmt) flow {
	in.step()
	in.Kinds[s.K]++
	switch s.K {
	case SVar:
		if s.Form == "T" {
			for _, v := range s.Vars {
				in.env[v] = zero(s.T)
			}
			return fNext
		}
		v := in.assignList(s.X, len(s.Vars))
		for i := range s.Vars {
			in.env[s.Vars[i]] = v[i]
		}
	case SAssign:
		v := in.assignList(s.X, len(s.Vars))
		for i := range s.Vars {
			in.env[s.Vars[i]] = v[i]
		}
	case SOpAssign:
		// Go evaluates x op= y like x = x op y (with x evaluated once).
		l := in.env[s.Vars[0]]
		r := in.expr(s.X[0])
		in.env[s.Vars[0]] = in.arith(s.Op[:1], l, r, s.Vars[0].T)
	case SInc:
		d := int64(1)
		if s.Op == "--" {
			d = -1
		}
		in.env[s.Vars[0]] = in.arith("+", in.env[s.Vars[0]], Val{I: d}, TInt)
	case SSet:
		// The slice operand is a variable: the element is addressed after all operands have been evaluated.
		i := in.expr(s.X[0]).I
		x := in.expr(s.X[1])
		in.set(in.env[s.Vars[0]].L, i, x, s.Vars[0].T.Elem())
	case SExpr:
		e := s.X[0]
		in.EKinds[e.K]++
		switch e.K {
		case ECall:
			in.call(e)
		case EApp:
			out, _ := in.app(e)
			in.Out.WriteString(out)
		default:
			in.expr(e)
		}
	case SReturn:
		in.rets = in.vals(s.X)
		return fReturn
	case SIf:
		c := in.vals(s.X)
		for i := range c {
			if c[i].I == 1 {
				return in.block(s.Blocks[i])
			}
		}
		if s.Else {
			return in.block(s.Blocks[len(c)])
		}
	case SSwitch:
		tag, t := bv(true), TBool
		if s.Tag != nil {
			tag, t = in.expr(s.Tag), s.Tag.T
		}
		c := in.vals(s.X)
		j := 0
		def := -1
		for i := range s.Blocks {
			if i == s.Def {
				def = i
				continue
			}
			if show(c[j], t) == show(tag, t) {
				return in.block(s.Blocks[i])
			}
			j++
		}
		if def >= 0 {
			return in.block(s.Blocks[def])
		}
	case SFor:
		if s.Init != nil {
			in.stmt(s.Init)
		}
		for first := true; ; first = false {
			in.step()
			in.iters++
			if !first && s.Post != nil {
				in.stmt(s.Post)
			}
			if s.Cond != nil && in.expr(s.Cond).I != 1 {
				break
			}
			f := in.block(s.Blocks[0])
			if f == fBreak {
				break
			} else if f == fReturn {
				return f
			}
		}
	case SRange:
		it := in.expr(s.X[0])
		t := s.X[0].T
		n := len(it.S)
		if t.Slice {
			n = len(it.L.E)
		}
		for i := 0; i < n; i++ {
			in.step()
			in.iters++
			if t.Slice && len(it.L.E) != n {
				undef("range over resized slice")
			}
			in.env[s.Vars[0]] = Val{I: int64(i)}
			if len(s.Vars) > 1 {
				if t.Slice {
					in.env[s.Vars[1]] = it.L.E[i]
				} else {
					in.env[s.Vars[1]] = Val{S: it.S[i : i+1]}
				}
			}
			f := in.block(s.Blocks[0])
			if f == fBreak {
				break
			} else if f == fReturn {
				return f
			}
		}
		if t.Slice && len(it.L.E) != n {
			undef("range over resized slice")
		}
	case SBreak:
		return fBreak
	case SContinue:
		return fContinue
	case SPrint:
		p := []string{}
		for _, x := range s.X {
			p = append(p, show(in.expr(x), x.T))
		}
		in.println(strings.Join(p, " "))
	case SPanic:
		v := in.expr(s.X[0])
		in.println("panic: " + show(v, s.X[0].T))
		panic(tshPanic{})
	case SWrite:
		if in.FS == nil {
			undef("write")
		}
		v := in.vals(s.X)
		in.FileOps[0]++
		if p := in.canon(v[0].S); in.Dirs[p] {
			undef("write to a directory")
		} else if len(v) > 2 && v[2].I == 1 {
			in.FS[p] += v[1].S + "\n"
		} else {
			in.FS[p] = v[1].S + "\n"
		}
	case SFunc:
	default:
		panic("harness: stmt")
	}
	return fNext
}

func (in *Interp) set(l *SliceObj, i int64, x Val, t Type) {
	if i < 0 || i > 2000 {
		undef("slice index")
	}
	for int64(len(l.E)) <= i {
		l.E = append(l.E, zero(t))
	}
	l.E[i] = x
}

func (in *Interp) call(e *Expr) []Val {
	in.step()
	in.calls++
	args := in.vals(e.X)
	f := e.F
	if f.Native != nil {
		return f.Native(args)
	}
	in.depth++
	if in.depth > 200 {
		panic("harness: recursion")
	}
	for i, p := range f.Params {
		in.env[p] = args[i]
	}
	fl := in.block(f.Body)
	in.depth--
	if len(f.Rets) > 0 {
		if fl != fReturn {
			panic("harness: function without return")
		}
		r := in.rets
		in.rets = nil
		return r
	}
	return nil
}

func (in *Interp) arith(op string, a, b Val, t Type) Val {
	if t.Base == 's' {
		if len(a.S)+len(b.S) > 5000 {
			undef("string length")
		}
		return Val{S: a.S + b.S}
	}
	x, y := a.I, b.I
	min := int64(math.MinInt64)
	if in.Bits == 32 {
		min = math.MinInt32
	}
	var z int64
	switch op {
	case "+":
		z = x + y
	case "-":
		z = x - y
	case "*":
		z = x * y
	case "/", "%":
		if y == 0 {
			undef("division by zero")
		}
		if x == min && y == -1 {
			undef("overflow division")
		}
		if op == "/" {
			z = x / y
		} else {
			z = x % y
		}
	}
	if in.NoWrap && in.wrap(z) != z {
		undef("overflow")
	}
	z = in.wrap(z)
	if in.Bits == 32 && z == min {
		undef("INT_MIN in Batch")
	}
	return Val{I: z}
}

func (in *Interp) expr(e *Expr) Val {
	in.EKinds[e.K]++
	switch e.K {
	case EBool:
		return bv(e.B)
	case EInt:
		return Val{I: e.I}
	case EStr:
		return Val{S: e.S}
	case ENil:
		if e.T.Slice {
			return zero(e.T)
		}
		return Val{}
	case EVar:
		return in.env[e.V]
	case ENot:
		return bv(in.expr(e.X[0]).I != 1)
	case EGroup:
		return in.expr(e.X[0])
	case EBin:
		a := in.expr(e.X[0])
		b := in.expr(e.X[1])
		return in.arith(e.Op, a, b, e.X[0].T)
	case ECmp:
		a := in.expr(e.X[0])
		b := in.expr(e.X[1])
		if e.X[0].T.Base == 's' {
			return bv((a.S == b.S) == (e.Op == "=="))
		}
		switch e.Op {
		case "==":
			return bv(a.I == b.I)
		case "!=":
			return bv(a.I != b.I)
		case "<":
			return bv(a.I < b.I)
		case "<=":
			return bv(a.I <= b.I)
		case ">":
			return bv(a.I > b.I)
		case ">=":
			return bv(a.I >= b.I)
		}
	case ELog:
		a := in.expr(e.X[0]).I == 1
		b := in.expr(e.X[1]).I == 1
		if e.Op == "&&" {
			return bv(a && b)
		}
		return bv(a || b)
	case ECall:
		r := in.call(e)
		return r[0]
	case ESlice:
		return Val{L: &SliceObj{E: in.vals(e.X)}}
	case EIndex:
		l := in.env[e.V].L
		i := in.expr(e.X[0]).I
		if i < 0 || i >= int64(len(l.E)) {
			undef("slice read")
		}
		return l.E[i]
	case ESub:
		s := in.env[e.V].S
		a, b := int64(0), int64(len(s))
		switch e.Op {
		case "i":
			a = in.expr(e.X[0]).I
			if a < 0 || a >= int64(len(s)) {
				undef("string index")
			}
			return Val{S: s[a : a+1]}
		case "ab":
			a = in.expr(e.X[0]).I
			b = in.expr(e.X[1]).I
		case "a":
			a = in.expr(e.X[0]).I
		case "b":
			b = in.expr(e.X[0]).I
		}
		if a < 0 || b < a || b > int64(len(s)) {
			undef("substring")
		}
		return Val{S: s[a:b]}
	case ELen:
		v := in.expr(e.X[0])
		if e.X[0].T.Slice {
			return Val{I: int64(len(v.L.E))}
		}
		return Val{I: int64(len(v.S))}
	case EItoa:
		return Val{S: strconv.FormatInt(in.expr(e.X[0]).I, 10)}
	case ECopy:
		src := in.expr(e.X[0]).L
		dst := in.env[e.V].L
		n := len(src.E)
		if len(dst.E) > n {
			undef("copy into a longer destination")
		}
		for i := 0; i < n; i++ {
			in.set(dst, int64(i), src.E[i], e.V.T.Elem())
		}
		return Val{I: int64(n)}
	case EExists:
		if in.FS == nil {
			undef("exists")
		}
		in.FileOps[2]++
		p := in.canon(in.expr(e.X[0]).S)
		_, ok := in.FS[p]
		return bv(ok || in.Dirs[p])
	case ERead:
		in.FileOps[1]++
		p := in.canon(in.expr(e.X[0]).S)
		c, ok := in.FS[p]
		if !ok {
			undef("read of missing file")
		}
		return Val{S: strings.TrimSuffix(c, "\n")}
	case EInput:
		for _, x := range e.X {
			in.expr(x)
		}
		if len(in.Stdin) == 0 {
			undef("input")
		}
		s := in.Stdin[0]
		in.Stdin = in.Stdin[1:]
		return Val{S: s}
	}
	panic(fmt.Sprintf("harness: expr %d", e.K))
}
