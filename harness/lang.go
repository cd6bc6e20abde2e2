package main

import (
	"fmt"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------------------------------------------------
// Types and AST of the TypeShell language as the harness understands it (independent of /repo).
// ---------------------------------------------------------------------------------------------------------

type Type struct {
	Base  byte // 'b', 'i', 's'; 0 = none
	Slice bool
}

var (
	TBool = Type{'b', false}
	TInt  = Type{'i', false}
	TStr  = Type{'s', false}
	SBool = Type{'b', true}
	SInt  = Type{'i', true}
	SStr  = Type{'s', true}

	allTypes = []Type{TBool, TInt, TStr, SBool, SInt, SStr}
)

func (t Type) Elem() Type { return Type{t.Base, false} }
func (t Type) SliceOf() Type {
	return Type{t.Base, true}
}
func (t Type) String() string {
	s := map[byte]string{'b': "bool", 'i': "int", 's': "string", 0: "void"}[t.Base]
	if t.Slice {
		s = "[]" + s
	}
	return s
}

type Var struct {
	Name   string
	T      Type
	Global bool
	RO     bool // generator: must not be assigned (loop counters)
	MinLen int  // generator: known minimum length (strings/slices)
	Fn     *Func
}

type Func struct {
	Name   string
	Mod    *Module
	Params []*Var
	Rets   []Type
	Body   []*Stmt
	Native func([]Val) []Val
	NoPar  bool // definition without parentheses
	Tracer bool
	Cost   int  // generator: estimated call costs
	Sets   bool // generator: might change global variables (transitively)
}

type Import struct {
	Alias string // "" for std
	Path  string
	Mod   *Module
}

type Module struct {
	File    string
	Std     string // name of the standard library, if it is one
	Imports []*Import
	Body    []*Stmt
}

type EK byte

const (
	EBool EK = iota
	EInt
	EStr
	ENil
	EVar
	ENot
	EBin
	ECmp
	ELog
	EGroup
	ECall
	ESlice
	EIndex // V[X0]
	ESub   // V[...]; Op: "i", "ab", "a", "b", ""
	ELen
	EItoa
	ECopy // copy(V, X0)
	EExists
	ERead
	EInput
	EApp   // Apps
	EOp    // opaque text (token list), used for mutations
	nKinds = int(EOp) + 1
)

type App struct {
	Name string
	Lit  bool // name is printed as string literal
	Raw  bool // ... as raw string literal
	Args []*Expr
}

type Expr struct {
	K    EK
	T    Type
	Op   string
	I    int64
	B    bool
	S    string
	Raw  bool
	X    []*Expr
	V    *Var
	F    *Func
	Ali  int // which of the aliases to use
	Apps []App
}

type SK byte

const (
	SVar SK = iota // Form: "T", "T=", "=", ":="
	SAssign
	SOpAssign
	SInc
	SSet // V[X0] = X1
	SExpr
	SReturn
	SIf
	SSwitch
	SFor
	SRange
	SBreak
	SContinue
	SPrint
	SPanic
	SWrite
	SFunc
	SRawS  // opaque source lines (text)
	nStmts = int(SRawS) + 1
)

var stmtNames = []string{"vardef", "assign", "opassign", "incdec", "sliceset", "exprstmt", "return", "if", "switch", "for", "range", "break", "continue", "print", "panic", "write", "func", "raw"}

type Stmt struct {
	K      SK
	Form   string
	T      Type
	Vars   []*Var
	X      []*Expr
	Op     string
	Blocks [][]*Stmt // if: one per condition (+ else); switch: one per case
	Else   bool
	Tag    *Expr // switch
	Def    int   // switch: position of the default case (-1 = none)
	Init   *Stmt
	Cond   *Expr
	Post   *Stmt
	F      *Func
	Text   string
}

// ---------------------------------------------------------------------------------------------------------
// Printing to tokens.
// ---------------------------------------------------------------------------------------------------------

type Tok struct {
	S  string
	K  byte // 'w' word, 'n' number, 's' string, 'o' operator/punctuation, 'l' newline
	Sp bool // house style: blank in front
	In int  // indentation (only relevant at line starts)
}

type printer struct {
	toks []Tok
	ind  int
	sp   bool
	mod  *Module
}

func (p *printer) emit(k byte, s string) {
	p.toks = append(p.toks, Tok{S: s, K: k, Sp: p.sp, In: p.ind})
	p.sp = false
}
func (p *printer) s() { p.sp = true }
func (p *printer) w(s string) {
	p.emit('w', s)
}
func (p *printer) o(s string)  { p.emit('o', s) }
func (p *printer) bo(s string) { p.s(); p.o(s); p.s() }
func (p *printer) nl()         { p.sp = false; p.emit('l', "\n") }

func quoteTS(s string) string {
	b := strings.Builder{}
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteByte(c)
		case c == '\n':
			b.WriteString(`\n`)
		case c == '\t':
			b.WriteString(`\t`)
		case c == '\r':
			b.WriteString(`\r`)
		case c < 32 || c == 127:
			fmt.Fprintf(&b, `\x%02x`, c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (p *printer) strLit(s string, raw bool) {
	if raw && !strings.ContainsAny(s, "`\r") {
		p.emit('s', "`"+s+"`")
	} else {
		p.emit('s', quoteTS(s))
	}
}

func (p *printer) typ(t Type) {
	if t.Slice {
		p.o("[")
		p.o("]")
	}
	p.w(t.Elem().String())
}

func (p *printer) list(x []*Expr) {
	for i, e := range x {
		if i > 0 {
			p.o(",")
			p.s()
		}
		p.expr(e)
	}
}

func (p *printer) names(v []*Var) {
	for i, x := range v {
		if i > 0 {
			p.o(",")
			p.s()
		}
		p.w(x.Name)
	}
}

func prec(e *Expr) int {
	switch e.K {
	case ELog:
		if e.Op == "||" {
			return 1
		}
		return 2
	case ECmp:
		return 3
	case EBin:
		if e.Op == "+" || e.Op == "-" {
			return 4
		}
		return 5
	case ENot:
		return 6
	}
	return 7
}

// sub prints a sub-expression and adds brackets if the tree structure requires them.
func (p *printer) sub(e *Expr, min int) {
	if prec(e) < min {
		p.o("(")
		p.expr(e)
		p.o(")")
	} else {
		p.expr(e)
	}
}

func (p *printer) callee(e *Expr) {
	if e.F.Mod != nil && e.F.Mod != p.mod {
		n := []string{}
		for _, im := range p.mod.Imports {
			if im.Mod == e.F.Mod {
				a := im.Alias
				if a == "" {
					a = im.Mod.Std
				}
				n = append(n, a)
			}
		}
		if len(n) == 0 {
			panic("harness: function of a module that is not imported: " + e.F.Name)
		}
		p.w(n[e.Ali%len(n)])
		p.o(".")
	}
	p.w(e.F.Name)
}

func (p *printer) expr(e *Expr) {
	switch e.K {
	case EBool:
		p.w(strconv.FormatBool(e.B))
	case EInt:
		p.emit('n', strconv.FormatInt(e.I, 10))
	case EStr:
		p.strLit(e.S, e.Raw)
	case ENil:
		p.w("nil")
	case EVar:
		p.w(e.V.Name)
	case ENot:
		p.o("!")
		p.sub(e.X[0], 6)
	case EBin, ECmp, ELog:
		pr := prec(e)
		p.sub(e.X[0], pr)
		p.bo(e.Op)
		p.sub(e.X[1], pr+1)
	case EGroup:
		p.o("(")
		p.expr(e.X[0])
		p.o(")")
	case ECall:
		p.callee(e)
		p.o("(")
		p.list(e.X)
		p.o(")")
	case ESlice:
		p.typ(e.T)
		p.o("{")
		p.list(e.X)
		p.o("}")
	case EIndex:
		p.w(e.V.Name)
		p.o("[")
		p.expr(e.X[0])
		p.o("]")
	case ESub:
		p.w(e.V.Name)
		p.o("[")
		switch e.Op {
		case "i":
			p.expr(e.X[0])
		case "ab":
			p.expr(e.X[0])
			p.o(":")
			p.expr(e.X[1])
		case "a":
			p.expr(e.X[0])
			p.o(":")
		case "b":
			p.o(":")
			p.expr(e.X[0])
		case "":
			p.o(":")
		}
		p.o("]")
	case ELen, EItoa, EExists, ERead, EInput:
		p.w(map[EK]string{ELen: "len", EItoa: "itoa", EExists: "exists", ERead: "read", EInput: "input"}[e.K])
		p.o("(")
		p.list(e.X)
		p.o(")")
	case ECopy:
		p.w("copy")
		p.o("(")
		p.w(e.V.Name)
		p.o(",")
		p.s()
		p.list(e.X)
		p.o(")")
	case EApp:
		for i, a := range e.Apps {
			if i > 0 {
				p.bo("|")
			}
			p.o("@")
			if a.Lit || a.Raw {
				p.strLit(a.Name, a.Raw)
			} else {
				p.w(a.Name)
			}
			p.o("(")
			p.list(a.Args)
			p.o(")")
		}
	case EOp:
		p.raw(e.S)
	}
}

// raw inserts source text as tokens.
func (p *printer) raw(s string) {
	toks, err := tokenize(s)
	if err != nil {
		panic("harness: raw text: " + err.Error() + ": " + s)
	}
	for _, t := range toks {
		p.s()
		switch t.K {
		case 'l':
			p.nl()
		default:
			p.emit(t.K, t.Text)
		}
	}
}

func (p *printer) block(b []*Stmt) {
	p.s()
	p.o("{")
	p.nl()
	p.ind++
	for _, s := range b {
		p.stmt(s)
		p.nl()
	}
	p.ind--
	p.o("}")
}

func (p *printer) stmt(s *Stmt) {
	switch s.K {
	case SVar:
		if s.Form == ":=" {
			p.names(s.Vars)
			p.bo(":=")
			p.list(s.X)
			return
		}
		p.w("var")
		p.s()
		p.names(s.Vars)
		if s.Form[0] == 'T' {
			p.s()
			p.typ(s.T)
		}
		if s.Form != "T" {
			p.bo("=")
			p.list(s.X)
		}
	case SAssign:
		p.names(s.Vars)
		p.bo("=")
		p.list(s.X)
	case SOpAssign:
		p.names(s.Vars)
		p.bo(s.Op)
		p.list(s.X)
	case SInc:
		p.names(s.Vars)
		p.o(s.Op)
	case SSet:
		p.w(s.Vars[0].Name)
		p.o("[")
		p.expr(s.X[0])
		p.o("]")
		p.bo("=")
		p.expr(s.X[1])
	case SExpr:
		p.expr(s.X[0])
	case SReturn:
		p.w("return")
		p.s()
		p.list(s.X)
	case SIf:
		for i, x := range s.X {
			if i > 0 {
				p.s()
				p.w("else")
				p.s()
			}
			p.w("if")
			p.s()
			p.expr(x)
			p.block(s.Blocks[i])
		}
		if s.Else {
			p.s()
			p.w("else")
			p.block(s.Blocks[len(s.X)])
		}
	case SSwitch:
		p.w("switch")
		p.s()
		if s.Tag != nil {
			p.expr(s.Tag)
			p.s()
		}
		p.o("{")
		p.nl()
		j := 0
		for i := range s.Blocks {
			if i == s.Def {
				p.w("default")
			} else {
				p.w("case")
				p.s()
				p.expr(s.X[j])
				j++
			}
			p.o(":")
			p.nl()
			p.ind++
			for _, t := range s.Blocks[i] {
				p.stmt(t)
				p.nl()
			}
			p.ind--
		}
		p.o("}")
	case SFor:
		p.w("for")
		p.s()
		if s.Init != nil || s.Post != nil || s.Form == "3" {
			if s.Init != nil {
				p.stmt(s.Init)
			}
			p.o(";")
			p.s()
			if s.Cond != nil {
				p.expr(s.Cond)
			}
			p.o(";")
			p.s()
			if s.Post != nil {
				p.stmt(s.Post)
			}
		} else if s.Cond != nil {
			p.expr(s.Cond)
		}
		p.block(s.Blocks[0])
	case SRange:
		p.w("for")
		p.s()
		p.names(s.Vars)
		p.bo(":=")
		p.w("range")
		p.s()
		p.expr(s.X[0])
		p.block(s.Blocks[0])
	case SBreak:
		p.w("break")
	case SContinue:
		p.w("continue")
	case SPrint:
		p.w("print")
		p.o("(")
		p.list(s.X)
		p.o(")")
	case SPanic:
		p.w("panic")
		p.o("(")
		p.list(s.X)
		p.o(")")
	case SWrite:
		p.w("write")
		p.o("(")
		p.list(s.X)
		p.o(")")
	case SFunc:
		f := s.F
		p.w("func")
		p.s()
		p.w(f.Name)
		if !f.NoPar || len(f.Params) > 0 || len(f.Rets) > 1 {
			p.o("(")
			for i, v := range f.Params {
				if i > 0 {
					p.o(",")
					p.s()
				}
				p.w(v.Name)
				p.s()
				p.typ(v.T)
			}
			p.o(")")
		}
		p.s()
		if len(f.Rets) == 1 {
			p.typ(f.Rets[0])
		} else if len(f.Rets) > 1 {
			p.o("(")
			for i, t := range f.Rets {
				if i > 0 {
					p.o(",")
					p.s()
				}
				p.typ(t)
			}
			p.o(")")
		}
		p.block(f.Body)
	case SRawS:
		p.raw(s.Text)
	}
}

func printModule(m *Module) []Tok {
	p := &printer{mod: m}
	if len(m.Imports) == 1 && len(m.Imports[0].Path)%2 == 0 {
		p.w("import")
		p.s()
		p.imp(m.Imports[0])
		p.nl()
	} else if len(m.Imports) > 0 {
		p.w("import")
		p.s()
		p.o("(")
		p.nl()
		p.ind++
		for _, im := range m.Imports {
			p.imp(im)
			p.nl()
		}
		p.ind--
		p.o(")")
		p.nl()
	}
	for _, s := range m.Body {
		p.stmt(s)
		p.nl()
	}
	return p.toks
}

func (p *printer) imp(im *Import) {
	if im.Alias != "" {
		p.w(im.Alias)
		p.s()
	}
	p.strLit(im.Path, false)
}

// house joins tokens in the default style.
func house(toks []Tok) string {
	b := strings.Builder{}
	start := true
	for _, t := range toks {
		if t.K == 'l' {
			b.WriteByte('\n')
			start = true
			continue
		}
		if start {
			b.WriteString(strings.Repeat("    ", t.In))
			start = false
		} else if t.Sp {
			b.WriteByte(' ')
		}
		b.WriteString(t.S)
	}
	return b.String()
}

func (m *Module) Source() string { return house(printModule(m)) }

// Construction helpers.
func lit(v any) *Expr {
	switch x := v.(type) {
	case int:
		return &Expr{K: EInt, T: TInt, I: int64(x)}
	case int64:
		return &Expr{K: EInt, T: TInt, I: x}
	case bool:
		return &Expr{K: EBool, T: TBool, B: x}
	case string:
		return &Expr{K: EStr, T: TStr, S: x}
	}
	panic("lit")
}
func ev(v *Var) *Expr                   { return &Expr{K: EVar, T: v.T, V: v} }
func bin(op string, a, b *Expr) *Expr   { return &Expr{K: EBin, T: a.T, Op: op, X: []*Expr{a, b}} }
func cmp(op string, a, b *Expr) *Expr   { return &Expr{K: ECmp, T: TBool, Op: op, X: []*Expr{a, b}} }
func logic(op string, a, b *Expr) *Expr { return &Expr{K: ELog, T: TBool, Op: op, X: []*Expr{a, b}} }
func not(a *Expr) *Expr                 { return &Expr{K: ENot, T: TBool, X: []*Expr{a}} }
func group(a *Expr) *Expr               { return &Expr{K: EGroup, T: a.T, X: []*Expr{a}} }
func call(f *Func, x ...*Expr) *Expr {
	e := &Expr{K: ECall, F: f, X: x}
	if len(f.Rets) == 1 {
		e.T = f.Rets[0]
	}
	return e
}
func slit(t Type, x ...*Expr) *Expr { return &Expr{K: ESlice, T: t, X: x} }
func index(v *Var, i *Expr) *Expr   { return &Expr{K: EIndex, T: v.T.Elem(), V: v, X: []*Expr{i}} }
func substr(v *Var, op string, x ...*Expr) *Expr {
	return &Expr{K: ESub, T: TStr, V: v, Op: op, X: x}
}
func elen(x *Expr) *Expr  { return &Expr{K: ELen, T: TInt, X: []*Expr{x}} }
func eitoa(x *Expr) *Expr { return &Expr{K: EItoa, T: TStr, X: []*Expr{x}} }
func ecopy(d *Var, x *Expr) *Expr {
	return &Expr{K: ECopy, T: TInt, V: d, X: []*Expr{x}}
}
func def(v *Var, x *Expr) *Stmt    { return &Stmt{K: SVar, Form: ":=", Vars: []*Var{v}, X: []*Expr{x}} }
func assign(v *Var, x *Expr) *Stmt { return &Stmt{K: SAssign, Vars: []*Var{v}, X: []*Expr{x}} }
func sprint(x ...*Expr) *Stmt      { return &Stmt{K: SPrint, X: x} }
func sif(c *Expr, b ...*Stmt) *Stmt {
	return &Stmt{K: SIf, X: []*Expr{c}, Blocks: [][]*Stmt{b}}
}
func sexpr(x *Expr) *Stmt   { return &Stmt{K: SExpr, X: []*Expr{x}} }
func sret(x ...*Expr) *Stmt { return &Stmt{K: SReturn, X: x} }
func sfunc(f *Func) *Stmt   { return &Stmt{K: SFunc, F: f} }
func sset(v *Var, i, x *Expr) *Stmt {
	return &Stmt{K: SSet, Vars: []*Var{v}, X: []*Expr{i, x}}
}
