package main

import (
	"fmt"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------------------------------------------------
// Model of cmd.exe for batch scripts (command extensions enabled). It follows the documented phases: percent
// expansion while a line is read, parsing of (compound) commands, FOR variable expansion, delayed expansion,
// execution. A compound command is read completely before it is executed; GOTO abandons it and searches the
// label from the end of the current compound command forward and then from the start of the file.
// ---------------------------------------------------------------------------------------------------------

type cmdNode struct {
	kind  byte // 's' simple, 'b' block, 'i' if, 'f' for, 'q' sequence, '&' and-then, '|' or-else, 'p' pipe, 'l' label/comment
	text  string
	nodes []*cmdNode
	not   bool
	icase bool
	cond  string // "cmp", "defined", "exist", "errorlevel"
	a, b  string
	op    string
	fvar  byte
	fopt  string
	fset  string
	redir []string
	line  int // index of the line on which the command starts
}

type cmdErr struct{ msg string }
type cmdGoto struct{ label string }
type cmdExit struct {
	all bool
}

type cmdFrame struct {
	args   []string
	pos    int
	locals []map[string]string
}

type machine struct {
	lines  []string
	vars   map[string]string
	names  map[string]string
	frames []*cmdFrame
	out    strings.Builder
	errb   strings.Builder
	stdin  []string
	err    int // errorlevel
	steps  int
	max    int
	files  map[string]string
	delay  bool
	lint   bool // static analysis: keep percent expressions, record labels

	app func(name string, args []string, stdin string) (string, int) // programs (nil: not executed)
	pin string                                                       // standard input within a pipe

	// Statistics.
	gotos, calls, labels int
	crossed              map[string]bool
}

func (m *machine) fr() *cmdFrame { return m.frames[len(m.frames)-1] }

func (m *machine) fail(f string, a ...any) {
	panic(cmdErr{fmt.Sprintf(f, a...)})
}

// runCmd executes a batch script.
func runCmd(script, stdin string, args []string) (r Run) {
	return runCmdApp(script, stdin, args, nil, nil)
}

// runCmdApp executes a batch script which may run programs and use files.
func runCmdApp(script, stdin string, args []string, app func(name string, args []string, stdin string) (string, int), files map[string]string) (r Run) {
	m := newMachine(script, stdin)
	m.app, m.files = app, files
	m.frames[0].args = append(m.frames[0].args, args...)
	return m.run()
}

func newMachine(script, stdin string) *machine {
	m := &machine{vars: map[string]string{}, names: map[string]string{}, max: 3000000, crossed: map[string]bool{}}
	script = strings.ReplaceAll(script, "\r\n", "\n")
	m.lines = strings.Split(script, "\n")
	if stdin != "" {
		m.stdin = strings.Split(strings.TrimSuffix(stdin, "\n"), "\n")
	}
	m.frames = []*cmdFrame{{args: []string{"main.bat"}}}
	m.setVar("COMSPEC", `C:\WINDOWS\system32\cmd.exe`)
	m.setVar("PATH", `C:\WINDOWS\system32`)
	m.setVar("PATHEXT", `.COM;.EXE;.BAT`)
	m.setVar("OS", "Windows_NT")
	m.setVar("TEMP", `C:\Temp`)
	m.setVar("TMP", `C:\Temp`)
	m.setVar("PROMPT", "$P$G")
	m.setVar("USERNAME", "user")
	return m
}

func (m *machine) run() (r Run) {
	defer func() {
		r.Out, r.Err, r.Exit = m.out.String(), m.errb.String(), m.err
		if x := recover(); x != nil {
			switch e := x.(type) {
			case cmdErr:
				if e.msg == "limit" {
					r.Hang, r.Why = true, "step limit exceeded"
				} else {
					r.Err += "cmd: " + e.msg + "\n"
				}
			default:
				panic(x)
			}
		}
	}()
	m.batch()
	return
}

// batch executes the current frame until the end of the file or EXIT.
func (m *machine) batch() (all bool) {
	for {
		if m.fr().pos >= len(m.lines) {
			return false
		}
		if stop, all := m.one(); stop {
			return all
		}
	}
}

func (m *machine) one() (stop, all bool) {
	defer func() {
		if x := recover(); x != nil {
			switch e := x.(type) {
			case cmdGoto:
				m.gotos++
				if strings.EqualFold(e.label, "eof") {
					m.fr().pos = len(m.lines)
					stop = true
					return
				}
				m.fr().pos = m.find(e.label)
			case cmdExit:
				stop, all = true, e.all
			default:
				panic(x)
			}
		}
	}()
	n := m.parse()
	if n != nil {
		m.exec(n, nil)
	}
	return
}

// labelOf returns the label of a line ("" if it isn't one).
func labelOf(l string) string {
	l = strings.TrimLeft(l, " \t,;=\v\f\xa0")
	if !strings.HasPrefix(l, ":") {
		return ""
	}
	l = l[1:]
	l = strings.TrimLeft(l, " \t,;=")
	end := strings.IndexAny(l, " \t:+,;=&|<>")
	if end >= 0 {
		l = l[:end]
	}
	return l
}

func (m *machine) find(label string) int {
	label = strings.TrimLeft(label, " \t")
	label = strings.TrimPrefix(label, ":")
	if i := strings.IndexAny(label, " \t:+,;="); i >= 0 {
		label = label[:i]
	}
	n := len(m.lines)
	start := m.fr().pos
	for k := 0; k < n; k++ {
		i := (start + k) % n
		if l := labelOf(m.lines[i]); l != "" && strings.EqualFold(l, label) {
			return i + 1
		}
	}
	m.fail("The system cannot find the batch label specified - %s", label)
	return 0
}

// ---------------------------------------------------------------------------------------------------------
// Variables.
// ---------------------------------------------------------------------------------------------------------

func (m *machine) get(n string) (string, bool) {
	v, ok := m.vars[strings.ToLower(n)]
	if !ok {
		switch strings.ToLower(n) {
		case "errorlevel":
			return strconv.Itoa(m.err), true
		case "cd":
			return `C:\work`, true
		case "random":
			return "12345", true
		case "date", "time", "cmdcmdline":
			return "?", true
		case "cmdextversion":
			return "2", true
		}
	}
	return v, ok
}

func (m *machine) setVar(n, v string) {
	k := strings.ToLower(n)
	if v == "" {
		delete(m.vars, k)
		return
	}
	if len(v) > 8191 {
		m.fail("variable too long")
	}
	m.vars[k] = v
}

func (m *machine) setlocal(arg string) {
	c := make(map[string]string, len(m.vars)+1)
	for k, v := range m.vars {
		c[k] = v
	}
	c["\x00delay"] = fmt.Sprint(m.delay)
	m.fr().locals = append(m.fr().locals, c)
	if strings.Contains(strings.ToLower(arg), "enabledelayedexpansion") {
		m.delay = true
	} else if strings.Contains(strings.ToLower(arg), "disabledelayedexpansion") {
		m.delay = false
	}
}

func (m *machine) endlocal() {
	f := m.fr()
	if len(f.locals) == 0 {
		return
	}
	c := f.locals[len(f.locals)-1]
	f.locals = f.locals[:len(f.locals)-1]
	m.delay = c["\x00delay"] == "true"
	delete(c, "\x00delay")
	m.vars = c
}

// modifier applies :~a,b or :x=y to a value.
func (m *machine) modifier(v, mod string) (string, bool) {
	if strings.HasPrefix(mod, "~") {
		p := strings.SplitN(mod[1:], ",", 2)
		num := func(s string) (int, bool) {
			s = strings.TrimSpace(s)
			if s == "" {
				return 0, true
			}
			n, err := strconv.ParseInt(s, 0, 64)
			return int(n), err == nil
		}
		a, ok := num(p[0])
		if !ok {
			return "", false
		}
		n := len(v)
		if a < 0 {
			a = max(0, n+a)
		}
		a = min(a, n)
		e := n
		if len(p) > 1 {
			b, ok := num(p[1])
			if !ok {
				return "", false
			}
			if b < 0 {
				e = max(a, n+b)
			} else {
				e = min(n, a+b)
			}
		}
		return v[a:e], true
	}
	if i := strings.IndexByte(mod, '='); i > 0 {
		from, to := mod[:i], mod[i+1:]
		if strings.HasPrefix(from, "*") && len(from) > 1 {
			k := strings.Index(strings.ToLower(v), strings.ToLower(from[1:]))
			if k < 0 {
				return v, true
			}
			return to + v[k+len(from)-1:], true
		}
		out := strings.Builder{}
		for {
			k := strings.Index(strings.ToLower(v), strings.ToLower(from))
			if k < 0 {
				break
			}
			out.WriteString(v[:k] + to)
			v = v[k+len(from):]
		}
		return out.String() + v, true
	}
	return "", false
}

// percent performs phase 1 (or the second expansion of CALL).
func (m *machine) percent(s string) string {
	if !strings.Contains(s, "%") {
		return s
	}
	if m.lint {
		return strings.ReplaceAll(s, "%%", "%")
	}
	b := strings.Builder{}
	for i := 0; i < len(s); {
		c := s[i]
		if c != '%' {
			b.WriteByte(c)
			i++
			continue
		}
		rest := s[i+1:]
		if rest == "" {
			break
		}
		if rest[0] == '%' {
			b.WriteByte('%')
			i += 2
			continue
		}
		if rest[0] == '*' {
			b.WriteString(strings.Join(m.fr().args[1:], " "))
			i += 2
			continue
		}
		if isDigit(rest[0]) {
			k := int(rest[0] - '0')
			if k < len(m.fr().args) {
				b.WriteString(m.fr().args[k])
			}
			i += 2
			continue
		}
		if len(rest) > 1 && rest[0] == '~' && isDigit(rest[1]) {
			k := int(rest[1] - '0')
			if k < len(m.fr().args) {
				a := m.fr().args[k]
				if len(a) >= 2 && a[0] == '"' && a[len(a)-1] == '"' {
					a = a[1 : len(a)-1]
				}
				b.WriteString(a)
			}
			i += 3
			continue
		}
		end := strings.IndexByte(rest, '%')
		if end < 0 {
			i++ // A single percent sign is removed.
			continue
		}
		name, mod := rest[:end], ""
		hasMod := false
		if _, ok := m.get(name); !ok {
			if k := strings.IndexByte(name, ':'); k > 0 {
				name, mod, hasMod = name[:k], name[k+1:], true
			}
		}
		v, ok := m.get(name)
		if !ok {
			if hasMod {
				i += 1 + len(name) + 1 // %name: is removed, the scan goes on behind it.
				continue
			}
			i += 1 + end + 1
			continue
		}
		if hasMod {
			if w, ok := m.modifier(v, mod); ok {
				v = w
			} else {
				v = "%" + rest[:end+1]
			}
		}
		b.WriteString(v)
		i += 1 + end + 1
	}
	return b.String()
}

// delayed performs phase 5.
func (m *machine) delayed(s string) string {
	if !m.delay || !strings.Contains(s, "!") {
		return s
	}
	b := strings.Builder{}
	for i := 0; i < len(s); {
		c := s[i]
		if c == '^' {
			if i+1 < len(s) {
				b.WriteByte(s[i+1])
			}
			i += 2
			continue
		}
		if c != '!' {
			b.WriteByte(c)
			i++
			continue
		}
		for i+1 < len(s) && s[i+1] == '!' { // Consecutive exclamation marks collapse.
			i++
		}
		rest := s[i+1:]
		end := strings.IndexAny(rest, "!\n")
		if end < 0 || rest[end] != '!' {
			i++
			continue
		}
		name, mod := rest[:end], ""
		hasMod := false
		if _, ok := m.get(name); !ok {
			if k := strings.IndexByte(name, ':'); k > 0 {
				name, mod, hasMod = name[:k], name[k+1:], true
			}
		}
		v, ok := m.get(name)
		if !ok {
			if hasMod {
				b.WriteString(mod) // The variable is undefined: the modifier remains as text.
			}
		} else if hasMod {
			if w, ok := m.modifier(v, mod); ok {
				b.WriteString(w)
			}
		} else {
			b.WriteString(v)
		}
		i += 1 + end + 1
	}
	return b.String()
}

// ---------------------------------------------------------------------------------------------------------
// Parser (phases 1 and 2).
// ---------------------------------------------------------------------------------------------------------

type cmdParser struct {
	m     *machine
	s     string
	i     int
	depth int
	lines int
}

func (p *cmdParser) more() bool {
	f := p.m.fr()
	if f.pos >= len(p.m.lines) {
		return false
	}
	l := p.m.percent(p.m.lines[f.pos])
	f.pos++
	p.s = p.s[:p.i] + l + "\n"
	return true
}

func (p *cmdParser) peek() byte {
	if p.i < len(p.s) {
		return p.s[p.i]
	}
	return 0
}

func (p *cmdParser) blanks() {
	for p.i < len(p.s) && strings.IndexByte(" \t,;=\v\f", p.s[p.i]) >= 0 {
		p.i++
	}
}

// parse reads one compound command.
func (m *machine) parse() *cmdNode {
	f := m.fr()
	for f.pos < len(m.lines) && strings.TrimSpace(m.lines[f.pos]) == "" {
		f.pos++
	}
	if f.pos >= len(m.lines) {
		return nil
	}
	raw := m.lines[f.pos]
	if l := strings.TrimLeft(raw, " \t,;="); strings.HasPrefix(l, ":") {
		f.pos++
		m.labels++
		return nil
	}
	p := &cmdParser{m: m}
	p.more()
	p.blanks()
	if p.peek() == ')' {
		return nil // An unmatched bracket at the begin of a command: the line is ignored.
	}
	return p.seq()
}

func (p *cmdParser) seq() *cmdNode {
	n := p.pipe()
	for {
		p.skipSp()
		if strings.HasPrefix(p.s[p.i:], "&&") {
			p.i += 2
			n = &cmdNode{kind: '&', nodes: []*cmdNode{n, p.pipe()}}
		} else if strings.HasPrefix(p.s[p.i:], "||") {
			p.i += 2
			n = &cmdNode{kind: '|', nodes: []*cmdNode{n, p.pipe()}}
		} else if p.peek() == '&' {
			p.i++
			p.blanks()
			if c := p.peek(); c == '\n' || c == 0 || c == ')' && p.depth > 0 {
				return n
			}
			n = &cmdNode{kind: 'q', nodes: []*cmdNode{n, p.pipe()}}
		} else {
			return n
		}
	}
}

func (p *cmdParser) skipSp() {
	for p.i < len(p.s) && (p.s[p.i] == ' ' || p.s[p.i] == '\t') {
		p.i++
	}
}

func (p *cmdParser) pipe() *cmdNode {
	n := p.cmd()
	p.skipSp()
	for p.peek() == '|' && !strings.HasPrefix(p.s[p.i:], "||") {
		p.i++
		n = &cmdNode{kind: 'p', nodes: []*cmdNode{n, p.cmd()}}
		p.skipSp()
	}
	return n
}

// word reads the upcoming command word without consuming it.
func (p *cmdParser) word() string {
	j := p.i
	for j < len(p.s) && strings.IndexByte(" \t,;=\n&|<>()\"/", p.s[j]) < 0 {
		j++
	}
	return p.s[p.i:j]
}

func (p *cmdParser) cmd() *cmdNode {
	line := p.m.fr().pos - 1
	n := p.cmd1()
	n.line = line
	return n
}

func (p *cmdParser) cmd1() *cmdNode {
	p.blanks()
	for p.peek() == '@' {
		p.i++
		p.blanks()
	}
	switch c := p.peek(); c {
	case '(':
		p.i++
		n := p.block()
		return p.redirs(n)
	case '\n', 0:
		p.m.fail("The syntax of the command is incorrect.")
	case '&', '|', ')', '<', '>':
		if c != '<' && c != '>' {
			p.m.fail("%c was unexpected at this time.", c)
		}
	case ':':
		// A label behind other code on the line (or within a block).
		for p.peek() != '\n' && p.peek() != 0 {
			p.i++
		}
		return &cmdNode{kind: 'l'}
	}
	w := strings.ToLower(p.word())
	switch w {
	case "if":
		p.i += 2
		return p.ifCmd()
	case "for":
		p.i += 3
		return p.forCmd()
	case "rem":
		for p.peek() != '\n' && p.peek() != 0 {
			p.i++
		}
		return &cmdNode{kind: 'l'}
	case "else":
		p.m.fail("'else' is not recognized as an internal or external command")
	}
	return p.simple()
}

func (p *cmdParser) block() *cmdNode {
	n := &cmdNode{kind: 'b'}
	p.depth++
	afterLabel := false
	for {
		p.blanks()
		c := p.peek()
		if c == 0 {
			if !p.more() {
				p.m.fail("unexpected end of file within a block")
			}
			continue
		}
		if c == '\n' {
			p.i++
			if p.i >= len(p.s) && !p.more() {
				p.m.fail("unexpected end of file within a block")
			}
			p.blanks()
			if p.peek() == ':' {
				if afterLabel {
					p.m.fail("label behind a label within a block")
				}
				// A label line (or :: comment) within a block.
				if p.m.lint {
					n.nodes = append(n.nodes, &cmdNode{kind: 'L', text: labelOf(strings.TrimRight(p.s[p.i:], "\n")), line: p.m.fr().pos - 1})
				}
				for p.peek() != '\n' && p.peek() != 0 {
					p.i++
				}
				afterLabel = true
				continue
			}
			continue
		}
		if c == ')' {
			if afterLabel {
				p.m.fail(") was unexpected at this time. (label at the end of a block)")
			}
			if len(n.nodes) == 0 {
				p.m.fail(") was unexpected at this time. (empty block)")
			}
			p.i++
			p.depth--
			return n
		}
		if c == '&' {
			p.m.fail("& was unexpected at this time.")
		}
		afterLabel = false
		n.nodes = append(n.nodes, p.seq())
	}
}

func (p *cmdParser) redirs(n *cmdNode) *cmdNode {
	for {
		p.skipSp()
		j := p.i
		if j < len(p.s) && isDigit(p.s[j]) && j+1 < len(p.s) && (p.s[j+1] == '>' || p.s[j+1] == '<') {
			j++
		}
		if j < len(p.s) && (p.s[j] == '>' || p.s[j] == '<') {
			k := j + 1
			for k < len(p.s) && (p.s[k] == '>' || p.s[k] == '&') {
				k++
			}
			for k < len(p.s) && p.s[k] == ' ' {
				k++
			}
			q := false
			for k < len(p.s) && (q || strings.IndexByte(" \t\n&|)<>", p.s[k]) < 0) {
				if p.s[k] == '"' {
					q = !q
				}
				k++
			}
			n.redir = append(n.redir, p.s[p.i:k])
			p.i = k
			continue
		}
		return n
	}
}

// raw reads text until an unquoted, unescaped special character. Carets outside of quotes are removed.
func (p *cmdParser) raw(stop string, n *cmdNode) string {
	b := strings.Builder{}
	q := false
	for {
		c := p.peek()
		if c == 0 {
			return b.String()
		}
		if c == '\n' {
			return b.String()
		}
		if c == '"' {
			q = !q
			b.WriteByte(c)
			p.i++
			continue
		}
		if q {
			b.WriteByte(c)
			p.i++
			continue
		}
		if c == '^' {
			p.i++
			if p.peek() == '\n' || p.peek() == 0 {
				// Line continuation: the first character of the next line is escaped.
				p.i++
				if p.i > len(p.s) {
					p.i = len(p.s)
				}
				if p.i >= len(p.s) && !p.more() {
					return b.String()
				}
				d := p.peek()
				b.WriteByte(d)
				p.i++
				if d == '\n' && p.i >= len(p.s) {
					p.more()
				}
				continue
			}
			b.WriteByte(p.peek())
			p.i++
			continue
		}
		if c == ')' && p.depth > 0 || strings.IndexByte(stop, c) >= 0 {
			return b.String()
		}
		if (c == '<' || c == '>') && n != nil {
			// A digit in front of a redirection belongs to it.
			t := b.String()
			if len(t) > 0 && isDigit(t[len(t)-1]) && (len(t) == 1 || strings.IndexByte(" \t,;=()", t[len(t)-2]) >= 0) {
				b.Reset()
				b.WriteString(t[:len(t)-1])
				p.i--
			}
			p.redirs(n)
			continue
		}
		b.WriteByte(c)
		p.i++
	}
}

func (p *cmdParser) simple() *cmdNode {
	n := &cmdNode{kind: 's'}
	p.redirs(n)
	n.text = p.raw("&|", n)
	return n
}

// operand reads an operand of IF.
func (p *cmdParser) operand() string {
	p.blanks2()
	b := strings.Builder{}
	q := false
	for {
		c := p.peek()
		if c == 0 || c == '\n' {
			break
		}
		if c == '"' {
			q = !q
		} else if !q {
			if strings.IndexByte(" \t,;=", c) >= 0 {
				break
			}
			if c == '^' {
				p.i++
				c = p.peek()
				if c == 0 || c == '\n' {
					break
				}
			} else if c == '(' || c == ')' || c == '&' || c == '|' || c == '<' || c == '>' {
				if c != '(' || b.Len() == 0 {
					p.m.fail("%c was unexpected at this time.", c)
				}
			}
		}
		b.WriteByte(c)
		p.i++
	}
	if b.Len() == 0 {
		p.m.fail("The syntax of the command is incorrect (IF operand).")
	}
	return b.String()
}

func (p *cmdParser) blanks2() {
	for p.i < len(p.s) && strings.IndexByte(" \t,;", p.s[p.i]) >= 0 {
		p.i++
	}
}

func (p *cmdParser) ifCmd() *cmdNode {
	n := &cmdNode{kind: 'i'}
	for {
		p.blanks2()
		if strings.HasPrefix(strings.ToLower(p.s[p.i:]), "/i ") {
			n.icase = true
			p.i += 3
			continue
		}
		if strings.ToLower(p.word()) == "not" {
			n.not = !n.not
			p.i += 3
			continue
		}
		break
	}
	switch w := strings.ToLower(p.word()); w {
	case "defined", "exist", "errorlevel":
		n.cond = w
		p.i += len(w)
		n.a = p.operand()
	default:
		n.cond = "cmp"
		n.a = p.operand()
		p.blanks2()
		if strings.HasPrefix(p.s[p.i:], "==") {
			p.i += 2
			n.op = "=="
		} else {
			n.op = strings.ToLower(p.word())
			switch n.op {
			case "equ", "neq", "lss", "leq", "gtr", "geq":
			default:
				p.m.fail("%s was unexpected at this time.", p.word())
			}
			p.i += 3
		}
		n.b = p.operand()
	}
	body := p.ifBody()
	n.nodes = []*cmdNode{body}
	p.skipSp()
	if body.kind == 'b' || true {
		if strings.ToLower(p.word()) == "else" && body.kind == 'b' {
			p.i += 4
			n.nodes = append(n.nodes, p.ifBody())
		}
	}
	return n
}

// ifBody: a block, or the remaining commands of the line.
func (p *cmdParser) ifBody() *cmdNode {
	p.blanks()
	if p.peek() == '\n' || p.peek() == 0 {
		p.m.fail("The syntax of the command is incorrect.")
	}
	if p.peek() == '(' {
		return p.cmd()
	}
	w := strings.ToLower(p.word())
	if w == "if" || w == "for" {
		return p.cmd()
	}
	return p.seq()
}

func (p *cmdParser) forCmd() *cmdNode {
	n := &cmdNode{kind: 'f'}
	p.skipSp()
	for p.peek() == '/' {
		j := p.i
		for j < len(p.s) && p.s[j] != ' ' {
			j++
		}
		n.op = strings.ToLower(p.s[p.i:j])
		p.i = j
		p.skipSp()
		if p.peek() == '"' {
			k := strings.IndexByte(p.s[p.i+1:], '"')
			if k < 0 {
				p.m.fail("bad FOR options")
			}
			n.fopt = p.s[p.i+1 : p.i+1+k]
			p.i += k + 2
			p.skipSp()
		}
	}
	if p.peek() != '%' || p.i+1 >= len(p.s) {
		p.m.fail("bad FOR variable")
	}
	n.fvar = p.s[p.i+1]
	p.i += 2
	p.skipSp()
	if strings.ToLower(p.word()) != "in" {
		p.m.fail("IN expected")
	}
	p.i += 2
	p.skipSp()
	if p.peek() != '(' {
		p.m.fail("( expected in FOR")
	}
	p.i++
	q := false
	j := p.i
	for j < len(p.s) && (q || p.s[j] != ')') && p.s[j] != '\n' {
		if p.s[j] == '"' {
			q = !q
		}
		j++
	}
	if j >= len(p.s) || p.s[j] != ')' {
		p.m.fail("bad FOR set")
	}
	n.fset = p.s[p.i:j]
	p.i = j + 1
	p.skipSp()
	if strings.ToLower(p.word()) != "do" {
		p.m.fail("DO expected")
	}
	p.i += 2
	p.blanks()
	n.nodes = []*cmdNode{p.ifBody()}
	return n
}

// ---------------------------------------------------------------------------------------------------------
// Execution.
// ---------------------------------------------------------------------------------------------------------

type forVars map[byte]string

func (f forVars) expand(s string) string {
	if len(f) == 0 || !strings.Contains(s, "%") {
		return s
	}
	b := strings.Builder{}
	for i := 0; i < len(s); i++ {
		if s[i] == '%' && i+1 < len(s) {
			if v, ok := f[s[i+1]]; ok {
				b.WriteString(v)
				i++
				continue
			}
			if s[i+1] == '~' && i+2 < len(s) {
				if v, ok := f[s[i+2]]; ok {
					if len(v) >= 2 && v[0] == '"' && v[len(v)-1] == '"' {
						v = v[1 : len(v)-1]
					}
					b.WriteString(v)
					i += 2
					continue
				}
			}
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

func (m *machine) tick() {
	m.steps++
	if m.steps > m.max || m.out.Len() > 4<<20 {
		m.fail("limit")
	}
}

func (m *machine) exec(n *cmdNode, fv forVars) {
	m.tick()
	if m.files != nil {
		for i, r := range n.redir {
			r = m.delayed(fv.expand(r))
			t := strings.TrimLeft(r, "1>")
			app := strings.HasPrefix(strings.TrimLeft(r, "1"), ">>")
			t = strings.Trim(strings.TrimSpace(t), `"`)
			if strings.IndexByte("1>", r[0]) < 0 || strings.ToLower(t) == "nul" || strings.HasPrefix(t, "&") {
				continue
			}
			if t == "" || len(n.redir) > 1 && i > 0 {
				m.fail("model: redirection %s", r)
			}
			c := *n
			c.redir = nil
			save := m.out.String()
			m.out.Reset()
			m.exec(&c, fv)
			out := m.out.String()
			m.out.Reset()
			m.out.WriteString(save)
			if app {
				out = m.files[t] + out
			}
			m.files[t] = out
			return
		}
	}
	if len(n.redir) > 0 {
		for _, r := range n.redir {
			t := strings.ToLower(strings.TrimLeft(r, "0123456789<>& "))
			if t != "nul" && !strings.HasPrefix(strings.TrimSpace(r), "2>&1") && !strings.HasPrefix(strings.TrimSpace(r), "1>&2") && !strings.HasPrefix(strings.TrimSpace(r), ">&2") {
				m.fail("model: redirection %s", r)
			}
		}
		save := m.out.String()
		for _, r := range n.redir {
			if strings.Contains(r, ">") && !strings.HasPrefix(strings.TrimSpace(r), "2") {
				defer func() { m.out.Reset(); m.out.WriteString(save) }()
				break
			}
		}
	}
	switch n.kind {
	case 'l':
	case 'b', 'q':
		for _, x := range n.nodes {
			m.exec(x, fv)
		}
	case '&':
		m.exec(n.nodes[0], fv)
		if m.err == 0 {
			m.exec(n.nodes[1], fv)
		}
	case '|':
		m.exec(n.nodes[0], fv)
		if m.err != 0 {
			m.exec(n.nodes[1], fv)
		}
	case 'p':
		if m.app == nil {
			m.fail("model: pipe")
		}
		// Both sides run in processes of their own: variables keep their values.
		out := m.sub(func() { m.exec(n.nodes[0], fv) })
		pin := m.pin
		m.pin = out
		out = m.sub(func() { m.exec(n.nodes[1], fv) })
		m.pin = pin
		m.out.WriteString(out)
	case 'i':
		if m.cond(n, fv) != n.not {
			m.exec(n.nodes[0], fv)
		} else if len(n.nodes) > 1 {
			m.exec(n.nodes[1], fv)
		}
	case 'f':
		m.forLoop(n, fv)
	case 's':
		m.simple(n.text, fv)
	}
}

func cmdNum(s string) (int64, bool) {
	t := s
	neg := false
	if strings.HasPrefix(t, "-") || strings.HasPrefix(t, "+") {
		neg = t[0] == '-'
		t = t[1:]
	}
	if t == "" {
		return 0, false
	}
	base := 10
	if len(t) > 1 && t[0] == '0' {
		base = 8
		t = t[1:]
		if t[0] == 'x' || t[0] == 'X' {
			base = 16
			t = t[1:]
		}
	}
	v, err := strconv.ParseUint(t, base, 63)
	if err != nil {
		return 0, false
	}
	x := int64(v)
	if neg {
		x = -x
	}
	// Saturation like strtol with 32 bits.
	if x > 2147483647 {
		x = 2147483647
	}
	if x < -2147483648 {
		x = -2147483648
	}
	return x, true
}

func (m *machine) cond(n *cmdNode, fv forVars) bool {
	a := m.delayed(fv.expand(n.a))
	switch n.cond {
	case "defined":
		_, ok := m.get(strings.Trim(a, `"`))
		return ok
	case "exist":
		_, ok := m.files[strings.Trim(a, `"`)]
		return ok
	case "errorlevel":
		v, _ := cmdNum(a)
		return int64(m.err) >= v
	}
	b := m.delayed(fv.expand(n.b))
	if n.op == "==" {
		if n.icase {
			return strings.EqualFold(a, b)
		}
		return a == b
	}
	x, ok1 := cmdNum(a)
	y, ok2 := cmdNum(b)
	r := 0
	if ok1 && ok2 {
		switch {
		case x < y:
			r = -1
		case x > y:
			r = 1
		}
	} else {
		if n.icase {
			a, b = strings.ToLower(a), strings.ToLower(b)
		}
		r = cmdCollate(a, b)
	}
	switch n.op {
	case "equ":
		return r == 0
	case "neq":
		return r != 0
	case "lss":
		return r < 0
	case "leq":
		return r <= 0
	case "gtr":
		return r > 0
	}
	return r >= 0
}

// cmdCollate: string comparison of IF (only equality is used by the emitted code; order follows the letters).
func cmdCollate(a, b string) int {
	if a == b {
		return 0
	}
	la, lb := strings.ToLower(a), strings.ToLower(b)
	if la != lb {
		return strings.Compare(la, lb)
	}
	return -strings.Compare(a, b)
}

// sub runs something as a process of its own and returns its output.
func (m *machine) sub(f func()) string {
	save, vars, delay := m.out.String(), m.vars, m.delay
	m.vars = map[string]string{}
	for k, v := range vars {
		m.vars[k] = v
	}
	m.out.Reset()
	defer func() {
		if x := recover(); x != nil {
			if e, ok := x.(cmdErr); ok {
				panic(e)
			}
			panic(cmdErr{"model: jump out of a process"})
		}
	}()
	f()
	out := m.out.String()
	m.out.Reset()
	m.out.WriteString(save)
	m.vars, m.delay = vars, delay
	return out
}

// command runs the command of a FOR /F loop and returns its output.
func (m *machine) command(s string) string {
	if m.app == nil && m.files == nil {
		m.fail("model: for /f (%s)", s)
	}
	err := m.err
	m.err = 0
	out := m.sub(func() {
		delay := false
		l := strings.ToLower(s)
		if l == "cmd" || strings.HasPrefix(l, "cmd ") || strings.HasPrefix(l, "cmd.exe ") {
			s = strings.TrimSpace(s[strings.IndexByte(s+" ", ' '):])
			for {
				l = strings.ToLower(s)
				opt := l
				if k := strings.IndexByte(l, ' '); k >= 0 {
					opt = l[:k]
				}
				switch opt {
				case "/v:on", "/v":
					delay = true
				case "/v:off", "/d", "/q", "/e:on", "/s":
				case "/c":
				default:
					m.fail("model: for /f (%s)", s)
				}
				s = strings.TrimSpace(s[len(opt):])
				if opt == "/c" {
					break
				}
			}
			if !strings.HasPrefix(s, "\"") || !strings.HasSuffix(s, "\"") || len(s) < 2 {
				m.fail("model: for /f (%s)", s)
			}
			s = s[1 : len(s)-1]
		} else if strings.Contains(s, "^") {
			m.fail("model: for /f (%s)", s)
		}
		m.delay = delay
		p := &cmdParser{m: m, s: s + "\n"}
		p.blanks()
		n := p.seq()
		if strings.TrimSpace(p.s[p.i:]) != "" {
			m.fail("model: for /f (%s)", s)
		}
		m.exec(n, nil)
	})
	m.err = err
	return out
}

// program runs an external program.
func (m *machine) program(t string) {
	if m.app == nil {
		m.fail("model: call %s", t)
	}
	if strings.ContainsAny(t, "%^!\n") {
		m.fail("model: program %q", t)
	}
	args := []string{}
	b := strings.Builder{}
	q, has := false, false
	for i := 0; i <= len(t); i++ {
		if i == len(t) || !q && (t[i] == ' ' || t[i] == '\t') {
			if has {
				args = append(args, b.String())
				b.Reset()
				has = false
			}
			continue
		}
		if t[i] == '\\' {
			m.fail("model: program %q", t)
		}
		has = true
		if t[i] == '"' {
			q = !q
			continue
		}
		b.WriteByte(t[i])
	}
	if len(args) == 0 {
		m.fail("model: program %q", t)
	}
	switch strings.TrimSuffix(strings.ToLower(args[0]), ".exe") {
	case "cmd", "find", "findstr", "more", "where", "type", "del", "copy", "powershell", "sort":
		m.fail("model: program %q", t)
	}
	out, code := m.app(args[0], args[1:], m.pin)
	m.out.WriteString(out)
	m.err = code
}

func (m *machine) forLoop(n *cmdNode, fv forVars) {
	set := m.delayed(fv.expand(n.fset))
	run := func(v string) {
		c := forVars{}
		for k, x := range fv {
			c[k] = x
		}
		c[n.fvar] = v
		m.exec(n.nodes[0], c)
	}
	switch n.op {
	case "/f":
		opt := strings.ToLower(n.fopt)
		use := strings.Contains(opt, "usebackq")
		s := strings.TrimSpace(set)
		var text string
		switch {
		case !use && len(s) >= 2 && s[0] == '"' && s[len(s)-1] == '"', use && len(s) >= 2 && s[0] == '\'' && s[len(s)-1] == '\'':
			text = s[1 : len(s)-1]
		case use && len(s) >= 2 && s[0] == '"':
			f, ok := m.files[s[1:len(s)-1]]
			if !ok {
				m.fail("The system cannot find the file %s.", s)
			}
			text = f
		case !use && len(s) >= 2 && s[0] == '\'' && s[len(s)-1] == '\'':
			text = m.command(s[1 : len(s)-1])
		default:
			m.fail("model: for /f (%s)", s)
		}
		delims := " \t"
		if k := strings.Index(opt, "delims="); k >= 0 {
			d := n.fopt[k+7:]
			if j := strings.IndexByte(d, ' '); j >= 0 {
				d = d[:j]
			}
			delims = d
		}
		eol := byte(';')
		for _, l := range strings.Split(text, "\n") {
			if l == "" {
				continue
			}
			t := strings.TrimLeft(l, delims)
			if delims == "" {
				t = l
			}
			if t == "" || t[0] == eol {
				continue
			}
			if delims != "" {
				if k := strings.IndexAny(t, delims); k >= 0 {
					t = t[:k]
				}
			}
			run(t)
		}
	case "/l":
		var a, s, e int64
		p := strings.FieldsFunc(set, func(r rune) bool { return strings.ContainsRune(", ;=", r) })
		if len(p) != 3 {
			m.fail("for /l")
		}
		a, _ = cmdNum(p[0])
		s, _ = cmdNum(p[1])
		e, _ = cmdNum(p[2])
		for x := a; s >= 0 && x <= e || s < 0 && x >= e; x += s {
			m.tick()
			run(strconv.FormatInt(x, 10))
		}
	case "":
		for _, w := range strings.FieldsFunc(set, func(r rune) bool { return strings.ContainsRune(", ;=\t", r) }) {
			run(w)
		}
	default:
		m.fail("model: for %s", n.op)
	}
}

// cmdArgs splits arguments of CALL.
func cmdArgs(s string) []string {
	out := []string{}
	b := strings.Builder{}
	q := false
	has := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '"' {
			q = !q
		} else if !q && strings.IndexByte(" \t,;=", c) >= 0 {
			if has {
				out = append(out, b.String())
				b.Reset()
				has = false
			}
			continue
		}
		b.WriteByte(c)
		has = true
	}
	if has {
		out = append(out, b.String())
	}
	return out
}

func (m *machine) simple(text string, fv forVars) {
	text = fv.expand(text)
	// The command token is determined in phase 2.
	t := strings.TrimLeft(text, " \t,;=")
	j := 0
	for j < len(t) && strings.IndexByte(" \t,;=/\\.:+([]\"", t[j]) < 0 {
		j++
	}
	w := strings.ToLower(t[:j])
	rest := t[j:]
	if w == "" && strings.HasPrefix(t, "!") && m.app == nil {
		m.fail("model: command %s", t)
	}
	switch w {
	case "echo":
		rest = m.delayed(rest)
		switch {
		case rest == "":
			m.fail("model: ECHO without arguments")
		case strings.HasPrefix(rest, "(") || strings.HasPrefix(rest, ".") || strings.HasPrefix(rest, ":") || strings.HasPrefix(rest, "/") || strings.HasPrefix(rest, "\\") || strings.HasPrefix(rest, "+") || strings.HasPrefix(rest, "[") || strings.HasPrefix(rest, "]"):
			m.out.WriteString(rest[1:] + "\n")
		default:
			a := rest
			if a != "" {
				a = a[1:]
			}
			switch strings.ToLower(strings.TrimSpace(a)) {
			case "off", "on":
				return
			case "":
				m.out.WriteString("ECHO is off.\n")
				return
			}
			m.out.WriteString(a + "\n")
		}
	case "set":
		m.set(m.delayed(rest))
	case "goto":
		l := strings.TrimSpace(m.delayed(rest))
		l = strings.TrimPrefix(l, ":")
		panic(cmdGoto{l})
	case "call":
		m.call(m.delayed(rest), fv)
	case "exit":
		a := strings.Fields(strings.ToLower(m.delayed(rest)))
		all := true
		if len(a) > 0 && a[0] == "/b" {
			all = false
			a = a[1:]
		}
		if len(a) > 0 {
			v, ok := cmdNum(a[0])
			if !ok {
				m.fail("model: exit status %q", a[0])
			}
			m.err = int(v)
		}
		panic(cmdExit{all})
	case "setlocal":
		m.setlocal(m.delayed(rest))
	case "endlocal":
		m.endlocal()
	case "cls", "title", "pause", "chcp", "color":
	case "verify", "break":
	default:
		if strings.HasSuffix(w, ":") {
			return
		}
		if m.app != nil {
			m.program(m.delayed(t))
			return
		}
		m.fail("'%s' is not recognized as an internal or external command", w)
	}
}

func (m *machine) call(a string, fv forVars) {
	a = m.percent(a)
	a = strings.TrimLeft(a, " \t,;=")
	if !strings.HasPrefix(a, ":") {
		w := strings.ToLower(a)
		if strings.HasPrefix(w, "set ") || strings.HasPrefix(w, "echo") || strings.HasPrefix(w, "goto") || strings.HasPrefix(w, "exit") {
			m.simple(a, nil)
			return
		}
		m.program(a)
		return
	}
	if strings.Contains(a, "^") {
		m.fail("model: caret within the arguments of CALL")
	}
	args := cmdArgs(a[1:])
	label := args[0]
	m.calls++
	if len(m.frames) > 400 {
		m.fail("call recursion")
	}
	pos := m.fr().pos
	f := &cmdFrame{args: args, pos: pos}
	m.frames = append(m.frames, f)
	f.pos = m.find(label)
	all := m.batch()
	for len(f.locals) > 0 {
		m.endlocal()
	}
	m.frames = m.frames[:len(m.frames)-1]
	if all {
		panic(cmdExit{true})
	}
}

func (m *machine) set(s string) {
	s = strings.TrimLeft(s, " \t,;=")
	low := strings.ToLower(s)
	if strings.HasPrefix(low, "/a") {
		e := strings.TrimSpace(s[2:])
		if strings.HasPrefix(e, `"`) {
			e = e[1:]
			if k := strings.LastIndexByte(e, '"'); k >= 0 {
				e = e[:k]
			}
		}
		m.arith(e)
		return
	}
	if strings.HasPrefix(low, "/p") {
		e := strings.TrimLeft(s[2:], " \t")
		if strings.HasPrefix(e, `"`) {
			e = e[1:]
			if k := strings.LastIndexByte(e, '"'); k >= 0 {
				e = e[:k]
			}
		}
		k := strings.IndexByte(e, '=')
		if k < 0 {
			m.fail("set /p")
		}
		if len(m.stdin) == 0 {
			m.err = 1
			return
		}
		l := m.stdin[0]
		m.stdin = m.stdin[1:]
		if l == "" {
			m.err = 1
			return
		}
		m.err = 0
		m.setVar(e[:k], l)
		return
	}
	if strings.HasPrefix(s, `"`) {
		s = s[1:]
		if k := strings.LastIndexByte(s, '"'); k >= 0 {
			s = s[:k]
		}
	}
	k := strings.IndexByte(s, '=')
	if k <= 0 {
		m.fail("model: set %q", s)
	}
	m.setVar(s[:k], s[k+1:])
}

// arith: SET /A with C semantics on 32 bits.
func (m *machine) arith(s string) {
	p := &arithP{m: m, s: strings.ReplaceAll(strings.ReplaceAll(s, " ", ""), `"`, "")}
	p.comma()
	if p.i < len(p.s) {
		m.fail("Missing operator. (set /A %s)", s)
	}
}

type arithP struct {
	m *machine
	s string
	i int
}

func (p *arithP) has(o string) bool {
	if strings.HasPrefix(p.s[p.i:], o) {
		p.i += len(o)
		return true
	}
	return false
}

func (p *arithP) comma() int32 {
	v := p.assign()
	for p.has(",") {
		v = p.assign()
	}
	return v
}

func (p *arithP) ident() string {
	j := p.i
	for j < len(p.s) && strings.IndexByte("()!~-+*/%&^|<>,=", p.s[j]) < 0 {
		j++
	}
	return p.s[p.i:j]
}

func (p *arithP) assign() int32 {
	start := p.i
	n := p.ident()
	if n != "" && !isDigit(n[0]) {
		p.i += len(n)
		for _, o := range []string{"<<=", ">>=", "*=", "/=", "%=", "+=", "-=", "&=", "^=", "|=", "="} {
			if p.has(o) {
				v := p.assign()
				if o != "=" {
					v = p.op(o[:len(o)-1], p.value(n), v)
				}
				p.m.setVar(n, strconv.Itoa(int(v)))
				return v
			}
		}
		p.i = start
	}
	return p.or()
}

func (p *arithP) op(o string, a, b int32) int32 {
	switch o {
	case "+":
		return a + b
	case "-":
		return a - b
	case "*":
		return a * b
	case "/", "%":
		if b == 0 {
			p.m.fail("Divide by zero error.")
		}
		if a == -2147483648 && b == -1 {
			p.m.fail("overflow of a division")
		}
		if o == "/" {
			return a / b
		}
		return a % b
	case "<<":
		return a << uint(b&31)
	case ">>":
		return a >> uint(b&31)
	case "&":
		return a & b
	case "^":
		return a ^ b
	}
	return a | b
}

func (p *arithP) level(ops []string, next func() int32) int32 {
	v := next()
	for {
		found := false
		for _, o := range ops {
			if strings.HasPrefix(p.s[p.i:], o) && !strings.HasPrefix(p.s[p.i+len(o):], "=") {
				p.i += len(o)
				v = p.op(o, v, next())
				found = true
				break
			}
		}
		if !found {
			return v
		}
	}
}

func (p *arithP) or() int32  { return p.level([]string{"|"}, p.xor) }
func (p *arithP) xor() int32 { return p.level([]string{"^"}, p.and) }
func (p *arithP) and() int32 { return p.level([]string{"&"}, p.shift) }
func (p *arithP) shift() int32 {
	return p.level([]string{"<<", ">>"}, p.add)
}
func (p *arithP) add() int32 { return p.level([]string{"+", "-"}, p.mul) }
func (p *arithP) mul() int32 { return p.level([]string{"*", "/", "%"}, p.unary) }

func (p *arithP) unary() int32 {
	switch {
	case p.has("-"):
		return -p.unary()
	case p.has("+"):
		return p.unary()
	case p.has("~"):
		return ^p.unary()
	case p.has("!"):
		if p.unary() == 0 {
			return 1
		}
		return 0
	case p.has("("):
		v := p.comma()
		if !p.has(")") {
			p.m.fail("Unbalanced parenthesis. (set /A %s)", p.s)
		}
		return v
	}
	n := p.ident()
	if n == "" {
		p.m.fail("Missing operand. (set /A %s)", p.s)
	}
	p.i += len(n)
	if isDigit(n[0]) {
		base := 10
		t := n
		if len(t) > 1 && t[0] == '0' {
			base = 8
			t = t[1:]
			if t[0] == 'x' || t[0] == 'X' {
				base, t = 16, t[1:]
			}
		}
		v, err := strconv.ParseInt(t, base, 64)
		if err != nil || v > 2147483647 {
			p.m.fail("Invalid number. Numeric constants are limited to 32-bits. (set /A %s)", p.s)
		}
		return int32(v)
	}
	return p.value(n)
}

func (p *arithP) value(n string) int32 {
	s, ok := p.m.get(n)
	if !ok {
		return 0
	}
	v, ok := cmdNum(s)
	if !ok {
		return 0
	}
	return int32(v)
}
