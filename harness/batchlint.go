package main

import (
	"fmt"
	"strings"
)

// ---------------------------------------------------------------------------------------------------------
// Structural monitor for batch scripts: reads the whole text with the parser of the cmd.exe model (without
// executing it) and checks brackets, labels, jumps, calls and helper routines.
// ---------------------------------------------------------------------------------------------------------

type lintRegion struct {
	from, to int // indexes of the skipping jump and of the label behind the region
	entry    string
	name     string
	helper   bool
	ret      string // last label of the region
	calls    map[string]bool
}

type lintStep struct {
	list  []*cmdNode
	idx   int
	owner *cmdNode // the IF whose branch the list is (nil at top level)
}

type lintJump struct {
	label string
	path  []lintStep
	line  int
	call  bool
}

type LintStats struct {
	Gotos, Calls, Labels, Loops, Regions, Helpers, Commands int
}

func lintBatch(script string) (bad string, st LintStats) {
	m := newMachine(script, "")
	m.lint = true
	defer func() {
		if x := recover(); x != nil {
			if e, ok := x.(cmdErr); ok {
				bad = fmt.Sprintf("line %d: %s", m.fr().pos, e.msg)
				return
			}
			panic(x)
		}
	}()
	top := []*cmdNode{}
	for m.fr().pos < len(m.lines) {
		l := m.lines[m.fr().pos]
		if strings.TrimSpace(l) == "" {
			m.fr().pos++
			continue
		}
		if strings.HasPrefix(strings.TrimLeft(l, " \t,;="), ":") {
			if n := labelOf(l); n != "" {
				top = append(top, &cmdNode{kind: 'L', text: n, line: m.fr().pos})
			}
			m.fr().pos++
			continue
		}
		line := m.fr().pos
		n := m.parse()
		if n == nil {
			return fmt.Sprintf("line %d: unmatched closing bracket", line+1), st
		}
		n.line = line
		top = append(top, n)
	}
	// Labels.
	labels := map[string]int{} // line
	topAt := map[string]int{}  // index within the top level list
	var visit func(list []*cmdNode, f func(n *cmdNode))
	visit = func(list []*cmdNode, f func(n *cmdNode)) {
		for _, n := range list {
			f(n)
			visit(n.nodes, f)
		}
	}
	visit(top, func(n *cmdNode) {
		if n.kind == 's' {
			st.Commands++
		}
		if n.kind != 'L' || bad != "" {
			return
		}
		k := strings.ToLower(n.text)
		if k == "" {
			return
		}
		st.Labels++
		if at, ok := labels[k]; ok {
			bad = fmt.Sprintf("label %s is defined twice (lines %d and %d)", n.text, at+1, n.line+1)
		}
		labels[k] = n.line
	})
	if bad != "" {
		return
	}
	for i, n := range top {
		if n.kind == 'L' {
			topAt[strings.ToLower(n.text)] = i
		}
	}
	// Jumps and calls.
	jumps := []lintJump{}
	var walk func(list []*cmdNode, owner *cmdNode, path []lintStep)
	simple := func(n *cmdNode, path []lintStep) {
		f := strings.Fields(n.text)
		if len(f) == 0 {
			return
		}
		w := strings.ToLower(f[0])
		if i := strings.IndexByte(w, ':'); i > 0 {
			f = append([]string{f[0][:i], f[0][i:]}, f[1:]...)
			w = w[:i]
		}
		if w != "goto" && w != "call" {
			return
		}
		if len(f) < 2 {
			bad = fmt.Sprintf("line %d: %s without a target", n.line+1, w)
			return
		}
		t := f[1]
		if w == "call" && !strings.HasPrefix(t, ":") {
			return // a program
		}
		t = strings.TrimPrefix(t, ":")
		if strings.ContainsAny(t, "%!") {
			return // computed target
		}
		jumps = append(jumps, lintJump{strings.ToLower(t), append([]lintStep{}, path...), n.line, w == "call"})
	}
	walk = func(list []*cmdNode, owner *cmdNode, path []lintStep) {
		for i, n := range list {
			p := append(append([]lintStep{}, path...), lintStep{list, i, owner})
			switch n.kind {
			case 's':
				simple(n, p)
			case 'i':
				var chain func(x *cmdNode)
				chain = func(x *cmdNode) {
					for k, b := range x.nodes {
						switch {
						case b.kind == 'b':
							walk(b.nodes, n, p)
						case b.kind == 'i' && k == 1: // else if
							chain(b)
						default:
							walk([]*cmdNode{b}, n, p)
						}
					}
				}
				chain(n)
			default:
				walk(n.nodes, owner, p)
			}
		}
	}
	walk(top, nil, nil)
	if bad != "" {
		return
	}
	// Regions of functions and helper routines.
	regions := []*lintRegion{}
	for i := 0; i+1 < len(top); i++ {
		n := top[i]
		if n.kind != 's' || top[i+1].kind != 'L' {
			continue
		}
		f := strings.Fields(n.text)
		if len(f) != 2 || !strings.EqualFold(f[0], "goto") {
			continue
		}
		j, ok := topAt[strings.ToLower(strings.TrimPrefix(f[1], ":"))]
		if !ok || j <= i+1 {
			continue
		}
		r := &lintRegion{from: i, to: j, entry: strings.ToLower(top[i+1].text), name: top[i+1].text, calls: map[string]bool{}}
		r.helper = strings.HasPrefix(r.name, "_")
		for k := j - 1; k > i+1; k-- {
			if top[k].kind == 'L' {
				r.ret = strings.ToLower(top[k].text)
				break
			}
		}
		if l := top[j-1]; l.kind != 's' || !strings.HasPrefix(strings.ToLower(strings.Join(strings.Fields(l.text), " ")), "exit /b") {
			return fmt.Sprintf("line %d: execution runs out of routine %s", top[j].line+1, r.name), st
		}
		regions = append(regions, r)
		st.Regions++
		i = j - 1
	}
	regionOf := func(k int) *lintRegion {
		for _, r := range regions {
			if k > r.from && k < r.to {
				return r
			}
		}
		return nil
	}
	byEntry := map[string]*lintRegion{}
	for _, r := range regions {
		byEntry[r.entry] = r
	}
	global := map[string]bool{}
	end := ""
	for i := len(top) - 1; i >= 0; i-- {
		if top[i].kind == 'L' {
			end = strings.ToLower(top[i].text)
			break
		}
	}
	isSkip := map[*cmdNode]bool{}
	for _, r := range regions {
		isSkip[top[r.from]] = true
	}
	for _, j := range jumps {
		at := j.path[0].idx
		reg := regionOf(at)
		where := fmt.Sprintf("line %d: ", j.line+1)
		if j.label == "eof" && !j.call {
			continue
		}
		tl, ok := labels[j.label]
		if !ok {
			return where + "label " + j.label + " is not defined", st
		}
		if j.call {
			st.Calls++
			if byEntry[j.label] == nil {
				return where + "call of " + j.label + ", which is not a routine", st
			}
			if reg != nil {
				reg.calls[j.label] = true
			} else {
				global[j.label] = true
			}
			continue
		}
		st.Gotos++
		if isSkip[top[at]] && len(j.path) == 1 {
			continue
		}
		// The target has to be on the level of an ancestor.
		lev := -1
		for k := range j.path {
			for _, n := range j.path[k].list {
				if n.kind == 'L' && n.line == tl {
					lev = k
				}
			}
		}
		if lev < 0 {
			return where + "jump to " + j.label + " into another construct", st
		}
		if lev == 0 {
			if j.label == end {
				continue // End of the program.
			}
			if regionOf(topAt[j.label]) != reg {
				return where + "jump to " + j.label + " leaves its routine", st
			}
			if reg != nil && j.label == reg.ret {
				continue // Return.
			}
		}
		if reg != nil && reg.helper {
			continue // The helper routines are fixed texts.
		}
		// Innermost loop whose body contains the jump: a block whose last command jumps to a label in front of the block.
		loop := -1
		head := ""
		for k := len(j.path) - 1; k >= 1; k-- {
			if h := loopHead(j.path, k); h != "" {
				loop, head = k, h
				break
			}
		}
		list := j.path[lev].list
		ti := -1
		for i, n := range list {
			if n.kind == 'L' && n.line == tl {
				ti = i
			}
		}
		if ti < j.path[lev].idx {
			if loop < 0 || head != j.label || loop != lev+1 {
				return where + "backward jump to " + j.label + ", which is not the head of the innermost loop", st
			}
			last := j.path[loop].list
			if j.path[loop].idx == len(last)-1 && len(j.path) == loop+1 {
				st.Loops++
			}
			continue
		}
		// Forward: the label follows the construct which contains the jump.
		if lev == len(j.path)-1 || ti != j.path[lev].idx+1 {
			return where + "forward jump to " + j.label + " skips code", st
		}
		switch {
		case loop == lev+1:
			// End of the innermost loop.
		case len(j.path) == lev+2 && j.path[lev+1].idx == len(j.path[lev+1].list)-1 && loop != lev+1:
			// End of the branch.
		default:
			return where + "jump to " + j.label + " leaves the innermost loop or branch it belongs to", st
		}
	}
	// Helper routines exactly if used.
	used := map[string]bool{}
	var mark func(n string)
	mark = func(n string) {
		if used[n] {
			return
		}
		used[n] = true
		for k := range byEntry[n].calls {
			mark(k)
		}
	}
	for n := range global {
		mark(n)
	}
	for _, r := range regions {
		if !r.helper {
			for n := range r.calls {
				mark(n)
			}
		}
	}
	for _, r := range regions {
		if r.helper {
			st.Helpers++
			if !used[r.entry] {
				return "helper routine " + r.name + " is contained but not used", st
			}
		}
	}
	return
}

// loopHead returns the label to which the branch at path[k] jumps back, if it is the body of a loop.
func loopHead(path []lintStep, k int) string {
	l := path[k].list
	n := l[len(l)-1]
	if n.kind != 's' {
		return ""
	}
	f := strings.Fields(n.text)
	if len(f) != 2 || !strings.EqualFold(f[0], "goto") {
		return ""
	}
	t := strings.ToLower(strings.TrimPrefix(f[1], ":"))
	up := path[k-1]
	for i := 0; i < up.idx; i++ {
		if up.list[i].kind == 'L' && strings.EqualFold(up.list[i].text, t) {
			return t
		}
	}
	return ""
}
