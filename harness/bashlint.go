package main

import (
	"fmt"
	"os/exec"
	"path/filepath"
	"strings"
)

// ---------------------------------------------------------------------------------------------------------
// Structural monitor for bash scripts: finds the words at command positions and the function definitions.
// ---------------------------------------------------------------------------------------------------------

var bashKeywords = setOf("if then elif else fi while until do done for case in esac { } ! [[ ]] function select time coproc")
var bashBuiltins = setOf(". : [ alias bg bind break builtin caller cd command compgen complete compopt continue declare dirs disown echo enable eval exec exit export false fc fg getopts hash help history jobs kill let local logout mapfile popd printf pushd pwd read readarray readonly return set shift shopt source suspend test times trap true type typeset ulimit umask unalias unset wait")

func setOf(s string) map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields(s) {
		m[w] = true
	}
	return m
}

type bashScan struct {
	s     string
	i     int
	words []string       // words at command positions
	defs  map[string]int // function definitions
}

func (b *bashScan) rest() string { return b.s[b.i:] }

// list scans commands until the closing character (0: end of text).
func (b *bashScan) list(end byte) {
	atCmd := true
	for b.i < len(b.s) {
		c := b.s[b.i]
		switch {
		case c == end && end != 0:
			b.i++
			return
		case c == ' ' || c == '\t':
			b.i++
		case c == '\n' || c == ';' || c == '&' || c == '|':
			b.i++
			atCmd = true
		case c == '#':
			for b.i < len(b.s) && b.s[b.i] != '\n' {
				b.i++
			}
		case c == '>' || c == '<':
			for b.i < len(b.s) && strings.IndexByte("<>&", b.s[b.i]) >= 0 {
				b.i++
			}
			for b.i < len(b.s) && b.s[b.i] == ' ' {
				b.i++
			}
			b.word()
		case strings.HasPrefix(b.rest(), "(("):
			b.i += 2
			b.arith()
			atCmd = false
		case c == '(':
			b.i++
			b.list(')')
			atCmd = false
		case c == ')':
			b.i++ // end of a case pattern
			atCmd = true
		default:
			w := b.word()
			if !atCmd {
				continue
			}
			if strings.HasPrefix(b.rest(), "()") {
				b.i += 2
				b.defs[w]++
				continue
			}
			if k := strings.IndexByte(w, '='); k > 0 && isIdent(w[:k]) {
				continue // an assignment in front of a command
			}
			if w == "case" || w == "for" || w == "select" {
				atCmd = false
				continue
			}
			if bashKeywords[w] {
				continue
			}
			b.words = append(b.words, w)
			atCmd = false
		}
	}
}

func isIdent(s string) bool {
	for i := 0; i < len(s); i++ {
		if !isLetter(s[i]) && (i == 0 || !isDigit(s[i])) {
			return false
		}
	}
	return s != ""
}

// word scans a word including its quoted parts and returns it in its source form.
func (b *bashScan) word() string {
	start := b.i
	for b.i < len(b.s) {
		c := b.s[b.i]
		switch {
		case strings.IndexByte(" \t\n;&|<>()", c) >= 0:
			return b.s[start:b.i]
		case c == '\\':
			b.i += 2
		case c == '\'':
			b.i++
			for b.i < len(b.s) && b.s[b.i] != '\'' {
				b.i++
			}
			b.i++
		case c == '"':
			b.i++
			b.dquote()
		case c == '`':
			b.i++
			b.list('`')
		case c == '$':
			b.dollar()
		case c == '=' && strings.HasPrefix(b.rest(), "=("):
			b.i += 2
			for b.i < len(b.s) && b.s[b.i] != ')' {
				n := b.i
				b.word()
				if b.i == n {
					b.i++
				}
			}
			b.i++
		default:
			b.i++
		}
	}
	if b.i > len(b.s) {
		b.i = len(b.s)
	}
	return b.s[start:b.i]
}

func (b *bashScan) dollar() {
	r := b.rest()
	switch {
	case strings.HasPrefix(r, "$(("):
		b.i += 3
		b.arith()
	case strings.HasPrefix(r, "$("):
		b.i += 2
		b.list(')')
	case strings.HasPrefix(r, "${"):
		b.i += 2
		b.brace()
	case strings.HasPrefix(r, "$'"):
		b.i += 2
		for b.i < len(b.s) && b.s[b.i] != '\'' {
			if b.s[b.i] == '\\' {
				b.i++
			}
			b.i++
		}
		b.i++
	default:
		b.i++
		if b.i < len(b.s) && strings.IndexByte("?$!#@*-0123456789_", b.s[b.i]) >= 0 {
			b.i++
		}
	}
}

func (b *bashScan) brace() {
	for b.i < len(b.s) {
		switch c := b.s[b.i]; {
		case c == '}':
			b.i++
			return
		case c == '\\':
			b.i += 2
		case c == '"':
			b.i++
			b.dquote()
		case c == '$':
			b.dollar()
		default:
			b.i++
		}
	}
}

func (b *bashScan) arith() {
	depth := 0
	for b.i < len(b.s) {
		switch c := b.s[b.i]; {
		case c == '$':
			b.dollar()
		case c == '(':
			depth++
			b.i++
		case c == ')':
			b.i++
			if depth == 0 {
				if b.i < len(b.s) && b.s[b.i] == ')' {
					b.i++
				}
				return
			}
			depth--
		default:
			b.i++
		}
	}
}

func (b *bashScan) dquote() {
	for b.i < len(b.s) {
		switch c := b.s[b.i]; {
		case c == '"':
			b.i++
			return
		case c == '\\':
			b.i += 2
		case c == '$':
			b.dollar()
		case c == '`':
			b.i++
			b.list('`')
		default:
			b.i++
		}
	}
}

// lintBash checks that every invoked function is defined and that helper routines are contained exactly if used.
func lintBash(script string, apps map[string]bool) (bad string, st LintStats) {
	b := &bashScan{s: script, defs: map[string]int{}}
	b.list(0)
	used := map[string]bool{}
	for _, w := range b.words {
		st.Commands++
		if b.defs[w] > 0 {
			used[w] = true
			st.Calls++
			continue
		}
		if bashBuiltins[w] || apps[w] || strings.ContainsAny(w, "\"'\\$/") {
			continue
		}
		if _, err := exec.LookPath(filepath.Join("/usr/bin", w)); err == nil {
			continue
		}
		if _, err := exec.LookPath(filepath.Join("/bin", w)); err == nil {
			continue
		}
		return fmt.Sprintf("%q is invoked but not defined", w), st
	}
	for d := range b.defs {
		st.Regions++
		if strings.HasPrefix(d, "_") {
			st.Helpers++
		}
	}
	return
}

// syntaxBash runs the syntax check of the shell.
func (s *Slot) syntaxBash(script string) Run {
	f := filepath.Join(s.dir, "syntax.sh")
	mustWrite(f, script)
	return s.runBash(f, RunOpt{Args: []string{"/bin/bash", "-n", f}})
}
