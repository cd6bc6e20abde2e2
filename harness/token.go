package main

import (
	"unicode/utf8"

	"fmt"
	"math/rand/v2"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------------------------------------------------
// Independent tokenizer: follows the token grammar with longest match. It is the reference for C11 and the
// base of the layout transformations of C12 and of the token level mutations of C13.
// ---------------------------------------------------------------------------------------------------------

type RTok struct {
	K    byte   // 'w' identifier/keyword, 'n' number, 's' string, 'o' operator/punctuation, 'l' newline
	Text string // source text
	Val  string // token value (unquoted content of strings)
	Row  int
	Col  int // in bytes, 1-based
	RCol int // in runes, 1-based
	Pos  int // byte offset
}

var ops = []string{"==", "!=", "<=", ">=", "&&", "||", "+=", "-=", "*=", "/=", "%=", ":=", "++", "--",
	"(", ")", "[", "]", "{", "}", "<", ">", "=", "!", "+", "-", "*", "/", "%", ",", ":", ";", ".", "@", "|"}

func isLetter(c byte) bool { return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func isDigit(c byte) bool  { return c >= '0' && c <= '9' }

// tokenize splits source text (LF or CRLF) into tokens. Comments and blanks are dropped.
func tokenize(src string) ([]RTok, error) {
	src = strings.ReplaceAll(src, "\r\n", "\n")
	out := []RTok{}
	row, lineStart := 1, 0
	seenLine, seenPos, seenCol := 0, 0, 1
	runeCol := func(src string, lineStart, i int) int {
		if seenLine != lineStart || i < seenPos || seenPos < lineStart {
			seenLine, seenPos, seenCol = lineStart, lineStart, 1
		}
		seenCol += utf8.RuneCountInString(src[seenPos:i])
		seenPos = i
		return seenCol
	}
	i := 0
	advance := func(text string) {
		if n := strings.Count(text, "\n"); n > 0 {
			row += n
			lineStart = i + strings.LastIndexByte(text, '\n') + 1
		}
		i += len(text)
	}
	add := func(k byte, text, val string) {
		out = append(out, RTok{K: k, Text: text, Val: val, Row: row, Col: i - lineStart + 1, RCol: runeCol(src, lineStart, i), Pos: i})
		advance(text)
	}
	for i < len(src) {
		c := src[i]
		rest := src[i:]
		switch {
		case c == ' ' || c == '\t':
			advance(rest[:1])
		case c == '\n':
			add('l', "\n", "\n")
		case strings.HasPrefix(rest, "//"):
			n := strings.IndexByte(rest, '\n')
			if n < 0 {
				n = len(rest)
			}
			advance(rest[:n])
		case strings.HasPrefix(rest, "/*"):
			n := strings.Index(rest[2:], "*/")
			if n < 0 {
				return nil, fmt.Errorf("unterminated comment")
			}
			advance(rest[:n+4])
		case c == '`':
			n := strings.IndexByte(rest[1:], '`')
			if n < 0 {
				return nil, fmt.Errorf("unterminated string")
			}
			add('s', rest[:n+2], rest[1:n+1])
		case c == '"':
			j := 1
			for j < len(rest) && rest[j] != '"' {
				if rest[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(rest) {
				return nil, fmt.Errorf("unterminated string")
			}
			lit := rest[:j+1]
			// Go does not allow raw newlines within interpreted strings, TypeShell is more tolerant.
			v, err := strconv.Unquote(strings.ReplaceAll(lit, "\n", `\n`))
			if err != nil {
				return nil, fmt.Errorf("bad string literal")
			}
			add('s', lit, v)
		case isLetter(c):
			j := 1
			for j < len(rest) && (isLetter(rest[j]) || isDigit(rest[j])) {
				j++
			}
			add('w', rest[:j], rest[:j])
		case isDigit(c) || c == '-' && len(rest) > 1 && isDigit(rest[1]):
			j := 1
			for j < len(rest) && isDigit(rest[j]) {
				j++
			}
			if j+1 < len(rest) && rest[j] == '.' && isDigit(rest[j+1]) {
				j++
				for j < len(rest) && isDigit(rest[j]) {
					j++
				}
			}
			add('n', rest[:j], rest[:j])
		default:
			found := false
			for _, o := range ops {
				if strings.HasPrefix(rest, o) {
					add('o', o, o)
					found = true
					break
				}
			}
			if !found {
				return nil, fmt.Errorf("unknown character %q", c)
			}
		}
	}
	return out, nil
}

// needSep tells if two adjacent tokens must be separated.
func needSep(a, b string) bool {
	t, err := tokenize(a + b)
	return err != nil || len(t) != 2 || t[0].Text != a || t[1].Text != b
}

// ---------------------------------------------------------------------------------------------------------
// Layouts.
// ---------------------------------------------------------------------------------------------------------

func operandEnd(t Tok) bool {
	switch t.K {
	case 'n', 's':
		return true
	case 'w':
		switch t.S {
		case "return", "case", "if", "for", "switch", "range", "else", "import", "var", "func", "default", "break", "continue":
			return false
		}
		return true
	}
	return t.S == ")" || t.S == "]" || t.S == "}"
}

type layoutOpt struct {
	crlf     bool
	comments bool
	blanks   bool // random blank lines
	tight    bool // omit as many blanks as possible
	indent   bool // random indentation and trailing blanks
	noFinal  bool // remove the final newline
	keepSign bool // never join a minus sign and a number
	mixed    int  // percentage of the line ends which are CRLF (0: all are LF)
}

func randLayoutOpt(r *rand.Rand) layoutOpt {
	b := func() bool { return r.IntN(2) == 0 }
	o := layoutOpt{b(), b(), b(), b(), b(), b(), false, 0}
	if r.IntN(3) == 0 {
		o.mixed = []int{5, 25, 50, 75, 95}[r.IntN(5)]
	}
	return o
}

func (o layoutOpt) String() string {
	return fmt.Sprintf("%+v", struct{ CRLF, Comments, Blanks, Tight, Indent, NoFinal bool }{o.crlf, o.comments, o.blanks, o.tight, o.indent, o.noFinal})
}

var commentBodies = []string{"", " x ", "*", " * / ", " // ", "\"", " `", " func f() { ", "}", " 'a' \\ ", "/*", " := ", "$(x) `", " \xc3\xa4\xe2\x82\xac ", "**", "/", "/ x /", "//", "!", "\t", "% ^ & | < >", "::", "#!"}

// multiLineBodies are the texts of block comments with line breaks.
var multiLineBodies = []string{"\n", "\n\n", " a\n\n\tb\n", " a\n // b\n c ", "\n * doc\n * doc\n", "\n\n\n\n", " x := 1\n}\n", "\n/*\n\"\n", strings.Repeat("long ", 80) + "\n" + strings.Repeat("y", 300)}

func blockComment(r *rand.Rand) string {
	body := commentBodies[r.IntN(len(commentBodies))]
	if r.IntN(4) == 0 {
		body = multiLineBodies[r.IntN(len(multiLineBodies))]
	}
	s := "/*" + strings.ReplaceAll(body, "*/", "* /")
	return s + "*/"
}

func lineComment(r *rand.Rand) string {
	b := commentBodies[r.IntN(len(commentBodies))]
	if r.IntN(4) == 0 {
		b += "*/"
	}
	return "//" + b
}

// relayout joins the tokens in a random layout which keeps the token sequence (up to the ambiguity between a
// binary minus followed by a number and a negative literal behind an operand, which the language resolves).
func relayout(r *rand.Rand, toks []Tok, o layoutOpt) string {
	b := strings.Builder{}
	ws := func(min bool) {
		n := 0
		if min {
			n = 1
		}
		if !o.tight || r.IntN(4) == 0 {
			n += r.IntN(3)
		}
		for ; n > 0; n-- {
			if r.IntN(4) == 0 {
				b.WriteByte('\t')
			} else {
				b.WriteByte(' ')
			}
		}
	}
	// fillLines emits additional lines (the preceding newline has already been written).
	fillLines := func() {
		for o.blanks && r.IntN(3) == 0 {
			if o.indent {
				ws(false)
			}
			if o.comments {
				switch r.IntN(4) {
				case 0:
					b.WriteString(lineComment(r))
				case 1:
					b.WriteString(blockComment(r))
				case 2:
					b.WriteString("/* a\n   b */")
				}
			}
			b.WriteByte('\n')
		}
	}
	fillLines()
	start := true
	for i, t := range toks {
		if t.K == 'l' {
			if o.indent && r.IntN(3) == 0 {
				ws(true)
			}
			if o.comments && r.IntN(5) == 0 {
				b.WriteString(" " + lineComment(r))
			}
			if i == len(toks)-1 && o.noFinal {
				break
			}
			b.WriteByte('\n')
			fillLines()
			start = true
			continue
		}
		if start {
			start = false
			if o.indent {
				ws(false)
			} else {
				b.WriteString(strings.Repeat("    ", t.In))
			}
			if o.comments && r.IntN(10) == 0 {
				b.WriteString(blockComment(r) + " ")
			}
		} else {
			prev := toks[i-1]
			sep := needSep(prev.S, t.S)
			// a -1 and a-1 stand for a - 1 if a is an operand.
			if sep && !o.keepSign && prev.S == "-" && t.K == 'n' && !strings.HasPrefix(t.S, "-") && i >= 2 && operandEnd(toks[i-2]) && !strings.HasSuffix(b.String(), "--") {
				sep = false
			}
			if o.comments && r.IntN(8) == 0 {
				// A comment separates tokens as well.
				if prev.S == "/" {
					b.WriteByte(' ')
				}
				c := blockComment(r)
				if r.IntN(6) == 0 {
					c = "/* multi\n line */"
				}
				b.WriteString(c)
				ws(false)
			} else if o.tight {
				ws(sep)
			} else {
				ws(sep || t.Sp)
			}
		}
		b.WriteString(t.S)
	}
	s := b.String()
	if o.mixed > 0 {
		s = mixedEnds(r, s, o.mixed)
	} else if o.crlf {
		s = toCRLF(s)
	}
	return s
}

// toCRLF converts line ends. Raw strings with newlines keep their content as CRLF is normalized to LF (as in Go).
func toCRLF(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, "\r\n", "\n"), "\n", "\r\n")
}

// toToks converts source text into layout tokens.
func toToks(src string) ([]Tok, error) {
	rt, err := tokenize(src)
	if err != nil {
		return nil, err
	}
	out := []Tok{}
	for i, t := range rt {
		sp := i > 0 && rt[i-1].Pos+len(rt[i-1].Text) < t.Pos
		out = append(out, Tok{S: t.Text, K: t.K, Sp: sp})
	}
	return out, nil
}
