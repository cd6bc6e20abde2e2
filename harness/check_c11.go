package main

import (
	"fmt"
	"go/scanner"
	gotoken "go/token"
	"math/big"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"
)

func init() {
	checks["C11"] = check{run: runC11,
		rule: "token lists returned by Tokenize are compared (class, value, row, column of every token; error or not) with an independent longest-match tokenizer, and with go/scanner where the text is Go-compatible: all pairs (thorough: triples) of the token vocabulary with every kind of separation, identifiers derived from every keyword, every escape sequence, every byte in every lexical context, comment and string terminators, random token sequences in random layouts (LF and CRLF, comments, blanks, multi-line tokens), lines of the Go standard library, single character edits and random character sequences. Distinct = distinct source text.",
		asm:  []string{"a column is counted in bytes or in characters", "lone carriage returns, numbers with a fraction, line breaks within interpreted string literals and text which isn't valid UTF-8 are outside of the token grammar"}}
}

// Groups of the vocabulary: the members of a group have the same class, different groups have different classes.
var tokGroups = [][]string{
	{"("}, {")"}, {"["}, {"]"}, {"{"}, {"}"},
	{"=="}, {"="}, {":="}, {"++"}, {"--"}, {"!"}, {","}, {":"}, {";"}, {"."}, {"@"}, {"|"}, {"\n"},
	{"+=", "-=", "*=", "/=", "%="}, {"+", "-", "*", "/", "%"}, {"==", "!=", "<", ">", "<=", ">="}, {"&&", "||"},
	{"true", "false"}, {"nil"}, {"1", "42", "-7", "0"}, {"\"a\"", "`a`", "\"\""}, {"bool", "int", "string", "error"},
	{"import"}, {"var"}, {"func"}, {"return"}, {"if"}, {"else"}, {"switch"}, {"case"}, {"default"}, {"for"}, {"range"}, {"break"}, {"continue"},
	{"len"}, {"print"}, {"input"}, {"copy"}, {"itoa"}, {"exists"}, {"read"}, {"write"}, {"panic"},
	{"foo", "a", "_", "_a1", "X", "__", "aB_9"},
}

type lexRef struct {
	class map[string]int // text -> class
	ident int
	num   int
	str   int
	ok    bool
}

func (c *Ctx) learn(s *Slot) *lexRef {
	l := &lexRef{class: map[string]int{}, ok: true}
	owner := map[int]string{}
	for gi, g := range tokGroups {
		for i, x := range g {
			resp := s.ask(Req{Op: "tokenize", Src: []byte(x)})
			c.eval(1)
			if resp.Dead != "" || resp.Slow || resp.Panic != "" {
				c.violate("vocabulary", fmt.Sprintf("tokenizing %q fails: %s", x, resp.Dead+resp.Panic), map[string]string{"source": x})
				return nil
			}
			if resp.IsErr || len(resp.Toks) == 0 || len(resp.Toks) > 2 || len(resp.Toks) == 2 && len(resp.Toks[1].V) > 0 {
				c.violate("vocabulary", fmt.Sprintf("%q isn't recognised as a token: %s %v", x, resp.Err, resp.Toks), map[string]string{"source": x})
				l.ok = false
				continue
			}
			t := resp.Toks[0].T
			key := fmt.Sprint(gi)
			if x == "==" {
				key = "cmp"
			} else if len(g) == 6 && g[0] == "==" {
				key = "cmp"
			}
			if o, ok := owner[t]; ok && o != key {
				c.violate("vocabulary", fmt.Sprintf("%q has the same class as a token of another kind", x), map[string]string{"source": x})
				l.ok = false
			} else if !ok && i > 0 {
				c.violate("vocabulary", fmt.Sprintf("%q has another class than %q", x, g[0]), map[string]string{"source": x})
				l.ok = false
			}
			owner[t] = key
			l.class[x] = t
			switch g[0] {
			case "foo":
				l.ident = t
			case "1":
				l.num = t
			case "\"a\"":
				l.str = t
			}
		}
	}
	return l
}

func (l *lexRef) classOf(t RTok) int {
	switch t.K {
	case 'n':
		return l.num
	case 's':
		return l.str
	case 'w':
		if reservedWords[t.Text] && t.Text != "as" {
			return l.class[t.Text]
		}
		return l.ident
	}
	return l.class[t.Text]
}

func sameInt(a, b string) bool {
	x, ok := new(big.Int).SetString(a, 10)
	y, ok2 := new(big.Int).SetString(b, 10)
	return ok && ok2 && x.Cmp(y) == 0
}

// lexDiffers compares the tokens of the code under test with the reference.
func (l *lexRef) differs(resp Resp, want []RTok, werr error) string {
	switch {
	case resp.Dead != "":
		return "tokenization: " + resp.Dead
	case resp.Panic != "":
		return "tokenization panics: " + clip(resp.Panic, 200)
	case werr != nil && !resp.IsErr:
		return "no error is reported although the text is invalid: " + werr.Error()
	case werr != nil && resp.Err == "":
		return "the error is empty"
	case werr != nil:
		return ""
	case resp.IsErr:
		return "valid text is rejected: " + resp.Err
	}
	got := resp.Toks
	if n := len(got); n == len(want)+1 && len(got[n-1].V) == 0 {
		got = got[:n-1] // End of file.
	}
	for i := 0; i < len(got) || i < len(want); i++ {
		if i >= len(want) {
			return fmt.Sprintf("additional token %d %q at %d:%d", i+1, got[i].V, got[i].R, got[i].C)
		}
		w := want[i]
		if i >= len(got) {
			return fmt.Sprintf("token %d %q is missing", i+1, w.Text)
		}
		g := got[i]
		if g.T != l.classOf(w) {
			return fmt.Sprintf("token %d %q has a wrong class (value %q)", i+1, w.Text, g.V)
		}
		if string(g.V) != w.Val && !(w.K == 'n' && sameInt(string(g.V), w.Val)) {
			return fmt.Sprintf("token %d %q has value %q, expected %q", i+1, w.Text, g.V, w.Val)
		}
		if g.R != w.Row || g.C != w.Col && g.C != w.RCol {
			return fmt.Sprintf("token %d %q is reported at %d:%d, expected %d:%d", i+1, clip(w.Text, 40), g.R, g.C, w.Row, w.Col)
		}
	}
	return ""
}

// outside tells if a text is outside of the token grammar that the property talks about.
func outside(src string) bool {
	if !utf8.ValidString(src) || strings.Contains(strings.ReplaceAll(src, "\r\n", "\n"), "\r") {
		return true
	}
	t, err := tokenize(src)
	for _, x := range t {
		if x.K == 'n' && strings.Contains(x.Text, ".") || x.K == 's' && x.Text[0] == '"' && strings.Contains(x.Text, "\n") {
			return true
		}
	}
	if err != nil {
		// The part up to the error might contain such tokens as well: an interpreted string with a line break.
		return badLineBreak(src)
	}
	return false
}

// badLineBreak tells if an invalid text contains an interpreted string with a line break or a number with a fraction.
func badLineBreak(src string) bool {
	src = strings.ReplaceAll(src, "\r\n", "\n")
	in := byte(0)
	for i := 0; i < len(src); i++ {
		ch := src[i]
		switch {
		case in == '"' && ch == '\\':
			i++
			if i < len(src) && src[i] == '\n' {
				return true
			}
		case in == '"' && ch == '\n':
			return strings.IndexByte(src[i:], '"') >= 0
		case in != 0:
			if ch == in {
				in = 0
			}
		case strings.HasPrefix(src[i:], "//"):
			for i+1 < len(src) && src[i+1] != '\n' {
				i++
			}
		case strings.HasPrefix(src[i:], "/*"):
			n := strings.Index(src[i+2:], "*/")
			if n < 0 {
				return false
			}
			i += n + 3
		case ch == '"' || ch == '`':
			in = ch
		}
	}
	return false
}

func (c *Ctx) lexCase(s *Slot, l *lexRef, kase, src string) bool {
	if outside(src) {
		c.count("texts outside of the grammar", 1)
		return true
	}
	want, werr := tokenize(src)
	resp := s.ask(Req{Op: "tokenize", Src: []byte(src)})
	if resp.Slow {
		c.inconclusive(kase + ": " + resp.Dead)
		return true
	}
	c.eval(1)
	c.seen(src)
	if werr != nil {
		c.count("invalid texts", 1)
	} else {
		c.count("tokens compared", len(want))
	}
	if bad := l.differs(resp, want, werr); bad != "" {
		c.violate(kase, bad, map[string]string{"source": src, "source quoted": strconv.Quote(src), "tokens": fmt.Sprint(resp.Toks)})
		return false
	}
	return true
}

// goTokens tokenizes with go/scanner. ok: the text only consists of tokens both languages have.
func goTokens(src string) (out []RTok, ok bool) {
	src = strings.ReplaceAll(src, "\r\n", "\n")
	fs := gotoken.NewFileSet()
	f := fs.AddFile("x", -1, len(src))
	var sc scanner.Scanner
	bad := false
	sc.Init(f, []byte(src), func(pos gotoken.Position, msg string) { bad = true }, 0)
	for {
		p, t, text := sc.Scan()
		if bad {
			return nil, false
		}
		if t == gotoken.EOF {
			break
		}
		if t == gotoken.SEMICOLON && text == "\n" {
			continue
		}
		pos := fs.Position(p)
		x := RTok{Row: pos.Line, Col: pos.Column, Pos: pos.Offset}
		switch {
		case t == gotoken.IDENT || t.IsKeyword():
			x.K, x.Text = 'w', text
			if t.IsKeyword() {
				x.Text = t.String()
			}
		case t == gotoken.INT:
			if strings.Trim(text, "0123456789") != "" {
				return nil, false
			}
			x.K, x.Text = 'n', text
		case t == gotoken.STRING:
			v, err := strconv.Unquote(text)
			if err != nil {
				return nil, false
			}
			x.K, x.Text, x.Val = 's', text, v
		case t == gotoken.CHAR || t == gotoken.FLOAT || t == gotoken.IMAG || t == gotoken.ILLEGAL:
			return nil, false
		default:
			x.K, x.Text = 'o', t.String()
			if !contains(ops, x.Text) {
				return nil, false
			}
		}
		if x.K != 's' {
			x.Val = x.Text
		}
		// A minus sign directly in front of a number belongs to the number.
		if n := len(out); n > 0 && x.K == 'n' && out[n-1].Text == "-" && out[n-1].Pos == x.Pos-1 {
			x.Text, x.Val, x.Col, x.Pos = "-"+x.Text, "-"+x.Text, x.Col-1, x.Pos-1
			out = out[:n-1]
		}
		out = append(out, x)
	}
	return out, true
}

// goAgrees compares the reference tokenizer with go/scanner (newlines aside).
func (c *Ctx) goAgrees(kase, src string) bool {
	g, ok := goTokens(src)
	if !ok {
		return true
	}
	w, err := tokenize(src)
	if err != nil || outside(src) {
		return true
	}
	k := 0
	for _, t := range w {
		if t.K == 'l' {
			continue
		}
		if k >= len(g) || g[k].K != t.K || g[k].Text != t.Text || g[k].Val != t.Val || g[k].Row != t.Row || g[k].Col != t.Col {
			fmt.Fprintf(os.Stderr, "reference tokenizer and go/scanner disagree: %q\n", src)
			c.inconclusive(kase + ": the reference tokenizer and go/scanner disagree")
			return false
		}
		k++
	}
	if k != len(g) {
		c.inconclusive(kase + ": the reference tokenizer and go/scanner disagree")
		return false
	}
	c.count("texts confirmed by go/scanner", 1)
	return true
}

var lexStrings = []string{`""`, `"a"`, `"a b"`, `"\""`, `"\\"`, `"\\\""`, `"//"`, `"/* */"`, "\"`\"", `"\n\t\r\a\b\f\v"`, `"\x41\101\u00e4\U0001F600"`, `"ä€😀"`, `"$x %d 'q'"`, "``", "`a`", "`\\n`", "`\"`", "`// x`", "`/* x`", "`a\nb`", "`\n`", "`ä€\\`", "`\n\n  x`", `"\000"`, `"\377\xfe"`, `"*/"`, "`\\`"}

func lexVocab() []string {
	l := []string{}
	for _, g := range tokGroups {
		l = append(l, g...)
	}
	l = append(l, lexStrings[:14]...)
	l = append(l, "trueish", "falsey", "nilx", "format", "iff", "intx", "lens", "printer", "_true", "true1", "true_", "If", "TRUE", "12345678901234567890", "00", "007", "-0", "x1y2", "a_b", "forr", "elseif", "inputs", "importx", "variable", "fun", "r", "truefalse", "nilnil", "casecase", "e1", "panics")
	return l
}

var lexSeps = []string{"", " ", "\t", "\n", "/**/", "/* // */", "/***/", "// x\n", "//\n", "/* \n */", "\r\n", "  ", "/*/*/", "//*/\n", "/* \" */", "// \"\n", "/* ` */"}

func runC11(c *Ctx) {
	var l *lexRef
	var mu sync.Mutex
	c.each("base", 1, func(s *Slot, i int, r *rand.Rand) {
		x := c.learn(s)
		mu.Lock()
		l = x
		mu.Unlock()
	})
	if l == nil || !l.ok {
		return
	}
	voc := lexVocab()
	c.each("pairs", len(voc), func(s *Slot, i int, r *rand.Rand) {
		for _, b := range voc {
			for k, sep := range lexSeps {
				// Leading text moves rows and columns.
				pre := []string{"", " ", "\n", "ab ", "/*\n*/ "}[k%5]
				src := pre + voc[i] + sep + b
				if !c.lexCase(s, l, fmt.Sprintf("pairs:%d", i), src) {
					return
				}
				c.goAgrees(fmt.Sprintf("pairs:%d", i), src)
			}
		}
	})
	if c.thorough() {
		c.each("triples", len(voc), func(s *Slot, i int, r *rand.Rand) {
			for _, b := range voc {
				for _, d := range voc {
					sep, sep2 := lexSeps[r.IntN(len(lexSeps))], lexSeps[r.IntN(len(lexSeps))]
					if r.IntN(2) == 0 {
						sep, sep2 = "", ""
					}
					if !c.lexCase(s, l, fmt.Sprintf("triples:%d", i), voc[i]+sep+b+sep2+d) {
						return
					}
				}
			}
		})
	}
	// Operator character sequences.
	opc := "+-*/%=!<>&|:;.,@()[]{}\n 1a\"`"
	c.each("punctuation", len(opc)*len(opc), func(s *Slot, i int, r *rand.Rand) {
		for k := 0; k < len(opc); k++ {
			p := string([]byte{opc[i/len(opc)], opc[i%len(opc)], opc[k]})
			for _, src := range []string{p, "x" + p + "y", p + p} {
				if !c.lexCase(s, l, fmt.Sprintf("punctuation:%d", i), src) {
					return
				}
			}
			if c.thorough() {
				for m := 0; m < len(opc); m++ {
					if !c.lexCase(s, l, fmt.Sprintf("punctuation:%d", i), p+string(opc[m])) {
						return
					}
				}
			}
		}
	})
	// Identifiers: every word extended and shortened by every character.
	words := wordsOfReserved()
	const idc = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"
	c.each("identifiers", len(words), func(s *Slot, i int, r *rand.Rand) {
		w := words[i]
		for k := 0; k < len(idc); k++ {
			ch := string(idc[k])
			for _, src := range []string{w + ch, ch + w, w + ch + w, w[:1] + ch + w[1:], w + ch + "(", "!" + w + ch, w + " " + ch + w, w[:len(w)-1] + ch, w + "." + ch, "1" + ch, ch + "1" + w} {
				if !c.lexCase(s, l, fmt.Sprintf("identifiers:%d", i), src) {
					return
				}
			}
		}
		for k := 1; k < len(w); k++ {
			if !c.lexCase(s, l, fmt.Sprintf("identifiers:%d", i), w[:k]+"\n"+w[k:]) {
				return
			}
		}
	})
	// Escape sequences.
	esc := []string{}
	for b := 0; b < 128; b++ {
		if b != '\n' && b != '\r' {
			esc = append(esc, `\`+string(rune(b)))
		}
	}
	for b := 0; b < 512; b++ {
		esc = append(esc, fmt.Sprintf(`\%03o`, b), fmt.Sprintf(`\%02x`, b), fmt.Sprintf(`\x%02x`, b%256), fmt.Sprintf(`\x%02X`, b%256))
	}
	esc = append(esc, `\x`, `\x4`, `\xg0`, `\x4g`, `\0`, `\00`, `\08`, `\400`, `\777`, `\8`, `\u`, `\u12`, `\u123`, `\u0041`, `\u00e4`, `\u20ac`, `\ud800`, `\udfff`, `\ud7ff`, `\ue000`, `\uffff`, `\ufffd`, `\U`, `\U0001F600`, `\U0010FFFF`, `\U00110000`, `\UFFFFFFFF`, `\U0000d800`, `\U00000041`, `\U0001f60`, `\q`, `\Q`, `\'`, `\ä`, `\ `, `\X41`, `\N`)
	c.each("escapes", len(esc), func(s *Slot, i int, r *rand.Rand) {
		e := esc[i]
		for _, src := range []string{`"` + e + `"`, `"a` + e + `b"`, "`" + e + "`", `"` + e, `"` + e + `" x`, `"\\` + e + `"`, `"` + e + e + `"` + " 1 + `" + e + "`", "`a\n" + e + "`\n  y"} {
			if !c.lexCase(s, l, fmt.Sprintf("escapes:%d", i), src) {
				return
			}
			c.goAgrees(fmt.Sprintf("escapes:%d", i), src)
		}
	})
	// Every character in every context.
	c.each("characters", 0x180+40, func(s *Slot, i int, r *rand.Rand) {
		ch := string(rune(i))
		if i >= 0x180 {
			ch = []string{"€", "😀", "\u2028", "\u00a0", "\ufeff", "\u200b", "Ω", "ß", "中", "٣", "\u0301", "“", "−", "＝", "Ａ", "１", "´", "‘", "\ufffd", "\U0010ffff"}[i%20]
		}
		for _, ctx := range []string{"%s", "a%s", "%sa", "a %s b", "1%s", "%s1", "\"%s\"", "`%s`", "// %s\nx", "/* %s */x", "\"a%sb\" + c", "`a%s\n` d", "x\n%s\ny", "\"%s", "`%s", "/*%s", "//%s", "a /*%s*/ b // %s", "\"%s%s\"   `%s`   x", "/* %s */ y \"%s\"\n  z", "+%s+", "\"\\\"%s\" x"} {
			if !c.lexCase(s, l, fmt.Sprintf("characters:%d", i), strings.ReplaceAll(ctx, "%s", ch)) {
				return
			}
		}
	})
	// Long tokens, comments, lines and files.
	lens := []int{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 499, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 9999}
	lens = append(lens, []int{32767, 32768, 65535, 65536, 65537}...)
	c.each("long", len(lens), func(s *Slot, i int, r *rand.Rand) {
		n := lens[i]
		rep := func(x string) string { return strings.Repeat(x, n/len(x)+1)[:n] }
		for _, t := range []string{rep("a"), rep("_"), rep("aZ_09"), "x" + rep("0123456789"), "if" + rep("x"), "_" + rep("if"), rep("1"), "-" + rep("12345678901"), rep("0"), "\"" + rep("s") + "\"", "\"" + rep("a b//") + "\"", "`" + rep("r\n") + "`", "`" + rep("\\") + "`", "\"" + strings.Repeat("\\\"", n) + "\"", "\"" + strings.Repeat("\\x41", n) + "\"", "\"" + strings.Repeat("ä€", n/2) + "\"", "\"" + strings.Repeat("\\n", n) + "\"", "/*" + rep("c") + "*/", "/*" + rep("* ") + "*/", "/*" + rep("\n") + "*/", "//" + rep("/ ") + "\n", rep(" "), rep("\t"), rep("\n"), rep(" \n"), rep("//\n") + "\n", rep("x "), rep("+ "), strings.Repeat("\r\n", n), rep("("), rep("!"), rep("[]"), rep("1 "), rep("\"\" "), rep("a,b "), rep("==")} {
			for _, f := range []string{"%s", "a := %s + b\n  \"x\"", "\n%s\n y"} {
				if n > 5000 && f == "%s" {
					continue
				}
				if !c.lexCase(s, l, fmt.Sprintf("long:%d", i), strings.Replace(f, "%s", t, 1)) {
					return
				}
			}
		}
		// Unterminated long texts.
		for _, t := range []string{"x \"" + rep("a"), "`" + rep("a\n"), "/*" + rep("a\n"), rep("a") + "$"} {
			if !c.lexCase(s, l, fmt.Sprintf("long:%d", i), t) {
				return
			}
		}
	})
	// Comments and strings which contain the delimiters of each other.
	parts := []string{"/*", "*/", "//", "\"", "`", "\n", "\\", "*", "/", " ", "a", "\\\"", "**/", "/**", "\r\n"}
	c.each("delimiters", c.pick(20000, 300000), func(s *Slot, i int, r *rand.Rand) {
		src := ""
		for k := 2 + r.IntN(9); k > 0; k-- {
			src += parts[r.IntN(len(parts))]
		}
		if i < len(parts)*len(parts)*len(parts) {
			src = parts[i%len(parts)] + parts[i/len(parts)%len(parts)] + parts[i/len(parts)/len(parts)]
		}
		src += []string{"", "", "x", " \"y\" z"}[r.IntN(4)]
		c.lexCase(s, l, fmt.Sprintf("delimiters:%d", i), src)
	})
	// Random token sequences in random layouts.
	c.each("layouts", c.pick(20000, 300000), func(s *Slot, i int, r *rand.Rand) {
		toks := []Tok{}
		for k := 1 + r.IntN(25); k > 0; k-- {
			x, kind := "", byte('o')
			switch r.IntN(8) {
			case 0:
				x, kind = "\n", 'l'
			case 1:
				x, kind = lexStrings[r.IntN(len(lexStrings))], 's'
			case 2:
				x, kind = fmt.Sprint(r.Int64N(1<<uint(1+r.IntN(62)))), 'n'
				if r.IntN(3) == 0 {
					x = "-" + x
				}
			case 3, 4:
				x, kind = words[r.IntN(len(words))], 'w'
			case 5:
				x, kind = voc[r.IntN(len(voc))], 'o'
				if x == "\n" {
					kind = 'l'
				}
			default:
				x = ops[r.IntN(len(ops))]
			}
			toks = append(toks, Tok{S: x, K: kind, Sp: r.IntN(2) == 0, In: r.IntN(3)})
		}
		src := relayout(r, toks, randLayoutOpt(r))
		if c.lexCase(s, l, fmt.Sprintf("layouts:%d", i), src) {
			c.goAgrees(fmt.Sprintf("layouts:%d", i), src)
			c.sample("layouts", src)
		}
	})
	// Generated programs in random layouts and single character edits of them.
	c.each("programs", c.pick(1500, 20000), func(s *Slot, i int, r *rand.Rand) {
		g := newGen(r, lintOpt(i))
		m := g.program()
		src := relayout(r, printModule(m), randLayoutOpt(r))
		if !c.lexCase(s, l, fmt.Sprintf("programs:%d", i), src) {
			return
		}
		for k := 0; k < 6; k++ {
			p := r.IntN(len(src) + 1)
			e := []string{"\"", "`", "/*", "*/", "//", "\\", "\n", " ", "a", "0", "-", "=", "$", "?", "'", "&", "|", "é"}[r.IntN(18)]
			t := src[:p] + e + src[p:]
			if r.IntN(3) == 0 && p < len(src) {
				t = src[:p] + src[p+1:]
			}
			if !c.lexCase(s, l, fmt.Sprintf("programs:%d", i), t) {
				return
			}
		}
	})
	// Random characters.
	c.each("soup", c.pick(20000, 400000), func(s *Slot, i int, r *rand.Rand) {
		b := strings.Builder{}
		const hot = "\"`\\/*\n-=+&|:<>!.1a_ntx \t"
		for k := r.IntN(40); k > 0; k-- {
			switch r.IntN(12) {
			case 0:
				b.WriteRune(rune(r.IntN(0x250)))
			case 1, 2:
				b.WriteByte(byte(32 + r.IntN(95)))
			case 3:
				b.WriteString(words[r.IntN(len(words))])
			default:
				b.WriteByte(hot[r.IntN(len(hot))])
			}
		}
		c.lexCase(s, l, fmt.Sprintf("soup:%d", i), b.String())
	})
	// Real text: files of the repository and the standard library of Go.
	files, _ := filepath.Glob(filepath.Join(repoDir(), "examples", "*.tsh"))
	more, _ := filepath.Glob(filepath.Join(repoDir(), "std", "*.tsh"))
	files = append(files, more...)
	for _, d := range []string{"strings", "strconv", "go/parser", "net/http", "text/template", "sort", "fmt", "os"} {
		more, _ = filepath.Glob(filepath.Join(runtime.GOROOT(), "src", d, "*.go"))
		files = append(files, more[:min(len(more), c.pick(6, 60))]...)
	}
	c.each("files", len(files), func(s *Slot, i int, r *rand.Rand) {
		b, _ := os.ReadFile(files[i])
		src := string(b)
		if strings.HasSuffix(files[i], ".tsh") {
			c.lexCase(s, l, "file "+filepath.Base(files[i]), src)
			c.lexCase(s, l, "file "+filepath.Base(files[i]), toCRLF(src))
			return
		}
		lines := strings.SplitAfter(src, "\n")
		for k := 0; k < len(lines); {
			n := 1 + r.IntN(8)
			if k+n > len(lines) {
				n = len(lines) - k
			}
			t := strings.Join(lines[k:k+n], "")
			k += n
			if !c.lexCase(s, l, fmt.Sprintf("files:%d", i), t) {
				return
			}
			c.goAgrees(fmt.Sprintf("files:%d", i), t)
		}
	})
}

func wordsOfReserved() (l []string) {
	for _, g := range tokGroups {
		for _, x := range g {
			if isLetter(x[0]) {
				l = append(l, x)
			}
		}
	}
	return
}
