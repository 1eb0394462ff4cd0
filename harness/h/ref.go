package h

import (
	goast "go/ast"
	goparser "go/parser"
	"unicode/utf8"
)

// Reference reader of the documented rule language, written from the grammar
// independently of the parser: hand-written recursive descent over the text, producing
// the canonical dump of the rules.  Go's own parser is trusted for embedded Go expressions.

type ref struct {
	s   string
	i   int
	bad bool // an embedded Go expression is not acceptable: the whole text is not

	// old selects the recorded defect in place of the specified reading of conditions:
	// comments are not left out (so they hide the rest of the condition, and an arrow in one
	// ends it) and newlines inside raw strings become spaces.
	old bool

	srcs []string // text of each embedded Go expression, in the order of the text
}

// reading is what a text says.
type reading struct {
	ok    bool
	rules []string // canonical dumps
	srcs  []string // texts of the embedded Go expressions
}

func (r reading) dump() string {
	d := "F" + itoa(len(r.rules)) + "{"
	for _, x := range r.rules {
		d += x
	}
	return d + "}"
}

// refParse reads the text as specified.
func refParse(s string) reading { return refRead(s, false) }

func refRead(s string, old bool) reading {
	if !utf8.ValidString(s) {
		return reading{}
	}
	p := &ref{s: s, old: old}
	p.skip()
	var rs []string
	for p.i < len(s) {
		d, ok := p.rule()
		if !ok || p.bad {
			return reading{}
		}
		rs = append(rs, d)
		p.skip()
	}
	return reading{true, rs, p.srcs}
}

func (p *ref) at(c byte) bool { return p.i < len(p.s) && p.s[p.i] == c }

func (p *ref) lit(t string) bool {
	if len(p.s)-p.i < len(t) || p.s[p.i:p.i+len(t)] != t {
		return false
	}
	p.i += len(t)
	return true
}

func isBlank(c byte) bool { return c == ' ' || c == '\t' || c == '\r' || c == '\n' }

// skip passes layout and tells how much there was.
func (p *ref) skip() bool {
	start := p.i
	for p.i < len(p.s) {
		if isBlank(p.s[p.i]) {
			p.i++
			continue
		}
		if p.lit("//") {
			for p.i < len(p.s) && p.s[p.i] != '\n' {
				p.i++
			}
			continue
		}
		break
	}
	return p.i > start
}

func isWord(c byte) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
}

func (p *ref) ident() (string, bool) {
	if p.i >= len(p.s) || p.s[p.i] < 'a' || p.s[p.i] > 'z' {
		return "", false
	}
	start := p.i
	p.i++
	for p.i < len(p.s) && isWord(p.s[p.i]) {
		p.i++
	}
	return p.s[start:p.i], true
}

func (p *ref) word() (string, bool) {
	start := p.i
	for p.i < len(p.s) && isWord(p.s[p.i]) {
		p.i++
	}
	return p.s[start:p.i], p.i > start
}

func (p *ref) rule() (string, bool) {
	m, ok := p.value()
	if !ok {
		return "", false
	}
	cond := "-"
	save := p.i
	if p.skip() && p.lit("&&") && p.skip() {
		c, ok := p.condition()
		if !ok {
			return "", false
		}
		cond = c
	} else {
		p.i = save
	}
	p.skip()
	if !p.lit("=>") {
		return "", false
	}
	p.skip()
	block := ""
	if p.at('@') {
		p.i++
		start := p.i
		for p.i < len(p.s) && !isBlank(p.s[p.i]) {
			p.i++
		}
		if p.i == start {
			return "", false
		}
		block = p.s[start:p.i]
		p.skip()
	}
	r, ok := p.value()
	if !ok {
		return "", false
	}
	return mkRule(m, cond, block, r), true
}

// condition reads Go text up to the first "=>" with a blank before it.  Comments are left out
// and newlines are blanks, except inside literals.
func (p *ref) condition() (string, bool) {
	start := p.i
	var text []byte
	i := start
	for {
		if i >= len(p.s) {
			return "", false
		}
		if arrow(p.s, i) && i > start {
			return "", false // directly behind a literal: no blank before it
		}
		if arrow(p.s, i+1) {
			// the blank before the arrow is not part of the condition
			if i == start || !isBlank(p.s[i]) {
				return "", false
			}
			break
		}
		c := p.s[i]
		if !p.old && (c == '"' || c == '\'' || c == '`') {
			if n := litLen(p.s[i:]); n > 0 {
				l := p.s[i : i+n]
				if hasArrow(l) {
					p.bad = true
					return "", false
				}
				text = append(text, l...)
				i += n
				continue
			}
		}
		if !p.old && c == '/' && i+1 < len(p.s) && p.s[i+1] == '/' {
			for i < len(p.s) && p.s[i] != '\n' {
				i++
			}
			text = append(text, ' ')
			continue
		}
		if c == '\n' {
			c = ' '
		}
		text = append(text, c)
		i++
	}
	p.i = i
	if len(text) == 0 {
		return "", false
	}
	return p.goexpr(string(text)), true
}

func arrow(s string, i int) bool { return i+1 < len(s) && s[i] == '=' && s[i+1] == '>' }

func hasArrow(s string) bool {
	for i := range []byte(s) {
		if arrow(s, i) {
			return true
		}
	}
	return false
}

// litLen is the length of the Go string, raw string or rune literal at the start of s, 0 if there is none.
func litLen(s string) int {
	q := s[0]
	for i := 1; i < len(s); i++ {
		c := s[i]
		switch {
		case c == q:
			if q == '\'' && i == 1 {
				return 0
			}
			return i + 1
		case q != '`' && c == '\n':
			return 0
		case q != '`' && c == '\\':
			i++
			if i < len(s) && s[i] == '\n' {
				return 0
			}
		}
	}
	return 0
}

func (p *ref) goexpr(text string) string {
	p.srcs = append(p.srcs, text)
	e, err := goparser.ParseExpr(text)
	if err != nil || !supported(e) {
		p.bad = true
		return ""
	}
	return "E{" + dumpGo(e) + "}"
}

var _ goast.Expr

func (p *ref) value() (string, bool) {
	save := p.i
	binding := ""
	if id, ok := p.ident(); ok {
		if p.at(':') {
			binding = id
			p.i++
			if !p.at('(') {
				return "", false
			}
		} else {
			p.i = save
			return p.expr()
		}
	}
	if !p.at('(') {
		return p.expr()
	}
	p.i++
	return p.sexpr(binding)
}

func (p *ref) sexpr(binding string) (string, bool) {
	p.skip()
	op, ok := p.op()
	if !ok {
		return "", false
	}
	typ, auxint, aux := "", "-", "-"
	var args []string
	ellipsis, trailing := false, false
	for {
		save := p.i
		if !p.skip() {
			break
		}
		if p.at(')') {
			break
		}
		if p.lit("...") {
			ellipsis = true
			save = p.i
			if p.skip() && p.lit("___") {
				trailing = true
			} else {
				p.i = save
			}
			break
		}
		if p.lit("___") {
			trailing = true
			break
		}
		if p.i >= len(p.s) {
			return "", false
		}
		switch p.s[p.i] {
		case '<':
			t, ok := p.delimited('>')
			if !ok || typ != "" {
				return "", false
			}
			typ = t
		case '[':
			t, ok := p.delimited(']')
			if !ok || auxint != "-" {
				return "", false
			}
			auxint = p.goexpr(t)
		case '{':
			t, ok := p.delimited('}')
			if !ok || aux != "-" {
				return "", false
			}
			aux = p.goexpr(t)
		default:
			a, ok := p.value()
			if !ok {
				return "", false
			}
			args = append(args, a)
		}
		if p.bad {
			return "", false
		}
	}
	p.skip()
	if !p.at(')') {
		return "", false
	}
	p.i++
	return mkSExpr(binding, op, typ, auxint, aux, args, ellipsis, trailing), true
}

func (p *ref) delimited(end byte) (string, bool) {
	start := p.i + 1
	for p.i = start; p.i < len(p.s); p.i++ {
		if p.s[p.i] == end {
			t := p.s[start:p.i]
			p.i++
			return t, t != ""
		}
	}
	return "", false
}

func (p *ref) op() (string, bool) {
	var parts []string
	for {
		if w, ok := p.word(); ok {
			parts = append(parts, mkOpcode(w))
			continue
		}
		save := p.i
		if xs, ok := p.alts(); ok {
			parts = append(parts, mkAlt(xs))
			continue
		}
		p.i = save
		break
	}
	if len(parts) == 0 {
		return "", false
	}
	if len(parts) == 1 && parts[0][0] == 'O' {
		return parts[0], true
	}
	return mkParts(parts), true
}

func (p *ref) alts() ([]string, bool) {
	if !p.at('(') {
		return nil, false
	}
	p.i++
	var xs []string
	for {
		w, ok := p.word()
		if !ok {
			return nil, false
		}
		xs = append(xs, w)
		if p.at('|') {
			p.i++
			continue
		}
		if p.at(')') && len(xs) > 1 {
			p.i++
			return xs, true
		}
		return nil, false
	}
}

// expr reads a variable, a placeholder or a call.
func (p *ref) expr() (string, bool) {
	start := p.i
	if p.at('_') {
		p.i++
		if p.at('_') {
			return "", false
		}
		return mkVar("_"), true
	}
	id, ok := p.ident()
	if !ok {
		return "", false
	}
	if !p.at('(') {
		return mkVar(id), true
	}
	save := p.i
	if p.callArgs() {
		return p.goexpr(p.s[start:p.i]), true
	}
	p.i = save
	return mkVar(id), true
}

func (p *ref) callArgs() bool {
	p.i++ // (
	for {
		p.skip()
		if p.at('_') {
			p.i++
			if p.at('_') {
				return false
			}
		} else {
			if _, ok := p.ident(); !ok {
				return false
			}
			if p.at('(') && !p.callArgs() {
				return false
			}
		}
		p.skip()
		if p.at(',') {
			p.i++
			continue
		}
		if p.at(')') {
			p.i++
			return true
		}
		return false
	}
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	for ; n > 0; n /= 10 {
		s = string(rune('0'+n%10)) + s
	}
	return s
}
