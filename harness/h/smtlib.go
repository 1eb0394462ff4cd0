package h

import (
	"github.com/mmcloughlin/ssarules/ast"
)

// A strict reader of SMT-LIB 2.6 scripts over QF_BV, and the meaning of the modelled operations,
// both written here independently of the generator.

// sx is an S-expression: an atom of some kind or a list.
type sx struct {
	kind byte // ( list, s symbol, q quoted symbol, n numeral, h hexadecimal, b binary, k keyword, t string
	text string
	list []*sx
}

func symbolChar(c byte) bool {
	if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' {
		return true
	}
	switch c {
	case '~', '!', '@', '$', '%', '^', '&', '*', '_', '-', '+', '=', '<', '>', '.', '?', '/':
		return true
	}
	return false
}

func digit(c byte) bool { return c >= '0' && c <= '9' }

// readScript reads the commands of a script; problem is empty if it is lexically fine.
func readScript(s string) (cmds []*sx, problem string) {
	var stack []*sx
	i := 0
	add := func(x *sx) {
		if len(stack) == 0 {
			cmds = append(cmds, x)
			return
		}
		top := stack[len(stack)-1]
		top.list = append(top.list, x)
	}
	for i < len(s) {
		c := s[i]
		if c == ' ' || c == '\t' || c == '\r' || c == '\n' {
			i++
			continue
		}
		if c == ';' {
			for i < len(s) && s[i] != '\n' && s[i] != '\r' {
				i++
			}
			continue
		}
		if c == '(' {
			stack = append(stack, &sx{kind: '('})
			i++
			continue
		}
		if c == ')' {
			if len(stack) == 0 {
				return nil, "a closing parenthesis too many"
			}
			x := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			add(x)
			i++
			continue
		}
		start := i
		if c == '"' {
			i++
			for {
				if i >= len(s) {
					return nil, "a string without end"
				}
				if s[i] == '"' {
					if i+1 < len(s) && s[i+1] == '"' {
						i += 2
						continue
					}
					break
				}
				i++
			}
			i++
			add(&sx{kind: 't', text: s[start:i]})
			continue
		}
		if c == '|' {
			i++
			for i < len(s) && s[i] != '|' {
				if s[i] == '\\' {
					return nil, "a backslash in a quoted symbol"
				}
				i++
			}
			if i >= len(s) {
				return nil, "a quoted symbol without end"
			}
			add(&sx{kind: 'q', text: s[start+1 : i]})
			i++
			continue
		}
		if c == ':' || c == '#' {
			i++
		}
		from := i
		for i < len(s) && symbolChar(s[i]) {
			i++
		}
		if i == from {
			return nil, "a character that starts nothing at " + itoa(i)
		}
		t := s[start:i]
		switch {
		case c == ':':
			add(&sx{kind: 'k', text: t})
		case c == '#':
			k := t[1]
			if k != 'x' && k != 'b' || len(t) < 3 {
				return nil, "not a literal: " + t
			}
			for _, d := range []byte(t[2:]) {
				if k == 'b' && d != '0' && d != '1' || k == 'x' && !(digit(d) || d >= 'a' && d <= 'f' || d >= 'A' && d <= 'F') {
					return nil, "not a literal: " + t
				}
			}
			if k == 'x' {
				k = 'h'
			}
			add(&sx{kind: k, text: t[2:]})
		case digit(c):
			dots := 0
			for _, d := range []byte(t) {
				if d == '.' {
					dots++
				} else if !digit(d) {
					return nil, "a symbol that starts with a digit: " + t
				}
			}
			if dots > 1 || len(t) > 1 && t[0] == '0' && t[1] != '.' {
				return nil, "not a number: " + t
			}
			add(&sx{kind: 'n', text: t})
		default:
			add(&sx{kind: 's', text: t})
		}
	}
	if len(stack) > 0 {
		return nil, "a closing parenthesis is missing"
	}
	return cmds, ""
}

func among(s string, list []string) bool {
	for _, x := range list {
		if s == x {
			return true
		}
	}
	return false
}

var reservedWords = []string{"BINARY", "DECIMAL", "HEXADECIMAL", "NUMERAL", "STRING", "_", "!", "as", "let", "exists", "forall", "match", "par",
	"assert", "check-sat", "check-sat-assuming", "declare-const", "declare-datatype", "declare-datatypes", "declare-fun", "declare-sort", "define-fun", "define-fun-rec", "define-funs-rec", "define-sort", "echo", "exit",
	"get-assertions", "get-assignment", "get-info", "get-model", "get-option", "get-proof", "get-unsat-assumptions", "get-unsat-core", "get-value", "pop", "push", "reset", "reset-assertions", "set-info", "set-logic", "set-option"}

var theorySymbols = []string{"true", "false", "not", "=>", "and", "or", "xor", "=", "distinct", "ite", "Bool", "BitVec", "concat", "extract",
	"bvnot", "bvneg", "bvand", "bvor", "bvadd", "bvmul", "bvudiv", "bvurem", "bvshl", "bvlshr", "bvult", "bvnand", "bvnor", "bvxor", "bvxnor", "bvcomp", "bvsub", "bvsdiv", "bvsrem", "bvsmod", "bvashr",
	"repeat", "zero_extend", "sign_extend", "rotate_left", "rotate_right", "bvule", "bvugt", "bvuge", "bvslt", "bvsle", "bvsgt", "bvsge"}

// script is what a well-formed script says.
type script struct {
	names   []string // declared constants
	sorts   []int    // 0 Bool, n bit-vectors of n bits, -1 not a sort
	defined int      // how many of them are defined rather than declared
	locals  []string // bound by let, innermost last
	lsorts  []int
	asserts int
	checks  int
	exited  bool
	logic   bool
	problem string
}

func (c *script) fail(p string) {
	if c.problem == "" {
		c.problem = p
	}
}

// checkScript reads the script and says what is wrong with it.
func checkScript(text string) *script {
	c := &script{}
	cmds, p := readScript(text)
	if p != "" {
		c.fail(p)
		return c
	}
	for _, x := range cmds {
		c.command(x)
	}
	if c.asserts == 0 {
		c.fail("nothing is asserted")
	}
	if c.checks != 1 {
		c.fail(itoa(c.checks) + " satisfiability checks")
	}
	return c
}

func (x *sx) is(s string) bool { return x.kind == 's' && x.text == s }

func (c *script) command(x *sx) {
	if x.kind != '(' || len(x.list) == 0 || x.list[0].kind != 's' {
		c.fail("something that is no command")
		return
	}
	if c.exited {
		c.fail("a command after the exit")
	}
	args := x.list[1:]
	switch name := x.list[0].text; name {
	case "set-info", "set-option":
		if len(args) < 1 || len(args) > 2 || args[0].kind != 'k' {
			c.fail("a wrong " + name)
		}
		if name == "set-option" && c.logic {
			c.fail("an option after the logic")
		}
	case "set-logic":
		if len(args) != 1 || !args[0].is("QF_BV") {
			c.fail("not the logic QF_BV")
		}
		if c.logic {
			c.fail("a second logic")
		}
		c.logic = true
	case "declare-const", "declare-fun":
		if name == "declare-fun" {
			if len(args) != 3 || args[1].kind != '(' || len(args[1].list) != 0 {
				c.fail("a declared function that is no constant")
				return
			}
			args = []*sx{args[0], args[2]}
		}
		if len(args) != 2 {
			c.fail("a wrong declaration")
			return
		}
		c.declare(args[0], c.sort(args[1]))
	case "define-fun":
		if len(args) != 4 || args[1].kind != '(' || len(args[1].list) != 0 {
			c.fail("a defined function that is no constant")
			return
		}
		s := c.sort(args[2])
		if c.term(args[3]) != s {
			c.fail("a definition of another sort than it says")
		}
		c.declare(args[0], s)
		c.defined++
	case "assert":
		if len(args) != 1 || c.term(args[0]) != 0 {
			c.fail("an assertion that is not Boolean")
		}
		if c.checks > 0 {
			c.fail("an assertion after the check")
		}
		c.asserts++
	case "check-sat":
		if len(args) != 0 {
			c.fail("a wrong check-sat")
		}
		if c.asserts == 0 {
			c.fail("a check before the assertion")
		}
		c.checks++
	case "exit":
		if len(args) != 0 {
			c.fail("a wrong exit")
		}
		c.exited = true
		return
	default:
		c.fail("the command " + name)
	}
	switch x.list[0].text {
	case "set-info", "set-option", "set-logic":
	default:
		if !c.logic {
			c.fail("no logic before " + x.list[0].text)
		}
	}
}

func (c *script) declare(sym *sx, sort int) {
	switch sym.kind {
	case 's':
		if among(sym.text, reservedWords) {
			c.fail("the reserved word " + sym.text + " is declared")
		}
	case 'q':
	default:
		c.fail("a declared name that is no symbol: " + sym.text)
	}
	if len(sym.text) > 0 && (sym.text[0] == '@' || sym.text[0] == '.') {
		c.fail("a symbol kept for solvers is declared: " + sym.text)
	}
	if among(sym.text, theorySymbols) {
		c.fail("the theory symbol " + sym.text + " is declared")
	}
	for _, n := range c.names {
		if n == sym.text {
			c.fail(sym.text + " is declared twice")
		}
	}
	if sort < 0 {
		c.fail("a constant without a sort")
	}
	c.names = append(c.names, sym.text)
	c.sorts = append(c.sorts, sort)
}

func (c *script) sort(x *sx) int {
	if x.is("Bool") {
		return 0
	}
	if x.kind == '(' && len(x.list) == 3 && x.list[0].is("_") && x.list[1].is("BitVec") && x.list[2].kind == 'n' {
		if n := decimal(x.list[2].text); n > 0 {
			return n
		}
	}
	c.fail("something that is no sort")
	return -1
}

func decimal(s string) int {
	n := 0
	for _, d := range []byte(s) {
		if !digit(d) || n > 1e6 {
			return -1
		}
		n = n*10 + int(d-'0')
	}
	return n
}

func (c *script) term(x *sx) int {
	switch x.kind {
	case 'h':
		return 4 * len(x.text)
	case 'b':
		return len(x.text)
	case 's', 'q':
		for i := len(c.locals) - 1; i >= 0; i-- {
			if c.locals[i] == x.text {
				return c.lsorts[i]
			}
		}
		for i, n := range c.names {
			if n == x.text {
				return c.sorts[i]
			}
		}
		if x.kind == 's' && (x.text == "true" || x.text == "false") {
			return 0
		}
		c.fail(x.text + " is used and not declared")
		return -1
	case '(':
	default:
		c.fail("something that is no term: " + x.text)
		return -1
	}
	if len(x.list) < 2 {
		c.fail("an empty term")
		return -1
	}
	head, rest := x.list[0], x.list[1:]
	if head.is("let") {
		if len(rest) != 2 || rest[0].kind != '(' {
			c.fail("a wrong let")
			return -1
		}
		var ns []string
		var ss []int
		for _, b := range rest[0].list {
			if b.kind != '(' || len(b.list) != 2 || b.list[0].kind != 's' && b.list[0].kind != 'q' {
				c.fail("a wrong let")
				return -1
			}
			ns = append(ns, b.list[0].text)
			ss = append(ss, c.term(b.list[1]))
		}
		k := len(c.locals)
		c.locals = append(c.locals, ns...)
		c.lsorts = append(c.lsorts, ss...)
		s := c.term(rest[1])
		c.locals, c.lsorts = c.locals[:k], c.lsorts[:k]
		return s
	}
	if head.is("_") {
		// (_ bvN w)
		if len(rest) == 2 && rest[0].kind == 's' && len(rest[0].text) > 2 && rest[0].text[:2] == "bv" && decimal(rest[0].text[2:]) >= 0 && rest[1].kind == 'n' {
			return decimal(rest[1].text)
		}
		c.fail("an indexed term that is unknown")
		return -1
	}
	if head.kind != 's' {
		c.fail("an application of no function")
		return -1
	}
	for _, n := range c.names {
		if n == head.text {
			c.fail("the constant " + n + " is applied")
		}
	}
	var ss []int
	for _, a := range rest {
		s := c.term(a)
		if s < 0 {
			return -1
		}
		ss = append(ss, s)
	}
	equal := true
	for _, s := range ss {
		if s != ss[0] {
			equal = false
		}
	}
	bad := func() int {
		c.fail("arguments of a wrong sort or number for " + head.text)
		return -1
	}
	switch head.text {
	case "not":
		if len(ss) != 1 || ss[0] != 0 {
			return bad()
		}
		return 0
	case "and", "or", "xor", "=>":
		if len(ss) < 2 || !equal || ss[0] != 0 {
			return bad()
		}
		return 0
	case "=", "distinct":
		if len(ss) < 2 || !equal {
			return bad()
		}
		return 0
	case "ite":
		if len(ss) != 3 || ss[0] != 0 || ss[1] != ss[2] {
			return bad()
		}
		return ss[1]
	case "bvnot", "bvneg":
		if len(ss) != 1 || ss[0] == 0 {
			return bad()
		}
		return ss[0]
	case "bvand", "bvor", "bvadd", "bvmul", "bvxor":
		if len(ss) < 2 || !equal || ss[0] == 0 {
			return bad()
		}
		return ss[0]
	case "bvsub", "bvnand", "bvnor", "bvxnor", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvsmod", "bvshl", "bvlshr", "bvashr":
		if len(ss) != 2 || !equal || ss[0] == 0 {
			return bad()
		}
		return ss[0]
	case "bvcomp":
		if len(ss) != 2 || !equal || ss[0] == 0 {
			return bad()
		}
		return 1
	case "bvult", "bvule", "bvugt", "bvuge", "bvslt", "bvsle", "bvsgt", "bvsge":
		if len(ss) != 2 || !equal || ss[0] == 0 {
			return bad()
		}
		return 0
	case "concat":
		if len(ss) != 2 || ss[0] == 0 || ss[1] == 0 {
			return bad()
		}
		return ss[0] + ss[1]
	}
	c.fail("the unknown function " + head.text)
	return -1
}

// ---- the modelled operations

// operation says how many arguments an opcode takes and at which width it works; width 0 is Boolean.
type operation struct {
	name  string
	arity int
	width int
	fn    string // SMT-LIB function; "neq" for the one that has none
}

var modelled = func() []operation {
	var ops []operation
	for _, w := range []int{8, 16, 32, 64} {
		for _, f := range []operation{{"Add", 2, w, "bvadd"}, {"Sub", 2, w, "bvsub"}, {"And", 2, w, "bvand"}, {"Or", 2, w, "bvor"}, {"Xor", 2, w, "bvxor"}, {"Neg", 1, w, "bvneg"}, {"Com", 1, w, "bvnot"}} {
			f.name += itoa(w)
			ops = append(ops, f)
		}
	}
	return append(ops, operation{"AndB", 2, 0, "and"}, operation{"OrB", 2, 0, "or"}, operation{"EqB", 2, 0, "="}, operation{"NeqB", 2, 0, "neq"}, operation{"Not", 1, 0, "not"})
}()

func findOp(name string) (operation, bool) {
	for _, o := range modelled {
		if o.name == name {
			return o, true
		}
	}
	return operation{}, false
}

// opsOf are the modelled operations at a width.
func opsOf(w int) []operation {
	var out []operation
	for _, o := range modelled {
		if o.width == w {
			out = append(out, o)
		}
	}
	return out
}

// meaning reads a rule by the table above: its constants with their widths and the two terms.
type meaning struct {
	ok     bool
	vars   []string
	widths []int
	holes  int
}

func (m *meaning) fresh(name string, w int) {
	m.vars = append(m.vars, name)
	m.widths = append(m.widths, w)
}

// term is the SMT-LIB term of a value at width w; constants are named c0, c1 ...
func (m *meaning) term(v ast.Value, w int) string {
	switch v := v.(type) {
	case ast.Variable:
		if v == "_" {
			m.fresh("_", w)
			m.holes++
			return "c" + itoa(len(m.vars)-1)
		}
		for i, n := range m.vars {
			if n == string(v) {
				if m.widths[i] != w {
					m.ok = false
				}
				return "c" + itoa(i)
			}
		}
		m.fresh(string(v), w)
		return "c" + itoa(len(m.vars)-1)
	case *ast.SExpr:
		name, isop := v.Op.(ast.Opcode)
		if v.Binding != "" || v.Type != "" || v.AuxInt != nil || v.Aux != nil || v.Ellipsis || v.Trailing || !isop {
			m.ok = false
			return ""
		}
		op, known := findOp(string(name))
		if !known || len(v.Args) != op.arity || op.width != w {
			m.ok = false
			return ""
		}
		fn := op.fn
		if fn == "neq" {
			fn = "distinct"
		}
		s := "(" + fn
		for _, a := range v.Args {
			s += " " + m.term(a, w)
		}
		return s + ")"
	}
	m.ok = false
	return ""
}

// refScript is a script for the rule; ok: the rule is one that can be represented.
func refScript(r *ast.Rule) (string, *meaning) {
	m := &meaning{ok: true}
	s, isexpr := r.Match.(*ast.SExpr)
	if !isexpr || r.Condition != nil || r.Block != "" {
		m.ok = false
		return "", m
	}
	name, isop := s.Op.(ast.Opcode)
	op, known := findOp(string(name))
	if !isop || !known {
		m.ok = false
		return "", m
	}
	a := m.term(r.Match, op.width)
	b := m.term(r.Result, op.width)
	if !m.ok {
		return "", m
	}
	t := "(set-logic QF_BV)\n"
	for i, w := range m.widths {
		sort := "Bool"
		if w > 0 {
			sort = "(_ BitVec " + itoa(w) + ")"
		}
		t += "(declare-fun c" + itoa(i) + " () " + sort + ")\n"
	}
	return t + "(assert (distinct " + a + " " + b + "))\n(check-sat)\n", m
}
