package h

import (
	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/internal/zzverif/nd"
	"github.com/mmcloughlin/ssarules/pass"
)

// held remembers a rule list and everything its rules consist of.
type heldRules struct {
	list   []*ast.Rule // the caller's slice itself
	rules  []*ast.Rule
	rule   []string
	values []ast.Value
	value  []string
	ops    []ast.Op
	op     []string
	alts   []ast.OpcodeAlt
	alt    []string
	fields []ast.Rule    // of the rules
	args   [][]ast.Value // the elements of every argument list
	lists  [][]ast.Value // and the lists
}

func hold(list []*ast.Rule) *heldRules {
	h := &heldRules{list: list, rules: append([]*ast.Rule(nil), list...)}
	for _, r := range list {
		h.rule = append(h.rule, dumpRule(r))
		h.fields = append(h.fields, *r)
		h.add(r.Match)
		h.add(r.Result)
	}
	return h
}

func (h *heldRules) add(v ast.Value) {
	h.values = append(h.values, v)
	h.value = append(h.value, dumpValue(v))
	s, ok := v.(*ast.SExpr)
	if !ok {
		return
	}
	h.ops = append(h.ops, s.Op)
	h.op = append(h.op, dumpOp(s.Op))
	if ps, ok := s.Op.(ast.OpcodeParts); ok {
		for _, p := range ps {
			if a, ok := p.(ast.OpcodeAlt); ok {
				h.alts = append(h.alts, a)
				h.alt = append(h.alt, dumpPart(a))
			}
		}
	}
	h.lists = append(h.lists, s.Args)
	h.args = append(h.args, append([]ast.Value(nil), s.Args...))
	for _, a := range s.Args {
		h.add(a)
	}
}

// check: nothing of it changed.
func (h *heldRules) check(what string) {
	for i, r := range h.rules {
		nd.Assert(h.list[i] == r, what+" put another rule into the caller's list at "+itoa(i))
		nd.Assert(dumpRule(r) == h.rule[i], what+" changed rule "+itoa(i)+" from "+h.rule[i]+" to "+dumpRule(r))
	}
	for i, r := range h.rules {
		f := h.fields[i]
		nd.Assert(r.Match == f.Match && r.Result == f.Result && r.Condition == f.Condition, what+" put another value into rule "+itoa(i))
	}
	for i, l := range h.lists {
		for k, a := range h.args[i] {
			nd.Assert(l[k] == a, what+" put another value into an argument list")
		}
	}
	for i, v := range h.values {
		nd.Assert(dumpValue(v) == h.value[i], what+" changed a value from "+h.value[i]+" to "+dumpValue(v))
	}
	for i, o := range h.ops {
		nd.Assert(dumpOp(o) == h.op[i], what+" changed an operator from "+h.op[i]+" to "+dumpOp(o))
	}
	for i, a := range h.alts {
		nd.Assert(dumpPart(a) == h.alt[i], what+" changed an alternation from "+h.alt[i]+" to "+dumpPart(a))
	}
}

// checkIntact expands twice and looks at the originals, and at the first expansion, after each call.
func checkIntact(f *ast.File) {
	h := hold(f.Rules)
	err := pass.ExpandAlternates(f)
	h.check("expansion")
	if err != nil {
		nd.Reach("refused")
		// again: the same refusal
		err2 := pass.ExpandAlternates(f)
		nd.Assert(err2 != nil, "refused once, not the second time")
		h.check("the second expansion")
		return
	}
	once := dumpFile(f)
	nd.Observe("once", once)
	g := hold(f.Rules)
	err = pass.ExpandAlternates(f)
	if err != nil {
		nd.Assert(false, "expanding again failed: "+err.Error())
		return
	}
	nd.Assert(dumpFile(f) == once, "expanding again changed "+once+" to "+dumpFile(f))
	h.check("the second expansion")
	g.check("the second expansion")
	// a file over the original rules expands to the same again
	f2 := &ast.File{Rules: h.list}
	err = pass.ExpandAlternates(f2)
	nd.Assert(err == nil && dumpFile(f2) == once, "the original rules expanded to "+dumpFile(f2)+" the second time, to "+once+" the first time")
	nd.Reach("intact")
}

// C13Places: alternations of arg entries at any of six places.
func C13Places(arg int) {
	checkIntact(&ast.File{Rules: []*ast.Rule{skeleton(func(i int) ast.Op {
		if nd.Choose(2) == 1 {
			return ast.OpcodeParts{ast.Opcode("O" + itoa(i)), altOf(arg)}
		}
		return ast.Opcode("O" + itoa(i))
	})}})
}

// C13Forms: operators of any form; all features on a node; several rules.
func C13Forms(arg int) {
	in := &ast.SExpr{Op: altOp(nd.Choose(altForms), 2), Args: []ast.Value{ast.Variable(name("x"))}}
	m := &ast.SExpr{Op: altOp(nd.Choose(altForms), 2), Args: []ast.Value{ast.Variable("w"), in, ast.Placeholder, goExpr("g(x)")}}
	decorate([]*ast.SExpr{m, in}[nd.Choose(2)], 63)
	r := &ast.Rule{Match: m, Condition: goExpr("p(x)"), Block: "b", Result: ast.Variable("r")}
	if nd.Choose(2) == 1 {
		r.Match, r.Result = r.Result, r.Match
	}
	// a shared value: the same node on both sides
	if nd.Choose(2) == 1 {
		r.Match, r.Result = m, in
	}
	f := &ast.File{Rules: []*ast.Rule{{Match: ast.Variable("a"), Result: ast.Variable("b")}, r}}
	checkIntact(f)
}

// C13Room: the caller's slices have room behind their ends that holds other things.
func C13Room(arg int) {
	alts := ast.OpcodeAlt{"1", "2", "3"}
	parts := ast.OpcodeParts{ast.Opcode("P"), alts[:2], ast.Opcode("unused")}
	w := 1 + nd.Choose(2)
	args := []ast.Value{ast.Variable("x"), &ast.SExpr{Op: parts[:2]}, ast.Variable("unused1"), ast.Variable("unused2")}
	rules := []*ast.Rule{}
	for i := 0; i < 4; i++ {
		var op ast.Op = ast.Opcode("R" + itoa(i))
		if nd.Choose(2) == 1 {
			op = ast.OpcodeParts{ast.Opcode("R" + itoa(i)), alts[:2]}
		}
		rules = append(rules, &ast.Rule{Match: &ast.SExpr{Op: op, Args: args[:w]}, Result: &ast.SExpr{Op: ast.Opcode("S"), Args: args[:2]}})
	}
	n := 1 + nd.Choose(3)
	all := hold(rules)
	h := hold(rules[:n])
	checkIntact(&ast.File{Rules: rules[:n]})
	all.check("expansion")
	h.check("expansion")
	nd.Assert(dumpPart(alts) == dumpPart(ast.OpcodeAlt{"1", "2", "3"}), "expansion wrote behind an alternation")
	nd.Assert(dumpOp(parts) == dumpOp(ast.OpcodeParts{ast.Opcode("P"), ast.OpcodeAlt{"1", "2"}, ast.Opcode("unused")}), "expansion wrote behind operator parts")
	nd.Assert(dumpValue(args[2]) == mkVar("unused1") && dumpValue(args[3]) == mkVar("unused2"), "expansion wrote behind arguments")
}

// C13Error: a bad rule after arg fine ones leaves all as they were.
func C13Error(arg int) {
	f := &ast.File{}
	for i := 0; i < arg; i++ {
		f.Rules = append(f.Rules, &ast.Rule{Match: &ast.SExpr{Op: altOp(nd.Choose(altForms), 2)}, Result: ast.Variable("r")})
	}
	f.Rules = append(f.Rules, badRule())
	h := hold(f.Rules)
	err := pass.ExpandAlternates(f)
	nd.Assert(err != nil, "expanded a rule that is not well formed")
	h.check("the failed expansion")
}
