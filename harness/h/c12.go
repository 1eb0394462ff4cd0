package h

import (
	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/internal/zzverif/nd"
	"github.com/mmcloughlin/ssarules/pass"
)

// C12Widths: no alternation or one of 2 or 3 entries at each of six places.
func C12Widths(arg int) {
	checkExpansion(&ast.File{Rules: []*ast.Rule{skeleton(func(i int) ast.Op {
		w := nd.Choose(3) + 1
		if w == 1 {
			return ast.Opcode("O" + itoa(i))
		}
		a := ast.OpcodeAlt{"a", "b", "c"}[:w]
		return ast.OpcodeParts{ast.Opcode("O" + itoa(i)), a}
	})}})
}

// C12Within: two or three alternations of any widths 2..arg in one operator, or split over two places.
func C12Within(arg int) {
	w := func() int { return 2 + nd.Choose(arg-1) }
	var p, q ast.OpcodeParts
	for i := 0; i < 3; i++ {
		if nd.Choose(2) == 1 {
			p = append(p, ast.Opcode("K"))
		}
		p = append(p, altOf(w()))
	}
	k := nd.Choose(3)
	if k > 0 {
		q = append(q, p[len(p)-k:]...)
		p = p[:len(p)-k]
	}
	r := &ast.Rule{Match: &ast.SExpr{Op: p}, Result: ast.Variable("z")}
	if len(q) > 0 {
		hasAlt := false
		for _, x := range q {
			if _, ok := x.(ast.OpcodeAlt); ok {
				hasAlt = true
			}
		}
		nd.Assume(hasAlt)
		hasAlt = false
		for _, x := range p {
			if _, ok := x.(ast.OpcodeAlt); ok {
				hasAlt = true
			}
		}
		nd.Assume(hasAlt)
		r.Result = &ast.SExpr{Op: ast.Opcode("N"), Args: []ast.Value{&ast.SExpr{Op: q}}}
	}
	checkExpansion(&ast.File{Rules: []*ast.Rule{r}})
}

// C12Wide: two alternations of many entries, equal or one apart, at any two places; arg = entries.
func C12Wide(arg int) {
	a := nd.Choose(6)
	b := nd.Choose(6)
	more := nd.Choose(3)
	alt := func(n int) ast.OpcodeAlt {
		var x ast.OpcodeAlt
		for i := 0; i < n; i++ {
			x = append(x, ast.Opcode("e"+itoa(i)))
		}
		return x
	}
	checkExpansion(&ast.File{Rules: []*ast.Rule{skeleton(func(i int) ast.Op {
		switch i {
		case a:
			return ast.OpcodeParts{ast.Opcode("O"), alt(arg)}
		case b:
			return ast.OpcodeParts{ast.Opcode("O"), alt(arg + more - 1)}
		}
		return ast.Opcode("O" + itoa(i))
	})}})
}

// bad pieces of a tree

type oddValue struct{ ast.Value }
type oddOp struct{ ast.Op }
type oddPart struct{ ast.OpPart }

func badOp(k int) ast.Op {
	switch k {
	case 0:
		return nil
	case 1:
		return oddOp{ast.Opcode("A")}
	case 2:
		return ast.OpcodeParts{}
	case 3:
		return ast.OpcodeParts(nil)
	case 4:
		return ast.OpcodeParts{ast.Opcode("A"), nil, ast.OpcodeAlt{"8", "16"}}
	case 5:
		return ast.OpcodeParts{ast.OpcodeAlt{"8", "16"}, oddPart{ast.Opcode("A")}}
	case 6:
		return ast.OpcodeParts{ast.Opcode("A"), ast.OpcodeAlt{}}
	case 7:
		return ast.OpcodeParts{ast.Opcode("A"), ast.OpcodeAlt{"8", "16"}, ast.OpcodeAlt(nil)}
	case 8:
		return ast.OpcodeParts{nil}
	case 9:
		return ast.OpcodeParts{ast.OpcodeAlt{}, ast.OpcodeAlt{"8", "16"}}
	}
	return ast.OpcodeParts{ast.OpcodeAlt{"8", "16"}, ast.OpcodeAlt{"8", "16", "32"}}
}

const badOps = 11

// badRule has one bad piece somewhere; the other operators have alternations or not.
func badRule() *ast.Rule {
	place := nd.Choose(8)
	k := nd.Choose(badOps)
	alts := nd.Choose(2) == 1
	r := skeleton(func(i int) ast.Op {
		if i == place {
			return badOp(k)
		}
		if alts {
			return ast.OpcodeParts{ast.Opcode("O" + itoa(i)), ast.OpcodeAlt{"8", "16"}}
		}
		return ast.Opcode("O" + itoa(i))
	})
	if place < 6 {
		return r
	}
	var bad ast.Value
	if k%2 == 1 {
		bad = oddValue{ast.Variable("x")}
	}
	nd.Assume(k < 2)
	m := r.Match.(*ast.SExpr)
	res := r.Result.(*ast.SExpr)
	if place == 6 {
		switch nd.Choose(4) {
		case 0:
			r.Match = bad
		case 1:
			m.Args[0].(*ast.SExpr).Args[0].(*ast.SExpr).Args[0] = bad
		case 2:
			m.Args[2] = bad
		case 3:
			m.Args[2].(*ast.SExpr).Args = []ast.Value{ast.Variable("o"), bad}
		}
	} else {
		switch nd.Choose(3) {
		case 0:
			r.Result = bad
		case 1:
			res.Args[1] = bad
		case 2:
			res.Args[0].(*ast.SExpr).Args = []ast.Value{bad}
		}
	}
	return r
}

// C12Bad: a bad rule at any place among arg rules.
func C12Bad(arg int) {
	at := nd.Choose(arg)
	f := &ast.File{}
	for i := 0; i < arg; i++ {
		if i == at {
			f.Rules = append(f.Rules, badRule())
			continue
		}
		f.Rules = append(f.Rules, &ast.Rule{Match: &ast.SExpr{Op: ast.OpcodeParts{ast.Opcode("G"), ast.OpcodeAlt{"1", "2"}}}, Result: ast.Variable("g" + itoa(i))})
	}
	held := append([]*ast.Rule(nil), f.Rules...)
	var before []string
	for _, r := range held {
		before = append(before, dumpRule(r))
	}
	err := pass.ExpandAlternates(f)
	nd.Assert(err != nil, "expanded a file with a rule that is not well formed: "+before[at])
	checkUnchanged(f, held, before)
	nd.Reach("refused")
}

// C12Files: files of arg rules, each fine or with mismatched alternations.
func C12Files(arg int) {
	f := &ast.File{}
	for i := 0; i < arg; i++ {
		m := 2 + nd.Choose(2)
		n := 2 + nd.Choose(2)
		a := ast.OpcodeAlt{"1", "2", "3"}
		f.Rules = append(f.Rules, &ast.Rule{Match: &ast.SExpr{Op: ast.OpcodeParts{ast.Opcode("M" + itoa(i)), a[:m]}}, Result: &ast.SExpr{Op: ast.OpcodeParts{ast.Opcode("N"), a[:n]}}})
	}
	checkExpansion(f)
}

// C12Single: an alternation of one entry anywhere, next to others: whatever comes back, there is no panic and an error changes nothing.
func C12Single(arg int) {
	r := skeleton(func(i int) ast.Op {
		switch nd.Choose(3) {
		case 0:
			return ast.OpcodeParts{ast.Opcode("O"), ast.OpcodeAlt{"1"}}
		case 1:
			return ast.OpcodeParts{ast.OpcodeAlt{"8"}, ast.OpcodeAlt{"16", "32"}}
		}
		return ast.Opcode("O" + itoa(i))
	})
	held := []*ast.Rule{r}
	before := []string{dumpRule(r)}
	f := &ast.File{Rules: []*ast.Rule{r}}
	if err := pass.ExpandAlternates(f); err != nil {
		checkUnchanged(f, held, before)
		nd.Reach("refused")
		return
	}
	nd.Reach("expanded")
}
