From 7f4eca0a3a1ecd11700e3fcacb8a6ba4522a7565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:27 +0000
Subject: [PATCH 1/9] fix: accept a comment that ends the text without a
 newline

---
 parse/internal/parser/zparser.go | 102 -------------------------------
 parse/rules.peg                  |   2 +-
 2 files changed, 1 insertion(+), 103 deletions(-)

diff --git a/parse/internal/parser/zparser.go b/parse/internal/parser/zparser.go
index 3e662e2..5a4e159 100644
--- a/parse/internal/parser/zparser.go
+++ b/parse/internal/parser/zparser.go
@@ -68,12 +68,6 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
-															},
 														},
 													},
 													&charClassMatcher{
@@ -114,12 +108,6 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
-															},
 														},
 													},
 													&charClassMatcher{
@@ -195,12 +183,6 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
-															},
 														},
 													},
 													&charClassMatcher{
@@ -243,12 +225,6 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
-															},
 														},
 													},
 													&charClassMatcher{
@@ -313,12 +289,6 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
-											},
 										},
 									},
 									&charClassMatcher{
@@ -361,12 +331,6 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
-											},
 										},
 									},
 									&charClassMatcher{
@@ -446,12 +410,6 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
-											},
 										},
 									},
 									&charClassMatcher{
@@ -577,12 +535,6 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
-											},
 										},
 									},
 									&charClassMatcher{
@@ -735,12 +687,6 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
-															},
 														},
 													},
 													&charClassMatcher{
@@ -793,12 +739,6 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
-															},
 														},
 													},
 													&charClassMatcher{
@@ -853,12 +793,6 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
-															},
 														},
 													},
 													&charClassMatcher{
@@ -905,12 +839,6 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
-											},
 										},
 									},
 									&charClassMatcher{
@@ -1160,12 +1088,6 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
-											},
 										},
 									},
 									&charClassMatcher{
@@ -1211,12 +1133,6 @@ var g = &grammar{
 																inverted:   true,
 															},
 														},
-														&litMatcher{
-															pos:        position{line: 202, col: 8, offset: 3662},
-															val:        "\n",
-															ignoreCase: false,
-															want:       "\"\\n\"",
-														},
 													},
 												},
 												&charClassMatcher{
@@ -1259,12 +1175,6 @@ var g = &grammar{
 																inverted:   true,
 															},
 														},
-														&litMatcher{
-															pos:        position{line: 202, col: 8, offset: 3662},
-															val:        "\n",
-															ignoreCase: false,
-															want:       "\"\\n\"",
-														},
 													},
 												},
 												&charClassMatcher{
@@ -1305,12 +1215,6 @@ var g = &grammar{
 																inverted:   true,
 															},
 														},
-														&litMatcher{
-															pos:        position{line: 202, col: 8, offset: 3662},
-															val:        "\n",
-															ignoreCase: false,
-															want:       "\"\\n\"",
-														},
 													},
 												},
 												&charClassMatcher{
@@ -1350,12 +1254,6 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
-											},
 										},
 									},
 									&charClassMatcher{
diff --git a/parse/rules.peg b/parse/rules.peg
index 8d8201f..675d62b 100644
--- a/parse/rules.peg
+++ b/parse/rules.peg
@@ -194,7 +194,7 @@ Skip <- (Comment / Whitespace / EOL)
 
 // Comments
 
-Comment <- "//" [^\n]* EOL
+Comment <- "//" [^\n]*
 
 // Character classes
 
-- 
2.43.0


From 30a3aba889a9180283c60a45324991981978d908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:49 +0000
Subject: [PATCH 2/9] fix: end a block at a newline as at any other blank

---
 parse/internal/parser/zparser.go | 4 ++--
 parse/rules.peg                  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/parse/internal/parser/zparser.go b/parse/internal/parser/zparser.go
index 5a4e159..609e8e9 100644
--- a/parse/internal/parser/zparser.go
+++ b/parse/internal/parser/zparser.go
@@ -369,8 +369,8 @@ var g = &grammar{
 															pos: position{line: 184, col: 16, offset: 3443},
 															expr: &charClassMatcher{
 																pos:        position{line: 201, col: 15, offset: 3647},
-																val:        "[ \\t\\r]",
-																chars:      []rune{' ', '\t', '\r'},
+																val:        "[ \\t\\r\\n]",
+																chars:      []rune{' ', '\t', '\r', '\n'},
 																ignoreCase: false,
 																inverted:   false,
 															},
diff --git a/parse/rules.peg b/parse/rules.peg
index 675d62b..a15e813 100644
--- a/parse/rules.peg
+++ b/parse/rules.peg
@@ -181,7 +181,7 @@ Condition <- ( . !"=>" )+ {
 
 // Block
 
-Block <- '@' ( !Whitespace .)+ {
+Block <- '@' ( !Whitespace !EOL . )+ {
     return string(c.text[1:]), nil
 }
 
-- 
2.43.0


From ec3c5cbce7122218b621a18bece72f124bba845d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:54 +0000
Subject: [PATCH 3/9] fix: accept a text that holds only blanks and comments

---
 parse/internal/parser/zparser.go | 74 ++++++++++++++++----------------
 parse/rules.peg                  |  4 +-
 2 files changed, 39 insertions(+), 39 deletions(-)

diff --git a/parse/internal/parser/zparser.go b/parse/internal/parser/zparser.go
index 609e8e9..9b06752 100644
--- a/parse/internal/parser/zparser.go
+++ b/parse/internal/parser/zparser.go
@@ -36,6 +36,42 @@ var g = &grammar{
 				expr: &seqExpr{
 					pos: position{line: 19, col: 9, offset: 152},
 					exprs: []interface{}{
+						&zeroOrMoreExpr{
+							pos: position{line: 191, col: 6, offset: 3525},
+							expr: &choiceExpr{
+								pos: position{line: 193, col: 10, offset: 3541},
+								alternatives: []interface{}{
+									&seqExpr{
+										pos: position{line: 197, col: 12, offset: 3594},
+										exprs: []interface{}{
+											&litMatcher{
+												pos:        position{line: 197, col: 12, offset: 3594},
+												val:        "//",
+												ignoreCase: false,
+												want:       "\"//\"",
+											},
+											&zeroOrMoreExpr{
+												pos: position{line: 197, col: 17, offset: 3599},
+												expr: &charClassMatcher{
+													pos:        position{line: 197, col: 17, offset: 3599},
+													val:        "[^\\n]",
+													chars:      []rune{'\n'},
+													ignoreCase: false,
+													inverted:   true,
+												},
+											},
+										},
+									},
+									&charClassMatcher{
+										pos:        position{line: 201, col: 15, offset: 3647},
+										val:        "[ \\t\\r\\n]",
+										chars:      []rune{' ', '\t', '\r', '\n'},
+										ignoreCase: false,
+										inverted:   false,
+									},
+								},
+							},
+						},
 						&labeledExpr{
 							pos:   position{line: 19, col: 9, offset: 152},
 							label: "rs",
@@ -44,42 +80,6 @@ var g = &grammar{
 								expr: &seqExpr{
 									pos: position{line: 19, col: 14, offset: 157},
 									exprs: []interface{}{
-										&zeroOrMoreExpr{
-											pos: position{line: 191, col: 6, offset: 3525},
-											expr: &choiceExpr{
-												pos: position{line: 193, col: 10, offset: 3541},
-												alternatives: []interface{}{
-													&seqExpr{
-														pos: position{line: 197, col: 12, offset: 3594},
-														exprs: []interface{}{
-															&litMatcher{
-																pos:        position{line: 197, col: 12, offset: 3594},
-																val:        "//",
-																ignoreCase: false,
-																want:       "\"//\"",
-															},
-															&zeroOrMoreExpr{
-																pos: position{line: 197, col: 17, offset: 3599},
-																expr: &charClassMatcher{
-																	pos:        position{line: 197, col: 17, offset: 3599},
-																	val:        "[^\\n]",
-																	chars:      []rune{'\n'},
-																	ignoreCase: false,
-																	inverted:   true,
-																},
-															},
-														},
-													},
-													&charClassMatcher{
-														pos:        position{line: 201, col: 15, offset: 3647},
-														val:        "[ \\t\\r\\n]",
-														chars:      []rune{' ', '\t', '\r', '\n'},
-														ignoreCase: false,
-														inverted:   false,
-													},
-												},
-											},
-										},
 										&ruleRefExpr{
 											pos:  position{line: 19, col: 16, offset: 159},
 											name: "Rule",
@@ -1282,7 +1282,7 @@ var g = &grammar{
 func (c *current) onFile1(rs interface{}) (interface{}, error) {
 	f := &ast.File{}
 	for _, i := range rs.([]interface{}) {
-		r := i.([]interface{})[1].(*ast.Rule)
+		r := i.([]interface{})[0].(*ast.Rule)
 		f.Rules = append(f.Rules, r)
 	}
 	return f, nil
diff --git a/parse/rules.peg b/parse/rules.peg
index a15e813..4a0f6b0 100644
--- a/parse/rules.peg
+++ b/parse/rules.peg
@@ -16,10 +16,10 @@ type (
 
 // File
 
-File <- rs:( _ Rule _ )* EOF {
+File <- _ rs:( Rule _ )* EOF {
     f := &ast.File{}
     for _, i := range rs.([]interface{}) {
-        r := i.([]interface{})[1].(*ast.Rule)
+        r := i.([]interface{})[0].(*ast.Rule)
         f.Rules = append(f.Rules, r)
     }
     return f, nil
-- 
2.43.0


From 766faf77dca6cf269bfdbc37cdebbc4ff4cecb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 4/9] fix: reject a second type, auxint or aux instead of
 dropping the first

---
 parse/internal/parser/zparser.go | 9 +++++++++
 parse/rules.peg                  | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/parse/internal/parser/zparser.go b/parse/internal/parser/zparser.go
index 9b06752..4929d67 100644
--- a/parse/internal/parser/zparser.go
+++ b/parse/internal/parser/zparser.go
@@ -1436,10 +1436,19 @@ func (c *current) onSExpr1(binding, op, operands, ellipsis, trailing interface{}
 	for _, is := range operands.([]interface{}) {
 		switch operand := is.([]interface{})[1].(type) {
 		case ast.Type:
+			if s.Type != "" {
+				return nil, errors.New("multiple types")
+			}
 			s.Type = operand
 		case *valueauxint:
+			if s.AuxInt != nil {
+				return nil, errors.New("multiple auxint values")
+			}
 			s.AuxInt = (*ast.Expr)(operand)
 		case *valueaux:
+			if s.Aux != nil {
+				return nil, errors.New("multiple aux values")
+			}
 			s.Aux = (*ast.Expr)(operand)
 		case ast.Value:
 			s.Args = append(s.Args, operand)
diff --git a/parse/rules.peg b/parse/rules.peg
index 4a0f6b0..e593ddf 100644
--- a/parse/rules.peg
+++ b/parse/rules.peg
@@ -58,10 +58,19 @@ SExpr <- binding:( Variable ':' )? '(' _ op:Op operands:( __ Operand )* ellipsis
     for _, is := range operands.([]interface{}) {
         switch operand := is.([]interface{})[1].(type) {
         case ast.Type:
+            if s.Type != "" {
+                return nil, errors.New("multiple types")
+            }
             s.Type = operand
         case *valueauxint:
+            if s.AuxInt != nil {
+                return nil, errors.New("multiple auxint values")
+            }
             s.AuxInt = (*ast.Expr)(operand)
         case *valueaux:
+            if s.Aux != nil {
+                return nil, errors.New("multiple aux values")
+            }
             s.Aux = (*ast.Expr)(operand)
         case ast.Value:
             s.Args = append(s.Args, operand)
-- 
2.43.0


From 5cfa98ba06689759f58fee057170f423e40aa3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:54 +0000
Subject: [PATCH 5/9] fix: keep neighbouring Go operators apart when printing

---
 printer/printer.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/printer/printer.go b/printer/printer.go
index 5cdcc71..f8758ef 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -192,6 +192,9 @@ func (p *printer) goexpr(expr goast.Expr) {
 		p.printf(")")
 	case *goast.UnaryExpr:
 		p.printf("%s", e.Op)
+		if merges(e.Op, e.X) {
+			p.printf(" ")
+		}
 		p.goexpr(e.X)
 	case *goast.BinaryExpr:
 		p.goexpr(e.X)
@@ -199,6 +202,9 @@ func (p *printer) goexpr(expr goast.Expr) {
 			p.printf(" %s ", e.Op)
 		} else {
 			p.printf("%s", e.Op)
+			if merges(e.Op, e.Y) {
+				p.printf(" ")
+			}
 		}
 		p.goexpr(e.Y)
 	case *goast.CallExpr:
@@ -216,12 +222,39 @@ func (p *printer) goexpr(expr goast.Expr) {
 		p.goexpr(e.X)
 	case *goast.SelectorExpr:
 		p.goexpr(e.X)
+		if lit, ok := e.X.(*goast.BasicLit); ok && lit.Kind == gotoken.INT {
+			// Keep the dot apart from the number.
+			p.printf(" ")
+		}
 		p.printf(".%s", e.Sel)
 	default:
 		p.seterror(errutil.UnexpectedType(expr))
 	}
 }
 
+// merges reports whether op printed directly in front of x would read as a
+// different operator or start a comment.
+func merges(op gotoken.Token, x goast.Expr) bool {
+	switch e := x.(type) {
+	case *goast.BinaryExpr:
+		return merges(op, e.X)
+	case *goast.CallExpr:
+		return merges(op, e.Fun)
+	case *goast.SelectorExpr:
+		return merges(op, e.X)
+	case *goast.StarExpr:
+		return op == gotoken.QUO
+	case *goast.UnaryExpr:
+		switch op {
+		case gotoken.ADD, gotoken.SUB:
+			return e.Op == op
+		case gotoken.AND:
+			return e.Op == gotoken.AND || e.Op == gotoken.XOR
+		}
+	}
+	return false
+}
+
 func (p *printer) printf(format string, args ...interface{}) {
 	if p.err != nil {
 		return
-- 
2.43.0


From c105f8ed92b29da881dce2052d674ba61aa9fefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 6/9] fix: keep the ellipsis of a Go call

---
 parse/internal/goexpr/parse.go | 6 +++++-
 printer/printer.go             | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/parse/internal/goexpr/parse.go b/parse/internal/goexpr/parse.go
index 15d43ff..98c5e6f 100644
--- a/parse/internal/goexpr/parse.go
+++ b/parse/internal/goexpr/parse.go
@@ -37,7 +37,11 @@ func clearpos(expr goast.Expr) error {
 			n.OpPos = gotoken.NoPos
 		case *goast.CallExpr:
 			n.Lparen = gotoken.NoPos
-			n.Ellipsis = gotoken.NoPos
+			if n.Ellipsis.IsValid() {
+				// The position is the only record of the ellipsis, so it
+				// is set to a fixed valid position rather than cleared.
+				n.Ellipsis = 1
+			}
 			n.Rparen = gotoken.NoPos
 		case *goast.BinaryExpr:
 			n.OpPos = gotoken.NoPos
diff --git a/printer/printer.go b/printer/printer.go
index f8758ef..64a9a4c 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -216,6 +216,9 @@ func (p *printer) goexpr(expr goast.Expr) {
 			}
 			p.goexpr(arg)
 		}
+		if e.Ellipsis.IsValid() {
+			p.printf("...")
+		}
 		p.printf(")")
 	case *goast.StarExpr:
 		p.printf("*")
-- 
2.43.0


From 3e6f7a430228d23bc18493fad82ce803c54aedba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 7/9] fix: do not index a one-entry alternation past its end

---
 pass/alt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pass/alt.go b/pass/alt.go
index 7100a47..ca07294 100644
--- a/pass/alt.go
+++ b/pass/alt.go
@@ -164,7 +164,7 @@ func expandopcodeparts(parts ast.OpcodeParts) ([]ast.Opcode, error) {
 			case ast.Opcode:
 				alts[i] += p
 			case ast.OpcodeAlt:
-				alts[i] += p[i]
+				alts[i] += p[idx(i, len(p))]
 			default:
 				return nil, errutil.UnexpectedType(part)
 			}
-- 
2.43.0


From 6fb05ba104e3e4668f1471418d1b6a35b4f925ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:36 +0000
Subject: [PATCH 8/9] fix: declare legal SMT symbols and one constant per
 placeholder

---
 smt2/generate.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/smt2/generate.go b/smt2/generate.go
index 503f952..cc94de3 100644
--- a/smt2/generate.go
+++ b/smt2/generate.go
@@ -31,6 +31,8 @@ type generator struct {
 	ops  map[ast.Opcode]operation
 	vars map[ast.Variable]*value
 	err  error
+
+	placeholders int // number declared so far
 }
 
 func (g *generator) generate(r *ast.Rule) error {
@@ -92,7 +94,7 @@ func (g *generator) eval(val ast.Value, t gotypes.Type) (*value, error) {
 
 func (g *generator) variable(v ast.Variable, t gotypes.Type) (*value, error) {
 	// Has variable been declared already?
-	if val, ok := g.vars[v]; ok {
+	if val, ok := g.vars[v]; ok && v != ast.Placeholder {
 		if t != nil && !gotypes.Identical(val.Type, t) {
 			return nil, fmt.Errorf("inconsistent types for variable %s", v)
 		}
@@ -109,9 +111,19 @@ func (g *generator) variable(v ast.Variable, t gotypes.Type) (*value, error) {
 		return nil, fmt.Errorf("declare %s: %w", v, err)
 	}
 
-	g.printf("(declare-const %s %s)\n", v, s)
+	// Every placeholder is a value of its own.
+	symbol := fmt.Sprintf("_%d", g.placeholders)
+	if v == ast.Placeholder {
+		g.placeholders++
+	} else {
+		// The prefix keeps rule variables apart from SMT-LIB reserved words
+		// and the symbols of its theories.
+		symbol = fmt.Sprintf("v_%s", v)
+	}
+
+	g.printf("(declare-const %s %s)\n", symbol, s)
 	g.vars[v] = &value{
-		Expr: string(v),
+		Expr: symbol,
 		Type: t,
 	}
 
-- 
2.43.0


From 88da4463e998d9d58fa088f380d23a070d21f5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 9/9] fix: take only blanks for layout around a condition

---
 parse/internal/parser/zparser.go | 1 -
 parse/rules.peg                  | 1 -
 2 files changed, 2 deletions(-)

diff --git a/parse/internal/parser/zparser.go b/parse/internal/parser/zparser.go
index 4929d67..e980845 100644
--- a/parse/internal/parser/zparser.go
+++ b/parse/internal/parser/zparser.go
@@ -1297,7 +1297,6 @@ func (p *parser) callonFile1() (interface{}, error) {
 func (c *current) onRule25() (interface{}, error) {
 	x := string(c.text)
 	x = strings.ReplaceAll(x, "\n", " ")
-	x = strings.TrimSpace(x)
 
 	cond, err := goexpr.Parse(x)
 	if err != nil {
diff --git a/parse/rules.peg b/parse/rules.peg
index e593ddf..8e1f99c 100644
--- a/parse/rules.peg
+++ b/parse/rules.peg
@@ -178,7 +178,6 @@ Ident <- [a-z] [_a-zA-Z0-9]*
 Condition <- ( . !"=>" )+ {
     x := string(c.text)
     x = strings.ReplaceAll(x, "\n", " ")
-    x = strings.TrimSpace(x)
 
     cond, err := goexpr.Parse(x)
     if err != nil {
-- 
2.43.0

