From 09960b7fb9f7ac32e921318c8ea6a4b763bb6999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 1/7] fix: detect end of input by position, not by a zero byte

A source holding a zero byte was accepted with everything after it left
unread, and a zero byte in a terminal matched past the end of the source.
---
 pkg/parser/parser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index f462f08..830bf2f 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -203,6 +203,12 @@ type ll1parserScanner struct {
 	// onLineOffset
 }
 
+// Returns true if there is nothing left to read. A zero byte from peek does
+// not tell it: source itself can contain zero bytes
+func (s *ll1parserScanner) atEnd() bool {
+	return s.offset >= len(s.src)
+}
+
 func (s *ll1parserScanner) peek() byte {
 	if s.offset >= len(s.src) {
 		return byte(0)
@@ -350,7 +356,7 @@ func (p *realParser) processFunction(f function_t) {
 }
 
 func (p *realParser) processEOS() (cst.Node, *map[int]string, error) {
-	if p.scanner.peek() != byte(0) {
+	if !p.scanner.atEnd() {
 		// fmt.Println("expected end of input got: ", in.Peek())
 		// Parsing error Unexpected EOF
 		return nil, nil, fmt.Errorf("expected end of input got %s",
@@ -372,7 +378,7 @@ func (p *realParser) processEOS() (cst.Node, *map[int]string, error) {
 }
 
 func (p *realParser) processChar(c opChar_t) error {
-	if c.Value() != p.scanner.peek() {
+	if p.scanner.atEnd() || c.Value() != p.scanner.peek() {
 		// Parsing error
 		return fmt.Errorf("expected char %s, got %s",
 		                  charCode(c.Value()),
-- 
2.43.0


From e122c58152e8d5e40ed943208f595a658f20f785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 2/7] fix: return a copy of the naming map from Parse

Parse wrote into the map given to NewLL1Parser: it panicked on a nil map and
raced with other Parse calls on the same parser.
---
 pkg/parser/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 830bf2f..ed71e3c 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -370,7 +370,11 @@ func (p *realParser) processEOS() (cst.Node, *map[int]string, error) {
 		return nil, nil, fmt.Errorf("prod stack empty")
 	}
 
-	ret_names := p.names
+	// names belongs to caller and can be shared by several Parse calls
+	ret_names := make(map[int]string, len(p.names) + 2)
+	for id, name := range p.names {
+		ret_names[id] = name
+	}
 	ret_names[builtinTerminal] = "_literal"
 	ret_names[builtinNothing]  = "_nothing"
 
-- 
2.43.0


From 5448fcdaa4be577e2bb54ade725ec132f107def8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 3/7] fix: report every table cell conflict as an error

Alternatives starting with the same byte were glued together into one table
cell, so a grammar which is not LL(1) got a table for some other language. The
conflict which was reported was also printed to the standard output.
---
 pkg/bnf/tablegen/tablegen.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/bnf/tablegen/tablegen.go b/pkg/bnf/tablegen/tablegen.go
index 049b9ce..417ce7a 100644
--- a/pkg/bnf/tablegen/tablegen.go
+++ b/pkg/bnf/tablegen/tablegen.go
@@ -333,8 +333,7 @@ func (tg *tableGenerator,
 			seqFollows := tg.follows[ruleIndex]
 
 			for _, followTerm := range seqFollows.Bytes() {
-				if v, ok := res[byte(followTerm)]; ok {
-					fmt.Println(v)
+				if _, ok := res[byte(followTerm)]; ok {
 					return res,
 						fmt.Errorf("grammar lead to multiple parser op " +
 							"sets per table cell")
@@ -346,6 +345,11 @@ func (tg *tableGenerator,
 		}
 
 		for _, term := range seqFirsts.Bytes() {
+			if _, ok := res[byte(term)]; ok {
+				return res,
+					fmt.Errorf("grammar lead to multiple parser op " +
+						"sets per table cell")
+			}
 			for _, symbol := range sequence.Symbols {
 				switch v := symbol.(type) {
 				case bnf.SymbolTerminal:
-- 
2.43.0


From 63224c6bb748ddcc2c82f0233e65c2f47d32f621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 4/7] fix: follow sets take firsts of all symbols after a
 nullable one

In A ::= B C D with C possibly empty firsts of D were missing from follows of
B and follows of A were added to it even if D is never empty, so tables
rejected valid sentences.
---
 pkg/bnf/tablegen/tablegen.go | 37 ++++++------------------------------
 1 file changed, 6 insertions(+), 31 deletions(-)

diff --git a/pkg/bnf/tablegen/tablegen.go b/pkg/bnf/tablegen/tablegen.go
index 417ce7a..61cce73 100644
--- a/pkg/bnf/tablegen/tablegen.go
+++ b/pkg/bnf/tablegen/tablegen.go
@@ -143,34 +143,6 @@ func (tg *tableGenerator) findFirsts() error {
 	return nil
 }
 
-// symbolFirsts
-// Helper function to get firsts for symbol assuming
-// firsts sets already calculated
-func (tg *tableGenerator) symbolFirsts(symbol *bnf.Symbol) (bs.ByteSet, error) {
-	var ret bs.ByteSet
-	switch v := (*symbol).(type) {
-	case bnf.SymbolTerminal:
-		if len(v.Name) == 0 {
-			return ret, fmt.Errorf("terminal with empty string check grammar")
-		}
-		return terminalFirsts(v), nil
-
-	case bnf.SymbolNothing:
-		return bs.New(EOS), nil
-
-	case bnf.SymbolNonTerminal:
-		ruleIndex, ok := tg.ruleMap[v.Name]
-		if !ok {
-			return ret,
-				fmt.Errorf("no rules defined for non terminal <%s>", v.Name)
-		}
-		return tg.firsts[ruleIndex], nil
-
-	default:
-		return ret, fmt.Errorf("symbol of unknown type: %T", v)
-	}
-}
-
 func (tg *tableGenerator,
 ) ruleFollowsInSequence(
 	ruleIndex int,
@@ -229,14 +201,17 @@ func (tg *tableGenerator,
 		}
 
 		// rule 2
-		// get firsts for next symbol in sequance (can be itself)
-		nextFirsts, err := tg.symbolFirsts(&(*sequence).Symbols[i+1])
+		// get firsts for rest of sequence after symbol: it's next symbol's
+		// firsts and, as long as symbols can be empty, firsts of symbols
+		// after it
+		rest := bnf.Sequence{Symbols: (*sequence).Symbols[i+1:]}
+		nextFirsts, err := tg.sequenceFirsts(&rest)
 		if err != nil {
 			return err
 		}
 
 		// rule 4
-		// if next symbol (q) 's firsts contain empty string (Є)
+		// if rest of sequence (q) 's firsts contain empty string (Є)
 		// add to target rule's follows it's firsts w/o empty
 		// and follow set for sequence's rule (A)
 		//
-- 
2.43.0


From 442b0d28d1565c83ae3388cea7861e6a4b2c34ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 5/7] fix: reject malformed grammars with an error

FromGrammar panicked on a grammar without rules, on an empty terminal, on a
foreign symbol and on an empty string after a terminal, took a terminal
starting with a zero byte for an empty string, and silently dropped all but
the last of several rules with the same head.
---
 pkg/bnf/tablegen/tablegen.go | 62 ++++++++++++++++++++++++++++++++++++
 1 file changed, 62 insertions(+)

diff --git a/pkg/bnf/tablegen/tablegen.go b/pkg/bnf/tablegen/tablegen.go
index 61cce73..061ec93 100644
--- a/pkg/bnf/tablegen/tablegen.go
+++ b/pkg/bnf/tablegen/tablegen.go
@@ -389,10 +389,72 @@ func (tg *tableGenerator) Run() (table *map[int]map[byte][]parser.ParserOp,
 	return tg.makeTable()
 }
 
+// checkGrammar
+// Returns an error if table can't be generated from grammar because grammar
+// itself is incomplete or ambiguous
+func checkGrammar(g bnf.Grammar) error {
+	if len(g.Rules) == 0 {
+		return errors.New("grammar has no rules")
+	}
+
+	heads := map[string]bool{}
+	for _, rule := range g.Rules {
+		if heads[rule.Head.Name] {
+			return fmt.Errorf("more than one rule defined for non terminal <%s>",
+				rule.Head.Name)
+		}
+		heads[rule.Head.Name] = true
+	}
+
+	for _, rule := range g.Rules {
+		for _, sequence := range rule.Tail.Sequences {
+			if len(sequence.Symbols) == 0 {
+				return fmt.Errorf("empty sequence in rule <%s>", rule.Head.Name)
+			}
+			for _, symbol := range sequence.Symbols {
+				switch v := symbol.(type) {
+				case bnf.SymbolTerminal:
+					if len(v.Name) == 0 {
+						return fmt.Errorf("terminal with empty string in rule <%s>",
+							rule.Head.Name)
+					}
+					if v.Name[0] == EOS {
+						// zero byte stands for end of input in a table
+						return fmt.Errorf("terminal starting with zero byte "+
+							"in rule <%s>", rule.Head.Name)
+					}
+
+				case bnf.SymbolNothing:
+					if len(sequence.Symbols) > 1 {
+						return errors.New(
+							"empty string is not a single sequence symbol")
+					}
+
+				case bnf.SymbolNonTerminal:
+					if !heads[v.Name] {
+						return fmt.Errorf(
+							"no rules defined for non terminal <%s>", v.Name)
+					}
+
+				default:
+					return fmt.Errorf("symbol of unknown type: %T", v)
+				}
+			}
+		}
+	}
+
+	return nil
+}
+
 func FromGrammar(g bnf.Grammar) (table *map[int]map[byte][]parser.ParserOp,
 	rowNames *map[int]string,
 	err error) {
 
+	err = checkGrammar(g)
+	if err != nil {
+		return nil, nil, err
+	}
+
 	ruleHeads := collectRuleHeads(g)
 
 	var tablegen tableGenerator
-- 
2.43.0


From ed4a1d3020394bfdee0ec5f5708ef8f7ca6f2a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 6/7] fix: do not reorder caller's IgnoreNodeTypes in ToAST

---
 pkg/bnf/fromcst/fromcst.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/bnf/fromcst/fromcst.go b/pkg/bnf/fromcst/fromcst.go
index bb03b31..45c68cc 100644
--- a/pkg/bnf/fromcst/fromcst.go
+++ b/pkg/bnf/fromcst/fromcst.go
@@ -301,6 +301,8 @@ func (b BNFCSTtoASTBindings) parseRule(rule cst.Node, str string) (*bnf.Rule, er
 
 func (b BNFCSTtoASTBindings) ToAST(root cst.Node, str string) (*bnf.Grammar, error) {
 
+	// slice belongs to caller, sort a copy of it
+	b.IgnoreNodeTypes = append([]int{}, b.IgnoreNodeTypes...)
 	sort.Sort(sort.IntSlice(b.IgnoreNodeTypes))
 
 	var res bnf.Grammar
-- 
2.43.0


From 0feba93260554dcafb1cf7970c41ff4d30f4e47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 7/7] fix: take escape sequence node type from bindings

It was fixed to 16, which is right only for the bindings of the package's own
grammar.
---
 pkg/bnf/fromcst/fromcst.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/bnf/fromcst/fromcst.go b/pkg/bnf/fromcst/fromcst.go
index 45c68cc..b9ef07c 100644
--- a/pkg/bnf/fromcst/fromcst.go
+++ b/pkg/bnf/fromcst/fromcst.go
@@ -88,6 +88,10 @@ type BNFCSTtoASTBindings struct {
 
 	SymbolNonTerminalType int
 
+	// nonterminal containing full escape sequence inside of SymbolTerminalTypes
+	// (i.e. escape character and everything marking it as an escaped one)
+	EscapeSequenceType int
+
 	// Content of this type (single character striung) will be used to replace
 	// with corresponding value from EscapeMapping
 	EscapeCharacterType int
@@ -164,7 +168,7 @@ func (b BNFCSTtoASTBindings) parseTerminalName(symbol cst.Node, str string) (str
 	err := lrTraverse(
 		symbol,
 		func(int) bool { return false },
-		func(n int) bool { return n == 16 || n == parser.BuiltinTerminal },
+		func(n int) bool { return n == b.EscapeSequenceType || n == parser.BuiltinTerminal },
 		fOnNode)
 
 	return sb.String(), err
@@ -335,6 +339,7 @@ func SelfCSTtoASTBindings() BNFCSTtoASTBindings {
 		SequencesSymbolType:     9,
 		SymbolTerminalTypes:     []int{11, 12},
 		SymbolNonTerminalType:   18,
+		EscapeSequenceType:      16,
 		EscapeCharacterType:     17,
 		EscapeMapping: map[string]string{
 			`t`: "\t",
-- 
2.43.0

