
P='pkg/parser/parser.go'; F='pkg/bnf/fromcst/fromcst.go'; T='pkg/bnf/tablegen/tablegen.go'; A='pkg/bnf/ast.go'; B='pkg/bnf/tablegen/byteset/byteset.go'
PLANTS=[]
def add(id,prop,needs,breaks,edits,imports,body,flags=''):
    d='package parser_test\n\nimport (\n'+''.join('\t"%s"\n'%i for i in sorted(set(imports+['testing'])))+')\n\n'+body
    PLANTS.append(dict(id=id,property=prop,needs=needs,breaks=breaks,edits=edits,demo=d,flags=flags))
M='github.com/TooManySugar/ll1parser/pkg/'
add('r01-stderr-debug','C30','a table without a row for a reached non-terminal','Parse writes to standard error on that path',
 [(P,"""		// Table error
		return fmt.Errorf("no rules for non terminal: %s", nodeTypeName(name))""","""		// Table error
		err := fmt.Errorf("no rules for non terminal: %s", nodeTypeName(name))
		println(err.Error())
		return err""")],['os',M+'parser','io'],
"""func TestDemo(t *testing.T) {
	r, w, _ := os.Pipe()
	old := os.Stderr
	_ = old
	os.Stderr = w
	so, fd := os.Stdout, 2
	_, _ = so, fd
	// println writes to file descriptor 2 itself: run a child
	if os.Getenv("DEMO_CHILD") == "" {
		os.Stderr = old
		p, err := os.StartProcess(os.Args[0], []string{os.Args[0], "-test.run=TestDemo"}, &os.ProcAttr{Env: append(os.Environ(), "DEMO_CHILD=1"), Files: []*os.File{nil, nil, w}})
		if err != nil {
			t.Fatal(err)
		}
		w.Close()
		b, _ := io.ReadAll(r)
		p.Wait()
		if len(b) != 0 {
			t.Fatalf("written to standard error: %q", b)
		}
		return
	}
	ps := parser.NewLL1Parser(map[int]map[byte][]parser.ParserOp{0: {'a': {parser.OpNonTerminal(7)}}}, map[int]string{})
	if _, _, err := ps.Parse("a"); err == nil {
		t.Fatal("no error")
	}
}
""")
add('r02-conflict-count','C30','a grammar with a conflict','FromGrammar counts conflicts in a package-level map',
 [(T,"""const EOS = byte(0)
""","""const EOS = byte(0)

// rules found to be ambiguous
var ambiguous = map[string]bool{}
"""),(T,"""				if _, ok := res[byte(followTerm)]; ok {
""","""				if _, ok := res[byte(followTerm)]; ok {
					ambiguous[rule.Head.Name] = true
""")],['sync',M+'bnf',M+'bnf/tablegen'],
"""func TestDemo(t *testing.T) {
	g := bnf.Grammar{Rules: []bnf.Rule{
		{Head: bnf.SymbolNonTerminal{Name: "s"}, Tail: bnf.Substitution{Sequences: []bnf.Sequence{
			{Symbols: []bnf.Symbol{bnf.SymbolNothing{}}},
			{Symbols: []bnf.Symbol{bnf.SymbolNothing{}}}}}}}}
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 200; k++ {
				if _, _, err := tablegen.FromGrammar(g); err == nil {
					t.Error("no error")
				}
			}
		}()
	}
	wg.Wait()
}
""",'-race')
add('r03-escape-prefix','C31','an escape mapping in which one key is a prefix of another','the entry used depends on the iteration order of the mapping',
 [(F,"""		resStr, ok := b.EscapeMapping[escStr]
		if !ok {
""","""		resStr, ok := "", false
		for from, to := range b.EscapeMapping {
			if len(from) > 0 && strings.HasPrefix(escStr, from) {
				resStr, ok = to+escStr[len(from):], true
				break
			}
		}
		if !ok {
""")],[M+'cst',M+'bnf/fromcst',M+'parser'],
"""func TestDemo(t *testing.T) {
	src := "axy"
	n := func(ty, a, b int, cs ...cst.Node) cst.Node { return cst.NewNode(ty, a, b, cs) }
	lit := func(a, b int) cst.Node { return n(parser.BuiltinTerminal, a, b) }
	tree := n(0, 0, 3, n(1, 0, 3, n(2, 0, 1, lit(0, 1)), n(3, 1, 3, n(4, 1, 3, n(5, 1, 3, n(6, 1, 3, n(8, 1, 3, n(9, 1, 3, lit(1, 3)))))))))
	seen := map[string]bool{}
	for i := 0; i < 300; i++ {
		b := fromcst.BNFCSTtoASTBindings{RuleType: 1, RuleHeadType: 2, RuleTailType: 3, ExpressionSequencesType: 4, SequencesSymbolType: 5,
			SymbolTerminalTypes: []int{6}, SymbolNonTerminalType: 7, EscapeSequenceType: 8, EscapeCharacterType: 9,
			EscapeMapping: map[string]string{"x": "1", "xy": "2"}}
		g, err := b.ToAST(tree, src)
		if err != nil {
			t.Fatal(err)
		}
		seen[g.String()] = true
	}
	if len(seen) != 1 {
		t.Fatal(seen)
	}
}
""")
add('r06-last-names','C31','two parses with different names','a missing name is taken from the parser made last',
 [(P,"""type realParser struct {
	table""","""// names given to any parser so far
var allNames = map[int]string{}

type realParser struct {
	table"""),(P,"""			return fmt.Sprintf("Unknown_%d", name_id)
		}
		return val""","""			if val, ok = allNames[name_id]; !ok {
				val = fmt.Sprintf("Unknown_%d", name_id)
			}
			return val
		}
		allNames[name_id] = val
		return val""")],[M+'parser'],
"""func TestDemo(t *testing.T) {
	tb := map[int]map[byte][]parser.ParserOp{0: {'a': {}}}
	msg := func(names map[int]string) string {
		_, _, err := parser.NewLL1Parser(tb, names).Parse("b")
		return err.Error()
	}
	a := msg(nil)
	msg(map[int]string{0: "s"})
	if b := msg(nil); a != b {
		t.Fatal(a, b)
	}
}
""")
