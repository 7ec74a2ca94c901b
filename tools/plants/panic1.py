import runpy,os
d=runpy.run_path('/verif/tools/plants/mix3.py'); add=d['add']; PLANTS=d['PLANTS']; PLANTS.clear(); F=d['F']
def body(s): return s
add('z01-empty-escape-value','C38','an escape mapped to the empty string in the bindings','the first byte of the mapped value is taken without looking at its length',
 [(F,'		res = []byte(resStr)\n','		res = append(res, resStr[0])\n		res = append(res, resStr[1:]...)\n')],
'''func TestDemo(t *testing.T) {
	b := fromcst.BNFCSTtoASTBindings{RuleType: 1, RuleHeadType: 2, RuleTailType: 3, ExpressionSequencesType: 4, SequencesSymbolType: 5, SymbolTerminalTypes: []int{6}, SymbolNonTerminalType: 7, EscapeSequenceType: 8, EscapeCharacterType: 9, EscapeMapping: map[string]string{"z": ""}}
	n := func(ty, p, e int, c ...cst.Node) cst.Node { return cst.NewNode(ty, p, e, c) }
	root := n(0, 0, 2, n(1, 0, 2, n(2, 0, 1), n(3, 1, 2, n(4, 1, 2, n(5, 1, 2, n(6, 1, 2, n(8, 1, 2, n(9, 1, 2))))))))
	g, err := b.ToAST(root, "hz")
	if err != nil || g == nil {
		t.Fatal(g, err)
	}
}
''')
add('z02-no-terminal-types','C38','bindings without any terminal type','the loop over the terminal types looks at the first before testing the number',
 [(F,'	for _, symbolTermType := range b.SymbolTerminalTypes {\n		err := b.lrTraverse(symbol, symbolTermType, doOnTerminalName)\n		if err == searchComplete {\n			return &res, nil\n		}\n		if err != nil {\n			return nil, err\n		}\n	}\n',
   '	for i := 0; ; {\n		err := b.lrTraverse(symbol, b.SymbolTerminalTypes[i], doOnTerminalName)\n		if err == searchComplete {\n			return &res, nil\n		}\n		if err != nil {\n			return nil, err\n		}\n		if i++; i == len(b.SymbolTerminalTypes) {\n			break\n		}\n	}\n')],
'''func TestDemo(t *testing.T) {
	b := fromcst.BNFCSTtoASTBindings{RuleType: 1, RuleHeadType: 2, RuleTailType: 3, ExpressionSequencesType: 4, SequencesSymbolType: 5, SymbolNonTerminalType: 7, EscapeSequenceType: 8, EscapeCharacterType: 9}
	n := func(ty, p, e int, c ...cst.Node) cst.Node { return cst.NewNode(ty, p, e, c) }
	root := n(0, 0, 2, n(1, 0, 2, n(2, 0, 1), n(3, 1, 2, n(4, 1, 2, n(5, 1, 2, n(7, 1, 2))))))
	g, err := b.ToAST(root, "hz")
	if err != nil || g == nil {
		t.Fatal(g, err)
	}
}
''')
add('z03-rule-without-tail','C38','a rule node without a node of the tail type','the missing error is printed',
 [(F,'		if err == nil {\n			return nil, fmt.Errorf("could not find rule substitution in `%s`",\n			                       nodeName(rule, str))\n		}\n\n		return nil, err\n',
   '		return nil, fmt.Errorf("could not read rule substitution in `%s`: %s",\n			nodeName(rule, str), err.Error())\n')],
'''func TestDemo(t *testing.T) {
	b := fromcst.BNFCSTtoASTBindings{RuleType: 1, RuleHeadType: 2, RuleTailType: 3, ExpressionSequencesType: 4, SequencesSymbolType: 5, SymbolNonTerminalType: 7, EscapeSequenceType: 8, EscapeCharacterType: 9}
	n := func(ty, p, e int, c ...cst.Node) cst.Node { return cst.NewNode(ty, p, e, c) }
	if g, err := b.ToAST(n(0, 0, 2, n(1, 0, 2, n(2, 0, 1))), "hz"); err == nil || g != nil {
		t.Fatal(g, err)
	}
}
''')
add('z04-empty-name-node','C38','a nonterminal or head node that matched nothing','the name is read as all but the last byte and the last byte',
 [(F,'	return str[node.Pos():node.End()]\n}\n\ntype','	last := node.End() - 1\n	return str[node.Pos():last] + str[last:node.End()]\n}\n\ntype')],
'''func TestDemo(t *testing.T) {
	b := fromcst.BNFCSTtoASTBindings{RuleType: 1, RuleHeadType: 2, RuleTailType: 3, ExpressionSequencesType: 4, SequencesSymbolType: 5, SymbolNonTerminalType: 7, EscapeSequenceType: 8, EscapeCharacterType: 9}
	n := func(ty, p, e int, c ...cst.Node) cst.Node { return cst.NewNode(ty, p, e, c) }
	g, err := b.ToAST(n(0, 0, 2, n(1, 0, 2, n(2, 0, 0), n(3, 0, 2))), "hz")
	if err != nil || len(g.Rules) != 1 || g.Rules[0].Head.Name != "" {
		t.Fatal(g, err)
	}
}
''')
add('z05-largest-ignored','C38','a node type larger than every ignored type','the result of the search for the node type is used as a position without comparing it with the length',
 [(F,'		sr := sort.SearchInts(b.IgnoreNodeTypes, nodeType)\n		return (sr < len(b.IgnoreNodeTypes) && b.IgnoreNodeTypes[sr] == nodeType)\n',
   '		if n := len(b.IgnoreNodeTypes); n == 0 || nodeType > b.IgnoreNodeTypes[0] && n == 1 {\n			return false\n		}\n		sr := sort.SearchInts(b.IgnoreNodeTypes, nodeType)\n		return b.IgnoreNodeTypes[sr] == nodeType\n')],
'''func TestDemo(t *testing.T) {
	b := fromcst.BNFCSTtoASTBindings{IgnoreNodeTypes: []int{-2, -1}, RuleType: 1, RuleHeadType: 2, RuleTailType: 3, ExpressionSequencesType: 4, SequencesSymbolType: 5, SymbolNonTerminalType: 7, EscapeSequenceType: 8, EscapeCharacterType: 9}
	n := func(ty, p, e int, c ...cst.Node) cst.Node { return cst.NewNode(ty, p, e, c) }
	g, err := b.ToAST(n(0, 0, 2, n(1, 0, 2, n(2, 0, 0), n(3, 0, 2))), "hz")
	if err != nil || len(g.Rules) != 1 {
		t.Fatal(g, err)
	}
}
''')
