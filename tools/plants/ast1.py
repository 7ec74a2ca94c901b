F='pkg/bnf/fromcst/fromcst.go'
PLANTS=[]
M='github.com/TooManySugar/ll1parser/pkg/'
HELP='''
// text is the source all trees here are over
type tree struct{ text string }

func (t *tree) node(typ int, s string, ch ...cst.Node) cst.Node {
	if len(ch) > 0 {
		return cst.NewNode(typ, ch[0].Pos(), ch[len(ch)-1].End(), ch)
	}
	p := len(t.text)
	t.text += s
	return cst.NewNode(typ, p, p+len(s), nil)
}

// types other than those of the self grammar
func bind() fromcst.BNFCSTtoASTBindings {
	return fromcst.BNFCSTtoASTBindings{
		IgnoreNodeTypes:         []int{90, 40},
		RuleType:                1,
		RuleHeadType:            2,
		RuleTailType:            3,
		ExpressionSequencesType: 4,
		SequencesSymbolType:     5,
		SymbolTerminalTypes:     []int{61, 6},
		SymbolNonTerminalType:   7,
		EscapeSequenceType:      8,
		EscapeCharacterType:     9,
		EscapeMapping:           map[string]string{"n": "\\n", "\\\\": "\\\\"},
	}
}

'''
def add(id,prop,needs,breaks,edits,body,imports=[]):
    im=[M+'bnf/fromcst',M+'cst','testing']+imports
    d='package parser_test\n\nimport (\n'+''.join('\t"%s"\n'%i for i in sorted(set(im)))+')\n'+HELP+body
    PLANTS.append(dict(id=id,property=prop,needs=needs,breaks=breaks,edits=edits,demo=d,flags=''))
add('u01-nested-alts','C27','an alternative node below another alternative','the tree search goes on below a node it has taken',
 [(F,"		(*v.err) = v.fOnNode(node)\n		return nil\n	}\n\n	return v","		(*v.err) = v.fOnNode(node)\n	}\n\n	return v")],'''
func TestDemo(t *testing.T) {
	x := &tree{}
	h := x.node(2, "r")
	in := x.node(4, "", x.node(5, "", x.node(7, "a")))
	g := x.node(1, "", h, x.node(3, "", x.node(4, "", in)))
	r, err := bind().ToAST(g, x.text)
	if err != nil || len(r.Rules) != 1 || len(r.Rules[0].Tail.Sequences) != 1 {
		t.Fatal(err, r)
	}
}
''')
add('u02-name-trim','C27','a non-terminal name with a leading or trailing blank','names lose blanks at their ends',
 [(F,'res = bnf.SymbolNonTerminal{Name: nodeName(nontermNameNode, str)}','res = bnf.SymbolNonTerminal{Name: strings.TrimSpace(nodeName(nontermNameNode, str))}')],'''
func TestDemo(t *testing.T) {
	x := &tree{}
	h := x.node(2, "r")
	g := x.node(1, "", h, x.node(3, "", x.node(4, "", x.node(5, "", x.node(7, "a ")))))
	r, err := bind().ToAST(g, x.text)
	if err != nil || r.Rules[0].Tail.Sequences[0].Symbols[0].(bnf.SymbolNonTerminal).Name != "a " {
		t.Fatal(err, r)
	}
}
''',[M+'bnf'])
add('u03-empty-alt','C27','an alternative without symbols','alternatives without symbols are dropped',
 [(F,'		res.Sequences = append(res.Sequences, *sequence)\n','		if len(sequence.Symbols) > 0 {\n			res.Sequences = append(res.Sequences, *sequence)\n		}\n')],'''
func TestDemo(t *testing.T) {
	x := &tree{}
	h := x.node(2, "r")
	g := x.node(1, "", h, x.node(3, "", x.node(4, "", x.node(5, "", x.node(7, "a"))), x.node(4, "")))
	r, err := bind().ToAST(g, x.text)
	if err != nil || len(r.Rules[0].Tail.Sequences) != 2 {
		t.Fatal(err, r)
	}
}
''')
add('u04-last-head','C27','a rule node with two head nodes','the last head node of a rule counts instead of the first',
 [(F,'		res.Head.Name = nodeName(ruleNameNode, str)\n		return searchComplete\n	}\n','		res.Head.Name = nodeName(ruleNameNode, str)\n		found = searchComplete\n		return nil\n	}\n'),
  (F,'	doOnHead := func(','	var found error\n	doOnHead := func('),
  (F,'	err := b.lrTraverse(rule, b.RuleHeadType, doOnHead)\n	if err != searchComplete {','	err := b.lrTraverse(rule, b.RuleHeadType, doOnHead)\n	if err == nil {\n		err = found\n	}\n	if err != searchComplete {')],'''
func TestDemo(t *testing.T) {
	x := &tree{}
	h := x.node(2, "r")
	g := x.node(1, "", h, x.node(3, "", x.node(4, "", x.node(5, "", x.node(7, "", x.node(2, "a"))))))
	r, err := bind().ToAST(g, x.text)
	if err != nil || r.Rules[0].Head.Name != "r" {
		t.Fatal(err, r)
	}
}
''')
add('u05-unknown-escape','C17','an escape that the mapping does not know','an unknown escaped character stands for itself',
 [(F,'			return fmt.Errorf("unkknown escape character: %s", escStr)\n','			if len(b.EscapeMapping) > 0 && len(escStr) != 1 {\n				return fmt.Errorf("unkknown escape character: %s", escStr)\n			}\n			resStr = escStr\n')],'''
func TestDemo(t *testing.T) {
	x := &tree{}
	h := x.node(2, "r")
	g := x.node(1, "", h, x.node(3, "", x.node(4, "", x.node(5, "", x.node(6, "", x.node(8, "", x.node(-1, "q"), x.node(9, "q")))))))
	r, err := bind().ToAST(g, x.text)
	if err == nil || r != nil {
		t.Fatal(err, r)
	}
}
''')
add('u06-partial','C17','a tree in which a later rule is not understood','with an error the rules before it are returned too',
 [(F,'	err := b.lrTraverse(root, b.RuleType, doOnRule)\n\n	if err != nil {\n		return nil, err\n	}\n\n	return &res, nil','	err := b.lrTraverse(root, b.RuleType, doOnRule)\n\n	if len(res.Rules) == 0 && err != nil {\n		return nil, err\n	}\n\n	return &res, err')],'''
func TestDemo(t *testing.T) {
	x := &tree{}
	h := x.node(2, "r")
	g := x.node(0, "", x.node(1, "", h, x.node(3, "")), x.node(1, "", x.node(3, "")))
	r, err := bind().ToAST(g, x.text)
	if err == nil || r != nil {
		t.Fatal(err, r)
	}
}
''')
add('u07-no-tail','C17','a rule node without a tail','a rule without a tail becomes a rule without alternatives',
 [(F,'		if err == nil {\n			return nil, fmt.Errorf("could not find rule substitution in `%s`",\n			                       nodeName(rule, str))\n		}\n\n		return nil, err','		if err == nil {\n			return &res, nil\n		}\n\n		return nil, err')],'''
func TestDemo(t *testing.T) {
	x := &tree{}
	g := x.node(0, "", x.node(1, "", x.node(2, "r")))
	r, err := bind().ToAST(g, x.text)
	if err == nil || r != nil {
		t.Fatal(err, r)
	}
}
''')
add('u08-error-later','C17','a symbol that is not understood followed by one that is','an error is forgotten when the next symbol of an alternative is understood',
 [(F,'	if *v.err != nil {\n		return nil\n	}\n\n	if v.isType','	if v.isType'),(F,'''	err := b.lrTraverse(sequence, b.SequencesSymbolType, doOnSymbol)
	if err != nil {''','''	err := b.lrTraverse(sequence, b.SequencesSymbolType, doOnSymbol)
	if err != nil && len(res.Symbols) == 0 {''')],'''
func TestDemo(t *testing.T) {
	x := &tree{}
	h := x.node(2, "r")
	g := x.node(1, "", h, x.node(3, "", x.node(4, "", x.node(5, "", x.node(33, "?")), x.node(5, "", x.node(7, "a")))))
	r, err := bind().ToAST(g, x.text)
	if err == nil || r != nil {
		t.Fatal(err, r)
	}
}
''')
add('u09-sort-literals','C28','bindings shared by the caller, with literal types out of order','the types of literals are sorted in the memory of the caller',
 [(F,'	for _, symbolTermType := range b.SymbolTerminalTypes {','	sort.Ints(b.SymbolTerminalTypes)\n	for _, symbolTermType := range b.SymbolTerminalTypes {')],'''
func TestDemo(t *testing.T) {
	x := &tree{}
	h := x.node(2, "r")
	g := x.node(1, "", h, x.node(3, "", x.node(4, "", x.node(5, "", x.node(7, "a")))))
	b := bind()
	if _, err := b.ToAST(g, x.text); err != nil {
		t.Fatal(err)
	}
	if b.SymbolTerminalTypes[0] != 61 {
		t.Fatal(b)
	}
}
''')
add('u10-escape-cache','C28','bindings used again after a conversion with an escape','escapes are remembered in the mapping of the caller',
 [(F,'		res = []byte(resStr)\n','		res = []byte(resStr)\n		b.EscapeMapping[nodeName(escSeq, str)] = resStr\n')],'''
func TestDemo(t *testing.T) {
	x := &tree{}
	h := x.node(2, "r")
	g := x.node(1, "", h, x.node(3, "", x.node(4, "", x.node(5, "", x.node(6, "", x.node(8, "", x.node(-1, "@"), x.node(9, "n")))))))
	b := bind()
	if _, err := b.ToAST(g, x.text); err != nil {
		t.Fatal(err)
	}
	if len(b.EscapeMapping) != 2 {
		t.Fatal(b)
	}
}
''')
add('u11-head-for-name','C29','bindings in which heads and names have different types','names of non-terminals are looked for under the type of heads',
 [(F,'	err := b.lrTraverse(symbol, b.SymbolNonTerminalType, doOnNonTerminalName)','	err := b.lrTraverse(symbol, b.RuleHeadType, doOnNonTerminalName)')],'''
func TestDemo(t *testing.T) {
	x := &tree{}
	h := x.node(2, "r")
	g := x.node(1, "", h, x.node(3, "", x.node(4, "", x.node(5, "", x.node(7, "a")))))
	r, err := bind().ToAST(g, x.text)
	if err != nil || len(r.Rules[0].Tail.Sequences[0].Symbols) != 1 {
		t.Fatal(err, r)
	}
}
''')
add('u12-negative-types','C29','node types below zero','every negative type of node counts as a literal',
 [(F,'n == parser.BuiltinTerminal }','n < 0 }'),(F,'if node.Type() == parser.BuiltinTerminal {','if node.Type() < 0 {'),(F,'	"github.com/TooManySugar/ll1parser/pkg/parser"\n','')],'''
func TestDemo(t *testing.T) {
	x := &tree{}
	h := x.node(2, "r")
	g := x.node(1, "", h, x.node(3, "", x.node(4, "", x.node(5, "", x.node(6, "", x.node(-1, "a"), x.node(-2, "b"))))))
	r, err := bind().ToAST(g, x.text)
	if err != nil || r.Rules[0].Tail.Sequences[0].Symbols[0].(bnf.SymbolTerminal).Name != "a" {
		t.Fatal(err, r)
	}
}
''',[M+'bnf'])
add('u13-ignored-names','C29','an ignored node with a name below it','ignored nodes are searched when their type is above that of names',
 [(F,'return (sr < len(b.IgnoreNodeTypes) && b.IgnoreNodeTypes[sr] == nodeType)','return (sr < len(b.IgnoreNodeTypes) && b.IgnoreNodeTypes[sr] == nodeType) &&\n			(nodeType >= 0 && untilType != b.SymbolNonTerminalType || nodeType < 64)')],'''
func TestDemo(t *testing.T) {
	x := &tree{}
	h := x.node(2, "r")
	g := x.node(1, "", h, x.node(3, "", x.node(4, "", x.node(5, "", x.node(90, "", x.node(7, "no")), x.node(7, "a")))))
	r, err := bind().ToAST(g, x.text)
	if err != nil || r.Rules[0].Tail.Sequences[0].Symbols[0].(bnf.SymbolNonTerminal).Name != "a" {
		t.Fatal(err, r)
	}
}
''',[M+'bnf'])
add('u14-ignore-first-only','C29','bindings with several ignored types','only the smallest ignored type is ignored',
 [(F,'sr := sort.SearchInts(b.IgnoreNodeTypes, nodeType)','sr := sort.SearchInts(b.IgnoreNodeTypes[:len(b.IgnoreNodeTypes)&1], nodeType)')],'''
func TestDemo(t *testing.T) {
	x := &tree{}
	h := x.node(2, "r")
	g := x.node(1, "", h, x.node(3, "", x.node(4, "", x.node(90, "", x.node(5, "", x.node(7, "a"))), x.node(5, "", x.node(7, "a")))))
	r, err := bind().ToAST(g, x.text)
	if err != nil || len(r.Rules[0].Tail.Sequences[0].Symbols) != 1 {
		t.Fatal(err, r)
	}
}
''')
add('u15-quote-escape','C27','a literal in which an escape follows text','the escaped character goes before the text collected so far',
 [(F,'		sb.Write(escape)\n','		text := sb.String()\n		sb.Reset()\n		if len(escape) == 1 && escape[0] == \'\\\\\' {\n			sb.Write(escape)\n			sb.WriteString(text)\n		} else {\n			sb.WriteString(text)\n			sb.Write(escape)\n		}\n')],'''
func TestDemo(t *testing.T) {
	x := &tree{}
	h := x.node(2, "r")
	g := x.node(1, "", h, x.node(3, "", x.node(4, "", x.node(5, "", x.node(6, "", x.node(-1, "a"), x.node(8, "", x.node(-1, "@"), x.node(9, "\\\\")))))))
	r, err := bind().ToAST(g, x.text)
	if err != nil || r.Rules[0].Tail.Sequences[0].Symbols[0].(bnf.SymbolTerminal).Name != "a\\\\" {
		t.Fatal(err, r)
	}
}
''',[M+'bnf'])
