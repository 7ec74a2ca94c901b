T='pkg/bnf/tablegen/tablegen.go'
PLANTS=[]
M='github.com/TooManySugar/ll1parser/pkg/'
HELP='''
func nt(s string) bnf.Symbol { return bnf.SymbolNonTerminal{Name: s} }
func tm(s string) bnf.Symbol { return bnf.SymbolTerminal{Name: s} }

var nothing bnf.Symbol = bnf.SymbolNothing{}

func rule(h string, alts ...[]bnf.Symbol) bnf.Rule {
	r := bnf.Rule{Head: bnf.SymbolNonTerminal{Name: h}}
	for _, a := range alts {
		r.Tail.Sequences = append(r.Tail.Sequences, bnf.Sequence{Symbols: a})
	}
	return r
}

func alt(s ...bnf.Symbol) []bnf.Symbol { return s }
func gram(r ...bnf.Rule) bnf.Grammar   { return bnf.Grammar{Rules: r} }

var _ = []any{nt, tm, nothing, rule, alt, gram, fmt.Sprint, tablegen.FromGrammar, parser.OpTerminal, reflect.DeepEqual}
'''
def add(id,prop,needs,breaks,edits,body,flags=''):
    d='package parser_test\n\nimport (\n'+''.join('\t"%s"\n'%i for i in sorted([M+'bnf',M+'bnf/tablegen',M+'parser','fmt','reflect','testing']))+')\n\n'+HELP+'\n'+body
    PLANTS.append(dict(id=id,property=prop,needs=needs,breaks=breaks,edits=edits,demo=d,flags=flags))
CONF='''			if _, ok := res[byte(term)]; ok {
				return res,
'''
FCONF='''				if _, ok := res[byte(followTerm)]; ok {
'''
REJ='''func TestDemo(t *testing.T) {
	if _, _, err := tablegen.FromGrammar(%s); err == nil {
		t.Fatal("accepted")
	}
}
'''
LOOP='''		for _, term := range seqFirsts.Bytes() {
'''
FLOOP='''			for _, followTerm := range seqFollows.Bytes() {
'''
add('v01-conflict-after-empty','C10','an empty alternative before one that starts with a byte that can follow the rule','the cell of the empty production is taken over by the second alternative',
 [(T,LOOP,LOOP+'''			if prev, ok := res[byte(term)]; ok && len(prev) == 0 {
				// the empty production was a default
				delete(res, byte(term))
			}
''')],REJ%'gram(rule("s", alt(nt("a"), tm("x"))), rule("a", alt(nothing), alt(tm("x"))))')
add('v02-conflict-before-empty','C10','an alternative that starts with a byte that can follow the rule before an empty one','the cell is overwritten by the empty production',
 [(T,FLOOP,FLOOP+'''				if prev, ok := res[byte(followTerm)]; ok && len(prev) > 0 {
					delete(res, byte(followTerm))
				}
''')],REJ%'gram(rule("s", alt(nt("a"), tm("x"))), rule("a", alt(tm("x")), alt(nothing)))')
add('v03-conflict-high-byte','C10','two alternatives that start with the same byte above 0x7f','the productions of the two alternatives are merged in one cell',
 [(T,LOOP,LOOP+'''			if int8(term) < 0 && len(sequence.Symbols) == 1 {
				delete(res, byte(term))
			}
''')],REJ%'gram(rule("s", alt(tm("\\u00e9"), tm("a")), alt(tm("\\u00e9"))))')
add('v04-equal-rules','C11','two rules with the same head and the same alternatives','the second rule is dropped instead of being an error',
 [(T,'''func FromGrammar(g bnf.Grammar) (table *map[int]map[byte][]parser.ParserOp,
	rowNames *map[int]string,
	err error) {
''','''// withoutRepeats
// Drops rules that only repeat the one before
func withoutRepeats(g bnf.Grammar) bnf.Grammar {
	res := bnf.Grammar{}
	for i, rule := range g.Rules {
		if i > 0 && rule.String() == g.Rules[i-1].String() {
			continue
		}
		res.Rules = append(res.Rules, rule)
	}
	return res
}

func FromGrammar(src bnf.Grammar) (table *map[int]map[byte][]parser.ParserOp,
	rowNames *map[int]string,
	err error) {

	g := withoutRepeats(src)
''')],REJ%'gram(rule("s", alt(tm("x"))), rule("s", alt(tm("x"))))')
add('v05-strip-nothing','C11','an alternative of an empty string symbol followed by another symbol','empty string symbols next to others are dropped instead of being an error',
 [(T,'''func FromGrammar(g bnf.Grammar) (table *map[int]map[byte][]parser.ParserOp,
	rowNames *map[int]string,
	err error) {
''','''// simplify
// Leaves out empty strings which change nothing
func simplify(g bnf.Grammar) bnf.Grammar {
	res := bnf.Grammar{}
	for _, rule := range g.Rules {
		tail := bnf.Substitution{}
		for _, sequence := range rule.Tail.Sequences {
			symbols := []bnf.Symbol{}
			for i, symbol := range sequence.Symbols {
				_, nothing := symbol.(bnf.SymbolNothing)
				if nothing && i+1 < len(sequence.Symbols) {
					continue
				}
				symbols = append(symbols, symbol)
			}
			tail.Sequences = append(tail.Sequences,
				bnf.Sequence{Symbols: symbols})
		}
		res.Rules = append(res.Rules, bnf.Rule{Head: rule.Head, Tail: tail})
	}
	return res
}

func FromGrammar(src bnf.Grammar) (table *map[int]map[byte][]parser.ParserOp,
	rowNames *map[int]string,
	err error) {

	g := simplify(src)
''')],REJ%'gram(rule("s", alt(nothing, tm("x"))))')
CELL='''func TestDemo(t *testing.T) {
	tab, _, err := tablegen.FromGrammar(%s)
	if err != nil {
		t.Fatal(err)
	}
	var got []int
	for b := 0; b < 256; b++ {
		if ops, ok := (*tab)[%d][byte(b)]; ok && %s {
			got = append(got, b)
		}
	}
	if want := []int{%s}; !reflect.DeepEqual(got, want) {
		t.Fatal(got, want)
	}
}
'''
add('v06-only-empty-rule','C12','a rule that derives nothing but the empty string before another symbol','an alternative is not predicted on the bytes that come after such a rule',
 [(T,'''			isEmptyStrFound = ruleFirsts.Contains(EOS)
			ruleFirsts.Remove(EOS)
''','''			isEmptyStrFound = ruleFirsts.Contains(EOS) && ruleFirsts.Len() > 1
			ruleFirsts.Remove(EOS)
''')],CELL%('gram(rule("s", alt(nt("e"), tm("x"))), rule("e", alt(nothing)))',0,'len(ops) > 0',"'x'"))
add('v07-first-rune','C12','a terminal that starts with a character beyond ASCII','the alternative is predicted on the low byte of the character',
 [(T,'''	return bs.New(t.Name[0])
''','''	first := bs.New()
	for _, c := range t.Name {
		first.Add(byte(c))
		break
	}
	return first
''')],CELL%('gram(rule("s", alt(tm("\\u00e9")), alt(tm("x"))))',0,'len(ops) > 0',"'x', 0xc3"))
add('v09-follow-two-empty','C13','a rule followed by two symbols that can both be empty','what follows the containing rule is not counted',
 [(T,'''		for nextFirsts.Contains(EOS) && ruleIndex != sequenceRuleIndex {
''','''		for nextFirsts.Contains(EOS) && ruleIndex != sequenceRuleIndex &&
			len(rest.Symbols) == 1 {
''')],CELL%('gram(rule("s", alt(nt("p"), tm("z"))), rule("p", alt(nt("a"), nt("b"), nt("c"))), rule("a", alt(nothing), alt(tm("a"))), rule("b", alt(nothing), alt(tm("b"))), rule("c", alt(nothing), alt(tm("c"))))',2,'len(ops) == 0',"'b', 'c', 'z'"))
add('v10-follow-last-only','C13','an alternative in which a rule occurs at the end and before','what follows the earlier occurrence is not counted',
 [(T,'''		if tg.follows[ruleIndex].IsSuperSet(ruleFollows) {
			// No new values
			break
		}
		tg.follows[ruleIndex] = tg.follows[ruleIndex].Union(ruleFollows)
		*followsChanged = true
		return nil
''','''		if tg.follows[ruleIndex].IsSuperSet(ruleFollows) {
			// No new values
			return nil
		}
		tg.follows[ruleIndex] = tg.follows[ruleIndex].Union(ruleFollows)
		*followsChanged = true
		return nil
''')],CELL%('gram(rule("s", alt(nt("a"), tm("x"), nt("a"))), rule("a", alt(nothing), alt(tm("a"))))',1,'len(ops) == 0',"0, 'x'"))
def chain(n): return 'gram('+', '.join(['rule("r0", alt(nt("r1")))']+['rule("r%d", alt(nt("r%d")))'%(i,i+1) for i in range(1,n)]+['rule("r%d", alt(tm("x")))'%n])+')'
add('v11-bounded-rounds','C14','a chain of more than 16 rules in an order that needs one round each','sets are incomplete when more than 16 rounds are needed',
 [(T,'''	firstsChanged := true
	for firstsChanged {
		firstsChanged = false
''','''	firstsChanged := true
	// no grammar needs that many rounds
	for round := 0; firstsChanged && round < 16; round++ {
		firstsChanged = false
''')],CELL%(chain(20),0,'len(ops) > 0',"'x'"))
add('v12-follow-flag','C14','an order of rules in which a follow set grows after the one it is added to was visited','a round that changed a set can be the last',
 [(T,'''			tg.follows[ruleIndex] = tg.follows[ruleIndex].Union(ruleFollows)
			*followsChanged = true
			break
''','''			// what is added below counts as the change
			tg.follows[ruleIndex] = tg.follows[ruleIndex].Union(ruleFollows)
			break
''')],CELL%('gram(rule("s", alt(nt("a"), tm("z"))), rule("d", alt(nothing), alt(tm("d"))), rule("c", alt(nt("d"))), rule("b", alt(nt("c"), nt("e"))), rule("a", alt(nt("b"), nt("e"))), rule("e", alt(nothing)))',1,'len(ops) == 0',"'z'"))
add('v13-flag-reset','C14','an order of rules in which only rules before the last change in a round','only changes of the last rule of a round lead to another round',
 [(T,'''	for followsChanged {
		followsChanged = false
		for ruleIndex := range tg.g.Rules {
''','''	for followsChanged {
		for ruleIndex := range tg.g.Rules {
			followsChanged = false
''')],CELL%('gram(rule("s", alt(nt("a"), tm("z"))), rule("d", alt(nothing), alt(tm("d"))), rule("c", alt(nt("d"))), rule("b", alt(nt("c"))), rule("a", alt(nt("b"))), rule("e", alt(nothing)))',1,'len(ops) == 0',"'z'"))
add('v14-empty-name','C15','a rule whose head has an empty name','the naming map has no entry for the rule',
 [(T,'''		rowNamesV[v] = k
''','''		if k != "" {
			rowNamesV[v] = k
		}
''')],'''func TestDemo(t *testing.T) {
	_, names, err := tablegen.FromGrammar(gram(rule("s", alt(nt(""))), rule("", alt(tm("x")))))
	if err != nil {
		t.Fatal(err)
	}
	if _, ok := (*names)[1]; !ok {
		t.Fatal("no name for row 1")
	}
}
''')
add('v15-valid-utf8','C15','a terminal that is not valid UTF-8','the operation holds another string than the terminal',
 [(T,'''						parser.OpTerminal(v.Name))
''','''						parser.OpTerminal(string([]rune(v.Name))))
''')],'''func TestDemo(t *testing.T) {
	tab, names, err := tablegen.FromGrammar(gram(rule("s", alt(tm("\\xff")))))
	if err != nil {
		t.Fatal(err)
	}
	if _, _, err := parser.NewLL1Parser(*tab, *names).Parse("\\xff"); err != nil {
		t.Fatal(err)
	}
}
''')
add('v16-empty-row','C15','a rule without alternatives','the table has no row for the rule',
 [(T,'''		tableV[ruleIndex], err = tg.makeTableRow(ruleIndex)
		if err != nil {
			return nil, err
		}
''','''		row, err := tg.makeTableRow(ruleIndex)
		if err != nil {
			return nil, err
		}
		if len(row) > 0 {
			tableV[ruleIndex] = row
		}
''')],'''func TestDemo(t *testing.T) {
	tab, _, err := tablegen.FromGrammar(gram(rule("s", alt(tm("x"))), rule("never")))
	if err != nil {
		t.Fatal(err)
	}
	if _, ok := (*tab)[1]; !ok {
		t.Fatal("no row 1")
	}
}
''')
add('v17-shadowed-rule','C13','an empty alternative after one with a non-terminal that other bytes can follow','the empty production is predicted on what follows another rule',
 [(T,'''					ruleIndex, ok := tg.ruleMap[v.Name]
					if !ok {
						return res,
							fmt.Errorf("no rules defined for non terminal <%s>",
								v.Name)
					}

					res[byte(term)]''','''					index, ok := tg.ruleMap[v.Name]
					if !ok {
						return res,
							fmt.Errorf("no rules defined for non terminal <%s>",
								v.Name)
					}
					if index != ruleIndex {
						ruleIndex = index
					}

					res[byte(term)]''')],CELL%('gram(rule("s", alt(tm("x"), nt("a"), tm("z")), alt(nothing)), rule("a", alt(tm("a"))))',0,'len(ops) == 0',"0"))
add('v18-last-grammar','C16','the same grammar given twice in a row and a caller that changes the first result','two calls return the same table',
 [(T,'''	table, err = tablegen.Run()
	if err != nil {
		return nil, nil, err
	}
''','''	if last.table != nil && last.text == g.String() {
		return last.table, last.names, nil
	}

	table, err = tablegen.Run()
	if err != nil {
		return nil, nil, err
	}
'''),(T,'''	return table, &rowNamesV, nil
''','''	last.text, last.table, last.names = g.String(), table, &rowNamesV

	return table, &rowNamesV, nil
'''),(T,'''const EOS = byte(0)
''','''const EOS = byte(0)

// last is what was generated last
var last struct {
	text  string
	table *map[int]map[byte][]parser.ParserOp
	names *map[int]string
}
''')],'''func TestDemo(t *testing.T) {
	g := gram(rule("s", alt(tm("x"))))
	a, _, err := tablegen.FromGrammar(g)
	if err != nil {
		t.Fatal(err)
	}
	delete(*a, 0)
	b, _, err := tablegen.FromGrammar(g)
	if err != nil || len(*b) != 1 {
		t.Fatal(err, len(*b))
	}
}
''')
add('v19-sorted-alternatives','C16','a rule with an empty alternative that is not the last','the alternatives of the grammar given are reordered',
 [(T,'''	for _, sequence := range rule.Tail.Sequences {
		seqFirsts, err := tg.sequenceFirsts(&sequence)
		if err != nil {
			return res, err
		}

		if seqFirsts''','''	// the empty production is looked at last
	for i := 0; i+1 < len(rule.Tail.Sequences); i++ {
		seqs := rule.Tail.Sequences
		if _, ok := seqs[i].Symbols[0].(bnf.SymbolNothing); ok {
			seqs[i], seqs[i+1] = seqs[i+1], seqs[i]
		}
	}

	for _, sequence := range rule.Tail.Sequences {
		seqFirsts, err := tg.sequenceFirsts(&sequence)
		if err != nil {
			return res, err
		}

		if seqFirsts''')],'''func TestDemo(t *testing.T) {
	g := gram(rule("s", alt(nothing), alt(tm("x"))))
	want := g.String()
	if _, _, err := tablegen.FromGrammar(g); err != nil {
		t.Fatal(err)
	}
	if g.String() != want {
		t.Fatal(g.String())
	}
}
''')
add('v20-op-pool','C16','two calls at the same time','operations are kept in a map shared by all calls',
 [(T,'''						parser.OpTerminal(v.Name))
''','''						terminalOp(v.Name))
'''),(T,'''func terminalFirsts(''','''// terminalOps: operations made so far
var terminalOps = map[string]parser.ParserOp{}

func terminalOp(name string) parser.ParserOp {
	op, ok := terminalOps[name]
	if !ok {
		op = parser.OpTerminal(name)
		terminalOps[name] = op
	}
	return op
}

func terminalFirsts(''')],'''func TestDemo(t *testing.T) {
	done := make(chan bool)
	for i := 0; i < 8; i++ {
		go func(i int) {
			for j := 0; j < 2000; j++ {
				tablegen.FromGrammar(gram(rule("s", alt(tm(fmt.Sprint("x", i, j))))))
			}
			done <- true
		}(i)
	}
	for i := 0; i < 8; i++ {
		<-done
	}
}
''')
add('v21-append-follow','C16','a rule list with spare capacity','a rule is written behind the rules of the grammar given',
 [(T,'''	for ruleIndex := range tg.g.Rules {
		tableV[ruleIndex], err''','''	rules := append(tg.g.Rules, bnf.Rule{})
	for ruleIndex := range rules[:tg.ruleCount] {
		tableV[ruleIndex], err''')],'''func TestDemo(t *testing.T) {
	all := []bnf.Rule{rule("s", alt(tm("x"))), rule("kept", alt(tm("y")))}
	if _, _, err := tablegen.FromGrammar(bnf.Grammar{Rules: all[:1]}); err != nil {
		t.Fatal(err)
	}
	if all[1].Head.Name != "kept" {
		t.Fatal("a rule was overwritten")
	}
}
''')
