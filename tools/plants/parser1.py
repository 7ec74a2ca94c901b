P='pkg/parser/parser.go'
H='''package parser_test

import (
	"bytes"
	"errors"
	"io"
	"strings"
	"testing"
	"sync"

	"github.com/TooManySugar/ll1parser/pkg/cst"
	"github.com/TooManySugar/ll1parser/pkg/parser"
)

var _ = bytes.NewBuffer
var _ = errors.New
var _ io.Reader
var _ = strings.Repeat
var _ cst.Node
var _ sync.Mutex

type T = map[int]map[byte][]parser.ParserOp

var L = parser.NewParserOpList
var term = parser.OpTerminal
var nt = parser.OpNonTerminal

'''
PLANTS=[
dict(id='p01-skip-zero',property='C01',needs='a source with a zero byte in the middle',breaks='zero bytes of the source are skipped without being matched',
 edits=[(P,"	s.offset++\n","	s.offset++\n	for s.offset < len(s.src) && s.src[s.offset] == 0 && s.offset+1 < len(s.src) {\n		s.offset++\n	}\n")],
 demo=H+'''func TestDemo(t *testing.T) {
	p := parser.NewLL1Parser(T{0: {'a': L(term("ab"))}}, map[int]string{0: "S"})
	if _, _, err := p.Parse("a\\x00b"); err == nil {
		t.Fatal("accepted a source with an unmatched byte")
	}
}
'''),
dict(id='p02-char-mask',property='C01',needs='a terminal with a byte above 0x7f',breaks='bytes are compared after clearing the top bit of the terminal, so other bytes match',
 edits=[(P,"func (c opChar_t) Value() byte {\n	return c.value\n","func (c opChar_t) Value() byte {\n	return c.value & 0x7f\n")],
 demo=H+'''func TestDemo(t *testing.T) {
	p := parser.NewLL1Parser(T{0: {'a': L(term("a\\xc1"))}}, map[int]string{0: "S"})
	if _, _, err := p.Parse("aA"); err == nil {
		t.Fatal("accepted a byte that differs from the terminal's")
	}
	if _, _, err := p.Parse("a\\xc1"); err != nil {
		t.Fatal(err)
	}
}
'''),
dict(id='p03-buffer-as-reader',property='C03',needs='a *bytes.Buffer as source that is used again after parsing',breaks='the unread part of the buffer given as source is consumed',
 edits=[(P,"			return s.Bytes(), nil\n","			return io.ReadAll(s)\n")],
 demo=H+'''func TestDemo(t *testing.T) {
	p := parser.NewLL1Parser(T{0: {'a': L(term("ab"))}}, map[int]string{0: "S"})
	b := bytes.NewBufferString("ab")
	if _, _, err := p.Parse(b); err != nil {
		t.Fatal(err)
	}
	if b.String() != "ab" {
		t.Fatal("the buffer was consumed")
	}
}
'''),
dict(id='p04-reader-bom',property='C02',needs='an io.Reader whose data starts with a byte order mark',breaks='content read from a reader is not parsed byte for byte',
 edits=[(P,"		return io.ReadAll(s)\n","		data, err := io.ReadAll(s)\n		return bytes.TrimPrefix(data, []byte(\"\\xef\\xbb\\xbf\")), err\n")],
 demo=H+'''func TestDemo(t *testing.T) {
	p := parser.NewLL1Parser(T{0: {'a': L(term("ab"))}}, map[int]string{0: "S"})
	s := "\\xef\\xbb\\xbfab"
	_, _, e1 := p.Parse(s)
	_, _, e2 := p.Parse(strings.NewReader(s))
	if (e1 == nil) != (e2 == nil) {
		t.Fatal("string and reader differ", e1, e2)
	}
}
'''),
dict(id='p05-unexpected-eof',property='C02',needs='a reader that fails with io.ErrUnexpectedEOF after delivering a complete sentence',breaks='an error of the reader is turned into a success',
 edits=[(P,"		return io.ReadAll(s)\n","		data, err := io.ReadAll(s)\n		if err == io.ErrUnexpectedEOF {\n			err = nil\n		}\n		return data, err\n")],
 demo=H+'''type rd struct{ n int }

func (r *rd) Read(b []byte) (int, error) {
	if r.n == 0 {
		r.n = 1
		return copy(b, "ab"), nil
	}
	return 0, io.ErrUnexpectedEOF
}

func TestDemo(t *testing.T) {
	p := parser.NewLL1Parser(T{0: {'a': L(term("ab"))}}, map[int]string{0: "S"})
	if _, _, err := p.Parse(&rd{}); err == nil {
		t.Fatal("reader error dropped")
	}
}
'''),
dict(id='p06-partial-tree',property='C04',needs='a source that fails to match after at least one byte was matched',breaks='Parse returns a partial tree together with an error',
 edits=[(P,"			err := p.processChar(c)\n			if err != nil {\n				return nil, nil, err\n","			err := p.processChar(c)\n			if err != nil {\n				last, _ := p.prodStack.Pop()\n				return last, nil, err\n")],
 demo=H+'''func TestDemo(t *testing.T) {
	p := parser.NewLL1Parser(T{0: {'a': L(term("ab"))}}, map[int]string{0: "S"})
	n, m, err := p.Parse("ac")
	if err == nil || n != nil || m != nil {
		t.Fatal("result with an error", n, m, err)
	}
}
'''),
dict(id='p07-nothing-name',property='C05',needs='a naming map that has a name for -2 already',breaks='the name of empty nodes is the caller\'s instead of _nothing',
 edits=[(P,'	ret_names[builtinNothing]  = "_nothing"\n','	if _, taken := ret_names[builtinNothing]; !taken {\n		ret_names[builtinNothing] = "_nothing"\n	}\n')],
 demo=H+'''func TestDemo(t *testing.T) {
	p := parser.NewLL1Parser(T{0: {'a': L(term("ab"))}}, map[int]string{0: "S", -2: "EOL"})
	_, m, err := p.Parse("ab")
	if err != nil || (*m)[-2] != "_nothing" || (*m)[-1] != "_literal" {
		t.Fatal(m, err)
	}
}
'''),
dict(id='p08-amount-byte',property='C06',needs='a production of 256 symbols or more',breaks='the number of children is kept in a byte, so long productions lose children',
 edits=[(P,"	name int\n	pos int\n	amount int\n}","	name int\n	pos int\n	amount uint8\n}"),(P,"		amount: amount,\n","		amount: uint8(amount),\n"),(P,"	return f.amount\n","	return int(f.amount)\n"),
  (P,"	p.opStack.Push(\n		opFunction(builtinTerminal, p.scanner.aPos(), len(tValue)))\n	for i := len(tValue) - 1; i >= 0; i -- {","	p.opStack.Push(\n		opFunction(builtinTerminal, p.scanner.aPos(), len(tValue)))\n	for i := len(tValue) - 1; i >= 0; i-- {")],
 demo=H+'''func TestDemo(t *testing.T) {
	var ops []parser.ParserOp
	for i := 0; i < 300; i++ {
		ops = append(ops, term("a"))
	}
	p := parser.NewLL1Parser(T{0: {'a': ops}}, map[int]string{0: "S"})
	n, _, err := p.Parse(strings.Repeat("a", 300))
	if err != nil || len(n.Childs()) != 300 || n.Type() != 0 {
		t.Fatal("children lost", err)
	}
}
'''),
dict(id='p09-pos-16bit',property='C07',needs='a source longer than 65535 bytes',breaks='positions wrap around at 65536',
 edits=[(P,"func (s *ll1parserScanner) aPos() int {\n	return s.offset\n","func (s *ll1parserScanner) aPos() int {\n	return int(uint16(s.offset))\n")],
 demo=H+'''func TestDemo(t *testing.T) {
	s := strings.Repeat("a", 70000)
	p := parser.NewLL1Parser(T{0: {'a': L(term(s))}}, map[int]string{0: "S"})
	n, _, err := p.Parse(s)
	if err != nil || n.End() != 70000 {
		t.Fatal("wrong position", err, n.End())
	}
}
'''),
dict(id='p10-default-empty',property='C08',needs='a table with an empty production and a byte it has no cell for',breaks='a byte without cell falls back to the empty production at the end of input',
 edits=[(P,"	opsToPush, ok := ruleMap[p.scanner.peek()]\n	if !ok {\n","	opsToPush, ok := ruleMap[p.scanner.peek()]\n	if !ok {\n		// fall back to the production for the end of input\n		opsToPush, ok = ruleMap[0]\n		ok = ok && len(opsToPush) == 0\n	}\n	if !ok {\n")],
 demo=H+'''func TestDemo(t *testing.T) {
	p := parser.NewLL1Parser(T{0: {'a': L(nt(1), term("b"))}, 1: {'a': L(term("a")), 0: L()}}, map[int]string{0: "S", 1: "A"})
	if _, _, err := p.Parse("ab"); err != nil {
		t.Fatal(err)
	}
	q := parser.NewLL1Parser(T{0: {'c': L(term("c"), nt(1), term("b"))}, 1: {'a': L(term("a")), 0: L()}}, map[int]string{0: "S", 1: "A"})
	if _, _, err := q.Parse("cb"); err == nil {
		t.Fatal("the table has no cell for b")
	}
}
'''),
dict(id='p11-lone-cr',property='C08',needs='the built-in end of line with a carriage return that no line feed follows',breaks='a lone carriage return is accepted as end of line',
 edits=[(P,"				opFunction(name, p.scanner.aPos(), 2))\n			p.opStack.Push(OpTerminal(\"\\n\"))\n			p.opStack.Push(OpTerminal(\"\\r\"))\n","				opFunction(name, p.scanner.aPos(), 1))\n			if at := p.scanner.offset + 1; at < len(p.scanner.src) && p.scanner.src[at] == '\\n' {\n				p.opStack.Push(OpTerminal(\"\\r\\n\"))\n			} else {\n				p.opStack.Push(OpTerminal(\"\\r\"))\n			}\n")],
 demo=H+'''func TestDemo(t *testing.T) {
	p := parser.NewLL1Parser(T{0: {'a': L(term("a"), nt(-2))}}, map[int]string{0: "S"})
	if _, _, err := p.Parse("a\\r\\n"); err != nil {
		t.Fatal(err)
	}
	if _, _, err := p.Parse("a\\r"); err == nil {
		t.Fatal("lone carriage return accepted")
	}
}
'''),
dict(id='p12-empty-source-panic',property='C09',needs='an empty source',breaks='Parse panics on an empty source',
 edits=[(P,"	if s.offset >= len(s.src) {\n		return byte(0)\n","	if s.offset > 0 && s.offset >= len(s.src) {\n		return byte(0)\n")],
 demo=H+'''func TestDemo(t *testing.T) {
	p := parser.NewLL1Parser(T{0: {'a': L(term("a"))}}, map[int]string{0: "S"})
	if _, _, err := p.Parse(""); err == nil {
		t.Fatal("accepted")
	}
}
'''),
dict(id='p13-shared-stack',property='C03',needs='two Parse calls in progress at the same time, one from inside the reader of the other',breaks='the stack of operations is kept in a package-level variable between calls',
 edits=[(P,"type ll1parserProdStack struct {","var freeOps []ParserOp\n\ntype ll1parserProdStack struct {"),(P,"	p.opStack.Push(opEOS())\n","	p.opStack.stack = freeOps[:0]\n	p.opStack.Push(opEOS())\n"),
  (P,"			return p.processEOS()\n","			freeOps = p.opStack.stack\n			return p.processEOS()\n")],
 flags='-race',
 demo=H+'''func TestDemo(t *testing.T) {
	tab := T{0: {'a': L(term("aaaaaaaa"), nt(1))}, 1: {'b': L(term("b"), nt(1)), 0: L()}}
	p := parser.NewLL1Parser(tab, map[int]string{0: "S", 1: "B"})
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					t.Error("panic", r)
				}
			}()
			for j := 0; j < 300; j++ {
				if _, _, err := p.Parse("aaaaaaaabbbbbbb"); err != nil {
					t.Error(err)
					return
				}
			}
		}()
	}
	wg.Wait()
}
'''),
dict(id='p14-memo-miss',property='C03',needs='a table reused after a failed parse',breaks='Parse adds a cell to the table of the caller',
 edits=[(P,"	ruleMap, ok := p.table[name]\n	if !ok {\n","	ruleMap, ok := p.table[name]\n	if ok && ruleMap == nil {\n		ruleMap = map[byte][]ParserOp{}\n		p.table[name] = ruleMap\n	}\n	if !ok {\n")],
 demo=H+'''func TestDemo(t *testing.T) {
	tab := T{0: {'a': L(term("a"), nt(1))}, 1: nil}
	p := parser.NewLL1Parser(tab, map[int]string{0: "S"})
	if _, _, err := p.Parse("ab"); err == nil {
		t.Fatal("accepted")
	}
	if tab[1] != nil {
		t.Fatal("the table was changed")
	}
}
'''),
dict(id='p15-nothing-pos',property='C07',needs='an empty production used after some bytes were read',breaks='the empty node in an empty production gets position 0',
 edits=[(P,"		                                 cst.NewNode(builtinNothing,\n		                                     p.scanner.aPos(),\n		                                     p.scanner.aPos(),\n","		                                 cst.NewNode(builtinNothing,\n		                                     p.scanner.aPos(),\n		                                     p.scanner.offset &^ 0x100,\n")],
 demo=H+'''func TestDemo(t *testing.T) {
	s := strings.Repeat("a", 300)
	p := parser.NewLL1Parser(T{0: {'a': L(term(s), nt(1))}, 1: {0: L()}}, map[int]string{0: "S", 1: "E"})
	n, _, err := p.Parse(s)
	if err != nil {
		t.Fatal(err)
	}
	e := n.Childs()[1].Childs()[0]
	if e.Pos() != 300 || e.End() != 300 {
		t.Fatal("wrong position", e.Pos(), e.End())
	}
}
'''),
]
