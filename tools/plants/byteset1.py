import re
F='pkg/bnf/tablegen/byteset/byteset.go'
src=open('/repo/'+F).read()
PLANTS=[]
def fn(name):
    return re.search(r'(?m)^func (\(s \*?ByteSet\) )?'+name+r'\(.*\{\n(.*\n)*?\}\n',src).group(0)
def add(id,prop,needs,breaks,edits,body,imports=()):
    im=sorted(['github.com/TooManySugar/ll1parser/pkg/bnf/tablegen/byteset','testing',*imports])
    d='package parser_test\n\nimport (\n'+''.join('\t"%s"\n'%i for i in im)+')\n\n'+body
    PLANTS.append(dict(id=id,property=prop,needs=needs,breaks=breaks,edits=edits,demo=d))
def f(n,a,b):
    o=fn(n); assert o.count(a)==1,(n,a,o.count(a)); return (F,o,o.replace(a,b))
add('w01-add-plus','C18','adding a byte a set already holds','the addition carries into the next byte',
 [f('Add','s.data[i] = s.data[i] | mask','s.data[i] += mask')],
'''func TestDemo(t *testing.T) {
	s := byteset.New('a', 'a')
	if !s.Contains('a') || s.Contains('b') {
		t.Fatal(s.Bytes())
	}
}
''')
add('w02-remove-high','C18','removing a byte above 0x7f','the byte 0x80 below it is removed instead',
 [f('Remove','i := value / 64','i := value / 64 & 1')],
'''func TestDemo(t *testing.T) {
	s := byteset.New(200, 72)
	s.Remove(200)
	if s.Contains(200) || !s.Contains(72) {
		t.Fatal(s.Bytes())
	}
}
''')
add('w03-subset-equal-size','C18','two sets of which neither includes the other in the third word','a set is taken for a subset if its third word is not smaller',
 [f('IsSubSet','(s.data[2] & other.data[2]) == s.data[2]','(s.data[2] & other.data[2]) <= s.data[2] && (s.data[2] | other.data[2]) >= s.data[2]')],
'''func TestDemo(t *testing.T) {
	if byteset.New(0x80).IsSubSet(byteset.New(0x81)) {
		t.Fatal("subset")
	}
}
''')
add('w04-debruijn-swap','C19','a set with a byte that is 28 or 29 above a multiple of 64','two entries of the table are swapped',
 [(F,'13, 29, 11,','13, 28, 11,'),(F,'34, 28, 10,','34, 29, 10,')],
'''func TestDemo(t *testing.T) {
	for b := 0; b < 256; b++ {
		l := byteset.New(byte(b)).Bytes()
		if len(l) != 1 || l[0] != byte(b) {
			t.Fatal(b, l)
		}
	}
}
''')
add('w05-len-full','C19','a set of all 256 bytes','the number of members is kept in a byte',
 [(F,fn('Len'),fn('Len').replace('''	res := 0
''','''	var res uint8
''').replace('popCount(','uint8(popCount(').replace('])',']))').replace('return res','return int(res)'))],
'''func TestDemo(t *testing.T) {
	s := byteset.New()
	for b := 0; b < 256; b++ {
		s.Add(byte(b))
	}
	if s.Len() != 256 {
		t.Fatal(s.Len())
	}
}
''')
add('w06-string-pad','C19','a member below 0x10','it is printed with a blank instead of a zero',
 [f('String','"%02X "','"%2X "')],
'''func TestDemo(t *testing.T) {
	if s := byteset.New(9, 0x41).String(); s != "[09 41]" {
		t.Fatal(s)
	}
}
''')
add('w07-bytes-words','C19','members in the second and third word','the third word is listed before the second',
 [f('walkBytes','''	realBytesF(s.data[1], 0x40, f)
	realBytesF(s.data[2], 0x80, f)
''','''	realBytesF(s.data[2], 0x80, f)
	realBytesF(s.data[1], 0x40, f)
''')],
'''func TestDemo(t *testing.T) {
	l := byteset.New(0x41, 0x81).Bytes()
	if l[0] != 0x41 {
		t.Fatal(l)
	}
}
''')
add('w08-union-receiver','C18','a union whose argument has bytes the receiver lacks, in the last word','the bytes of the last word are those in one of the sets only',
 [f('Union','s.data[3] | other.data[3]','s.data[3] ^ other.data[3]')],
'''func TestDemo(t *testing.T) {
	u := byteset.New(0xff).Union(byteset.New(0xff, 0xfe))
	if !u.Contains(0xff) || !u.Contains(0xfe) {
		t.Fatal(u)
	}
}
''')
add('w10-new-first-dup','C18','equal arguments that follow each other','New stops at a byte it has seen',
 [f('New','''		res.Add(v)
''','''		if res.Contains(v) {
			break
		}
		res.Add(v)
''')],
'''func TestDemo(t *testing.T) {
	s := byteset.New('x', 'x', 'y')
	if !s.Contains('y') {
		t.Fatal(s)
	}
}
''')
add('w11-string-single','C19','a set with a single member','the bracket replaces a digit',
 [f('String','''	b[len(b)-1] = ']'
''','''	if c == 3 {
		b = b[:c]
	}
	b[len(b)-1] = ']'
''')],
'''func TestDemo(t *testing.T) {
	if s := byteset.New(0x41).String(); s != "[41]" {
		t.Fatal(s)
	}
}
''')
add('w12-equal-hash','C18','different sets whose words have the same exclusive or','sets are compared by a digest first',
 [f('Equal','''	return s.data[0]''','''	if a, b := s.data[0]^s.data[2], other.data[0]^other.data[2]; a == b && s.data[1] == other.data[1] && s.data[3] == other.data[3] {
		return true
	}
	return s.data[0]''')],
'''func TestDemo(t *testing.T) {
	if byteset.New(0, 0x80).Equal(byteset.New()) {
		t.Fatal("equal")
	}
}
''')
