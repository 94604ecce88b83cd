G='''package main

'''
def M(imports, body): 
    imp=''.join('\t"%s"\n'%i for i in imports)
    return G+('import (\n'+imp+')\n\n' if imports else '')+body
R='github.com/alexZaicev/go-vtd-xml/vtdxml/reader'
P='github.com/alexZaicev/go-vtd-xml/vtdxml/parser'
B='github.com/alexZaicev/go-vtd-xml/vtdxml/buffer'
N='github.com/alexZaicev/go-vtd-xml/vtdxml/navigation'
E='github.com/alexZaicev/go-vtd-xml/vtdxml/erroring'

C='github.com/alexZaicev/go-vtd-xml/vtdxml/common'

bug('c10-one-navigator','C10',[('parser/get_nav.go','	return navigation.NewVtdNav(','''	if p.nav != nil {
		// the index does not change any more
		return p.nav, nil
	}
	nav, err := navigation.NewVtdNav('''),
 ('parser/get_nav.go','''		p.vtdBuffer, p.l1Buffer, p.l2Buffer, p.l3Buffer,
	)
''','''		p.vtdBuffer, p.l1Buffer, p.l2Buffer, p.l3Buffer,
	)
	if err != nil {
		return nil, err
	}
	p.nav = nav
	return nav, nil
'''),
 ('parser/vtd_parser.go','	reader                                                              reader.Reader\n','	reader                                                              reader.Reader\n	nav                                                                 *navigation.VtdNav\n'),
 ('parser/vtd_parser.go','	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"\n','	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"\n	"github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"\n')],
 'two navigators obtained from one parser, moved in turns',
 'both navigators share one cursor',
 M([N],'''func main() {
	p, err := parse("<a><b/><c/></a>")
	if err != nil {
		bad("%v", err)
	}
	n, m := nav(p), nav(p)
	move := func(n *navigation.VtdNav, d navigation.Direction) {
		if r, err := n.ToElement(d); err != nil || !r {
			bad("%v %v", r, err)
		}
	}
	move(n, navigation.Root)
	move(n, navigation.FirstChild)
	move(m, navigation.Root)
	move(n, navigation.NextSibling)
	ok()
}
'''))

bug('c09-same-length-urls','C09',[('parser/process_attr_val.go','	endA, endB := a.offset+a.length, b.offset+b.length\n','''	if a.length != b.length {
		return false, nil
	}
	endA, endB := a.offset+a.length, b.offset+b.length
'''),('parser/process_attr_val.go','	if a.offset == endA && b.offset == endB {\n		return true, nil\n	}\n	return false, nil','	return a.offset == endA && b.offset == endB, nil')],
 'two prefixes bound to one name that is written with a reference once',
 'two attributes with the same expanded name are accepted',
 M([P],'''func main() {
	for _, u := range []string{"u=v", "u&#61;v", "u&#x3d;v"} {
		_, err := parse("<a xmlns:p='u=v' xmlns:q='"+u+"' p:x='' q:x=''/>", parser.WithNameSpaceAware(true))
		if err == nil {
			bad("%q accepted", u)
		}
	}
	if _, err := parse("<a xmlns:p='u=v' xmlns:q='u=w' p:x='' q:x=''/>", parser.WithNameSpaceAware(true)); err != nil {
		bad("%v", err)
	}
	ok()
}
'''))

bug('c05-byte-behind','C05',[('parser/common.go','''		for so <= offset-1 {
			if p.xmlDoc[so] == '\\n' {''','''		for so <= offset && so < len(p.xmlDoc) {
			if p.xmlDoc[so] == '\\n' {''')],
 'a rejection at the last byte of a window that is followed by a line feed',
 'the reported line depends on the byte behind the window',
 M([P,E,'errors'],'''func main() {
	line := func(doc string, n int) string {
		p, err := parser.NewVtdParser(parser.WithXmlDocCustomOffset([]byte(doc), 0, n))
		if err != nil {
			bad("%v", err)
		}
		var pe *erroring.ParseError
		if err = p.Parse(); !errors.As(err, &pe) {
			bad("%v", err)
		}
		return pe.LineNumber
	}
	a, b := line("<a/>x\\n", 5), line("<a/>xx", 5)
	if a != b {
		bad("%q %q", a, b)
	}
	ok()
}
'''))

bug('c13-ascii-partial','C13',[('reader/ascii_reader.go','''	offset := r.offset
	for _, ch := range seq {
		if !r.SkipChar(uint32(ch)) {
			r.offset = offset
			return false
		}
	}
	return true
''','''	offset := r.offset
	for i := 0; i < len(seq); i++ {
		if r.offset >= r.endOffset {
			return false
		}
		if !r.SkipChar(uint32(seq[i])) {
			r.offset = offset
			return false
		}
	}
	return true
''')],
 'a sequence cut at the end of the window',
 'a sequence that does not match is consumed in part',
 M([R],'''func main() {
	for n := 1; n < 6; n++ {
		r, err := reader.NewAsciiReader([]byte("abcdef"), 0, n)
		if err != nil {
			bad("%v", err)
		}
		if r.SkipCharSeq("abcdefg") || r.GetOffset() != 0 {
			bad("%d: offset %d", n, r.GetOffset())
		}
	}
	ok()
}
''').replace('M(','M('))

bug('c07-last-entry','C07',[('parser/parse.go','''		if p.lastDepth == 1 {
			err = p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFFFFFF))
		} else if p.lastDepth == 2 {
			err = p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFFFFFF))
		} else if''','''		if p.lastDepth == 1 {
			err = p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFFFFFF))
		} else if p.lastDepth == 2 && p.l2Buffer.Append(int64((p.lastL2Index<<32)|0xFFFFFFFF)) == nil {
			return nil
		} else if''')],
 'the very last append of a parse with five cache levels fails',
 'the parse reports success, the last element is missing in the second cache level',
 M(['errors','reflect','unsafe',P,B,N],'''type failing struct {
	buffer.LongBuffer
	at int
}

func (f *failing) Append(v int64) error {
	f.at--
	if f.at == 0 {
		return errors.New("disk full")
	}
	return f.LongBuffer.Append(v)
}

func run(at int) (string, bool) {
	p, err := parser.NewVtdParser(parser.WithXmlDoc([]byte("<a><b><c/><d/></b></a>")), parser.WithLcDepth(5))
	if err != nil {
		bad("%v", err)
	}
	v := reflect.ValueOf(p).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Type().Field(i).Name == "l2Buffer" {
			f := (*buffer.LongBuffer)(unsafe.Pointer(v.Field(i).UnsafeAddr()))
			*f = &failing{*f, at}
		}
	}
	if err := p.Parse(); err != nil {
		return "", false
	}
	n := nav(p)
	n.ToElement(navigation.Root)
	n.ToElement(navigation.FirstChild)
	n.ToElement(navigation.FirstChild)
	n.ToElement(navigation.NextSibling)
	i, err := n.GetCurrentIndex()
	if err != nil {
		bad("%v", err)
	}
	s, err := n.ToRawStringAtIndex(int(i))
	if err != nil {
		bad("%v", err)
	}
	return s, true
}

func main() {
	for at := 0; at < 5; at++ {
		if s, done := run(at); done && s != "d" {
			bad("append %d fails, success reported, found %q", at, s)
		}
	}
	ok()
}
'''))

bug('c07-trailing-failure','C07',[('parser/parse.go','''		var eofErr *erroring.EOFError
		if errors.As(err, &eofErr) && parserState == StateDocEnd {''','''		var parseErr *erroring.ParseError
		if err != nil && !errors.As(err, &parseErr) && parserState == StateDocEnd {''')],
 'the character source fails between the root element and a comment behind it',
 'the parse reports success without the tokens of the rest',
 M(['errors','reflect','unsafe',P,R],'''type failing struct {
	reader.Reader
	at int
}

func (f *failing) GetChar() (uint32, error) {
	f.at--
	if f.at == 0 {
		return 0, errors.New("read error")
	}
	return f.Reader.GetChar()
}

func run(at int) (int, bool) {
	p, err := parser.NewVtdParser(parser.WithXmlDoc([]byte("<a/> <!--b-->")))
	if err != nil {
		bad("%v", err)
	}
	v := reflect.ValueOf(p).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Type().Field(i).Name == "reader" {
			f := (*reader.Reader)(unsafe.Pointer(v.Field(i).UnsafeAddr()))
			*f = &failing{*f, at}
		}
	}
	if err := p.Parse(); err != nil {
		return 0, false
	}
	return nav(p).GetVtdBufferSize(), true
}

func main() {
	all, _ := run(0)
	for at := 1; at < 20; at++ {
		if n, done := run(at); done && n != all {
			bad("read %d fails, success reported with %d of %d tokens", at, n, all)
		}
	}
	ok()
}
'''))

bug('c08-lower-case','C08',[('parser/common.go','''	for _, chars := range seqRange {
		skipped = p.skipChar(chars[0]) || p.skipChar(chars[1])
		if !skipped {
			return false
		}
	}
''','''	for _, chars := range seqRange {
		at := p.offset
		if skipped = p.skipChar(chars[0]); !skipped {
			skipped = p.skipChar(chars[1])
		}
		if !skipped {
			return false
		}
		// keep the name of the encoding in its canonical form
		if c := byte(chars[0]); p.xmlDoc[at] != c {
			p.xmlDoc[at] = c
		}
	}
''')],
 'a declaration that names its encoding in capital letters',
 'parsing changes the bytes of the document',
 M([P],'''func main() {
	for _, e := range []string{"utf-8", "UTF-8", "Utf-8"} {
		d := "<?xml version='1.0' encoding='" + e + "'?><a/>"
		b := []byte(d)
		p, err := parser.NewVtdParser(parser.WithXmlDoc(b))
		if err != nil {
			bad("%v", err)
		}
		if err := p.Parse(); err != nil {
			bad("%v", err)
		}
		if string(b) != d {
			bad("%q is now %q", d, b)
		}
	}
	ok()
}
'''))

bug('c11-attr-tabs','C11',[('navigation/to_string.go','''	return n.ToStringAtRange(offset, length)
}''','''	str, err := n.ToStringAtRange(offset, length)
	if err != nil || common.Token(tokenType) != common.TokenAttrVal {
		return str, err
	}
	return strings.ReplaceAll(str, "\\t", " "), nil
}'''),('navigation/to_string.go','	"bytes"\n','	"bytes"\n	"strings"\n')],
 'an attribute value that contains a tab, as such or as a reference',
 'the tab is replaced',
 M([],'''func main() {
	p, err := parse("<a x='1&#9;2'/>")
	if err != nil {
		bad("%v", err)
	}
	n := nav(p)
	for i := 0; i < n.GetVtdBufferSize(); i++ {
		if t, _ := n.GetTokenType(i); t == 4 {
			if s, err := n.ToStringAtIndex(i); err != nil || s != "1\\t2" {
				bad("%q %v", s, err)
			}
		}
	}
	ok()
}
'''))

bug('c12-clear-capacity','C12',[('buffer/long_buffer.go','''func (b *FastLongBuffer) Clear() {
	b.size = 0
}''','''func (b *FastLongBuffer) Clear() {
	b.size, b.capacity = 0, 0
}''')],
 'a buffer that is filled again after Clear',
 'entries appended after Clear do not read back',
 M([B],'''func main() {
	b, err := buffer.NewFastLongBuffer(buffer.WithFastLongBufferPageSize(1))
	if err != nil {
		bad("%v", err)
	}
	for r := int64(0); r < 3; r++ {
		for i := int64(0); i < 5; i++ {
			if err := b.Append(r*10 + i); err != nil {
				bad("%v", err)
			}
			if v, err := b.LongAt(int(i)); err != nil || v != r*10+i {
				bad("round %d entry %d: %d %v", r, i, v, err)
			}
		}
		b.Clear()
	}
	ok()
}
'''))

bug('c14-start-tag-line','C14',[('parser/process_end_tag.go','''			return StateInvalid, erroring.NewParseError("start/end tag mismatch", p.fmtLine(), nil)''','''			return StateInvalid, erroring.NewParseError("start/end tag mismatch", p.fmtCustomLine(sOffset), nil)''')],
 'an end tag that is damaged, some lines behind its start tag',
 'the reported line is the one of the intact start tag',
 M([E,'errors','strings'],'''func main() {
	_, err := parse("<a>\\n\\n</b>")
	var pe *erroring.ParseError
	if !errors.As(err, &pe) {
		bad("%v", err)
	}
	if !strings.Contains(pe.LineNumber, "Line number: 3 ") {
		bad("reported at %q", pe.LineNumber)
	}
	ok()
}
'''))

bug('c02-wrapped-reference','C02',[('parser/common.go','''					} else {
						return 0, erroring.NewEntityError("illegal char following &#x")
					}
					if value > unicode.MaxRune {
						return 0, erroring.NewEntityError(erroring.InvalidChar)
					}
				}
			} else {''','''					} else {
						return 0, erroring.NewEntityError("illegal char following &#x")
					}
				}
				if value > unicode.MaxRune {
					return 0, erroring.NewEntityError(erroring.InvalidChar)
				}
			} else {''')],
 'a hexadecimal reference with nine or more significant digits',
 'the value wraps around and the reference is accepted',
 M([],'''func main() {
	for _, d := range []string{"<a>&#x100000041;</a>", "<a b='&#xA00000020;'/>", "<a>&#x110000;</a>", "<a>&#xFFFFFFFFFFFF00000041;</a>"} {
		if _, err := parse(d); err == nil {
			bad("%q accepted", d)
		}
	}
	if _, err := parse("<a>&#x0000000041;</a>"); err != nil {
		bad("%v", err)
	}
	ok()
}
'''))

bug('c02-bracket-run','C02',[('parser/common.go','''			for p.skipChar(']') {
				cdataEnd = true
			}
			if cdataEnd && p.skipChar('>') {
				return erroring.NewParseError("]]> sequence in text content"''','''			if p.skipChar(']') {
				cdataEnd = true
			}
			if cdataEnd && p.skipChar('>') {
				return erroring.NewParseError("]]> sequence in text content"''')],
 'three brackets in front of > in text',
 'the illegal sequence ]]> is accepted',
 M([],'''func main() {
	for _, d := range []string{"]]>", "]]]>", "]]]]>", "]]]]]>"} {
		if _, err := parse("<a>x"+d+"</a>"); err == nil {
			bad("%q accepted", d)
		}
	}
	ok()
}
'''))

bug('c02-missing-space','C02',[('parser/process_attr_val.go','''	if p.xmlChar.IsSpaceChar(p.currentChar) {
		if err := p.nextCharAfterWs(); err != nil {
			return StateInvalid, err
		}
		if p.xmlChar.IsNameStartChar(p.currentChar) {
			offset, err := p.getPrevOffset()
			if err != nil {
				return StateInvalid, err
			}
			p.lastOffset = offset
			return StateAttrName, nil
		}
	}
''','''	if p.xmlChar.IsSpaceChar(p.currentChar) {
		if err := p.nextCharAfterWs(); err != nil {
			return StateInvalid, err
		}
	}
	if p.xmlChar.IsNameStartChar(p.currentChar) {
		offset, err := p.getPrevOffset()
		if err != nil {
			return StateInvalid, err
		}
		p.lastOffset = offset
		return StateAttrName, nil
	}
''')],
 'two attributes without white space between them',
 'the tag is accepted',
 M([],'''func main() {
	if _, err := parse("<a b='1'c='2'/>"); err == nil {
		bad("accepted")
	}
	if _, err := parse("<a b='1' c='2'/>"); err != nil {
		bad("%v", err)
	}
	ok()
}
'''))

bug('c03-longest-value','C03',[('parser/common.go','		if p.length1 > maxTokenLength {','		if p.length1 >= maxTokenLength {')],
 'an attribute value of exactly 1048575 bytes',
 'a document within the limits is refused',
 M(['strings'],'''func main() {
	for n := 1<<20 - 3; n < 1<<20; n++ {
		if _, err := parse("<a b='" + strings.Repeat("x", n) + "'/>"); err != nil {
			bad("%d: %v", n, err)
		}
	}
	ok()
}
'''))

bug('c03-longest-prefix','C03',[('parser/process_attr_name.go','		if p.length2 > maxPrefixLength || p.length1 > maxQnameLength {','		if p.length2 >= maxPrefixLength || p.length1 > maxQnameLength {')],
 'an attribute with a prefix of exactly 511 bytes',
 'a document within the limits is refused',
 M(['strings'],'''func main() {
	for n := 508; n < 512; n++ {
		if _, err := parse("<a " + strings.Repeat("x", n) + ":b='1'/>"); err != nil {
			bad("%d: %v", n, err)
		}
	}
	ok()
}
'''))

bug('c04-ns-stays','C04',[('parser/process_attr_val.go','''	p.isXml, p.isNs = false, false
	if err := p.nextChar()''','''	if p.nsAware {
		p.isXml, p.isNs = false, false
	}
	if err := p.nextChar()''')],
 'an attribute behind a namespace declaration, parsed without namespace checking',
 'the attribute name gets the token type of a namespace declaration',
 M([],'''func main() {
	p, err := parse("<a xmlns='u' b='1'/>")
	if err != nil {
		bad("%v", err)
	}
	want := []int32{13, 0, 3, 4, 2, 4}
	for i, t := range toks(nav(p)) {
		if i > 3 && t[0] != want[i] {
			bad("token %d: %v", i, t)
		}
	}
	ok()
}
'''))

bug('c04-deep-mask','C04',[('parser/common.go','	b := (a | ((depth64 & 0xff) << 20) | length64) << 32','''	// depth -1 takes the whole field
	b := (a | ((depth64 % 128 & 0xff) << 20) | length64) << 32''')],
 'elements nested deeper than 127',
 'the depth of their tokens is wrong',
 M(['strings'],'''func main() {
	for _, n := range []int{3, 100, 128, 129, 200, 254} {
		p, err := parse(strings.Repeat("<a>", n) + strings.Repeat("</a>", n))
		if err != nil {
			bad("%v", err)
		}
		for i, t := range toks(nav(p))[1:] {
			if t[0] == 0 && t[3] != int32(i) {
				bad("%d: token %d has depth %d", n, i, t[3])
			}
		}
	}
	ok()
}
'''))

bug('c08-mark-leaf','C08',[('navigation/to_element.go','''			if depth <= n.context[0] {
				return false, nil
			} else if depth == (n.context[0] + 1) {
				n.context[0] += 1''','''			if depth <= n.context[0] {
				// remember in a spare bit that there are no children
				at := int(n.context[n.context[0]])
				val, err := n.vtdBuffer.LongAt(at)
				if err != nil {
					return false, err
				}
				return false, n.vtdBuffer.ModifyEntry(at, val|1<<31)
			} else if n.context[0]+1 == depth {
				n.context[0] += 1''')],
 'asking a childless element at depth three or more for its first child',
 'a move changes the finished index',
 M(['reflect','unsafe',B,N],'''func main() {
	p, err := parse("<a><b><c><d/><d/></c></b></a>")
	if err != nil {
		bad("%v", err)
	}
	n := nav(p)
	raw := func() (out []int64) {
		v := reflect.ValueOf(p).Elem()
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).Name == "vtdBuffer" {
				out, _ = (*(*buffer.LongBuffer)(unsafe.Pointer(v.Field(i).UnsafeAddr()))).ToLongArray()
			}
		}
		return
	}
	before := raw()
	for _, d := range []navigation.Direction{0, 2, 2, 2, 2, 2, 4, 2, 5} {
		n.ToElement(d)
	}
	for i, v := range raw() {
		if v != before[i] {
			bad("entry %d changed", i)
		}
	}
	ok()
}
'''))

bug('c06-index-pool','C06',[('parser/init.go','''	b, err := buffer.NewFastLongBuffer([]buffer.FastLongBufferOption{
		buffer.WithFastLongBufferPageSize(vtdSize),
	}...)
	if err != nil {
		return err
	}
	p.vtdBuffer = b

	b, err = buffer.NewFastLongBuffer([]buffer.FastLongBufferOption{
		buffer.WithFastLongBufferPageSize(l1size),
	}...)
	if err != nil {
		return err
	}
	p.l1Buffer = b

	b, err = buffer.NewFastLongBuffer([]buffer.FastLongBufferOption{
		buffer.WithFastLongBufferPageSize(l2size),
	}...)
	if err != nil {
		return err
	}
	p.l2Buffer = b

	b, err = buffer.NewFastLongBuffer([]buffer.FastLongBufferOption{
		buffer.WithFastLongBufferPageSize(l3size),
	}...)
	if err != nil {
		return err
	}
	p.l3Buffer = b

	return nil
}

func (p *VtdParser) initWithoutShallowDepth''','''	b, err := newIndexBuffer(vtdSize)
	if err != nil {
		return err
	}
	p.vtdBuffer = b

	b, err = buffer.NewFastLongBuffer([]buffer.FastLongBufferOption{
		buffer.WithFastLongBufferPageSize(l1size),
	}...)
	if err != nil {
		return err
	}
	p.l1Buffer = b

	b, err = buffer.NewFastLongBuffer([]buffer.FastLongBufferOption{
		buffer.WithFastLongBufferPageSize(l2size),
	}...)
	if err != nil {
		return err
	}
	p.l2Buffer = b

	b, err = buffer.NewFastLongBuffer([]buffer.FastLongBufferOption{
		buffer.WithFastLongBufferPageSize(l3size),
	}...)
	if err != nil {
		return err
	}
	p.l3Buffer = b

	return nil
}

// indexBuffers keeps the index buffers of failed parses, by page size
var indexBuffers [16]sync.Pool

func newIndexBuffer(size int) (*buffer.FastLongBuffer, error) {
	if b, ok := indexBuffers[size].Get().(*buffer.FastLongBuffer); ok {
		b.Clear()
		return b, nil
	}
	return buffer.NewFastLongBuffer(buffer.WithFastLongBufferPageSize(size))
}

// recycle gives the index of a parse that failed to later parses
func (p *VtdParser) recycle() {
	size := 15
	for _, c := range []struct{ length, size int }{{1024, 6}, {4096, 7}, {1 << 14, 8}, {1 << 16, 11}, {1 << 18, 12}} {
		if p.docLength <= c.length {
			size = c.size
			break
		}
	}
	if b, ok := p.vtdBuffer.(*buffer.FastLongBuffer); ok && p.shallowDepth {
		indexBuffers[size].Put(b)
	}
}

func (p *VtdParser) initWithoutShallowDepth'''),
 ('parser/init.go','import (\n','import (\n	"sync"\n\n'),
 ('parser/parse.go','func (p *VtdParser) Parse() error {\n','''func (p *VtdParser) Parse() (err error) {
	defer func() {
		if err != nil {
			p.recycle()
		}
	}()
'''),
 ('parser/parse.go','	var ps State\n	var err error\n','	var ps State\n')],
 'Parse called a second time on a finished parser, then another document of about the same size is parsed',
 'the index of the finished parser is overwritten by the other parse',
 M([],'''func main() {
	p, err := parse("<a><b>text</b></a>")
	if err != nil {
		bad("%v", err)
	}
	n := nav(p)
	want := toks(n)
	for i := 0; i < 50; i++ {
		if p.Parse() == nil {
			bad("parsed again")
		}
		q, err := parse("<x y='1'><z/></x>")
		if err != nil {
			bad("%v", err)
		}
		nav(q)
		got := toks(n)
		if len(got) != len(want) {
			bad("%d tokens, %d before", len(got), len(want))
		}
		for i := range got {
			if got[i] != want[i] {
				bad("token %d changed from %v to %v", i, want[i], got[i])
			}
		}
	}
	ok()
}
'''))
