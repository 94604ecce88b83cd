G='''package main

'''
def M(imports, body): 
    imp=''.join('\t"%s"\n'%i for i in imports)
    return G+('import (\n'+imp+')\n\n' if imports else '')+body
R='github.com/alexZaicev/go-vtd-xml/vtdxml/reader'
P='github.com/alexZaicev/go-vtd-xml/vtdxml/parser'
B='github.com/alexZaicev/go-vtd-xml/vtdxml/buffer'
N='github.com/alexZaicev/go-vtd-xml/vtdxml/navigation'
E='github.com/alexZaicev/go-vtd-xml/vtdxml/erroring'

C='github.com/alexZaicev/go-vtd-xml/vtdxml/common'

bug('c03-many-attributes','C03',[('parser/process_attr_name.go','	p.attrCount++\n','	if p.attrCount++; p.attrCount > 1024 {\n		return erroring.NewParseError("too many attributes", p.fmtLine(), nil)\n	}\n')],
 'a tag with more than 1024 attributes',
 'a document within the limits is refused',
 M(['fmt','strings'],'''func main() {
	for _, n := range []int{1, 300, 1024, 1025, 2000} {
		var b strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, " a%d=''", i)
		}
		if _, err := parse("<a" + b.String() + "/>"); err != nil {
			bad("%d: %v", n, err)
		}
	}
	ok()
}
'''))

bug('c09-prefix-byte','C09',[('parser/process_attr_val.go','''		preLen := int(int32((p.prefixedAttrNameSlice[j] & 0xFFFF0000) >> 16))
		preOs''','''		preLen := int(uint8(p.prefixedAttrNameSlice[j] >> 16))
		preOs''')],
 'an attribute whose prefix has 256 bytes or more',
 'its declaration is not found or another one is taken for it',
 M(['strings',P],'''func main() {
	for _, n := range []int{1, 100, 255, 256, 300, 511} {
		x := strings.Repeat("p", n)
		if _, err := parse("<a xmlns:"+x+"='u' "+x+":b=''/>", parser.WithNameSpaceAware(true)); err != nil {
			bad("%d: %v", n, err)
		}
	}
	ok()
}
'''))

bug('c10-row-from-last','C10',[('navigation/to_element.go','			n.l3lower, n.l3upper = first, last\n			n.l3index = int(index)\n			n.context[0] = 3\n			n.context[3] = upper\n			return true, nil\n','			n.l3lower, n.l3index, n.l3upper = index, int(index), last\n			n.context[0], n.context[3] = 3, upper\n			return true, nil\n')],
 'going to the last child at depth three and back to an elder sibling',
 'the elder siblings of a last child are not found',
 M([N],'''func main() {
	p, err := parse("<a><b><c><d/><e/><f/></c></b></a>")
	if err != nil {
		bad("%v", err)
	}
	n := nav(p)
	for i, d := range []navigation.Direction{navigation.Root, navigation.FirstChild, navigation.FirstChild, navigation.LastChild, navigation.PrevSibling, navigation.PrevSibling} {
		if r, err := n.ToElement(d); err != nil || !r {
			bad("move %d: %v %v", i, r, err)
		}
	}
	ok()
}
'''))

bug('c10-last-leaf','C10',[('navigation/to_element.go','''func (n *VtdNav) toFirstChild() (bool, error) {
	index := int(n.context[n.context[0]] + 1)
''','''func (n *VtdNav) toFirstChild() (bool, error) {
	index := int(n.context[n.context[0]] + 1)
	n.context[0]++
'''),('navigation/to_element.go','''			if depth <= n.context[0] {
				return false, nil
			} else if depth == (n.context[0] + 1) {
				n.context[0] += 1
				n.context[n.context[0]] = int32(index)
				return true, nil
			}
''','''			if depth < n.context[0] {
				n.context[0]--
				return false, nil
			} else if depth == n.context[0] {
				n.context[n.context[0]] = int32(index)
				return true, nil
			}
''')],
 'asking the last element of a document, three or more levels deep, for its first child',
 'the failed move moves the cursor',
 M([N],'''func main() {
	p, err := parse("<a><b><c><d><e/></d></c></b></a>")
	if err != nil {
		bad("%v", err)
	}
	n := nav(p)
	for i, d := range []navigation.Direction{navigation.Root, navigation.FirstChild, navigation.FirstChild, navigation.FirstChild, navigation.FirstChild} {
		if r, err := n.ToElement(d); err != nil || !r {
			bad("move %d: %v %v", i, r, err)
		}
	}
	c, _ := n.GetCurrentIndex()
	if r, err := n.ToElement(navigation.FirstChild); err != nil || r {
		bad("%v %v", r, err)
	}
	if d, _ := n.GetCurrentIndex(); d != c {
		bad("moved from %d to %d", c, d)
	}
	if r, err := n.ToElement(navigation.Parent); err != nil || !r {
		bad("%v %v", r, err)
	}
	if d, _ := n.GetCurrentIndex(); d != c-1 {
		bad("at %d", d)
	}
	ok()
}
'''))

bug('c10-half-move','C10',[('navigation/to_element.go','''			upper, err := n.l3Buffer.Upper32At(int(index))
			if err != nil {
				return false, err
			}
			n.l3lower, n.l3upper = first, last
			n.l3index = int(index)
			n.context[0] = 3
			n.context[3] = upper
			return true, nil
''','''			n.l3lower, n.l3upper = first, last
			n.l3index = int(index)
			n.context[0] = 3
			n.context[3], err = n.l3Buffer.Upper32At(n.l3index)
			return err == nil, err
''')],
 'the third level of the location cache fails when a child is looked up',
 'the move reports an error and leaves the cursor one level down',
 M(['errors','reflect','unsafe',B,N],'''type failing struct {
	buffer.LongBuffer
	on bool
}

func (f *failing) Upper32At(i int) (int32, error) {
	if f.on {
		return 0, errors.New("read error")
	}
	return f.LongBuffer.Upper32At(i)
}

func main() {
	p, err := parse("<a><b><c><d/></c></b></a>")
	if err != nil {
		bad("%v", err)
	}
	n := nav(p)
	var all []*failing
	v := reflect.ValueOf(n).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == reflect.TypeOf((*buffer.LongBuffer)(nil)).Elem() && !v.Field(i).IsNil() {
			f := (*buffer.LongBuffer)(unsafe.Pointer(v.Field(i).UnsafeAddr()))
			w := &failing{*f, false}
			*f = w
			all = append(all, w)
		}
	}
	for i, d := range []navigation.Direction{navigation.Root, navigation.FirstChild, navigation.FirstChild} {
		if r, err := n.ToElement(d); err != nil || !r {
			bad("move %d: %v %v", i, r, err)
		}
	}
	c, _ := n.GetCurrentIndex()
	for _, w := range all {
		w.on = true
	}
	if _, err := n.ToElement(navigation.FirstChild); err == nil {
		bad("no error")
	}
	for _, w := range all {
		w.on = false
	}
	if d, _ := n.GetCurrentIndex(); d != c {
		bad("moved from %d to %d", c, d)
	}
	ok()
}
'''))

bug('c10-depth-unread','C10',[('navigation/to_element.go','''		depth, err := n.GetTokenDepth(index)
		if err != nil {
			return false, err
		}
		if common.Token(tokenType) == common.TokenStartingTag {
			if depth == n.context[0] {
''','''		depth, err := n.GetTokenDepth(index)
		if err != nil {
			index--
			continue
		}
		if common.Token(tokenType) == common.TokenStartingTag {
			if depth == n.context[0] {
''')],
 'the index fails once while the previous sibling is looked up four levels down',
 'the move passes over the unreadable entry: it goes to another sibling or reports that there is none',
 M(['errors','reflect','unsafe',B,N],'''type failing struct {
	buffer.LongBuffer
	at int
}

func (f *failing) LongAt(i int) (int64, error) {
	if f.at--; f.at == 0 {
		return 0, errors.New("read error")
	}
	return f.LongBuffer.LongAt(i)
}

func main() {
	for at := 1; at < 6; at++ {
		p, err := parse("<a><b><c><d><e/><f/><g/></d></c></b></a>")
		if err != nil {
			bad("%v", err)
		}
		n := nav(p)
		w := &failing{}
		v := reflect.ValueOf(n).Elem()
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).Name == "vtdBuffer" {
				f := (*buffer.LongBuffer)(unsafe.Pointer(v.Field(i).UnsafeAddr()))
				w.LongBuffer = *f
				*f = w
			}
		}
		for i, d := range []navigation.Direction{navigation.Root, navigation.FirstChild, navigation.FirstChild, navigation.FirstChild, navigation.LastChild} {
			if r, err := n.ToElement(d); err != nil || !r {
				bad("move %d: %v %v", i, r, err)
			}
		}
		c, _ := n.GetCurrentIndex()
		w.at = at
		r, err := n.ToElement(navigation.PrevSibling)
		hit := w.at <= 0
		w.at = 0
		d, _ := n.GetCurrentIndex()
		if hit && (err == nil || d != c) || !hit && (err != nil || !r || d != c-1) {
			bad("failure at %d: %v %v, from %d to %d", at, r, err, c, d)
		}
	}
	ok()
}
'''))

bug('c12-page-edge','C12',[('buffer/int_buffer.go','''		bufferSlice, err := b.get(pageNum)
		if err != nil {
			return err
		}
		bufferSlice = append(bufferSlice[:b.size&b.r], value)
		b.size++
		return b.set(pageNum, bufferSlice)
''','''		page, err := b.get(pageNum)
		if err != nil {
			return err
		}
		// drop what a rollback has left in the page
		if used := b.size & b.r; used > 0 && used < len(page) {
			page = page[:used]
		}
		page = append(page, value)
		b.size++
		return b.set(pageNum, page)
''')],
 'rolling back to the exact beginning of a page and appending again',
 'the new entry is stored behind the discarded ones and the discarded one reads back',
 M([B],'''func main() {
	for to := 0; to <= 12; to++ {
		b, err := buffer.NewFastIntBuffer(buffer.WithFastIntBufferPageSize(2))
		if err != nil {
			bad("%v", err)
		}
		for i := 0; i < 12; i++ {
			if err := b.Append(int32(i)); err != nil {
				bad("%v", err)
			}
		}
		b.SetSize(to)
		for i := 0; i < 3; i++ {
			if err := b.Append(int32(100 + i)); err != nil {
				bad("%v", err)
			}
		}
		for i := 0; i < to+3; i++ {
			want := int32(i)
			if i >= to {
				want = int32(100 + i - to)
			}
			if v, err := b.IntAt(i); err != nil || v != want {
				bad("rolled back to %d: entry %d is %d (%v)", to, i, v, err)
			}
		}
	}
	ok()
}
'''))

bug('c13-line-end-at-cut','C13',[('reader/utf8_reader.go',"	ch := r.xmlDoc[offset]\n	if ch == byte('\\r') && int(offset)+1 < r.endOffset && r.xmlDoc[offset+1] == byte('\\n') {","	if d := r.xmlDoc[offset:]; len(d) > 1 && d[0] == '\\r' && d[1] == '\\n' {")],
 'a window cut between a carriage return and a line feed',
 'the line feed behind the window is delivered as part of it',
 M([R],'''func main() {
	d := []byte("ab\\r\\ncd")
	for end := 1; end <= len(d); end++ {
		r, err := reader.NewUtf8Reader(d, 0, end)
		if err != nil {
			bad("%v", err)
		}
		for o := 0; o < end; o++ {
			v, err := r.GetLongCharAt(int32(o))
			if err != nil || o+int(v>>32) > end {
				bad("window of %d: at %d: %d bytes, %v", end, o, v>>32, err)
			}
		}
	}
	ok()
}
'''))

bug('c13-replacement','C13',[('reader/utf8_reader.go','	return ch != utf8.RuneError || size > 1','	return ch != utf8.RuneError || size > 1 && r.offset < r.endOffset'),('reader/utf8_reader.go','func (r *Utf8Reader) SetOffset(offset int) {\n	r.offset = offset','func (r *Utf8Reader) SetOffset(to int) {\n	r.offset = to')],
 'the replacement character U+FFFD as the last character of the window',
 'a well-formed character is reported as malformed',
 M([R],'''func main() {
	for _, s := range []string{"a", "\\ufffd", "a\\ufffd", "\\ufffda", "\\ufffd\\ufffd"} {
		r, err := reader.NewUtf8Reader([]byte(s), 0, len(s))
		if err != nil {
			bad("%v", err)
		}
		for _, c := range s {
			if g, err := r.GetChar(); err != nil || g != uint32(c) {
				bad("%q: %x %v", s, g, err)
			}
		}
		if _, err := r.GetChar(); err == nil {
			bad("%q: more characters", s)
		}
	}
	ok()
}
'''))

bug('c02-epilog-pi-char','C02',[('parser/process_pi_end.go','''		for {
			if !p.xmlChar.IsValidChar(p.currentChar) {
				return StateInvalid, erroring.NewParseError("invalid char in PI value", p.fmtLine(), nil)
			}
			if p.currentChar == '?' && p.skipChar('>') {
				break
			}
			if err := p.nextChar(); err != nil {
				return StateInvalid, err
			}
		}
''','''		for p.currentChar != '?' || !p.skipChar('>') {
			if err := p.nextChar(); err != nil {
				return StateInvalid, err
			}
			if !p.xmlChar.IsValidChar(p.currentChar) {
				return StateInvalid, erroring.NewParseError("invalid char in PI value", p.fmtLine(), nil)
			}
		}
''')],
 'an illegal character at the very beginning of a processing instruction behind the root element',
 'the illegal character is accepted',
 M([],'''func main() {
	for _, d := range []string{"<a/><?p \\x01?>", "<a/><?p b\\x01?>", "<a/><?p \\x01b?>", "<a/><?p  \\ufffe c?>"} {
		if _, err := parse(d); err == nil {
			bad("%q accepted", d)
		}
	}
	for _, d := range []string{"<a/><?p ?>", "<a/><?p b?>", "<a/><?p ??>", "<a/><?p ?b?>"} {
		if _, err := parse(d); err != nil {
			bad("%q: %v", d, err)
		}
	}
	ok()
}
'''))

bug('c02-epilog-comment','C02',[('parser/process_end_comment.go','''		if p.currentChar == '-' && p.skipChar('-') {
			p.length1 = p.offset - p.lastOffset - (p.increment << 1)
			break
		}
	}
	if err := p.nextChar(); err != nil {
		return StateInvalid, err
	}
	if p.currentChar != '>' {
		return StateInvalid, erroring.NewParseError("invalid terminating sequence, --> expected", p.fmtLine(), nil)
	}
''','''		if p.currentChar == '-' && p.skipCharSeq("->") {
			p.length1 = p.offset - p.lastOffset - 3*p.increment
			break
		}
	}
''')],
 'a double hyphen within a comment behind the root element',
 'the ill-formed comment is accepted',
 M([],'''func main() {
	for _, d := range []string{"<a/><!-- -- -->", "<a/><!----->", "<a/><!--a--b-->", "<a/><!---->-->"} {
		if _, err := parse(d); err == nil {
			bad("%q accepted", d)
		}
	}
	for _, d := range []string{"<a/><!-- - -->", "<a/><!---->", "<a/><!--a-b-->"} {
		if _, err := parse(d); err != nil {
			bad("%q: %v", d, err)
		}
	}
	ok()
}
'''))

bug('c11-wide-reference','C11',[('navigation/to_string.go','func (n *VtdNav) ToStringAtRange(offset, length int32) (string, error) {\n	var buffer bytes.Buffer\n','func (n *VtdNav) ToStringAtRange(offset, length int32) (string, error) {\n	var buffer strings.Builder\n'),
 ('navigation/to_string.go','		buffer.WriteRune(rune(ch))\n','		buffer.WriteRune(rune(uint16(ch)))\n'),('navigation/to_string.go','	"bytes"\n','	"bytes"\n	"strings"\n')],
 'a reference to a character beyond the basic plane',
 'another character is extracted',
 M([],'''func main() {
	for _, c := range []rune{'a', 0xe9, 0x65e5, 0xfffd, 0x10000, 0x1f600, 0x10fffd} {
		for _, f := range []string{"&#%d;", "&#x%x;"} {
			p, err := parse("<a>" + sprintf(f, c) + "</a>")
			if err != nil {
				bad("%v", err)
			}
			if s, err := nav(p).ToStringAtIndex(2); err != nil || s != string(c) {
				bad("%x: %q %v", c, s, err)
			}
		}
	}
	ok()
}
''').replace('func main','func sprintf(f string, c rune) string { return fmt.Sprintf(f, c) }\n\nfunc main').replace('package main\n\n','package main\n\nimport "fmt"\n\n'))

bug('c11-alias','C11',[('navigation/to_string.go','''	var buffer bytes.Buffer

	endOffset := int(offset) + int(length)
	for i := int(offset); i < endOffset; i++ {
		ch, err := n.getChar(i)
''','''	var buffer strings.Builder

	// longer tokens are handed out without a copy
	if b := n.xmlBuffer.GetBytes(); length > 32 && offset >= 0 && int(offset)+int(length) <= len(b) &&
		bytes.IndexByte(b[offset:offset+length], '\\r') < 0 {
		text := b[offset : offset+length]
		return *(*string)(unsafe.Pointer(&text)), nil
	}
	endOffset := int(offset) + int(length)
	for i := int(offset); i < endOffset; i++ {
		ch, err := n.getChar(i)
'''),('navigation/to_string.go','	"bytes"\n','	"bytes"\n	"strings"\n	"unsafe"\n')],
 'a raw extraction of more than 32 bytes, followed by a change of the document bytes',
 'text that has been extracted changes afterwards',
 M([P],'''func main() {
	for _, s := range []string{"short", "a text of more than thirty-two bytes, as texts are"} {
		d := []byte("<a>" + s + "</a>")
		p, err := parser.NewVtdParser(parser.WithXmlDoc(d))
		if err != nil {
			bad("%v", err)
		}
		if err := p.Parse(); err != nil {
			bad("%v", err)
		}
		got, err := nav(p).ToRawStringAtIndex(2)
		if err != nil {
			bad("%v", err)
		}
		for i := range d {
			d[i] = 'x'
		}
		if got != s {
			bad("%q is now %q", s, got)
		}
	}
	ok()
}
'''))

bug('c06-line-memo','C06',[('parser/common.go','''	so := p.docOffset
	lineNumber, lineOffset := 0, 0

	if p.encoding < common.FormatUtf16BE {
''','''	so := p.docOffset
	lineNumber, lineOffset := 0, 0

	var from int
	lastLine.Lock()
	defer lastLine.Unlock()
	if len(lastLine.doc) == len(p.xmlDoc) && &lastLine.doc[0] == &p.xmlDoc[0] && lastLine.start == so && offset >= lastLine.offset {
		// continue where the last message was made
		so, lineNumber, lineOffset = lastLine.offset, lastLine.lines, lastLine.at
	}
	defer func() {
		lastLine.doc, lastLine.start, lastLine.offset, lastLine.lines, lastLine.at = p.xmlDoc, p.docOffset, so, lineNumber, from
	}()
	if p.encoding < common.FormatUtf16BE {
'''),('parser/common.go','''			so++
		}
		lineOffset = offset - lineOffset
''','''			so++
		}
		from, lineOffset = lineOffset, offset-lineOffset
'''),('parser/common.go','''// fmtLine function format error message with custom line number and
''','''// lastLine keeps the position of the last message
var lastLine struct {
	sync.Mutex
	doc               []byte
	start             int
	offset, lines, at int
}

// fmtLine function format error message with custom line number and
'''),('parser/common.go','	"strings"\n','	"strings"\n	"sync"\n')],
 'the same byte slice parsed again with other contents, both times with an error',
 'the second error reports the line of the first document',
 M(['errors',P,E],'''func line(b []byte) string {
	p, err := parser.NewVtdParser(parser.WithXmlDoc(b))
	if err != nil {
		bad("%v", err)
	}
	if err = p.Parse(); err == nil {
		bad("%q accepted", b)
	}
	var pe *erroring.ParseError
	if !errors.As(err, &pe) {
		bad("%v", err)
	}
	return pe.LineNumber
}

func main() {
	a, b := "<a>\\n\\n<\\n></a>    ", "<a>      <<></a>"
	want := line([]byte(b))
	buf := []byte(a)
	line(buf)
	copy(buf, b)
	if got := line(buf[:len(b)]); got != want {
		bad("%q instead of %q", got, want)
	}
	ok()
}
'''))
