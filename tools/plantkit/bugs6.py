exec(open('/verif/tools/plantkit/bugs4.py').read().split("bug('c03-many-attributes'")[0])

bug('c02-end-tag-words','C02',[('parser/process_end_tag.go','''	for i := 0; i < sLength; i++ {
		if p.xmlDoc[sOffset+i] != p.xmlDoc[p.lastOffset+i] {
			return''','''	// names of some length are compared by their first and last characters
	for i := 0; i < sLength; i++ {
		if (i < 48 || i >= sLength-48) && p.xmlDoc[sOffset+i] != p.xmlDoc[p.lastOffset+i] {
			return''')],
 'an end tag that differs from its start tag in the middle of a name of more than 96 bytes',
 'the document is accepted',
 M(['strings'],'''func main() {
	for _, n := range []int{10, 90, 100, 300, 2000} {
		a := strings.Repeat("n", n)
		for i := 0; i < n; i++ {
			if _, err := parse("<" + a + "></" + a[:i] + "m" + a[i+1:] + ">"); err == nil {
				bad("%d: wrong byte %d accepted", n, i)
			}
		}
		if _, err := parse("<" + a + "></" + a + ">"); err != nil {
			bad("%d: %v", n, err)
		}
	}
	ok()
}
'''))

bug('c03-attr-tail','C03',[('parser/process_attr_name.go','''			for j := 0; j < prevLen; j++ {
				if''','''			j := 0
			if prevLen > 64 {
				// long names differ at the end
				j = prevLen - 64
			}
			for ; j < prevLen; j++ {
				if''')],
 'two attributes of one tag whose names have the same length above 64 and the same last 64 bytes',
 'the document is refused',
 M(['strings'],'''func main() {
	for _, n := range []int{1, 60, 63, 64, 100, 2000} {
		a := strings.Repeat("n", n)
		if _, err := parse("<r x" + a + "='' y" + a + "=''/>"); err != nil {
			bad("%d: %v", n, err)
		}
	}
	ok()
}
'''))

bug('c06-shared-eof','C06',[('parser/process_end_tag.go','''		return StateInvalid, erroring.NewEOFError(erroring.XmlIncomplete)
''','''		return StateInvalid, incomplete(p.fmtLine())
'''),('parser/process_end_tag.go','''func (p *VtdParser) processEndTag''','''// endsEarly is returned for every document that ends inside an end tag
var endsEarly = erroring.NewParseError(erroring.XmlIncomplete, "", nil)

func incomplete(line string) error {
	endsEarly.LineNumber = line
	return endsEarly
}

func (p *VtdParser) processEndTag''')],
 'two parses of documents that end inside an end tag, on different lines',
 'the error of the first one names the line of the second one',
 M(['fmt'],'''func main() {
	_, e1 := parse("<abc></")
	s := fmt.Sprintf("%+v", e1)
	_, e2 := parse("<abc>\\n\\n\\n</")
	if e2 == nil || fmt.Sprintf("%+v", e1) != s {
		bad("%q became %+v", s, e1)
	}
	ok()
}
'''))

bug('c07-space-chain','C07',[('parser/common.go','''func (p *VtdParser) nextCharAfterWs() error {
	for {
		if err := p.nextChar(); err != nil {
			return err
		}
''','''func (p *VtdParser) nextCharAfterWs() error {
	for first := true; ; first = false {
		if err := p.nextChar(); err != nil {
			if _, ok := err.(*erroring.EOFError); !first && !ok {
				return erroring.NewParseError(err.Error(), p.fmtLine(), nil)
			}
			return err
		}
''')],
 'a character source that fails inside white space',
 'the reported error does not carry the failure',
 M(['errors','reflect','unsafe',P,R],'''var lost = errors.New("source lost")

type failing struct {
	reader.Reader
	at int
}

func (f *failing) GetChar() (uint32, error) {
	f.at--
	if f.at == 0 {
		return 0, lost
	}
	return f.Reader.GetChar()
}

func main() {
	for at := 1; at < 30; at++ {
		p, err := parser.NewVtdParser(parser.WithXmlDoc([]byte("<a>    <b     c='d'   >   </b    >   </a   >   ")))
		if err != nil {
			bad("%v", err)
		}
		v := reflect.ValueOf(p).Elem()
		t := reflect.TypeOf((*reader.Reader)(nil)).Elem()
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).Type() == t {
				f := (*reader.Reader)(unsafe.Pointer(v.Field(i).UnsafeAddr()))
				*f = &failing{*f, at}
			}
		}
		if err := p.Parse(); err != nil && !errors.Is(err, lost) {
			bad("read %d: %v", at, err)
		}
	}
	ok()
}
'''))

bug('c09-url-prefix','C09',[('parser/process_attr_val.go','''	endA, endB := a.offset+a.length, b.offset+b.length
''','''	endA, endB := a.offset+a.length, b.offset+b.length
	if a.length == b.length && a.length > 40 {
		// of long names of one length the end tells
		a.offset, b.offset = endA-32, endB-32
	}
''')],
 'two namespace names of the same length above 40 with the same last 32 bytes',
 'attributes that differ are taken for the same',
 M(['strings',P],'''func main() {
	u := strings.Repeat("u", 60)
	for i := 0; i < 60; i++ {
		v := u[:i] + "v" + u[i+1:]
		if _, err := parse("<a xmlns:p='"+u+"' xmlns:q='"+v+"' p:x='' q:x=''/>", parser.WithNameSpaceAware(true)); err != nil {
			bad("%d: %v", i, err)
		}
	}
	if _, err := parse("<a xmlns:p='"+u+"' xmlns:q='"+u+"' p:x='' q:x=''/>", parser.WithNameSpaceAware(true)); err == nil {
		bad("collision accepted")
	}
	ok()
}
'''))

bug('c09-many-prefixes','C09',[('parser/process_attr_val.go','''		for j := i + 1; j < p.prefixedAttCount; j++ {
''','''		for j := i + 1; j < p.prefixedAttCount && j-i < 16; j++ {
''')],
 'a collision of two prefixed attributes with sixteen or more prefixed attributes from one to the other',
 'the tag is accepted',
 M(['fmt','strings',P],'''func main() {
	for _, n := range []int{0, 1, 10, 14, 15, 16, 40} {
		var b strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, " p:a%d=''", i)
		}
		if _, err := parse("<a xmlns:p='u' xmlns:q='u' p:x=''"+b.String()+" q:x=''/>", parser.WithNameSpaceAware(true)); err == nil {
			bad("%d between: accepted", n)
		}
		if _, err := parse("<a xmlns:p='u' xmlns:q='v' p:x=''"+b.String()+" q:x=''/>", parser.WithNameSpaceAware(true)); err != nil {
			bad("%d between: %v", n, err)
		}
	}
	ok()
}
'''))

bug('c10-far-cousin','C10',[('navigation/to_element.go','''			last := int32(n.l3Buffer.GetSize() - 1)
			for i := n.l2index + 1; i < n.l2Buffer.GetSize(); i++ {''','''			last := int32(n.l3Buffer.GetSize() - 1)
			for i := n.l2index + 1; i < n.l2Buffer.GetSize() && i <= n.l2index+8; i++ {''')],
 'eight or more leaves between an element of the second level and the next one that has children',
 'children of the other one are taken for its own',
 M([N,'strings'],'''func main() {
	for _, n := range []int{0, 1, 7, 8, 20} {
		p, err := parse("<a><b><c><d1/></c>" + strings.Repeat("<l/>", n) + "<e><d2/></e></b></a>")
		if err != nil {
			bad("%v", err)
		}
		v := nav(p)
		for _, d := range []navigation.Direction{navigation.Root, navigation.FirstChild, navigation.FirstChild, navigation.LastChild} {
			if ok, err := v.ToElement(d); !ok || err != nil {
				bad("%d: %v %v", n, ok, err)
			}
		}
		i, _ := v.GetCurrentIndex()
		if s, _ := v.ToRawStringAtIndex(int(i)); s != "d1" {
			bad("%d leaves: %q", n, s)
		}
	}
	ok()
}
'''))

bug('c11-second-half','C11',[('navigation/to_string.go','''		buffer.WriteRune(rune(ch))
''','''		if ch < 0x800 && buffer.Len() > 64 {
			// no need to encode short characters once the buffer has grown
			buffer.WriteByte(byte(ch))
			i += inc - 1
			continue
		}
		buffer.WriteRune(rune(ch))
''')],
 'a reference to a character between U+0080 and U+07FF behind more than 64 bytes of text',
 'the text holds a byte that is not UTF-8',
 M(['strings'],'''func main() {
	for _, n := range []int{0, 1, 63, 64, 65, 300} {
		t := strings.Repeat("t", n)
		p, err := parse("<a>" + t + "&#233;&#65;</a>")
		if err != nil {
			bad("%v", err)
		}
		if s, err := nav(p).ToStringAtIndex(2); err != nil || s != t+"\\u00e9A" {
			bad("%d: %q %v", n, s, err)
		}
	}
	ok()
}
'''))

bug('c12-rollback-trim','C12',[('buffer/int_buffer.go','''	if size < 0 || size > b.size {
		return
	}
	b.size = size
''','''	if size < 0 || size > b.size {
		return
	}
	if size&b.r == 0 && b.size-size > b.pageSize {
		// give pages back
		b.buffer = b.buffer[:size>>b.exp]
	}
	b.size = size
''')],
 'a rollback to a page boundary by more than one page, then new entries',
 'new entries are refused',
 M([B],'''func main() {
	for _, e := range []int{0, 1, 3} {
		b, err := buffer.NewFastIntBuffer(buffer.WithFastIntBufferPageSize(e))
		if err != nil {
			bad("%v", err)
		}
		for i := 0; i < 50; i++ {
			_ = b.Append(int32(i))
		}
		b.SetSize(8)
		for i := 0; i < 60; i++ {
			if err := b.Append(int32(1000 + i)); err != nil {
				bad("exp %d entry %d: %v", e, i, err)
			}
		}
		for i := 0; i < 68; i++ {
			w := int32(i)
			if i >= 8 {
				w = int32(1000 + i - 8)
			}
			if v, err := b.IntAt(i); err != nil || v != w {
				bad("%d: %d %v", i, v, err)
			}
		}
	}
	ok()
}
'''))

bug('c13-seq-at-end','C13',[('reader/utf8_reader.go','''	offset := r.offset
	for _, ch := range seq {
		if !r.SkipChar(uint32(ch)) {
			r.offset = offset
			return false
		}
	}
	return true
''','''	offset := r.offset
	for _, ch := range seq {
		if r.offset == r.endOffset {
			return false
		}
		if !r.SkipChar(uint32(ch)) {
			r.offset = offset
			return false
		}
	}
	return true
''')],
 'a window that ends inside the sequence',
 'the failed skip consumes what is there',
 M([R],'''func main() {
	r, err := reader.NewUtf8Reader([]byte("xab"), 1, 3)
	if err != nil {
		bad("%v", err)
	}
	if r.SkipCharSeq("abc") || r.GetOffset() != 1 {
		bad("at %d", r.GetOffset())
	}
	ok()
}
'''))

bug('c04-quick-text','C04',[('parser/process_text.go','''	p.length1 = p.offset - p.increment - p.lastOffset
''','''	p.length1 = p.offset - p.increment - p.lastOffset
	if p.depth == 0 && p.length1 > 1 && p.xmlDoc[p.lastOffset] == 0xEF && p.xmlDoc[p.lastOffset+1] == 0xBB {
		// no byte order mark inside the root
		p.lastOffset += 3
		p.length1 -= 3
	}
''')],
 'text of the root element that begins with a character of the row U+FEC0 to U+FEFF',
 'the token lacks the first character',
 M([],'''func main() {
	for _, c := range []string{"x", "\\uFEFF", "\\uFEC0", "\\uFF01"} {
		p, err := parse("<a>" + c + "y<b>" + c + "</b></a>")
		if err != nil {
			bad("%v", err)
		}
		if s, err := nav(p).ToRawStringAtIndex(2); err != nil || s != c+"y" {
			bad("%q: %q %v", c, s, err)
		}
	}
	ok()
}
'''))

bug('c14-line-of-quote','C14',[('parser/process_attr_val.go','''		} else {
			return StateInvalid, erroring.NewParseError(erroring.InvalidChar, p.fmtLine(), nil)
		}
	}
	p.length1''','''		} else {
			return StateInvalid, erroring.NewParseError(erroring.InvalidChar, p.fmtCustomLine(p.lastOffset), nil)
		}
	}
	p.length1''')],
 'an attribute value of several lines that is damaged behind its first line',
 'the rejection names the line of the opening quote, in front of the damage',
 M(['errors','strings',E],'''func main() {
	_, err := parse("<a b='\\n\\n\\n<'/>")
	var pe *erroring.ParseError
	if !errors.As(err, &pe) || !strings.Contains(pe.LineNumber, "Line number: 4 ") {
		bad("%v", err)
	}
	ok()
}
'''))

bug('c01-reparse-state','C01',[('parser/parse.go','''	if p.started {
		return erroring''','''	if p.started && p.depth >= 0 {
		// a parse that broke off goes on
		p.lastChar = uint32(p.xmlDoc[p.offset])
	}
	if p.started {
		return erroring''')],
 'a second call after a parse that failed at the very end of the array',
 'it panics',
 M([],'''func main() {
	for _, d := range []string{"<a>", "<a", "<a>x", "<a/>", "<a><b>\\n"} {
		p, err := parse(d)
		if p == nil {
			bad("%v", err)
		}
		if p.Parse() == nil {
			bad("second parse succeeded")
		}
	}
	ok()
}
'''))

bug('c08-restore','C08',[('parser/process_cdata.go','''	p.length1 = p.offset - p.lastOffset - (p.increment << 1) - p.increment
''','''	p.length1 = p.offset - p.lastOffset - (p.increment << 1) - p.increment
	if p.length1 > 4096 {
		// mark the end for readers of long sections
		end := p.xmlDoc[p.offset-3]
		p.xmlDoc[p.offset-3] = 0
		p.xmlDoc[p.offset-3] = end
	}
''')],
 'a CDATA section longer than 4096 bytes in memory that may not be written to',
 'the document is written to while it is parsed',
 M(['strings','syscall',P],'''func main() {
	d := "<a><![CDATA[" + strings.Repeat("x", 5000) + "]]></a>"
	m, err := syscall.Mmap(-1, 0, 8192, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON)
	if err != nil {
		ok()
		return
	}
	copy(m, d)
	if err := syscall.Mprotect(m, syscall.PROT_READ); err != nil {
		ok()
		return
	}
	p, err := parser.NewVtdParser(parser.WithXmlDocCustomOffset(m, 0, len(d)))
	if err != nil {
		bad("%v", err)
	}
	if err := p.Parse(); err != nil {
		bad("%v", err)
	}
	ok()
}
'''))
