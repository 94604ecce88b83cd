exec(open('/verif/tools/plantkit/bugs4.py').read().split("bug('c03-many-attributes'")[0])

bug('c04-far-window','C04',[('parser/common.go','''	return p.vtdBuffer.Append(b | offset64)
''','''	return p.vtdBuffer.Append(b | offset64&(1<<24-1))
''')],
 'a window that reaches beyond the first 16 MiB of its byte array',
 'token offsets lose their upper bits',
 M([P],'''func main() {
	d := "<a b='c'>text</a>"
	for _, off := range []int{0, 1 << 16, 1<<24 - 8, 1 << 25} {
		buf := make([]byte, off+len(d))
		copy(buf[off:], d)
		p, err := parser.NewVtdParser(parser.WithXmlDocCustomOffset(buf, off, len(d)))
		if err != nil {
			bad("%v", err)
		}
		if err := p.Parse(); err != nil {
			bad("%v", err)
		}
		for _, t := range toks(nav(p)) {
			if t[0] == 0 && int(t[1]) != off+1 {
				bad("window at %d: root name at %d", off, t[1])
			}
		}
	}
	ok()
}
'''))

bug('c14-line-16','C14',[('parser/common.go','''	lineNumber, lineOffset := 0, 0
''','''	lineNumber, lineOffset := uint16(0), 0
'''),('parser/common.go','''	return fmt.Sprintf("\\nLine number: %d Offset: %d", lineNumber+1, lineOffset+1)''','''	return fmt.Sprintf("\\nLine number: %d Offset: %d", int(lineNumber)+1, lineOffset+1)''')],
 'a rejection behind more than 65535 line ends',
 'the line number has lost its upper bits',
 M(['errors','fmt','strings',E],'''func main() {
	for _, n := range []int{0, 10, 1000, 65534, 65535, 65536, 70000} {
		_, err := parse("<a>" + strings.Repeat("\\n", n) + "<b c></b></a>")
		var pe *erroring.ParseError
		if !errors.As(err, &pe) {
			bad("accepted, or no line: %v", err)
		}
		var line int
		fmt.Sscanf(strings.TrimSpace(pe.LineNumber), "Line number: %d", &line)
		if line != n+1 {
			bad("%d line ends: %q", n, pe.LineNumber)
		}
	}
	ok()
}
'''))

bug('c10-long-childless','C10',[('navigation/to_element.go','''			for i := n.l1index + 1; i < n.l1Buffer.GetSize(); i++ {
''','''			for i := n.l1index + 1; i < n.l1Buffer.GetSize() && i < n.l1index+32; i++ {
''')],
 'an element of depth 1 with children, behind which 31 or more childless siblings and then one with children follow',
 'the last child of the element is the last element of depth 2 of the document',
 M(['strings',N],'''func main() {
	for _, k := range []int{0, 1, 5, 29, 30, 31, 32, 40, 100} {
		p, err := parse("<r><a><x/><y/></a>" + strings.Repeat("<e/>", k) + "<b><z/></b></r>")
		if err != nil {
			bad("%v", err)
		}
		n := nav(p)
		for _, d := range []navigation.Direction{navigation.Root, navigation.FirstChild, navigation.LastChild} {
			if g, err := n.ToElement(d); !g || err != nil {
				bad("%d: %v %v", k, g, err)
			}
		}
		i, _ := n.GetCurrentIndex()
		if s, _ := n.ToStringAtIndex(int(i)); s != "y" {
			bad("%d: last child of a is %s", k, s)
		}
	}
	ok()
}
'''))

bug('c07-scope-store','C07',[('parser/process_start_tag.go','''			if err := p.nsBuffer1.Append(int32(p.nsBuffer3.GetSize() - 1)); err != nil {
				return StateInvalid, err
			}
			if p.current''','''			if err := p.nsBuffer1.Append(int32(p.nsBuffer3.GetSize() - 1)); err != nil && p.currentElementRecord != 0 {
				return StateInvalid, err
			}
			if p.current''')],
 'a refusal of the scope store at an element without attributes and prefix, with name spaces on',
 'the parse goes on with a scope missing and accepts a prefix behind its scope',
 M(['errors',P,'reflect','unsafe',B],'''type failing struct {
	buffer.IntBuffer
	n int
}

func (f *failing) Append(v int32) error {
	if f.n--; f.n == 0 {
		return errors.New("refused")
	}
	return f.IntBuffer.Append(v)
}

func main() {
	doc := "<r xmlns:z='u'><b><c xmlns:q='v'/><q:d/></b></r>"
	for k := 1; k <= 4; k++ {
		p, err := parser.NewVtdParser(parser.WithXmlDoc([]byte(doc)), parser.WithNameSpaceAware(true))
		if err != nil {
			bad("%v", err)
		}
		v := reflect.ValueOf(p).Elem()
		t := reflect.TypeOf((*buffer.IntBuffer)(nil)).Elem()
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).Type() == t {
				f := (*buffer.IntBuffer)(unsafe.Pointer(v.Field(i).UnsafeAddr()))
				*f = &failing{*f, k}
			}
		}
		if err := p.Parse(); err == nil {
			bad("entry %d refused and the document accepted", k)
		}
	}
	ok()
}
'''))

bug('c02-deep-mismatch','C02',[('parser/process_end_tag.go','''	for i := 0; i < sLength; i++ {
		if p.xmlDoc''','''	for i := 0; i < sLength; i++ {
		if p.depth < 64 && p.xmlDoc''')],
 'a mismatched end tag of the same length more than 64 levels deep',
 'the document is accepted',
 M(['strings'],'''func main() {
	for _, n := range []int{1, 10, 63, 64, 65, 66, 100, 250} {
		if _, err := parse(strings.Repeat("<a>", n) + "<b></c>" + strings.Repeat("</a>", n)); err == nil {
			bad("accepted at depth %d", n)
		}
	}
	ok()
}
'''))

bug('c09-deep-scope','C09',[('parser/process_start_tag.go','''		if p.depth <= p.nsBuffer1.GetSize()-1 {
''','''		if p.depth <= p.nsBuffer1.GetSize()-1 && p.depth < 24 {
''')],
 'siblings more than 24 levels deep of which the first declares a prefix and the second uses it',
 'the prefix stays in scope',
 M(['strings',P],'''func main() {
	for _, n := range []int{1, 10, 23, 24, 25, 60, 250} {
		_, err := parse(strings.Repeat("<a>", n) + "<b xmlns:p='u'/><p:c/>" + strings.Repeat("</a>", n), parser.WithNameSpaceAware(true))
		if err == nil {
			bad("accepted at depth %d", n)
		}
	}
	ok()
}
'''))

bug('c11-prefix-index','C11',[('navigation/to_string.go','''	if common.Token(tokenType) != common.TokenCharacterData &&
		common.Token(tokenType) != common.TokenAttrVal {
''','''	if common.Token(tokenType) != common.TokenCharacterData &&
		(common.Token(tokenType) != common.TokenAttrVal || index&7 == 7 && index > 127) {
''')],
 'the value of an attribute with a reference whose token number is above 127 and one less than a multiple of 8',
 'the reference is not resolved',
 M(['strings'],'''func main() {
	for k := 0; k < 300; k++ {
		p, err := parse("<r>" + strings.Repeat("<e/>", k) + "<v a='&lt;'/></r>")
		if err != nil {
			bad("%v", err)
		}
		n := nav(p)
		if s, err := n.ToStringAtIndex(n.GetVtdBufferSize() - 1); err != nil || s != "<" {
			bad("%d: %q %v", k, s, err)
		}
	}
	ok()
}
'''))

bug('c12-half-of-negative','C12',[('buffer/long_buffer.go','''	valueLong = valueLong >> 32
	valueInt := int32(valueLong)
''','''	valueInt := int32(valueLong / (1 << 32))
''')],
 'the upper half of a negative entry whose lower half is not zero',
 'the half reads one too high',
 M([B],'''func main() {
	b, err := buffer.NewFastLongBuffer()
	if err != nil {
		bad("%v", err)
	}
	for i, v := range []int64{5, -1, -1 << 32, -5<<32 | 7, 9<<32 | 3} {
		if err := b.Append(v); err != nil {
			bad("%v", err)
		}
		if u, err := b.Upper32At(i); err != nil || u != int32(v>>32) {
			bad("%x: %x %v", v, u, err)
		}
	}
	ok()
}
'''))

