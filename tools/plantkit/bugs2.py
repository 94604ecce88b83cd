G='''package main

'''
def M(imports, body): 
    imp=''.join('\t"%s"\n'%i for i in imports)
    return G+('import (\n'+imp+')\n\n' if imports else '')+body
R='github.com/alexZaicev/go-vtd-xml/vtdxml/reader'
P='github.com/alexZaicev/go-vtd-xml/vtdxml/parser'
B='github.com/alexZaicev/go-vtd-xml/vtdxml/buffer'
N='github.com/alexZaicev/go-vtd-xml/vtdxml/navigation'
E='github.com/alexZaicev/go-vtd-xml/vtdxml/erroring'

bug('c13-realign','C13',[('reader/utf8_reader.go','func (r *Utf8Reader) SetOffset(offset int) {\n\tr.offset = offset\n}','''func (r *Utf8Reader) SetOffset(pos int) {
	// a character never starts with a continuation byte
	for pos > 0 && pos < r.endOffset && r.xmlDoc[pos]&0xC0 == 0x80 {
		pos--
	}
	r.offset = pos
}''')],
 'repositioning to a continuation byte',
 'delivery resumes at another offset than the one given',
 M([R],'''func main() {
	for d, at := range map[string]int{"a\\r\\nb": 1, "é<": 1, "日x": 2} {
		r, err := reader.NewUtf8Reader([]byte(d), 0, len(d))
		if err != nil {
			bad("%v", err)
		}
		r.SetOffset(at)
		if r.GetOffset() != at {
			bad("%q repositioned to %d stands at %d", d, at, r.GetOffset())
		}
		if c, err := r.GetChar(); d[at] == '\\r' && (err != nil || c != '\\r') {
			bad("%q at %d delivers %q %v", d, at, c, err)
		}
	}
	ok()
}
'''))

bug('c14-carriage-returns','C14',[('parser/common.go',"			if p.xmlDoc[so] == '\\n' {\n				lineNumber++\n				lineOffset = so\n			}\n			so++","			if c := p.xmlDoc[so]; c == '\\n' || c == '\\r' {\n				lineNumber++\n				lineOffset = so\n			}\n			so++")],
 'a rejected document with CRLF line ends',
 'every CRLF counts as two lines: the reported line lies behind the reading position',
 M(['errors','strings',E],'''func main() {
	for _, nl := range []string{"\\n", "\\r\\n"} {
		d := "<a>" + strings.Repeat(nl, 7) + "<b>&bad;</b></a>"
		_, err := parse(d)
		var pe *erroring.ParseError
		if err == nil {
			bad("accepted")
		}
		d = "<a>" + strings.Repeat(nl, 7) + "<b x=1></b></a>"
		_, err = parse(d)
		if !errors.As(err, &pe) {
			bad("%v is no parse error", err)
		}
		if !strings.Contains(pe.LineNumber, "Line number: 8 ") {
			bad("%q reported at %q", d, pe.LineNumber)
		}
	}
	ok()
}
'''))

bug('c14-from-array-start','C14',[('parser/common.go','	so := p.docOffset\n','	so := 0\n')],
 'a rejected document in a window that is preceded by line feeds',
 'lines are counted from the start of the array instead of the window',
 M(['errors','strings',E,P],'''func main() {
	for _, pre := range []string{"", "x", "\\n\\n\\n", "<old>\\n</old>\\n"} {
		d := "<a>\\n<b x=1/></a>"
		p, err := parser.NewVtdParser(parser.WithXmlDocCustomOffset([]byte(pre+d), len(pre), len(d)))
		if err != nil {
			bad("%v", err)
		}
		var pe *erroring.ParseError
		if err = p.Parse(); !errors.As(err, &pe) {
			bad("%v is no parse error", err)
		}
		if !strings.Contains(pe.LineNumber, "Line number: 2 ") {
			bad("behind %q reported at %q", pre, pe.LineNumber)
		}
	}
	ok()
}
'''))

FAIL='''type failing struct {
	buffer.LongBuffer
	k *int
}

func (f failing) hit() error {
	*f.k--
	if *f.k == 0 {
		return errors.New("unreadable")
	}
	return nil
}

func (f failing) Lower32At(i int) (int32, error) {
	if err := f.hit(); err != nil {
		return 0, err
	}
	return f.LongBuffer.Lower32At(i)
}

func (f failing) Upper32At(i int) (int32, error) {
	if err := f.hit(); err != nil {
		return 0, err
	}
	return f.LongBuffer.Upper32At(i)
}

func (f failing) LongAt(i int) (int64, error) {
	if err := f.hit(); err != nil {
		return 0, err
	}
	return f.LongBuffer.LongAt(i)
}

// wrap lets the k-th read of any index buffer fail
func wrap(x interface{}, k *int) {
	v := reflect.ValueOf(x).Elem()
	lb := reflect.TypeOf((*buffer.LongBuffer)(nil)).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Type() == lb && !f.IsNil() {
			q := (*buffer.LongBuffer)(unsafe.Pointer(f.UnsafeAddr()))
			*q = failing{*q, k}
		}
	}
}

'''
bug('c07-unread-declaration','C07',[('parser/common.go','''			lowVal, err := p.nsBuffer3.Lower32At(i)
			if err != nil {
				return err
			}
''','''			lowVal, err := p.nsBuffer3.Lower32At(i)
			if err != nil {
				// not readable, an outer declaration may match
				continue
			}
''')],
 'reading one namespace declaration fails while another declaration of the same prefix is in scope',
 'the failure is swallowed: Parse succeeds or reports an unrelated namespace error',
 M(['reflect','unsafe','errors',B,P],FAIL+'''func main() {
	d := []byte("<p:a xmlns:p='u'><p:b xmlns:p='v' xmlns:q='w'><q:c/></p:b></p:a>")
	for n := 1; ; n++ {
		k := n
		p, err := parser.NewVtdParser(parser.WithXmlDoc(d), parser.WithNameSpaceAware(true))
		if err != nil {
			bad("%v", err)
		}
		wrap(p, &k)
		err = p.Parse()
		if k > 0 {
			if err != nil {
				bad("%v", err)
			}
			break
		}
		if err == nil {
			bad("read %d failed but Parse succeeded", n)
		}
	}
	ok()
}
'''))

bug('c02-pi-target-case','C02',[('parser/process_pi_end.go',"		(p.skipChar('m') || p.skipChar('M')) &&","		p.skipChar('m') &&")],
 'a processing instruction behind the root element whose target is a capitalised xml',
 'the reserved target is acknowledged there',
 M([],'''func main() {
	for _, t := range []string{"xml", "XML", "xMl", "XmL", "Xml"} {
		for _, d := range []string{"<a/><?" + t + " x?>", "<a/><?" + t + "?>", "<?" + t + "?><a/>", "<a><?" + t + " x?></a>"} {
			if _, err := parse(d); err == nil {
				bad("accepted %q", d)
			}
		}
	}
	ok()
}
'''))

bug('c03-deepest','C03',[('parser/process_start_tag.go','	if p.depth > maxDepth {','	if p.depth >= maxDepth {')],
 'a document as deep as the limit',
 'an element at depth 254 is refused',
 M(['strings'],'''func main() {
	for _, n := range []int{10, 250, 253, 254, 255} {
		d := strings.Repeat("<a>", n) + strings.Repeat("</a>", n)
		if _, err := parse(d); err != nil {
			bad("depth %d refused: %v", n-1, err)
		}
	}
	ok()
}
'''))

bug('c01-tag-stack','C01',[('parser/vtd_parser.go','	DefaultTagArraySize  = 256','	DefaultTagArraySize  = 254')],
 'a document at the depth limit',
 'Parse panics instead of returning a verdict',
 M(['strings'],'''func main() {
	for _, n := range []int{1, 254, 255, 256, 257, 300} {
		parse(strings.Repeat("<a>", n)) // has to return
		parse(strings.Repeat("<a>", n) + strings.Repeat("</a>", n))
	}
	ok()
}
'''))

bug('c04-exact-multiple','C04',[('parser/common.go','''		for j = length; j > maxTokenLength; j -= maxTokenLength {''','''		for j = length; j >= maxTokenLength; j -= maxTokenLength {''')],
 'text of exactly a multiple of the maximum token length',
 'an additional empty token follows the text',
 M(['strings'],'''func main() {
	for _, n := range []int{1, 1<<20 - 1, 1 << 20, 2 * (1<<20 - 1), 2*(1<<20-1) + 1, 3 * (1<<20 - 1)} {
		p, err := parse("<a>" + strings.Repeat("x", n) + "</a>")
		if err != nil {
			bad("%v", err)
		}
		want := 2 + (n+1<<20-2)/(1<<20-1)
		if g := nav(p).GetVtdBufferSize(); g != want {
			bad("%d bytes of text: %d tokens instead of %d", n, g, want)
		}
	}
	ok()
}
'''))

bug('c10-last-of-several','C10',[('navigation/to_element.go','''				lower, err = n.l2Buffer.Lower32At(i)
				if err != nil {
					return false, err
				}
				if uint32(lower) != uint32(0xffffffff) {
					last = lower - 1
					break
				}''','''				lower, err = n.l2Buffer.Lower32At(i)
				if err != nil {
					return false, err
				}
				if uint32(lower) != uint32(0xffffffff) {
					last = lower - 1
				}''')],
 'three elements at depth 2 that have children',
 'the last child of the first one is taken from the second one',
 M([N],'''func main() {
	p, err := parse("<r><x><a><a1/></a><b><b1/></b><c><c1/></c></x></r>")
	if err != nil {
		bad("%v", err)
	}
	n := nav(p)
	name := func() string {
		i, err := n.GetCurrentIndex()
		if err != nil {
			bad("%v", err)
		}
		s, err := n.ToRawStringAtIndex(int(i))
		if err != nil {
			bad("%v", err)
		}
		return s
	}
	for _, d := range []navigation.Direction{navigation.Root, navigation.FirstChild, navigation.FirstChild, navigation.LastChild} {
		if ok, err := n.ToElement(d); !ok || err != nil {
			bad("move %v: %v %v", d, ok, err)
		}
	}
	if name() != "a1" {
		bad("the last child of a is %s", name())
	}
	if ok, err := n.ToElement(navigation.NextSibling); ok || err != nil {
		bad("a1 has a sibling: %v %v", name(), err)
	}
	ok()
}
'''))

bug('c10-cousin','C10',[('navigation/to_element.go','	for index > int(n.context[n.context[0]-1]) {','	for index > int(n.context[n.context[0]-2]) {')],
 'moving to the previous sibling of a first child at depth 4 or more whose parent has an elder sibling with children',
 'the cursor moves to a cousin',
 M([N],'''func main() {
	p, err := parse("<r><a><b><c><d/></c><c><e/></c></b></a></r>")
	if err != nil {
		bad("%v", err)
	}
	n := nav(p)
	for _, d := range []navigation.Direction{navigation.Root, navigation.FirstChild, navigation.FirstChild, navigation.LastChild, navigation.FirstChild} {
		if ok, err := n.ToElement(d); !ok || err != nil {
			bad("move %v: %v %v", d, ok, err)
		}
	}
	if m, err := n.ToElement(navigation.PrevSibling); m || err != nil {
		bad("e has a previous sibling: %v %v", m, err)
	}
	ok()
}
'''))

bug('c11-name-mask','C11',[('navigation/to_string.go','		length = l & 0xFFFF','		length = l & 0x3FF')],
 'an element or attribute name of 1024 bytes or more',
 'the extracted name is cut',
 M(['strings'],'''func main() {
	for _, n := range []int{1, 255, 1023, 1024, 2047} {
		s := strings.Repeat("n", n)
		p, err := parse("<a " + s + "='1'><" + s + "/></a>")
		if err != nil {
			bad("%v", err)
		}
		for _, i := range []int{2, 4} {
			if g, err := nav(p).ToRawStringAtIndex(i); err != nil || g != s {
				bad("name of %d bytes extracted as %d bytes %v", n, len(g), err)
			}
		}
	}
	ok()
}
'''))

bug('c08-debug-line','C08',[('parser/process_dec_attr_name.go','''			return StateInvalid, erroring.NewParseError(erroring.InvalidChar, p.fmtLine(), nil)
		}
	} else {
		return StateInvalid, erroring.NewParseError("invalid termination sequence", p.fmtLine(), nil)''','''			println("unexpected character behind the XML declaration:", p.currentChar)
			return StateInvalid, erroring.NewParseError(erroring.InvalidChar, p.fmtLine(), nil)
		}
	} else {
		return StateInvalid, erroring.NewParseError("invalid termination sequence ?>", p.fmtLine(), nil)''')],
 'text between the XML declaration and the root element',
 'a line is written to standard error',
 M(['os','os/exec'],'''func main() {
	if len(os.Args) > 1 {
		for _, d := range []string{"<?xml version='1.0'?>x<a/>", "<?xml version='1.0'?>\\n<a/>", "x", "<?xml version='1.0'x"} {
			parse(d)
		}
		return
	}
	out, err := exec.Command(os.Args[0], "child").CombinedOutput()
	if err != nil || len(out) > 0 {
		bad("wrote %q %v", out, err)
	}
	ok()
}
'''))

bug('c09-ns2000-length','C09',[('parser/process_attr_val.go','	if p.length1 < 29 || (','	if p.length1 <= 29 || (')],
 'a declaration bound to exactly http://www.w3.org/2000/xmlns/, the shorter reserved name',
 'the reserved namespace name is accepted for an ordinary prefix',
 M([P],'''func main() {
	for _, u := range []string{"http://www.w3.org/2000/xmlns/", "http://www.w3.org/XML/1998/namespace"} {
		for _, a := range []string{"xmlns:p", "xmlns"} {
			if _, err := parse("<a "+a+"='"+u+"'/>", parser.WithNameSpaceAware(true)); err == nil {
				bad("%s bound to %s", a, u)
			}
		}
	}
	ok()
}
'''))

bug('c06-shared-tables','C06',[('common/xml_char.go','func NewXmlChar() *XmlChar {\n\tif x','''// the tables are the same for every parser
var sharedXmlChar *XmlChar

func NewXmlChar() *XmlChar {
	if sharedXmlChar == nil {
		sharedXmlChar = newXmlChar()
	}
	return sharedXmlChar
}

func newXmlChar() *XmlChar {
	if x'''),('common/xml_char.go','	x := &XmlChar{\n\t\tvalidCharSlice:     make([]uint32, 0),','	x := &XmlChar{\n\t\tvalidCharSlice:     make([]uint32, 0, 1<<20),')],
 'two parsers made at the same time as the first ones of the process',
 'they race for the lazily made character tables',
 M(['os','os/exec','sync'],'''func main() {
	if len(os.Args) > 1 {
		var wg, start sync.WaitGroup
		start.Add(1)
		for k := 0; k < 8; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				start.Wait()
				if _, err := parse("<a>b</a>"); err != nil {
					bad("%v", err)
				}
			}()
		}
		start.Done()
		wg.Wait()
		return
	}
	for k := 0; k < 8; k++ {
		if out, err := exec.Command(os.Args[0], "child").CombinedOutput(); err != nil {
			bad("%v %s", err, out)
		}
	}
	ok()
}
'''),race=True)

bug('c12-modify-discarded','C12',[('buffer/long_buffer.go','''	offset := index & b.r
	if index < 0 || index >= b.size || offset >= len(bufferSlice) {
		return erroring''','''	offset := index % b.pageSize
	if index < 0 || index > b.size || offset >= len(bufferSlice) {
		return erroring''')],
 'modifying the entry at the size right after a rollback',
 'a discarded entry is modified instead of refused',
 M([B],'''func main() {
	b, err := buffer.NewFastLongBuffer(buffer.WithFastLongBufferPageSize(2))
	if err != nil {
		bad("%v", err)
	}
	for i := 0; i < 7; i++ {
		if err := b.Append(int64(i)); err != nil {
			bad("%v", err)
		}
	}
	for s := 6; s >= 0; s-- {
		b.SetSize(s)
		if err := b.ModifyEntry(s, 1); err == nil {
			bad("entry %d of %d was modified", s, s)
		}
	}
	ok()
}
'''))
