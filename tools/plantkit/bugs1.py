G='''package main

'''
def M(imports, body): 
    imp=''.join('\t"%s"\n'%i for i in imports)
    return G+('import (\n'+imp+')\n\n' if imports else '')+body

bug('c01-line-past-end','C01',[('parser/common.go','		for so <= offset-1 {','		for so <= offset {')],
 'a syntax error detected exactly when the last byte of the byte slice has been read',
 'formatting the error line reads one byte past the slice: Parse panics instead of returning an error',
 M([],'''func main() {
	for _, d := range []string{"<a>&", "<a/>x", "<a", "<a>\\n</b>", "<a b='c'd"} {
		parse(d) // has to return
	}
	for _, d := range []string{"<a/>x", "<a b='c'd"} {
		if _, err := parse(d); err == nil {
			bad("accepted %q", d)
		}
	}
	ok()
}
'''))

bug('c02-attr-unique-last','C02',[('parser/process_attr_name.go','		unique = unique && uniqual','		unique = uniqual')],
 'a tag with three or more attributes where the repeated one is not directly behind its twin',
 'a start tag that repeats an attribute with another one in between is acknowledged',
 M([],'''func main() {
	for _, d := range []string{"<a x='1' x='2'/>", "<a x='1' y='2' x='3'/>", "<a x='1' yy='2' z='' x='3'></a>"} {
		if _, err := parse(d); err == nil {
			bad("accepted %q", d)
		}
	}
	if _, err := parse("<a x='1' y='2' xx='3'/>"); err != nil {
		bad("refused: %v", err)
	}
	ok()
}
'''))

bug('c03-attr-value-max','C03',[('parser/common.go','		if p.length1 > maxTokenLength {','		if p.length1 >= maxTokenLength {')],
 'an attribute value, PI part or DOCTYPE of exactly 1048575 bytes',
 'the longest attribute value that fits into a token is refused',
 M(['strings'],'''func main() {
	for _, n := range []int{1<<20 - 2, 1<<20 - 1} {
		if _, err := parse("<a b='" + strings.Repeat("v", n) + "'/>"); err != nil {
			bad("value of %d bytes refused: %v", n, err)
		}
		if _, err := parse("<a><?p " + strings.Repeat("v", n) + "?></a>"); err != nil {
			bad("PI of %d bytes refused: %v", n, err)
		}
	}
	ok()
}
'''))

bug('c04-helper-after-attrs','C04',[('parser/process_attr_val.go','''		p.depth--
		p.helper = false
		if err := p.nextChar(); err != nil {''','''		p.depth--
		if err := p.nextChar(); err != nil {''')],
 'an empty-element tag with attributes as last child, followed by white space',
 'ignorable white space behind the empty element becomes a text token',
 M([],'''func main() {
	p, err := parse("<r><a x='1'/> \\n </r>")
	if err != nil {
		bad("refused: %v", err)
	}
	t := toks(nav(p))
	want := [][4]int32{{13, 0, 0, -1}, {0, 1, 1, 0}, {0, 4, 1, 1}, {2, 6, 1, 1}, {4, 9, 1, 1}}
	if len(t) != len(want) {
		bad("tokens %v", t)
	}
	for i := 1; i < len(t); i++ {
		if t[i] != want[i] {
			bad("token %d is %v", i, t[i])
		}
	}
	ok()
}
'''))

bug('c05-end-tag-window','C05',[('parser/process_end_tag.go','	if p.offset >= p.endOffset {','	if p.offset >= len(p.xmlDoc) {')],
 'a window that ends inside the name of an end tag, with bytes behind it that contradict or complete the name',
 'the end tag is compared with bytes behind the window, the reported error depends on them',
 M(['fmt','errors','github.com/alexZaicev/go-vtd-xml/vtdxml/parser','github.com/alexZaicev/go-vtd-xml/vtdxml/erroring'],'''func verdict(tail string) string {
	d := "<abcdef>text</abc"
	p, err := parser.NewVtdParser(parser.WithXmlDocCustomOffset([]byte(d+tail), 0, len(d)))
	if err != nil {
		return "new: " + err.Error()
	}
	err = p.Parse()
	if err == nil {
		return "accepted"
	}
	line := ""
	var pe *erroring.ParseError
	if errors.As(err, &pe) {
		line = pe.LineNumber
	}
	return fmt.Sprintf("%v %s", err, line)
}

func main() {
	a := verdict("def>          ")
	for _, tail := range []string{"xxx>          ", "", "d", "def", "def></abcdef>", "\\n\\n\\n\\n\\n\\n"} {
		if b := verdict(tail); b != a {
			bad("with %q behind the window: %s, before: %s", tail, b, a)
		}
	}
	ok()
}
'''))

bug('c06-shared-scratch','C06',[('parser/common.go','''	var seqRange [][]uint32
	for i := 0''','''	seqRange = seqRange[:0]
	for i := 0'''),('parser/common.go','''// skipCharSeqIgnoreCase function skips sequence of characters ignoring
''','''// seqRange holds the pairs skipCharSeqIgnoreCase looks for
var seqRange [][]uint32

// skipCharSeqIgnoreCase function skips sequence of characters ignoring
''')],
 'two parsers working concurrently, both inside an encoding declaration',
 'parsers share a package-level scratch slice without synchronisation',
 M(['sync'],'''func main() {
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 20; k++ {
				if _, err := parse("<?xml version='1.0' encoding='UTF-8'?><a/>"); err != nil {
					bad("refused: %v", err)
				}
			}
		}()
	}
	wg.Wait()
	ok()
}
'''),True)

bug('c07-cache-append','C07',[('parser/common.go','''			if err := p.l5Buffer.Append(int64(p.vtdBuffer.GetSize() - 1)); err != nil {
				return err
			}
			if p.lastDepth == 4 {
				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) + p.l5Buffer.GetSize() - 1)); err != nil {
					return err
				}
			}
			p.lastDepth = 5''','''			if err := p.l5Buffer.Append(int64(p.vtdBuffer.GetSize() - 1)); err != nil {
				return err
			}
			if p.lastDepth == 4 {
				_ = p.l4Buffer.Append(int64((p.lastL4Index << 32) + p.l5Buffer.GetSize() - 1))
			}
			p.lastDepth = 5''')],
 'five-level location cache, an element of depth 5 as first child, and an index buffer that refuses the entry',
 'a failed write of the fourth level of the location cache is ignored and the parse reports success',
 M(['reflect','unsafe','errors','github.com/alexZaicev/go-vtd-xml/vtdxml/buffer','github.com/alexZaicev/go-vtd-xml/vtdxml/parser'],'''type failing struct{ buffer.LongBuffer }

func (f failing) Append(int64) error { return errors.New("disk full") }

// set replaces every LongBuffer field with the given position by a failing one
func set(p *parser.VtdParser, k int) bool {
	v := reflect.ValueOf(p).Elem()
	lb := reflect.TypeOf((*buffer.LongBuffer)(nil)).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Type() == lb && !f.IsNil() {
			if k == 0 {
				q := (*buffer.LongBuffer)(unsafe.Pointer(f.UnsafeAddr()))
				*q = failing{*q}
				return true
			}
			k--
		}
	}
	return false
}

func main() {
	d := []byte("<a><b><c><d><e><f/></e></d></c></b></a>")
	n := 0
	for k := 0; ; k++ {
		p, err := parser.NewVtdParser(parser.WithXmlDoc(d), parser.WithLcDepth(5))
		if err != nil {
			bad("%v", err)
		}
		if !set(p, k) {
			break
		}
		if p.Parse() != nil {
			n++
		}
	}
	// the document fills the index and all five levels
	if n < 6 {
		bad("only %d buffers reported their failure", n)
	}
	ok()
}
'''))

bug('c08-normalise-in-place','C08',[('parser/process_attr_val.go','''			if p.currentChar == ch {
				// break because attribute value finished
				break
			}
''','''			if p.currentChar == '\\n' {
				// attribute value normalisation
				p.xmlDoc[p.offset-p.increment] = ' '
			} else if p.currentChar == ch {
				// break because attribute value finished
				break
			}
''')],
 'an attribute value with a line feed',
 'parsing overwrites line feeds in attribute values of the caller\'s document',
 M(['github.com/alexZaicev/go-vtd-xml/vtdxml/parser'],'''func main() {
	d := "<a x='1'\\n y='2\\n3'>\\n<b z=\\"\\n\\"/></a>"
	b := []byte(d)
	p, err := parser.NewVtdParser(parser.WithXmlDoc(b))
	if err == nil {
		err = p.Parse()
	}
	if err != nil {
		bad("refused: %v", err)
	}
	if string(b) != d {
		bad("the document is now %q", b)
	}
	ok()
}
'''))

bug('c09-scope-rollback','C09',[('parser/process_start_tag.go','		if p.depth <= p.nsBuffer1.GetSize()-1 {','		if p.depth < p.nsBuffer1.GetSize()-1 {')],
 'namespace checking on, a prefix declared by an element without children and used by its next sibling',
 'the declarations of a leaf element stay in scope for the siblings behind it',
 M(['github.com/alexZaicev/go-vtd-xml/vtdxml/parser'],'''func main() {
	ns := parser.WithNameSpaceAware(true)
	for d, want := range map[string]bool{
		"<r><a xmlns:p='u'/><p:b/></r>":                   false,
		"<r><a xmlns:p='u'><p:c/></a><p:b/></r>":          false,
		"<r><a xmlns:p='u'/><b p:x=''/></r>":              false,
		"<r xmlns:p='u'><a xmlns:p='v'/><p:b/></r>":       true,
		"<r><a xmlns:p='u'><p:c/></a><b xmlns:p='w' p:x=''/></r>": true,
	} {
		if _, err := parse(d, ns); (err == nil) != want {
			bad("%s: %v", d, err)
		}
	}
	ok()
}
'''))

bug('c09-adjacent-collision','C09',[('parser/process_attr_val.go','		for j := i + 1; j < p.prefixedAttCount; j++ {','		for j := i + 1; j <= i+1 && j < p.prefixedAttCount; j++ {')],
 'namespace checking on, a tag with three or more prefixed attributes, the colliding ones not next to each other',
 'two attributes with one expanded name are accepted when another prefixed attribute stands between them',
 M(['github.com/alexZaicev/go-vtd-xml/vtdxml/parser'],'''func main() {
	ns := parser.WithNameSpaceAware(true)
	for d, want := range map[string]bool{
		"<r xmlns:p='u' xmlns:q='u' p:x='' q:x=''/>":               false,
		"<r xmlns:p='u' xmlns:q='u' p:x='' p:y='' q:x=''/>":        false,
		"<r xmlns:p='u' xmlns:q='v' p:x='' p:y='' q:x=''/>":        true,
		"<r xmlns:p='u' xmlns:q='u'><b p:x='' x='' p:z='' q:x='' /></r>": false,
	} {
		if _, err := parse(d, ns); (err == nil) != want {
			bad("%s: %v", d, err)
		}
	}
	ok()
}
'''))

WALK='''// tree is the element tree by names
type tree struct {
	name string
	kids []*tree
}

func name(n *navigation.VtdNav) string {
	i, err := n.GetCurrentIndex()
	if err != nil {
		bad("%v", err)
	}
	s, err := n.ToRawStringAtIndex(int(i))
	if err != nil {
		bad("%v", err)
	}
	return s
}

func to(n *navigation.VtdNav, d navigation.Direction) bool {
	k, err := n.ToElement(d)
	if err != nil {
		bad("%v", err)
	}
	return k
}

// walk visits the children of the cursor forwards and backwards
func walk(n *navigation.VtdNav) string {
	s := name(n)
	var fwd, bwd []string
	if to(n, navigation.FirstChild) {
		s += "("
		for {
			fwd = append(fwd, name(n))
			s += walk(n)
			if !to(n, navigation.NextSibling) {
				break
			}
			s += " "
		}
		s += ")"
		to(n, navigation.Parent)
		to(n, navigation.LastChild)
		for {
			bwd = append(bwd, name(n))
			if !to(n, navigation.PrevSibling) {
				break
			}
		}
		to(n, navigation.Parent)
		for i := range fwd {
			if len(bwd) != len(fwd) || bwd[len(bwd)-1-i] != fwd[i] {
				bad("children forwards %v, backwards %v", fwd, bwd)
			}
		}
	}
	return s
}
'''
NAVI=['github.com/alexZaicev/go-vtd-xml/vtdxml/navigation']
bug('c10-last-grandchild','C10',[('navigation/to_element.go','			for i := n.l2index + 1; i < n.l2Buffer.GetSize(); i++ {','			for i := n.l2index + 1; i < n.l2Buffer.GetSize() && i <= n.l2index+1; i++ {')],
 'a depth-2 element with children, followed by a childless depth-2 element, followed by one with children',
 'the last child and the end of the sibling row at depth 3 are those of another parent',
 M(NAVI,WALK+'''
func main() {
	d := "<r><a><b><c/><d/></b><e/><f><g/><h/></f></a><i><j/><k><l/></k></i></r>"
	p, err := parse(d)
	if err != nil {
		bad("refused: %v", err)
	}
	n := nav(p)
	to(n, navigation.Root)
	if s := walk(n); s != "r(a(b(c d) e f(g h)) i(j k(l)))" {
		bad("walked %s", s)
	}
	ok()
}
'''))
bug('c10-first-of-leaf','C10',[('navigation/to_element.go','''			if depth <= n.context[0] {
				return false, nil
			} else if depth == (n.context[0] + 1) {
				n.context[0] += 1
				n.context[n.context[0]] = int32(index)''','''			if depth < n.context[0] {
				return false, nil
			} else if depth == (n.context[0] + 1) {
				n.context[0] += 1
				n.context[n.context[0]] = int32(index)''')],
 'an element below depth 3 without children whose next sibling has children',
 'the first child of a leaf is the child of its sibling',
 M(NAVI,WALK+'''
func main() {
	d := "<r><a><b><c><x/><y><z/></y><w/></c><d/></b></a></r>"
	p, err := parse(d)
	if err != nil {
		bad("refused: %v", err)
	}
	n := nav(p)
	to(n, navigation.Root)
	if s := walk(n); s != "r(a(b(c(x y(z) w) d)))" {
		bad("walked %s", s)
	}
	ok()
}
'''))

bug('c11-hex-upper','C11',[('navigation/get_char_resolved.go',"					} else if ch2 >= 'A' && ch2 <= 'F' {\n						value = (value << 4) + (ch2 - 'A' + 10)","					} else if ch2 >= 'A' && ch2 <= 'F' {\n						value = value<<4 | (ch2-'A'+10)&7")],
 'a character reference with an upper-case hexadecimal digit above 9',
 'extraction returns another character than the one referred to',
 M([],'''func main() {
	p, err := parse("<a>x&#xE9;&#x1F600;&#xab;&#xAB;&#65;y</a>")
	if err != nil {
		bad("refused: %v", err)
	}
	n := nav(p)
	s, err := n.ToStringAtIndex(n.GetVtdBufferSize() - 1)
	if err != nil || s != "x\\u00e9\\U0001F600\\u00ab\\u00abAy" {
		bad("extracted %q, %v", s, err)
	}
	ok()
}
'''))

bug('c12-clear-capacity','C12',[('buffer/int_buffer.go','''func (b *FastIntBuffer) Clear() {
	b.size = 0
''','''func (b *FastIntBuffer) Clear() {
	b.size, b.capacity = 0, 0
''')],
 'an integer buffer that is cleared and filled again',
 'entries appended behind a Clear read back as the discarded ones',
 M(['github.com/alexZaicev/go-vtd-xml/vtdxml/buffer'],'''func main() {
	b, err := buffer.NewFastIntBuffer(buffer.WithFastIntBufferPageSize(2))
	if err != nil {
		bad("%v", err)
	}
	for round := int32(0); round < 3; round++ {
		for i := int32(0); i < 11; i++ {
			if err := b.Append(100*round + i); err != nil {
				bad("%v", err)
			}
		}
		for i := int32(0); i < 11; i++ {
			if v, err := b.IntAt(int(i)); err != nil || v != 100*round+i {
				bad("entry %d of round %d: %d %v", i, round, v, err)
			}
		}
		b.Clear()
	}
	ok()
}
'''))

bug('c13-skip-nothing','C13',[('reader/utf8_reader.go','''	for _, ch := range seq {
		if !r.SkipChar(uint32(ch)) {
			r.offset = offset
			return false''','''	for i, ch := range seq {
		if !r.SkipChar(uint32(ch)) {
			r.offset = offset + i - i/len("xml")
			return false''')],
 '-','-',M([],'')) if False else None

bug('c13-ascii-peek','C13',[('reader/ascii_reader.go','''	ch := r.xmlDoc[r.offset]
	r.offset++
	if !r.isASCII(ch) {
		return 0, erroring.NewParseError("invalid ASCII character", "", nil)
	}
	return uint32(ch), nil''','''	ch := r.xmlDoc[r.offset]
	r.offset++
	if !r.isASCII(ch) {
		r.offset--
		return 0, erroring.NewParseError("invalid ASCII character", "", nil)
	}
	return uint32(ch), nil''')],
 '-','-',M([],'')) if False else None

bug('c14-line-offset','C14',[('parser/common.go','''		for so <= offset-1 {
			if p.xmlDoc[so] == '\\n' {
				lineNumber++
				lineOffset = so
			}
			so++
		}
		lineOffset = offset - lineOffset
	} else if''','''		for so <= offset-1 {
			if p.xmlDoc[so] == '\\n' {
				lineNumber++
				lineOffset = so
			}
			so += p.increment
			if lineNumber > 0 && so-lineOffset > 2 && p.xmlDoc[so-1] == '\\r' {
				so++
			}
		}
		lineOffset = offset - lineOffset
	} else if''')],
 '-','-',M([],'')) if False else None
