exec(open('/verif/tools/plantkit/bugs4.py').read().split("bug('c03-many-attributes'")[0])

bug('c01-lock-lost','C01',[
 ('parser/parse.go','	"errors"\n','	"errors"\n	"sync"\n'),
 ('parser/parse.go','// Parse function generates','// parsing keeps the number of documents parsed at a time at one\nvar parsing sync.Mutex\n\n// Parse function generates'),
 ('parser/parse.go','	p.started = true\n','	p.started = true\n	parsing.Lock()\n'),
 ('parser/parse.go','			p.finished = true\n			return nil\n','			p.finished = true\n			parsing.Unlock()\n			return nil\n'),
 ('parser/parse.go','		} else if err != nil {\n			return err\n','		} else if failed(err) {\n			return err\n'),
 ('parser/parse.go','// finishUp function','// failed function tells whether parsing has failed and lets the next document in\nfunc failed(err error) bool {\n	if err == nil {\n		return false\n	}\n	var eofErr *erroring.EOFError\n	if !errors.As(err, &eofErr) {\n		parsing.Unlock()\n	}\n	return true\n}\n\n// finishUp function')],
 'a document that ends too early, and another parse behind it',
 'after it no parse ever ends',
 M(['time'],'''func main() {
	done := make(chan bool)
	go func() {
		for _, d := range []string{"<a/>", "<a><b></a>", "<a>", "<a/>", "<a><b/></a>"} {
			_, _ = parse(d)
		}
		done <- true
	}()
	select {
	case <-done:
		ok()
	case <-time.After(20 * time.Second):
		bad("no verdict after 20 s")
	}
}
'''))

bug('c14-first-of-double','C14',[
 ('parser/process_attr_name.go','	unique = true\n','	unique = true\n	first := p.offset\n'),
 ('parser/process_attr_name.go','		unique = unique && uniqual\n','		if unique = unique && uniqual; !uniqual {\n			first = p.attrNameSlice[i] >> 32\n		}\n'),
 ('parser/process_attr_name.go','NewParseError(erroring.AttrNotUnique, p.fmtLine(), nil)','NewParseError(erroring.AttrNotUnique, p.fmtCustomLine(first), nil)')],
 'damage that gives an attribute the name of another one some lines above',
 'the rejection names the line of the intact attribute in front of the damage',
 M(['errors','strings','github.com/alexZaicev/go-vtd-xml/vtdxml/erroring'],'''func main() {
	_, err := parse("<a\\nb=''\\nc=''\\nd=''\\nb=''/>")
	var pe *erroring.ParseError
	if !errors.As(err, &pe) || !strings.Contains(pe.LineNumber, "Line number: 5 ") {
		bad("%v", err)
	}
	ok()
}
'''))

bug('c13-skip-one-byte','C13',[('reader/utf8_reader.go','''	if c, size := r.decode(r.offset); r.isUTF8(c, size) && ch == uint32(c) {
		r.offset += size
		return true
	} else {
		return false
	}
''','''	if b := r.xmlDoc[r.offset]; ch < utf8.RuneSelf && uint32(b) == ch {
		r.offset++
		return true
	}
	c, size := r.decode(r.offset)
	if ch == uint32(c) {
		r.offset += size
		return true
	}
	return false
''')],
 'a conditional skip of U+FFFD in front of a malformed byte',
 'a malformed byte is skipped as if it were the character',
 M([R],'''func main() {
	for _, d := range []string{"\\xff", "\\xc3", "\\xe2\\x82"} {
		r, err := reader.NewUtf8Reader([]byte(d), 0, len(d))
		if err != nil {
			bad("%v", err)
		}
		if r.SkipChar(0xFFFD) || r.GetOffset() != 0 {
			bad("%q skipped", d)
		}
	}
	r, _ := reader.NewUtf8Reader([]byte("\\uFFFD"), 0, 3)
	if !r.SkipChar(0xFFFD) || r.GetOffset() != 3 {
		bad("not skipped")
	}
	ok()
}
'''))

bug('c09-xml-any-length','C09',[('parser/process_attr_name.go','''		if (p.increment == 1 && p.length2 == 3 && isXml) || (p.increment == 2 && p.length2 == 6 && isXml) {
			return nil
''','''		if isXml && p.length2 >= 3*p.increment {
			return nil
''')],
 'an undeclared attribute prefix that begins with xml',
 'the attribute is accepted although its prefix has no declaration',
 M([P],'''func main() {
	for d, want := range map[string]bool{"<a xml:b=''/>": true, "<a xmlx:b=''/>": false, "<a xmly:b=''/>": false, "<a xmlx:b='' xmlns:xmlx='u'/>": true, "<a xm:b=''/>": false} {
		if _, err := parse(d, parser.WithNameSpaceAware(true)); (err == nil) != want {
			bad("%s: %v", d, err)
		}
	}
	ok()
}
'''))

bug('c04-empty-comment','C04',[('parser/process_start_comment.go','''	if p.singleByteEncoding {
		if err := p.writeVtdText(common.TokenComment''','''	if p.singleByteEncoding && p.length1 == 0 && p.depth > 0 {
		p.lastOffset = p.offset
	} else if p.singleByteEncoding {
		if err := p.writeVtdText(common.TokenComment''')],
 'an empty comment inside a nested element',
 'it has no token',
 M(['fmt'],'''func main() {
	p, err := parse("<a><b><!----></b></a>")
	if err != nil {
		bad("%v", err)
	}
	if n := nav(p).GetVtdBufferSize(); n != 4 {
		bad("%d tokens", n)
	}
	_ = fmt.Sprint
	ok()
}
'''))

bug('c11-row-of-digits','C11',[('navigation/get_char_resolved.go','''				inc = 2
				if ch2 == 'x' {
''' if False else '''			if !n.xmlChar.IsValidChar(value) {
				return 0, 0, erroring.NewEntityError(erroring.InvalidChar)
			}
			return inc, value, nil''','''			if !n.xmlChar.IsValidChar(value) {
				return 0, 0, erroring.NewEntityError(erroring.InvalidChar)
			}
			return inc & 0xF, value, nil''')],
 'a character reference of sixteen or more bytes',
 'the rest of the reference appears in the text, or the text is refused',
 M(['strings'],'''func main() {
	for _, n := range []int{0, 3, 8, 9, 12, 13, 30} {
		p, err := parse("<a>x&#" + strings.Repeat("0", n) + "65;y</a>")
		if err != nil {
			bad("%v", err)
		}
		if s, err := nav(p).ToStringAtIndex(2); err != nil || s != "xAy" {
			bad("%d: %q %v", n, s, err)
		}
	}
	ok()
}
'''))

bug('c03-exact-name','C03',[('parser/process_start_tag.go','		if p.length2 > maxPrefixLength || p.length1 > maxQnameLength {','		if p.length2 > maxPrefixLength || p.length1+p.increment > maxQnameLength {')],
 'an element name of exactly 2047 bytes',
 'it is refused although it is within the limits',
 M(['strings'],'''func main() {
	for _, n := range []int{1, 2046, 2047} {
		if _, err := parse("<" + strings.Repeat("n", n) + "/>"); err != nil {
			bad("%d: %v", n, err)
		}
	}
	ok()
}
'''))

bug('c07-skipped-flush','C07',[('parser/common.go','''		p.lastL2Index = p.vtdBuffer.GetSize() - 1
		p.lastDepth = 2
	case 3:
		if err := p.l3Buffer.Append(int64((p.vtdBuffer.GetSize() - 1) << 32)); err != nil {
			return err
		}
		if p.lastDepth == 2 {
''','''		p.lastL2Index = p.vtdBuffer.GetSize() - 1
		p.lastDepth = 2
	case 3:
		err := p.l3Buffer.Append(int64((p.vtdBuffer.GetSize() - 1) << 32))
		if p.lastDepth == 2 {
'''),('parser/common.go','''			if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) + p.l3Buffer.GetSize() - 1)); err != nil {
				return err
			}
		}
		p.lastDepth = 3
''','''			if err = p.l2Buffer.Append(int64((p.lastL2Index << 32) + p.l3Buffer.GetSize() - 1)); err != nil {
				return err
			}
		}
		p.lastDepth = 3
		return err
''')],
 'the store of the third level refuses an entry for the first child of its parent while the second level takes its own',
 'the failure is overwritten by the success behind it',
 M(['errors',P,'reflect','unsafe',B],'''type failing struct {
	buffer.LongBuffer
	n int
}

func (f *failing) Append(v int64) error {
	if f.n--; f.n == 0 {
		return errors.New("refused")
	}
	return f.LongBuffer.Append(v)
}

func main() {
	doc := "<a><b><c><d/><d/></c></b></a>"
	for k := 1; k <= 4; k++ {
		for _, field := range []string{"vtdBuffer", "l1Buffer", "l2Buffer", "l3Buffer"} {
			p, err := parser.NewVtdParser(parser.WithXmlDoc([]byte(doc)))
			if err != nil {
				bad("%v", err)
			}
			f := reflect.ValueOf(p).Elem().FieldByName(field)
			f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			x := &failing{f.Interface().(buffer.LongBuffer), k}
			f.Set(reflect.ValueOf(x))
			if err := p.Parse(); err == nil && x.n <= 0 {
				bad("%s refused entry %d and the parse succeeded", field, k)
			}
		}
	}
	ok()
}
'''))

bug('c08-late-timer','C08',[('parser/parse.go','			p.finished = true\n			return nil\n','			p.finished = true\n			return p.settle()\n'),
 ('parser/parse.go','	"errors"\n','	"errors"\n	"time"\n'),
 ('parser/parse.go','// finishUp function','// settle function looks after deep documents once they are in use\nfunc (p *VtdParser) settle() error {\n	if p.vtdDepth > 200 {\n		go func() {\n			time.Sleep(time.Minute)\n			_ = p.vtdBuffer.GetSize()\n		}()\n	}\n	return nil\n}\n\n// finishUp function')],
 'a navigator for a document more than 200 levels deep',
 'a goroutine stays behind',
 M(['strings','runtime','time'],'''func main() {
	for _, n := range []int{3, 250} {
		p, err := parse(strings.Repeat("<a>", n) + strings.Repeat("</a>", n))
		if err != nil {
			bad("%v", err)
		}
		nav(p)
		time.Sleep(200 * time.Millisecond)
		if g := runtime.NumGoroutine(); g > 1 {
			bad("%d goroutines after depth %d", g, n)
		}
	}
	ok()
}
'''))

bug('c06-depth-memo','C06',[('parser/process_start_tag.go','''	x := (p.length1 << 32) + p.lastOffset
	p.tagStack[p.depth] = int64(x)
''','''	p.tagStack[p.depth] = int64((p.length1 << 32) + p.lastOffset)
'''),('parser/common.go','''	maxTokenLength  = (1 << 20) - 1
	maxDepth        = 254
''','''	maxTokenLength  = (1 << 20) - 1
'''),('parser/common.go','''// setOffset function set custom''','''// maxDepth is what a token can carry
var maxDepth = 254

// setOffset function set custom'''),('parser/process_start_tag.go','''		return StateInvalid, erroring.NewParseError(erroring.MaximumDepthExceeded, p.fmtLine(), nil)
''','''		maxDepth = p.vtdDepth - 1
		return StateInvalid, erroring.NewParseError(erroring.MaximumDepthExceeded, p.fmtLine(), nil)
''')],
 'a document that is too deep, and behind or beside it one of the greatest depth',
 'the limit has become smaller for everybody else',
 M(['strings'],'''func main() {
	deep := func(n int) string { return strings.Repeat("<a>", n) + strings.Repeat("</a>", n) }
	if _, err := parse(deep(255)); err != nil {
		bad("%v", err)
	}
	if _, err := parse(deep(300)); err == nil {
		bad("300 accepted")
	}
	if _, err := parse(deep(255)); err != nil {
		bad("%v", err)
	}
	ok()
}
'''))

bug('c02-late-declaration','C02',[('parser/process_pi_end.go','''		if p.xmlChar.IsSpaceChar(p.currentChar) || p.currentChar == '?' {
''','''		if p.currentChar == ' ' || p.currentChar == '?' {
''')],
 'an XML declaration behind the root element, its first white space not a blank',
 'it is accepted as a processing instruction',
 M(['strings'],'''func main() {
	for _, d := range []string{"<a/><?xml version='1.0'?>", "<a/><?xml\\nversion='1.0'?>", "<a/><?XML\\tx?>", "<a/><?xml?>"} {
		if _, err := parse(d); err == nil {
			bad("%q accepted", d)
		}
	}
	if _, err := parse("<a/><?xmlx\\ny?>"); err != nil {
		bad("%v", err)
	}
	_ = strings.ToUpper
	ok()
}
'''))
