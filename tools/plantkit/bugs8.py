exec(open('/verif/tools/plantkit/bugs4.py').read().split("bug('c03-many-attributes'")[0])

bug('c03-last-plane','C03',[('common/xml_char.go','{0x10000, 0xEFFFF},','{0x10000, 0xEFFFE},')],
 'a name with the character U+EFFFF',
 'the last name character is refused',
 M([],'''func main() {
	for _, c := range []rune{0x10000, 0x20000, 0xEFFFE, 0xEFFFF} {
		if _, err := parse("<a" + string(c) + "/>"); err != nil {
			bad("%x: %v", c, err)
		}
	}
	ok()
}
'''))

bug('c02-greek-question-mark','C02',[('common/xml_char.go','{0x370, 0x37D}, {0x37F, 0x1FFF}','{0x370, 0x1FFF}')],
 'a name with the character U+037E, which lies between two ranges of name characters',
 'an illegal name is accepted',
 M([],'''func main() {
	for _, d := range []string{"<\\u037e/>", "<a\\u037e/>", "<a b\\u037e='c'/>"} {
		if _, err := parse(d); err == nil {
			bad("%q accepted", d)
		}
	}
	for _, d := range []string{"<\\u037d/>", "<\\u037f/>"} {
		if _, err := parse(d); err != nil {
			bad("%q: %v", d, err)
		}
	}
	ok()
}
'''))

bug('c02-signed-reference','C02',[('parser/common.go','''			} else {
				for {
					if ch >= '0' && ch <= '9' {
						value = value*10 + (ch - '0')
''','''			} else {
				for n := 0; ; n++ {
					if n == 0 && ch == '+' {
						value = 0
					} else if ch >= '0' && ch <= '9' {
						value = value*10 + (ch - '0')
''')],
 'a decimal reference whose digits follow a plus sign',
 'an illegal reference is accepted',
 M([],'''func main() {
	for _, d := range []string{"<a>&#+65;</a>", "<a b='&#+65;'/>", "<a>&#-65;</a>", "<a>&#6+5;</a>"} {
		if _, err := parse(d); err == nil {
			bad("%q accepted", d)
		}
	}
	if _, err := parse("<a b='&#65;'>&#066;</a>"); err != nil {
		bad("%v", err)
	}
	ok()
}
'''))

bug('c04-prefix-512','C04',[('parser/process_start_tag.go','if p.length2 > maxPrefixLength || p.length1 > maxQnameLength {','if p.length2 > maxPrefixLength+1 || p.length1 > maxQnameLength {')],
 'an element whose prefix is exactly 512 bytes long, one more than the index can hold',
 'the prefix length spills into the depth of the token',
 M(['strings'],'''func main() {
	for k := 500; k < 520; k++ {
		p, err := parse("<" + strings.Repeat("p", k) + ":a/>")
		if err != nil {
			if k <= 511 {
				bad("%d: %v", k, err)
			}
			continue
		}
		for _, t := range toks(nav(p)) {
			if t[0] == 0 && t[3] != 0 {
				bad("prefix of %d bytes: depth %d", k, t[3])
			}
		}
	}
	ok()
}
'''))

bug('c02-anagram','C02',[('parser/process_end_tag.go','''	for i := 0; i < sLength; i++ {
		if p.xmlDoc[sOffset+i] != p.xmlDoc[p.lastOffset+i] {
			return StateInvalid, erroring.NewParseError("start/end tag mismatch", p.fmtLine(), nil)
		}
	}
''','''	diff := 0
	for i := 0; i < sLength; i++ {
		diff += int(p.xmlDoc[sOffset+i]) - int(p.xmlDoc[p.lastOffset+i])
	}
	if diff != 0 {
		return StateInvalid, erroring.NewParseError("start/end tag mismatch", p.fmtLine(), nil)
	}
''')],
 'an end tag whose name has the same bytes as that of its start tag in another order, or the same sum',
 'a mismatched end tag is accepted',
 M([],'''func main() {
	for _, d := range []string{"<ab></ba>", "<a><bcd></bdc></a>", "<ac></bb>", "<a></b>"} {
		if _, err := parse(d); err == nil {
			bad("%q accepted", d)
		}
	}
	if _, err := parse("<ab></ab>"); err != nil {
		bad("%v", err)
	}
	ok()
}
'''))

bug('c10-crowd','C10',[('parser/common.go','''				if err := p.l1Buffer.Append(int64((p.lastL1Index << 32) + p.l2Buffer.GetSize()));''','''				if err := p.l1Buffer.Append(int64((p.lastL1Index << 32) | p.l2Buffer.GetSize()&0xFFF));''')],
 'location caches of five levels, and more than 4096 elements of depth 2 in front of the children of an element',
 'the first child of the element is another element',
 M(['strings',N,P],'''func main() {
	for _, lc := range []int{3, 5} {
		for _, k := range []int{0, 10, 2000, 4095, 4096, 4097, 9000} {
			p, err := parse("<r><a>"+strings.Repeat("<x/>", k)+"</a><b><y/></b></r>", parser.WithLcDepth(lc))
			if err != nil {
				bad("%v", err)
			}
			n := nav(p)
			for _, d := range []navigation.Direction{navigation.Root, navigation.LastChild, navigation.FirstChild} {
				if g, err := n.ToElement(d); !g || err != nil {
					bad("%d: %v %v", k, g, err)
				}
			}
			i, err := n.GetCurrentIndex()
			if err != nil {
				bad("%v", err)
			}
			if s, _ := n.ToRawStringAtIndex(int(i)); s != "y" {
				bad("%d elements in front: %q is the child", k, s)
			}
		}
	}
	ok()
}
'''))
