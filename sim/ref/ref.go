// Package ref is the executable reference model: a small, direct XML parser
// written from the XML 1.0 and Namespaces in XML grammars, independent of the
// library under test. It answers for one window of bytes whether it is a
// well-formed document, which tokens an exact index of it has, what its element
// tree is and whether it is namespace-well-formed.
package ref

import (
	"bytes"
	"strings"
	"unicode/utf8"
)

type Verdict int

const (
	NotWF  Verdict = iota // must be rejected
	WF                    // must be accepted
	Unspec                // well-formedness left open by the properties; tokens still hold when accepted
)

func (v Verdict) String() string { return [...]string{"not-wf", "wf", "unspecified"}[v] }

// token kinds as numbered by the library's public constants
const (
	KStart   = 0
	KAttr    = 2
	KNs      = 3
	KVal     = 4
	KText    = 5
	KComment = 6
	KPiName  = 7
	KPiVal   = 8
	KDecName = 9
	KDecVal  = 10
	KCData   = 11
	KDtd     = 12
	KDoc     = 13
)

const (
	MaxTok    = 1<<20 - 1
	MaxDepth  = 254
	MaxName   = 2047
	MaxPrefix = 511
)

// Tok is one index entry: Off is relative to the window start, Len is the
// length of this entry alone, Total the length GetTokenLength reports (for
// text: this piece and its continuations).
type Tok struct {
	Kind, Off, Len, Total, Depth int
	Pre                          int  // offset of the last colon of a name, 0 if none
	OffLoose                     bool // offset only needs to lie in [OffLo,OffHi]
	OffLo, OffHi                 int
}

type Elem struct {
	Tok              int // token index of the start tag
	Parent           int // element index, -1 for the root
	Kids             []int
	Depth            int
	NameOff, NameLen int
}

type Result struct {
	Verdict    Verdict
	Why        string
	Toks       []Tok
	Elems      []Elem
	NS         Verdict // namespace verdict, meaningful unless Verdict is NotWF
	NSWhy      string
	nsAnyOpen  bool
	Version11  bool
	Ascii      bool
	HasDoctype bool
	RootEnd    int // offset just behind the root element
	Feature    uint64
}

// features met, for coverage accounting
const (
	FDecl = 1 << iota
	FBom
	FDoctype
	FComment
	FPI
	FCData
	FCharRef
	FBuiltin
	FNs
	FDeep
	FEpilog
	FManyAttr
	FSplit
	FNonAscii
	FLeafEmpty
	FSelfClose
	FMixed
	FCRLF
	FEnc
)

type parser struct {
	b       []byte
	i       int
	r       *Result
	bad     bool
	unspec  string
	noDepth bool
}

type stop struct{}

func (p *parser) fail(why string) {
	p.bad = true
	p.r.Why = why
	panic(stop{})
}

func (p *parser) open(why string) {
	if p.unspec == "" {
		p.unspec = why
	}
}

func Space(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

func ValidChar(r rune) bool {
	switch {
	case r == 0x9 || r == 0xA || r == 0xD:
		return true
	case r >= 0x20 && r <= 0xD7FF, r >= 0xE000 && r <= 0xFFFD, r >= 0x10000 && r <= 0x10FFFF:
		return true
	}
	return false
}

func NameStart(r rune) bool {
	switch {
	case r == ':' || r == '_', r >= 'A' && r <= 'Z', r >= 'a' && r <= 'z':
		return true
	case r < 0xC0:
		return false
	case r <= 0xD6, r >= 0xD8 && r <= 0xF6, r >= 0xF8 && r <= 0x2FF, r >= 0x370 && r <= 0x37D,
		r >= 0x37F && r <= 0x1FFF, r >= 0x200C && r <= 0x200D, r >= 0x2070 && r <= 0x218F,
		r >= 0x2C00 && r <= 0x2FEF, r >= 0x3001 && r <= 0xD7FF, r >= 0xF900 && r <= 0xFDCF,
		r >= 0xFDF0 && r <= 0xFFFD, r >= 0x10000 && r <= 0xEFFFF:
		return true
	}
	return false
}

func NameChar(r rune) bool {
	return NameStart(r) || r == '-' || r == '.' || r >= '0' && r <= '9' || r == 0xB7 ||
		r >= 0x300 && r <= 0x36F || r == 0x203F || r == 0x2040
}

// Parse decides one window.
func Parse(win []byte) (res *Result) {
	r := &Result{Toks: make([]Tok, 0, 16)}
	p := &parser{b: win, r: r}
	res = r
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(stop); !ok {
				panic(e)
			}
		}
		switch {
		case p.bad:
			r.Verdict = NotWF
		case p.unspec != "":
			r.Verdict, r.Why = Unspec, p.unspec
		default:
			r.Verdict = WF
		}
		switch {
		case r.nsAnyOpen:
			r.NS = Unspec
		case r.NSWhy == "":
			r.NS = WF
		}
	}()
	p.document()
	p.namespaces()
	return
}

func (p *parser) has(s string) bool {
	return len(p.b)-p.i >= len(s) && string(p.b[p.i:p.i+len(s)]) == s
}

func (p *parser) peek() byte {
	if p.i >= len(p.b) {
		p.fail("incomplete")
	}
	return p.b[p.i]
}

func (p *parser) ws() bool {
	s := p.i
	for p.i < len(p.b) && Space(p.b[p.i]) {
		p.i++
	}
	return p.i > s
}

func (p *parser) rune() rune {
	c, n := utf8.DecodeRune(p.b[p.i:])
	if c == utf8.RuneError && n <= 1 {
		p.fail("incomplete")
	}
	p.i += n
	return c
}

func (p *parser) name() (int, int) {
	s := p.i
	if !NameStart(p.rune()) {
		p.fail("not a name")
	}
	for p.i < len(p.b) {
		c, n := utf8.DecodeRune(p.b[p.i:])
		if !NameChar(c) {
			break
		}
		p.i += n
	}
	return s, p.i - s
}

func (p *parser) tok(t Tok) {
	t.Total = t.Len
	p.r.Toks = append(p.r.Toks, t)
}

func (p *parser) text(kind, off, length, depth int) {
	if length > MaxTok {
		p.r.Feature |= FSplit
	}
	for length > MaxTok {
		p.r.Toks = append(p.r.Toks, Tok{Kind: kind, Off: off, Len: MaxTok, Total: length, Depth: depth})
		off += MaxTok
		length -= MaxTok
	}
	p.r.Toks = append(p.r.Toks, Tok{Kind: kind, Off: off, Len: length, Total: length, Depth: depth})
}

func (p *parser) document() {
	r := p.r
	if bytes.HasPrefix(p.b, []byte{0xEF, 0xBB, 0xBF}) {
		r.Feature |= FBom
		p.i = 3
	}
	body := p.b[p.i:]
	// every character has to be encoded and legal
	for k := 0; k < len(body); {
		c := body[k]
		if c < 0x80 {
			if !ValidChar(rune(c)) {
				p.fail("illegal character")
			}
			if c == '\r' {
				r.Feature |= FCRLF
			}
			k++
			continue
		}
		r.Feature |= FNonAscii
		ch, n := utf8.DecodeRune(body[k:])
		if ch == utf8.RuneError && n <= 1 {
			p.fail("malformed UTF-8")
		}
		if !ValidChar(ch) {
			p.fail("illegal character")
		}
		k += n
	}
	p.tok(Tok{Kind: KDoc, Depth: -1})
	if p.has("<?xml") && p.i+5 < len(p.b) && Space(p.b[p.i+5]) {
		p.i += 5
		p.declaration()
		r.Feature |= FDecl
	}
	if r.Version11 {
		for k := 0; k < len(p.b); {
			ch, n := utf8.DecodeRune(p.b[k:])
			if ch >= 0x7F && ch <= 0x9F || ch == 0x2028 {
				p.open("XML 1.1 restricted or line-end character")
			}
			k += n
		}
	}
	if r.Ascii {
		for _, c := range p.b[p.i:] {
			if c >= 0x80 {
				p.fail("not ASCII")
			}
		}
	}
	for {
		p.ws()
		if p.peek() != '<' {
			p.fail("text in prolog")
		}
		switch {
		case p.has("<!--"):
			p.comment(-1)
		case p.has("<?"):
			p.pi(-1)
		case p.has("<!DOCTYPE"):
			if r.HasDoctype {
				p.fail("second DOCTYPE")
			}
			p.doctype()
		case p.has("<!"):
			p.fail("markup in prolog")
		default:
			goto root
		}
	}
root:
	p.element()
	r.RootEnd = p.i
	for {
		p.ws()
		if p.i >= len(p.b) {
			return
		}
		r.Feature |= FEpilog
		switch {
		case p.has("<!--"):
			p.comment(-1)
		case p.has("<?"):
			p.pi(-1)
		default:
			p.fail("content behind the root element")
		}
	}
}

func (p *parser) eq() {
	p.ws()
	if p.peek() != '=' {
		p.fail("= expected")
	}
	p.i++
	p.ws()
}

func (p *parser) quoted() (int, int) {
	q := p.peek()
	if q != '"' && q != '\'' {
		p.fail("quote expected")
	}
	p.i++
	s := p.i
	for p.peek() != q {
		p.i++
	}
	p.i++
	return s, p.i - 1 - s
}

func (p *parser) declaration() {
	p.ws()
	if !p.has("version") {
		p.fail("declaration without version")
	}
	p.tok(Tok{Kind: KDecName, Off: p.i, Len: 7, Depth: -1})
	p.i += 7
	p.eq()
	s, n := p.quoted()
	v := string(p.b[s : s+n])
	p.tok(Tok{Kind: KDecVal, Off: s, Len: n, Depth: -1})
	switch {
	case v == "1.0":
	case v == "1.1":
		p.r.Version11 = true
	case strings.HasPrefix(v, "1.") && len(v) > 2 && strings.Trim(v[2:], "0123456789") == "":
		p.open("XML version " + v)
	default:
		p.fail("version")
	}
	sp := p.ws()
	if p.has("encoding") {
		if !sp {
			p.fail("space before encoding")
		}
		p.r.Feature |= FEnc
		p.tok(Tok{Kind: KDecName, Off: p.i, Len: 8, Depth: -1})
		p.i += 8
		p.eq()
		s, n := p.quoted()
		p.tok(Tok{Kind: KDecVal, Off: s, Len: n, Depth: -1})
		e := string(p.b[s : s+n])
		l := strings.ToLower(e)
		switch {
		case l == "utf-8":
		case l == "ascii" || l == "us-ascii":
			p.r.Ascii = true
			if p.r.Feature&FBom != 0 {
				p.open("byte order mark with ASCII")
			}
		default:
			p.fail("unsupported encoding")
		}
		sp = p.ws()
	}
	if p.has("standalone") {
		if !sp {
			p.fail("space before standalone")
		}
		p.tok(Tok{Kind: KDecName, Off: p.i, Len: 10, Depth: -1})
		p.i += 10
		p.eq()
		s, n := p.quoted()
		p.tok(Tok{Kind: KDecVal, Off: s, Len: n, Depth: -1})
		if v := string(p.b[s : s+n]); v != "yes" && v != "no" {
			p.fail("standalone value")
		}
		p.ws()
	}
	if !p.has("?>") {
		p.fail("declaration not terminated")
	}
	p.i += 2
}

func (p *parser) comment(depth int) {
	p.r.Feature |= FComment
	p.i += 4
	s := p.i
	k := bytes.Index(p.b[p.i:], []byte("--"))
	if k < 0 {
		p.fail("incomplete")
	}
	p.i += k + 2
	if p.peek() != '>' {
		p.fail("-- in comment")
	}
	p.i++
	p.text(KComment, s, k, depth)
}

func (p *parser) pi(depth int) {
	p.r.Feature |= FPI
	start := p.i
	p.i += 2
	s, n := p.name()
	if n == 3 && strings.EqualFold(string(p.b[s:s+n]), "xml") {
		p.fail("reserved PI target")
	}
	if bytes.IndexByte(p.b[s:s+n], ':') >= 0 {
		p.nsOpen("colon in PI target")
	}
	if n > MaxTok {
		p.open("PI target too long")
	}
	p.tok(Tok{Kind: KPiName, Off: s, Len: n, Depth: depth})
	if p.has("?>") {
		p.i += 2
		p.tok(Tok{Kind: KPiVal, Off: s, Len: 0, Depth: depth, OffLoose: true, OffLo: start, OffHi: p.i})
		return
	}
	if !Space(p.peek()) {
		p.fail("PI target")
	}
	p.i++
	s = p.i
	k := bytes.Index(p.b[p.i:], []byte("?>"))
	if k < 0 {
		p.fail("incomplete")
	}
	p.i += k + 2
	if k > MaxTok {
		p.open("PI value too long")
	}
	p.tok(Tok{Kind: KPiVal, Off: s, Len: k, Depth: depth})
}

// doctype takes the declaration up to its closing '>'; content that is not
// well-formed is left unspecified.
func (p *parser) doctype() {
	p.r.HasDoctype = true
	p.r.Feature |= FDoctype
	p.i += 9
	s := p.i
	p.dtdEnd()
	n := p.i - 1 - s
	if n > MaxTok {
		p.open("DOCTYPE too long")
	}
	p.tok(Tok{Kind: KDtd, Off: s, Len: n, Depth: -1})
	ok, open, ns := checkDtd(p.b[s : s+n])
	if !ok || open {
		p.open("DOCTYPE content")
	}
	if ns {
		p.nsOpen("DOCTYPE content")
	}
}

func Builtin(name string) (rune, bool) {
	switch name {
	case "lt":
		return '<', true
	case "gt":
		return '>', true
	case "amp":
		return '&', true
	case "apos":
		return '\'', true
	case "quot":
		return '"', true
	}
	return 0, false
}

// CharRef decodes the digits of a character reference (without "&#" and ';').
func CharRef(d string) (rune, bool) {
	base := rune(10)
	if strings.HasPrefix(d, "x") {
		base, d = 16, d[1:]
	}
	if d == "" {
		return 0, false
	}
	var v rune
	for _, c := range d {
		var x rune
		switch {
		case c >= '0' && c <= '9':
			x = c - '0'
		case base == 16 && c >= 'a' && c <= 'f':
			x = c - 'a' + 10
		case base == 16 && c >= 'A' && c <= 'F':
			x = c - 'A' + 10
		default:
			return 0, false
		}
		v = v*base + x
		if v > 0x10FFFF {
			return 0, false
		}
	}
	return v, true
}

func (p *parser) reference() {
	s := p.i + 1
	k := bytes.IndexByte(p.b[s:], ';')
	if k < 0 {
		p.fail("reference not terminated")
	}
	body := string(p.b[s : s+k])
	if strings.HasPrefix(body, "#") {
		p.r.Feature |= FCharRef
		v, ok := CharRef(body[1:])
		if !ok {
			p.fail("character reference")
		}
		if !ValidChar(v) {
			if p.r.Version11 && v >= 1 && v < 0x20 {
				p.open("XML 1.1 control character reference")
			} else {
				p.fail("reference to illegal character")
			}
		}
	} else if _, ok := Builtin(body); ok {
		p.r.Feature |= FBuiltin
	} else {
		if !p.r.HasDoctype {
			p.fail("undeclared entity")
		}
		q := &parser{b: []byte(body), r: &Result{}}
		valid := false
		func() {
			defer func() { _ = recover() }()
			_, n := q.name()
			valid = n == len(body)
		}()
		if !valid {
			p.fail("entity name")
		}
		p.open("declared entity")
	}
	p.i = s + k + 1
}

func colon(b []byte) int {
	if k := bytes.LastIndexByte(b, ':'); k > 0 {
		return k
	}
	return 0
}

func (p *parser) checkName(s, n int) {
	if n > MaxName || colon(p.b[s:s+n]) > MaxPrefix {
		p.open("name too long")
	}
}

// element parses the root element iteratively.
func (p *parser) element() {
	r := p.r
	var stack []int
	for {
		// at '<' of a start tag
		p.i++
		s, n := p.name()
		p.checkName(s, n)
		depth := len(stack)
		if depth > MaxDepth {
			p.open("too deep")
		}
		if depth > 16 {
			r.Feature |= FDeep
		}
		parent := -1
		if depth > 0 {
			parent = stack[depth-1]
		}
		ei := len(r.Elems)
		r.Elems = append(r.Elems, Elem{Tok: len(r.Toks), Parent: parent, Depth: depth, NameOff: s, NameLen: n})
		if parent >= 0 {
			r.Elems[parent].Kids = append(r.Elems[parent].Kids, ei)
		}
		p.tok(Tok{Kind: KStart, Off: s, Len: n, Depth: depth, Pre: colon(p.b[s : s+n])})
		type an struct{ s, n int }
		var attrs []an
		var seen map[string]bool
		closed := false
		for {
			sp := p.ws()
			c := p.peek()
			if c == '>' {
				p.i++
				break
			}
			if c == '/' {
				p.i++
				if p.peek() != '>' {
					p.fail("/ in tag")
				}
				p.i++
				closed = true
				break
			}
			if !sp {
				p.fail("space before attribute")
			}
			as, al := p.name()
			p.checkName(as, al)
			nm := p.b[as : as+al]
			if len(attrs) < 8 {
				for _, a := range attrs {
					if bytes.Equal(p.b[a.s:a.s+a.n], nm) {
						p.fail("duplicate attribute")
					}
				}
			} else {
				if seen == nil {
					seen = map[string]bool{}
					for _, a := range attrs {
						seen[string(p.b[a.s:a.s+a.n])] = true
					}
				}
				if seen[string(nm)] {
					p.fail("duplicate attribute")
				}
				seen[string(nm)] = true
			}
			attrs = append(attrs, an{as, al})
			kind := KAttr
			if string(nm) == "xmlns" || bytes.HasPrefix(nm, []byte("xmlns:")) {
				kind = KNs
				r.Feature |= FNs
			}
			p.tok(Tok{Kind: kind, Off: as, Len: al, Depth: depth, Pre: colon(nm)})
			p.eq()
			q := p.peek()
			if q != '"' && q != '\'' {
				p.fail("quote expected")
			}
			p.i++
			vs := p.i
			for {
				c := p.peek()
				if c == q {
					break
				}
				if c == '<' {
					p.fail("< in attribute value")
				}
				if c == '&' {
					p.reference()
					continue
				}
				p.i++
			}
			if p.i-vs > MaxTok {
				p.open("attribute value too long")
			}
			p.tok(Tok{Kind: KVal, Off: vs, Len: p.i - vs, Depth: depth})
			p.i++
		}
		if len(attrs) > 256 {
			r.Feature |= FManyAttr
		}
		if closed {
			r.Feature |= FSelfClose
			if depth == 0 {
				return
			}
		} else {
			stack = append(stack, ei)
			// a start tag directly followed by its end tag is a leaf: its
			// (possibly empty) white space is recorded
			k := p.i
			for k < len(p.b) && Space(p.b[k]) {
				k++
			}
			if k+1 < len(p.b) && p.b[k] == '<' && p.b[k+1] == '/' {
				r.Feature |= FLeafEmpty
				p.text(KText, p.i, k-p.i, depth)
				p.i = k
			}
		}
		// content up to the next start tag
	content:
		for {
			s := p.i
			p.ws()
			if p.peek() != '<' {
				for p.peek() != '<' {
					switch p.b[p.i] {
					case '&':
						p.reference()
					case ']':
						if p.has("]]>") {
							p.fail("]]> in text")
						}
						p.i++
					default:
						p.i++
					}
				}
				p.text(KText, s, p.i-s, len(stack)-1)
				if len(r.Elems[stack[len(stack)-1]].Kids) > 0 {
					r.Feature |= FMixed
				}
			}
			switch {
			case p.has("</"):
				p.i += 2
				e := &r.Elems[stack[len(stack)-1]]
				nm := p.b[e.NameOff : e.NameOff+e.NameLen]
				if !bytes.HasPrefix(p.b[p.i:], nm) {
					p.fail("end tag does not match")
				}
				p.i += len(nm)
				p.ws()
				if p.peek() != '>' {
					p.fail("end tag does not match")
				}
				p.i++
				stack = stack[:len(stack)-1]
				if len(stack) == 0 {
					return
				}
			case p.has("<!--"):
				p.comment(len(stack) - 1)
			case p.has("<?"):
				p.pi(len(stack) - 1)
			case p.has("<![CDATA["):
				r.Feature |= FCData
				p.i += 9
				k := bytes.Index(p.b[p.i:], []byte("]]>"))
				if k < 0 {
					p.fail("incomplete")
				}
				p.text(KCData, p.i, k, len(stack)-1)
				p.i += k + 3
			case p.has("<!"):
				p.fail("markup in content")
			default:
				break content
			}
		}
	}
}

const (
	Xml1998   = "http://www.w3.org/XML/1998/namespace"
	Xmlns2000 = "http://www.w3.org/2000/xmlns/"
)

func (p *parser) nsOpen(why string) {
	p.r.nsAnyOpen = true
	p.r.NSWhy = why
}

func (p *parser) nsBad(why string) {
	p.r.NS, p.r.NSWhy = NotWF, why
}

// Resolve replaces the references of text that is known to be legal or not:
// ok is false if a reference is malformed, unknown or not wholly inside b.
// The second result is true if the answer depends on the XML version.
func Resolve(b []byte) (out []byte, ok bool, open bool) {
	out = make([]byte, 0, len(b))
	for i := 0; i < len(b); {
		if b[i] != '&' {
			out = append(out, b[i])
			i++
			continue
		}
		k := bytes.IndexByte(b[i:], ';')
		if k < 0 {
			return nil, false, open
		}
		body := string(b[i+1 : i+k])
		var v rune
		if strings.HasPrefix(body, "#") {
			if v, ok = CharRef(body[1:]); !ok {
				return nil, false, open
			}
			if !ValidChar(v) {
				if v >= 1 && v < 0x20 {
					open = true
				} else {
					return nil, false, open
				}
			}
		} else if v, ok = Builtin(body); !ok {
			return nil, false, open
		}
		out = utf8.AppendRune(out, v)
		i += k + 1
	}
	return out, true, open
}

// namespaces decides namespace-well-formedness over the tokens.
func (p *parser) namespaces() {
	r := p.r
	type decl struct {
		prefix, uri string
		depth       int
	}
	var scope []decl
	q := func(t Tok) string { return string(p.b[t.Off : t.Off+t.Len]) }
	split := func(n string) (string, string, bool) {
		k := strings.IndexByte(n, ':')
		if k < 0 {
			return "", n, true
		}
		if k == 0 || k == len(n)-1 || strings.IndexByte(n[k+1:], ':') >= 0 {
			return "", "", false
		}
		// the local part has to be a name of its own
		c, _ := utf8.DecodeRuneInString(n[k+1:])
		if !NameStart(c) {
			return "", "", false
		}
		return n[:k], n[k+1:], true
	}
	find := func(prefix string) (string, bool) {
		if prefix == "xml" {
			return Xml1998, true
		}
		for i := len(scope) - 1; i >= 0; i-- {
			if scope[i].prefix == prefix {
				return scope[i].uri, true
			}
		}
		return "", false
	}
	for ei := range r.Elems {
		e := &r.Elems[ei]
		for len(scope) > 0 && scope[len(scope)-1].depth >= e.Depth {
			scope = scope[:len(scope)-1]
		}
		end := e.Tok + 1
		for end < len(r.Toks) && (r.Toks[end].Kind == KAttr || r.Toks[end].Kind == KNs || r.Toks[end].Kind == KVal) {
			end++
		}
		// declarations first
		for t := e.Tok + 1; t+1 < end; t += 2 {
			if r.Toks[t].Kind != KNs {
				continue
			}
			n, raw := q(r.Toks[t]), r.Toks[t+1]
			val, ok, open := Resolve(blanks(p.b[raw.Off : raw.Off+raw.Len]))
			if !ok || open {
				p.nsOpen("namespace name")
				continue
			}
			uri := string(val)
			prefix := ""
			if n != "xmlns" {
				_, l, isQ := split(n)
				if !isQ {
					p.nsOpen("declared prefix is not a name")
					continue
				}
				prefix = l
			}
			switch {
			case prefix == "xmlns":
				p.nsBad("xmlns prefix declared")
			case prefix == "xml" && uri != Xml1998:
				p.nsBad("xml prefix rebound")
			case prefix != "xml" && uri == Xml1998, uri == Xmlns2000:
				p.nsBad("reserved namespace name")
			case prefix != "" && uri == "":
				p.nsBad("empty namespace name")
			}
			if prefix != "" {
				scope = append(scope, decl{prefix, uri, e.Depth})
			}
		}
		pre, _, isQ := split(q(r.Toks[e.Tok]))
		switch {
		case !isQ:
			p.nsOpen("element name is not a QName")
		case pre == "xmlns":
			p.nsBad("xmlns as element prefix")
		case pre != "":
			if _, ok := find(pre); !ok {
				p.nsBad("element prefix undeclared")
			}
		}
		var seen map[[2]string]bool
		for t := e.Tok + 1; t+1 < end; t += 2 {
			if r.Toks[t].Kind != KAttr {
				continue
			}
			pre, local, isQ := split(q(r.Toks[t]))
			if !isQ {
				p.nsOpen("attribute name is not a QName")
				continue
			}
			if pre == "" {
				continue
			}
			uri, ok := find(pre)
			if !ok {
				p.nsBad("attribute prefix undeclared")
				continue
			}
			k := [2]string{uri, local}
			if seen[k] {
				p.nsBad("expanded attribute names collide")
			}
			if seen == nil {
				seen = map[[2]string]bool{}
			}
			seen[k] = true
		}
	}
}

// blanks gives the white space in an attribute value the form it has for the
// application: each character, and each CR LF pair, becomes one space.
// References are left alone.
func blanks(b []byte) []byte {
	out := make([]byte, 0, len(b))
	for i, c := range b {
		switch c {
		case '\n':
			if i > 0 && b[i-1] == '\r' {
				continue
			}
			c = ' '
		case '\t', '\r':
			c = ' '
		}
		out = append(out, c)
	}
	return out
}

// Lines counts the line of a position: 1 plus the newlines in front of it.
func Line(win []byte, pos int) int {
	if pos > len(win) {
		pos = len(win)
	}
	return 1 + bytes.Count(win[:pos], []byte{'\n'})
}
