package ref

import (
	"bytes"
	"strings"
	"unicode/utf8"
)

// dtdEnd finds the '>' that ends a document type declaration whose content
// begins at i: the brackets of declarations inside are balanced; quoted
// literals, comments and processing instructions hide the brackets and quotes
// in them.
func (p *parser) dtdEnd() {
	until := func(s string) {
		k := bytes.Index(p.b[p.i:], []byte(s))
		if k < 0 {
			p.fail("incomplete")
		}
		p.i += k + len(s)
	}
	for z := 1; z > 0; {
		c := p.peek()
		p.i++
		switch {
		case c == '<' && p.has("!--"):
			p.i += 3
			until("-->")
		case c == '<' && p.has("?"):
			p.i++
			until("?>")
		case c == '<':
			z++
		case c == '>':
			z--
		case c == '"' || c == '\'':
			until(string(c))
		}
	}
}

// dtd checks the content of a document type declaration, from behind
// "<!DOCTYPE" to its closing '>', against the grammar of XML 1.0. It gives up
// (open) on parameter entity references and on what depends on declarations.
type dtd struct {
	*parser
	open bool // well-formedness depends on more than the grammar
	ns   bool // might bear on namespaces
}

func checkDtd(b []byte) (ok, open, ns bool) {
	d := &dtd{parser: &parser{b: b, r: &Result{}}}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, is := e.(stop); !is {
					panic(e)
				}
			}
		}()
		d.all()
		ok = d.i == len(b)
	}()
	return ok, d.open, d.ns
}

func (d *dtd) need(s string) {
	if !d.has(s) {
		d.fail(s + " expected")
	}
	d.i += len(s)
}

func (d *dtd) opt(s string) bool {
	if !d.has(s) {
		return false
	}
	d.i += len(s)
	return true
}

func (d *dtd) needWs() {
	if !d.ws() {
		d.fail("space expected")
	}
}

func (d *dtd) nm() string {
	s, n := d.name()
	v := string(d.b[s : s+n])
	if strings.Contains(v, ":") {
		d.ns = true
	}
	return v
}

func (d *dtd) nmtoken() {
	s := d.i
	for d.i < len(d.b) {
		c, n := utf8.DecodeRune(d.b[d.i:])
		if !NameChar(c) {
			break
		}
		d.i += n
	}
	if d.i == s {
		d.fail("name token expected")
	}
}

func (d *dtd) all() {
	d.needWs()
	d.nm()
	if d.i == len(d.b) {
		return
	}
	sp := d.ws()
	if sp && (d.has("SYSTEM") || d.has("PUBLIC")) {
		d.externalID(false)
		d.ws()
	}
	if d.i < len(d.b) && d.opt("[") {
		d.subset()
		d.ws()
	}
}

func (d *dtd) externalID(publicOnly bool) {
	if d.opt("SYSTEM") {
		d.needWs()
		d.quoted()
		return
	}
	d.need("PUBLIC")
	d.needWs()
	s, n := d.quoted()
	for _, c := range d.b[s : s+n] {
		ok := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' ||
			strings.IndexByte(" \r\n-'()+,./:=?;!*#@$_%", c) >= 0
		if !ok {
			d.fail("public identifier")
		}
	}
	if publicOnly {
		k := d.i
		if d.ws() && (d.peek() == '"' || d.peek() == '\'') {
			d.quoted()
		} else {
			d.i = k
		}
		return
	}
	d.needWs()
	d.quoted()
}

func (d *dtd) subset() {
	for {
		d.ws()
		switch {
		case d.opt("]"):
			return
		case d.opt("<!--"):
			k := bytes.Index(d.b[d.i:], []byte("--"))
			if k < 0 {
				d.fail("incomplete")
			}
			d.i += k
			d.need("-->")
		case d.has("<!ELEMENT"):
			d.element()
		case d.has("<!ATTLIST"):
			d.attlist()
		case d.has("<!ENTITY"):
			d.entity()
		case d.opt("<!NOTATION"):
			d.needWs()
			d.nm()
			d.needWs()
			d.externalID(true)
			d.ws()
			d.need(">")
		case d.opt("<?"):
			if strings.EqualFold(d.nm(), "xml") {
				d.fail("reserved PI target")
			}
			if !d.opt("?>") {
				d.needWs()
				k := bytes.Index(d.b[d.i:], []byte("?>"))
				if k < 0 {
					d.fail("incomplete")
				}
				d.i += k + 2
			}
		case d.opt("%"):
			d.nm()
			d.need(";")
			d.open = true
		default:
			d.fail("declaration expected")
		}
	}
}

func (d *dtd) element() {
	d.i += len("<!ELEMENT")
	d.needWs()
	d.nm()
	d.needWs()
	if !d.opt("EMPTY") && !d.opt("ANY") {
		s := d.i
		d.need("(")
		d.ws()
		if d.opt("#PCDATA") {
			n := 0
			for d.ws(); d.opt("|"); d.ws() {
				d.ws()
				d.nm()
				n++
			}
			d.need(")")
			if !d.opt("*") && n > 0 {
				d.fail("* expected")
			}
		} else {
			d.i = s
			d.cp(0)
		}
	}
	d.ws()
	d.need(">")
}

func (d *dtd) cp(depth int) {
	if depth > 200 {
		d.open = true
		d.fail("too deep")
	}
	if d.opt("(") {
		sep := ""
		for {
			d.ws()
			d.cp(depth + 1)
			d.ws()
			if d.opt(")") {
				break
			}
			c := string(d.peek())
			if c != "|" && c != "," || sep != "" && c != sep {
				d.fail("content model")
			}
			sep = c
			d.i++
		}
	} else if depth == 0 {
		d.fail("( expected")
	} else {
		d.nm()
	}
	if !d.opt("?") && !d.opt("*") {
		d.opt("+")
	}
}

func (d *dtd) attlist() {
	d.ns = true // defaults and types of declarations
	d.i += len("<!ATTLIST")
	d.needWs()
	d.nm()
	for {
		sp := d.ws()
		if d.opt(">") {
			return
		}
		if !sp {
			d.fail("space expected")
		}
		d.nm()
		d.needWs()
		d.attType()
		d.needWs()
		if d.opt("#REQUIRED") || d.opt("#IMPLIED") {
			continue
		}
		if d.opt("#FIXED") {
			d.needWs()
		}
		s, n := d.quoted()
		v := d.b[s : s+n]
		if bytes.IndexByte(v, '<') >= 0 {
			d.fail("< in attribute value")
		}
		d.refs(v, true)
	}
}

func (d *dtd) attType() {
	group := func(item func()) {
		d.need("(")
		for {
			d.ws()
			item()
			d.ws()
			if d.opt(")") {
				return
			}
			d.need("|")
		}
	}
	if d.has("(") {
		group(d.nmtoken)
		return
	}
	switch d.nm() {
	case "CDATA", "ID", "IDREF", "IDREFS", "ENTITY", "ENTITIES", "NMTOKEN", "NMTOKENS":
	case "NOTATION":
		d.needWs()
		group(func() { d.nm() })
	default:
		d.fail("attribute type")
	}
}

func (d *dtd) entity() {
	d.i += len("<!ENTITY")
	d.needWs()
	pe := d.opt("%")
	if pe {
		d.needWs()
	}
	if _, is := Builtin(d.nm()); is && !pe {
		d.open = true
	}
	d.needWs()
	if d.has("SYSTEM") || d.has("PUBLIC") {
		d.externalID(false)
		sp := d.ws()
		if !pe && d.has("NDATA") {
			if !sp {
				d.fail("space expected")
			}
			d.i += 5
			d.needWs()
			d.nm()
		}
	} else {
		s, n := d.quoted()
		v := d.b[s : s+n]
		if bytes.IndexByte(v, '%') >= 0 {
			d.fail("parameter entity reference inside a declaration")
		}
		d.refs(v, false)
	}
	d.ws()
	d.need(">")
}

// refs checks the references in a literal.
func (d *dtd) refs(v []byte, expanded bool) {
	for {
		k := bytes.IndexByte(v, '&')
		if k < 0 {
			return
		}
		v = v[k+1:]
		k = bytes.IndexByte(v, ';')
		if k < 0 {
			d.fail("reference not terminated")
		}
		body := string(v[:k])
		v = v[k+1:]
		if strings.HasPrefix(body, "#") {
			c, ok := CharRef(body[1:])
			if !ok {
				d.fail("character reference")
			}
			if !ValidChar(c) {
				d.open = true // may be legal in XML 1.1
			}
			continue
		}
		q := &dtd{parser: &parser{b: []byte(body), r: &Result{}}}
		q.nm()
		if q.i != len(body) {
			d.fail("entity name")
		}
		d.ns = d.ns || q.ns
		if _, ok := Builtin(body); !ok && expanded {
			d.open = true
		}
	}
}
