package main

import (
	"bytes"
	"fmt"
	"strings"

	"vsim/ref"
)

// genCfg is drawn anew for every document (swarm style): which constructs occur
// and how often.
type genCfg struct {
	decl, bom, doctype, misc, cdata, comment, pi, refs, crlf, nonASCII, tabs bool
	ascii                                                                    bool
	ns                                                                       int // 0 names without meaning, 1 namespace-well-formed, 2 anything
	attrs                                                                    int // mean attributes per element
	elems                                                                    int // number of elements aimed at
	deep                                                                     int // percentage of descending instead of closing
	text                                                                     int // percentage of text after markup
	names                                                                    []string
	long, manyAttr, longName                                                 bool
	pad                                                                      int // bytes of padding text to reach a size class
	huge                                                                     int // length of one huge token, 0 for none
	hugeAt                                                                   int // where it goes
	crowd, crowdAt                                                           int // so many equal siblings, somewhere below this depth
}

const (
	hugeContent = iota // text, comment or CDATA
	hugeAttr
	hugeURI
	hugePi
	hugePiTarget
	hugeDoctype
	hugeComment
)

type docGen struct {
	manyDone bool
	r        *rng
	c        genCfg
	b        []byte
	depth    int
	left     int
	huge0    int
	scope    []nsDecl
	stack    []string
}

type nsDecl struct {
	prefix, uri string
	depth       int
}

var namePool = []string{"a", "b", "ab", "abc", "aa", "x", "xm", "xml1", "xmlnsx", "xmln", "n-1", "n.2", "_u", "A", "item", "e1", "Ab", "c_", "id", "version", "encoding", "cdata", "DOCTYPE", "quot", "amp1"}
var uniPool = []string{"é", "éa", "aé", "日本", "日", "ẞ1", "\U00010000x", "a·", "à́b", "߷", "Ω"}
var prefixPool = []string{"a", "b", "c", "ab", "x", "xm", "xmln", "p1", "aa", "xmlnsx", "zz"}
var uriPool = []string{"u", "v", "urn:x", "http://example.com/a", "http://example.com/b", "http://www.w3.org/2000/xmlns", "http://www.w3.org/XML/1998/namespaceX", "http://www.w3.org/XML/1998/namespac", "http://www.w3.org/2000/xmlns/x", "uv", "http://www.w3.org/1999/xhtml", "http://www.example.com/namespaces/abc",
	"urn:é", "urn:日", "日", "u&v", "u<v>", "u'v", "u\"v", "\U00010000", "é", "U", "u ", "http://www.w3.org/XML/1998/namespace/", "http://www.w3.org/2000/XMLNS/"}

func drawCfg(r *rng) genCfg {
	c := genCfg{}
	c.decl = r.p(40)
	c.bom = r.p(8)
	c.doctype = r.p(12)
	c.misc = r.p(35)
	c.cdata = r.p(35)
	c.comment = r.p(35)
	c.pi = r.p(35)
	c.refs = r.p(50)
	c.crlf = r.p(20)
	c.tabs = r.p(30)
	c.nonASCII = r.p(30)
	if c.decl && !c.bom && r.p(12) {
		c.ascii, c.nonASCII = true, false
	}
	c.long = r.one(25)
	c.attrs = []int{0, 1, 1, 2, 4}[r.n(5)]
	c.elems = []int{1, 2, 3, 5, 8, 13, 30}[r.n(7)]
	c.deep = []int{20, 40, 50, 60, 80}[r.n(5)]
	c.text = []int{0, 20, 50, 80}[r.n(4)]
	k := r.in(2, 6)
	for i := 0; i < k; i++ {
		if c.nonASCII && r.p(40) {
			n := uniPool[r.n(len(uniPool))]
			if r.p(25) {
				n = r.edgeName()
			}
			c.names = append(c.names, n)
		} else {
			n := namePool[r.n(len(namePool))]
			if r.p(6) {
				n = r.oddName()
			}
			c.names = append(c.names, n)
		}
	}
	return c
}

// genDoc writes one well-formed document.
func genDoc(r *rng, c genCfg) []byte {
	g := &docGen{r: r, c: c, left: c.elems}
	g.document()
	return g.b
}

func (g *docGen) w(s string) { g.b = append(g.b, s...) }

func (g *docGen) nl() string {
	if g.c.crlf && g.r.p(60) {
		return g.r.pick("\r\n", "\r", "\r\n")
	}
	return "\n"
}

func (g *docGen) space(min int) {
	n := min
	if g.r.p(25) {
		n += g.r.n(3)
	}
	for i := 0; i < n; i++ {
		switch {
		case g.r.p(70):
			g.w(" ")
		case g.c.tabs && g.r.p(50):
			g.w("\t")
		default:
			g.w(g.nl())
		}
	}
}

func (g *docGen) eq() {
	if g.r.p(15) {
		g.space(0)
	}
	g.w("=")
	if g.r.p(15) {
		g.space(0)
	}
}

func (g *docGen) quote() string {
	if g.r.p(50) {
		return "'"
	}
	return "\""
}

func (g *docGen) document() {
	if g.c.bom {
		g.w("\xEF\xBB\xBF")
	}
	if g.c.decl {
		g.decl()
		if g.r.p(60) {
			g.w(g.nl())
		}
	} else if g.r.p(10) {
		g.space(1)
	}
	g.miscs()
	if g.c.doctype {
		g.doctype()
		g.miscs()
	}
	g.element()
	for len(g.stack) > 0 {
		g.content()
	}
	g.miscs()
}

func (g *docGen) decl() {
	g.w("<?xml")
	// now and then the parts lie far apart, at any distance
	wide := g.r.p(8)
	sp := func() {
		g.space(1)
		if wide && g.r.p(60) {
			for k := g.r.n(g.r.pickN(5, 70)); k > 0; k-- {
				g.w(g.r.pick(" ", " ", "\t", g.nl()))
			}
		}
	}
	sp()
	g.w("version")
	g.eq()
	q := g.quote()
	v := "1.0"
	if g.r.p(15) {
		v = "1.1"
	}
	g.w(q + v + q)
	if g.c.ascii || g.r.p(60) {
		sp()
		g.w("encoding")
		g.eq()
		q := g.quote()
		e := g.r.pick("UTF-8", "utf-8", "Utf-8", "uTF-8")
		if g.c.ascii {
			e = g.r.pick("ascii", "ASCII", "us-ascii", "US-ASCII", "Ascii", "aSCII", "uS-ascii", "Us-ASCII", "AsCii", "us-Ascii", "uS-aScII")
		}
		g.w(q + e + q)
	}
	if g.r.p(30) {
		sp()
		g.w("standalone")
		g.eq()
		q := g.quote()
		g.w(q + g.r.pick("yes", "no") + q)
	}
	if g.r.p(20) {
		sp()
	}
	g.w("?>")
}

func (g *docGen) miscs() {
	if !g.c.misc {
		if g.r.p(10) {
			g.w(g.nl())
		}
		return
	}
	for k := g.r.n(4); k > 0; k-- {
		switch g.r.n(3) {
		case 0:
			g.comment()
		case 1:
			g.pi()
		default:
			g.space(1)
		}
	}
}

func (g *docGen) doctype() {
	r := g.r
	g.w("<!DOCTYPE")
	g.space(1)
	g.w(g.c.names[0])
	lit := func() {
		g.space(1)
		q := g.quote()
		g.w(q + r.pick("a.dtd", "http://x/y", "-//A//B C", "", "x_y") + q)
	}
	switch r.n(4) {
	case 0:
		g.space(1)
		g.w("SYSTEM")
		lit()
	case 1:
		g.space(1)
		g.w("PUBLIC")
		lit()
		lit()
	}
	if r.p(50) || g.c.huge > 0 && g.c.hugeAt == hugeDoctype {
		g.space(1)
		g.w("[")
		if g.takeHuge(hugeDoctype) != "" {
			// the closing bracket and '>' are all that follows
			start := bytes.LastIndex(g.b, []byte("<!DOCTYPE")) + 9
			for n := g.huge0 - (len(g.b) - start) - 1; n > 0; n-- {
				g.b = append(g.b, ' ')
			}
			g.w("]>")
			return
		}
		rich := r.p(40)
		for k := r.n(5); k > 0; k-- {
			g.w(g.nl())
			n := g.c.names[r.n(len(g.c.names))]
			switch {
			case rich:
				g.declare()
			case r.one(3):
				g.w("<!ELEMENT " + n + r.pick(" ANY>", " EMPTY>", " (#PCDATA)>"))
			default:
				g.w("<!ENTITY e" + fmt.Sprint(r.n(9)))
				lit()
				g.w(">")
			}
		}
		g.w("]")
	}
	if r.p(20) {
		g.space(1)
	}
	g.w(">")
}

// declare writes one declaration, comment or processing instruction of an
// internal subset, with all the brackets and quotes that may be in it.
func (g *docGen) declare() {
	r := g.r
	noise := func(avoid string) string {
		var sb strings.Builder
		for k := r.n(6); k > 0; k-- {
			t := r.pick(">", "<", "'", "\"", "]>", "[", "]", "<!", "-->", "?>", "<?", "--", "don't", "a", " ", "<a>", "</a>", "<!--", "é", "日", "-", "?", "!", "\n", "\r\n", "<!DOCTYPE a>", "]]>", "<b")
			if strings.Contains(t, avoid) || strings.Contains(sb.String()+t, avoid) || g.c.ascii && t[0] >= 0x80 {
				t = "x"
			}
			sb.WriteString(t)
		}
		return sb.String()
	}
	quoted := func(bad string) string {
		q := g.quote()
		t := noise(q)
		for i := 0; i < len(bad); i++ {
			t = strings.ReplaceAll(t, bad[i:i+1], "y")
		}
		return q + t + r.pick("", "", "&amp;", "&#65;", "&#x3e;") + q
	}
	sp := func() string { return r.pick(" ", " ", "  ", "\n", "\t") }
	end := func() string { return r.pick("", "", " ") + ">" }
	n := g.c.names[r.n(len(g.c.names))]
	switch r.n(8) {
	case 0:
		t := strings.ReplaceAll(noise("--"), "-->", "x")
		if strings.HasSuffix(t, "-") {
			t += "x"
		}
		g.w("<!--" + t + "-->")
	case 1:
		g.w("<?" + n + "1" + sp() + noise("?>") + "?>")
	case 2:
		g.w("<!ENTITY" + sp() + "e" + fmt.Sprint(r.n(9)) + sp() + quoted("%&") + end())
	case 3:
		g.w("<!ENTITY" + sp() + r.pick("", "% ") + "x" + fmt.Sprint(r.n(9)) + sp() + "SYSTEM" + sp() + quoted("&") + end())
	case 4:
		g.w("<!ENTITY" + sp() + "y" + fmt.Sprint(r.n(9)) + sp() + "PUBLIC" + sp() + "'-//A'" + sp() + quoted("&") + r.pick("", "", " NDATA n") + end())
	case 5:
		g.w("<!ATTLIST" + sp() + n)
		for k := r.n(3); k > 0; k-- {
			g.w(sp() + n + sp() + r.pick("CDATA", "ID", "IDREF", "NMTOKENS", "(a|b)", "( a | 1b )", "NOTATION (n)") + sp())
			g.w(r.pick("#REQUIRED", "#IMPLIED", "#FIXED "+quoted("<&"), quoted("<&")))
		}
		g.w(end())
	case 6:
		g.w("<!NOTATION" + sp() + "n" + fmt.Sprint(r.n(9)) + sp() + r.pick("PUBLIC 'p'", "PUBLIC \"p\" "+quoted("&"), "SYSTEM "+quoted("&")) + end())
	default:
		g.w("<!ELEMENT" + sp() + n + sp() + r.pick("ANY", "EMPTY", "(#PCDATA)", "(#PCDATA)*", "( #PCDATA | a )*", "(a)", "(a,b?)", "(a|(b,c)+)*", "( a , b )?", "((a))") + end())
	}
}

func (g *docGen) chars(max int, avoid string) string {
	var sb strings.Builder
	k := g.r.in(0, max)
	for i := 0; i < k; i++ {
		switch x := g.r.n(20); {
		case x < 8:
			sb.WriteByte("abcdefgxyzABC0123456789._~$%"[g.r.n(28)])
		case x < 10:
			sb.WriteByte(' ')
		case x < 11:
			sb.WriteString(g.nl())
		case x < 12:
			sb.WriteString(g.r.pick("\"", "'", "=", "/", ";", "#", "!", "?", ":", ">", "-", "[", "(", "|", "{", "\x7f"))
		case x < 13:
			sb.WriteString(g.r.pick("]", "]]", ">", "]>", "&", "<", "--", "?>", "<!", "]]", "?", "- -", "</", "<a>", "&amp;", "&#", "]x>"))
		case x < 15 && g.c.nonASCII && g.r.p(15):
			sb.WriteRune(g.r.edgeRune())
		case x < 15 && g.c.nonASCII:
			sb.WriteString(g.r.pick("é", "日本語", "\U0001F600", "߿", "ࠀ", "￼", "\U0010FFFF", "\uFEFF", "\u00A0", "�", "\uFFFD", "\uD7FF", "\uE000"))
		default:
			sb.WriteByte("etaoinshrdlu"[g.r.n(12)])
		}
	}
	s := sb.String()
	for _, a := range strings.Split(avoid, "|") {
		if a != "" {
			s = strings.ReplaceAll(s, a, "~")
		}
	}
	return s
}

func (g *docGen) ref() string {
	r := g.r
	switch r.n(4) {
	case 0, 1:
		return r.pick("&lt;", "&gt;", "&amp;", "&apos;", "&quot;")
	case 2:
		c := g.refChar()
		return fmt.Sprintf(r.pick("&#%d;", "&#0%d;", "&#"+zeros(r)+"%d;"), c)
	default:
		c := g.refChar()
		return fmt.Sprintf(r.pick("&#x%x;", "&#x%X;", "&#x"+zeros(r)+"%x;"), c)
	}
}

// zeros puts digits without a value into a reference, rarely very many.
func zeros(r *rng) string {
	if !r.one(4) {
		return "00"
	}
	return strings.Repeat("0", r.pickN(1, 3, r.n(12), r.n(40), r.n(300)))
}

func (g *docGen) refChar() int {
	return []int{'<', '&', '>', 'A', 'z', '"', '\'', 9, 10, 13, 32, 0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0x65e5, 0xd7ff, 0xe000, 0xfffd, 0x10000, 0x1f600, 0x10ffff, ']'}[g.r.n(24)]
}

func (g *docGen) runText() string {
	var sb strings.Builder
	k := g.r.in(1, 4)
	for i := 0; i < k; i++ {
		if g.c.long && g.r.p(30) {
			sb.WriteString(g.filler())
		}
		if g.c.refs && g.r.p(40) {
			sb.WriteString(g.ref())
		} else {
			sb.WriteString(strings.NewReplacer("&", "+", "<", "_").Replace(g.chars(g.r.pickN(1, 3, 8, 20), "]]>")))
		}
	}
	s := sb.String()
	for strings.Contains(s, "]]>") {
		s = strings.ReplaceAll(s, "]]>", "]] >")
	}
	return s
}

// filler is a long row of letters, so that what comes behind it is far from the
// beginning of its token.
func (g *docGen) filler() string {
	r := g.r
	return strings.Repeat("abcdefgh", r.pickN(5, 9, 17, 33, 65, r.in(5, 300)))[:r.pickN(33, 40, 40-r.n(9))] +
		strings.Repeat("z", r.pickN(0, r.n(9), r.n(100), r.n(1200)))
}

// near is a name of the same length with one other letter.
func (r *rng) near(n string) string {
	b := []byte(n)
	i := r.pickN(0, 1, len(b)/2, len(b)-1, r.n(len(b)))
	if i < 0 || i >= len(b) || b[i] >= 0x80 || b[i] < 'a' {
		return n
	}
	b[i] = "etaoinshrdlu"[r.n(12)]
	return string(b)
}

func (r *rng) pickN(v ...int) int { return v[r.n(len(v))] }

func (g *docGen) text() {
	s := g.runText()
	// a run is joined to the text in front of it
	for len(s) > 0 && len(g.b) >= 2 {
		j := string(g.b[len(g.b)-2:]) + s
		if !strings.HasPrefix(j, "]]>") && !strings.HasPrefix(j[1:], "]]>") {
			break
		}
		s = " " + s
	}
	g.w(s)
}

func (g *docGen) comment() {
	s := g.chars(12, "--")
	for strings.Contains(s, "--") {
		s = strings.ReplaceAll(s, "--", "-")
	}
	if strings.HasSuffix(s, "-") {
		s += " "
	}
	if h := g.takeHuge(hugeComment); h != "" {
		s = h
	}
	g.w("<!--" + s + "-->")
}

func (g *docGen) pi() {
	t := g.c.names[g.r.n(len(g.c.names))]
	if g.r.p(30) {
		t = g.r.pick("p", "x", "xm", "xml-stylesheet", "XmL2", "php", "xmlx", "X", "xmL.")
	}
	if g.c.ns != 0 {
		t = strings.ReplaceAll(t, ":", "")
	}
	if strings.EqualFold(t, "xml") || t == "" || !ref.NameStart([]rune(t)[0]) {
		t = "pi"
	}
	if h := g.takeHuge(hugePiTarget); h != "" {
		t = strings.Repeat("t", len(h))
	}
	g.w("<?" + t)
	if h := g.takeHuge(hugePi); h != "" {
		g.w(" " + h + "?>")
		return
	}
	switch g.r.n(4) {
	case 0:
	case 1:
		g.space(1)
	default:
		g.space(1)
		s := g.chars(12, "?>")
		for strings.Contains(s, "?>") {
			s = strings.ReplaceAll(s, "?>", "?")
		}
		g.w(s)
	}
	g.w("?>")
}

func (g *docGen) rawName() string {
	n := g.c.names[g.r.n(len(g.c.names))]
	if g.c.ns == 0 && g.r.p(8) {
		m := g.c.names[g.r.n(len(g.c.names))]
		n = g.r.pick(n+":"+m, n+":"+m, ":"+n, n+":", n+":"+m+":"+n, "xml:"+n, "xmlns:"+n)
		if strings.HasPrefix(n, "xmlns:") {
			n = "q" + n
		}
	}
	if g.c.long && g.r.p(10) {
		return g.filler()
	}
	if g.c.longName && g.r.p(30) {
		switch g.r.n(4) {
		case 0:
			n = strings.Repeat("n", 2047)
		case 1:
			n = strings.Repeat("p", g.r.pickN(511, 511, 511, 512, 513, 1024)) + ":" + strings.Repeat("q", g.r.pickN(1, 1535))
			if g.c.ns != 0 {
				n = strings.Repeat("n", g.r.in(1000, 2047))
			}
		default:
			n = strings.Repeat("m", g.r.pickN(127, 128, 255, 256, 511, 512, 513, 1023, 1024, 2046))
		}
	}
	return n
}

func (g *docGen) resolve(prefix string) (string, bool) {
	for i := len(g.scope) - 1; i >= 0; i-- {
		if g.scope[i].prefix == prefix {
			return g.scope[i].uri, true
		}
	}
	return "", false
}

type attr struct{ name, val string }

// uriText writes a namespace name, sometimes with references.
func (g *docGen) uriText(u string) string {
	r := g.r
	some := g.c.refs && r.p(25)
	pct := r.pickN(5, 30, 100)
	var sb strings.Builder
	blank := func() string {
		if r.p(40) || strings.HasSuffix(sb.String(), "\r") {
			return " "
		}
		return r.pick("\n", "\t", "\r\n", "\r", "&#32;", "&#x20;")
	}
	for _, c := range u {
		k := r.n(100)
		num := fmt.Sprintf(r.pick("&#%d;", "&#x%x;", "&#x%X;", "&#00%d;"), c)
		switch {
		case c == '&':
			sb.WriteString(r.pick("&amp;", "&amp;", num))
		case c == '<':
			sb.WriteString(r.pick("&lt;", num))
		case c == '"':
			sb.WriteString(r.pick("&quot;", num))
		case c == '\'':
			sb.WriteString(r.pick("&apos;", num))
		case c == ' ':
			sb.WriteString(blank())
		case c < ' ':
			sb.WriteString(num)
		case some && k < pct:
			sb.WriteString(num)
		case c == '>' && r.p(50):
			sb.WriteString("&gt;")
		case g.c.ascii && c >= 0x80:
			sb.WriteString(num)
		default:
			sb.WriteRune(c)
		}
	}
	return sb.String()
}

// twins adds attributes of one local name under two prefixes. Their namespace
// names are the same, differently written, or almost the same.
func (g *docGen) twins(d int, add func(n, v string) bool) {
	r := g.r
	var sb strings.Builder
	for i := r.in(1, 6); i > 0; i-- {
		sb.WriteString(r.pick("u", "v", ":", "/", "a", "A", "&", "<", ">", "\"", "'", ";", "#", "é", "É", "日", "本", "\U00010000", "\U00010001", "x", "0", " ", " ", "\n", "\t", "\r", "amp;", "&amp;", "\u00a0", "\u0160"))
	}
	u := sb.String()
	if r.one(6) {
		u = r.pick(g.filler(), "") + u + r.pick(g.filler(), "")
	}
	u2 := u
	if g.c.ns == 1 || r.p(50) {
		l := []rune(u)
		i := r.n(len(l))
		switch r.n(5) {
		case 0:
			l = append(l, []rune(r.pick("u", "&", "é", ";", "/"))...)
		case 1:
			l = append(l[:i:i], l[i+1:]...)
		case 2:
			l[i] ^= 1 // the neighbour in the code
			if !ref.ValidChar(l[i]) {
				l[i] = 'w'
			}
		case 3:
			l[i] ^= 0x20
			if !ref.ValidChar(l[i]) {
				l[i] = 'w'
			}
		case 4:
			l[i] = []rune(r.pick("&", "\"", "'", "<", ">", "é", "日", "z"))[0]
		}
		u2 = string(l)
	}
	if u2 == "" || g.c.ns == 1 && u2 == u {
		return
	}
	p1, p2 := r.pick("a", "p", "tw1"), r.pick("b", "q", "tw2")
	local := g.rawName()
	if !add("xmlns:"+p1, g.uriText(u)) {
		return
	}
	g.scope = append(g.scope, nsDecl{p1, u, d})
	if !add("xmlns:"+p2, g.uriText(u2)) {
		return
	}
	g.scope = append(g.scope, nsDecl{p2, u2, d})
	add(p1+":"+local, "")
	add(p2+":"+local, "")
}

// oddName is a name close to the two reserved ones, of any length.
func (r *rng) oddName() string {
	n := r.pick("xml", "xmlns", "xm", "XML", "xmlNS", "x")
	for k := r.n(8); k > 0; k-- {
		n += r.pick("a", "l", "n", "s", "x", "0", "-", "_")
	}
	if n == "xml" || n == "xmlns" {
		n += "a"
	}
	return n
}

// edges are the first and last characters of the classes of XML.
var edges = []rune{'9', ':', 'A', 'Z', '_', 'a', 'z', '-', '.', '0', 0x20, 0x7F, 0xB7, 0xC0, 0xD6, 0xD8, 0xF6, 0xF8, 0x2FF, 0x300,
	0x36F, 0x370, 0x37D, 0x37F, 0x1FFF, 0x200C, 0x200D, 0x203F, 0x2040, 0x2070, 0x218F, 0x2C00, 0x2FEF, 0x3001, 0xD7FF, 0xE000,
	0xF900, 0xFDCF, 0xFDF0, 0xFFFD, 0x10000, 0xEFFFF, 0x10FFFF}

// edgeRune is a valid character at or beside the end of a class.
func (r *rng) edgeRune() rune {
	for {
		c := edges[r.n(len(edges))]
		if r.p(50) {
			c += rune(r.in(-1, 1))
		}
		if c > 0x7F && ref.ValidChar(c) {
			return c
		}
	}
}

// strayRune is mostly one that no name contains.
func (r *rng) strayRune() rune {
	c := r.edgeRune()
	for k := 0; k < 20 && ref.NameChar(c); k++ {
		c = r.edgeRune()
		if r.one(10) {
			break
		}
	}
	return c
}

// edgeName is a name of such characters.
func (r *rng) edgeName() string {
	n := "a"
	if r.p(70) {
		n = string(r.edgeRune())
	}
	for r.p(60) {
		n += string(r.edgeRune())
	}
	for i, c := range n {
		if i == 0 && !ref.NameStart(c) || !ref.NameChar(c) {
			return r.edgeName()
		}
	}
	return n
}

func (r *rng) prefixName() string {
	if r.p(12) {
		return r.oddName()
	}
	if r.p(2) {
		return strings.Repeat("p", r.pickN(20, 127, 128, 255, 256, 300, 511))
	}
	return prefixPool[r.n(len(prefixPool))]
}

func (g *docGen) element() {
	r := g.r
	d := len(g.stack)
	if g.left > 0 {
		g.left--
	}
	for len(g.scope) > 0 && g.scope[len(g.scope)-1].depth >= d {
		g.scope = g.scope[:len(g.scope)-1]
	}
	var attrs []attr
	used := map[string]bool{}
	add := func(n, v string) bool {
		if used[n] {
			return false
		}
		used[n] = true
		attrs = append(attrs, attr{n, v})
		return true
	}
	k := 0
	if g.c.attrs > 0 {
		k = r.n(2*g.c.attrs + 1)
	}
	val := func() string {
		var sb strings.Builder
		for i := r.n(3); i > 0; i-- {
			if g.c.long && r.p(30) {
				sb.WriteString(g.filler())
			}
			if g.c.refs && r.p(35) {
				sb.WriteString(g.ref())
			} else {
				sb.WriteString(strings.NewReplacer("&", "+", "<", "_").Replace(g.chars(8, "")))
			}
		}
		return sb.String()
	}
	name := g.rawName()
	if g.c.ns == 0 {
		for i := 0; i < k; i++ {
			n := g.rawName()
			if r.p(10) {
				n = r.pick("xmlns", "xmlns:a", "xml:lang", "xmlns:b", "xml:space", "x", "xm", "xml", "xmln", "xmlnsa", "xmlns.a")
			}
			add(n, val())
		}
	} else {
		// declarations
		decls := 0
		if d == 0 || r.p(40) {
			decls = r.n(4)
		}
		for i := 0; i < decls; i++ {
			p := r.prefixName()
			u := uriPool[r.n(len(uriPool))]
			switch r.n(12) {
			case 0, 1, 2:
				add("xmlns", g.uriText(r.pick(u, u, "")))
				continue
			case 3:
				add("xmlns:xml", g.uriText(ref.Xml1998))
				continue
			}
			if g.c.ns == 2 && r.p(6) {
				switch r.n(7) {
				case 0:
					u = ""
				case 1:
					u = ref.Xml1998
				case 2:
					u = ref.Xmlns2000
				case 3:
					p = "xmlns"
				case 4:
					p, u = "xml", r.pick(ref.Xmlns2000, "u")
				case 5:
					add("xmlns", g.uriText(r.pick(ref.Xml1998, ref.Xmlns2000)))
					continue
				case 6:
					u += r.pick("&", "x", " ")
				}
			}
			if add("xmlns:"+p, g.uriText(u)) {
				g.scope = append(g.scope, nsDecl{p, u, d})
			}
		}
		prefix := func() string {
			if len(g.scope) > 0 && r.p(70) {
				return g.scope[r.n(len(g.scope))].prefix
			}
			if r.p(20) {
				return "xml"
			}
			return ""
		}
		wild := func(p string) string {
			if g.c.ns == 2 && r.p(4) {
				return r.pick(prefixPool[r.n(len(prefixPool))], "xmlns", "xm", "xmlx", r.oddName(), r.oddName())
			}
			return p
		}
		if p := wild(prefix()); p != "" {
			name = p + ":" + name
		}
		expanded := map[string]bool{}
		for i := 0; i < k; i++ {
			local := g.rawName()
			p := prefix()
			if g.c.ns == 2 {
				p = wild(p)
			}
			if p == "" {
				if local == "xmlns" {
					local = "y"
				}
				add(local, val())
				continue
			}
			if p == "xmlns" && g.c.ns == 1 {
				continue
			}
			u, ok := g.resolve(p)
			if p == "xml" {
				u, ok = ref.Xml1998, true
			}
			key := u + " " + local
			if g.c.ns == 1 && (!ok || expanded[key]) {
				continue
			}
			if expanded[key] && r.p(70) {
				continue
			}
			if add(p+":"+local, val()) {
				expanded[key] = true
			}
		}
	}
	if g.c.ns != 0 && r.p(9) {
		g.twins(d, add)
	}
	if g.c.long && r.p(40) {
		n := g.filler()
		for k := r.in(1, 4); k > 0; k-- {
			add(n, val())
			n = r.near(n)
		}
	}
	if g.c.manyAttr && r.p(40) {
		m := r.pickN(250, 255, 256, 257, 258, 300, 520)
		if !g.manyDone && r.p(8) {
			m = r.in(500, 2500)
			g.manyDone = true
		}
		p := ""
		if g.c.ns != 0 && len(g.scope) > 0 && r.p(60) {
			p = g.scope[len(g.scope)-1].prefix + ":"
		}
		for i := len(attrs); i < m; i++ {
			add(fmt.Sprintf("%sm%d", p, i), "")
		}
	}
	if h := g.takeHuge(hugeAttr); h != "" {
		h = strings.NewReplacer("<", "_", "&", "+").Replace(h)
		if r.p(30) {
			h = "&amp;" + h[5:]
		}
		add("huge", h)
	}
	if h := g.takeHuge(hugeURI); h != "" {
		add("xmlns:huge", h)
	}
	// order is part of the input
	for i := len(attrs) - 1; i > 0; i-- {
		j := r.n(i + 1)
		attrs[i], attrs[j] = attrs[j], attrs[i]
	}
	g.w("<" + name)
	for _, a := range attrs {
		g.space(1)
		g.w(a.name)
		g.eq()
		q := g.quote()
		v := strings.ReplaceAll(a.val, q, map[string]string{"'": "\"", "\"": "'"}[q])
		g.w(q + v + q)
	}
	if r.p(15) {
		g.space(1)
	}
	if d > 0 && r.p(20) || d == 0 && (g.left == 0 && r.p(30)) {
		g.w("/>")
		return
	}
	g.w(">")
	if d > ref.MaxDepth {
		panic("generator went too deep")
	}
	g.stack = append(g.stack, name)
}

func (g *docGen) content() {
	r := g.r
	if r.p(g.c.text) {
		if r.p(30) {
			g.space(1)
		} else {
			g.text()
		}
	}
	if g.c.pad > 0 && len(g.b) < g.c.pad && r.p(10) {
		g.w(strings.Repeat("padding ", 1+r.n(1+g.c.pad/200)))
	}
	if g.c.huge > 0 && g.c.hugeAt == hugeContent && r.p(30) {
		g.hugeToken()
	}
	if g.c.crowd > 0 && len(g.stack) > g.c.crowdAt && r.p(20) {
		g.w(strings.Repeat(r.pick("<e/>", "<e/>", "<e></e>", "<e>x</e>", "<e><f/></e>"), g.c.crowd))
		g.c.crowd = 0
	}
	if g.c.comment && r.p(12) {
		g.comment()
	}
	if g.c.cdata && r.p(12) {
		s := g.chars(14, "]]>")
		for strings.Contains(s, "]]>") {
			s = strings.ReplaceAll(s, "]]>", "]] >")
		}
		if r.p(20) {
			s += r.pick("]", "]]")
		}
		if !strings.Contains(s+"]]>", "]]>]") && strings.Index(s+"]]>", "]]>") == len(s) {
			g.w("<![CDATA[" + s + "]]>")
		}
	}
	if g.c.pi && r.p(12) {
		g.pi()
	}
	if g.left > 0 {
		if len(g.stack) < ref.MaxDepth+1 && (len(g.stack) == 1 || r.p(g.c.deep)) {
			// the depth of the new element is len(stack)
			if len(g.stack) <= ref.MaxDepth {
				g.element()
				return
			}
		}
	}
	if len(g.stack) == 1 && g.left > 0 && r.p(90) {
		return
	}
	n := g.stack[len(g.stack)-1]
	g.stack = g.stack[:len(g.stack)-1]
	for len(g.scope) > 0 && g.scope[len(g.scope)-1].depth >= len(g.stack) {
		g.scope = g.scope[:len(g.scope)-1]
	}
	g.w("</" + n)
	if r.p(12) {
		g.space(1)
	}
	g.w(">")
	if len(g.stack) == 1 && r.p(20) {
		g.w(g.nl())
	}
}

// takeHuge is the filling of the huge token when this is the place for it.
func (g *docGen) takeHuge(at int) string {
	if g.c.huge == 0 || g.c.hugeAt != at {
		return ""
	}
	return g.hugeFill()
}

func (g *docGen) hugeFill() string {
	n := g.c.huge
	g.c.huge, g.huge0 = 0, n
	unit := "0123456789abcde\n"
	if g.c.nonASCII {
		unit = "0123456789é日\n "
	}
	fill := strings.Repeat(unit, n/len(unit)+1)[:n]
	fill = strings.ToValidUTF8(fill, "")
	for len(fill) < n {
		fill += "z"
	}
	return fill
}

func (g *docGen) hugeToken() {
	fill := g.hugeFill()
	n := len(fill)
	switch g.r.n(5) {
	case 0:
		g.w("<!--" + fill + "-->")
	case 1:
		g.w("<![CDATA[" + fill + "]]>")
	case 2:
		// a reference across the place where the text is split
		f := []byte(fill)
		if n > ref.MaxTok+8 {
			copy(f[ref.MaxTok-g.r.n(6):], "&amp;")
		}
		if s := strings.ToValidUTF8(string(f), ""); len(s) == n {
			fill = s
		}
		g.w(fill)
	default:
		g.w(fill)
	}
	if n > ref.MaxTok && g.r.p(40) {
		g.w("<!-- behind -->")
		g.w(strings.Repeat("x", g.r.pickN(1, 10, 100)))
	}
}

// genAny draws a document for general use: mostly small, sometimes of another
// size class or shape.
func genAny(r *rng, big bool) []byte {
	if r.one(150) {
		return atLimit(r)
	}
	c := drawCfg(r)
	return genDoc(r, shape(r, c, big))
}

// atLimit is a document with one thing exactly as large as it may be, or larger.
func atLimit(r *rng) []byte {
	rep := strings.Repeat
	inner := r.pick("", "t", "<b/>", " ", "&#65;", "<b c='d'>e</b><b/>")
	over := r.pickN(0, 0, 1, 1, 2, 50)
	name := func() string {
		switch r.n(3) {
		case 0:
			return rep("n", 2047+over)
		case 1:
			return rep("p", 511+over) + ":" + r.pick("q", rep("q", 1535-over))
		}
		return rep("p", 511-r.n(3)) + ":" + rep("q", 1535+over)
	}
	switch r.n(4) {
	case 0, 1:
		n := ref.MaxDepth + 1 + over - b2i(strings.Contains(inner, "<b"))
		e := r.pick("a", "e1", "xy:z", "é")
		mid := r.pick("", "", "\n", "t", "<f/>")
		return []byte(rep("<"+e+">"+mid, n) + inner + rep("</"+e+">", n))
	case 2:
		n := name()
		if r.p(50) {
			return []byte("<" + n + ">" + inner + "</" + n + ">")
		}
		return []byte("<a><" + n + " b='" + r.pick("", "v") + "'/>" + inner + "</a>")
	}
	n := r.pick("", "xmlns:") + name()
	if strings.HasPrefix(n, "xmlns:") {
		n = strings.Replace(n, "ppppp:", "ppppp", 1)
		n = n[:len(n)-6]
	}
	return []byte("<a b='c' " + n + "='u'>" + inner + "</a>")
}

func shape(r *rng, c genCfg, big bool) genCfg {
	switch r.n(40) {
	case 0:
		c.manyAttr = true
		c.elems = r.in(1, 4)
	case 1:
		c.longName = true
		c.elems = r.in(1, 6)
	case 2, 3:
		c.deep, c.elems = 97, r.in(20, 60)
		if r.one(6) {
			c.elems = 300
			c.deep = 100
			c.attrs = r.pickN(0, 0, 1)
		}
	case 4, 5, 6:
		c.elems = r.in(40, 150) // several index pages
		c.deep = r.pickN(20, 35, 50, 70)
		c.attrs = r.n(2)
	}
	if big && r.one(10) {
		c.crowd, c.crowdAt = r.pickN(300, 600, 1100, 2100, 4100), r.n(4)
	}
	if big {
		switch r.n(14) {
		case 0, 1, 2, 3:
			c.pad = r.pickN(1000, 1024, 1025, 3000, 4096, 4097)
			c.elems = r.in(10, 120)
		case 4, 5:
			c.pad = r.pickN(16000, 16385, 20000)
			c.elems = r.in(50, 800)
			c.deep = r.pickN(20, 35, 50)
		case 6:
			c.pad = r.pickN(65537, 70000)
			c.elems = r.in(100, 3000)
			c.deep = r.pickN(20, 35, 50)
		case 7:
			if r.one(2) {
				c.pad = 262145
				c.elems = r.in(100, 6000)
				c.deep = r.pickN(20, 35)
			}
		case 8:
			if r.one(2) {
				c.huge = r.pickN(ref.MaxTok-1, ref.MaxTok, ref.MaxTok+1, ref.MaxTok+5, 2*ref.MaxTok-1, 2*ref.MaxTok, 2*ref.MaxTok+1, 3*ref.MaxTok)
				c.elems = r.in(2, 6)
				if r.p(65) {
					c.hugeAt = r.in(hugeAttr, hugeComment)
					c.huge = r.pickN(ref.MaxTok-1, ref.MaxTok, ref.MaxTok, ref.MaxTok, ref.MaxTok+1, 1<<20+1, 2*ref.MaxTok)
					switch c.hugeAt {
					case hugePi, hugePiTarget:
						c.misc, c.pi = true, true
					case hugeDoctype:
						c.doctype = true
					case hugeComment:
						c.misc, c.comment = true, true
					}
				}
			}
		}
	}
	return c
}
