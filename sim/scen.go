package main

import (
	"bytes"
	"compress/flate"
	"encoding/base64"
	"encoding/json"
	"io"

	"vsim/ref"
)

// Blob is a byte string kept compressed and in base64 in replay files.
type Blob []byte

func (b Blob) MarshalJSON() ([]byte, error) {
	printable := len(b) < 4096
	for _, c := range b {
		if c < 0x20 && c != '\n' && c != '\t' && c != '\r' || c > 0x7E {
			printable = false
			break
		}
	}
	if printable {
		return json.Marshal("t:" + string(b))
	}
	if len(b) < 200 {
		return json.Marshal("b:" + base64.StdEncoding.EncodeToString(b))
	}
	var z bytes.Buffer
	w, _ := flate.NewWriter(&z, 9)
	_, _ = w.Write(b)
	_ = w.Close()
	return json.Marshal("z:" + base64.StdEncoding.EncodeToString(z.Bytes()))
}

func (b *Blob) UnmarshalJSON(j []byte) error {
	var s string
	if err := json.Unmarshal(j, &s); err != nil {
		return err
	}
	if len(s) < 2 {
		*b = nil
		return nil
	}
	switch s[:2] {
	case "t:":
		*b = Blob(s[2:])
		return nil
	}
	raw, err := base64.StdEncoding.DecodeString(s[2:])
	if err != nil {
		return err
	}
	if s[:2] == "z:" {
		raw, err = io.ReadAll(flate.NewReader(bytes.NewReader(raw)))
	}
	*b = raw
	return err
}

// StoreFault is something the simulated disk did to a document between the
// producer's write and the consumer's read.
type StoreFault struct {
	Kind string // cut flip set zero lost dup swap stale insert grow
	At   int
	N    int  `json:",omitempty"` // length of the sector
	To   int  `json:",omitempty"` // other sector (swap), destination (dup)
	Val  Blob `json:",omitempty"` // bytes that replace or are inserted
}

// Doc is one document on the simulated store.
type Doc struct {
	Orig   Blob
	Faults []StoreFault `json:",omitempty"`
	Pre    Blob         `json:",omitempty"` // what lies in front of the window in the array handed over
	Post   Blob         `json:",omitempty"` // and behind it
	Huge   int          `json:",omitempty"` // window offset in a sparse giant array, instead of Pre
}

// SeamFault makes the Nth operation (from 1) of a kind in one phase of an
// attempt fail or ends the attempt there.
type SeamFault struct {
	Phase string // parse nav
	Seam  string // component.method
	Nth   int
	Kind  string // error, sticky (this and all later ones), crash
}

// NavOp is one operation of a client of a finished index.
type NavOp struct {
	Op string // move, raw, str, rawr, strr, tok, edit, again (Parse once more), fork (another navigator of the parser), move2 (moves that one)
	A  int    `json:",omitempty"`
	B  int    `json:",omitempty"`
}

type Attempt struct {
	Doc    int
	Shared int         `json:",omitempty"` // 1+index into Setup: use that finished index instead of parsing
	Ns     bool        `json:",omitempty"`
	Lc     int         `json:",omitempty"`
	Whole  bool        `json:",omitempty"` // hand over with WithXmlDoc (no surroundings)
	Reuse  bool        `json:",omitempty"`
	Win    []int       `json:",omitempty"` // explicit window instead of the right one
	NilDoc bool        `json:",omitempty"`
	Again  int         `json:",omitempty"` // further Parse calls
	Nav    bool        `json:",omitempty"` // obtain a navigator and dump the index
	Ops    []NavOp     `json:",omitempty"`
	Faults []SeamFault `json:",omitempty"`
}

// Task is one client: attempts made one after the other, as after restarts.
type Task struct {
	Attempts []Attempt
}

// Slice of the schedule: task T runs for Q seam operations.
type Slice struct {
	T int
	Q int
}

type Scenario struct {
	Prop      string
	Seed      uint64
	Run       uint64
	Docs      []Doc     `json:",omitempty"`
	Setup     []Attempt `json:",omitempty"`
	Tasks     []Task    `json:",omitempty"`
	Sched     []Slice   `json:",omitempty"`
	SchedGen  uint64    `json:",omitempty"` // draw the schedule from this seed when Sched is empty
	SchedMean int       `json:",omitempty"`
	RealChars bool      `json:",omitempty"` // do not use the character table cache
	Recycle   bool      `json:",omitempty"` // each task reads all its documents into one piece of memory
	Bare      bool      `json:",omitempty"` // no seams inside: tasks take turns between calls, components do not fail
	Cold      bool      `json:",omitempty"` // the first thing the process does with the library
	Probe     int       `json:",omitempty"` // C06: 1 + sentinel looked at afterwards
	Fresh     int       `json:",omitempty"` // 1+task whose results are compared with those of a new process
	Protect   bool      `json:",omitempty"` // documents in write-protected memory
	Streams   string    `json:",omitempty"`
	Buf       *BufScen  `json:",omitempty"`
	Rd        *RdScen   `json:",omitempty"`
	Note      string    `json:",omitempty"`
}

// apply performs the storage faults on the written bytes and returns what is
// delivered and the position of the first byte that differs (-1 if none).
func (d *Doc) apply() ([]byte, int) {
	b := append([]byte(nil), d.Orig...)
	for _, f := range d.Faults {
		b = f.apply(b)
	}
	return b, firstDiff(d.Orig, b)
}

func firstDiff(a, b []byte) int {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			return i
		}
	}
	if len(a) != len(b) {
		return n
	}
	return -1
}

func clamp(v, lo, hi int) int {
	if v < lo {
		return lo
	}
	if v > hi {
		return hi
	}
	return v
}

func (f StoreFault) apply(b []byte) []byte {
	at := clamp(f.At, 0, len(b))
	end := clamp(at+f.N, at, len(b))
	switch f.Kind {
	case "cut":
		return b[:at]
	case "flip":
		if at < len(b) {
			b[at] ^= 1 << (uint(f.N) & 7)
		}
	case "set", "stale":
		copy(b[at:], f.Val)
	case "zero":
		for i := at; i < end; i++ {
			b[i] = 0
		}
	case "lost":
		return append(b[:at:at], b[end:]...)
	case "insert":
		return append(append(append([]byte(nil), b[:at]...), f.Val...), b[at:]...)
	case "field":
		// a field rewritten with another value
		return append(append(append([]byte(nil), b[:at]...), f.Val...), b[end:]...)
	case "dup":
		to := clamp(f.To, 0, len(b))
		sec := append([]byte(nil), b[at:end]...)
		return append(append(append([]byte(nil), b[:to]...), sec...), b[to:]...)
	case "over":
		// sector written a second time over another place
		to := clamp(f.To, 0, len(b))
		sec := append([]byte(nil), b[at:end]...)
		copy(b[to:], sec)
	case "swap":
		// two sectors, possibly of different length, exchanged
		to := clamp(f.To, end, len(b))
		n2 := len(f.Val) // length of the second sector
		te := clamp(to+n2, to, len(b))
		out := append([]byte(nil), b[:at]...)
		out = append(out, b[to:te]...)
		out = append(out, b[end:to]...)
		out = append(out, b[at:end]...)
		return append(out, b[te:]...)
	case "grow":
		return append(b, f.Val...)
	}
	return b
}

// recordBounds are the places where a producer that appends markup item by
// markup item ends one write and starts the next.
func recordBounds(b []byte) []int {
	out := []int{0}
	for i := 0; i < len(b); i++ {
		switch b[i] {
		case '<':
			if out[len(out)-1] != i {
				out = append(out, i)
			}
		case '>':
			out = append(out, i+1)
		case ' ':
			if i > 0 && (b[i-1] == '"' || b[i-1] == '\'') {
				out = append(out, i)
			}
		}
	}
	if out[len(out)-1] != len(b) {
		out = append(out, len(b))
	}
	return out
}

const significant = "<>&;\"'=/?!-[]: \n\r\t#x0aA9:."

// genFaults draws what the store does to the document. The chance of 1, 2, 3…
// faults falls; positions are sector starts, record bounds or any byte.
func genFaults(r *rng, orig []byte, kinds []string) []StoreFault {
	var fs []StoreFault
	k := 1
	for k < 4 && r.p(18) {
		k++
	}
	b := append([]byte(nil), orig...)
	for ; k > 0; k-- {
		f := genFault(r, b, kinds)
		fs = append(fs, f)
		b = f.apply(b)
	}
	return fs
}

var allStore = []string{"cut", "flip", "flip", "set", "set", "zero", "lost", "lost", "dup", "over", "swap", "stale", "insert", "grow", "field", "field"}

// words are what may be found in a field of another version of a document.
var words = []string{"UTF-8", "utf-8", "us-ascii", "ascii", "ASCII", "iso-8859-1", "ISO-8859-15", "iso-8859-9", "cp1252", "windows-1251", "utf-16", "UTF-16LE", "utf-16be", "latin1", "UTF8",
	"UTF-80", "1.0", "1.1", "1.2", "2.0", "1.00", "yes", "no", "maybe", "Yes", "xml", "XML", "Xml", "xmlns", "xmlns:xml", "xmlns:xmlns", "xml:lang", "xmlns:a", "a", "b", "a:b", "a:b:c", ":a", "a:", "0", "-a", "a0",
	"DOCTYPE", "doctype", "CDATA", "version", "encoding", "standalone", "Version", "amp", "lt", "gt", "quot", "apos", "nbsp", "#65", "#x41", "#xFFFF", "#x0", "#9", "#1114112", "#x10FFFF", "#", "#x",
	"http://www.w3.org/2000/xmlns/", "http://www.w3.org/XML/1998/namespace", "\u00e9", "\u00d7", "a\u00b7", "\u0387a", "\U00010000", ""}

func isWord(c byte) bool {
	return c >= 0x80 || c >= '0' && c <= ':' || c|0x20 >= 'a' && c|0x20 <= 'z' || c == '_' || c == '-' || c == '.' || c == '#'
}

// wordAt is the field that lies at or behind a place.
func wordAt(b []byte, at int) (int, int) {
	for at < len(b) && !isWord(b[at]) {
		at++
	}
	if at == len(b) {
		return at, 0
	}
	e := at
	for at > 0 && isWord(b[at-1]) && e-at < 4096 {
		at--
	}
	for e < len(b) && isWord(b[e]) && e-at < 4096 {
		e++
	}
	return at, e - at
}

func genFault(r *rng, b []byte, kinds []string) StoreFault {
	kind := kinds[r.n(len(kinds))]
	n := len(b)
	if n == 0 {
		return StoreFault{Kind: "grow", Val: Blob(r.pick("<", "<a/>", " ", "\x00"))}
	}
	f := StoreFault{Kind: kind, At: r.n(n)}
	// sectors: fixed size, or the producer's records
	bounds := func() (int, int) {
		if r.p(45) {
			rb := recordBounds(b)
			i := r.n(len(rb) - 1)
			j := i + 1
			if r.p(25) && j+1 < len(rb) {
				j++
			}
			return rb[i], rb[j] - rb[i]
		}
		sz := r.pickN(1, 1, 1, 2, 3, 4, 8, 16, 64, 512)
		at := r.n(n)
		if sz > 4 {
			at -= at % sz
		}
		return at, clamp(sz, 1, n-at)
	}
	switch kind {
	case "cut":
		if r.p(40) {
			rb := recordBounds(b)
			f.At = clamp(rb[r.n(len(rb))]+r.in(-1, 1), 0, n-1)
		}
	case "flip":
		f.N = r.n(8)
	case "set":
		// the damaged place is often a markup character, or becomes one
		if r.p(35) {
			for t := 0; t < 30; t++ {
				c := b[f.At]
				if bytes.IndexByte([]byte(significant[:15]), c) >= 0 {
					break
				}
				f.At = r.n(n)
			}
		}
		switch {
		case r.p(70):
			f.Val = Blob{significant[r.n(len(significant))]}
		case r.p(30):
			f.Val = Blob{b[r.n(n)]}
		default:
			f.Val = Blob{byte(r.n(256))}
		}
	case "zero", "lost":
		f.At, f.N = bounds()
	case "dup":
		f.At, f.N = bounds()
		f.To = f.At + f.N
		if r.p(40) {
			rb := recordBounds(b)
			f.To = rb[r.n(len(rb))]
		}
	case "over":
		f.At, f.N = bounds()
		f.To, _ = bounds()
	case "swap":
		a, an := bounds()
		c, cn := bounds()
		if c < a {
			a, an, c, cn = c, cn, a, an
		}
		if a+an > c {
			an = c - a
		}
		f.At, f.N, f.To, f.Val = a, an, c, make(Blob, cn)
	case "stale":
		f.At, f.N = bounds()
		old := genAny(r, false)
		o := 0
		if len(old) > f.N {
			o = r.n(len(old) - f.N)
		}
		f.Val = Blob(old[o:clamp(o+f.N, 0, len(old))])
	case "insert":
		rb := recordBounds(b)
		if r.p(60) {
			f.At = rb[r.n(len(rb))]
		}
		f.Val = Blob(fragment(r))
	case "grow":
		f.Val = Blob(fragment(r))
	case "field":
		if r.p(20) {
			f.At = r.n(clamp(n, 1, 60))
		}
		f.At, f.N = wordAt(b, f.At)
		old := b[f.At : f.At+f.N]
		switch {
		case r.p(35):
			o, l := wordAt(b, r.n(n))
			f.Val = append(Blob(nil), b[o:o+l]...)
		case r.p(30) && len(old) > 1:
			k := r.n(len(old))
			f.Val = append(append(Blob(nil), old[:k]...), old[k+1:]...)
		case r.p(30):
			k := r.n(len(old) + 1)
			f.Val = append(append(append(Blob(nil), old[:k]...), significant[r.n(len(significant))]), old[k:]...)
		case r.p(25):
			k := r.n(len(old) + 1)
			f.Val = append(append(append(Blob(nil), old[:k]...), string(r.strayRune())...), old[k:]...)
		default:
			f.Val = Blob(words[r.n(len(words))])
		}
	}
	return f
}

// fragment is debris: pieces of markup as another writer leaves them.
func fragment(r *rng) string {
	return r.pick("<", ">", "&", "</", "/>", "]]>", "<!--", "-->", "<?", "?>", "<![CDATA[", "<a>", "</a>", "<a/>", "<!DOCTYPE a>",
		"<!DOCTYPE a [<!ENTITY e 'x'>]>", "<?xml version='1.0'?>", "<?xml?>", "<?XML a?>", "text", " ", "\n", "\x00", "\xff", "\xc3", "&amp;", "&lt", "&#0;", "&#xD800;", "&#65;", "&x;", "&#;", "&#x;", "&#x110000;",
		"&#4294967361;", "&#x100000041;", "&#-1;", "&#xFFFE;", "&ampx;", "&am;", "&apo;", "&apos", "&quo;", "&gt", "&g;", "&l;", "&#x4g;", "&#6a;", "&#+65;", "&#-65;", "&# 65;", "&#65 ;", "&#x+41;", "&#x 41;", "&#X41;", "&#0x41;", "&#6_5;", "&Amp;", "&AMP;", "& amp;", "&amp ;", "&#xA\n;", "&lT;", "&#x41", "&#;65;", "&#x;41;", "&apos", "&quot", "&Quot;", "&#1e1;", "&#65.0;", "&#\uff16\uff15;",
		" a=''", " a=\"1\" a=\"2\"", " a", " a=", " a='<'", " xmlns:a='u'", " xmlns=''", "<!", "<!-", "<!-- -- -->", "<!--->", "<!---->", "<![CDATA[]]", "]]", "-", "--", "<![cdata[x]]>", "<!doctype a>", "< a>", "</ a>", "<a b=c>", "<a'b'>", "<\xc3\xa9/>", "\uFFFE", "\u0001", "\xED\xA0\x80", "\xF4\x90\x80\x80", "\xC0\x80", "<1/>", "<-a/>", "<.a/>", "</>", "<>", "<//>", "&;", "&&", "a&b", "=", "\"", "'", "<?a", "<? a?>", "<?1?>", "<?a?", "<?a!?>", "<?a/>")
}

// deliver is the array handed to the consumer and the window in it.
func (d *Doc) deliver() (arena []byte, off, n, diff int) {
	w, diff := d.apply()
	arena = make([]byte, 0, len(d.Pre)+len(w)+len(d.Post))
	arena = append(arena, d.Pre...)
	arena = append(arena, w...)
	arena = append(arena, d.Post...)
	return arena, len(d.Pre), len(w), diff
}

var _ = ref.WF
