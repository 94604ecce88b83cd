package main

import (
	"errors"
	"fmt"
	"unicode/utf8"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/reader"
)

// RdScen is a history of operations on one or more character readers over the
// same bytes.
type RdScen struct {
	Kind []string // utf8 ascii, one per reader
	Data Blob
	Win  [][2]int // start and end of each reader's window
	Ops  []RdOp
}

type RdOp struct {
	T  int `json:",omitempty"`
	Op string
	A  int  `json:",omitempty"`
	S  Blob `json:",omitempty"`
}

func init() {
	register(&prop{id: "C13", rule: "streams of characters, cut or damaged at any byte, read by one or two readers with skips and repositioning; distinct by (window, operations, answers)",
		gen: genC13, check: checkC13})
}

func genC13(r *rng, sc *Scenario, big bool) {
	s := &RdScen{}
	sc.Rd = s
	switch r.n(4) {
	case 0:
		s.Data = Blob(genAny(r, false))
		if len(s.Data) > 400 {
			s.Data = s.Data[:400]
		}
	default:
		for k := r.in(1, 14); k > 0; k-- {
			s.Data = append(s.Data, r.pick("a", "<", "b", "\r\n", "\r", "\n", "é", "日", "\U0001F600", "\x7f", "߿", "ࠀ", "\uFFFD", "\U0010FFFF", "\uFEFF", "\x80", "\xC3", "\xE6\x97", "\xF0\x9F\x98", "\xFF", "\xC0\x80", "\xED\xA0\x80", "\xF4\x90\x80\x80", "\xC1\xBF", "\xE0\x80\x80", "\x00", "--", "]]>", "xml", "\xF8\x88\x80\x80\x80")...)
		}
	}
	if r.p(50) && len(s.Data) > 0 {
		for _, f := range genFaults(r, s.Data, []string{"cut", "flip", "set", "lost", "dup", "zero"}) {
			s.Data = f.apply(append(Blob(nil), s.Data...))
			sc.Note += f.Kind + " "
		}
	}
	n := len(s.Data)
	nr := 1 + b2i(r.p(25))
	for i := 0; i < nr; i++ {
		s.Kind = append(s.Kind, r.pick("utf8", "utf8", "ascii"))
		w := [2]int{0, n}
		if r.p(60) {
			w[1] = r.n(n + 1)
			w[0] = r.n(w[1] + 1)
		}
		if r.one(20) {
			w = [2]int{r.pickN(-1, 0, n, n+1, 5, -1<<63), r.pickN(-1, 0, n, n+1, 2, 1<<62)}
		}
		s.Win = append(s.Win, w)
	}
	pos := func(t int) int {
		w := s.Win[t]
		switch r.n(8) {
		case 0:
			return r.pickN(-1, w[1], w[1]+1, w[0]-1, n, n+1, -1<<31, 1<<31-1, 1<<40, -1<<40)
		case 1:
			return w[1] - 1
		}
		if w[1] > w[0] && w[0] >= 0 && w[1] <= n {
			return w[0] + r.n(w[1]-w[0])
		}
		return r.n(n + 1)
	}
	for k := r.in(1, 25); k > 0; k-- {
		t := r.n(nr)
		op := RdOp{T: t}
		switch r.n(12) {
		case 0, 1, 2, 3, 4:
			op.Op = "char"
		case 5:
			op.Op, op.A = "at", pos(t)
		case 6:
			op.Op, op.A = "long", pos(t)
		case 7:
			op.Op, op.A = "set", pos(t)
		case 8, 9:
			op.Op = "skip"
			op.A = []int{'a', '<', '\n', '\r', 0xe9, 0x65e5, 0xFFFD, 0x1F600, 0x80, 0xC3, 0xFF, 0, 1 << 31, 0x110000}[r.n(14)]
			if r.p(60) && n > 0 {
				op.A = -1 // whatever comes next
			}
		case 10:
			op.Op = "seq"
			op.A = r.n(6) // length taken from what comes next
			if r.p(40) {
				op.S = Blob(r.pick("", "a", "é", "<!", "--", "]]>", "xml", "\xFF", "\uFFFD", "日本", "a\xC3"))
				op.A = -1
			}
			if r.p(30) && op.A > 0 {
				op.S = Blob("z") // and a character that does not follow
			}
		case 11:
			op.Op = "drain"
		}
		s.Ops = append(s.Ops, op)
	}
	s.Ops = append(s.Ops, RdOp{T: r.n(nr), Op: "drain"})
}

func checkC13(sc *Scenario, st *stats) (v *viol) {
	s := sc.Rd
	if s == nil {
		return nil
	}
	st.Execs++
	at := ""
	defer func() {
		if r := recover(); r != nil {
			v = &viol{"panic", at + ": " + panicText(r)}
		}
	}()
	data := append(make([]byte, 0, len(s.Data)), s.Data...)
	rds := make([]reader.Reader, len(s.Win))
	for i, w := range s.Win {
		at = fmt.Sprintf("%s reader over [%d,%d) of %d bytes", s.Kind[i], w[0], w[1], len(data))
		var rd reader.Reader
		var err error
		if s.Kind[i] == "ascii" {
			x, e := reader.NewAsciiReader(data, w[0], w[1])
			rd, err = x, e
		} else {
			x, e := reader.NewUtf8Reader(data, w[0], w[1])
			rd, err = x, e
		}
		legal := w[0] >= 0 && w[1] >= 0 && w[1] <= len(data)
		if err == nil && !legal {
			return &viol{"window", at + ": accepted"}
		}
		if err != nil {
			if legal && w[0] <= w[1] {
				return &viol{"window", at + ": " + err.Error()}
			}
			st.probe("window refused")
			continue
		}
		rds[i] = rd
	}
	h := mix(hashStr(string(data)))
	for k := range s.Ops {
		op := &s.Ops[k]
		if op.T >= len(rds) || rds[op.T] == nil {
			continue
		}
		rd, w, ascii := rds[op.T], s.Win[op.T], s.Kind[op.T] == "ascii"
		at = fmt.Sprintf("%s reader over [%d,%d) of %q, operation %d %s %d %q at position %d", s.Kind[op.T], w[0], w[1], cut(string(data)), k, op.Op, op.A, string(op.S), rd.GetOffset())
		st.Steps++
		h = mix(h, hashStr(op.Op), uint64(op.A), uint64(rd.GetOffset()))
		if v := playRd(rd, data, w, ascii, op, at, st); v != nil {
			return v
		}
	}
	st.distinct(h)
	st.sample("%s: as the model", at)
	return nil
}

// decodeAt is the character at p, ok false if there is none or it is malformed.
func decodeAt(data []byte, p, end int, ascii bool) (rune, int, bool) {
	if p < 0 || p >= end {
		return 0, 0, false
	}
	if ascii {
		return rune(data[p]), 1, data[p] < 0x80
	}
	c, n := utf8.DecodeRune(data[p:end])
	return c, n, c != utf8.RuneError || n > 1
}

func isEOF(err error) bool {
	var e *erroring.EOFError
	return errors.As(err, &e)
}

func playRd(rd reader.Reader, data []byte, w [2]int, ascii bool, op *RdOp, at string, st *stats) *viol {
	end := w[1]
	p := rd.GetOffset()
	strict := p >= w[0] // in front of the window only the absence of panics is promised
	getChar := func() *viol {
		p := rd.GetOffset()
		c, err := rd.GetChar()
		q := rd.GetOffset()
		if p < w[0] && p >= 0 {
			return nil
		}
		want, n, ok := decodeAt(data, p, end, ascii)
		switch {
		case p < 0 || p >= end:
			st.probe("end of input")
			if !isEOF(err) {
				return &viol{"end", fmt.Sprintf("%s: no end of input at %d but %q %v", at, p, rune(c), err)}
			}
			if q != p {
				return &viol{"position", fmt.Sprintf("%s: the end of input moved the position from %d to %d", at, p, q)}
			}
		case !ok:
			st.probe("malformed encoding met")
			if err == nil {
				return &viol{"malformed", fmt.Sprintf("%s: delivered %q from malformed bytes at %d", at, rune(c), p)}
			}
			if q < p || q > end {
				return &viol{"position", fmt.Sprintf("%s: position %d after an error at %d", at, q, p)}
			}
		default:
			if err != nil || rune(c) != want {
				return &viol{"char", fmt.Sprintf("%s: delivered %q (%v) at %d, should be %q", at, rune(c), err, p, want)}
			}
			if q != p+n {
				return &viol{"position", fmt.Sprintf("%s: position %d after a character of %d bytes at %d", at, q, n, p)}
			}
		}
		return nil
	}
	switch op.Op {
	case "char":
		return getChar()
	case "drain":
		for k := 0; k <= len(data)+2; k++ {
			p := rd.GetOffset()
			if v := getChar(); v != nil {
				return v
			}
			if rd.GetOffset() == p && (p < 0 || p >= end) && k > 1 {
				// at the end, and still there on the next request
				return getChar()
			}
		}
		if p := rd.GetOffset(); p >= w[0] && p < end {
			return &viol{"endless", at + ": the end is not reached"}
		}
	case "at", "long":
		o := int32(op.A)
		if int(o) != op.A {
			return nil
		}
		var got uint64
		var err error
		size := 0
		if op.Op == "at" {
			c, e := rd.GetCharAt(o)
			got, err = uint64(c), e
		} else {
			x, e := rd.GetLongCharAt(o)
			got, err, size = x&0xFFFFFFFF, e, int(x>>32)
		}
		if rd.GetOffset() != p {
			return &viol{"position", at + ": a read at an offset moved the position"}
		}
		if op.A >= 0 && op.A < w[0] {
			return nil
		}
		want, n, ok := decodeAt(data, op.A, end, ascii)
		if op.Op == "long" && ok && want == '\r' && op.A+1 < end && data[op.A+1] == '\n' {
			want, n = '\n', 2
		}
		switch {
		case !ok && err == nil:
			return &viol{"char-at", fmt.Sprintf("%s: delivered %q where there is no character", at, rune(got))}
		case ok && (err != nil || rune(got) != want):
			return &viol{"char-at", fmt.Sprintf("%s: %q (%v), should be %q", at, rune(got), err, want)}
		case ok && op.Op == "long" && size != n:
			return &viol{"char-at", fmt.Sprintf("%s: size %d, should be %d", at, size, n)}
		}
	case "set":
		rd.SetOffset(op.A)
		if rd.GetOffset() != op.A {
			return &viol{"position", fmt.Sprintf("%s: position %d", at, rd.GetOffset())}
		}
	case "skip":
		want, n, ok := decodeAt(data, p, end, ascii)
		ch := uint32(op.A)
		if op.A == -1 {
			ch = uint32(want)
		}
		got := rd.SkipChar(ch)
		q := rd.GetOffset()
		if !strict && p >= 0 {
			return nil
		}
		match := ok && uint32(want) == ch
		if got != match || match && q != p+n || !match && q != p {
			return &viol{"skip", fmt.Sprintf("%s: skip of %q says %v and goes from %d to %d, should match %v", at, rune(ch), got, p, q, match)}
		}
		if match {
			st.probe("skip matched")
		}
	case "seq":
		seq := string(op.S)
		if op.A >= 0 {
			x := p
			t := ""
			for k := 0; k < op.A; k++ {
				c, n, ok := decodeAt(data, x, end, ascii)
				if !ok {
					break
				}
				t += string(c)
				x += n
			}
			seq = t + seq
		}
		got := rd.SkipCharSeq(seq)
		q := rd.GetOffset()
		if !strict && p >= 0 {
			return nil
		}
		x, match := p, true
		for _, ch := range seq {
			c, n, ok := decodeAt(data, x, end, ascii)
			if !ok || c != ch {
				match = false
				break
			}
			x += n
		}
		if got != match || match && q != x || !match && q != p {
			return &viol{"skip-seq", fmt.Sprintf("%s: skip of %q says %v and goes from %d to %d, should match %v", at, seq, got, p, q, match)}
		}
		if match && seq != "" {
			st.probe("sequence skip matched")
		}
		if !match && x > p {
			st.probe("sequence skip failed half way")
		}
	}
	return nil
}
