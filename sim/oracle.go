package main

import (
	"bytes"
	"errors"
	"fmt"
	"strconv"
	"strings"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"

	"vsim/ref"
)

type viol struct {
	Rule   string // stable name of the rule that was broken, kept while minimising
	Detail string
}

func kindOf(err error) string {
	switch err.(type) {
	case *erroring.InvalidArgumentError:
		return "InvalidArgumentError"
	case *erroring.InternalError:
		return "InternalError"
	case *erroring.ParseError:
		return "ParseError"
	case *erroring.NavigationError:
		return "NavigationError"
	case *erroring.EncodingError:
		return "EncodingError"
	case *erroring.DecodingError:
		return "DecodingError"
	case *erroring.EntityError:
		return "EntityError"
	case *erroring.EOFError:
		return "EOFError"
	case *erroring.ModifyError:
		return "ModifyError"
	case *injected:
		return "injected"
	}
	return fmt.Sprintf("%T", err)
}

// lineOf is the line number a rejection carries, without the column.
func lineOf(err error) string {
	var pe *erroring.ParseError
	for e := err; e != nil; e = errors.Unwrap(e) {
		if errors.As(e, &pe) {
			if n := firstNumber(pe.LineNumber); n != "" {
				return n
			}
			e = pe
			continue
		}
		break
	}
	return ""
}

func firstNumber(s string) string {
	i := 0
	for i < len(s) && (s[i] < '0' || s[i] > '9') {
		i++
	}
	j := i
	for j < len(s) && s[j] >= '0' && s[j] <= '9' {
		j++
	}
	return s[i:j]
}

func lineNo(e errO) (int, bool) {
	if e.Line == "" {
		return 0, false
	}
	n, err := strconv.Atoi(e.Line)
	return n, err == nil
}

func (o *obs) fatal() *viol {
	switch o.End {
	case "panic":
		return &viol{"panic", o.EndMsg}
	case "budget":
		return &viol{"endless", o.EndMsg}
	}
	return nil
}

func isName(k int) bool { return k == ref.KStart || k == ref.KAttr || k == ref.KNs }

// tokDiff compares the index with the reference; "" if they agree.
func tokDiff(res *ref.Result, win []byte, base int, ns bool, o *obs) string {
	if o.DumpErr != "" {
		return "reading the index: " + o.DumpErr
	}
	if o.Size != len(o.Toks) {
		return fmt.Sprintf("index size %d, %d entries readable", o.Size, len(o.Toks))
	}
	for i := range o.Toks {
		if i >= len(res.Toks) {
			return fmt.Sprintf("entry %d %v is not in the document (%d expected)", i, o.Toks[i], len(res.Toks))
		}
		if d := oneTok(&res.Toks[i], o.Toks[i], win, base, ns); d != "" {
			return fmt.Sprintf("entry %d: %s", i, d)
		}
	}
	if len(o.Toks) < len(res.Toks) {
		return fmt.Sprintf("%d entries, %d expected, first missing %+v", len(o.Toks), len(res.Toks), res.Toks[len(o.Toks)])
	}
	return ""
}

func oneTok(w *ref.Tok, g tokO, win []byte, base int, ns bool) string {
	bad := func(what string, want, got int) string {
		return fmt.Sprintf("%s is %d, should be %d (token %+v, got %+v)", what, got, want, *w, g)
	}
	if int(g.Kind) != w.Kind {
		return bad("kind", w.Kind, int(g.Kind))
	}
	if int(g.Depth) != w.Depth {
		return bad("depth", w.Depth, int(g.Depth))
	}
	length := int(g.Len)
	if isName(w.Kind) {
		pre := length >> 16
		length &= 0xFFFF
		if ns && bytes.Count(win[w.Off:w.Off+w.Len], []byte(":")) <= 1 && pre != w.Pre {
			return bad("prefix length", w.Pre, pre)
		}
		if length != w.Len {
			return bad("length", w.Len, length)
		}
	} else if length != w.Total {
		return bad("length", w.Total, length)
	}
	off := int(g.Off)
	switch {
	case w.Kind == ref.KDoc:
		if off != 0 && off != base {
			return bad("offset", base, off)
		}
	case w.OffLoose:
		if off < base+w.OffLo || off > base+w.OffHi {
			return bad("offset", base+w.OffLo, off)
		}
	case off != base+w.Off:
		return bad("offset", base+w.Off, off)
	}
	return ""
}

// relToks are the entries relative to the window.
func relToks(toks []tokO, base int) []tokO {
	out := make([]tokO, len(toks))
	for i, t := range toks {
		if t.Kind != ref.KDoc {
			t.Off -= int32(base)
		}
		out[i] = t
	}
	return out
}

// key is everything an attempt showed, relative to the window.
func (o *obs) key(base int) string {
	var b strings.Builder
	fmt.Fprintf(&b, "new=%v parse=%v line=%s again=%v nav=%v size=%d cur=%d dump=%s end=%s %s\n", o.New, o.Parse, o.Parse.Line, o.Again, o.Nav, o.Size, o.Cur, o.DumpErr, o.End, o.EndMsg)
	for _, t := range o.Toks {
		off := t.Off
		if t.Kind != ref.KDoc {
			off -= int32(base)
		}
		fmt.Fprintf(&b, "%d %d %d %d\n", t.Kind, off, t.Len, t.Depth)
	}
	for _, op := range o.Ops {
		fmt.Fprintf(&b, "%v %v %d %v %q %v %d\n", op.OK, op.Err, op.Cur, op.CurE, op.S, op.T, op.Cur2)
	}
	return b.String()
}

func firstKeyDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range la {
		if i >= len(lb) {
			return fmt.Sprintf("line %d: %.300s | missing", i, la[i])
		}
		if la[i] != lb[i] {
			return fmt.Sprintf("%.300s | %.300s", la[i], lb[i])
		}
	}
	if len(lb) > len(la) {
		return fmt.Sprintf("missing | %.300s", lb[len(la)])
	}
	return ""
}

// ---------------------------------------------------------------- navigation

// navMove is the move in the reference tree: cursor -1 is the document.
func navMove(res *ref.Result, cur, dir int) (int, bool) {
	el := res.Elems
	switch dir {
	case 0: // root
		return 0, true
	case 1: // parent
		if cur < 0 {
			return cur, false
		}
		return el[cur].Parent, true
	case 2, 3: // first, last child
		if cur < 0 {
			return 0, true
		}
		k := el[cur].Kids
		if len(k) == 0 {
			return cur, false
		}
		if dir == 2 {
			return k[0], true
		}
		return k[len(k)-1], true
	case 4, 5:
		if cur <= 0 {
			return cur, false
		}
		sib := el[el[cur].Parent].Kids
		for i, s := range sib {
			if s == cur {
				if dir == 4 {
					i++
				} else {
					i--
				}
				if i < 0 || i >= len(sib) {
					return cur, false
				}
				return sib[i], true
			}
		}
	}
	return cur, false
}

func curTok(res *ref.Result, cur int) int32 {
	if cur < 0 {
		return 0
	}
	return int32(res.Elems[cur].Tok)
}

// checkOps replays the operations on the reference model.
func checkOps(res *ref.Result, win []byte, base, arenaLen int, ns bool, ops []NavOp, got []opO, end string) *viol {
	cur, cur2, forked := -1, -1, false
	live := append([]byte(nil), win...) // the bytes as they are now
	for i, g := range got {
		op := ops[i]
		at := fmt.Sprintf("operation %d (%s %d %d)", i, op.Op, op.A, op.B)
		if g.CurE {
			return &viol{"nav-cursor", at + ": the cursor cannot be read"}
		}
		switch op.Op {
		case "move", "move2":
			c, gc := &cur, g.Cur
			if op.Op == "move2" {
				if !forked {
					break
				}
				c, gc = &cur2, g.Cur2
			}
			illegal := op.A < 0 || op.A > 5
			next, ok := navMove(res, *c, op.A)
			switch {
			case g.Fire > 0 || illegal:
				if !g.Err.bad() {
					return &viol{"nav-swallowed", at + ": no error although " + map[bool]string{true: "the direction is illegal", false: "an index read failed"}[illegal]}
				}
				if !illegal && !g.Err.Inj {
					return &viol{"nav-error-chain", at + ": error " + g.Err.String() + " does not carry the read failure"}
				}
				if g.OK {
					return &viol{"nav-result", at + ": true together with an error"}
				}
				next = *c
			case g.Err.bad():
				return &viol{"nav-error", at + ": " + g.Err.String()}
			case g.OK != ok:
				return &viol{"nav-result", fmt.Sprintf("%s from entry %d: %v, should be %v", at, curTok(res, *c), g.OK, ok)}
			}
			if gc != curTok(res, next) {
				return &viol{"nav-cursor", fmt.Sprintf("%s from entry %d: cursor at entry %d, should be at %d (moved %v, error %v)", at, curTok(res, *c), gc, curTok(res, next), g.OK, g.Err)}
			}
			*c = next
		case "fork":
			if g.Fire > 0 && g.Err.Inj {
				break
			}
			if g.Err.bad() {
				return &viol{"nav-fork", at + ": no second navigator: " + g.Err.String()}
			}
			forked, cur2 = true, -1
		case "edit":
			if op.A >= 0 && op.A < len(live) {
				live[op.A] = byte(op.B)
			}
		case "tok":
			if g.Fire > 0 {
				if !g.Err.bad() {
					return &viol{"tok-swallowed", at + ": no error although an index read failed"}
				}
				break
			}
			if op.A < 0 || op.A >= len(res.Toks) {
				if !g.Err.bad() {
					return &viol{"tok-range", at + ": no error for an entry that does not exist"}
				}
				break
			}
			if g.Err.bad() {
				return &viol{"tok-error", at + ": " + g.Err.String()}
			}
			if d := oneTok(&res.Toks[op.A], g.T, win, base, ns); d != "" {
				return &viol{"tok-value", at + ": " + d}
			}
		case "raw", "str", "rawr", "strr":
			if v := checkText(res, live, base, arenaLen, op, g, at); v != nil {
				return v
			}
		}
		if g.Cur != curTok(res, cur) {
			return &viol{"nav-cursor", fmt.Sprintf("%s moved the cursor from entry %d to %d", at, curTok(res, cur), g.Cur)}
		}
		if forked && g.Cur2 != curTok(res, cur2) {
			return &viol{"nav-cursor", fmt.Sprintf("%s moved the cursor of another navigator from entry %d to %d", at, curTok(res, cur2), g.Cur2)}
		}
	}
	return nil
}

func checkText(res *ref.Result, live []byte, base, arenaLen int, op NavOp, g opO, at string) *viol {
	if g.Fire > 0 {
		if !g.Err.bad() {
			return &viol{"text-swallowed", fmt.Sprintf("%s: %q although a read failed", at, cut(g.S))}
		}
		if g.S != "" {
			return &viol{"text-partial", fmt.Sprintf("%s: text %q together with %v", at, cut(g.S), g.Err)}
		}
		return nil
	}
	off, n := op.A, op.B
	resolve := op.Op == "str" || op.Op == "strr"
	if op.Op == "raw" || op.Op == "str" {
		if op.A < 0 || op.A >= len(res.Toks) {
			if !g.Err.bad() {
				return &viol{"text-range", at + ": no error for an entry that does not exist"}
			}
			return nil
		}
		t := res.Toks[op.A]
		off, n = t.Off, t.Total
		if t.Kind == ref.KDoc {
			off, n = 0, 0
		}
		resolve = resolve && (t.Kind == ref.KText || t.Kind == ref.KVal)
	}
	if n < 0 || off < 0 || off+n > len(live) {
		// not a range of the window: nothing is promised but an end
		return nil
	}
	b := live[off : off+n]
	if g.Err.bad() && g.S != "" {
		return &viol{"text-partial", fmt.Sprintf("%s: text %q together with %v", at, cut(g.S), g.Err)}
	}
	if !resolve {
		if g.Err.bad() {
			return &viol{"text-error", at + ": " + g.Err.String()}
		}
		if !sameText(g.S, string(b)) {
			return &viol{"text-raw", fmt.Sprintf("%s: %q, should be %q", at, cut(g.S), cut(string(b)))}
		}
		return nil
	}
	want, ok, open := ref.Resolve(b)
	switch {
	case !ok:
		if !g.Err.bad() {
			return &viol{"text-invented", fmt.Sprintf("%s: %q from %q, which holds a malformed reference", at, cut(g.S), cut(string(b)))}
		}
	case g.Err.bad():
		if !open {
			return &viol{"text-error", fmt.Sprintf("%s: %v from %q", at, g.Err, cut(string(b)))}
		}
	case !sameText(g.S, string(want)):
		return &viol{"text-resolved", fmt.Sprintf("%s: %q from %q, should be %q", at, cut(g.S), cut(string(b)), cut(string(want)))}
	}
	return nil
}

// sameText compares text up to the normalisation of line ends: where the bytes
// have a run of carriage returns and line feeds the text has a run too, of one
// or two characters for each CR LF pair and of one for any other.
func sameText(got, want string) bool {
	if got == want {
		return true
	}
	le := func(c byte) bool { return c == '\r' || c == '\n' }
	i, j := 0, 0
	for i < len(want) {
		if !le(want[i]) {
			if j >= len(got) || got[j] != want[i] {
				return false
			}
			i++
			j++
			continue
		}
		lo, hi := 0, 0
		for i < len(want) && le(want[i]) {
			if want[i] == '\r' && i+1 < len(want) && want[i+1] == '\n' {
				i++
				hi++
			}
			i++
			lo++
			hi++
		}
		n := 0
		for j < len(got) && le(got[j]) {
			j++
			n++
		}
		if n < lo || n > hi {
			return false
		}
	}
	return j == len(got)
}

func cut(s string) string {
	if len(s) > 120 {
		return s[:100] + "…" + s[len(s)-15:]
	}
	return s
}
