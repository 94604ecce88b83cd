package main

import (
	"fmt"
	"reflect"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/buffer"
)

// BufScen is a history of operations that several clients make on one buffer.
type BufScen struct {
	Kind string // long int obj byte
	Page int    // exponent given to the constructor, -99 for none
	Data Blob   `json:",omitempty"`
	Ops  []BufOp
}

type BufOp struct {
	Op string
	A  int   `json:",omitempty"`
	V  int64 `json:",omitempty"`
}

func init() {
	register(&prop{id: "C12", rule: "histories of append, modify, roll back, clear and reads of a buffer by clients whose steps interleave, some abandoned and rolled back; distinct by (buffer, page size, sequence of operations and what they answered)",
		gen: genC12, check: checkC12})
}

func bufValue(r *rng) int64 {
	switch r.n(8) {
	case 0:
		return int64(r.u64())
	case 1:
		return -1
	case 2:
		return 0xFFFFFFFF
	case 3:
		return -1 << 63
	case 4:
		return 1<<63 - 1
	case 5:
		return int64(r.u64() & 0xFFFFFFFF)
	case 6:
		return int64(r.u64() &^ 0xFFFFFFFF)
	}
	return int64(r.n(1000)) - 500
}

func genC12(r *rng, sc *Scenario, big bool) {
	b := &BufScen{Kind: r.pick("long", "long", "long", "int", "int", "obj", "obj", "byte")}
	sc.Buf = b
	b.Page = r.pickN(0, 0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, -99, 10, 11)
	if r.one(30) {
		b.Page = r.pickN(-1, -2, -64, 31, 32, 61, 62, 63, 64, 100)
	}
	page := 1024
	if b.Page >= 0 && b.Page < 20 {
		page = 1 << b.Page
	}
	if b.Kind == "byte" {
		b.Data = Blob(genAny(r, false))
		if r.one(8) {
			b.Data = Blob(r.pick("", "a", "ab"))
		}
	}
	size := 0 // of the buffer, in entries
	n := r.in(1, r.pickN(8, 30, 120))
	idx := func() int {
		switch r.n(10) {
		case 0:
			return size
		case 1:
			return r.pickN(-1, size+1, size+page, -page, 1<<31, 1<<32, -1<<31, -1<<63, 1<<62, 1<<63-1, size*2+3)
		case 2:
			return size - 1
		case 3:
			return clamp(size/page*page-r.n(2), 0, 1<<30)
		}
		return r.n(size)
	}
	var marks []int // sizes clients may roll back to
	for ; n > 0; n-- {
		switch x := r.n(20); {
		case x < 6:
			k := 1
			if r.p(40) {
				k = r.pickN(page, page+1, page-1, 2*page, 3, 5)
				if k > 3000 || !big && k > 300 && !r.one(10) {
					k = r.in(1, 20)
				}
				if r.one(25) {
					// a client that stores much
					k = r.pickN(r.in(200, 700), r.in(200, 2000), page*r.in(1, 40), page*r.in(1, 4)+r.in(-1, 1), 1024, 1025)
					if k > 6000 {
						k = r.in(2000, 6000)
					}
				}
			}
			if k > 20 {
				b.Ops = append(b.Ops, BufOp{Op: "fill", A: k, V: int64(r.u64())})
				size += k
				break
			}
			for ; k > 0; k-- {
				b.Ops = append(b.Ops, BufOp{Op: "append", V: bufValue(r)})
				size++
			}
		case x < 8:
			b.Ops = append(b.Ops, BufOp{Op: "modify", A: idx(), V: bufValue(r)})
		case x < 9:
			marks = append(marks, size)
			b.Ops = append(b.Ops, BufOp{Op: "size"})
		case x < 11:
			// a client fails and its entries are rolled back
			to := r.n(size + 1)
			if len(marks) > 0 && r.p(60) {
				to = marks[r.n(len(marks))]
			}
			if r.one(6) {
				to = r.pickN(-1, size+1, size+page, 1<<40, 0, page, -page)
			}
			if b.Kind == "obj" {
				pages := (size + page - 1) / page
				to = r.in(-1, pages+1)
				if to >= 0 && to <= pages {
					size = min(size, to*page)
				}
			} else if to >= 0 && to <= size {
				size = to
			}
			b.Ops = append(b.Ops, BufOp{Op: "setsize", A: to})
		case x == 11 && r.p(30):
			b.Ops = append(b.Ops, BufOp{Op: "clear"})
			size = 0
		case x < 14:
			b.Ops = append(b.Ops, BufOp{Op: r.pick("lower", "upper"), A: idx()})
		case x < 15:
			b.Ops = append(b.Ops, BufOp{Op: "array"})
		case x < 16 && b.Kind == "byte":
			l := len(b.Data)
			o := r.in(-1, l+1)
			b.Ops = append(b.Ops, BufOp{Op: "slice", A: o, V: int64(r.pickN(r.in(-1, l+2), l-o, l-o-1, l-o+1, 1<<62, 1<<63-1, -1<<63))})
		default:
			a := idx()
			if b.Kind == "byte" {
				a = r.in(-2, len(b.Data)+1)
			}
			b.Ops = append(b.Ops, BufOp{Op: "get", A: a})
		}
	}
}

func checkC12(sc *Scenario, st *stats) (v *viol) {
	b := sc.Buf
	if b == nil {
		return nil
	}
	st.Execs++
	st.Steps += int64(len(b.Ops))
	at := ""
	defer func() {
		if r := recover(); r != nil {
			v = &viol{"panic", at + ": " + panicText(r)}
		}
	}()
	switch b.Kind {
	case "long":
		var last []int64
		var opts []buffer.FastLongBufferOption
		if b.Page != -99 {
			opts = append(opts, buffer.WithFastLongBufferPageSize(b.Page))
		}
		x, err := buffer.NewFastLongBuffer(opts...)
		if err != nil {
			return refused(b, err, st)
		}
		return playBuf(b, st, &at, bufOps{
			app:   func(v int64) error { return x.Append(v) },
			mod:   func(i int, v int64) error { return x.ModifyEntry(i, v) },
			get:   func(i int) (int64, error) { return x.LongAt(i) },
			lower: func(i int) (int32, error) { return x.Lower32At(i) },
			upper: func(i int) (int32, error) { return x.Upper32At(i) },
			arr: func() ([]int64, error) {
				a, err := x.ToLongArray()
				last = a
				return append([]int64(nil), a...), err
			},
			scribble: func() {
				for i := range last {
					last[i] = 0x0BAD0BAD
				}
				_ = append(last, 0x0BAD0BAD)
			},
			b: x, norm: func(v int64) int64 { return v }})
	case "int":
		var last []int32
		var opts []buffer.FastIntBufferOption
		if b.Page != -99 {
			opts = append(opts, buffer.WithFastIntBufferPageSize(b.Page))
		}
		x, err := buffer.NewFastIntBuffer(opts...)
		if err != nil {
			return refused(b, err, st)
		}
		return playBuf(b, st, &at, bufOps{
			app: func(v int64) error { return x.Append(int32(v)) },
			mod: func(i int, v int64) error { return x.ModifyEntry(i, int32(v)) },
			get: func(i int) (int64, error) { v, e := x.IntAt(i); return int64(v), e },
			arr: func() ([]int64, error) {
				a, e := x.ToIntArray()
				last = a
				var o []int64
				for _, v := range a {
					o = append(o, int64(v))
				}
				return o, e
			},
			scribble: func() {
				for i := range last {
					last[i] = 0x0BAD
				}
				_ = append(last, 0x0BAD)
			},
			b: x, norm: func(v int64) int64 { return int64(int32(v)) }})
	case "obj":
		var opts []buffer.FastObjectBufferOption
		if b.Page != -99 {
			opts = append(opts, buffer.WithFastObjectBufferPageSize(b.Page))
		}
		x, err := buffer.NewFastObjectBuffer(opts...)
		if err != nil {
			return refused(b, err, st)
		}
		obj := func(v int64) any {
			switch v & 3 {
			case 0:
				return nil
			case 1:
				return v
			case 2:
				return fmt.Sprint(v)
			}
			return [2]int64{v, -v}
		}
		back := map[any]int64{}
		return playBuf(b, st, &at, bufOps{
			app: func(v int64) error { back[obj(v)] = v; return x.Append(obj(v)) },
			mod: func(i int, v int64) error { back[obj(v)] = v; return x.ModifyEntry(i, obj(v)) },
			get: func(i int) (int64, error) {
				v, e := x.ObjectAt(i)
				if e != nil {
					return 0, e
				}
				if v == nil {
					return 0, nil
				}
				n, ok := back[v]
				if !ok {
					return 0x0BAD0BAD, nil
				}
				return n, nil
			},
			b: x, obj: true, norm: func(v int64) int64 {
				if v&3 == 0 {
					return 0
				}
				return v
			}})
	case "byte":
		return playBytes(b, st, &at)
	}
	return nil
}

func refused(b *BufScen, err error, st *stats) *viol {
	st.probe("page size refused")
	if b.Page < 62 {
		return &viol{"constructor", fmt.Sprintf("page size exponent %d refused: %v", b.Page, err)}
	}
	return nil
}

type bufOps struct {
	app          func(int64) error
	mod          func(int, int64) error
	get          func(int) (int64, error)
	lower, upper func(int) (int32, error)
	arr          func() ([]int64, error)
	b            interface {
		GetSize() int
		SetSize(int)
		Clear()
	}
	scribble func() // write over the array handed out last
	obj      bool
	norm     func(int64) int64
}

func playBuf(b *BufScen, st *stats, at *string, x bufOps) *viol {
	var m []int64
	page := 1024
	if b.Page >= 0 && b.Page < 40 {
		page = 1 << b.Page
	} else if b.Page >= 40 {
		page = 1 << 40
	}
	h := mix(hashStr(b.Kind), uint64(b.Page))
	size := func() int {
		if x.obj {
			return (len(m) + page - 1) / page
		}
		return len(m)
	}
	whole := func() *viol {
		for i := range m {
			v, err := x.get(i)
			if err != nil || v != m[i] {
				return &viol{"entry", fmt.Sprintf("%s: entry %d of %d reads %x (%v), should be %x", *at, i, len(m), v, err, m[i])}
			}
		}
		if s := x.b.GetSize(); s != size() {
			return &viol{"size", fmt.Sprintf("%s: size %d, should be %d", *at, s, size())}
		}
		if _, err := x.get(len(m)); err == nil {
			return &viol{"discarded", fmt.Sprintf("%s: entry %d is readable although there are %d", *at, len(m), len(m))}
		}
		return nil
	}
	dirty := 0
	for k, op := range b.Ops {
		*at = fmt.Sprintf("%s buffer, page exponent %d, operation %d %s %d", b.Kind, b.Page, k, op.Op, op.A)
		in := op.A >= 0 && op.A < len(m)
		switch op.Op {
		case "append":
			if err := x.app(op.V); err != nil {
				return &viol{"append", *at + ": " + err.Error()}
			}
			m = append(m, x.norm(op.V))
			if v, err := x.get(len(m) - 1); err != nil || v != m[len(m)-1] {
				return &viol{"append-readback", fmt.Sprintf("%s: appended %x as entry %d, reads %x (%v)", *at, m[len(m)-1], len(m)-1, v, err)}
			}
		case "fill":
			for i := 0; i < op.A; i++ {
				v := int64(mix(uint64(op.V), uint64(i)))
				if i&7 == 0 {
					v = -v >> 40
				}
				if err := x.app(v); err != nil {
					return &viol{"append", *at + ": " + err.Error()}
				}
				m = append(m, x.norm(v))
				if v, err := x.get(len(m) - 1); err != nil || v != m[len(m)-1] {
					return &viol{"append-readback", fmt.Sprintf("%s: appended %x as entry %d, reads %x (%v)", *at, m[len(m)-1], len(m)-1, v, err)}
				}
			}
		case "modify":
			err := x.mod(op.A, op.V)
			if (err == nil) != in {
				return &viol{"modify", fmt.Sprintf("%s of %d entries: %v", *at, len(m), err)}
			}
			if in {
				m[op.A] = x.norm(op.V)
			}
			dirty++
		case "get":
			v, err := x.get(op.A)
			if (err == nil) != in {
				return &viol{"index", fmt.Sprintf("%s of %d entries: %v", *at, len(m), err)}
			}
			if in && v != m[op.A] {
				return &viol{"entry", fmt.Sprintf("%s: %x, should be %x", *at, v, m[op.A])}
			}
			h = mix(h, uint64(v))
		case "lower", "upper":
			if x.lower == nil {
				continue
			}
			f, w := x.lower, int32(0)
			if in {
				w = int32(m[op.A])
			}
			if op.Op == "upper" {
				f = x.upper
				if in {
					w = int32(m[op.A] >> 32)
				}
			}
			v, err := f(op.A)
			if (err == nil) != in {
				return &viol{"index", fmt.Sprintf("%s of %d entries: %v", *at, len(m), err)}
			}
			if in && v != w {
				return &viol{"half", fmt.Sprintf("%s: %x of %x", *at, v, m[op.A])}
			}
		case "array":
			if x.arr == nil {
				continue
			}
			a, err := x.arr()
			if err != nil || len(a) != len(m) || len(a) > 0 && !reflect.DeepEqual(a, m) {
				return &viol{"array", fmt.Sprintf("%s: %d entries (%v), should be %d", *at, len(a), err, len(m))}
			}
			x.scribble()
		case "size":
			if s := x.b.GetSize(); s != size() {
				return &viol{"size", fmt.Sprintf("%s: %d, should be %d", *at, s, size())}
			}
		case "setsize":
			if op.A >= 0 && op.A < size() {
				st.probe("rolled back")
				st.Faults["abandoned entries rolled back"]++
			}
			x.b.SetSize(op.A)
			if op.A >= 0 && op.A <= size() {
				n := op.A
				if x.obj {
					n = min(len(m), op.A*page)
				}
				m = m[:n:n]
			}
			if v := whole(); v != nil {
				return v
			}
		case "clear":
			st.probe("cleared")
			x.b.Clear()
			m = nil
		}
		h = mix(h, hashStr(op.Op), uint64(op.A), uint64(len(m)))
		if len(m) > page {
			st.probe("operation on several pages")
		}
		if dirty > 8 {
			dirty = 0
			if v := whole(); v != nil {
				return v
			}
		}
	}
	*at = fmt.Sprintf("%s buffer, page exponent %d, after %d operations", b.Kind, b.Page, len(b.Ops))
	st.distinct(h)
	st.sample("%s: %d entries as in the model", *at, len(m))
	return whole()
}

func playBytes(b *BufScen, st *stats, at *string) *viol {
	data := append([]byte{}, b.Data...)
	x, err := buffer.NewUniByteBuffer(data)
	if err != nil {
		if len(data) > 0 {
			return &viol{"constructor", err.Error()}
		}
		return nil
	}
	if _, err := buffer.NewUniByteBuffer(nil); err == nil {
		return &viol{"constructor", "a byte buffer over nothing was accepted"}
	}
	h := hashStr(string(data))
	for k, op := range b.Ops {
		*at = fmt.Sprintf("byte buffer of %d, operation %d %s %d %d", len(data), k, op.Op, op.A, op.V)
		switch op.Op {
		case "get":
			v, err := x.ByteAt(op.A)
			in := op.A >= 0 && op.A < len(data)
			if (err == nil) != in || in && v != b.Data[op.A] {
				return &viol{"byte", fmt.Sprintf("%s: %x %v", *at, v, err)}
			}
		case "slice":
			n := int(op.V)
			v, err := x.GetByteSlice(op.A, n)
			legal := op.A >= 0 && op.A < len(data) && n >= 1 && n <= len(data)-op.A
			edge := legal && n == len(data)-op.A
			switch {
			case !legal && err == nil:
				return &viol{"range", fmt.Sprintf("%s: accepted", *at)}
			case legal && !edge && err != nil:
				return &viol{"range", fmt.Sprintf("%s: %v", *at, err)}
			case err == nil && string(v) != string(b.Data[op.A:op.A+n]):
				return &viol{"range", fmt.Sprintf("%s: %q, should be %q", *at, cut(string(v)), cut(string(b.Data[op.A:op.A+n])))}
			}
			st.distinct(h, uint64(op.A), uint64(n))
		case "size":
			if x.GetSize() != len(data) {
				return &viol{"size", fmt.Sprintf("%s: %d", *at, x.GetSize())}
			}
		case "array":
			if string(x.GetBytes()) != string(b.Data) {
				return &viol{"bytes", *at}
			}
		}
	}
	return nil
}
