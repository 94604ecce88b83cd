package main

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/buffer"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/parser"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/reader"
)

// ---------------------------------------------------------------- scheduler

// simTask is one client of the library. Of all tasks exactly one runs at any
// time; the scheduler decides which, for how many seam operations.
type simTask struct {
	id      int
	gid     atomic.Int64
	sched   *scheduler // nil: runs alone, nothing to decide
	q       int        // operations left before the baton goes back
	ran     int        // operations since the baton was taken
	resume  chan int
	fin     chan struct{}
	mem     []byte
	where   uint64 // hash of the seam the task stands at
	results []*obs
	crash   any
}

type handback struct {
	id   int
	ran  int
	done bool
	at   uint64
}

type scheduler struct {
	back chan handback
	log  []Slice
	hash uint64
	sw   int
	held int // times a task stood still in the library, waiting for another one
}

// yield gives the baton back. In race builds the hand-over is hidden from the
// race detector, so that it does not order the tasks' memory accesses.
func (t *simTask) yield(at uint64) {
	h := handback{id: t.id, ran: t.ran, at: at}
	t.ran = 0
	raceOff()
	t.sched.back <- h
	t.q = <-t.resume
	raceOn()
}

// runTasks lets the bodies run under the schedule drawn from r, or the recorded
// one if given.
func runTasks(n int, body func(t *simTask), recorded []Slice, r *rng, mean int) *scheduler {
	s := &scheduler{back: make(chan handback), hash: 1469598103934665603}
	tasks := make([]*simTask, n)
	for i := range tasks {
		t := &simTask{id: i, sched: s, resume: make(chan int), fin: make(chan struct{})}
		tasks[i] = t
		go func() {
			raceOff()
			t.gid.Store(goid())
			t.q = <-t.resume
			raceOn()
			body(t)
			close(t.fin)
			h := handback{id: t.id, ran: t.ran, done: true}
			raceOff()
			s.back <- h
			raceOn()
		}()
	}
	left := make([]int, n) // tasks that can be given the baton
	for i := range left {
		left[i] = i
	}
	drop := func(id int) {
		for i, l := range left {
			if l == id {
				left = append(left[:i], left[i+1:]...)
				break
			}
		}
	}
	waiting := map[int]bool{} // tasks that stand still in the library
	raceOff()
	watch.charge.Store(true)
	raceOn()
	defer func() {
		raceOff()
		watch.charge.Store(false)
		raceOn()
	}()
	pos := 0
	last := -1
	for len(left)+len(waiting) > 0 {
		var id, q int
		switch {
		case len(left) == 0:
			id = -1
		case recorded != nil && pos < len(recorded):
			id, q = recorded[pos].T, recorded[pos].Q
			pos++
			alive := false
			for _, l := range left {
				alive = alive || l == id
			}
			if !alive || q < 1 {
				continue
			}
		case recorded != nil:
			id, q = left[0], 1<<30
		default:
			id, q = left[r.n(len(left))], r.geo(mean)
			if r.p(10) {
				q *= 10 // bursts
			}
		}
		h, back := s.give(tasks, id, q)
		if !back {
			// it waits for another task: let that one run
			s.held++
			waiting[id] = true
			drop(id)
			s.log = append(s.log, Slice{id, q})
			last = id
			continue
		}
		if h.id != id {
			// one of those that waited goes on, at the same time as the others
			delete(waiting, h.id)
			if !h.done {
				left = append(left, h.id)
			}
			if id >= 0 {
				if h, back = s.finish(tasks, id, waiting, &left); !back {
					s.held++
					waiting[id] = true
					drop(id)
					s.log = append(s.log, Slice{id, q})
					last = id
					continue
				}
			} else {
				continue
			}
		}
		s.log = append(s.log, Slice{id, h.ran})
		if id != last {
			s.sw++
			s.hash = mix(s.hash, uint64(id), h.at)
		}
		last = id
		if h.done {
			drop(id)
		}
	}
	for _, t := range tasks {
		<-t.fin
	}
	return s
}

// give hands the baton to a task (-1: to none, only wait for those that stand
// still) and waits until one comes back. False: the task stands still.
func (s *scheduler) give(tasks []*simTask, id, q int) (handback, bool) {
	raceOff()
	defer raceOn()
	select {
	case <-stuck:
	default:
	}
	watch.beat.Add(1)
	if id < 0 {
		select {
		case h := <-s.back:
			return h, true
		case <-time.After(deadAfter):
			for _, t := range tasks {
				if st, where := waits(t.gid.Load()); st != "" && where != "" {
					deadlock(st, where)
				}
			}
			h := <-s.back
			return h, true
		}
	}
	tasks[id].resume <- q
	return s.await(tasks[id])
}

func (s *scheduler) await(t *simTask) (handback, bool) {
	watch.goid.Store(t.gid.Load())
	defer watch.goid.Store(0)
	select {
	case h := <-s.back:
		return h, true
	case <-stuck:
		return handback{}, false
	}
}

// finish waits for the task with the baton while others come back as well.
func (s *scheduler) finish(tasks []*simTask, id int, waiting map[int]bool, left *[]int) (handback, bool) {
	raceOff()
	defer raceOn()
	for {
		h, back := s.await(tasks[id])
		if !back || h.id == id {
			return h, back
		}
		delete(waiting, h.id)
		if !h.done {
			*left = append(*left, h.id)
		}
	}
}

// ---------------------------------------------------------------- seams

const (
	mGetChar = iota
	mGetLongCharAt
	mGetCharAt
	mSkipChar
	mSkipCharSeq
	mGetOffset
	mSetOffset
	mLongAt
	mLower32At
	mUpper32At
	mToLongArray
	mIntAt
	mToIntArray
	mObjectAt
	mByteAt
	mGetByteSlice
	mGetBytes
	mModifyEntry
	mAppend
	mGetSize
	mSetSize
	mClear
	nMeth
)

var methName = [nMeth]string{"GetChar", "GetLongCharAt", "GetCharAt", "SkipChar", "SkipCharSeq", "GetOffset", "SetOffset",
	"LongAt", "Lower32At", "Upper32At", "ToLongArray", "IntAt", "ToIntArray", "ObjectAt", "ByteAt", "GetByteSlice", "GetBytes",
	"ModifyEntry", "Append", "GetSize", "SetSize", "Clear"}

// canFail tells the operations that can report a failure.
var canFail = [nMeth]bool{mGetChar: true, mGetLongCharAt: true, mGetCharAt: true, mLongAt: true, mLower32At: true, mUpper32At: true,
	mToLongArray: true, mIntAt: true, mToIntArray: true, mObjectAt: true, mByteAt: true, mGetByteSlice: true, mModifyEntry: true, mAppend: true}

const (
	phParse = 0
	phNav   = 1
)

var phName = [2]string{"parse", "nav"}

// injected is the failure of a faulty component.
type injected struct{ what string }

func (e *injected) Error() string { return "injected failure: " + e.what }

func isInjected(err error) bool {
	var i *injected
	return errors.As(err, &i)
}

type crashT struct{ at string }
type budgetT struct{ steps int }

// ctx belongs to one attempt: its clock (operations done), its faults and the
// components it works with.
type ctx struct {
	task    *simTask
	phase   int
	quiet   bool // the simulator itself looks: no faults, no clock, no scheduling
	steps   int
	budget  int
	maxPos  int
	doc     []byte // the array the reading is followed in
	hw      int    // read up to here, as far as the reader seam has seen
	gap     bool   // a line end was consumed past the reader seam
	faults  []SeamFault
	fired   []string
	fireN   int
	comps   map[string]*comp
	pars    *parser.VtdParser
	rdField reflect.Value
	rdName  string
	longs   []*longSeam
	bare    bool
}

type arm struct {
	m, nth, kind int
	phase        int
	dead         bool // whole component, every failing operation
}

const (
	kError = iota
	kSticky
	kDead
	kCrash
)

var kindName = []string{"error", "sticky", "dead", "crash"}

type comp struct {
	c    *ctx
	name string
	h    uint64
	cnt  [2][nMeth]int
	arms []arm
	dead bool
}

// pause is a place between two calls of the library where a task of a run
// without seams can lose the baton.
func (c *ctx) pause(at uint64) {
	if !c.bare {
		return
	}
	c.steps++
	if t := c.task; t != nil && t.sched != nil {
		t.ran++
		if t.q--; t.q <= 0 {
			t.yield(at)
		}
	}
}

func (c *ctx) comp(name string) *comp {
	if k := c.comps[name]; k != nil {
		return k
	}
	k := &comp{c: c, name: name, h: hashStr(name)}
	for _, f := range c.faults {
		i := strings.LastIndexByte(f.Seam, '.')
		if i < 0 || f.Seam[:i] != name {
			continue
		}
		for m := range methName {
			if methName[m] == f.Seam[i+1:] {
				a := arm{m: m, nth: f.Nth}
				if f.Phase == "nav" {
					a.phase = phNav
				}
				for ki, kn := range kindName {
					if kn == f.Kind {
						a.kind = ki
					}
				}
				k.arms = append(k.arms, a)
			}
		}
	}
	if c.comps == nil {
		c.comps = map[string]*comp{}
	}
	c.comps[name] = k
	return k
}

// op is the one place every seam operation passes.
func (k *comp) op(m int) error {
	c := k.c
	if c.quiet {
		return nil
	}
	c.steps++
	if c.steps > c.budget {
		panic(budgetT{c.steps})
	}
	k.cnt[c.phase][m]++
	if t := c.task; t != nil && t.sched != nil {
		t.ran++
		if t.q--; t.q <= 0 {
			t.yield(k.h + uint64(m))
		}
	}
	if k.dead && canFail[m] {
		c.fireN++
		return &injected{k.name + " is dead"}
	}
	if k.arms != nil {
		return k.fault(m)
	}
	return nil
}

func (k *comp) fault(m int) error {
	c := k.c
	n := k.cnt[c.phase][m]
	for i := range k.arms {
		a := &k.arms[i]
		if a.m != m || a.phase != c.phase {
			continue
		}
		switch {
		case n == a.nth:
			c.fired = append(c.fired, kindName[a.kind]+" "+phName[c.phase]+" "+k.name+"."+methName[m])
		case n > a.nth && a.kind == kSticky:
		default:
			continue
		}
		switch a.kind {
		case kCrash:
			panic(crashT{k.name + "." + methName[m]})
		case kDead:
			k.dead = true
		}
		if canFail[m] {
			c.fireN++
			return &injected{fmt.Sprintf("%s.%s #%d", k.name, methName[m], n)}
		}
	}
	return nil
}

// rewrapReader puts the reader seam back when the parser has replaced its
// reader, as it does after the encoding declaration.
func (k *comp) rewrapReader() {
	c := k.c
	if c.pars == nil || !c.rdField.IsValid() {
		return
	}
	if _, is := c.rdField.Interface().(*rdSeam); !is && !c.rdField.IsNil() {
		w := &rdSeam{c.comp(c.rdName), c.rdField.Interface().(reader.Reader)}
		c.rdField.Set(reflect.ValueOf(w))
		w.pos(w.in.GetOffset())
		c.reached(w.in.GetOffset())
	}
}

type rdSeam struct {
	*comp
	in reader.Reader
}

func (w *rdSeam) pos(p int) {
	if p > w.c.maxPos && !w.c.quiet {
		w.c.maxPos = p
	}
}

// reached tells that everything in front of p has been consumed.
func (c *ctx) reached(p int) {
	if p <= c.hw || c.quiet {
		return
	}
	if !c.gap && c.hw >= 0 && p <= len(c.doc) && bytes.IndexByte(c.doc[c.hw:p], '\n') >= 0 {
		c.gap = true
	}
	c.hw = p
}

// took tells that the reader has moved from p to its present place.
func (w *rdSeam) took(p int) {
	w.c.reached(p)
	p = w.in.GetOffset()
	w.pos(p)
	if p > w.c.hw && !w.c.quiet {
		w.c.hw = p
	}
}

// unread tells whether there are line ends the reader seam has not seen being
// read before the window ends.
func (c *ctx) unread(end int) bool {
	return c.gap || c.hw < 0 || c.hw < end && bytes.IndexByte(c.doc[c.hw:end], '\n') >= 0
}

// follows tells whether the seam is still what the parser reads by.
func (c *ctx) follows() bool {
	if !c.rdField.IsValid() || c.rdField.IsNil() {
		return false
	}
	_, is := c.rdField.Interface().(*rdSeam)
	return is && !c.gap
}

func (w *rdSeam) GetChar() (uint32, error) {
	if e := w.op(mGetChar); e != nil {
		return 0, e
	}
	p := w.in.GetOffset()
	v, err := w.in.GetChar()
	w.took(p)
	return v, err
}
func (w *rdSeam) GetLongCharAt(o int32) (uint64, error) {
	if e := w.op(mGetLongCharAt); e != nil {
		return 0, e
	}
	v, err := w.in.GetLongCharAt(o)
	if err == nil {
		w.pos(int(o) + int(v>>32))
	} else {
		w.pos(int(o))
	}
	return v, err
}
func (w *rdSeam) GetCharAt(o int32) (uint32, error) {
	if e := w.op(mGetCharAt); e != nil {
		return 0, e
	}
	w.pos(int(o) + 1)
	return w.in.GetCharAt(o)
}
func (w *rdSeam) SkipChar(ch uint32) bool {
	_ = w.op(mSkipChar)
	p := w.in.GetOffset()
	b := w.in.SkipChar(ch)
	w.took(p)
	return b
}
func (w *rdSeam) SkipCharSeq(s string) bool {
	_ = w.op(mSkipCharSeq)
	p := w.in.GetOffset()
	b := w.in.SkipCharSeq(s)
	w.took(p)
	return b
}
func (w *rdSeam) GetOffset() int { _ = w.op(mGetOffset); return w.in.GetOffset() }
func (w *rdSeam) SetOffset(o int) {
	_ = w.op(mSetOffset)
	w.in.SetOffset(o)
	w.pos(o)
	w.c.reached(o)
}

type longSeam struct {
	*comp
	in buffer.LongBuffer
}

func (w *longSeam) GetSize() int  { _ = w.op(mGetSize); return w.in.GetSize() }
func (w *longSeam) SetSize(n int) { _ = w.op(mSetSize); w.in.SetSize(n) }
func (w *longSeam) Clear()        { _ = w.op(mClear); w.in.Clear() }
func (w *longSeam) LongAt(i int) (int64, error) {
	if e := w.op(mLongAt); e != nil {
		return 0, e
	}
	return w.in.LongAt(i)
}
func (w *longSeam) ModifyEntry(i int, v int64) error {
	if e := w.op(mModifyEntry); e != nil {
		return e
	}
	return w.in.ModifyEntry(i, v)
}
func (w *longSeam) Lower32At(i int) (int32, error) {
	if e := w.op(mLower32At); e != nil {
		return 0, e
	}
	return w.in.Lower32At(i)
}
func (w *longSeam) Upper32At(i int) (int32, error) {
	if e := w.op(mUpper32At); e != nil {
		return 0, e
	}
	return w.in.Upper32At(i)
}
func (w *longSeam) ToLongArray() ([]int64, error) {
	if e := w.op(mToLongArray); e != nil {
		return nil, e
	}
	return w.in.ToLongArray()
}
func (w *longSeam) Append(v int64) error {
	w.rewrapReader()
	if e := w.op(mAppend); e != nil {
		return e
	}
	return w.in.Append(v)
}

type intSeam struct {
	*comp
	in buffer.IntBuffer
}

func (w *intSeam) GetSize() int  { _ = w.op(mGetSize); return w.in.GetSize() }
func (w *intSeam) SetSize(n int) { _ = w.op(mSetSize); w.in.SetSize(n) }
func (w *intSeam) Clear()        { _ = w.op(mClear); w.in.Clear() }
func (w *intSeam) IntAt(i int) (int32, error) {
	if e := w.op(mIntAt); e != nil {
		return 0, e
	}
	return w.in.IntAt(i)
}
func (w *intSeam) ModifyEntry(i int, v int32) error {
	if e := w.op(mModifyEntry); e != nil {
		return e
	}
	return w.in.ModifyEntry(i, v)
}
func (w *intSeam) ToIntArray() ([]int32, error) {
	if e := w.op(mToIntArray); e != nil {
		return nil, e
	}
	return w.in.ToIntArray()
}
func (w *intSeam) Append(v int32) error {
	if e := w.op(mAppend); e != nil {
		return e
	}
	return w.in.Append(v)
}

type objSeam struct {
	*comp
	in buffer.ObjectBuffer
}

func (w *objSeam) GetSize() int  { _ = w.op(mGetSize); return w.in.GetSize() }
func (w *objSeam) SetSize(n int) { _ = w.op(mSetSize); w.in.SetSize(n) }
func (w *objSeam) Clear()        { _ = w.op(mClear); w.in.Clear() }
func (w *objSeam) ObjectAt(i int) (interface{}, error) {
	if e := w.op(mObjectAt); e != nil {
		return nil, e
	}
	return w.in.ObjectAt(i)
}
func (w *objSeam) ModifyEntry(i int, v interface{}) error {
	if e := w.op(mModifyEntry); e != nil {
		return e
	}
	return w.in.ModifyEntry(i, v)
}
func (w *objSeam) Append(v interface{}) error {
	if e := w.op(mAppend); e != nil {
		return e
	}
	return w.in.Append(v)
}

type byteSeam struct {
	*comp
	in buffer.ByteBuffer
}

func (w *byteSeam) GetSize() int     { _ = w.op(mGetSize); return w.in.GetSize() }
func (w *byteSeam) SetSize(n int)    { _ = w.op(mSetSize); w.in.SetSize(n) }
func (w *byteSeam) Clear()           { _ = w.op(mClear); w.in.Clear() }
func (w *byteSeam) GetBytes() []byte { _ = w.op(mGetBytes); return w.in.GetBytes() }
func (w *byteSeam) ByteAt(i int) (byte, error) {
	if e := w.op(mByteAt); e != nil {
		return 0, e
	}
	return w.in.ByteAt(i)
}
func (w *byteSeam) GetByteSlice(o, n int) ([]byte, error) {
	if e := w.op(mGetByteSlice); e != nil {
		return nil, e
	}
	return w.in.GetByteSlice(o, n)
}

// attach replaces every component of a parser or navigator by a seam. It goes
// by the type of the component, not by the name of the field.
func (c *ctx) attach(obj any) {
	seen := map[uintptr]bool{}
	c.walk(reflect.ValueOf(obj).Elem(), "", seen, 0)
}

func writable(v reflect.Value) reflect.Value {
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

func (c *ctx) walk(v reflect.Value, path string, seen map[uintptr]bool, depth int) {
	if depth > 4 {
		return
	}
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			n := v.Type().Field(i).Name
			if path != "" {
				n = path + "/" + n
			}
			c.walk(v.Field(i), n, seen, depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			c.walk(v.Index(i), fmt.Sprintf("%s%d", path, i), seen, depth+1)
		}
	case reflect.Slice:
		k := v.Type().Elem().Kind()
		if k != reflect.Interface && k != reflect.Struct && k != reflect.Ptr || v.Len() > 64 {
			return
		}
		for i := 0; i < v.Len(); i++ {
			c.walk(v.Index(i), fmt.Sprintf("%s%d", path, i), seen, depth+1)
		}
	case reflect.Ptr:
		t := v.Type().Elem()
		if v.IsNil() || t.Kind() != reflect.Struct || !strings.Contains(t.PkgPath(), "go-vtd-xml") || seen[v.Pointer()] {
			return
		}
		if strings.HasSuffix(t.PkgPath(), "/buffer") || strings.HasSuffix(t.PkgPath(), "/reader") || strings.HasSuffix(t.PkgPath(), "/common") {
			return
		}
		seen[v.Pointer()] = true
		c.walk(v.Elem(), path, seen, depth+1)
	case reflect.Interface:
		if v.IsNil() || !v.CanAddr() {
			return
		}
		f := writable(v)
		w := c.wrap(path, f.Interface())
		if w == nil {
			return
		}
		wv := reflect.ValueOf(w)
		if !wv.Type().AssignableTo(f.Type()) {
			return
		}
		if c.bare {
			return
		}
		f.Set(wv)
		if _, ok := w.(*rdSeam); ok {
			c.rdField, c.rdName = f, path
		}
	}
}

func (c *ctx) wrap(name string, x any) any {
	switch w := x.(type) {
	case *rdSeam:
		x = w.in
	case *longSeam:
		x = w.in
	case *intSeam:
		x = w.in
	case *objSeam:
		x = w.in
	case *byteSeam:
		x = w.in
	}
	switch in := x.(type) {
	case reader.Reader:
		return &rdSeam{c.comp(name), in}
	case buffer.LongBuffer:
		w := &longSeam{c.comp(name), in}
		known := false
		if reflect.TypeOf(in).Comparable() {
			for _, l := range c.longs {
				known = known || reflect.TypeOf(l.in).Comparable() && l.in == in
			}
		}
		if !known {
			c.longs = append(c.longs, w)
		}
		return w
	case buffer.IntBuffer:
		return &intSeam{c.comp(name), in}
	case buffer.ObjectBuffer:
		return &objSeam{c.comp(name), in}
	case buffer.ByteBuffer:
		return &byteSeam{c.comp(name), in}
	}
	return nil
}

// ---------------------------------------------------------------- attempts

type errO struct {
	Kind string // "" no error, otherwise the error's type
	Msg  string
	Line string // the line number field of a parse error
	Inj  bool
}

func (e errO) bad() bool { return e.Kind != "" }

func (e errO) String() string {
	if e.Kind == "" {
		return "nil"
	}
	s := e.Kind + "(" + e.Msg + ")"
	if e.Inj {
		s += "[injected]"
	}
	return s
}

type tokO struct{ Kind, Off, Len, Depth int32 }

type opO struct {
	OK   bool
	Err  errO
	Cur  int32
	CurE bool
	S    string
	T    tokO
	Fire int // faults that fired during the operation
	Cur2 int32
}

type obs struct {
	New, Parse errO
	Parsed     bool // Parse was called and returned
	Again      []errO
	Nav        errO
	HasNav     bool
	Size       int
	Cur        int32
	Toks       []tokO
	DumpErr    string
	Ops        []opO
	End        string // "" ran to its end, otherwise crash, budget, panic
	EndMsg     string
	Steps      int
	MaxPos     int
	Fired      []string
	FireParse  int // errors injected during the first Parse
	Index      []int64
	c          *ctx
	pars       *parser.VtdParser
	nav, nav2  *navigation.VtdNav
}

func (o *obs) ok() bool { return o.Parsed && !o.Parse.bad() && !o.New.bad() }

func oneLine(s string) string { return strings.Join(strings.Fields(s), " ") }

func errOf(err error) errO {
	if err == nil {
		return errO{}
	}
	e := errO{Kind: kindOf(err), Msg: err.Error(), Inj: isInjected(err)}
	e.Line = lineOf(err)
	return e
}

type hostEnv struct {
	arenas []arena
	setup  []*obs
	sc     *Scenario

	recycle bool
}

type arena struct {
	b      []byte
	off, n int
	diff   int
	huge   bool
}

func budgetFor(n int) int { return 10000 + 100*n + n/100*n }

func dirOf(a int) navigation.Direction {
	all := [...]navigation.Direction{navigation.Root, navigation.Parent, navigation.FirstChild, navigation.LastChild, navigation.NextSibling, navigation.PrevSibling}
	if a >= 0 && a < len(all) {
		return all[a]
	}
	return navigation.Direction(a)
}

// attempt runs one attempt to its end, or to its crash.
func (h *hostEnv) attempt(t *simTask, a *Attempt) (o *obs) {
	o = &obs{Cur: -99}
	ar := &h.arenas[a.Doc]
	if h.recycle && t != nil && a.Shared == 0 && !ar.huge {
		// read the document over the previous one
		again := *ar
		if t.mem == nil {
			n := 0
			for i := range h.arenas {
				if l := len(h.arenas[i].b); l > n && !h.arenas[i].huge {
					n = l
				}
			}
			t.mem = make([]byte, n)
		}
		k := copy(t.mem, ar.b)
		again.b = t.mem[:k:k]
		ar = &again
	}
	n := ar.n
	if (a.Whole || a.Win != nil) && !ar.huge {
		n = len(ar.b)
	}
	c := &ctx{task: t, faults: a.Faults, budget: budgetFor(n), bare: h.sc.Bare, doc: ar.b, hw: ar.off}
	o.c = c
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case crashT:
				o.End, o.EndMsg = "crash", x.at
			case budgetT:
				o.End, o.EndMsg = "budget", fmt.Sprintf("still running after %d component operations", x.steps)
			default:
				o.End, o.EndMsg = "panic", panicText(r)
			}
		}
		o.Steps = c.steps
		o.MaxPos = c.maxPos
		o.Fired = c.fired
	}()
	if a.Shared == 0 {
		opts := make([]parser.Option, 0, 4)
		doc := ar.b
		if a.NilDoc {
			doc = nil
		}
		switch {
		case a.Win != nil:
			opts = append(opts, parser.WithXmlDocCustomOffset(doc, a.Win[0], a.Win[1]))
		case a.Whole:
			opts = append(opts, parser.WithXmlDoc(doc))
		default:
			opts = append(opts, parser.WithXmlDocCustomOffset(doc, ar.off, ar.n))
		}
		opts = append(opts, parser.WithNameSpaceAware(a.Ns))
		if a.Lc != 0 {
			opts = append(opts, parser.WithLcDepth(a.Lc))
		}
		if a.Reuse {
			opts = append(opts, parser.WithBufferReuse(true))
		}
		c.pause(1)
		p, err := parser.NewVtdParser(opts...)
		o.New = errOf(err)
		if err != nil {
			return
		}
		c.attach(p)
		c.pars = p
		o.pars = p
		c.pause(2)
		err = p.Parse()
		o.Parsed = true
		o.Parse = errOf(err)
		o.FireParse = c.fireN
		for i := 0; i < a.Again; i++ {
			c.pause(3)
			o.Again = append(o.Again, errOf(p.Parse()))
		}
		if !a.Nav && len(a.Ops) == 0 {
			return
		}
		c.pause(4)
		nav, err := p.GetNav()
		o.Nav = errOf(err)
		if err != nil {
			return
		}
		o.nav = nav
	} else {
		c.pause(4)
		nav, err := h.setup[a.Shared-1].pars.GetNav()
		o.Nav = errOf(err)
		if err != nil {
			return
		}
		o.nav = nav
	}
	o.HasNav = true
	c.attach(o.nav)
	c.phase = phNav
	c.pause(5)
	c.quiet = true
	h.dump(o)
	c.quiet = false
	if h.sc.Prop == "C08" {
		o.Index = indexOf(c)
	}
	if len(a.Ops) > 0 {
		h.ops(a, o, ar)
	}
	return
}

// indexOf reads all long buffers an attempt has come to know.
func indexOf(c *ctx) []int64 {
	var out []int64
	for _, w := range c.longs {
		l, err := w.in.ToLongArray()
		out = append(out, int64(len(l)))
		if err == nil {
			out = append(out, l...)
		}
	}
	return out
}

func (h *hostEnv) dump(o *obs) {
	nav := o.nav
	o.Size = nav.GetVtdBufferSize()
	cur, err := nav.GetCurrentIndex()
	o.Cur = cur
	if err != nil {
		o.DumpErr = "GetCurrentIndex: " + err.Error()
	}
	o.Toks = make([]tokO, 0, o.Size)
	// the length of a split token is the sum over its continuations, which is
	// fine for a handful of them
	for i := 0; i < o.Size; i++ {
		var t tokO
		var e1, e2, e3, e4 error
		t.Kind, e1 = nav.GetTokenType(i)
		t.Off, e2 = nav.GetTokenOffset(i)
		t.Len, e3 = nav.GetTokenLength(i)
		t.Depth, e4 = nav.GetTokenDepth(i)
		if e := errors.Join(e1, e2, e3, e4); e != nil {
			o.DumpErr = fmt.Sprintf("token %d: %v", i, e)
			return
		}
		o.Toks = append(o.Toks, t)
	}
}

func (h *hostEnv) ops(a *Attempt, o *obs, ar *arena) {
	nav, c := o.nav, o.c
	for _, op := range a.Ops {
		r := opO{}
		c.pause(6 + hashStr(op.Op))
		f0 := c.fireN
		c.budget = c.steps + 20000 + 40*ar.n + 40*len(o.Toks)
		var err error
		switch op.Op {
		case "move":
			r.OK, err = nav.ToElement(dirOf(op.A))
		case "raw":
			r.S, err = nav.ToRawStringAtIndex(op.A)
		case "str":
			r.S, err = nav.ToStringAtIndex(op.A)
		case "rawr":
			r.S, err = nav.ToRawStringAtRange(int32(ar.off+op.A), int32(op.B))
		case "strr":
			r.S, err = nav.ToStringAtRange(int32(ar.off+op.A), int32(op.B))
		case "tok":
			var e error
			r.T.Kind, err = nav.GetTokenType(op.A)
			r.T.Off, e = nav.GetTokenOffset(op.A)
			err = errors.Join(err, e)
			r.T.Len, e = nav.GetTokenLength(op.A)
			err = errors.Join(err, e)
			r.T.Depth, e = nav.GetTokenDepth(op.A)
			err = errors.Join(err, e)
		case "again":
			if o.pars != nil {
				err = o.pars.Parse()
			}
		case "fork":
			p := o.pars
			if p == nil {
				p = h.setup[a.Shared-1].pars
			}
			var n2 *navigation.VtdNav
			if n2, err = p.GetNav(); err == nil {
				o.nav2 = n2
				c.attach(n2)
			}
		case "move2":
			if o.nav2 != nil {
				r.OK, err = o.nav2.ToElement(dirOf(op.A))
			}
		case "edit":
			if op.A >= 0 && op.A < ar.n {
				ar.b[ar.off+op.A] = byte(op.B)
			}
		}
		r.Err = errOf(err)
		r.Fire = c.fireN - f0
		c.quiet = true
		cur, ce := nav.GetCurrentIndex()
		r.Cur, r.CurE = cur, ce != nil
		if o.nav2 != nil {
			r.Cur2, ce = o.nav2.GetCurrentIndex()
			r.CurE = r.CurE || ce != nil
		}
		c.quiet = false
		o.Ops = append(o.Ops, r)
	}
}

func panicText(r any) string {
	st := string(debug.Stack())
	var where []string
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, "go-vtd-xml") && strings.HasPrefix(l, "github.com") {
			if i := strings.IndexByte(l, '('); i > 0 && strings.Contains(l, ").") {
				l = l[strings.LastIndexByte(l[:len(l)-1], '/')+1:]
			}
			where = append(where, oneLine(l[strings.LastIndexByte(l, '/')+1:]))
			if len(where) == 2 {
				break
			}
		}
	}
	var re runtime.Error
	s := fmt.Sprint(r)
	if e, ok := r.(error); ok && errors.As(e, &re) {
		s = re.Error()
	}
	if len(where) > 0 {
		for i := range where {
			if j := strings.Index(where[i], "(0x"); j > 0 {
				where[i] = where[i][:j]
			}
		}
		s += " in " + strings.Join(where, " < ")
	}
	return s
}
