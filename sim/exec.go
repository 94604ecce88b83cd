package main

import (
	"syscall"

	"vsim/ref"
)

// exec is one execution of a scenario.
type execution struct {
	host  *hostEnv
	res   [][]*obs
	sched *scheduler
	refs  []*ref.Result // of the delivered windows, filled on demand
}

func (e *execution) win(d int) []byte {
	a := &e.host.arenas[d]
	return a.b[a.off : a.off+a.n]
}

func (e *execution) ref(d int) *ref.Result {
	if e.refs[d] == nil {
		e.refs[d] = ref.Parse(e.win(d))
	}
	return e.refs[d]
}

// hugeArea is a sparse gigabyte of memory, mapped once per worker.
var hugeArea []byte

const hugeSize = 1<<30 + 1<<20

func hugeArena(d *Doc, w []byte) ([]byte, int, int) {
	if hugeArea == nil {
		m, err := syscall.Mmap(-1, 0, hugeSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
		if err != nil {
			panic("mmap: " + err.Error())
		}
		hugeArea = m
	}
	copy(hugeArea[d.Huge:], w)
	end := d.Huge + len(w)
	copy(hugeArea[end:], d.Post)
	n := end + len(d.Post)
	if n > len(hugeArea) {
		n = len(hugeArea)
	}
	return hugeArea[:n:n], d.Huge, len(w)
}

func dropHuge() {
	if hugeArea != nil {
		_ = syscall.Madvise(hugeArea, syscall.MADV_DONTNEED)
	}
}

// protArea holds documents that may not be written while the library works.
var protArea []byte

const protSize = 8 << 20

func protect(on bool) {
	p := syscall.PROT_READ | syscall.PROT_WRITE
	if on {
		p = syscall.PROT_READ
	}
	if err := syscall.Mprotect(protArea, p); err != nil {
		panic("mprotect: " + err.Error())
	}
}

func buildArenas(sc *Scenario) []arena {
	out := make([]arena, len(sc.Docs))
	used := 0
	for i := range sc.Docs {
		d := &sc.Docs[i]
		a := &out[i]
		if d.Huge > 0 {
			w, diff := d.apply()
			a.b, a.off, a.n = hugeArena(d, w)
			a.diff, a.huge = diff, true
			continue
		}
		a.b, a.off, a.n, a.diff = d.deliver()
		a.b = a.b[:len(a.b):len(a.b)]
		if sc.Protect && used+len(a.b) <= protSize {
			if protArea == nil {
				m, err := syscall.Mmap(-1, 0, protSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON)
				if err != nil {
					panic("mmap: " + err.Error())
				}
				protArea = m
			}
			copy(protArea[used:], a.b)
			a.b = protArea[used : used+len(a.b) : used+len(a.b)]
			used += (len(a.b) + 15) &^ 15
		}
	}
	return out
}

// execute runs the whole scenario once. Only the listed task runs if only >= 0.
func execute(sc *Scenario, only int) *execution {
	setCache(!sc.RealChars)
	h := &hostEnv{sc: sc, recycle: sc.Recycle && only < 0}
	e := &execution{host: h, refs: make([]*ref.Result, len(sc.Docs)), res: make([][]*obs, len(sc.Tasks))}
	h.arenas = buildArenas(sc)
	if sc.Protect {
		protect(true)
		defer protect(false)
	}
	for i := range sc.Setup {
		watched(func() { h.setup = append(h.setup, h.attempt(nil, &sc.Setup[i])) })
		// the tasks share what is left of it
		h.setup[i].c.quiet = true
	}
	body := func(t *simTask, ti int) {
		faultPanics()
		for i := range sc.Tasks[ti].Attempts {
			t.results = append(t.results, h.attempt(t, &sc.Tasks[ti].Attempts[i]))
		}
	}
	switch {
	case only >= 0:
		t := &simTask{}
		watched(func() { body(t, only) })
		e.res[only] = t.results
	case len(sc.Tasks) == 1:
		t := &simTask{}
		watched(func() { body(t, 0) })
		e.res[0] = t.results
	default:
		out := make([]*simTask, len(sc.Tasks))
		mean := sc.SchedMean
		if mean < 1 {
			mean = 10
		}
		e.sched = runTasks(len(sc.Tasks), func(t *simTask) {
			out[t.id] = t
			body(t, t.id)
		}, sc.Sched, newRng(sc.SchedGen), mean)
		for i := range out {
			e.res[i] = out[i].results
		}
	}
	return e
}

// each visits all attempts.
func (e *execution) each(f func(ti, ai int, a *Attempt, o *obs) *viol) *viol {
	for ti := range e.res {
		for ai, o := range e.res[ti] {
			if v := f(ti, ai, &e.host.sc.Tasks[ti].Attempts[ai], o); v != nil {
				return v
			}
		}
	}
	return nil
}
