package main

import (
	"bytes"
	"fmt"
	"sort"

	"vsim/ref"
)

// prop is one property: how its scenarios are made and how they are judged.
type prop struct {
	id    string
	gen   func(r *rng, sc *Scenario, big bool)
	check func(sc *Scenario, st *stats) *viol
	rule  string
}

var props = map[string]*prop{}

func register(p *prop) { props[p.id] = p }

// ---------------------------------------------------------------- generation

// points lists the seam operations an attempt made, for placing faults.
type point struct {
	seam  string
	count int
	fail  bool
}

func points(c *ctx, phase int) map[string][]point {
	out := map[string][]point{}
	if c == nil {
		return out
	}
	for n, k := range c.comps {
		for m := 0; m < nMeth; m++ {
			if k.cnt[phase][m] > 0 {
				out[n] = append(out[n], point{n + "." + methName[m], k.cnt[phase][m], canFail[m]})
			}
		}
	}
	return out
}

// drawFault chooses a place uniformly over components, then operations, then
// occurrences, with a bias to the first and the last.
func drawFault(r *rng, c *ctx, phase int, crash bool) (SeamFault, bool) {
	pts := points(c, phase)
	names := make([]string, 0, len(pts))
	for n, l := range pts {
		ok := crash
		for _, p := range l {
			ok = ok || p.fail
		}
		if ok {
			names = append(names, n)
		}
	}
	if len(names) == 0 {
		return SeamFault{}, false
	}
	sort.Strings(names)
	l := pts[names[r.n(len(names))]]
	if !crash {
		k := l[:0:0]
		for _, p := range l {
			if p.fail {
				k = append(k, p)
			}
		}
		l = k
	}
	p := l[r.n(len(l))]
	f := SeamFault{Phase: phName[phase], Seam: p.seam, Nth: 1 + r.n(p.count), Kind: "error"}
	switch r.n(8) {
	case 0:
		f.Nth = 1
	case 1:
		f.Nth = p.count
	case 2:
		f.Nth = clamp(p.count-r.n(4), 1, p.count)
	}
	switch {
	case crash:
		f.Kind = "crash"
	case r.p(15):
		f.Kind = "sticky"
	case r.p(15):
		f.Kind = "dead"
	}
	return f, true
}

func drawAttempt(r *rng, doc int) Attempt {
	a := Attempt{Doc: doc}
	a.Ns = r.p(50)
	a.Lc = []int{0, 3, 5, 5}[r.n(4)]
	a.Reuse = r.p(10)
	return a
}

// stale is what another document left around the window.
func stale(r *rng, front bool) string {
	switch r.n(8) {
	case 0, 1:
		d := genAny(r, false)
		if len(d) > 400 {
			d = d[:400]
		}
		if r.p(50) && len(d) > 2 {
			k := r.n(len(d))
			if front {
				d = d[:k]
			} else {
				d = d[k:]
			}
		}
		return string(d)
	case 2:
		s := ""
		for k := r.in(1, 12); k > 0; k-- {
			s += r.pick("\n", "\n", "\r\n", " ", "x\n")
		}
		return s
	case 3:
		s := ""
		for k := r.in(1, 4); k > 0; k-- {
			s += fragment(r)
		}
		return s
	case 4:
		return r.pick("<", "</", "<!--", "<![CDATA[", "<?", "&", "&#", "&#x4", "\"", "'", "\xEF\xBB\xBF", "\xEF", "\xEF\xBB", "\xF0\x9F", "<?xml version='1.0' encoding='US-ASCII'?>", "<!DOCTYPE a [", "a='")
	case 5:
		return r.pick(">", "/>", "</a>", "-->", "]]>", "?>", ";", "amp;", "41;", "=''>", "'", "\"", "\xA9", "\x98\x80", "\x00", "\xFF", "   ", "/a>", "!", "-", "]", "?", "#65;", "<!-- c -->", "<?p?>", "\n")
	case 6:
		return string(bytes.Repeat([]byte{byte(r.pickN(0, ' ', '\n', '<', '>', '&', 0xFF, 'a', '"'))}, r.in(1, 70)))
	default:
		return ""
	}
}

func surround(r *rng, d *Doc) {
	switch r.n(5) {
	case 0:
	case 1:
		d.Pre = Blob(stale(r, true))
	case 2:
		d.Post = Blob(stale(r, false))
	default:
		d.Pre = Blob(stale(r, true))
		d.Post = Blob(stale(r, false))
	}
	// what the cut took away may still lie there
	for _, f := range d.Faults {
		if f.Kind == "cut" && r.p(50) && f.At < len(d.Orig) {
			d.Post = append(Blob(nil), d.Orig[f.At:]...)
		}
	}
	// page classes make the arena start anywhere
	if r.one(30) {
		d.Pre = append(bytes.Repeat([]byte("\n"), r.pickN(1000, 4095, 4096, 16384, 65536)), d.Pre...)
	}
}

func soup(r *rng) []byte {
	var b []byte
	for k := r.in(1, 12); k > 0; k-- {
		switch r.n(5) {
		case 0:
			b = append(b, byte(r.n(256)))
		case 1:
			b = append(b, significant[r.n(len(significant))])
		default:
			b = append(b, fragment(r)...)
		}
	}
	return b
}

// bakeless returns a survivor: damaged bytes that still are (or may be) a
// well-formed document, if one is found.
func survivor(r *rng, d *Doc, kinds []string) bool {
	for k := 0; k < 12; k++ {
		d.Faults = genFaults(r, d.Orig, kinds)
		w, _ := d.apply()
		if len(w) > 0 && ref.Parse(w).Verdict != ref.NotWF {
			return true
		}
	}
	d.Faults = nil
	return false
}

// ---------------------------------------------------------------- stats

type stats struct {
	Runs     int
	Execs    int
	Attempts int
	Steps    int64
	Bytes    int64
	Faults   map[string]int
	Seams    map[string]int
	Probes   map[string]int
	fps      map[uint64]struct{}
	sched    map[uint64]struct{}
	Samples  []string
	quiet    bool
}

func newStats() *stats {
	return &stats{Faults: map[string]int{}, Seams: map[string]int{}, Probes: map[string]int{}, fps: map[uint64]struct{}{}, sched: map[uint64]struct{}{}}
}

func (s *stats) probe(n string) {
	if !s.quiet {
		s.Probes[n]++
	}
}

// distinct records the fingerprint of a non-trivial case.
func (s *stats) distinct(vals ...uint64) {
	if s.quiet || len(s.fps) > 4_000_000 {
		return
	}
	s.fps[mix(vals...)] = struct{}{}
}

func (s *stats) sample(format string, a ...any) {
	if s.quiet || len(s.Samples) >= 4 || s.Runs < 20 {
		return
	}
	s.Samples = append(s.Samples, fmt.Sprintf(format, a...))
}

// account adds what an execution did.
func (s *stats) account(sc *Scenario, e *execution) {
	if s.quiet {
		return
	}
	s.Execs++
	for i := range sc.Docs {
		for _, f := range sc.Docs[i].Faults {
			s.Faults["storage "+f.Kind]++
		}
	}
	for ti := range e.res {
		for _, o := range e.res[ti] {
			s.Attempts++
			s.Steps += int64(o.Steps)
			s.Bytes += int64(len(o.Toks))
			for _, f := range o.Fired {
				k := bytes.IndexByte([]byte(f), ' ')
				s.Faults["component "+f[:k]]++
				s.Seams[f[k+1:]]++
			}
			switch {
			case o.End != "":
				s.Probes["attempt ended by "+o.End]++
			case o.New.bad():
				s.Probes["refused by the constructor"]++
			case o.Parsed && o.Parse.bad():
				s.Probes["rejected: "+o.Parse.Kind]++
			case o.Parsed:
				s.Probes["accepted"]++
			}
		}
	}
	if sc.Recycle {
		s.Probes["documents read into recycled memory"]++
	}
	if sc.Bare {
		s.Probes["executed without seams inside"]++
	}
	if e.sched != nil {
		if len(s.sched) < 4_000_000 {
			s.sched[e.sched.hash] = struct{}{}
		}
		s.Probes["task switches"] += e.sched.sw
		s.Faults["schedule preemption"] += e.sched.sw
	}
}

var featName = []string{"declaration", "byte order mark", "DOCTYPE", "comment", "PI", "CDATA", "character reference", "built-in reference",
	"namespace declaration", "deep nesting", "epilog", "more than 256 attributes", "split text", "non-ASCII", "leaf with white space", "self-closing", "mixed content", "carriage return", "encoding declared"}

func (s *stats) features(f uint64) {
	if s.quiet {
		return
	}
	for i, n := range featName {
		if f&(1<<i) != 0 {
			s.Probes["doc: "+n]++
		}
	}
}

func outcomeHash(o *obs) uint64 {
	h := mix(hashStr(o.Parse.Kind), hashStr(o.Parse.Msg), hashStr(o.End), hashStr(o.New.Msg), uint64(len(o.Toks)))
	for _, f := range o.Fired {
		h = mix(h, hashStr(f))
	}
	return h
}

// dryRun executes the scenario without component faults and returns the
// contexts of one attempt.
func dryCtx(sc *Scenario, ti, ai int) *ctx {
	a := &sc.Tasks[ti].Attempts[ai]
	save := a.Faults
	a.Faults = nil
	h := &hostEnv{sc: sc}
	setCache(true)
	h.arenas = buildArenas(sc)
	for i := range sc.Setup {
		watched(func() { h.setup = append(h.setup, h.attempt(nil, &sc.Setup[i])) })
	}
	var o *obs
	watched(func() { o = h.attempt(&simTask{}, a) })
	a.Faults = save
	if o.End != "" {
		return nil
	}
	return o.c
}

func fatals(e *execution) *viol {
	return e.each(func(ti, ai int, a *Attempt, o *obs) *viol { return o.fatal() })
}
