package main

import (
	"fmt"
	"os"
	"reflect"
	"runtime"
	"strings"
	"syscall"
	"time"

	"vsim/ref"
)

func init() {
	register(&prop{id: "C06", rule: "2 to 5 tasks, some failing or crashing and restarted, over own or shared documents and finished indexes, under a drawn schedule; each task's whole observable result is compared with the same task running alone; distinct by schedule and results",
		gen: genC06, check: checkC06})
	register(&prop{id: "C08", rule: "parses and navigation histories over write-protected documents with captured standard streams; distinct by (document, how it ended, operations)",
		gen: genC08, check: checkC08})
	register(&prop{id: "C10", rule: "histories of moves, some with failing index reads, by one or several interleaved navigators; distinct by (tree shape, path of cursor positions, faults)",
		gen: genC10, check: checkC10})
	register(&prop{id: "C11", rule: "extractions from indexes whose stored bytes were damaged after the parse or whose reads fail; distinct by (bytes extracted, result, faults)",
		gen: genC11, check: checkC11})
}

func randomMoves(r *rng, n int) []NavOp {
	var ops []NavOp
	// a mood keeps walks from jittering around the root
	mood := r.n(4)
	for k := 0; k < n; k++ {
		d := 0
		switch mood {
		case 0:
			d = r.pickN(2, 3, 4, 5, 1)
		case 1:
			d = r.pickN(2, 2, 2, 4, 4, 1)
		case 2:
			d = r.pickN(3, 3, 5, 5, 1, 4)
		default:
			d = r.pickN(0, 1, 2, 3, 4, 5)
		}
		if r.one(60) {
			d = r.pickN(-1, 6, 7, 100, -100)
		}
		if r.p(8) {
			mood = r.n(4)
		}
		rep := 1
		if r.p(8) {
			rep = r.in(2, 30)
		}
		for ; rep > 0; rep-- {
			ops = append(ops, NavOp{Op: "move", A: d})
		}
	}
	return ops
}

// others mixes in what else a client may do with the parser and its index.
func others(r *rng, ops []NavOp) []NavOp {
	if !r.p(15) {
		return ops
	}
	put := func(op NavOp) {
		i := r.n(len(ops) + 1)
		ops = append(ops[:i], append([]NavOp{op}, ops[i:]...)...)
	}
	if r.p(60) {
		put(NavOp{Op: "again"})
	}
	if r.p(60) {
		k := r.n(len(ops) + 1)
		for z := r.in(1, 10); z > 0; z-- {
			i := k + r.n(len(ops)-k+1)
			ops = append(ops[:i], append([]NavOp{{Op: "move2", A: r.pickN(0, 1, 2, 2, 3, 4, 5)}}, ops[i:]...)...)
		}
		ops = append(ops[:k], append([]NavOp{{Op: "fork"}}, ops[k:]...)...)
	}
	return ops
}

// sweep visits every element depth first, reading children in both directions.
func sweep(res *ref.Result, r *rng, limit int) []NavOp {
	var ops []NavOp
	var visit func(e int)
	back := r.p(30)
	visit = func(e int) {
		if len(ops) > limit {
			return
		}
		k := res.Elems[e].Kids
		first, next := 2, 4
		if back {
			first, next = 3, 5
		}
		ops = append(ops, NavOp{Op: "move", A: first})
		if len(k) == 0 {
			return
		}
		for i := range k {
			j := i
			if back {
				j = len(k) - 1 - i
			}
			visit(k[j])
			if len(ops) > limit {
				return
			}
			ops = append(ops, NavOp{Op: "move", A: next})
		}
		ops = append(ops, NavOp{Op: "move", A: 1})
	}
	ops = append(ops, NavOp{Op: "move", A: 0})
	visit(0)
	return ops
}

func treeDoc(r *rng, big bool) []byte {
	c := drawCfg(r)
	c.ns = r.pickN(0, 0, 1)
	c.elems = r.pickN(1, 2, 4, 8, 12, 20, 40, 80, 200)
	c.deep = r.pickN(20, 35, 45, 50, 60, 80)
	c.attrs = r.pickN(0, 0, 1)
	c.text = r.pickN(0, 10, 30)
	if big && r.p(40) {
		c.crowd, c.crowdAt = r.pickN(300, 600, 1100, 2100, 4100, 4200, 8300), r.n(4)
		c.elems = r.pickN(4, 8, 20, 80)
		c.deep = r.pickN(35, 50, 60)
		return genDoc(r, c)
	}
	if r.one(60) {
		c.crowd, c.crowdAt = r.pickN(20, 33, 64, 130, 260), r.n(5)
	}
	if big {
		c.elems = r.pickN(300, 1000, 3000)
		c.pad = r.pickN(0, 5000, 17000, 66000, 270000)
		c.deep = r.pickN(20, 35, 50)
		c.comment, c.cdata, c.pi = false, false, false
	}
	return genDoc(r, c)
}

// ---------------------------------------------------------------- C10

func genC10(r *rng, sc *Scenario, big bool) {
	d := Doc{Orig: treeDoc(r, big && r.one(5))}
	if r.p(15) {
		survivor(r, &d, allStore)
	}
	if r.p(30) {
		surround(r, &d)
	}
	sc.Docs = []Doc{d}
	set := drawAttempt(r, 0)
	set.Ns = r.p(20)
	nt := 1
	shared := r.p(50)
	if shared {
		if r.p(60) {
			nt = r.in(2, 4)
		}
		sc.Setup = []Attempt{set}
	}
	w, _ := d.apply()
	rf := ref.Parse(w)
	if rf.Verdict == ref.NotWF {
		return
	}
	for t := 0; t < nt; t++ {
		a := set
		a.Nav = true
		if shared {
			a = Attempt{Doc: 0, Shared: 1, Ns: set.Ns, Nav: true}
		}
		if r.p(25) {
			a.Ops = sweep(rf, r, r.pickN(60, 200, 1000))
			if r.p(50) {
				a.Ops = append(a.Ops, randomMoves(r, r.in(1, 20))...)
			}
		} else {
			a.Ops = randomMoves(r, r.in(1, r.pickN(10, 30, 60)))
		}
		if r.p(15) {
			for k := r.in(1, 3); k > 0; k-- {
				i := r.n(len(a.Ops) + 1)
				a.Ops = append(a.Ops[:i], append([]NavOp{{Op: "tok", A: r.in(-1, len(rf.Toks))}}, a.Ops[i:]...)...)
			}
		}
		if r.p(15) && len(rf.Toks) > 0 {
			// text is read at some of the stops
			for k := r.in(1, 4); k > 0; k-- {
				i := r.n(len(a.Ops) + 1)
				op := NavOp{Op: r.pick("str", "raw"), A: r.n(len(rf.Toks))}
				if rf.Toks[op.A].Total < 10000 {
					a.Ops = append(a.Ops[:i], append([]NavOp{op}, a.Ops[i:]...)...)
				}
			}
		}
		a.Ops = others(r, a.Ops)
		sc.Tasks = append(sc.Tasks, Task{Attempts: []Attempt{a}})
	}
	if r.p(50) {
		seamFaults(r, sc, r.n(nt), 0, phNav, r.in(1, 3), 0)
	}
	schedule(r, sc)
}

func checkC10(sc *Scenario, st *stats) *viol {
	e := execute(sc, -1)
	st.account(sc, e)
	return e.each(func(ti, ai int, a *Attempt, o *obs) *viol {
		rf := e.ref(a.Doc)
		if !o.HasNav || rf.Verdict == ref.NotWF || a.Win != nil {
			return nil
		}
		ar := &e.host.arenas[a.Doc]
		if tokDiff(rf, e.win(a.Doc), ar.off, a.Ns, o) != "" {
			return nil // C04
		}
		h := uint64(0)
		for i, op := range o.Ops {
			h = mix(h, uint64(a.Ops[i].A), uint64(op.Cur))
			switch {
			case op.Err.bad():
				st.probe("move failed")
			case op.OK:
				st.probe("move succeeded")
			default:
				st.probe("move refused")
			}
		}
		st.distinct(h, outcomeHash(o))
		if v := checkOps(rf, e.win(a.Doc), ar.off, len(ar.b), a.Ns, a.Ops, o.Ops, o.End); v != nil {
			if strings.HasPrefix(v.Rule, "text-") {
				return nil // C11
			}
			return v
		}
		if v := o.fatal(); v != nil && len(o.Ops) < len(a.Ops) && containsStr(a.Ops[len(o.Ops)].Op, "raw", "str") {
			return nil // C11
		} else if v != nil {
			return &viol{"nav-" + v.Rule, fmt.Sprintf("operation %d: %s", len(o.Ops), v.Detail)}
		}
		st.sample("%d elements, %d moves, faults %v: every answer as in the reference tree", len(rf.Elems), len(o.Ops), o.Fired)
		return nil
	})
}

// ---------------------------------------------------------------- C11

func genC11(r *rng, sc *Scenario, big bool) {
	nt := 1
	if r.p(15) {
		nt = r.in(2, 3)
	}
	for t := 0; t < nt; t++ {
		c := drawCfg(r)
		c.ns = r.pickN(0, 0, 1)
		c.refs = r.p(85)
		c.text = r.pickN(20, 50, 80)
		c.attrs = r.pickN(0, 1, 2, 4)
		c = shape(r, c, big && r.one(4))
		d := Doc{Orig: genDoc(r, c)}
		if r.p(10) {
			survivor(r, &d, allStore)
		}
		if r.p(40) {
			surround(r, &d)
		}
		w, _ := d.apply()
		rf := ref.Parse(w)
		a := drawAttempt(r, t)
		a.Ns = r.p(20)
		a.Nav = true
		sc.Docs = append(sc.Docs, d)
		if rf.Verdict == ref.NotWF {
			sc.Tasks = append(sc.Tasks, Task{Attempts: []Attempt{a}})
			continue
		}
		var inter []int // entries with references
		for i, k := range rf.Toks {
			if k.Total < 100000 || r.one(4) {
				b := w[k.Off : k.Off+k.Total]
				for _, ch := range b {
					if ch == '&' || ch == '\r' {
						inter = append(inter, i)
						break
					}
				}
			}
		}
		pick := func() int {
			if len(inter) > 0 && r.p(65) {
				return inter[r.n(len(inter))]
			}
			return r.n(len(rf.Toks))
		}
		for k := r.in(1, 14); k > 0; k-- {
			i := pick()
			tk := rf.Toks[i]
			if tk.Total > 200000 && !r.one(4) {
				continue
			}
			if r.p(35) && tk.Total > 0 {
				// the stored bytes are damaged
				at := tk.Off + r.n(tk.Total)
				if r.p(70) {
					// near a reference
					for z := 0; z < 40 && w[at] != '&'; z++ {
						at = tk.Off + r.n(tk.Total)
					}
					at = clamp(at+r.in(-1, 8), 0, len(w)-1)
				}
				v := int(significant[r.n(len(significant))])
				switch r.n(6) {
				case 0:
					v = r.n(256)
				case 1:
					v = int("&;#x0139AFgltampquos"[r.n(20)])
				case 2:
					v = '&'
				}
				a.Ops = append(a.Ops, NavOp{Op: "edit", A: at, B: v})
			}
			switch r.n(10) {
			case 0, 1:
				a.Ops = append(a.Ops, NavOp{Op: "raw", A: i})
			case 2:
				lo := r.n(tk.Total + 1)
				n := r.n(tk.Total - lo + 1)
				a.Ops = append(a.Ops, NavOp{Op: r.pick("strr", "strr", "rawr"), A: tk.Off + lo, B: n})
			case 3:
				if r.p(30) {
					a.Ops = append(a.Ops, NavOp{Op: r.pick("str", "raw"), A: r.pickN(-1, len(rf.Toks), len(rf.Toks)+1, 1<<40, -1<<40)})
				} else if r.p(30) {
					a.Ops = append(a.Ops, NavOp{Op: r.pick("strr", "rawr"), A: r.pickN(-1, -100000, len(w), len(w)-1, 1<<29), B: r.pickN(-1, 0, 1, 5)})
				} else if r.p(50) {
					a.Ops = append(a.Ops, NavOp{Op: "move", A: r.n(6)})
				} else {
					a.Ops = append(a.Ops, NavOp{Op: "tok", A: i})
				}
			default:
				a.Ops = append(a.Ops, NavOp{Op: "str", A: i})
			}
		}
		if r.p(25) {
			// wherever the cursor is
			i := r.n(len(a.Ops) + 1)
			m := randomMoves(r, r.in(1, r.pickN(3, 10, 30)))
			if r.p(30) {
				m = append(sweep(rf, r, r.pickN(10, 60, 200)), m...)
			}
			a.Ops = append(a.Ops[:i], append(m, a.Ops[i:]...)...)
		}
		a.Ops = others(r, a.Ops)
		sc.Tasks = append(sc.Tasks, Task{Attempts: []Attempt{a}})
		if r.p(35) {
			seamFaults(r, sc, t, 0, phNav, r.in(1, 2), 0)
		}
	}
	schedule(r, sc)
}

func checkC11(sc *Scenario, st *stats) *viol {
	// edits work on the arena: judge against the bytes as they were parsed
	wins := make([][]byte, len(sc.Docs))
	for i := range sc.Docs {
		wins[i], _ = sc.Docs[i].apply()
	}
	seen := map[int]bool{}
	for _, t := range sc.Tasks {
		for _, a := range t.Attempts {
			if seen[a.Doc] {
				return nil // edits of one must not show in another
			}
			seen[a.Doc] = true
		}
	}
	e := execute(sc, -1)
	st.account(sc, e)
	return e.each(func(ti, ai int, a *Attempt, o *obs) *viol {
		w := wins[a.Doc]
		if !o.HasNav || a.Win != nil || len(w) == 0 {
			return nil
		}
		rf := ref.Parse(w)
		if rf.Verdict == ref.NotWF {
			return nil
		}
		ar := &e.host.arenas[a.Doc]
		if tokDiff(rf, w, ar.off, a.Ns, o) != "" {
			return nil // C04
		}
		for i, op := range o.Ops {
			switch a.Ops[i].Op {
			case "edit":
				st.probe("stored byte damaged after the parse")
				st.Faults["storage edit under a finished index"]++
			case "move", "tok":
			default:
				st.distinct(hashStr(a.Ops[i].Op), hashStr(op.S), hashStr(op.Err.Msg))
				switch {
				case op.Fire > 0:
					st.probe("extraction under a failing read")
				case op.Err.bad():
					st.probe("extraction refused: " + op.Err.Kind)
				default:
					st.probe("extraction exact")
				}
				st.sample("%s %d -> %q %v", a.Ops[i].Op, a.Ops[i].A, cut(op.S), op.Err)
			}
		}
		v := checkOps(rf, w, ar.off, len(ar.b), a.Ns, a.Ops, o.Ops, o.End)
		if v != nil && strings.HasPrefix(v.Rule, "nav-") {
			return nil // C10
		}
		if v != nil {
			return v
		}
		if v := o.fatal(); v != nil && len(o.Ops) < len(a.Ops) && a.Ops[len(o.Ops)].Op != "move" {
			return &viol{"text-" + v.Rule, fmt.Sprintf("operation %d (%v): %s", len(o.Ops), a.Ops[len(o.Ops)], v.Detail)}
		}
		return nil
	})
}

// ---------------------------------------------------------------- C06

func genC06(r *rng, sc *Scenario, big bool) {
	nd := r.in(1, 3)
	for i := 0; i < nd; i++ {
		c := drawCfg(r)
		c.ns = r.pickN(0, 1, 2)
		if r.p(40) {
			c.elems = r.pickN(1, 3, 6)
		}
		d := Doc{Orig: genDoc(r, shape(r, c, false))}
		if r.p(25) {
			d.Faults = genFaults(r, d.Orig, allStore)
		}
		if r.p(40) {
			surround(r, &d)
		}
		sc.Docs = append(sc.Docs, d)
	}
	if sc.Recycle = r.p(30); sc.Recycle && r.p(70) {
		// another document of the same length
		d := sc.Docs[r.n(nd)]
		d.Orig = sister(r, d.Orig)
		sc.Docs = append(sc.Docs, d)
		nd++
	}
	if r.p(50) {
		for i := range sc.Docs {
			w, _ := sc.Docs[i].apply()
			if ref.Parse(w).Verdict == ref.WF {
				a := drawAttempt(r, i)
				a.Ns = false
				sc.Setup = append(sc.Setup, a)
			}
		}
	}
	nt := r.pickN(2, 2, 2, 3, 3, 4, 5)
	for t := 0; t < nt; t++ {
		var tk Task
		for k := r.pickN(1, 1, 1, 2, 3) + b2i(sc.Recycle); k > 0; k-- {
			var a Attempt
			if len(sc.Setup) > 0 && r.p(45) {
				s := r.n(len(sc.Setup))
				a = Attempt{Doc: sc.Setup[s].Doc, Shared: s + 1, Nav: true}
			} else {
				a = drawAttempt(r, r.n(nd))
				a.Nav = r.p(60)
			}
			if a.Nav {
				a.Ops = randomMoves(r, r.in(0, 12))
				for z := r.n(6); z > 0; z-- {
					i := r.n(len(a.Ops) + 1)
					a.Ops = append(a.Ops[:i], append([]NavOp{{Op: r.pick("str", "raw", "tok"), A: r.n(25)}}, a.Ops[i:]...)...)
				}
				a.Ops = others(r, a.Ops)
			}
			if a.Shared == 0 && r.p(10) {
				a.Again = 1
			}
			tk.Attempts = append(tk.Attempts, a)
		}
		sc.Tasks = append(sc.Tasks, tk)
		for i := range tk.Attempts {
			if !r.p(30) {
				continue
			}
			ph := phParse
			if tk.Attempts[i].Shared > 0 || len(tk.Attempts[i].Ops) > 0 && r.p(50) {
				ph = phNav
			}
			seamFaults(r, sc, t, i, ph, 1, 60)
		}
	}
	schedule(r, sc)
	if !raceBuilt && r.one(100) {
		sc.Fresh = 1 + r.n(nt)
	}
	if !raceBuilt && r.p(15) {
		sc.Probe = 1 + r.n(nSentinels)
	}
}

// Sentinels are tasks whose results in a new process are known. One that gives
// other results later tells that something done in the meantime left a trace.
const nSentinels = 48

var sentinelKeys [nSentinels][]string

func sentinel(i int) *Scenario {
	r := newRng(mix(hashStr("sentinel"), uint64(i)))
	var d Doc
	switch i % 8 {
	case 0:
		d.Orig = atLimit(r)
	case 1:
		d.Orig = []byte(strings.Repeat("<a>", ref.MaxDepth+1-i/8) + strings.Repeat("</a>", ref.MaxDepth+1-i/8))
	default:
		c := drawCfg(r)
		c.ns = i % 3
		c.longName = i%8 == 2
		d.Orig = genDoc(r, shape(r, c, false))
		if i%8 == 3 || i%8 == 4 {
			d.Faults = genFaults(r, d.Orig, allStore)
		}
	}
	a := drawAttempt(r, 0)
	a.Nav = true
	a.Ops = randomMoves(r, 8)
	for z := 0; z < 8; z++ {
		a.Ops = append(a.Ops, NavOp{Op: r.pick("str", "raw", "tok"), A: r.n(25)})
	}
	return &Scenario{Prop: "C06", Docs: []Doc{d}, Tasks: []Task{{Attempts: []Attempt{a}}}, Fresh: 1}
}

// sister makes a document of the same length with other letters, line ends
// or errors in the same places.
func sister(r *rng, b Blob) Blob {
	s := append(Blob{}, b...)
	if len(s) == 0 {
		return s
	}
	letters := func(i int) {
		switch c := s[i]; {
		case c >= 'a' && c < 'z', c >= 'A' && c < 'Z', c >= '0' && c < '9':
			s[i]++
		case c == 'z', c == 'Z', c == '9':
			s[i]--
		}
	}
	switch r.n(4) {
	case 0: // all names and values
		for i := range s {
			letters(i)
		}
	case 1:
		for k := r.in(1, 5); k > 0; k-- {
			letters(r.n(len(s)))
		}
	case 2:
		p := r.in(10, 100)
		for i, c := range s {
			if (c == '\n' || c == ' ') && r.p(p) {
				s[i] ^= '\n' ^ ' '
			}
		}
	case 3:
		s[r.n(len(s))] = "<>&'\" \n\x01"[r.n(8)]
	}
	if r.p(30) {
		s[r.n(len(s))] = "<>&'\" \n\x01"[r.n(8)]
	}
	return s
}

// genCold makes a scenario for a process that has not used the library yet:
// what the library sets up on first use is then set up under the schedule.
// Nothing here may call the library.
func genCold(r *rng, sc *Scenario) {
	sc.Cold, sc.RealChars = true, true
	sc.Bare = r.one(4)
	nd := r.in(1, 2)
	for i := 0; i < nd; i++ {
		c := drawCfg(r)
		c.ns = r.pickN(0, 1, 2)
		c.elems = r.pickN(1, 3, 6)
		d := Doc{Orig: genDoc(r, shape(r, c, false))}
		for k := 0; k < 20 && len(d.Orig) > 1500; k++ {
			d.Orig = genDoc(r, c)
		}
		if r.p(30) {
			d.Faults = genFaults(r, d.Orig, allStore)
		}
		sc.Docs = append(sc.Docs, d)
	}
	first := drawAttempt(r, 0)
	for t := r.pickN(2, 2, 2, 3); t > 0; t-- {
		a := first
		if r.p(50) {
			a = drawAttempt(r, r.n(nd))
		}
		a.Nav = true
		a.Ops = randomMoves(r, r.in(4, 12))
		for z := r.n(6); z > 0; z-- {
			i := r.n(len(a.Ops) + 1)
			a.Ops = append(a.Ops[:i], append([]NavOp{{Op: r.pick("str", "raw", "tok"), A: r.n(25)}}, a.Ops[i:]...)...)
		}
		sc.Tasks = append(sc.Tasks, Task{Attempts: []Attempt{a}})
	}
	schedule(r, sc)
}

func checkC06(sc *Scenario, st *stats) *viol {
	races := raceErrors()
	e := execute(sc, -1)
	st.account(sc, e)
	if n := raceErrors(); n > races {
		return &viol{"data-race", "the race detector reports a data race between two tasks that use their own parsers or navigators: " + raceReport()}
	}
	if sc.Cold {
		// any access without synchronisation is told by the race detector;
		// what the tasks compute is compared in the other runs
		st.probe("first use of the library in a process")
		return nil
	}
	for ti := range sc.Tasks {
		alone := execute(sc, ti)
		st.Execs++
		if len(alone.res[ti]) != len(e.res[ti]) {
			return &viol{"interference", "another number of attempts"}
		}
		for ai, o := range e.res[ti] {
			k, k1 := o.key(0), alone.res[ti][ai].key(0)
			if k != k1 {
				return &viol{"interference", fmt.Sprintf("task %d attempt %d among %d tasks differs from the same task alone: %s", ti, ai, len(sc.Tasks), firstKeyDiff(k1, k))}
			}
		}
	}
	if f := sc.Fresh - 1; f >= 0 && f < len(sc.Tasks) {
		keys := alone(sc)
		st.probe("compared with a new process")
		for ai, k1 := range keys {
			if k := e.res[f][ai].key(0); k != k1 {
				return &viol{"history", fmt.Sprintf("task %d attempt %d differs from the same task alone in a new process: %s", f, ai, firstKeyDiff(k1, k))}
			}
		}
	}
	if i := sc.Probe - 1; i >= 0 && i < nSentinels {
		s := sentinel(i)
		if sentinelKeys[i] == nil {
			sentinelKeys[i] = alone(s)
		}
		if k1 := sentinelKeys[i]; len(k1) == 1 {
			st.probe("sentinel looked at afterwards")
			st.Execs++
			if k := execute(s, 0).res[0][0].key(0); k != k1[0] {
				return &viol{"history", "a task afterwards differs from the same task in a new process: " + firstKeyDiff(k1[0], k)}
			}
		}
	}
	h := uint64(0)
	for ti := range e.res {
		for _, o := range e.res[ti] {
			h = mix(h, outcomeHash(o))
			if o.End == "crash" {
				st.probe("abandoned task among others")
			}
			if o.Fired != nil {
				st.probe("failing task among others")
			}
		}
	}
	if e.sched != nil {
		h = mix(h, e.sched.hash)
		st.sample("%d tasks, %d switches, schedule %v…: all as alone", len(sc.Tasks), e.sched.sw, e.sched.log[:clamp(6, 0, len(e.sched.log))])
	}
	st.distinct(h)
	return nil
}

// ---------------------------------------------------------------- C08

func genC08(r *rng, sc *Scenario, big bool) {
	nt := 1
	if r.p(15) {
		nt = 2
	}
	for t := 0; t < nt; t++ {
		d := Doc{Orig: genAny(r, big && r.one(3))}
		if r.p(50) {
			d.Faults = genFaults(r, d.Orig, allStore)
		}
		surround(r, &d)
		a := drawAttempt(r, t)
		a.Nav = true
		if r.p(70) {
			a.Ops = randomMoves(r, r.in(1, 20))
		}
		for z := r.n(12); z > 0; z-- {
			i := r.n(len(a.Ops) + 1)
			a.Ops = append(a.Ops[:i], append([]NavOp{{Op: r.pick("str", "str", "raw", "tok"), A: r.n(30)}}, a.Ops[i:]...)...)
		}
		if r.p(20) {
			a.Again = 1
		}
		a.Ops = others(r, a.Ops)
		if r.one(40) {
			a.Win = []int{r.in(-1, 3), r.in(-1, len(d.Orig)+3)}
		}
		sc.Docs = append(sc.Docs, d)
		sc.Tasks = append(sc.Tasks, Task{Attempts: []Attempt{a}})
		if r.p(25) {
			seamFaults(r, sc, t, 0, r.n(2), 1, 10)
		}
	}
	schedule(r, sc)
	sc.Protect = true
	if r.one(25) {
		sc.Streams = r.pick("closed", "full", "pipe")
	}
}

func checkC08(sc *Scenario, st *stats) *viol {
	g0 := runtime.NumGoroutine()
	out0 := captured()
	var e *execution
	snap := buildArenas(&Scenario{Docs: sc.Docs})
	withStreams(sc.Streams, func() { e = execute(sc, -1) })
	st.account(sc, e)
	if sc.Streams != "" {
		st.probe("standard streams " + sc.Streams)
		st.Faults["streams "+sc.Streams]++
	}
	if n := captured(); n != out0 {
		return &viol{"output", fmt.Sprintf("%d bytes were written to standard output or standard error: %q", n-out0, cut(capturedTail(out0)))}
	}
	for i := range snap {
		if string(snap[i].b) != string(e.host.arenas[i].b) {
			return &viol{"document-modified", fmt.Sprintf("the document bytes changed, first at %d", firstDiff(snap[i].b, e.host.arenas[i].b))}
		}
	}
	v := e.each(func(ti, ai int, a *Attempt, o *obs) *viol {
		if o.End == "panic" && containsStr(o.EndMsg, "fault address", "invalid memory address", "unexpected fault") {
			return &viol{"document-written", "the document bytes were written: " + o.EndMsg}
		}
		st.distinct(outcomeHash(o), uint64(len(o.Ops)), hashStr(string(e.win(a.Doc))))
		st.sample("%q, %d operations: no output, bytes and index unchanged", cut(string(e.win(a.Doc))), len(o.Ops))
		if o.nav == nil {
			return nil
		}
		// the index is read again after the operations
		o2 := &obs{nav: o.nav}
		o.c.quiet = true
		e.host.dump(o2)
		o.c.quiet = false
		if !reflect.DeepEqual(o.Toks, o2.Toks) || o.Size != o2.Size {
			return &viol{"index-modified", "the token index changed after navigating"}
		}
		if d := sameLongs(o.Index, indexOf(o.c)); d != "" {
			return &viol{"index-modified", "the location cache changed after navigating: " + d}
		}
		return nil
	})
	if v != nil {
		return v
	}
	if sc.Streams != "" {
		calm := *sc
		calm.Streams = ""
		e2 := execute(&calm, -1)
		for ti := range e.res {
			for ai := range e.res[ti] {
				if a, b := e.res[ti][ai].key(0), e2.res[ti][ai].key(0); a != b {
					return &viol{"streams", fmt.Sprintf("the result depends on the standard streams (%s): %s", sc.Streams, firstKeyDiff(b, a))}
				}
			}
		}
	}
	for i := 0; runtime.NumGoroutine() > g0; i++ {
		if i > 2000 {
			return &viol{"goroutine", fmt.Sprintf("%d goroutines outlive the calls", runtime.NumGoroutine()-g0)}
		}
		runtime.Gosched()
		if i > 100 {
			time.Sleep(time.Millisecond)
		}
	}
	return nil
}

func containsStr(s string, l ...string) bool {
	for _, x := range l {
		for i := 0; i+len(x) <= len(s); i++ {
			if s[i:i+len(x)] == x {
				return true
			}
		}
	}
	return false
}

func sameLongs(a, b []int64) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d entries, now %d", len(a), len(b))
	}
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("entry %d was %x, is %x", i, a[i], b[i])
		}
	}
	return ""
}

// ---------------------------------------------------------------- streams

var capFds [2]int // files that hold what was written to fd 1 and 2

func captured() int64 {
	var n int64
	for _, fd := range capFds {
		var s syscall.Stat_t
		if fd > 0 && syscall.Fstat(fd, &s) == nil {
			n += s.Size
		}
	}
	return n
}

func capturedTail(from int64) string {
	b := make([]byte, 4096)
	for _, fd := range capFds {
		if fd > 0 {
			if n, _ := syscall.Pread(fd, b, 0); n > 0 {
				return string(b[:n])
			}
		}
	}
	return ""
}

func captureStreams(dir string) {
	for i := range capFds {
		f, err := os.OpenFile(fmt.Sprintf("%s/fd%d.%d", dir, i+1, os.Getpid()), os.O_RDWR|os.O_CREATE|os.O_TRUNC|os.O_APPEND, 0o600)
		if err != nil {
			panic(err)
		}
		fd, err := syscall.Dup(int(f.Fd()))
		if err != nil {
			panic(err)
		}
		capFds[i] = fd
		_ = syscall.Dup3(fd, i+1, 0)
		_ = f.Close()
	}
}

// withStreams runs f while fd 1 and 2 are in the given condition.
func withStreams(kind string, f func()) {
	if kind == "" || capFds[0] == 0 {
		f()
		return
	}
	var bad int
	switch kind {
	case "closed":
		_ = syscall.Close(1)
		_ = syscall.Close(2)
	case "full":
		fd, err := syscall.Open("/dev/full", syscall.O_WRONLY, 0)
		if err != nil {
			f()
			return
		}
		bad = fd
		_ = syscall.Dup3(fd, 1, 0)
		_ = syscall.Dup3(fd, 2, 0)
	case "pipe":
		var p [2]int
		if syscall.Pipe(p[:]) != nil {
			f()
			return
		}
		_ = syscall.Close(p[0])
		bad = p[1]
		_ = syscall.Dup3(p[1], 1, 0)
		_ = syscall.Dup3(p[1], 2, 0)
	}
	defer func() {
		_ = syscall.Dup3(capFds[0], 1, 0)
		_ = syscall.Dup3(capFds[1], 2, 0)
		if bad > 0 {
			_ = syscall.Close(bad)
		}
	}()
	f()
}
