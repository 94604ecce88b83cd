package main

import (
	"fmt"
	"reflect"
	"slices"
	"strings"

	"vsim/ref"
)

func seamFaults(r *rng, sc *Scenario, ti, ai, phase, n int, crashPct int) {
	c := dryCtx(sc, ti, ai)
	if c == nil {
		return
	}
	for k := 0; k < n; k++ {
		if f, ok := drawFault(r, c, phase, r.p(crashPct)); ok {
			a := &sc.Tasks[ti].Attempts[ai]
			a.Faults = append(a.Faults, f)
			if f.Kind == "crash" {
				return
			}
		}
	}
}

func schedule(r *rng, sc *Scenario) {
	if len(sc.Tasks) > 1 {
		sc.SchedGen = r.u64()
		sc.SchedMean = r.pickN(1, 2, 3, 5, 10, 30, 100, 300)
		n := 0
		for i := range sc.Docs {
			n += len(sc.Docs[i].Orig)
		}
		if n > 100_000 && sc.SchedMean < 300 {
			// switching costs a thousand times what the step does
			sc.SchedMean *= 100
		}
	}
}

func init() {
	register(&prop{id: "C01", rule: "scenario = bytes (written document plus storage faults, markup soup, truncations, giant offsets), window, configuration, repeated calls, component failures; counted distinct by what was delivered and how the calls ended",
		gen: genC01, check: checkC01})
	register(&prop{id: "C02", rule: "a written document damaged by the store (cut, flipped, zeroed, lost, duplicated, swapped, stale or misdirected sectors) and parsed; non-trivial when the damage made it ill-formed or left it well-formed with other bytes; distinct by (verdict, reason of the reference model, reported error, features, fault kinds)",
		gen: genC02, check: checkC02})
	register(&prop{id: "C03", rule: "tasks that crash or fail at chosen component operations and retry, interleaved with others; non-trivial when an earlier attempt failed, crashed or another task was interleaved; distinct by (faults fired, how attempts ended, schedule)",
		gen: genC03, check: checkC03})
	register(&prop{id: "C04", rule: "documents, intact or having survived storage damage, at any window offset, whose whole index is compared with the reference model; distinct by (features, configuration, tokens, damage)",
		gen: genC04, check: checkC04})
	register(&prop{id: "C05", rule: "one window of bytes placed into different surroundings (stale data, the remainder a cut took away, line feeds, markup); distinct by (verdict, surroundings, reported error, features)",
		gen: genC05, check: checkC05})
	register(&prop{id: "C07", rule: "one parse with failing components at chosen operations; non-trivial when a failure fired; distinct by (seam, kind, occurrence class, document features, reported error)",
		gen: genC07, check: checkC07})
	register(&prop{id: "C09", rule: "namespace documents, correct or not, and with damage aimed at prefixes and declarations, parsed with namespace checking on; distinct by (namespace verdict and its reason, features, reported error)",
		gen: genC09, check: checkC09})
	register(&prop{id: "C14", rule: "damaged documents whose rejection carries a line; distinct by (line distance to the damage and to the reading position, reported error, damage kind)",
		gen: genC14, check: checkC14})
}

// ---------------------------------------------------------------- C01

func genC01(r *rng, sc *Scenario, big bool) {
	nt := 1
	if r.p(12) {
		nt = r.in(2, 3)
	}
	for t := 0; t < nt; t++ {
		d := Doc{}
		a := drawAttempt(r, t)
		switch x := r.n(20); {
		case x < 10:
			d.Orig = genAny(r, big)
			d.Faults = genFaults(r, d.Orig, allStore)
		case x < 12:
			d.Orig = genAny(r, big)
		case x < 14:
			d.Orig = genAny(r, false)
			d.Faults = []StoreFault{{Kind: "cut", At: r.n(len(d.Orig))}}
		case x < 16:
			d.Orig = soup(r)
		case x < 17:
			d.Orig = genAny(r, false)
			if len(d.Orig) > 60 {
				d.Orig = d.Orig[:60]
			}
			for k := r.in(1, 10); k > 0; k-- {
				d.Faults = append(d.Faults, genFault(r, d.Orig, []string{"flip", "set"}))
			}
		case x < 18:
			d.Orig = Blob(r.pick("", "<", "\xEF", "\xEF\xBB", "\xEF\xBB\xBF", "\xEF\xBB\xBF<", "\xFE\xFF", "\xFF\xFE<\x00", "\xFF", "\xFE", "\x00", "\x00<\x00?", "<\x00?\x00", "<?", "<?x", "<?xml", "<?xml ", "<!", "<!D", "<!DOCTYPE", "<a", "</", "</a>", "<a/>", "<a/", "<a></a", "&", "<a>&", "<a b='&", "<?xml?>", "<?xml version", "<?xml version=", "<?xml version='1.0' encoding", "<?xml version='1.0' encoding='", "<?xml version='1.0' encoding='us", "<?xml version='1.0' encoding='iso-8859-1", "<?xml version='1.0' encoding='cp12", "<?xml version='1.0' encoding='utf-16'?><a/>", "<?xml version='1.0' encoding='windows-125"))
		default:
			c := drawCfg(r)
			c.ns = 2
			d.Orig = genDoc(r, shape(r, c, big))
			a.Ns = true
			if r.p(60) {
				d.Faults = genFaults(r, d.Orig, allStore)
			}
		}
		surround(r, &d)
		sc.Docs = append(sc.Docs, d)
		arena, _, _, _ := d.deliver()
		switch {
		case r.p(10) || len(arena) == 0:
			n := len(arena)
			v := func() int {
				return []int{-1, 0, 1, n, n + 1, -n, n - 1, r.in(0, n+1), 1 << 30, 1 << 31, 1<<62 - 1, -1 << 62, 1<<63 - 1, -1 << 63}[r.n(14)]
			}
			a.Win = []int{v(), v()}
			if r.p(40) {
				a.Win[0] = r.n(n + 1)
				a.Win[1] = r.n(n - a.Win[0] + 1)
			}
		case r.p(15):
			a.Whole = true
		case r.one(300):
			a.NilDoc = true
			a.Whole = r.p(50)
		}
		if r.one(60) && !a.NilDoc && nt == 1 && len(d.Orig) < 2000 {
			// window near the limit of what the index can address
			w, _ := d.apply()
			dd := &sc.Docs[t]
			at := 1<<30 - len(w) + r.in(-6, 6)
			if r.p(20) {
				at = r.pickN(1<<30, 1<<30+7, 1<<29, 1<<29-5, 1<<28+1)
			}
			dd.Huge, dd.Pre = at, nil
			a.Win, a.Whole = nil, false
		}
		if r.p(25) {
			a.Again = r.in(1, 3)
		}
		sc.Tasks = append(sc.Tasks, Task{Attempts: []Attempt{a}})
		if r.p(20) && sc.Docs[t].Huge == 0 {
			seamFaults(r, sc, t, 0, phParse, r.in(1, 2), 10)
		}
	}
	schedule(r, sc)
}

func checkC01(sc *Scenario, st *stats) *viol {
	e := execute(sc, -1)
	defer func() {
		if hugeArea != nil {
			dropHuge()
		}
	}()
	st.account(sc, e)
	if v := fatals(e); v != nil {
		return v
	}
	return e.each(func(ti, ai int, a *Attempt, o *obs) *viol {
		h := outcomeHash(o)
		w := e.win(a.Doc)
		if len(w) < 4096 {
			h = mix(h, hashStr(string(w)))
		}
		st.distinct(h, uint64(len(o.Again)), uint64(len(w)))
		if sc.Docs[a.Doc].Huge > 0 {
			st.probe("window at a giant offset")
			ar := &e.host.arenas[a.Doc]
			if o.ok() && ar.off+ar.n >= 1<<30 {
				return &viol{"giant-accepted", fmt.Sprintf("accepted a window that ends at byte %d, which token offsets of 30 bits cannot express", ar.off+ar.n)}
			}
		}
		if len(o.Again) > 0 {
			st.probe("parser called again")
		}
		if o.New.bad() {
			st.sample("window %v of %d bytes refused: %v", a.Win, len(e.host.arenas[a.Doc].b), o.New)
		} else {
			st.sample("%q (ns=%v again=%d) -> %v %v", cut(string(w)), a.Ns, a.Again, o.Parse, o.Again)
		}
		return nil
	})
}

// ---------------------------------------------------------------- C02

func genC02(r *rng, sc *Scenario, big bool) {
	d := Doc{Orig: genAny(r, big)}
	if r.p(97) {
		d.Faults = genFaults(r, d.Orig, allStore)
	}
	surround(r, &d)
	a := drawAttempt(r, 0)
	a.Ns = r.p(25)
	if r.p(10) {
		a.Again = r.in(1, 2)
	}
	sc.Docs = []Doc{d}
	sc.Tasks = []Task{{Attempts: []Attempt{a}}}
	if r.p(6) {
		seamFaults(r, sc, 0, 0, phParse, 1, 0)
	}
	if r.p(5) {
		d2 := Doc{Orig: genAny(r, false)}
		d2.Faults = genFaults(r, d2.Orig, allStore)
		sc.Docs = append(sc.Docs, d2)
		sc.Tasks = append(sc.Tasks, Task{Attempts: []Attempt{{Doc: 1, Ns: r.p(50)}}})
		schedule(r, sc)
	}
}

func checkC02(sc *Scenario, st *stats) *viol {
	e := execute(sc, -1)
	st.account(sc, e)
	return e.each(func(ti, ai int, a *Attempt, o *obs) *viol {
		if a.Win != nil || a.NilDoc {
			return nil
		}
		w := e.win(a.Doc)
		if len(w) == 0 {
			return nil
		}
		rf := e.ref(a.Doc)
		st.features(rf.Feature)
		st.probe("reference: " + rf.Verdict.String())
		d := &sc.Docs[a.Doc]
		if len(d.Faults) > 0 {
			h := uint64(0)
			for _, f := range d.Faults {
				h = mix(h, hashStr(f.Kind))
			}
			st.distinct(h, uint64(rf.Verdict), hashStr(rf.Why), hashStr(o.Parse.Msg), rf.Feature)
		}
		if rf.Verdict == ref.NotWF {
			st.probe("ill-formed: " + rf.Why)
		}
		st.sample("%q -> reference %v (%s), library %v", cut(string(w)), rf.Verdict, rf.Why, o.Parse)
		if o.ok() && rf.Verdict == ref.NotWF {
			return &viol{"acknowledged", fmt.Sprintf("Parse reported success for bytes that are not a well-formed document: %s", rf.Why)}
		}
		for _, g := range o.Again {
			if !g.bad() && rf.Verdict == ref.NotWF {
				return &viol{"acknowledged-again", fmt.Sprintf("a repeated Parse reported success for bytes that are not a well-formed document: %s", rf.Why)}
			}
		}
		return nil
	})
}

// ---------------------------------------------------------------- C03

func genC03(r *rng, sc *Scenario, big bool) {
	nt := 1
	if r.p(35) {
		nt = r.in(2, 4)
	}
	shared := r.p(30)
	for t := 0; t < nt; t++ {
		di := len(sc.Docs)
		if shared && t > 0 {
			di = 0
		} else {
			d := Doc{Orig: genAny(r, big && t == 0)}
			surround(r, &d)
			sc.Docs = append(sc.Docs, d)
		}
		var tk Task
		n := 0
		if r.p(55) {
			n = r.in(1, 3)
		}
		for i := 0; i < n; i++ {
			a := drawAttempt(r, di)
			if r.p(25) {
				// a damaged copy came first
				d := Doc{Orig: sc.Docs[di].Orig}
				d.Faults = genFaults(r, d.Orig, allStore)
				sc.Docs = append(sc.Docs, d)
				a.Doc = len(sc.Docs) - 1
			}
			a.Nav = r.p(20)
			tk.Attempts = append(tk.Attempts, a)
		}
		fin := drawAttempt(r, di)
		fin.Ns = false
		if len(sc.Docs[di].Pre) == 0 && len(sc.Docs[di].Post) == 0 {
			fin.Whole = r.p(50)
		}
		tk.Attempts = append(tk.Attempts, fin)
		sc.Tasks = append(sc.Tasks, tk)
		for i := 0; i < n; i++ {
			if r.p(80) {
				seamFaults(r, sc, t, i, phParse, r.in(1, 2), 50)
			}
		}
	}
	if d := &sc.Docs[0]; nt == 1 && len(d.Orig) < 3000 && r.one(400) {
		// a window close to the end of what the index can address
		d.Huge, d.Pre = 1<<30-len(d.Orig)-1-r.n(5), nil
		if r.p(40) {
			d.Huge = r.pickN(1<<29, 1<<29-5, 1<<28+1, 1<<27, 1<<24-3)
		}
		as := sc.Tasks[0].Attempts
		for i := range as {
			if as[i].Doc == 0 {
				as[i].Whole = false
			}
		}
	}
	schedule(r, sc)
}

func checkC03(sc *Scenario, st *stats) *viol {
	e := execute(sc, -1)
	defer func() {
		if hugeArea != nil {
			dropHuge()
		}
	}()
	st.account(sc, e)
	for ti := range e.res {
		n := len(e.res[ti])
		o := e.res[ti][n-1]
		a := &sc.Tasks[ti].Attempts[n-1]
		if len(a.Faults) > 0 || a.Ns || a.Shared != 0 || a.NilDoc || a.Win != nil {
			continue
		}
		rf := e.ref(a.Doc)
		if rf.Verdict != ref.WF || len(e.win(a.Doc)) == 0 {
			continue
		}
		st.features(rf.Feature)
		if n > 1 || len(e.res) > 1 {
			h := uint64(len(e.res))
			for _, p := range e.res[ti][:n-1] {
				h = mix(h, outcomeHash(p))
			}
			if e.sched != nil {
				h = mix(h, e.sched.hash)
			}
			st.distinct(h, rf.Feature)
		}
		st.sample("task %d of %d: %d earlier attempts (%s), then %q -> %v", ti, len(e.res), n-1, ends(e.res[ti][:n-1]), cut(string(e.win(a.Doc))), o.Parse)
		if v := o.fatal(); v != nil {
			return &viol{"intact-" + v.Rule, "fault-free attempt on intact bytes: " + v.Detail}
		}
		if !o.ok() {
			return &viol{"rejected", fmt.Sprintf("task %d attempt %d: an intact well-formed document was rejected: %v %v line %s", ti, n-1, o.New, o.Parse, o.Parse.Line)}
		}
	}
	return nil
}

func ends(l []*obs) string {
	s := ""
	for _, o := range l {
		if s != "" {
			s += ", "
		}
		if o.End != "" {
			s += o.End + " at " + o.EndMsg
		} else {
			s += o.Parse.String()
		}
	}
	return s
}

// ---------------------------------------------------------------- C04

func genC04(r *rng, sc *Scenario, big bool) {
	nt := 1
	if r.p(5) {
		nt = 2
	}
	for t := 0; t < nt; t++ {
		c := drawCfg(r)
		c.ns = r.pickN(0, 0, 1)
		d := Doc{Orig: genDoc(r, shape(r, c, big))}
		if r.p(45) {
			survivor(r, &d, allStore)
		}
		surround(r, &d)
		a := drawAttempt(r, t)
		a.Nav = true
		if c.ns == 0 {
			a.Ns = r.p(15)
		}
		if c.ns == 1 {
			a.Ns = r.p(60)
		}
		if r.one(300) && len(d.Orig) < 4000 && nt == 1 {
			w, _ := d.apply()
			d.Huge, d.Pre = 1<<30-len(w)-1-r.n(5), nil
			if r.p(30) {
				d.Huge = r.pickN(1<<29, 1<<29-5, 1<<28+1)
			}
		}
		sc.Docs = append(sc.Docs, d)
		sc.Tasks = append(sc.Tasks, Task{Attempts: []Attempt{a}})
	}
	schedule(r, sc)
}

func checkC04(sc *Scenario, st *stats) *viol {
	e := execute(sc, -1)
	defer func() {
		if hugeArea != nil {
			dropHuge()
		}
	}()
	st.account(sc, e)
	return e.each(func(ti, ai int, a *Attempt, o *obs) *viol {
		if !o.ok() || a.Win != nil {
			return nil
		}
		if v := o.fatal(); v != nil {
			return &viol{"index-" + v.Rule, v.Detail}
		}
		rf := e.ref(a.Doc)
		if rf.Verdict == ref.NotWF {
			return nil // C02 speaks about these
		}
		if o.Nav.Inj && len(a.Faults) > 0 {
			return nil
		}
		if o.Nav.bad() {
			return &viol{"no-navigator", "no navigator after success: " + o.Nav.String()}
		}
		st.features(rf.Feature)
		st.distinct(hashStr(string(e.win(a.Doc))), uint64(a.Lc), b2u(a.Ns), b2u(e.host.arenas[a.Doc].off > 0))
		if len(sc.Docs[a.Doc].Faults) > 0 {
			st.probe("survived storage damage")
		}
		if sc.Docs[a.Doc].Huge > 0 {
			st.probe("window at a giant offset")
		}
		base := e.host.arenas[a.Doc].off
		if d := tokDiff(rf, e.win(a.Doc), base, a.Ns, o); d != "" {
			return &viol{"index", d}
		}
		st.sample("%q at offset %d: %d index entries as the reference has them", cut(string(e.win(a.Doc))), base, len(o.Toks))
		return nil
	})
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// ---------------------------------------------------------------- C05

// genC05 puts variants of the surroundings of one window into the other
// documents of the scenario.
func genC05(r *rng, sc *Scenario, big bool) {
	c := drawCfg(r)
	c.ns = r.pickN(0, 1, 2)
	d := Doc{Orig: genDoc(r, shape(r, c, big && r.one(4)))}
	if r.one(40) {
		d.Orig = genAny(r, big)
	}
	switch r.n(6) {
	case 0, 1, 2:
		d.Faults = []StoreFault{genFault(r, d.Orig, []string{"cut"})}
	case 3:
		d.Faults = genFaults(r, d.Orig, allStore)
	case 4:
		survivor(r, &d, allStore)
	}
	a := drawAttempt(r, 0)
	a.Nav = true
	for k := r.n(4); k > 0; k-- {
		a.Ops = append(a.Ops, NavOp{Op: r.pick("str", "raw"), A: r.n(12)})
	}
	for k := r.n(6); k > 0 && r.p(50); k-- {
		a.Ops = append(a.Ops, NavOp{Op: "move", A: r.n(6)})
	}
	w, _ := d.apply()
	if r.p(40) && len(w) > 0 {
		// ranges that touch the end of the window
		n := r.in(1, min(8, len(w)))
		a.Ops = append(a.Ops, NavOp{Op: "rawr", A: len(w) - n, B: n}, NavOp{Op: "strr", A: len(w) - n, B: n})
	}
	sc.Docs = []Doc{d}
	sc.Tasks = []Task{{Attempts: []Attempt{a}}}
	for k := 0; k < 3; k++ {
		v := Doc{Orig: d.Orig, Faults: d.Faults}
		surround(r, &v)
		if len(v.Pre) == 0 && len(v.Post) == 0 {
			v.Post = Blob(stale(r, false))
		}
		b := a
		b.Doc = len(sc.Docs)
		sc.Docs = append(sc.Docs, v)
		sc.Tasks[0].Attempts = append(sc.Tasks[0].Attempts, b)
	}
}

func checkC05(sc *Scenario, st *stats) *viol {
	e := execute(sc, -1)
	st.account(sc, e)
	if len(e.res) == 0 || len(e.res[0]) < 2 {
		return nil
	}
	o0 := e.res[0][0]
	a0 := &sc.Tasks[0].Attempts[0]
	k0 := o0.key(e.host.arenas[a0.Doc].off)
	for i, o := range e.res[0][1:] {
		a := &sc.Tasks[0].Attempts[i+1]
		if string(e.win(a.Doc)) != string(e.win(a0.Doc)) {
			continue // not the same window (while minimising)
		}
		if b, c := *a, *a0; true {
			b.Doc, c.Doc = 0, 0
			if !reflect.DeepEqual(b, c) {
				continue // not the same work (while minimising)
			}
		}
		if len(e.win(a0.Doc)) == 0 {
			// an empty window in an empty slice may be refused for either reason
			st.probe("empty window")
			if !o.New.bad() && !o.Parse.bad() || !o0.New.bad() && !o0.Parse.bad() {
				return &viol{"empty-window", "an empty window was accepted"}
			}
			continue
		}
		k := o.key(e.host.arenas[a.Doc].off)
		d := &sc.Docs[a.Doc]
		h := mix(hashStr(string(d.Pre)), hashStr(string(d.Post)))
		st.distinct(h, outcomeHash(o), hashStr(string(e.win(a.Doc))))
		if o.ok() {
			st.probe("accepted in other surroundings")
		}
		for _, op := range o.Ops {
			if !op.Err.bad() {
				st.probe("text compared")
			}
		}
		st.sample("%q between %q and %q -> %v", cut(string(e.win(a.Doc))), cut(string(d.Pre)), cut(string(d.Post)), o.Parse)
		if k != k0 {
			return &viol{"surroundings", fmt.Sprintf("the window behaves differently between %q and %q: %s", cut(string(d.Pre)), cut(string(d.Post)), firstKeyDiff(k0, k))}
		}
	}
	return nil
}

// ---------------------------------------------------------------- C07

func genC07(r *rng, sc *Scenario, big bool) {
	c := drawCfg(r)
	c.ns = r.pickN(0, 1, 1, 2)
	c = shape(r, c, big && r.one(3))
	c.huge = 0
	d := Doc{Orig: genDoc(r, c)}
	if r.p(15) {
		d.Faults = genFaults(r, d.Orig, allStore)
	}
	if r.p(30) {
		surround(r, &d)
	}
	a := drawAttempt(r, 0)
	a.Ns = c.ns != 0 && r.p(80) || r.p(10)
	a.Nav = true
	if w, _ := d.apply(); r.p(70) {
		// walking around shows what the navigator reads besides the tokens
		if rf := ref.Parse(w); rf.Verdict != ref.NotWF {
			n := r.pickN(30, 60, 150)
			if len(w) > 50000 {
				n = 20
			}
			a.Ops = sweep(rf, r, n)
		}
	}
	sc.Docs = []Doc{d}
	// the fault-free attempt is the model
	sc.Tasks = []Task{{Attempts: []Attempt{a, a}}}
	seamFaults(r, sc, 0, 1, phParse, 1+b2i(r.p(15)), 0)
	if r.p(12) {
		sc.Tasks[0].Attempts[1].Again = 1
	}
	if r.one(10) && len(d.Orig) < 50000 {
		// several failing attempts in a row, the same dry run serves them
		for k := 0; k < 3; k++ {
			sc.Tasks[0].Attempts = append(sc.Tasks[0].Attempts, a)
			seamFaults(r, sc, 0, len(sc.Tasks[0].Attempts)-1, phParse, 1, 0)
		}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func checkC07(sc *Scenario, st *stats) *viol {
	e := execute(sc, -1)
	st.account(sc, e)
	if len(e.res) == 0 || len(e.res[0]) < 2 {
		return nil
	}
	o0 := e.res[0][0]
	a0 := &sc.Tasks[0].Attempts[0]
	if len(a0.Faults) > 0 {
		return nil
	}
	k0 := o0.key(0)
	for i, o := range e.res[0][1:] {
		a := &sc.Tasks[0].Attempts[i+1]
		if v := o.fatal(); v != nil && o0.fatal() == nil {
			return &viol{"fault-" + v.Rule, v.Detail + " after " + fmt.Sprint(o.Fired)}
		}
		if o.FireParse == 0 || a.Doc != a0.Doc {
			continue
		}
		st.distinct(outcomeHash(o), hashStr(string(e.win(a.Doc)))&1023)
		again := o.Again
		o.Again = nil
		if o.ok() {
			st.probe("success despite a failed operation")
			if k := o.key(0); k != k0 {
				return &viol{"swallowed", fmt.Sprintf("Parse reported success although %v failed, with another result than without the failure: %s", o.Fired, firstKeyDiff(k0, k))}
			}
			continue
		}
		st.sample("%q with %v -> %v", cut(string(e.win(a.Doc))), o.Fired, o.Parse)
		if !o.Parse.Inj {
			return &viol{"chain", fmt.Sprintf("after %v Parse reports %v, whose chain does not contain the failure", o.Fired, o.Parse)}
		}
		for _, g := range again {
			st.probe("called again after a failed operation")
			if !g.bad() && (!o0.ok() || o.HasNav && o.DumpErr == "" && !slices.Equal(o.Toks, o0.Toks)) {
				return &viol{"resumed", fmt.Sprintf("Parse called again after %v reported success, with another result than without the failure", o.Fired)}
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------- C09

// aimNS damages a prefix, a declaration or a namespace name.
func aimNS(r *rng, d *Doc) {
	w, _ := d.apply()
	rf := ref.Parse(w)
	type span struct{ off, n int }
	var names, vals, attrs []span
	for i, t := range rf.Toks {
		switch t.Kind {
		case ref.KStart, ref.KAttr, ref.KNs:
			names = append(names, span{t.Off, t.Len})
			if t.Kind != ref.KStart && i+1 < len(rf.Toks) {
				v := rf.Toks[i+1]
				attrs = append(attrs, span{t.Off, v.Off + v.Len + 1 - t.Off})
				if t.Kind == ref.KNs {
					vals = append(vals, span{v.Off, v.Len})
				}
			}
		}
	}
	if len(names) == 0 {
		return
	}
	for k := 1 + b2i(r.p(25)); k > 0; k-- {
		s := names[r.n(len(names))]
		if len(vals) > 0 && r.p(35) {
			s = vals[r.n(len(vals))]
		}
		f := StoreFault{At: s.off}
		if s.n > 0 {
			f.At += r.n(s.n)
		}
		switch r.n(8) {
		case 0, 1, 2:
			f.Kind, f.Val = "set", Blob(r.pick("a", "b", "c", "x", ":", "u", "v", "m", "l", "n", "s"))
		case 3:
			f.Kind, f.N = "lost", 1
		case 4:
			f.Kind, f.Val = "insert", Blob(r.pick("a", "b", ":", "a:", "b:", "x", "xmlns:", "s"))
		case 5:
			if len(attrs) == 0 {
				continue
			}
			s = attrs[r.n(len(attrs))]
			f.Kind, f.At, f.N = "lost", s.off, s.n
		case 6:
			if len(attrs) == 0 {
				continue
			}
			// a declaration or attribute turns up in another tag
			s = attrs[r.n(len(attrs))]
			t := names[r.n(len(names))]
			f.Kind, f.At, f.N, f.To = "dup", s.off-1, s.n+1, t.off+t.n
			if s.off == 0 {
				continue
			}
		case 7:
			t := names[r.n(len(names))]
			if t.off < s.off {
				s, t = t, s
			}
			if s.off+s.n > t.off {
				continue
			}
			f = StoreFault{Kind: "swap", At: s.off, N: s.n, To: t.off, Val: make(Blob, t.n)}
		}
		d.Faults = append(d.Faults, f)
		return
	}
}

func genC09(r *rng, sc *Scenario, big bool) {
	c := drawCfg(r)
	c.ns = r.pickN(1, 1, 2, 2, 2)
	if r.p(50) {
		c.attrs = r.pickN(2, 3, 4)
		c.elems = r.pickN(3, 5, 8, 13, 20)
	}
	if r.p(6) {
		c.elems = r.pickN(30, 60, 120)
	}
	d := Doc{}
	for k := 0; k < 4; k++ {
		d = Doc{Orig: genDoc(r, shape(r, c, big && r.one(4)))}
		if r.p(55) {
			aimNS(r, &d)
		} else if r.p(15) {
			survivor(r, &d, allStore)
		}
		w, _ := d.apply()
		rf := ref.Parse(w)
		if rf.Verdict == ref.WF && rf.NS != ref.Unspec {
			break
		}
	}
	if r.p(40) {
		surround(r, &d)
	}
	a := drawAttempt(r, 0)
	a.Ns = true
	sc.Docs = []Doc{d}
	sc.Tasks = []Task{{Attempts: []Attempt{a}}}
}

func checkC09(sc *Scenario, st *stats) *viol {
	e := execute(sc, -1)
	st.account(sc, e)
	return e.each(func(ti, ai int, a *Attempt, o *obs) *viol {
		if !a.Ns || a.Shared != 0 || len(a.Faults) > 0 {
			return nil
		}
		rf := e.ref(a.Doc)
		if rf.Verdict != ref.WF || rf.NS == ref.Unspec {
			st.probe("not decided by namespaces")
			return nil
		}
		if o.End != "" {
			return nil // C01
		}
		st.probe("namespace verdict " + rf.NS.String() + " " + rf.NSWhy)
		st.features(rf.Feature)
		st.distinct(uint64(rf.NS), hashStr(rf.NSWhy), hashStr(string(e.win(a.Doc))))
		st.sample("%q -> %v (%s), library %v", cut(string(e.win(a.Doc))), rf.NS, rf.NSWhy, o.Parse)
		switch {
		case rf.NS == ref.WF && !o.ok():
			return &viol{"ns-rejected", fmt.Sprintf("a namespace-well-formed document was rejected: %v line %s", o.Parse, o.Parse.Line)}
		case rf.NS == ref.NotWF && o.ok():
			return &viol{"ns-accepted", "a document that is not namespace-well-formed was accepted: " + rf.NSWhy}
		}
		return nil
	})
}

// ---------------------------------------------------------------- C14

func genC14(r *rng, sc *Scenario, big bool) {
	c := drawCfg(r)
	c.ns = 0
	c.text = r.pickN(50, 80)
	c = shape(r, c, big && r.one(6))
	c.huge = 0
	d := Doc{Orig: genDoc(r, c)}
	// more lines
	if r.p(50) {
		for i, ch := range d.Orig {
			if ch == ' ' && r.p(40) {
				d.Orig[i] = '\n'
			}
		}
	}
	d.Faults = genFaults(r, d.Orig, allStore)
	surround(r, &d)
	a := drawAttempt(r, 0)
	a.Ns = false
	sc.Docs = []Doc{d}
	sc.Tasks = []Task{{Attempts: []Attempt{a}}}
}

func checkC14(sc *Scenario, st *stats) *viol {
	e := execute(sc, -1)
	st.account(sc, e)
	return e.each(func(ti, ai int, a *Attempt, o *obs) *viol {
		ar := &e.host.arenas[a.Doc]
		if a.Ns || !o.Parsed || !o.Parse.bad() || len(a.Faults) > 0 || ar.diff < 0 {
			return nil
		}
		line, ok := lineNo(o.Parse)
		if !ok {
			st.probe("rejection without a line")
			return nil
		}
		if ref.Parse(sc.Docs[a.Doc].Orig).Verdict != ref.WF {
			return nil
		}
		st.probe("rejection with a line")
		w := e.win(a.Doc)
		lo := ref.Line(w, ar.diff)
		pos := clamp(o.MaxPos-ar.off, 0, len(w))
		if sc.Bare {
			pos = len(w)
		}
		hi := ref.Line(w, pos)
		if line > hi && !seesReading(sc, a, o) {
			// the parser does not do all its reading by the reader
			pos = len(w)
			hi = ref.Line(w, pos)
		}
		if hi > lo {
			st.probe("several lines possible")
		}
		if hi > 1 {
			st.distinct(uint64(line-lo), uint64(hi-line), hashStr(o.Parse.Msg), hashStr(sc.Docs[a.Doc].Faults[0].Kind), uint64(line))
		}
		st.sample("damage %s at byte %d (line %d), read to byte %d (line %d): %v line %d", sc.Docs[a.Doc].Faults[0].Kind, ar.diff, lo, pos, hi, o.Parse, line)
		if line < lo {
			return &viol{"line-before-damage", fmt.Sprintf("rejected at line %d with %v, the first damaged byte %d is on line %d", line, o.Parse, ar.diff, lo)}
		}
		if line > hi {
			return &viol{"line-beyond-reading", fmt.Sprintf("rejected at line %d with %v, but only %d bytes up to line %d had been read", line, o.Parse, pos, hi)}
		}
		return nil
	})
}

// lines has a line end wherever one can be.
const lines = "<!--\nc\n-->\n<?pi\nx\n\ny?>\n<!DOCTYPE\na\n[\n<!ELEMENT\na\nANY>\n]\n>\n<a\nb\n=\n'\nv\n&lt;\n&#10;\n'\nc=\"\n\"\n>\nt\n<b\n/>\n<c\nd=''\n>\n&amp;\n</c\n>\n<![CDATA[\nx\n]]>\n" +
	"<!--\nc\n-->\n<?pi\nx\n?>\n<d>\n<e>\n<f>\n</f>\n</e>\n</d>\n</a\n>\n<!--\nc\n-->\n<?pi\nx\n?>\n"

// seesReading tells whether the reader seam sees where the parser reads: it
// does if it has seen every line end of documents that were read to their end.
func seesReading(sc *Scenario, a *Attempt, o *obs) bool {
	if sc.Bare || !o.c.follows() {
		return false
	}
	var s Scenario
	s.Prop = sc.Prop
	d := sc.Docs[a.Doc]
	d.Faults, d.Huge = nil, 0
	s.Docs = []Doc{d, {Orig: Blob(lines)}, {Orig: Blob("\n" + lines[strings.Index(lines, "<a"):])}}
	for _, enc := range []string{"", "\nencoding\n=\n'US-ASCII'\n", "\nencoding='UTF-8'\n"} {
		s.Docs = append(s.Docs, Doc{Orig: Blob("<?xml\nversion\n=\n'1.0'\n" + enc + "standalone\n=\n'yes'\n?>\n" + lines)})
	}
	t := Task{}
	for i := range s.Docs {
		for _, lc := range []int{3, 5} {
			b := *a
			b.Doc, b.Lc, b.Faults, b.Whole, b.Win = i, lc, nil, false, nil
			t.Attempts = append(t.Attempts, b)
		}
	}
	s.Tasks = []Task{t}
	e := execute(&s, -1)
	for i, o := range e.res[0] {
		ar := &e.host.arenas[t.Attempts[i].Doc]
		if o.ok() && o.c.unread(ar.off+ar.n) || !o.ok() && o.c.gap {
			return false
		}
	}
	return true
}
