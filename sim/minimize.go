package main

import (
	"encoding/json"
	"time"
)

func clone(sc *Scenario) *Scenario {
	j, err := json.Marshal(sc)
	if err != nil {
		panic(err)
	}
	c := &Scenario{}
	if err := json.Unmarshal(j, c); err != nil {
		panic(err)
	}
	return c
}

// minimise shrinks a failing scenario while the same rule stays broken.
func minimise(sc *Scenario, rule string, test func(*Scenario) *viol, limit time.Duration) *Scenario {
	end := time.Now().Add(limit)
	cur := clone(sc)
	try := func(c *Scenario) bool {
		if time.Now().After(end) {
			return false
		}
		v := test(c)
		if v != nil && v.Rule == rule {
			cur = c
			return true
		}
		return false
	}
	edit := func(f func(c *Scenario) bool) bool {
		c := clone(cur)
		if !f(c) {
			return false
		}
		return try(c)
	}
	// list shrinks a list of n items: del removes items lo..hi.
	list := func(n func(c *Scenario) int, del func(c *Scenario, lo, hi int)) bool {
		any := false
		for size := n(cur); size >= 1; size /= 2 {
			for lo := 0; lo < n(cur); {
				hi := lo + size
				if hi > n(cur) {
					hi = n(cur)
				}
				if edit(func(c *Scenario) bool { del(c, lo, hi); return true }) {
					any = true
				} else {
					lo = hi
				}
				if time.Now().After(end) {
					return any
				}
			}
		}
		return any
	}
	// a concrete schedule instead of the generator of one
	if len(cur.Tasks) > 1 && cur.Sched == nil {
		edit(func(c *Scenario) bool {
			e := execute(cur, -1)
			if e.sched == nil {
				return false
			}
			c.Sched = append([]Slice{}, e.sched.log...)
			return true
		})
	}
	for round := 0; round < 4; round++ {
		changed := false
		c := func(b bool) { changed = changed || b }
		if cur.Buf != nil {
			c(list(func(c *Scenario) int { return len(c.Buf.Ops) }, func(c *Scenario, lo, hi int) { c.Buf.Ops = append(c.Buf.Ops[:lo], c.Buf.Ops[hi:]...) }))
			for i := range cur.Buf.Ops {
				if cur.Buf.Ops[i].Op != "fill" {
					continue
				}
				for step := cur.Buf.Ops[i].A; step > 0; step /= 2 {
					for cur.Buf.Ops[i].A >= step && edit(func(c *Scenario) bool { c.Buf.Ops[i].A -= step; return true }) {
						changed = true
					}
				}
			}
			c(list(func(c *Scenario) int { return len(c.Buf.Data) }, func(c *Scenario, lo, hi int) { c.Buf.Data = append(c.Buf.Data[:lo:lo], c.Buf.Data[hi:]...) }))
		}
		if cur.Rd != nil {
			c(list(func(c *Scenario) int { return len(c.Rd.Ops) }, func(c *Scenario, lo, hi int) { c.Rd.Ops = append(c.Rd.Ops[:lo], c.Rd.Ops[hi:]...) }))
		}
		// tasks
		for t := len(cur.Tasks) - 1; t >= 0 && len(cur.Tasks) > 1; t-- {
			c(edit(func(c *Scenario) bool {
				c.Tasks = append(c.Tasks[:t], c.Tasks[t+1:]...)
				if c.Fresh == t+1 {
					return false
				}
				if c.Fresh > t {
					c.Fresh--
				}
				var s []Slice
				for _, x := range c.Sched {
					if x.T == t {
						continue
					}
					if x.T > t {
						x.T--
					}
					s = append(s, x)
				}
				c.Sched = s
				return true
			}))
		}
		for t := range cur.Tasks {
			for a := len(cur.Tasks[t].Attempts) - 1; a >= 0 && len(cur.Tasks[t].Attempts) > 1; a-- {
				c(edit(func(c *Scenario) bool {
					l := c.Tasks[t].Attempts
					c.Tasks[t].Attempts = append(l[:a], l[a+1:]...)
					return true
				}))
			}
			for a := range cur.Tasks[t].Attempts {
				at := func(c *Scenario) *Attempt { return &c.Tasks[t].Attempts[a] }
				c(list(func(c *Scenario) int { return len(at(c).Ops) }, func(c *Scenario, lo, hi int) { at(c).Ops = append(at(c).Ops[:lo], at(c).Ops[hi:]...) }))
				c(list(func(c *Scenario) int { return len(at(c).Faults) }, func(c *Scenario, lo, hi int) { at(c).Faults = append(at(c).Faults[:lo], at(c).Faults[hi:]...) }))
				for k := range at(cur).Faults {
					c(edit(func(c *Scenario) bool {
						f := &at(c).Faults[k]
						if f.Kind == "error" || f.Kind == "crash" {
							return false
						}
						f.Kind = "error"
						return true
					}))
				}
				c(edit(func(c *Scenario) bool { x := at(c); old := x.Again; x.Again = 0; return old > 0 }))
				c(edit(func(c *Scenario) bool { x := at(c); old := x.Again; x.Again = 1; return old > 1 }))
				c(edit(func(c *Scenario) bool { x := at(c); old := x.Lc; x.Lc = 0; return old != 0 }))
				c(edit(func(c *Scenario) bool { x := at(c); old := x.Reuse; x.Reuse = false; return old }))
				c(edit(func(c *Scenario) bool { x := at(c); old := x.Ns; x.Ns = false; return old }))
			}
		}
		// documents: those with the same bytes and faults change together
		for d := range cur.Docs {
			key := docKey(&cur.Docs[d])
			first := true
			for e := 0; e < d; e++ {
				first = first && docKey(&cur.Docs[e]) != key
			}
			group := func(c *Scenario, f func(x *Doc)) {
				k := docKey(&c.Docs[d])
				for i := range c.Docs {
					if i != d && docKey(&c.Docs[i]) == k {
						f(&c.Docs[i])
					}
				}
				f(&c.Docs[d])
			}
			if first {
				if len(cur.Docs[d].Faults) > 0 {
					c(edit(func(c *Scenario) bool {
						group(c, func(x *Doc) { w, _ := x.apply(); x.Orig, x.Faults = w, nil })
						return true
					}))
				}
				c(list(func(c *Scenario) int { return len(c.Docs[d].Faults) }, func(c *Scenario, lo, hi int) {
					group(c, func(x *Doc) { x.Faults = append(append([]StoreFault(nil), x.Faults[:lo]...), x.Faults[hi:]...) })
				}))
				c(list(func(c *Scenario) int { return len(c.Docs[d].Orig) }, func(c *Scenario, lo, hi int) {
					group(c, func(x *Doc) { x.drop(lo, hi) })
				}))
			}
			c(list(func(c *Scenario) int { return len(c.Docs[d].Pre) }, func(c *Scenario, lo, hi int) {
				c.Docs[d].Pre = append(c.Docs[d].Pre[:lo:lo], c.Docs[d].Pre[hi:]...)
			}))
			c(list(func(c *Scenario) int { return len(c.Docs[d].Post) }, func(c *Scenario, lo, hi int) {
				c.Docs[d].Post = append(c.Docs[d].Post[:lo:lo], c.Docs[d].Post[hi:]...)
			}))
		}
		if len(cur.Tasks) > 1 {
			c(list(func(c *Scenario) int { return len(c.Sched) }, func(c *Scenario, lo, hi int) {
				c.Sched = append(append([]Slice{}, c.Sched[:lo]...), c.Sched[hi:]...)
			}))
		}
		c(edit(func(c *Scenario) bool { old := c.Recycle; c.Recycle = false; return old }))
		c(edit(func(c *Scenario) bool { old := c.Bare; c.Bare = false; return old && len(c.Tasks) == 1 }))
		c(edit(func(c *Scenario) bool { old := c.Streams; c.Streams = ""; return old != "" }))
		c(edit(func(c *Scenario) bool { old := c.Protect; c.Protect = false; return old }))
		if !changed || time.Now().After(end) {
			break
		}
	}
	return cur
}

func docKey(d *Doc) string {
	j, _ := json.Marshal(d.Faults)
	return string(d.Orig) + "\x00" + string(j)
}

// drop removes bytes lo..hi of what was written and moves the faults along.
func (d *Doc) drop(lo, hi int) {
	d.Orig = append(append(Blob{}, d.Orig[:lo]...), d.Orig[hi:]...)
	fs := append([]StoreFault(nil), d.Faults...)
	sh := func(p int) int {
		switch {
		case p >= hi:
			return p - (hi - lo)
		case p > lo:
			return lo
		}
		return p
	}
	for i := range fs {
		fs[i].At = sh(fs[i].At)
		fs[i].To = sh(fs[i].To)
	}
	d.Faults = fs
}
