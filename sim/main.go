// Command vsim is the simulator: it runs the real library in one process under
// a seeded scheduler with simulated storage and component faults and judges
// every run against the reference model.
package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

func main() {
	if len(os.Args) < 2 {
		fatal("usage: vsim check|worker|replay|dump …")
	}
	switch os.Args[1] {
	case "check":
		checkMain(os.Args[2:])
	case "worker":
		workerMain(os.Args[2:])
	case "fresh":
		freshMain()
	case "cold":
		coldMain(os.Args[2:])
	case "replay":
		replayMain(os.Args[2:])
	case "merge":
		mergeMain(os.Args[2:])
	default:
		fatal("unknown command " + os.Args[1])
	}
}

func fatal(s string) {
	fmt.Fprintln(os.Stderr, "vsim: "+s)
	os.Exit(3)
}

// runSeed is the one integer that decides a run.
func runSeed(seed uint64, prop string, i uint64) uint64 { return mix(seed, hashStr(prop), i) }

func makeScenario(p *prop, seed, i uint64, bigPct int) *Scenario {
	r := newRng(runSeed(seed, p.id, i))
	sc := &Scenario{Prop: p.id, Seed: seed, Run: i}
	big := r.n(1000) < bigPct
	setCache(true)
	// some runs have the components to themselves: code that asks for a
	// concrete type finds it there
	sc.Bare = newRng(mix(runSeed(seed, p.id, i), 78)).one(bareOneIn) && p.id != "C12" && p.id != "C13"
	p.gen(r, sc, big)
	// a few runs go without the character cache
	if real := newRng(mix(runSeed(seed, p.id, i), 77)); real.one(realOneIn) && sc.Buf == nil && sc.Rd == nil {
		n := 0
		for d := range sc.Docs {
			n += len(sc.Docs[d].Orig)
		}
		sc.RealChars = n < 2000
	}
	return sc
}

const (
	realOneIn = 700
	bareOneIn = 8
)

func coldScenario(seed, i uint64) *Scenario {
	sc := &Scenario{Prop: "C06", Seed: seed, Run: i}
	genCold(newRng(runSeed(seed, "C06 cold", i)), sc)
	return sc
}

// coldMain executes one run as the first thing this process does with the
// library and answers on descriptor 3.
func coldMain(args []string) {
	fs := flag.NewFlagSet("cold", flag.ExitOnError)
	seed := fs.Uint64("seed", 1, "")
	run := fs.Uint64("run", 0, "")
	dir := fs.String("dir", "", "")
	_ = fs.Parse(args)
	out := os.NewFile(3, "out")
	captureStreams(*dir)
	debug.SetGCPercent(400)
	startWatch()
	sc := coldScenario(*seed, *run)
	st := newStats()
	v := checkC06(sc, st)
	dropCaptured(*dir)
	m := msg{T: "done", Run: *run, Stats: st}
	if v != nil {
		m.T, m.Rule, m.Detail, m.Sc = "viol", v.Rule, v.Detail, sc
	}
	st.Runs = 1
	j, _ := json.Marshal(m)
	_, _ = out.Write(append(j, '\n'))
	os.Exit(0)
}

// freshMain executes one task alone in this new process and answers with what
// it observed. The scenario comes on standard input.
func freshMain() {
	out := os.NewFile(3, "out")
	var sc Scenario
	if err := json.NewDecoder(os.Stdin).Decode(&sc); err != nil {
		fatal(err.Error())
	}
	debug.SetPanicOnFault(true)
	startWatch()
	e := execute(&sc, sc.Fresh-1)
	var keys []string
	for _, o := range e.res[sc.Fresh-1] {
		keys = append(keys, o.key(0))
	}
	j, _ := json.Marshal(keys)
	_, _ = out.Write(j)
	os.Exit(0)
}

// alone has a task executed alone by a new process. No keys: it did not end.
func alone(sc *Scenario) []string {
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	in, _ := json.Marshal(sc)
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "/proc/self/exe", "fresh")
	cmd.Stdin = bytes.NewReader(in)
	cmd.ExtraFiles = []*os.File{w}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	_ = w.Close()
	b, _ := io.ReadAll(r)
	_ = r.Close()
	if err := cmd.Wait(); err != nil {
		return nil
	}
	var keys []string
	_ = json.Unmarshal(b, &keys)
	return keys
}

func dropCaptured(dir string) {
	for i := range capFds {
		_ = os.Remove(fmt.Sprintf("%s/fd%d.%d", dir, i+1, os.Getpid()))
	}
}

// cold runs many processes, each of which executes one run and ends.
func (c *checker) coldRuns(end time.Time) int {
	type res struct {
		run  uint64
		m    *msg
		text string
	}
	var next atomic.Uint64
	var stop atomic.Bool
	out := make(chan res, c.nw)
	var wg sync.WaitGroup
	for k := 0; k < c.nw; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !stop.Load() && time.Now().Before(end) {
				i := next.Add(1) - 1
				r, w, err := os.Pipe()
				if err != nil {
					out <- res{i, nil, err.Error()}
					return
				}
				ctx, cancel := context.WithTimeout(context.Background(), 40*time.Second)
				cmd := exec.CommandContext(ctx, c.exe, "cold", "-seed", fmt.Sprint(c.seed), "-run", fmt.Sprint(i), "-dir", c.dir)
				cmd.ExtraFiles = []*os.File{w}
				cmd.Env = workerEnv()
				var eb strings.Builder
				cmd.Stderr = &eb
				err = cmd.Start()
				_ = w.Close()
				var b []byte
				if err == nil {
					b, _ = io.ReadAll(r)
					err = cmd.Wait()
				}
				cancel()
				_ = r.Close()
				var m msg
				if err != nil || json.Unmarshal(b, &m) != nil {
					out <- res{i, nil, fmt.Sprint(err, " ", eb.String())}
					continue
				}
				out <- res{i, &m, ""}
			}
		}()
	}
	go func() { wg.Wait(); close(out) }()
	var found *msg
	lost := ""
	for r := range out {
		switch {
		case r.m == nil:
			// the other stages speak about runs that end the process
			lost = r.text
			c.skips++
		case r.m.T == "viol":
			if found == nil || r.m.Run < found.Run {
				found = r.m
			}
			stop.Store(true)
		default:
			c.merge(r.m.Stats)
			c.total.Probes["processes started for their first use of the library"]++
		}
	}
	if found == nil {
		if c.skips > 20 {
			fmt.Fprintln(os.Stderr, "vsim: processes for first use fail: "+lost)
			return 3
		}
		return 0
	}
	path := filepath.Join(c.dir, "cold.json")
	var detail string
	min := minimise(found.Sc, found.Rule, func(s *Scenario) *viol {
		writeJSON(path, &replayFile{Property: "C06", Rule: found.Rule, Race: raceBuilt, Scenario: s})
		if res, text := c.tryReplay(path, 60); res == "same" {
			return &viol{found.Rule, text}
		}
		return nil
	}, 40*time.Second)
	dst := filepath.Join(c.rdir, fmt.Sprintf("C06-cold-%d-%d.json", c.seed, found.Run))
	_ = os.MkdirAll(c.rdir, 0o755)
	rf := &replayFile{Property: "C06", Rule: found.Rule, Detail: found.Detail, Seed: c.seed, Run: found.Run, Race: raceBuilt, Scenario: min,
		Note: "first use of the library in a process", Original: found.Sc}
	writeJSON(dst, rf)
	ok := false
	for k := 0; k < 3 && !ok; k++ {
		var res string
		res, detail = c.tryReplay(dst, 60)
		ok = res == "same"
	}
	if !ok {
		fmt.Fprintf(os.Stderr, "vsim: first-use run %d of seed %d: %s: %s, but it does not show again in a fresh process\n", found.Run, c.seed, found.Rule, found.Detail)
		return 3
	}
	c.viols++
	c.replay = dst
	fmt.Printf("seed %d first-use run %d: %s", c.seed, found.Run, detail)
	fmt.Printf("VIOLATION property=C06 replay=%s\n", dst)
	return 1
}

func workerEnv() []string {
	return append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=single", "GORACE=suppress_equal_stacks=0 suppress_equal_addresses=0 halt_on_error=0 exitcode=0 atexit_sleep_ms=0")
}

// ---------------------------------------------------------------- worker

type msg struct {
	T      string // viol, done
	Run    uint64
	Rule   string
	Detail string
	Sc     *Scenario `json:",omitempty"`
	Orig   *Scenario `json:",omitempty"`
	Stats  *stats    `json:",omitempty"`
}

// slow tells for which runs descriptor 4 wants to know (simulator tuning only).
var slow, _ = strconv.ParseFloat(os.Getenv("VSIM_SLOW"), 64)

func workerMain(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	pid := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Uint64("from", 0, "")
	stride := fs.Uint64("stride", 1, "")
	runs := fs.Uint64("runs", 0, "total over all workers")
	until := fs.Int64("until", 0, "unix ms")
	slot := fs.Int("slot", 0, "")
	shm := fs.String("shm", "", "")
	dir := fs.String("dir", "", "")
	big := fs.Int("big", 40, "")
	minS := fs.Int("min", 40, "seconds for minimising")
	trace := fs.String("trace", "", "write a line per run")
	_ = fs.Parse(args)
	p := props[*pid]
	if p == nil {
		fatal("no property " + *pid)
	}
	out := os.NewFile(3, "out")
	captureStreams(*dir)
	cells := mapShm(*shm)
	defer func() {
		if r := recover(); r != nil {
			j, _ := json.Marshal(msg{T: "broken", Detail: fmt.Sprint(r) + "\n" + string(debug.Stack())})
			_, _ = out.Write(append(j, '\n'))
			os.Exit(3)
		}
	}()
	debug.SetGCPercent(400)
	debug.SetPanicOnFault(true)
	startWatch()
	warmUp()
	if raceBuilt && p.id == "C06" {
		raceSelfTest()
	}
	st := newStats()
	var tr *os.File
	if *trace != "" {
		tr, _ = os.Create(*trace)
	}
	enc := json.NewEncoder(out)
	k := 0
	for i := *from; i < *runs; i += *stride {
		if k&15 == 0 && time.Now().UnixMilli() > *until {
			break
		}
		k++
		cells[*slot] = i + 1
		began := time.Now()
		sc := makeScenario(p, *seed, i, *big)
		v := p.check(sc, st)
		if d := time.Since(began); slow > 0 && d.Seconds() > slow {
			fmt.Fprintf(os.NewFile(4, "slow"), "%s run %d took %v\n", p.id, i, d)
		}
		st.Runs++
		if tr != nil {
			j, _ := json.Marshal(sc)
			fmt.Fprintf(tr, "%d %x %d %d\n", i, hashStr(string(j)), st.Steps, len(st.fps))
		}
		if v != nil {
			cells[*slot] = 0
			min := sc
			if v.Rule != "goroutine" {
				quiet := newStats()
				quiet.quiet = true
				min = minimise(sc, v.Rule, func(c *Scenario) *viol { return p.check(c, quiet) }, time.Duration(*minS)*time.Second)
				if w := p.check(clone(min), quiet); w != nil && w.Rule == v.Rule {
					v = w
				}
			}
			_ = enc.Encode(msg{T: "viol", Run: i, Rule: v.Rule, Detail: v.Detail, Sc: min, Orig: sc})
			break
		}
	}
	cells[*slot] = 0
	writeSet(filepath.Join(*dir, fmt.Sprintf("fps.%d", os.Getpid())), st.fps)
	writeSet(filepath.Join(*dir, fmt.Sprintf("sched.%d", os.Getpid())), st.sched)
	_ = enc.Encode(msg{T: "done", Stats: st})
	_ = out.Close()
}

func writeSet(path string, s map[uint64]struct{}) {
	b := make([]byte, 0, 8*len(s))
	for k := range s {
		b = binary.LittleEndian.AppendUint64(b, k)
	}
	_ = os.WriteFile(path, b, 0o600)
}

func mapShm(path string) []uint64 {
	if path == "" {
		return make([]uint64, 64)
	}
	f, err := os.OpenFile(path, os.O_RDWR, 0)
	if err != nil {
		panic(err)
	}
	m, err := syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	_ = f.Close()
	return unsafe.Slice((*uint64)(unsafe.Pointer(&m[0])), 512)
}

// warmUp uses the library once, so that what it sets up on first use is there
// in all runs. Use of a library that is not set up yet is the matter of coldMain.
func warmUp() {
	for _, ns := range []bool{false, true} {
		sc := &Scenario{Docs: []Doc{{Orig: Blob("<?xml version='1.0' encoding='US-ASCII'?><!DOCTYPE a><a xmlns:b='u&amp;v'><b:c b:d='&#65;'/> t&lt; <?p v?><!-- c --><![CDATA[d]]></a>")}, {Orig: Blob("<a>&</a>")}}}
		for d := range sc.Docs {
			sc.Tasks = []Task{{Attempts: []Attempt{{Doc: d, Ns: ns, Nav: true, Lc: 5, Ops: []NavOp{{Op: "move", A: 0}, {Op: "move", A: 2}, {Op: "str", A: 5}, {Op: "raw", A: 5}, {Op: "move", A: 99}}}}}}
			execute(sc, -1)
		}
	}
}

var raceProbe int

func raceSelfTest() {
	n := raceErrors()
	runTasks(2, func(t *simTask) {
		for i := 0; i < 4; i++ {
			raceProbe++
			t.ran++
			t.yield(0)
		}
	}, nil, newRng(1), 1)
	if raceErrors() == n {
		panic("the race detector does not see a race between two tasks")
	}
}

// ---------------------------------------------------------------- replay

type replayFile struct {
	Property string
	Rule     string
	Detail   string
	Seed     uint64
	Run      uint64
	Race     bool
	Big      int
	Hang     bool     `json:",omitempty"` // the run does not end or kills the process
	Prelude  []uint64 `json:",omitempty"` // runs of the same seed executed before, in the same process
	Note     string   `json:",omitempty"`
	Scenario *Scenario
	Original *Scenario `json:",omitempty"`
}

// replayMain runs a replay file once: exit 1 if the recorded violation shows.
func replayMain(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	dir := fs.String("dir", os.TempDir(), "")
	fd := fs.Bool("fd3", false, "answer on descriptor 3")
	_ = fs.Parse(args)
	raw, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fatal(err.Error())
	}
	var rf replayFile
	if err := json.Unmarshal(raw, &rf); err != nil {
		fatal(err.Error())
	}
	p := props[rf.Property]
	if p == nil {
		fatal("no property " + rf.Property)
	}
	if rf.Race != raceBuilt {
		fmt.Fprintf(os.Stderr, "vsim: this replay needs the %s build\n", map[bool]string{true: "race", false: "plain"}[rf.Race])
		os.Exit(4)
	}
	var out *os.File
	if *fd {
		out = os.NewFile(3, "out")
	} else {
		n, err := syscall.Dup(1)
		if err != nil {
			fatal(err.Error())
		}
		out = os.NewFile(uintptr(n), "out")
	}
	captureStreams(*dir)
	debug.SetPanicOnFault(true)
	startWatch()
	if !rf.Scenario.Cold {
		warmUp()
	}
	st := newStats()
	for _, i := range rf.Prelude {
		_ = p.check(makeScenario(p, rf.Seed, i, rf.Big), st)
	}
	v := p.check(rf.Scenario, st)
	dropCaptured(*dir)
	if v == nil {
		fmt.Fprintf(out, "replay: property %s held\n", rf.Property)
		os.Exit(0)
	}
	fmt.Fprintf(out, "replay: property %s broken: %s: %s\n", rf.Property, v.Rule, v.Detail)
	if v.Rule != rf.Rule {
		os.Exit(2)
	}
	os.Exit(1)
}

// ---------------------------------------------------------------- check

type worker struct {
	cmd   *exec.Cmd
	slot  int
	from  uint64
	lines chan msg
	last  uint64
	cpu0  float64
	done  bool
}

func checkMain(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	pid := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	tier := fs.String("tier", "quick", "")
	runs := fs.Uint64("runs", 0, "")
	secs := fs.Float64("secs", 60, "")
	nw := fs.Int("workers", runtime.NumCPU(), "")
	outp := fs.String("part", "", "where the numbers go")
	rdir := fs.String("replays", "", "")
	big := fs.Int("big", 40, "")
	known := fs.String("known", "", "")
	minS := fs.Int("min", 40, "seconds for minimising")
	fs.Float64Var(&hangCPU, "hang", hangCPU, "seconds of CPU time after which a run is suspect")
	_ = fs.Parse(args)
	p := props[*pid]
	if p == nil {
		fatal("no property " + *pid)
	}
	if !hooksBuilt {
		// the character tables are scanned for every character
		*big, hangCPU = 0, 200
	}
	deadCode = 3
	startWatch()
	c := &checker{p: p, seed: *seed, runs: *runs, nw: *nw, rdir: *rdir, big: *big, known: *known, tier: *tier, minS: *minS}
	c.start = time.Now()
	c.until = c.start.Add(time.Duration(*secs * float64(time.Second)))
	code := c.run()
	c.writePart(*outp)
	os.Exit(code)
}

type checker struct {
	p      *prop
	tier   string
	minS   int
	seed   uint64
	runs   uint64
	nw     int
	rdir   string
	known  string
	big    int
	start  time.Time
	until  time.Time
	dir    string
	shm    string
	cells  []uint64
	total  *stats
	viols  int
	pids   []int
	exe    string
	skips  int
	replay string
}

func (c *checker) spawn(slot int, from uint64) *worker {
	r, w, err := os.Pipe()
	if err != nil {
		fatal(err.Error())
	}
	cmd := exec.Command(c.exe, "worker", "-prop", c.p.id, "-seed", fmt.Sprint(c.seed), "-from", fmt.Sprint(from), "-stride", fmt.Sprint(c.nw),
		"-runs", fmt.Sprint(c.runs), "-until", fmt.Sprint(c.until.UnixMilli()), "-slot", fmt.Sprint(slot), "-shm", c.shm, "-dir", c.dir, "-big", fmt.Sprint(c.big), "-min", fmt.Sprint(c.minS))
	cmd.ExtraFiles = []*os.File{w}
	cmd.Env = workerEnv()
	ef, _ := os.Create(filepath.Join(c.dir, fmt.Sprintf("err.%d", slot)))
	cmd.Stderr = ef
	if err := cmd.Start(); err != nil {
		fatal(err.Error())
	}
	_ = w.Close()
	_ = ef.Close()
	k := &worker{cmd: cmd, slot: slot, from: from, lines: make(chan msg, 16)}
	go func() {
		s := bufio.NewReaderSize(r, 1<<20)
		for {
			l, err := s.ReadBytes('\n')
			if len(l) > 1 {
				var m msg
				if json.Unmarshal(l, &m) == nil {
					k.lines <- m
				}
			}
			if err != nil {
				break
			}
		}
		_ = r.Close()
		_ = cmd.Wait()
		close(k.lines)
	}()
	return k
}

func cpuOf(pid int) (float64, int64) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0, 0
	}
	s := string(b)
	f := strings.Fields(s[strings.LastIndexByte(s, ')')+1:])
	if len(f) < 22 {
		return 0, 0
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	y, _ := strconv.ParseFloat(f[12], 64)
	rss, _ := strconv.ParseInt(f[21], 10, 64)
	return (u + y) / 100, rss * 4096
}

var hangCPU = 25.0 // seconds of CPU time one run may take before it is suspect

// hangs tells for which properties a run that never ends, or that kills the
// process, breaks the property itself.
var hangs = map[string]bool{"C01": true, "C03": true, "C06": true, "C07": true, "C08": true, "C10": true, "C11": true, "C12": true, "C13": true}

func (c *checker) run() int {
	var err error
	if c.exe, err = os.Executable(); err != nil {
		fatal(err.Error())
	}
	c.dir, err = os.MkdirTemp("", "vsim")
	if err != nil {
		fatal(err.Error())
	}
	defer os.RemoveAll(c.dir)
	c.shm = filepath.Join(c.dir, "shm")
	_ = os.WriteFile(c.shm, make([]byte, 4096), 0o600)
	c.cells = mapShm(c.shm)
	c.total = newStats()
	if raceBuilt && c.p.id == "C06" {
		if code := c.coldRuns(c.start.Add(c.until.Sub(c.start) * 3 / 10)); code != 0 {
			return code
		}
		c.skips = 0
	}
	var ws []*worker
	for i := 0; i < c.nw; i++ {
		ws = append(ws, c.spawn(i, uint64(i)))
	}
	var found *msg
	var foundBy *worker
	code := 0
	for alive := len(ws); alive > 0; {
		alive = 0
		for wi, w := range ws {
			if w.done {
				continue
			}
			alive++
			closed := false
		drain:
			for {
				select {
				case m, ok := <-w.lines:
					if !ok {
						closed = true
						break drain
					}
					switch m.T {
					case "done":
						c.merge(m.Stats)
						w.done = true
					case "viol":
						if found == nil || m.Run < found.Run {
							mm := m
							found, foundBy = &mm, w
						}
						// the others need not go on
						c.stopAll(ws, w)
					case "broken":
						fmt.Fprintln(os.Stderr, "vsim: the simulator itself failed: "+m.Detail)
						c.stopAll(ws, nil)
						return 3
					}
				default:
					break drain
				}
			}
			if w.done || found != nil && closed {
				w.done = true
				continue
			}
			run := c.cells[w.slot]
			if closed {
				// the process died in the middle of a run
				code = c.died(w, run, "the process died", ws)
				if code >= 0 {
					return code
				}
				ws[wi] = c.spawn(w.slot, run-1+uint64(c.nw))
				continue
			}
			cpu, rss := cpuOf(w.cmd.Process.Pid)
			if run != w.last {
				w.last, w.cpu0 = run, cpu
			} else if run != 0 && (cpu-w.cpu0 > hangCPU || rss > 8<<30) {
				_ = w.cmd.Process.Kill()
				code = c.died(w, run, "the run does not end", ws)
				if code >= 0 {
					return code
				}
				ws[wi] = c.spawn(w.slot, run-1+uint64(c.nw))
			}
		}
		time.Sleep(20 * time.Millisecond)
	}
	files, _ := filepath.Glob(filepath.Join(c.dir, "fps.*"))
	for _, f := range files {
		readSet(f, c.total.fps)
	}
	files, _ = filepath.Glob(filepath.Join(c.dir, "sched.*"))
	for _, f := range files {
		readSet(f, c.total.sched)
	}
	if found != nil {
		return c.report(found, foundBy)
	}
	if c.skips > 0 {
		fmt.Printf("%d runs ended the process or did not end, which another property speaks about\n", c.skips)
	}
	return 0
}

func (c *checker) stopAll(ws []*worker, but *worker) {
	for _, w := range ws {
		if w != but && !w.done {
			_ = w.cmd.Process.Signal(syscall.SIGKILL)
			w.done = true
		}
	}
}

func readSet(path string, into map[uint64]struct{}) {
	b, _ := os.ReadFile(path)
	for i := 0; i+8 <= len(b); i += 8 {
		into[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
	}
}

func (c *checker) merge(s *stats) {
	t := c.total
	t.Runs += s.Runs
	t.Execs += s.Execs
	t.Attempts += s.Attempts
	t.Steps += s.Steps
	t.Bytes += s.Bytes
	for k, v := range s.Faults {
		t.Faults[k] += v
	}
	for k, v := range s.Seams {
		t.Seams[k] += v
	}
	for k, v := range s.Probes {
		t.Probes[k] += v
	}
	if len(t.Samples) < 12 {
		t.Samples = append(t.Samples, s.Samples...)
	}
}

// tryReplay runs a replay file in a fresh process: "same", "other", "held",
// "died" or "hang".
func (c *checker) tryReplay(path string, cpu float64) (string, string) {
	r, w, err := os.Pipe()
	if err != nil {
		return "error", err.Error()
	}
	cmd := exec.Command(c.exe, "replay", "-fd3", "-dir", c.dir, path)
	cmd.ExtraFiles = []*os.File{w}
	cmd.Env = workerEnv()
	var eb strings.Builder
	cmd.Stderr = &eb
	if err := cmd.Start(); err != nil {
		return "error", err.Error()
	}
	_ = w.Close()
	text := make(chan string, 1)
	go func() {
		b := make([]byte, 1<<16)
		var s strings.Builder
		for {
			n, err := r.Read(b)
			s.Write(b[:n])
			if err != nil {
				break
			}
		}
		text <- s.String()
	}()
	end := make(chan error, 1)
	go func() { end <- cmd.Wait() }()
	for {
		select {
		case <-end:
			t := <-text
			_ = r.Close()
			switch cmd.ProcessState.ExitCode() {
			case 0:
				return "held", t
			case 1:
				return "same", t
			case 2:
				if strings.HasPrefix(t, "replay:") {
					return "other", t
				}
			}
			d, _ := os.ReadFile(filepath.Join(c.dir, fmt.Sprintf("fd2.%d", cmd.Process.Pid)))
			return "died", oneLine(cut(string(d) + eb.String() + " " + cmd.ProcessState.String()))
		case <-time.After(50 * time.Millisecond):
			u, rss := cpuOf(cmd.Process.Pid)
			if u > cpu || rss > 8<<30 {
				_ = cmd.Process.Kill()
				<-end
				return "hang", fmt.Sprintf("still running after %.0f s of CPU time, %d MB", u, rss>>20)
			}
		}
	}
}

// died deals with a run that killed its process or never ended: it is repeated
// alone in a fresh process. The result is an exit code, or -1 to go on.
func (c *checker) died(w *worker, run uint64, what string, ws []*worker) int {
	if run == 0 {
		b, _ := os.ReadFile(filepath.Join(c.dir, fmt.Sprintf("err.%d", w.slot)))
		b2, _ := os.ReadFile(filepath.Join(c.dir, fmt.Sprintf("fd2.%d", w.cmd.Process.Pid)))
		fmt.Fprintf(os.Stderr, "vsim: worker %d died outside a run: %s %s\n", w.slot, b, b2)
		c.stopAll(ws, nil)
		return 3
	}
	if !hangs[c.p.id] {
		c.skips++
		if c.skips > 50 {
			fmt.Fprintln(os.Stderr, "vsim: too many runs ended their process")
			c.stopAll(ws, nil)
			return 3
		}
		return -1
	}
	path := filepath.Join(c.dir, "suspect.json")
	// generating the scenario may be what hangs, so the fresh process does it
	rf := &replayFile{Property: c.p.id, Rule: "endless", Seed: c.seed, Run: run - 1, Race: raceBuilt, Big: c.big, Hang: true,
		Prelude: []uint64{run - 1}, Scenario: &Scenario{Prop: c.p.id}}
	writeJSON(path, rf)
	res, text := c.tryReplay(path, 2*hangCPU)
	for n := uint64(1); n <= 1024 && res == "held"; n *= 4 {
		// what earlier runs of the same process left behind takes part
		rf.Prelude = rf.Prelude[:0]
		for k := n; k >= 1; k-- {
			if d := k * uint64(c.nw); run-1 >= w.from+d {
				rf.Prelude = append(rf.Prelude, run-1-d)
			}
		}
		rf.Prelude = append(rf.Prelude, run-1)
		writeJSON(path, rf)
		res, text = c.tryReplay(path, 2*hangCPU)
	}
	if res != "hang" && res != "died" {
		c.skips++
		fmt.Fprintf(os.Stderr, "vsim: run %d: %s, but not again (%s)\n", run-1, what, res)
		if c.skips > 20 {
			c.stopAll(ws, nil)
			return 3
		}
		return -1
	}
	c.stopAll(ws, nil)
	rf.Rule = map[string]string{"hang": "endless", "died": "process-death"}[res]
	rf.Detail = what + ": " + text
	dst := filepath.Join(c.rdir, fmt.Sprintf("%s-%d-%d.json", c.p.id, c.seed, run-1))
	_ = os.MkdirAll(c.rdir, 0o755)
	writeJSON(dst, rf)
	c.viols++
	c.replay = dst
	fmt.Printf("seed %d run %d: %s\n", c.seed, run-1, rf.Detail)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.p.id, dst)
	return 1
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		fatal(err.Error())
	}
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fatal(err.Error())
	}
}

// report makes sure that the violation shows in a fresh process and prints it.
func (c *checker) report(m *msg, w *worker) int {
	_ = os.MkdirAll(c.rdir, 0o755)
	dst := filepath.Join(c.rdir, fmt.Sprintf("%s-%d-%d.json", c.p.id, c.seed, m.Run))
	rf := &replayFile{Property: c.p.id, Rule: m.Rule, Detail: m.Detail, Seed: c.seed, Run: m.Run, Race: raceBuilt, Big: c.big, Scenario: m.Sc}
	ok := false
	try := func(note string) {
		if ok {
			return
		}
		writeJSON(dst, rf)
		res, text := c.tryReplay(dst, 120)
		if res == "same" {
			ok = true
			rf.Note = note
			if i := strings.Index(text, ": "+rf.Rule+": "); i >= 0 {
				rf.Detail = strings.TrimSpace(text[i+len(rf.Rule)+4:])
			}
			rf.Original = m.Orig
			if j, _ := json.Marshal(m.Orig); len(j) > 1<<20 || note != "minimised" {
				rf.Original = nil
			}
			writeJSON(dst, rf)
		}
	}
	try("minimised")
	rf.Scenario = m.Orig
	try("as found")
	for n := uint64(1); n <= 4096 && !ok; n *= 4 {
		// what earlier runs of the same process left behind takes part
		rf.Prelude = nil
		for k := n; k >= 1; k-- {
			if d := k * uint64(c.nw); m.Run >= w.from+d {
				rf.Prelude = append(rf.Prelude, m.Run-d)
			}
		}
		try("needs the runs before it in the same process")
	}
	if !ok {
		fmt.Fprintf(os.Stderr, "vsim: run %d of seed %d: %s: %s, but it does not show again in a fresh process\n", m.Run, c.seed, m.Rule, m.Detail)
		return 3
	}
	c.viols++
	c.replay = dst
	fmt.Printf("seed %d run %d: %s: %s\n", c.seed, m.Run, m.Rule, rf.Detail)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.p.id, dst)
	return 1
}

// ---------------------------------------------------------------- evidence

type part struct {
	Build      string
	Runs       int
	Executions int
	Attempts   int
	Steps      int64
	Entries    int64
	Seconds    float64
	Faults     map[string]int
	Seams      map[string]int
	Probes     map[string]int
	Distinct   int
	Schedules  int
	Samples    []string
	Violations int
	Rule       string
	Replay     string `json:",omitempty"`
}

func (c *checker) writePart(path string) {
	if path == "" || c.total == nil {
		return
	}
	t := c.total
	b := "plain"
	if raceBuilt {
		b = "race"
	}
	s := t.Samples
	sort.Strings(s)
	if len(s) > 10 {
		s = s[:10]
	}
	writeJSON(path, &part{Build: b, Runs: t.Runs, Executions: t.Execs, Attempts: t.Attempts, Steps: t.Steps, Entries: t.Bytes, Seconds: time.Since(c.start).Seconds(),
		Faults: t.Faults, Seams: t.Seams, Probes: t.Probes, Distinct: len(t.fps), Schedules: len(t.sched), Samples: s, Violations: c.viols, Rule: c.p.rule, Replay: c.replay})
}

// mergeMain writes the evidence file from the parts of a check.
func mergeMain(args []string) {
	fs := flag.NewFlagSet("merge", flag.ExitOnError)
	pid := fs.String("prop", "", "")
	seed := fs.Int("seed", 1, "")
	tier := fs.String("tier", "quick", "")
	out := fs.String("out", "", "")
	hooks := fs.Bool("hooks", true, "")
	wall := fs.Float64("wall", 0, "")
	_ = fs.Parse(args)
	var all part
	all.Faults, all.Seams, all.Probes = map[string]int{}, map[string]int{}, map[string]int{}
	var parts []map[string]any
	for _, f := range fs.Args() {
		var p part
		raw, err := os.ReadFile(f)
		if err != nil || json.Unmarshal(raw, &p) != nil {
			continue
		}
		all.Runs += p.Runs
		all.Executions += p.Executions
		all.Attempts += p.Attempts
		all.Steps += p.Steps
		all.Entries += p.Entries
		all.Seconds += p.Seconds
		all.Distinct += p.Distinct
		all.Schedules += p.Schedules
		all.Violations += p.Violations
		all.Rule = p.Rule
		for k, v := range p.Faults {
			all.Faults[k] += v
		}
		for k, v := range p.Seams {
			all.Seams[k] += v
		}
		for k, v := range p.Probes {
			all.Probes[k] += v
		}
		for _, s := range p.Samples {
			if len(all.Samples) < 10 {
				all.Samples = append(all.Samples, s)
			}
		}
		parts = append(parts, map[string]any{"build": p.Build, "runs": p.Runs, "seconds": p.Seconds, "distinct": p.Distinct, "schedules": p.Schedules})
	}
	if len(all.Samples) == 0 {
		all.Samples = []string{"no run was completed before the violation"}
	}
	if len(all.Samples) < 1 {
		all.Samples = []string{}
	}
	real := []string{"parser.VtdParser", "navigation.VtdNav", "buffer.FastLongBuffer", "buffer.FastIntBuffer", "buffer.UniByteBuffer", "reader.Utf8Reader", "reader.AsciiReader", "erroring", "common.XmlChar (answers remembered in builds with the hook)"}
	stub := []string{"document storage (what producers wrote and what the disk delivers)", "scheduler of the tasks", "failure of components (in front of the real component)"}
	switch *pid {
	case "C12":
		real = []string{"buffer.FastLongBuffer", "buffer.FastIntBuffer", "buffer.FastObjectBuffer", "buffer.UniByteBuffer"}
		stub = []string{"clients of the buffer"}
	case "C13":
		real = []string{"reader.Utf8Reader", "reader.AsciiReader"}
		stub = []string{"clients of the reader", "document storage"}
	}
	hour := 0.0
	if all.Seconds > 0 {
		hour = float64(all.Runs) / all.Seconds * 3600
	}
	ev := map[string]any{
		"property": *pid, "tier": *tier, "seed": *seed, "level": "exploration", "wall_s": *wall, "violations": all.Violations,
		"coverage": map[string]any{
			"evaluations": all.Executions, "distinct_nontrivial": all.Distinct, "rule": all.Rule, "samples": all.Samples,
			"simulated_runs": all.Runs, "runs_per_hour": int64(hour), "seeds_per_hour": int64(hour),
			"attempts": all.Attempts, "simulated_time_component_operations": all.Steps, "index_entries_read": all.Entries,
			"faults_injected": all.Faults, "component_faults_by_place": all.Seams, "probes": all.Probes,
			"distinct_interleavings": all.Schedules, "interleaving_measure": "hash over the sequence of (task, component operation it stopped at)",
			"components_real": real, "components_stub": stub, "parts": parts, "hooks_on": *hooks,
		},
		"assumptions": []string{"the reference model (sim/ref) and the generator state what XML 1.0 and Namespaces in XML demand", "the library has no timers or I/O of its own, so simulated time is counted in component operations"},
	}
	writeJSON(*out, ev)
}
