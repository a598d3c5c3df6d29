// Package simh is the framework shared by the simulation harnesses: seeded
// plans, the run protocol spoken with /verif/check, failure and fault
// bookkeeping that the race detector does not see, a simulated network and a
// simulated disk. It is added to the standard library by the build overlay.
package simh

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"runtime"
	"runtime/debug"
	"simrt"
	"strings"
	"syscall"
	"time"
)

// ---- random numbers for plans ----

type R struct{ s uint64 }

func NewR(seed uint64) *R { return &R{seed} }

//go:norace
func Mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func (r *R) U64() uint64 { r.s += 0x9e3779b97f4a7c15; return Mix(r.s) }
func (r *R) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() >> 1 % uint64(n))
}
func (r *R) Range(a, b int) int       { return a + r.Intn(b-a+1) } // inclusive
func (r *R) F() float64               { return float64(r.U64()>>11) / (1 << 53) }
func (r *R) In(a, b float64) float64  { return a + (b-a)*r.F() }
func (r *R) Bool(p float64) bool      { return r.F() < p }
func (r *R) Pick(w ...int) int        { return w[r.Intn(len(w))] }
func (r *R) PickS(w ...string) string { return w[r.Intn(len(w))] }

// Hash is a pure function of its arguments, for choices inside a run that must
// not depend on the order in which they are made.
//
//go:norace
func Hash(a ...uint64) uint64 {
	h := uint64(0x1234567)
	for _, x := range a {
		h = Mix(h ^ x)
	}
	return h
}

//go:norace
func Hash3(a, b, c uint64) uint64 { return Mix(Mix(Mix(0x1234567^a)^b) ^ c) }

// ---- cases ----

// A Sched says how the scheduler explores one section of a run.
type Sched struct {
	Mode  int         `json:"mode"` // 0 default schedule plus Dec, 1 random, 2 PCT
	Seed  uint64      `json:"seed"`
	Hot   uint32      `json:"hot,omitempty"`
	Cold  uint32      `json:"cold,omitempty"`
	Share uint32      `json:"share,omitempty"`
	Gap   uint32      `json:"gap,omitempty"`
	Dec   [][2]uint64 `json:"dec,omitempty"`
}

// A Case is one exactly repeatable execution.
type Case struct {
	Prop  string          `json:"prop"`
	Seed  uint64          `json:"seed"`
	Rand  uint64          `json:"rand"`
	Sched Sched           `json:"sched"`
	Secs  []Sched         `json:"secs,omitempty"` // overrides Sched, per section
	Plan  json.RawMessage `json:"plan"`
	Cap   uint64          `json:"cap,omitempty"` // yields per section; 0: default
}

type Failure struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

type Result struct {
	Index    int            `json:"i"`
	Seed     uint64         `json:"seed"`
	Hash     string         `json:"hash"`
	NDec     int            `json:"ndec"` // scheduling decisions other than the default
	Steps    uint64         `json:"steps"`
	Switches uint64         `json:"switches"`
	Yields   uint64         `json:"yields"`
	Gs       int            `json:"gs"`
	SimNS    int64          `json:"simns"`
	Fails    []Failure      `json:"fails,omitempty"`
	Counts   map[string]int `json:"counts,omitempty"`
	Case     *Case          `json:"case,omitempty"`
	Trace    []string       `json:"trace,omitempty"`
	Inconcl  string         `json:"inconclusive,omitempty"`
	Sites    []uint32       `json:"sites,omitempty"` // statements reached for the first time in this process
}

type Prop struct {
	ID  string
	Gen func(r *R) interface{}
	New func() interface{}
	Run func(t *T, plan interface{})
	// Races makes a data race in the code under test a failure.
	Races bool
	Cap   uint64 // yields per section; 0: default
	// Fresh gives every run a process of its own, for code under test that
	// keeps state in package-level variables.
	Fresh bool
}

// T is the state of one run.
type T struct {
	c      *Case
	p      *Prop
	sec    int
	secs   []Sched
	res    Result
	nfail  int
	fails  [16]Failure
	ncount int
	counts [64]struct {
		k string
		n int
	}
	ntrace  int
	trace   [1 << 12]string
	Verbose bool
}

// Fail records a violation. It can be called from any goroutine.
//
//go:norace
func (t *T) Fail(class, format string, a ...interface{}) {
	if t.nfail < len(t.fails) {
		t.fails[t.nfail] = Failure{class, fmt.Sprintf(format, a...)}
		t.nfail++
	}
	t.Trace("FAIL %s: %s", class, fmt.Sprintf(format, a...))
}

//go:norace
func (t *T) Failed() bool { return t.nfail > 0 }

// Count counts faults ("fault:..."), probes and operations.
//
//go:norace
func (t *T) Count(kind string) { t.CountN(kind, 1) }

//go:norace
func (t *T) CountN(kind string, n int) {
	for i := 0; i < t.ncount; i++ {
		if t.counts[i].k == kind {
			t.counts[i].n += n
			return
		}
	}
	if t.ncount < len(t.counts) {
		t.counts[t.ncount].k = kind
		t.counts[t.ncount].n = n
		t.ncount++
	}
}

// Trace adds a line to the readable history of the run.
//
//go:norace
func (t *T) Trace(format string, a ...interface{}) {
	if t.ntrace < len(t.trace) {
		t.trace[t.ntrace] = fmt.Sprintf("%9.3fms ", float64(runtime.SimNow())/1e6) + fmt.Sprintf(format, a...)
		t.ntrace++
	}
}

// Seq is a number that grows with every scheduling decision and event.
//
//go:norace
func (t *T) Rand() uint64 { return t.c.Rand }

// Sim runs f in a bubble, on a machine with ncpu CPUs. If explore is false the
// default schedule is used.
func (t *T) Sim(ncpu int, explore bool, f func()) (left int, dead bool) {
	return t.sim(ncpu, explore, Hash(t.c.Rand, uint64(t.sec)), f)
}

// Build runs f on the default schedule, with the same random numbers (map
// iteration, ...) every time in this run.
func (t *T) Build(f func()) (left int, dead bool) {
	return t.sim(1, false, Hash(t.c.Rand, 0xb), f)
}

func (t *T) sim(ncpu int, explore bool, rnd uint64, f func()) (left int, dead bool) {
	k := t.sec
	t.sec++
	cfg := runtime.SimConfig{NumCPU: ncpu, RandSeed: rnd, StepCap: t.p.Cap}
	if t.c.Cap != 0 {
		cfg.StepCap = t.c.Cap
	}
	if cfg.StepCap == 0 {
		cfg.StepCap = 60e6
	}
	s := t.c.Sched
	s.Seed = Hash(s.Seed, uint64(k))
	if k < len(t.c.Secs) {
		s = t.c.Secs[k]
	} else if !explore {
		s = Sched{}
	}
	cfg.Mode, cfg.Seed, cfg.HotProb, cfg.ColdProb, cfg.HotShare, cfg.PCTGap = s.Mode, s.Seed, s.Hot, s.Cold, s.Share, s.Gap
	for _, d := range s.Dec {
		cfg.Decisions = append(cfg.Decisions, runtime.SimDecision{Step: d[0], Choice: uint32(d[1])})
	}
	emit(map[string]interface{}{"sec": k, "sched": s})
	var now int64
	var rec []runtime.SimDecision
	var st runtime.SimStats
	left, dead = simrt.Run(func() {
		runtime.SimStart(cfg)
		f()
		now = runtime.SimNow()
	})
	rec = runtime.SimRecorded()
	st = runtime.SimGetStats()
	out := Sched{Mode: 0}
	if st.Overflow {
		out = s
		out.Dec = nil
	} else {
		for _, d := range rec {
			out.Dec = append(out.Dec, [2]uint64{d.Step, uint64(d.Choice)})
		}
	}
	t.secs = append(t.secs, out)
	t.res.NDec += len(rec)
	t.res.Steps += st.Steps
	t.res.Switches += st.Switches
	t.res.Yields += st.Yields
	t.res.Gs += int(st.Goroutines)
	t.res.SimNS += now
	t.res.Hash = fmt.Sprintf("%016x", Hash(t.hash(), st.Hash))
	return left, dead
}

func (t *T) hash() uint64 {
	var h uint64
	fmt.Sscanf(t.res.Hash, "%x", &h)
	return h
}

// AddHash mixes an observation into the run's identity.
func (t *T) AddHash(x uint64) { t.res.Hash = fmt.Sprintf("%016x", Hash(t.hash(), x)) }

type request struct {
	Prop     string  `json:"prop"`
	Seed     uint64  `json:"seed"`
	Start    int     `json:"start"`
	Stride   int     `json:"stride"`
	Count    int     `json:"count"`
	BudgetMS int     `json:"budget_ms"`
	Cases    []*Case `json:"cases"` // run these, in order, instead of generated ones
	Scratch  string  `json:"scratch"`
	Gen      bool    `json:"gen"`  // only write the cases
	Full     bool    `json:"full"` // report the case of every run
	HeapMB   uint64  `json:"heap_mb"`
}

var Scratch string // an empty directory of this process' own

func genCase(p *Prop, seed uint64, i int) *Case {
	h := uint64(0)
	for _, b := range []byte(p.ID) {
		h = Mix(h ^ uint64(b))
	}
	rs := Hash(seed, h, uint64(i))
	r := NewR(rs)
	c := &Case{Prop: p.ID, Seed: rs, Rand: r.U64()}
	c.Sched = GenSched(r)
	plan, err := json.Marshal(p.Gen(r))
	if err != nil {
		panic(err)
	}
	c.Plan = plan
	return c
}

// GenSched picks an exploration strategy.
func GenSched(r *R) Sched {
	s := Sched{Seed: r.U64()}
	switch k := r.Intn(20); {
	case k < 2:
		s.Mode = 0
	case k < 11:
		s.Mode = 1
		s.Hot = uint32(1<<16) / uint32(r.Pick(2, 4, 16, 64))
		s.Cold = uint32(r.Pick(0, 0, 16, 128, 1024))
		s.Share = uint32(r.Pick(4, 16, 64, 128))
	default:
		s.Mode = 2
		s.Gap = uint32(r.Pick(20, 100, 500, 3000, 20000))
	}
	return s
}

var realOut *os.File
var keep []*os.File

func emit(v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	realOut.Write(append(b, '\n'))
}

// Main serves the request named by the environment and exits.
func Main(props ...Prop) {
	var req request
	b, err := os.ReadFile(os.Getenv("SIM_REQ"))
	if err == nil {
		err = json.Unmarshal(b, &req)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "simh: bad request:", err)
		os.Exit(3)
	}
	realOut, err = os.OpenFile(os.Getenv("SIM_OUT"), os.O_WRONLY|os.O_CREATE|os.O_APPEND, 0666)
	if err != nil {
		fmt.Fprintln(os.Stderr, "simh:", err)
		os.Exit(3)
	}
	if d, err := os.Create(os.Getenv("SIM_OUT") + ".dump"); err == nil {
		runtime.SimDumpTo(d.Fd())
	}
	var p *Prop
	for i := range props {
		if props[i].ID == req.Prop {
			p = &props[i]
		}
	}
	if p == nil {
		fmt.Fprintln(os.Stderr, "simh: no such property:", req.Prop)
		os.Exit(3)
	}
	Scratch = req.Scratch
	debug.SetGCPercent(-1)
	runtime.MemProfileRate = 0
	log.SetOutput(io.Discard)
	null, _ := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	keep = []*os.File{os.Stdout, os.Stderr} // or they would be closed
	os.Stdout = null
	if os.Getenv("SIM_STDERR") == "" {
		os.Stderr = null
	}
	warm()

	if len(req.Cases) > 0 {
		at, _ := resumeAt()
		for i, c := range req.Cases {
			if i < at {
				continue
			}
			emit(map[string]interface{}{"begin": i, "seed": c.Seed})
			res := runCase(p, c)
			res.Index = i
			emit(map[string]interface{}{"end": res})
			if p.Fresh && i+1 < len(req.Cases) {
				again(i+1, time.Now())
			}
		}
		emit(map[string]interface{}{"done": true})
		os.Exit(0)
	}
	if req.HeapMB == 0 {
		req.HeapMB = 1000
	}
	if req.Gen {
		for k, i := 0, req.Start; k < req.Count; k, i = k+1, i+req.Stride {
			emit(map[string]interface{}{"case": genCase(p, req.Seed, i)})
		}
		os.Exit(0)
	}
	at, t0 := resumeAt()
	for k, i := at, req.Start+at*req.Stride; k < req.Count; k, i = k+1, i+req.Stride {
		if req.BudgetMS > 0 && time.Since(t0) > time.Duration(req.BudgetMS)*time.Millisecond {
			break
		}
		c := genCase(p, req.Seed, i)
		emit(map[string]interface{}{"begin": i, "seed": c.Seed, "case": c})
		res := runCase(p, c)
		res.Index = i
		if !req.Full && len(res.Fails) == 0 && k > 2 {
			res.Case, res.Trace = nil, nil
		}
		emit(map[string]interface{}{"end": res})
		if p.Fresh && k+1 < req.Count {
			again(k+1, t0)
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > req.HeapMB<<20 {
			emit(map[string]interface{}{"recycle": i + req.Stride})
			os.Exit(0)
		}
	}
	emit(map[string]interface{}{"done": true})
	os.Exit(0)
}

// again continues with the k-th case in a new process image.
func again(k int, t0 time.Time) {
	os.Setenv("SIM_AT", fmt.Sprintf("%d,%d", k, t0.UnixNano()))
	os.Setenv("PATH", realPath)
	err := syscall.Exec("/proc/self/exe", os.Args[:1], os.Environ())
	fmt.Fprintln(keep[1], "simh: exec:", err)
	os.Exit(3)
}

var realPath = os.Getenv("PATH")

// resumeAt is where again's caller was.
func resumeAt() (k int, t0 time.Time) {
	var ns int64
	if n, _ := fmt.Sscanf(os.Getenv("SIM_AT"), "%d,%d", &k, &ns); n == 2 {
		return k, time.Unix(0, ns)
	}
	return 0, time.Now()
}

// warm makes sure that lazily initialised global state of the standard library
// is in place before the first run, so that every run starts from the same.
func warm() {
	var b bytes.Buffer
	fmt.Fprintf(&b, "%v", time.Now().Format(time.RFC1123))
	log.Println("warm")
}

func runCase(p *Prop, c *Case) *Result {
	runtime.GC()
	runtime.GC()
	plan := p.New()
	if err := json.Unmarshal(c.Plan, plan); err != nil {
		panic(err)
	}
	t := &T{c: c, p: p}
	t.res.Seed = c.Seed
	t.res.Hash = "0"
	races := RaceErrors()
	off := raceLogSize()
	p.Run(t, plan)
	os.Sim = nil
	if n := RaceErrors() - races; n > 0 {
		rep := raceLog(off)
		if strings.Contains(rep, "barnex/bruteray") {
			if p.Races {
				t.Fail("race", "data race: %s", summariseRace(rep))
			} else {
				t.Count("other:race")
			}
		}
	}
	res := &t.res
	for i := 0; i < t.nfail; i++ {
		res.Fails = append(res.Fails, t.fails[i])
	}
	res.Counts = map[string]int{}
	for i := 0; i < t.ncount; i++ {
		res.Counts[t.counts[i].k] = t.counts[i].n
	}
	res.Sites = runtime.SimNewSites()
	cc := *c
	cc.Secs = t.secs
	res.Case = &cc
	res.Trace = append([]string(nil), t.trace[:t.ntrace]...)
	if len(res.Trace) > 400 {
		res.Trace = append(append([]string(nil), res.Trace[:200]...), res.Trace[len(res.Trace)-200:]...)
	}
	return res
}

func raceLogName() string {
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if s := strings.TrimPrefix(f, "log_path="); s != f {
			return fmt.Sprintf("%s.%d", s, os.Getpid())
		}
	}
	return ""
}

func raceLogSize() int64 {
	fi, err := os.Stat(raceLogName())
	if err != nil {
		return 0
	}
	return fi.Size()
}

func raceLog(off int64) string {
	b, _ := os.ReadFile(raceLogName())
	if int64(len(b)) < off {
		return string(b)
	}
	return string(b[off:])
}

// summariseRace keeps the frames of the first report.
func summariseRace(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "====") || l == "" || strings.HasPrefix(l, "WARNING") {
			if len(out) > 0 && strings.HasPrefix(l, "====") {
				break
			}
			continue
		}
		if strings.HasPrefix(l, "/") {
			if i := strings.LastIndex(l, "/"); i >= 0 && len(out) > 0 {
				f := l[i+1:]
				if j := strings.IndexByte(f, ' '); j > 0 {
					f = f[:j]
				}
				out[len(out)-1] += " " + f
			}
			continue
		}
		if strings.Contains(l, " at 0x") {
			l = l[:strings.Index(l, " at 0x")]
		}
		out = append(out, l)
		if len(out) > 14 {
			break
		}
	}
	return strings.Join(out, "; ")
}
