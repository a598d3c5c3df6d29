//go:build go1.25

// Package watch simulates everything around cmd/bruteray-watch: the source
// file and the user who changes it, the compiler, the program, renice, and the
// kernel's process calls.
package watch

import (
	"fmt"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"simh"
	"strings"
	"syscall"
	"time"
)

var program func()

// Main is called by the test binary of package main.
func Main(main func()) {
	program = main
	fresh := func() interface{} { return new(plan) }
	simh.Main(
		simh.Prop{ID: "C19", Gen: gen, New: fresh, Run: runC19, Fresh: true, Cap: 3e6},
		simh.Prop{ID: "C20", Gen: gen, New: fresh, Run: runC20, Fresh: true, Cap: 3e6},
	)
	os.Exit(3)
}

// ---- plans ----

// A src is one version of the source file.
type src struct {
	Kind string `json:"kind"` // ok; err: does not compile; lib: compiles, but not to a program
}

// A step is one thing the user does to the source file.
type step struct {
	Us   int    `json:"us"`             // pause before it
	Sync string `json:"sync,omitempty"` // before that, wait for: stat build read built start exit kill wait renice
	How  string `json:"how"`            // rename: replaced at once; write: truncated, then written; gap: away for a while; touch: same content, new time
	Gap  int    `json:"gap,omitempty"`  // us
	Back bool   `json:"back,omitempty"` // the new version has an old modification time
	Size int    `json:"size,omitempty"`
	Src  src    `json:"src"`
}

type life struct {
	Us       int    `json:"us"` // 0: until killed
	Code     int    `json:"code,omitempty"`
	DieUs    int    `json:"die,omitempty"`     // from signal to death
	KillErr  string `json:"killErr,omitempty"` // the signal is refused; the program ends by itself
	ZombieOK bool   `json:"zombieOK,omitempty"`
	Deaf     bool   `json:"deaf,omitempty"` // only SIGKILL ends it
	StartErr string `json:"startErr,omitempty"`
}

type build struct {
	ReadUs   int    `json:"read"`
	WriteUs  int    `json:"write"`
	StartErr string `json:"startErr,omitempty"`
	Died     bool   `json:"died,omitempty"` // the compiler is killed before it has written
}

type aux struct {
	Us       int    `json:"us"`
	Code     int    `json:"code,omitempty"`
	StartErr string `json:"startErr,omitempty"`
}

type statErr struct {
	N   int    `json:"n"`
	Err string `json:"err"`
}

type plan struct {
	File   string    `json:"file"`
	PollMs int       `json:"poll"` // 0: the default
	Args   []string  `json:"args"`
	Stale  bool      `json:"stale"` // a program from an earlier session is there
	LatUs  int       `json:"lat"`
	First  src       `json:"first"`
	Steps  []step    `json:"steps"`
	Lives  []life    `json:"lives"`
	Builds []build   `json:"builds"`
	Renice []aux     `json:"renice"`
	Stats  []statErr `json:"stats"`
}

func genSrc(r *simh.R) src {
	switch k := r.Intn(10); {
	case k < 7:
		return src{"ok"}
	case k < 9:
		return src{"err"}
	}
	return src{"lib"}
}

func gen(r *simh.R) interface{} {
	p := &plan{
		File:   r.PickS("scene.go", "scene.go", "./scene.go", "dir/scene.go", "/abs/x.y/my-scene.go", "../up/scene.v2.go"),
		PollMs: r.Pick(0, 0, 0, 1, 5, 100, 700),
		Stale:  r.Bool(0.5),
		LatUs:  r.Pick(0, 10, 200, 3000, 20000),
		First:  genSrc(r),
	}
	for n := r.Pick(0, 0, 1, 2, 4); n > 0; n-- {
		p.Args = append(p.Args, r.PickS("-p", "3", "-http", "-o", "a b", "--", "-race", "x.jpg", ""))
	}
	slow := r.Pick(20, 300, 2000) * 1000
	us := func() int {
		switch r.Intn(5) {
		case 0:
			return 0
		case 1:
			return r.Intn(2000)
		case 2:
			return r.Intn(40000)
		case 3:
			return r.Intn(slow)
		}
		return r.Intn(slow * 2)
	}
	steps := r.Pick(0, 1, 2, 3, 5, 8, 12)
	failing := 0.0
	if r.Bool(0.06) { // a long session, with a long series of failures maybe
		steps = r.Range(15, 45)
		failing = float64(r.Pick(0, 0, 9, 10)) / 10
	}
	for n := steps; n > 0; n-- {
		s := step{Us: us(), How: r.PickS("rename", "rename", "write", "write", "gap", "touch"), Src: genSrc(r), Back: r.Bool(0.15)}
		s.Size = r.Pick(0, 100, 100, 100, 101, 5000)
		if failing > 0 && n > 2 && r.Bool(failing) {
			s.Src.Kind = "err"
		}
		if r.Bool(0.6) {
			s.Sync = r.PickS("stat", "build", "read", "built", "start", "exit", "kill", "wait", "renice")
			if r.Bool(0.6) {
				s.Us = r.Intn(1 + p.LatUs)
			}
		}
		s.Gap = us()
		p.Steps = append(p.Steps, s)
	}
	calm := r.Bool(0.3)
	fault := func(q float64, w ...string) string {
		if calm || !r.Bool(q) {
			return ""
		}
		return r.PickS(w...)
	}
	for i := 0; i < 14+steps; i++ {
		l := life{DieUs: r.Pick(0, 0, 100, 5000, 200000)}
		if p.PollMs != 1 && r.Bool(0.04) {
			l.DieUs = r.Pick(3, 12, 70) * 1000000
		}
		l.Deaf = r.Bool(0.1)
		if r.Bool(0.5) {
			l.Us = 1 + us()
			l.Code = r.Pick(0, 0, 1, 2)
		}
		l.KillErr = fault(0.15, "EPERM", "ESRCH")
		if l.KillErr != "" && l.Us == 0 {
			l.Us = 1 + us()
		}
		l.ZombieOK = r.Bool(0.5)
		l.StartErr = fault(0.15, "ENOENT", "EACCES", "EAGAIN", "ENOMEM", "ETXTBSY", "ENOEXEC")
		p.Lives = append(p.Lives, l)
		b := build{ReadUs: us(), WriteUs: us()}
		b.StartErr = fault(0.08, "EAGAIN", "ENOMEM")
		b.Died = fault(0.08, "x") != ""
		if p.PollMs != 1 && r.Bool(0.015) { // a machine that is busy
			b.WriteUs += r.Pick(20, 90, 400) * 1000000
		}
		p.Builds = append(p.Builds, b)
		a := aux{Us: us() / 4, StartErr: fault(0.1, "EAGAIN", "ENOMEM")}
		a.Code = r.Pick(0, 0, 0, 1)
		if p.PollMs != 1 && r.Bool(0.01) {
			a.Us += r.Pick(10, 90) * 1000000
		}
		p.Renice = append(p.Renice, a)
	}
	if !calm {
		for n := r.Pick(0, 0, 1, 3); n > 0; n-- {
			p.Stats = append(p.Stats, statErr{r.Range(1, 60), r.PickS("ENOENT", "EIO", "EACCES", "ESTALE", "EINTR")})
		}
	}
	return p
}

func errno(s string) error {
	switch s {
	case "":
		return nil
	case "ENOENT":
		return syscall.ENOENT
	case "EACCES":
		return syscall.EACCES
	case "EAGAIN":
		return syscall.EAGAIN
	case "ENOMEM":
		return syscall.ENOMEM
	case "ETXTBSY":
		return syscall.ETXTBSY
	case "ENOEXEC":
		return syscall.ENOEXEC
	case "EPERM":
		return syscall.EPERM
	case "ESRCH":
		return syscall.ESRCH
	case "ESTALE":
		return syscall.ESTALE
	case "EINTR":
		return syscall.EINTR
	}
	return syscall.EIO
}

// ---- the world ----

// A version is what the source file holds from one moment on.
type version struct {
	id    int
	kind  string
	mtime time.Time
	size  int
}

type proc struct {
	pid    int
	what   string // build, program, other
	argv   []string
	dir    string
	start  int // event number
	end    int // event number; 0: alive
	reaped bool
	status int
	over   chan struct{}
	sig    chan struct{} // closed by the first signal
	killed bool
	life   life
	// of a build: the version it read, -1 if none; whether it wrote the program
	read  int
	fault bool
	wrote bool
	// of a program: the version it was built from
	ver int
	err error // of starting
}

type world struct {
	t      *simh.T
	p      *plan
	dir    string
	base   string
	cur    *version // nil: there is no such file
	n      int      // versions so far
	bin    int      // version the program file was built from; -1: there is none
	procs  []*proc
	seq    int
	hash   uint64 // of what has happened when
	events map[string]int
	quiet  int // looks at the source file since something else has happened
	wake   chan struct{}
	nstat  int
	seen   bool // the watcher has seen the file
	lat    int
	count  map[string]int
	exited bool
	code   int
	done   bool // the user has done everything
	bound  time.Duration
	idle   bool
	last   int       // event number of the last change
	lastAt time.Time // time of the last change
}

func (w *world) event(kind string) int {
	w.seq++
	w.events[kind]++
	w.quiet++
	if kind != "stat" {
		w.quiet = 0
	}
	for i := range kind {
		w.hash = simh.Mix(w.hash ^ uint64(kind[i]))
	}
	w.hash = simh.Mix(w.hash ^ uint64(time.Now().UnixNano()))
	close(w.wake)
	w.wake = make(chan struct{})
	return w.seq
}

// await waits for the next event of a kind, for a second at most.
func (w *world) await(kind string) {
	n := w.events[kind]
	timeout := time.After(time.Second)
	for w.events[kind] == n {
		select {
		case <-w.wake:
		case <-timeout:
			return
		}
	}
}

func us(n int) {
	if n > 0 {
		time.Sleep(time.Duration(n) * time.Microsecond)
	}
}

// pause is the time a system call takes.
func (w *world) pause() {
	if w.p.LatUs > 0 {
		w.lat++
		us(int(simh.Hash(w.t.Rand(), 0x1a7, uint64(w.lat)) % uint64(w.p.LatUs)))
	}
}

func (w *world) put(kind string, id int, back bool, size int) {
	m := time.Now().Truncate(time.Millisecond).Add(time.Duration(w.n) * time.Microsecond)
	w.n++
	if back {
		m = m.Add(-time.Hour)
	}
	w.cur = &version{id, kind, m, size}
	w.last = w.event("change")
	w.lastAt = time.Now()
	w.t.Trace("user: version %d (%s), modified %s", id, kind, m.Format("15:04:05.000000"))
}

func (w *world) user() {
	id := 0
	for _, s := range w.p.Steps {
		if s.Sync != "" {
			w.await(s.Sync)
		}
		us(s.Us)
		for !w.seen { // a file that is not there to begin with is another matter
			time.Sleep(time.Millisecond)
		}
		w.t.Count("op:" + s.How)
		switch s.How {
		case "touch":
			if w.cur != nil {
				w.put(w.cur.kind, w.cur.id, s.Back, w.cur.size)
			}
			continue
		case "write":
			id++
			w.put("err", id, false, s.Size/2)
			w.t.Count("fault:half-written source")
			us(s.Gap)
		case "gap":
			w.cur = nil
			w.last = w.event("change")
			w.t.Trace("user: the source file is away")
			w.t.Count("fault:source away")
			us(s.Gap)
		}
		id++
		w.put(s.Src.Kind, id, s.Back, s.Size)
	}
	w.done = true
}

type info struct {
	name string
	v    *version
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return int64(i.v.size) }
func (i info) Mode() fs.FileMode  { return 0644 }
func (i info) ModTime() time.Time { return i.v.mtime }
func (i info) IsDir() bool        { return false }
func (i info) Sys() interface{}   { return nil }

func (w *world) stat(name string) (os.FileInfo, error, bool) {
	if filepath.Clean(name) != filepath.Clean(w.p.File) {
		return nil, nil, false
	}
	w.pause()
	n := w.nstat
	w.nstat++
	var err error
	if w.seen {
		for _, e := range w.p.Stats {
			if e.N == n {
				err = errno(e.Err)
				w.t.Count("fault:stat " + e.Err)
			}
		}
	}
	if err == nil && w.cur == nil {
		err = syscall.ENOENT
	}
	w.event("stat")
	if err != nil {
		w.t.Trace("stat: %v", err)
		return nil, &fs.PathError{Op: "stat", Path: name, Err: err}, true
	}
	w.seen = true
	i := info{path.Base(name), w.cur}
	defer w.pause()
	return i, nil, true
}

func (w *world) next(kind string) int {
	n := w.count[kind]
	w.count[kind]++
	return n
}

// rel makes a path relative to the directory of the watched file.
func (w *world) inDir(dir, name string) string {
	if !filepath.IsAbs(name) {
		name = filepath.Join(dir, name)
	}
	return filepath.Clean(name)
}

func (w *world) start(name string, argv []string, dir string) (int, error, bool) {
	w.pause()
	p := &proc{argv: argv, dir: dir, over: make(chan struct{}), sig: make(chan struct{}), read: -1, ver: -1, what: "other"}
	bin := filepath.Clean(filepath.Join(w.dir, w.base))
	if w.inDir(dir, name) == bin {
		p.what = "program"
	} else if filepath.Base(name) == "go" {
		p.what = "build"
	} else {
		for _, a := range argv[1:] { // nice, env and the like
			if strings.Contains(a, "/") && w.inDir(dir, a) == bin {
				p.what = "program"
			}
		}
	}
	k := w.next(p.what)
	var b build
	var a aux
	switch p.what {
	case "program":
		if k < len(w.p.Lives) {
			p.life = w.p.Lives[k]
		}
		p.err = errno(p.life.StartErr)
		if p.err != nil {
			w.t.Count("fault:start " + p.life.StartErr)
		} else if w.bin < 0 {
			p.err = syscall.ENOENT
		}
		p.ver = w.bin
	case "build":
		if k < len(w.p.Builds) {
			b = w.p.Builds[k]
		}
		p.err = errno(b.StartErr)
		p.fault = p.err != nil || b.Died
		if p.err != nil {
			w.t.Count("fault:compiler does not start")
		}
		if b.Died {
			w.t.Count("fault:compiler dies")
		}
	default:
		if k < len(w.p.Renice) {
			a = w.p.Renice[k]
		}
		p.err = errno(a.StartErr)
		if p.err != nil {
			w.t.Count("fault:renice does not start")
		} else if a.Code != 0 {
			w.t.Count("fault:renice fails")
		}
	}
	p.start = w.event(map[string]string{"program": "start", "build": "build", "other": "renice"}[p.what])
	w.t.Trace("start %s %q in %q: %v", p.what, argv, dir, p.err)
	w.t.Count("op:" + p.what)
	if p.what == "program" {
		w.alone(p)
	}
	w.procs = append(w.procs, p)
	p.pid = 1<<26 + len(w.procs) // larger than any real one
	if p.err != nil {
		p.end, p.reaped = p.start, true
		return 0, p.err, true
	}
	switch p.what {
	case "program":
		w.t.Count("probe:program runs")
		go w.live(p)
	case "build":
		go w.build(p, b)
	default:
		go func() {
			us(a.Us)
			w.finish(p, a.Code<<8)
		}()
	}
	defer w.pause()
	return p.pid, nil, true
}

// alone checks that no other copy of the program is there.
func (w *world) alone(p *proc) {
	for _, q := range w.procs {
		if q.what != "program" || q.err != nil {
			continue
		}
		if q.end == 0 {
			w.t.Fail("two", "a copy of the program (version %d) is started while another (version %d, pid %d) is running", p.ver, q.ver, q.pid)
		} else if !q.reaped {
			w.t.Fail("unreaped", "a copy of the program is started although the previous one (pid %d) has not been waited for", q.pid)
		}
	}
}

func (w *world) finish(p *proc, status int) {
	if p.end != 0 {
		return
	}
	p.status = status
	p.end = w.event(map[string]string{"program": "exit", "build": "built", "other": "reniced"}[p.what])
	w.t.Trace("%s %d ends with status %x", p.what, p.pid, status)
	close(p.over)
}

func (w *world) live(p *proc) {
	var own <-chan time.Time
	if p.life.Us > 0 {
		own = time.After(time.Duration(p.life.Us) * time.Microsecond)
	}
	select {
	case <-own:
		w.t.Count("fault:program ends by itself")
		w.finish(p, p.life.Code<<8)
	case <-p.sig:
		us(p.life.DieUs)
		w.finish(p, 9)
	}
}

func (w *world) build(p *proc, b build) {
	wait := func(n int) bool {
		if n == 0 {
			return true
		}
		select {
		case <-time.After(time.Duration(n) * time.Microsecond):
			return true
		case <-p.sig:
			w.finish(p, 9)
			return false
		}
	}
	if !wait(b.ReadUs) {
		return
	}
	// which file, and where to?
	out := w.base
	in := ""
	ok := len(p.argv) > 1 && p.argv[1] == "build"
	for i := 2; i < len(p.argv); i++ {
		switch a := p.argv[i]; {
		case a == "-o" && i+1 < len(p.argv):
			out = p.argv[i+1]
			i++
		case strings.HasPrefix(a, "-o="):
			out = a[3:]
		case !strings.HasPrefix(a, "-"):
			in = a
		}
	}
	if !ok || w.inDir(p.dir, in) != filepath.Join(w.dir, path.Base(w.p.File)) {
		w.t.Trace("go: nothing to build: %q", p.argv)
		w.finish(p, 2<<8)
		return
	}
	var v version
	have := w.cur != nil
	if have {
		v = *w.cur
		p.read = v.id
	}
	w.event("read")
	w.t.Trace("go: reads version %d", p.read)
	if !wait(b.WriteUs) {
		return
	}
	switch {
	case b.Died:
		w.finish(p, 9)
	case !have || v.kind == "err":
		w.t.Count("fault:does not compile")
		w.finish(p, 1<<8)
	case v.kind == "lib":
		w.t.Count("fault:not a program")
		w.finish(p, 0)
	default:
		if w.inDir(p.dir, out) == filepath.Join(w.dir, w.base) {
			w.bin = v.id
			p.wrote = true
		}
		w.finish(p, 0)
	}
}

func (w *world) find(pid int) *proc {
	for _, p := range w.procs {
		if p.pid == pid {
			return p
		}
	}
	return nil
}

func (w *world) signal(pid int, sig os.Signal) error {
	w.pause()
	p := w.find(pid)
	if p == nil || p.reaped {
		return os.ErrProcessDone
	}
	defer w.event("kill")
	w.t.Trace("signal %v to %s %d", sig, p.what, pid)
	if p.end != 0 {
		w.t.Count("fault:signal to a program that has ended")
		if p.life.ZombieOK {
			return nil
		}
		return os.ErrProcessDone
	}
	if sig == syscall.Signal(0) {
		return nil
	}
	if p.what == "program" && p.life.Deaf && sig != os.Kill {
		w.t.Count("fault:signal ignored")
		return nil
	}
	if e := p.life.KillErr; e != "" {
		w.t.Count("fault:signal " + e)
		return os.NewSyscallError("kill", errno(e))
	}
	if !p.killed {
		p.killed = true
		close(p.sig)
	}
	return nil
}

func (w *world) wait(pid int) (int, error) {
	p := w.find(pid)
	if p == nil || p.reaped {
		return 0, syscall.ECHILD
	}
	w.event("wait")
	<-p.over
	w.pause()
	if p.reaped {
		return 0, syscall.ECHILD
	}
	p.reaped = true
	return p.status, nil
}

func run(t *simh.T, p *plan) *world {
	w := &world{t: t, p: p, bin: -1, events: map[string]int{}, count: map[string]int{}, wake: make(chan struct{})}
	w.dir = filepath.Clean(filepath.Dir(p.File))
	w.base = strings.TrimSuffix(filepath.Base(p.File), filepath.Ext(p.File))
	if p.Stale {
		w.bin = 1 << 20
	}
	// executables for exec.LookPath to find; none of them is ever run
	bin := filepath.Join(simh.Scratch, "bin")
	os.MkdirAll(bin, 0777)
	for _, n := range []string{"go", "renice", "nice", "env", "sh", "bash", "kill", "pkill", "ionice", "gofmt"} {
		os.WriteFile(filepath.Join(bin, n), nil, 0777)
	}
	os.Setenv("PATH", bin)
	os.Args = []string{"bruteray-watch"}
	poll := 30
	if p.PollMs > 0 {
		poll = p.PollMs
		os.Args = append(os.Args, "-i", fmt.Sprintf("%dms", poll))
	}
	os.Args = append(append(os.Args, p.File), p.Args...)

	// the longest a round can take
	most := 0
	for _, b := range p.Builds {
		most = max(most, b.ReadUs+b.WriteUs)
	}
	live := 0
	for _, l := range p.Lives {
		live = max(live, l.DieUs)
		if l.KillErr != "" {
			live = max(live, l.Us)
		}
	}
	ren := 0
	for _, a := range p.Renice {
		ren = max(ren, a.Us)
	}
	w.bound = time.Duration(3*(most+live+ren+20*p.LatUs))*time.Microsecond + time.Duration(10*poll+3000)*time.Millisecond

	os.Sim = &os.SimOS{
		Exit: func(code int) {
			w.exited, w.code = true, code
			w.event("watcher exit")
			w.t.Trace("the watcher exits with status %d", code)
			select {}
		},
		Stat:   w.stat,
		Start:  w.start,
		Signal: w.signal,
		Wait:   w.wait,
		Pipe:   true,
	}
	syscall.SimKill = func(pid int, sig syscall.Signal) error {
		if pid < 0 {
			pid = -pid // a process group
		}
		err := w.signal(pid, sig)
		if err == os.ErrProcessDone {
			err = syscall.ESRCH
		}
		return err
	}
	t.Sim(4, true, func() {
		w.put(p.First.Kind, 0, false, 100)
		go w.user()
		returned := false
		go func() {
			program()
			returned = true
		}()
		for !w.done && !w.exited && !t.Failed() && !returned {
			time.Sleep(5 * time.Millisecond)
		}
		for end := time.Now().Add(w.bound); !w.exited && !t.Failed() && !returned && time.Now().Before(end); {
			time.Sleep(5 * time.Millisecond)
			if w.settled() { // no need to wait for long
				if e := time.Now().Add(2 * time.Second); e.Before(end) {
					end = e
				}
			}
		}
		// nothing happens to an unchanged file
		n := w.count["build"] + w.count["program"]
		for end := time.Now().Add(time.Duration(20*poll) * time.Millisecond); !w.exited && !t.Failed() && !returned && time.Now().Before(end); {
			time.Sleep(5 * time.Millisecond)
		}
		w.idle = w.count["build"]+w.count["program"] == n
		if returned {
			w.exited = true
		}
	})
	t.AddHash(w.hash)
	return w
}

// settled tells whether the newest version is being run, or cannot be.
func (w *world) settled() bool {
	var b, s *proc
	for _, q := range w.procs {
		switch {
		case q.what == "build":
			b, s = q, nil
		case q.what == "program":
			s = q
		}
	}
	if b == nil || b.end == 0 || w.quiet < 10 || w.cur == nil || b.start < w.last || b.read != w.cur.id {
		return false
	}
	return s != nil || w.cur.kind != "ok"
}

func runC19(t *simh.T, pl interface{}) { run(t, pl.(*plan)) }

func runC20(t *simh.T, pl interface{}) {
	p := pl.(*plan)
	w := run(t, p)
	if t.Failed() {
		return
	}
	if w.exited {
		t.Fail("exit", "the watcher ended with status %d", w.code)
		return
	}
	if w.cur == nil { // in a minimised plan
		return
	}
	if !w.idle {
		t.Fail("again", "the source file is compiled or the program is started although nothing has changed for %v", w.bound)
		return
	}
	f := *w.cur
	// the last build that read the final version, or would have
	var b *proc
	for _, q := range w.procs {
		if q.what != "build" {
			continue
		}
		if q.read == f.id || q.fault && q.start > w.last {
			b = q
		}
	}
	if b == nil {
		t.Fail("lost", "version %d was not compiled within %v", f.id, w.bound)
		return
	}
	t.Count("probe:final version compiled")
	if b.fault || f.kind != "ok" {
		return
	}
	if b.end == 0 {
		t.Fail("lost", "version %d is still being compiled", f.id)
		return
	}
	var s *proc
	for _, q := range w.procs {
		if q.what == "program" && q.start > b.end {
			s = q
		}
	}
	switch {
	case s == nil:
		t.Fail("idle", "version %d was compiled, but not started", f.id)
	case s.ver != f.id:
		t.Fail("old", "version %d was compiled, but version %d was started", f.id, s.ver)
	case s.killed:
		t.Fail("killed", "version %d was started, but was killed again", f.id)
	default:
		t.Count("probe:final version started")
		w.args(s)
	}
}

// args checks the command line of the program.
func (w *world) args(s *proc) {
	if filepath.Clean(s.dir) != w.dir {
		w.t.Fail("args", "the program was started in %q, not in %q", s.dir, w.dir)
	}
	k := len(s.argv) - len(w.p.Args)
	if k < 1 {
		w.t.Fail("args", "the program was started as %q, without the arguments %q", s.argv, w.p.Args)
		return
	}
	for i, a := range w.p.Args {
		if s.argv[k+i] != a {
			w.t.Fail("args", "the program was started as %q, without the arguments %q", s.argv, w.p.Args)
			return
		}
	}
}
