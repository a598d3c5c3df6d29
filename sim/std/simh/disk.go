package simh

import (
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
)

// A DiskFault happens to the N-th operation of its kind under the disk's
// directory.
//
//	create write close open read rename mkdir truncate sync remove
//	         that operation fails with Err; a write lets At/1000 of its bytes
//	         through first
//	tear     the N-th write is done in two parts, split at At/1000
//	chunk    from the N-th read on, reads deliver at most At bytes
//	full     the disk has room for At more bytes, from the N-th write on
type DiskFault struct {
	Kind string `json:"kind"`
	N    int    `json:"n"`
	At   int    `json:"at,omitempty"`
	Err  string `json:"err,omitempty"`
}

// Disk stands between the code under test and a real directory.
type Disk struct {
	t      *T
	dir    string
	faults []DiskFault
	n      map[string]int
	chunk  int
	room   int // -1: no limit
	dead   bool

	ReadFailAt int // from this byte of a file on, reading it fails; -1: never
	nread      map[string]int

	Hit     int      // failures injected into making output: create, write, close, rename, truncate, sync
	ReadNG  int      // failures injected into open and read
	ReadBad int      // ... of those, failures of ReadFailAt, which trying again does not help
	Hits    []string // what was injected
	Open    map[string]int
	Ops     int
	After   func(op, path string, err error) // called after every effect
	OnExit  func(code int)
}

func errno(s string) error {
	switch s {
	case "ENOSPC":
		return syscall.ENOSPC
	case "EACCES":
		return syscall.EACCES
	case "EMFILE":
		return syscall.EMFILE
	case "EDQUOT":
		return syscall.EDQUOT
	case "ENOENT":
		return syscall.ENOENT
	case "EROFS":
		return syscall.EROFS
	}
	return syscall.EIO
}

// GenDiskFaults makes up to max faults for a program doing around n output
// operations of each kind.
func GenDiskFaults(r *R, n, max int) (l []DiskFault) {
	for i, k := 0, r.Intn(max+1); i < k; i++ {
		f := DiskFault{Kind: r.PickS("create", "write", "write", "write", "close", "close", "full", "tear", "rename", "mkdir", "sync", "truncate"), N: r.Intn(n), At: r.Intn(1001)}
		switch f.Kind {
		case "full":
			f.At = r.Pick(0, 1, 100, 600, 3000, r.Intn(4000), r.Intn(20000))
			f.Err = "ENOSPC"
		case "create", "mkdir":
			f.Err = r.PickS("EIO", "ENOSPC", "EACCES", "EMFILE", "EROFS")
		case "close":
			f.Err = r.PickS("EIO", "ENOSPC", "EDQUOT")
		default:
			f.Err = r.PickS("EIO", "ENOSPC", "EDQUOT")
		}
		if f.Kind == "write" && r.Bool(0.3) {
			f.At = r.Pick(0, 1000)
		}
		l = append(l, f)
	}
	return l
}

// InstallDisk takes over the operations on files under dir.
func InstallDisk(t *T, dir string, faults []DiskFault) *Disk {
	d := &Disk{t: t, dir: filepath.Clean(dir) + "/", faults: faults, n: map[string]int{}, room: -1, ReadFailAt: -1, nread: map[string]int{}, Open: map[string]int{}}
	os.Sim = &os.SimOS{Match: d.match, Op: d.op, Done: d.done, Exit: d.exit}
	return d
}

func (d *Disk) match(path string) bool {
	if !strings.HasPrefix(path, "/") {
		wd, err := syscall.Getwd()
		if err != nil {
			return false
		}
		path = wd + "/" + path
	}
	return strings.HasPrefix(filepath.Clean(path), d.dir)
}

// Kill lets no further operation have an effect: the process is gone.
func (d *Disk) Kill() { d.dead = true }

func (d *Disk) exit(code int) {
	d.t.Trace("exit %d", code)
	if !d.dead {
		d.dead = true
		if d.OnExit != nil {
			d.OnExit(code)
		}
	}
	select {}
}

func (d *Disk) hit(op, path string, f DiskFault, err error) {
	d.t.Count("fault:disk-" + f.Kind)
	d.Hits = append(d.Hits, op+" of "+filepath.Base(path)+": "+err.Error())
	switch op {
	case "open", "read":
		d.ReadNG++
	case "mkdir", "remove":
	default:
		d.Hit++
	}
	d.t.Trace("disk fault: %s %s: %v", op, filepath.Base(path), err)
}

func (d *Disk) op(op, path string, n int) (limit int, err error) {
	if d.dead {
		select {}
	}
	d.Ops++
	k := d.n[op]
	d.n[op]++
	limit = n
	for _, f := range d.faults {
		switch {
		case f.Kind == "tear" && op == "write" && f.N == k:
			if l := n * f.At / 1000; l > 0 && l < n {
				d.t.Count("fault:disk-tear")
				limit = l
			}
		case f.Kind == "chunk" && op == "read" && k >= f.N:
			if f.At > 0 && f.At < limit {
				d.t.Count("fault:disk-chunk")
				limit = f.At
			}
		case f.Kind == "full" && op == "write" && f.N == k:
			d.room = f.At
		case f.Kind == op && f.N == k:
			err := errno(f.Err)
			d.hit(op, path, f, err)
			if op == "write" {
				return n * f.At / 1000, err
			}
			return 0, err
		}
	}
	if op == "read" && d.ReadFailAt >= 0 {
		k := d.ReadFailAt - d.nread[path]
		if k <= 0 {
			d.hit(op, path, DiskFault{Kind: "read"}, syscall.EIO)
			d.ReadBad++
			return 0, syscall.EIO
		}
		if k < limit {
			limit = k
		}
	}
	if op == "write" && d.room >= 0 {
		if n > d.room {
			limit, d.room = d.room, 0
			d.hit(op, path, DiskFault{Kind: "full"}, syscall.ENOSPC)
			return limit, syscall.ENOSPC
		}
		d.room -= n
	}
	return limit, nil
}

func (d *Disk) done(op, path string, n int, err error) {
	if op == "read" {
		d.nread[path] += n
	}
	if err == nil {
		switch op {
		case "open", "create":
			d.Open[path]++
		}
	}
	if op == "close" || op == "close-read" {
		d.Open[path]--
	}
	switch op {
	case "read", "open", "close-read":
	default:
		d.t.Trace("disk: %s %s %d %v", op, filepath.Base(path), n, err)
	}
	if d.After != nil {
		d.After(op, path, err)
	}
}

// Leaked lists files that are open.
func (d *Disk) Leaked() (l []string) {
	for p, n := range d.Open {
		if n > 0 {
			l = append(l, filepath.Base(p))
		}
	}
	sort.Strings(l)
	return l
}

// Slurp reads a file without the disk noticing; nil if there is none.
func Slurp(path string) []byte {
	fd, err := syscall.Open(path, syscall.O_RDONLY, 0)
	if err != nil {
		return nil
	}
	defer syscall.Close(fd)
	b := make([]byte, 0, 8192)
	for {
		if len(b) == cap(b) {
			b = append(b, 0)[:len(b)]
		}
		n, err := syscall.Read(fd, b[len(b):cap(b)])
		if n <= 0 || err != nil {
			return b
		}
		b = b[:len(b)+n]
	}
}
