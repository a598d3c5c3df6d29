// Simulated disk and processes; added by the build overlay.

package os

import "syscall"

// A SimOS intercepts operations of this package. Nil: no interception.
type SimOS struct {
	// Match says whether operations on a path are the simulator's business.
	Match func(path string) bool
	// Op is called before an operation. For "read" and "write", n is the
	// length asked for and limit the number of bytes to let through. A
	// non-nil err is returned to the caller after that. A write that is
	// limited without an error is done in two parts, with a Done in between.
	Op func(op, path string, n int) (limit int, err error)
	// Done is called after an operation has had its effect.
	Done func(op, path string, n int, err error)
	// Exit is called by Exit and does not return.
	Exit func(code int)
	// Stat may answer for a path.
	Stat func(path string) (fi FileInfo, err error, ok bool)
	// Start, Signal and Wait simulate child processes.
	Start  func(name string, argv []string, dir string) (pid int, err error, ok bool)
	Signal func(pid int, sig Signal) error
	Wait   func(pid int) (status int, err error)
	// Pipe makes pipes to simulated processes ones on which nothing arrives.
	Pipe bool
}

var Sim *SimOS

func simMatch(path string) *SimOS {
	if s := Sim; s != nil && s.Op != nil && s.Match != nil && s.Match(path) {
		return s
	}
	return nil
}

func (f *File) simHooks() *SimOS {
	if f == nil || f.file == nil {
		return nil
	}
	return simMatch(f.name)
}

// simOp brackets an operation without a length.
func simOp(op, path string, do func() error) (error, bool) {
	s := simMatch(path)
	if s == nil {
		return nil, false
	}
	_, err := s.Op(op, path, 0)
	if err != nil {
		err = &PathError{Op: op, Path: path, Err: err}
	} else {
		err = do()
	}
	s.Done(op, path, 0, err)
	return err, true
}

// simWrite does a write, in one or two parts.
func (f *File) simWrite(s *SimOS, b []byte, raw func([]byte) (int, error)) (int, error) {
	limit, ierr := s.Op("write", f.name, len(b))
	if limit < 0 || limit > len(b) {
		limit = len(b)
	}
	n := 0
	var err error
	if ierr == nil || limit > 0 {
		n, err = raw(b[:limit])
		if err != nil {
			s.Done("write", f.name, n, err)
			return n, err
		}
	}
	if ierr != nil {
		err = &PathError{Op: "write", Path: f.name, Err: ierr}
		s.Done("write", f.name, n, err)
		return n, err
	}
	if limit < len(b) {
		s.Done("write-part", f.name, n, nil)
		m, err := raw(b[limit:])
		n += m
		s.Done("write", f.name, n, err)
		return n, err
	}
	s.Done("write", f.name, n, nil)
	return n, nil
}

// SimProcess makes a process handle for a simulated process.
func simProcess(pid int) *Process {
	p := &Process{Pid: pid, sim: true}
	return p
}

func (p *Process) simWait() (*ProcessState, error) {
	if processStatus(p.state.Load()) == statusDone {
		return nil, NewSyscallError("wait", syscall.ECHILD)
	}
	status, err := Sim.Wait(p.Pid)
	if err != nil {
		return nil, NewSyscallError("wait", err)
	}
	p.doRelease(statusDone)
	return &ProcessState{pid: p.Pid, status: syscall.WaitStatus(status), rusage: new(syscall.Rusage)}, nil
}

func (p *Process) simSignal(sig Signal) error {
	if processStatus(p.state.Load()) == statusDone {
		return ErrProcessDone
	}
	return Sim.Signal(p.Pid, sig)
}
