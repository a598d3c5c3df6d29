#!/usr/bin/env python3
"""Generates the build overlay: patched copies of a few standard-library files
plus the added files under sim/std.  Every patch asserts that it applies."""
import json, os, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
GOROOT = subprocess.check_output(["go", "env", "GOROOT"], text=True).strip()
SRC = os.path.join(GOROOT, "src")

class Patcher:
    def __init__(self, out):
        self.out, self.replace, self.cur = out, {}, {}
    def load(self, rel):
        if rel not in self.cur:
            self.cur[rel] = open(os.path.join(SRC, rel)).read()
        return self.cur[rel]
    def sub(self, rel, old, new, count=1):
        s = self.load(rel)
        if s.count(old) != count:
            sys.exit(f"overlay: {rel}: pattern occurs {s.count(old)} times, want {count}:\n{old}")
        self.cur[rel] = s.replace(old, new)
    def after(self, rel, anchor, new):
        self.sub(rel, anchor, anchor + new)
    def write(self):
        for rel, s in self.cur.items():
            p = os.path.join(self.out, "std", rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(s)
            self.replace[os.path.join(SRC, rel)] = p
        base = os.path.join(HERE, "std")
        for d, _, fs in os.walk(base):
            for f in fs:
                p = os.path.join(d, f)
                self.replace[os.path.join(SRC, os.path.relpath(p, base))] = p

def runtime_patches(p):
    R = "runtime/"
    # scheduler: every choice among bubbled goroutines is the simulator's
    p.sub(R+"proc.go", "const randomizeScheduler = raceenabled", "const randomizeScheduler = false")
    p.after(R+"proc.go", "func runqput(pp *p, gp *g, next bool) {\n", "\tif sim.on {\n\t\tnext = false\n\t}\n")
    p.after(R+"proc.go", "func runqget(pp *p) (gp *g, inheritTime bool) {\n",
            "\tif sim.on && pp.runnext == 0 {\n\t\treturn simRunqget(pp), false\n\t}\n")
    p.sub(R+"proc.go", "\t} else {\n\t\tlock(&sched.lock)\n\t\tglobrunqput(gp)\n\t\tunlock(&sched.lock)\n\t}\n\n\tif mainStarted {\n\t\twakep()\n\t}\n\n\tschedule()\n}\n\n// Gosched continuation",
          "\t} else if sim.on && gp.bubble != nil {\n\t\trunqput(pp, gp, false)\n\t} else {\n\t\tlock(&sched.lock)\n\t\tglobrunqput(gp)\n\t\tunlock(&sched.lock)\n\t}\n\n\tif mainStarted {\n\t\twakep()\n\t}\n\n\tschedule()\n}\n\n// Gosched continuation")
    p.after(R+"proc.go", "\t\tnewg.bubble = callergp.bubble\n",
            "\t\tif sim.on && newg.bubble != nil {\n\t\t\tsimNewG(newg)\n\t\t}\n")
    # room for many goroutines: what does not fit would go to the global queue, out of the simulator's sight
    p.sub(R+"runtime2.go", "\trunq     [256]guintptr\n", "\trunq     [2048]guintptr\n")
    p.sub(R+"proc.go", "batch *[256]guintptr", "batch *[2048]guintptr")
    # no time-based preemption, no handing off of the P during a system call
    p.after(R+"proc.go", "func retake(now int64) uint32 {\n", "\tif sim.on {\n\t\treturn 0\n\t}\n")
    p.after(R+"runtime2.go", "\tcoroarg *coro // argument during coroutine transfers\n\tbubble  *synctestBubble\n",
            "\tsimID   uint32\n\tsimPrio uint32\n")
    # every blocked goroutine counts as idle, so that simulated time moves on
    # and a deadlock is noticed, whatever it is blocked on
    p.after(R+"runtime2.go", "\twaitReasonSynctestSelect:        true,\n",
            "\twaitReasonChanReceive: true,\n\twaitReasonChanSend: true,\n\twaitReasonSelect: true,\n"
            "\twaitReasonSyncMutexLock: true,\n\twaitReasonSyncRWMutexRLock: true,\n\twaitReasonSyncRWMutexLock: true,\n"
            "\twaitReasonSyncWaitGroupWait: true,\n\twaitReasonSemacquire: true,\n")
    # leftovers are reported, not a panic
    p.sub(R+"synctest.go", "\tif total != 1 {\n\t\tvar reason string\n", "\tsim.on = false\n\tsimLeft, simDeadlock = total-1, !bubble.done\n\tif false {\n\t\tvar reason string\n")
    p.cur[R+"synctest.go"] += "\nvar simLeft int\nvar simDeadlock bool\n\nfunc SimLeft() (int, bool) { return simLeft, simDeadlock }\n"
    # randomness
    p.after(R+"rand.go", "\tseed := &globalRand.seed\n",
            "\tfor i := range seed {\n\t\tseed[i] = byte(i + 1)\n\t}\n\tstartupRand = nil\n\tglobalRand.state.Init(*seed)\n\tglobalRand.init = true\n\tunlock(&globalRand.lock)\n\tif globalRand.init {\n\t\treturn\n\t}\n")
    p.sub(R+"rand.go", "func rand() uint64 {\n", "func rand() uint64 {\n\tif sim.on {\n\t\treturn simNext(&sim.rrng)\n\t}\n")
    p.sub(R+"select.go", "\t\tj := cheaprandn(uint32(norder + 1))\n", "\t\tj := cheaprandn(uint32(norder + 1))\n\t\tif sim.on {\n\t\t\tj = uint32(simNext(&sim.srng)>>33) % uint32(norder+1)\n\t\t}\n")
    # timers due at the same instant: an order that depends on the seed and on
    # the timers only, not on what else is or was in the heap
    p.sub(R+"time.go", "\t\treturn tw.timer.rand < other.timer.rand\n", "\t\tif tw.timer.isFake && other.timer.isFake {\n\t\t\treturn simTimerKey(tw.timer.simID, tw.when) < simTimerKey(other.timer.simID, tw.when)\n\t\t}\n\t\treturn tw.timer.rand < other.timer.rand\n")
    p.after(R+"time.go", "\t\tt.init(goroutineReady, gp)\n", "\t\tt.simID = 1<<31 | gp.simID\n")
    p.after(R+"time.go", "\tt.timer.init(nil, nil)\n", "\tsim.nextT++\n\tt.simID = sim.nextT\n")
    p.after(R+"time.go", "\tastate atomic.Uint8 // atomic copy of state bits at last unlock\n", "\tsimID  uint32\n")
    # the mutex starvation clock must not be the real one
    p.sub(R+"sema.go", "func internal_sync_nanotime() int64 {\n", "func internal_sync_nanotime() int64 {\n\tif b := getg().bubble; sim.on && b != nil {\n\t\treturn b.now\n\t}\n")
    # a dying process leaves its schedule behind
    p.after(R+"panic.go", "func dopanic_m(gp *g, pc, sp uintptr, bubble *synctestBubble) bool {\n", "\tsimDump()\n")
    # machine size
    p.sub(R+"debug.go", "\treturn int(numCPUStartup)\n", "\tif sim.on && sim.cfg.NumCPU > 0 {\n\t\treturn sim.cfg.NumCPU\n\t}\n\treturn int(numCPUStartup)\n")
    p.sub(R+"debug.go", "\tret := int(gomaxprocs)\n\tif n <= 0 {\n", "\tret := int(gomaxprocs)\n\tif sim.on && sim.cfg.NumCPU > 0 {\n\t\tunlock(&sched.lock)\n\t\treturn sim.cfg.NumCPU\n\t}\n\tif n <= 0 {\n")

def os_patches(p):
    O = "os/"
    p.after(O+"proc.go", "func Exit(code int) {\n", "\tif Sim != nil && Sim.Exit != nil {\n\t\tSim.Exit(code)\n\t}\n")
    p.sub(O+"file.go", "\tn, e := f.read(b)\n\treturn n, f.wrapErr(\"read\", e)\n", """\tif s := f.simHooks(); s != nil {
		limit, err := s.Op("read", f.name, len(b))
		if err != nil {
			s.Done("read", f.name, 0, err)
			return 0, &PathError{Op: "read", Path: f.name, Err: err}
		}
		if limit > 0 && limit < len(b) {
			b = b[:limit]
		}
		n, e := f.read(b)
		s.Done("read", f.name, n, e)
		return n, f.wrapErr("read", e)
	}
	n, e := f.read(b)
	return n, f.wrapErr("read", e)
""")
    p.sub(O+"file.go", "\tn, e := f.write(b)\n", "\tvar e error\n\tif s := f.simHooks(); s != nil {\n\t\tif n, err := f.simWrite(s, b, f.write); err != nil || n != len(b) {\n\t\t\tif err == nil {\n\t\t\t\terr = io.ErrShortWrite\n\t\t\t}\n\t\t\treturn n, err\n\t\t}\n\t\treturn len(b), nil\n\t}\n\tn, e = f.write(b)\n")
    p.sub(O+"file.go", "func (f *File) WriteAt(b []byte, off int64) (n int, err error) {\n", "func (f *File) WriteAt(b []byte, off int64) (n int, err error) {\n\tif s := f.simHooks(); s != nil && f.checkValid(\"write\") == nil {\n\t\treturn f.simWrite(s, b, func(b []byte) (int, error) {\n\t\t\tn, err := f.pwrite(b, off)\n\t\t\toff += int64(n)\n\t\t\treturn n, err\n\t\t})\n\t}\n")
    p.sub(O+"file.go", "\tn, handled, e := f.readFrom(r)\n", "\tif f.simHooks() != nil {\n\t\treturn genericReadFrom(f, r)\n\t}\n\tn, handled, e := f.readFrom(r)\n")
    p.sub(O+"file.go", "\tn, handled, e := f.writeTo(w)\n", "\tif f.simHooks() != nil {\n\t\treturn genericWriteTo(f, w)\n\t}\n\tn, handled, e := f.writeTo(w)\n")
    p.sub(O+"file.go", "\tf, err := openFileNolog(name, flag, perm)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\tf.appendMode", """\tvar f *File
	var err error
	op := "open"
	if flag&(O_WRONLY|O_RDWR|O_CREATE|O_TRUNC) != 0 {
		op = "create"
	}
	if serr, done := simOp(op, name, func() error {
		f, err = openFileNolog(name, flag, perm)
		return err
	}); done {
		err = serr
	} else {
		f, err = openFileNolog(name, flag, perm)
	}
	if err != nil {
		return nil, err
	}
	f.file.simW = op == "create"
	f.appendMode""")
    p.after(O+"file_unix.go", "type file struct {\n", "\tsimW, simClosed bool\n")
    p.sub(O+"file.go", "func Mkdir(name string, perm FileMode) error {\n", "func Mkdir(name string, perm FileMode) error {\n\tif err, done := simOp(\"mkdir\", name, func() error { return simRawMkdir(name, perm) }); done {\n\t\treturn err\n\t}\n\treturn simRawMkdir(name, perm)\n}\n\nfunc simRawMkdir(name string, perm FileMode) error {\n")
    p.sub(O+"file.go", "\treturn rename(oldpath, newpath)\n", "\tif err, done := simOp(\"rename\", newpath, func() error { return rename(oldpath, newpath) }); done {\n\t\treturn err\n\t}\n\treturn rename(oldpath, newpath)\n")
    p.sub(O+"file_unix.go", "func Remove(name string) error {\n", "func Remove(name string) error {\n\tif err, done := simOp(\"remove\", name, func() error { return simRawRemove(name) }); done {\n\t\treturn err\n\t}\n\treturn simRawRemove(name)\n}\n\nfunc simRawRemove(name string) error {\n")
    p.sub(O+"file_posix.go", "\treturn f.file.close()\n", """\tif s := f.simHooks(); s != nil {
		name, op := f.name, "close-read"
		if f.file.simW {
			op = "close"
		}
		if f.file.simClosed {
			return f.file.close()
		}
		f.file.simClosed = true
		_, ierr := s.Op(op, name, 0)
		err := f.file.close()
		if err == nil && ierr != nil {
			err = &PathError{Op: "close", Path: name, Err: ierr}
		}
		s.Done(op, name, 0, err)
		return err
	}
	return f.file.close()
""")
    p.sub(O+"file_posix.go", "func (f *File) Truncate(size int64) error {\n", "func (f *File) Truncate(size int64) error {\n\tif f.simHooks() != nil {\n\t\terr, _ := simOp(\"truncate\", f.name, func() error { return f.simRawTruncate(size) })\n\t\treturn err\n\t}\n\treturn f.simRawTruncate(size)\n}\n\nfunc (f *File) simRawTruncate(size int64) error {\n")
    p.sub(O+"file_posix.go", "func (f *File) Sync() error {\n", "func (f *File) Sync() error {\n\tif f.simHooks() != nil {\n\t\terr, _ := simOp(\"sync\", f.name, func() error { return nil })\n\t\treturn err\n\t}\n")
    p.after(O+"stat.go", "func Stat(name string) (FileInfo, error) {\n", "\tif Sim != nil && Sim.Stat != nil {\n\t\tif fi, err, ok := Sim.Stat(name); ok {\n\t\t\treturn fi, err\n\t\t}\n\t}\n")
    p.after(O+"stat.go", "func Lstat(name string) (FileInfo, error) {\n", "\tif Sim != nil && Sim.Stat != nil {\n\t\tif fi, err, ok := Sim.Stat(name); ok {\n\t\t\treturn fi, err\n\t\t}\n\t}\n")
    p.after(O+"exec.go", "type Process struct {\n", "\tsim bool // simulated process\n\n")
    p.after(O+"exec.go", "func StartProcess(name string, argv []string, attr *ProcAttr) (*Process, error) {\n", """	if Sim != nil && Sim.Start != nil {
		dir := ""
		if attr != nil {
			dir = attr.Dir
		}
		if pid, err, ok := Sim.Start(name, argv, dir); ok {
			if err != nil {
				return nil, &PathError{Op: "fork/exec", Path: name, Err: err}
			}
			return simProcess(pid), nil
		}
	}
""")
    p.after(O+"pipe2_unix.go", "func Pipe() (r *File, w *File, err error) {\n", """	if Sim != nil && Sim.Pipe {
		if r, err = openFileNolog(DevNull, O_RDONLY, 0); err == nil {
			w, err = openFileNolog(DevNull, O_WRONLY, 0)
		}
		return
	}
""")
    p.after(O+"exec.go", "func FindProcess(pid int) (*Process, error) {\n", "\tif Sim != nil && Sim.Start != nil {\n\t\treturn simProcess(pid), nil\n\t}\n")
    Z = "syscall/zsyscall_linux_amd64.go"
    p.after(Z, "func Kill(pid int, sig Signal) (err error) {\n", "\tif SimKill != nil {\n\t\treturn SimKill(pid, sig)\n\t}\n")
    p.sub(Z, "func Kill(pid", "// SimKill takes the place of Kill.\nvar SimKill func(pid int, sig Signal) error\n\nfunc Kill(pid")
    p.sub(O+"exec.go", "\treturn p.wait()\n", "\tif p.sim {\n\t\treturn p.simWait()\n\t}\n\treturn p.wait()\n")
    p.sub(O+"exec.go", "\treturn p.kill()\n", "\tif p.sim {\n\t\treturn p.simSignal(Kill)\n\t}\n\treturn p.kill()\n")
    p.sub(O+"exec.go", "\treturn p.signal(sig)\n", "\tif p.sim {\n\t\treturn p.simSignal(sig)\n\t}\n\treturn p.signal(sig)\n")

def net_patches(p):
    p.after("net/dial.go", "func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n",
            "\tif SimDial != nil {\n\t\treturn SimDial(ctx, network, address)\n\t}\n")
    p.after("net/dial.go", "func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n",
            "\tif SimListen != nil {\n\t\treturn SimListen(network, address)\n\t}\n")

def main(out):
    ver = open(os.path.join(GOROOT, "VERSION")).read().split()[0]
    if ver != "go1.27.3":
        sys.exit(f"overlay: written for go1.27.3, have {ver}")
    p = Patcher(out)
    runtime_patches(p)
    os_patches(p)
    net_patches(p)
    p.write()
    json.dump({"Replace": p.replace}, open(os.path.join(out, "overlay-std.json"), "w"), indent=1)
    return p.replace

if __name__ == "__main__":
    os.makedirs(sys.argv[1], exist_ok=True)
    main(sys.argv[1])
