// Deterministic simulation support, compiled into package runtime through a
// build overlay (see /verif/sim/overlay.py). Nothing here exists in a normal
// build. With sim.on false every hook is a no-op.
//
// Package runtime is never instrumented by the race detector, so state kept
// here neither races nor creates happens-before edges between the goroutines
// under test. All of it relies on there being a single P (GOMAXPROCS=1).

package runtime

import "unsafe"

// A SimDecision is one departure from the default (run-to-block, FIFO)
// schedule: at decision number Step the scheduler took alternative Choice.
type SimDecision struct {
	Step   uint64
	Choice uint32
}

// A SimEvent is one entry of the harness' event log.
type SimEvent struct {
	Step uint64 // decision counter when logged
	Now  int64  // simulated time, ns since start of the run
	G    uint32 // simulated goroutine
	Kind uint32
	A, B uint64
}

const (
	simReplay = iota // default schedule plus the listed decisions
	simRandom        // random walk, per-site switch probabilities
	simPCT           // random priorities with change points
)

type SimConfig struct {
	Mode      int
	Seed      uint64 // schedule stream
	RandSeed  uint64 // stream behind runtime.rand: select, maps, math/rand, ...
	HotProb   uint32 // of 1<<16: switch probability at hot sites
	ColdProb  uint32 // of 1<<16: switch probability at other sites
	HotShare  uint32 // of 256: share of sites that are hot in this run
	PCTGap    uint32 // mean number of decisions between priority change points
	NumCPU    int
	StepCap   uint64
	Decisions []SimDecision
}

var sim struct {
	on       bool
	cfg      SimConfig
	rng      uint64
	rrng     uint64 // runtime.rand
	srng     uint64 // order in which select polls its cases
	nextT    uint32 // timers made
	step     uint64
	yields   uint64
	switches uint64
	forced   uint32
	ri       int
	rec      []SimDecision
	nrec     int
	overflow bool
	hash     uint64
	lastG    uint32
	lastSite uint32
	nextG    uint32
	pctNext  uint64
	pctLow   uint32
	t0       int64
	ev       []SimEvent
	nev      int
	evlost   uint64
	pending  uint64 // bubbled goroutines left over by the last run
}

func simMix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

//go:nosplit
func simNext(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	x := *s
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// SimStart switches the simulator on. Call it as the first thing inside the
// bubble.
func SimStart(cfg SimConfig) {
	if gomaxprocs != 1 {
		fatal("sim: needs GOMAXPROCS=1")
	}
	if sim.rec == nil {
		sim.rec = make([]SimDecision, 1<<16)
		sim.ev = make([]SimEvent, 1<<17)
	}
	sim.cfg = cfg
	sim.rng = simMix(cfg.Seed)
	sim.rrng = simMix(cfg.RandSeed ^ 0x5157)
	sim.srng = simMix(cfg.RandSeed ^ 0x5e1e)
	sim.step, sim.yields, sim.switches = 0, 0, 0
	sim.forced, sim.ri, sim.nrec, sim.overflow = 0, 0, 0, false
	sim.hash, sim.lastG, sim.lastSite = 0, 0, 0
	sim.nextG = 1
	sim.nextT = 0
	sim.nev, sim.evlost = 0, 0
	sim.pctLow = 1 << 16
	sim.pctNext = 0
	gp := getg()
	gp.simID = 1
	gp.simPrio = 1 << 31
	if gp.bubble != nil {
		sim.t0 = gp.bubble.now
	}
	sim.on = true
}

// SimStop switches the simulator off.
func SimStop() { sim.on = false }

func SimOn() bool { return sim.on }

type SimStats struct {
	Steps, Yields, Switches, Hash uint64
	EventsLost                    uint64
	Overflow                      bool
	Goroutines                    uint32
}

func SimGetStats() SimStats {
	return SimStats{sim.step, sim.yields, sim.switches, sim.hash, sim.evlost, sim.overflow, sim.nextG}
}

// SimRecorded returns the decisions taken in the current run.
func SimRecorded() []SimDecision {
	out := make([]SimDecision, sim.nrec)
	copy(out, sim.rec[:sim.nrec])
	return out
}

// SimLog appends to the event log.
func SimLog(kind uint32, a, b uint64) int {
	if !sim.on || sim.nev >= len(sim.ev) {
		sim.evlost++
		return -1
	}
	e := &sim.ev[sim.nev]
	gp := getg()
	e.Step, e.G, e.Kind, e.A, e.B = sim.step, gp.simID, kind, a, b
	e.Now = 0
	if gp.bubble != nil {
		e.Now = gp.bubble.now - sim.t0
	}
	sim.nev++
	return sim.nev - 1
}

func SimEventCount() int { return sim.nev }

// SimEvents copies the event log.
func SimEvents() []SimEvent {
	out := make([]SimEvent, sim.nev)
	copy(out, sim.ev[:sim.nev])
	return out
}

// SimGID identifies the calling goroutine within the run.
func SimGID() uint32 { return getg().simID }

// SimNow is the simulated time since the start of the run.
func SimNow() int64 {
	if b := getg().bubble; b != nil {
		return b.now - sim.t0
	}
	return 0
}

// SimLoad, SimStore and SimAdd access shared harness counters without being
// visible to the race detector.
func SimLoad(p *uint64) uint64          { return *p }
func SimStore(p *uint64, v uint64)      { *p = v }
func SimAdd(p *uint64, v uint64) uint64 { *p += v; return *p }
func SimAddF(p *float64, v float64)     { *p += v }
func SimLoadF(p *float64) float64       { return *p }
func SimStoreF(p *float64, v float64)   { *p = v }
func SimPutStr(p *string, v string)     { *p = v }

var simHit [1 << 14]uint8
var simNew [1 << 14]uint32
var simNewN int

// SimNewSites returns the statements reached for the first time since the last
// call.
func SimNewSites() []uint32 {
	l := append([]uint32(nil), simNew[:simNewN]...)
	simNewN = 0
	return l
}

// SimYield is a scheduling point: statement boundaries of the code under test
// and the harness' seams call it.
func SimYield(site uint32) {
	if site < uint32(len(simHit)) && simHit[site] == 0 {
		simHit[site] = 1
		simNew[simNewN] = site
		simNewN++
	}
	if !sim.on {
		return
	}
	gp := getg()
	if gp.bubble == nil {
		return
	}
	mp := gp.m
	if gp != mp.curg || mp.locks != 0 {
		return
	}
	sim.yields++
	if sim.cfg.StepCap != 0 && sim.yields > sim.cfg.StepCap {
		fatal("sim: step cap exceeded: no progress")
	}
	pp := mp.p.ptr()
	h, t := pp.runqhead, pp.runqtail
	if h == t {
		return
	}
	n := uint32(0)
	for i := h; i != t; i++ {
		if pp.runq[i%uint32(len(pp.runq))].ptr().bubble == gp.bubble {
			n++
		}
	}
	if n == 0 {
		return
	}
	sim.lastSite = site
	c := simDecide(pp, gp, n+1, true, site)
	if c == 0 {
		return
	}
	sim.forced = c
	mcall(gosched_m)
}

// simDecide picks one of n alternatives; 0 is the default. When cont is set,
// 0 means "carry on with gp" and k > 0 means "switch to runnable k-1".
func simDecide(pp *p, gp *g, n uint32, cont bool, site uint32) uint32 {
	s := sim.step
	sim.step++
	cfg := &sim.cfg
	var c uint32
	switch cfg.Mode {
	case simReplay:
		for sim.ri < len(cfg.Decisions) && cfg.Decisions[sim.ri].Step < s {
			sim.ri++
		}
		if sim.ri < len(cfg.Decisions) && cfg.Decisions[sim.ri].Step == s {
			c = cfg.Decisions[sim.ri].Choice % n
			sim.ri++
		}
	case simRandom:
		x := simNext(&sim.rng)
		if cont {
			p := cfg.ColdProb
			if uint32(simMix(uint64(site)^cfg.Seed)&0xff) < cfg.HotShare {
				p = cfg.HotProb
			}
			if uint32(x&0xffff) < p {
				c = 1 + uint32((x>>32)%uint64(n-1))
			}
		} else {
			c = uint32((x >> 32) % uint64(n))
		}
	case simPCT:
		if cont && s >= sim.pctNext {
			if sim.pctNext != 0 {
				sim.pctLow--
				gp.simPrio = sim.pctLow
			}
			gap := cfg.PCTGap
			if gap == 0 {
				gap = 1 << 14
			}
			sim.pctNext = s + 1 + simNext(&sim.rng)%uint64(2*gap)
		}
		best := uint32(0)
		bi := uint32(0)
		k := uint32(0)
		if cont {
			best = gp.simPrio
			k = 1
		}
		for i := pp.runqhead; i != pp.runqtail; i++ {
			q := pp.runq[i%uint32(len(pp.runq))].ptr()
			if q.bubble == nil {
				continue
			}
			if q.simPrio > best {
				best, bi = q.simPrio, k
			}
			k++
		}
		c = bi
	}
	if c != 0 {
		if sim.nrec < len(sim.rec) {
			sim.rec[sim.nrec] = SimDecision{s, c}
			sim.nrec++
		} else {
			sim.overflow = true
		}
	}
	return c
}

// simRunqget replaces runqget while the simulator is on.
func simRunqget(pp *p) *g {
	h, t := pp.runqhead, pp.runqtail
	if h == t {
		return nil
	}
	ln := uint32(len(pp.runq))
	idx := uint32(0)
	n := uint32(0)
	sys := false
	for i := h; i != t; i++ {
		if pp.runq[i%ln].ptr().bubble == nil {
			idx = i - h
			sys = true
			break
		}
		n++
	}
	if !sys {
		switch {
		case sim.forced != 0:
			idx = (sim.forced - 1) % n
			sim.forced = 0
		case n > 1:
			idx = simDecide(pp, nil, n, false, 0)
		}
	}
	gp := pp.runq[(h+idx)%ln].ptr()
	for j := idx; j > 0; j-- {
		pp.runq[(h+j)%ln] = pp.runq[(h+j-1)%ln]
	}
	pp.runqhead = h + 1
	if !sys && gp.simID != sim.lastG {
		sim.switches++
		sim.hash = simMix(sim.hash ^ uint64(gp.simID)<<32 ^ uint64(sim.lastSite))
		sim.lastG = gp.simID
		sim.lastSite = 0
	}
	return gp
}

// simTimerKey orders the timers due at the same instant.
func simTimerKey(id uint32, when int64) uint64 {
	return simMix(simMix(sim.cfg.RandSeed^0x7173^uint64(when)) + uint64(id))
}

// simNewG is called for every new bubbled goroutine.
func simNewG(gp *g) {
	sim.nextG++
	gp.simID = sim.nextG
	gp.simPrio = 0
	if sim.cfg.Mode == simPCT {
		gp.simPrio = uint32(simNext(&sim.rng)>>33) | 1<<17
	}
}

var _ unsafe.Pointer

// simDump writes the decisions taken so far when the process is about to die.
var simDumpFD uintptr

func SimDumpTo(fd uintptr) { simDumpFD = fd }

func simDump() {
	if !sim.on || simDumpFD == 0 {
		return
	}
	sim.on = false
	hdr := [2]uint64{0x53494d44554d5031, uint64(sim.nrec)}
	if sim.overflow {
		hdr[1] |= 1 << 63
	}
	write(simDumpFD, unsafe.Pointer(&hdr), 16)
	if sim.nrec > 0 {
		write(simDumpFD, unsafe.Pointer(&sim.rec[0]), int32(sim.nrec*16))
	}
}
