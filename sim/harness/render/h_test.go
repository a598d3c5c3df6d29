//go:build go1.25

package render

import (
	"fmt"
	"math"
	"os"
	"sort"
	"sync"
	"testing"
	"time"

	"simh"

	"github.com/barnex/bruteray/api"
	"github.com/barnex/bruteray/imagef"
	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/zzsim/scenes"
)

func TestMain(m *testing.M) {
	simh.Main(
		simh.Prop{ID: "C01", Gen: genC01, New: func() interface{} { return new(planC01) }, Run: runC01, Races: true},
		simh.Prop{ID: "C02", Gen: genC02, New: func() interface{} { return new(planC02) }, Run: runC02},
		simh.Prop{ID: "C03", Gen: genC03, New: func() interface{} { return new(planC03) }, Run: runC03},
		simh.Prop{ID: "C04", Gen: genC04, New: func() interface{} { return new(planC04) }, Run: runC04, Races: true},
		simh.Prop{ID: "C05", Gen: genC05, New: func() interface{} { return new(planC05) }, Run: runC05},
	)
	os.Exit(3)
}

// ---- helpers ----

func genSize(r *simh.R) (w, h int) {
	switch r.Intn(10) {
	case 0:
		return 1, r.Range(1, 40)
	case 1:
		return r.Range(1, 40), 1
	case 2:
		return r.Pick(16, 32, 48), r.Pick(16, 32)
	case 3:
		return r.Pick(15, 17, 31, 33), r.Pick(15, 17, 31, 33)
	case 4, 5:
		return r.Range(1, 8), r.Range(1, 8)
	}
	return r.Range(2, 36), r.Range(2, 24)
}

func genCPU(r *simh.R) int { return r.Pick(1, 1, 2, 2, 2, 2, 3, 3, 4, 4, 6, 6, 8, 8, 16, 40, 70, 300) }

func same(a, b float64) bool {
	if a == b || a != a && b != b {
		return true
	}
	return math.Abs(a-b) <= 1e-9*(1+math.Abs(a)+math.Abs(b))
}

func sameC(a, b colorf.Color) bool { return same(a.R, b.R) && same(a.G, b.G) && same(a.B, b.B) }

// diff returns a description of the first difference.
func diff(a, b imagef.Image) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d rows instead of %d", len(a), len(b))
	}
	n := 0
	first := ""
	for y := range a {
		if len(a[y]) != len(b[y]) {
			return fmt.Sprintf("row %d has %d pixels instead of %d", y, len(a[y]), len(b[y]))
		}
		for x := range a[y] {
			if !sameC(a[y][x], b[y][x]) {
				if n == 0 {
					first = fmt.Sprintf("pixel (%d,%d) is %v, want %v", x, y, a[y][x], b[y][x])
				}
				n++
			}
		}
	}
	if n > 0 {
		return fmt.Sprintf("%d pixels differ; %s", n, first)
	}
	return ""
}

func sizeIs(img imagef.Image, w, h int) bool {
	if len(img) != h {
		return false
	}
	for _, r := range img {
		if len(r) != w {
			return false
		}
	}
	return true
}

// finished reports a section that did not come to its end.
func finished(t *simh.T, what string, left int, dead bool) bool {
	if dead {
		t.Fail("deadlock", "%s never returned: everything is blocked", what)
		return false
	}
	return true
}

// ---- C01: schedule and CPU independence ----

type planC01 struct {
	Scene  scenes.Scene `json:"scene"`
	W      int          `json:"w"`
	H      int          `json:"h"`
	Passes int          `json:"passes"`
	AA     bool         `json:"aa"`
	CPU    int          `json:"cpu"`
	RefCPU int          `json:"refcpu"`
	Skew   int          `json:"skew"`  // ms on the clock before rendering
	Noisy  bool         `json:"noisy"` // the image depends on the clock: look for races, not at the image
}

func genC01(r *simh.R) interface{} {
	p := &planC01{Scene: scenes.Gen(r), Passes: r.Range(1, 3), AA: r.Bool(0.6), CPU: r.Range(2, 6), RefCPU: 1, Skew: r.Intn(5000)}
	if r.Bool(0.3) {
		p.CPU = genCPU(r)
	}
	if r.Bool(0.2) {
		p.RefCPU = genCPU(r)
	}
	p.W, p.H = genSize(r)
	if r.Bool(0.7) { // enough tiles for several workers
		p.W, p.H = r.Range(17, 40), r.Range(8, 34)
	}
	if r.Bool(0.02) { // many tiles
		p.W, p.H, p.Passes, p.AA = r.Range(60, 200), r.Range(60, 130), 1, true
		p.Scene.Objects = p.Scene.Objects[:1]
	}
	if r.Bool(0.05) { // very many workers, with a tile for some
		p.W, p.H, p.Passes, p.CPU = r.Range(33, 90), r.Range(33, 60), 1, r.Pick(20, 40, 70, 140, 300)
		p.Scene.Objects = p.Scene.Objects[:1]
	}
	if r.Bool(0.1) {
		p.Scene, p.Noisy = scenes.GenNoisy(r), true
		p.W, p.H, p.Passes = r.Range(17, 30), r.Range(4, 20), r.Range(1, 2)
	}
	return p
}

func render(spec api.Spec, w, h, n int, aa bool) (img, dev imagef.Image) {
	s := tracer.NewSampler(spec.ImageFunc(), w, h, aa)
	s.Sample(n)
	return s.Image(), s.StdDev()
}

func runC01(t *simh.T, pl interface{}) {
	p := pl.(*planC01)
	scenes.Prepare()
	var img, dev, rimg, rdev imagef.Image
	for _, o := range p.Scene.Objects {
		t.Count("object:" + o.K)
	}
	for _, o := range p.Scene.Lights {
		t.Count("light:" + o.K)
	}
	for _, o := range p.Scene.Media {
		t.Count("medium:" + o.K)
	}
	t.Count("camera:" + p.Scene.Camera.K)
	spec := build(t, &p.Scene)
	left, dead := t.Sim(p.CPU, true, func() {
		time.Sleep(time.Duration(p.Skew) * time.Millisecond)
		img, dev = render(spec, p.W, p.H, p.Passes, p.AA)
	})
	if !finished(t, "Sample", left, dead) {
		return
	}
	if p.Noisy {
		t.Count("probe:deep recursion or lens")
		if !sizeIs(img, p.W, p.H) || !sizeIs(dev, p.W, p.H) {
			t.Fail("size", "image is not %dx%d", p.W, p.H)
		}
		return
	}
	ref := build(t, &p.Scene)
	left, dead = t.Sim(p.RefCPU, false, func() {
		rimg, rdev = render(ref, p.W, p.H, p.Passes, p.AA)
	})
	if !finished(t, "Sample", left, dead) {
		return
	}
	t.CountN("samples", p.W*p.H*p.Passes*2)
	if !sizeIs(img, p.W, p.H) {
		t.Fail("size", "image is not %dx%d", p.W, p.H)
		return
	}
	if d := diff(img, rimg); d != "" {
		t.Fail("image", "image on %d CPUs differs from image on %d: %s", p.CPU, p.RefCPU, d)
	}
	if p.Passes > 1 {
		if d := diffDev(dev, rdev, rimg); d != "" {
			t.Fail("stddev", "standard deviation on %d CPUs differs from that on %d: %s", p.CPU, p.RefCPU, d)
		}
	}
}

// diffDev compares standard deviations; rounding in the sums is amplified by
// the square root, so the tolerance is relative to the pixel's brightness.
func diffDev(a, b, img imagef.Image) string {
	if len(a) != len(b) {
		return "sizes differ"
	}
	for y := range a {
		if len(a[y]) != len(b[y]) {
			return "sizes differ"
		}
		for x := range a[y] {
			m := img[y][x]
			scale := math.Abs(m.R) + math.Abs(m.G) + math.Abs(m.B)
			if !near(a[y][x].R, b[y][x].R, scale) || !near(a[y][x].G, b[y][x].G, scale) || !near(a[y][x].B, b[y][x].B, scale) {
				return fmt.Sprintf("pixel (%d,%d) is %v, want %v", x, y, a[y][x], b[y][x])
			}
		}
	}
	return ""
}

func near(a, b, scale float64) bool {
	if a == b || a != a && b != b {
		return true
	}
	return math.Abs(a-b) <= 1e-6*(scale+math.Abs(b))
}

// ---- a recording image function (C02, C03, C05) ----

const maxRec = 1 << 17

// A rec notes every evaluation. It keeps no lock: the simulator runs one
// goroutine at a time, and its notes must not order the workers.
type rec struct {
	w, h   int
	n      int
	x, y   []float64
	cnt    []int32 // per pixel
	sum    []float64
	slow   uint64 // of 256: share of samples that take time
	scale  int    // how much longer than up to 5 ms they take
	undone int    // evaluations under way when the recorder was closed
	nan    uint64 // of 256
	seed   uint64
	closed bool
	late   int
	bad    int
	badx   float64
	bady   float64
	cur    int // evaluations under way
	maxcur int
}

func newRec(w, h int, seed uint64) *rec {
	return &rec{w: w, h: h, x: make([]float64, maxRec), y: make([]float64, maxRec), cnt: make([]int32, w*h), sum: make([]float64, 8*w*h), seed: seed}
}

// pixel returns the pixel whose square contains (u,v).
//
//go:norace
func (r *rec) pixel(u, v float64) (int, int) {
	w, h := float64(r.w), float64(r.h)
	x := u * w
	y := h/2 - (v-0.5)*w
	return int(math.Floor(x)), int(math.Floor(y))
}

//go:norace
func (r *rec) enter(u, v float64) (c colorf.Color, sleep time.Duration) {
	if r.closed {
		r.late++
	}
	if r.n < maxRec {
		r.x[r.n], r.y[r.n] = u, v
	}
	r.n++
	// a sample on the border of its pixel, but for rounding, is accepted
	const e = 1e-9
	ix, iy := r.pixel(u, v)
	if ix < 0 || ix >= r.w || iy < 0 || iy >= r.h {
		ix, iy = r.pixel(u+e, v-e)
		if ix < 0 || ix >= r.w || iy < 0 || iy >= r.h {
			ix, iy = r.pixel(u-e, v+e)
		}
	}
	if ix < 0 || ix >= r.w || iy < 0 || iy >= r.h {
		if r.bad == 0 {
			r.badx, r.bady = u, v
		}
		r.bad++
		return
	}
	i := iy*r.w + ix
	k := r.cnt[i]
	r.cnt[i]++
	hsh := simh.Hash3(r.seed, uint64(i), uint64(k))
	c = colorf.Color{R: float64(hsh&0xffff) / 0x8000, G: float64(hsh>>16&0xffff) / 0x8000, B: float64(hsh>>32&0xffff) / 0x8000}
	if hsh>>60 == 0 { // some pixels have samples that are all equal
		c = colorf.Color{R: 0.1, G: 0.1, B: 0.1}
	}
	if r.seed&3 == 0 {
		c = colorf.Color{R: 0.1 * float64(1+i%7), G: 0.3, B: 0.7}
	}
	if simh.Hash3(r.seed^0x77, uint64(i), uint64(k))&0xff < r.nan {
		switch hsh >> 40 & 3 {
		case 0:
			c = colorf.Color{R: math.NaN(), G: math.NaN(), B: math.NaN()}
		case 1:
			c.R = math.NaN()
		case 2:
			c.G = math.NaN()
		case 3:
			c.B = math.NaN()
		}
	}
	if c.R == c.R && c.G == c.G && c.B == c.B {
		s := r.sum[8*i : 8*i+8]
		s[0] += c.R
		s[1] += c.G
		s[2] += c.B
		s[3] += c.R * c.R
		s[4] += c.G * c.G
		s[5] += c.B * c.B
		s[6]++
	}
	if simh.Hash3(r.seed^0x99, uint64(i), uint64(k))&0xff < r.slow {
		sleep = time.Duration(hsh>>20%5000) * time.Microsecond
		if r.scale > 1 {
			sleep *= time.Duration(r.scale)
		}
	}
	r.cur++
	if r.cur > r.maxcur {
		r.maxcur = r.cur
	}
	return
}

//go:norace
func (r *rec) leave() { r.cur-- }

//go:norace
func (r *rec) close() {
	r.closed = true
	r.undone += r.cur
}

//go:norace
func (r *rec) open() { r.closed = false }

func (r *rec) f(ctx *tracer.Ctx, u, v float64) colorf.Color {
	c, d := r.enter(u, v)
	if d > 0 {
		time.Sleep(d)
	}
	r.leave()
	return c
}

func (r *rec) at(i int) colorf.Color {
	n := float64(r.cnt[i])
	return colorf.Color{R: r.sum[8*i] / n, G: r.sum[8*i+1] / n, B: r.sum[8*i+2] / n}
}

func (r *rec) dev(i int) colorf.Color {
	n := float64(r.cnt[i])
	v := func(s, q float64) float64 {
		x := (q - s*s/n) / (n - 1)
		if x < 0 {
			x = 0
		}
		return math.Sqrt(x)
	}
	s := r.sum[8*i : 8*i+8]
	return colorf.Color{R: v(s[0], s[3]), G: v(s[1], s[4]), B: v(s[2], s[5])}
}

// ---- C02: exactly the samples asked for ----

type planC02 struct {
	W     int    `json:"w"`
	H     int    `json:"h"`
	Calls []call `json:"calls"`
	AA    bool   `json:"aa"`
	Seed  uint64 `json:"seed"`
	Slow  uint64 `json:"slow"`
	Scale int    `json:"scale"` // of the time that slow samples take
	NaN   uint64 `json:"nan"`

	Uniform bool `json:"uniform"` // also by the function that does it all in one go
}

type call struct {
	N   int `json:"n"`
	CPU int `json:"cpu"`
	Gap int `json:"gap"` // ms between the previous call and this one
	How int `json:"how"` // 0 Sample, 1 SampleWithCancel
}

func genCalls(r *simh.R, max int) (c []call) {
	n := r.Pick(1, 1, 2, 2, 3, 4)
	for i := 0; i < n; i++ {
		c = append(c, call{N: r.Range(0, max), CPU: genCPU(r), Gap: r.Pick(0, 0, 3, 1000), How: r.Pick(0, 0, 0, 1)})
	}
	if r.Bool(0.8) && c[0].N == 0 {
		c[0].N = r.Range(1, max)
	}
	return c
}

func genC02(r *simh.R) interface{} {
	p := &planC02{AA: r.Bool(0.5), Seed: r.U64(), Slow: uint64(r.Pick(0, 0, 3, 30, 256)), NaN: uint64(r.Pick(0, 0, 5, 60, 256))}
	p.W, p.H = genSize(r)
	p.Calls = genCalls(r, 5)
	p.Scale = r.Pick(1, 1, 1, 1, 1000, 100000, 10000000) // up to 5 ms, 5 s, 8 minutes, 14 hours
	switch r.Intn(40) {
	case 0: // many pixels
		p.W, p.H = r.Range(1, 300), r.Range(1, 300)
		if r.Bool(0.5) {
			p.W, p.H = r.Pick(1, 2, 17, 1000), r.Pick(60, 129)
		}
		p.Calls, p.Slow = p.Calls[:1], 0
		p.Calls[0].N = 1
	case 1: // many passes
		p.W, p.H, p.Slow = r.Range(1, 18), r.Range(1, 4), 0
		for i := range p.Calls {
			p.Calls[i].N = r.Range(20, 300)
		}
		if r.Bool(0.3) {
			p.manyMore(r)
		}
	case 2: // a long side
		if r.Bool(0.3) {
			p.W, p.H, p.Slow = longSide(r)
			p.Calls = p.Calls[:1]
			p.Calls[0].N = 1
		}
	}
	p.Uniform = r.Bool(0.1)
	return p
}

// manyMore asks for very many passes of a very small image.
func (p *planC02) manyMore(r *simh.R) {
	p.W, p.H = r.Range(1, 2), 1
	for i := range p.Calls {
		p.Calls[i].N = r.Range(500, 5000)
	}
	if r.Bool(0.3) {
		p.W, p.Calls[0].N = 1, r.Range(60000, 80000)
	}
}

// longSide makes an image that is very wide or high.
func longSide(r *simh.R) (w, h int, slow uint64) {
	w, h = r.Range(2000, 70000), 1
	if r.Bool(0.5) {
		w, h = h, w
	}
	return w, h, 0
}

func sample(s *tracer.Sampler, c call) {
	switch c.How {
	case 1:
		s.SampleWithCancel(c.N, make(chan struct{}))
	default:
		s.Sample(c.N)
	}
}

func runC02(t *simh.T, pl interface{}) {
	p := pl.(*planC02)
	r := newRec(p.W, p.H, p.Seed)
	r.slow, r.scale, r.nan = p.Slow, p.Scale, p.NaN
	if p.Uniform {
		if p.uniform(t); t.Failed() {
			return
		}
	}
	s := tracer.NewSampler(r.f, p.W, p.H, p.AA)
	total := 0
	for k, c := range p.Calls {
		var img, dev imagef.Image
		r.open()
		left, dead := t.Sim(c.CPU, true, func() {
			time.Sleep(time.Duration(c.Gap) * time.Millisecond)
			sample(s, c)
			r.close()
			img = s.Image()
			dev = s.StdDev()
			time.Sleep(time.Minute)
		})
		if !finished(t, fmt.Sprintf("call %d, Sample(%d)", k, c.N), left, dead) {
			return
		}
		total += c.N
		t.CountN("samples", p.W*p.H*c.N)
		if r.maxcur > 1 {
			t.Count("probe:overlapping samples")
		}
		if r.late > 0 {
			t.Fail("late", "%d evaluations after Sample had returned", r.late)
		}
		if r.undone > 0 {
			t.Fail("late", "%d evaluations under way when Sample returned", r.undone)
		}
		if r.bad > 0 {
			t.Fail("position", "%d evaluations outside the image, first at (%v,%v), image %dx%d", r.bad, r.badx, r.bady, p.W, p.H)
		}
		for i, n := range r.cnt {
			if int(n) != total {
				t.Fail("count", "pixel (%d,%d) was evaluated %d times after calls asking for %d in total, on %d CPUs (image %dx%d)", i%p.W, i/p.W, n, total, c.CPU, p.W, p.H)
				break
			}
		}
		if t.Failed() {
			return
		}
		if !sizeIs(img, p.W, p.H) || !sizeIs(dev, p.W, p.H) {
			t.Fail("size", "image or standard deviation is not %dx%d", p.W, p.H)
			return
		}
		if total == 0 {
			continue
		}
		for i := range r.cnt {
			x, y := i%p.W, i/p.W
			if !sameC(img[y][x], r.at(i)) {
				t.Fail("mean", "pixel (%d,%d) is %v, but its %d samples have mean %v", x, y, img[y][x], total, r.at(i))
				return
			}
			if total > 1 {
				a, b := dev[y][x], r.dev(i)
				if !near(a.R, b.R, 2) || !near(a.G, b.G, 2) || !near(a.B, b.B, 2) {
					t.Fail("stddev", "standard deviation of pixel (%d,%d) is %v, but that of its %d samples is %v", x, y, a, total, b)
					return
				}
			}
		}
	}
}

// uniform asks for the image in one go.
func (p *planC02) uniform(t *simh.T) {
	if len(p.Calls) == 0 || p.Calls[0].N == 0 {
		return
	}
	c := p.Calls[0]
	r := newRec(p.W, p.H, p.Seed)
	r.slow, r.scale, r.nan = p.Slow, p.Scale, p.NaN
	var img imagef.Image
	left, dead := t.Sim(c.CPU, true, func() {
		img = tracer.Uniform(r.f, c.N, p.W, p.H, p.AA)
		r.close()
		time.Sleep(time.Minute)
	})
	if !finished(t, "Uniform", left, dead) {
		return
	}
	t.Count("probe:Uniform")
	if r.late > 0 {
		t.Fail("late", "%d evaluations after Uniform had returned", r.late)
	}
	if !sizeIs(img, p.W, p.H) {
		t.Fail("size", "image is not %dx%d", p.W, p.H)
		return
	}
	for i, n := range r.cnt {
		x, y := i%p.W, i/p.W
		if int(n) != c.N {
			t.Fail("count", "Uniform: pixel (%d,%d) was evaluated %d times instead of %d, on %d CPUs (image %dx%d)", x, y, n, c.N, c.CPU, p.W, p.H)
			return
		}
		if !sameC(img[y][x], r.at(i)) {
			t.Fail("mean", "Uniform: pixel (%d,%d) is %v, but its %d samples have mean %v", x, y, img[y][x], c.N, r.at(i))
			return
		}
	}
}

// ---- C03: passes add up ----

type planC03 struct {
	Scene scenes.Scene `json:"scene"`
	Func  bool         `json:"func"` // a function that uses pixel, pass and random numbers instead of a scene
	W     int          `json:"w"`
	H     int          `json:"h"`
	Calls []call       `json:"calls"`
	AA    bool         `json:"aa"`
	Reads uint64       `json:"reads"` // bit 2k: read image after call k, bit 2k+1: read standard deviation
	RefN  int          `json:"refcpu"`
}

func genC03(r *simh.R) interface{} {
	p := &planC03{Scene: scenes.Gen(r), Func: r.Bool(0.4), AA: r.Bool(0.6), Reads: r.U64(), RefN: r.Pick(1, 1, 1, 4)}
	p.W, p.H = genSize(r)
	if p.W*p.H > 400 && !p.Func {
		p.W, p.H = r.Range(10, 24), r.Range(4, 18)
	}
	n := r.Range(2, 5)
	for i := 0; i < n; i++ {
		p.Calls = append(p.Calls, call{N: r.Pick(0, 1, 1, 1, 2, 2, 3, 5), CPU: genCPU(r), Gap: r.Pick(0, 0, 7, 60000), How: r.Pick(0, 0, 0, 1)})
	}
	if r.Bool(0.03) { // many passes
		p.Func, p.W, p.H = true, r.Range(1, 18), r.Range(1, 4)
		for i := range p.Calls {
			p.Calls[i].N = r.Range(10, 300)
		}
		if r.Bool(0.15) {
			p.W, p.H = 1, 1
			for i := range p.Calls {
				p.Calls[i].N = r.Range(500, 5000)
			}
			if r.Bool(0.3) {
				p.Calls[0].N = r.Range(60000, 80000)
			}
		}
	}
	if r.Bool(0.005) { // a long side
		p.Func = true
		p.W, p.H, _ = longSide(r)
		p.Calls = p.Calls[:2]
		p.Calls[0].N, p.Calls[1].N = r.Range(0, 1), 1
	}
	if r.Bool(0.02) { // many pixels
		p.Func, p.W, p.H = true, r.Range(1, 200), r.Range(50, 150)
		p.Calls = p.Calls[:2]
		for i := range p.Calls {
			p.Calls[i].N = r.Range(0, 4)
		}
	}
	return p
}

// randFunc depends on the position and on the random numbers it is given. The
// recursion depth it pretends to be at is restored afterwards.
func randFunc(ctx *tracer.Ctx, u, v float64) colorf.Color {
	ctx.CurrentRecursionDepth++
	a, b := ctx.Generate2()
	ctx.CurrentRecursionDepth++
	c, d := ctx.Generate2()
	ctx.CurrentRecursionDepth -= 2
	return colorf.Color{R: a + 3*u + 0.3*v, G: b*b + c, B: d * (1 + u*v)}
}

func build(t *simh.T, s *scenes.Scene) (spec api.Spec) {
	t.Build(func() { spec = s.Spec() })
	return spec
}

func (p *planC03) imageFunc(t *simh.T) tracer.ImageFunc {
	if p.Func {
		return randFunc
	}
	spec := build(t, &p.Scene)
	return spec.ImageFunc()
}

func runC03(t *simh.T, pl interface{}) {
	p := pl.(*planC03)
	scenes.Prepare()
	total := 0
	type kept struct {
		what      string
		img, copy imagef.Image
	}
	var held []kept
	s := tracer.NewSampler(p.imageFunc(t), p.W, p.H, p.AA)
	var img, dev imagef.Image
	for k, c := range p.Calls {
		left, dead := t.Sim(c.CPU, true, func() {
			time.Sleep(time.Duration(c.Gap) * time.Millisecond)
			sample(s, c)
			if p.Reads>>(2*uint(k))&1 != 0 {
				m := s.Image()
				held = append(held, kept{fmt.Sprintf("image read after call %d", k), m, deepCopy(m)})
			}
			if p.Reads>>(2*uint(k)+1)&1 != 0 {
				m := s.StdDev()
				held = append(held, kept{fmt.Sprintf("standard deviation read after call %d", k), m, deepCopy(m)})
			}
			if k == len(p.Calls)-1 {
				img, dev = s.Image(), s.StdDev()
			}
		})
		if !finished(t, "Sample", left, dead) {
			return
		}
		total += c.N
	}
	t.CountN("samples", 2*p.W*p.H*total)
	for _, h := range held {
		if d := diff(h.img, h.copy); d != "" {
			t.Fail("modified", "%s was modified later: %s", h.what, d)
			return
		}
		t.Count("probe:image held while rendering went on")
	}
	if total == 0 {
		return
	}
	ref := tracer.NewSampler(p.imageFunc(t), p.W, p.H, p.AA)
	var rimg, rdev imagef.Image
	left, dead := t.Sim(p.RefN, false, func() {
		ref.Sample(total)
		rimg, rdev = ref.Image(), ref.StdDev()
	})
	if !finished(t, "Sample", left, dead) {
		return
	}
	if d := diff(img, rimg); d != "" {
		t.Fail("split", "passes %v in separate calls differ from %d at once: %s", p.Calls, total, d)
		return
	}
	if total > 1 {
		if d := diffDev(dev, rdev, rimg); d != "" {
			t.Fail("split-stddev", "standard deviation of passes %v in separate calls differs from %d at once: %s", p.Calls, total, d)
		}
	}
	// reading twice gives the same
	if d := diff(s.Image(), img); d != "" {
		t.Fail("reread", "reading the image twice: %s", d)
	}
}

func deepCopy(img imagef.Image) imagef.Image {
	c := make(imagef.Image, len(img))
	for i := range img {
		c[i] = append([]colorf.Color(nil), img[i]...)
	}
	return c
}

// ---- C04: concurrent renders over one scene ----

type job struct {
	Camera  scenes.Item `json:"camera"`
	W       int         `json:"w"`
	H       int         `json:"h"`
	Calls   []int       `json:"calls"`
	AA      bool        `json:"aa"`
	Start   int         `json:"start"` // ms
	Share   bool        `json:"share"` // uses the scene value shared by such jobs
	View    bool        `json:"view"`  // goes through a View, as the server does
	Normals int         `json:"normals"`
	Yaw     float64     `json:"yaw"`
}

type planC04 struct {
	Scene scenes.Scene `json:"scene"`
	Jobs  []job        `json:"jobs"`
	CPU   int          `json:"cpu"`
	Noisy bool         `json:"noisy"` // as in C01
}

func genC04(r *simh.R) interface{} {
	p := &planC04{Scene: scenes.Gen(r), CPU: r.Range(1, 5)}
	n := r.Pick(2, 2, 3)
	if r.Bool(0.06) {
		n = r.Range(4, 9)
	}
	for i := 0; i < n; i++ {
		j := job{Camera: scenes.GenCamera(r), W: r.Range(1, 20), H: r.Range(1, 16), AA: r.Bool(0.5), Share: r.Bool(0.5), View: r.Bool(0.4), Normals: r.Pick(0, 0, 1), Yaw: r.In(-1, 1)}
		for k, m := 0, r.Range(1, 2); k < m; k++ {
			j.Calls = append(j.Calls, r.Range(1, 2))
		}
		if r.Bool(0.2) {
			j.Start = r.Intn(3)
		}
		p.Jobs = append(p.Jobs, j)
	}
	if r.Bool(0.1) {
		p.Scene, p.Noisy = scenes.GenNoisy(r), true
		if p.Scene.Camera.K == "lens" {
			for i := range p.Jobs {
				p.Jobs[i].Camera.K = "lens"
			}
		}
	}
	if r.Bool(0.3) && n > 1 { // identical twins
		p.Jobs[1] = p.Jobs[0]
	}
	return p
}

func (j *job) run(spec api.Spec, scene *tracer.Scene) (img imagef.Image) {
	time.Sleep(time.Duration(j.Start) * time.Millisecond)
	var f tracer.ImageFunc
	switch {
	case j.View:
		v := api.View{Width: j.W, Height: j.H, AntiAlias: j.AA, CamYaw: j.Yaw, CamPos: api.V(0, 0.1, 0.2), DebugNormals: j.Normals}
		spec.Camera = scenes.Camera(j.Camera)
		spec = v.ApplyTo(spec)
		f = spec.ImageFunc()
	case j.Share:
		f = scene.ImageFunc(scenes.Camera(j.Camera))
	default:
		spec.Camera = scenes.Camera(j.Camera)
		f = spec.ImageFunc()
	}
	s := tracer.NewSampler(f, j.W, j.H, j.AA)
	for _, n := range j.Calls {
		s.Sample(n)
		img = s.Image()
	}
	return img
}

func runC04(t *simh.T, pl interface{}) {
	p := pl.(*planC04)
	scenes.Prepare()
	for _, o := range p.Scene.Objects {
		t.Count("object:" + o.K)
	}
	imgs := make([]imagef.Image, len(p.Jobs))
	spec := build(t, &p.Scene)
	left, dead := t.Sim(p.CPU, true, func() {
		scene := spec.Scene()
		var wg sync.WaitGroup
		for i := range p.Jobs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				imgs[i] = p.Jobs[i].run(spec, scene)
			}(i)
		}
		wg.Wait()
	})
	if !finished(t, "a render", left, dead) {
		return
	}
	if p.Noisy {
		t.Count("probe:deep recursion or lens")
		for i, j := range p.Jobs {
			if len(j.Calls) > 0 && !sizeIs(imgs[i], j.W, j.H) {
				t.Fail("size", "image is not %dx%d", j.W, j.H)
			}
		}
		return
	}
	for i := range p.Jobs {
		ref := build(t, &p.Scene)
		var img imagef.Image
		left, dead := t.Sim(1, false, func() {
			img = p.Jobs[i].run(ref, ref.Scene())
		})
		if !finished(t, "a render", left, dead) {
			return
		}
		for _, n := range p.Jobs[i].Calls {
			t.CountN("samples", p.Jobs[i].W*p.Jobs[i].H*n)
		}
		if d := diff(imgs[i], img); d != "" {
			t.Fail("interference", "render %d differs from the same render alone: %s", i, d)
			return
		}
	}
}

// ---- C05: anti-aliasing ----

type planC05 struct {
	W     int    `json:"w"`
	H     int    `json:"h"`
	Calls []call `json:"calls"`
	Slow  uint64 `json:"slow"`
	Seed  uint64 `json:"seed"`
	RefN  int    `json:"refcpu"`
}

func genC05(r *simh.R) interface{} {
	p := &planC05{Slow: uint64(r.Pick(0, 0, 10)), Seed: r.U64(), RefN: r.Pick(1, 3)}
	p.W, p.H = genSize(r)
	for p.W*p.H > 700 {
		p.W, p.H = genSize(r)
	}
	if r.Bool(0.5) {
		p.Calls = append(p.Calls, call{N: r.Range(8, 20), CPU: genCPU(r)})
	} else {
		for i, n := 0, r.Range(2, 6); i < n; i++ {
			p.Calls = append(p.Calls, call{N: r.Range(1, 6), CPU: genCPU(r), Gap: r.Pick(0, 10)})
		}
	}
	if r.Bool(0.03) { // many passes
		p.W, p.H, p.Slow = r.Range(1, 18), r.Range(1, 3), 0
		for i := range p.Calls {
			p.Calls[i].N = r.Range(40, 400)
		}
		if r.Bool(0.2) {
			p.W, p.H = 1, 1
			p.Calls = p.Calls[:1]
			p.Calls[0].N = r.Pick(1500, 5000, 70000)
		}
	}
	if r.Bool(0.02) { // many pixels
		p.W, p.H, p.Slow = r.Range(60, 300), r.Range(60, 200), 0
		p.Calls = p.Calls[:1]
		p.Calls[0].N = r.Range(1, 2)
	}
	return p
}

// runC05 follows each pixel's positions over the passes. The image function is
// told nothing about pixel and pass; positions are attributed to the pixel
// whose square contains them, and within a pixel the order of evaluation is
// the order of the passes.
func runC05(t *simh.T, pl interface{}) {
	p := pl.(*planC05)
	run := func(calls []call, explore bool) *rec {
		r := newRec(p.W, p.H, p.Seed|1)
		r.slow = p.Slow
		s := tracer.NewSampler(r.f, p.W, p.H, true)
		for _, c := range calls {
			left, dead := t.Sim(c.CPU, explore, func() {
				time.Sleep(time.Duration(c.Gap) * time.Millisecond)
				sample(s, c)
			})
			if !finished(t, "Sample", left, dead) {
				return nil
			}
		}
		return r
	}
	total := 0
	for _, c := range p.Calls {
		total += c.N
	}
	if total*p.W*p.H > maxRec || total == 0 {
		return
	}
	t.CountN("samples", 2*p.W*p.H*total)
	a := run(p.Calls, true)
	if a == nil {
		return
	}
	pa := check05(t, p, a, total)
	if pa == nil {
		return
	}
	b := run([]call{{N: total, CPU: p.RefN}}, false)
	if b == nil {
		return
	}
	pb := check05(t, p, b, total)
	if pb == nil {
		return
	}
	for i := range pa {
		for k := range pa[i] {
			if math.Abs(pa[i][k][0]-pb[i][k][0]) > 1e-9 || math.Abs(pa[i][k][1]-pb[i][k][1]) > 1e-9 {
				t.Fail("depends", "pixel (%d,%d), pass %d was sampled at %v, and at %v when rendered in one call on %d CPUs", i%p.W, i/p.W, k, pa[i][k], pb[i][k], p.RefN)
				return
			}
		}
	}
}

// repeated finds two positions that are the same; it returns two equal numbers
// if there are none.
func repeated(pos [][2]float64, e float64) (int, int) {
	by := make([]int, len(pos))
	for k := range by {
		by[k] = k
	}
	sort.SliceStable(by, func(a, b int) bool { return pos[by[a]][0] < pos[by[b]][0] })
	for a, k := range by {
		for _, l := range by[a+1:] {
			if pos[l][0]-pos[k][0] >= e {
				break
			}
			if math.Abs(pos[l][1]-pos[k][1]) < e {
				return k, l
			}
		}
	}
	return 0, 0
}

func check05(t *simh.T, p *planC05, r *rec, total int) [][][2]float64 {
	if r.bad > 0 {
		t.Fail("outside", "%d positions outside the image, first (%v,%v) in image %dx%d", r.bad, r.badx, r.bady, p.W, p.H)
		return nil
	}
	pos := make([][][2]float64, p.W*p.H)
	for k := 0; k < r.n; k++ {
		ix, iy := r.pixel(r.x[k], r.y[k])
		if ix < 0 {
			ix = 0
		}
		if iy < 0 {
			iy = 0
		}
		if ix >= p.W {
			ix = p.W - 1
		}
		if iy >= p.H {
			iy = p.H - 1
		}
		i := iy*p.W + ix
		pos[i] = append(pos[i], [2]float64{r.x[k], r.y[k]})
	}
	for i := range pos {
		ix, iy := i%p.W, i/p.W
		if len(pos[i]) != total {
			t.Fail("outside", "%d positions in the square of pixel (%d,%d) after %d passes (image %dx%d): samples left their pixels", len(pos[i]), ix, iy, total, p.W, p.H)
			return nil
		}
		if k, l := repeated(pos[i], 1e-9/float64(p.W)); k != l {
			t.Fail("repeat", "pixel (%d,%d) was sampled at the same position %v in passes %d and %d", ix, iy, pos[i][k], min(k, l), max(k, l))
			return nil
		}
		if total >= 8 {
			cx := (float64(ix) + 0.5) / float64(p.W)
			cy := 0.5 - (float64(iy)+0.5-float64(p.H)/2)/float64(p.W)
			var q [4]int
			for _, xy := range pos[i][:8] {
				if xy[0] < cx {
					q[0]++
				} else {
					q[1]++
				}
				if xy[1] < cy {
					q[2]++
				} else {
					q[3]++
				}
			}
			if q[0] == 0 || q[1] == 0 || q[2] == 0 || q[3] == 0 {
				t.Fail("spread", "pixel (%d,%d): the first eight positions are not spread: left %d, right %d, below %d, above %d", ix, iy, q[0], q[1], q[2], q[3])
				return nil
			}
		}
	}
	return pos
}
