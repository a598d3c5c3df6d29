//go:build go1.25

// Package srv has what the server and viewer harnesses share: a scene whose
// image tells the view and the number of passes, a reference that renders a
// view without the code under test's handling of views, and a note of what is
// being rendered. It is laid into the repository's module by the build overlay.
package srv

import (
	"fmt"
	"math"
	"time"

	"simh"

	"github.com/barnex/bruteray/api"
	"github.com/barnex/bruteray/imagef"
	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/cameras"
	"github.com/barnex/bruteray/tracer/lights"
	"github.com/barnex/bruteray/tracer/materials"
	"github.com/barnex/bruteray/tracer/media"
	"github.com/barnex/bruteray/tracer/objects"
	"github.com/barnex/bruteray/tracer/test"
)

// ---- the world ----

// A Load says how long samples take, in simulated time.
type Load struct {
	Share int    `json:"share"` // of 256: samples that take time
	MaxUs int    `json:"maxus"`
	Seed  uint64 `json:"seed"`
}

// GenLoad picks a load.
func GenLoad(r *simh.R) Load {
	l := Load{Share: r.Pick(0, 0, 2, 16, 64, 256), MaxUs: r.Pick(100, 1000, 5000, 40000), Seed: r.U64()}
	if r.Bool(0.06) { // minutes to hours for an image
		l.Share, l.MaxUs = r.Pick(2, 16, 64), r.Pick(3000000, 60000000, 600000000)
	}
	return l
}

// MaxTags bounds the views told apart while they are being rendered.
const MaxTags = 64

// An Eye sees every evaluation of the material. The race detector does not see it.
type Eye struct {
	Active int            // evaluations under way
	N      int            // evaluations begun
	First  [MaxTags]int64 // number (Seq) of the first evaluation, per tag
	Last   [MaxTags]int64 // ... of the latest
	Count  [MaxTags]int64
}

//go:norace
func (e *Eye) enter(tag int) {
	e.Active++
	e.N++
	if tag >= 0 && tag < MaxTags {
		now := Seq()
		if e.Count[tag] == 0 {
			e.First[tag] = now
		}
		e.Last[tag] = now
		e.Count[tag]++
	}
}

//go:norace
func (e *Eye) leave(tag int) {
	e.Active--
	if tag >= 0 && tag < MaxTags {
		e.Last[tag] = Seq()
	}
}

// Get returns the notes on a tag.
//
//go:norace
func (e *Eye) Get(tag int) (first, last, count int64) {
	return e.First[tag], e.Last[tag], e.Count[tag]
}

//go:norace
func (e *Eye) Busy() int { return e.Active }

var seq int64

// Seq numbers events in the order in which they happen.
//
//go:norace
func Seq() int64 { seq++; return seq }

// ResetSeq starts counting again.
func ResetSeq() { seq = 0 }

var epoch = time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)

// Now is the simulated time in ns.
func Now() int64 { return int64(time.Since(epoch)) }

type mat struct {
	eye  *Eye
	load Load
	k    float64
}

// Tag extracts the mark of a view from its position.
func Tag(p api.Vec) int { return int(math.Round(p[0] * 8)) }

// At makes a camera position with a tag.
func At(tag int, y, z float64) api.Vec { return api.Vec{float64(tag) / 8, y, z} }

func (m *mat) Shade(ctx *tracer.Ctx, s *tracer.Scene, r *tracer.Ray, h tracer.HitCoords) colorf.Color {
	a, b := ctx.Generate2()
	p, d := r.Start, r.Dir
	c := colorf.Color{
		R: 0.5 + 0.3*math.Sin(3*p[0]+5*p[1]+7*p[2]+m.k+2*d[0]) + 0.2*a,
		G: 0.5 + 0.3*math.Sin(4*d[0]+6*d[1]+8*d[2]+m.k) + 0.2*b,
		B: 0.5 + 0.3*math.Cos(2*p[0]-3*p[1]+11*p[2]+5*d[1]-7*d[2]) + 0.2*a*b,
	}
	if m.eye != nil && ctx.CurrentRecursionDepth == 1 { // straight from the camera
		tag := Tag(p)
		m.eye.enter(tag)
		hh := simh.Hash3(m.load.Seed, math.Float64bits(a), math.Float64bits(b)^math.Float64bits(d[0]))
		if int(hh&0xff) < m.load.Share {
			time.Sleep(time.Duration(hh>>10%uint64(m.load.MaxUs)) * time.Microsecond)
		}
		m.eye.leave(tag)
	}
	return c
}

// cam is a camera at the origin.
type cam struct{}

func (cam) RayFrom(ctx *tracer.Ctx, u, v float64) *tracer.Ray {
	r := ctx.Ray()
	r.Start = api.Vec{0, 0, 0}
	r.Dir = dir(u, v)
	return r
}

func dir(u, v float64) api.Vec {
	x, y, z := u-0.5, v-0.5, -0.7
	l := math.Sqrt(x*x + y*y + z*z)
	return api.Vec{x / l, y / l, z / l}
}

// Spec is the scene to be served. Rich says what is in it besides the essentials.
func Spec(eye *Eye, load Load, rich int) api.Spec {
	s := api.Spec{Camera: cam{}, Recursion: 2}
	for _, o := range furniture(&mat{eye, load, 1}, &mat{eye, load, 2}, rich, nil) {
		s.Objects = append(s.Objects, api.Object{Interface: o})
	}
	s.Lights, s.Media, s.Recursion = light(rich), air(rich), depth(rich)
	return s
}

// The rest of the scene: a mirror (1), a lit floor (2, and 4 for a light of
// some size), fog (8, 16), only one level of recursion (32).
func furniture(ball, sky tracer.Material, rich int, all tracer.Material) (o []objects.Interface) {
	pick := func(m tracer.Material) tracer.Material {
		if all != nil {
			return all
		}
		return m
	}
	o = append(o, objects.Sphere(pick(ball), 2, api.Vec{0, 0, -3}))
	if rich&1 != 0 {
		o = append(o, objects.Sphere(pick(materials.Reflective(colorf.Color{R: 0.9, G: 0.8, B: 0.7})), 1, api.Vec{1.2, 0.3, -2.5}))
	}
	if rich&2 != 0 {
		o = append(o, objects.Rectangle(pick(materials.Matte(colorf.Color{R: 0.5, G: 0.6, B: 0.7})), 6, 6, api.Vec{0, -1, -3}))
	}
	return append(o, objects.Backdrop(sky))
}

func light(rich int) []tracer.Light {
	switch {
	case rich&2 == 0:
		return nil
	case rich&4 == 0:
		return []tracer.Light{lights.PointLight(colorf.Color{R: 30, G: 40, B: 50}, api.Vec{2, 3, -1})}
	}
	return []tracer.Light{lights.RectangleLight(colorf.Color{R: 30, G: 40, B: 50}, 1, 1, api.Vec{-1, 2.5, -2.5})}
}

func air(rich int) (m []tracer.Medium) {
	if rich&8 != 0 {
		m = append(m, media.ExpFog(0.2, colorf.Color{R: 0.3, G: 0.2, B: 0.1}, 2))
	}
	if rich&24 == 24 {
		m = append(m, media.Fog(0.1, 1, 1))
	}
	return m
}

func depth(rich int) int {
	if rich&32 != 0 {
		return 1
	}
	return 2
}

// ---- the reference ----

// refCam is where a view puts the camera, worked out from the documentation:
// pitch about x, then yaw about y, both counterclockwise, then the position.
type refCam struct{ v api.View }

func (c refCam) RayFrom(ctx *tracer.Ctx, u, v float64) *tracer.Ray {
	r := ctx.Ray()
	d := dir(u, v)
	sp, cp := math.Sin(c.v.CamPitch), math.Cos(c.v.CamPitch)
	sy, cy := math.Sin(c.v.CamYaw), math.Cos(c.v.CamYaw)
	x, y, z := d[0], cp*d[1]-sp*d[2], sp*d[1]+cp*d[2]
	x, z = cy*x+sy*z, -sy*x+cy*z
	r.Start = c.v.CamPos
	r.Dir = api.Vec{x, y, z}
	return r
}

func refFunc(v api.View, rich int) tracer.ImageFunc {
	var camera tracer.Camera = refCam{v}
	if v.DebugIsometric && v.DebugIsometricFOV != 0 {
		camera = cameras.Isometric(v.DebugIsometricDir, v.DebugIsometricFOV)
	}
	ball, sky := tracer.Material(&mat{k: 1}), tracer.Material(&mat{k: 2})
	depth, air := depth(rich), air(rich)
	var all tracer.Material
	switch v.DebugNormals {
	case 1:
		all, sky, air = test.Normal, materials.Flat(colorf.Color{}), nil
	case 2:
		all, sky, air = materials.Blend(0.3, test.Normal2, 0.7, materials.Transparent(colorf.Color{R: 1, G: 1, B: 1}, true)), materials.Flat(colorf.Color{}), nil
		depth = 20
	}
	var objs []tracer.Object
	for _, o := range furniture(ball, sky, rich, all) {
		objs = append(objs, o)
	}
	return tracer.NewSceneWithMedia(depth, air, light(rich), objs...).ImageFunc(camera)
}

// Refs renders references, in a section of the run of their own.
type Refs struct {
	t    *simh.T
	m    map[api.View]*ref
	rich int
}

type ref struct {
	s    *tracer.Sampler
	imgs []imagef.Image
}

// NewRefs is for the scene Spec makes of rich.
func NewRefs(t *simh.T, rich int) *Refs { return &Refs{t, map[api.View]*ref{}, rich} }

func (q *Refs) get(v api.View, n int) imagef.Image {
	r := q.m[v]
	if r == nil {
		r = &ref{s: tracer.NewSampler(refFunc(v, q.rich), v.Width, v.Height, v.AntiAlias)}
		q.m[v] = r
	}
	if len(r.imgs) < n {
		q.t.Build(func() {
			for len(r.imgs) < n {
				r.s.Sample(1)
				r.imgs = append(r.imgs, r.s.Image())
			}
		})
	}
	return r.imgs[n-1]
}

// Match finds the number of passes of view v that image img shows, trying up
// to max. It returns 0 and a description if there is none. If the images do not
// tell the number of passes, ambiguous is true.
func (q *Refs) Match(v api.View, img imagef.Image, max int) (n int, ambiguous bool, what string) {
	if len(img) != v.Height {
		return 0, false, fmt.Sprintf("image has %d rows, asked for %d", len(img), v.Height)
	}
	for y := range img {
		if len(img[y]) != v.Width {
			return 0, false, fmt.Sprintf("row %d has %d pixels, asked for %d", y, len(img[y]), v.Width)
		}
	}
	if v.Width == 0 || v.Height == 0 {
		return 1, true, ""
	}
	ambiguous = v.DebugNormals == 1 || v.DebugNormals == 2
	first := ""
	for n = 1; n <= max; n++ {
		d := Diff(img, q.get(v, n))
		if d == "" {
			for k := n + 1; k <= max && q.rich != 0 && !ambiguous; k++ { // parts of the scene are free of noise
				ambiguous = Diff(img, q.get(v, k)) == ""
			}
			return n, ambiguous, ""
		}
		if n == 1 {
			first = d
		}
	}
	// say which other view it looks like
	for o := range q.m {
		if o == v || o.Width != v.Width || o.Height != v.Height {
			continue
		}
		for n = 1; n <= max && n < 60; n++ {
			if Diff(img, q.get(o, n)) == "" {
				return 0, false, fmt.Sprintf("image shows another view, %+v, after %d passes", o, n)
			}
		}
	}
	return 0, false, fmt.Sprintf("image is not the view after any number of passes up to %d (against 1 pass: %s)", max, first)
}

// Diff describes the first difference of two images.
func Diff(a, b imagef.Image) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d rows instead of %d", len(a), len(b))
	}
	for y := range a {
		if len(a[y]) != len(b[y]) {
			return fmt.Sprintf("row %d has %d pixels instead of %d", y, len(a[y]), len(b[y]))
		}
		for x := range a[y] {
			if !sameC(a[y][x], b[y][x]) {
				return fmt.Sprintf("pixel (%d,%d) is %v, want %v", x, y, a[y][x], b[y][x])
			}
		}
	}
	return ""
}

func same(a, b float64) bool {
	if a == b || a != a && b != b {
		return true
	}
	return math.Abs(a-b) <= 1e-7*(1+math.Abs(a)+math.Abs(b))
}

func sameC(a, b colorf.Color) bool { return same(a.R, b.R) && same(a.G, b.G) && same(a.B, b.B) }
