//go:build go1.25

package files

import (
	"bytes"
	"errors"
	"flag"
	"fmt"
	"image"
	"image/jpeg"
	"image/png"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"simh"

	"github.com/barnex/bruteray/api"
	"github.com/barnex/bruteray/imagef"
	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/imagef/post"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/lights"
	"github.com/barnex/bruteray/tracer/materials"
	"github.com/barnex/bruteray/tracer/media"
	"github.com/barnex/bruteray/tracer/objects"
	"github.com/barnex/bruteray/tracer/test"
)

func TestMain(m *testing.M) {
	fresh := func() interface{} { return new(plan) }
	simh.Main(
		simh.Prop{ID: "C13", Gen: genC13, New: fresh, Run: runC13},
		simh.Prop{ID: "C14", Gen: genC14, New: fresh, Run: runC14},
		simh.Prop{ID: "C15", Gen: genC15, New: fresh, Run: runC15},
		simh.Prop{ID: "C16", Gen: genC16, New: func() interface{} { return new(encPlan) }, Run: runC16},
		simh.Prop{ID: "C17", Gen: genC17, New: func() interface{} { return new(meshPlan) }, Run: runC17},
		simh.Prop{ID: "C18", Gen: genC18, New: func() interface{} { return new(texPlan) }, Run: runC18},
	)
	os.Exit(3)
}

// ---- plans ----

type frame struct {
	W    int     `json:"w"`
	H    int     `json:"h"`
	Pass int     `json:"pass"`
	Tag  int     `json:"tag"`
	Gain float64 `json:"gain"`
	Omit int     `json:"omit"` // 1: width left to the default proportions, 2: height
	Rich int     `json:"rich,omitempty"`
	// bloom, in pixels
	Gauss, Airy, Star    float64
	BloomAmp, BloomFloor float64
}

type stale struct {
	Name string `json:"name"`
	Size int    `json:"size"`
}

type plan struct {
	Frames  []frame          `json:"frames"` // one, unless it is an animation
	Out     string           `json:"out"`    // -o; "": flag not given
	Abs     bool             `json:"abs"`    // give it as an absolute path
	Quality int              `json:"quality"`
	Stale   []stale          `json:"stale"` // files left by an earlier program
	Faults  []simh.DiskFault `json:"faults"`
	CPU     int              `json:"cpu"`
	LoadUs  int              `json:"loadus"`
}

func genFrame(r *simh.R, tag, maxPass int) frame {
	f := frame{W: r.Range(1, 9), H: r.Range(1, 9), Pass: r.Range(0, maxPass), Tag: tag, Gain: 1}
	switch r.Intn(8) {
	case 0:
		f.W, f.H = r.Range(10, 40), r.Range(1, 4)
	case 1:
		f.W, f.H = r.Range(1, 4), r.Range(10, 40)
	case 2:
		f.W, f.H = r.Range(16, 36), r.Range(16, 30)
	case 3:
		f.Gain = r.In(0, 3)
	case 4:
		f.Omit = r.Range(1, 2)
	}
	if r.Bool(0.3) {
		f.Rich = r.Intn(128)
	}
	return f
}

func genC13(r *simh.R) interface{} {
	f := genFrame(r, 1, 7)
	if r.Bool(0.08) { // many batches
		f.W, f.H, f.Omit, f.Pass = r.Range(1, 3), r.Range(1, 3), 0, r.Range(8, 60)
		if r.Bool(0.15) {
			f.Pass = r.Range(100, 1000)
		}
	}
	if r.Bool(0.008) { // more bytes than fit in any buffer
		f.W, f.H, f.Omit, f.Pass = r.Range(80, 200), r.Range(60, 120), 0, 1
	}
	if r.Bool(0.25) && f.W*f.H < 4000 {
		f.BloomAmp, f.BloomFloor = r.In(0.1, 1), r.In(0, 0.7)
		switch r.Intn(3) {
		case 0:
			f.Gauss = r.In(0.3, 2)
		case 1:
			f.Airy = r.In(0.3, 1.5)
		default:
			f.Star = r.In(5, 8)
		}
		if r.Bool(0.3) {
			f.Gauss = r.In(0.3, 2)
		}
	}
	p := &plan{Frames: []frame{f}, CPU: r.Range(1, 4), LoadUs: r.Pick(0, 0, 50, 2000), Abs: r.Bool(0.5), Quality: r.Pick(90, 90, 90, 75, 100, 40)}
	ext := r.PickS("png", "jpg", "jpeg")
	p.Out = r.PickS("img", "img", "out", "a.b", "x.y.z", "sub.d/pic", "sub.d/other/p") + "." + ext
	if r.Bool(0.1) {
		p.Out = ""
	}
	if r.Bool(0.01) {
		p.Out = "img.xyz"
	}
	if r.Bool(0.4) {
		for _, n := range outNames(p) {
			if r.Bool(0.7) {
				p.Stale = append(p.Stale, stale{n, r.Pick(1, 100, 5000, 50000)})
			}
		}
	}
	switch r.Intn(4) {
	case 0:
	case 1:
		p.Faults = simh.GenDiskFaults(r, r.Pick(2, 8), 1)
	default:
		p.Faults = simh.GenDiskFaults(r, r.Pick(2, 8, 20), 3)
	}
	return p
}

func genC14(r *simh.R) interface{} {
	p := genC13(r).(*plan)
	p.Faults = nil
	if r.Bool(0.3) {
		p.Faults = simh.GenDiskFaults(r, r.Pick(6, 12), 1)
	}
	for i, n := 0, r.Range(0, 6); i < n; i++ {
		p.Faults = append(p.Faults, simh.DiskFault{Kind: "tear", N: r.Intn(16), At: r.Range(1, 999)})
	}
	return p
}

func genC15(r *simh.R) interface{} {
	p := &plan{CPU: r.Range(1, 4), LoadUs: r.Pick(0, 0, 0, 50, 1000), Abs: r.Bool(0.5), Quality: r.Pick(90, 90, 90, 75, 100)}
	n := r.Range(1, 4)
	if r.Bool(0.15) {
		n = r.Range(5, 12)
	}
	same := genFrame(r, 1, 3)
	vary := r.Bool(0.5)
	if r.Bool(0.02) {
		n = r.Range(13, 110)
		same.W, same.H, same.Pass, same.Omit, vary = 1, 2, 1, 0, false
	}
	if r.Bool(0.06) { // many passes
		n = r.Range(1, 2)
		same.W, same.H, same.Pass, same.Omit, vary = r.Range(1, 4), r.Range(1, 4), r.Range(5, 60), 0, false
	}
	for i := 0; i < n; i++ {
		f := same
		if vary {
			f = genFrame(r, 1, 3)
		}
		f.Tag = i + 1
		p.Frames = append(p.Frames, f)
	}
	p.Out = r.PickS("img", "anim", "a.b", "sub.d/pic") + "." + r.PickS("png", "jpg", "jpeg", "ppm")
	if r.Bool(0.1) {
		p.Out = ""
	}
	if r.Bool(0.3) {
		d := noExt(orDefault(p.Out)) + "-frames/"
		p.Stale = append(p.Stale, stale{d + "last.jpg", r.Pick(1, 100, 50000)})
		for i := 0; i < n; i++ {
			if r.Bool(0.5) {
				p.Stale = append(p.Stale, stale{d + fmt.Sprintf("%05d.jpg", i), r.Pick(1, 100, 50000)})
			}
		}
	}
	if r.Bool(0.7) {
		p.Faults = simh.GenDiskFaults(r, r.Pick(2, 2*n, 2*n), 2)
	}
	return p
}

func orDefault(s string) string {
	if s == "" {
		return "out.jpeg"
	}
	return s
}

func noExt(s string) string { return s[:len(s)-len(filepath.Ext(s))] }

// outNames are the two files a render leaves behind.
func outNames(p *plan) []string {
	o := orDefault(p.Out)
	return []string{o, noExt(o) + ".ppm"}
}

// ---- the scene ----

type noise struct {
	tag  float64
	gain float64
}

func (m *noise) Shade(ctx *tracer.Ctx, s *tracer.Scene, r *tracer.Ray, h tracer.HitCoords) colorf.Color {
	a, b := ctx.Generate2()
	d := r.Dir
	w := func(x float64) float64 { return 0.5 + 0.5*math.Sin(x) }
	return colorf.Color{
		R: m.gain * (0.4*w(5*d[0]+3*d[1]+m.tag) + 0.6*a),
		G: m.gain * (0.4*w(7*d[1]-2*d[0]+2*m.tag) + 0.6*b),
		B: m.gain * (0.4*w(4*d[0]+6*d[1]+3*m.tag) + 0.6*a*b),
	}
}

// cam counts the samples, some of which take time.
type cam struct {
	load int
	n    *int
}

func (m cam) RayFrom(ctx *tracer.Ctx, u, v float64) *tracer.Ray {
	if m.n != nil {
		*m.n++
		if h := simh.Hash3(1, math.Float64bits(u), math.Float64bits(v)); m.load > 0 && h&15 == 0 {
			time.Sleep(time.Duration(h>>8%uint64(m.load)) * time.Microsecond)
		}
	}
	r := ctx.Ray()
	x, y, z := u-0.5, v-0.5, -0.7
	l := math.Sqrt(x*x + y*y + z*z)
	r.Dir = api.Vec{x / l, y / l, z / l}
	return r
}

// objects are the essentials and, as Rich says, a mirror (1) and a floor (2).
func (f frame) objects(debug bool) []objects.Interface {
	var normal tracer.Material
	pick := func(m tracer.Material) tracer.Material {
		if debug {
			return normal
		}
		return m
	}
	sky := tracer.Material(&noise{float64(f.Tag) + 50, f.Gain})
	if debug {
		normal, sky = test.Normal, materials.Flat(colorf.Color{})
	}
	o := []objects.Interface{objects.Sphere(pick(&noise{float64(f.Tag), f.Gain}), 2, api.Vec{0, 0, -3})}
	if f.Rich&1 != 0 {
		o = append(o, objects.Sphere(pick(materials.Reflective(colorf.Color{R: 0.9, G: 0.8, B: 0.7})), 1, api.Vec{1.2, 0.3, -2.5}))
	}
	if f.Rich&2 != 0 {
		o = append(o, objects.Rectangle(pick(materials.Matte(colorf.Color{R: 0.5, G: 0.6, B: 0.7})), 6, 6, api.Vec{0, -1, -3}))
	}
	return append(o, objects.Backdrop(sky))
}

// lights shine on the floor; one has a size (4).
func (f frame) lights() []tracer.Light {
	switch {
	case f.Rich&2 == 0:
		return nil
	case f.Rich&4 == 0:
		return []tracer.Light{lights.PointLight(colorf.Color{R: 30, G: 40, B: 50}, api.Vec{2, 3, -1})}
	}
	return []tracer.Light{lights.RectangleLight(colorf.Color{R: 30, G: 40, B: 50}, 1, 1, api.Vec{-1, 2.5, -2.5})}
}

// media are fogs (8, 16).
func (f frame) media() (m []tracer.Medium) {
	if f.Rich&8 != 0 {
		m = append(m, media.ExpFog(0.2, colorf.Color{R: 0.3, G: 0.2, B: 0.1}, 2))
	}
	if f.Rich&24 == 24 {
		m = append(m, media.Fog(0.1, 1, 1))
	}
	return m
}

// depth is 2 at times (32).
func (f frame) depth() int {
	if f.Rich&32 != 0 {
		return 2
	}
	return 1
}

// debug says whether normals are shown instead (64, seldom).
func (f frame) debug() bool { return f.Rich&0x4c == 0x4c }

func (f frame) spec(n *int, load int) api.Spec {
	s := api.Spec{
		Lights:    f.lights(),
		Media:     f.media(),
		Camera:    cam{load, n},
		Recursion: f.depth(),
		Width:     f.W,
		Height:    f.H,
		NumPass:   f.Pass,
	}
	for _, o := range f.objects(false) {
		s.Objects = append(s.Objects, api.Object{Interface: o})
	}
	if f.debug() {
		s.DebugNormals = 1
	}
	switch f.Omit {
	case 1:
		s.Width = 0
	case 2:
		s.Height = 0
	}
	ps := 1 / float64(f.W)
	s.PostProcess = post.Params{
		Gaussian: post.BloomParams{Radius: f.Gauss * ps, Amplitude: f.BloomAmp, Threshold: f.BloomFloor},
		Airy:     post.BloomParams{Radius: f.Airy * ps, Amplitude: f.BloomAmp, Threshold: f.BloomFloor},
		Star:     post.BloomParams{Radius: f.Star * ps, Amplitude: f.BloomAmp, Threshold: f.BloomFloor},
	}
	return s
}

func (f frame) passes() int {
	if f.Pass == 0 {
		return 1
	}
	return f.Pass
}

// ---- the reference: the image after n passes ----

type ref struct {
	f    frame
	s    *tracer.Sampler
	imgs []imagef.Image
	png  [][]byte // raw pixels
	jpg  [][]byte
	q    int
}

func newRef(f frame, aa bool, q int) *ref {
	air := f.media()
	if f.debug() {
		air = nil
	}
	var objs []tracer.Object
	for _, o := range f.objects(f.debug()) {
		objs = append(objs, o)
	}
	sc := tracer.NewSceneWithMedia(f.depth(), air, f.lights(), objs...)
	return &ref{f: f, s: tracer.NewSampler(sc.ImageFunc(cam{}), f.W, f.H, aa), q: q}
}

func (r *ref) upTo(t *simh.T, n int) {
	if len(r.imgs) >= n {
		return
	}
	t.Build(func() {
		for len(r.imgs) < n {
			r.s.Sample(1)
			r.imgs = append(r.imgs, r.f.bloom(r.s.Image()))
		}
	})
	for len(r.png) < n {
		img := r.imgs[len(r.png)]
		m := image.NewRGBA(image.Rect(0, 0, r.f.W, r.f.H))
		for y := range img {
			for x, c := range img[y] {
				for k, v := range [4]float64{c.R, c.G, c.B, 1} {
					m.Pix[y*m.Stride+4*x+k] = byte(int(srgb(v)*0xffff) >> 8)
				}
			}
		}
		r.png = append(r.png, pixels(m))
		var b bytes.Buffer
		if err := jpeg.Encode(&b, m, &jpeg.Options{Quality: r.q}); err != nil {
			panic(err)
		}
		dec, err := jpeg.Decode(&b)
		if err != nil {
			panic(err)
		}
		r.jpg = append(r.jpg, pixels(dec))
	}
}

// srgb is the curve that the images are stored with.
func srgb(c float64) float64 {
	c = math.Min(1, math.Max(0, c))
	if c <= 0.0031308 {
		return 12.92 * c
	}
	return math.Min(1, 1.055*math.Pow(c, 1/2.4)-0.05)
}

func (f frame) bloom(img imagef.Image) imagef.Image {
	add := func(n int, kern func(u, v int) [3]float64) {
		var sum float64
		for v := -n; v <= n; v++ {
			for u := -n; u <= n; u++ {
				k := kern(u, v)
				sum += (k[0] + k[1] + k[2]) / 3
			}
		}
		out := imagef.MakeImage(f.W, f.H)
		for y := range img {
			copy(out[y], img[y])
		}
		for y := range img {
			for x, c := range img[y] {
				if math.Max(c.R, math.Max(c.G, c.B)) < f.BloomFloor {
					continue
				}
				ex := [3]float64{math.Max(0, c.R-f.BloomFloor), math.Max(0, c.G-f.BloomFloor), math.Max(0, c.B-f.BloomFloor)}
				for v := -n; v <= n; v++ {
					for u := -n; u <= n; u++ {
						if y+v < 0 || y+v >= f.H || x+u < 0 || x+u >= f.W {
							continue
						}
						k := kern(u, v)
						o := &out[y+v][x+u]
						o.R += ex[0] * k[0] * f.BloomAmp / sum
						o.G += ex[1] * k[1] * f.BloomAmp / sum
						o.B += ex[2] * k[2] * f.BloomAmp / sum
					}
				}
			}
		}
		img = out
	}
	if w := f.Gauss; w != 0 {
		add(int(5*w)+1, func(u, v int) [3]float64 {
			c := math.Exp(-float64(u*u+v*v) / (w * w))
			return [3]float64{c, c, c}
		})
	}
	if w := f.Airy; w != 0 {
		air := func(r float64) float64 { a := 2 * math.J1(r) / r; return a * a }
		add(int(8*w)+1, func(u, v int) [3]float64 {
			r := math.Sqrt(float64(u*u+v*v)) / w
			if r == 0 {
				return [3]float64{1, 1, 1}
			}
			return [3]float64{air(500. / 700. * r), air(r), air(500. / 450. * r)}
		})
	}
	if w := f.Star; w != 0 {
		n := int(w + 1e-9)
		add(n, func(u, v int) [3]float64 {
			a, b := u, v
			if a < 0 {
				a = -a
			}
			if b < 0 {
				b = -b
			}
			i := a
			if b > a {
				i = b
			}
			if i < 2 || i >= n-1 || a != 0 && b != 0 && a != b {
				return [3]float64{}
			}
			c := float64(n-i) / float64(n)
			c *= c
			if a == b {
				c *= 1 / math.Sqrt2
			}
			return [3]float64{c, c, c}
		})
	}
	return img
}

func pixels(m image.Image) []byte {
	b := m.Bounds()
	out := make([]byte, 0, 3*b.Dx()*b.Dy())
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			r, g, bl, _ := m.At(x, y).RGBA()
			out = append(out, byte(r>>8), byte(g>>8), byte(bl>>8))
		}
	}
	return out
}

func maxDiff(a, b []byte) int {
	if len(a) != len(b) {
		return 1000
	}
	m := 0
	for i := range a {
		d := int(a[i]) - int(b[i])
		if d < 0 {
			d = -d
		}
		if d > m {
			m = d
		}
	}
	return m
}

// match says which numbers of passes the file can show; lo=0: none.
func (r *ref) match(t *simh.T, name string, data []byte, max int) (lo, hi int, what string) {
	if data == nil {
		return 0, 0, "missing"
	}
	r.upTo(t, max)
	score := make([]int, max+1)
	worst := 0
	switch filepath.Ext(name) {
	case ".ppm":
		w, h, v, err := parsePPM(data)
		if err != nil {
			return 0, 0, err.Error()
		}
		if w != r.f.W || h != r.f.H {
			return 0, 0, fmt.Sprintf("is %dx%d, want %dx%d", w, h, r.f.W, r.f.H)
		}
		worst = 2
		for n := 1; n <= max; n++ {
			score[n] = ppmDiff(v, r.imgs[n-1])
		}
	default:
		var m image.Image
		var err error
		if filepath.Ext(name) == ".png" {
			m, err = png.Decode(bytes.NewReader(data))
		} else {
			m, err = jpeg.Decode(bytes.NewReader(data))
		}
		if err != nil {
			return 0, 0, err.Error()
		}
		if n := imageEnd(data); n >= 0 && n < len(data) {
			return 0, 0, fmt.Sprintf("has %d bytes of something else after the image", len(data)-n)
		}
		if m.Bounds() != image.Rect(0, 0, r.f.W, r.f.H) {
			return 0, 0, fmt.Sprintf("is %v, want %dx%d", m.Bounds(), r.f.W, r.f.H)
		}
		px := pixels(m)
		worst = 1
		for n := 1; n <= max; n++ {
			if filepath.Ext(name) == ".png" {
				score[n] = maxDiff(px, r.png[n-1])
			} else {
				worst = 8
				score[n] = maxDiff(px, r.jpg[n-1])
			}
		}
	}
	best := worst + 1
	for n := 1; n <= max; n++ {
		if score[n] < best {
			best = score[n]
		}
	}
	if best > worst {
		return 0, 0, fmt.Sprintf("does not show the image after any number of passes up to %d (off by %v)", max, score[1:])
	}
	slack := 0
	if worst > 1 {
		slack = 1
	}
	for n := 1; n <= max; n++ {
		if score[n] <= best+slack {
			if lo == 0 {
				lo = n
			}
			hi = n
		}
	}
	return lo, hi, ""
}

// imageEnd is where a PNG or JPEG image in b ends; -1: unknown.
func imageEnd(b []byte) int {
	if bytes.HasPrefix(b, []byte("\x89PNG\r\n\x1a\n")) {
		for i := 8; i+12 <= len(b); {
			n := int(b[i])<<24 | int(b[i+1])<<16 | int(b[i+2])<<8 | int(b[i+3])
			name := string(b[i+4 : i+8])
			i += 12 + n
			if name == "IEND" {
				return i
			}
		}
		return -1
	}
	if !bytes.HasPrefix(b, []byte("\xff\xd8")) {
		return -1
	}
	for i := 2; i+4 <= len(b); {
		if b[i] != 0xff {
			return -1
		}
		m := b[i+1]
		i += 2 + (int(b[i+2])<<8 | int(b[i+3]))
		if m == 0xda {
			if k := bytes.Index(b[i:], []byte("\xff\xd9")); k >= 0 {
				return i + k + 2
			}
			return -1
		}
	}
	return -1
}

func ppmDiff(v []int, img imagef.Image) int {
	m, i := 0, 0
	for y := range img {
		for _, c := range img[y] {
			for _, x := range [3]float64{c.R, c.G, c.B} {
				d := v[i] - int(srgb(x)*0xffff)
				if d < 0 {
					d = -d
				}
				if d > m {
					m = d
				}
				i++
			}
		}
	}
	return m
}

// parsePPM is a strict reader of P3 and P6 files with 16 bit values.
func parsePPM(b []byte) (w, h int, v []int, err error) {
	pos := 0
	space := func(c byte) bool { return c == ' ' || c == '\n' || c == '\t' || c == '\r' }
	tok := func() string {
		for pos < len(b) && space(b[pos]) {
			pos++
		}
		s := pos
		for pos < len(b) && !space(b[pos]) {
			pos++
		}
		return string(b[s:pos])
	}
	num := func() int {
		s := tok()
		n, e := strconv.Atoi(s)
		if e != nil || n < 0 || n > 65535 {
			if err == nil {
				err = fmt.Errorf("bad number %q at byte %d of %d", s, pos, len(b))
			}
			return 0
		}
		return n
	}
	magic := tok()
	if magic != "P3" && magic != "P6" {
		return 0, 0, nil, fmt.Errorf("bad magic %q", magic)
	}
	w, h = num(), num()
	if max := num(); max != 65535 && err == nil {
		err = fmt.Errorf("maximum is %d", max)
	}
	if err != nil {
		return
	}
	if magic == "P6" {
		pos++ // exactly one separator
		if len(b)-pos != 6*w*h {
			return w, h, nil, fmt.Errorf("%d bytes of pixels for %dx%d", len(b)-pos, w, h)
		}
		for i := 0; i < 3*w*h; i++ {
			v = append(v, int(b[pos+2*i])<<8|int(b[pos+2*i+1]))
		}
		return
	}
	for i := 0; i < 3*w*h; i++ {
		v = append(v, num())
		if err != nil {
			return
		}
	}
	if len(b) > 0 && w*h > 0 && !space(b[len(b)-1]) {
		return w, h, nil, errors.New("last number is not ended")
	}
	if s := tok(); s != "" {
		err = fmt.Errorf("rubbish at the end: %.20q", s)
	}
	return
}

// ---- running a program ----

type snap struct {
	op    string
	files map[string]string // name relative to the scratch directory
}

type outcome struct {
	code  int
	calls []int // frames asked for
	evals int
	disk  *simh.Disk
	snaps []snap
	left  bool // never ended
}

var runs int

// program runs prog in a fresh directory, with the disk between.
func program(t *simh.T, p *plan, prog func(calls *[]int, evals *int)) (out outcome) {
	runs++
	dir := filepath.Join(simh.Scratch, fmt.Sprintf("d%d", runs))
	must(os.MkdirAll(dir, 0777))
	defer os.RemoveAll(dir)
	wd, err := os.Getwd()
	must(err)
	must(os.Chdir(dir))
	defer os.Chdir(wd)
	if o := filepath.Dir(orDefault(p.Out)); o != "." {
		must(os.MkdirAll(o, 0777))
	}
	for _, s := range p.Stale {
		must(os.MkdirAll(filepath.Dir(s.Name), 0777))
		must(os.WriteFile(s.Name, bytes.Repeat([]byte("stale 1 2 3 \n"), 1+s.Size/13), 0666))
	}
	os.Args = []string{"program"}
	flag.CommandLine.Lookup("o").Value.Set(flag.CommandLine.Lookup("o").DefValue)
	if p.Out != "" {
		o := p.Out
		if p.Abs {
			o = filepath.Join(dir, o)
		}
		os.Args = append(os.Args, "-o", o)
	}
	api.JPEGQuality = p.Quality
	if p.Quality < 1 || p.Quality > 100 {
		api.JPEGQuality = 90
	}

	d := simh.InstallDisk(t, dir, p.Faults)
	out.disk = d
	last := ""
	take := func(op string) {
		s := snap{op, map[string]string{}}
		sum := ""
		filepath.Walk(dir, func(path string, fi os.FileInfo, err error) error {
			if err == nil && fi.Mode().IsRegular() {
				rel, _ := filepath.Rel(dir, path)
				c := string(simh.Slurp(path))
				s.files[rel] = c
				sum += fmt.Sprintf("%s %d %x;", rel, len(c), simh.Hash(hashBytes(c)))
			}
			return nil
		})
		if sum != last {
			last = sum
			out.snaps = append(out.snaps, s)
		}
	}
	d.After = func(op, path string, err error) {
		if op != "read" && op != "open" {
			save := os.Sim
			os.Sim = nil
			take(op + " " + filepath.Base(path))
			os.Sim = save
		}
	}
	_, dead := t.Sim(p.CPU, true, func() {
		done := make(chan int, 4)
		d.OnExit = func(code int) { done <- code }
		go func() {
			defer func() {
				if e := recover(); e != nil {
					t.Trace("panic: %v", e)
					d.Kill()
					done <- 2
				}
			}()
			prog(&out.calls, &out.evals)
			d.Kill()
			done <- 0
		}()
		out.code = <-done
	})
	os.Sim = nil
	out.left = dead
	take("end")
	if len(out.snaps) == 0 {
		out.snaps = append(out.snaps, snap{"end", map[string]string{}})
	}
	t.CountN("disk-ops", d.Ops)
	t.CountN("crash-points", len(out.snaps))
	return out
}

func hashBytes(s string) uint64 {
	h := uint64(len(s))
	for i := 0; i < len(s); i++ {
		h = h*1099511628211 ^ uint64(s[i])
	}
	return h
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func render(t *simh.T, p *plan) outcome {
	return program(t, p, func(calls *[]int, evals *int) { api.Render(p.Frames[0].spec(evals, p.LoadUs)) })
}

func okPlan(p *plan) bool {
	if len(p.Frames) == 0 {
		return false
	}
	for i := range p.Frames {
		f := &p.Frames[i]
		switch f.Omit { // 960 by 540 are the default proportions
		case 1:
			f.W = f.H * 960 / 540
		case 2:
			f.H = f.W * 540 / 960
		}
		if f.W < 1 || f.H < 1 || f.Pass < 0 {
			return false
		}
		if f.Star != 0 && f.Star < 4.5 || f.Gauss < 0 || f.Airy < 0 {
			return false
		}
	}
	switch filepath.Ext(orDefault(p.Out)) {
	case ".png", ".jpg", ".jpeg", ".ppm":
	default:
		return false
	}
	return p.CPU > 0 && len(noExt(filepath.Base(orDefault(p.Out)))) > 0
}

// maxPasses is how many passes a program can have done.
func (o outcome) maxPasses(f frame) int { return o.evals/(f.W*f.H) + 1 }

func runC13(t *simh.T, pl interface{}) {
	p := pl.(*plan)
	unknown := filepath.Ext(orDefault(p.Out)) == ".xyz"
	if !unknown && !okPlan(p) || len(p.Frames) != 1 || filepath.Ext(p.Out) == ".ppm" {
		return
	}
	o := render(t, p)
	if o.left {
		t.Fail("hang", "the program neither ended nor can go on")
		return
	}
	if unknown {
		t.Count("probe:unknown image format")
		if o.code == 0 {
			t.Fail("silent", "exit status 0 although %s cannot be written", p.Out)
		}
		return
	}
	if o.disk.Hit > 0 {
		if o.code == 0 {
			t.Fail("silent", "exit status 0 although: %s", strings.Join(o.disk.Hits, "; "))
		}
		return
	}
	if o.code != 0 {
		t.Fail("failed", "exit status %d without any fault", o.code)
		return
	}
	f := p.Frames[0]
	r := newRef(f, true, api.JPEGQuality)
	end := o.snaps[len(o.snaps)-1]
	total := o.evals / (f.W * f.H)
	if o.evals%(f.W*f.H) != 0 {
		t.Fail("passes", "%d samples of %d pixels", o.evals, f.W*f.H)
		return
	}
	if total < f.passes() {
		t.Fail("passes", "%d passes done, %d asked for", total, f.passes())
	}
	for _, n := range outNames(p) {
		lo, hi, what := r.match(t, n, file(end, n), total)
		if lo == 0 {
			t.Fail("incomplete", "exit status 0, but %s: %s", n, what)
		} else if total < lo || total > hi {
			t.Fail("outdated", "exit status 0, but %s shows %d..%d passes and %d were done", n, lo, hi, total)
		}
	}
	t.Count("renders-checked")
}

func file(s snap, name string) []byte {
	c, ok := s.files[name]
	if !ok {
		return nil
	}
	return []byte(c)
}

func runC14(t *simh.T, pl interface{}) {
	p := pl.(*plan)
	if !okPlan(p) || len(p.Frames) != 1 || filepath.Ext(p.Out) == ".ppm" {
		return
	}
	o := render(t, p)
	if o.left {
		t.Fail("hang", "the program neither ended nor can go on")
		return
	}
	f := p.Frames[0]
	r := newRef(f, true, api.JPEGQuality)
	max := o.maxPasses(f)
	type res struct {
		lo, hi int
		what   string
	}
	seen := map[string]res{}
	names := outNames(p)
	saved := false
	newest, before := 0, ""
	for _, s := range o.snaps {
		best, bestLo := 0, 0
		var whats []string
		for _, n := range names {
			key := n + ":" + s.files[n]
			x, ok := seen[key]
			if !ok {
				x.lo, x.hi, x.what = r.match(t, n, file(s, n), max)
				seen[key] = x
			}
			if x.hi > best {
				best = x.hi
			}
			if x.lo > bestLo {
				bestLo = x.lo
			}
			if x.lo == 0 {
				whats = append(whats, n+": "+x.what)
			} else {
				whats = append(whats, fmt.Sprintf("%s: %d..%d passes", n, x.lo, x.hi))
			}
		}
		if best > 0 {
			saved = true
		}
		if saved && best == 0 {
			t.Fail("lost", "killed after %q (before: %s), no complete image is left: %s", s.op, before, strings.Join(whats, "; "))
			return
		}
		if saved && best < newest {
			t.Fail("older", "killed after %q (before: %s), the newest image shows %d passes, it was %d before: %s", s.op, before, best, newest, strings.Join(whats, "; "))
			return
		}
		if bestLo > newest {
			newest = bestLo
		}
		before = s.op
	}
	if saved {
		t.Count("kills-checked")
	}
}

func runC15(t *simh.T, pl interface{}) {
	p := pl.(*plan)
	if !okPlan(p) {
		return
	}
	o := program(t, p, func(calls *[]int, evals *int) {
		api.Animate(len(p.Frames), func(i int) api.Spec {
			*calls = append(*calls, i)
			if i < 0 || i >= len(p.Frames) {
				t.Fail("order", "asked for frame %d of %d", i, len(p.Frames))
				i = 0
			}
			s := p.Frames[i].spec(evals, p.LoadUs)
			s.PostProcess = post.Params{}
			return s
		})
	})
	if o.left {
		t.Fail("hang", "the program neither ended nor can go on")
		return
	}
	for i, c := range o.calls {
		if c != i {
			t.Fail("order", "frames asked for in the order %v", o.calls)
			return
		}
	}
	if o.disk.Hit > 0 && o.code == 0 {
		t.Fail("silent", "exit status 0 although: %s", strings.Join(o.disk.Hits, "; "))
		return
	}
	if len(o.disk.Hits) == 0 && o.code != 0 {
		t.Fail("failed", "exit status %d without any fault", o.code)
		return
	}
	dir := noExt(orDefault(p.Out)) + "-frames/"
	stale := map[string]string{}
	for _, s := range p.Stale {
		stale[filepath.Clean(s.Name)] = ""
	}
	refs := make([]*ref, len(p.Frames))
	seen := map[string]string{}
	look := func(s snap, name string, i int) string { // "": good
		key := fmt.Sprint(i, s.files[name])
		w, ok := seen[key]
		if ok {
			return w
		}
		f := p.Frames[i]
		f.Gauss, f.Airy, f.Star = 0, 0, 0
		if refs[i] == nil {
			refs[i] = newRef(f, f.passes() > 1, api.JPEGQuality)
		}
		max := f.passes() + 1
		lo, hi, what := refs[i].match(t, name, file(s, name), max)
		if lo != 0 && (f.passes() < lo || f.passes() > hi) {
			what = fmt.Sprintf("shows %d..%d passes instead of %d", lo, hi, f.passes())
		}
		if what != "" {
			for j := range p.Frames {
				if j != i && refs[j] != nil {
					if l, _, _ := refs[j].match(t, name, file(s, name), max); l != 0 {
						what += fmt.Sprintf(" (it shows frame %d)", j)
					}
				}
			}
		}
		seen[key] = what
		return what
	}
	begun := -1 // newest frame whose file has been touched
	first := map[string]string{}
	for k, s := range o.snaps {
		for i := range p.Frames {
			n := filepath.Clean(dir + fmt.Sprintf("%05d.jpg", i))
			c, ok := s.files[n]
			if !ok {
				continue
			}
			if _, st := stale[n]; st {
				if k == 0 || first[n] == "" {
					if strings.HasPrefix(c, "stale 1 2 3") {
						continue
					}
				}
				first[n] = "touched"
			}
			if i > begun {
				begun = i
			}
		}
		for i := 0; i < begun; i++ {
			n := filepath.Clean(dir + fmt.Sprintf("%05d.jpg", i))
			if w := look(s, n, i); w != "" {
				t.Fail("lost", "killed after %q, while working on frame %d, frame %d: %s", s.op, begun, i, w)
				return
			}
		}
	}
	if o.code != 0 {
		return
	}
	end := o.snaps[len(o.snaps)-1]
	if len(o.calls) != len(p.Frames) {
		t.Fail("order", "%d frames asked for, %d in the animation", len(o.calls), len(p.Frames))
	}
	want := map[string]bool{}
	for i := range p.Frames {
		n := filepath.Clean(dir + fmt.Sprintf("%05d.jpg", i))
		want[n] = true
		if w := look(end, n, i); w != "" {
			t.Fail("incomplete", "exit status 0, but frame %d: %s", i, w)
		}
	}
	n := filepath.Clean(dir + "last.jpg")
	want[n] = true
	if w := look(end, n, len(p.Frames)-1); w != "" {
		t.Fail("last", "exit status 0, but last.jpg: %s", w)
	}
	var extra []string
	for n := range end.files {
		if !want[n] && strings.HasPrefix(n, filepath.Clean(dir)+"/") {
			extra = append(extra, n)
		}
	}
	sort.Strings(extra)
	if len(extra) > 0 {
		t.Fail("extra", "exit status 0, with %v beside the frames", extra)
	}
	t.Count("animations-checked")
}
