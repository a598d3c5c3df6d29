//go:build go1.25

// Package viewer drives the whole viewer program: a simulated screen with a
// scripted user, and servers, real or not, behind a simulated network. It sees
// what the program sends and receives, and what it puts on the screen.
package viewer

import (
	"bufio"
	"bytes"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"image"
	"image/color"
	"image/draw"
	"io"
	"math"
	"net"
	"net/http"
	"os"
	"runtime"
	"strings"
	"sync"
	"time"

	"simh"

	"golang.org/x/exp/shiny/driver"
	"golang.org/x/exp/shiny/screen"
	"golang.org/x/image/math/f64"
	"golang.org/x/mobile/event/key"
	"golang.org/x/mobile/event/lifecycle"
	"golang.org/x/mobile/event/mouse"
	"golang.org/x/mobile/event/paint"
	"golang.org/x/mobile/event/size"

	"github.com/barnex/bruteray/api"
	"github.com/barnex/bruteray/imagef"
	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/objects"
	"github.com/barnex/bruteray/zzsim/srv"
)

const addr = "sim:7"

var program func()

// Main serves the request of /verif/check.
func Main(main func()) {
	program = main
	os.Args = []string{"bruteray-view", "-addr", addr}
	fresh := func() interface{} { return new(plan) }
	simh.Main(
		simh.Prop{ID: "C10", Gen: genC10, New: fresh, Run: runC10},
		simh.Prop{ID: "C11", Gen: genC11, New: fresh, Run: runC11},
		simh.Prop{ID: "C12", Gen: genC12, New: fresh, Run: runC12},
	)
	os.Exit(3)
}

// ---- plans ----

// An ev is something the user, or the window system, does.
type ev struct {
	Kind string `json:"kind"` // key press release move wheel size paint focus wait
	Code int    `json:"code"` // of a key, a button, a wheel
	Mod  bool   `json:"mod"`  // shift
	Up   bool   `json:"up"`   // the key is released
	X    int    `json:"x"`
	Y    int    `json:"y"`
	Us   int    `json:"us"`   // pause before it
	Sync string `json:"sync"` // or, before the pause, wait for: frame, sent, answer
}

// An epoch is a time in which the server behaves in one way.
type epoch struct {
	Kind string `json:"kind"` // real, stub, down, status, garbage, cut, empty
	Ms   int    `json:"ms"`   // length
	Arg  int    `json:"arg"`
	Lazy int    `json:"lazy"` // stub: answers take up to this many us
}

type plan struct {
	Evs     []ev            `json:"evs"`
	Epochs  []epoch         `json:"epochs"`
	Load    srv.Load        `json:"load"`
	LatUs   int             `json:"latus"`
	NetSeed uint64          `json:"netseed"`
	Faults  []simh.NetFault `json:"faults"`
	CPU     int             `json:"cpu"`
	Close   bool            `json:"close"`          // the window is closed right after the last event
	After   []ev            `json:"after"`          // events after that
	Long    int             `json:"long,omitempty"` // refinements waited for in the end
}

var keys = []key.Code{key.CodeLeftArrow, key.CodeS, key.CodeRightArrow, key.CodeF, key.CodeUpArrow, key.CodeE, key.CodeDownArrow, key.CodeD, key.CodeSpacebar,
	key.CodeX, key.CodeY, key.CodeZ, key.CodeN, key.CodeP, key.CodeQ}

func genEv(r *simh.R) ev {
	e := ev{Mod: r.Bool(0.25)}
	switch r.Intn(10) {
	case 0, 1, 2:
		e.Kind, e.Code = "key", r.Intn(len(keys)-2)
		e.Up = r.Bool(0.15)
	case 3:
		e.Kind, e.Code = "key", r.Range(9, len(keys)-1)
		e.Up = r.Bool(0.15)
	case 4:
		e.Kind, e.Code = "wheel", r.Intn(4)
	case 5:
		e.Kind, e.X, e.Y = "size", r.Range(8, 26), r.Range(8, 26)
		switch r.Intn(30) {
		case 0, 1, 2:
			e.X, e.Y = r.Range(1, 40), r.Range(1, 40)
		case 3:
			e.X, e.Y = genLarge(r)
		}
	case 6:
		e.Kind = r.PickS("paint", "focus")
	default:
		e.Kind, e.X, e.Y = r.PickS("move", "move", "press", "release"), r.Intn(600), r.Intn(600)
		e.Code = r.Pick(1, 1, 1, 1, 2, 3)
	}
	switch r.Intn(6) {
	case 0:
	case 1:
		e.Us = r.Intn(300)
	case 2:
		e.Us = r.Intn(20000)
	case 3:
		e.Us = r.Intn(300000)
	default:
		e.Sync = r.PickS("frame", "sent", "answer", "idle")
		if r.Bool(0.5) {
			e.Us = r.Intn(3000)
		}
	}
	return e
}

func genLarge(r *simh.R) (int, int) {
	switch r.Intn(3) {
	case 0:
		return r.Range(100, 2000), r.Range(1, 4)
	case 1:
		return r.Range(1, 4), r.Range(100, 1200)
	}
	return r.Range(40, 90), r.Range(40, 80)
}

func genEvs(r *simh.R, n int) (l []ev) {
	if r.Bool(0.8) {
		l = append(l, ev{Kind: "focus"}, ev{Kind: "size", X: r.Range(8, 26), Y: r.Range(8, 26)}, ev{Kind: "paint"})
		if r.Bool(0.03) {
			l[1].X, l[1].Y = genLarge(r)
		}
	}
	for i := 0; i < n; i++ {
		if r.Bool(0.12) { // a drag
			x, y := r.Intn(600), r.Intn(600)
			l = append(l, ev{Kind: "press", Code: 1, X: x, Y: y, Us: r.Intn(200000)})
			for k := r.Intn(6); k > 0; k-- {
				x, y = x+r.Range(-80, 80), y+r.Range(-300, 300)
				l = append(l, ev{Kind: "move", X: x, Y: y, Us: r.Intn(60000)})
			}
			l = append(l, ev{Kind: "release", Code: 1, X: x, Y: y, Us: r.Intn(60000)})
			continue
		}
		if r.Bool(0.02) { // more at once than the queue holds
			for k := r.Range(60, 140); k > 0; k-- {
				e := genEv(r)
				e.Us, e.Sync = 0, ""
				l = append(l, e)
			}
			continue
		}
		l = append(l, genEv(r))
	}
	return l
}

func genBase(r *simh.R, n int) *plan {
	p := &plan{Load: srv.GenLoad(r), LatUs: r.Pick(100, 2000, 20000, 60000), NetSeed: r.U64(), CPU: r.Range(1, 3)}
	// rendering takes time, or there would be no end of bakes
	switch r.Intn(4) {
	case 0:
		p.Load.Share, p.Load.MaxUs = 4, 20000
	case 1:
		p.Load.Share, p.Load.MaxUs = 16, 5000
	case 2:
		p.Load.Share, p.Load.MaxUs = 64, 1500
	case 3:
		p.Load.Share, p.Load.MaxUs = 256, 400
	}
	if r.Bool(0.03) { // a long session
		n = r.Range(40, 150)
	}
	p.Evs = genEvs(r, n)
	return p
}

func good(r *simh.R) epoch {
	if r.Bool(0.5) {
		return epoch{Kind: "real"}
	}
	return epoch{Kind: "stub", Lazy: r.Pick(0, 1000, 30000, 400000, 400000, 6000000), Arg: r.Intn(8)}
}

// last makes the server that is there when the faults have ended.
func last(r *simh.R) epoch {
	e := good(r)
	if e.Kind == "stub" && r.Bool(0.06) { // minutes for an answer
		e.Lazy = r.Pick(90000000, 90000000, 400000000)
	}
	return e
}

func bad(r *simh.R) epoch {
	e := epoch{Kind: r.PickS("down", "down", "status", "garbage", "garbage", "cut", "mixed"), Ms: r.Pick(50, 300, 1200, 3000), Arg: r.Intn(1000), Lazy: r.Pick(0, 1000, 30000)}
	return e
}

// bad says whether a server never sends an image.
func (e epoch) bad() bool { return e.Kind == "down" || e.Kind == "status" || e.Kind == "garbage" }

func genC10(r *simh.R) interface{} {
	p := genBase(r, r.Range(3, 25))
	for i := r.Pick(0, 0, 0, 1, 2); i > 0; i-- {
		e := good(r)
		if r.Bool(0.3) {
			e = bad(r)
		}
		e.Ms = r.Pick(100, 400, 1500)
		p.Epochs = append(p.Epochs, e)
	}
	p.Epochs = append(p.Epochs, last(r))
	if r.Bool(0.3) {
		p.Faults = simh.GenNetFaults(r, 20, 4, 3000)
	}
	return p
}

func genC11(r *simh.R) interface{} {
	p := genBase(r, r.Range(2, 18))
	for i := r.Pick(0, 0, 1, 1, 2, 3); i > 0; i-- {
		e := good(r)
		if r.Bool(0.6) {
			e = bad(r)
		}
		e.Ms = r.Pick(50, 300, 1200)
		if e.bad() && r.Bool(0.07) {
			e.Ms = r.Pick(20000, 90000)
		}
		p.Epochs = append(p.Epochs, e)
	}
	e := last(r)
	if r.Bool(0.5) {
		e = epoch{Kind: "real"}
	}
	p.Epochs = append(p.Epochs, e)
	if r.Bool(0.4) {
		p.Faults = simh.GenNetFaults(r, 20, 5, 3000)
	}
	if e.Kind == "stub" && e.Lazy < 10000000 && r.Bool(0.08) {
		p.Long = r.Range(20, 300)
	}
	return p
}

func genC12(r *simh.R) interface{} {
	p := genBase(r, r.Range(2, 18))
	for i := r.Range(1, 4); i > 0; i-- {
		e := bad(r)
		if r.Bool(0.25) {
			e = good(r)
		}
		e.Ms = r.Pick(50, 300, 1200, 3000)
		if e.bad() && r.Bool(0.07) { // a long outage
			e.Ms = r.Pick(20000, 90000)
		}
		p.Epochs = append(p.Epochs, e)
	}
	p.Epochs = append(p.Epochs, last(r))
	if r.Bool(0.5) {
		p.Faults = simh.GenNetFaults(r, 20, 6, 3000)
	}
	if r.Bool(0.6) {
		p.Close = true
		p.Evs = p.Evs[:r.Intn(len(p.Evs)+1)]
		for i := r.Pick(0, 0, 0, 1, 3); i > 0; i-- {
			e := genEv(r)
			e.Sync = ""
			p.After = append(p.After, e)
		}
	}
	return p
}

// ---- the model of the user's camera ----

// cam is everything that decides what is to be seen.
type cam struct {
	w, h       int
	pos        [3]float64
	yaw, pitch float64
	normals    int
	iso        bool
	dir        int
	fov        float64
}

func (c cam) String() string {
	s := fmt.Sprintf("{%dx%d at %.3f yaw %.3f pitch %.3f", c.w, c.h, c.pos, c.yaw, c.pitch)
	if c.normals != 0 {
		s += fmt.Sprintf(" normals %d", c.normals)
	}
	if c.iso {
		s += fmt.Sprintf(" isometric %d fov %.3f", c.dir, c.fov)
	}
	return s + "}"
}

func near(a, b float64) bool { return math.Abs(a-b) <= 1e-6*(1+math.Abs(a)+math.Abs(b)) }

// sees says whether a request asks for this camera, at some resolution.
func (c cam) sees(v api.View) bool {
	if !near(c.yaw, v.CamYaw) || !near(c.pitch, v.CamPitch) || c.normals != v.DebugNormals || c.iso != v.DebugIsometric {
		return false
	}
	for i := range c.pos {
		if !near(c.pos[i], v.CamPos[i]) {
			return false
		}
	}
	if c.iso && (c.dir != v.DebugIsometricDir || !near(c.fov, v.DebugIsometricFOV)) {
		return false
	}
	for d := 1; d <= 64; d++ {
		if scaled(c.w, d, v.Width) && scaled(c.h, d, v.Height) {
			return true
		}
	}
	return false
}

func scaled(full, div, got int) bool {
	return got == full/div || got == (full+div-1)/div || full/div == 0 && got == 1
}

// user is the state of the scripted user's input devices.
type user struct {
	cam
	held   bool // left button drags
	left   bool
	paused bool
	mx, my float32
}

func (u *user) move(x, y, z float64) {
	// pitch about x, then yaw about y
	sp, cp := math.Sin(u.pitch), math.Cos(u.pitch)
	sy, cy := math.Sin(u.yaw), math.Cos(u.yaw)
	y, z = cp*y-sp*z, sp*y+cp*z
	x, z = cy*x+sy*z, -sy*x+cy*z
	u.pos[0] += 0.05 * x
	u.pos[1] += 0.05 * y
	u.pos[2] += 0.05 * z
}

func (u *user) isometric(dir int) {
	if u.dir == dir {
		u.iso = !u.iso
	} else {
		u.iso = true
	}
	u.dir = dir
	if u.fov == 0 {
		u.fov = 8
	}
}

func (u *user) zoom(f float64) {
	if u.fov == 0 {
		u.fov = 8
	}
	u.fov *= f
}

// apply updates the model and makes the event.
func (u *user) apply(e ev) interface{} {
	mod := key.Modifiers(0)
	if e.Mod {
		mod = key.ModShift
	}
	switch e.Kind {
	case "key":
		if e.Code < 0 || e.Code >= len(keys) {
			return nil
		}
		k := keys[e.Code]
		if e.Up {
			return key.Event{Code: k, Direction: key.DirRelease, Modifiers: mod}
		}
		switch k {
		case key.CodeLeftArrow, key.CodeS:
			u.move(-1, 0, 0)
		case key.CodeRightArrow, key.CodeF:
			u.move(1, 0, 0)
		case key.CodeUpArrow, key.CodeE:
			if e.Mod {
				u.move(0, 1, 0)
			} else {
				u.move(0, 0, -1)
			}
		case key.CodeDownArrow, key.CodeD:
			if e.Mod {
				u.move(0, -1, 0)
			} else {
				u.move(0, 0, 1)
			}
		case key.CodeSpacebar:
			u.move(0, 1, 0)
		case key.CodeX:
			u.isometric(0)
		case key.CodeY:
			u.isometric(1)
		case key.CodeZ:
			u.isometric(2)
		case key.CodeP:
			u.paused = !u.paused
		case key.CodeN:
			u.normals = (u.normals + 1) % 3
		}
		return key.Event{Code: k, Direction: key.DirPress, Modifiers: mod}
	case "press", "release", "move", "wheel":
		m := mouse.Event{X: float32(e.X), Y: float32(e.Y), Modifiers: mod}
		switch e.Kind {
		case "press":
			m.Direction, m.Button = mouse.DirPress, mouse.Button(e.Code)
			u.held = e.Code == 1
			u.left = e.Code == 1
		case "release":
			m.Direction, m.Button = mouse.DirRelease, mouse.Button(e.Code)
			u.held = false
			if e.Code == 1 {
				u.left = false
			}
		case "wheel":
			m.X, m.Y = u.mx, u.my
			m.Direction = mouse.DirStep
			m.Button = [4]mouse.Button{mouse.ButtonWheelUp, mouse.ButtonWheelDown, mouse.ButtonWheelLeft, mouse.ButtonWheelRight}[e.Code&3]
		}
		if u.held {
			u.yaw += float64(m.X-u.mx) * 0.005
			u.pitch += float64(m.Y-u.my) * 0.005
			u.pitch = math.Max(-math.Pi/2, math.Min(math.Pi/2, u.pitch))
		}
		u.mx, u.my = m.X, m.Y
		switch {
		case e.Kind != "wheel":
		case u.iso && m.Button == mouse.ButtonWheelUp:
			u.zoom(1 / math.Sqrt2)
		case u.iso && m.Button == mouse.ButtonWheelDown:
			u.zoom(math.Sqrt2)
		case u.iso:
		case m.Button == mouse.ButtonWheelUp && e.Mod:
			u.move(0, 1, 0)
		case m.Button == mouse.ButtonWheelUp:
			u.move(0, 0, -1)
		case m.Button == mouse.ButtonWheelDown && e.Mod:
			u.move(0, -1, 0)
		case m.Button == mouse.ButtonWheelDown:
			u.move(0, 0, 1)
		case m.Button == mouse.ButtonWheelLeft:
			u.move(-1, 0, 0)
		case m.Button == mouse.ButtonWheelRight:
			u.move(1, 0, 0)
		}
		return m
	case "size":
		if e.X < 1 || e.Y < 1 {
			return nil
		}
		u.w, u.h = e.X, e.Y
		return size.Event{WidthPx: e.X, HeightPx: e.Y}
	case "paint":
		return paint.Event{}
	case "focus":
		return lifecycle.Event{From: lifecycle.StageVisible, To: lifecycle.StageFocused}
	}
	return nil
}

// ---- the screen ----

type version struct {
	cam
	seq int64 // the program got the event after this
}

// A frame is what was on the window when it was published.
type frame struct {
	seq, at int64
	sr, dr  image.Rectangle
	tex     image.Rectangle
	pix     *image.RGBA // the part of sr inside the texture
	win     image.Point // size of the window, as far as the program was told
}

type world struct {
	t    *simh.T
	p    *plan
	net  *simh.Net
	user user

	mu       sync.Mutex
	versions []version
	frames   []*frame
	nev      int
	pos      int // next event of the plan
	phase    int // 0 plan, 1 settle, 2 let go of everything
	extra    []ev
	wake     chan struct{} // closed when something happens
	quietSeq int64         // the last event was taken
	quietAt  int64
	deadAt   int64
	ended    bool
	endAt    int64
	exit     int
	clean    bool // the final server has come up
	cleanSeq int64
	lookAt   int // full frames at which to look again
}

func (w *world) notify() {
	close(w.wake)
	w.wake = make(chan struct{})
}

type buffer struct {
	w        *world
	img      *image.RGBA
	released bool
}

func (b *buffer) Release()                { b.released = true }
func (b *buffer) Size() image.Point       { return b.img.Rect.Max }
func (b *buffer) Bounds() image.Rectangle { return b.img.Rect }
func (b *buffer) RGBA() *image.RGBA       { return b.img }

type texture struct {
	w        *world
	img      *image.RGBA
	released bool
}

func (x *texture) Release()                { x.released = true }
func (x *texture) Size() image.Point       { return x.img.Rect.Max }
func (x *texture) Bounds() image.Rectangle { return x.img.Rect }
func (x *texture) Upload(dp image.Point, src screen.Buffer, sr image.Rectangle) {
	b := src.(*buffer)
	if b.released || x.released {
		panic("screen: upload with a released buffer or texture") // as the drivers do
	}
	draw.Draw(x.img, image.Rectangle{dp, dp.Add(sr.Size())}, b.img, sr.Min, draw.Src)
}
func (x *texture) Fill(dr image.Rectangle, src color.Color, op draw.Op) {
	draw.Draw(x.img, dr, image.NewUniform(src), image.Point{}, op)
}

type window struct {
	w   *world
	cur *frame
	rel bool
}

func (x *window) Release()                    { x.rel = true }
func (x *window) Send(event interface{})      {}
func (x *window) SendFirst(event interface{}) {}
func (x *window) NextEvent() interface{}      { return x.w.next() }
func (x *window) Fill(dr image.Rectangle, src color.Color, op draw.Op) {
	x.cur = nil
}
func (x *window) Upload(dp image.Point, src screen.Buffer, sr image.Rectangle) {
	b := src.(*buffer)
	if b.released {
		panic("screen: upload with a released buffer")
	}
	x.take(b.img, sr, image.Rectangle{dp, dp.Add(sr.Size())})
}
func (x *window) Copy(dp image.Point, src screen.Texture, sr image.Rectangle, op draw.Op, opts *screen.DrawOptions) {
	x.Scale(image.Rectangle{dp, dp.Add(sr.Size())}, src, sr, op, opts)
}
func (x *window) DrawUniform(f64.Aff3, color.Color, image.Rectangle, draw.Op, *screen.DrawOptions) {}
func (x *window) Draw(m f64.Aff3, src screen.Texture, sr image.Rectangle, op draw.Op, opts *screen.DrawOptions) {
	at := func(p image.Point) image.Point {
		return image.Pt(int(math.Round(m[0]*float64(p.X)+m[1]*float64(p.Y)+m[2])), int(math.Round(m[3]*float64(p.X)+m[4]*float64(p.Y)+m[5])))
	}
	x.Scale(image.Rectangle{at(sr.Min), at(sr.Max)}, src, sr, op, opts)
}
func (x *window) Scale(dr image.Rectangle, src screen.Texture, sr image.Rectangle, op draw.Op, opts *screen.DrawOptions) {
	tx := src.(*texture)
	if tx.released {
		panic("screen: drawing with a released texture")
	}
	x.take(tx.img, sr, dr)
}

func (x *window) take(img *image.RGBA, sr, dr image.Rectangle) {
	f := &frame{sr: sr, dr: dr, tex: img.Rect}
	in := sr.Intersect(img.Rect)
	f.pix = image.NewRGBA(image.Rectangle{Max: in.Size()})
	draw.Draw(f.pix, f.pix.Rect, img, in.Min, draw.Src)
	x.cur = f
}

func (x *window) Publish() screen.PublishResult {
	w := x.w
	if x.cur == nil {
		return screen.PublishResult{}
	}
	f := *x.cur
	w.mu.Lock()
	f.seq, f.at = srv.Seq(), runtime.SimNow()
	f.win = image.Pt(w.user.w, w.user.h)
	w.frames = append(w.frames, &f)
	w.notify()
	w.mu.Unlock()
	w.t.Trace("frame %d: %v to %v", len(w.frames)-1, f.sr, f.dr)
	return screen.PublishResult{}
}

func (w *world) NewBuffer(size image.Point) (screen.Buffer, error) {
	b := &buffer{w: w, img: image.NewRGBA(image.Rectangle{Max: size})}
	for i := range b.img.Pix {
		b.img.Pix[i] = byte(simh.Hash3(w.p.NetSeed, 77, uint64(i)))
	}
	return b, nil
}

func (w *world) NewTexture(size image.Point) (screen.Texture, error) {
	return &texture{w: w, img: image.NewRGBA(image.Rectangle{Max: size})}, nil
}

func (w *world) NewWindow(opts *screen.NewWindowOptions) (screen.Window, error) {
	return &window{w: w}, nil
}

// ---- the user ----

func pending(d *simh.Dial) bool { return d.Err == nil && d.Over == nil }

// next is NextEvent: it waits until the user does something.
func (w *world) next() interface{} {
	for {
		w.mu.Lock()
		var e ev
		switch {
		case w.phase == 0 && w.pos < len(w.p.Evs):
			e = w.p.Evs[w.pos]
			w.pos++
		case len(w.extra) > 0:
			e = w.extra[0]
			w.extra = w.extra[1:]
		default:
			if w.quietSeq == 0 && w.phase == 1 {
				w.quietSeq, w.quietAt = srv.Seq(), runtime.SimNow()
				w.t.Trace("the user stops")
			}
			if w.phase == 0 {
				w.phase = 1
				w.settle()
				w.notify()
				w.mu.Unlock()
				continue
			}
			ch := w.wake
			w.mu.Unlock()
			<-ch
			continue
		}
		w.mu.Unlock()
		w.pause(e)
		if e.Kind == "dead" {
			w.mu.Lock()
			w.deadAt = runtime.SimNow()
			for _, a := range w.p.After {
				w.extra = append(w.extra, a)
			}
			w.notify()
			w.mu.Unlock()
			w.t.Trace("window closed")
			return lifecycle.Event{From: lifecycle.StageFocused, To: lifecycle.StageDead}
		}
		w.mu.Lock()
		x := w.user.apply(e)
		if x == nil {
			w.mu.Unlock()
			continue
		}
		if w.versions[len(w.versions)-1].cam != w.user.cam {
			w.versions = append(w.versions, version{w.user.cam, srv.Seq()})
		}
		w.nev++
		w.mu.Unlock()
		w.t.Trace("event %s %d,%d code %d shift %v: view %d", e.Kind, e.X, e.Y, e.Code, e.Mod, len(w.versions)-1)
		w.t.Count("op:event " + e.Kind)
		return x
	}
}

// settle adds what the user does before leaving the program alone.
func (w *world) settle() {
	if w.p.Close {
		w.extra = append(w.extra, ev{Kind: "dead"})
		return
	}
	if w.user.left || w.user.held {
		w.extra = append(w.extra, ev{Kind: "release", Code: 1, X: int(w.user.mx), Y: int(w.user.my)})
	}
	if w.user.paused {
		for i, k := range keys {
			if k == key.CodeP {
				w.extra = append(w.extra, ev{Kind: "key", Code: i})
			}
		}
	}
}

// pause waits before an event, for a time or for something to happen.
func (w *world) pause(e ev) {
	if e.Sync != "" {
		end := time.After(400 * time.Millisecond)
		w.mu.Lock()
		nf, ns, na := len(w.frames), w.sent(), w.answers()
		w.mu.Unlock()
	wait:
		for {
			w.mu.Lock()
			ch := w.wake
			ok := false
			switch e.Sync {
			case "frame":
				ok = len(w.frames) > nf
			case "sent":
				ok = w.sent() > ns
			case "answer":
				ok = w.answers() > na
			}
			w.mu.Unlock()
			if ok {
				w.t.Count("probe:event right after " + e.Sync)
				break
			}
			tick := time.NewTimer(500 * time.Microsecond)
			select {
			case <-ch:
			case <-tick.C:
			case <-end:
				tick.Stop()
				break wait
			}
			tick.Stop()
		}
	}
	if e.Us > 0 {
		time.Sleep(time.Duration(e.Us) * time.Microsecond)
	}
}

func (w *world) sent() (n int) {
	for _, d := range w.net.Dials {
		n += len(d.OutM)
	}
	return n
}

func (w *world) answers() (n int) {
	for _, d := range w.net.Dials {
		n += len(d.InM)
	}
	return n
}

// ---- servers ----

// serveOthers answers with what is not an image.
type stub struct {
	w    *world
	e    epoch
	n    int
	mu   sync.Mutex
	stop chan struct{} // cancels the bake under way
}

// paint makes an image that tells its number and the view.
func (w *world) pattern(v api.View, n uint64) imagef.Image {
	if v.Width < 0 || v.Height < 0 || v.Width > 5000 || v.Height > 5000 {
		return nil
	}
	img := imagef.MakeImage(v.Width, v.Height)
	for y := range img {
		for x := range img[y] {
			h := simh.Hash3(n, uint64(x), uint64(y))
			img[y][x] = colorf.Color{R: float64(h&0xff) / 255, G: float64(h>>8&0xff) / 255, B: float64(h>>16&0xff) / 255}
		}
	}
	return img
}

func (s *stub) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
	s.mu.Lock()
	s.n++
	n := simh.Hash(s.w.p.NetSeed, uint64(s.e.Arg), uint64(s.n))
	s.mu.Unlock()
	kind := s.e.Kind
	if kind == "mixed" {
		kind = []string{"status", "garbage", "cut", "stub", "stub"}[n%5]
	}
	var v api.View
	json.NewDecoder(r.Body).Decode(&v)
	if r.URL.Path == "/cancel" {
		if kind == "status" {
			http.Error(rw, "trouble", 500+int(n%4))
			return
		}
		s.mu.Lock()
		if s.stop != nil {
			close(s.stop)
			s.stop = nil
		}
		s.mu.Unlock()
		return
	}
	stop := make(chan struct{})
	if r.URL.Path == "/bake" && s.e.Arg&1 == 0 {
		s.mu.Lock()
		s.stop = stop
		s.mu.Unlock()
		defer func() {
			s.mu.Lock()
			if s.stop == stop {
				s.stop = nil
			}
			s.mu.Unlock()
		}()
	}
	if s.e.Lazy > 0 {
		us := n % uint64(s.e.Lazy)
		if s.e.Arg&4 != 0 {
			us = uint64(s.e.Lazy) - us/4
		}
		tm := time.NewTimer(time.Duration(us) * time.Microsecond)
		select {
		case <-tm.C:
		case <-stop:
			if s.e.Arg&2 == 0 {
				http.Error(rw, "baking cancelled", 500)
				return
			}
			// or what there is
		}
		tm.Stop()
	}
	var b bytes.Buffer
	img := s.w.pattern(v, n)
	if img == nil {
		http.Error(rw, "bad view", 500)
		return
	}
	gob.NewEncoder(&b).Encode(img)
	switch kind {
	case "status":
		s.w.t.Count("fault:error status")
		http.Error(rw, "trouble", []int{500, 503, 404, 400, 302, 204, 206}[n%7])
		return
	case "garbage":
		s.w.t.Count("fault:garbage answer")
		rw.Write(garbage(n, v, b.Bytes()))
		return
	case "cut":
		s.w.t.Count("fault:answer cut short")
		rw.Header().Set("Content-Length", fmt.Sprint(b.Len()))
		rw.Write(b.Bytes()[:int(n%uint64(b.Len()))])
		return
	}
	rw.Write(b.Bytes())
}

// garbage is an answer with status 200 that is not an image.
func garbage(n uint64, v api.View, ok []byte) []byte {
	enc := func(x interface{}) []byte {
		var b bytes.Buffer
		gob.NewEncoder(&b).Encode(x)
		return b.Bytes()
	}
	switch n % 10 {
	case 0:
		return nil
	case 1:
		return []byte("<html><body>It works!</body></html>\n")
	case 2:
		return enc("hello")
	case 3:
		return enc([]int{1, 2, 3})
	case 4:
		return ok[:int(n/16%uint64(len(ok)))]
	case 5:
		b := append([]byte(nil), ok...)
		for i := 0; i < 3; i++ {
			b[int(simh.Hash(n, uint64(i))%uint64(len(b)))] ^= byte(1 + n>>8)
		}
		return b
	case 6: // rows of different lengths
		img := imagef.Image{}
		for y := 0; y < 1+v.Height; y++ {
			img = append(img, make([]colorf.Color, int(simh.Hash(n, uint64(y))%uint64(v.Width+2))))
		}
		return enc(img)
	case 7:
		return []byte{0xff, 0xff, 0xff, 0xff, 0x7f, 0, 1, 2}
	case 8:
		return enc([][]struct{ R, G, B int }{{{1, 2, 3}}})
	}
	b := make([]byte, n>>9%300)
	for i := range b {
		b[i] = byte(simh.Hash(n, uint64(i)))
	}
	return b
}

// rawServer writes bytes that are not even HTTP.
func (w *world) rawServer(l net.Listener, arg int) {
	for i := 0; ; i++ {
		c, err := l.Accept()
		if err != nil {
			return
		}
		go func(i int) {
			c.Read(make([]byte, 10))
			w.t.Count("fault:not HTTP")
			io.WriteString(c, []string{"\x00\x01\x02", "HTTP/1.1 200 OK\r\n", "HTTP/1.1 200 OK\r\nContent-Length: 1000\r\n\r\nabc", "HTTP/9.9 what\r\n\r\n",
				"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n", strings.Repeat("x", 5000)}[simh.Hash(uint64(arg), uint64(i))%6])
			c.Close()
		}(i)
	}
}

// slow is an object that takes its time, whatever its material.
type slow struct {
	objects.Interface
	load srv.Load
}

func (o slow) Intersect(r *tracer.Ray) tracer.HitRecord {
	h := simh.Hash3(o.load.Seed, math.Float64bits(r.Dir[0])^math.Float64bits(r.Dir[1]), math.Float64bits(r.Start[0])^math.Float64bits(r.Start[1])^math.Float64bits(r.Start[2]))
	if int(h&0xff) < o.load.Share {
		time.Sleep(time.Duration(h>>10%uint64(max(1, o.load.MaxUs))) * time.Microsecond)
	}
	return o.Interface.Intersect(r)
}

func (w *world) start(e epoch, eye *srv.Eye) {
	w.t.Trace("server: %s", e.Kind)
	switch e.Kind {
	case "real":
		spec := srv.Spec(eye, srv.Load{MaxUs: 1}, 0)
		spec.Objects[0].Interface = slow{spec.Objects[0].Interface, w.p.Load}
		go api.Serve(addr, spec)
	case "down":
		w.t.Count("fault:server down")
	case "garbage", "stub", "status", "cut", "mixed":
		l, err := net.Listen("tcp", addr)
		if err != nil {
			panic("simh: " + err.Error())
		}
		if e.Kind == "garbage" && e.Arg%4 == 0 {
			go w.rawServer(l, e.Arg)
			return
		}
		s := &http.Server{Handler: &stub{w: w, e: e}}
		go s.Serve(l)
	}
}

func (w *world) stop() {
	if w.net.Listening(addr) {
		w.t.Count("fault:server crash")
	}
	w.net.Crash(addr)
}

// ---- running ----

// settled is called in the bubble once the user has stopped and the faults are
// over; it returns whether enough has been seen.
func run(t *simh.T, p *plan, bound time.Duration, settled func(w *world) bool) *world {
	w := &world{t: t, p: p, wake: make(chan struct{}), exit: -1}
	srv.ResetSeq()
	w.user.w, w.user.h = 32, 32
	w.versions = []version{{w.user.cam, 0}}
	lat := p.LatUs
	if lat < 1 {
		lat = 1
	}
	eye := &srv.Eye{}
	os.Sim = &os.SimOS{Exit: func(code int) {
		w.exit = code
		t.Fail("exit", "the viewer exits with status %d", code)
		<-make(chan struct{})
	}}
	left, dead := t.Sim(max(1, p.CPU), true, func() {
		http.DefaultTransport = &http.Transport{DialContext: (&net.Dialer{}).DialContext, MaxIdleConns: 100, IdleConnTimeout: 90 * time.Second}
		w.net = simh.InstallNet(t, p.NetSeed, time.Duration(lat)*time.Microsecond, p.Faults)
		w.net.MinLat = 2 * time.Millisecond
		w.net.Seq = srv.Seq
		driver.SimMain = func(f func(screen.Screen)) { f(w) }
		done := make(chan struct{})
		epochs := p.Epochs
		if len(epochs) == 0 || epochs[len(epochs)-1].Kind != "stub" {
			if n := len(epochs); n > 0 {
				epochs = epochs[:n-1]
			}
			epochs = append(append([]epoch(nil), epochs...), epoch{Kind: "real"})
		}
		w.start(epochs[0], eye)
		go func() {
			for i, e := range epochs {
				if i > 0 {
					w.stop()
					w.start(e, eye)
				}
				if i < len(epochs)-1 {
					time.Sleep(time.Duration(e.Ms) * time.Millisecond)
				}
			}
			w.mu.Lock()
			w.clean, w.cleanSeq = true, srv.Seq()
			w.notify()
			w.mu.Unlock()
		}()
		go func() {
			program()
			w.mu.Lock()
			w.ended, w.endAt = true, runtime.SimNow()
			w.notify()
			w.mu.Unlock()
			close(done)
		}()
		// until the user has stopped, faults are over and the last server is up
		for {
			w.mu.Lock()
			ok := w.quietSeq != 0 && w.clean || w.ended
			ok = ok || w.deadAt != 0
			ch := w.wake
			w.mu.Unlock()
			if ok {
				break
			}
			tm := time.NewTimer(60*time.Second + time.Duration(p.slow()) + p.outages())
			select {
			case <-ch:
			case <-tm.C:
				t.Fail("stuck", "the viewer takes no events any more")
				return
			}
			tm.Stop()
		}
		w.net.Heal()
		t.Trace("faults end")
		if !w.p.Close {
			end := runtime.SimNow() + int64(bound) + p.slow()
			for runtime.SimNow() < end && !w.ended && !settled(w) {
				time.Sleep(50 * time.Millisecond)
			}
			w.mu.Lock()
			w.extra = append(w.extra, ev{Kind: "dead"})
			w.notify()
			w.mu.Unlock()
		}
		select {
		case <-done:
		case <-time.After(60*time.Second + time.Duration(p.slow())):
			t.Fail("close", "the viewer is still running 60 s after its window was closed (requests are answered, the network works)")
		}
		w.stop()
	})
	_ = left
	if dead && !t.Failed() {
		t.Fail("deadlock", "the simulation is deadlocked")
	}
	if w.net != nil {
		w.net.Uninstall()
	}
	return w
}

// ---- what was said ----

// A request as the network saw it.
type request struct {
	d        *simh.Dial
	path     string
	view     api.View
	asks     bool  // for an image of view
	sent     int64 // Seq: all of it had been written
	sentAt   int64
	status   int
	img      imagef.Image // received completely
	rgba     *image.RGBA
	got      int64 // Seq: enough of the answer had arrived to decode the image
	over     int64 // Seq: answered, or given up
	overAt   int64
	min, max int // versions it may be of
}

// seqAt is the moment at which at least k bytes had passed.
func seqAt(ms []simh.Mark, k int) (simh.Mark, bool) {
	for _, m := range ms {
		if m.N >= k {
			return m, true
		}
	}
	return simh.Mark{}, false
}

type counter struct {
	r io.Reader
	n int
}

func (c *counter) Read(b []byte) (int, error) {
	n, err := c.r.Read(b)
	c.n += n
	return n, err
}

const never = int64(1) << 62

// requests are all complete requests sent so far.
func (w *world) requests() (l []*request) {
	for _, d := range w.net.Dials {
		if d.Err != nil {
			continue
		}
		oc, ic := &counter{r: bytes.NewReader(d.Out)}, &counter{r: bytes.NewReader(d.In)}
		ob, ib := bufio.NewReader(oc), bufio.NewReader(ic)
		for {
			r, err := http.ReadRequest(ob)
			if err != nil {
				break
			}
			body, err := io.ReadAll(r.Body)
			if err != nil {
				break
			}
			q := &request{d: d, path: r.URL.Path, got: never, over: never, overAt: never}
			m, _ := seqAt(d.OutM, oc.n-ob.Buffered())
			q.sent, q.sentAt = m.Seq, m.At
			if q.path == "/bake" || q.path == "/preview" {
				q.asks = json.Unmarshal(body, &q.view) == nil
			}
			l = append(l, q)
			over := func(m simh.Mark) {
				if m.Seq < q.over {
					q.over, q.overAt = m.Seq, m.At
				}
			}
			if d.Over != nil {
				over(*d.Over)
			}
			if ib == nil {
				continue
			}
			resp, err := http.ReadResponse(ib, r)
			if err != nil {
				ib = nil
				continue
			}
			head := ic.n - ib.Buffered()
			hm, _ := seqAt(d.InM, head)
			q.status = resp.StatusCode
			b, err := io.ReadAll(resp.Body)
			if err == nil {
				var img imagef.Image
				full := ic.n - ib.Buffered()
				if q.status == 200 && q.asks && decode(b, &img) == nil {
					// the decoder does not wait for the end of the body
					k := full - 8
					if k < head {
						k = head
					}
					m, _ := seqAt(d.InM, k)
					q.got = m.Seq
					q.img = img
					over(m)
				} else {
					over(hm) // as soon as the program sees that it is of no use
				}
			} else {
				// what came may be enough all the same, without the last bytes
				var img imagef.Image
				if q.status == 200 && decode(b, &img) == nil {
					q.got = hm.Seq
					q.img = img
				}
				over(hm)
				ib = nil
			}
			if q.img != nil {
				if !rect(q.img) {
					q.img = nil
				} else {
					wd, ht := q.img.Size()
					q.rgba = image.NewRGBA(image.Rect(0, 0, wd, ht))
					draw.Draw(q.rgba, q.rgba.Rect, q.img, image.Point{}, draw.Src)
				}
			}
		}
	}
	return l
}

func decode(b []byte, img *imagef.Image) (err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("%v", x)
		}
	}()
	return gob.NewDecoder(bytes.NewReader(b)).Decode(img)
}

func rect(img imagef.Image) bool {
	for _, row := range img {
		if len(row) != len(img[0]) {
			return false
		}
	}
	return true
}

// views finds out which of the user's views the requests are of.
func (w *world) views(l []*request) bool {
	for _, q := range l {
		if !q.asks {
			continue
		}
		q.min, q.max = -1, -1
		for i, v := range w.versions {
			if v.seq < q.sent && v.sees(q.view) {
				if q.min < 0 {
					q.min = i
				}
				q.max = i
			}
		}
		if q.min < 0 {
			w.t.Fail("view", "%s asks for a view at which the user has not been: %+v (the user is at %v)", q.path, q.view, w.at(q.sent))
			return false
		}
	}
	return true
}

// at is the latest view at a moment.
func (w *world) at(seq int64) cam {
	c := w.versions[0].cam
	for _, v := range w.versions {
		if v.seq < seq {
			c = v.cam
		}
	}
	return c
}

func blue(x, y int) color.RGBA {
	r, g, b, a := (colorf.Color{B: 1}).RGBA()
	return color.RGBA{uint8(r >> 8), uint8(g >> 8), uint8(b >> 8), uint8(a >> 8)}
}

// placeholder: all of it is the viewer's blue.
func (f *frame) placeholder() bool {
	b := f.pix.Rect
	if b.Empty() {
		return false
	}
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			if f.pix.RGBAAt(x, y) != blue(x, y) {
				return false
			}
		}
	}
	return true
}

// shows: the frame is this answer, all of it.
func (f *frame) shows(q *request) bool {
	return q.rgba != nil && f.sr == q.rgba.Rect && f.pix.Rect == q.rgba.Rect && bytes.Equal(f.pix.Pix, q.rgba.Pix)
}

// ---- C10 ----

func (w *world) checkFrames(l []*request) {
	asked, what := -1, ""
	j := 0
	// requests in the order in which they were sent
	order := append([]*request(nil), l...)
	for i := range order {
		for k := i; k > 0 && order[k].sent < order[k-1].sent; k-- {
			order[k], order[k-1] = order[k-1], order[k]
		}
	}
	for n, f := range w.frames {
		for ; j < len(order) && order[j].sent < f.seq; j++ {
			if q := order[j]; q.asks && q.min > asked {
				asked, what = q.min, fmt.Sprintf("%s of %+v", q.path, q.view)
			}
		}
		if f.placeholder() {
			w.t.Count("op:placeholder shown")
			continue
		}
		if f.sr.Empty() {
			continue // nothing
		}
		best := -1
		var src *request
		for _, q := range l {
			if q.asks && q.got < f.seq && f.shows(q) && q.max > best {
				best, src = q.max, q
			}
		}
		if best < 0 {
			w.t.Fail("frame", "frame %d (%v, at %.1f ms) is neither the placeholder nor an image that was received%s", n, f.sr, float64(f.at)/1e6, w.likely(f, l))
			return
		}
		w.t.Count("op:image shown")
		if best < asked {
			w.t.Fail("stale", "frame %d (at %.1f ms) shows view %d (%v), after view %d had been asked for (%s)", n, float64(f.at)/1e6, best, w.versions[best].cam, asked, what)
			return
		}
		_ = src
	}
}

func (w *world) likely(f *frame, l []*request) string {
	for _, q := range l {
		if q.rgba == nil || q.rgba.Rect != f.sr {
			continue
		}
		n := 0
		for i := 0; i+3 < len(q.rgba.Pix) && i+3 < len(f.pix.Pix); i += 4 {
			if bytes.Equal(q.rgba.Pix[i:i+4], f.pix.Pix[i:i+4]) {
				n++
			}
		}
		if n > len(q.rgba.Pix)/8 {
			return fmt.Sprintf("; %d of its pixels are those of an answer to %s", n, q.path)
		}
	}
	return ""
}

func runC10(t *simh.T, pl interface{}) {
	w := run(t, pl.(*plan), 3*time.Second, func(w *world) bool { return w.fullFrames() >= 2 })
	if t.Failed() {
		return
	}
	l := w.requests()
	if w.views(l) {
		w.checkFrames(l)
	}
	w.note(l)
}

func (w *world) note(l []*request) {
	if w.t.Failed() {
		return
	}
	for _, q := range l {
		w.t.Count("op:request " + q.path)
		if q.path == "/bake" && q.status == 200 && q.img != nil {
			late := false
			for _, v := range w.versions {
				late = late || v.seq > q.sent && v.seq < q.got
			}
			if late {
				w.t.Count("probe:bake answered after the view changed")
			}
		}
		w.t.AddHash(uint64(q.sent))
	}
	for _, f := range w.frames {
		w.t.AddHash(uint64(f.seq))
	}
	if len(w.versions) > 1 {
		w.t.Count("probe:view changed")
	}
}

// fullFrames counts the frames, since the user stopped, that fill the window
// pixel by pixel.
func (w *world) fullFrames() (n int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, f := range w.frames {
		if f.seq > w.quietSeq && f.seq > w.cleanSeq && f.sr.Size() == image.Pt(w.user.w, w.user.h) {
			n++
		}
	}
	return n
}

// ---- C11 ----

// converged: the current view is shown at full resolution, and has been refined.
func (w *world) converged(refs *srv.Refs) (ok bool, why string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	l := w.requests()
	cur := len(w.versions) - 1
	full := image.Rect(0, 0, w.user.w, w.user.h)
	shown := 0
	var srcs []*request
	for _, f := range w.frames {
		if f.seq <= w.quietSeq || f.seq <= w.cleanSeq {
			continue
		}
		if f.dr != full || f.sr != full {
			continue
		}
		var src *request // the latest, if several are the same
		for _, q := range l {
			if q.got < f.seq && q.sent > w.cleanSeq && f.shows(q) && w.versions[cur].sees(q.view) && q.view.Width == w.user.w && q.view.Height == w.user.h && (q.view.AntiAlias || w.user.w*w.user.h < 64) && (src == nil || q.got > src.got) {
				src = q
			}
		}
		if n := len(srcs); src != nil && (n == 0 || srcs[n-1] != src) {
			shown++
			srcs = append(srcs, src)
		}
	}
	last := "nothing"
	if n := len(w.frames); n > 0 {
		f := w.frames[n-1]
		last = fmt.Sprintf("%v in a window of %v", f.sr, full.Max)
		if f.placeholder() {
			last += " (the placeholder)"
		}
	}
	if shown == 0 {
		return false, fmt.Sprintf("the current view %v is not shown at full resolution; shown is %s", w.versions[cur].cam, last)
	}
	if shown < max(3, w.p.Long) {
		return false, fmt.Sprintf("the current view %v has been shown at full resolution, but only %d times: no refinement", w.versions[cur].cam, shown)
	}
	if refs == nil {
		return true, ""
	}
	// the images are the view, and get better
	best := 0
	for i, q := range srcs {
		n, ambiguous, what := refs.Match(q.view, q.img, 400)
		if n == 0 {
			return false, "the image shown is not the view: " + what
		}
		if ambiguous {
			return true, ""
		}
		if i > 0 && n > best {
			return true, ""
		}
		if n > best {
			best = n
		}
	}
	return false, fmt.Sprintf("the image shown does not get better than %d passes", best)
}

// slow is the time that slow answers of the last server take, in ns.
func (p *plan) slow() int64 {
	if p.final() {
		return 0
	}
	lazy := 1000 * int64(p.Epochs[len(p.Epochs)-1].Lazy)
	return 20*lazy + int64(p.Long)*(lazy+int64(1+p.LatUs)*20000)
}

// outages is the time that the servers before the last one are there.
func (p *plan) outages() (d time.Duration) {
	for _, e := range p.Epochs {
		d += time.Duration(e.Ms) * time.Millisecond
	}
	return d
}

// final says whether the last server is the real one.
func (p *plan) final() bool {
	n := len(p.Epochs)
	return n == 0 || p.Epochs[n-1].Kind != "stub"
}

const converge = 40 * time.Second

func enough(w *world) bool {
	if n := w.fullFrames(); n < w.lookAt || n < 4 || n < w.p.Long {
		return false
	} else {
		w.lookAt = 2 * n
	}
	ok, _ := w.converged(nil)
	return ok
}

func (w *world) checkConverged(class string) {
	ok, why := w.converged(nil)
	if ok && w.p.final() {
		ok, why = w.converged(srv.NewRefs(w.t, 0))
	}
	if !ok {
		w.t.Fail(class, "the user stopped and all faults ended %v ago: %s", converge+time.Duration(w.p.slow()), why)
	} else {
		w.t.Count("op:converged")
	}
}

func runC11(t *simh.T, pl interface{}) {
	w := run(t, pl.(*plan), converge, enough)
	if t.Failed() {
		return
	}
	w.checkConverged("unconverged")
	l := w.requests()
	w.views(l)
	w.note(l)
}

// ---- C12 ----

func runC12(t *simh.T, pl interface{}) {
	p := pl.(*plan)
	w := run(t, p, converge, enough)
	if t.Failed() {
		return
	}
	l := w.requests()
	// at most one bake at a time
	for i, a := range l {
		if a.path != "/bake" {
			continue
		}
		for _, b := range l[i+1:] {
			if b.path == "/bake" && a.sent < b.over && b.sent < a.over {
				t.Fail("bakes", "two bakes outstanding: one sent at %.1f ms, one at %.1f ms", float64(a.sentAt)/1e6, float64(b.sentAt)/1e6)
				return
			}
		}
	}
	// attempts while every attempt fails
	type try struct {
		at int64
		ok bool
	}
	var tries []try
	for _, d := range w.net.Dials {
		if d.Err != nil {
			tries = append(tries, try{d.Failed.At, false})
		}
	}
	for _, q := range l {
		if q.path != "/cancel" {
			tries = append(tries, try{q.sentAt, q.img != nil || !q.asks && q.status == 200})
		}
	}
	for i := range tries {
		for k := i; k > 0 && tries[k].at < tries[k-1].at; k-- {
			tries[k], tries[k-1] = tries[k-1], tries[k]
		}
	}
	from := 0
	for i, x := range tries {
		if x.ok {
			from = i + 1
			continue
		}
		for from < i && x.at-tries[from].at > 1e9 {
			from++
		}
		if n := i - from + 1; n > 45 {
			t.Fail("flood", "%d failing attempts within a second, at %.1f ms", n, float64(x.at)/1e6)
			return
		}
	}
	if !p.Close {
		w.checkConverged("wedged")
	} else {
		t.Count("op:closed")
	}
	w.note(l)
}
