//go:build go1.25

package files

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"image"
	"image/color"
	"image/jpeg"
	"image/png"
	"io"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"time"

	"simh"

	"github.com/barnex/bruteray/api"
	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/imagef"
	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/imagef/ppm"
	"github.com/barnex/bruteray/texture"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/materials"
	"github.com/barnex/bruteray/tracer/objects"
	"github.com/barnex/bruteray/tracer/objects/obj"
	"github.com/barnex/bruteray/tracer/objects/ply"
)

// all runs f(0), ..., f(n-1) at the same time.
func all(t *simh.T, cpu, n int, f func(i int)) (dead bool) {
	_, dead = t.Sim(cpu, true, func() {
		done := make(chan bool, n)
		for i := 0; i < n; i++ {
			i := i
			go func() { f(i); done <- true }()
		}
		for i := 0; i < n; i++ {
			<-done
		}
	})
	return dead
}

// ---- C16: encoders ----

type enc struct {
	W    int    `json:"w"`
	H    int    `json:"h"`
	Seed uint64 `json:"seed"`
	Mode int    `json:"mode"`   // kind of colours
	Bin  bool   `json:"bin"`    // P6
	Buf  int    `json:"buf"`    // size of a bufio.Writer in between; 0: none
	Fail int    `json:"fail"`   // byte at which writing fails; -1: never
	Once bool   `json:"once"`   // only that write fails
	Part bool   `json:"part"`   // the failing write takes the bytes before
	Time int    `json:"timeus"` // how long a write can take
}

type encPlan struct {
	Encs []enc `json:"encs"`
	CPU  int   `json:"cpu"`
}

func genC16(r *simh.R) interface{} {
	p := &encPlan{CPU: r.Range(1, 3)}
	for i, n := 0, r.Pick(1, 2, 3, 1, 2, 3, 1, 2, 3, 8); i < n; i++ {
		e := enc{W: r.Range(1, 8), H: r.Range(1, 8), Seed: r.U64(), Mode: r.Intn(4), Bin: r.Bool(0.5), Fail: -1, Part: r.Bool(0.5), Once: r.Bool(0.5)}
		if r.Bool(0.1) {
			e.W, e.H = r.Pick(0, 1, 30), r.Pick(0, 1, 30)
			if e.H == 0 {
				e.W = 0
			}
		}
		if r.Bool(0.01) {
			e.W, e.H = r.Range(1, 3), r.Range(300, 3000)
			if r.Bool(0.5) {
				e.W, e.H = e.H, e.W
			}
		}
		if r.Bool(0.005) {
			e.W, e.H = r.Range(60, 200), r.Range(60, 150)
		}
		if r.Bool(0.3) {
			e.Buf = r.Pick(16, 64, 4096)
		}
		if r.Bool(0.3) {
			e.Time = r.Pick(1, 100)
		}
		if r.Bool(0.7) {
			size := 15 + 6*e.W*e.H
			if !e.Bin {
				size = 15 + 18*e.W*e.H
			}
			switch r.Intn(4) {
			case 0:
				e.Fail = r.Intn(16)
			case 1:
				e.Fail = size - 1 - r.Intn(20)
			default:
				e.Fail = r.Intn(size)
			}
			if e.Fail < 0 {
				e.Fail = 0
			}
		}
		p.Encs = append(p.Encs, e)
	}
	return p
}

func (e enc) image() imagef.Image {
	r := simh.NewR(e.Seed)
	img := make(imagef.Image, e.H)
	for y := range img {
		img[y] = make([]colorf.Color, e.W)
		for x := range img[y] {
			f := func() float64 {
				switch {
				case e.Mode == 1:
					return r.In(-0.5, 2)
				case e.Mode == 2:
					switch r.Intn(8) {
					case 0:
						return 1e300
					case 1:
						return math.Inf(1)
					case 2:
						return math.Inf(-1)
					case 3:
						return 1
					case 4:
						return 0
					}
					return r.In(0, 0.004)
				case e.Mode == 3:
					return float64(y*e.W+x) / float64(e.W*e.H)
				}
				return r.F()
			}
			img[y][x] = colorf.Color{R: f(), G: f(), B: f()}
		}
	}
	return img
}

var errFull = errors.New("no space left on the writer")

type writer struct {
	t    *simh.T
	e    enc
	got  []byte
	n    int // offered
	hits int
	sl   func(k int)
}

func (w *writer) Write(b []byte) (int, error) {
	w.sl(len(w.got))
	at := w.e.Fail - w.n
	w.n += len(b)
	fail := w.e.Fail >= 0 && at < len(b) && (at >= 0 || !w.e.Once)
	if fail {
		w.hits++
		w.t.Count("fault:write-error")
		k := 0
		if w.e.Part && at > 0 {
			k = at
		}
		w.got = append(w.got, b[:k]...)
		return k, errFull
	}
	w.got = append(w.got, b...)
	return len(b), nil
}

func runC16(t *simh.T, pl interface{}) {
	p := pl.(*encPlan)
	type res struct {
		img imagef.Image
		w   *writer
		err error
		ok  bool
	}
	rs := make([]res, len(p.Encs))
	for i, e := range p.Encs {
		if e.W < 0 || e.H < 0 || p.CPU < 1 {
			return
		}
		rs[i].img = e.image()
		rs[i].w = &writer{t: t, e: e, sl: sleeper(e.Time, e.Seed)}
	}
	dead := all(t, p.CPU, len(rs), func(i int) {
		r := &rs[i]
		e := p.Encs[i]
		var w io.Writer = r.w
		var b *bufio.Writer
		if e.Buf > 0 {
			b = bufio.NewWriterSize(w, e.Buf)
			w = b
		}
		if e.Bin {
			r.err = ppm.Encode48BE(w, r.img)
		} else {
			r.err = ppm.EncodeAscii16(w, r.img)
		}
		if b != nil && r.err == nil {
			r.err = b.Flush()
		}
		r.ok = true
	})
	if dead {
		t.Fail("hang", "encoding does not end")
		return
	}
	for i, r := range rs {
		e := p.Encs[i]
		name := "EncodeAscii16"
		if e.Bin {
			name = "Encode48BE"
		}
		if !r.ok {
			continue
		}
		if r.w.hits > 0 {
			if r.err == nil {
				t.Fail("silent", "%s of a %dx%d image returned no error, though writing failed at byte %d", name, e.W, e.H, e.Fail)
			}
			continue
		}
		if r.err != nil {
			t.Fail("error", "%s of a %dx%d image returned %v without a fault", name, e.W, e.H, r.err)
			continue
		}
		w, h, v, err := parsePPM(r.w.got)
		switch {
		case err != nil:
			t.Fail("invalid", "%s of a %dx%d image: %v", name, e.W, e.H, err)
		case w != e.W || h != e.H:
			t.Fail("size", "%s of a %dx%d image: file is %dx%d", name, e.W, e.H, w, h)
		case string(r.w.got[:2]) != map[bool]string{true: "P6", false: "P3"}[e.Bin]:
			t.Fail("invalid", "%s made a %q file", name, r.w.got[:2])
		default:
			if d := ppmDiff(v, r.img); d > 1 {
				t.Fail("colours", "%s of a %dx%d image: a value is off by %d", name, e.W, e.H, d)
			}
		}
		t.Count("files-checked")
	}
}

func sleeper(us int, seed uint64) func(k int) {
	return func(k int) {
		if us > 0 {
			if d := simh.Hash(seed, uint64(k)); d&3 == 0 {
				time.Sleep(time.Duration(d>>8%uint64(us)) * time.Microsecond)
			}
		}
	}
}

// ---- loading: common ----

type damage struct {
	Cut   int              `json:"cut"`   // bytes left of the file; -1: all
	Gone  bool             `json:"gone"`  // there is no such file
	Probe int              `json:"probe"` // reading fails from this byte on; -1: never
	Disk  []simh.DiskFault `json:"disk"`
}

func genDamage(r *simh.R, size int) damage {
	d := damage{Cut: -1, Probe: -1}
	pos := func() int {
		switch r.Intn(4) {
		case 0:
			return r.Intn(1 + size)
		case 1:
			return size - 1 - r.Intn(12)
		case 2:
			return r.Pick(0, 1, 4096, 8192, 65536, r.Intn(200))
		}
		return r.Intn(1 + size)
	}
	switch r.Intn(8) {
	case 0, 1:
		d.Cut = pos()
	case 2:
		d.Probe = pos()
	case 3:
		d.Disk = append(d.Disk, simh.DiskFault{Kind: "read", N: r.Intn(3), Err: "EIO"})
	case 4:
		if r.Bool(0.5) {
			d.Gone = true
		} else {
			d.Disk = append(d.Disk, simh.DiskFault{Kind: "open", N: 0, Err: r.PickS("EACCES", "EMFILE", "EIO", "ENOENT")})
		}
	}
	if r.Bool(0.5) {
		d.Disk = append(d.Disk, simh.DiskFault{Kind: "chunk", N: r.Intn(3), At: r.Pick(1, 2, 3, 7, 64, 500, 4096)})
	}
	if r.Bool(0.2) {
		d.Disk = append(d.Disk, simh.DiskFault{Kind: "read", N: r.Range(1, 30), Err: "EIO"})
	}
	return d
}

// loader runs load on damaged data, as a program would: in a directory with the
// disk between. It returns how the program ended.
func loader(t *simh.T, name string, data []byte, d damage, cpu, n int, load func(path string, i int)) (disk *simh.Disk, cut bool, exits int, dead bool) {
	runs++
	dir := filepath.Join(simh.Scratch, fmt.Sprintf("l%d", runs))
	must(os.MkdirAll(dir, 0777))
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, name)
	if d.Cut >= 0 && d.Cut < len(data) {
		data = data[:d.Cut]
		cut = true
		t.Count("fault:truncated")
	}
	if !d.Gone {
		must(os.WriteFile(path, data, 0666))
	} else {
		t.Count("fault:missing")
	}
	disk = simh.InstallDisk(t, dir, d.Disk)
	disk.ReadFailAt = d.Probe
	_, dead = t.Sim(cpu, true, func() {
		done := make(chan int, n+8)
		disk.OnExit = func(code int) { done <- 1 }
		for i := 0; i < n; i++ {
			i := i
			go func() {
				load(path, i)
				done <- 0
			}()
		}
		for i := 0; i < n && exits == 0; i++ {
			exits += <-done
		}
	})
	os.Sim = nil
	return
}

// ---- C17: meshes ----

type meshPlan struct {
	Obj    bool   `json:"obj"`
	Seed   uint64 `json:"seed"`
	V      int    `json:"v"`
	F      int    `json:"f"`
	Style  int    `json:"style"`
	Scene  bool   `json:"scene"` // load it as a scene does
	Text   string `json:"text"`  // replaces the file
	Damage damage `json:"damage"`
	CPU    int    `json:"cpu"`
	N      int    `json:"n"` // loads at the same time
}

func genC17(r *simh.R) interface{} {
	p := &meshPlan{Obj: r.Bool(0.4), Seed: r.U64(), V: r.Range(0, 12), F: r.Range(0, 10), Style: r.Intn(1 << 10), CPU: r.Range(1, 2), N: 1, Scene: r.Bool(0.2)}
	if r.Bool(0.15) {
		p.V, p.F = r.Range(50, 300), r.Range(50, 400)
	}
	if r.Bool(0.01) { // a file much larger than any buffer
		p.V, p.F = r.Range(1000, 3000), r.Range(1000, 3000)
	}
	if r.Bool(0.0015) { // more vertices than 16 bits can count
		p.V, p.F = r.Range(66000, 70000), r.Range(10, 100)
	}
	if r.Bool(0.3) && p.V < 1000 {
		p.N = r.Range(2, 3)
	}
	if !p.Obj && r.Bool(0.08) {
		p.Text = "ply\nformat ascii 1.0\nelement vertex " + r.PickS("-1", "99999999999", "1000000000000", "9223372036854775807", "x", "", "1000000", "3.5", "99999999999999999999") +
			"\nproperty float x\nelement face " + r.PickS("1", "99999999999", "-5", "4000000000000") + "\nend_header\n0 0 0\n"
	} else if !p.Obj && r.Bool(0.03) {
		p.Text = r.PickS("", "ply", "ply\n", "ply\nformat ascii 1.0\n", "ply\nformat ascii 1.0\nend_header", "obj\n", "ply\nformat binary_little_endian 1.0\nelement vertex 1\nend_header\nxxxxxxxxxxxx",
			"ply\nformat ascii 1.0\nelement vertex 1\nend_header\n1 2\n", "ply\nformat ascii 1.0\nelement vertex 1\nend_header\n\n", "ply\nformat ascii 1.0\nelement face 1\nend_header\n\n", "ply\nformat ascii 1.0\nelement face 1\nend_header\n4 1 2 3\n",
			"ply\nformat ascii 1.0\nelement face 1\nend_header\n5 1 2 3 4 5\n", "ply\nformat ascii 1.0\nelement face 1\nend_header\n3 1 2 x\n", "ply\nformat ascii 1.0\nelement vertex 1\nend_header\n1 2 x\n")
	}
	if p.Obj && r.Bool(0.06) {
		p.Text = r.PickS("v 1 2\n", "v 1 2 3 4 5\n", "v\n", "f 1 2\n", "f 1 2 3 4 5\n", "f 0 1 2\n", "f -1 -2 -3\n", "f 1/1/1 a/2 3\n", "usemtl\n", "usemtl a b\n", "v 1 2 3\nv a b c\n", "f / / /\n", "zz 1 2\n", "v 1 2 3\nf 99999999999 1 2\n", "v 1 2 3\n"+strings.Repeat("#", 70000)+"\n")
	}
	p.Damage = genDamage(r, len(p.file().text))
	if p.V > 500 {
		for i := range p.Damage.Disk {
			if d := &p.Damage.Disk[i]; d.Kind == "chunk" {
				d.At += 900
			}
		}
	}
	return p
}

type meshFile struct {
	text  string
	verts []geom.Vec
	tris  [][3]int             // PLY, or all faces
	faces map[string][][]int32 // OBJ
	quads bool
}

func (p *meshPlan) file() (m meshFile) {
	r := simh.NewR(p.Seed)
	var b bytes.Buffer
	nl := "\n"
	if p.Style&1 != 0 {
		nl = "\r\n"
	}
	num := func() (string, float64) {
		v := r.In(-100, 100)
		if r.Bool(0.2) {
			v = float64(r.Intn(50))
		}
		prec := 6
		format := byte('g')
		switch r.Intn(5) {
		case 0:
			prec, format = 3, 'f'
		case 1:
			prec, format = 8, 'e'
			v /= 1e6
		case 2:
			prec = 17
		}
		s := strconv.FormatFloat(v, format, prec, 64)
		w, _ := strconv.ParseFloat(s, 64)
		return s, w
	}
	sep := func() string { return r.PickS(" ", " ", " ", "  ", "\t") }
	if p.Obj {
		m.faces = map[string][][]int32{}
		mtl := ""
		noise := func() {
			if p.Style&2 != 0 && r.Bool(0.3) {
				b.WriteString(r.PickS("# a comment", "# v 1 2 3", "# f 1 2 3", "# usemtl blue", "# a long comment"+strings.Repeat(" indeed", 600), "", "o thing", "vn 0 0 1", "vt 0.5 0.5", "s off", "s 1", "g group", "mtllib x.mtl", "l 1 2") + nl)
			}
		}
		vert := func() {
			b.WriteString("v")
			var v geom.Vec
			for k := range v {
				s, x := num()
				v[k] = x
				b.WriteString(sep() + s)
			}
			if p.Style&4 != 0 && r.Bool(0.3) {
				b.WriteString(" 1.0")
			}
			b.WriteString(nl)
			m.verts = append(m.verts, v)
		}
		face := func() {
			if p.Style&8 != 0 && r.Bool(0.3) {
				mtl = r.PickS("red", "green", "Mat.001", "blue")
				b.WriteString("usemtl " + mtl + nl)
			}
			n := 3
			if p.Style&16 != 0 && r.Bool(0.4) {
				n = 4
			}
			b.WriteString("f")
			var f []int32
			top := len(m.verts)
			for k := 0; k < n; k++ {
				i := r.Intn(top)
				f = append(f, int32(i))
				b.WriteString(sep() + strconv.Itoa(i+1))
				if p.Style&32 != 0 {
					b.WriteString(r.PickS("", "/1", "/1/2", "//3"))
				}
			}
			b.WriteString(nl)
			m.faces[mtl] = append(m.faces[mtl], f)
		}
		nv, nf := p.V, p.F
		for nv > 0 || nf > 0 {
			noise()
			if nv > 0 && (len(m.verts) == 0 || p.Style&64 == 0 || r.Bool(0.6)) {
				vert()
				nv--
			} else if nf > 0 {
				if len(m.verts) == 0 {
					break
				}
				face()
				nf--
			} else if nv > 0 {
				vert()
				nv--
			}
		}
		m.text = b.String()
		if p.Style&128 != 0 {
			m.text = strings.TrimSuffix(m.text, nl)
		}
		return m
	}
	F := p.F
	if p.V == 0 {
		F = 0
	}
	b.WriteString("ply" + nl + "format ascii 1.0" + nl)
	if p.Style&2 != 0 {
		b.WriteString("comment made by hand" + strings.Repeat(" and foot", r.Pick(0, 0, 0, 500, 10000)) + nl)
	}
	// remarks that look like something else
	remark := func() {
		for p.Style&2 != 0 && r.Bool(0.4) {
			b.WriteString(r.PickS("comment element vertex 7", "comment element face 0", "comment end_header", "obj_info element face 1", "comment", "comment element vertex many", "comment ply", "obj_info 3") + nl)
		}
	}
	remark()
	fmt.Fprintf(&b, "element vertex %d%s", p.V, nl)
	remark()
	b.WriteString("property float x" + nl + "property float y" + nl + "property float z" + nl)
	if p.Style&4 != 0 {
		b.WriteString("property float confidence" + nl)
	}
	fmt.Fprintf(&b, "element face %d%s", F, nl)
	remark()
	b.WriteString("property list uchar int vertex_indices" + nl)
	remark()
	b.WriteString("end_header" + nl)
	for i := 0; i < p.V; i++ {
		var v geom.Vec
		for k := range v {
			s, x := num()
			v[k] = x
			if k > 0 {
				b.WriteString(sep())
			}
			b.WriteString(s)
		}
		if p.Style&4 != 0 {
			b.WriteString(" 0.75")
		}
		if p.Style&8 != 0 {
			b.WriteString(" ")
		}
		b.WriteString(nl)
		m.verts = append(m.verts, v)
	}
	for i := 0; i < F; i++ {
		n := 3
		if p.Style&16 != 0 && r.Bool(0.4) {
			n = 4
			m.quads = true
		}
		b.WriteString(strconv.Itoa(n))
		var f []int
		for k := 0; k < n; k++ {
			j := r.Intn(p.V)
			f = append(f, j)
			b.WriteString(sep() + strconv.Itoa(j))
		}
		b.WriteString(nl)
		m.tris = append(m.tris, [3]int{f[0], f[1], f[2]})
		if n == 4 {
			m.tris = append(m.tris, [3]int{f[2], f[3], f[0]})
		}
	}
	m.text = b.String()
	return m
}

func runC17(t *simh.T, pl interface{}) {
	p := pl.(*meshPlan)
	if p.V < 0 || p.F < 0 || p.N < 1 || p.N > 8 || p.CPU < 1 {
		return
	}
	if p.Scene {
		p.N = 1
	}
	m := p.file()
	text := m.text
	if p.Text != "" {
		text = p.Text
	}
	type res struct {
		v    []geom.Vec
		f    [][3]int
		o    obj.Obj
		err  error
		oops interface{}
		ob   objects.Interface
		done bool
	}
	rs := make([]res, p.N)
	name := "m.ply"
	if p.Obj {
		name = "m.obj"
	}
	mats := map[string]api.Material{}
	for _, k := range []string{"", "red", "green", "Mat.001", "blue"} {
		mats[k] = materials.Flat(colorf.White)
	}
	disk, cut, exits, dead := loader(t, name, []byte(text), p.Damage, p.CPU, p.N, func(path string, i int) {
		r := &rs[i]
		defer func() { r.oops = recover() }()
		switch {
		case p.Scene && p.Obj:
			r.ob = objects.ObjFile(mats, path)
		case p.Scene:
			r.ob = api.PlyFile(materials.Flat(colorf.White), path).Interface
		case p.Obj:
			r.o, r.err = obj.ParseFile(path)
		default:
			r.v, r.f, r.err = ply.ParseFile(path)
		}
		r.done = true
	})
	if dead {
		t.Fail("hang", "loading does not end")
		return
	}
	if l := disk.Leaked(); len(l) > 0 && exits == 0 {
		t.Fail("leak", "%v still open after loading", l)
	}
	bad := disk.ReadNG > 0 || p.Damage.Gone
	if p.Scene {
		if p.Text != "" && !bad {
			return // rejected or not, depending on the text
		}
		ended := 0
		for _, r := range rs {
			if r.oops != nil {
				ended++
			}
		}
		switch {
		case disk.ReadNG > 0 && exits+ended == 0:
			t.Fail("partial", "a scene was made from %s although: %s", name, strings.Join(disk.Hits, "; "))
		case p.Damage.Gone && exits+ended < p.N:
			t.Fail("partial", "a scene was made without the file")
		case cut && !p.Obj && exits+ended < p.N:
			t.Fail("partial", "a scene was made from the first %d of %d bytes of a PLY file", p.Damage.Cut, len(text))
		case !bad && !cut && len(m.tris)+len(m.faces) > 0 && exits+ended > 0:
			t.Fail("rejected", "a scene could not be made from a good %s", name)
		case !bad && !cut && exits+ended == 0:
			t.Build(func() { m.shoot(t, p.Obj, rs[0].ob) })
		}
		return
	}
	for _, r := range rs {
		if r.oops != nil {
			t.Fail("crash", "loading panicked: %v", r.oops)
			return
		}
	}
	if exits > 0 {
		t.Fail("crash", "loading ended the program")
		return
	}
	bads := 0
	for _, r := range rs {
		if r.err != nil {
			bads++
			if len(r.v) > 0 || len(r.f) > 0 || len(r.o.Vertices) > 0 || len(r.o.Faces) > 0 {
				t.Fail("partial", "geometry returned along with the error %v", r.err)
			}
			continue
		}
		if p.Text != "" {
			continue
		}
		if p.Obj {
			if cut {
				continue
			}
			if d := sameVerts(r.o.Vertices, m.verts, 1e-6); d != "" {
				t.Fail("vertices", "OBJ: %s", d)
				continue
			}
			got := r.o.Faces
			if len(got) == 0 {
				got = map[string][][]int32{}
			}
			if !reflect.DeepEqual(got, m.faces) {
				t.Fail("faces", "OBJ: faces %v instead of %v", got, m.faces)
			}
			t.Count("meshes-checked")
			continue
		}
		if cut {
			t.Fail("partial", "no error for the first %d of %d bytes of a PLY file", p.Damage.Cut, len(text))
			continue
		}
		if d := sameVerts(r.v, m.verts, 1e-12); d != "" {
			t.Fail("vertices", "PLY: %s", d)
			continue
		}
		if fmt.Sprint(r.f) != fmt.Sprint(m.tris) && len(r.f)+len(m.tris) > 0 {
			t.Fail("faces", "PLY: faces %v instead of %v", r.f, m.tris)
		}
		t.Count("meshes-checked")
	}
	switch {
	case disk.ReadNG > 0 && bads == 0:
		t.Fail("silent", "no error although: %s", strings.Join(disk.Hits, "; "))
	case p.Damage.Gone && bads < p.N:
		t.Fail("silent", "no error although the file is missing")
	case !bad && !cut && p.Text == "" && bads > 0:
		for _, r := range rs {
			if r.err != nil {
				t.Fail("rejected", "a good file was rejected: %v", r.err)
				break
			}
		}
	case bads > disk.ReadNG && !cut && !p.Damage.Gone && p.Text == "":
		t.Fail("rejected", "%d of %d loads failed with %d read errors", bads, p.N, disk.ReadNG)
	}
}

// shoot looks at every face of the file from close by: there must be something
// at its centre.
func (m *meshFile) shoot(t *simh.T, isObj bool, o objects.Interface) {
	tris := m.tris
	for _, fs := range m.faces {
		for _, f := range fs {
			tris = append(tris, [3]int{int(f[0]), int(f[1]), int(f[2])})
			if len(f) == 4 {
				tris = append(tris, [3]int{int(f[2]), int(f[3]), int(f[0])})
			}
		}
	}
	step := 1 + len(tris)*len(tris)/100000 // a ray can meet every one
	for i := len(tris) - 1; i >= 0; i -= step {
		f := tris[i]
		a, b, c := m.verts[f[0]], m.verts[f[1]], m.verts[f[2]]
		u, v, w := b.Sub(a), c.Sub(a), c.Sub(b)
		n := u.Cross(v)
		long := math.Max(u.Len(), math.Max(v.Len(), w.Len()))
		if !(n.Len() > 0.02*long*long) || long < 1 {
			continue // too thin to aim at
		}
		n = n.Normalized()
		mid := a.Add(b).Add(c).Mul(1. / 3)
		d := 0.01 * long
		r := tracer.Ray{Start: mid.Add(n.Mul(d)), Dir: n.Mul(-1)}
		h := o.Intersect(&r)
		if !(h.T > 0 && h.T <= d*1.01) {
			t.Fail("faces", "the face %v of the file, with corners %v, %v and %v, is missing from the scene (hit at %v instead of %v)", f, a, b, c, h.T, d)
			return
		}
		t.Count("faces-shot")
	}
}

func sameVerts(a, b []geom.Vec, tol float64) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d vertices instead of %d", len(a), len(b))
	}
	for i := range a {
		for k := range a[i] {
			if math.Abs(a[i][k]-b[i][k]) > tol*math.Abs(b[i][k])+1e-30 {
				return fmt.Sprintf("vertex %d is %v instead of %v", i, a[i], b[i])
			}
		}
	}
	return ""
}

// ---- C18: textures ----

type texPlan struct {
	W      int    `json:"w"`
	H      int    `json:"h"`
	Seed   uint64 `json:"seed"`
	Kind   string `json:"kind"`  // png8 png16 gray gray16 pal jpg jpggray
	Curve  string `json:"curve"` // nil srgb linear
	Via    string `json:"via"`   // load, must, height, tex
	Damage damage `json:"damage"`
	CPU    int    `json:"cpu"`
	N      int    `json:"n"`
}

func genC18(r *simh.R) interface{} {
	p := &texPlan{W: r.Range(1, 9), H: r.Range(1, 9), Seed: r.U64(), Kind: r.PickS("png8", "png16", "gray", "gray16", "pal", "alpha", "jpg", "jpggray"), Curve: r.PickS("nil", "srgb", "linear"), Via: r.PickS("load", "load", "load", "must", "height", "tex"), CPU: r.Range(1, 2), N: 1}
	if r.Bool(0.15) {
		p.W, p.H = r.Range(20, 70), r.Range(20, 50)
	}
	if r.Bool(0.015) {
		p.W, p.H = r.Pick(1, 100, 300), r.Range(100, 300)
		if r.Bool(0.5) {
			p.W, p.H = r.Range(300, 2500), r.Range(1, 20)
		}
	}
	if r.Bool(0.3) {
		p.N = r.Range(2, 3)
	}
	p.Damage = genDamage(r, len(p.data()))
	return p
}

func (p *texPlan) data() []byte {
	r := simh.NewR(p.Seed)
	box := image.Rect(0, 0, p.W, p.H)
	pal := color.Palette{}
	for i := 0; i < 16; i++ {
		pal = append(pal, color.RGBA{byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256)), 255})
	}
	var m image.Image
	set := func(f func(x, y int)) {
		for y := 0; y < p.H; y++ {
			for x := 0; x < p.W; x++ {
				f(x, y)
			}
		}
	}
	b8 := func() byte { return byte(r.Intn(256)) }
	switch p.Kind {
	case "png16":
		i := image.NewRGBA64(box)
		set(func(x, y int) {
			i.SetRGBA64(x, y, color.RGBA64{uint16(r.Intn(65536)), uint16(r.Intn(65536)), uint16(r.Intn(65536)), 65535})
		})
		m = i
	case "alpha":
		i := image.NewNRGBA(box)
		set(func(x, y int) { i.SetNRGBA(x, y, color.NRGBA{b8(), b8(), b8(), b8()}) })
		m = i
	case "gray", "jpggray":
		i := image.NewGray(box)
		set(func(x, y int) { i.SetGray(x, y, color.Gray{b8()}) })
		m = i
	case "gray16":
		i := image.NewGray16(box)
		set(func(x, y int) { i.SetGray16(x, y, color.Gray16{uint16(r.Intn(65536))}) })
		m = i
	case "pal":
		i := image.NewPaletted(box, pal)
		set(func(x, y int) { i.SetColorIndex(x, y, b8()&15) })
		m = i
	default:
		i := image.NewRGBA(box)
		set(func(x, y int) { i.SetRGBA(x, y, color.RGBA{b8(), b8(), b8(), 255}) })
		m = i
	}
	var b bytes.Buffer
	var err error
	if strings.HasPrefix(p.Kind, "jpg") {
		err = jpeg.Encode(&b, m, &jpeg.Options{Quality: 85})
	} else {
		err = png.Encode(&b, m)
	}
	must(err)
	return b.Bytes()
}

func linear(s float64) float64 {
	if s <= 0.04045 {
		return s / 12.92
	}
	return math.Pow((s+0.055)/1.055, 2.4)
}

func runC18(t *simh.T, pl interface{}) {
	p := pl.(*texPlan)
	if p.W < 1 || p.H < 1 || p.N < 1 || p.N > 8 || p.CPU < 1 || p.W*p.H > 100000 {
		return
	}
	if p.Via != "load" {
		p.N = 1
	}
	data := p.data()
	type res struct {
		img  imagef.Image
		tex  interface{ At(geom.Vec) colorf.Color }
		err  error
		oops interface{}
		done bool
	}
	var curve func(float64) float64
	want := linear
	switch p.Curve {
	case "srgb":
		curve = colorf.SRGBToLinear
	case "linear":
		curve = imagef.Linear
		want = func(s float64) float64 { return s }
	}
	switch p.Via {
	case "must", "tex":
		want = linear
	case "height":
		want = func(s float64) float64 { return s }
	}
	rs := make([]res, p.N)
	disk, cut, exits, dead := loader(t, "t.img", data, p.Damage, p.CPU, p.N, func(path string, i int) {
		r := &rs[i]
		defer func() { r.oops = recover() }()
		switch p.Via {
		case "must":
			r.img = imagef.MustLoad(path)
		case "height":
			r.tex = texture.HeightMap(path)
		case "tex":
			r.tex = texture.MustLoad(path)
		default:
			r.img, r.err = imagef.Load(path, curve)
		}
		r.done = true
	})
	if dead {
		t.Fail("hang", "loading does not end")
		return
	}
	if l := disk.Leaked(); len(l) > 0 && exits == 0 {
		t.Fail("leak", "%v still open after loading", l)
	}
	bads := exits
	for _, r := range rs {
		if r.oops != nil {
			t.Fail("crash", "loading panicked: %v", r.oops)
			return
		}
	}
	if p.Via == "load" && exits > 0 {
		t.Fail("crash", "loading ended the program")
		return
	}
	ref, _, err := image.Decode(bytes.NewReader(data))
	must(err)
	for _, r := range rs {
		if !r.done {
			continue
		}
		if r.err != nil {
			bads++
			if r.img != nil {
				t.Fail("partial", "an image returned along with the error %v", r.err)
			}
			continue
		}
		if cut {
			t.Fail("partial", "no error for the first %d of %d bytes", p.Damage.Cut, len(data))
			continue
		}
		if r.tex != nil {
			lookup(t, p, r.tex, ref, want)
			continue
		}
		w, h := r.img.Size()
		if w != p.W || h != p.H {
			t.Fail("size", "image is %dx%d, want %dx%d", w, h, p.W, p.H)
			continue
		}
	pixels:
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				cr, cg, cb, _ := ref.At(x, y).RGBA()
				c := r.img[h-1-y][x] // row 0 is at the bottom
				for k, v := range [3][2]float64{{c.R, float64(cr)}, {c.G, float64(cg)}, {c.B, float64(cb)}} {
					if math.Abs(v[0]-want(v[1]/0xffff)) > 1e-9 {
						t.Fail("pixels", "%s: channel %d of pixel (%d,%d) is %v, want %v", p.Kind, k, x, y, v[0], want(v[1]/0xffff))
						break pixels
					}
				}
			}
		}
		t.Count("images-checked")
	}
	bad := disk.ReadNG > 0 || p.Damage.Gone
	switch {
	case disk.ReadBad > 0 && bads == 0: // after a passing failure, trying again is fine
		t.Fail("silent", "no error although: %s", strings.Join(disk.Hits, "; "))
	case p.Damage.Gone && bads < p.N:
		t.Fail("silent", "no error although the file is missing")
	case !bad && !cut && bads > 0:
		t.Fail("rejected", "a good file was rejected: %v", rs[0].err)
	}
}

// lookup compares the pixels of a texture, which spans [0, 1], with the picture.
func lookup(t *simh.T, p *texPlan, tex interface{ At(geom.Vec) colorf.Color }, ref image.Image, want func(float64) float64) {
	at := func(i, n int) float64 {
		switch {
		case n == 1:
			return 0
		case i == n-1:
			return (float64(i) - 1e-7) / float64(n-1) // at 1 it starts again
		}
		return (float64(i) + 1e-7) / float64(n-1)
	}
	for y := 0; y < p.H; y++ {
		for x := 0; x < p.W; x++ {
			c := tex.At(geom.Vec{at(x, p.W), at(p.H-1-y, p.H), 0})
			cr, cg, cb, _ := ref.At(x, y).RGBA()
			for k, v := range [3][2]float64{{c.R, float64(cr)}, {c.G, float64(cg)}, {c.B, float64(cb)}} {
				if math.Abs(v[0]-want(v[1]/0xffff)) > 1e-5 {
					t.Fail("pixels", "%s as a texture: channel %d of pixel (%d,%d) is %v, want %v", p.Kind, k, x, y, v[0], want(v[1]/0xffff))
					return
				}
			}
		}
	}
	t.Count("textures-checked")
}
