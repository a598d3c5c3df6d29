//go:build go1.25

// Package scenes builds small random scenes from every primitive the library
// offers. It is laid into the repository's module by the build overlay.
package scenes

import (
	"fmt"
	"image"
	"image/color"
	"image/jpeg"
	"image/png"
	"math"
	"os"
	"simh"

	"github.com/barnex/bruteray/api"
	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/imagef"
	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/texture"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/cameras"
	"github.com/barnex/bruteray/tracer/lights"
	"github.com/barnex/bruteray/tracer/materials"
	"github.com/barnex/bruteray/tracer/objects"
	"github.com/barnex/bruteray/tracer/test"
)

// An Item is one ingredient: a kind and the seed of its parameters.
type Item struct {
	K string `json:"k"`
	S uint64 `json:"s"`
}

// A Scene is a recipe.
type Scene struct {
	Objects   []Item `json:"objects"`
	Lights    []Item `json:"lights"`
	Media     []Item `json:"media"`
	Recursion int    `json:"recursion"`
	Camera    Item   `json:"camera"`
}

var ObjectKinds = []string{"backdrop", "box", "boxbounds", "cyl", "cylx", "cylz", "cylcaps", "parametric", "ply", "obj", "rectv", "rect", "sphere", "tree", "bigtree", "iso", "isotex", "difference", "and", "or", "andnot", "restrict", "remove", "rotate", "scale", "translate", "remap", "bounded", "withmat", "triangle", "quad", "disk", "hollow", "meshuv", "nested", "place", "rotateat", "scaleto", "csg", "csg", "bigmesh"}
var MaterialKinds = []string{"matte", "matte", "reflective", "refractive", "transparent", "flat", "shiny", "blend", "blendmap", "fresnel", "twosided", "normal", "refractive2"}
var TextureKinds = []string{"apiscale", "apiload", "const", "checkers", "grid", "nearest", "file", "jpeg", "heightmap", "pan", "scale", "fisheye", "func", "func2d"}
var LightKinds = []string{"rect", "disk", "sun", "point", "transformed", "transdisk"}
var MediumKinds = []string{"expfog", "fog", "fogheight"}
var CameraKinds = []string{"projective", "projective", "isox", "isoy", "isoz", "envmap"}

// Gen makes a recipe.
func Gen(r *simh.R) Scene {
	s := Scene{Recursion: r.Pick(1, 2, 2, 2)}
	n := r.Pick(1, 2, 3, 4, 4, 9)
	for i := 0; i < n; i++ {
		s.Objects = append(s.Objects, Item{r.PickS(ObjectKinds...), r.U64()})
	}
	if r.Bool(0.5) {
		s.Objects = append(s.Objects, Item{"floor", r.U64()})
	}
	n = r.Pick(0, 1, 2, 3, 3, 6)
	for i := 0; i < n; i++ {
		s.Lights = append(s.Lights, Item{r.PickS(LightKinds...), r.U64()})
	}
	if r.Bool(0.35) {
		for i, n := 0, r.Pick(1, 1, 2); i < n; i++ {
			s.Media = append(s.Media, Item{r.PickS(MediumKinds...), r.U64()})
		}
	}
	s.Camera = GenCamera(r)
	return s
}

// GenNoisy makes a recipe for a scene whose image depends on the clock that
// seeds its random numbers: deeper recursion, or a lens.
func GenNoisy(r *simh.R) Scene {
	s := Gen(r)
	switch r.Intn(3) {
	case 0:
		s.Recursion = r.Range(3, 5)
	case 1:
		s.Camera.K = "lens"
	default:
		s.Recursion = r.Range(3, 4)
		s.Camera.K = "lens"
	}
	return s
}

func GenCamera(r *simh.R) Item { return Item{r.PickS(CameraKinds...), r.U64()} }

// Spec builds the scene anew.
func (s *Scene) Spec() api.Spec {
	spec := api.Spec{Recursion: s.Recursion, Camera: Camera(s.Camera)}
	for _, o := range s.Objects {
		spec.Objects = append(spec.Objects, Object(o))
	}
	for _, l := range s.Lights {
		spec.Lights = append(spec.Lights, Light(l))
	}
	for _, m := range s.Media {
		spec.Media = append(spec.Media, Medium(m))
	}
	return spec
}

func vec(r *simh.R, s float64) api.Vec {
	return api.V(r.In(-s, s), r.In(-s, s), r.In(-s, s))
}

func col(r *simh.R) api.Color { return api.C(r.F(), r.F(), r.F()) }

func Camera(it Item) tracer.Camera {
	r := simh.NewR(it.S)
	var c *cameras.WithTransform
	switch it.K {
	default:
		panic("scenes: camera " + it.K)
	case "projective":
		c = cameras.Projective(r.In(50, 120) * geom.Deg).Translate(api.V(r.In(-1, 1), r.In(0.3, 2), r.In(2, 4)))
	case "lens":
		c = cameras.ProjectiveAperture(r.In(50, 120)*geom.Deg, r.In(0.02, 0.3), r.In(1, 5)).Translate(api.V(r.In(-1, 1), r.In(0.3, 2), r.In(2, 4)))
	case "isox":
		return cameras.Isometric(geom.X, r.In(2, 6))
	case "isoy":
		return cameras.Isometric(geom.Y, r.In(2, 6))
	case "isoz":
		return cameras.Isometric(geom.Z, r.In(2, 6)).Translate(vec(r, 0.3))
	case "envmap":
		c = cameras.EnvironmentMap().Translate(api.V(0, 0.5, r.In(1, 3)))
	}
	if r.Bool(0.5) {
		c = c.YawPitchRoll(r.In(-0.4, 0.4), r.In(-0.4, 0.4), r.In(-0.3, 0.3))
	}
	return c
}

func Light(it Item) tracer.Light {
	r := simh.NewR(it.S)
	c := col(r).EV(r.In(0, 5))
	p := api.V(r.In(-3, 3), r.In(1.5, 4), r.In(-2, 3))
	switch it.K {
	default:
		panic("scenes: light " + it.K)
	case "rect":
		return lights.RectangleLight(c, r.In(0.2, 1.5), r.In(0.2, 1.5), p)
	case "disk":
		return lights.DiskLight(c, r.In(0.2, 1.5), p)
	case "sun":
		return lights.SunLight(c, r.In(0.05, 0.5), r.In(-1, 1), r.In(0.2, 1.4))
	case "point":
		return lights.PointLight(c.Mul(20), p)
	case "transformed":
		return lights.Transformed(lights.RectangleLight(c, r.In(0.2, 1.5), r.In(0.2, 1.5), p), geom.Rotate(p, api.V(0, 0, 1), r.In(-1, 1)))
	case "transdisk":
		return lights.Transformed(lights.DiskLight(c, r.In(0.2, 1.5), p), geom.Rotate(p, api.V(1, 0, 0), r.In(-1, 1)))
	}
}

func Medium(it Item) tracer.Medium {
	r := simh.NewR(it.S)
	switch it.K {
	default:
		panic("scenes: medium " + it.K)
	case "expfog":
		return api.ExpFog(r.In(0.05, 0.5), col(r), r.In(0.3, 3))
	case "fog":
		return api.Fog(r.In(0.05, 0.5), math.Inf(1), r.Range(1, 3))
	case "fogheight":
		return api.Fog(r.In(0.05, 0.5), r.In(0.5, 3), r.Range(1, 3))
	}
}

func Texture(r *simh.R, depth int) texture.Texture {
	k := r.PickS(TextureKinds...)
	if depth <= 0 {
		k = "const"
	}
	switch k {
	case "checkers":
		return texture.Checkers(r.In(0.5, 4), r.In(0.5, 4), Texture(r, depth-1), Texture(r, depth-1))
	case "grid":
		return texture.Grid(r.In(0.02, 0.2), r.In(0.5, 4), r.In(0.5, 4), Texture(r, depth-1), Texture(r, depth-1))
	case "nearest":
		img := testImage(r.Range(1, 5), r.Range(1, 5), r.U64())
		f := texture.Nearest(img)
		// Nearest indexes without wrapping: hand it coordinates in [0, 1]
		return texture.Func(func(p geom.Vec) colorf.Color {
			return f.At(geom.Vec{clamp01(p[0]), clamp01(p[1]), 0})
		})
	case "file":
		return texture.MustLoad(file("a.png"))
	case "jpeg":
		return texture.MustLoad(file("a.jpg"))
	case "apiload":
		return api.LoadTexture(file("a.png"))
	case "apiscale":
		return api.LoadTexture(file("a.jpg")).Scale(r.In(0.2, 3), r.In(0.2, 3))
	case "heightmap":
		return texture.HeightMap(file("b.png"))
	case "pan":
		return texture.Pan(Texture(r, depth-1), r.In(-2, 2), r.In(-2, 2))
	case "scale":
		return texture.ScaleUV(Texture(r, depth-1), r.In(0.2, 3), r.In(0.2, 3))
	case "fisheye":
		return texture.MapFisheye(texture.MustLoad(file("a.png")))
	case "func":
		a, b := r.In(1, 9), r.In(1, 9)
		return texture.Func(func(p geom.Vec) colorf.Color {
			return colorf.Color{R: 0.5 + 0.5*math.Sin(a*p[0]), G: 0.5 + 0.5*math.Sin(b*p[1]), B: 0.5 + 0.5*math.Sin(a*p[2])}
		})
	case "func2d":
		a, b := r.In(1, 9), r.In(1, 9)
		return texture.Func2D(func(u, v float64) colorf.Color {
			return colorf.Color{R: 0.5 + 0.5*math.Sin(a*u), G: 0.5 + 0.5*math.Sin(b*v), B: 0.5}
		})
	}
	return col(r)
}

func clamp01(x float64) float64 {
	if !(x > 0) {
		return 0
	}
	if x > 1 {
		return 1
	}
	return x
}

func Material(r *simh.R, depth int) tracer.Material {
	k := r.PickS(MaterialKinds...)
	if depth <= 0 {
		k = r.PickS("matte", "flat", "reflective")
	}
	switch k {
	default:
		panic("scenes: material " + k)
	case "matte":
		return materials.Matte(Texture(r, 2))
	case "flat":
		return materials.Flat(Texture(r, 2))
	case "reflective":
		return materials.Reflective(col(r))
	case "refractive":
		return materials.Refractive(r.In(1.1, 2))
	case "refractive2":
		return materials.Refractive2(r.In(1, 1.5), r.In(1, 1.5))
	case "transparent":
		return materials.Transparent(Texture(r, 2), r.Bool(0.5))
	case "shiny":
		return materials.Shiny(Texture(r, 2), r.In(0.05, 0.5))
	case "blend":
		a := r.F()
		return materials.Blend(a, Material(r, depth-1), 1-a, Material(r, depth-1))
	case "blendmap":
		return materials.BlendMap(Texture(r, 2), Material(r, depth-1), Material(r, depth-1))
	case "fresnel":
		return materials.ReflectFresnel(r.In(1.1, 2), Material(r, depth-1))
	case "twosided":
		return materials.TwoSided(Material(r, depth-1), Material(r, depth-1))
	case "normal":
		return test.Normal
	}
}

func solid(r *simh.R) api.Object {
	m := Material(r, 1)
	c := api.V(r.In(-1, 1), r.In(0.2, 1.2), r.In(-1, 1))
	switch r.Intn(5) {
	case 0:
		return api.Box(m, r.In(0.5, 1.5), r.In(0.5, 1.5), r.In(0.5, 1.5), c)
	case 1:
		return api.CylinderWithCaps(m, r.In(0.5, 1.5), r.In(0.5, 1.5), c)
	case 2:
		return api.Cylinder(m, r.In(0.5, 1.5), r.In(0.5, 1.5), c)
	}
	return api.Sphere(m, r.In(0.5, 1.8), c)
}

func Object(it Item) api.Object {
	return object(it, 2)
}

func object(it Item, depth int) api.Object {
	r := simh.NewR(it.S)
	m := Material(r, 2)
	c := api.V(r.In(-1, 1), r.In(0.2, 1.2), r.In(-1, 1))
	sub := func() api.Object {
		k := r.PickS(ObjectKinds[1:]...)
		if depth <= 1 {
			k = r.PickS("sphere", "box", "cyl", "rect")
		}
		return object(Item{k, r.U64()}, depth-1)
	}
	switch it.K {
	default:
		panic("scenes: object " + it.K)
	case "floor":
		return api.Rectangle(m, 8, 8, api.V(0, 0, 0))
	case "backdrop":
		return api.Backdrop(materials.Flat(Texture(r, 2)))
	case "box":
		return api.Box(m, r.In(0.5, 1.5), r.In(0.5, 1.5), r.In(0.5, 1.5), c)
	case "boxbounds":
		return api.BoxWithBounds(m, c, c.Add(api.V(r.In(0.3, 1), r.In(0.3, 1), r.In(0.3, 1))))
	case "cyl":
		return api.Cylinder(m, r.In(0.5, 1.5), r.In(0.5, 1.5), c)
	case "cylx":
		return api.CylinderX(m, r.In(0.5, 1.5), r.In(0.5, 1.5), c)
	case "cylz":
		return api.CylinderZ(m, r.In(0.5, 1.5), r.In(0.5, 1.5), c)
	case "cylcaps":
		return api.CylinderWithCaps(m, r.In(0.5, 1.5), r.In(0.5, 1.5), c)
	case "parametric":
		a := r.In(1, 4)
		return api.Parametric(m, r.Range(2, 7), r.Range(2, 7), func(u, v float64) api.Vec {
			return api.V(2*u-1, 0.5+0.5*math.Sin(a*u)*math.Cos(a*v), 2*v-1).Add(c.Mul(0.3))
		})
	case "bigmesh":
		a := r.In(1, 4)
		return api.Parametric(m, r.Range(12, 24), r.Range(12, 24), func(u, v float64) api.Vec {
			return api.V(2*u-1, 0.5+0.5*math.Sin(a*u)*math.Cos(a*v), 2*v-1).Add(c.Mul(0.3))
		})
	case "ply":
		return api.PlyFile(m, file("m.ply"), geom.Scale(api.V(0, 0, 0), r.In(0.5, 1.5)))
	case "obj":
		return api.ObjFile(map[string]api.Material{"a": m, "b": Material(r, 1)}, file("m.obj"), geom.Translate(c.Mul(0.3)))
	case "rectv":
		return api.RectangleWithVertices(m, c, c.Add(api.V(r.In(0.3, 2), r.In(-0.3, 0.3), 0)), c.Add(api.V(0, r.In(0.3, 2), r.In(-0.3, 0.3))))
	case "rect":
		return api.Rectangle(m, r.In(0.5, 3), r.In(0.5, 3), c)
	case "sphere":
		return api.Sphere(m, r.In(0.5, 1.8), c)
	case "tree":
		var ch []api.Object
		for i, n := 0, r.Range(1, 4); i < n; i++ {
			ch = append(ch, solid(r))
		}
		return api.Tree(ch...)
	case "bigtree":
		var ch []api.Object
		for i, n := 0, r.Range(8, 20); i < n; i++ {
			ch = append(ch, api.Sphere(m, r.In(0.1, 0.4), api.V(r.In(-1.5, 1.5), r.In(0, 1.5), r.In(-1.5, 1.5))))
		}
		return api.Tree(ch...)
	case "iso":
		a := r.In(1, 5)
		return api.IsoSurface(m, 2, r.In(0.5, 1), 2, func(u, v float64) float64 {
			return 0.5 + 0.5*math.Sin(a*u)*math.Cos(a*v)
		}).Translate(api.V(-1, 0, -1))
	case "isotex":
		return api.IsoSurface(m, 2, r.In(0.5, 1), 2, api.LoadHeightMap(file("b.png")).HeightMap()).Translate(api.V(-1, 0, -1))
	case "difference":
		return api.Difference(solid(r), solid(r))
	case "and":
		return solid(r).And(solid(r))
	case "or":
		return solid(r).Or(solid(r))
	case "andnot":
		return solid(r).AndNot(solid(r))
	case "restrict":
		return solid(r).Restrict(solid(r))
	case "remove":
		return solid(r).Remove(solid(r))
	case "rotate":
		return sub().Rotate(api.V(r.F(), r.F(), r.F()+0.1).Normalized(), r.In(-2, 2))
	case "scale":
		return sub().Scale(r.In(0.4, 1.6))
	case "translate":
		return sub().Translate(vec(r, 0.5))
	case "remap":
		a := r.In(0.5, 3)
		return sub().Remap(func(p api.Vec) api.Vec { return p.Mul(a) })
	case "bounded":
		return api.Bounded(sub())
	case "withmat":
		return sub().WithMaterial(m)
	case "triangle":
		return api.Object{Interface: objects.Triangle(m, c, c.Add(api.V(r.In(0.5, 2), 0, 0)), c.Add(api.V(0, r.In(0.5, 2), 0)))}
	case "quad":
		return api.Object{Interface: objects.Quadrilateral(m, c, c.Add(api.V(1, 0, 0)), c.Add(api.V(1.3, 1.2, 0)), c.Add(api.V(0, 1, 0.1)))}
	case "disk":
		return api.Object{Interface: objects.Disk(m, r.In(0.5, 2), c)}
	case "hollow":
		return api.Object{Interface: objects.Hollow(solid(r).Interface)}
	case "meshuv":
		return api.Object{Interface: objects.MeshWithUV(m, []geom.Vec{c, c.Add(api.V(1, 0, 0)), c.Add(api.V(0, 1, 0)), c.Add(api.V(0, 0, 1))}, [][3]int{{0, 1, 2}, {0, 1, 3}, {1, 2, 3}}, []geom.Vec2{{0, 0}, {1, 0}, {0, 1}, {1, 1}})}
	case "place":
		o := sub()
		switch r.Intn(6) {
		case 0:
			return o.WithCenter(c)
		case 1:
			return o.WithCenterBottom(c)
		case 2:
			return o.Translate(c.Sub(o.CenterTop()))
		case 3:
			return o.Translate(c.Sub(o.CenterFront()))
		case 4:
			return o.Translate(c.Sub(o.CenterBack()))
		}
		return o.Translate(c.Sub(o.CenterBottom()))
	case "rotateat":
		return sub().RotateAt(c, api.V(r.F(), r.F()+0.1, r.F()).Normalized(), r.In(-2, 2))
	case "scaleto":
		if r.Bool(0.5) {
			return solid(r).ScaleToSize(r.In(0.5, 2))
		}
		return sub().ScaleAt(c, r.In(0.5, 1.5))
	case "csg":
		a, b := sub(), sub()
		if r.Bool(0.5) {
			a = solid(r)
		}
		switch r.Intn(6) {
		case 0:
			return a.And(b)
		case 1:
			return a.Or(b)
		case 2:
			return a.AndNot(b)
		case 3:
			return a.Restrict(b)
		case 4:
			return a.Remove(b)
		}
		return api.Difference(b, a)
	case "nested":
		return api.Tree(sub(), solid(r).AndNot(solid(r))).Rotate(api.V(0, 1, 0), r.In(-1, 1))
	}
}

func testImage(w, h int, seed uint64) imagef.Image {
	img := imagef.MakeImage(w, h)
	r := simh.NewR(seed)
	for y := range img {
		for x := range img[y] {
			img[y][x] = col(r)
		}
	}
	return img
}

var files string

func file(name string) string {
	if files == "" {
		files = simh.Scratch + "/scenes"
		check(os.MkdirAll(files, 0777))
		writeFiles()
	}
	return files + "/" + name
}

// Prepare writes the files that scenes load.
func Prepare() { file("") }

func check(err error) {
	if err != nil {
		panic(fmt.Sprint("scenes: ", err))
	}
}

func writeFiles() {
	r := simh.NewR(77)
	for _, n := range []string{"a.png", "b.png", "a.jpg"} {
		img := image.NewNRGBA(image.Rect(0, 0, 5, 4))
		for y := 0; y < 4; y++ {
			for x := 0; x < 5; x++ {
				img.SetNRGBA(x, y, color.NRGBA{uint8(r.Intn(256)), uint8(r.Intn(256)), uint8(r.Intn(256)), 255})
			}
		}
		f, err := os.Create(files + "/" + n)
		check(err)
		if n == "a.jpg" {
			check(jpeg.Encode(f, img, nil))
		} else {
			check(png.Encode(f, img))
		}
		check(f.Close())
	}
	ply := "ply\nformat ascii 1.0\nelement vertex 5\nproperty float x\nproperty float y\nproperty float z\nelement face 6\nproperty list uchar int vertex_indices\nend_header\n" +
		"-1 0 -1\n1 0 -1\n1 0 1\n-1 0 1\n0 1.5 0\n3 0 1 4\n3 1 2 4\n3 2 3 4\n3 3 0 4\n3 0 1 2\n3 0 2 3\n"
	check(os.WriteFile(files+"/m.ply", []byte(ply), 0666))
	obj := "v -1 0 -1\nv 1 0 -1\nv 1 0 1\nv -1 0 1\nv 0 1.5 0\nusemtl a\nf 1 2 5\nf 2 3 5\nusemtl b\nf 3 4 5\nf 4 1 5\n"
	check(os.WriteFile(files+"/m.obj", []byte(obj), 0666))
}
