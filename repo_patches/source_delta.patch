From 157c17ea807ab15fbbd35ed739df8e30cc7cd20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:11 +0000
Subject: [PATCH 01/15] fix: anti-aliasing sampled the same position of a pixel
 in every pass

Ctx.Init did not initialise the anti-aliasing sequence, so every sample of
every pixel got the same sub-pixel offset. Give it bases of its own at the
first recursion level, so that sub-pixel position and first bounce are not
correlated.
---
 tracer/ctx.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tracer/ctx.go b/tracer/ctx.go
index f932c68..8170520 100644
--- a/tracer/ctx.go
+++ b/tracer/ctx.go
@@ -50,7 +50,7 @@ func NewCtx(numPix int) *Ctx {
 		sequence2: sequence.NewHalton(5, 7, 1, sh),
 		sequence3: sequence.PseudoRandom(),
 		sequenceL: sequence.NewHalton(5, 7, 11, sh),
-		AA:        sequence.NewHalton(2, 3, 1, sh),
+		AA:        sequence.NewHalton(5, 7, 1, sh),
 		rays:      pool{new: func() interface{} { return new(Ray) }},
 	}
 
@@ -69,6 +69,7 @@ func (c *Ctx) Init(pixel, pass int) {
 	c.sequence2.Init(pixel, pass)
 	c.sequence3.Init(pixel, pass)
 	c.sequenceL.Init(pixel, pass)
+	c.AA.Init(pixel, pass)
 }
 
 func (c *Ctx) Generate2() (u, v float64) {
-- 
2.43.0


From 5d002a2b6792ec800f81e5a28e66bdee90bdbb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:11 +0000
Subject: [PATCH 02/15] fix: anti-aliasing left the pixel in images wider than
 high

A pixel is 1/width wide and high in (u,v) coordinates, not 1/min(width,height).
---
 tracer/sampler.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tracer/sampler.go b/tracer/sampler.go
index da0c020..be48238 100644
--- a/tracer/sampler.go
+++ b/tracer/sampler.go
@@ -156,11 +156,10 @@ func (s *Sampler) imageSize() (w, h int) {
 	return s.sum.Size()
 }
 
-// ??
+// PixelSize returns the size of a pixel in the (u,v) coordinates of IndexToCam,
+// whose u axis spans [0,1] over the image's width. Pixels are square.
 func PixelSize(w, h int) float64 {
-	wf, hf := float64(w), float64(h)
-	minf := math.Min(wf, hf)
-	return 1 / minf
+	return 1 / float64(w)
 }
 
 func makeInt2D(w, h int) [][]int {
-- 
2.43.0


From 030e7e4df88ff12e72d2dd3a2c624666d71c698b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:37 +0000
Subject: [PATCH 03/15] fix: a tree of few objects reported a hit, without
 material, for rays that miss

A leaf node returned T=9e99 when nothing was hit. For a tree that consists of
one leaf that became a phantom hit, and a crash in Shade (nil material) if
nothing else was in view.
---
 tracer/objects/tree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tracer/objects/tree.go b/tracer/objects/tree.go
index f4aef4f..9c7c87f 100644
--- a/tracer/objects/tree.go
+++ b/tracer/objects/tree.go
@@ -94,6 +94,9 @@ func (n *node) Intersect(r *Ray) HitRecord {
 				front = frag
 			}
 		}
+		if front.T == 9e99 {
+			front.T = 0
+		}
 		return front
 	}
 
-- 
2.43.0


From 6704274e719af8931387f1ddca51fbc8e493b272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:15 +0000
Subject: [PATCH 04/15] fix: standard deviation was NaN for pixels whose
 samples are all equal

Rounding can make the variance slightly negative.
---
 tracer/sampler.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tracer/sampler.go b/tracer/sampler.go
index be48238..69d7b04 100644
--- a/tracer/sampler.go
+++ b/tracer/sampler.go
@@ -213,9 +213,10 @@ func (s *Sampler) variancef(ix, iy int) Color {
 	n := float64(s.n[iy][ix])
 	var v Color
 	d := 1 / (n * (n - 1))
-	v.R = (n*sumSq.R - util.Sqr(sum.R)) * d
-	v.G = (n*sumSq.G - util.Sqr(sum.G)) * d
-	v.B = (n*sumSq.B - util.Sqr(sum.B)) * d
+	// rounding may bring the difference just below zero
+	v.R = math.Max(0, n*sumSq.R-util.Sqr(sum.R)) * d
+	v.G = math.Max(0, n*sumSq.G-util.Sqr(sum.G)) * d
+	v.B = math.Max(0, n*sumSq.B-util.Sqr(sum.B)) * d
 	return v
 }
 
-- 
2.43.0


From 7467487e0b8883f3dcc11c3d1eda16f5021cea7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:24 +0000
Subject: [PATCH 05/15] fix: a view that cannot be rendered blocked all later
 bakes

---
 api/server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/api/server.go b/api/server.go
index 8a48748..18ed4f5 100644
--- a/api/server.go
+++ b/api/server.go
@@ -122,15 +122,15 @@ func (s *server) prepareBakery(v View) (chan struct{}, error) {
 	if s.cancel != nil {
 		return nil, errors.New("already baking")
 	}
-	s.cancel = make(chan struct{})
 
 	if s.smplr == nil || s.smplrView != v {
-		spec := v.ApplyTo(s.spec)
+		spec := v.ApplyTo(s.spec) // may panic on an invalid view
 		s.smplr = tracer.NewSampler(spec.ImageFunc(), v.Width, v.Height, v.AntiAlias)
 		s.smplrView = v
 		s.smplrNum = 1
 	}
 
+	s.cancel = make(chan struct{})
 	return s.cancel, nil
 }
 
-- 
2.43.0


From af5cbcde9760615aea6a3c3912f21df82992d428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:24 +0000
Subject: [PATCH 06/15] fix: a cancelled bake interfered with the next one

---
 api/server.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/api/server.go b/api/server.go
index 18ed4f5..aef8e0a 100644
--- a/api/server.go
+++ b/api/server.go
@@ -95,19 +95,22 @@ func (s *server) renderPreview(v View) imagef.Image {
 }
 
 func (s *server) renderView(v View) (imagef.Image, error) {
-	cancel, err := s.prepareBakery(v)
+	smplr, num, cancel, err := s.prepareBakery(v)
 	if err != nil {
 		return nil, err
 	}
-	defer func() { // wrong
+	defer func() {
 		s.mu.Lock()
 		defer s.mu.Unlock()
+		if s.cancel != cancel {
+			return // cancelled, another bake may be in progress by now
+		}
 		s.cancel = nil
 		s.smplrNum++
 	}()
 
-	s.smplr.SampleWithCancel(s.smplrNum, cancel)
-	img := s.smplr.Image()
+	smplr.SampleWithCancel(num, cancel)
+	img := smplr.Image()
 
 	if img == nil {
 		return nil, errors.New("baking cancelled")
@@ -115,12 +118,12 @@ func (s *server) renderView(v View) (imagef.Image, error) {
 	return img, nil
 }
 
-func (s *server) prepareBakery(v View) (chan struct{}, error) {
+func (s *server) prepareBakery(v View) (*tracer.Sampler, int, chan struct{}, error) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
 	if s.cancel != nil {
-		return nil, errors.New("already baking")
+		return nil, 0, nil, errors.New("already baking")
 	}
 
 	if s.smplr == nil || s.smplrView != v {
@@ -131,7 +134,7 @@ func (s *server) prepareBakery(v View) (chan struct{}, error) {
 	}
 
 	s.cancel = make(chan struct{})
-	return s.cancel, nil
+	return s.smplr, s.smplrNum, s.cancel, nil
 }
 
 func (s *server) handleCancel(w http.ResponseWriter, r *http.Request) error {
@@ -142,6 +145,7 @@ func (s *server) handleCancel(w http.ResponseWriter, r *http.Request) error {
 	}
 	close(s.cancel)
 	s.cancel = nil
+	s.smplr = nil // the cancelled bake may still be using it
 	return nil
 }
 
-- 
2.43.0


From 4fd44d55a4546d1a2d61b71c5a3be10e03f0c5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:07 +0000
Subject: [PATCH 07/15] fix: a box seen from very far away, or a very large
 one, panicked

---
 tracer/objects/box.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tracer/objects/box.go b/tracer/objects/box.go
index cb908c3..cb212d0 100644
--- a/tracer/objects/box.go
+++ b/tracer/objects/box.go
@@ -1,7 +1,6 @@
 package objects
 
 import (
-	"fmt"
 	"math"
 
 	. "github.com/barnex/bruteray/tracer/types"
@@ -62,7 +61,18 @@ func (b *box) normal(p Vec) Vec {
 			return unit[i]
 		}
 	}
-	panic(fmt.Sprint("box.normal", p, s.Min, s.Max))
+	// Rounding errors can be larger than that for a large box,
+	// or one seen from very far away: use the nearest face.
+	n, dist := unit[0], math.Inf(1)
+	for i := range p {
+		if d := math.Abs(p[i] - s.Min[i]); d < dist {
+			n, dist = unit[i].Mul(-1), d
+		}
+		if d := math.Abs(p[i] - s.Max[i]); d < dist {
+			n, dist = unit[i], d
+		}
+	}
+	return n
 }
 
 func approx(a, b float64) bool {
-- 
2.43.0


From ce7471acb72d41213fdeed44a7fec7ef1d167f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:22 +0000
Subject: [PATCH 08/15] fix: an isosurface seen from very far away was never
 finished

---
 tracer/objects/isosurface.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tracer/objects/isosurface.go b/tracer/objects/isosurface.go
index cddcc05..caea240 100644
--- a/tracer/objects/isosurface.go
+++ b/tracer/objects/isosurface.go
@@ -128,6 +128,9 @@ func (f *isoSurface) bisect(r *Ray, min, max float64) float64 {
 	tol := f.Tol
 	for (out - in) > tol {
 		mid := (in + out) / 2
+		if mid == in || mid == out {
+			break // tol is below the resolution of floating-point numbers this far away
+		}
 		if f.isoValueAt(r.At(mid)) > 0 {
 			in = mid
 		} else {
-- 
2.43.0


From 0a1520a313ff13040d2570a2cf51ec76ce9dea19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:56 +0000
Subject: [PATCH 09/15] fix: a failing disk went unnoticed when output files
 were flushed or closed

---
 api/render.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/api/render.go b/api/render.go
index f24ccb9..9b1d11a 100644
--- a/api/render.go
+++ b/api/render.go
@@ -107,8 +107,10 @@ func savef(img image.Image, fname, suffix string) error {
 	if err != nil {
 		return err
 	}
-	defer f.Close()
 	_, err = f.Write(b.Bytes())
+	if e := f.Close(); err == nil {
+		err = e
+	}
 	return err
 }
 
@@ -129,8 +131,13 @@ func savePPM(fname string, img imagef.Image) error {
 	if err != nil {
 		return err
 	}
-	defer f.Close()
 	w := bufio.NewWriter(f)
-	defer w.Flush()
-	return ppm.EncodeAscii16(w, img)
+	err = ppm.EncodeAscii16(w, img)
+	if e := w.Flush(); err == nil {
+		err = e
+	}
+	if e := f.Close(); err == nil {
+		err = e
+	}
+	return err
 }
-- 
2.43.0


From 1a10e5cbca4c4c237fcba1cba4fc9cd4f802cd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:56 +0000
Subject: [PATCH 10/15] fix: the binary PPM encoder ignored write errors

---
 imagef/ppm/ppm.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/imagef/ppm/ppm.go b/imagef/ppm/ppm.go
index 34b3304..79e7671 100644
--- a/imagef/ppm/ppm.go
+++ b/imagef/ppm/ppm.go
@@ -41,11 +41,17 @@ func Encode48BE(w io.Writer, img imagef.Image) error {
 		for j := range img[i] {
 			c := img[i][j]
 			encodeUint16BE(buf, uint16(trunc(c.R)))
-			w.Write(buf)
+			if _, err := w.Write(buf); err != nil {
+				return err
+			}
 			encodeUint16BE(buf, uint16(trunc(c.G)))
-			w.Write(buf)
+			if _, err := w.Write(buf); err != nil {
+				return err
+			}
 			encodeUint16BE(buf, uint16(trunc(c.B)))
-			w.Write(buf)
+			if _, err := w.Write(buf); err != nil {
+				return err
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From 1e07c0eaf3dc4a208468978581e01f214e50b75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:56 +0000
Subject: [PATCH 11/15] fix: a PLY header with large counts crashed the program

---
 tracer/objects/ply/parser.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/tracer/objects/ply/parser.go b/tracer/objects/ply/parser.go
index f3a9d0f..9b6eb3f 100644
--- a/tracer/objects/ply/parser.go
+++ b/tracer/objects/ply/parser.go
@@ -54,15 +54,23 @@ func (p *parser) parse() ([]geom.Vec, [][3]int) {
 		}
 	}
 
-	vertex := make([]geom.Vec, numVertex)
+	if numVertex < 0 || numFace < 0 {
+		p.panicf("bad header: %v vertices, %v faces", numVertex, numFace)
+	}
+
+	// The file may have less data than its header says:
+	// do not allocate before it has been read.
+	vertex := []geom.Vec{}
 	for i := 0; i < numVertex; i++ {
 		fields := strings.Fields(p.readLine())
+		var v geom.Vec
 		for c := 0; c < 3; c++ {
-			vertex[i][c] = p.atof(fields[c])
+			v[c] = p.atof(fields[c])
 		}
+		vertex = append(vertex, v)
 	}
 
-	faces := make([][3]int, 0, numFace)
+	faces := [][3]int{}
 	for i := 0; i < numFace; i++ {
 		fields := strings.Fields(p.readLine())
 
-- 
2.43.0


From a64efc60289413db1e0000b89a8dd61b23980250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:24 +0000
Subject: [PATCH 12/15] fix: an image with rows of different lengths crashed
 the viewer

---
 cmd/bruteray-view/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/bruteray-view/main.go b/cmd/bruteray-view/main.go
index 8382b35..7df556b 100644
--- a/cmd/bruteray-view/main.go
+++ b/cmd/bruteray-view/main.go
@@ -250,6 +250,11 @@ func (s *state) fetchHTTP(prefix string, v api.View) (imagef.Image, error) {
 	if err != nil {
 		return nil, err
 	}
+	for _, row := range img {
+		if len(row) != len(img[0]) {
+			return nil, fmt.Errorf("malformed image: rows of %v and %v pixels", len(img[0]), len(row))
+		}
+	}
 	if len(img) == 0 {
 		img = nil // hack because gob decodes nil into empty slice
 	}
-- 
2.43.0


From 4355867580c5bd05b6a0f5184a5f0a2d9d5616dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:20 +0000
Subject: [PATCH 13/15] fix: the viewer got stuck in a window less than 8
 pixels high

---
 cmd/bruteray-view/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/bruteray-view/main.go b/cmd/bruteray-view/main.go
index 7df556b..c19b3cc 100644
--- a/cmd/bruteray-view/main.go
+++ b/cmd/bruteray-view/main.go
@@ -155,6 +155,12 @@ func (s *state) renderPreview() imagef.Image {
 	downscaled := s.view // copy
 	downscaled.Width /= maxDownScale
 	downscaled.Height /= maxDownScale
+	if downscaled.Width == 0 {
+		downscaled.Width = 1
+	}
+	if downscaled.Height == 0 {
+		downscaled.Height = 1
+	}
 	img, err := s.fetchHTTP("preview", downscaled)
 	if err != nil {
 		logErr(err)
-- 
2.43.0


From 8a277ec5a44d1b836c2ff10019a0b7bcb86c1c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:27 +0000
Subject: [PATCH 14/15] fix: the watcher crashed when the program could not be
 started

---
 cmd/bruteray-watch/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/bruteray-watch/main.go b/cmd/bruteray-watch/main.go
index 9c15d27..64029f0 100644
--- a/cmd/bruteray-watch/main.go
+++ b/cmd/bruteray-watch/main.go
@@ -62,6 +62,7 @@ func rerun(fname string, args []string) {
 
 	if err := cmd.Start(); err != nil {
 		fmt.Fprintln(os.Stderr, err)
+		return
 	}
 	out, err := exec.Command("renice", "20", fmt.Sprint(cmd.Process.Pid)).CombinedOutput()
 	if err != nil {
-- 
2.43.0


From 8f42feb1b3ea59a035df72cef67b5c57a498cc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:27 +0000
Subject: [PATCH 15/15] fix: the watcher exited when the source file was
 missing for a moment

---
 cmd/bruteray-watch/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/bruteray-watch/main.go b/cmd/bruteray-watch/main.go
index 64029f0..0174113 100644
--- a/cmd/bruteray-watch/main.go
+++ b/cmd/bruteray-watch/main.go
@@ -27,6 +27,9 @@ func watch(fname string, args []string) {
 	for {
 		time.Sleep(*flagSleep)
 		info, err := os.Stat(fname)
+		if err != nil && !ts.IsZero() {
+			continue // e.g. an editor is about to replace the file
+		}
 		check(err)
 		if info.ModTime() != ts {
 			rerun(fname, args)
-- 
2.43.0

