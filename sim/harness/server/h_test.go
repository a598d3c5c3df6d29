//go:build go1.25

package server

import (
	"bytes"
	"context"
	"encoding/gob"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"simh"

	"github.com/barnex/bruteray/api"
	"github.com/barnex/bruteray/imagef"
	"github.com/barnex/bruteray/zzsim/scenes"
	"github.com/barnex/bruteray/zzsim/srv"
)

func TestMain(m *testing.M) {
	os.Args = []string{"render"}
	fresh := func() interface{} { return new(plan) }
	simh.Main(
		simh.Prop{ID: "C06", Gen: genC06, New: fresh, Run: runC06, Races: true},
		simh.Prop{ID: "C07", Gen: genC07, New: fresh, Run: runC07},
		simh.Prop{ID: "C08", Gen: genC08, New: fresh, Run: runC08},
		simh.Prop{ID: "C09", Gen: genC09, New: fresh, Run: runC09},
	)
	os.Exit(3)
}

const addr = "sim:7"

// ---- plans ----

type req struct {
	Kind  string `json:"kind"`            // preview bake cancel bad raw
	View  int    `json:"view"`            // index
	Wait  int    `json:"wait"`            // us before sending
	Abort int    `json:"abort,omitempty"` // us until the client gives up; 0: never
	Body  string `json:"body,omitempty"`  // of bad and raw
}

type client struct {
	Keep bool  `json:"keep"` // keep connections alive
	Post bool  `json:"post"` // use POST instead of GET
	Reqs []req `json:"reqs"`
}

type plan struct {
	Views   []api.View      `json:"views"`
	Clients []client        `json:"clients"`
	Load    srv.Load        `json:"load"`
	Rich    int             `json:"rich,omitempty"` // what the scene has besides the essentials
	LatUs   int             `json:"latus"`
	Faults  []simh.NetFault `json:"faults"`
	CPU     int             `json:"cpu"`
	Via     string          `json:"via"` // serve, render
	NetSeed uint64          `json:"netseed"`
	Scene   *scenes.Scene   `json:"scene,omitempty"` // C09: a scene of real objects
	Probe   api.View        `json:"probe"`           // C09: asked for in the end
}

func genSize(r *simh.R) (int, int) {
	switch r.Intn(8) {
	case 0:
		return r.Range(17, 36), r.Range(1, 20)
	case 1:
		return r.Range(1, 5), r.Range(17, 36)
	case 2:
		return 1, 1
	}
	return r.Range(1, 12), r.Range(1, 12)
}

func genView(r *simh.R, tag int) api.View {
	v := api.View{CamPos: srv.At(tag, r.In(-1, 1), r.In(-1, 1)), AntiAlias: r.Bool(0.5)}
	v.Width, v.Height = genSize(r)
	if r.Bool(0.7) {
		v.CamYaw, v.CamPitch = r.In(-4, 4), r.In(-1.6, 1.6)
	}
	switch r.Intn(8) {
	case 0:
		v.DebugNormals = r.Range(1, 2)
	case 1:
		v.DebugIsometric, v.DebugIsometricDir, v.DebugIsometricFOV = true, r.Intn(3), r.In(1, 12)
	case 2:
		v.DebugIsometric, v.DebugIsometricDir, v.DebugIsometricFOV = false, r.Intn(3), r.In(1, 12)
	case 3:
		if r.Bool(0.5) {
			v.DebugNormals = r.Range(1, 2)
		}
		v.DebugIsometric, v.DebugIsometricDir, v.DebugIsometricFOV = true, r.Intn(3), r.In(1, 12)
	}
	return v
}

// genViews makes views, some of which differ in a single field; tagged ones in
// their position too.
func genViews(r *simh.R, n int, plain, tagged bool) (vs []api.View) {
	for i := 0; i < n; i++ {
		v := genView(r, i+1)
		if i > 0 && r.Bool(0.5) {
			x := v.CamPos[0]
			v = alter(r, vs[r.Intn(i)], v)
			if tagged {
				v.CamPos[0] = x
			}
		}
		if plain {
			v.DebugNormals, v.DebugIsometric = 0, false
		}
		vs = append(vs, v)
	}
	return vs
}

// vary makes n views that differ from the first, or one another, in one field.
func vary(r *simh.R, base api.View, n int) []api.View {
	vs := []api.View{base}
	for len(vs) < n {
		vs = append(vs, alter(r, vs[r.Intn(len(vs))], genView(r, len(vs)+1)))
	}
	return vs
}

// alter returns o with one field changed, to a value of v's perhaps.
func alter(r *simh.R, o, v api.View) api.View {
	switch r.Intn(12) {
	case 0:
		o.Width = v.Width
	case 1:
		o.Height = v.Height
	case 2:
		o.AntiAlias = !o.AntiAlias
	case 3:
		o.CamYaw += r.In(0.1, 1)
	case 4:
		o.CamPitch += r.In(0.1, 0.3)
	case 5:
		o.CamPos[1] += 0.3
	case 6:
		o.CamPos[2] += 0.3
	case 7:
		o.CamPos[0] = v.CamPos[0]
	case 8:
		o.DebugNormals = (o.DebugNormals + r.Range(1, 2)) % 3
	case 9:
		o.DebugIsometricDir = (o.DebugIsometricDir + r.Range(1, 2)) % 3
	case 10:
		o.DebugIsometricFOV = v.DebugIsometricFOV + 0.5
	case 11:
		o.Width, o.Height = o.Height, o.Width
		o.DebugIsometric = !o.DebugIsometric
	}
	return o
}

func genWait(r *simh.R) int {
	switch r.Intn(4) {
	case 0:
		return 0
	case 1:
		return r.Intn(300)
	case 2:
		return r.Intn(10000)
	}
	return r.Intn(400000)
}

func genBase(r *simh.R) *plan {
	p := &plan{Load: srv.GenLoad(r), LatUs: r.Pick(0, 50, 1000, 20000), CPU: r.Range(1, 4), NetSeed: r.U64(), Via: "serve"}
	if r.Bool(0.2) {
		p.Via = "render"
	}
	if r.Bool(0.4) {
		p.Rich = r.Intn(64)
	}
	return p
}

var badBodies = []string{"", "{", "null", "[]", "12", "\"x\"", "{}", `{"Width":-1,"Height":4}`, `{"Width":4,"Height":-1}`, `{"Width":-3,"Height":-5}`, `{"Width":1e3}`, `{"Width":"4"}`, `{"Width":4,"Height":4,"CamPos":[1,2]}`, `{"Width":4,"Height":4,"CamPos":[1,2,3,4]}`, `{"Width":4,"Height":4,"CamYaw":"NaN"}`,
	`{"Width":4,"Height":4,"DebugIsometric":true,"DebugIsometricFOV":3,"DebugIsometricDir":3}`, `{"Width":4,"Height":4,"DebugIsometric":true,"DebugIsometricFOV":-3,"DebugIsometricDir":-1}`, `{"Width":4,"Height":4,"DebugIsometric":true,"DebugIsometricFOV":8,"DebugIsometricDir":100000}`, `{"Width":0,"Height":0}`, `{"Width":0,"Height":3}`, `{"Width":3,"Height":0}`, `{"Width":5000000000,"Height":5000000000}`, `{"Width":4,"Height":4,"DebugNormals":-4}`, `{"Width":4,"Height":4,"DebugNormals":77}`, `{"Width":9223372036854775807,"Height":1}`, "{\"Width\":4,\"Height\"", "\x00\xff\xfe", `{"Width":3,"Height":3}{"Width":4,"Height":4}`, `{"Width":-9223372036854775808,"Height":-9223372036854775808}`}

var rawBytes = []string{"", "GET", "GET /bake HTTP/1.1\r\n", "GET /bake HTTP/1.1\r\nHost: x\r\n\r\n", "GET /bake HTTP/1.1\r\nHost: x\r\nContent-Length: 400\r\n\r\n{\"Width\":", "\x00\x01\x02\r\n\r\n", "POST /cancel HTTP/1.0\r\n\r\n", "GET /preview HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n5\r\n{\"Wi", "GET /nothing HTTP/1.1\r\nHost: x\r\n\r\n", "GET /bake HTTP/1.1\r\nHost: x\r\nContent-Length: 23\r\n\r\n{\"Width\":5,\"Height\":55}", "GET /preview HTTP/1.1\r\nHost: x\r\nContent-Length: 24\r\n\r\n{\"Width\":-5,\"Height\":55}GET /bake HTTP/1.1\r\nHost: x\r\n\r\n"}

func genBad(r *simh.R) req {
	if r.Bool(0.3) {
		return req{Kind: "raw", Wait: genWait(r), Body: rawBytes[r.Intn(len(rawBytes))]}
	}
	return req{Kind: r.PickS("badbake", "badbake", "badpreview"), Wait: genWait(r), Body: badBodies[r.Intn(len(badBodies))]}
}

func genReq(r *simh.R, nv int) req {
	q := req{Kind: r.PickS("preview", "bake", "bake", "bake", "cancel"), View: r.Intn(nv), Wait: genWait(r)}
	return q
}

// genHammer makes clients that bake a view or two again and again, each taking
// its chance as soon as the one before is done.
func genHammer(r *simh.R) *plan {
	p := genBase(r)
	p.LatUs = r.Pick(0, 0, 0, 50)
	if r.Bool(0.6) {
		p.Load.Share = 0
	} else {
		p.Load.MaxUs = 100
	}
	base := genView(r, 1)
	base.Width, base.Height, base.DebugNormals = r.Range(1, 8), r.Range(1, 8), 0
	p.Views = []api.View{base}
	if r.Bool(0.4) {
		p.Views = vary(r, base, 2)
	}
	other := r.Bool(0.3)
	for i, n := 0, r.Range(2, 4); i < n; i++ {
		c := client{Keep: r.Bool(0.8)}
		for j, m := 0, r.Range(3, 9); j < m; j++ {
			q := req{Kind: "bake", View: r.Pick(0, 0, 0, len(p.Views)-1)}
			if other {
				q.Kind = r.PickS("bake", "bake", "bake", "bake", "preview", "cancel")
			}
			if r.Bool(0.2) {
				q.Wait = r.Intn(60)
			}
			c.Reqs = append(c.Reqs, q)
		}
		p.Clients = append(p.Clients, c)
	}
	return p
}

// genCrowd makes long series of requests for very many views, all small.
func genCrowd(r *simh.R) *plan {
	p := genBase(r)
	p.LatUs, p.Rich = r.Pick(0, 0, 50), 0
	p.Load.Share = r.Pick(0, 0, p.Load.Share)
	p.Load.MaxUs = min(p.Load.MaxUs, 5000)
	n := r.Range(6, 45)
	p.Views = genViews(r, n, true, r.Bool(0.5))
	if r.Bool(0.5) {
		base := genView(r, 1)
		base.DebugNormals = 0
		p.Views = vary(r, base, n)
	}
	for i := range p.Views {
		v := &p.Views[i]
		v.Width, v.Height, v.DebugNormals = min(v.Width, r.Range(2, 5)), min(v.Height, r.Range(2, 5)), 0
	}
	kinds := []string{"preview", "bake"}
	if r.Bool(0.7) {
		kinds = []string{"bake"}
	}
	for i, m := 0, r.Pick(1, 1, 2); i < m; i++ {
		c := client{Keep: r.Bool(0.8)}
		cur, walk := 0, r.Intn(3)
		for j, k := 0, r.Range(n, 2*n+10); j < k; j++ {
			switch {
			case walk == 0: // in turn, twice
				cur = j % n
			case walk == 1 && r.Bool(0.7): // back and forth
				cur = r.Intn(n)
			case walk == 2 && r.Bool(0.5): // often those of late
				cur = (cur + r.Range(0, 4) + n - 2) % n
			}
			c.Reqs = append(c.Reqs, req{Kind: r.PickS(kinds...), View: cur})
		}
		p.Clients = append(p.Clients, c)
	}
	return p
}

// genSwarm makes very many clients that all come at the same time.
func genSwarm(r *simh.R) *plan {
	p := genBase(r)
	p.Load.MaxUs = min(p.Load.MaxUs, 5000)
	p.Views = genViews(r, r.Range(1, 12), true, r.Bool(0.5))
	for i := range p.Views {
		v := &p.Views[i]
		v.Width, v.Height = min(v.Width, r.Range(2, 5)), min(v.Height, r.Range(2, 5))
	}
	wait := r.Pick(0, 0, 100, 20000)
	kinds := []string{"preview"}
	switch r.Intn(4) {
	case 0:
		kinds = []string{"preview", "bake"}
	case 1:
		kinds = []string{"preview", "preview", "preview", "bake", "cancel"}
	case 2:
		kinds = []string{"bake", "bake", "cancel"}
	}
	for i, m := 0, r.Range(8, 40); i < m; i++ {
		c := client{Keep: r.Bool(0.5)}
		for j, k := 0, r.Pick(1, 1, 2, 4); j < k; j++ {
			c.Reqs = append(c.Reqs, req{Kind: r.PickS(kinds...), View: r.Intn(len(p.Views)), Wait: r.Intn(1 + wait)})
		}
		p.Clients = append(p.Clients, c)
	}
	return p
}

// C06: everything at once
func genC06(r *simh.R) interface{} {
	if r.Bool(0.25) {
		return genHammer(r)
	}
	if r.Bool(0.03) {
		return genCrowd(r)
	}
	if r.Bool(0.05) {
		return genSwarm(r)
	}
	p := genBase(r)
	p.Views = genViews(r, r.Range(1, 4), false, false)
	if r.Bool(0.03) { // a long side
		v := &p.Views[r.Intn(len(p.Views))]
		v.Width, v.Height, p.Load.Share = r.Range(300, 5000), 1, 0
		if r.Bool(0.5) {
			v.Width, v.Height = r.Range(1, 2), r.Range(300, 2500)
		}
	}
	calm := r.Bool(0.25) // nothing but images of similar views
	if calm {
		base := genView(r, 1)
		if r.Bool(0.4) {
			base.DebugIsometric, base.DebugIsometricFOV = true, 5
		}
		p.Views = vary(r, base, r.Range(2, 4))
		c := client{Keep: r.Bool(0.5), Post: r.Bool(0.2)}
		for j, m := 0, r.Range(2, 8); j < m; j++ {
			c.Reqs = append(c.Reqs, req{Kind: r.PickS("preview", "bake", "bake", "bake"), View: r.Intn(len(p.Views))})
		}
		p.Clients = append(p.Clients, c)
		return p
	}
	for i, n := 0, r.Range(1, 4); i < n; i++ {
		c := client{Keep: r.Bool(0.5), Post: r.Bool(0.2)}
		for j, m := 0, r.Range(1, 6); j < m; j++ {
			q := genReq(r, len(p.Views))
			if r.Bool(0.12) {
				q.Abort = genWait(r) + 1
			}
			if r.Bool(0.08) {
				q = genBad(r)
			}
			c.Reqs = append(c.Reqs, q)
		}
		p.Clients = append(p.Clients, c)
	}
	if r.Bool(0.4) {
		p.Faults = simh.GenNetFaults(r, 12, 3, 3000)
	}
	return p
}

// C07: slow bakes, refusals, cancels; a network without faults
func genC07(r *simh.R) interface{} {
	if r.Bool(0.03) {
		return genSwarm(r)
	}
	if r.Bool(0.2) {
		p := genHammer(r)
		for i := range p.Views {
			p.Views[i].DebugIsometric = false
		}
		return p
	}
	p := genBase(r)
	p.Views = genViews(r, r.Range(2, 5), true, true)
	if r.Bool(0.7) {
		p.Load.Share, p.Load.MaxUs = r.Pick(16, 64, 256), r.Pick(1000, 5000, 40000)
	}
	p.LatUs = r.Pick(0, 50, 1000)
	for i, n := 0, r.Range(2, 5); i < n; i++ {
		c := client{Keep: r.Bool(0.5), Post: r.Bool(0.2)}
		for j, m := 0, r.Range(1, 6); j < m; j++ {
			q := genReq(r, len(p.Views))
			if r.Bool(0.06) {
				q = genBad(r)
			}
			c.Reqs = append(c.Reqs, q)
		}
		p.Clients = append(p.Clients, c)
	}
	return p
}

// C08: one client refines, others disturb
func genC08(r *simh.R) interface{} {
	if r.Bool(0.25) {
		p := genHammer(r)
		for i := range p.Views {
			p.Views[i].DebugNormals = 0
		}
		return p
	}
	if r.Bool(0.04) {
		return genCrowd(r)
	}
	p := genBase(r)
	p.Views = genViews(r, r.Range(2, 3), true, r.Bool(0.4))
	c := client{Keep: r.Bool(0.5)}
	cur := 0
	bakes, change := r.Range(3, 9), 0.15
	if r.Bool(0.06) { // very many bakes of small views
		bakes, change, p.Load.Share = r.Range(12, 45), 0.02, 0
		for i := range p.Views {
			p.Views[i].Width, p.Views[i].Height = r.Range(1, 3), r.Range(1, 3)
		}
	}
	for j := 0; j < bakes; j++ {
		if r.Bool(change) {
			cur = r.Intn(len(p.Views))
		}
		q := req{Kind: "bake", View: cur, Wait: genWait(r)}
		switch r.Intn(16) {
		case 0:
			q.Kind = "cancel"
		case 1:
			q = genBad(r)
		case 2:
			q.Kind, q.View = "preview", r.Intn(len(p.Views))
		case 3:
			q.Abort = genWait(r) + 1
		}
		c.Reqs = append(c.Reqs, q)
	}
	p.Clients = append(p.Clients, c)
	for i, n := 0, r.Range(0, 2); i < n; i++ {
		c := client{Keep: r.Bool(0.5)}
		for j, m := 0, r.Range(1, 5); j < m; j++ {
			q := req{Kind: r.PickS("preview", "bake", "bad"), View: r.Intn(len(p.Views)), Wait: genWait(r)}
			if q.Kind == "bad" {
				q = genBad(r)
			}
			if q.Kind == "bake" && r.Bool(0.6) {
				q.View = cur
			}
			c.Reqs = append(c.Reqs, q)
		}
		p.Clients = append(p.Clients, c)
	}
	return p
}

// C09: abuse
func genC09(r *simh.R) interface{} {
	p := genBase(r)
	p.Views = genViews(r, r.Range(1, 4), false, false)
	for i := range p.Views {
		v := &p.Views[i]
		if r.Bool(0.3) {
			v.CamPos[r.Intn(3)] = r.In(-1, 1) * float64([]float64{1e3, 1e9, 1e15, 1e100, 1e300}[r.Intn(5)])
		}
		if r.Bool(0.1) {
			v.CamYaw = r.In(-1, 1) * float64([]float64{1e3, 1e15, 1e300}[r.Intn(3)])
		}
		if r.Bool(0.1) {
			v.CamPitch = r.In(-1, 1) * float64([]float64{1e3, 1e15, 1e300}[r.Intn(3)])
		}
		if v.DebugIsometric && r.Bool(0.4) {
			v.DebugIsometricFOV = r.In(-1, 1) * float64([]float64{1e-300, 1e-9, 1e9, 1e300}[r.Intn(4)])
		}
	}
	if r.Bool(0.6) {
		s := scenes.Gen(r)
		if len(s.Objects) > 3 {
			s.Objects = s.Objects[:3]
		}
		if len(s.Lights) > 2 {
			s.Lights = s.Lights[:2]
		}
		if len(s.Media) > 1 {
			s.Media = s.Media[:1]
		}
		p.Scene = &s
		for i := range p.Views {
			if v := &p.Views[i]; v.Width*v.Height > 80 {
				v.Width, v.Height = r.Range(1, 8), r.Range(1, 8)
			}
		}
	}
	p.Probe = genView(r, 15)
	p.Probe.Width, p.Probe.Height = r.Range(1, 6), r.Range(1, 6)
	for i, n := 0, r.Range(1, 4); i < n; i++ {
		c := client{Keep: r.Bool(0.5), Post: r.Bool(0.2)}
		for j, m := 0, r.Range(1, 6); j < m; j++ {
			q := genReq(r, len(p.Views))
			if r.Bool(0.3) {
				q.Abort = genWait(r) + 1
			}
			if r.Bool(0.4) {
				q = genBad(r)
			}
			c.Reqs = append(c.Reqs, q)
		}
		p.Clients = append(p.Clients, c)
	}
	if r.Bool(0.5) {
		p.Faults = simh.GenNetFaults(r, 12, 4, 3000)
	}
	if r.Bool(0.02) { // abuse that goes on
		p.Scene, p.Load.MaxUs, p.Faults = nil, min(p.Load.MaxUs, 5000), nil
		for i := range p.Views {
			p.Views[i].Width, p.Views[i].Height = r.Range(1, 3), r.Range(1, 3)
		}
		kind := r.Intn(4) // mostly of one kind
		for i := range p.Clients {
			for j, m := 0, r.Range(20, 150); j < m; j++ {
				q := genReq(r, len(p.Views))
				switch k := r.Intn(6); {
				case k == 0:
				case k == 1 || kind == 0:
					q = genBad(r)
				case k == 2 || kind == 1:
					q.Kind, q.Abort = "bake", genWait(r)+1
				case k == 3 || kind == 2:
					q = req{Kind: "badbake", Body: badBodies[r.Intn(len(badBodies))]}
				default:
					q = req{Kind: "badpreview", Body: badBodies[r.Intn(len(badBodies))]}
				}
				q.Wait = 0
				p.Clients[i].Reqs = append(p.Clients[i].Reqs, q)
			}
		}
	}
	return p
}

// ---- running ----

// A call is what a client saw of one request.
type call struct {
	client, i  int
	req        req
	sent, recv int64 // order of events (srv.Seq)
	took       int64 // ns
	status     int   // 0: no answer
	err        error
	img        imagef.Image
	msg        string
}

type world struct {
	t     *simh.T
	p     *plan
	eye   srv.Eye
	net   *simh.Net
	calls [][]call // per client
	ended bool     // the server returned
	exit  int
	probe api.View // view -1
}

// run lets the clients do their thing, then after.
func run(t *simh.T, p *plan, after func(w *world)) *world {
	w := &world{t: t, p: p, exit: -1}
	for i := range p.Clients { // a minimised plan may have lost views
		for j := range p.Clients[i].Reqs {
			q := &p.Clients[i].Reqs[j]
			if q.View < 0 || q.View >= len(p.Views) {
				q.View = 0
			}
		}
	}
	if len(p.Views) == 0 {
		return w
	}
	var spec api.Spec
	if p.Scene != nil {
		scenes.Prepare()
		t.Build(func() { spec = p.Scene.Spec() })
	} else {
		spec = srv.Spec(&w.eye, p.Load, p.Rich)
	}
	w.calls = make([][]call, len(p.Clients))
	left, dead := t.Sim(p.CPU, true, func() {
		w.net = simh.InstallNet(t, p.NetSeed, time.Duration(p.LatUs)*time.Microsecond, p.Faults)
		defer w.net.Uninstall()
		os.Sim = &os.SimOS{Exit: func(code int) {
			w.ended = true
			w.exit = code
			runtime.Goexit()
		}}
		go func() {
			if p.Via == "render" {
				flag.Set("http", addr)
				api.Render(spec)
			} else {
				api.Serve(addr, spec)
			}
			w.ended = true
		}()
		for i := 0; i < 1000 && !w.net.Listening(addr); i++ {
			time.Sleep(time.Millisecond)
		}
		var wg sync.WaitGroup
		for i := range p.Clients {
			wg.Add(1)
			go func() {
				defer wg.Done()
				w.client(i)
			}()
		}
		wg.Wait()
		if after != nil {
			after(w)
		}
		w.net.Crash(addr)
		time.Sleep(time.Second)
	})
	_ = left
	if dead {
		t.Fail("stuck", "clients never finished: everything is blocked")
	}
	return w
}

func transport(keep bool) *http.Transport {
	return &http.Transport{DisableKeepAlives: !keep}
}

func (w *world) client(ci int) {
	c := w.p.Clients[ci]
	tr := transport(c.Keep)
	defer tr.CloseIdleConnections()
	out := make([]call, 0, len(c.Reqs))
	for i, q := range c.Reqs {
		time.Sleep(time.Duration(q.Wait) * time.Microsecond)
		cl := w.do(tr, c.Post, q)
		cl.client, cl.i = ci, i
		out = append(out, cl)
		w.t.Count("req:" + q.Kind)
		w.t.Trace("client %d: %s view %d -> %d %v %s (events %d to %d)", ci, q.Kind, q.View, cl.status, cl.err, cl.msg, cl.sent, cl.recv)
	}
	w.calls[ci] = out
}

// do makes one request.
func (w *world) do(tr *http.Transport, post bool, q req) (c call) {
	v := w.probe
	if q.View >= 0 && q.View < len(w.p.Views) {
		v = w.p.Views[q.View]
	}
	c.req = q
	c.sent = srv.Seq()
	t0 := srv.Now()
	defer func() { c.recv, c.took = srv.Seq(), srv.Now()-t0 }()
	if q.Kind == "raw" {
		conn, err := net.Dial("tcp", addr)
		if err != nil {
			c.err = err
			return c
		}
		conn.Write([]byte(q.Body))
		conn.SetReadDeadline(time.Now().Add(50 * time.Millisecond))
		var b [100]byte
		conn.Read(b[:])
		conn.Close()
		return c
	}
	ctx, cancel := context.WithTimeout(context.Background(), 100000*time.Hour)
	defer cancel()
	if q.Abort > 0 {
		tm := time.AfterFunc(time.Duration(q.Abort)*time.Microsecond, func() {
			w.t.Count("fault:client gives up")
			cancel()
		})
		defer tm.Stop()
	}
	path, body := q.Kind, []byte(q.Body)
	switch q.Kind {
	case "preview", "bake":
		body, _ = json.Marshal(v)
	case "badbake":
		path = "bake"
	case "badpreview":
		path = "preview"
	}
	method := "GET"
	if post {
		method = "POST"
	}
	r, err := http.NewRequestWithContext(ctx, method, "http://"+addr+"/"+path, bytes.NewReader(body))
	if err != nil {
		c.err = err
		return c
	}
	resp, err := tr.RoundTrip(r)
	if err != nil {
		c.err = err
		return c
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		c.err = err
		return c
	}
	c.status = resp.StatusCode
	if c.status == http.StatusOK && (path == "preview" || path == "bake") {
		if err := gob.NewDecoder(bytes.NewReader(b)).Decode(&c.img); err != nil {
			c.err = fmt.Errorf("response of %d bytes does not decode: %v", len(b), err)
		}
	}
	if c.status != http.StatusOK {
		c.msg = string(b)
	}
	return c
}

// all calls, and whether a transport error must be accepted.
func (w *world) all() (l []*call) {
	for i := range w.calls {
		for j := range w.calls[i] {
			l = append(l, &w.calls[i][j])
		}
	}
	return l
}

func (w *world) maxPasses() int {
	n := 1
	for _, c := range w.all() {
		if c.req.Kind == "bake" || c.req.Kind == "badbake" || c.req.Kind == "raw" {
			n++
		}
	}
	return n*(n+1)/2 + 5
}

// checkImages judges every successful image; it returns the passes of each.
func (w *world) checkImages() map[*call]int {
	passes := map[*call]int{}
	if w.p.Scene != nil {
		return passes
	}
	refs := srv.NewRefs(w.t, w.p.Rich)
	for _, v := range w.p.Views { // so that a mix-up can be named
		_ = v
	}
	max := w.maxPasses()
	for _, c := range w.all() {
		if c.req.Kind != "preview" && c.req.Kind != "bake" || c.status != 200 {
			continue
		}
		if c.err != nil {
			w.t.Fail("image", "client %d request %d (%s): %v", c.client, c.i, c.req.Kind, c.err)
			continue
		}
		v := w.p.Views[c.req.View]
		n, ambiguous, what := refs.Match(v, c.img, max)
		if n == 0 {
			w.t.Fail("image", "client %d request %d (%s of view %d): %s", c.client, c.i, c.req.Kind, c.req.View, what)
			continue
		}
		w.t.Count("op:image checked")
		if n > 1 {
			w.t.Count("probe:image of several passes")
		}
		if !ambiguous {
			passes[c] = n
		}
		w.t.AddHash(uint64(n))
	}
	return passes
}

// checkAnswers: without network faults, requests that can be served are answered.
func (w *world) checkAnswers() {
	for _, c := range w.all() {
		if c.req.Abort > 0 || len(w.p.Faults) > 0 {
			continue
		}
		switch c.req.Kind {
		case "preview", "bake", "cancel":
			if c.status == 0 {
				w.t.Fail("unanswered", "client %d request %d (%s) got no answer: %v", c.client, c.i, c.req.Kind, c.err)
			}
		}
	}
}

// ---- C06 ----

func runC06(t *simh.T, pl interface{}) {
	w := run(t, pl.(*plan), nil)
	if t.Failed() || w.net == nil {
		return
	}
	if w.ended && w.exit < 0 && w.p.Via == "render" {
		t.Fail("ended", "the server ended")
	}
	w.checkAnswers()
	w.checkImages()
}

// ---- C07 ----

func runC07(t *simh.T, pl interface{}) {
	p := pl.(*plan)
	w := run(t, p, nil)
	if t.Failed() || w.net == nil {
		return
	}
	w.checkAnswers()
	all := w.all()
	// a request and its answer pass the network at most this long: connecting,
	// sending and answering in a few segments, with retries on a lost idle
	// connection
	lat := int64(p.LatUs)*1000*40 + 1000
	for _, c := range all {
		took := c.took
		switch c.req.Kind {
		case "cancel":
			if c.status != 200 {
				t.Fail("cancel", "client %d request %d: cancel answered %d %s", c.client, c.i, c.status, c.msg)
			}
			if took > lat {
				t.Fail("cancel-slow", "client %d request %d: cancel took %v of simulated time", c.client, c.i, time.Duration(took))
			}
		case "preview":
			if c.status != 200 {
				t.Fail("preview", "client %d request %d: preview answered %d %s", c.client, c.i, c.status, c.msg)
			}
			v := p.Views[c.req.View]
			if max := lat + int64(v.Width*v.Height*p.Load.MaxUs)*1000; took > max {
				t.Fail("preview-slow", "client %d request %d: preview of %d pixels took %v of simulated time, rendering it takes at most %v", c.client, c.i, v.Width*v.Height, time.Duration(took), time.Duration(max))
			}
		case "bake":
			if c.status == 200 {
				t.Count("op:bake done")
				continue
			}
			t.Count("probe:bake refused")
			if took > lat {
				t.Fail("refusal-slow", "client %d request %d: bake refused only after %v", c.client, c.i, time.Duration(took))
			}
			if c.status < 400 {
				t.Fail("refusal-status", "client %d request %d: bake answered %d", c.client, c.i, c.status)
			}
			if why := w.reason(c); why == "" {
				t.Fail("refusal", "client %d request %d (events %d to %d): bake refused (%d %s) though no other bake was in progress", c.client, c.i, c.sent, c.recv, c.status, c.msg)
			}
		}
	}
	w.checkOverlap()
	passes := w.checkImages()
	_ = passes
}

func (c *call) mayBake() bool {
	return c.req.Kind == "bake" || c.req.Kind == "badbake" || c.req.Kind == "raw" && strings.Contains(c.req.Body, "/bake")
}

func (c *call) mayCancel() bool {
	return c.req.Kind == "cancel" || c.req.Kind == "raw" && strings.Contains(c.req.Body, "/cancel")
}

// reason finds a bake that may have been in progress when c was refused.
func (w *world) reason(c *call) string {
	for _, b := range w.all() {
		if b == c || !b.mayBake() {
			continue
		}
		from, to := b.sent, b.recv
		if b.req.Kind == "raw" || b.status == 0 {
			to = 1 << 62 // the server may go on without the client
		}
		// cancelled before c was sent?
		if b.req.Kind == "bake" && b.status == 200 {
			began := w.began(b)
			for _, x := range w.all() {
				if x.req.Kind == "cancel" && x.status == 200 && x.sent > began && x.recv < to {
					to = x.recv
				}
			}
		}
		if b.req.Kind == "bake" && b.status != 200 && b.status != 0 {
			continue // itself refused
		}
		if from < c.recv && to > c.sent {
			return fmt.Sprint(b.client, "/", b.i)
		}
	}
	return ""
}

// began is a time when bake b had certainly begun.
func (w *world) began(b *call) int64 {
	v := w.p.Views[b.req.View]
	tag := srv.Tag(v.CamPos)
	for _, c := range w.all() { // the view's evaluations are b's only if it is the only request for it
		if c != b && (c.req.Kind == "bake" || c.req.Kind == "preview") && srv.Tag(w.p.Views[c.req.View].CamPos) == tag {
			return b.recv
		}
	}
	first, _, n := w.eye.Get(tag)
	if n == 0 {
		return b.recv
	}
	return first
}

// checkOverlap: bakes whose rendering is known do not overlap unless one of
// them may have been cancelled.
func (w *world) checkOverlap() {
	type span struct {
		c           *call
		first, last int64
	}
	var l []span
	for _, b := range w.all() {
		if b.req.Kind != "bake" || b.status != 200 {
			continue
		}
		v := w.p.Views[b.req.View]
		tag := srv.Tag(v.CamPos)
		only := true
		for _, c := range w.all() {
			if c != b && (c.req.Kind == "preview" || c.req.Kind == "bake" && c.status == 200) && srv.Tag(w.p.Views[c.req.View].CamPos) == tag {
				only = false
			}
		}
		if first, last, n := w.eye.Get(tag); only && n > 0 {
			l = append(l, span{b, first, last})
		}
	}
	for i := range l {
		for j := range l {
			a, b := l[i], l[j]
			if i == j || a.first > b.first || b.first >= a.last {
				continue
			}
			cancelled := false
			for _, x := range w.all() {
				if x.mayCancel() && x.sent <= b.first && (x.recv >= a.c.sent || x.recv >= b.c.sent || x.req.Kind == "raw") {
					cancelled = true
				}
			}
			if !cancelled {
				w.t.Fail("overlap", "bakes of client %d request %d and client %d request %d rendered at the same time, none cancelled", a.c.client, a.c.i, b.c.client, b.c.i)
			}
		}
	}
	w.t.CountN("op:bake span compared", len(l))
}

// ---- C08 ----

func runC08(t *simh.T, pl interface{}) {
	p := pl.(*plan)
	w := run(t, p, nil)
	if t.Failed() || w.net == nil {
		return
	}
	w.checkAnswers()
	passes := w.checkImages()
	if t.Failed() {
		return
	}
	all := w.all()
	for _, a := range all {
		for _, b := range all {
			if a.req.Kind != "bake" || b.req.Kind != "bake" || a.status != 200 || b.status != 200 || a.recv >= b.sent || p.Views[a.req.View] != p.Views[b.req.View] {
				continue
			}
			// nothing in between that may start the view afresh
			quiet := true
			for _, x := range all {
				over := x.sent <= b.recv && (x.recv >= a.sent || x.status == 0)
				if !over {
					continue
				}
				switch x.req.Kind {
				case "cancel":
					quiet = false
				case "bake": // a refused bake changes nothing
					if p.Views[x.req.View] != p.Views[a.req.View] && (x.status == 200 || x.status == 0) {
						quiet = false
					}
				case "badbake", "raw": // may turn out to be a valid bake of another view
					if valid(x) {
						quiet = false
					}
				}
			}
			if !quiet {
				continue
			}
			na, nb := passes[a], passes[b]
			if na == 0 || nb == 0 {
				continue
			}
			t.Count("op:refinement compared")
			if nb <= na {
				t.Fail("refine", "view %d: client %d request %d shows %d passes, the later client %d request %d only %d", a.req.View, a.client, a.i, na, b.client, b.i, nb)
			}
		}
	}
}

// valid says whether a bad request may be a bake after all.
func valid(x *call) bool {
	if x.req.Kind == "raw" {
		return true
	}
	return x.status == 200 || x.status == 0 && x.err != nil && false
}

// ---- C09 ----

func runC09(t *simh.T, pl interface{}) {
	p := pl.(*plan)
	var pre, bake call
	fv := p.Probe
	if fv.Width <= 0 || fv.Height <= 0 { // minimised
		fv.Width, fv.Height = 3, 2
	}
	w := run(t, p, func(w *world) {
		// let everything under way come to its end
		quiet := 0
		for i := 0; i < 10000 && quiet < 5; i++ {
			time.Sleep(time.Minute)
			if w.eye.Busy() == 0 {
				quiet++
			} else {
				quiet = 0
			}
		}
		w.net.Heal()
		w.probe = fv
		tr := transport(false)
		pre = w.do(tr, false, req{Kind: "preview", View: -1})
		bake = w.do(tr, false, req{Kind: "bake", View: -1})
	})
	if t.Failed() || w.net == nil {
		return
	}
	if w.ended && w.exit < 0 {
		// Crash at the end makes the server return: nothing to see here
	}
	refs := srv.NewRefs(t, p.Rich)
	for i, c := range []call{pre, bake} {
		what := []string{"preview", "bake"}[i]
		if c.status != 200 || c.err != nil {
			t.Fail("dead", "after the history above, a valid %s gets %d %s %v", what, c.status, c.msg, c.err)
			continue
		}
		if p.Scene != nil {
			if len(c.img) != fv.Height || len(c.img[0]) != fv.Width {
				t.Fail("dead", "after the history above, a valid %s has the wrong size", what)
			}
			continue
		}
		if n, _, d := refs.Match(fv, c.img, 1); n == 0 {
			t.Fail("dead", "after the history above, a valid %s is wrong: %s", what, d)
		}
	}
	w.checkAnswers()
}

var _ = errors.New
