"""What is checked, how it is built, and how long it is explored."""
import json, os, re, shutil, subprocess

RENDER_FILES = {"scenes/scenes.go": "zzsim/scenes/scenes.go", "render/h_test.go": "zzsim/render/h_test.go"}

SERVER_FILES = {"scenes/scenes.go": "zzsim/scenes/scenes.go", "srv/srv.go": "zzsim/srv/srv.go", "server/h_test.go": "zzsim/server/h_test.go"}

FILES_FILES = {"files/h_test.go": "zzsim/files/h_test.go", "files/load_test.go": "zzsim/files/load_test.go"}

VIEWER_FILES = {"srv/srv.go": "zzsim/srv/srv.go", "viewer/viewer.go": "zzsim/viewer/viewer.go", "viewer/h_test.go": "cmd/bruteray-view/zz_h_test.go"}

WATCH_FILES = {"watch/watch.go": "zzsim/watch/watch.go", "watch/h_test.go": "cmd/bruteray-watch/zz_h_test.go"}


def fake_driver(mod, out, env):
    """golang.org/x/exp/shiny with a driver that is the harness'. The module is
    replaced by a copy of the packages the viewer uses."""
    r = subprocess.run(["go", "mod", "download", "-json", "golang.org/x/exp"], cwd=out, env=env, capture_output=True, text=True)
    src = json.loads(r.stdout)["Dir"]
    dst = os.path.join(out, "exp")
    for d in ("shiny/screen", "shiny/driver"):
        os.makedirs(os.path.join(dst, d))
    shutil.copy(os.path.join(src, "shiny/screen/screen.go"), os.path.join(dst, "shiny/screen/screen.go"))
    shutil.copy(os.path.join(src, "shiny/driver/driver.go"), os.path.join(dst, "shiny/driver/driver.go"))
    open(os.path.join(dst, "shiny/driver/sim.go"), "w").write("""package driver

import "golang.org/x/exp/shiny/screen"

var SimMain func(f func(screen.Screen))

func main(f func(screen.Screen)) { SimMain(f) }
""")
    want = re.findall(r"^\s*(?:require )?(golang.org/x/image v\S+)", open(mod).read(), re.M)
    open(os.path.join(dst, "go.mod"), "w").write("module golang.org/x/exp\n\ngo 1.12\n" + "".join(f"\nrequire {w}\n" for w in want))
    open(mod, "a").write(f"\nreplace golang.org/x/exp => {dst}\n")


GROUPS = {
    "viewer": dict(pkg="./cmd/bruteray-view", files=VIEWER_FILES, gomod=fake_driver),
    "watch": dict(pkg="./cmd/bruteray-watch", files=WATCH_FILES),
    "files": dict(pkg="./zzsim/files", files=FILES_FILES),
    "server": dict(pkg="./zzsim/server", files=SERVER_FILES),
    "render": dict(pkg="./zzsim/render", files=RENDER_FILES),
}

REAL_RENDER = ["tracer (sampler, contexts, sequences, scenes)", "tracer/objects, materials, lights, media, cameras", "texture, imagef, geom", "api.Spec, api.View", "Go scheduler's run queues, channels, mutexes, wait groups (standard library, with the choice of the next goroutine taken over)"]
STUB_RENDER = ["choice of the next goroutine", "clock", "number of CPUs", "random numbers of the runtime"]
REAL_SERVER = ["api.Serve, api.Render -http, api.View", "net/http server and client", "tracer.Sampler and scenes"]
STUB_SERVER = ["TCP (in-process connections with latency and faults)", "choice of the next goroutine", "clock", "number of CPUs"]
REAL_VIEWER = ["cmd/bruteray-view, all of it", "api.Serve and the tracer behind it (when the plan's server is the real one)", "net/http client and server, encoding/gob"]
STUB_VIEWER = ["window system (golang.org/x/exp/shiny driver: events, buffers, textures, publishing)", "user", "TCP (in-process connections with latency and faults)", "in part of the plans, the server", "choice of the next goroutine", "clock", "number of CPUs"]
REAL_FILES = ["api.Render, api.Animate (flags, batches, encoders, files)", "tracer.Sampler, imagef, imagef/ppm, imagef/post", "image/png, image/jpeg, bufio, package os on a real scratch directory"]
STUB_FILES = ["outcome and extent of each file operation", "process exit", "choice of the next goroutine", "clock", "number of CPUs"]
REAL_WATCH = ["cmd/bruteray-watch, all of it", "os/exec, package flag"]
STUB_WATCH = ["kernel's process calls (start, signal, wait) and stat", "compiler, program and renice", "user who changes the source file", "choice of the next goroutine", "clock"]
ASSUME = ["a goroutine can be preempted between any two statements of the code under test (not inside one), one runs at a time; memory effects of true parallelism are covered by the race detector only where stated",
          "the patched Go runtime behaves as the original apart from its scheduling choices"]


def _p(group, race, quick, thorough, real, stub, assume=(), **k):
    d = dict(group=group, race=race, quick=quick, thorough=thorough, real=real, stub=stub, assume=ASSUME + list(assume))
    d.update(k)
    return d


NOTE = "Seeded exploration, not exhaustive: holds on every execution explored; each is exactly repeatable from its seed. "

PROPS = {
    "C01": _p("render", True, 45, 900, REAL_RENDER, STUB_RENDER,
              technique="random scenes from all primitives rendered under a seeded statement-level scheduler and simulated CPU count, compared with a sequential render; race detector on",
              note=NOTE + "Trusts the race detector for weak-memory effects."),
    "C02": _p("render", False, 25, 600, REAL_RENDER, STUB_RENDER,
              technique="recording image function under a seeded scheduler, simulated CPUs and slow samples; exact per-pixel accounting",
              note=NOTE + "A sample belongs to the pixel whose square contains its position."),
    "C03": _p("render", False, 25, 600, REAL_RENDER, STUB_RENDER,
              technique="random splits of passes over calls with reads in between, under a seeded scheduler with CPU counts changing between calls; compared with one call",
              note=NOTE),
    "C04": _p("render", True, 45, 900, REAL_RENDER, STUB_RENDER,
              technique="several renders over one scene interleaved by a seeded scheduler, each compared with the same render alone; race detector on",
              note=NOTE),
    "C05": _p("render", False, 25, 600, REAL_RENDER, STUB_RENDER,
              technique="sample positions recorded under a seeded scheduler and random splits of the passes; checked against the pixel squares and against a sequential run",
              note=NOTE),
    "C06": _p("server", True, 50, 900, REAL_SERVER, STUB_SERVER,
              technique="several HTTP clients against the real server on a simulated network with faults, under a seeded scheduler; every image matched against an independent render of its view after n passes; race detector on",
              note=NOTE),
    "C07": _p("server", False, 35, 600, REAL_SERVER, STUB_SERVER,
              technique="overlapping slow bakes, cancels and previews on a simulated network and clock under a seeded scheduler; refusals, delays and rendering periods judged from the recorded history",
              note=NOTE),
    "C08": _p("server", False, 35, 600, REAL_SERVER, STUB_SERVER,
              technique="repeated bakes with disturbances under a seeded scheduler; number of passes recovered from every image and compared along the history",
              note=NOTE),
    "C09": _p("server", False, 50, 900, REAL_SERVER, STUB_SERVER,
              technique="seeded histories of malformed requests, impossible views, disconnects and network faults against the real server, followed by a probe; a crash of the process is a failure",
              note=NOTE),
    "C10": _p("viewer", False, 45, 900, REAL_VIEWER, STUB_VIEWER,
              technique="the whole viewer against real and scripted servers on a simulated network with delays, faults and restarts, a scripted user reacting to frames and traffic, under a seeded scheduler; every published frame traced to the answer it shows and judged against a model of the user's camera",
              note=NOTE),
    "C11": _p("viewer", False, 45, 900, REAL_VIEWER, STUB_VIEWER,
              ["every request is answered or fails within a few seconds once faults have stopped"],
              technique="the whole viewer through seeded histories of input, faults and server restarts, then a quiet period; convergence within bounded simulated time to the model's camera, images checked against independent renders",
              note=NOTE),
    "C12": _p("viewer", False, 45, 900, REAL_VIEWER, STUB_VIEWER,
              ["stalls are finite: every request is eventually answered or fails"],
              technique="the whole viewer against failing servers (down, resets, truncation, garbage, error statuses) and window close at arbitrary moments, under a seeded scheduler; requests, attempts and exit judged from the recorded history",
              note=NOTE),
    "C13": _p("files", False, 30, 600, REAL_FILES, STUB_FILES,
              technique="whole rendering programs on a simulated disk with injected create, write, short-write, close and disk-full faults, under a seeded scheduler; exit status and files judged against independent references",
              note=NOTE),
    "C14": _p("files", False, 30, 600, REAL_FILES, STUB_FILES,
              ["a killed process leaves what its completed (parts of) system calls wrote; loss of unsynced data in a power cut is not claimed"],
              technique="whole rendering programs on a simulated disk with torn writes and faults, the state of the disk after every effect judged as if killed there",
              note=NOTE),
    "C15": _p("files", False, 30, 600, REAL_FILES, STUB_FILES,
              ["a killed process leaves what its completed (parts of) system calls wrote; loss of unsynced data in a power cut is not claimed"],
              technique="whole animation programs on a simulated disk with faults, under a seeded scheduler; files at the end and at every kill point judged against independent references",
              note=NOTE),
    "C16": _p("files", False, 20, 300, ["imagef/ppm, imagef, imagef/colorf", "bufio, fmt"], ["the writer", "choice of the next goroutine", "clock"],
              ["writers keep the io.Writer contract: a write that takes fewer bytes than offered returns an error"],
              technique="several encoders at the same time under a seeded scheduler, into writers that fail, once or for good, at a chosen byte; the bytes accepted are parsed by an independent reader",
              note=NOTE),
    "C17": _p("files", False, 30, 600, ["tracer/objects/ply, tracer/objects/obj", "objects.PlyFile, objects.ObjFile", "bufio, package os on a real scratch directory"], STUB_FILES,
              ["every line of a complete PLY file is ended by a newline", "OBJ coordinates are compared with single precision"],
              technique="generated mesh files loaded, also several at a time, from a simulated disk with failing opens, failing and chunked reads and truncation, under a seeded scheduler; compared with the generated mesh",
              note=NOTE),
    "C18": _p("files", False, 30, 600, ["imagef.Load, imagef.MustLoad, texture.HeightMap", "image/png, image/jpeg, bufio, package os on a real scratch directory"], STUB_FILES,
              technique="generated images loaded, also several at a time, from a simulated disk with failing opens, failing and chunked reads and truncation, under a seeded scheduler; compared with the generated pixels",
              note=NOTE),
    "C19": _p("watch", False, 25, 300, REAL_WATCH, STUB_WATCH,
              technique="the whole watcher in a simulated world of processes: seeded histories of source changes, program exits and failing starts, signals and waits, under a seeded scheduler; every start judged against the processes then alive",
              note=NOTE),
    "C20": _p("watch", False, 30, 300, REAL_WATCH, STUB_WATCH,
              ["versions of the source file with different content have different modification times", "compiling, dying and renicing take finite time"],
              technique="the whole watcher in a simulated world of processes: seeded histories of source changes at chosen moments of the compile-and-start cycle, with failing stat, compile, start, signal and renice; the state once changes stop judged against the last version",
              note=NOTE),
}
