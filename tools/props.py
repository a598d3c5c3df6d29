#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script because JSON lines are unpleasant to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            observe_at=observe or [], hook_needed=hook)))

S, I, H, C, F, K = "schedules", "inputs", "histories", "configurations", "fault_sequences", "crash_points"

prop("C01", "Images do not depend on scheduling or on the number of CPUs",
 "For a scene limited to two levels of recursion and a camera without lens blur, the rendered image and its standard-deviation image after a given number of passes are the same (up to rounding) whatever the number of CPUs and however the worker goroutines are interleaved. This holds for every kind of object, material, light, medium, texture and camera the library offers, and rendering never has a data race.",
 [S, C, I], "all interleavings of the rendering workers, 1..many CPUs, all scenes built from the library's primitives with recursion <= 2, all image sizes and pass counts",
 "The golden-image tests render on one machine with whatever schedule the Go runtime happens to pick, with a loose tolerance; they cannot vary the number of CPUs or the interleaving, and never run under the race detector.",
 ["tracer/sampler.go", "tracer/ctx.go", "tracer/scene.go", "tracer/sequence", "tracer/objects", "tracer/materials", "tracer/lights", "tracer/media", "tracer/cameras", "texture"],
 [("one context (random sequences, ray pool) per worker goroutine", "tracer/sampler.go, tracer/ctx.go"), ("sequences indexed by pixel and pass, not by worker", "tracer/ctx.go Init"), ("disjoint tiles handed out through a channel", "tracer/sampler.go tessellate"), ("scene is read-only while rendering", "tracer/scene.go")],
 state=[("pixel sums and sample counts", "accumulated samples", "tracer/sampler.go")], observe=["Sampler.Image", "Sampler.StdDev"])

prop("C02", "Every pixel gets exactly the samples that were asked for",
 "A call that asks for n passes evaluates the image function exactly n times for every pixel, at a position belonging to that pixel, for every image size, number of CPUs and interleaving, and evaluates nothing once it has returned. The image is the mean, and the standard-deviation image the sample standard deviation, of exactly those samples of that pixel. A sample that is not a number is counted but adds nothing to its pixel and affects no other pixel.",
 [S, C, I], "all interleavings, CPU counts, image sizes (including 1 x n, non-multiples of the tile size), pass counts, and image functions (including ones that are slow or return NaN for some samples)",
 "The sampler tests look at averages of one 2-D size on one schedule; a lost, repeated or misplaced sample under another size or interleaving is invisible to them.",
 ["tracer/sampler.go"],
 [("tiles partition the image", "tracer/sampler.go tessellate"), ("wait for all workers before returning", "tracer/sampler.go SampleWithCancel"), ("NaN guard", "tracer/sampler.go samplePixel")],
 state=[("sum, sumSq, n", "per-pixel accumulators", "tracer/sampler.go")], observe=["image function calls", "Sampler.Image", "Sampler.StdDev"])

prop("C03", "Progressive passes add up and finished images never change",
 "Rendering a passes and then b more gives the same image and standard deviation as rendering a+b passes at once, for every way of splitting the passes over calls, on any number of CPUs and any interleaving. Reading the image or the standard deviation between calls does not influence the result, and an image that has been handed out is never modified by later rendering.",
 [S, H, C], "all splits of a pass budget into calls with reads in between, all interleavings and CPU counts (also changing between calls)",
 "No test renders the same image with different splits, and none keeps an intermediate image and looks at it again.",
 ["tracer/sampler.go", "tracer/ctx.go", "tracer/sequence"],
 [("sequence position is the per-pixel sample count", "tracer/sampler.go samplePixel"), ("Image and StdDev copy", "tracer/sampler.go memoize")], observe=["Sampler.Image", "Sampler.StdDev"])

prop("C04", "Renders running at the same time over one scene do not interfere",
 "When several renders run concurrently in one process over the same scene, objects, materials, lights and textures - with different cameras, sizes and pass counts - each produces exactly the image it would have produced alone, and there is no data race between them.",
 [S, C, I], "all interleavings of concurrently running renders over shared scenes with recursion <= 2",
 "The tests render one image at a time; nothing exercises two renders sharing a scene, which is what the image server does.",
 ["tracer/sampler.go", "tracer/scene.go", "tracer/objects", "tracer/materials", "tracer/lights", "tracer/media", "tracer/cameras", "texture", "api/spec.go", "api/view.go"],
 [("scene graph is immutable after construction", "tracer/objects, tracer/materials, tracer/lights"), ("mutable scratch state lives in the per-worker context", "tracer/ctx.go")], observe=["Sampler.Image", "race detector"])

prop("C05", "Anti-aliasing spreads the passes over each pixel",
 "With anti-aliasing on, the positions sampled for a pixel in successive passes are all different and spread over that pixel - after eight passes both halves of it, horizontally and vertically, have been sampled - and never leave the square of one pixel width around the pixel's centre. The position depends only on the image size, the pixel and the pass number, never on how passes were split over calls, on the number of CPUs or on the interleaving.",
 [S, H, C], "all image sizes, splits of passes over calls, CPU counts and interleavings",
 "The tests only compare final averages with a tolerance that an anti-aliasing offset which never changes passes easily.",
 ["tracer/sampler.go", "tracer/ctx.go", "tracer/sequence"],
 [("per-pixel shifted Halton sequence", "tracer/ctx.go, tracer/sequence"), ("offset scaled by the pixel size", "tracer/sampler.go samplePixel")], observe=["positions passed to the image function"])

prop("C06", "A served image is always the image of the requested view",
 "Whatever clients do concurrently (previews, bakes, cancels, view changes, disconnects), every successful preview or bake response has exactly the requested width and height and is the image of the requested view of the scene, averaged over a whole number (at least one) of complete passes. It is never mixed with, or replaced by, another request's view, and serving never has a data race.",
 [S, H, F], "all interleavings of concurrent preview, bake and cancel requests from several clients, with delays, disconnects and resets",
 "There is no test of the server at all, and the failures need two requests overlapping at particular points.",
 ["api/server.go", "api/view.go", "api/spec.go", "tracer/sampler.go"],
 [("mutex around the shared sampler", "api/server.go"), ("a bake refuses to start while another is running", "api/server.go prepareBakery"), ("previews use their own sampler", "api/server.go renderPreview")],
 state=[("current sampler, its view, its pass number", "shared between bakes", "api/server.go server")], observe=["HTTP responses of /preview and /bake"])

prop("C07", "At most one bake renders at a time",
 "While a bake is rendering and has not been cancelled, any other bake request is refused promptly with an error response and does not disturb the running one, and a refusal only ever happens while another bake that has not been cancelled is in progress. Previews are never refused because of a bake, nor held up until it ends. Cancelling always answers successfully, with or without a bake in progress and any number of times.",
 [S, H, F], "all interleavings of bake, preview and cancel requests from several clients",
 "No test issues overlapping requests.",
 ["api/server.go"],
 [("cancel channel doubles as the 'baking' flag, under a mutex", "api/server.go prepareBakery, handleCancel")],
 state=[("cancel", "non-nil while a bake is in progress", "api/server.go server")], observe=["HTTP status codes", "image function evaluations"])

prop("C08", "Repeated bakes of a view refine it, and a new view starts afresh",
 "As long as the same view is baked again with no bake of another view and no cancel in between, every successful bake is averaged over strictly more passes than the previous one and includes all of them. The first bake of a different view contains no samples of the old view, and refused or malformed requests and previews in between change nothing.",
 [S, H], "all sequences and interleavings of bakes, previews, refused and malformed requests",
 "No test bakes twice.",
 ["api/server.go", "tracer/sampler.go"],
 [("sampler kept between bakes of an equal view", "api/server.go prepareBakery"), ("pass number incremented after each bake", "api/server.go renderView")],
 state=[("smplr, smplrView, smplrNum", "refinement state", "api/server.go server")], observe=["HTTP responses of /bake"])

prop("C09", "The image server always comes back",
 "After any history of requests - malformed or truncated bodies, views that cannot be rendered (such as a negative size or an unknown isometric direction), cameras at any finite position and angle, cancels at any moment, clients that disconnect before, during or after a render - the server is still running, and once nothing is being rendered any more the next valid preview and the next valid bake both succeed. (Sizes whose image does not fit in memory are outside this.)",
 [S, H, F], "all request histories with malformed input, cancels, disconnects and resets at arbitrary points",
 "No test sends the server a bad request or drops a connection.",
 ["api/server.go", "api/view.go", "api/spec.go", "tracer/cameras"],
 [("error responses instead of crashes", "api/server.go handler.ServeHTTP"), ("baking flag cleared on every way out", "api/server.go renderView")],
 state=[("cancel", "must be cleared however a bake ends", "api/server.go server")], observe=["HTTP responses"])

prop("C10", "The viewer never falls back to an outdated view",
 "Once the viewer has asked the server for an image of the current camera, window size or debug setting, it never again puts on screen an image of an earlier one, whatever the order and delay in which answers arrive. What it shows is always either its placeholder or a complete image of one of the views the user has been at, exactly as received.",
 [S, H, F], "all interleavings of user events, previews, bake results, cancels and network delays",
 "The viewer has no tests, and a stale image needs a bake result to arrive in the middle of a view change.",
 ["cmd/bruteray-view/main.go", "api/server.go"],
 [("wanted/unwanted flag on the bake in flight", "cmd/bruteray-view/main.go handleBakery, cancelBaking"), ("preview is fetched synchronously on every change", "cmd/bruteray-view/main.go repaintIfNeeded")],
 state=[("wantBake, isBaking, renderDirty", "which results may be shown", "cmd/bruteray-view/main.go state")], observe=["frames published to the window", "HTTP requests sent"])

prop("C11", "The viewer converges to the current view at full resolution",
 "Once the user stops interacting (no button held, not paused), the network and server work, and requests are answered, the viewer shows, within a bounded time, the current view at the full window resolution, and keeps refining it. This holds after any earlier history of events, errors, delays and server restarts, and the camera it converges to is the one the user's input describes.",
 [S, H, F], "all histories of user events and network or server faults, followed by a quiet period",
 "No test runs the viewer; a missed wake-up or a flag left set only shows after particular histories.",
 ["cmd/bruteray-view/main.go", "api/server.go"],
 [("event loop restarts a bake whenever none is in flight", "cmd/bruteray-view/main.go run"), ("resolution doubles with every bake", "cmd/bruteray-view/main.go goBakeAndSend"), ("failed requests are retried after a pause", "cmd/bruteray-view/main.go")],
 state=[("bakeResolution, isBaking", "progress of refinement", "cmd/bruteray-view/main.go state")], observe=["frames published to the window"])

prop("C12", "The viewer survives server trouble and closes cleanly",
 "Refused connections, resets, truncated or garbage responses and error statuses never crash or wedge the viewer; while the server is failing it pauses between attempts instead of flooding it. It never has more than one bake request outstanding, and it exits when the window is closed, whatever it is doing at that moment, once the requests under way have been answered or have failed.",
 [S, H, F], "all interleavings of user events, window close and server or network faults",
 "No test runs the viewer against a failing server.",
 ["cmd/bruteray-view/main.go"],
 [("errors logged and turned into a placeholder or an empty result", "cmd/bruteray-view/main.go renderPreview, goBakeAndSend"), ("abort channel", "cmd/bruteray-view/main.go run, handleLifecycleEvent")],
 observe=["process exit or crash", "HTTP requests sent", "frames published"])

prop("C13", "A finished render left complete files, or it reported failure",
 "If a rendering program exits successfully, the image file the user asked for and the PPM file beside it are both complete, decode, have the dimensions the scene's Spec asks for and show its image averaged over all the passes done (at least as many as asked for), with the post-processing asked for. If creating, writing, or closing any output fails at any point (disk full, I/O error, short write), the program ends with a non-zero exit status.",
 [F, C, I], "all sequences of disk faults at every file operation, all output formats, sizes and pass counts",
 "No test writes through the command-line path, and none makes a write fail.",
 ["api/render.go", "imagef/ppm/ppm.go", "imagef/post"],
 [("errors returned up to the exit check", "api/render.go savef, savePPM"), ("files rewritten after every batch of passes", "api/render.go renderLocal")], observe=["files on disk", "process exit status"])

prop("C14", "Killing a render never costs the whole image",
 "From the moment the first result has been saved, a rendering program killed at any instant leaves at least one complete, decodable output image of the requested dimensions, averaged over a whole number of passes, and the passes in the newest complete file never decrease as the program runs.",
 [K, F, C], "a kill at every point between and inside file operations, all formats, sizes and pass counts",
 "No test kills a render; the window between truncating one file and finishing the other is milliseconds wide.",
 ["api/render.go"],
 [("the two output files are rewritten one after the other, never at the same time", "api/render.go renderLocal"), ("image encoded in memory before its file is truncated", "api/render.go savef")], observe=["files on disk after the kill"])

prop("C15", "An animation leaves one complete file per frame, in order",
 "When an animation program exits successfully there is exactly one complete image file per frame, numbered from zero in frame order, each showing that frame's scene at its size and passes, the 'last' image shows the last frame, and the caller was asked for every frame's scene once, in order. A disk fault at any point ends it with a non-zero exit status, and a kill at any point leaves every earlier frame complete and correct.",
 [F, K, C], "all disk fault and kill points, frame counts, sizes and pass counts, fresh or pre-existing output directory",
 "No test renders an animation.",
 ["api/animate.go", "api/render.go"],
 [("frames rendered and saved one after the other", "api/animate.go"), ("errors end the program", "api/animate.go renderFrame")], observe=["files on disk", "process exit status"])

prop("C16", "PPM encoding writes the whole image or returns an error",
 "When an encoder of the PPM formats returns without error, every byte it produced has been accepted by the writer and they form one valid file that decodes to the image's size and (within quantisation) colours. When the writer fails or stops short at any byte, the encoder returns an error.",
 [F, I], "all image sizes and contents, all writer fault positions, short writes, both formats",
 "The tests encode one image into a buffer that never fails.",
 ["imagef/ppm/ppm.go"],
 [("write errors returned", "imagef/ppm/ppm.go")], observe=["bytes accepted by the writer", "returned error"])

prop("C17", "Mesh files load completely or with an error",
 "Loading a complete mesh file (PLY or OBJ, every line ended) that is readable yields every vertex and face of the file, in order, however the reads are chunked. If reading fails or (for PLY, whose header announces the counts) the data ends early, loading returns an error and no geometry; it never crashes, hangs, or returns part of a mesh as if it were complete, and it releases the file in every case.",
 [F, I], "all mesh files, chunkings of the input, read faults and truncation points",
 "The parser tests parse small complete files from a reader that never fails.",
 ["tracer/objects/ply/parser.go", "tracer/objects/obj/parser.go"],
 [("panic-based errors recovered at the top", "tracer/objects/ply/parser.go Parse, tracer/objects/obj/parser.go ParseFile"), ("scanner error checked", "tracer/objects/obj/parser.go parseFile")], observe=["returned mesh and error", "open files"])

prop("C18", "Texture images load completely or with an error",
 "Loading an image file for use as a texture yields every pixel of the picture at its place, however the reads are chunked, and releases the file. If the file cannot be opened, cannot be read beyond some point, or is truncated, loading returns an error and no image; it never crashes or returns a partly filled image.",
 [F, I], "all images, chunkings, read faults and truncation points, PNG and JPEG",
 "Textures are only loaded from intact files in the tests.",
 ["imagef/load.go"],
 [("decode errors returned before any pixel is handed out", "imagef/load.go Load")], observe=["returned image and error", "open files"])

prop("C19", "The watcher runs at most one copy of the program",
 "However the source file changes and whatever fails (compiling, starting, killing, renicing), at no moment are two copies of the watched program running, and a new copy is only started after the previous one has ended and has been waited for.",
 [S, H, F], "all histories of source changes and process faults and of program exits at arbitrary times",
 "The watcher has no tests.",
 ["cmd/bruteray-watch/main.go"],
 [("kill and wait before compiling and starting", "cmd/bruteray-watch/main.go rerun")],
 state=[("last", "the running copy", "cmd/bruteray-watch/main.go")], observe=["processes started, killed and waited for"])

prop("C20", "The watcher ends up running the newest version that compiles",
 "Within a bounded time after the last change to the source file, the watcher has compiled exactly that content and, if it compiles and starts, runs it with the user's arguments; a change made while it was compiling is not lost, and an unchanged file is not compiled or started again. Failures to compile, start, kill or renice, programs that end on their own, and a source file that is missing for a moment never stop the watcher.",
 [S, H, F], "all histories of source changes (including while compiling, and replace-by-rename), compile errors, start and kill failures and program exits",
 "The watcher has no tests.",
 ["cmd/bruteray-watch/main.go"],
 [("modification time taken before compiling", "cmd/bruteray-watch/main.go watch"), ("errors reported and the loop continued", "cmd/bruteray-watch/main.go rerun")],
 state=[("ts", "modification time last acted upon", "cmd/bruteray-watch/main.go watch")], observe=["processes started", "watcher exit"])

# ---- properties outside the reach of this technique ----
def na(id, title, statement, why, files, mech):
    prop(id, title, statement, [I], "all inputs", why, files, mech)
na("N01", "The bounding-volume tree finds what testing every object would find",
 "For every ray and every collection of objects, intersecting the tree gives the same frontmost hit as intersecting every object in turn.",
 "Golden images sample a few scenes.", ["tracer/objects/tree.go", "tracer/objects/boundingbox.go"], [("split and early-out on bounding boxes", "tracer/objects/tree.go")])
na("N02", "Solid operations obey set algebra",
 "For every point, a union, intersection or difference of solids contains the point exactly when the corresponding combination of its operands does, and its surface is where that changes.",
 "Tests cover a handful of solids.", ["tracer/objects/csg.go"], [("interval logic", "tracer/objects/csg.go")])
na("N03", "Affine transforms compose, invert and preserve bounds",
 "Transforming by a composition equals transforming in turn, the inverse undoes it, and bounds contain the transformed object.",
 "Examples only.", ["geom/affinetransform.go", "tracer/objects/transformed.go"], [("matrix algebra", "geom")])
na("N04", "Sampling a light directly agrees with hitting it by chance",
 "The illumination from a light's own sampling equals that of its visible surface, for all positions and scales.",
 "Tests sample a few lights, some failing.", ["tracer/lights"], [("solid-angle weights", "tracer/lights")])
na("N05", "Camera conventions: field of view, handedness, aspect",
 "Every camera maps image coordinates to rays with the documented field of view and orientation.",
 "Golden images sample a few cameras.", ["tracer/cameras"], [("ray construction", "tracer/cameras")])
na("N06", "Colour conversion and textures are continuous and in range",
 "sRGB conversion is monotonic and inverts, texture interpolation stays within its corner values.",
 "Spot values only.", ["imagef/colorf", "texture"], [("formulas", "imagef/colorf, texture")])
na("N07", "Quasi-random sequences have low discrepancy",
 "Every prefix of the Halton sequences used for sampling is well distributed.",
 "Two short examples.", ["tracer/sequence"], [("radical inverse", "tracer/sequence/halton.go")])
na("N08", "Post-processing conserves energy",
 "Convolution kernels are normalised so that bloom redistributes light without creating any.",
 "Three golden images.", ["imagef/post"], [("kernel normalisation", "imagef/post")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            assert p["statement"].count(". ") <= 2, (p["id"], p["statement"])
            f.write(json.dumps(p) + "\n")
    print(len(P))
