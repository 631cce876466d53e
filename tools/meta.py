#!/usr/bin/env python3
"""The table behind properties.jsonl and MANIFEST.json. Run after editing it: python3 /verif/tools/meta.py"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "tests/ has 25 small programs (22 stable) which print what they see and assert little: "
P = []
HOOK = "c8570ac"


def prop(pid, title, statement, over, text, why, files, mech, technique, note, observe=None, state=None):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe, state=state))


prop("C01", "Executing a node evaluates its whole upstream graph, and cycles fail",
     "Executing a node of an acyclic graph succeeds and outputs exactly the composition of the nodes it depends on, each evaluated "
     "after its own inputs, with inputs taken in input-number order and shared nodes evaluated consistently, whatever the order "
     "nodes were created or connected in. Every evaluated node reports valid, or a warning when it lacks an input or its file; nodes "
     "which the executed node does not depend on are not touched. Executing a node with a cycle upstream reports an error and terminates.",
     ["programs", "inputs"], "all graphs (shapes, node types, attribute values, input numbers, creation orders), all executed nodes",
     T + "each evaluates one or two fixed graphs without judging the pixels; graph shapes, shared nodes and cycles are unbounded.",
     ["src/graph.rs", "src/graphiter.rs", "src/node.rs", "src/node/", "src/stream.rs"],
     [("upstream ordering and cycle detection", "src/graph.rs find_all_upstream_nodes, src/graphiter.rs"),
      ("frame execution", "src/graph.rs execute, execute_frame, compute_node_output")],
     "model-based random graph generation against a numpy reference evaluator",
     "Random acyclic graphs of up to 9 nodes, cyclic graphs of up to 6, chains and ladders up to 300; every pixel against an independent "
     "double-precision model with error bounds.", ["output stream", "node status", "execute status"])

prop("C02", "Results depend only on the current structure, not on the editing history",
     "After any sequence of creating and removing nodes, connecting, re-connecting and disconnecting inputs and setting attributes, "
     "every node evaluates exactly as it would in a new graph built directly with the final nodes, attributes and connections. "
     "Connecting to an input replaces only that input's connection, disconnecting removes only that input's connection, and removing a node "
     "removes exactly its own connections.",
     ["histories"], "all edit histories over a graph", T + "two fixed re-connection scenarios; histories mixing edits are not covered.",
     ["src/graph.rs", "src/graph.cpp", "src/node.cpp"],
     [("edge storage", "src/graph.rs connect, disconnect_input, remove_node"), ("direct upstream lookup", "src/graph.rs find_direct_upstream_nodes")],
     "stateful model-based testing of edit histories, differential against a fresh graph",
     "Histories of up to 22 edits over 6 nodes; each execution against the reference model, final structure against a fresh graph bit for bit.",
     ["output stream", "node status"])

prop("C03", "Node lifecycle: existence, status and errors are exact for every handle",
     "A node exists in a graph exactly from its creation there to its removal; removing succeeds exactly for existing nodes. A node that "
     "never existed, was removed or belongs to another graph reports as non-existent, has no attributes, ignores edits, and executing it "
     "reports an error, without affecting other nodes. A new node (also one re-created with an old id) starts unevaluated, with default "
     "attributes and no connections.",
     ["histories"], "all interleavings of lifecycle operations over several handles and two graphs",
     T + "none removes a node and looks at the others, or uses stale handles.",
     ["src/graph.rs", "src/graph.cpp", "src/node.rs", "src/node.cpp"],
     [("id lookup", "src/graph.rs find_node_index_from_id, node_exists, node_status"), ("removal and index re-use", "src/graph.rs add_node, remove_node")],
     "stateful model-based testing over node handles", "Histories of up to 28 operations; every handle of both graphs queried after each step.",
     ["node_exists", "node_status", "execute status", "attributes"])

prop("C04", "The image cache never exceeds its capacity and evicts least recently used first",
     "After every operation the cache uses at most its capacity, and its reported entry count and used bytes are those of the images it "
     "holds. When an image must make room, the least recently used images go first and no more than needed; images larger than the "
     "capacity are not kept, and lowering the capacity evicts at once.",
     ["histories", "configurations"], "all sequences of image accesses and capacity changes, from several graphs",
     T + "test_cache_* read a sequence once with one capacity.", ["src/cache.rs", "src/cache.cpp", "src/node/"],
     [("LRU store", "src/cache.rs insert, get, set_capacity_bytes, evict")],
     "stateful testing with image sizes whose sums identify the cache content",
     "Sequences of up to 30 accesses over 8 images, and of up to 60 operations on the store itself, against an LRU model, and random graphs under changing capacities.",
     ["cache used/capacity/count", "output stream"])

prop("C05", "The cache is transparent: results with it equal results without it",
     "For every graph and history of edits, frame changes, re-connections and capacity changes, evaluating with a shared, reused cache gives "
     "the same streams (pixels, windows, image properties, operations) and node statuses as evaluating without any caching. This holds for "
     "every attribute of every node: no edit ever shows a stale picture.",
     ["histories", "inputs"], "all edit histories on graphs with caching nodes", T + "no test compares cached with uncached results.",
     ["src/node/", "src/cache.rs", "src/hashutils.rs", "src/graph.rs"],
     [("cache keys", "src/node/*.rs attr_hash, src/node.rs hash"), ("cache lookup in nodes", "src/node/{read_image,merge_image,crop_image,viewer,resample_image}.rs compute")],
     "differential testing of cached against uncached evaluation over edit histories",
     "Up to 7 edits (mostly of one attribute) on chains ending in a caching node, and every single attribute changed alone, compared bit for bit. Files changed on disk under the same name are outside.",
     ["output stream", "node status"])

prop("C06", "Attributes store exactly what is set and nothing else",
     "Every documented attribute of every node type exists with its default value, a set value of the attribute's type is returned exactly, and "
     "setting one attribute never changes another attribute or another node. Attributes a node does not have report as missing, read as zero or "
     "empty text, and setting them (or setting with the wrong type) changes nothing.",
     ["histories", "inputs"], "all sequences of typed attribute operations on all node types",
     T + "test_graph_create_and_set_attrs sets a few attributes of three types.", ["src/node/", "src/attrblock.rs", "src/graph.rs"],
     [("attribute blocks", "src/node/*.rs get_attr_*, set_attr_*, attr_exists")],
     "model-based testing of attribute stores against a map", "Up to 30 typed sets over up to 4 nodes, all attribute names of all node types.",
     ["get/set attribute API"])

prop("C07", "Grade applies its documented formula to the processed channels",
     "A grade maps each processed channel through black/white point, lift/gain, multiply, offset and gamma, mixed with the input by the mix "
     "value, and leaves other channels (and disabled grades everything) unchanged, on buffers of one, three and four channels and baked into images "
     "of all pixel types. Several grades apply in graph order. The reverse option undoes the grade where graded values lie from 0 to 1.",
     ["inputs"], "all attribute values, pixel values, channel counts and pixel types", T + "test_node_grade prints one grade, and is not stable.",
     ["src/node/grade.rs", "src/colorop/colorgrade.rs", "src/ops/colorgrade.rs", "src/coloroputils.rs", "src/stream.rs"],
     [("grade operator", "src/colorop/colorgrade.rs"), ("attribute to operator", "src/node/grade.rs compute")],
     "property-based testing against a double-precision formula, and forward/reverse round trip",
     "1-4 grades with ordinary and extreme per-channel values. Values where the formula is a power of a negative number, and the clamp/premult attributes, are outside.",
     ["stream colour operations", "baked pixels"])

prop("C08", "Crop outputs exactly the requested window",
     "A crop outputs, in linear float pixels with all pending operations applied, the requested window: source pixels at their own positions "
     "inside the source data window and black elsewhere, with a one-pixel black border around it when black outside is set. The display window becomes the "
     "crop window when reformatting and is kept otherwise.",
     ["inputs"], "all images, windows (inside, outside, overlapping), options and upstream nodes", T + "test_node_crop writes a few fixed crops without checking pixels.",
     ["src/node/crop_image.rs", "src/ops/imagecrop.rs", "src/bbox/"],
     [("pixel copy", "src/ops/imagecrop.rs"), ("row iteration", "src/bbox/bbox2di/")],
     "property-based testing against a reference crop", "Images up to 7x7 and larger with random windows, one or two crops, optional upstream nodes. Inverted windows and the intersect attribute are outside.",
     ["output stream"])

prop("C09", "Merge combines two images pixel by pixel over the union of their windows",
     "A merge outputs, for each position in the union of both (deformed) data windows, A+B*mix, A over B, or A*B*mix of the two inputs' linear "
     "pixels with all their operations applied; where an input has no pixel it counts as black and transparent. The display window, number of channels, "
     "pixel aspect and orientation are those of input B, and neither input stream is changed.",
     ["inputs"], "all image pairs, windows, channel counts, modes and mix values", T + "test_node_merge merges fixed images without checking pixels.",
     ["src/node/merge_image.rs", "src/ops/imagemerge.rs", "src/ops/bake.rs"],
     [("merge arithmetic", "src/ops/imagemerge.rs"), ("baking of inputs", "src/ops/bake.rs")],
     "property-based testing against a reference merge", "Random image pairs with random windows and upstream nodes on either side, merges of merges.",
     ["output stream"])

prop("C10", "Pixel data type conversions are exact, saturating and monotone",
     "Converting pixels between 32-bit float, half, 8-bit and 16-bit integers keeps each value to within half a step of the target type, saturates at the limits of "
     "integer types, preserves order, size and channels, and leaves pixels alone when the type already matches. Round trips through a type that "
     "can represent every value give the identical pixels.",
     ["inputs"], "all pixel values of all four types, all chains of conversions", T + "none compares pixel values across types.",
     ["src/pixelblock/", "src/pixelblock.rs", "src/ops/bake.rs", "src/node/viewer.rs"],
     [("conversion", "src/pixelblock/pixelblock.rs convert_into_*, src/pixelblock/utils.rs")],
     "property-based testing with boundary-biased values, round trips and monotonicity",
     "All half bit patterns, all integers and floats around quantisation steps, chains of up to 4 conversions. NaN and infinities are outside.",
     ["pixel buffer"])

prop("C11", "Written files hold the evaluated picture with the requested settings",
     "Executing a writer creates exactly the requested file holding its input's picture with all operations applied, in sRGB for PNG and JPEG and linear otherwise, with "
     "the requested pixel type, compression settings, windows (cropped to the display window as requested), and the input's pixel aspect and "
     "orientation; reading it back gives that picture. The writer passes its input stream on unchanged. A writer that is disabled, not set to execute or without "
     "input writes nothing, and a file that cannot be written is reported as an error.",
     ["inputs", "configurations"], "all images, formats and writer settings; unwritable targets",
     T + "test_node_write / test_image_io write fixed files and do not read them back for comparison.",
     ["src/node/write_image.rs", "src/imageio.rs", "src/imageio.cpp", "src/oiio_utils.cpp", "src/ops/bake.rs", "src/ops/imagecrop.rs"],
     [("write", "src/node/write_image.rs do_image_process, src/imageio.cpp oiio_write_image")],
     "property-based write/read round trips against a reference bake, file bytes inspected",
     "EXR, PNG, TIFF, DPX, TGA, SGI and JPEG, up to two operations before. OpenImageIO is trusted for decoding. Pixels of lossy EXR compressions are not compared.",
     ["files", "node status", "execute status"])

prop("C12", "File paths expand environment variables, home and frame padding",
     "Paths of readers and writers expand environment variables (with defaults) and the home directory, and the first run of # characters becomes the "
     "frame number padded with zeros to the length of the run, with the sign counted in and longer numbers kept whole. A path with an unknown "
     "variable is used as it is. The expanded name is exactly the file that is read or written.",
     ["inputs"], "all path texts, frame numbers and environments", T + "sequences with four # and small positive frames only.",
     ["src/pathutils.rs", "src/node/read_image.rs", "src/node/write_image.rs"],
     [("expansion", "src/pathutils.rs expand_string")],
     "property-based testing against a reference expansion, with decoy files",
     "Paths of words, # runs of up to 21, variables and ~; frames over the whole 32-bit range.", ["files read and written"])

prop("C13", "Frame lists are executed in order, one complete evaluation per frame",
     "Executing a list of frames evaluates the graph for each frame in order, with fractional frames rounded to the nearest whole frame (halves away from "
     "zero) for files; every writer writes each frame's own picture, missing frames read as the default picture with a warning, and the output "
     "stream is that of the last frame. A frame that fails ends the execution with an error after the frames before it were done, and "
     "later executions are not affected.",
     ["histories", "fault_sequences"], "all frame lists, gaps in sequences, cache sizes, and failing frames",
     T + "test_cache_read_image_seq reads consecutive frames.", ["src/graph.rs", "src/node/read_image.rs", "src/node/write_image.rs", "src/pathutils.rs"],
     [("frame loop", "src/graph.rs execute"), ("frame rounding", "src/node/{read,write}_image.rs")],
     "stateful property-based testing of frame lists with injected write failures", "Lists of up to 6 frames, up to 3 executions, sequences with gaps.",
     ["files", "output stream", "statuses"])

prop("C14", "Transforms and lens nodes move positions by the composed geometric maps",
     "Deforming positions through a stream applies the enabled transform and lens nodes in graph order, each with its documented translate, rotate (about its "
     "centre), scale, pivot and invert/direction settings relative to the given image window, and changes only the first two coordinates of "
     "each position. A node followed by its opposite gives the positions back.",
     ["inputs"], "all attribute values, node chains, positions and windows", T + "test_node_transform / lens_distort print deformed meshes.",
     ["src/node/transform.rs", "src/node/lens_distort.rs", "src/deformer.rs", "src/deformer/", "src/deformutils.rs", "src/math/xform.rs", "src/stream.rs"],
     [("deformers", "src/deformer/transform.rs, src/deformer/tde4_classic.rs"), ("application", "src/deformutils.rs")],
     "property-based testing against composed matrices, and do/undo round trips",
     "1-4 nodes. The lens formula library (LDPK) is not installed; an invertible affine stand-in is linked, so the formula itself is outside.",
     ["deformed positions"])

prop("C15", "Baked deformations put each source pixel at its deformed position",
     "Baking transforms and lens distortion into an image yields, at each output pixel, the source pixel nearest to the position the "
     "inverse deformation maps its centre to, with edge pixels extended outwards. The display window is kept; transforms keep the data window too, and lens distortion "
     "grows it to the distorted window plus a margin.",
     ["inputs"], "all images, windows and deformer chains", T + "no test looks at deformed pixels.",
     ["src/ops/pixelremap.rs", "src/ops/bake.rs", "src/deformutils.rs", "src/deformer/"],
     [("inverse mapping and sampling", "src/ops/pixelremap.rs, src/deformutils.rs")],
     "property-based testing against a reference resampling through inverse matrices",
     "Images up to 24x24, 1-3 nodes; pixels whose sample lies on a rounding tie may be any of the neighbours.", ["output stream"])

prop("C16", "The plane mesh is complete, consistent and exported faithfully",
     "A plane of given size, centre and divisions (two or more) fills its buffers completely: evenly spaced positions spanning the size, shifted so the given centre lies "
     "at the origin, texture coordinates spanning 0..1 with the vertical axis flipped, triangles covering every cell exactly once with one winding, and border and wire lines "
     "along exactly the border and all cell edges. All buffer sizes match the counts, and the exported mesh file holds the same vertices, "
     "texture coordinates and triangles.",
     ["inputs"], "all sizes, centres and division counts, also changed after creation", T + "test_geometry_plane prints one plane.",
     ["src/geom.rs", "src/geom/plane.rs", "src/math/interp.rs"], [("buffers", "src/geom/plane.rs"), ("OBJ export", "src/geom.rs export_mesh")],
     "property-based testing of mesh invariants and an OBJ round trip", "Divisions up to 40.", ["mesh buffers", "OBJ file"])

prop("C17", "Colour LUTs sample the exact transform, whatever the cache holds",
     "A 3D LUT of an edge length holds the colour-space conversion, and a colour-operations LUT the stream's grades, of the evenly spaced identity grid with red "
     "varying fastest, with the documented size for one and three channels. The result never depends on what the cache held before: other "
     "sizes, spaces, operations and images never answer for each other.",
     ["histories", "inputs"], "all sequences of LUT requests and executions on one cache", T + "test_color_lut prints one LUT.",
     ["src/colorlutimage.rs", "src/colorlutimage.cpp", "src/cache.rs", "src/ops/bake.rs"],
     [("LUT generation and cache keys", "src/colorlutimage.rs")],
     "stateful property-based testing against a reference grid and a fresh cache", "Edge lengths 2-33, sRGB/Rec709/Linear, up to 7 requests.", ["LUT image"])

prop("C18", "A stream is an immutable snapshot",
     "A stream taken from a graph keeps showing the same pixels, windows, image properties, deformations and colour operations, whatever happens later to the "
     "graph (edits, executions, deletion), the cache or the files. Its pixel buffer always has exactly the length of width, height, channels and pixel type. "
     "Until the next execution the graph keeps giving the same output stream.",
     ["histories"], "all histories after taking a stream", T + "streams are read immediately after execution.",
     ["src/stream.rs", "src/stream.cpp", "src/graph.rs", "src/cache.rs", "src/ops/bake.rs", "src/node/"],
     [("shared ownership with copy before change", "src/stream.rs, src/node/*.rs")],
     "stateful testing: all earlier streams re-read after every step", "Up to 7 later operations; all streams probed after each.", ["stream API"])

prop("C19", "The viewer bakes exactly what its options ask for",
     "A viewer bakes nothing, the colour space, the colour space and grades, or everything (with deformations) as asked, into the requested colour space and "
     "pixel type, optionally cropped to the display window, and its stream carries no longer the operations it baked and still those it did not. "
     "Baking at once or stepwise gives the same picture, and a viewer that bakes nothing or is disabled outputs its input.",
     ["inputs", "configurations"], "all option combinations, images and upstream nodes", T + "test_node_viewer runs a few options without checking pixels.",
     ["src/node/viewer.rs", "src/ops/bake.rs", "src/ops/xformcolor.rs", "src/colorspace.rs", "src/colorspace.cpp"],
     [("bake", "src/ops/bake.rs do_process"), ("viewer", "src/node/viewer.rs")],
     "property-based testing against a reference bake, and metamorphic reordering", "Up to 3 nodes and 2 viewers on EXR/PNG images.", ["output stream"])

prop("C20", "Configuration: first file on the search path wins, bad values never harm",
     "The configuration is read from the first directory of the search path that holds the file, and its cache percentage gives that share "
     "of the system's memory in bytes, clamped to 0..100 percent. A missing variable, missing file or invalid file gives the default of no cache.",
     ["configurations", "inputs"], "all search paths and file contents", T + "test_config reads one valid file.",
     ["src/config.rs", "src/config.cpp", "src/systemmemory.cpp", "config/"],
     [("search and parsing", "src/config.rs get_config_path, get_config"), ("memory size", "src/systemmemory.cpp")],
     "property-based testing of generated search paths and YAML texts", "Up to 4 directories.", ["configuration API"])

prop("C21", "Node identity: names map to stable unique ids, generated ids are unique",
     "The id of a name is the same in every call and every process, different names have different ids, and a node created by name has that id and the requested type. Ids generated "
     "for unnamed nodes are unique, so all created nodes coexist and removing one leaves the others.",
     ["inputs", "histories"], "all names and creation sequences", T + "two fixed names.", ["src/hashutils.rs", "src/node.cpp", "src/node.rs", "src/graph.cpp"],
     [("ids", "src/hashutils.rs generate_id_from_name, generate_random_id")],
     "property-based testing over names, differential between two processes", "Up to 20 names per case. Hash collisions of 64-bit ids are treated as impossible.",
     ["node ids", "node_exists"])

prop("C22", "Resampling scales by powers of two with nearest or linear sampling",
     "A resample with factor f outputs the image scaled by 2^f in both directions (at least one pixel), windows starting at zero, with the same "
     "channels and pixel type, each pixel sampled from the corresponding source position, nearest or linearly interpolated. Factor zero outputs the input.",
     ["inputs"], "all images, pixel types and factors", T + "test_node_resample prints one image and is not stable.",
     ["src/node/resample_image.rs", "src/ops/imageresample.rs", "src/ops/imageresample.cpp"],
     [("resampling", "src/ops/imageresample.cpp")], "property-based testing against a reference resampler", "Images up to 40 pixels wide, factors -5..3.", ["output stream"])

prop("C23", "Disabled nodes are invisible",
     "A disabled grade, transform, lens, crop, resample or viewer node, with whatever attribute values, passes its input on exactly, so inserting "
     "it on any connection of any graph never changes any result; null nodes do the same. A disabled reader gives the default picture with a warning.",
     ["programs", "inputs"], "all graphs, insertion places and attribute values", T + "no test disables a node inside a graph.",
     ["src/node/"], [("enable attribute", "src/node/*.rs compute, validate_inputs, attr_hash")],
     "metamorphic testing: insertion of disabled nodes", "Random graphs, bit-for-bit comparison.", ["output stream"])

prop("C24", "Reading any file gives its exact picture or the default with a warning",
     "Reading an image file gives its pixels in the file's own pixel type (float if that type is unsupported), at most four channels (three padded to four for "
     "types other than float), with its windows moved so that the display window starts at zero, and its colour space, pixel aspect and "
     "orientation. A file that is missing, damaged, empty, of fewer than three channels or no image at all gives the default picture with a warning, never a crash.",
     ["inputs", "fault_sequences"], "all image files of the supported formats and all damaged files", T + "reads four well-formed files.",
     ["src/node/read_image.rs", "src/imageio.rs", "src/imageio.cpp", "src/oiio_utils.cpp", "src/pixelblock.cpp"],
     [("read", "src/imageio.cpp oiio_read_image, src/oiio_utils.cpp oiio_allocate_image")],
     "fuzzing with structured and damaged files, differential against OpenImageIO", "Seven formats, 1-9 channels, truncation and corruption. Headers are not corrupted and 64-bit float files are outside.",
     ["output stream", "node status"])

prop("C25", "Dirty state and execute status tell whether results are up to date",
     "A graph is uninitialised until a node is added, dirty after every effective edit (adding or removing nodes, connecting, disconnecting an existing connection, setting an attribute) and "
     "clean exactly from a successful execution to the next edit; queries and failed executions never make it clean. The last execute status is that of the most recent execution.",
     ["histories"], "all histories of edits, queries and executions", T + "states are printed, not asserted over histories.",
     ["src/graph.rs", "src/graph.cpp"], [("state", "src/graph.rs state, status")],
     "stateful model-based testing", "Histories of up to 27 operations over 5 handles.", ["graph state", "execute status"])

prop("C26", "Equal stream hashes mean equal streams, and hashes are reproducible",
     "Two streams with the same hash show the same pixels, windows, image properties, deformations and colour operations, so every attribute that changes the result "
     "changes the hash. The same configuration always gives the same hash, with or without a cache and in any graph.",
     ["histories", "inputs"], "all pairs of configurations and edit histories", T + "no test compares hashes.",
     ["src/hashutils.rs", "src/node.rs", "src/node/", "src/stream.rs", "src/colorop/", "src/deformer/"],
     [("hashing", "src/node.rs hash, src/node/*.rs attr_hash, src/colorop/colorgrade.rs hash")],
     "property-based testing of hash/stream agreement over edit histories", "Histories of up to 7 edits, every node after every edit; for every attribute of every node, one changed value against the unchanged one.", ["stream hash", "colour operations hash"])

EXTRA = os.path.join(V, "tools", "meta_extra.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())

with open(os.path.join(V, "properties.jsonl"), "w") as fh:
    for p in P:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                 why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))
        if p["observe"]:
            d["anchors"]["observe_at"] = p["observe"]
        d["anchors"]["hook_needed"] = None
        assert len(p["title"]) <= 80, p["title"]
        fh.write(json.dumps(d) + "\n")

m = dict(version=1, setup_cmd="python3-vt /verif/harness/build.py",
         checks=[dict(property=p["id"], quick_cmd="python3-vt /verif/run.py %s quick" % p["id"],
                      thorough_cmd="python3-vt /verif/run.py %s thorough" % p["id"], technique=p["technique"], level="exploration",
                      level_note=p["note"]) for p in P],
         hooks=dict(guard="cfg(ocg_verif)", enable="harness/build.py: cargo rustc -- --cfg ocg_verif, with OCG_VERIF_MODULE=harness/ocgx.rs",
                    source_commits=[HOOK]),
         not_applicable=[],
         notes="The checks drive the public C++ API through a server program built from /repo's working tree; the one hook lets a module of the harness "
               "reach a few internals (cache store, pixel blocks, path expansion). Where that module does not compile, its sub-checks are left out. "
               "A run reports what it covered in evidence/<id>.json; python3-vt run.py --replay FILE repeats a counterexample.")
with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
