"""Generators shared by the properties, and the code which builds a generated graph on the server."""
from hypothesis import strategies as st

import model
from core import Violation
from ocg import (CROP, F32, GRADE, HALF, LENS, MERGE, NULL, READ, RESAMPLE, U16, U8, VIEWER, WRITE, XFORM)


def fl(lo, hi):
    """32-bit floats in a range, with round values often."""
    lo, hi = model.f32(lo), model.f32(hi)
    nice = [v for v in (-2.0, -1.0, -0.5, -0.25, 0.0, 0.125, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 3.0) if lo <= v <= hi]
    return st.one_of(st.sampled_from(nice or [lo]), st.floats(lo, hi, width=32))


# ---------------------------------------------------------------- images
@st.composite
def image_file(draw, fmts=("exr", "exr", "exr", "png"), max_size=7, windows=True, kinds=(0, 1, 2, 3), big=True, far=False):
    fmt = draw(st.sampled_from(fmts))
    w = draw(st.integers(1, max_size))
    h = draw(st.integers(1, max_size))
    if big and draw(st.integers(0, 15)) == 0:
        w, h = draw(st.sampled_from([(130, 1), (1, 130), (70, 2), (300, 1), (2, 66), (33, 17), (1, 260), (1100, 1), (2, 1030), (66, 64), (2050, 1)]))
    kind = draw(st.sampled_from(kinds))
    seed = draw(st.integers(0, 999))
    if fmt in ("png", "tif"):
        return dict(fmt=fmt, dtype=draw(st.sampled_from([U8, U16] if fmt == "png" else [U8, U16, F32])), w=w, h=h, c=3, x=0, y=0, display=[0, 0, w, h],
                    kind=kind, seed=seed)
    f = dict(fmt=fmt, dtype=draw(st.sampled_from([F32, HALF])), w=w, h=h, c=draw(st.sampled_from([3, 4])), x=0, y=0,
             display=[0, 0, w, h], kind=kind, seed=seed)
    if windows and draw(st.booleans()):
        f["x"], f["y"] = draw(st.integers(-4, 6)), draw(st.integers(-4, 6))
        if far and draw(st.integers(0, 5)) == 0:
            f["x"] += draw(st.sampled_from([0, 20, -20, 300, -300, 70000, -70000]))
            f["y"] += draw(st.sampled_from([0, 20, -20, 300, -300, 70000, -70000]))
        if draw(st.integers(0, 3)) > 0 and max(w, h) <= 300:       # (lens nodes are relative to it: windows would explode)
            dx, dy = draw(st.integers(-3, 3)), draw(st.integers(-3, 3))
            f["display"] = [dx, dy, dx + draw(st.integers(1, max_size + 3)), dy + draw(st.integers(1, max_size + 3))]
        else:
            f["display"] = [f["x"], f["y"], f["x"] + w, f["y"] + h]
    if draw(st.integers(0, 5)) == 0:
        f["aspect"] = draw(st.sampled_from([2.0, 0.5, 1.25]))
        f["orient"] = draw(st.integers(1, 8))
    return f


def file_name(i, f):
    return "f%d.%s" % (i, f["fmt"])


def write_file(srv, path, f):
    srv.write_image(path, model.content(f["kind"], f["seed"], f["h"], f["w"], f["c"], f["dtype"]), f["dtype"],
                    (f["x"], f["y"]), tuple(f["display"]),
                    [("PixelAspectRatio", "f", f["aspect"]), ("Orientation", "i", f["orient"])] if "aspect" in f else [])


# ---------------------------------------------------------------- attributes of each node type
@st.composite
def grade_attrs(draw, reverse=None, alpha=True, safe=False):
    a = {}
    chans = "rgba" if alpha else "rgb"
    for name, s in (("black_point", fl(-0.5, 0.4)), ("white_point", fl(0.5, 2.0)), ("lift", fl(-0.5, 0.4)),
                    ("gain", fl(0.5, 2.0)), ("multiply", fl(0.25, 2.0)), ("offset", fl(-0.5, 1.0)),
                    ("gamma", fl(0.25, 3.0))):
        if draw(st.integers(0, 2)) == 0:
            which = draw(st.sampled_from(["all", "one"]))
            if which == "all":
                v = draw(s)
                for c in chans:
                    a["%s_%s" % (name, c)] = v
            else:
                a["%s_%s" % (name, draw(st.sampled_from(chans)))] = draw(s)
    for c in "rgba":
        if draw(st.integers(0, 4)) == 0:
            a["process_" + c] = draw(st.integers(0, 1))
    if draw(st.integers(0, 2)) == 0:
        a["mix"] = draw(st.one_of(fl(0.0, 1.0), fl(0.0, 1.0), fl(0.0, 1.0), fl(-0.5, 2.0)))
    r = reverse if reverse is not None else draw(st.sampled_from([0, 0, 1]))
    if r:
        a["reverse"] = 1
    return a


def maybe(draw, a, name, s, n=1):
    if draw(st.integers(0, n)) == 0:
        a[name] = draw(s)


@st.composite
def xform_attrs(draw):
    a = {}
    maybe(draw, a, "invert", st.integers(0, 1))
    maybe(draw, a, "translate_x", fl(-24, 24))
    maybe(draw, a, "translate_y", fl(-24, 24))
    maybe(draw, a, "rotate", st.one_of(st.sampled_from([0.0, 90.0, -90.0, 180.0, 45.0, 30.0]), fl(-180, 180)))
    maybe(draw, a, "rotate_center_x", fl(-2, 4), 2)
    maybe(draw, a, "rotate_center_y", fl(-2, 4), 2)
    maybe(draw, a, "scale_x", st.one_of(fl(0.25, 3.0), fl(0.25, 3.0), fl(0.25, 3.0), fl(-2.0, -0.5)))
    maybe(draw, a, "scale_y", st.one_of(fl(0.25, 3.0), fl(0.25, 3.0), fl(0.25, 3.0), fl(-2.0, -0.5)))
    maybe(draw, a, "pivot_x", fl(-2, 4), 2)
    maybe(draw, a, "pivot_y", fl(-2, 4), 2)
    return a


@st.composite
def lens_attrs(draw):
    a = {}
    maybe(draw, a, "direction", st.integers(0, 1))
    maybe(draw, a, "distortion", fl(-0.8, 0.8))
    maybe(draw, a, "anamorphic_squeeze", fl(0.5, 2.0), 2)
    maybe(draw, a, "curvature_x", fl(-1, 1), 2)
    maybe(draw, a, "curvature_y", fl(-1, 1), 2)
    maybe(draw, a, "quartic_distortion", fl(-0.5, 0.5), 2)
    maybe(draw, a, "lens_center_offset_x", fl(-1, 1), 2)
    maybe(draw, a, "lens_center_offset_y", fl(-1, 1), 2)
    return a


@st.composite
def crop_attrs(draw, big=10, empty=True):
    x, y = draw(st.integers(-5, 7)), draw(st.integers(-5, 7))
    a = dict(window_min_x=x, window_min_y=y, window_max_x=x + draw(st.integers(1, big)),
             window_max_y=y + draw(st.integers(1, big)))
    if draw(st.integers(0, 19)) == 0:        # much larger than the picture
        q = draw(st.sampled_from("xy"))
        a["window_min_" + q] -= draw(st.sampled_from([0, 60, 130, 300]))
        a["window_max_" + q] += draw(st.sampled_from([0, 60, 130, 300]))
    if empty and draw(st.integers(0, 19)) == 0:        # empty, like that of a new node
        if draw(st.booleans()):
            return {}
        q = draw(st.sampled_from("xy"))
        a["window_max_" + q] = a["window_min_" + q]
    maybe(draw, a, "reformat", st.integers(0, 1))
    maybe(draw, a, "black_outside", st.integers(0, 1))
    return a


@st.composite
def merge_attrs(draw):
    a = {}
    maybe(draw, a, "mode", st.integers(0, 2))
    maybe(draw, a, "mix", fl(0.0, 2.0))
    return a


@st.composite
def viewer_attrs(draw, baked=False):
    a = {}
    opt = draw(st.integers(1 if baked else 0, 3))
    a["bake_option"] = opt
    maybe(draw, a, "bake_pixel_data_type", st.sampled_from([0, 1, 2, 3, 255]))
    # (sRGB images can only be converted to Rec709 through Linear)
    maybe(draw, a, "bake_color_space", st.sampled_from(["Linear", "sRGB"] + (["Rec709"] if opt > 1 else [])))
    maybe(draw, a, "crop_to_format", st.integers(0, 1), 2)
    return a


@st.composite
def resample_attrs(draw):
    return dict(factor=draw(st.sampled_from([-2, -1, -1, 0, 1, 1, 2])), interpolate=draw(st.integers(0, 1)))


ATTRS = {NULL: st.just({}), GRADE: grade_attrs(), XFORM: xform_attrs(), LENS: lens_attrs(), CROP: crop_attrs(),
         MERGE: merge_attrs(), VIEWER: viewer_attrs(), RESAMPLE: resample_attrs()}


FLAGS = ("enable", "process_", "reverse", "invert", "direction", "reformat", "black_outside", "use_cache", "interpolate",
         "crop_to_format", "intersect", "clamp_", "premult")
RANGES = (("black_point", -0.5, 0.4), ("white_point", 0.5, 2.0), ("lift", -0.5, 0.4), ("gain", 0.5, 2.0), ("multiply", 0.25, 2.0),
          ("offset", -0.5, 1.0), ("gamma", 0.25, 3.0), ("mix", 0.0, 1.0), ("translate", -6, 6), ("rotate_center", -2, 4),
          ("rotate", -180, 180), ("scale", 0.25, 3.0), ("pivot", -2, 4), ("distortion", -0.8, 0.8), ("anamorphic", 0.5, 2.0),
          ("curvature", -1, 1), ("quartic", -0.5, 0.5), ("lens_center", -1, 1))


def attr_value(name):
    """Values of one attribute, by its name."""
    if name.startswith(FLAGS):
        return st.integers(0, 1)
    for p, lo, hi in RANGES:
        if name.startswith(p):
            return fl(lo, hi)
    return {"mode": st.integers(0, 2), "factor": st.sampled_from([-2, -1, 0, 1, 2]), "bake_option": st.integers(0, 3),
            "bake_pixel_data_type": st.sampled_from([0, 1, 2, 3, 255]), "bake_color_space": st.sampled_from(["Linear", "sRGB"]),
            "window_min_x": st.integers(-3, 1), "window_min_y": st.integers(-3, 1), "window_max_x": st.integers(2, 9),
            "window_max_y": st.integers(2, 9), "file_path": st.sampled_from(["@0", "@1", "@2"])}[name]


@st.composite
def node_attrs(draw, ntype, nfiles=0, disable=True):
    if ntype == READ:
        a = dict(file_path="@%d" % draw(st.integers(0, max(0, nfiles - 1)))) if nfiles else {}
        if draw(st.integers(0, 9)) == 0:
            a = draw(st.sampled_from([{}, dict(file_path="w/missing.exr"), dict(file_path="w")]))
    elif ntype == WRITE:
        a = dict(execute=0, file_path="w/never.exr")
    else:
        a = dict(draw(ATTRS[ntype]))
    if disable and ntype != NULL and draw(st.integers(0, 9)) == 0:
        a["enable"] = 0
    if "use_cache" in model.DEFAULTS[ntype] and draw(st.integers(0, 3)) == 0:
        a["use_cache"] = 0
    return a


MAX_INPUTS = {READ: 0, MERGE: 2}
NODE_MIX = [READ, READ, GRADE, GRADE, XFORM, LENS, CROP, MERGE, MERGE, MERGE, VIEWER, NULL, RESAMPLE, WRITE]


@st.composite
def dag(draw, min_nodes=1, max_nodes=7, nfiles=2, types=NODE_MIX, file_kw=None, extra=False):
    """A graph whose node i may use nodes < i; 'order' and 'ids' decouple creation from dependency."""
    files = [draw(image_file(**(file_kw or {}))) for _ in range(nfiles)]
    n = draw(st.integers(min_nodes, max_nodes))
    nodes = []
    for i in range(n):
        inner = [x for x in types if x != READ]
        if i == 0 and READ in types and draw(st.integers(0, 3)):
            t = READ
        else:
            t = draw(st.sampled_from(types if inner and i < n - 1 or not inner else inner))
        ins = []
        k = 0
        if i > 0:
            k = draw(st.sampled_from([1] * 11 + [0])) if t != MERGE else draw(st.sampled_from([2] * 10 + [1, 0]))
            k = min(k, MAX_INPUTS.get(t, 1))
            if k and extra and draw(st.integers(0, 7)) == 0:
                k += draw(st.integers(1, 2))      # more inputs than the node uses
        nums = sorted(draw(st.lists(st.integers(0, 255), min_size=k, max_size=k, unique=True))) \
            if k and draw(st.integers(0, 3)) == 0 else list(range(k))
        for num in nums:
            # mostly recent nodes, so that chains get long
            src = i - 1 if draw(st.integers(0, 1)) else draw(st.integers(0, i - 1))
            ins.append([src, num])
        nodes.append(dict(t=t, a=draw(node_attrs(t, nfiles)), ins=ins))
    return dict(files=files, nodes=nodes, order=draw(st.permutations(list(range(n)))),
                ids=draw(st.permutations(list(range(1, n + 1)))))


# ---------------------------------------------------------------- on the server
def real_attrs(case, a, srv):
    a = dict(a)
    p = a.get("file_path")
    if isinstance(p, str) and p.startswith("@"):
        i = int(p[1:])
        a["file_path"] = srv.path_for(file_name(i, case["files"][i]))
    return a


def put_files(case, srv):
    for i, f in enumerate(case["files"]):
        write_file(srv, srv.path_for(file_name(i, f)), f)


def put_graph(case, srv, g=0):
    srv.graph(g)
    off = 100 * g
    for i in case.get("order") or range(len(case["nodes"])):
        nd = case["nodes"][i]
        srv.node(off + i, nd["t"], g=g, id=(case.get("ids") or range(1, 999))[i])
    for i in case.get("order") or range(len(case["nodes"])):
        nd = case["nodes"][i]
        srv.set(off + i, real_attrs(case, nd["a"], srv), g=g)
        for src, num in nd["ins"]:
            srv.connect(off + src, off + i, num, g=g)


def reader(case):
    def read(p):
        if p.startswith("@"):
            return model.stream_of_file(case["files"][int(p[1:])])
        return None
    return read


def model_eval(case, target=None, hints=()):
    """(statuses, streams) for the nodes upstream of target (all if None); may raise model.Unsure.

    hints: real data windows, used only where the model has several possible ones (rounding ties)."""
    model.HINTS[:] = list(hints)
    need = set(range(len(case["nodes"])))
    if target is not None:
        need, todo = set(), [target]
        while todo:
            i = todo.pop()
            if i not in need:
                need.add(i)
                todo += [s for s, _ in case["nodes"][i]["ins"]]
    res = {}
    for i in range(len(case["nodes"])):
        if i in need:
            nd = case["nodes"][i]
            ins = [res[s][1] for s, _ in sorted(nd["ins"], key=lambda e: e[1])]
            res[i] = model.node_output(nd["t"], nd["a"], ins, reader(case))
    return res


class Cyclic(Exception):
    pass


def struct_eval(nodes, target, read):
    """nodes: {key: dict(t, a, ins={num: key})}. {key: (status, stream)} for the target and all it depends on."""
    res, busy = {}, set()

    def visit(k):
        if k in busy:
            raise Cyclic()
        if k in res:
            return
        busy.add(k)
        nd = nodes[k]
        srcs = [nd["ins"][num] for num in sorted(nd["ins"])]
        for s in srcs:
            visit(s)
        busy.discard(k)
        res[k] = (nd["t"], nd["a"], srcs)

    visit(target)          # raises Cyclic before anything is computed
    out = {}
    for k, (t, a, srcs) in res.items():   # in dependency order
        out[k] = model.node_output(t, a, [out[s][1] for s in srcs], read)
    return out


def used_nodes(nodes, target):
    """The nodes whose streams matter: surplus inputs (a second input of a one-input node) do not."""
    seen, todo = set(), [target]
    while todo:
        k = todo.pop()
        if k not in seen:
            seen.add(k)
            t, ins = nodes[k]["t"], nodes[k]["ins"]
            todo += [ins[num] for num in sorted(ins)[:MAX_INPUTS.get(t, 1)]]
    return seen


def same_stream(a, b, what, hashes=True):
    """Two real streams are identical in everything they show."""
    ma, mb = a.meta(), b.meta()
    for k in ma:
        if ma[k] != mb[k] and not (ma[k] != ma[k] and mb[k] != mb[k]):
            raise Violation("streams differ", "%s: %s is %r and %r" % (what, k, ma[k], mb[k]))
    if a.raw != b.raw:
        raise Violation("streams differ", "%s: the pixels differ" % what)
    if hashes and (a.hash, a.color_ops_hash) != (b.hash, b.color_ops_hash):
        raise Violation("streams differ", "%s: the hashes differ" % what)


def must(cond, sig, detail=""):
    if not cond:
        raise Violation(sig, detail)


def compare_stream(o, s, what):
    msg, frac = model.compare(o, s, what)
    if msg:
        raise Violation("stream differs", msg)
    return frac
