"""C14 positions, C15 deformed pixels, C19 viewer baking."""
import numpy as np
from hypothesis import strategies as st

import gen
import model
from core import Prop, Sub
from gen import compare_stream, fl, must, same_stream
from model import f32
from ocg import CROP, EXEC_OK, F32, GRADE, HALF, LENS, NULL, READ, VIEWER, XFORM


@st.composite
def wide_xform(draw):
    a = dict(draw(gen.xform_attrs()))
    gen.maybe(draw, a, "translate_x", fl(-2000, 2000), 2)
    gen.maybe(draw, a, "rotate", fl(-720, 720), 2)
    gen.maybe(draw, a, "scale_y", st.one_of(fl(0.125, 8), fl(-4, -0.25)), 3)
    return a


@st.composite
def window(draw):
    x, y = draw(st.integers(-40, 40)), draw(st.integers(-40, 40))
    return [float(x), float(y), float(x + draw(st.integers(1, 200))), float(y + draw(st.integers(1, 200)))]


@st.composite
def points_case(draw):
    nodes = []
    for _ in range(draw(st.one_of(*[st.integers(1, 4)] * 9, st.integers(5, 14)))):
        t = draw(st.sampled_from([XFORM, XFORM, LENS]))
        a = dict(draw(wide_xform() if t == XFORM else gen.lens_attrs()))
        if draw(st.integers(0, 9)) == 0:
            a["enable"] = 0
        nodes.append([t, a])
    n = draw(st.integers(1, 5))
    pts = [f32(draw(fl(-3, 3))) for _ in range(3 * n)]
    if draw(st.integers(0, 9)) == 0:       # many
        pts = [f32(v * (1 - k / 4096)) for k in range(draw(st.one_of(st.integers(2, 60), st.integers(2, 60), st.integers(500, 3000)))) for v in pts]
    return dict(nodes=nodes, pts=pts, win=draw(window()), disp=draw(window()), extra=draw(st.integers(0, 2)))


def put_chain(srv, nodes, g=0):
    srv.graph(g)
    for i, (t, a) in enumerate(nodes):
        srv.node(100 * g + i, t, g=g)
        srv.set(100 * g + i, a, g=g)
        if i:
            srv.connect(100 * g + i - 1, 100 * g + i, 0, g=g)
    srv.cache(g)


def check_points(case, srv):
    put_chain(srv, case["nodes"])
    last = len(case["nodes"]) - 1
    must(srv.execute(last, [1]) == EXEC_OK, "execute failed")
    o = srv.out()
    ds = [(t, model.attrs_of(t, a)) for t, a in case["nodes"]]
    ds = [d for d in ds if d[1]["enable"] == 1]
    must(o.deformers == len(ds), "number of deformers", "%d, expected %d" % (o.deformers, len(ds)))
    raw = case["pts"] + [7.0] * case["extra"]
    got = srv.deform(0, raw, case["disp"], case["win"]).astype(np.float64)
    must(len(got) == len(raw), "buffer length")
    must(list(got[len(case["pts"]):]) == [7.0] * case["extra"], "values after the last position were changed")
    p = np.array(case["pts"]).reshape(-1, 3)
    q = got[:len(case["pts"])].reshape(-1, 3)
    must((q[:, 2] == p[:, 2].astype(np.float32)).all(), "the third coordinate was changed")
    want, err = model.deform_points(ds, p[:, :2], case["win"])
    d = np.abs(q[:, :2] - want)
    if not (d <= err).all():
        i = int(np.argwhere(~(d <= err))[0][0])
        must(False, "position", "%r -> %r, expected %r +- %.2g" % (p[i, :2].tolist(), q[i, :2].tolist(), want[i].tolist(), err))
    moved = bool((np.abs(want - p[:, :2]) > 10 * err).any())
    return moved, ["deformers=%d" % len(ds)]


@st.composite
def undo_case(draw):
    """Deformers and then their opposites in reverse order."""
    nodes = []
    for _ in range(draw(st.integers(1, 3))):
        t = draw(st.sampled_from([XFORM, XFORM, LENS]))
        nodes.append([t, dict(draw(gen.xform_attrs() if t == XFORM else gen.lens_attrs()))])
    return dict(nodes=nodes, pts=[f32(draw(fl(-2, 2))) for _ in range(3 * draw(st.integers(1, 4)))], win=draw(window()))


def check_undo(case, srv):
    back = []
    for t, a in reversed(case["nodes"]):
        b = dict(a)
        key = "invert" if t == XFORM else "direction"
        b[key] = 1 - a.get(key, 0)
        back.append([t, b])
    put_chain(srv, case["nodes"] + back)
    n = len(case["nodes"]) * 2
    must(srv.execute(n - 1, [1]) == EXEC_OK, "execute failed")
    srv.out(0)
    must(srv.execute(n // 2 - 1, [1]) == EXEC_OK, "execute failed")
    srv.out(1)
    got = srv.deform(0, case["pts"], case["win"], case["win"]).astype(np.float64)
    half = srv.deform(1, case["pts"], case["win"], case["win"]).astype(np.float64)
    p = np.array(case["pts"])
    scale = 1.0
    for t, a in case["nodes"]:
        M = model.deformer_matrix((t, model.attrs_of(t, a)), case["win"], False)
        scale *= max(1.0, np.abs(M[:2]).sum()) * max(1.0, np.abs(np.linalg.inv(M)[:2]).sum())
    tol = 2e-5 * scale * max(1.0, np.abs(half).max(), max(abs(v) for v in case["win"]))
    must((np.abs(got - p) <= tol).all(), "the opposite deformers do not give the positions back",
         "%r -> %r (allowed difference %.2g)" % (p.tolist(), got.tolist(), tol))
    return bool((np.abs(half - p) > 10 * tol).any()), ["n=%d" % len(case["nodes"])]


def hints(case, o):
    """The real data window says which way a rounding tie went, if only the last viewers can have made it."""
    if any(nd["a"].get("crop_to_format") for nd in case["nodes"]):
        return []
    return [o.data]


# ------------------------------------------------------------------ C15
@st.composite
def bake_case(draw):
    f = draw(gen.image_file(fmts=("exr",), max_size=draw(st.sampled_from([5, 12, 24])), kinds=(1, 3, 3)))
    if draw(st.integers(0, 7)) == 0:       # far outside of the display window
        for q in draw(st.sampled_from(["x", "y", "xy"])):
            f[q] += draw(st.sampled_from([40, -40, 100, -100, 300, -300]))
    nodes = [dict(t=READ, a=dict(file_path="@0"), ins=[])]
    if draw(st.integers(0, 19)) == 0:       # many, simple
        for _ in range(draw(st.integers(5, 20))):
            nodes.append(dict(t=XFORM, a={draw(st.sampled_from(["translate_x", "translate_y"])): float(draw(st.integers(-2, 2)))},
                              ins=[[len(nodes) - 1, 0]]))
    for _ in range(draw(st.one_of(*[st.integers(1, 3)] * 9, st.integers(4, 8)))) if len(nodes) == 1 else ():
        t = draw(st.sampled_from([LENS, LENS, XFORM, XFORM, GRADE]))
        nodes.append(dict(t=t, a=dict(draw(gen.ATTRS[t])), ins=[[len(nodes) - 1, 0]]))
    nodes.append(dict(t=VIEWER, a=dict(bake_option=3, bake_pixel_data_type=0, use_cache=draw(st.integers(0, 1)),
                                       crop_to_format=draw(st.sampled_from([0, 0, 1]))), ins=[[len(nodes) - 1, 0]]))
    return dict(files=[f], nodes=nodes)


def check_bake(case, srv):
    t = len(case["nodes"]) - 1
    gen.put_files(case, srv)
    gen.put_graph(case, srv)
    srv.cache()
    must(srv.execute(t, [1]) == EXEC_OK, "execute failed")
    o = srv.out()
    must(o.deformers == 0 and o.color_ops == 0, "baked stream still has operations")
    try:
        want = gen.model_eval(case, t, hints=hints(case, o))[t][1]
    except model.Unsure:
        return False, ["no prediction"]
    frac = compare_stream(o, want, "baked")
    return frac > 0.5 and any(nd["t"] in (LENS, XFORM) for nd in case["nodes"]), ["compared>=90%" if frac >= 0.9 else "compared<90%"]


# ------------------------------------------------------------------ C19
@st.composite
def viewer_case(draw):
    f = draw(gen.image_file(fmts=("exr", "exr", "exr", "exr", "png", "png", "tif"), max_size=7, kinds=(1, 1, 2, 3)))
    nodes = [dict(t=READ, a=dict(file_path="@0"), ins=[])]
    for t in draw(st.lists(st.sampled_from([GRADE, GRADE, LENS, XFORM, NULL] * 3 + [CROP]), max_size=3)):
        nodes.append(dict(t=t, a=dict(draw(gen.ATTRS[t])), ins=[[len(nodes) - 1, 0]]))
    for _ in range(draw(st.sampled_from([1, 1, 1, 2]))):
        a = dict(draw(gen.viewer_attrs()))
        if len(nodes) > 1 and nodes[-1]["t"] == VIEWER and a.get("bake_option") == 1:
            a.pop("bake_color_space", None)
        if draw(st.integers(0, 3)) == 0:
            a["use_cache"] = 0
        nodes.append(dict(t=VIEWER, a=a, ins=[[len(nodes) - 1, 0]]))
    return dict(files=[f], nodes=nodes)


def check_viewer(case, srv):
    t = len(case["nodes"]) - 1
    gen.put_files(case, srv)
    gen.put_graph(case, srv)
    srv.cache()
    must(srv.execute(t - 1, [1]) == EXEC_OK, "execute failed")
    before = srv.out(1)
    must(srv.execute(t, [1]) == EXEC_OK, "execute failed")
    o = srv.out(0)
    must(srv.execute(t, [1]) == EXEC_OK, "execute failed")
    same_stream(o, srv.out(2), "evaluated twice")
    same_stream(before, srv.stream(1), "the input before / after baking")
    a = model.attrs_of(VIEWER, case["nodes"][t]["a"])
    try:
        want = gen.model_eval(case, t, hints=hints(case, o))[t][1]
    except model.Unsure:
        return False, ["no prediction"]
    frac = compare_stream(o, want, "viewer")
    if a["bake_option"] == 0 and not a["crop_to_format"]:
        same_stream(before, o, "input / viewer which bakes nothing", hashes=False)
    return frac > 0.5 and a["bake_option"] > 0, ["bake=%d" % a["bake_option"], "type=%d" % a["bake_pixel_data_type"],
                                                 "space=" + a["bake_color_space"]]


@st.composite
def equiv_case(draw):
    """Baking at once, or stepwise: grades first and deformers later, or a viewer after each node."""
    f = draw(gen.image_file(fmts=("exr",), max_size=6, kinds=(1, 1, 3)))
    nodes = []
    for _ in range(draw(st.integers(1, 4))):
        t = draw(st.sampled_from([GRADE, GRADE, LENS, XFORM]))
        nodes.append([t, dict(draw(gen.grade_attrs(reverse=0) if t == GRADE else gen.ATTRS[t]))])
    if any(k.startswith(("lift", "offset", "black")) for _, a in nodes for k in a):
        # (a power of a negative value is not a number, which spreads differently)
        nodes = [[t, {k: v for k, v in a.items() if not k.startswith("gamma")}] for t, a in nodes]
    space = draw(st.sampled_from(["Linear", "sRGB", "Rec709"]))
    return dict(files=[f], nodes=nodes, how=draw(st.sampled_from(["grade first", "reorder"])), space=space,
                dtype=draw(st.sampled_from([0, 1, 2, 3])))


def check_equiv(case, srv):
    """Grades act on colours and deformers on positions: their mutual order does not change the baked picture."""
    def build(g, nodes, extra):
        full = [dict(t=READ, a=dict(file_path="@0"), ins=[])]
        for t, a in nodes:
            full.append(dict(t=t, a=a, ins=[[len(full) - 1, 0]]))
        for a in extra:
            full.append(dict(t=VIEWER, a=a, ins=[[len(full) - 1, 0]]))
        c = dict(files=case["files"], nodes=full)
        gen.put_graph(c, srv, g)
        srv.cache(g)
        must(srv.execute(100 * g + len(full) - 1, [1], g=g, c=g) == EXEC_OK, "execute failed")
        return srv.out(g, g=g)

    gen.put_files(case, srv)
    final = dict(bake_option=3, bake_color_space=case["space"], bake_pixel_data_type=case["dtype"])
    a = build(0, case["nodes"], [final])
    nodes = case["nodes"]
    if case["how"] == "reorder":
        nodes = [n for n in nodes if n[0] == GRADE] + [n for n in nodes if n[0] != GRADE]
        b = build(1, nodes, [final])
    else:
        b = build(1, nodes, [dict(bake_option=2, bake_color_space="Linear", bake_pixel_data_type=0), final])
    same_stream(a, b, case["how"], hashes=False)
    kinds = {n[0] == GRADE for n in case["nodes"]}
    return len(kinds) == 2, [case["how"]]


PROPERTIES = [
    Prop("C14", [
        Sub("points", points_case(), check_points, 9000,
            rule="1-4 transform / lens nodes with generated values, positions deformed through the stream against the "
                 "composed matrices; non-trivial: some position moved by more than ten times the error bound"),
        Sub("undo", undo_case(), check_undo, 5000,
            rule="deformers followed by their opposites in reverse order give the positions back; non-trivial: the first "
                 "half moved some position")],
        ["The lens model library (LDPK) is not installed: the harness links an invertible affine stand-in, so the lens "
         "formula itself is outside of the check."]),
    Prop("C15", [Sub("bake", bake_case(), check_bake, 5000,
                     rule="images with 1-8 transform/lens/grade nodes baked by a Viewer, each pixel against the source pixel "
                          "at the inversely mapped position; non-trivial: more than half of the pixels predicted")]),
    Prop("C19", [
        Sub("viewer", viewer_case(), check_viewer, 6000,
            rule="all bake options, pixel types, colour spaces and format cropping after random nodes, against the reference "
                 "bake; non-trivial: something is baked and mostly predicted"),
        Sub("equiv", equiv_case(), check_equiv, 3000,
            rule="baking at once, stepwise and with grades moved before deformers gives bit-identical pictures; "
                 "non-trivial: both kinds of node present")]),
]
