"""C07 grade, C08 crop, C09 merge, C22 resample, C23 disabled nodes."""
import numpy as np
from hypothesis import strategies as st

import gen
import model
from core import Prop, Sub
from gen import compare_stream, fl, must, same_stream
from ocg import CROP, EXEC_OK, F32, GRADE, HALF, LENS, MERGE, NULL, READ, RESAMPLE, U16, U8, VIEWER, XFORM


def chain(case, srv, target=None):
    """Build a dag case, execute the last node, compare with the model."""
    t = len(case["nodes"]) - 1 if target is None else target
    gen.put_files(case, srv)
    gen.put_graph(case, srv)
    srv.cache()
    must(srv.execute(t, [1]) == EXEC_OK, "execute failed")
    o = srv.out()
    try:
        want = gen.model_eval(case, t)[t][1]
    except model.Unsure:
        return o, None, 0.0
    return o, want, compare_stream(o, want, "node %d" % t)


# ------------------------------------------------------------------ C07
@st.composite
def wide_grade(draw):
    """Values well outside of the usual ranges, each channel on its own."""
    a = {}
    for name, s in (("black_point", fl(-2, 2)), ("white_point", fl(-2, 8)), ("lift", fl(-2, 2)), ("gain", fl(-2, 8)),
                    ("multiply", fl(-4, 16)), ("offset", fl(-4, 4)), ("gamma", fl(0.0625, 8))):
        for c in "rgba":
            if draw(st.integers(0, 3)) == 0:
                a["%s_%s" % (name, c)] = draw(s)
    for c in "rgba":
        if draw(st.integers(0, 2)) == 0:
            a["process_" + c] = draw(st.integers(0, 1))
    gen.maybe(draw, a, "mix", fl(0, 1))
    gen.maybe(draw, a, "reverse", st.integers(0, 1), 2)
    return a


@st.composite
def small_grade(draw):
    """A correction of one channel, for long chains of them."""
    return {"%s_%s" % (draw(st.sampled_from(["multiply", "gain"])), draw(st.sampled_from("rgb"))): draw(fl(0.9, 1.1))}


@st.composite
def grade_case(draw):
    grades = []
    for _ in range(draw(st.sampled_from([1, 2, 3, 4, 1, 2, 3, 4, 1, 2, 3, 4, 12]))):
        a = dict(draw(st.one_of(gen.grade_attrs(), wide_grade()) if len(grades) < 4 else small_grade()))
        if draw(st.integers(0, 11)) == 0:
            a["enable"] = 0
        grades.append(a)
    nch = draw(st.sampled_from([1, 3, 4, 4]))
    px = draw(st.lists(st.one_of(fl(-1, 4), st.sampled_from([0.0, 1.0, 0.18, 1e-4, 100.0, 1e6, -1e6, 65504.0, -70000.0])), min_size=nch, max_size=nch * 4))
    px = [model.f32(v) for v in px[:len(px) // nch * nch]]
    return dict(grades=grades, nch=nch, px=px, img=draw(gen.image_file(windows=False, max_size=4, kinds=(1, 2, 3))),
                dtype=draw(st.sampled_from([F32, F32, HALF, U8])))


def check_grade(case, srv):
    nodes = [dict(t=READ, a=dict(file_path="@0"), ins=[])]
    for a in case["grades"]:
        nodes.append(dict(t=GRADE, a=a, ins=[[len(nodes) - 1, 0]]))
    g = len(nodes) - 1
    nodes.append(dict(t=VIEWER, a=dict(bake_option=2, bake_color_space="Linear", bake_pixel_data_type=case["dtype"]),
                      ins=[[g, 0]]))
    dag = dict(files=[case["img"]], nodes=nodes)
    # the operations carried by the stream, applied to a buffer
    o, want, _ = chain(dag, srv, g)
    ops = [model.attrs_of(GRADE, a) for a in case["grades"]]
    ops = [a for a in ops if model.grade_works(a)]
    must(o.color_ops == len(ops), "number of colour operations", "%d, expected %d" % (o.color_ops, len(ops)))
    n = case["nch"]
    x = np.array(case["px"], dtype=np.float64).reshape(-1, n)
    got = srv.color_ops(0, n, x.ravel()).astype(np.float64).reshape(-1, n)
    p, e = x, np.zeros_like(x)
    for a in ops:
        p, e = model.apply_op(p, e, a)
    with np.errstate(all="ignore"):
        bad = ~(np.abs(got - p) <= e + 1e-6 + np.abs(p) * 2e-6) & np.isfinite(e)
    if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0])
        must(False, "grade of a value", "pixel, channel %r of %d: %r -> %r, expected %r +- %.2g" % (
            i, n, float(x[i]), float(got[i]), float(p[i]), float(e[i])))
    known = float(np.isfinite(e).mean()) if e.size else 0.0
    # ... and baked into the picture
    t = len(nodes) - 1
    must(srv.execute(t, [1]) == EXEC_OK, "execute failed")
    frac = compare_stream(srv.out(), gen.model_eval(dag, t)[t][1], "baked")
    changed = bool((np.abs(p - x)[np.isfinite(e)] > 1e-3).any())
    return changed and known > 0.5, ["ops=%d" % len(ops), "channels=%d" % n] + ["reverse"] * any(
        a["reverse"] for a in ops) + ["mostly unknown"] * (known < 0.5)


@st.composite
def inverse_case(draw):
    a = {}
    for name, s in (("black_point", fl(-0.5, 0.25)), ("white_point", fl(0.75, 2.0)), ("lift", fl(-0.25, 0.25)),
                    ("gain", fl(0.5, 2.0)), ("multiply", fl(0.25, 4.0)), ("offset", fl(-0.5, 0.5)),
                    ("gamma", fl(0.25, 4.0))):
        for c in "rgb":
            if draw(st.integers(0, 1)):
                a["%s_%s" % (name, c)] = draw(s)
    return dict(a=a, px=[model.f32(draw(fl(0, 1))) for _ in range(3 * draw(st.integers(1, 4)))])


def check_inverse(case, srv):
    """A grade and then its reverse give the picture back, where the graded value lies inside 0..1."""
    srv.graph()
    srv.cache()
    for n in (0, 1):
        srv.node(n, GRADE)
        srv.set(n, case["a"])
    srv.seti(1, "reverse", 1)
    srv.connect(0, 1)
    must(srv.execute(1, [1]) == EXEC_OK, "execute failed")
    o = srv.out()
    must(o.color_ops == 2, "number of colour operations", str(o.color_ops))
    x = np.array(case["px"]).reshape(-1, 3)
    got = srv.color_ops(0, 3, x.ravel()).reshape(-1, 3)
    a = model.attrs_of(GRADE, case["a"])
    tested = 0
    for c in range(3):
        ch = "rgb"[c]
        A = a["multiply_" + ch] * (a["gain_" + ch] - a["lift_" + ch]) / (a["white_point_" + ch] - a["black_point_" + ch])
        if abs(A) < 0.05:
            continue
        B = a["offset_" + ch] + a["lift_" + ch] - A * a["black_point_" + ch]
        gamma = a["gamma_" + ch]
        for i in range(len(x)):
            base = A * x[i, c] + B
            if gamma != 1.0 and not 0.01 < base < 0.98:
                continue
            tested += 1
            tol = 2e-5 * (1 + abs(B) + abs(base)) * max(1.0, gamma, 1 / gamma) / min(1.0, abs(A)) + 1e-5
            must(abs(got[i, c] - x[i, c]) <= tol, "reverse does not undo the grade",
                 "channel %s: %r -> %r (allowed difference %.2g)" % (ch, float(x[i, c]), float(got[i, c]), tol))
    return tested > 0 and len(case["a"]) > 0, ["tested"] * (tested > 0)


# ------------------------------------------------------------------ C08
@st.composite
def crop_case(draw):
    nodes = [dict(t=READ, a=dict(file_path="@0"), ins=[])]
    for t in draw(st.lists(st.sampled_from([GRADE, XFORM, LENS]), max_size=2)):
        nodes.append(dict(t=t, a=draw(gen.ATTRS[t]), ins=[[len(nodes) - 1, 0]]))
    f = draw(gen.image_file(max_size=9, kinds=(1, 2, 3), far=True))
    d = model.stream_of_file(f).data
    for _ in range(draw(st.sampled_from([1, 1, 2]))):
        a = dict(draw(gen.crop_attrs(big=14, empty=False)))
        if draw(st.integers(0, 3)):       # overlapping the picture
            x, y = draw(st.integers(d[0] - 3, d[2] - 1)), draw(st.integers(d[1] - 3, d[3] - 1))
            a.update(window_min_x=x, window_min_y=y, window_max_x=draw(st.integers(max(x, d[0]) + 1, d[2] + 3)),
                     window_max_y=draw(st.integers(max(y, d[1]) + 1, d[3] + 3)))
        if draw(st.integers(0, 11)) == 0:        # empty (as a new node has it), or upside down
            for q in draw(st.sampled_from(["x", "y", "xy"])):
                a["window_max_" + q] = a["window_min_" + q] - draw(st.sampled_from([0, 0, 0, 1, 5]))
        if draw(st.integers(0, 5)) == 0:
            a["use_cache"] = 0
        nodes.append(dict(t=CROP, a=a, ins=[[len(nodes) - 1, 0]]))
    return dict(files=[f], nodes=nodes)


def check_crop(case, srv):
    o, want, frac = chain(case, srv)
    # a second evaluation of the same crop is the same crop
    t = len(case["nodes"]) - 1
    must(srv.execute(t, [1]) == EXEC_OK, "execute failed")
    same_stream(o, srv.out(1), "evaluated twice")
    if want is None:
        return False, ["no prediction"]
    a = model.attrs_of(CROP, case["nodes"][-1]["a"])
    return frac > 0.5 and bool((np.abs(want.px) > 0).any()), ["black_outside"] * a["black_outside"] + [
        "reformat"] * a["reformat"] + ["empty result"] * (not (np.abs(want.px) > 0).any())


# ------------------------------------------------------------------ C09
@st.composite
def merge_case(draw):
    files = [draw(gen.image_file(max_size=6, kinds=(1, 1, 2, 3))) for _ in range(2)]
    nodes = [dict(t=READ, a=dict(file_path="@0"), ins=[]), dict(t=READ, a=dict(file_path="@1"), ins=[])]
    ends = [0, 1]
    for side in (0, 1):
        for t in draw(st.lists(st.sampled_from([GRADE, GRADE, XFORM, LENS, CROP]), max_size=2)):
            nodes.append(dict(t=t, a=draw(gen.ATTRS[t]), ins=[[ends[side], 0]]))
            ends[side] = len(nodes) - 1
    if draw(st.integers(0, 9)) == 0:
        ends[1] = ends[0]
    a = dict(mode=draw(st.integers(0, 2)))
    gen.maybe(draw, a, "mix", fl(-1, 2))
    gen.maybe(draw, a, "use_cache", st.integers(0, 1), 3)
    nodes.append(dict(t=MERGE, a=a, ins=[[ends[0], 0], [ends[1], 1]]))
    if draw(st.integers(0, 3)) == 0:     # merge of a merge
        other = draw(st.integers(0, len(nodes) - 2))
        m = len(nodes) - 1
        nodes.append(dict(t=MERGE, a=dict(mode=draw(st.integers(0, 2)), mix=draw(fl(0, 1))),
                          ins=draw(st.sampled_from([[[m, 0], [other, 1]], [[other, 0], [m, 1]]]))))
    return dict(files=files, nodes=nodes)


def check_merge(case, srv):
    o, want, frac = chain(case, srv)
    t = len(case["nodes"]) - 1
    must(srv.execute(t, [1]) == EXEC_OK, "execute failed")
    same_stream(o, srv.out(1), "evaluated twice")
    if want is None:
        return False, ["no prediction"]
    return frac > 0.5, ["mode=%d" % case["nodes"][-1]["a"]["mode"]]


# ------------------------------------------------------------------ C22
@st.composite
def resample_case(draw):
    size = draw(st.sampled_from([4, 12, 40]))
    f = draw(gen.image_file(max_size=size, kinds=(0, 1, 1, 3), windows=True))
    factors = st.sampled_from([-5, -3, -2, -1, 0, 1, 2, 3] if size < 12 else [-5, -3, -2, -1, 1, 2] if size < 40 else [-5, -2, -1, 1])
    nodes = [dict(t=READ, a=dict(file_path="@0"), ins=[])]
    if draw(st.integers(0, 2)) == 0:
        nodes.append(dict(t=VIEWER, a=dict(bake_option=1, bake_color_space="sRGB" if f["fmt"] == "png" else "Linear",
                                           bake_pixel_data_type=draw(st.sampled_from([0, 1, 2, 3]))), ins=[[0, 0]]))
    elif draw(st.integers(0, 3)) == 0:
        nodes.append(dict(t=GRADE, a=draw(gen.grade_attrs()), ins=[[0, 0]]))
    for _ in range(draw(st.sampled_from([1, 1, 2]))):
        nodes.append(dict(t=RESAMPLE, a=dict(factor=draw(factors),
                                             interpolate=draw(st.integers(0, 1)), use_cache=draw(st.integers(0, 1))),
                          ins=[[len(nodes) - 1, 0]]))
    return dict(files=[f], nodes=nodes)


def check_resample(case, srv):
    o, want, frac = chain(case, srv)
    t = len(case["nodes"]) - 1
    must(srv.execute(t, [1]) == EXEC_OK, "execute failed")
    same_stream(o, srv.out(1), "evaluated twice")
    a = case["nodes"][-1]["a"]
    return a["factor"] != 0 and frac > 0.5, ["factor=%d" % a["factor"], "interpolate=%d" % a["interpolate"],
                                             "channels=%d" % o.channels, "type=%d" % o.dtype] + ["compared<50%"] * (frac < 0.5)


# ------------------------------------------------------------------ C23
PASS = [NULL, GRADE, XFORM, LENS, CROP, VIEWER, RESAMPLE]


@st.composite
def disabled_case(draw):
    c = draw(gen.dag(min_nodes=2, max_nodes=5, extra=True))
    inserts = []
    edges = [(i, num) for i, nd in enumerate(c["nodes"]) for _, num in nd["ins"]]
    for _ in range(draw(st.integers(1, 3))):
        t = draw(st.sampled_from(PASS))
        a = dict(draw(gen.node_attrs(t, disable=False)))
        if t != NULL:
            a["enable"] = 0
        where = draw(st.sampled_from(edges + [("end", 0)])) if edges else ("end", 0)
        # (a second input of the new node is not used)
        inserts.append([t, a, list(where), draw(st.sampled_from([0, 0, 0, 1, 200]))])
    c["inserts"] = inserts
    c["use_cache"] = draw(st.integers(0, 1))
    return c


def check_disabled(case, srv):
    """A graph, and the same graph with disabled nodes put on its connections."""
    gen.put_files(case, srv)
    srv.cache(0)
    srv.cache(1)
    n = len(case["nodes"])
    gen.put_graph(case, srv, 0)
    gen.put_graph(case, srv, 1)
    src = {(i, num): s for i, nd in enumerate(case["nodes"]) for s, num in nd["ins"]}
    end = n - 1
    k = n
    for t, a, (i, num), surplus in case["inserts"]:
        srv.node(100 + k, t, g=1, id=500 + k)
        srv.set(100 + k, a, g=1)
        if surplus:
            srv.connect(100, 100 + k, surplus, g=1)
        if i == "end":
            srv.connect(100 + end, 100 + k, 0, g=1)
            end = k
        else:
            srv.connect(100 + src[(i, num)], 100 + k, 0, g=1)
            srv.connect(100 + k, 100 + i, num, g=1)
            src[(i, num)] = k
        k += 1
    must(srv.execute(n - 1, [1], g=0, c=0) == EXEC_OK, "execute failed")
    must(srv.execute(100 + end, [1], g=1, c=0 if case["use_cache"] else 1) == EXEC_OK, "execute failed")
    a, b = srv.out(0, g=0), srv.out(1, g=1)
    same_stream(a, b, "without / with disabled nodes", hashes=False)
    if a.deformers:
        pts = [0.0, 0.0, 0.0, 1.0, 0.5, 0.0]
        must((srv.deform(0, pts, (0, 0, 4, 3), (0, 0, 4, 3)) == srv.deform(1, pts, (0, 0, 4, 3), (0, 0, 4, 3))).all(),
             "deformers differ")
    # switching a node off and on again
    i = n - 1
    nd = case["nodes"][i]
    if nd["t"] not in (NULL,) and nd["a"].get("enable", 1) == 1:
        srv.seti(i, "enable", 0)
        must(srv.execute(i, [1]) == EXEC_OK, "execute failed")
        d = srv.out(2)
        if nd["t"] in PASS and nd["ins"]:
            s = min(nd["ins"], key=lambda e: e[1])[0]
            must(srv.execute(s, [1]) == EXEC_OK, "execute failed")
            same_stream(d, srv.out(3), "a disabled node / its input", hashes=False)
        srv.seti(i, "enable", 1)
        must(srv.execute(i, [1]) == EXEC_OK, "execute failed")
        same_stream(a, srv.out(4), "before / after switching off and on")
    return len([1 for t, _, _, _ in case["inserts"] if t != NULL]) > 0, ["type=%d" % t for t, _, _, _ in case["inserts"]]


@st.composite
def block_case(draw):
    dt = draw(st.sampled_from([F32, HALF, U8, U16]))
    x, y = draw(st.integers(-5, 5)), draw(st.integers(-5, 5))
    w, h = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    if draw(st.integers(0, 9)) == 0:
        w, h = draw(st.sampled_from([(300, 1), (1, 300), (257, 2), (2, 129), (1100, 1), (2100, 1), (1, 1100)]))
    if draw(st.integers(0, 7)) == 0:
        x, y = x + draw(st.sampled_from([0, 300, -300, 70000])), y + draw(st.sampled_from([0, 300, -300, 70000]))
    a = draw(st.one_of(st.integers(x - 7, x + 8), st.integers(x - 1, x + 1), st.integers(x + w - 2, x + w + 1)))
    b = draw(st.one_of(st.integers(y - 7, y + 8), st.integers(y - 1, y + 1), st.integers(y + h - 2, y + h + 1)))
    cw = draw(st.one_of(st.integers(0, 8), st.just(max(1, x + w - a)), st.just(max(1, x - a)), st.just(max(1, x - a + 1))))
    ch = draw(st.one_of(st.integers(0, 8), st.just(max(1, y + h - b)), st.just(max(1, y - b)), st.just(max(1, y - b + 1))))
    if draw(st.integers(0, 7)) == 0:
        wide = draw(st.sampled_from([(260, 0), (0, 260), (513, 3), (3, 513)]))
        a, b, cw, ch = a - wide[0], b - wide[1], cw + wide[0], ch + wide[1]
    c = draw(st.sampled_from([1, 3, 4]))
    if w > 1000 and draw(st.integers(0, 3)):      # most of a long row
        a, cw = x + draw(st.integers(-2, 2)), w - draw(st.integers(-3, 3))
        b, ch, c = y - draw(st.integers(0, 2)), h + draw(st.integers(1, 2)), draw(st.sampled_from([3, 4]))
    return dict(dt=dt, c=c, data=[x, y, x + w, y + h], crop=[a, b, a + cw, b + ch], seed=draw(st.integers(0, 999)))


def check_block(case, srv):
    """Copying a window out of a block of pixels of any type, bit for bit."""
    d, k, c = case["data"], case["crop"], case["c"]
    px = model.content(3, case["seed"], d[3] - d[1], d[2] - d[0], c, case["dt"])
    r = srv.x("crop", case["dt"], d[2] - d[0], d[3] - d[1], c, np.ascontiguousarray(px).tobytes().hex(), *d, *k)
    if r is None:
        return False, ["no access"]
    w, h = k[2] - k[0], k[3] - k[1]
    must([int(v) for v in r[:3]] == [w, h, c], "size of the block", repr(r[:3]))
    got = np.frombuffer(bytes.fromhex(r[4] if w * h else ""), dtype=px.dtype).reshape(h, w, c)
    want = np.zeros((h, w, c), dtype=px.dtype)
    x0, y0, x1, y1 = max(d[0], k[0]), max(d[1], k[1]), min(d[2], k[2]), min(d[3], k[3])
    inside = x1 > x0 and y1 > y0
    if inside:
        want[y0 - k[1]:y1 - k[1], x0 - k[0]:x1 - k[0]] = px[y0 - d[1]:y1 - d[1], x0 - d[0]:x1 - d[0]]
    if got.tobytes() != want.tobytes():
        i = [int(v) for v in np.argwhere(got != want)[0]]
        must(False, "cropped pixels", "(y, x, channel) %r is %r, expected %r" % (i, got[tuple(i)].item(), want[tuple(i)].item()))
    return inside and d != k, ["overlap" if inside else "apart"]


PROPERTIES = [
    Prop("C07", [
        Sub("ops", grade_case(), check_grade, 7000,
            rule="1-4 grades (common and extreme values per channel) on pixel buffers of 1, 3 and 4 channels and baked into "
                 "images, against the grade formula in double precision with error bounds; non-trivial: values changed "
                 "and more than half of them are predicted"),
        Sub("inverse", inverse_case(), check_inverse, 4000,
            rule="a grade followed by its reverse gives the input back (graded values inside 0..1); non-trivial: some "
                 "value was in range")]),
    Prop("C08", [Sub("block", block_case(), check_block, 12000,
                     rule="windows copied out of blocks of all pixel types inside the library (access to internals), bit for bit; "
                          "non-trivial: the windows overlap and differ"),
                 Sub("crop", crop_case(), check_crop, 6000,
                     rule="generated images and windows, optional grade/transform/lens before, one or two crops, against the "
                          "reference crop; non-trivial: result not black and mostly predicted")]),
    Prop("C09", [Sub("merge", merge_case(), check_merge, 9000,
                     rule="two generated images with optional nodes on either side, all modes, merges of merges, against "
                          "the reference merge; non-trivial: mostly predicted")]),
    Prop("C22", [Sub("resample", resample_case(), check_resample, 8000,
                     rule="generated images of 1-40 pixels, factors -5..3, all pixel types, against a reference resampler; "
                          "non-trivial: factor not 0, mostly predicted")]),
    Prop("C23", [Sub("disabled", disabled_case(), check_disabled, 6000,
                     rule="random graphs with disabled nodes of random settings inserted on their connections, compared bit "
                          "for bit with the graph without them; non-trivial: a disabled node other than Null was inserted")]),
]
