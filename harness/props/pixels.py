"""C10 pixel data types, C18 snapshots."""
import numpy as np
from hypothesis import strategies as st

import gen
import model
from core import Prop, Sub
from gen import compare_stream, fl, must, same_stream
from ocg import (DT_NP, EXEC_OK, F32, GRADE, HALF, LENS, NULL, READ, U16, U8, VIEWER, WRITE, XFORM)

LOSSLESS = {(U8, F32), (U8, U16), (U8, HALF), (U16, F32), (HALF, F32)}


# ------------------------------------------------------------------ C10
@st.composite
def types_case(draw):
    dt = draw(st.sampled_from([F32, F32, HALF, U8, U16]))
    c = draw(st.sampled_from([3, 4])) if dt in (F32, HALF) else 3
    w, h = draw(st.integers(1, 5)), draw(st.integers(1, 3))
    n = w * h * c
    if dt == F32:
        el = st.one_of(fl(-0.5, 1.5), st.floats(0, 1, width=32), st.integers(0, 255).map(lambda i: model.f32(i / 255.0)),
                       st.integers(0, 65535).map(lambda i: model.f32(i / 65535.0)),
                       st.integers(0, 510).map(lambda i: model.f32(i / 510.0)),
                       st.sampled_from([-1.0, 2.0, 1e-8, 6e-8, 6e-5, 65504.0, 1000.25, 1e-30]))
    elif dt == HALF:
        el = st.integers(0, 0x7BFF) | st.integers(0x8000, 0xFBFF)      # all finite bit patterns
    else:
        el = st.integers(0, 255 if dt == U8 else 65535)
    px = draw(st.lists(el, min_size=n, max_size=n))
    return dict(dt=dt, w=w, h=h, c=c, px=px, chain=draw(st.lists(st.sampled_from([F32, HALF, U8, U16, 255]), min_size=1, max_size=4)),
                cache=draw(st.integers(0, 1)))


def raw_pixels(case):
    shape = (case["h"], case["w"], case["c"])
    if case["dt"] == HALF:
        return np.array(case["px"], dtype=np.uint16).view(np.float16).reshape(shape)
    return np.array(case["px"], dtype=DT_NP[case["dt"]]).reshape(shape)


def check_types(case, srv):
    fmt, space = ("exr", "Linear") if case["dt"] in (F32, HALF) else ("png", "sRGB")
    path = srv.path_for("f." + fmt)
    raw = raw_pixels(case)
    srv.write_image(path, raw, case["dt"])
    srv.graph()
    srv.cache()
    srv.node(0, READ)
    srv.sets(0, "file_path", path)
    for i, t in enumerate(case["chain"]):
        srv.node(i + 1, VIEWER)
        srv.set(i + 1, dict(bake_option=1, bake_color_space=space, bake_pixel_data_type=t, use_cache=case["cache"]))
        srv.connect(i, i + 1)
    must(srv.execute(0, [1]) == EXEC_OK, "execute failed")
    o = srv.out(0)
    s = model.MS()
    px = model.decode(raw, case["dt"])
    if case["c"] == 3 and case["dt"] != F32:
        px = np.concatenate([px, np.ones(px.shape[:2] + (1,))], axis=2)
    s.px, s.err, s.dtype, s.space = px, np.zeros_like(px), case["dt"], space
    s.data = s.display = (0, 0, case["w"], case["h"])
    first = o
    compare_stream(o, s, "read")
    path_types = [case["dt"]]
    for i, t in enumerate(case["chain"]):
        must(srv.execute(i + 1, [1]) == EXEC_OK, "execute failed")
        o = srv.out(i + 1)
        s = s.copy()
        model.bake(s, model.COLOR_SPACE, space, t)
        compare_stream(o, s, "after %r" % (path_types + [t]))
        p = o.pixels()
        must(p is not None, "the pixel buffer does not hold the pixels")
        path_types.append(o.dtype)
        if o.dtype == case["dt"] and all(t2 == case["dt"] or (case["dt"], t2) in LOSSLESS for t2 in path_types):
            must(p.tobytes() == first.pixels().tobytes(), "a lossless round trip changed the pixels", repr(path_types))
    return len(set(path_types)) > 1, ["%d->%d" % (a, b) for a, b in zip(path_types, path_types[1:])]


def elements(dt):
    if dt == F32:
        return st.one_of(fl(-0.5, 1.5), st.floats(-2, 2, width=32), st.floats(width=32, allow_nan=False, allow_infinity=False),
                         st.integers(0, 255).map(lambda i: model.f32(i / 255.0)), st.integers(0, 65535).map(lambda i: model.f32(i / 65535.0)),
                         st.integers(0, 510).map(lambda i: model.f32(i / 510.0)), st.integers(0, 131070).map(lambda i: model.f32(i / 131070.0)),
                         st.sampled_from([-1.0, 2.0, 1e-8, 6e-8, 6e-5, 65504.0, 65519.0, 1000.25, 1e-30, 1e10, -1e10, 300.0, -0.0]))
    if dt == HALF:
        return st.integers(0, 0x7BFF) | st.integers(0x8000, 0xFBFF) | st.integers(0x3000, 0x3C80)
    return st.integers(0, 255 if dt == U8 else 65535)


@st.composite
def direct_case(draw):
    dt = draw(st.sampled_from([F32, HALF, U8, U16]))
    w, h, c = draw(st.integers(1, 6)), draw(st.integers(1, 2)), draw(st.sampled_from([1, 3, 4]))
    el = elements(dt)
    return dict(dt=dt, w=w, h=h, c=c, px=draw(st.lists(el, min_size=w * h * c, max_size=w * h * c)),
                to=draw(st.sampled_from([F32, HALF, U8, U16])))


def check_direct(case, srv):
    """One conversion of a block of pixels, each of the 16 pairs of types."""
    raw = raw_pixels(case)
    r = srv.x("convert", case["dt"], case["w"], case["h"], case["c"], raw.tobytes().hex(), case["to"])
    if r is None:
        return False, ["no access"]
    must([int(v) for v in r[:3]] == [case["w"], case["h"], case["c"]], "size of the block", repr(r[:3]))
    got = np.frombuffer(bytes.fromhex(r[4]), dtype=DT_NP[case["to"]])
    must(int(r[3]) == got.nbytes and got.size == raw.size, "number of pixel values", repr(r[3]))
    what = "%d -> %d" % (case["dt"], case["to"])
    if case["to"] == case["dt"]:
        must(got.tobytes() == raw.tobytes(), "the same type changed the pixels")
        return False, [what]
    v = model.decode(raw, case["dt"]).ravel()
    if case["to"] in (U8, U16):
        m = 255.0 if case["to"] == U8 else 65535.0
        slack = np.abs(v) * m * 3e-7
        lo, hi = (model.round_half_away(np.clip(v * m + k * slack, 0, m)) for k in (-1, 1))
    elif case["to"] == HALF:
        with np.errstate(over="ignore"):
            lo, hi = ((v + k * np.abs(v) * (0 if case["dt"] == F32 else 1e-7)).astype(np.float16).astype(np.float64) for k in (-1, 1))
    else:
        lo, hi = v - np.abs(v) * 1e-7, v + np.abs(v) * 1e-7
    g = got.astype(np.float64)
    bad = ~((g >= lo) & (g <= hi))
    if bad.any():
        i = int(np.argwhere(bad)[0][0])
        must(False, "converted value", "%s: %r gave %r, expected %r to %r" % (what, float(v[i]), float(g[i]), float(lo[i]), float(hi[i])))
    return True, [what]


@st.composite
def mono_case(draw):
    """A ramp stays a ramp in each type, and its ends keep their values."""
    n = draw(st.integers(2, 64))
    lo = draw(st.sampled_from([0.0, 0.0, -0.25, 0.49, 0.999]))
    hi = draw(st.sampled_from([1.0, 1.0, 1.25, 0.51, 1.0]))
    return dict(n=n, lo=lo, hi=max(hi, lo), to=draw(st.sampled_from([U8, U16, HALF])))


def check_mono(case, srv):
    x = np.linspace(case["lo"], case["hi"], case["n"]).astype(np.float32)
    srv.write_image("w/f.exr", np.repeat(x.reshape(1, -1, 1), 3, axis=2), F32)
    srv.graph()
    srv.cache()
    srv.node(0, READ)
    srv.sets(0, "file_path", "w/f.exr")
    srv.node(1, VIEWER)
    srv.set(1, dict(bake_option=1, bake_color_space="Linear", bake_pixel_data_type=case["to"]))
    srv.connect(0, 1)
    must(srv.execute(1, [1]) == EXEC_OK, "execute failed")
    o = srv.out()
    v = model.decode(o.pixels(), o.dtype)[0, :, 0]
    must((np.diff(v) >= 0).all(), "a rising ramp falls", repr(v.tolist()))
    step = {U8: 1 / 255.0, U16: 1 / 65535.0, HALF: 2.0 ** -10}[case["to"]]
    c = x.astype(np.float64) if case["to"] == HALF else np.clip(x.astype(np.float64), 0, 1)
    must((np.abs(v - c) <= step * 0.5001 + 1e-6).all(), "error larger than half a step", repr(float(np.abs(v - c).max() / step)))
    return True, ["to=%d" % case["to"]]


# ------------------------------------------------------------------ C18
@st.composite
def snap_case(draw):
    case = dict(draw(gen.dag(min_nodes=2, max_nodes=5, nfiles=2, extra=True)))
    if draw(st.integers(0, 3)) == 0:       # many operations on one stream
        for _ in range(draw(st.integers(2, 5))):
            n = len(case["nodes"])
            t = draw(st.sampled_from([GRADE, GRADE, XFORM, LENS]))
            case["nodes"] = case["nodes"] + [dict(t=t, a=dict(draw(gen.ATTRS[t])), ins=[[n - 1, 0]])]
        case["ids"] = case["order"] = None
    n = len(case["nodes"])
    ops = []
    for _ in range(draw(st.integers(2, 7))):
        k = draw(st.sampled_from(["set", "set", "exec", "exec", "delete", "disconnect", "capacity", "drop", "bake", "refile", "newcache"]))
        i = draw(st.integers(0, n - 1))
        if k == "set":
            ops.append([k, i, dict(draw(gen.node_attrs(case["nodes"][i]["t"], 2)))])
        elif k == "exec":
            ops.append([k, i, draw(st.integers(1, 3))])
        elif k == "capacity":
            ops.append([k, draw(st.sampled_from([0, 100, 1 << 20]))])
        elif k == "refile":
            ops.append([k, draw(st.integers(0, 1)), draw(st.integers(0, 999))])
        else:
            ops.append([k, i])
    case["ops"] = ops
    case["target"] = n - 1 if draw(st.booleans()) else draw(st.integers(0, n - 1))
    case["win"] = [0.0, 0.0, float(draw(st.integers(1, 20))), float(draw(st.integers(1, 20)))]
    return case


def probe(srv, s, win):
    """Everything a stream shows: properties, pixels, and what its operations do."""
    pts = [0.1, 0.2, 0.0, 0.7, 0.4, 0.0, 1.5, -0.5, 1.0]
    px = [0.1, 0.2, 0.3, 0.4, 0.9, 0.5, 0.25, 1.0]
    return srv.stream(s), srv.deform(s, pts, win, win).tobytes(), srv.color_ops(s, 4, px).tobytes()


def check_snap(case, srv):
    gen.put_files(case, srv)
    gen.put_graph(case, srv)
    srv.cache()
    win = case["win"]
    snaps = []
    last = None           # the output which the graph gives until the next execution
    if srv.execute(case["target"], [1]) == EXEC_OK:
        srv.out(0)
        snaps.append(probe(srv, 0, win))
        last = 0
    dropped, changed, viewer = False, False, False
    for op in case["ops"]:
        if op[0] == "set":
            if not dropped:
                srv.set(op[1], gen.real_attrs(case, op[2], srv))
        elif op[0] == "exec":
            if not dropped:
                last = None
                if srv.execute(op[1], [op[2]]) == EXEC_OK:
                    last = len(snaps)
                    srv.out(len(snaps))
                    snaps.append(probe(srv, len(snaps), win))
                    changed |= len(snaps) > 1 and snaps[-1][0].raw != snaps[0][0].raw
        elif op[0] == "delete":
            if not dropped:
                srv.delete(op[1])
        elif op[0] == "disconnect":
            if not dropped:
                srv.disconnect(op[1], 0)
        elif op[0] == "capacity":
            srv.set_capacity(0, op[1])
        elif op[0] == "newcache":
            srv.cache(0)
        elif op[0] == "drop":
            if not dropped:
                srv.call("dropgraph", 0)
                dropped = True
        elif op[0] == "refile":
            f = dict(case["files"][op[1]], seed=op[2])
            gen.write_file(srv, srv.path_for(gen.file_name(op[1], f)), f)
        elif op[0] == "bake" and not dropped:
            v = 70
            if not viewer:
                viewer = True
                srv.node(v, VIEWER, id=999)
                srv.seti(v, "bake_option", 3)
            srv.connect(op[1], v, 0)
            if srv.exists(op[1]):
                last = None
                if srv.execute(v, [1]) == EXEC_OK:
                    last = len(snaps)
                    srv.out(len(snaps))
                    snaps.append(probe(srv, len(snaps), win))
        if last is not None and not dropped:
            srv.out(60)
            now = probe(srv, 60, win)
            same_stream(snaps[last][0], now[0], "output of the graph before and after %r" % (op,))
            must(now[1:] == snaps[last][1:], "the output of the graph changed without an execution", repr(op))
        for k, (s, d, c) in enumerate(snaps):
            now = probe(srv, k, win)
            same_stream(s, now[0], "stream %d before and after %r" % (k, op))
            must(now[1] == d, "the deformers of a stream changed", repr(op))
            must(now[2] == c, "the colour operations of a stream changed", repr(op))
            must(s.pixels() is not None, "the pixel buffer does not hold the pixels")
            must(s.buflen == len(s.raw), "length of the pixel buffer")
            must(s.state < 256 and now[0].state == s.state, "state of the stream", repr(now[0].state))
    return changed or dropped, sorted({o[0] for o in case["ops"]})


PROPERTIES = [
    Prop("C10", [
        Sub("types", types_case(), check_types, 5000,
            rule="pixels of each type (all finite half values, all integers, floats around the quantisation steps) through chains of "
                 "type conversions; non-trivial: at least two types"),
        Sub("direct", direct_case(), check_direct, 12000,
            rule="blocks of pixels converted between all pairs of types inside the library (access to internals), against exact "
                 "rounding; non-trivial: two different types"),
        Sub("mono", mono_case(), check_mono, 1500, rule="ramps stay monotone, error at most half a step; non-trivial: always")]),
    Prop("C18", [Sub("snap", snap_case(), check_snap, 4500,
                     rule="streams kept while the graph, cache and files change; non-trivial: a later stream has other pixels or the "
                          "graph is gone")]),
]
