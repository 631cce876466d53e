"""C16 plane geometry, C17 colour LUTs, C20 configuration, C21 node identity."""
import os
import struct

import numpy as np
from hypothesis import strategies as st

import gen
import model
from core import Prop, Sub
from gen import fl, must, same_stream
from ocg import EXEC_OK, F32, GRADE, NULL, READ, ST_NONEXISTENT, VIEWER, Server, hx, pack, unhx


# ------------------------------------------------------------------ C16
@st.composite
def plane_case(draw):
    big = draw(st.integers(0, 30))
    div = st.integers(2, 9) if big < 20 else st.integers(2, 24) if big < 30 else st.sampled_from([3, 40, 65, 130])
    sign = st.sampled_from([1] * 7 + [-1])       # (negative: mirrored)
    c = dict(center=[model.f32(draw(fl(-10, 10))) for _ in range(2)],
             size=[draw(sign) * model.f32(draw(st.one_of(fl(0.25, 3), fl(1, 4096)))) for _ in range(2)],
             div=[draw(div), draw(div)], set=[])
    if draw(st.integers(0, 199)) == 0:
        c["div"] = draw(st.permutations([2, draw(st.integers(250, 3000))]))
    if draw(st.integers(0, 2)) == 0:
        c["set"] = [draw(div) for _ in range(draw(st.integers(1, 2)))]
    return c


def lines(a):
    return [(int(p), int(q)) for p, q in a.reshape(-1, 2)]


def check_plane(case, srv):
    r = srv.call("plane", pack("f", case["center"] + case["size"]), *(case["div"] + case["set"]))
    dx, dy = (case["set"] + case["div"][len(case["set"]):])[:2]
    must((int(r[0]), int(r[1])) == (dx, dy), "divisions", "%s %s" % (r[0], r[1]))
    must((int(r[2]), int(r[3])) == (dx * dy, dx * dy), "counts", "%s %s, expected %d" % (r[2], r[3], dx * dy))
    must(r[4] == "11111", "a buffer could not be filled", r[4])
    pos = np.frombuffer(unhx(r[5]), "<f4").astype(np.float64)
    uv = np.frombuffer(unhx(r[6]), "<f4").astype(np.float64)
    tri, brd, wire = (np.frombuffer(unhx(x), "<u4") for x in r[7:10])
    must((len(pos), len(uv), len(tri)) == (3 * dx * dy, 2 * dx * dy, 6 * (dx - 1) * (dy - 1)), "buffer sizes",
         "%d %d %d" % (len(pos), len(uv), len(tri)))
    must((len(brd), len(wire)) == (4 * (dx - 1 + dy - 1), 8 * (dx - 1) * (dy - 1)), "buffer sizes", "%d %d" % (len(brd), len(wire)))
    pos, uv = pos.reshape(dy, dx, 3), uv.reshape(dy, dx, 2)
    u, v = np.meshgrid(np.arange(dx) / (dx - 1.0), np.arange(dy) / (dy - 1.0))
    sx, sy = case["size"]
    tol = 1e-5 * (1 + max(abs(sx), abs(sy)) + max(map(abs, case["center"])))
    for got, want, what in ((pos[..., 0], (u - 0.5) * sx - case["center"][0], "x"), (pos[..., 1], (v - 0.5) * sy - case["center"][1], "y"),
                            (pos[..., 2], 0 * u, "z")):
        must((np.abs(got - want) <= tol).all(), "positions", what)
    must((np.abs(uv[..., 0] - u) <= 1e-5).all() and (np.abs(uv[..., 1] - (1 - v)) <= 1e-5).all(), "texture coordinates")
    # triangles: each cell is covered by two triangles which share a diagonal, all wound the same way
    must(tri.size == 0 or tri.max() < dx * dy, "triangle index out of range")
    t = tri.reshape(-1, 3).astype(np.int64)
    ij = np.stack([t % dx, t // dx], axis=2)
    area = ((ij[:, 1, 0] - ij[:, 0, 0]) * (ij[:, 2, 1] - ij[:, 0, 1]) - (ij[:, 2, 0] - ij[:, 0, 0]) * (ij[:, 1, 1] - ij[:, 0, 1]))
    must((np.abs(area) == 1).all() and (area > 0).all() | (area < 0).all(), "triangles are degenerate or wound differently")
    low, high = ij.min(axis=1), ij.max(axis=1)
    must((high - low == 1).all(), "a triangle is larger than its cell")
    cells = {}
    for lo, tr in zip(low.tolist(), t.tolist()):
        cells.setdefault(tuple(lo), []).append(frozenset(tr))
    must(len(cells) == (dx - 1) * (dy - 1), "cells covered", "%d of %d" % (len(cells), (dx - 1) * (dy - 1)))
    for c, (a, b) in cells.items():
        must(len(a | b) == 4 and len(a & b) == 2, "triangles of a cell overlap", repr(c))
    # border and wire lines
    n = [frozenset(e) for e in lines(brd)]
    want = {frozenset((r_ * dx + c_, r_ * dx + c_ + 1)) for r_ in (0, dy - 1) for c_ in range(dx - 1)} | {
        frozenset((r_ * dx + c_, (r_ + 1) * dx + c_)) for c_ in (0, dx - 1) for r_ in range(dy - 1)}
    must(len(n) == len(set(n)) and set(n) == want, "border lines")
    edges = {frozenset((r_ * dx + c_, r_ * dx + c_ + 1)) for r_ in range(dy) for c_ in range(dx - 1)} | {
        frozenset((r_ * dx + c_, (r_ + 1) * dx + c_)) for c_ in range(dx) for r_ in range(dy - 1)}
    must({frozenset(e) for e in lines(wire)} == edges, "wire lines")
    check_export(srv, pos.reshape(-1, 3), uv.reshape(-1, 2), t, r[5:8])
    return dx != dy, ["resized"] * bool(case["set"])


def check_export(srv, pos, uv, t, buffers):
    path = srv.path_for("m.obj")
    srv.call("mesh", *buffers, hx(path))
    vs, ts, fs = [], [], []
    for line in open(srv.abs_path(path)):
        w = line.split()
        if w and w[0] == "v":
            vs.append([float(x) for x in w[1:]])
        elif w and w[0] == "vt":
            ts.append([float(x) for x in w[1:]])
        elif w and w[0] == "f":
            fs.append([[int(i) for i in x.split("/") if i] for x in w[1:]])
    must(len(vs) == len(pos) and np.allclose(np.array(vs).reshape(-1, 3), pos, rtol=1e-6, atol=1e-30), "exported positions")
    must(len(ts) == len(uv) and np.allclose(np.array(ts).reshape(-1, 2), uv, rtol=1e-6, atol=1e-30), "exported texture coordinates")
    must([[c[0] - 1 for c in f] for f in fs] == t.tolist(), "exported triangles")
    must(all(i == c[0] for f in fs for c in f for i in c), "exported triangle uses different vertices and texture coordinates")


@st.composite
def mesh_case(draw):
    n = draw(st.integers(3, 6))
    v = st.one_of(fl(-2, 2), st.sampled_from([0.0, 1e-4, 3.3333334e-5, 123456.79, -98765.43, 1e6, 1.5e-6]), st.floats(-1e6, 1e6, width=32))
    return dict(pos=[model.f32(draw(v)) for _ in range(3 * n)], uv=[model.f32(draw(v)) for _ in range(2 * n)],
                tri=[[draw(st.integers(0, n - 1)) for _ in range(3)] for _ in range(draw(st.integers(1, 6)))])


def check_mesh(case, srv):
    """Any mesh, exported."""
    pos, uv = np.array(case["pos"]).reshape(-1, 3), np.array(case["uv"]).reshape(-1, 2)
    t = np.array(case["tri"])
    check_export(srv, pos, uv, t, (pack("f", case["pos"]), pack("f", case["uv"]), pack("I", [int(i) for i in t.ravel()])))
    return len(t) > 1, ["triangles=%d" % len(t)]


# ------------------------------------------------------------------ C17
PAIRS = [("sRGB", "Linear"), ("Linear", "sRGB"), ("Rec709", "Linear"), ("Linear", "Rec709"), ("Linear", "Linear"), ("sRGB", "sRGB"),
         ("Linear", "GammaCorrected2.2"), ("Linear", "GammaCorrected1.8"), ("GammaCorrected2.2", "Linear"), ("GammaCorrected1.8", "Linear"),
         # spaces there are not: the grid stays as it is, and keeps its space
         ("nowhere", "sRGB"), ("Linear", "nowhere"), ("a", "bTo:c"), ("aTo:b", "c"), ("ab", "c"), ("a", "bc")]
NOWHERE = ("a", "ab", "aTo:b")


@st.composite
def lut_case(draw):
    grades = [[dict(draw(gen.grade_attrs())) for _ in range(draw(st.integers(0, 3)))] for _ in range(2)]
    if draw(st.booleans()):
        # the second stream differs in one attribute, or the order, only
        grades[1] = [dict(a) for a in grades[0]]
        if grades[1]:
            a = draw(st.sampled_from(grades[1]))
            if draw(st.integers(0, 4)):
                q = draw(st.sampled_from(sorted(model.DEFAULTS[GRADE])))
                a[q] = draw(gen.attr_value(q))
            else:
                grades[1].reverse()
    reqs = []
    for _ in range(draw(st.integers(1, 7))):
        edge = draw(st.sampled_from([2, 3, 3, 4, 4, 5, 5, 6, 7, 8, 9, 13, 16, 17, 20, 32, 33]))
        if edge == 20 and draw(st.booleans()):
            edge = draw(st.sampled_from([48, 64, 65]))
        k = draw(st.sampled_from(["3d", "ops", "ops", "exec", "near"]))
        near = [q for q in reqs if q[0] in ("3d", "ops")] if k == "near" else []
        if near:        # differs from an earlier request in one thing
            q = list(draw(st.sampled_from(near)))
            other = st.sampled_from([edge, edge] + [q[2] + v for v in (1, 16, 32, 64) if q[2] + v < 48])
            if q[0] == "ops":
                i = draw(st.integers(1, 3))
                q[i] = {1: 1 - q[1], 2: draw(other), 3: 4 - q[3]}[i]
            elif draw(st.integers(0, 3)) == 0:
                q[2] = draw(other)
            elif q[1][0] in NOWHERE:
                q[1] = draw(st.sampled_from([p for p in PAIRS if p[0] in NOWHERE]))
            else:
                q[1] = draw(st.sampled_from(PAIRS + [(q[1][1], q[1][0])] * 4))
            reqs.append(q)
        elif k in ("3d", "near"):
            reqs.append(["3d", draw(st.sampled_from(PAIRS)), edge])
        elif k == "ops":
            reqs.append([k, draw(st.integers(0, 1)), edge, draw(st.sampled_from([1, 3, 3]))])
        else:
            reqs.append([k, draw(st.integers(0, 1))])
    return dict(grades=grades, reqs=reqs, capacity=draw(st.sampled_from([0, 2000, 1 << 24, 1 << 24])))


def grid(edge, nch):
    i = np.arange(edge) / (edge - 1.0)
    if nch == 1:
        return i.reshape(1, edge, 1)
    n = np.arange(edge ** 3)
    return np.stack([i[n % edge], i[n // edge % edge], i[n // edge // edge]], axis=1).reshape(edge, edge * edge, 3)


def same_image(a, b, what):
    for k in a:
        if k == "px":
            must(a[k].tobytes() == b[k].tobytes(), "LUT depends on the cache", what)
        else:
            must(a[k] == b[k], "LUT depends on the cache", "%s: %s is %r and %r" % (what, k, a[k], b[k]))


def check_lut(case, srv):
    for q in case["reqs"]:
        if q[0] == "3d":
            q[1] = tuple(q[1])
    srv.cache(0, case["capacity"])
    ops = []
    for g in (0, 1):
        srv.graph(g)
        srv.node(100 * g, READ, g=g)
        for i, a in enumerate(case["grades"][g]):
            n = 100 * g + i + 1
            srv.node(n, GRADE, g=g)
            srv.set(n, a, g=g)
            srv.connect(n - 1, n, 0, g=g)
        last = 100 * g + len(case["grades"][g])
        must(srv.execute(last, [1], c=0, g=g) == EXEC_OK, "execute failed")
        srv.out(g, g=g)
        o = [model.attrs_of(GRADE, a) for a in case["grades"][g]]
        ops.append([a for a in o if model.grade_works(a)])
    seen, interesting = set(), False
    for k, q in enumerate(case["reqs"]):
        if q[0] == "exec":
            g = q[1]
            must(srv.execute(100 * g + len(case["grades"][g]), [1], c=0, g=g) == EXEC_OK, "execute failed")
            srv.out(g, g=g)
            continue
        srv.cache(1, 1 << 24)
        if q[0] == "3d":
            edge, nch = q[2], 3
            got, fresh = (srv.lut3d(q[1][0], q[1][1], edge, c) for c in (0, 1))
            s = model.MS()
            s.px = grid(edge, 3)
            s.err = np.full_like(s.px, 1e-6)
            model.convert_space(s, q[1][0], q[1][1])
            px, err, space = s.px, s.err, q[1][1] if q[1][0] == q[1][1] or tuple(q[1]) in model.CONVERT else q[1][0]
        else:
            edge, nch = q[2], q[3]
            got, fresh = (srv.lut_ops(q[1], edge, nch, c) for c in (0, 1))
            px = grid(edge, nch)
            err = np.full_like(px, 1e-6)
            for a in ops[q[1]]:
                px, err = model.apply_op(px, err, a)
            space = "Linear"
            interesting |= bool(ops[q[1]])
        what = "request %d %r" % (k, q)
        interesting |= str(q) in seen
        seen.add(str(q))
        w, h = (edge, 1) if nch == 1 else (edge * edge, edge)
        must((got["w"], got["h"], got["c"], got["dtype"]) == (w, h, nch, F32), "size of the LUT", "%s: %r" % (what, (got["w"], got["h"], got["c"])))
        must(got["display"] == (0, 0, w, h) and got["data"] == (0, 0, w, h), "windows of the LUT", what)
        must(got["color_space"] == space, "colour space of the LUT", "%s: %r" % (what, got["color_space"]))
        p = got["px"].astype(np.float64).reshape(px.shape)
        with np.errstate(all="ignore"):
            bad = ~(np.abs(p - px) <= err + 2e-6 * (1 + np.abs(px))) & np.isfinite(err)
        if bad.any():
            i = tuple(int(v) for v in np.argwhere(bad)[0])
            must(False, "value of the LUT", "%s at %r: %r, expected %r +- %.2g" % (what, i, float(p[i]), float(px[i]), float(err[i])))
        same_image(got, fresh, what)
    return interesting, ["capacity=%d" % case["capacity"]] + sorted({q[0] for q in case["reqs"]})


# ------------------------------------------------------------------ C20
@st.composite
def yaml_text(draw):
    """(text, percent or None when the text is no valid configuration)"""
    pct = draw(st.sampled_from(["0", "0.0", "25", "50.5", "100", "100.0", "12.125", "1e1", "-5", "-0.5", "101", "250.0", "1.0e+3",
                                ".inf", "-.inf", ".nan", "99.9", "0.001"]))
    thr = draw(st.sampled_from(["0", "1", "8", "-1"]))
    vals = {".inf": np.inf, "-.inf": -np.inf, ".nan": np.nan}
    p = vals[pct] if pct in vals else float(pct)
    kind = draw(st.sampled_from(["full"] * 5 + ["extra", "order", "comment", "flow", "no cache", "no threading", "word", "empty", "text",
                                                "broken", "list", "float threads", "binary"]))
    body = "cache:\n  ram_capacity_percent: %s\nthreading:\n  num_threads: %s\n" % (pct, thr)
    if kind == "full":
        return body, p
    if kind == "extra":
        return body + "other:\n  thing: 3\n", p
    if kind == "order":
        return "threading:\n    num_threads: %s\ncache:\n    ram_capacity_percent: %s\n" % (thr, pct), p
    if kind == "comment":
        return "# comment\n---\n" + body + "# end\n", p
    if kind == "flow":
        return "{cache: {ram_capacity_percent: %s}, threading: {num_threads: %s}}" % (pct, thr), p
    return {"no cache": "threading:\n  num_threads: 1\n", "no threading": "cache:\n  ram_capacity_percent: %s\n" % pct,
            "word": "cache:\n  ram_capacity_percent: many\nthreading:\n  num_threads: 0\n", "empty": "", "text": "hello world",
            "broken": "cache: [\n  ram", "list": "- 1\n- 2\n",
            "float threads": "cache:\n  ram_capacity_percent: %s\nthreading:\n  num_threads: 1.5\n" % pct, "binary": "\x01\x02\x00"}[kind], None


@st.composite
def config_case(draw):
    dirs = []
    for i in range(draw(st.integers(0, 4))):
        k = draw(st.sampled_from(["file", "file", "file", "missing", "empty dir", "dir in place"]))
        dirs.append([k, list(draw(yaml_text())) if k == "file" else None])
    for d in dirs:
        if d[1] and d[1][1] is not None and not np.isfinite(d[1][1]):
            d[1][1] = str(d[1][1])
    return dict(dirs=dirs, name=draw(st.sampled_from(["open_comp_graph.yaml", "other.yaml", "sub/c.yaml"])), env=draw(st.sampled_from([1, 1, 1, 0])),
                decoy=draw(st.booleans()))


def check_config(case, srv):
    want, used = 0.0, "default"
    paths = []
    found = False
    for i, (k, content) in enumerate(case["dirs"]):
        d = os.path.join(srv.scratch, "c%d" % i)
        paths.append("w/c%d" % i)
        if k == "missing":
            continue
        f = os.path.join(d, case["name"])
        os.makedirs(os.path.dirname(f))
        if k == "dir in place":
            os.mkdir(f)
        elif k == "file":
            with open(f, "w") as fh:
                fh.write(content[0])
            if not found:
                found = True
                p = content[1]
                used = "invalid" if p is None else "file"
                p = 0.0 if p is None else float(p)
                want = 0.0 if p != p else min(1.0, max(0.0, p / 100.0))
        if case["decoy"]:
            with open(os.path.join(d, "decoy.yaml"), "w") as fh:
                fh.write("cache:\n  ram_capacity_percent: 77\nthreading:\n  num_threads: 0\n")
    if not case["env"]:
        want, used = 0.0, "no variable"
        srv.call("setenv", "OPENCOMPGRAPH_CONFIG_PATH")
    else:
        srv.call("setenv", "OPENCOMPGRAPH_CONFIG_PATH", hx(":".join(paths)))
    for k in (0, 1):
        # the default name is that of the default constructor
        r = srv.call("config", *([] if k and case["name"] == "open_comp_graph.yaml" else [hx(case["name"])]))
        pct, nbytes = struct.unpack("<f", unhx(r[0]))[0], int(r[1])
        must(abs(pct - want) <= 1e-6, "cache capacity fraction", "%r, expected %r (%s)" % (pct, want, used))
        total = int(srv.call("sysmem")[0])
        must(abs(nbytes - want * total) <= total * 2e-6, "cache capacity in bytes", "%d of %d, expected %r (%s)" % (nbytes, total, want, used))
        must(nbytes <= total * (1 + 1e-6), "cache capacity larger than the memory")
    return used != "no variable" and bool(case["dirs"]), [used]


# ------------------------------------------------------------------ C21
names = st.one_of(st.text(max_size=12), st.text(alphabet="ab01_ ", max_size=20), st.sampled_from(["", "read1", "read2", "grade", "é", "影"]))


@st.composite
def ident_case(draw):
    base = draw(st.text(alphabet="abcdefgh_", min_size=0, max_size=24))
    if draw(st.integers(0, 3)) == 0:         # long names which differ at the end only
        base = (base or "n") * draw(st.sampled_from([4, 10, 40]))
    near = [base + str(i) for i in range(draw(st.integers(0, 12)))]
    if draw(st.booleans()):
        near += [base.upper(), base + " ", " " + base, base[::-1], base[:-1], base + "_", "/" + base]
    ns = [n for n in draw(st.lists(names, max_size=8)) + near if not any(0xD800 <= ord(c) < 0xE000 or c == "\0" for c in n)]
    return dict(names=ns, types=draw(st.lists(st.integers(0, 9), min_size=1, max_size=4)), randoms=draw(st.integers(0, 6)))


OTHER = {}


def other(srv):
    """A second process: names must mean the same there."""
    key = srv.path
    if key not in OTHER:
        OTHER[key] = Server(srv.path)
        import atexit
        atexit.register(OTHER[key].close)
    return OTHER[key]


def check_ident(case, srv):
    ids = {}
    o = other(srv)
    o.new_case()
    for n in case["names"]:
        a = int(srv.call("idname", hx(n))[0])
        must(a == int(srv.call("idname", hx(n))[0]), "id of a name changes", repr(n))
        must(a == int(o.call("idname", hx(n))[0]), "id of a name differs between processes", repr(n))
        must(ids.get(a, n) == n, "two names have the same id", "%r %r" % (ids.get(a), n))
        ids[a] = n
    srv.graph()
    srv.cache()
    uniq = sorted(set(case["names"]))
    have = {}
    for i, n in enumerate(uniq):
        t = case["types"][i % len(case["types"])]
        nid, rt = srv.node(i, t, name=n)
        must(nid == int(srv.call("idname", hx(n))[0]), "a node created by name has another id", repr(n))
        must(rt == t, "type of the node", "%d, asked for %d" % (rt, t))
        have[i] = nid
    base = len(uniq)
    for k in range(case["randoms"]):
        nid, rt = srv.node_random(base + k, case["types"][k % len(case["types"])])
        must(rt == case["types"][k % len(case["types"])], "type of the node")
        have[base + k] = nid
        r = int(srv.call("idrand")[0])
        must(r not in have.values(), "a generated id was used before")
    must(len(set(have.values())) == len(have), "two nodes have the same id", repr(have))
    for n in have:
        must(srv.exists(n), "a node does not exist")
    # removing one leaves the others alone
    if have:
        gone = min(have)
        must(srv.delete(gone), "a node cannot be removed")
        must(not srv.exists(gone) and srv.status(gone) == ST_NONEXISTENT, "a removed node exists")
        for n in have:
            must(n == gone or srv.exists(n), "removing a node removed another one")
    return len(have) > 1, ["names=%d" % min(9, len(uniq)), "randoms=%d" % case["randoms"]]


def check_many_ids(case, srv):
    n = case["n"]
    r = [int(v) for v in srv.call("idrandn", n)]
    must(r[0] == n, "a generated id was used before", "%d distinct ids of %d" % (r[0], n))
    o = other(srv)
    o.new_case()
    q = [int(v) for v in o.call("idrandn", 20)]
    must(not set(r[1:]) & set(q[1:]), "the same ids are generated in another process")
    return n > 1000, ["n>1000" if n > 1000 else "n<=1000"]


PROPERTIES = [
    Prop("C16", [Sub("plane", plane_case(), check_plane, 4000,
                     rule="planes with generated divisions, size and centre: positions, UVs, triangle cover, border and wire lines and "
                          "the exported OBJ; non-trivial: different divisions in x and y"),
                 Sub("mesh", mesh_case(), check_mesh, 1500,
                     rule="arbitrary vertices, texture coordinates and triangles exported and parsed; non-trivial: several triangles")]),
    Prop("C17", [Sub("lut", lut_case(), check_lut, 3000,
                     rule="sequences of LUT requests (and executions) on one cache, each against the reference and a fresh cache; "
                          "non-trivial: colour operations present or a request repeated")],
         ["Colour conversion pairs between sRGB, Rec709 and Linear with OpenImageIO's built-in configuration."]),
    Prop("C20", [Sub("config", config_case(), check_config, 12000,
                     rule="search paths with valid, invalid and missing configuration files; non-trivial: a search path is given")]),
    Prop("C21", [Sub("ident", ident_case(), check_ident, 3000,
                     rule="named and anonymous nodes, ids compared within and between processes; non-trivial: two nodes"),
                 Sub("many", st.fixed_dictionaries(dict(n=st.one_of(st.integers(1, 2000), st.integers(100000, 300000)))), check_many_ids, 60,
                     rule="up to 300000 generated ids in one process, compared with those of another; non-trivial: more than 1000")]),
]
