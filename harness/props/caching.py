"""C04, C05, C26: the image cache and the identity of streams."""
import os

import numpy as np
from hypothesis import strategies as st

import gen
import model
from core import Prop, Sub
from gen import must, same_stream
from ocg import CROP, EXEC_OK, F32, GRADE, LENS, MERGE, NULL, READ, RESAMPLE, VIEWER, XFORM

# ------------------------------------------------------------------ C04
NK = 8            # image k is 2^k pixels of 16 bytes: the used size tells exactly which images are held
UNIT = 16


def capacity():
    return st.one_of(st.integers(0, UNIT * 300), st.integers(0, 300).map(lambda v: v * UNIT),
                     st.integers(0, NK + 1).map(lambda k: UNIT << k), st.sampled_from([0, 1, 2 ** 40]))


@st.composite
def lru_case(draw):
    ops = []
    small = draw(st.booleans())
    img = st.integers(0, 4 if small else NK - 1)
    cap = st.integers(1, 34).map(lambda v: v * UNIT) if small else capacity()
    for _ in range(draw(st.integers(4, 30))):
        k = draw(st.sampled_from(["read"] * 7 + ["cap"]))
        ops.append([k, draw(img) if k == "read" else draw(cap), draw(st.integers(0, 1))])
    return dict(cap=draw(cap), ops=ops)


def check_lru(case, srv):
    cap = case["cap"]
    srv.cache(0, cap)
    for g in (0, 1):
        srv.graph(g)
        srv.node(g, READ, g=g)
    used_files = sorted({op[1] for op in case["ops"] if op[0] == "read"})
    for k in used_files:
        srv.write_image(srv.path_for("%d.exr" % k), model.content(3, k, 1, 1 << k, 4, F32), F32)
    order = []        # held images, least recently used first
    evicted = hits = 0

    def size(l):
        return sum(UNIT << k for k in l)

    for kind, v, g in case["ops"]:
        if kind == "read":
            srv.sets(g, "file_path", srv.path_for("%d.exr" % v), g=g)
            must(srv.execute(g, [1], g=g) == EXEC_OK, "execute failed")
            o = srv.out(0, g=g)
            must((o.width, o.height) == (1 << v, 1) and o.raw == model.content(3, v, 1, 1 << v, 4, F32).tobytes(),
                 "wrong image", "image %d" % v)
            if v in order:
                hits += 1
                order = [k for k in order if k != v] + [v]
                allowed_evict = False
            elif UNIT << v <= cap and cap > 0:
                order = order + [v]
                allowed_evict = True
            else:
                allowed_evict = False
        else:
            srv.set_capacity(0, v)
            cap = v
            allowed_evict = True
        count, used, c, _ = srv.cinfo(0)
        must(c == cap, "capacity", "%d, expected %d" % (c, cap))
        must(used <= cap, "over capacity", "%d bytes used of %d after %r" % (used, cap, (kind, v)))
        must(used % UNIT == 0, "accounting", "used %d" % used)
        held = {k for k in range(NK) if used // UNIT >> k & 1}
        must(used // UNIT >> NK == 0 and count == len(held), "accounting",
             "%d entries, %d bytes used after %r" % (count, used, (kind, v)))
        keep = order[len(order) - len(held):]
        must(set(keep) == held, "not the most recently used",
             "after %r the cache holds images %r; by recent use %r" % ((kind, v), sorted(held), order))
        lost = order[:len(order) - len(held)]
        if lost:
            must(allowed_evict, "evicted without need", "%r after %r" % (lost, (kind, v)))
            must(size(keep) + size(lost[-1:]) > cap, "evicted without need",
                 "%r evicted with %d of %d bytes used after %r" % (lost, used, cap, (kind, v)))
            must(not (kind == "read" and v in lost), "the new image was evicted", "%r" % v)
            evicted += 1
        order = keep
    return evicted > 0 and len(case["ops"]) > 3, ["evictions"] * (evicted > 0) + ["hits"] * (hits > 0)


# The cache itself: key k holds 4^k pixels of 8 or 16 bytes, so the used size names the held images and their types.
@st.composite
def store_case(draw):
    nk = draw(st.sampled_from([3, 5, 7]))
    top = 8 * 4 ** nk
    size = st.one_of(st.integers(0, top), st.integers(0, 2 * nk).map(lambda k: 8 << k), st.integers(0, top // 8).map(lambda v: 8 * v))
    key = st.integers(0, nk - 1)
    ops = []
    for _ in range(draw(st.integers(3, 30))):
        k = draw(st.sampled_from(["put"] * 7 + ["get"] * 5 + ["free", "evict", "cap", "clear"]))
        if k == "put":
            ops.append([k, draw(key), draw(st.integers(0, 1))])
        elif k == "get":
            ops.append([k, draw(key)])
        elif k in ("free", "cap"):
            ops.append([k, draw(size)])
        else:
            ops.append([k])
    return dict(cap=draw(size), ops=ops)


def check_store(case, srv):
    cap = case["cap"]
    if srv.x("cnew", cap) is None:
        return False, ["no access"]
    held = []            # (key, type), least recently used first
    feats = set()

    def size(e):
        return (16 if e[1] == 0 else 8) << (2 * e[0])

    def total(l):
        return sum(size(e) for e in l)

    for op in case["ops"]:
        k = op[0]
        before = list(held)
        if k == "put":
            e = (op[1], op[2])
            r = srv.x("cput", 2 ** 63 + op[1], 4 ** op[1], op[2])
        elif k == "get":
            r = srv.x("cget", 2 ** 63 + op[1])
        elif k == "free":
            r = srv.x("cfree", op[1])
        elif k == "cap":
            cap = op[1]
            r = srv.x("ccap", cap)
        else:
            r = srv.x("cevict" if k == "evict" else "cclear")
        count, used, c = (int(v) for v in r[:3])
        what = "after %r" % (op,)
        must(c == cap, "capacity", "%d, expected %d %s" % (c, cap, what))
        must(used <= cap, "over capacity", "%d bytes used of %d %s" % (used, cap, what))
        now = {(q, t) for q in range(12) for t in (0, 1) if used >> (3 + 2 * q + (1 - t)) & 1}
        must(used % 8 == 0 and count == len(now) and len({q for q, _ in now}) == count, "accounting",
             "%d entries, %d bytes used %s" % (count, used, what))
        if k == "get":
            hit = [e for e in held if e[0] == op[1]]
            must(int(r[3]) == (4 ** op[1] if hit else -1), "result of a look-up", "%s %s" % (r[3], what))
            held = [e for e in held if e not in hit] + hit
            feats.add("hit" if hit else "miss")
        elif k == "put":
            old = [e for e in held if e[0] == op[1]]
            others = [e for e in held if e not in old]
            if cap == 0 or size(e) > cap:
                held = [h for h in held if h in now] if old else held
                must(set(others) <= now, "evicted without need", what)
            else:
                feats.add("replaced" if old else "put")
                must(e in now, "the new image is not held", what)
                keep = [o for o in others if o in now]
                must(keep == others[len(others) - len(keep):], "not the most recently used", "%r of %r %s" % (keep, others, what))
                lost = others[:len(others) - len(keep)]
                if lost:
                    feats.add("evicted")
                    must(total(keep) + size(lost[-1]) + size(e) > cap, "evicted without need", "%r %s" % (lost, what))
                held = keep + [e]
        elif k in ("free", "cap"):
            target = total(held) - op[1] if k == "free" else cap
            while held and total(held) > max(0, target):
                held = held[1:]
                feats.add("evicted")
        elif k == "evict":
            must(int(r[3]) == (1 if held else 0), "result of evicting", what)
            held = held[1:]
        else:
            held = []
        must(set(held) == now, "entries held", "%r, expected %r %s (before: %r)" % (sorted(now), held, what, before))
    return "evicted" in feats, sorted(feats)


@st.composite
def many_case(draw):
    """Many small images; accesses favour recent ones, so that the order of use matters."""
    if draw(st.integers(0, 15)) == 0:         # hundreds, some never used at first, and one as large as many of the others
        n = draw(st.sampled_from([80, 150, 420]))
        step = draw(st.integers(0, 9))
        widths = [(k * step) % 24 + 1 for k in range(n - 1)] + [draw(st.integers(25, 24 * n))]
        total = sum(widths) * UNIT
        ops = [["get", k] for k in range(n - 5)]
        for _ in range(draw(st.integers(3, 12))):
            ops.append(["cap", draw(st.integers(0, total))] if draw(st.integers(0, 5)) == 0 else
                       ["get", draw(st.one_of(st.integers(0, n - 1), st.integers(n - 5, n - 1), st.just(n - 1)))])
        return dict(widths=widths, cap=total - draw(st.integers(0, total // 3)), ops=ops, direct=True)
    n = draw(st.integers(10, 60))
    widths = [draw(st.integers(1, 24)) for _ in range(n)]
    if draw(st.booleans()):
        widths = [widths[0]] * n
    total = sum(widths) * UNIT
    cap = st.one_of(st.integers(0, total), st.integers(total // 2, total), st.just(2 ** 41))
    fill = draw(st.booleans())
    ops = [["get", k] for k in range(n)] if fill else []
    if draw(st.integers(0, 7)) == 0:
        # A long history, mostly of hits.
        cap = st.integers(total * 2 // 3, total)
        few = st.lists(st.integers(0, n - 1), min_size=3, max_size=8)
        for _ in range(draw(st.integers(3, 8))):
            ops += [["get", k] for k in draw(few) * draw(st.integers(1, 8))]
        return dict(widths=widths, cap=draw(cap), ops=ops[:300], direct=True)
    for _ in range(draw(st.integers(5, 60))):
        ops.append(["cap", draw(cap)] if draw(st.integers(0, 11)) == 0 else ["get", draw(st.integers(0, n - 1))])
    return dict(widths=widths, cap=draw(cap), ops=ops, direct=draw(st.integers(0, 2)) > 0)


def check_many(case, srv):
    """Look-ups (which insert when missing), against an exact least-recently-used model."""
    cap, widths = case["cap"], case["widths"]
    direct = case["direct"] and srv.x("cnew", cap) is not None
    if not direct:
        srv.cache(0, cap)
        srv.graph(0)
        srv.node(0, READ)
        for k in sorted({v for kind, v in case["ops"] if kind == "get"}):
            srv.write_image(srv.path_for("%d.exr" % k), model.content(3, k, 1, widths[k], 4, F32), F32)
    held = []
    evicted = hits = 0

    def size(k):
        return widths[k] * UNIT

    for kind, v in case["ops"]:
        if kind == "cap":
            cap = v
            srv.x("ccap", v) if direct else srv.set_capacity(0, v)
        elif direct:
            r = srv.x("cget", v)
            must(int(r[3]) == (widths[v] if v in held else -1), "result of a look-up", "image %d: %s, held by recent use: %r" % (v, r[3], held))
            if int(r[3]) < 0:
                srv.x("cput", v, widths[v], 0)
        else:
            srv.sets(0, "file_path", srv.path_for("%d.exr" % v))
            must(srv.execute(0, [1]) == EXEC_OK, "execute failed")
            must(srv.out(0).raw == model.content(3, v, 1, widths[v], 4, F32).tobytes(), "wrong image", "image %d" % v)
        if kind == "get":
            hits += v in held
            if v in held:
                held.remove(v)
                held.append(v)
            elif cap > 0 and size(v) <= cap:
                while sum(map(size, held)) + size(v) > cap:
                    held.pop(0)
                    evicted += 1
                held.append(v)
        else:
            while sum(map(size, held)) > cap:
                held.pop(0)
                evicted += 1
        count, used, c = (int(q) for q in (srv.x("ccap", cap) if direct else srv.cinfo(0))[:3])
        must(c == cap, "capacity", "%d, expected %d" % (c, cap))
        must(used <= cap, "over capacity", "%d of %d" % (used, cap))
        must((count, used) == (len(held), sum(map(size, held))), "entries held",
             "%d entries of %d bytes, expected %d of %d after %r" % (count, used, len(held), sum(map(size, held)), (kind, v)))
    return evicted > 0 and hits > 0, ["direct" if direct else "graph", "evictions" if evicted else "no evictions"]


@st.composite
def used_case(draw):
    c = draw(gen.dag(min_nodes=2, max_nodes=6, types=[READ, READ, GRADE, CROP, MERGE, MERGE, VIEWER, RESAMPLE, NULL]))
    n = len(c["nodes"])
    c["execs"] = [draw(st.integers(0, n - 1)) if draw(st.integers(0, 2)) else n - 1
                  for _ in range(draw(st.integers(1, 5)))]
    c["caps"] = [draw(st.one_of(st.integers(0, 3000), st.sampled_from([0, 1, 2 ** 30, 2 ** 40]))) for _ in c["execs"]]
    return c


def check_used(case, srv):
    gen.put_files(case, srv)
    gen.put_graph(case, srv)
    srv.cache(0, None)
    must(srv.cinfo(0)[:3] == (0, 0, 0), "a new cache", repr(srv.cinfo(0)))
    filled = False
    # An image without pixels takes no bytes, so that it need not be thrown out.
    empty = any(n["t"] == CROP and model.no_window(n["a"]) for n in case["nodes"])
    for t, cap in zip(case["execs"], case["caps"]):
        srv.set_capacity(0, cap)
        count, used, c, _ = srv.cinfo(0)
        must(used <= cap and c == cap, "over capacity", "%d used of %d after setting the capacity" % (used, cap))
        must(count > 0 if used else count == 0 or empty, "accounting", "%d entries, %d bytes" % (count, used))
        must(srv.execute(t, [1]) == EXEC_OK, "execute failed")
        count, used, c, _ = srv.cinfo(0)
        must(used <= cap, "over capacity", "%d used of %d after execute" % (used, cap))
        must(count > 0 if used else count == 0 or empty, "accounting", "%d entries, %d bytes" % (count, used))
        if cap >= 2 ** 30:
            must(srv.execute(t, [1]) == EXEC_OK, "execute failed")
            again = srv.cinfo(0)[:2]
            must(again == (count, used), "a repeated execution grew the cache", "%r then %r" % ((count, used), again))
        filled = filled or count > 0
    srv.set_capacity(0, 0)
    must(srv.cinfo(0)[1] == 0 and (empty or srv.cinfo(0)[0] == 0), "not emptied", "%r" % (srv.cinfo(0)[:2],))
    return filled, ["filled"] * filled


# ------------------------------------------------------------------ C05
# Names which are easily confused: case, folder, extension of the number.
DECOYS = [("s.1.exr", 101), ("S.1.exr", 102), ("d/s.1.exr", 103), ("s.11.exr", 104), ("s.1.EXR", 105), ("s.1 .exr", 106)]
SEQ = [dict(fmt="exr", dtype=0, w=3, h=2, c=4, x=0, y=0, display=[0, 0, 3, 2], kind=1, seed=101),
       dict(fmt="exr", dtype=1, w=3, h=2, c=4, x=0, y=0, display=[0, 0, 3, 2], kind=1, seed=102),
       dict(fmt="exr", dtype=0, w=2, h=2, c=3, x=1, y=0, display=[0, 0, 3, 2], kind=1, seed=103)]
NFILE = 3
CONSUMERS = [VIEWER, VIEWER, CROP, MERGE, MERGE, RESAMPLE]
SIGNED = ("translate", "offset", "lift", "rotate", "curvature", "distortion", "black_point", "lens_center", "pivot", "mix", "scale")
MIDDLE = [GRADE, GRADE, XFORM, LENS, CROP, VIEWER, RESAMPLE, MERGE, NULL]


@st.composite
def read_attrs(draw):
    return dict(file_path=draw(st.sampled_from(["@0", "@1", "@2", "w/s.#.exr", "w/missing.exr"] * 3 + ["w/" + n for n, _ in DECOYS])))


def attrs_for(t):
    if t == READ:
        return read_attrs()
    if t == VIEWER:
        return gen.viewer_attrs(baked=True)
    return gen.ATTRS[t]


@st.composite
def edit_case(draw):
    """A short chain ending in a node that caches, and a list of edits (mostly of one attribute) between executions."""
    files = [draw(gen.image_file(kinds=(1, 3))) for _ in range(NFILE)]
    nodes = [dict(t=READ, a=draw(read_attrs()), ins=[])]
    if draw(st.booleans()):
        nodes.append(dict(t=READ, a=draw(read_attrs()), ins=[]))
    last = 0
    for t in [draw(st.sampled_from(MIDDLE)) for _ in range(draw(st.integers(1, 3)))] + [draw(st.sampled_from(CONSUMERS))]:
        ins = [[last, 0]]
        if t == MERGE:
            other = draw(st.integers(0, len(nodes) - 1))
            ins = draw(st.sampled_from([[[last, 0], [other, 1]], [[other, 0], [last, 1]]]))
        nodes.append(dict(t=t, a=dict(draw(attrs_for(t))), ins=ins))
        last = len(nodes) - 1
    steps = []
    cur = [model.attrs_of(nd["t"], nd["a"]) for nd in nodes]
    for _ in range(draw(st.integers(2, 7))):
        k = draw(st.sampled_from(["edit"] * 8 + ["tweak"] * 3 + ["frame", "cap", "cache", "rewire", "enable"]))
        n = draw(st.integers(0, len(nodes) - 1))
        t = nodes[n]["t"]
        if k == "tweak":
            names = [q for q in sorted(nodes[n]["a"]) if isinstance(cur[n].get(q), float) and cur[n][q] != 0.0]
            if not names:
                continue
            q = draw(st.sampled_from(names))
            v = np.float32(cur[n][q])
            how = draw(st.sampled_from(["negate", "double", "next"]))
            if how == "negate" and q.startswith(SIGNED):
                v = -v
            elif how == "double":
                v = v / np.float32(2) if abs(v) > 1 else v * np.float32(2)
            else:
                v = np.nextafter(v, np.float32(1e9))
            cur[n][q] = float(v)
            steps.append(["set", n, {q: float(v)}])
        elif k == "edit":
            a = dict(draw(attrs_for(t)))
            if a:
                names = sorted(a)
                key = draw(st.sampled_from(names))
                a = {key: a[key]} if not key.startswith("window_") else {q: a[q] for q in names if q.startswith("window_")}
            cur[n].update(a)
            steps.append(["set", n, a])
        elif k == "frame":
            steps.append(["frame", draw(st.integers(1, 3))])
        elif k == "cap":
            steps.append(["cap", draw(st.sampled_from([0, 64, 200, 500, 1 << 30]))])
        elif k == "cache":
            steps.append(["set", n, {"use_cache": draw(st.integers(0, 1))}])
        elif k == "enable":
            steps.append(["set", n, {"enable": draw(st.integers(0, 1))}])
        else:
            if t == READ or n == 0:
                continue
            steps.append(["con", draw(st.integers(0, n - 1)), n, 0])
        if draw(st.integers(0, 5)) == 0:
            steps.append(["back"])       # return to the original configuration
    return dict(files=files, nodes=nodes, steps=steps, cap=draw(st.sampled_from([1 << 30] * 5 + [300, 0])))


@st.composite
def attr_case(draw):
    """One node under test between a reader and a baking viewer; its attributes are changed one at a time, all alike often."""
    t = draw(st.sampled_from([GRADE, GRADE, GRADE, XFORM, XFORM, LENS, LENS, CROP, MERGE, VIEWER, RESAMPLE, READ]))
    files = [draw(gen.image_file(kinds=(1, 3), fmts=("exr",))) for _ in range(NFILE)]
    nodes = [dict(t=READ, a=dict(file_path="@0"), ins=[]), dict(t=READ, a=dict(file_path="@1"), ins=[])]
    names = sorted(q for q in model.DEFAULTS[t] if q not in ("use_cache", "disk_cache_file_path"))
    base = {q: draw(gen.attr_value(q)) for q in names if q != "enable" and draw(st.booleans())}
    for q in ("window_min_x", "window_min_y", "window_max_x", "window_max_y"):
        if t == CROP:
            base[q] = draw(gen.attr_value(q))
    if t == READ:
        base["file_path"] = "@2"
    nodes.append(dict(t=t, a=base, ins=[] if t == READ else [[0, 0], [1, 1]] if t == MERGE else [[0, 0]]))
    nodes.append(dict(t=VIEWER, a=dict(bake_option=draw(st.sampled_from([3, 3, 2, 1])),
                                       bake_pixel_data_type=0), ins=[[2, 0]]))
    steps = []
    for _ in range(draw(st.integers(2, 8))):
        q = draw(st.sampled_from(names))
        if q.startswith(SIGNED) and base.get(q) and draw(st.integers(0, 3)) == 0:
            steps.append(["set", 2, {q: -base[q]}])
            continue
        odd = q.startswith(gen.FLAGS) and q != "direction" and draw(st.integers(0, 3)) == 0       # (neither off nor on)
        steps.append(["set", 2, {q: draw(st.sampled_from([2, -1, 3, 256]) if odd else gen.attr_value(q))}])
        if draw(st.integers(0, 2)) == 0:
            steps.append(["back"])
    return dict(files=files, nodes=nodes, steps=steps, cap=1 << 30)


def put_seq(case, srv):
    for i, f in enumerate(SEQ):
        gen.write_file(srv, srv.path_for("s.%d.exr" % (i + 1)), f)
    text = repr(case["nodes"]) + repr(case["steps"])
    for name, seed in DECOYS[1:]:
        if repr("w/" + name) in text:
            os.makedirs(os.path.dirname(srv.abs_path(srv.path_for(name))), exist_ok=True)
            gen.write_file(srv, srv.path_for(name), dict(SEQ[0], seed=seed))


def build(case, srv, g, cached):
    gen.put_graph(case, srv, g)
    if not cached:
        for i, nd in enumerate(case["nodes"]):
            srv.seti(100 * g + i, "use_cache", 0, g=g)


def run_steps(case, srv, each):
    """Applies the steps to graphs 0 (cached) and 1 (never caching)."""
    gen.put_files(case, srv)
    put_seq(case, srv)
    srv.cache(0, case["cap"])
    srv.cache(1, 0)
    build(case, srv, 0, True)
    build(case, srv, 1, False)
    frame = 1
    each(frame)
    for step in case["steps"]:
        k = step[0]
        if k == "set":
            a = gen.real_attrs(case, step[2], srv)
            srv.set(step[1], a)
            srv.set(100 + step[1], {q: v for q, v in a.items() if q != "use_cache"}, g=1)
        elif k == "con":
            srv.connect(step[1], step[2], step[3])
            srv.connect(100 + step[1], 100 + step[2], step[3], g=1)
        elif k == "frame":
            frame = step[1]
        elif k == "cap":
            srv.set_capacity(0, step[1])
        else:
            build(case, srv, 0, True)      # (a new graph, the old cache)
            build(case, srv, 1, False)
        each(frame)


def check_transparent(case, srv):
    t = len(case["nodes"]) - 1
    seen = []
    stat = dict(n=0)

    def each(frame):
        ra = srv.execute(t, [frame], c=0, g=0)
        rb = srv.execute(100 + t, [frame], c=1, g=1)
        must(ra == rb, "execute status differs", "%d with the cache, %d without" % (ra, rb))
        if ra == EXEC_OK:
            a, b = srv.out(0, g=0), srv.out(1, g=1)
            same_stream(a, b, "with / without the cache, step %d" % stat["n"], hashes=False)
            for i in range(len(case["nodes"])):
                sa, sb = srv.status(i), srv.status(100 + i, g=1)
                must(sa == sb, "node status differs", "node %d: %d with the cache, %d without" % (i, sa, sb))
            seen.append(a.raw)
            pts = [0.0, 0.0, 0.0, 1.0, 0.5, 0.0]
            if a.deformers:
                must((srv.deform(0, pts, (0, 0, 4, 3), (0, 0, 4, 3)) == srv.deform(1, pts, (0, 0, 4, 3), (0, 0, 4, 3))).all(),
                     "deformers differ")
            if a.color_ops:
                px = np.array([0.1, 0.5, 0.9, 0.4], dtype=np.float32)
                must(srv.color_ops(0, 4, px).tobytes() == srv.color_ops(1, 4, px).tobytes(), "colour operations differ")
        stat["n"] += 1

    run_steps(case, srv, each)
    count, used, cap, _ = srv.cinfo(0)
    must(srv.cinfo(1)[:2] == (0, 0), "a cache without capacity was used")
    return len(set(seen)) > 1 and case["cap"] > 0, ["results=%d" % min(5, len(set(seen))), "ample" if case["cap"] > 1000 else "tight"]


# ------------------------------------------------------------------ C26
PROBE = np.array([0.1, 0.5, 0.9, 0.4, 1.5, 0.75, 0.01, 1.0, 0.3, 0.03, 0.6, 0.8, 2.5, 3.0, 0.25, 0.2, 0.0, 1.0, 0.0, 0.0],
                 dtype=np.float32)


def check_identity(case, srv):
    """Within one process: equal stream hashes mean equal streams; equal configurations give equal hashes."""
    t = len(case["nodes"]) - 1
    by_hash, by_ops = {}, {}
    stat = dict(n=0, pairs=0)

    def describe(s, o):
        d = [o.raw, repr(sorted(o.meta().items()))]
        if o.deformers:
            d.append(srv.deform(s, [0.0, 0.0, 0.0, 1.0, 0.5, 0.0, -0.5, 2.0, 0.0], (0, 0, 4, 3), (0, 0, 4, 3)).tobytes())
        if o.color_ops:
            d.append(srv.color_ops(s, 4, PROBE).tobytes())
        return d

    def each(frame):
        for n in range(len(case["nodes"])):
            ra = srv.execute(n, [frame], c=0, g=0)
            rb = srv.execute(100 + n, [frame], c=1, g=1)
            if ra != EXEC_OK or rb != EXEC_OK:
                continue
            a, b = srv.out(0, g=0), srv.out(1, g=1)
            must((a.hash, a.color_ops_hash) == (b.hash, b.color_ops_hash), "hash not reproducible",
                 "node %d: %d/%d and %d/%d for the same configuration" % (n, a.hash, a.color_ops_hash, b.hash, b.color_ops_hash))
            d = describe(0, a)
            old = by_hash.setdefault(a.hash, (d, n, stat["n"]))
            if old[0] != d:
                must(False, "one hash for two streams", "hash %d: node %d at step %d and node %d at step %d" % (
                    a.hash, old[1], old[2], n, stat["n"]))
            stat["pairs"] += 1
            if a.color_ops:
                e = d[-1] + srv.color_ops(0, 3, PROBE[:18]).tobytes()
                old = by_ops.setdefault(a.color_ops_hash, (e, n, stat["n"]))
                if old[0] != e:
                    must(False, "one hash for two lists of colour operations", "hash %d: node %d at step %d and node %d at step %d" % (
                        a.color_ops_hash, old[1], old[2], n, stat["n"]))
        stat["n"] += 1

    run_steps(case, srv, each)
    return len(by_hash) >= 3, ["hashes=%d" % min(9, len(by_hash))]


PROPERTIES = [
    Prop("C04", [
        Sub("lru", lru_case(), check_lru, 7000,
            rule="sequences of image reads (sizes with unique subset sums, so the used size names the held images), "
                 "capacity changes, two graphs sharing one cache; non-trivial: something was evicted"),
        Sub("store", store_case(), check_store, 8000,
            rule="look-ups, insertions (also of a held key), evictions and capacity changes of the cache itself (access to internals) "
                 "against a list in order of use; non-trivial: something was evicted"),
        Sub("many", many_case(), check_many, 3000,
            rule="look-ups of up to 60 images with capacity changes (through readers and, where accessible, on the cache itself) against an exact "
                 "least-recently-used model; non-trivial: hits and evictions"),
        Sub("used", used_case(), check_used, 5000,
            rule="random graphs of all caching nodes executed under changing capacities; non-trivial: the cache held "
                 "something")]),
    Prop("C05", [Sub("edits", edit_case(), check_transparent, 8000,
                     rule="chains ending in a caching node; edits of single attributes, paths, frames, connections, "
                          "capacities between executions; a graph with the shared cache against one that never "
                          "caches, compared bit for bit; non-trivial: the executions gave at least two different pictures"),
                 Sub("attrs", attr_case(), check_transparent, 4000,
                     rule="one node of any type between readers and a baking viewer, its attributes changed one at a time; as above")]),
    Prop("C26", [Sub("hash", edit_case(), check_identity, 4000,
                     rule="the same edit histories, every node executed after every edit; equal hash requires equal "
                          "stream, equal configuration requires equal hash; non-trivial: at least three hashes seen"),
                 Sub("attrs", attr_case(), check_identity, 4000,
                     rule="one node of any type, its attributes changed one at a time; as above, and equal hashes of the "
                          "colour operations require equal colour operations")]),
]
