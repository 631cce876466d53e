"""C02, C03, C06, C25: editing a graph (structure, lifecycle, attributes, dirty state)."""
import os
import struct

from hypothesis import strategies as st

import gen
import model
from core import Prop, Sub
from gen import Cyclic, compare_stream, must, same_stream, struct_eval, used_nodes
from model import DEFAULTS
from ocg import (CLEAN, CROP, DIRTY, EXEC_ERROR, EXEC_OK, GRADE, LENS, MERGE, NULL, READ, RESAMPLE, ST_NONEXISTENT,
                 ST_ERROR, ST_UNINIT, UNINIT, VIEWER, WRITE, XFORM)

FILES = [dict(fmt="exr", dtype=0, w=3, h=2, c=4, x=1, y=0, display=[0, 0, 4, 3], kind=1, seed=5),
         dict(fmt="exr", dtype=1, w=2, h=3, c=3, x=0, y=0, display=[0, 0, 2, 3], kind=1, seed=9)]
TYPES = [NULL, READ, GRADE, GRADE, MERGE, MERGE, VIEWER, XFORM, CROP]
NSLOT = 6


# ------------------------------------------------------------------ C02
@st.composite
def history(draw, nslot=NSLOT, types=TYPES):
    ops = []
    n0 = draw(st.integers(2, nslot))
    for i in range(n0):
        t = draw(st.sampled_from(types))
        ops.append(["new", i, t, draw(gen.node_attrs(t, len(FILES)))])
    num = st.sampled_from([0, 0, 0, 0, 1, 1, 1, 2, 3, 7, 8, 10, 16, 32, 64, 128, 129, 254, 255])
    slot = st.integers(0, nslot - 1)
    for _ in range(draw(st.integers(3, 22))):
        k = draw(st.sampled_from(["con"] * 9 + ["dis"] * 3 + ["del", "new", "new", "exec", "exec", "set", "set"]))
        if k == "con":
            a, b = draw(slot), draw(slot)
            if draw(st.integers(0, 11)):       # mostly acyclic
                a, b = (min(a, b), max(a, b)) if a != b else (max(0, a - 1), max(1, a))
            ops.append(["con", a, b, draw(num)])
        elif k == "dis":
            ops.append(["dis", draw(slot), draw(num)])
        elif k in ("new", "set"):
            t = draw(st.sampled_from(types))
            ops.append([k, draw(slot), t, draw(gen.node_attrs(t, len(FILES)))])
        else:
            ops.append([k, draw(slot)])
    return dict(ops=ops, files=FILES)


def real(case, a, srv):
    return gen.real_attrs(case, a, srv)


def apply_ops(case, srv, nodes, read, on_exec):
    """Run the operations on graph 0 and on the model."""
    for op in case["ops"]:
        k, n = op[0], op[1]
        if k == "new":
            if n in nodes:
                continue
            srv.node(n, op[2], id=10 + n)
            srv.set(n, real(case, op[3], srv))
            nodes[n] = dict(t=op[2], a=dict(op[3]), ins={})
        elif k == "set":
            if n in nodes:
                a = op[3] if nodes[n]["t"] == op[2] else {}
                srv.set(n, real(case, a, srv))
                nodes[n]["a"].update(a)
        elif k == "del":
            if n in nodes:
                must(srv.delete(n), "delete failed")
                del nodes[n]
                for nd in nodes.values():
                    nd["ins"] = {i: s for i, s in nd["ins"].items() if s != n}
        elif k == "con":
            _, a, b, num = op
            if a in nodes and b in nodes:
                srv.connect(a, b, num)
                nodes[b]["ins"][num] = a
        elif k == "dis":
            if n in nodes:
                srv.disconnect(n, op[2])
                nodes[n]["ins"].pop(op[2], None)
        elif k == "exec":
            if n in nodes:
                on_exec(n)


def check_history(case, srv):
    gen.put_files(case, srv)
    srv.graph()
    srv.cache()
    nodes = {}
    read = gen.reader(case)
    stat = dict(execs=0, cyc=0, multi=0)

    def on_exec(n, g=0, off=0):
        try:
            want = struct_eval(nodes, n, read)
        except Cyclic:
            want = None
        except model.Unsure:
            want = False
        rc = srv.execute(n + off, [1], g=g)
        if want is None:
            stat["cyc"] += 1
            must(rc == EXEC_ERROR, "cycle not rejected", "executing node %d gave %d" % (n, rc))
            return None
        must(rc == EXEC_OK, "execute failed", "executing node %d gave %d" % (n, rc))
        o = srv.out(g, g=g)
        if want is not False:
            for k in used_nodes(nodes, n):
                status = want[k][0]
                got = srv.status(k + off, g=g)
                must(got == status, "node status", "node %d (type %d): %d, expected %d" % (k, nodes[k]["t"], got, status))
            compare_stream(o, want[n][1], "node %d" % n)
            stat["execs"] += 1
            stat["multi"] += len(want) > 1
        return o

    for n in range(NSLOT):
        srv.call("handle", n, 0, 10 + n)
    apply_ops(case, srv, nodes, read, on_exec)
    # the final structure, built directly
    srv.graph(1)
    for n in sorted(nodes, reverse=True):
        srv.node(100 + n, nodes[n]["t"], g=1, id=10 + n)
        srv.set(100 + n, real(case, nodes[n]["a"], srv), g=1)
    for n in sorted(nodes):
        for num in sorted(nodes[n]["ins"]):
            srv.connect(100 + nodes[n]["ins"][num], 100 + n, num, g=1)
    for n in sorted(nodes):
        a = on_exec(n)
        b = on_exec(n, 1, 100)
        if a is not None:
            same_stream(a, b, "node %d after the history / in a fresh graph" % n)
    edits = sum(1 for op in case["ops"] if op[0] in ("dis", "del", "con"))
    return stat["multi"] > 0 and edits >= 2, ["cyclic"] * (stat["cyc"] > 0) + [
        "deleted"] * any(op[0] == "del" for op in case["ops"]) + ["multi-node evaluation"] * (stat["multi"] > 0)


# ------------------------------------------------------------------ C03
@st.composite
def lifecycle(draw):
    """Operations on up to eight node handles over two graphs; handles may be unknown, deleted or of the other graph."""
    slot = st.integers(0, draw(st.sampled_from([3, 5, 7])))
    types = st.sampled_from([NULL, GRADE, GRADE, MERGE, VIEWER, WRITE, WRITE, READ])
    num = st.sampled_from([0, 0, 0, 1, 1, 2, 8, 255])
    ops = [["new", 0, i, draw(types)] for i in range(draw(st.integers(1, 4)))]
    made = [(o[1], o[2], o[3]) for o in ops]      # nodes and connections which may still be there
    cons = []

    def known(g):
        """Mostly a node which was made in the graph."""
        here = [n for q, n, _ in made if q == g]
        return draw(st.sampled_from(here)) if here and draw(st.integers(0, 3)) else draw(slot)
    for _ in range(draw(st.integers(4, 24))):
        k = draw(st.sampled_from(["new"] * 5 + ["del"] * 3 + ["con"] * 3 + ["dis", "dis", "set", "exec", "exec", "exec", "mode", "mode", "delx", "rand"]))
        g = draw(st.sampled_from([0, 0, 0, 1]))
        if k == "new":
            ops.append([k, g, draw(slot), draw(types)])
            made.append((g, ops[-1][2], ops[-1][3]))
        elif k == "con":
            a, b = known(g), known(g)
            if draw(st.integers(0, 5)):
                a, b = (min(a, b), max(a, b)) if a != b else (max(0, a - 1), max(1, a))
            ops.append([k, g, a, b, draw(num)])
            cons.append(ops[-1])
        elif k == "dis":
            if cons and draw(st.integers(0, 2)):
                c = draw(st.sampled_from(cons))
                ops.append([k, c[1], c[3], c[4]])
            else:
                ops.append([k, g, draw(slot), draw(num)])
        elif k == "delx":
            ops.append([k, g, draw(st.integers(0, 40))])
        elif k == "rand":
            ops.append([k, g, draw(st.sampled_from([NULL, GRADE]))])
        elif k == "mode":
            w = [n for q, n, t in made if q == g and t == WRITE]
            ops.append([k, g, draw(st.sampled_from(w)) if w else draw(slot), draw(st.sampled_from(["off", "fail", "fail", "write"]))])
        else:
            ops.append([k, g, known(g) if k != "del" else draw(slot)])
    return dict(ops=ops, files=FILES)


def check_lifecycle(case, srv):
    gen.put_files(case, srv)
    read = gen.reader(case)
    srv.graph(0)
    srv.graph(1)
    srv.cache()
    ids = [7, 8, 9, 2 ** 63 + 1, 0, 12345678901234567, 1, 2 ** 64 - 1]
    for n, i in enumerate(ids):
        srv.call("handle", n, 0, i)
    G = [{}, {}]     # slot -> dict(t, a, ins, status)
    extra = [dict(), dict()]
    seen = set()
    nrand = 20
    feats = set()

    def verify():
        for g in (0, 1):
            for n in range(8):
                ex = n in G[g]
                must(srv.exists(n, g) == ex, "existence", "node %d in graph %d: expected %s" % (n, g, ex))
                want = G[g][n]["status"] if ex else ST_NONEXISTENT
                got = srv.status(n, g)
                must(got == want, "status", "node %d in graph %d: %d, expected %d" % (n, g, got, want))
            for k in extra[g]:
                must(srv.exists(k, g), "existence", "random node %d" % k)

    def run(n, g):
        want = None
        if n in G[g]:
            try:
                want = struct_eval(G[g], n, read)
            except Cyclic:
                pass
        bad = [i for i in want or [] if G[g][i].get("mode") == "fail" and G[g][i]["ins"]]
        rc = srv.execute(n, [1], g=g)
        must(rc == (EXEC_OK if want and not bad else EXEC_ERROR), "execute status", "node %d graph %d: %d" % (n, g, rc))
        must(srv.gstate(g)[1] == rc, "last execute status")
        if bad:
            failed(n, g, want, bad)
            return
        if want:
            for i, (s, _) in want.items():
                G[g][i]["status"] = s
            compare_stream(srv.out(0, g=g), want[n][1], "node %d" % n)
            feats.add("executed")

    def above(g, n):
        """What node n depends on, n not included."""
        found, todo = set(), list(G[g][n]["ins"].values())
        while todo:
            i = todo.pop()
            if i not in found:
                found.add(i)
                todo += G[g][i]["ins"].values()
        return found

    def failed(n, g, want, bad):
        """Some writer failed: what depends on it is not evaluated, what it depends on is. Others may be."""
        feats.add("failed")
        got = {i: srv.status(i, g) for i in want}
        first = [w for w in bad if not above(g, w) & set(bad)]
        must(any(got[w] == ST_ERROR and all(got[i] == want[i][0] for i in above(g, w)) for w in first), "failure is not reported",
             "nodes %r, expected an error at one of %r" % (got, first))
        for i in want:
            if above(g, i) & set(bad):
                ok = {G[g][i]["status"]}
            else:
                ok = {G[g][i]["status"], ST_ERROR if i in bad else want[i][0]}
            must(got[i] in ok, "status", "node %d: %d, expected %r" % (i, got[i], ok))
            G[g][i]["status"] = got[i]

    def run_all(why):
        feats.add(why)
        for g in (0, 1):
            for n in sorted(G[g]):
                run(n, g)

    for op in case["ops"]:
        k, g = op[0], op[1]
        if k == "new":
            n, t = op[2], op[3]
            if n in G[g]:
                continue
            rid, rt = srv.node(n, t, g=g, id=ids[n])
            must((rid, rt) == (ids[n], t), "created node", "asked for (%d, %d), got (%d, %d)" % (ids[n], t, rid, rt))
            G[g][n] = dict(t=t, a={}, ins={}, status=ST_UNINIT)
            if t == WRITE:
                srv.seti(n, "execute", 0, g=g)
            elif t == READ:
                G[g][n]["a"]["file_path"] = "@%d" % (n % len(FILES))
                srv.set(n, real(case, G[g][n]["a"], srv), g=g)
            if ("gone", g, n) in seen:
                feats.add("re-created")
        elif k == "rand":
            nrand += 1
            rid, rt = srv.node_random(nrand, op[2], g=g)
            must(rid not in ids and rid not in [v for e in extra for v in e.values()], "random id reused")
            must(rt == op[2], "created node type")
            extra[g][nrand] = rid
        elif k == "del":
            n = op[2]
            ex = n in G[g]
            must(srv.delete(n, g) == ex, "delete result", "node %d graph %d: expected %s" % (n, g, ex))
            if ex:
                del G[g][n]
                seen.add(("gone", g, n))
                feats.add("deleted")
                for nd in G[g].values():
                    nd["ins"] = {i: s for i, s in nd["ins"].items() if s != n}
            else:
                run_all("unknown node used")
        elif k == "delx":
            must(srv.call("delid", g, op[2] + 1000)[0] == "0", "an unknown id was deleted")
        elif k == "con":
            _, _, a, b, num = op
            srv.connect(a, b, num, g=g)
            if a in G[g] and b in G[g]:
                G[g][b]["ins"][num] = a
            else:
                run_all("unknown node used")
        elif k == "dis":
            srv.disconnect(op[2], op[3], g=g)
            if op[2] in G[g]:
                G[g][op[2]]["ins"].pop(op[3], None)
            else:
                run_all("unknown node used")
        elif k == "set":
            n = op[2]
            srv.setf(n, "multiply_r", 0.5, g=g)
            if n in G[g] and G[g][n]["t"] == GRADE:
                G[g][n]["a"]["multiply_r"] = 0.5
            want = G[g][n]["a"].get("multiply_r", 1.0) if n in G[g] and G[g][n]["t"] == GRADE else 0.0
            must(srv.getf(n, "multiply_r", g=g) == want, "attribute of a node", "node %d graph %d" % (n, g))
            must(srv.attr_exists(n, "multiply_r", g=g) == (n in G[g] and G[g][n]["t"] == GRADE), "attribute existence")
        elif k == "mode":
            n = op[2]
            if n in G[g] and G[g][n]["t"] == WRITE:
                srv.seti(n, "execute", 0 if op[3] == "off" else 1, g=g)
                srv.sets(n, "file_path", srv.path_for("nowhere/x.exr" if op[3] == "fail" else "%d_%d.exr" % (g, n)), g=g)
                G[g][n]["mode"] = op[3]
        elif k == "exec":
            run(op[2], g)
        verify()
    run_all("end")
    verify()
    return len(feats & {"deleted", "re-created", "unknown node used"}) > 0 and "executed" in feats, sorted(feats - {"end"})


# ------------------------------------------------------------------ C06
ALL_NAMES = sorted({n for d in DEFAULTS.values() for n in d})
BOGUS = ["", "nope", "Enable", "enable ", "multiply", "multiply_x", "MIX"]


def kind_of(v):
    return "s" if isinstance(v, str) else "f" if isinstance(v, float) else "i"


@st.composite
def attr_case(draw):
    types = draw(st.lists(st.integers(0, 9), min_size=1, max_size=4))
    ops = []
    for _ in range(draw(st.integers(3, 30))):
        n = draw(st.integers(0, len(types) - 1))
        own = sorted(DEFAULTS[types[n]])
        name = draw(st.sampled_from(own)) if own and draw(st.integers(0, 5)) else draw(st.sampled_from(ALL_NAMES + BOGUS))
        dflt = DEFAULTS[types[n]].get(name)
        k = kind_of(dflt) if dflt is not None and draw(st.integers(0, 5)) else draw(st.sampled_from("ifs"))
        v = draw({"i": st.one_of(st.integers(-3, 9), st.integers(-2 ** 31, 2 ** 31 - 1)),
                  "f": st.one_of(st.floats(width=32, allow_nan=False, allow_infinity=False), st.floats(-4, 4, width=32),
                                 st.sampled_from([0.0, -0.0, 1e-45, -1e-40, 3.4e38, 65504.0, 1e9, "inf", "-inf", "nan"])),
                  "s": st.one_of(st.text(max_size=12), st.sampled_from(["", " ", " a ", "/", "Linear", "sRGB", "LINEAR",
                                                                         "a/b.####.exr", "a//b", "./a", "ü/漢", "x" * 3000,
                                                                         "C:\\a\\b.exr", "e\u0301", "a\nb", "\U0001F600"]))}[k])
        if k == "s":
            v = v.replace("\x00", "0").encode("utf8", "replace").decode("utf8")
        ops.append([n, name, k, v])
    return dict(types=types, ops=ops)


def check_attr(case, srv):
    srv.graph()
    vals = []
    for n, t in enumerate(case["types"]):
        srv.node(n, t)
        vals.append(dict(DEFAULTS[t]))

    def verify(n, name):
        v = vals[n].get(name)
        t = case["types"][n]
        must(srv.attr_exists(n, name) == (v is not None), "attribute existence", "type %d %r" % (t, name))
        wi, wf, ws = (v if kind_of(v) == "i" and v is not None else 0, v if kind_of(v) == "f" else 0.0,
                      v if kind_of(v) == "s" else "")
        gi, gf, gs = srv.geti(n, name), srv.getf(n, name), srv.gets(n, name)
        must(gi == wi, "integer attribute", "type %d %r: %r, expected %r" % (t, name, gi, wi))
        must(struct.pack("<f", gf) == struct.pack("<f", float(wf)), "float attribute", "type %d %r: %r, expected %r" % (t, name, gf, wf))
        must(gs == ws, "string attribute", "type %d %r: %r, expected %r" % (t, name, gs, ws))

    for n, t in enumerate(case["types"]):
        for name in DEFAULTS[t]:
            verify(n, name)
    hits = 0
    for n, name, k, v in case["ops"]:
        if k == "f":
            v = float(v)
        {"i": srv.seti, "f": srv.setf, "s": srv.sets}[k](n, name, v)
        if name in vals[n] and kind_of(vals[n][name]) == k:
            vals[n][name] = v
            hits += 1
        for m in range(len(vals)):
            verify(m, name)
    for n in range(len(vals)):
        for name in vals[n]:
            verify(n, name)
    return hits >= 2, ["type=%d" % t for t in set(case["types"])]


# ------------------------------------------------------------------ C25
@st.composite
def dirty_case(draw):
    slot = st.integers(0, draw(st.sampled_from([2, 4, 7])))
    num = st.sampled_from([0, 0, 0, 1, 1, 2, 127, 128, 255])
    kinds = st.sampled_from([NULL, GRADE, MERGE, VIEWER, GRADE, WRITE])
    ops = [["new", i, draw(kinds)] for i in range(draw(st.integers(0, 3)))]
    made = list(range(len(ops)))
    cons = []

    def known():
        """Mostly a node which was made."""
        return draw(st.sampled_from(made)) if made and draw(st.integers(0, 3)) else draw(slot)
    if draw(st.integers(0, 5)) == 0:       # a writer which can write some frames only
        ops = [["new", 0, GRADE], ["new", 1, WRITE], ["con", 0, 1, 0], ["set", 1, "file_path", draw(st.integers(1, 2))]]
        made, cons = [0, 1], [ops[2]]
    for _ in range(draw(st.integers(3, 24))):
        k = draw(st.sampled_from(["new"] * 3 + ["con"] * 3 + ["dis"] * 2 + ["set"] * 3 + ["exec"] * 6 + ["del"] + ["get"]))
        if k == "new":
            ops.append([k, draw(slot), draw(kinds)])
            made.append(ops[-1][1])
        elif k == "con":
            a, b = known(), known()
            if draw(st.integers(0, 5)):
                a, b = (min(a, b), max(a, b)) if a != b else (max(0, a - 1), max(1, a))
            ops.append([k, a, b, draw(num)])
            cons.append(ops[-1])
        elif k == "dis":
            c = draw(st.sampled_from(cons)) if cons and draw(st.integers(0, 2)) else None
            ops.append([k, c[2], c[3]] if c else [k, draw(slot), draw(num)])
        elif k == "set":
            ops.append([k, known(), draw(st.sampled_from(["enable", "mix", "bake_color_space", "file_path", "execute"])), draw(st.integers(0, 2))])
        elif k == "exec":
            ops.append([k, known(), draw(st.sampled_from([1, 1, 2, 3, 4])), draw(st.sampled_from([1, 1, 2, 3])), draw(st.sampled_from([0, 0, 0.25, -0.4]))])
        else:
            ops.append([k, draw(slot)])
    return dict(ops=ops)


DIRS = {1, 2, 4}        # frames which can be written


def fails(nodes, n, frames):
    """Whether some writer upstream of n cannot write a frame (acyclic graphs)."""
    seen, todo = set(), [n]
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        todo += nodes[i]["ins"].values()
    for i in seen:
        nd = nodes[i]
        if nd["t"] == WRITE and nd["ins"] and nd["a"].get("execute", 1):
            if nd["path"] == 0 or (nd["path"] == 1 and set(frames) - DIRS):
                return True
    return False


def check_dirty(case, srv):
    srv.graph()
    srv.cache()
    for n in range(8):
        srv.call("handle", n, 0, 20 + n)
    paths = [srv.path_for("nowhere/x.exr"), srv.path_for("d#/x.exr"), srv.path_for("x.exr")]
    for f in DIRS:
        os.makedirs(srv.abs_path(srv.path_for("d%d" % f)), exist_ok=True)
    nodes = {}
    state, last = UNINIT, 255
    changes = cleaned = 0
    for op in case["ops"]:
        k, n = op[0], op[1]
        if k == "new":
            if n in nodes:
                continue
            srv.node(n, op[2], id=20 + n)
            nodes[n] = dict(t=op[2], a={}, ins={})
            state = DIRTY
            if op[2] == WRITE:
                nodes[n]["path"] = 0
                srv.sets(n, "file_path", paths[0])      # (fails)
        elif k == "con":
            srv.connect(n, op[2], op[3])
            if n in nodes and op[2] in nodes:
                nodes[op[2]]["ins"][op[3]] = n
                state = DIRTY
        elif k == "dis":
            srv.disconnect(n, op[2])
            if n in nodes and nodes[n]["ins"].pop(op[2], None) is not None:
                state = DIRTY
        elif k == "del":
            srv.delete(n)
            if n in nodes:
                del nodes[n]
                for nd in nodes.values():
                    nd["ins"] = {i: s for i, s in nd["ins"].items() if s != n}
                state = DIRTY
        elif k == "set":
            name, v = op[2:4]
            if name == "enable":
                srv.seti(n, name, 1)
            elif name == "execute":
                srv.seti(n, name, min(v, 1))
            elif name == "mix":
                srv.setf(n, name, v / 2)
            elif name == "file_path":
                srv.sets(n, name, paths[v])
            else:
                srv.sets(n, name, ["sRGB", "", "Linear"][v])
            if n in nodes:
                if name in DEFAULTS[nodes[n]["t"]]:
                    state = DIRTY
                    if name == "file_path":
                        nodes[n]["path"] = v
                    elif name == "execute":
                        nodes[n]["a"][name] = min(v, 1)
                elif state == CLEAN:
                    state = None     # setting an attribute the node does not have: either answer
        elif k == "get":
            srv.geti(n, "enable")
            srv.exists(n)
            srv.status(n)
        elif k == "exec":
            try:
                ok = n in nodes and struct_eval(nodes, n, None) is not None
            except Cyclic:
                ok = False
            frames = list(range(op[3], op[3] + op[2]))
            ok = ok and not fails(nodes, n, frames)
            rc = srv.execute(n, [f + op[4] for f in frames])       # (the same frames, when they are rounded)
            must(rc == (EXEC_OK if ok else EXEC_ERROR), "execute status", "node %d: %d" % (n, rc))
            last = rc
            if ok:
                changes += state == DIRTY
                cleaned += 1
                state = CLEAN
        got = srv.gstate()
        if state is None:
            state = got[0]
        must(got[0] == state, "graph state", "%d after %r, expected %d" % (got[0], op, state))
        must(got[1] == last, "execute status of the graph", "%d after %r, expected %d" % (got[1], op, last))
    return cleaned >= 1 and changes >= 1, ["cleaned=%d" % min(cleaned, 4)]


@st.composite
def failing_case(draw):
    """A graph of up to 16 nodes with writers which work, fail or are off, and executions of its nodes."""
    n = draw(st.integers(2, 16))
    nodes = []
    for i in range(n):
        t = draw(st.sampled_from([NULL, GRADE, VIEWER, MERGE, WRITE]))
        k = 0 if i == 0 else 2 if t == MERGE else draw(st.sampled_from([1] * 9 + [0, 2]))
        ins = {num: i - 1 if draw(st.integers(0, 2)) else draw(st.integers(0, i - 1)) for num in range(k)}
        nodes.append([t, {str(q): v for q, v in ins.items()}, draw(st.sampled_from(["fail", "write", "off", "off"])) if t == WRITE else ""])
    steps = []
    writers = [i for i, nd in enumerate(nodes) if nd[0] == WRITE]
    for _ in range(draw(st.integers(1, 6))):
        if writers and draw(st.integers(0, 2)) == 0:
            steps.append(["mode", draw(st.sampled_from(writers)), draw(st.sampled_from(["fail", "write", "off"]))])
        steps.append(["exec", n - 1 if draw(st.booleans()) else draw(st.integers(0, n - 1))])
    return dict(nodes=nodes, steps=steps, order=draw(st.permutations(list(range(n)))))


def check_failing(case, srv):
    srv.graph()
    srv.cache()
    modes = {}

    def mode(i, m):
        srv.seti(i, "execute", int(m != "off"))
        srv.sets(i, "file_path", srv.path_for("nowhere/x.exr" if m == "fail" else "o%d.exr" % i))
        modes[i] = m
    for i in case["order"]:
        srv.node(i, case["nodes"][i][0], id=50 + i)
    nodes = {}
    for i, (t, ins, m) in enumerate(case["nodes"]):
        nodes[i] = dict(t=t, a={}, ins={int(q): v for q, v in ins.items()})
        if t == WRITE:
            mode(i, m)
        for num, src in nodes[i]["ins"].items():
            srv.connect(src, i, num)
    state, failures, files = DIRTY, 0, set()
    for k, i, *rest in case["steps"]:
        if k == "mode":
            mode(i, rest[0])
            state = DIRTY
        else:
            want = struct_eval(nodes, i, None)
            bad = [j for j in want if modes.get(j) == "fail" and nodes[j]["ins"]]
            rc = srv.execute(i, [1])
            must(rc == (EXEC_ERROR if bad else EXEC_OK), "execute status", "node %d: %d, failing writers %r" % (i, rc, bad))
            if bad:
                failures += 1
            else:
                state = CLEAN
                compare_stream(srv.out(), want[i][1], "node %d" % i)
                files |= {"o%d.exr" % j for j in want if modes.get(j) == "write" and nodes[j]["ins"]}
                must(files <= set(os.listdir(srv.scratch)), "files written", "%r, expected %r" % (os.listdir(srv.scratch), files))
            must(srv.gstate()[1] == rc, "execute status of the graph")
        must(srv.gstate()[0] == state, "graph state", "%d, expected %d" % (srv.gstate()[0], state))
    return failures > 0, ["failures=%d" % min(failures, 3)]


PROPERTIES = [
    Prop("C02", [Sub("history", history(), check_history, 8000,
                     rule="histories of 3-22 create/delete/connect/disconnect/set/execute operations over 6 nodes; every "
                          "execution is compared with the reference model of the current structure, and at the end every "
                          "node is compared with a fresh graph of the final structure; non-trivial: some evaluation "
                          "has several nodes and at least two connection edits were made")]),
    Prop("C03", [Sub("lifecycle", lifecycle(), check_lifecycle, 7000,
                     rule="histories over node handles that may be unknown, deleted, re-created or belong to another "
                          "graph, all handles of both graphs queried after each step; non-trivial: something was "
                          "executed and a deleted or unknown node was involved")]),
    Prop("C06", [Sub("store", attr_case(), check_attr, 6000,
                     rule="sequences of typed set operations (existing, missing and wrongly typed attributes) on nodes of all "
                          "types against a map model; non-trivial: at least two sets took effect")]),
    Prop("C25", [Sub("dirty", dirty_case(), check_dirty, 8000,
                     rule="histories of edits and executions with the graph state and last execute status modelled; "
                          "non-trivial: a dirty graph was made clean at least once"),
                 Sub("failing", failing_case(), check_failing, 2500,
                     rule="graphs of up to 16 nodes with writers which fail, work or are off, several nodes executed; non-trivial: some "
                          "execution has a failing writer upstream")]),
]
