"""C01: executing a node = evaluating its upstream graph."""
from hypothesis import strategies as st

import model
from core import Prop, Sub
from gen import MAX_INPUTS, compare_stream, dag, model_eval, must, put_files, put_graph
from ocg import EXEC_ERROR, EXEC_OK, GRADE, MERGE, NULL, VIEWER


@st.composite
def dag_case(draw):
    c = draw(dag(min_nodes=2, max_nodes=9, extra=True))
    n = len(c["nodes"])
    c["target"] = n - 1 if draw(st.integers(0, 3)) else draw(st.integers(0, n - 1))
    return c


def upstream(case, t, used=False):
    """Nodes upstream of t; with used, only through the inputs which the nodes use."""
    seen, todo = set(), [t]
    while todo:
        i = todo.pop()
        if i not in seen:
            seen.add(i)
            nd = case["nodes"][i]
            ins = sorted(nd["ins"], key=lambda e: e[1])
            todo += [s for s, _ in (ins[:MAX_INPUTS.get(nd["t"], 1)] if used else ins)]
    return seen


def check_dag(case, srv):
    t = case["target"]
    put_files(case, srv)
    put_graph(case, srv)
    srv.cache()
    rc = srv.execute(t, [1])
    must(rc == EXEC_OK, "execute failed", "status %d for an acyclic graph" % rc)
    o = srv.out()
    try:
        want = model_eval(case, t)
    except model.Unsure:
        want = None
    up = upstream(case, t)
    needed = upstream(case, t, True)
    for i in range(len(case["nodes"])):
        st_ = srv.status(i)
        if i not in up:
            must(st_ == 255, "status of a node that was not evaluated", "node %d: %d" % (i, st_))
        elif i not in needed:
            must(st_ in (1, 2), "node status", "node %d: %d" % (i, st_))
        elif want is not None:
            must(st_ == want[i][0], "node status", "node %d (type %d): %d, expected %d" % (
                i, case["nodes"][i]["t"], st_, want[i][0]))
    labels = ["nodes=%d" % len(up)]
    uses = [s for i in up for s, _ in case["nodes"][i]["ins"]]
    shared = len(uses) != len(set(uses))
    if shared:
        labels.append("shared upstream node")
    if needed != up:
        labels.append("unused inputs")
    if want is None:
        return False, labels + ["no prediction"]
    frac = compare_stream(o, want[t][1], "node %d" % t)
    labels.append("compared>=90%" if frac >= 0.9 else "compared<90%")
    return len(up) >= 2 and frac > 0.5, labels


@st.composite
def cycle_case(draw):
    """Any directed graph of nodes that pass a picture on; often with cycles."""
    n = draw(st.integers(1, 6))
    types = [draw(st.sampled_from([NULL, GRADE, MERGE, VIEWER])) for _ in range(n)]
    edges = {}
    for i in range(n):
        for num in range(2 if types[i] == MERGE else 1):
            if draw(st.integers(0, 4)):
                edges["%d:%d" % (i, num)] = draw(st.integers(0, n - 1))
    steps = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=4))
    return dict(types=types, edges=edges, targets=steps, order=draw(st.permutations(list(range(n)))))


def check_cycle(case, srv):
    n = len(case["types"])
    srv.graph()
    srv.cache()
    for i in case["order"]:
        srv.node(i, case["types"][i])
        if case["types"][i] == GRADE:
            srv.set(i, dict(multiply_r=0.5, offset_g=0.25 * (i + 1)))
    ins = {i: [] for i in range(n)}
    for k, src in case["edges"].items():
        d, num = map(int, k.split(":"))
        srv.connect(src, d, num)
        ins[d].append((num, src))

    def cyclic(t):
        state = {}

        def visit(i):
            if state.get(i) == 1:
                return True
            if state.get(i) == 2:
                return False
            state[i] = 1
            r = any([visit(s) for _, s in ins[i]])
            state[i] = 2
            return r
        return visit(t)

    def ev(i):
        a = dict(multiply_r=0.5, offset_g=0.25 * (i + 1)) if case["types"][i] == GRADE else {}
        return model.node_output(case["types"][i], a, [ev(s)[1] for _, s in sorted(ins[i])])

    any_cycle = any_ok = False
    for t in case["targets"]:
        bad = cyclic(t)
        rc = srv.execute(t, [1])
        _state, last = srv.gstate()
        must(rc == last, "execute status", "execute gave %d, the graph says %d" % (rc, last))
        if bad:
            any_cycle = True
            must(rc == EXEC_ERROR, "cycle not rejected", "execute gave %d for a node with a cycle upstream" % rc)
        else:
            any_ok = True
            must(rc == EXEC_OK, "acyclic graph rejected", "execute gave %d" % rc)
            compare_stream(srv.out(), ev(t)[1], "node %d" % t)
    return any_cycle, ["cycle" if any_cycle else "no cycle", "mixed" if any_cycle and any_ok else "pure"]


@st.composite
def deep_case(draw):
    """Long chains and ladders: each merge uses the two nodes before it (exponential without sharing)."""
    return dict(n=draw(st.one_of(st.integers(2, 40), st.integers(2, 40), st.integers(41, 300), st.just(300))), kind=draw(st.sampled_from(["chain", "ladder", "same", "fan"])),
                v=draw(st.sampled_from([0.5, 0.25, 0.0])))


def check_deep(case, srv):
    n, v = case["n"], case["v"]
    srv.graph()
    srv.cache()
    want = []
    if case["kind"] == "chain":
        srv.node(0, GRADE)
        srv.set(0, dict(multiply_r=0.5))
        want.append(model.node_output(GRADE, dict(multiply_r=0.5), [])[1])
        for i in range(1, n):
            srv.node(i, GRADE)
            a = dict(offset_g=v) if i % 3 else dict(multiply_b=0.5)
            srv.set(i, a)
            srv.connect(i - 1, i)
            want.append(model.node_output(GRADE, a, [want[-1]])[1])
    else:
        srv.node(0, NULL)
        srv.node(1, GRADE)
        srv.set(1, dict(multiply_r=0.5))
        srv.connect(0, 1)
        want.append(model.node_output(NULL, {}, [])[1])
        want.append(model.node_output(GRADE, dict(multiply_r=0.5), [want[0]])[1])
        for i in range(2, n):
            a = dict(mode=0, mix=v)
            srv.node(i, MERGE)
            srv.set(i, a)
            p, q = (i - 1, {"ladder": i - 2, "same": i - 1, "fan": 0}[case["kind"]])
            srv.connect(p, i, 0)
            srv.connect(q, i, 1)
            want.append(model.node_output(MERGE, a, [want[p], want[q]])[1])
    t = len(want) - 1
    must(srv.execute(t, [1]) == EXEC_OK, "execute failed")
    o = srv.out()
    compare_stream(o, want[t], "node %d" % t)
    if want[t].ops:
        px = model.MS().px[0]
        got = srv.color_ops(0, 3, px.ravel()).reshape(-1, 3)
        p, e = px[None], px[None] * 0
        for a in want[t].ops:
            p, e = model.apply_op(p, e, a)
        must((abs(got - p[0]) <= e[0] + 1e-4).all(), "color operations in the wrong order", "%r %r" % (got[0], p[0, 0]))
    return True, [case["kind"]]


PROPERTIES = [Prop("C01", [
    Sub("dag", dag_case(), check_dag, 6000,
        rule="random acyclic graphs (1-8 nodes of all types, generated EXR/PNG files, shuffled creation order, ids and unused extra inputs, "
             "input numbers), one node executed and compared with the reference model; non-trivial: at least two "
             "nodes evaluated and more than half of the pixel values predicted"),
    Sub("cycle", cycle_case(), check_cycle, 6000,
        rule="random directed graphs, several nodes executed; non-trivial: some executed node has a cycle upstream"),
    Sub("deep", deep_case(), check_deep, 400,
        rule="chains and ladders of up to 300 nodes; all count"),
])]
