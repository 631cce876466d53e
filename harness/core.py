"""Generated-input search: runs sub-checks over worker processes, shrinks, confirms, reports.

A sub-check is a Hypothesis strategy of JSON-able cases plus a function check(case, srv) which drives
the real code through a server process and compares with an oracle. It returns
(nontrivial: bool, labels: iterable of str) or raises Violation.
"""
import collections
import hashlib
import json
import multiprocessing as mp
import os
import queue as queue_mod
import signal
import sys
import time
import traceback

import hypothesis
from hypothesis import HealthCheck, Phase, given, settings
from hypothesis.errors import Flaky

from ocg import Crash, HarnessError, Server

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHRINK_S = 40.0        # stop shrinking after this long (the best case so far is kept)
BUDGET_S = {"quick": 420.0, "thorough": 3 * 3600.0}   # stop generating; never a verdict


class Violation(Exception):
    def __init__(self, sig, detail=""):
        Exception.__init__(self, "%s: %s" % (sig, detail))
        self.sig = sig
        self.detail = str(detail)


class Sub:
    def __init__(self, name, strategy, check, quick, thorough=None, rule="", workers=8):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough = quick, thorough or quick * 20
        self.rule, self.workers = rule, workers


class Prop:
    def __init__(self, pid, subs, assumptions=()):
        self.pid, self.subs, self.assumptions = pid, subs, list(assumptions)


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def seed_for(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], "little")


def run_case(sub, case, srv):
    """One evaluation against the real code. A crash of the code under test is a violation."""
    srv.new_case()
    try:
        return sub.check(case, srv)
    except Crash as e:
        sig = "no-termination" if "signal 27" in str(e) else "crash"
        raise Violation(sig, str(e))


class _Stop(BaseException):
    pass


def worker(prop, tier, seed, widx, nworkers, server, q, deadline):
    try:
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        srv = Server(server)
        try:
            for sub in prop.subs:
                if widx >= sub.workers:
                    continue
                _run_sub(prop, sub, tier, seed, widx, min(nworkers, sub.workers), srv, q, deadline)
        finally:
            srv.close()
        q.put(("done", widx))
    except _Stop:
        q.put(("done", widx))
    except HarnessError as e:
        q.put(("error", widx, "harness: %s" % e))
    except BaseException:
        q.put(("error", widx, traceback.format_exc()[-4000:]))


def _run_sub(prop, sub, tier, seed, widx, nw, srv, q, deadline):
    total = sub.quick if tier == "quick" else sub.thorough
    n = total // nw + (1 if widx < total % nw else 0)
    if n == 0:
        return
    st = dict(evals=0, distinct=set(), labels=collections.Counter(), samples=[], first=None, best=None,
              harness=None, t_fail=None)
    history = collections.deque(maxlen=60)

    def body(case):
        if st["harness"]:
            raise HarnessError(st["harness"])
        now = time.time()
        if st["t_fail"] is None and now > deadline:
            return
        key = canon(case)
        if st["t_fail"] is not None and now - st["t_fail"] > SHRINK_S:
            if key == st["best"][0]:
                raise Violation(st["best"][1], st["best"][2])
            return
        st["evals"] += 1
        try:
            nontrivial, labels = run_case(sub, case, srv)
        except Violation as v:
            if st["t_fail"] is None:
                st["t_fail"] = now
                st["first"] = (key, v.sig, v.detail, list(history))
                if v.sig == "no-termination":
                    st["t_fail"] = now - SHRINK_S  # each attempt is expensive: no shrinking
            if st["best"] is None or (len(key), key) <= (len(st["best"][0]), st["best"][0]):
                st["best"] = (key, v.sig, v.detail)
            history.append(key)
            raise
        except HarnessError as e:
            st["harness"] = str(e)
            raise
        history.append(key)
        for l in labels:
            st["labels"][l] += 1
        if nontrivial:
            h = hashlib.sha256(key.encode()).digest()[:8]
            if h not in st["distinct"]:
                st["distinct"].add(h)
                if len(st["samples"]) < 2 and len(key) < 4000:
                    st["samples"].append(case)

    test = given(sub.strategy)(body)
    test = settings(max_examples=n, database=None, deadline=None, phases=[Phase.generate, Phase.shrink],
                    suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                    print_blob=False, derandomize=False)(test)
    test = hypothesis.seed(seed_for(prop.pid, sub.name, seed, widx))(test)
    failed = False
    try:
        test()
    except HarnessError:
        raise
    except (Violation, Flaky):
        failed = True
    except BaseException as e:
        # Hypothesis groups, or a bug of the harness.
        if st["first"] is None or st["harness"]:
            raise
        failed = True
        del e
    q.put(("stats", sub.name, st["evals"], st["distinct"], st["labels"], st["samples"]))
    if failed and st["first"]:
        q.put(("fail", sub.name, st["best"], st["first"]))
        raise _Stop()


def confirm(sub, server, cases, tries=3):
    """Re-run on fresh servers; True if the last case violates the property."""
    for _ in range(tries):
        srv = Server(server)
        try:
            for c in cases[:-1]:
                try:
                    run_case(sub, c, srv)
                except Violation:
                    pass
            try:
                run_case(sub, cases[-1], srv)
            except Violation as v:
                return v
        finally:
            srv.close()
    return None


def write_replay(prop, sub, tier, seed, cases, v):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = dict(property=prop.pid, sub=sub.name, tier=tier, seed=seed, signature=v.sig, detail=v.detail, cases=cases)
    name = "%s-%s-%s.json" % (prop.pid, sub.name, hashlib.sha256(canon(cases).encode()).hexdigest()[:10])
    path = os.path.join(d, name)
    with open(path, "w") as fh:
        json.dump(body, fh, indent=1, sort_keys=True)
    return path


def load_known():
    """known_findings.txt: 'KNOWN-FINDING: property=<id> sub=<sub> case=<sha> <what fails>' lines."""
    res = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("KNOWN-FINDING:"):
                f = dict(w.split("=", 1) for w in line.split() if "=" in w)
                res[(f.get("property"), f.get("sub"), f.get("case"))] = line.strip()
    return res


def run_prop(prop, tier, seed, server, nworkers=8):
    t0 = time.time()
    byname = {s.name: s for s in prop.subs}
    q = mp.get_context("fork").Queue()
    deadline = t0 + BUDGET_S[tier]
    procs = [mp.get_context("fork").Process(target=worker, args=(prop, tier, seed, i, nworkers, server, q, deadline))
             for i in range(nworkers)]
    for p in procs:
        p.start()
    stats = {s.name: dict(evaluations=0, distinct=set(), labels=collections.Counter(), samples=[]) for s in prop.subs}
    pending = set(range(nworkers))
    fails, error = [], None
    t_fail = None
    while pending and error is None:
        try:
            m = q.get(timeout=1.0)
        except queue_mod.Empty:
            m = None
            for i in list(pending):
                if not procs[i].is_alive():
                    # give the queue a last chance
                    try:
                        m = q.get(timeout=2.0)
                    except queue_mod.Empty:
                        error = "worker %d died (exit %s)" % (i, procs[i].exitcode)
                    break
        if m:
            if m[0] == "done":
                pending.discard(m[1])
            elif m[0] == "stats":
                s = stats[m[1]]
                s["evaluations"] += m[2]
                s["distinct"] |= m[3]
                s["labels"].update(m[4])
                s["samples"] += m[5]
            elif m[0] == "fail":
                fails.append(m[1:])
                t_fail = t_fail or time.time()
            elif m[0] == "error":
                error = m[2]
        if t_fail and time.time() - t_fail > 20.0:
            break
    for p in procs:
        if p.is_alive():
            p.terminate()
    for p in procs:
        p.join(5)
        if p.is_alive():
            p.kill()

    known = load_known()
    verdict, replay, violation = 0, None, None
    unconfirmed = []
    fails.sort(key=lambda f: len(f[1][0]))
    for name, best, first in fails:
        sub = byname[name]
        attempts = [[json.loads(best[0])], [json.loads(first[0])],
                    [json.loads(c) for c in first[3]] + [json.loads(first[0])]]
        for cases in attempts:
            v = confirm(sub, server, cases, tries=2 if best[1] == "no-termination" else 5)
            if v:
                break
        if not v:
            unconfirmed.append((name, best))
            continue
        # shorten a needed prefix
        while len(cases) > 2:
            shorter = cases[(len(cases)) // 2:]
            v2 = confirm(sub, server, shorter, tries=2)
            if not v2:
                break
            cases, v = shorter, v2
        key = (prop.pid, name, hashlib.sha256(canon(cases[-1]).encode()).hexdigest()[:16])
        if key in known:
            print(known[key])
            continue
        replay = write_replay(prop, sub, tier, seed, cases, v)
        violation = v
        verdict = 1
        break
    if verdict == 0 and (error or unconfirmed):
        verdict = 2

    ev = dict(property=prop.pid, tier=tier, seed=seed, level="exploration", wall_s=round(time.time() - t0, 2),
              violations=1 if verdict == 1 else 0, assumptions=prop.assumptions)
    ev["coverage"] = dict(
        evaluations=sum(s["evaluations"] for s in stats.values()),
        distinct_nontrivial=sum(len(s["distinct"]) for s in stats.values()),
        rule=" || ".join("%s: %s" % (s.name, s.rule) for s in prop.subs),
        samples=[dict(sub=n, case=c) for n, s in stats.items() for c in s["samples"][:2]],
        per_sub={n: dict(evaluations=s["evaluations"], distinct_nontrivial=len(s["distinct"]),
                         labels=dict(s["labels"].most_common(40))) for n, s in stats.items()},
    )
    if violation:
        ev["coverage"]["violation"] = dict(signature=violation.sig, detail=violation.detail[:1000], replay=replay)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop.pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)

    if verdict == 1:
        print("signature: %s" % violation.sig)
        print("detail: %s" % violation.detail[:1500])
        print("VIOLATION property=%s replay=%s" % (prop.pid, replay))
    elif verdict == 2:
        sys.stderr.write("ERROR %s: %s\n" % (prop.pid, error or "failure did not reproduce: %r" % (unconfirmed,)))
    else:
        print("OK property=%s evaluations=%d nontrivial=%d wall=%.1fs" % (
            prop.pid, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"]))
    sys.stdout.flush()
    return verdict


def replay_file(props, path, server):
    body = json.load(open(path))
    prop = props[body["property"]]
    sub = {s.name: s for s in prop.subs}[body["sub"]]
    v = confirm(sub, server, body["cases"], tries=5)
    if v:
        print("signature: %s\ndetail: %s" % (v.sig, v.detail[:3000]))
        print("VIOLATION property=%s replay=%s" % (prop.pid, path))
        return 1
    print("OK: the case does not violate %s" % prop.pid)
    return 0
