"""Limits of memory and time end queries, nothing else."""
import json
import re
import threading
from collections import Counter

from . import env, sparql as S
from .build import BuildError
from .gen import BigKB, KB, QueryGen, TooBig
from .harness import run_harness
from .q_conc import Client
from .session import Session, compare, rng_for, run_jobs
from .text import Texts

LIMIT = re.compile(r"Tried to allocate|[Tt]imeout|"
                   r"exceeded remaining time|Waited for a result")

FEATS = [["multi", "filter", "regex", "distinct"],
         ["multi", "optional", "union", "minus", "values", "bind", "sub",
          "filter"],
         ["multi", "order", "distinct", "filter"],
         ["path", "pathheavy", "multi"],
         ["haspred", "multi", "trick", "minus"],
         ["text", "multi", "filter", "optional"]]


def stable(q):
    """Whether two executions must give the same rows."""
    return q.limit is None and q.offset is None and \
        all(a.fn == "COUNT" for a in q.aggs())


def component(out, bins, seed, feats, n, runs):
    rng = rng_for(*seed)
    big = "path" not in feats and "text" not in feats and rng.random() < 0.3
    if big:
        kb = BigKB(rng)
    else:
        kb = KB(rng, n_links=8, langs="haspred" not in feats,
                n_ent=rng.choice([None, None, 60]))
    ss = Session(out, bins, "seed " + " ".join(map(str, seed)))
    try:
        if "text" in feats:
            kb.texts = tx = Texts(rng, kb)
            ss.index(kb.turtle(), words=tx.words, docs=tx.docs)
        else:
            ss.index(kb.turtle())
        gen = QueryGen(rng, kb, feats)
        qs = []
        for _ in range(n):
            try:
                q, names, rows = gen.query()
            except TooBig:
                continue
            if stable(q):
                qs.append((q.render(kb.graph), rows))
        base = "%s/%s" % (ss.d, ss.name)
        load = "load\t%s\t%d" % (base, "text" in feats)
        res, fault, log = run_harness(
            bins["h_engine"], [load] + ["dump\t" + t for t, _ in qs], ss.d)
        if fault:
            ss.fail("component:" + fault, log[-900:])
            return
        res = res[1:]
        jobs, plan = [load], []
        for (text, rows), r in zip(qs, res):
            if r[0] != "ok":
                if "cyclic queries" in r[0] or "Could not find" in r[0]:
                    continue
                ss.fail("refused", r[0], text)
                continue
            if len(json.loads(r[2])) != len(rows):
                ss.fail("wrong-answer", "%d rows instead of %d" % (
                    len(json.loads(r[2])), len(rows)), text)
                continue
            size = 64 + 8 * 4 * (len(rows) + 8)
            for _ in range(runs):
                clear = rng.random() < 0.6
                lim, us = -1, -1
                if rng.random() < 0.7:
                    lim = rng.choice([0, 8, 64, rng.randint(1, 400),
                                      rng.randint(1, size),
                                      rng.randint(1, 4 * size),
                                      rng.randint(1, 30 * size)])
                else:
                    us = int(10 ** rng.uniform(0, 4.8))
                jobs.append("run\t%d\t%d\t%d\t%s" % (lim, us, clear, text))
                plan.append((text, r[1], lim, us, clear))
                if rng.random() < 0.4:
                    jobs.append("run\t-1\t-1\t0\t" + text)
                    plan.append((text, r[1], -1, -1, False))
            jobs.append("run\t-1\t-1\t1\t" + text)
            plan.append((text, r[1], -1, -1, True))
        res, fault, log = run_harness(bins["h_engine"], jobs, ss.d,
                                      timeout=240)
        res = res[1:]
        if fault:
            i = len(res)
            ss.fail("component:" + fault, "limits %s: %s" % (
                plan[i][2:] if i < len(plan) else "", log[-900:]),
                plan[i][0] if i < len(plan) else None)
        for (text, want, lim, us, clear), r in zip(plan, res):
            out.case("%s|%s|%d" % (ss.label, text, lim), lim >= 0 or us >= 0)
            what = "limit of %d bytes, %d microseconds" % (lim, us)
            if r[0] == "ok":
                out.events["completed"] += 1
                if r[1] != want:
                    ss.fail("wrong-after-limit", "%s: rows/hash %s instead of"
                            " %s" % (what, r[1], want), text)
                if clear and lim >= 0 and int(r[3]) < int(r[4]):
                    ss.fail("memory-not-counted", "the result has %s bytes, "
                            "counted were %s" % (r[4], r[3]), text)
            elif lim < 0 and us < 0:
                ss.fail("refused-without-limit", r[0], text)
            elif not LIMIT.search(r[0]):
                ss.fail("other-error", "%s: %s" % (what, r[0]), text)
            else:
                out.events["stopped_by_memory" if "allocate" in r[0]
                           else "stopped_by_time"] += 1
            if clear and r[2] != "0":
                ss.fail("memory-not-given-back", "%s: %s bytes" % (
                    what, r[2]), text)
    finally:
        ss.close()


def prompt(out, bins, seed):
    """A time limit ends a long operation long before it is complete."""
    n = 900
    data = ["<e%04d> <h> <hub> .\n<e%04d> <r> <e%04d> .\n" % (
        i, i, (i + 1) % n) for i in range(n)]
    data += ["<hub> <g> <e%04d> .\n" % i for i in range(n)]
    ss = Session(out, bins, "seed " + " ".join(map(str, seed)))
    queries = ["SELECT ?a ?b WHERE { ?a <h> ?c . ?b <h> ?c }",
               "SELECT ?a ?b WHERE { ?a <h> ?c . ?c <g> ?b }",
               "SELECT ?a ?b WHERE { ?a <r>+ ?b }",
               "SELECT ?a ?b WHERE { ?a <h> <hub> . ?a <r>+ ?b }",
               "SELECT ?a ?b WHERE { ?b <h> <hub> . ?a <r>+ ?b }",
               "SELECT ?a WHERE { { ?a <h> ?c . ?b <h> ?c } UNION "
               "{ ?a <h> ?c . ?c <g> ?b } }"]
    try:
        ss.index("".join(data))
        load = "load\t%s/%s\t0" % (ss.d, ss.name)
        late = {q: [] for q in queries}
        for _ in range(4):
            todo = sorted(late)
            res, fault, log = run_harness(
                bins["h_engine"], [load] + ["prompt\t0.05\t" + q
                                            for q in todo], ss.d)
            if fault:
                ss.fail("component:" + fault, log[-900:])
                return
            for q, (full, ok, part, done) in zip(todo, res[1:]):
                full, part = int(full), int(part)
                out.case("prompt " + q)
                out.sample({"query": q, "full_us": full, "limited_us": part})
                if ok != "1":
                    ss.fail("refused-without-limit", "failed", q)
                if ok != "1" or part < 0.5 * full:
                    out.events["prompt"] += 1
                    del late[q]
                else:
                    late[q].append((full, part))
            if not late:
                break
        for q, t in late.items():
            ss.fail("late-timeout", "with a limit of 5%% of its time the "
                    "query took (full, limited) %s microseconds" % t, q)
    finally:
        ss.close()


def server(out, bins, seed, n):
    """Time limits on the server, some of them while another client waits
    for the same result."""
    rng = rng_for(*seed)
    kb = BigKB(rng) if rng.random() < 0.5 else KB(rng, n_ent=60, n_links=8)
    ss = Session(out, bins, "seed " + " ".join(map(str, seed)))
    try:
        ss.index(kb.turtle())
        gen = QueryGen(rng, kb, rng.choice(FEATS[:3]))
        pool = []
        for _ in range(12):
            try:
                q, names, rows = gen.query()
            except TooBig:
                continue
            pool.append((q, names, rows, q.render(kb.graph)))
        if not pool:
            return
        ss.serve(threads=4)
        for _ in range(n):
            item = rng.choice(pool)
            barrier = threading.Barrier(3)
            clients = []
            for c in range(3):
                todo = []
                for k in range(6):
                    p = {"limit": "%.7f" % 10 ** rng.uniform(-6, -1.5)} \
                        if c or rng.random() < 0.3 else {}
                    todo.append((item, p))
                clients.append(Client(ss.srv, todo, barrier))
            for c in clients:
                c.start()
            for c in clients:
                c.join(600)
            for c in clients:
                for t0, t1, it, p, r in c.done:
                    ss.history.append((it[3], p))
                    verdict(ss, it, p, r)
            if not ss.srv.alive():
                ss.recover()
            ss.srv.get({"cmd": "clearcache"})
            # Nothing may be left over from the failed attempts.
            ss.check(*item[:3], kb.graph, text=item[3])
    finally:
        ss.close()


def verdict(ss, item, p, r):
    q, names, rows, text = item
    out = ss.out
    if isinstance(r, env.Hang):
        out.inconclusive.append("slow answer: " + text)
    elif isinstance(r, env.ServerFault):
        ss.fail("limited:" + r.key, "%s %s" % (
            r, getattr(r, "logtext", "")[-700:]), text)
    elif isinstance(r, Exception):
        raise r
    else:
        out.case("%s|%s|%s" % (ss.label, text, p))
        if r.get("status") == "OK":
            m = compare(q, names, rows, r)
            out.events["completed"] += 1
            if m:
                ss.fail("wrong-answer", m, text)
        elif "cyclic queries" in str(r.get("exception")):
            pass
        elif not LIMIT.search(str(r.get("exception"))) or (
                not p and "Waited for" not in r["exception"]):
            ss.fail("other-error", "%s: %s" % (p, r.get("exception")), text)
        else:
            out.events["stopped_on_server"] += 1


def q15(ctx):
    flav = ctx.build("asan", ["IndexBuilderMain", "ServerMain"], ["h_engine"])
    bins = dict(flav.programs())
    try:
        bins["h_engine"] = flav.harness_bin("h_engine")
    except BuildError as e:
        ctx.rep.note("harness left out: %s" % str(e)[:600])
    jobs = []
    for m, feats in enumerate(FEATS):
        for i in range(ctx.n(5) if "h_engine" in bins else 0):
            jobs.append(((ctx.seed, "Q15", m, i), feats, 14, 14))
    if "h_engine" in bins:
        jobs.insert(0, ((ctx.seed, "Q15", "prompt", 0), "prompt", 0, 0))
    for i in range(ctx.n(12)):
        jobs.append(((ctx.seed, "Q15", "server", i), None, 12, 0))

    def work(out, job):
        seed, feats, n, runs = job
        if feats == "prompt":
            prompt(out, bins, seed)
        elif feats is None:
            server(out, bins, seed, n)
        else:
            component(out, bins, seed, feats, n, runs)

    run_jobs(ctx.rep, work, jobs)
    return {"min_evals": 1000, "min_distinct": 500}
