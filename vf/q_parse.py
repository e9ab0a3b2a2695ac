"""Turtle documents are read as what they say."""
import os
from collections import Counter

from . import env
from .build import BuildError
from .harness import run_harness
from .rdf import nfc
from .session import Session, rng_for, run_jobs
from .turtle import Doc, match


def read_triples(path):
    with open(path, "rb") as f:
        return [tuple(x.decode("utf-8", "replace") for x in
                      t.split(b"\x1f")[:3]) for t in f.read().split(b"\x1e")
                if t]


def mutate(rng, b):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 2, 5])):
        i = rng.randrange(len(b) + 1)
        r = rng.random()
        if r < 0.25:
            del b[i:i + rng.choice([1, 1, 3, 20])]
        elif r < 0.5:
            b[i:i] = bytes(rng.choice(b'"\'\\<>[](){}.;,@^#:_ \n\0\xff\xc3u')
                           for _ in range(rng.choice([1, 1, 2])))
        elif r < 0.7 and i < len(b):
            b[i] = rng.randrange(256)
        elif r < 0.85:
            j = rng.randrange(len(b) + 1)
            b[i:i] = b[j:j + rng.randint(1, 30)]
        else:
            del b[i:]
    return bytes(b)


def component(out, binary, seed):
    rng = rng_for(*seed)
    d = env.scratch()
    label = "seed " + " ".join(map(str, seed))
    try:
        jobs = []
        for i in range(14):
            relaxed = rng.random() < 0.4
            doc = Doc(rng, rng.choice([1, 2, 4, 8, 15]), relaxed)
            raw = doc.text.encode()
            bad = i >= 9
            if bad:
                raw = mutate(rng, raw)
            path = os.path.join(d, "f%d.%s" % (
                i, "ascii" if relaxed and not bad else "ttl"))
            with open(path, "wb") as f:
                f.write(raw)
            n = len(raw)
            sizes = sorted({rng.randint(1, max(1, n)) for _ in range(10)} |
                           {1, 2, 3, 7, max(1, n - 1), n, n + 1})
            if bad:
                sizes = rng.sample(sizes, 3)
            jobs.append((path, path + ".out", sizes, doc, raw, bad))
        lines = ["%s %s %s" % (p, o, " ".join(map(str, s)))
                 for p, o, s, *_ in jobs]
        res, fault, text = run_harness(binary, lines, d)
        if fault:
            k = len(res or [])
            job = jobs[min(k, len(jobs) - 1)]
            out.violation("parser:" + fault, "%s [%s] document: %r" % (
                text[-1200:], label, job[4][:1500]),
                {"document": job[4].decode("latin-1")})
            return
        for (path, o, sizes, doc, raw, bad), (runs, err, diff) in zip(jobs,
                                                                     res):
            out.events["parser_runs"] += int(runs)
            if bad:
                out.events["malformed"] += 1
                out.events["malformed_refused"] += bool(err)
                continue
            got = read_triples(o)
            m = err or match(doc.triples, got)
            out.case(label + path[-8:], True)
            out.events["triples"] += len(got)
            rec = {"document": raw.decode("latin-1")}
            if m:
                out.violation("wrong-triples", "%s [%s] document: %s" % (
                    m, label, doc.text[:1500]), rec)
            elif diff:
                out.violation("block-dependent", "%s [%s] document: %s" % (
                    diff, label, doc.text[:1500]), rec)
    finally:
        env.drop_scratch(d)


def large(out, binary, seed):
    """More triples than are read at once, with prefixes that change their
    meaning on the way."""
    rng = rng_for(*seed)
    d = env.scratch()
    try:
        want = Counter()
        path = os.path.join(d, "large.ttl")
        n, k = 0, 0
        with open(path, "w") as f:
            while n < 120000:
                f.write("@prefix p: <n%d/> .\n" % k)
                for i in range(rng.choice([3, 20, 105])):
                    f.write("p:%d p:q p:%d%s, 1." % (i, i, ", p:0" * 998))
                    want[k] += 1000
                    n += 1000
                    if n == 100000:
                        # The block ends within the number at the end of
                        # the first batch.
                        inside = f.tell()
                    f.write("5 .\n")
                k += 1
        size = os.path.getsize(path)
        res, fault, text = run_harness(binary, ["%s %s.out %d %d %d" % (
            path, path, size // 5, size // 3 + rng.randint(0, 100), inside)],
            d, 300)
        if fault:
            out.violation("parser:" + fault, text[-1200:], {"seed": seed})
            return
        (runs, err, diff), = res
        got = Counter()
        for s, p, o in read_triples(path + ".out"):
            a, _, b = s[2:-1].partition("/")
            c, _, e = o[2:-1].partition("/")
            got[int(a) if p == "<n%s/q>" % a and (
                o == "1.5" or a == c and e in ("0", b)) else None] += 1
        out.case("large", True)
        out.events["parser_runs"] += int(runs)
        out.events["triples"] += n
        if err or diff or got != want:
            out.violation("wrong-triples", "%s %s: triples per prefix %s "
                          "instead of %s" % (err, diff, dict(got),
                                             dict(want)), {"seed": seed})
    finally:
        env.drop_scratch(d)


def end_to_end(out, bins, seed):
    rng = rng_for(*seed)
    relaxed = rng.random() < 0.4
    doc = Doc(rng, rng.choice([5, 30, 120]), relaxed)
    preds = sorted({t[1] for t in doc.triples})
    text = doc.text + "\n" + "".join(
        "<m> <marker> %s .\n" % p for p in preds)
    ss = Session(out, bins, "seed " + " ".join(map(str, seed)))
    try:
        fmt = rng.choice(["ttl", "ttl", "mmap"])
        ss.index(text, fmt=fmt, settings={"ascii-prefixes-only": True}
                 if relaxed and fmt == "ttl" else None)
        ss.serve()
        q = "SELECT ?s ?p ?o WHERE { <m> <marker> ?p . ?s ?p ?o . }"
        j = ss.ask(q)
        if j is None:
            return
        out.case(ss.label, True)
        want = sorted({tuple(map(nfc, t)) for t in doc.triples})
        got = [tuple(r) for r in j["res"]]
        m = j.get("exception") or match(want, got)
        out.events["triples"] += len(got)
        if m:
            ss.fail("wrong-content", m, q)
    finally:
        ss.close()


def q11(ctx):
    fl = ctx.build("asan", ["IndexBuilderMain", "ServerMain"], ["h_turtle"])
    bins = fl.programs()
    try:
        harness = fl.harness_bin("h_turtle")
    except BuildError as e:
        ctx.rep.note("parser harness left out: %s" % str(e)[:300])
        harness = None
    ctx.rep.note("built asan")
    jobs = []
    if harness:
        jobs += [("large", (ctx.seed, "Q11", "l", i))
                 for i in range(ctx.n(1, 2))]
        jobs += [("component", (ctx.seed, "Q11", "c", i))
                 for i in range(ctx.n(55))]
    jobs += [("e2e", (ctx.seed, "Q11", "e", i)) for i in range(ctx.n(
        40 if harness else 200))]

    def work(out, job):
        kind, seed = job
        if kind == "large":
            large(out, harness, seed)
        elif kind == "component":
            component(out, harness, seed)
        else:
            end_to_end(out, bins, seed)

    run_jobs(ctx.rep, work, jobs)
    return {"min_evals": len(jobs) // 2, "min_distinct": len(jobs) // 4}
