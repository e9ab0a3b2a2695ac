"""Building blocks that are shared between threads."""
import random
import shutil

from . import env
from .build import BuildError
from .harness import run_harness
from .q_conc import races
from .session import rng_for, run_jobs

# kind, steps with ASan, jobs, steps with TSan, jobs.  Pipelines do not fail
# under TSan, because the C++ library that hands over exceptions between
# threads is not instrumented.
KINDS = [("ccache", 60, 500, 30, 250), ("pipeline", 1, 320, 0, 160),
         ("sync", 300, 120, 150, 90), ("alloc", 300, 200, 200, 100),
         ("filebuf", 1, 120, 1, 60), ("random", 100, 60, 60, 40)]


def binary(ctx, flavour):
    try:
        return ctx.build(flavour, [], ["h_par"], lib=False) \
            .harness_bin("h_par")
    except BuildError:
        pass
    return ctx.build(flavour, [], ["h_par"]).harness_bin("h_par")


def q18(ctx):
    bins = {}
    for fl in ("asan", "tsan"):
        try:
            bins[fl] = binary(ctx, fl)
        except BuildError as e:
            ctx.rep.note(str(e)[:2000])
            return {"min_evals": 0, "min_distinct": 0}
    ctx.rep.note("built asan and tsan")
    jobs = []
    for kind, steps, n, tsteps, tn in KINDS:
        for fl, k, st in (("asan", n, steps), ("tsan", tn, tsteps)):
            for i in range(ctx.n(k)):
                jobs.append((fl, kind, rng_for(ctx.seed, "Q18", kind, fl, i)
                             .getrandbits(62), st))
    random.Random(ctx.seed).shuffle(jobs)
    parts = []
    for fl in bins:
        mine = [j for j in jobs if j[0] == fl]
        parts += [mine[i::24] for i in range(24)]
    parts = [p for p in parts if p]
    random.Random(ctx.seed).shuffle(parts)

    def work(out, part):
        d = env.scratch()
        try:
            res, fault, log = run_harness(
                bins[part[0][0]], ["%s %d %d" % j[1:] for j in part], d,
                timeout=150)
            for j, r in zip(part, res):
                out.case("%s %s %d" % j[:3])
                if r[0] != "ok":
                    out.violation("%s:%s" % (j[1], " ".join(
                        r[1].split()[:3])), "%s: %s" % (j, r[1]), {"job": j})
                    continue
                for x in r[1:]:
                    k, _, v = x.rpartition("=")
                    out.events["%s_%s" % (j[1], k)] += int(v)
            found = races(log)
            for key, text in found.items():
                out.violation(key, text[:3000], {"jobs": part})
            if fault and not found:
                j = part[len(res)] if len(res) < len(part) else None
                out.violation("%s:%s" % (j[1] if j else "end", fault),
                              "%s: %s" % (j, log[-1500:]), {"job": j})
        finally:
            shutil.rmtree(d, ignore_errors=True)

    run_jobs(ctx.rep, work, parts)
    return {"min_evals": len(jobs), "min_distinct": len(jobs)}
