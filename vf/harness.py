"""Runs a component harness."""
import os
import random
import shutil
import subprocess

from . import env
from .session import rng_for, run_jobs


def run_harness(binary, lines, d, timeout=150):
    """(result lines split at tabs, fault or None, output)"""
    results = os.path.join(d, "results")
    text = None
    for attempt in (1, 2):
        if os.path.exists(results):
            os.remove(results)
        p = subprocess.Popen([binary, results], stdin=subprocess.PIPE, cwd=d,
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             env=env.base_env(d), start_new_session=True,
                             preexec_fn=env._die_with_parent)
        try:
            text, _ = p.communicate("".join(x + "\n" for x in lines).encode(),
                                    timeout=timeout * attempt)
            break
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
    res = []
    if os.path.exists(results):
        with open(results, encoding="utf-8", errors="replace",
                  newline="\n") as f:
            res = [x.split("\t") for x in f.read().split("\n")[:-1]]
    if text is None:
        return res, "hang", ""
    text = text.decode("utf-8", "replace")
    if p.returncode != 0:
        return res, env.sanitizer_key(text) or "exit %d" % p.returncode, text
    return res, None, text


def run_kinds(ctx, prop, binary, kinds, parts=16, timeout=75):
    """Runs the jobs of a harness that checks itself against models.

    kinds: list of (kind, steps, number of jobs)."""
    jobs = []
    for kind, steps, n in kinds:
        for i in range(ctx.n(n)):
            jobs.append((kind, rng_for(ctx.seed, prop, kind, i)
                         .getrandbits(62), steps))
    random.Random(ctx.seed).shuffle(jobs)

    def work(out, part):
        d = env.scratch()
        try:
            res, fault, log = run_harness(
                binary, ["%s %d %d" % j for j in part], d, timeout=timeout)
            for j, r in zip(part, res):
                out.case("%s %d" % j[:2])
                if r[0] != "ok":
                    out.violation("%s:%s" % (j[0], " ".join(
                        r[1].split(" [step")[0].split()[:3])),
                        "%s: %s" % (j, r[1]), {"job": j})
                    continue
                for x in r[1:]:
                    k, _, v = x.rpartition("=")
                    out.events["%s_%s" % (j[0], k)] += int(v)
            if fault:
                j = part[len(res)] if len(res) < len(part) else None
                out.violation("%s:%s" % (j[0] if j else "end", fault),
                              "%s: %s" % (j, log[-1500:]), {"job": j})
        finally:
            shutil.rmtree(d, ignore_errors=True)

    run_jobs(ctx.rep, work, [p for p in (jobs[i::parts] for i in
                                         range(parts)) if p])
    return len(jobs)
