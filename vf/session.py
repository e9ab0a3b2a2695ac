"""A knowledge base, its index and a server under observation."""
import json
import multiprocessing as mp
import os
import random
import shutil
import time
import traceback

from . import env, sparql as S
from .report import Out


class Stop(Exception):
    """The session cannot go on (the reason has been recorded)."""


class Session:
    """Runs queries against a freshly indexed KB and records deviations."""

    def __init__(self, out, bins, label):
        self.out, self.bins, self.label = out, bins, label
        self.d = env.scratch()
        self.srv = None
        self.history = []
        self.setup = {}
        self.name = "k"
        self.deaths = 0

    # -------------------------------------------------------------- set-up
    def index(self, data, fmt="ttl", args=(), settings=None, words=None,
              docs=None, via_stdin=False, expect_ok=True, name="k",
              timeout=200, extra_env=None):
        self.name = name
        self.setup = dict(data=data if isinstance(data, str)
                          else data.decode("latin-1"), fmt=fmt,
                          args=list(args), settings=settings, words=words,
                          docs=docs, via_stdin=via_stdin)
        for attempt in (1, 2):
            rc, log = env.build_index(
                self.bins["IndexBuilderMain"], self.d, name, data, fmt, args,
                settings, words, docs, timeout=timeout * attempt,
                via_stdin=via_stdin, extra_env=extra_env)
            if rc is not None:
                break
            self.out.events["index_build_timeout"] += 1
        self.out.events["index_builds"] += 1
        if rc is None:
            self.fail("index-build-hang", "index builder did not finish")
            raise Stop()
        key = env.sanitizer_key(log)
        if key and (rc != 0 or "asan" in key or "ubsan" in key):
            self.fail("index-build:" + key, log[-1500:])
            raise Stop()
        if rc != 0 and expect_ok:
            self.fail("index-build-failed", "exit %s: %s" % (rc, log[-600:]))
            raise Stop()
        return rc, log

    def serve(self, **kw):
        self.server_kw = kw
        self.history = []
        try:
            self.srv = env.Server(self.bins["ServerMain"], self.d, self.name,
                                  **kw)
        except env.ServerDied as e:
            self.fail("server-start:" + e.key, e.logtext[-1500:])
            raise Stop()
        self.out.events["servers"] += 1
        return self.srv

    def restart(self):
        self.srv.stop()
        return self.serve(**self.server_kw)

    def close(self):
        if self.srv is not None:
            self.srv.stop()
        env.drop_scratch(self.d)

    # -------------------------------------------------------------- verdicts
    def fail(self, key, what, query=None):
        self.out.violation(key, "%s [%s]%s" % (
            what, self.label, " query: " + query if query else ""),
            {"setup": self.setup, "server": getattr(self, "server_kw", {}),
             "history": self.history[-400:], "query": query,
             "session": self.label})

    def exports(self, text, j):
        """The CSV and TSV answers of a query must hold the rows of its JSON
        answer j."""
        for action, sep in (("csv_export", ","), ("tsv_export", "\t")):
            try:
                head, body = self.srv.get({"query": text, "action": action})
            except env.Hang:
                self.out.inconclusive.append("slow export: " + text)
                return
            except env.ServerFault as e:
                self.fail("export:" + e.key, "%s %s" % (
                    e, getattr(e, "logtext", "")[-700:]), text)
                self.recover()
                return
            self.history.append((text, {"action": action}))
            self.out.events["exports"] += 1
            got = sorted(body.decode("utf-8", "replace").split("\n"))
            want = sorted("".join(
                sep.join("" if c is None else c for c in row) + "\n"
                for row in j["res"]).split("\n"))
            if got != want and j.get("status") == "OK":
                self.fail("wrong-export", "%s has %d lines %r, JSON rows "
                          "give %d lines %r" % (
                              action, len(got), got[:6], len(want),
                              want[:6]), text)

    def ask(self, text, timeout=40, **params):
        """Sends a query; returns the JSON answer or None after recording a
        fault."""
        try:
            j = self.srv.query(text, timeout=timeout, **params)
            self.history.append((text, params))
            return j
        except env.Hang:
            self.out.events["slow"] += 1
            hist = self.history
            self.restart()
            try:
                j = self.srv.query(text, timeout=3 * timeout, **params)
                self.history.append((text, params))
                self.out.inconclusive.append("slow answer: " + text)
                return j
            except env.ServerFault as e:
                self.history = hist
                self.fail("query:" + e.key, str(e), text)
                raise Stop()
        except env.ServerFault as e:
            self.fail("query:" + e.key, "%s %s" % (
                e, getattr(e, "logtext", "")[-700:]), text)
            self.recover()
            return None

    def recover(self):
        self.deaths += 1
        if self.deaths > 3:
            raise Stop()
        self.restart()

    def rows(self, text, **params):
        """Canonical rows of a query that is expected to work, or None."""
        j = self.ask(text, **params)
        if j is None:
            return None
        if j.get("status") != "OK":
            self.fail("refused", "error answer: %s" % j.get("exception"),
                      text)
            return None
        return [tuple(S.canon(x) for x in row) for row in j["res"]]

    def check(self, q, names, rows, g, text=None, **params):
        """Runs a generated query and compares with the expectation."""
        text = text or q.render(g)
        j = self.ask(text, **params)
        if j is None:
            return None
        self.out.case(self.label + "|" + text, bool(rows))
        self.out.sample({"query": text, "rows": len(rows)})
        if j.get("status") != "OK":
            if "prefer cyclic queries" in str(j.get("exception")):
                self.out.events["declined_cycle"] += 1
                return None
            self.fail("refused", "error answer: %s" % j.get("exception"),
                      text)
            return None
        m = compare(q, names, rows, j, params.get("send"))
        self.out.events["rows_compared"] += len(j["res"])
        if m:
            self.fail("wrong-answer", m, text)
        else:
            count_ops(j.get("runtimeInformation"), self.out.events)
        return j


def count_ops(ri, events):
    """Counts which operators the observed plans consisted of."""
    if not isinstance(ri, dict):
        return
    d = str(ri.get("description", "?")).split(" ")[0].split("\t")[0][:24]
    events["op:" + d] += 1
    if ri.get("was_cached"):
        events["cached_op"] += 1
    for c in ri.get("children", []):
        count_ops(c, events)


def compare(q, names, rows, j, send=None):
    got = [tuple(S.canon(x) for x in row) for row in j["res"]]
    if getattr(q, "textlimit", None) is not None:
        # An unbound record has an empty text.
        got = [tuple(x or None for x in row) for row in got]
    if list(j.get("selected", [])) != list(names):
        return "selected %s instead of %s" % (j.get("selected"), names)
    total = len(rows)
    off = q.offset or 0
    want = max(0, total - off)
    if q.limit is not None:
        want = min(want, q.limit)
    # The size is that of the whole result, LIMIT and OFFSET only select the
    # rows that are sent.
    size = int(j.get("resultsize", -1))
    if size != total:
        return "resultsize %s, expected %d" % (size, total)
    if send is not None:
        want = min(want, int(send))
    if len(got) != want:
        return "%d rows sent, expected %d" % (len(got), want)
    if want == total:
        m = S.same_bag(rows, got)
    else:
        m = S.sub_bag(rows, got)
    if m:
        return m
    if q.order:
        return S.check_order(q.order, names, rows, got, off)
    return None


# ------------------------------------------------------------------ workers
_job = None


def _run_one(arg):
    i, job = arg
    out = Out()
    try:
        _job(out, job)
    except Stop:
        out.events["stopped_sessions"] += 1
    except env.Inconclusive as e:
        out.inconclusive.append(str(e))
    except Exception:
        out.inconclusive.append("machinery: " + traceback.format_exc())
        out.events["machinery_errors"] += 1
    return out


def run_jobs(rep, fn, jobs, procs=None, max_viol=6):
    """Runs fn(out, job) for all jobs in worker processes.

    The number of jobs is fixed; the run only ends early when enough
    violations have been reported."""
    global _job
    _job = fn
    procs = procs or max(2, min(8, os.cpu_count() or 4))
    if os.environ.get("VERIF_SERIAL"):
        for a in enumerate(jobs):
            rep.merge(_run_one(a))
        return
    with mp.get_context("fork").Pool(procs) as pool:
        results = pool.imap_unordered(_run_one, list(enumerate(jobs)),
                                      chunksize=1)
        while rep.hits < max_viol:
            try:
                rep.merge(results.next(timeout=5))
            except mp.TimeoutError:
                # What is left may consist of hangs.
                if rep.hits and time.time() - rep.t0 > 240:
                    break
            except StopIteration:
                break
        pool.terminate()


def rng_for(seed, *parts):
    return random.Random("|".join(str(x) for x in (seed,) + parts))
