"""Requests that run at the same time must not influence each other."""
import re
import threading
import time

from . import env, sparql as S
from .gen import KB, QueryGen, TooBig
from .q_cache import RICH, Family
from .session import Session, compare, count_ops, rng_for, run_jobs
from .text import Texts

_top = re.compile(r"^ +#\d+ (.+?) (?:<null>|[./]\S*:\d+|/\S*) \(", re.M)


def races(log):
    """The reports of the thread sanitizer: {key: text}."""
    out = {}
    for part in log.split("WARNING: ThreadSanitizer: ")[1:]:
        part = part.split("==================")[0]
        if re.search(r"#0 std::ctype<\w+>::(narrow|widen)", part):
            continue    # the C++ library fills a table there, harmlessly
        fs = []
        for blk in re.split(r"\n\n", part)[:2]:
            for f in _top.findall(blk):
                f = re.sub(r"<.*|\(.*", "", f)
                if "::" in f and not re.match(
                        r"(\w+ )?(std|absl|__gnu_cxx)::|decltype|operator",
                        f):
                    fs.append(f)
                    break
        kind = part.split(" (")[0].strip().replace(" ", "-")
        out.setdefault("tsan:%s:%s" % (kind, "|".join(sorted(fs))), part)
    return out


class Client(threading.Thread):
    """Sends a list of requests one after the other and keeps the answers."""

    def __init__(self, srv, todo, barrier):
        super().__init__(daemon=True)
        self.srv, self.todo, self.barrier = srv, todo, barrier
        self.done = []

    def run(self):
        for n, (item, params) in enumerate(self.todo):
            if n % 8 == 0:
                try:
                    self.barrier.wait(30)
                except threading.BrokenBarrierError:
                    pass
            t0 = time.time()
            try:
                if item is None:
                    r = self.srv.get(params, timeout=120)
                else:
                    r = self.srv.query(item[3], timeout=120, **params)
            except env.ServerFault as e:
                r = e
            except Exception as e:      # machinery trouble
                r = e
            self.done.append((t0, time.time(), item, params, r))
            if isinstance(r, (env.ServerDied, env.Dropped)):
                self.barrier.abort()
                return


def overlap(done):
    """Number of pairs of requests that were in progress together, and the
    order of all starts and ends."""
    ev = sorted([(a, 0, i) for i, (a, *_) in enumerate(done)] +
                [(b, 1, i) for i, (_, b, *_) in enumerate(done)])
    open_, pairs = set(), 0
    for _, end, i in ev:
        if end:
            open_.discard(i)
        else:
            pairs += len(open_)
            open_.add(i)
    return pairs, "".join("%d%s" % (i, "ab"[e]) for _, e, i in ev)


def stress(rng, ss, kb, pool, n_clients, n_req, chaos):
    """One round of concurrent requests on a running server."""
    out, srv = ss.out, ss.srv
    barrier = threading.Barrier(n_clients)
    herd = rng.random() < 0.5
    script = [rng.choice(pool) for _ in range(n_req)]
    clients = []
    for c in range(n_clients):
        todo = []
        for k in range(n_req):
            # In a herd all clients ask the same at the same time.
            item = script[k] if herd and k % 8 < 3 else rng.choice(pool)
            params = {}
            r = rng.random()
            if chaos and r < 0.1:
                item, params = None, {"cmd": rng.choice(
                    ["clearcache", "clearcachecomplete", "cachestats",
                     "stats"])}
            elif chaos and r < 0.2:
                params = {rng.choice(["pinresult", "pinsubtrees"]): "true"}
            todo.append((item, params))
        clients.append(Client(srv, todo, barrier))
    for c in clients:
        c.start()
    for c in clients:
        c.join(600)
    done = [d for c in clients for d in c.done]
    pairs, order = overlap(done)
    out.events["overlapping_pairs"] += pairs
    out.case("interleaving " + order)
    for t0, t1, item, params, r in done:
        ss.history.append((item and item[3], params))
        if isinstance(r, env.Hang):
            out.events["slow"] += 1
            out.inconclusive.append("slow answer: %s %s" % (
                item and item[3], params))
        elif isinstance(r, env.ServerFault):
            ss.fail("concurrent:" + r.key, "%s %s" % (
                r, getattr(r, "logtext", "")[-700:]), item and item[3])
        elif isinstance(r, Exception):
            raise r
        elif item is not None:
            q, names, rows, text = item
            out.case("%s|%s|%s" % (ss.label, text, order), bool(rows))
            if r.get("status") != "OK":
                if "prefer cyclic queries" in str(r.get("exception")):
                    continue
                ss.fail("refused", "error answer: %s" % r.get("exception"),
                        text)
                continue
            m = compare(q, names, rows, r)
            out.events["rows_compared"] += len(r["res"])
            if m:
                ss.fail("wrong-answer", m, text)
            else:
                count_ops(r.get("runtimeInformation"), out.events)
    if not srv.alive():
        ss.recover()


def q14(ctx):
    bins = ctx.qlever("tsan")
    jobs = []
    for m, (n, rounds, feats) in enumerate([
            (6, 4, RICH),
            (3, 4, ["multi", "filter", "regex", "order", "limit"]),
            (3, 4, ["group", "having", "multi", "distinct"]),
            (3, 4, ["path", "pathheavy", "multi", "optional"]),
            (3, 4, ["haspred", "multi", "trick", "minus"]),
            (4, 4, ["text", "multi", "filter", "optional"])]):
        for i in range(ctx.n(n)):
            jobs.append(((ctx.seed, "Q14", m, i), rounds, feats))

    def work(out, job):
        seed, rounds, feats = job
        rng = rng_for(*seed)
        ss = Session(out, bins, "seed " + " ".join(map(str, seed)))
        try:
            kb = KB(rng, n_links=8, langs="haspred" not in feats)
            text = "text" in feats
            # The index builder runs OpenMP code, which the thread sanitizer
            # does not understand.
            quiet = {"TSAN_OPTIONS": "report_bugs=0"}
            if text:
                kb.texts = tx = Texts(rng, kb)
                ss.index(kb.turtle(), words=tx.words, docs=tx.docs,
                         extra_env=quiet)
            else:
                ss.index(kb.turtle(), extra_env=quiet)
            k = rng.choice([0, 1, 3, 10, None, None])
            args = ["-t"] if text else []
            if k is not None:
                args += ["-k", str(k)]
            gen = QueryGen(rng, kb, feats)
            pool = []
            for _ in range(6):
                try:
                    pool += [(q, n, r, q.render(kb.graph)) for q, n, r
                             in Family(gen, 3).members]
                except TooBig:
                    out.events["too_big"] += 1
            ss.serve(args=args, threads=rng.choice([2, 4, 6]))
            for i in range(rounds):
                stress(rng, ss, kb, pool, rng.choice([3, 4, 6]), 16,
                       i % 2 == 1)
                log = ss.srv.log()
                for key, text in races(log).items():
                    ss.fail(key, text[:1400])
                if "ThreadSanitizer" in log:
                    ss.restart()
        finally:
            ss.close()

    run_jobs(ctx.rep, work, jobs, procs=4)
    total = sum(j[1] for j in jobs) * 48
    return {"min_evals": total // 2, "min_distinct": total // 8}
