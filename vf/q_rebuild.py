"""Q21: an index holds what was given to the last build that finished.

Indices are built over existing ones of other contents and settings, builds
are killed at random moments and repeated, several indices lie in one
directory, texts are added to a finished index, and the format of the
input is left to the builder.  Afterwards the index is read back."""
import os

from . import env
from .gen import KB, QueryGen, TooBig
from .q_index import (canon_graph, inspect, predicates, random_config,
                      statistics)
from .rdf import RdfData
from .session import Session, rng_for, run_jobs
from .text import Texts


def content(rng):
    kw = rng.choice([{}, {"awkward": False, "blank": True},
                     {"langs": False}])
    data = RdfData(rng, **kw)
    cfg = random_config(rng, data)
    text = {"tsv": data.tsv, "nt": data.nt}.get(cfg["fmt"], data.turtle)()
    return data, cfg, text


def stage(ss):
    """Which parts of the index exist."""
    return ",".join(sorted({f.split("index", 1)[-1].split(".", 1)[-1][:24]
                            for f in os.listdir(ss.d)}))


def interrupt(rng, ss, text, cfg):
    """Kills a build, if it is not faster."""
    cfg = dict(cfg)
    cfg.pop("via_stdin")
    rc, log = env.build_index(ss.bins["IndexBuilderMain"], ss.d, ss.name,
                              text, timeout=0.03 * 100 ** rng.random(), **cfg)
    ss.out.events["killed" if rc is None else "not_killed"] += 1
    ss.out.case("%s|killed at %s" % (ss.label, stage(ss)), rc is None)
    key = env.sanitizer_key(log)
    if rc is not None and key:
        ss.fail("index-build:" + key, log[-1500:])


def read_back(rng, ss, data, cfg, n):
    bare = "--no-patterns" in cfg["args"]
    ss.serve(args=["--no-patterns"] if bare else [])
    inspect(rng, ss, data, n)
    statistics(ss, data)
    if not bare:
        predicates(ss, canon_graph(data.graph()))


def replaced(rng, ss):
    """Builds over what other builds left behind."""
    for _ in range(rng.randint(1, 3)):
        data, cfg, text = content(rng)
        if rng.random() < 0.6:
            interrupt(rng, ss, text, cfg)
            continue
        ss.index(text, **cfg)
        ss.out.events["replaced"] += 1
        if rng.random() < 0.3:
            ss.serve(args=["--no-patterns"]
                     if "--no-patterns" in cfg["args"] else [])
            ss.srv.stop()
    if rng.random() < 0.3:
        # The same once more.
        interrupt(rng, ss, text, cfg)
    else:
        data, cfg, text = content(rng)
    ss.index(text, **cfg)
    read_back(rng, ss, data, cfg, 8)


def side_by_side(rng, ss, out):
    """Several indices in the same directory."""
    parts = []
    names = rng.sample(["k", "k1", "k.index", "k.vocabulary", "k-stxxl",
                        "1k"], 3)
    for i in range(3):
        data, cfg, text = content(rng)
        parts.append((names[i], data, cfg, text))
    for name, data, cfg, text in parts:
        ss.index(text, name=name, **cfg)
    for name, data, cfg, text in parts:
        ss.name = name
        out.events["side_by_side"] += 1
        read_back(rng, ss, data, cfg, 4)
        ss.srv.stop()


def text_added(rng, ss, out):
    """The texts come later than the triples, or are replaced."""
    kb = KB(rng)
    ss.index(kb.turtle(), settings=rng.choice([None, {
        "num-triples-per-partial-vocab": 20}]))
    for i in range(rng.choice([1, 1, 2])):
        kb.texts = tx = Texts(rng, kb)
        rc, log = env.build_index(
            ss.bins["IndexBuilderMain"], ss.d, ss.name, "", args=["-A"],
            words=tx.words, docs=tx.docs)
        ss.setup.update(words=tx.words, docs=tx.docs)
        key = env.sanitizer_key(log)
        if rc is None:
            out.inconclusive.append("slow build of a text index")
            return
        if rc != 0 or key:
            ss.fail("text-added:%s" % (key or "failed"), "exit %s: %s" % (
                rc, log[-700:]))
            return
    out.events["text_added"] += 1
    ss.serve(args=["-t"])
    gen = QueryGen(rng, kb, ["text", "multi", "filter", "optional"])
    for _ in range(40):
        try:
            q, names, rows = gen.query()
        except TooBig:
            continue
        ss.check(q, names, rows, kb.graph)


def deduced(rng, ss, out):
    """The format follows from the name of the input, or is Turtle."""
    data = RdfData(rng, awkward=False)
    ext = rng.choice(["ttl", "nt", "tsv", "txt", "", "-"])
    text = {"tsv": data.tsv, "nt": data.nt}.get(ext, data.turtle)()
    path = os.path.join(ss.d, "input" + ("." + ext if ext else ""))
    cmd = [ss.bins["IndexBuilderMain"], "-i", os.path.join(ss.d, ss.name)]
    stdin = None
    if ext == "-":
        stdin = text.encode()
    else:
        with open(path, "w") as f:
            f.write(text)
        cmd += ["-f", path]
    rc, log = env.run(cmd, ss.d, 120, stdin)
    ss.setup = dict(data=text, fmt=ext)
    if rc is None:
        out.inconclusive.append("slow build")
        return
    key = env.sanitizer_key(log)
    if rc != 0 or key:
        ss.fail("deduced:%s" % (key or "failed"), "%r: exit %s: %s" % (
            ext, rc, log[-700:]))
        return
    out.events["deduced:" + ext] += 1
    read_back(rng, ss, data, {"args": []}, 4)


def q21(ctx):
    bins = ctx.qlever()
    jobs = []
    for kind, n in (("replaced", 36), ("side", 8), ("text", 12),
                    ("deduced", 10)):
        for i in range(ctx.n(n)):
            jobs.append((kind, (ctx.seed, "Q21", kind, i)))

    def work(out, job):
        kind, seed = job
        rng = rng_for(*seed)
        ss = Session(out, bins, "seed " + " ".join(map(str, seed)))
        try:
            if kind == "replaced":
                replaced(rng, ss)
            elif kind == "side":
                side_by_side(rng, ss, out)
            elif kind == "text":
                text_added(rng, ss, out)
            else:
                deduced(rng, ss, out)
        finally:
            ss.close()

    run_jobs(ctx.rep, work, jobs)
    return {"min_evals": 10 * len(jobs), "min_distinct": 5 * len(jobs)}
