"""Answers of the real index builder and server against a reference model."""
from .build import BuildError
from .gen import BigKB, KB, QueryGen, TooBig
from .harness import run_kinds
from .session import Session, Stop, rng_for, run_jobs


def kb_session(bins, features, n_queries, kb_kw=None, index_kw=None,
               server_kw=None):
    """A worker: one random KB, n_queries random queries."""
    def work(out, job):
        seed, feats, n, kbk, ixk, svk = job
        if feats == "canary":
            return canary(out, bins, *kbk)
        rng = rng_for(*seed)
        kbk = dict(kbk)
        kb = (BigKB if kbk.pop("large", None) else KB)(rng, **kbk)
        ss = Session(out, bins, "seed " + " ".join(map(str, seed)))
        try:
            ss.index(kb.turtle(), **ixk)
            ss.serve(**svk)
            gen = QueryGen(rng, kb, feats)
            for _ in range(n):
                try:
                    q, names, rows = gen.query()
                except TooBig:
                    out.events["too_big"] += 1
                    continue
                if "export" not in feats:
                    ss.check(q, names, rows, kb.graph)
                    continue
                r = rng.random()
                if r < 0.3:
                    ss.check(q, names, rows, kb.graph,
                             send=rng.choice([0, 1, 2, 3, 5, 10, 50]))
                    continue
                j = ss.check(q, names, rows, kb.graph)
                # Without ORDER BY a recomputed result may be another slice.
                if r < 0.6 and j is not None and (
                        q.order or q.limit is None and q.offset is None):
                    ss.exports(q.render(kb.graph), j)
        finally:
            ss.close()
    return work


def canary(out, bins, name, data, query, want):
    """The fixed input of a listed finding."""
    ss = Session(out, bins, "canary " + name)
    try:
        ss.index(data)
        ss.serve()
        got = ss.rows(query)
        if got is not None:
            out.case("canary " + name)
            if sorted(got, key=repr) != sorted(want, key=repr):
                ss.fail("canary:" + name, "got %s instead of %s for %s" % (
                    got, want, query))
    finally:
        ss.close()


def with_harness(ctx, prop, name, kinds):
    """Builds the programs and runs jobs of a harness, if it compiles."""
    fl = ctx.build("asan", ["IndexBuilderMain", "ServerMain"],
                   [name] if kinds else [])
    bins = fl.programs()
    ctx.rep.note("built asan")
    if kinds:
        try:
            run_kinds(ctx, prop, fl.harness_bin(name), kinds)
        except BuildError as e:
            ctx.rep.note(str(e)[:2000])
    return bins


def simple(ctx, prop, mixes, ops=(), harness="h_ops", canaries=()):
    """mixes: list of (number of KBs, queries per KB, features, kb options,
    index options, server options); ops: jobs of the harness."""
    bins = with_harness(ctx, prop, harness, ops)
    jobs = []
    for m, (kbs, n, feats, *rest) in enumerate(mixes):
        kbk, ixk, svk = (list(rest) + [{}, {}, {}])[:3]
        for i in range(ctx.n(kbs)):
            jobs.append(((ctx.seed, prop, m, i), feats, n, kbk, ixk, svk))
    for c in canaries:
        jobs.append(((ctx.seed, prop, c[0]), "canary", 0, c, {}, {}))
    run_jobs(ctx.rep, kb_session(bins, None, None), jobs)
    total = sum(j[2] for j in jobs)
    return {"min_evals": total // 2, "min_distinct": total // 4}


def q01(ctx):
    return simple(ctx, "Q01", [
        (24, 90, ["multi", "selfloop"]),
        (16, 90, ["multi", "big"]),
        (12, 70, ["multi", "varpred"], {"langs": False}),
        (4, 40, ["multi"], {"n_ent": 400}),
        (12, 100, ["multi"], {"large": 1}),
        (2, 60, ["multi"], {"large": 1, "n_ent": 23000, "blocks": True}),
    ], [("join", 40, 60), ("gallop", 6, 60), ("columns", 40, 60)])


def q02(ctx):
    return simple(ctx, "Q02", [
        (12, 80, ["multi", "optional", "nested", "filter"]),
        (12, 80, ["multi", "union", "nested"]),
        (10, 80, ["multi", "minus", "values", "bind"]),
        (20, 80, ["multi", "optional", "nested", "union", "minus", "values",
                  "bind", "sub", "filter"]),
    ], [("optional", 40, 80), ("minus", 40, 80), ("union", 25, 60)],
        canaries=[("subquery-limit", "<a> <q> <z> .\n<b> <q> <w> .\n",
                   "SELECT ?x ?z WHERE { ?x <q> ?z . { SELECT ?x WHERE { "
                   "?x <q> ?y . } ORDER BY ?x LIMIT 1 } }",
                   [("<a>", "<z>")])])


def q03(ctx):
    return simple(ctx, "Q03", [
        (16, 100, ["filter", "filterheavy", "regex", "lang"]),
        (10, 100, ["filter", "filterheavy", "dateconst", "negconst",
                   "multi"]),
        (8, 80, ["filter", "filterheavy", "prefix"], {"style": "e%03d"}),
        (6, 80, ["filter", "filterheavy", "prefix", "lang", "multi"],
         {"style": "e%03d"}),
        (10, 80, ["filter", "regex", "multi", "optional", "union"]),
        (3, 60, ["filter", "filterheavy"], {"n_ent": 300}),
    ])


def q04(ctx):
    return simple(ctx, "Q04", [
        (20, 100, ["group", "having"]),
        (14, 90, ["group", "multi", "filter"]),
        (12, 80, ["group", "having", "optional", "union", "multi", "sub"]),
        (8, 80, ["distinct", "multi", "union"]),
    ], [("distinct", 15, 60)], canaries=[(
        "joined-concatenation", "<a> <p> <x> .\n<b> <p> <y> .\n"
        "<a> <q> <z> .\n<b> <q> <w> .\n",
        'SELECT ?x ?c ?z WHERE { ?x <q> ?z . { SELECT ?x (GROUP_CONCAT(?y;'
        'separator=",") AS ?c) WHERE { ?x <p> ?y . } GROUP BY ?x } }',
        [("<a>", "<x>", "<z>"), ("<b>", "<y>", "<w>")])])


def q05(ctx):
    return simple(ctx, "Q05", [
        (20, 100, ["order", "limit", "export"]),
        (14, 90, ["order", "limit", "distinct", "multi", "export"]),
        (12, 80, ["order", "limit", "distinct", "optional", "union",
                  "multi", "group", "export"]),
    ])


def q06(ctx):
    return simple(ctx, "Q06", [
        (20, 100, ["path", "pathheavy"]),
        (16, 90, ["path", "pathheavy", "multi"]),
        (12, 80, ["path", "pathheavy", "filter", "optional", "multi"]),
    ])


def q07(ctx):
    nl = {"langs": False}
    rich = ["haspred", "multi", "filter", "optional", "union", "minus",
            "values", "bind", "sub", "nested"]
    return simple(ctx, "Q07", [
        (12, 80, ["haspred", "multi", "varpred"], nl),
        (12, 80, rich, nl),
        (14, 80, ["haspred", "multi", "trick", "filter"], nl),
        (10, 80, rich + ["trick"], nl),
        (8, 60, ["haspred", "multi", "trick", "notrick", "filter"], nl, {},
         {"args": ["-T"]}),
        (3, 60, ["haspred", "trick", "multi"], {"langs": False,
                                                "n_ent": 300}),
    ], [("haspred", 60, 60)], "h_lists")
