"""What was put into the index comes out of it."""
import json
from collections import Counter, defaultdict

from . import env
from . import sparql as S
from .rdf import LANGS, Lit, RdfData, nfc
from .session import Session, rng_for, run_jobs

INTERNAL = "<QLever-internal-function/"


def internal(p):
    return p.startswith("@") or p.startswith(INTERNAL)


def random_config(rng, data):
    """Options of the index builder that must not change what is stored."""
    fmt = rng.choice(["ttl", "ttl", "ttl", "mmap", "nt", "tsv"]
                     if not data.awkward else ["ttl", "ttl", "ttl", "mmap"])
    st = {}
    if rng.random() < 0.6:
        st["num-triples-per-partial-vocab"] = rng.choice([1, 2, 5, 20, 100])
        if len(data.triples) > 150:
            st["num-triples-per-partial-vocab"] = rng.choice([20, 50, 100])
    if rng.random() < 0.5:
        st["parser-batch-size"] = rng.choice([1, 2, 3, 10, 1000])
    if rng.random() < 0.4:
        st["prefixes-external"] = rng.sample(
            ["<http://ex.org/a", "<http://www.wikidata.org/entity/Q1",
             "<urn", "<http://nothing"], rng.randint(1, 2))
    if rng.random() < 0.4:
        st["languages-internal"] = rng.choice([[], ["en"], ["en", "de"],
                                               ["fr"]])
    if rng.random() < 0.3:
        st["locale"] = {"language": rng.choice(["en", "de", "fr", "sv"]),
                        "country": rng.choice(["US", "DE", "CA"]),
                        "ignore-punctuation": rng.random() < 0.5}
    if rng.random() < 0.2 and fmt == "ttl" and not data.awkward:
        st["ascii-prefixes-only"] = True
    args = []
    if rng.random() < 0.3:
        args.append("-l")
    if rng.random() < 0.3:
        args.append("--no-patterns")
    if rng.random() < 0.3:
        args.append("-N")
    return dict(fmt=fmt, settings=st or None, args=args,
                via_stdin=fmt == "ttl" and rng.random() < 0.2)


def canon_graph(g):
    return {tuple(S.canon(x) for x in t) for t in g}


def simple_constant(t):
    """Can the term be written as a constant of a query?"""
    if isinstance(t, Lit):
        return "^^" not in t.suffix and not any(
            c in t.content for c in '"\\\n\r\t\b') and "@" not in t.content \
            and t.content.strip() == t.content and \
            not any(c in t.content for c in "{}().;,#<>' \u00a0?|") and \
            t.content != "" and nfc(t.content) == t.content
    return t.startswith("<") and not any(c in t for c in "{}'()") and \
        nfc(t) == t


def look(ss, text, want, what, skip=internal):
    rows = ss.rows(text)
    if rows is None:
        return
    rows = [r for r in rows if not (len(r) == 2 and skip(r[0]))]
    ss.out.case(ss.label + text, bool(want))
    ss.out.events[what] += 1
    ss.out.events["rows_compared"] += len(rows)
    m = S.same_bag(want, rows)
    if m:
        ss.fail("wrong-content", "%s: %s" % (what, m), text)


def statistics(ss, data):
    """The numbers of distinct triples, subjects, predicates and objects,
    where a literal with a language counts with its two helper triples."""
    g = set(data.graph())
    for s, p, o in list(g):
        if o.startswith('"') and '"@' in o and o.rfind('"@') == o.rfind('"'):
            lang = o[o.rfind('"') + 2:]
            g.add((s, "@%s@%s" % (lang, p), o))
            g.add((o, INTERNAL + "langtag>", "<@%s>" % lang))
    g = canon_graph(g)
    try:
        j = json.loads(ss.srv.get({"cmd": "stats"})[1])
    except env.ServerFault as e:
        ss.fail("stats:" + e.key, str(e))
        return
    ss.out.events["statistics"] += 1
    want = {"noftriples": len(g), "nofsubjects": len({t[0] for t in g}),
            "nofpredicates": len({t[1] for t in g}),
            "nofobjects": len({t[2] for t in g})}
    got = {k: int(j[k]) for k in want if k in j}
    if any(got[k] != want[k] for k in got):
        ss.fail("wrong-statistics", "expected %s, got %s" % (want, got))


def inspect(rng, ss, data, n_const):
    """Reads the data back through all permutations."""
    g = canon_graph(data.graph())
    by_p = defaultdict(list)
    for s, p, o in g:
        by_p[p].append((s, o))
    for p in sorted({p for _, p, _ in data.triples}):
        if not simple_constant(p):
            continue
        c = S.canon(nfc(p))
        look(ss, "SELECT ?s ?o WHERE { ?s %s ?o . }" % p, by_p[c],
             "by_predicate")
        look(ss, "SELECT ?o ?s WHERE { ?s %s ?o . } ORDER BY ?o" % p,
             [(o, s) for s, o in by_p[c]], "by_predicate_sorted")
        if rng.random() < 0.5:
            lang = rng.choice(LANGS)
            look(ss, 'SELECT ?s ?o WHERE { ?s %s ?o . FILTER (lang(?o) = "%s")'
                 " }" % (p, lang),
                 [(s, o) for s, o in by_p[c] if o.endswith('"@' + lang)],
                 "by_language")
    for _ in range(n_const):
        s, p, o = rng.choice(data.triples)
        cs, cp, co = (S.canon(data.shown(x)) for x in (s, p, o))
        ok = [simple_constant(x) for x in (s, p, o)]
        ts, tp, to = map(data.term, (s, p, o))
        if ok[0]:
            look(ss, "SELECT ?p ?o WHERE { %s ?p ?o . }" % ts,
                 [(b, c) for a, b, c in g if a == cs], "by_subject")
        if ok[0] and ok[1]:
            look(ss, "SELECT ?o WHERE { %s %s ?o . }" % (ts, tp),
                 [(c,) for a, b, c in g if a == cs and b == cp],
                 "by_subject_predicate")
        if ok[2]:
            look(ss, "SELECT ?p ?s WHERE { ?s ?p %s . }" % to,
                 [(b, a) for a, b, c in g if c == co], "by_object")
        if ok[1] and ok[2]:
            look(ss, "SELECT ?s WHERE { ?s %s %s . }" % (tp, to),
                 [(a,) for a, b, c in g if c == co and b == cp],
                 "by_predicate_object")
        if ok[0] and ok[2]:
            look(ss, "SELECT ?p ?y WHERE { %s ?p ?y . %s ?p %s . }" % (
                ts, ts, to),
                [(b, z) for a, b, c in g if c == co and a == cs
                 for x, y, z in g if x == cs and y == b],
                "by_subject_object")


def predicates(ss, g):
    """The predicates of all entities and how many entities have them; the
    helper triples of literals with a language do not count."""
    def langtag(p):
        return p.startswith(INTERNAL)

    want = {(s, p) for s, p, _ in g}
    look(ss, "SELECT ?p ?s WHERE { ?s ql:has-predicate ?p . }",
         [(p, s) for s, p in want], "predicates", langtag)
    counts = Counter(p for _, p in want)
    look(ss, "SELECT ?p (COUNT(?p) AS ?c) WHERE { ?s ql:has-predicate ?p . } "
         "GROUP BY ?p", [(p, str(n)) for p, n in counts.items()],
         "predicate_counts", langtag)


class Large:
    """Relations that are stored in several blocks of the index: one with a
    single object for each subject, one with several, and subjects and objects
    that take part in very many triples."""

    def __init__(self, rng):
        n = rng.choice([20500, 23000, 30500])
        ent = ["<e%05d>" % i for i in range(n)]
        pick = rng.choice
        perm = list(ent)
        rng.shuffle(perm)
        k = rng.choice([10000, 10001, 12000, 20000])
        t = set(zip(ent, ["<one>"] * n, perm))
        # Some entities are no subject or no object of these.
        without = set(rng.sample(ent, 60)) | {
            ent[min(n - 1, b + d)] for b in (9999, 19999) for d in (0, 1)}
        t = {x for x in t if x[0] not in without and x[2] not in without}
        t |= {(ent[i], "<two>", pick(ent[:k])) for i in range(k)
              for _ in range(pick([1, 2, 3]))}
        t |= {(ent[i], "<two>", pick(ent[:k])) for i in range(k)}
        hubs = rng.sample(ent, 2)
        t |= {(hubs[0], "<out>", e) for e in ent if rng.random() < 0.99}
        t |= {(e, "<in>", hubs[1]) for e in ent if rng.random() < 0.99}
        for i in range(3):
            t |= {("<a%d>" % i, "<misc>", "<z%d>" % i),
                  ("<z%d>" % i, "<misc>", "<a%d>" % i)}
        self.hubs = hubs
        self.ent = ent
        self.without = sorted(without)
        self.list = sorted(t)
        rng.shuffle(self.list)


def positions(rng, n):
    """Where blocks begin and end, and some other places."""
    near = {b + d for b in range(0, n + 1, 5000) for d in (-2, -1, 0, 1)}
    near |= {0, 1, n - 2, n - 1} | {rng.randrange(n) for _ in range(12)}
    return sorted(i for i in near if 0 <= i < n)


def inspect_large(rng, ss, kb):
    """Looks triples up by two of their parts."""
    by = [defaultdict(list), defaultdict(list), defaultdict(list)]
    firsts = [defaultdict(set), defaultdict(set), defaultdict(set)]
    hubs = set(kb.hubs)
    for s, p, o in kb.list:
        by[0][p, s].append((o,))
        firsts[0][p].add(s)
        by[1][p, o].append((s,))
        firsts[1][p].add(o)
        if s in hubs or o in hubs:
            by[2][s, o].append((p,))
            if s in hubs:
                firsts[2][s].add((s, o))
            if o in hubs:
                firsts[2][o].add((s, o))
    for p in sorted(firsts[0]):
        names = sorted(firsts[0][p])
        for i in positions(rng, len(names)):
            look(ss, "SELECT ?o WHERE { %s %s ?o . }" % (names[i], p),
                 by[0][p, names[i]], "large_subject_predicate")
        names = sorted(firsts[1][p])
        for i in positions(rng, len(names)):
            look(ss, "SELECT ?s WHERE { ?s %s %s . }" % (p, names[i]),
                 by[1][p, names[i]], "large_predicate_object")
    # Entities that do not take part.
    for p in ("<one>", "<two>", "<in>", "<out>"):
        for e in rng.sample(kb.without, 12) + rng.sample(kb.ent, 12) + \
                kb.ent[-3:] + ["<a0>", "<a2>", "<z0>", "<z2>"]:
            look(ss, "SELECT ?o WHERE { %s %s ?o . }" % (e, p),
                 by[0].get((p, e), []), "large_other_subject")
            look(ss, "SELECT ?s WHERE { ?s %s %s . }" % (p, e),
                 by[1].get((p, e), []), "large_other_object")
    for h in sorted(firsts[2]):
        names = sorted(firsts[2][h])
        for i in positions(rng, len(names)):
            look(ss, "SELECT ?p WHERE { %s ?p %s . }" % names[i],
                 by[2][names[i]], "large_subject_object")


def q09(ctx):
    bins = ctx.qlever()
    jobs = []
    for m, (k, kw) in enumerate([
            (50, {}), (50, {"awkward": False, "blank": True}),
            (14, {"langs": False}), (4, {"n": 2000})]):
        for i in range(ctx.n(k)):
            jobs.append(((ctx.seed, "Q09", m, i), kw))
    for i in range(ctx.n(3)):
        jobs.insert(0, ((ctx.seed, "Q09", "large", i), None))

    def work(out, job):
        seed, kw = job
        rng = rng_for(*seed)
        if kw is None:
            kb = Large(rng)
            ss = Session(out, bins, "seed " + " ".join(map(str, seed)))
            try:
                ss.index("".join("%s %s %s .\n" % t for t in kb.list))
                ss.serve()
                inspect_large(rng, ss, kb)
            finally:
                ss.close()
            return
        data = RdfData(rng, **kw)
        cfg = random_config(rng, data)
        ss = Session(out, bins, "seed " + " ".join(map(str, seed)))
        text = {"tsv": data.tsv, "nt": data.nt}.get(cfg["fmt"],
                                                    data.turtle)()
        try:
            ss.index(text, **cfg)
            out.events["fmt:" + cfg["fmt"]] += 1
            for k in (cfg["settings"] or {}):
                out.events["set:" + k] += 1
            ss.serve(args=["--no-patterns"] if "--no-patterns" in cfg["args"] else [])
            inspect(rng, ss, data, 12)
            statistics(ss, data)
            if "--no-patterns" not in cfg["args"]:
                predicates(ss, canon_graph(data.graph()))
        finally:
            ss.close()

    run_jobs(ctx.rep, work, jobs)
    return {"min_evals": 8 * len(jobs), "min_distinct": 4 * len(jobs)}
