"""Text search next to the knowledge base."""
from collections import Counter, defaultdict

from . import sparql as S
from .gen import KB, QueryGen, TooBig
from .q_query import with_harness
from .session import Session, rng_for, run_jobs
from .text import Texts


def lines(j):
    return [tuple(r) for r in j["res"]]


def word_query(rng, ss, tx):
    """Records containing all given words, with their scores."""
    terms = [tx.term(known=False) for _ in range(rng.choice([1, 1, 2, 2, 3]))]
    if all(t.startswith("<") for t in terms):
        terms[0] = rng.choice(tx.vocab)
    words = [t for t in terms if not t.startswith("<")]
    ents = [t for t in terms if t.startswith("<")]
    pat = '?t ql:contains-word "%s" .' % " ".join(words)
    pat += "".join(" ?t ql:contains-entity %s ." % e for e in ents)
    score = not any(t.endswith("*") for t in terms) and \
        len(set(t.lower() for t in terms)) == len(terms)
    limit = rng.choice([1, 3, 500])
    text = "SELECT ?t TEXT(?t) %s WHERE { %s } TEXTLIMIT %d" % (
        "SCORE(?t)" if score else "", pat, limit)
    recs = tx.all_matching(terms)
    want = Counter()
    for r in recs:
        x = tx.text.get(r, "")
        row = (x, x)
        if score:
            row += (str(sum(tx.score(r, t) for t in terms) % 65536),)
        want[row] += 1
    j = ss.ask(text)
    if j is None:
        return
    ss.out.case(ss.label + text, bool(recs))
    if j["status"] != "OK":
        ss.fail("refused", "error answer: %s" % j["exception"], text)
        return
    got = Counter(lines(j))
    if score:
        ok = got == want
    else:
        # A prefix lists a record once per word that has the prefix.
        ok = set(got) == set(want)
    ss.out.events["word_only"] += 1
    if not ok:
        ss.fail("wrong-text-answer", "got %s, expected %s" % (
            sorted(got.items())[:8], sorted(want.items())[:8]), text)


def limited_query(rng, ss, tx, kb, fixed=None):
    """TEXTLIMIT keeps the best records of each entity."""
    if fixed is None:
        n = rng.choice([1, 1, 2])
        fixed = [tx.term() for _ in range(n)], rng.choice([1, 1, 2])
    terms, nv = fixed
    words = [t for t in terms if not t.startswith("<")]
    pats = ["?t ql:contains-entity %s ." % t for t in terms
            if t.startswith("<")]
    if words:
        pats.append('?t ql:contains-word "%s" .' % " ".join(words))
    evars = ["?x", "?y"][:nv]
    pats += ["?t ql:contains-entity %s ." % v for v in evars]
    rng.shuffle(pats)
    k = rng.choice([None, 1, 1, 2, 3, 5])
    keep = None
    if rng.random() < 0.4:
        p = rng.choice(kb.link)
        keep = {s for s, _, o in kb.graph.by_p.get(p, ())}
        pats.insert(0, "?x %s ?other ." % p)
    cols = ["?t", "SCORE(?t)"] + evars
    text = "SELECT DISTINCT %s WHERE { %s }" % (" ".join(cols),
                                               " ".join(pats))
    if k is not None:
        text += " TEXTLIMIT %d" % k
    k = 1 if k is None else k
    by_key, ids = defaultdict(list), {x: r for r, x in tx.text.items()}
    for r in tx.all_matching(terms):
        es = sorted(tx.records[r][1])
        for a in es:
            for b in (es if nv == 2 else [None]):
                if keep is None or a in keep:
                    by_key[(a, b)[:nv]].append(r)
    j = ss.ask(text)
    if j is None:
        return
    ss.out.case(ss.label + text, bool(by_key))
    if j["status"] != "OK":
        ss.fail("refused", "error answer: %s" % j["exception"], text)
        return
    got = defaultdict(list)
    bad = None
    for row in lines(j):
        got[row[2:]].append((ids.get(row[0]), row[1]))
    for key in set(got) | set(by_key):
        want, have = by_key.get(key, []), got.get(key, [])
        rs = [r for r, _ in have]
        if any(r not in want for r in rs):
            bad = "records that do not match"
        elif len(rs) != len(set(rs)) or len(rs) != min(k, len(want)):
            bad = "%d records instead of %d" % (len(rs), min(k, len(want)))
        elif any(s != str(len(want)) for _, s in have):
            bad = "score is not the number of matching records"
        elif nv == 1 and len(terms) <= 1 and rs:
            # The best scored records come first.
            sc = {r: tx.records[r][1][key[0]] for r in want}
            rest = [sc[r] for r in want if r not in rs]
            if rest and max(rest) > min(sc[r] for r in rs):
                bad = "a record with a better score was left out"
        if bad:
            ss.fail("wrong-text-limit", "%s for %s: got %s of %s" % (
                bad, key, have[:6], want[:10]), text)
            break
    ss.out.events["limited"] += 1


def q08(ctx):
    bins = with_harness(ctx, "Q08", "h_lists", [("postings", 60, 60),
                                                ("contexts", 60, 60)])
    jobs = []
    for m, (kbs, n, feats) in enumerate([
            (14, 80, ["text", "multi"]),
            (14, 80, ["text", "multi", "filter", "optional", "union",
                      "minus", "values", "bind", "nested"]),
            (10, 80, ["text", "order", "limit", "group", "distinct"]),
            (16, 80, None)]):
        for i in range(ctx.n(kbs)):
            jobs.append(((ctx.seed, "Q08", m, i), n, feats))

    def work(out, job):
        seed, n, feats = job
        rng = rng_for(*seed)
        kb = KB(rng)
        direct = feats is None
        kb.texts = tx = Texts(rng, kb, shared=direct and rng.random() < 0.3,
                              missing=direct)
        ss = Session(out, bins, "seed " + " ".join(map(str, seed)))
        try:
            ss.index(kb.turtle(), words=tx.words, docs=tx.docs)
            ss.serve(args=["-t"])
            gen = QueryGen(rng, kb, feats or [])
            for _ in range(n):
                if direct:
                    if tx.unique and rng.random() < 0.6:
                        limited_query(rng, ss, tx, kb)
                    else:
                        word_query(rng, ss, tx)
                    continue
                try:
                    q, names, rows = gen.query()
                except TooBig:
                    out.events["too_big"] += 1
                    continue
                ss.check(q, names, rows, kb.graph)
        finally:
            ss.close()

    run_jobs(ctx.rep, work, jobs)
    total = sum(j[1] for j in jobs)
    return {"min_evals": total // 2, "min_distinct": total // 4}
