"""Words are found at their position in the sorted vocabularies."""
from collections import defaultdict

from .q_query import with_harness
from .session import Session, rng_for, run_jobs

KINDS = [("order", 1500, 40), ("textorder", 1500, 40), ("entities", 600, 80),
         ("text", 600, 80), ("ranges", 120, 60), ("external", 500, 60)]

LOCALES = [("en", "US"), ("de", "DE"), ("fr", "CA"), ("sv", "SE"),
           ("cs", "CZ"), ("ja", "JP")]
LETTERS = ["a", "A", "á", "Á", "b", "B", "e", "é", "E", "o", "ö", "ss", "ß",
           "z", "1", "2", "ä", "c", "ch", "日", "я", "i", "I", "x"]
MARKS = [" ", "-", "_", ".", ",", "/", "+", "­", "‍", "#"]


def word(rng, letters, marks):
    return "".join(rng.choice(marks if rng.random() < 0.2 else letters)
                   for _ in range(rng.randint(1, 4)))


def near(rng, n, letters, marks):
    """Different strings, many of them close to each other."""
    base = [word(rng, letters, marks) for _ in range(n // 4 + 1)]
    res = set()
    while len(res) < n:
        w = rng.choice(base)
        if rng.random() < 0.6:
            w += word(rng, letters, marks)
        res.add(w)
    res = sorted(res)
    rng.shuffle(res)
    return res


def literal(rng, s):
    return '"%s"%s' % (s, rng.choice(["", "", "@en", "@en", "@de"]))


def compared(rng, ss, lits):
    """ORDER BY puts the literals in one order, and comparisons with constants
    cut it in two."""
    text = "SELECT ?s ?o WHERE { ?s <p> ?o . } ORDER BY ?o"
    j = ss.ask(text)
    if j is None:
        return
    if j.get("status") != "OK" or sorted(map(tuple, j["res"])) != sorted(
            ("<e%d>" % i, x) for i, x in enumerate(lits)):
        ss.fail("wrong-rows", "%s, %d rows" % (j.get("status"),
                                              len(j["res"])), text)
        return
    order = []
    for _, o in j["res"]:
        if not order or order[-1] != o:
            order.append(o)
    if len(set(order)) != len(order):
        ss.fail("wrong-order", "equal literals apart: %s" % order[:40], text)
        return
    ss.out.case(ss.label + text, True)
    pos = {o: i for i, o in enumerate(order)}
    consts = rng.sample(order, min(len(order), 14)) + [order[0], order[-1]]
    consts = ['"%s"' % c[1:c.rindex('"')] for c in consts]
    consts += ['""'] + ['"%s"' % word(rng, LETTERS, MARKS)
                        for _ in range(6)]
    for c in consts:
        cut = {}
        for op in ("<", "<=", "=", "!=", ">=", ">"):
            text = "SELECT ?s ?o WHERE { ?s <p> ?o . FILTER(?o %s %s) }" % (
                op, c)
            if rng.random() < 0.5:
                text = "SELECT ?s ?o WHERE { ?s <p> ?o . ?s <q> ?n . " \
                    "FILTER(?o %s %s) }" % (op, c)
            j = ss.ask(text)
            if j is None:
                return
            if j.get("status") != "OK":
                ss.fail("refused", str(j.get("exception")), text)
                return
            got = defaultdict(set)
            for s, o in j["res"]:
                got[o].add(s)
            for o, subjects in got.items():
                if o not in pos or subjects != {
                        "<e%d>" % i for i, x in enumerate(lits) if x == o}:
                    ss.fail("wrong-rows", "%s with subjects %s" % (
                        o, sorted(subjects)[:9]), text)
                    return
            cut[op] = {pos[o] for o in got}
            ss.out.case(ss.label + text, bool(got))
        n, k = len(order), len(cut["<"])
        m = k + len(cut["="])
        want = {"<": range(k), "<=": range(m), "=": range(k, m),
                ">=": range(k, n), ">": range(m, n),
                "!=": [x for x in range(n) if not k <= x < m]}
        for op, ids in want.items():
            if cut[op] != set(ids):
                ss.fail("wrong-cut", "comparisons with %s: %s but %s" % (
                    c, {o: len(x) for o, x in cut.items()},
                    sorted(order[i] for i in cut[op] ^ set(ids))[:5]),
                    "?o %s %s" % (op, c))
                return
        if c in pos and not k <= pos[c] < m:
            ss.fail("wrong-cut", "%s is not at its place" % c, text)
            return
        ss.out.events["cuts"] += 1


def found(rng, ss, words):
    """Every word of the texts finds its records, and only them."""
    for w in rng.sample(sorted(words), min(len(words), 60)):
        text = 'SELECT ?t TEXT(?t) WHERE { ?t ql:contains-word "%s" . } ' \
            'TEXTLIMIT 500' % w
        j = ss.ask(text)
        if j is None:
            return
        if j.get("status") != "OK":
            ss.fail("refused", str(j.get("exception")), text)
            return
        ss.out.case(ss.label + text, True)
        got = sorted(r[1] for r in j["res"])
        want = sorted("record %d" % r for r in words[w])
        if got != want:
            ss.fail("wrong-records", "%r: %s instead of %s" % (
                w, got[:9], want[:9]), text)
            return
        ss.out.events["words"] += 1


def q12(ctx):
    bins = with_harness(ctx, "Q12", "h_vocab", KINDS)
    jobs = [(ctx.seed, "Q12", i) for i in range(ctx.n(24))]

    def work(out, seed):
        rng = rng_for(*seed)
        lang, country = rng.choice(LOCALES)
        lits = [literal(rng, s) for s in near(rng, rng.choice([3, 40, 150]),
                                              LETTERS, MARKS)]
        lits += [literal(rng, s[1:s.rindex('"')])
                 for s in rng.sample(lits, len(lits) // 3)]
        lits = sorted(set(lits))
        lits += rng.sample(lits, len(lits) // 4)
        rng.shuffle(lits)
        data = "".join("<e%d> <p> %s .\n<e%d> <q> <n%d> .\n" % (
            i, x, i, i % 3) for i, x in enumerate(lits))
        letters = [c for c in LETTERS if c == c.lower()]
        words = defaultdict(list)
        wtext = ""
        for r, w in enumerate(near(rng, rng.choice([40, 150]), letters,
                                   [c for c in MARKS if c > "\x7f"])):
            words[w].append(r)
        records = defaultdict(set)
        for w, rs in words.items():
            for r in rs:
                records[r].add(w)
            if rng.random() < 0.4:
                extra = rng.randrange(len(words))
                records[extra].add(w)
        words = defaultdict(list)
        for r in sorted(records):
            for w in sorted(records[r]):
                wtext += "%s\t0\t%d\t1\n" % (w, r)
                words[w].append(r)
        docs = "".join("%d\trecord %d\n" % (r, r) for r in sorted(records))
        ss = Session(out, bins, "seed " + " ".join(map(str, seed)))
        try:
            ss.index(data, settings={
                "locale": {"language": lang, "country": country,
                           "ignore-punctuation": rng.random() < 0.5},
                "languages-internal": ["en", "de"]},
                words=wtext, docs=docs)
            ss.serve(args=["-t"])
            compared(rng, ss, lits)
            found(rng, ss, words)
        finally:
            ss.close()

    run_jobs(ctx.rep, work, jobs)
    return {"min_evals": len(jobs) * 60, "min_distinct": len(jobs) * 30}
