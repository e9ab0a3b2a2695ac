"""Numbers and dates keep their value and their order."""
from decimal import Context, Decimal

from .rdf import XSD
from .session import Session, rng_for, run_jobs


def digits(rng, n):
    return "".join(rng.choice("0123456789") for _ in range(n))


def number(rng):
    """(lexical form, type, value), with at most 30 digits before and after
    the point"""
    while True:
        n = any_number(rng)
        if abs(n[2]) < Decimal(10)**40 and n[2] == n[2].quantize(
                Decimal(10)**-24 if abs(n[2]) < 1 else
                Decimal(10)**(n[2].adjusted() - 28),
                context=Context(prec=100)):
            return n


def any_number(rng):
    kind = rng.choice(["int", "integer", "float", "double", "decimal"])
    sign = rng.choice(["", "", "-", "-", "+"]) if rng.random() < 0.9 else ""
    r = rng.random()
    if kind in ("int", "integer"):
        t = digits(rng, rng.choice([1, 1, 2, 3, 4, 8, 9, 15, 18])).lstrip(
            "0") or "0"
        if r < 0.2:
            t = rng.choice("123456789") + "0" * rng.randint(0, 17)
        elif r < 0.3:
            t = "9" * rng.randint(1, 18)
    else:
        a = digits(rng, rng.choice([1, 1, 2, 3, 7, 12])).lstrip("0") or "0"
        b = digits(rng, rng.choice([1, 1, 2, 3, 7, 12]))
        if r < 0.2:
            a, b = "0", "0" * rng.randint(0, 10) + digits(rng, 3)
        elif r < 0.35:
            a, b = rng.choice(["1", "10", "1000", "9", "99", "999"]), \
                rng.choice(["0", "9", "99", "01", "000001", "50", "500"])
        t = a + "." + b
        if r > 0.9:
            t = a
        if r > 0.8 and kind in ("float", "double"):
            t += rng.choice("eE") + rng.choice(["", "+", "-"]) + str(
                rng.choice([rng.randint(0, 9), rng.randint(0, 20)]))
    if rng.random() < 0.05:
        t = "0" * rng.randint(1, 3) + t
    if rng.random() < 0.03:
        t = rng.choice(["0", "00"] if "int" in kind else [
            "0", "0.0", "0.00", "00.0", "0."])
    if rng.random() < 0.02 and "int" in kind:
        t = digits(rng, rng.randint(19, 30))
    t = sign + t
    return t, kind, Decimal(t)


def date(rng):
    kind = rng.choice(["date", "dateTime", "gYear", "gYearMonth"])
    y = rng.choice([rng.randint(1, 9999), rng.randint(1900, 2030),
                    rng.randint(1000, 1100)])
    if rng.random() < 0.25:
        y = -y
    if rng.random() < 0.1:
        y *= rng.choice([10, 1000, 12345])
    mo = d = h = mi = s = 0
    t = ("-" if y < 0 else "") + "%04d" % abs(y)
    if kind != "gYear":
        mo = rng.randint(1, 12)
        t += "-%02d" % mo
    if kind in ("date", "dateTime"):
        d = rng.randint(1, 28)
        t += "-%02d" % d
    if kind == "dateTime":
        h, mi, s = rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59)
        t += "T%02d:%02d:%02d" % (h, mi, s)
        t += rng.choice(["", "", "Z"])
    return t, kind, (y, mo, d, h, mi, s)


def value_of(shown):
    """('n', value) or ('d', tuple) of a displayed literal."""
    c, _, t = shown[1:].rpartition('"^^<' + XSD)
    t = t.rstrip(">")
    if t in ("int", "integer", "float", "double", "decimal"):
        return "n", Decimal(c), t.replace("integer", "int")
    if t in ("dateTime", "date", "gYear", "gYearMonth"):
        neg = c.startswith("-")
        dd, _, tt = c.lstrip("-").partition("T")
        f = [int(x) for x in dd.split("-")] + [0, 0]
        tm = [int(float(x)) for x in tt.rstrip("Z").split(":")] if tt else []
        tm += [0, 0, 0]
        return "d", (-f[0] if neg else f[0], f[1], f[2], *tm[:3]), "date"
    raise ValueError(shown)


NOT_VALUES = [("double", x) for x in (
    "NaN", "INF", "-INF", "abc", "", "1e", "--5", "0x10", "1.2.3", "1,5")] + [
    ("int", x) for x in ("abc", "1.5", "", "-", "1e3")] + [
    ("date", x) for x in ("", "abc", "99999999999999999999-01-01", "--12")] + [
    ("boolean", "true"), ("gDay", "---05"), ("time", "10:00:00"),
    ("string", "12"), ("anyURI", "http://x")]


def lit(t, kind):
    return '"%s"^^<%s%s>' % (t, XSD, kind)


def expected(v):
    t, kind, val = v
    if isinstance(val, tuple):
        return "d", val, "date"
    return "n", val, kind.replace("integer", "int")


def shown_value(o):
    try:
        return value_of(o)
    except (ValueError, ArithmeticError):
        return "?", o, ""


def ordered(ss, vals, rows, text, desc):
    """rows: (subject, value); sorted by value within numbers and dates."""
    last = None
    seen = 0
    for s, o in rows:
        v = expected(vals[int(s[2:-1])])
        w = shown_value(o)
        if w != v:
            ss.fail("wrong-value", "%s is shown as %s" % (
                vals[int(s[2:-1])][:2], o), text)
            return
        if last and last[0] == v[0] and (last[1] < v[1] if desc
                                         else last[1] > v[1]):
            ss.fail("wrong-order", "%s before %s" % (last[1], v[1]), text)
            return
        seen += last is not None and last[0] == v[0] and last[1] != v[1]
        last = v
    ss.out.events["ordered_pairs"] += seen


def threshold(rng, vals):
    """A constant near the data and its rendering in a filter."""
    v = rng.choice(vals)
    r = rng.random()
    if isinstance(v[2], tuple):
        if r < 0.6:
            v = date(rng)
        return v[2], lit(v[0].lstrip("+"), v[1])
    if r < 0.6:
        v = number(rng)
    t = v[0].lstrip("+")
    if "e" in t.lower() or t.startswith("0") or t.startswith("-0") or \
            t.endswith(".") or rng.random() < 0.5:
        return v[2], lit(v[0], v[1])
    return v[2], t


OPS = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b,
       ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}


def q10(ctx):
    bins = ctx.qlever()
    jobs = [(ctx.seed, "Q10", i) for i in range(ctx.n(40))]

    def work(out, seed):
        rng = rng_for(*seed)
        n = rng.choice([50, 400, 1200])
        pick = rng.choice([lambda r: number(r), lambda r: date(r),
                           lambda r: (number if r.random() < 0.5
                                      else date)(r)])
        vals = [pick(rng) for _ in range(n)]
        if rng.random() < 0.5:
            vals += [rng.choice(vals) for _ in range(n // 4)]
        data = ["<e%d> <p> %s ." % (i, lit(v[0], v[1]))
                for i, v in enumerate(vals)]
        data += ["<x%d> <q> %s ." % (i, lit(t, k))
                 for i, (k, t) in enumerate(NOT_VALUES)]
        rng.shuffle(data)
        ss = Session(out, bins, "seed " + " ".join(map(str, seed)))
        try:
            ss.index("\n".join(data) + "\n",
                     settings=rng.choice([None, None, {
                         "num-triples-per-partial-vocab": 50}]))
            ss.serve()

            def ask(text):
                j = ss.ask(text)
                if j is None:
                    return None
                if j.get("status") != "OK":
                    ss.fail("refused", str(j.get("exception")), text)
                    return None
                out.case(ss.label + text, bool(j["res"]))
                return j["res"]

            for desc in (False, True):
                text = "SELECT ?s ?o WHERE { ?s <p> ?o . } ORDER BY %s" % (
                    "DESC(?o)" if desc else "?o")
                rows = ask(text)
                if rows is not None:
                    if sorted(int(r[0][2:-1]) for r in rows) != list(
                            range(len(vals))):
                        ss.fail("wrong-rows", "%d rows instead of %d" % (
                            len(rows), len(vals)), text)
                        continue
                    out.events["values"] += len(rows)
                    ordered(ss, vals, rows, text, desc)
            text = "SELECT DISTINCT ?o WHERE { ?s <p> ?o . }"
            rows = ask(text)
            if rows is not None:
                got = sorted(str(shown_value(o)) for o, in rows)
                want = sorted({str(expected(v)[:1] + (
                    expected(v)[1] if isinstance(v[2], tuple) else
                    v[2].normalize() + 0,) + expected(v)[2:]) for v in vals})
                got = sorted(str(w[:1] + (w[1] if w[0] != "n" else
                                          w[1].normalize() + 0,) + w[2:])
                             for w in (shown_value(o) for o, in rows))
                if got != want:
                    diff = sorted(set(got) ^ set(want))
                    ss.fail("wrong-distinct", "%d distinct values instead of "
                            "%d, e.g. %s" % (len(got), len(want), diff[:3]),
                            text)
            text = "SELECT ?s ?o WHERE { ?s <q> ?o . }"
            rows = ask(text)
            if rows is not None:
                want = sorted(["<x%d>" % i, lit(t, k)]
                              for i, (k, t) in enumerate(NOT_VALUES))
                if sorted(rows) != want:
                    ss.fail("wrong-value", "changed literals: %s" % [
                        r for r in rows if r not in want][:5], text)
            text = "SELECT ?s (SUM(?o) AS ?x) WHERE { ?s <p> ?o . } " \
                   "GROUP BY ?s"
            rows = ask(text)
            for s, x in rows or []:
                v = vals[int(s[2:-1])][2]
                if isinstance(v, Decimal):
                    out.events["sums"] += 1
                    if abs(float(x) - float(v)) > 2e-5 * abs(float(v)):
                        ss.fail("wrong-sum", "%s for %s" % (
                            x, vals[int(s[2:-1])][0]), text)
                        break
            for _ in range(30):
                c, ctext = threshold(rng, vals)
                op = rng.choice(sorted(OPS))
                text = "SELECT ?s ?o WHERE { ?s <p> ?o . FILTER (?o %s %s) }" \
                    % (op, ctext)
                rows = ask(text)
                if rows is None:
                    continue
                got = {int(r[0][2:-1]) for r in rows}
                # Equal values of different types are left open.
                for i, v in enumerate(vals):
                    if type(v[2]) is type(c) and v[2] != c and (
                            i in got) != OPS[op](v[2], c):
                        ss.fail("wrong-filter", "%s %s" % (
                            v[0], "missing" if i not in got else
                            "not expected"), text)
                        break
        finally:
            ss.close()

    run_jobs(ctx.rep, work, jobs)
    return {"min_evals": 20 * len(jobs), "min_distinct": 10 * len(jobs)}
