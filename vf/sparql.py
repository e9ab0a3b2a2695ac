"""Reference model: an RDF graph and a naive evaluator for the subset of
SPARQL that the engine supports, written from the SPARQL semantics (bags of
solution mappings), independent of the engine's plans, ids and orderings.

Terms are plain strings in the form in which the engine prints them.
"""
import re
from collections import Counter, defaultdict
from decimal import Decimal, InvalidOperation

HAS_PREDICATE = "<QLever-internal-function/has-predicate>"
XSD = "http://www.w3.org/2001/XMLSchema#"
_typed = re.compile(r'^"(.*)"\^\^<http://www\.w3\.org/2001/XMLSchema#(\w+)>$',
                    re.S)


def dec_str(d):
    """Canonical text of a Decimal without exponent."""
    s = format(d, "f")
    if "." in s:
        s = s.rstrip("0").rstrip(".")
    if s in ("-0", ""):
        s = "0"
    return s


def canon_date(v):
    m = re.match(r"^(-?)(\d+)(?:-(\d\d)(?:-(\d\d))?)?"
                 r"(?:T(\d\d):(\d\d):(\d\d))?(?:\.\d+)?Z?$", v)
    if not m:
        return None
    g = m.groups()
    return "%s%d-%s-%sT%s:%s:%s" % (
        g[0], int(g[1]), g[2] or "00", g[3] or "00", g[4] or "00",
        g[5] or "00", g[6] or "00")


_canon_cache = {}


def canon(t):
    """Canonical form of a term: typed values by value, rest verbatim."""
    if t is None:
        return None
    r = _canon_cache.get(t)
    if r is None:
        r = _canon(t)
        if len(_canon_cache) > 200000:
            _canon_cache.clear()
        _canon_cache[t] = r
    return r


def _canon(t):
    m = _typed.match(t)
    if not m:
        return t
    v, ty = m.groups()
    if ty in ("int", "integer"):
        try:
            return '"%d"^^int' % int(v)
        except ValueError:
            return t
    if ty in ("float", "double", "decimal"):
        try:
            return '"%s"^^%s' % (dec_str(Decimal(v)), ty)
        except InvalidOperation:
            return t
    if ty in ("date", "dateTime", "gYear", "gYearMonth"):
        d = canon_date(v)
        return '"%s"^^dateTime' % d if d else t
    return t


_num = re.compile(r'^"([^"]*)"\^\^(int|float|double|decimal)$')
_date = re.compile(r'^"(-?)(\d+)-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)"'
                   r'\^\^dateTime$')


def num_value(c):
    """Numeric value of a canonical term, or None."""
    if c is None:
        return None
    m = _num.match(c)
    return Decimal(m.group(1)) if m else None


def date_value(c):
    m = _date.match(c) if c is not None else None
    if not m:
        return None
    g = m.groups()
    y = int(g[1])
    return (-y if g[0] else y,) + tuple(int(x) for x in g[2:])


class Graph:
    """A set of triples of canonical terms; display strings are kept for
    rendering constants in queries."""

    def __init__(self, triples):
        self.triples = set()
        self.src = {}
        for s, p, o in triples:
            cs, cp, co = canon(s), canon(p), canon(o)
            self.src.setdefault(cs, s)
            self.src.setdefault(cp, p)
            self.src.setdefault(co, o)
            self.triples.add((cs, cp, co))
        self.by_p = defaultdict(list)
        self.by_ps = defaultdict(list)
        self.by_po = defaultdict(list)
        self.by_s = defaultdict(list)
        self.by_o = defaultdict(list)
        for t in sorted(self.triples):
            s, p, o = t
            self.by_p[p].append(t)
            self.by_ps[p, s].append(t)
            self.by_po[p, o].append(t)
            self.by_s[s].append(t)
            self.by_o[o].append(t)

    def add_has_predicate(self):
        """Makes the built-in predicate usable in patterns: it relates each
        subject to its predicates, once each."""
        for s, p in sorted({(t[0], t[1]) for t in self.triples}):
            t = (s, HAS_PREDICATE, p)
            self.by_p[HAS_PREDICATE].append(t)
            self.by_ps[HAS_PREDICATE, s].append(t)
            self.by_po[HAS_PREDICATE, p].append(t)

    def match(self, s, p, o):
        """Triples matching a pattern; None is a wildcard."""
        if p is not None:
            if s is not None:
                c = self.by_ps.get((p, s), ())
                return [t for t in c if o is None or t[2] == o]
            if o is not None:
                return self.by_po.get((p, o), ())
            return self.by_p.get(p, ())
        if s is not None:
            return [t for t in self.by_s.get(s, ())
                    if o is None or t[2] == o]
        if o is not None:
            return self.by_o.get(o, ())
        return list(self.triples)


# ---------------------------------------------------------------- patterns
class Node:
    pass


def is_var(t):
    return t.startswith("?")


class Triple(Node):
    def __init__(self, s, p, o):
        self.s, self.p, self.o = s, p, o

    def vars(self):
        return {t for t in (self.s, self.p, self.o) if is_var(t)}

    def render(self, g):
        return "%s %s %s ." % tuple(
            t if is_var(t) else g.src.get(t, t)
            for t in (self.s, self.p, self.o))

    def join(self, g, rows):
        out = []
        for r in rows:
            key = []
            for t in (self.s, self.p, self.o):
                key.append(r.get(t) if is_var(t) else t)
            for m in g.match(*key):
                n = dict(r)
                ok = True
                for t, v in zip((self.s, self.p, self.o), m):
                    if is_var(t):
                        if n.setdefault(t, v) != v:
                            ok = False
                            break
                if ok:
                    out.append(n)
        return out


class PathT(Node):
    """A property path pattern.  path is a nested tuple:
    ("p", iri) ("/", a, b..) ("|", a, b..) ("^", a) ("+", a) ("*", a) ("?", a)
    """

    def __init__(self, s, path, o):
        self.s, self.path, self.o = s, path, o

    def vars(self):
        return {t for t in (self.s, self.o) if is_var(t)}

    def render(self, g):
        return "%s %s %s ." % (
            self.s if is_var(self.s) else g.src.get(self.s, self.s),
            render_path(self.path, g),
            self.o if is_var(self.o) else g.src.get(self.o, self.o))

    def join(self, g, rows):
        pairs = eval_path(g, self.path)
        by_s, by_o = defaultdict(list), defaultdict(list)
        for a, b in pairs:
            by_s[a].append((a, b))
            by_o[b].append((a, b))
        out = []
        for r in rows:
            s = r.get(self.s) if is_var(self.s) else self.s
            o = r.get(self.o) if is_var(self.o) else self.o
            if s is not None:
                cand = by_s.get(s, ())
            elif o is not None:
                cand = by_o.get(o, ())
            else:
                cand = pairs
            for a, b in cand:
                if s is not None and a != s or o is not None and b != o:
                    continue
                n = dict(r)
                if is_var(self.s):
                    n[self.s] = a
                if is_var(self.o):
                    if n.get(self.o, b) != b:
                        continue
                    n[self.o] = b
                out.append(n)
        return out


def path_nullable(p):
    k = p[0]
    if k == "p":
        return False
    if k in "*?":
        return True
    if k == "/":
        return all(path_nullable(x) for x in p[1:])
    if k == "|":
        return any(path_nullable(x) for x in p[1:])
    return path_nullable(p[1])


def render_path(p, g, top=True):
    k = p[0]
    if k == "p":
        return g.src.get(p[1], p[1])
    if k in ("/", "|"):
        s = k.join(render_path(x, g, False) for x in p[1:])
        return s if top else "(" + s + ")"
    inner = render_path(p[1], g, False)
    if p[1][0] in "^+*?":
        inner = "(" + inner + ")"
    return "^" + inner if k == "^" else inner + k


def path_has_null(p):
    """Whether the path contains a part that matches the empty path; how often
    the engine reports solutions of such paths is not specified."""
    return p[0] in "*?" or p[0] != "p" and any(
        path_has_null(x) for x in p[1:])


def closure(pairs):
    nxt = defaultdict(set)
    for a, b in pairs:
        nxt[a].add(b)
    out = []
    for a in nxt:
        seen, stack = set(), list(nxt[a])
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            stack.extend(nxt.get(x, ()))
        out.extend((a, b) for b in seen)
    return out


def nodes(g):
    return {t[0] for t in g.triples} | {t[2] for t in g.triples}


def eval_path(g, p):
    """List (bag) of pairs."""
    k = p[0]
    if k == "p":
        return [(t[0], t[2]) for t in g.by_p.get(p[1], ())]
    if k == "^":
        return [(b, a) for a, b in eval_path(g, p[1])]
    if k == "|":
        out = []
        for x in p[1:]:
            out += eval_path(g, x)
        return out
    if k == "/":
        cur = eval_path(g, p[1])
        for x in p[2:]:
            nxt = defaultdict(list)
            for a, b in eval_path(g, x):
                nxt[a].append(b)
            cur = [(a, c) for a, b in cur for c in nxt.get(b, ())]
        return cur
    if k == "+":
        return closure(eval_path(g, p[1]))
    base = set(eval_path(g, p[1]))
    if k == "*":
        base = set(closure(base))
    return sorted(base | {(n, n) for n in nodes(g)})


class Group(Node):
    def __init__(self, elems=None):
        self.elems = elems or []

    def render(self, g, ind=" "):
        return "{%s%s%s}" % (ind, ind.join(
            e.render(g) for e in self.elems), ind)

    def eval(self, g, rows=None):
        rows = [{}] if rows is None else rows
        filters = []
        for e in self.elems:
            if isinstance(e, Filter):
                filters.append(e)
            else:
                rows = e.join(g, rows)
        for f in filters:
            rows = [r for r in rows if f.holds(r)]
        return rows


def compatible(a, b):
    for k, v in a.items():
        if k in b and b[k] != v:
            return False
    return True


def bag_join(rows, other):
    if not rows or not other:
        return []
    # Shared variables that are bound in all rows can be used for hashing.
    keys = set(rows[0])
    for r in rows:
        keys &= set(r)
    ok = set(other[0])
    for r in other:
        ok &= set(r)
    keys = sorted(keys & ok)
    idx = defaultdict(list)
    for b in other:
        idx[tuple(b[k] for k in keys)].append(b)
    out = []
    for a in rows:
        for b in idx.get(tuple(a[k] for k in keys), ()):
            if compatible(a, b):
                n = dict(a)
                n.update(b)
                out.append(n)
    return out


class Optional(Node):
    def __init__(self, group):
        self.group = group

    def render(self, g):
        return "OPTIONAL " + self.group.render(g)

    def join(self, g, rows):
        other = self.group.eval(g)
        out = []
        for a in rows:
            m = bag_join([a], other)
            out += m if m else [a]
        return out


class Union(Node):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def render(self, g):
        return self.a.render(g) + " UNION " + self.b.render(g)

    def join(self, g, rows):
        return bag_join(rows, self.a.eval(g) + self.b.eval(g))


class Minus(Node):
    def __init__(self, group):
        self.group = group

    def render(self, g):
        return "MINUS " + self.group.render(g)

    def join(self, g, rows):
        other = self.group.eval(g)
        return [a for a in rows if not any(
            compatible(a, b) and set(a) & set(b) for b in other)]


class Values(Node):
    def __init__(self, vs, rows):
        self.vs, self.rows = vs, rows

    def render(self, g):
        if len(self.vs) == 1:
            return "VALUES %s { %s }" % (self.vs[0], " ".join(
                g.src.get(r[0], r[0]) for r in self.rows))
        return "VALUES (%s) { %s }" % (" ".join(self.vs), " ".join(
            "(" + " ".join(g.src.get(x, x) for x in r) + ")"
            for r in self.rows))

    def join(self, g, rows):
        return bag_join(rows, [dict(zip(self.vs, r)) for r in self.rows])


class Bind(Node):
    """kind: "int" (constant), "term" (constant), "var" (rename)."""

    def __init__(self, kind, arg, var):
        self.kind, self.arg, self.var = kind, arg, var

    def render(self, g):
        a = str(self.arg) if self.kind != "term" else g.src.get(self.arg,
                                                                self.arg)
        return "BIND(%s AS %s) ." % (a, self.var)

    def join(self, g, rows):
        out = []
        for r in rows:
            n = dict(r)
            if self.kind == "var":
                if self.arg in r:
                    n[self.var] = r[self.arg]
            elif self.kind == "int":
                n[self.var] = str(self.arg)
            else:
                n[self.var] = self.arg
            out.append(n)
        return out


class Sub(Node):
    def __init__(self, query):
        self.query = query

    def render(self, g):
        return "{ " + self.query.render(g) + " }"

    def join(self, g, rows):
        vs, res = self.query.solutions(g)
        return bag_join(rows, [{v: x for v, x in zip(vs, r)
                                if x is not None} for r in res])


class Filter(Node):
    """op: = != < <= > >= regex iregex prefix litprefix lang;
    rhs: a variable, ("num", Decimal), ("term", canonical) or text;
    alt: whether to write it in the other of two possible ways."""

    def __init__(self, lhs, op, rhs):
        self.lhs, self.op, self.rhs, self.alt = lhs, op, rhs, False

    def render_cond(self, g):
        op, r = self.op, self.rhs
        if op == "lang":
            return ('(langMatches(lang(%s), "%s"))' if self.alt else
                    '(lang(%s) = "%s")') % (self.lhs, r)
        if op == "litprefix":
            return '(prefix(%s, "%s"))' % (self.lhs, r)
        if op == "regex":
            return 'regex(%s, "%s")' % (self.lhs, r)
        if op == "iregex":
            return 'regex(%s, "%s", "i")' % (self.lhs, r)
        if op == "prefix":
            return "(" + " || ".join(
                'regex(%s, "^%s")' % (v, x) for v, x in r) + ")"
        if isinstance(r, tuple):
            if r[0] == "num":
                t = dec_str(r[1]) if r[1] == r[1].to_integral() else str(r[1])
            else:
                t = g.src.get(r[1], r[1])
        else:
            t = r
        if self.alt:
            return "(%s %s %s)" % (t, {"<": ">", ">": "<", "<=": ">=",
                                       ">=": "<="}.get(op, op), self.lhs)
        return "(%s %s %s)" % (self.lhs, op, t)

    def render(self, g):
        return "FILTER %s ." % self.render_cond(g)

    def holds(self, r):
        op, rhs = self.op, self.rhs
        if op == "prefix":
            return any(r[v].lower().startswith(x.lower()) for v, x in rhs)
        v = r.get(self.lhs)
        if op == "lang":
            return v is not None and v.startswith('"') and \
                v.endswith('"@' + rhs)
        if op == "litprefix":
            return v is not None and v.lower().startswith('"' + rhs.lower())
        if op == "regex":
            return re.search(rhs, v) is not None
        if op == "iregex":
            return re.search(rhs, v, re.I) is not None
        if isinstance(rhs, tuple):
            if rhs[0] == "num":
                a = _agg_num(v)
                if a is None:
                    return False
                b = rhs[1]
            else:
                b = rhs[1]
                a = v
                if op not in ("=", "!="):
                    a, b = sort_value(a), sort_value(b)
        else:
            w = r.get(rhs)
            if op in ("=", "!="):
                a, b = v, w
            else:
                a, b = sort_value(v), sort_value(w)
        return {"=": a == b, "!=": a != b, "<": a < b, "<=": a <= b,
                ">": a > b, ">=": a >= b}[op]


def _agg_num(v):
    n = num_value(v)
    if n is None:
        try:
            n = Decimal(v)
        except InvalidOperation:
            return None
    return n


def sort_value(c):
    """Value used by comparisons: only used between terms of one kind."""
    n = num_value(c)
    if n is not None:
        return n
    d = date_value(c)
    if d is not None:
        return d
    return c


# ------------------------------------------------------------------ queries
class Agg:
    def __init__(self, fn, var, name, distinct=False, sep=None):
        self.fn, self.var, self.name = fn, var, name
        self.distinct, self.sep = distinct, sep

    def render(self):
        return "(%s(%s%s%s) AS %s)" % (
            self.fn, "DISTINCT " if self.distinct else "", self.var,
            '; SEPARATOR="%s"' % self.sep if self.sep is not None else "",
            self.name)

    def compute(self, rows):
        """Returns a matcher description: ("exact", s) or ("float", x) or
        ("oneof", set) or ("concat", Counter, sep)"""
        vals = [r.get(self.var) for r in rows]
        if self.fn == "COUNT":
            return ("exact", str(len(set(vals)) if self.distinct
                                 else len(vals)))
        if self.fn == "SAMPLE":
            return ("oneof", frozenset(vals))
        if self.fn == "GROUP_CONCAT":
            c = Counter(set(vals)) if self.distinct else Counter(vals)
            return ("concat", c, " " if self.sep is None else self.sep)
        if self.fn in ("SUM", "AVG"):
            if self.distinct:
                vals = list(set(vals))
            ns = [_agg_num(v) for v in vals]
            if any(n is None for n in ns):
                return ("nan",)
            s = sum(ns)
            return ("float", float(s if self.fn == "SUM" else s / len(ns)),
                    float(sum(abs(n) for n in ns)))
        best = None
        for v in vals:
            k = sort_value(v)
            if best is None or (k < best if self.fn == "MIN" else k > best):
                best = k
        return ("oneof", frozenset(v for v in vals if sort_value(v) == best))


def match_value(exp, got):
    """Does the printed value got fit the expectation?"""
    if not isinstance(exp, tuple):
        return exp == got
    k = exp[0]
    if k == "exact":
        return got == exp[1]
    if k == "oneof":
        return got in exp[1]
    if k == "nan":
        return got is not None and got.lower() in ("nan", "-nan")
    if k == "float":
        try:
            x = float(got)
        except (TypeError, ValueError):
            return False
        return abs(x - exp[1]) <= 2e-5 * max(1e-6, abs(exp[1])) + \
            1e-5 * exp[2]
    if k == "concat":
        if got is None:
            return False
        return concat_matches(got, exp[1], exp[2])
    raise ValueError(k)


def concat_matches(text, bag, sep):
    total = sum(bag.values())
    want = sum(len(k) * n for k, n in bag.items()) + len(sep) * (total - 1)
    if len(text) != want:
        return False
    memo = set()

    def rec(pos, left):
        if not left:
            return pos == len(text)
        key = (pos, tuple(sorted(left.items())))
        if key in memo:
            return False
        for k in list(left):
            if text.startswith(k, pos):
                n = dict(left)
                n[k] -= 1
                if not n[k]:
                    del n[k]
                q = pos + len(k)
                if n:
                    if not text.startswith(sep, q):
                        continue
                    q += len(sep)
                if rec(q, n):
                    return True
        memo.add(key)
        return False
    return rec(0, dict(bag))


class Query:
    def __init__(self, select, group, distinct=False, group_by=None,
                 having=None, order=None, limit=None, offset=None):
        self.select = select          # list of variables or Agg
        self.group = group
        self.distinct = distinct
        self.group_by = group_by
        self.having = having or []
        self.order = order or []      # list of (var, descending)
        self.limit, self.offset = limit, offset
        self.textlimit = None

    def names(self):
        return [s if isinstance(s, str) else s.name for s in self.select]

    def aggs(self):
        return [s for s in self.select if isinstance(s, Agg)]

    def render(self, g):
        s = "SELECT %s%s WHERE %s" % (
            "DISTINCT " if self.distinct else "",
            " ".join(x if isinstance(x, str) else x.render()
                     for x in self.select), self.group.render(g))
        if self.group_by:
            s += " GROUP BY " + " ".join(self.group_by)
        for h in self.having:
            s += " HAVING " + h.render_cond(g)
        if self.order:
            s += " ORDER BY " + " ".join(
                ("DESC(%s)" if d else "ASC(%s)") % v if d is not None else v
                for v, d in self.order)
        if self.limit is not None:
            s += " LIMIT %d" % self.limit
        if self.offset is not None:
            s += " OFFSET %d" % self.offset
        if self.textlimit is not None:
            s += " TEXTLIMIT %d" % self.textlimit
        return s

    def solutions(self, g):
        """(variables, list of rows) before ORDER BY / LIMIT / OFFSET; cells
        are canonical terms, None, or expectation tuples for aggregates."""
        rows = self.group.eval(g)
        names = self.names()
        if self.aggs() or self.group_by:
            gb = self.group_by or []
            groups = defaultdict(list)
            for r in rows:
                groups[tuple(r.get(v) for v in gb)].append(r)
            out = []
            for key, rs in groups.items():
                cells = dict(zip(gb, key))
                for a in self.aggs():
                    cells[a.name] = a.compute(rs)
                out.append(cells)
            for h in self.having:
                out = [c for c in out if _having(h, c)]
            res = [tuple(c.get(n) for n in names) for c in out]
        else:
            res = [tuple(r.get(n) for n in names) for r in rows]
        if self.distinct:
            res = list(dict.fromkeys(res))
        return names, res


class PredicateCounts(Query):
    """How many of the different entities bound to x have which predicate
    (bound to p); name is the variable of the count or None."""

    def __init__(self, group, x, p, name, counted, **kw):
        sel = [p] if name is None else [p, Agg("COUNT", counted, name)]
        super().__init__(sel, Group(group.elems + [
            Triple(x, HAS_PREDICATE, p)]), group_by=[p], **kw)
        self.body, self.x, self.p, self.name = group, x, p, name

    def solutions(self, g):
        if is_var(self.x):
            xs = {r[self.x] for r in self.body.eval(g)} if \
                self.body.elems else set(g.by_s)
        else:
            xs = {self.x}
        counts = Counter(t[2] for x in xs
                         for t in g.by_ps.get((HAS_PREDICATE, x), ()))
        out = [{self.p: p, self.name: ("exact", str(n))}
               for p, n in counts.items()]
        # Filters on the predicate restrict the rows.
        for f in self.having + [e for e in self.group.elems
                                if isinstance(e, Filter) and e.lhs == self.p]:
            out = [c for c in out if _having(f, c)]
        for e in self.group.elems:
            if isinstance(e, Values) and e.vs == [self.p]:
                out = [c for c in out if (c[self.p],) in e.rows]
        names = self.names()
        return names, [tuple(c[n] for n in names) for c in out]


def _having(h, cells):
    c = {}
    for k, v in cells.items():
        if isinstance(v, tuple):
            if v[0] == "exact":
                v = v[1]
            elif v[0] == "float":
                v = str(v[1])
            elif v[0] == "oneof":
                v = next(iter(v[1]))
        c[k] = v
    return h.holds(c)


# --------------------------------------------------------------- comparison
def plain(row):
    return not any(isinstance(x, tuple) for x in row)


def same_bag(expected, got):
    """Compares the two bags; returns None or a description."""
    if all(plain(r) for r in expected):
        a, b = Counter(expected), Counter(got)
        if a == b:
            return None
        miss, extra = list((a - b).elements()), list((b - a).elements())
        return "missing %d row(s) e.g. %s; unexpected %d row(s) e.g. %s" % (
            len(miss), miss[:3], len(extra), extra[:3])
    if len(expected) != len(got):
        return "expected %d rows, got %d: expected %s got %s" % (
            len(expected), len(got), expected[:4], got[:4])
    # Match rows with aggregate cells: group by their plain cells first.
    pos = [i for i, c in enumerate(expected[0]) if not any(
        isinstance(r[i], tuple) for r in expected)]
    left = defaultdict(list)
    for r in got:
        left[tuple(r[i] for i in pos)].append(r)
    for e in expected:
        cand = left.get(tuple(e[i] for i in pos), [])
        for i, r in enumerate(cand):
            if all(match_value(x, y) for x, y in zip(e, r)):
                del cand[i]
                break
        else:
            return "no row matches expected %s (candidates %s)" % (
                e, cand[:3])
    return None


def sub_bag(expected, got):
    """Every row of got can be matched to its own row of expected."""
    if all(plain(r) for r in expected):
        extra = list((Counter(got) - Counter(expected)).elements())
        return ("unexpected %d row(s) e.g. %s" % (len(extra), extra[:3])
                if extra else None)
    left = list(expected)
    for r in got:
        for i, e in enumerate(left):
            if all(match_value(x, y) for x, y in zip(e, r)):
                del left[i]
                break
        else:
            return "unexpected row %s" % (r,)
    return None


def order_key(cell):
    """(class, key) of a value in the engine's order; only the order within
    one class is specified here."""
    if isinstance(cell, tuple):
        cell = str(cell[1])
    if cell is None:
        return ("none", 0)
    n = num_value(cell)
    if n is not None:
        return ("num", n)
    d = date_value(cell)
    if d is not None:
        return ("date", d)
    if re.fullmatch(r"-?\d+(\.\d+)?", cell):
        return ("num", Decimal(cell))
    m = re.fullmatch(r'"(.*)"(@[\w-]+)?', cell, re.S)
    if m:
        return ("lit", (m.group(1), m.group(2) or ""))
    return ("iri", cell)


def check_order(order, names, rows, got, offset):
    """The key columns of got are the slice of the sorted expectation."""
    idx = [(names.index(v), bool(d)) for v, d in order]
    for i, _ in idx:
        kinds = {order_key(r[i])[0] for r in rows}
        if len(kinds) > 1 or "float" in {r[i][0] for r in rows
                                         if isinstance(r[i], tuple)}:
            return None
    keys = [tuple(order_key(r[i])[1] for i, _ in idx) for r in rows]
    for k in range(len(idx) - 1, -1, -1):
        keys.sort(key=lambda x: x[k], reverse=idx[k][1])
    have = [tuple(order_key(r[i])[1] for i, _ in idx) for r in got]
    want = keys[offset:offset + len(got)]
    if have != want:
        p = next(i for i in range(len(have)) if have[i] != want[i])
        return "not in ORDER BY order: position %d has key %s, expected %s" \
            % (p, have[p], want[p])
    return None
