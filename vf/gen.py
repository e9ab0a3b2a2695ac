"""Random knowledge bases and queries for the reference-model monitors."""
from decimal import Decimal

from . import sparql as S
from .text import TextClique

XSD = S.XSD
WORDS = ("alpha beta gamma delta epsilon zeta eta theta iota kappa lambda mu "
         "nu xi omicron pi rho sigma tau upsilon phi chi psi omega").split()
LANGS = ["en", "de", "fr"]


def typed(v, t):
    return '"%s"^^<%s%s>' % (v, XSD, t)


class KB:
    """A random knowledge base with typed predicates."""

    def __init__(self, rng, n_ent=None, density=None, langs=True, style=None,
                 values=True, n_links=None):
        self.rng = rng
        n = n_ent or rng.choice([3, 6, 10, 16, 25])
        style = style if style is not None else rng.choice(
            ["e%03d", "http://ex.org/ent/%03d", "ns/k%03d"])
        self.style = style
        self.ent = ["<" + style % i + ">" for i in range(n)]
        pstyle = rng.choice(["%s", "http://ex.org/prop/%s", "p/%s"])
        self.link = ["<" + pstyle % ("l%d" % i) + ">" for i in
                     range(n_links or rng.randint(2, 5))]
        self.attr = {}
        for kind in ("int", "dec", "flt", "date", "label", "tag"):
            if kind == "label" and not langs:
                continue
            self.attr[kind] = ["<" + pstyle % ("%s%d" % (kind, i)) + ">"
                               for i in range(rng.randint(1, 2))]
        self.langs = langs
        triples = set()
        for p in self.link:
            mode = rng.choice(["sparse", "dense", "func", "chain", "cycle",
                               "hub", "tiny"])
            d = density or rng.choice([1, 2, 3])
            if mode == "sparse":
                pairs = [(rng.choice(self.ent), rng.choice(self.ent))
                         for _ in range(n)]
            elif mode == "dense":
                pairs = [(rng.choice(self.ent), rng.choice(self.ent))
                         for _ in range(n * d)]
            elif mode == "func":
                pairs = [(e, rng.choice(self.ent)) for e in self.ent
                         if rng.random() < 0.8]
            elif mode == "chain":
                pairs = [(self.ent[i], self.ent[i + 1])
                         for i in range(n - 1) if rng.random() < 0.85]
            elif mode == "cycle":
                k = rng.randint(1, n)
                c = rng.sample(self.ent, k)
                pairs = [(c[i], c[(i + 1) % k]) for i in range(k)]
            elif mode == "hub":
                h = rng.choice(self.ent)
                pairs = [(h, rng.choice(self.ent)) for _ in range(n)] + \
                        [(rng.choice(self.ent), h) for _ in range(n // 2)]
            else:
                pairs = [(rng.choice(self.ent), rng.choice(self.ent))
                         for _ in range(rng.randint(1, 2))]
            triples |= {(a, p, b) for a, b in pairs}
        if values:
            for kind, preds in self.attr.items():
                for p in preds:
                    for e in self.ent:
                        for _ in range(rng.choice([0, 0, 1, 1, 1, 2, 3])):
                            triples.add((e, p, self.value(kind)))
        # Some nodes occur as object only / as literal shared by predicates.
        self.list = sorted(triples)
        rng.shuffle(self.list)
        self.graph = S.Graph(self.list)

    def value(self, kind):
        rng = self.rng
        if kind == "int":
            v = rng.choice([rng.randint(-5, 12), rng.randint(-300, 300),
                            rng.choice([0, 9, 10, 11, 99, 100, 101, 1000])])
            return typed(str(v), rng.choice(["int", "integer"]))
        if kind in ("dec", "flt"):
            v = Decimal(rng.randint(-4000, 4000)) / \
                rng.choice([1, 10, 100, 1000])
            if rng.random() < 0.05:
                v = Decimal(0)
            t = S.dec_str(v)
            if "." not in t:
                t += ".0"
            return typed(t, "decimal" if kind == "dec" else "float")
        if kind == "date":
            y, m, d = rng.randint(1, 2030), rng.randint(1, 12), \
                rng.randint(1, 28)
            if rng.random() < 0.5:
                return typed("%04d-%02d-%02d" % (y, m, d), "date")
            return typed("%04d-%02d-%02dT%02d:%02d:%02d" % (
                y, m, d, rng.randint(0, 23), rng.randint(0, 59),
                rng.randint(0, 59)), "dateTime")
        w = rng.choice(WORDS)
        if rng.random() < 0.4:
            w += " " + rng.choice(WORDS)
        if kind == "label":
            return '"%s"@%s' % (w, rng.choice(LANGS))
        return '"%s"' % w

    def turtle(self):
        return "".join("%s %s %s .\n" % t for t in self.list)


class BigKB(KB):
    """Large relations next to tiny ones: reaches galloping joins, relations
    that are stored in several blocks and size dependent plan choices."""

    def __init__(self, rng, n_ent=None, blocks=False):
        self.rng = rng
        n_ent = n_ent or rng.choice([1500, 14000])
        self.langs = False
        self.style = "e%05d"
        n = n_ent
        self.ent = ["<e%05d>" % i for i in range(n)]
        sizes = {}
        triples = set()

        def rel(name, pairs):
            p = "<%s>" % name
            sizes[p] = len(set(pairs))
            triples.update((a, p, b) for a, b in pairs)
            return p
        pick = rng.choice
        ent = self.ent
        self.link = []
        if blocks:
            perm = list(ent)
            rng.shuffle(perm)
            self.link.append(rel("func", list(zip(ent, perm))))
            few = rng.sample(ent, 40)
            self.link.append(rel("many", [
                (e, pick(few if rng.random() < 0.5 else ent))
                for e in ent for _ in range(2)]))
            hubs = rng.sample(ent, 3)
            self.link.append(rel("hub", [
                (pick(hubs), e) for e in ent if rng.random() < 0.95]))
            edge = 0
        else:
            # Relations that do not touch every entity, so that small tables
            # have values before, between and after those of the large one.
            edge = pick([0, 20, n // 2])
            edge = min(edge, 1000)
            sub = ent[edge:][::pick([1, 2, 2])]
            mode = rng.choice(["uniform", "skewed"]) if n < 4000 else "func"
            if mode == "uniform":
                pairs = [(pick(sub), pick(ent)) for _ in range(6 * n)]
            elif mode == "skewed":
                few = rng.sample(sub, 30)
                pairs = [(pick(few), e) for e in ent for _ in range(5)]
            else:
                pairs = [(e, pick(sub)) for e in sub]
            self.link.append(rel("big0", pairs))
            self.link.append(rel("big1", [(pick(sub), pick(sub))
                                          for _ in range(10000)]))
        for i in range(8):
            k = pick([1, 2, 3, 4, 5, 6, 7, 8])
            lo = pick([0, n // 2, n - 40])
            near = ent[max(0, edge - 8):edge + 16]
            pool = pick([ent, ent[lo:lo + 40], near, near, near, ent[-8:]])
            self.link.append(rel("tiny%d" % i, [(pick(pool), pick(pool))
                                                for _ in range(k)]))
        for i in range(2):
            self.link.append(rel("mid%d" % i, [
                (pick(ent), pick(ent)) for _ in range(n // 8)]))
        self.attr = {"int": ["<num>"]}
        for e in rng.sample(ent, min(n, 600)):
            triples.add((e, "<num>", self.value("int")))
        self.weight = {p: 6 if p.startswith("<tiny") else 2
                       for p in self.link}
        self.list = sorted(triples)
        rng.shuffle(self.list)
        self.graph = S.Graph(self.list)


class TooBig(Exception):
    pass


class Scope:
    def __init__(self, parent=None):
        self.types = {}       # variable -> kind
        self.sure = []        # variables bound in every solution
        self.names = parent.names if parent else [0]


class QueryGen:
    """Generates random queries over a KB together with their expected
    solutions.  features selects which constructs appear."""

    def __init__(self, rng, kb, features, max_rows=1500):
        self.rng, self.kb, self.g = rng, kb, kb.graph
        self.f = set(features)
        self.max_rows = max_rows
        self.preds = [(p, "ent") for p in kb.link]
        for k, ps in kb.attr.items():
            self.preds += [(p, k) for p in ps]
        self.preds = [(p, k) for p, k in self.preds if self.g.by_p.get(p)]
        w = getattr(kb, "weight", {})
        self.preds = [x for x in self.preds for _ in range(w.get(x[0], 1))]
        self.links = [(p, k) for p, k in self.preds if k == "ent"]
        self.token = 0
        if "haspred" in self.f and not self.g.by_p.get(S.HAS_PREDICATE):
            self.g.add_has_predicate()

    def fresh(self, sc):
        # Names are unique per query: the engine's cache keys of filters name
        # variables (a listed finding), so reused names are tested elsewhere.
        sc.names[0] += 1
        return "?%s%dq%d" % (self.rng.choice("abxyz"), sc.names[0],
                             self.token)

    def add(self, sc, v, kind):
        sc.types[v] = kind
        sc.sure.append(v)

    def triple(self, sc, anchor=None):
        """One triple pattern that shares a variable with the scope (or
        anchor) if there is one."""
        rng, g = self.rng, self.g
        ents = [v for v in sc.sure if sc.types[v] == "ent"]
        if anchor:
            ents = [anchor]
        if "haspred" in self.f and rng.random() < 0.3:
            e = self.has_predicate(sc, ents)
            if e is not None:
                return e
        p, k = rng.choice(self.preds if rng.random() < 0.6 and self.links
                          else (self.links or self.preds))
        t = rng.choice(g.by_p[p])
        if not sc.sure and not anchor:
            r = rng.random()
            if r < 0.12:
                v = self.fresh(sc)
                self.add(sc, v, k)
                return S.Triple(t[0], p, v)
            if r < 0.24:
                v = self.fresh(sc)
                self.add(sc, v, "ent")
                return S.Triple(v, p, t[2])
            a, b = self.fresh(sc), self.fresh(sc)
            self.add(sc, a, "ent")
            if k == "ent" and rng.random() < 0.04 and \
                    "selfloop" in self.f:
                return S.Triple(a, p, a)
            self.add(sc, b, k)
            return S.Triple(a, p, b)
        if not ents:
            # Only literal variables: join on the literal.
            v = rng.choice(sc.sure)
            cands = [x for x, kk in self.preds if kk == sc.types[v]]
            a = self.fresh(sc)
            if not cands:
                raise TooBig()
            self.add(sc, a, "ent")
            return S.Triple(a, rng.choice(cands), v)
        x = rng.choice(ents)
        if "varpred" in self.f and rng.random() < 0.15:
            pv, o = self.fresh(sc), self.fresh(sc)
            self.add(sc, pv, "vpred")
            self.add(sc, o, "any")
            if rng.random() < 0.6:
                return S.Triple(x, pv, o)
            return S.Triple(o, pv, x)
        r = rng.random()
        if k == "ent" and r < 0.35:
            o = self.fresh(sc)
            self.add(sc, o, "ent")
            return S.Triple(o, p, x)
        if k == "ent" and r < 0.45 and len(ents) > 1 and \
                "multi" in self.f:
            y = rng.choice([e for e in ents if e != x])
            return S.Triple(x, p, y)
        if r < 0.58:
            return S.Triple(x, p, t[2])
        same = [v for v in sc.sure if sc.types[v] == k and v != x]
        if k != "ent" and same and r < 0.65 and "multi" in self.f:
            return S.Triple(x, p, rng.choice(same))
        o = self.fresh(sc)
        self.add(sc, o, k)
        return S.Triple(x, p, o)

    def has_predicate(self, sc, ents):
        rng = self.rng
        hp = S.HAS_PREDICATE
        pv = [v for v in sc.sure if sc.types[v] == "pred"]
        ents = ents + [v for v in sc.sure if sc.types[v] == "any"]
        r = rng.random()
        if not sc.sure and not ents:
            if r < 0.3:
                o = self.fresh(sc)
                self.add(sc, o, "pred")
                return S.Triple(rng.choice(self.kb.ent), hp, o)
            s = self.fresh(sc)
            self.add(sc, s, "ent")
            if r < 0.65:
                return S.Triple(s, hp, rng.choice(self.preds)[0])
            o = self.fresh(sc)
            self.add(sc, o, "pred")
            return S.Triple(s, hp, o)
        if pv and r < 0.2:
            s = self.fresh(sc)
            self.add(sc, s, "ent")
            return S.Triple(s, hp, rng.choice(pv))
        if pv and r < 0.35 and ents and "multi" in self.f:
            return S.Triple(rng.choice(ents), hp, rng.choice(pv))
        if not ents:
            return None
        if r < 0.5:
            return S.Triple(rng.choice(ents), hp, rng.choice(self.preds)[0])
        o = self.fresh(sc)
        self.add(sc, o, "pred")
        return S.Triple(rng.choice(ents), hp, o)

    def predicate_counts(self, sc, grp):
        """A query of the form the pattern trick answers."""
        rng = self.rng
        p, n = self.fresh(sc), self.fresh(sc)
        r = rng.random()
        unique = True
        if r < 0.07:
            grp, x = S.Group([]), rng.choice(self.kb.ent)
        elif r < 0.12:
            grp, x = S.Group([]), self.fresh(sc)
        else:
            xs = [v for v in sc.sure if sc.types[v] == "ent"]
            if not xs:
                raise TooBig()
            x = rng.choice(xs)
            rows = grp.eval(self.g)
            unique = len({r[x] for r in rows}) == len(rows)
            if not unique and ("notrick" in self.f or any(
                    isinstance(e, S.Filter) and uses_var(e, x)
                    for e in grp.elems)):
                # Counted per row, not per entity.
                raise TooBig()
        if rng.random() < 0.15:
            n = None
        q = S.PredicateCounts(grp, x, p, n,
                              x if rng.random() < 0.4 and S.is_var(x) else p)
        if "filter" in self.f and rng.random() < 0.3:
            c = ("term", rng.choice(self.preds)[0])
            q.group.elems.append(S.Filter(p, rng.choice(["=", "!="]), c))
        elif unique and S.is_var(x) and grp.elems and rng.random() < 0.2:
            q.group.elems.append(S.Values([p], [
                (y,) for y in sorted({rng.choice(self.preds)[0]
                                      for _ in range(3)})]))
        if n and rng.random() < 0.3:
            q.having.append(S.Filter(n, rng.choice(["<", ">", ">=", "<="]),
                                     ("num", Decimal(rng.randint(1, 6)))))
        if n and rng.random() < 0.4:
            q.order = [(n, rng.choice([True, False]))]
        return q

    def path_expr(self, depth=0):
        rng = self.rng
        p = ("p", rng.choice(self.links)[0])
        r = rng.random()
        if depth >= 2 or r < 0.25:
            return p
        if r < 0.42:
            return ("+", p if rng.random() < 0.75 else
                    self.path_expr(depth + 1))
        if r < 0.58:
            return ("/",) + tuple(self.path_expr(depth + 1)
                                  for _ in range(rng.choice([2, 2, 3])))
        if r < 0.74:
            return ("|",) + tuple(self.path_expr(depth + 1)
                                  for _ in range(rng.choice([2, 2, 3])))
        if r < 0.86:
            return ("^", self.path_expr(depth + 1))
        return (rng.choice("*?"), p)

    def filter(self, sc, sure=None):
        """A filter on a certainly bound variable."""
        e = self.plain_filter(sc, sure)
        if e is not None and self.rng.random() < 0.2:
            e.alt = True
        return e

    def plain_filter(self, sc, sure=None):
        rng, g = self.rng, self.g
        vs = [v for v in (sure or sc.sure)
              if sc.types.get(v) in ("int", "dec", "flt", "date", "label",
                                     "tag", "ent")]
        if not vs:
            return None
        v = rng.choice(vs)
        k = sc.types[v]
        if k in ("int", "dec", "flt"):
            same = [w for w in vs if w != v and sc.types[w] == k]
            if same and rng.random() < 0.3:
                return S.Filter(v, rng.choice(["<", "<=", ">", ">=", "=",
                                               "!="]), rng.choice(same))
            vals = [S.num_value(t[2]) for p in self.kb.attr[k]
                    for t in g.by_p.get(p, ())]
            if not vals:
                return None
            c = rng.choice(vals)
            if k == "int":
                if rng.random() < 0.3:
                    c += rng.randint(-2, 2)
                op = rng.choice(["<", "<=", ">", ">=", "=", "!="])
                if c < 0 and "negconst" not in self.f:
                    c = -c
            else:
                # Constants are floats; keep clear of ties between types.
                op = rng.choice(["<", "<=", ">", ">="])
                c = abs(c) + Decimal("0.00005")
            return S.Filter(v, op, ("num", c))
        if k == "date":
            same = [w for w in vs if w != v and sc.types[w] == k]
            if same:
                return S.Filter(v, rng.choice(["<", "<=", ">", ">="]),
                                rng.choice(same))
            if "dateconst" not in self.f:
                return None
            t = rng.choice([t for p in self.kb.attr[k]
                            for t in g.by_p.get(p, ())] or [None])
            if t is None:
                return None
            return S.Filter(v, rng.choice(["<", "<=", ">", ">=", "=", "!="]),
                            ("term", t[2]))
        if k == "ent":
            r = rng.random()
            same = [w for w in vs if w != v and sc.types[w] == k]
            if same and r < 0.4:
                return S.Filter(v, rng.choice(["=", "!="]), rng.choice(same))
            if r < 0.65:
                return S.Filter(v, rng.choice(["=", "!="]),
                                ("term", rng.choice(self.kb.ent)))
            e = rng.choice(self.kb.ent)
            if r < 0.8 and "prefix" in self.f:
                ents = [w for w in vs if sc.types[w] == "ent"]
                cl = [(v, e[:-1 - rng.randint(1, 2)])]
                while rng.random() < 0.4:
                    cl.append((rng.choice(ents),
                               rng.choice(self.kb.ent)[:-1 -
                                                       rng.randint(1, 2)]))
                return S.Filter(v, "prefix", cl)
            if "regex" in self.f:
                return S.Filter(v, "regex", rng.choice(
                    ["[0-4]>", "1", "0%d" % rng.randint(0, 2), "2>$"]))
            return None
        if k == "label":
            if "lang" in self.f and rng.random() < 0.6:
                return S.Filter(v, "lang", rng.choice(LANGS))
        if "prefix" in self.f and rng.random() < 0.4:
            return S.Filter(v, "litprefix",
                            rng.choice(WORDS)[:rng.randint(1, 4)])
        if "regex" in self.f:
            w = rng.choice(WORDS)
            return S.Filter(v, rng.choice(["regex", "iregex"]), rng.choice(
                [w, w[:3], w[0] + ".*" + w[-1], "[aeiou]ta", w.upper()]))
        return None

    def bgp(self, sc, n, anchor=None):
        out = []
        for i in range(n):
            if "path" in self.f and self.links and self.rng.random() < \
                    ("pathheavy" in self.f and 0.75 or 0.4):
                e = self.path(sc, anchor if i == 0 else None)
                if e is not None:
                    out.append(e)
                    continue
            out.append(self.triple(sc, anchor if i == 0 else None))
        return out

    def path(self, sc, anchor=None):
        rng = self.rng
        for _ in range(20):
            p = self.path_expr()
            if not S.path_nullable(p):
                break
        else:
            return None
        ents = [anchor] if anchor else \
            [v for v in sc.sure if sc.types[v] == "ent"]
        r = rng.random()
        if ents:
            a = rng.choice(ents)
        elif sc.sure:
            return None
        elif r < 0.15:
            a = rng.choice(self.kb.ent)
        else:
            a = self.fresh(sc)
            self.add(sc, a, "ent")
        if S.is_var(a) and rng.random() < 0.12:
            b = rng.choice(self.kb.ent)
        else:
            b = self.fresh(sc)
            self.add(sc, b, "ent")
        if rng.random() < 0.5:
            return S.PathT(a, p, b)
        return S.PathT(b, p, a)

    def child(self, sc, share, n=None, feats=()):
        """A nested group that shares exactly the variable share."""
        cs = Scope(sc)
        cs.types[share] = sc.types[share]
        cs.sure.append(share)
        if sc.types[share] != "ent":
            e = self.triple(cs)
            elems = [e]
        else:
            elems = self.bgp(cs, n or self.rng.choice([1, 1, 2]),
                             anchor=share)
        if "filter" in self.f and self.rng.random() < 0.25:
            f = self.filter(cs, [v for v in cs.sure if v != share])
            if f is not None:
                elems.append(f)
        if "text" in self.f and self.rng.random() < 0.35 and \
                sc.types[share] == "ent":
            elems.append(self.text(cs, share))
        if "nested" in self.f and "optional" in self.f and \
                self.rng.random() < 0.15:
            ents = [v for v in cs.sure if cs.types[v] == "ent"]
            if ents:
                x = self.rng.choice(ents)
                inner, gs = self.child(cs, x)
                elems.append(S.Optional(inner))
        return S.Group(elems), cs

    def group(self, sc):
        rng, f = self.rng, self.f
        elems = []
        first = rng.random()
        if "values" in f and first < 0.25:
            elems.append(self.values(sc))
        elif "sub" in f and first < 0.45:
            elems.append(self.sub(sc))
        elems += self.bgp(sc, rng.choice([1, 1, 2, 2, 3]
                                         if "big" not in f
                                         else [2, 3, 3, 4, 5]))
        if "text" in f:
            e = self.text(sc) if rng.random() < 0.9 else None
            if e is not None:
                elems.insert(rng.randint(0, len(elems)), e)
                if rng.random() < 0.15:
                    elems.append(self.text(sc))
        for feat in ("values", "union", "optional", "minus", "bind", "sub"):
            if feat in f and rng.random() < 0.35:
                e = getattr(self, feat)(sc)
                if e is not None:
                    elems.append(e)
                    if rng.random() < 0.3 and feat in ("optional", "union"):
                        ents = [v for v in sc.sure if sc.types[v] == "ent"]
                        if ents:
                            elems.append(self.triple(sc))
        if "filter" in f:
            for _ in range(rng.choice([1, 1, 2, 3])
                           if "filterheavy" in f else rng.choice([0, 1])):
                e = self.filter(sc)
                if e is not None:
                    elems.insert(rng.randint(1, len(elems)), e)
        return S.Group(elems)

    def text(self, sc, anchor=None):
        """Text patterns around an entity variable of the scope."""
        rng, tx = self.rng, self.kb.texts
        ents = [anchor] if anchor else [v for v in sc.sure
                                        if sc.types[v] == "ent"]
        if sc.sure and not ents:
            return None
        ev = [rng.choice(ents)] if ents else []
        # One pattern with several entity variables is enough for one query:
        # the combinations multiply.
        most = 1 if self.used_text else 3
        while len(ev) < most and (not ev or rng.random() < 0.25):
            v = self.fresh(sc)
            self.add(sc, v, "ent")
            ev.append(v)
        rng.shuffle(ev)
        terms = [tx.term(known=False) for _ in range(rng.choice([1, 1, 2, 2,
                                                                 3, 4]))]
        t = self.fresh(sc)
        self.add(sc, t, "ctx")
        self.used_text = True
        return TextClique(tx, t, list(dict.fromkeys(terms)), ev, rng)

    def share_var(self, sc):
        ents = [v for v in sc.sure if sc.types[v] == "ent"]
        return self.rng.choice(ents) if ents else None

    def values(self, sc):
        rng = self.rng
        v = self.share_var(sc) if sc.sure else None
        if sc.sure and v is None:
            return None
        if v is None:
            v = self.fresh(sc)
            self.add(sc, v, "ent")
        rows = [(e,) for e in rng.sample(
            self.kb.ent, min(len(self.kb.ent), rng.randint(1, 6)))]
        if rng.random() < 0.3 and rows:
            w = self.fresh(sc)
            self.add(sc, w, "ent")
            return S.Values([v, w], [(r[0], rng.choice(self.kb.ent))
                                     for r in rows])
        return S.Values([v], rows)

    def union(self, sc):
        v = self.share_var(sc)
        if v is None:
            return None
        a, ca = self.child(sc, v)
        b, cb = self.child(sc, v)
        # Both sides may bind the same new variable.
        na = [x for x in ca.sure if x != v]
        nb = [x for x in cb.sure if x != v]
        pairs = [(x, y) for x in na for y in nb
                 if ca.types[x] == cb.types[y]]
        if pairs and self.rng.random() < 0.6:
            x, y = self.rng.choice(pairs)
            rename(b, y, x)
            self.add(sc, x, ca.types[x])
        return S.Union(a, b)

    def optional(self, sc):
        v = self.share_var(sc)
        if v is None:
            return None
        a, _ = self.child(sc, v)
        return S.Optional(a)

    def minus(self, sc):
        v = self.share_var(sc)
        if v is None:
            return None
        a, _ = self.child(sc, v)
        return S.Minus(a)

    def bind(self, sc):
        rng = self.rng
        v = self.fresh(sc)
        r = rng.random()
        if r < 0.4:
            b = S.Bind("int", rng.randint(0, 50), v)
        elif r < 0.7:
            b = S.Bind("term", rng.choice(self.kb.ent), v)
        else:
            b = S.Bind("var", rng.choice(sc.sure), v)
        return b

    def sub(self, sc):
        rng = self.rng
        cs = Scope(sc)
        v = self.share_var(sc) if sc.sure else None
        if sc.sure and v is None:
            return None
        if v is not None:
            cs.types[v] = "ent"
            cs.sure.append(v)
            elems = self.bgp(cs, rng.choice([1, 2]), anchor=v)
        else:
            elems = self.bgp(cs, rng.choice([1, 2]))
        new = [x for x in cs.sure if x != v]
        keep = ([v] if v else []) + new
        # The engine exposes all variables of a subquery; select all of them.
        if "group" in self.f and v and rng.random() < 0.5:
            x = rng.choice(new or [v])
            n = self.fresh(cs)
            q = S.Query([v, S.Agg("COUNT", x, n)], S.Group(elems),
                        group_by=[v])
            return S.Sub(q)
        for x in keep:
            if x not in sc.sure:
                self.add(sc, x, cs.types[x])
        q = S.Query(keep, S.Group(elems), distinct=rng.random() < 0.3)
        if rng.random() < 0.4:
            q.order = [(x, rng.choice([True, False, None])) for x in
                       rng.sample(keep, rng.randint(1, min(2, len(keep))))]
        return S.Sub(q)

    def query(self):
        """Returns (Query, names, expected rows)."""
        self.token += 1
        for _ in range(60):
            try:
                sc = Scope()
                self.used_text = False
                grp = self.group(sc)
                if ambiguous_filter(grp):
                    continue
                check_size(self.g, grp, self.max_rows)
                q = self.finish(sc, grp)
                if "text" in self.f:
                    q.textlimit = 500
                names, rows = q.solutions(self.g)
            except TooBig:
                continue
            if not rows and self.rng.random() < 0.85:
                continue
            return q, names, rows
        raise TooBig()

    def finish(self, sc, grp):
        rng, f = self.rng, self.f
        if "trick" in f and rng.random() < 0.6:
            return self.predicate_counts(sc, grp)
        allv = sorted(group_vars(grp))
        if "group" in f and rng.random() < 0.85:
            return self.grouped(sc, grp)
        if any(isinstance(e, S.PathT) and S.path_has_null(e.path)
               for e in walk(grp)):
            return S.Query(rng.sample(allv, rng.randint(1, len(allv))), grp,
                           distinct=True)
        k = rng.randint(1, len(allv))
        sel = rng.sample(allv, k)
        q = S.Query(sel, grp)
        if "distinct" in f and rng.random() < 0.5:
            q.distinct = True
        if "order" in f and rng.random() < 0.8:
            c = [v for v in sel if v in sc.sure and sc.types[v] != "ctx"
                 or v.startswith("SCORE")]
            if c:
                ks = rng.sample(c, rng.randint(1, min(3, len(c))))
                q.order = [(v, rng.choice([True, False] if v[0] == "S" else
                                          [True, False, None])) for v in ks]
        if "limit" in f:
            if rng.random() < 0.6:
                q.limit = rng.choice([0, 1, 2, 3, 5, 10, 1000])
            if rng.random() < 0.4:
                q.offset = rng.choice([0, 1, 2, 4, 9, 1000])
        return q

    def grouped(self, sc, grp):
        rng = self.rng
        sure = [v for v in sc.sure if sc.types[v] != "any"]
        if not sure:
            raise TooBig()
        gb = rng.sample(sure, rng.randint(1, min(3, len(sure)))) \
            if rng.random() < 0.9 else None
        rest = [v for v in sc.sure if v not in (gb or [])] or sure
        sel = list(gb or [])
        aggs = []
        for _ in range(rng.choice([1, 1, 2])):
            v = rng.choice(rest)
            k = sc.types[v]
            fns = ["COUNT", "COUNT", "SAMPLE"]
            if k in ("ent", "tag", "label"):
                fns += ["GROUP_CONCAT"]
            if k in ("int", "dec", "flt"):
                fns += ["SUM", "AVG", "MIN", "MAX", "SUM", "AVG"]
            if k == "date":
                fns += ["MIN", "MAX"]
            fn = rng.choice(fns)
            name = self.fresh(sc)
            a = S.Agg(fn, v, name)
            if fn == "COUNT" and rng.random() < 0.5:
                a.distinct = True
            if fn in ("SUM", "AVG", "GROUP_CONCAT", "MIN", "MAX") and \
                    rng.random() < 0.4:
                a.distinct = True
            if fn == "GROUP_CONCAT" and rng.random() < 0.6:
                a.sep = rng.choice([",", ";", " / ", ""])
            aggs.append(a)
            sel.append(a)
        q = S.Query(sel, grp, group_by=gb)
        if "having" in self.f and gb and rng.random() < 0.6:
            for a in aggs:
                if a.fn == "COUNT":
                    q.having.append(S.Filter(
                        a.name, rng.choice(["<", ">", ">=", "<=", "=", "!="]),
                        ("num", Decimal(rng.randint(1, 4)))))
                elif a.fn in ("SUM", "AVG") and \
                        sc.types[a.var] == "int":
                    q.having.append(S.Filter(
                        a.name, rng.choice(["<", ">"]),
                        ("num", Decimal(rng.randint(0, 100)) +
                         Decimal("0.37"))))
        for h in q.having:
            h.alt = rng.random() < 0.2
        if "order" in self.f and rng.random() < 0.4:
            c = [a.name for a in aggs if a.fn == "COUNT"]
            if c:
                q.order = [(c[0], rng.choice([True, False]))]
        return q


def uses_var(f, x):
    """Whether a filter mentions the variable x."""
    return f.lhs == x or f.rhs == x or f.op == "prefix" and any(
        v == x for v, _ in f.rhs)


def group_vars(grp):
    out = set()
    for e in grp.elems:
        if isinstance(e, (S.Triple, S.PathT, TextClique)):
            out |= e.vars()
        elif isinstance(e, S.Optional):
            out |= group_vars(e.group)
        elif isinstance(e, S.Union):
            out |= group_vars(e.a) | group_vars(e.b)
        elif isinstance(e, S.Values):
            out |= set(e.vs)
        elif isinstance(e, S.Bind):
            out.add(e.var)
        elif isinstance(e, S.Sub):
            out |= set(e.query.names())
    return out


def subgroups(e):
    if isinstance(e, (S.Optional, S.Minus)):
        return [e.group]
    if isinstance(e, S.Union):
        return [e.a, e.b]
    if isinstance(e, S.Sub):
        return [e.query.group]
    return []


def path_preds(p):
    if p[0] == "p":
        return [p[1]]
    return [x for q in p[1:] for x in path_preds(q)]


def walk(grp):
    for e in grp.elems:
        yield e
        for g in subgroups(e):
            yield from walk(g)


def ambiguous_filter(grp):
    """Whether two parts of the query could differ only in the role of a
    filtered variable: the engine takes one part's result for the other's
    (listed finding), so the random workload leaves such queries out."""
    fv, subj, obj, uses = set(), set(), set(), []
    for e in walk(grp):
        if isinstance(e, S.Filter):
            fv.add(e.lhs)
            if e.op == "prefix":
                fv |= {v for v, _ in e.rhs}
            elif isinstance(e.rhs, str) and e.rhs.startswith("?"):
                fv.add(e.rhs)
        elif isinstance(e, S.Triple):
            subj.add((e.s, e.p))
            obj.add((e.o, e.p))
            uses.append(e.p)
        elif isinstance(e, S.PathT):
            for p in path_preds(e.path):
                for v in (e.s, e.o):
                    subj.add((v, p))
                    obj.add((v, p))
                uses.append(p)
    if not fv:
        return False
    twice = {p for p in uses if uses.count(p) > 1}
    return len(twice) > 1 or any(
        (v, p) in subj and (v, p) in obj for v in fv for p in twice)


def rename(grp, old, new):
    def r(t):
        return new if t == old else t
    for e in grp.elems:
        if isinstance(e, S.Triple):
            e.s, e.p, e.o = r(e.s), r(e.p), r(e.o)
        elif isinstance(e, S.PathT):
            e.s, e.o = r(e.s), r(e.o)
        elif isinstance(e, TextClique):
            e.rename(r)
        elif isinstance(e, S.Filter):
            e.lhs = r(e.lhs)
            if isinstance(e.rhs, str) and e.op not in (
                    "lang", "regex", "iregex", "litprefix"):
                e.rhs = r(e.rhs)
            elif e.op == "prefix":
                e.rhs = [(r(v), x) for v, x in e.rhs]
        elif isinstance(e, S.Optional):
            rename(e.group, old, new)


def check_size(g, grp, cap):
    """Evaluates the group step by step and gives up when it gets large."""
    rows = [{}]
    for e in grp.elems:
        if isinstance(e, S.Filter):
            continue
        if isinstance(e, (S.Optional, S.Minus)):
            check_size(g, e.group, cap)
        if isinstance(e, S.Union):
            check_size(g, e.a, cap)
            check_size(g, e.b, cap)
        if isinstance(e, S.Sub):
            check_size(g, e.query.group, cap)
        rows = e.join(g, rows)
        if len(rows) > cap:
            raise TooBig()
