"""Answers must not depend on what the result cache holds."""
import copy
import json
import re
from decimal import Decimal

from . import env, sparql as S
from .gen import (KB, LANGS, QueryGen, TooBig, WORDS, ambiguous_filter,
                  check_size, path_preds, rename, subgroups, uses_var,
                  walk)
from .q_text import limited_query
from .session import Session, rng_for, run_jobs
from .text import TextClique, Texts


# ------------------------------------------------------------ query families
def leading(grp):
    """The patterns of a group up to the first other element."""
    out = []
    for e in grp.elems:
        if isinstance(e, (S.Triple, S.PathT)):
            out.append(e)
        elif not isinstance(e, (S.Filter, TextClique)):
            break
    return out


def connected(ts):
    left, seen = list(ts[1:]), set(ts[0].vars())
    while left:
        hit = [y for y in left if y.vars() & seen]
        if not hit:
            raise TooBig()
        for y in hit:
            seen |= y.vars()
            left.remove(y)


class Family:
    """A query and siblings that differ from it in one or two details."""

    def __init__(self, gen, size):
        self.rng, self.kb, self.g, self.gen = gen.rng, gen.kb, gen.g, gen
        base = gen.query()
        self.members = [base]
        used = set()
        for e in walk(base[0].group):
            if isinstance(e, S.Triple):
                used.add(e.p)
            elif isinstance(e, S.PathT):
                used |= set(path_preds(e.path))
        # Every predicate gets a partner that nothing else in the family uses.
        kinds = dict(gen.preds)
        self.partner = {}
        for p in sorted(used & set(kinds)):
            c = [x for x, k in gen.preds if k == kinds[p] and x not in used]
            if c:
                self.partner[p] = self.rng.choice(c)
                used.add(self.partner[p])
        seen = {base[0].render(self.g)}
        for _ in range(4 * size):
            if len(self.members) >= size:
                break
            q = copy.deepcopy(self.rng.choice(self.members)[0], {
                id(getattr(self.kb, "texts", None)):
                    getattr(self.kb, "texts", None)})
            try:
                self.mutate(q)
                if self.rng.random() < 0.25:
                    self.mutate(q)
                text = q.render(self.g)
                if text in seen or ambiguous_filter(q.group):
                    continue
                check_size(self.g, q.group, gen.max_rows)
                if isinstance(q, S.PredicateCounts) and S.is_var(q.x) and \
                        any(isinstance(e, S.Filter) and uses_var(e, q.x) or
                            isinstance(e, S.Values)
                            for e in q.group.elems):
                    # Such queries count rows, see QueryGen.
                    xs = [r[q.x] for r in q.body.eval(self.g)]
                    if len(set(xs)) != len(xs):
                        continue
                names, rows = q.solutions(self.g)
            except TooBig:
                continue
            seen.add(text)
            self.members.append((q, names, rows))

    def mutate(self, q):
        rng = self.rng
        self.group = q.group
        opts = []
        for e in walk(q.group):
            m = getattr(self, "m_" + type(e).__name__.lower(), None)
            if m is not None:
                opts += [(m, e)] * (2 if isinstance(e, S.Filter) else 1)
        counts = isinstance(q, S.PredicateCounts)
        if counts:
            # The body shares its parts with the group.
            opts = [o for o in opts if isinstance(o[1], S.Filter)]
            if S.is_var(q.x):
                opts += [(self.m_count_var, q)] * 2
        else:
            opts += [(self.m_modifiers, q)] * 3 + [(self.m_predicate, q)] * 2
            opts += [(self.m_agg, a) for a in q.aggs()] * 2
            opts += [(self.m_drop, q)]
            opts += [(self.m_rename, q)] * 2 + [(self.m_swap, q)]
        opts += [(self.m_number, h) for h in q.having] * 2
        if not opts:
            raise TooBig()
        f, x = rng.choice(opts)
        f(x)

    def other(self, t):
        """Another entity for an entity."""
        if t in self.kb.ent:
            return self.rng.choice(self.kb.ent)
        return t

    def m_triple(self, e):
        if e.p == S.HAS_PREDICATE or S.is_var(e.p):
            return
        if not S.is_var(e.s):
            e.s = self.other(e.s)
        elif not S.is_var(e.o):
            e.o = self.rng.choice(self.g.by_p[e.p])[2]

    def m_patht(self, e):
        rng = self.rng
        if not S.is_var(e.s):
            e.s = self.other(e.s)
        elif not S.is_var(e.o):
            e.o = self.other(e.o)
        elif e.path[0] == "+" and e.path[1][0] == "p":
            e.path = e.path[1]
        elif e.path[0] == "p" and rng.random() < 0.7:
            e.path = ("+", e.path)
        elif e.path[0] == "^":
            e.path = e.path[1]
        elif e.path[0] in "/|" and not S.path_has_null(e.path):
            # The order of alternatives does not matter, that of steps does.
            parts = list(e.path[1:])
            rng.shuffle(parts)
            e.path = (rng.choice("/|") if rng.random() < 0.4
                      else e.path[0],) + tuple(parts)
        if S.path_nullable(e.path):
            raise TooBig()

    def m_rename(self, q):
        """Lets a pattern use another variable of its group."""
        groups = [q.group] + [g for e in walk(q.group) for g in subgroups(e)]
        opts = []
        for grp in groups:
            ts = leading(grp)
            for e in ts:
                if isinstance(e, S.Triple) and (
                        e.p == S.HAS_PREDICATE or S.is_var(e.p)):
                    continue
                rest = set().union(*[x.vars() for x in ts if x is not e])
                for f in "so":
                    if getattr(e, f) in rest:
                        for v in sorted(rest - e.vars()):
                            opts.append((ts, e, f, v))
        if not opts:
            raise TooBig()
        ts, e, f, v = self.rng.choice(opts)
        setattr(e, f, v)
        connected(ts)

    def m_swap(self, q):
        """Exchanges two variables within a part of the query."""
        busy = {v for v, _ in q.order} | {a.var for a in q.aggs()}
        for e in walk(q.group):
            if isinstance(e, (S.Filter, S.Bind, S.Sub)):
                busy |= set(re.findall(r"\?\w+", e.render(self.g)))
        opts = []
        for e in walk(q.group):
            for grp in subgroups(e):
                if isinstance(e, S.Sub) or not all(
                        isinstance(x, (S.Triple, S.PathT)) and
                        not S.is_var(getattr(x, "p", "")) and
                        getattr(x, "p", "") != S.HAS_PREDICATE
                        for x in grp.elems):
                    continue
                vs = sorted(set().union(*[x.vars() for x in grp.elems]) -
                            busy)
                if len(vs) > 1:
                    opts.append((grp, vs))
        if not opts:
            raise TooBig()
        grp, vs = self.rng.choice(opts)
        a, b = self.rng.sample(vs, 2)
        rename(grp, a, "?tmp")
        rename(grp, b, a)
        rename(grp, "?tmp", b)

    def m_count_var(self, q):
        """Counts the predicates of another variable."""
        vs = set().union(*[e.vars() for e in leading(q.body)])
        if q.x not in vs or len(vs) < 2:
            raise TooBig()
        new = self.rng.choice(sorted(vs - {q.x, q.p}))
        for a in q.aggs():
            if a.var == q.x:
                a.var = new
        for e in q.group.elems:
            if isinstance(e, S.Triple) and e.p == S.HAS_PREDICATE and \
                    e.s == q.x and e.o == q.p:
                e.s = new
        q.x = new

    def m_predicate(self, q):
        """Exchanges a predicate for its partner wherever it occurs."""
        if not self.partner:
            return
        p = self.rng.choice(sorted(self.partner))
        swap = {p: self.partner[p], self.partner[p]: p}

        def path(x):
            return ("p", swap.get(x[1], x[1])) if x[0] == "p" else \
                (x[0],) + tuple(path(y) for y in x[1:])
        for e in walk(q.group):
            if isinstance(e, S.Triple) and e.p != S.HAS_PREDICATE:
                e.p = swap.get(e.p, e.p)
            elif isinstance(e, S.PathT):
                e.path = path(e.path)

    def m_filter(self, e):
        rng = self.rng
        r = rng.random()
        order, equal = ["<", "<=", ">", ">="], ["=", "!="]
        if e.op in order and r < 0.4:
            e.op = rng.choice([o for o in order if o != e.op])
        elif e.op in equal and (r < 0.4 or isinstance(e.rhs, str)):
            e.op = equal[1 - equal.index(e.op)]
        elif e.op in ("regex", "iregex"):
            if r < 0.35:
                e.op = "regex" if e.op == "iregex" else "iregex"
            elif "1" in e.rhs or "0" in e.rhs or "2" in e.rhs:
                e.rhs = rng.choice(["[0-4]>", "1", "00", "01", "02", "2>$"])
            else:
                w = rng.choice(WORDS)
                e.rhs = rng.choice([w, w[:3], w[0] + ".*" + w[-1]])
        elif e.op == "lang":
            e.rhs = rng.choice(LANGS)
        elif e.op == "litprefix":
            e.rhs = rng.choice(WORDS)[:rng.randint(1, 4)]
        elif e.op == "prefix":
            v, _ = e.rhs[0]
            e.rhs[0] = (v, rng.choice(self.kb.ent)[:-1 - rng.randint(1, 2)])
        elif isinstance(e.rhs, tuple) and e.rhs[0] == "num":
            self.m_number(e)
        elif isinstance(e.rhs, tuple) and e.rhs[1] in self.kb.ent:
            e.rhs = ("term", rng.choice(self.kb.ent))

    def m_number(self, e):
        if isinstance(e.rhs, tuple) and e.rhs[0] == "num":
            c = e.rhs[1] + self.rng.choice([1, 1, 2, 3, 10])
            e.rhs = ("num", c)

    def m_values(self, e):
        rng = self.rng
        r = rng.random()
        rows = list(e.rows)
        if not all(x in self.kb.ent for row in rows for x in row):
            return
        if r < 0.3 and len(rows) > 1:
            rows.pop(rng.randrange(len(rows)))
        elif r < 0.6:
            i = rng.randrange(len(rows))
            row = list(rows[i])
            row[rng.randrange(len(row))] = rng.choice(self.kb.ent)
            rows[i] = tuple(row)
        elif len(e.vs) == 2 and r < 0.75:
            rows = [row[::-1] for row in rows]
        else:
            rows.append(tuple(rng.choice(self.kb.ent) for _ in e.vs))
        e.rows = list(dict.fromkeys(rows))

    def m_bind(self, e):
        rng = self.rng
        if e.kind == "int":
            e.arg = rng.randint(0, 50)
        elif e.kind == "term":
            e.arg = rng.choice(self.kb.ent)

    def m_textclique(self, e):
        tx = e.texts
        terms = list(e.terms)
        if e.evars and self.group is not None and self.rng.random() < 0.5:
            # Another variable of the group.
            vs = set().union(*[x.vars() for x in leading(self.group)])
            old = [v for v in e.evars if v in vs]
            new = sorted(vs - set(e.evars))
            if e in self.group.elems and old and new:
                e.evars[e.evars.index(self.rng.choice(old))] = \
                    self.rng.choice(new)
                return
        terms[self.rng.randrange(len(terms))] = tx.term(known=False)
        n = TextClique(tx, e.t, list(dict.fromkeys(terms)), e.evars, self.rng)
        e.terms, e.parts, e.order = n.terms, n.parts, n.order

    def m_agg(self, a):
        rng = self.rng
        r = rng.random()
        if a.fn in ("SUM", "AVG", "MIN", "MAX") and r < 0.5:
            return
        if a.fn == "GROUP_CONCAT" and r < 0.5:
            a.sep = rng.choice([",", ";", "|", " / ", "", None])
        elif a.fn == "COUNT" or a.fn in ("SUM", "AVG", "GROUP_CONCAT"):
            a.distinct = not a.distinct
        elif a.fn == "MIN":
            a.fn = "MAX"
        elif a.fn == "MAX":
            a.fn = "MIN"

    def m_modifiers(self, q):
        rng = self.rng
        r = rng.random()
        null = any(isinstance(e, S.PathT) and S.path_has_null(e.path)
                   for e in walk(q.group))
        if q.order and r < 0.4:
            i = rng.randrange(len(q.order))
            v, d = q.order[i]
            q.order[i] = (v, not d)
        elif len(q.order) > 1 and r < 0.6:
            rng.shuffle(q.order)
        elif r < 0.8 or q.aggs() or null:
            q.limit = rng.choice([None, 1, 2, 5, 10])
            q.offset = rng.choice([None, 0, 1, 3])
        else:
            q.distinct = not q.distinct

    def m_drop(self, q):
        """Leaves out a part that binds nothing the rest needs."""
        c = [e for e in q.group.elems if isinstance(e, (S.Filter, S.Minus))]
        if not c:
            return
        q.group.elems.remove(self.rng.choice(c))


class Roles:
    """Queries that attach the same part to each variable of the same scans."""

    def __init__(self, gen):
        rng, g = gen.rng, gen.g
        links = [p for p, _ in gen.links]
        if not links:
            raise TooBig()
        p = rng.choice(links)
        base = [S.Triple("?a", p, "?b")]
        if rng.random() < 0.3:
            base.append(S.Triple(*rng.choice([
                ("?b", rng.choice(links), "?c"),
                ("?c", rng.choice(links), "?a")])))
        vs = sorted(set().union(*[t.vars() for t in base]))
        q, kind = rng.choice(links), rng.choice(
            ["path", "path", "triple", "optional", "minus", "union"])
        self.members = []
        for v in vs:
            for s, o in ((v, "?n"), ("?n", v)):
                part = S.PathT(s, ("+", ("p", q)), o) if kind == "path" \
                    else S.Triple(s, q, o)
                if kind == "optional":
                    part = S.Optional(S.Group([part]))
                elif kind == "minus":
                    part = S.Minus(S.Group([part]))
                elif kind == "union":
                    part = S.Union(S.Group([part]), S.Group(
                        [S.Triple(v, p, "?n")]))
                grp = S.Group(base + [part])
                names = vs + (["?n"] if kind != "minus" else [])
                qu = S.Query(names, grp)
                try:
                    check_size(g, grp, gen.max_rows)
                    self.members.append((qu,) + tuple(qu.solutions(g)))
                except TooBig:
                    pass
        if not self.members:
            raise TooBig()


# -------------------------------------------------------------- cache state
class Stats:
    def __init__(self, ss):
        j = json.loads(ss.srv.get({"cmd": "cachestats"})[1])
        self.n, self.pn = j["num-non-pinned-entries"], j["num-pinned-entries"]
        self.s, self.ps = j["non-pinned-size"], j["pinned-size"]

    def __repr__(self):
        return "%d entries of size %d, %d pinned of size %d" % (
            self.n, self.s, self.pn, self.ps)


def command(ss, cmd, **params):
    try:
        ss.srv.get(dict(params, cmd=cmd))
        ss.history.append((None, dict(params, cmd=cmd)))
        ss.out.events[cmd] += 1
    except env.ServerFault as e:
        ss.fail("command:" + e.key, "%s: %s" % (cmd, e))
        ss.recover()
        raise Restarted()


class Restarted(Exception):
    pass


def history(rng, ss, kb, gen, conf, steps, text):
    out = ss.out
    fams = []
    for _ in range(5):
        try:
            fams.append(Roles(gen) if rng.random() < 0.25 else
                        Family(gen, rng.randint(3, 7)))
        except TooBig:
            out.events["too_big"] += 1
    out.events["families"] += len(fams)
    out.events["siblings"] += sum(len(f.members) for f in fams)
    if not fams:
        return
    state = Stats(ss)
    deaths = ss.deaths
    for _ in range(steps):
        r = rng.random()
        params, cmd, before = {}, None, None
        if r < 0.05:
            cmd = "clearcache"
        elif r < 0.08:
            cmd = "clearcachecomplete"
        elif r < 0.2:
            params["pinresult"] = "true"
        elif r < 0.28:
            params["pinsubtrees"] = "true"
        elif r < 0.32:
            params["pinresult"] = params["pinsubtrees"] = "true"
        before = state
        try:
            if cmd:
                command(ss, cmd)
            elif text and rng.random() < 0.3:
                params = {}
                limited_query(rng, ss, kb.texts, kb,
                              fixed=rng.choice(ss.fixed))
            else:
                q, names, rows = rng.choice(rng.choice(fams).members)
                if conf["e"] == 0 and params:
                    j = ss.ask(q.render(kb.graph), **params)
                    if j and j.get("status") != "OK" and \
                            "pin an entry" not in str(j.get("exception")):
                        ss.fail("refused", j.get("exception"),
                                q.render(kb.graph))
                else:
                    ss.check(q, names, rows, kb.graph, **params)
                    out.events["pinning"] += bool(params)
            if ss.deaths != deaths:
                raise Restarted()
            state = Stats(ss)
        except Restarted:
            deaths = ss.deaths
            state = Stats(ss)
            continue
        out.events["states"] += 1
        bad = None
        if cmd == "clearcache" and (state.n or state.s or
                                    (state.pn, state.ps) !=
                                    (before.pn, before.ps)):
            bad = "after clearing the unpinned part"
        elif cmd == "clearcachecomplete" and (state.n or state.s or state.pn
                                              or state.ps):
            bad = "after clearing everything"
        elif cmd is None and (state.pn < before.pn or state.ps < before.ps):
            bad = "pinned results were lost"
        elif cmd is None and not params and state.pn != before.pn:
            bad = "results were pinned without being asked to"
        elif "pinresult" in params and conf["e"] and not state.pn:
            bad = "nothing was pinned"
        elif state.n and conf["k"] is not None and \
                state.n + state.pn > conf["k"]:
            bad = "more than the permitted %d entries" % conf["k"]
        elif state.n and conf["c"] == 0 and state.s + state.ps > 0:
            bad = "larger than the permitted size 0"
        if bad:
            ss.fail("cache-state", "%s: %r -> %r" % (bad, before, state))


def lru(rng, ss, kb, conf, steps):
    """Scans occupy one entry each: an exact model of what is kept."""
    g, out = kb.graph, ss.out
    k = conf["k"]
    qs = [("SELECT ?s ?o WHERE { ?s %s ?o }" % p,
           [(t[0], t[2]) for t in g.by_p[p]]) for p in sorted(g.by_p)]
    recent, pinned = [], set()
    command(ss, "clearcachecomplete")
    for _ in range(steps):
        r = rng.random()
        if r < 0.03:
            command(ss, "clearcache")
            recent = []
            continue
        if r < 0.05:
            command(ss, "clearcachecomplete")
            recent, pinned = [], set()
            continue
        i = rng.randrange(min(len(qs), max(3, (k or 0) + 4)))
        params = {"pinresult": "true"} if rng.random() < 0.06 else {}
        j = ss.ask(qs[i][0], **params)
        if j is None:
            return
        hit = i in pinned or i in recent
        out.case("%s|lru %s %d %d" % (ss.label, recent, i, len(params)))
        if j["status"] != "OK" or len(j["res"]) != len(qs[i][1]):
            ss.fail("wrong-answer", "%s rows instead of %d" % (
                j.get("resultsize"), len(qs[i][1])), qs[i][0])
            return
        was = j["runtimeInformation"]["was_cached"]
        if was != hit:
            ss.fail("cache-eviction", "the result was %staken from the cache;"
                    " recently used: %s, pinned: %s, asked: %d, at most %s "
                    "entries" % ("" if was else "not ", recent,
                                 sorted(pinned), i, k), qs[i][0])
            return
        out.events["lru_hit" if hit else "lru_miss"] += 1
        if i in recent:
            recent.remove(i)
        if params:
            pinned.add(i)
        if i not in pinned:
            recent.append(i)
        while k is not None and recent and len(recent) + len(pinned) > k:
            recent.pop(0)


def canary(rng, ss):
    """Listed finding: the cache key of a filter names variables only."""
    ss.index("".join("<e%d> <l1> <e%d> .\n" % (i, (i * 3 + 1) % 7)
                     for i in range(7)))
    ss.serve()
    a = ss.rows('SELECT ?y1 ?y2 WHERE { ?y1 <l1> ?y2 . '
                'FILTER regex(?y1, "1") }')
    b = ss.rows('SELECT ?y2 ?y1 WHERE { ?y2 <l1> ?y1 . '
                'FILTER regex(?y1, "1") }')
    if a is None or b is None:
        return
    ss.out.case("canary filter roles")
    want = sorted(("<e%d>" % i, "<e1>") for i in range(7)
                  if (i * 3 + 1) % 7 == 1)
    if sorted(a) != [("<e1>", "<e4>")] or sorted(b) != want:
        ss.fail("canary:filter-variable-roles", "got %s then %s instead of "
                "%s" % (a, b, want))


RICH = ["multi", "filter", "regex", "group", "having", "order", "limit",
        "distinct", "optional", "union", "minus", "values", "bind", "sub"]


def q13(ctx):
    bins = ctx.qlever()
    jobs = []
    for m, (n, steps, feats) in enumerate([
            (20, 110, RICH),
            (10, 110, ["filter", "filterheavy", "regex", "lang", "multi",
                       "order", "limit"]),
            (10, 110, ["multi", "order", "limit", "distinct", "values",
                       "bind", "optional", "union"]),
            (8, 110, ["group", "having", "multi", "filter", "order"]),
            (8, 110, ["path", "pathheavy", "filter", "optional", "multi"]),
            (8, 110, ["haspred", "multi", "trick", "filter", "minus"]),
            (10, 110, ["text", "multi", "filter", "optional"]),
            (6, 120, "lru"), (1, 0, "canary")]):
        for i in range(ctx.n(n) if feats != "canary" else 1):
            jobs.append(((ctx.seed, "Q13", m, i), steps, feats))

    def work(out, job):
        seed, steps, feats = job
        rng = rng_for(*seed)
        ss = Session(out, bins, "seed " + " ".join(map(str, seed)))
        try:
            if feats == "canary":
                canary(rng, ss)
                return
            kb = KB(rng, n_links=10, langs="haspred" not in feats)
            text = "text" in feats
            if text:
                kb.texts = tx = Texts(rng, kb)
                ss.index(kb.turtle(), words=tx.words, docs=tx.docs)
            else:
                ss.index(kb.turtle())
            conf = {"k": rng.choice([0, 1, 2, 3, 5, 10, 30, None, None]),
                    "c": 1, "e": 1}
            if feats == "lru":
                conf["k"] = rng.choice([1, 2, 3, 5, 8, None])
            elif rng.random() < 0.1:
                conf["c"] = 0
            elif rng.random() < 0.1:
                conf["e"] = 0
            args = ["-t"] if text else []
            if conf["k"] is not None:
                args += ["-k", str(conf["k"])]
            ss.serve(args=args, cache_gb=conf["c"], cache_single_gb=conf["e"])
            if feats == "lru":
                for _ in range(2):
                    lru(rng, ss, kb, conf, steps)
                return
            if text:
                ss.fixed = []
                for _ in range(4):
                    t = [tx.term() for _ in range(rng.choice([1, 1, 2]))]
                    ss.fixed.append((t, rng.choice([1, 1, 2])))
            gen = QueryGen(rng, kb, feats)
            history(rng, ss, kb, gen, conf, steps, text)
        finally:
            ss.close()

    run_jobs(ctx.rep, work, jobs)
    total = sum(j[1] for j in jobs)
    return {"min_evals": total // 2, "min_distinct": total // 8}
