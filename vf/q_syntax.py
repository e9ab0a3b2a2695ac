"""Answers must not depend on how a query is written down."""
import copy
import re

from .gen import KB, QueryGen, TooBig
from .session import Session, rng_for, run_jobs

_chunk = re.compile(r'(?:"(?:[^"\\]|\\.)*"|[^\s"])+')
_token = re.compile(
    r'"(?:[^"\\]|\\.)*"(?:@[\w-]+|\^\^\S+?(?=[\s),;]|$))?|'
    r"(?:@[\w-]+@)?<[^<>\s]*>|\?\w+|\w+:\w*|-?\d+\.\d+|-?\d+|\w+|\|\||.")
_keyword = re.compile(
    r"(?i)^(select|where|distinct|filter|optional|union|minus|values|bind|as|"
    r"order|group|by|asc|desc|limit|offset|having|regex|lang|langmatches|str|"
    r"count|min|max|avg|sum|sample|group_concat|separator|prefix)$")
_path = re.compile(r"^\(*\^?\(*(@[\w-]+@)?(<[^<>\s]*>|[\w.-]*:\w+).*[/|^+*?()]|"
                   r"^\(*\^")
NAMES = ["select", "where", "count", "x_1", "asc", "as", "filter", "Optional",
         "LIMIT", "by", "_", "_x", "1", "2a", "a", "min", "union_", "regex",
         "text", "score", "PREFIX", "values", "s", "p", "o", "ql", "bind",
         "über", "xé", "order", "group", "lang", "str", "having"]
PREFIXES = ["", "p", "q1", "ex", "A", "x-y", "a.b", "as", "text", "ascii",
            "count", "minus", "min", "strings", "where", "order", "by",
            "select", "groups", "sum", "ué", "lang", "score", "desc"]


def case(rng, w):
    return rng.choice([w.lower(), w.upper(), w.capitalize(), "".join(
        rng.choice([c.lower(), c.upper()]) for c in w)])


def space(rng, comments):
    s = "".join(rng.choice(" \n\t\r ") for _ in range(rng.choice(
        [1, 1, 1, 2, 3])))
    if comments and rng.random() < 0.3:
        s += rng.choice(["#", "# a comment", "# { ?x <y> \"z", "#} LIMIT 1",
                         "#\t'unbalanced (", "## ü \\ #"]) + "\n" + \
            rng.choice(["", "  "])
    return s


def is_term(c):
    return c[0] in '?<"' and c != "<" and c != "<="


class Writer:
    """Writes a query down in another way."""

    def __init__(self, rng, text):
        self.rng, self.on = rng, {
            k for k in ("space", "comments", "case", "lists", "dots", "names",
                        "prefixes", "parens", "tight", "quotes")
            if rng.random() < 0.5}
        self.map = {}
        self.text = self.write(text)

    def write(self, text):
        rng = self.rng
        if "names" in self.on:
            vs = sorted(set(re.findall(r"\?\w+", text)))
            if len(vs) <= len(NAMES):
                self.map = dict(zip(vs, ["?" + n for n in rng.sample(
                    NAMES, len(vs))]))
                text = "".join(
                    x if x[0] in '"<' else re.sub(
                        r"\?\w+", lambda m: self.map[m[0]], x)
                    for x in re.findall(
                        r'"(?:[^"\\]|\\.)*"|<[^<>\s"]*>|[^"<]+|<', text))
        if "parens" in self.on:
            text = re.sub(r'FILTER (\((?:\S+) [<>=!]+ [^()"]+\))',
                          r"FILTER (\1)", text)
        chunks = _chunk.findall(text)
        if "lists" in self.on:
            chunks = self.lists(chunks)
        if "dots" in self.on:
            chunks = [c for i, c in enumerate(chunks) if not (
                c == "." and chunks[i + 1] == "}" and is_term(chunks[i - 1])
                and rng.random() < 0.7)]
        head = ""
        if "prefixes" in self.on:
            chunks, head = self.prefixes(chunks)
        return head + self.layout(chunks)

    def lists(self, cs):
        """Abbreviates triples with the same subject."""
        out, i, last = [], 0, None
        while i < len(cs):
            t = cs[i:i + 4]
            ok = len(t) == 4 and t[3] == "." and is_term(t[0]) and \
                is_term(t[2]) and i > 0 and cs[i - 1] in ("{", ".", "}") and \
                (t[1][0] in "?<@" or _path.match(t[1]))
            if ok and last and out[-1] == "." and last[0] == t[0] and \
                    self.rng.random() < 0.8:
                if last[1] == t[1] and self.rng.random() < 0.8:
                    out[-1:] = [",", t[2], "."]
                else:
                    out[-1:] = [";", t[1], t[2], "."]
                last = t
                i += 4
            elif ok:
                out += t
                last = t
                i += 4
            else:
                out.append(cs[i])
                last = None
                i += 1
        return out

    def prefixes(self, cs):
        rng = self.rng
        bases = sorted({m for c in cs for m in re.findall(
            r"<([^<>\s\"]*[/#])\w+>", c)})
        names = rng.sample(PREFIXES, len(bases))
        short = dict(zip(bases, names))

        def sub(m):
            if rng.random() < 0.3:
                return m[0]
            return "%s:%s" % (short[m[1]], m[2])
        out = []
        for c in cs:
            if c.startswith('"') and "^^" not in c:
                out.append(c)
                continue
            out.append("".join(
                x if x[0] == '"' else re.sub(
                    r"<([^<>\s\"]*[/#])(\w+)>", sub, x)
                for x in re.findall(r'"(?:[^"\\]|\\.)*"|[^"]+', c)))
        decl = [(n, b) for b, n in short.items()]
        if rng.random() < 0.3:
            left = [n for n in PREFIXES if n not in names]
            decl.append((rng.choice(left), "http://unused.org/"))
        rng.shuffle(decl)
        head = "".join("%s%s%s:%s<%s>%s" % (
            case(rng, "prefix") if "case" in self.on else "PREFIX",
            self.gap(), n, self.gap(), b, self.gap()) for n, b in decl)
        return out, head

    def gap(self, comments=True):
        return space(self.rng, comments and "comments" in self.on) \
            if "space" in self.on else " "

    def layout(self, cs):
        rng = self.rng
        out = []
        predicate = False
        for i, c in enumerate(cs):
            if _path.match(c) or ":" in c and c[0] != '"' and "(" not in c:
                toks = [c]
            else:
                toks = [t for t in _token.findall(c)]
            # Keywords may be written in any case.
            if "case" in self.on:
                toks = [case(rng, t) if _keyword.match(t) else t
                        for t in toks]
            if "quotes" in self.on:
                toks = [self.quote(t) for t in toks]
            s = ""
            for j, t in enumerate(toks):
                if j and "space" in self.on and rng.random() < 0.3 and \
                        toks[j - 1] in "(){},;" and t not in ("=",):
                    s += self.gap()
                s += t
            if i:
                prev = cs[i - 1]
                glue = prev[-1] in "{}(),;" or s[0] in "{}," or \
                    (s in ".;" and prev[-1] in ">}") or \
                    (s in ".;" and re.match(r"^\?\w+$", prev))
                if predicate or not ("tight" in self.on and glue and
                                     rng.random() < 0.7):
                    # These two words are one token.
                    out.append(self.gap(prev not in ("GROUP", "ORDER")))
            predicate = self.is_predicate(cs, i)
            out.append(s)
        end = ""
        if "space" in self.on:
            end = self.gap()
            if "comments" in self.on and rng.random() < 0.3:
                end += "# the end"
        return "".join(out) + end

    @staticmethod
    def is_predicate(cs, i):
        """Whether a space has to follow: the chunk may be a predicate."""
        return bool(_path.match(cs[i]) or
                    re.match(r"^(@[\w-]+@)?(<[^<>\s]*>|[^\s\"?<>(){}]*:\S*)$",
                             cs[i])) and i + 1 < len(cs) and \
            cs[i + 1][0] not in ".;,}"

    def quote(self, t):
        """Strings may be in single quotes."""
        m = re.match(r'^"([\w -]*)"(@[\w-]+)?$', t)
        if m and self.rng.random() < 0.5:
            return "'%s'%s" % (m[1], m[2] or "")
        return t


RICH = ["multi", "filter", "regex", "group", "having", "order",
        "limit", "distinct", "optional", "nested", "union", "minus", "values",
        "bind", "sub"]


def q19(ctx):
    bins = ctx.qlever()
    jobs = []
    for m, (n, k, feats) in enumerate([
            (14, 60, RICH), (8, 60, ["multi", "filter", "filterheavy", "lang",
                                     "regex"]),
            (8, 60, ["multi", "path", "pathheavy", "filter", "optional"]),
            (6, 60, ["values", "bind", "multi", "filter", "union", "nested",
                     "optional"])]):
        for i in range(ctx.n(n)):
            jobs.append(((ctx.seed, "Q19", m, i), k, feats))

    def work(out, job):
        seed, n, feats = job
        rng = rng_for(*seed)
        kb = KB(rng)
        ss = Session(out, bins, "seed " + " ".join(map(str, seed)))
        try:
            ss.index(kb.turtle())
            ss.serve()
            gen = QueryGen(rng, kb, feats)
            for _ in range(n):
                try:
                    q, names, rows = gen.query()
                except TooBig:
                    out.events["too_big"] += 1
                    continue
                text = q.render(kb.graph)
                for _ in range(2):
                    w = Writer(rng, text)
                    for k in w.on:
                        out.events["with:" + k] += 1
                    q2 = copy.copy(q)
                    q2.order = [(w.map.get(v, v), d) for v, d in q.order]
                    if rng.random() < 0.5 and ss.srv:
                        ss.srv.get({"cmd": "clearcache"})
                    ss.check(q2, [w.map.get(v, v) for v in names], rows,
                             kb.graph, w.text)
        finally:
            ss.close()

    run_jobs(ctx.rep, work, jobs)
    total = sum(j[1] for j in jobs)
    return {"min_evals": total, "min_distinct": total // 2}
