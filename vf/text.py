"""Text collections, their files, and the meaning of text patterns."""
from collections import Counter, defaultdict
from itertools import product

from . import sparql as S

# Families of words that share prefixes, words shorter than the shortest
# searchable prefix, words with capitals and with other letters.
WORDS = ["algebra", "algebras", "algebraic", "algorithm", "algorithms",
         "alge", "algae", "comp", "compute", "computer", "Computers",
         "computing", "com", "drug", "Drugs", "drum", "a", "an", "the", "of",
         "zoo", "zzz", "zebra", "Relativity", "relative", "relation",
         "straße", "größe", "naïve", "Éclair", "2nd", "1984", "19840",
         "moon", "moonlight", "moo", "walk", "walked", "walking", "walks"]


class Texts:
    """A random text collection over the entities of a KB.

    records: id -> (Counter of words, Counter of entities) with summed
    scores; text: id -> excerpt."""

    def __init__(self, rng, kb, n=None, shared=False, skip=0,
                 missing=False):
        self.rng, self.kb = rng, kb
        n = n or rng.choice([3, 10, 30, 80])
        vocab = rng.sample(WORDS, rng.randint(6, len(WORDS)))
        ents = rng.sample(kb.ent, rng.randint(max(1, len(kb.ent) // 3),
                                              len(kb.ent)))
        if rng.random() < 0.5:
            # Only the last entities, or the first: ends of the id range.
            k = rng.randint(1, len(kb.ent))
            ents = kb.ent[:k] if rng.random() < 0.5 else kb.ent[-k:]
        self.records, lines = {}, []
        rid = rng.choice([0, 0, 1, 7]) + skip
        for _ in range(n):
            w, e, mine = Counter(), Counter(), []
            for _ in range(rng.choice([1, 2, 4, 8, 15])):
                x, s = rng.choice(vocab), rng.choice([1, 1, 1, 2, 5, 30])
                w[x.lower()] += s
                mine.append((x, 0, s))
            for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 4])):
                x, s = rng.choice(ents), rng.choice([1, 1, 1, 2, 5, 30])
                e[x] += s
                mine.append((x, 1, s))
            if rng.random() < 0.1:
                mine.append(("<not-in-the-kb>", 1, 1))
            rng.shuffle(mine)
            lines += ["%s\t%d\t%d\t%d\n" % (x, f, rid, s) for x, f, s in mine]
            self.records[rid] = (w, e)
            rid += rng.choice([1, 1, 1, 2, 5]) if rng.random() < 0.9 else 40
        self.words = "".join(lines)
        self.text, docs, ids = {}, [], sorted(self.records)
        pending = []
        for i, r in enumerate(ids):
            pending.append(r)
            if shared and i + 1 < len(ids) and rng.random() < 0.4:
                continue
            t = "text of record %d %s" % (r, "ä." * rng.randint(0, 3))
            docs.append("%d\t%s\n" % (r, t))
            for p in pending:
                self.text[p] = t
            pending = []
        if missing and rng.random() < 0.3:
            # Records after the last document have no text.
            k = rng.randint(0, len(docs))
            docs = docs[:k]
            last = int(docs[-1].split("\t")[0]) if docs else -1
            self.text = {r: t for r, t in self.text.items() if r <= last}
        self.unique = len(set(self.text.values())) == len(self.records)
        self.docs = "".join(docs) if docs else None
        self.vocab = sorted({x for w, _ in self.records.values() for x in w})
        self.ents = sorted({x for _, e in self.records.values() for x in e})

    def matching(self, term):
        if term.endswith("*"):
            p = term[:-1]
            return {r for r, (w, _) in self.records.items()
                    if any(x.startswith(p) for x in w)}
        if term.startswith("<"):
            return {r for r, (_, e) in self.records.items() if term in e}
        return {r for r, (w, _) in self.records.items() if term.lower() in w}

    def all_matching(self, terms):
        out = set(self.records)
        for t in terms:
            out &= self.matching(t)
        return sorted(out)

    def score(self, r, term):
        w, e = self.records[r]
        return e[term] if term.startswith("<") else w[term.lower()]

    def term(self, known=True):
        """A search term: word, prefix or entity."""
        rng, r = self.rng, self.rng.random()
        if r < 0.2 and self.ents:
            return rng.choice(self.ents)
        if r < 0.24 and not known:
            return rng.choice(["<not-in-the-kb>", "xylophone", "aaaaa*",
                               "zzzzz*", "nothing*"] + self.kb.ent)
        if not self.vocab:
            return "xylophone"
        w = rng.choice(self.vocab)
        if r < 0.55 and len(w) >= 4:
            return w[:rng.randint(4, len(w))] + "*"
        if rng.random() < 0.2 and w != "straße":
            w = w.upper()
        return w


class TextClique(S.Node):
    """All text patterns of one record variable."""

    def __init__(self, texts, t, terms, evars, rng):
        self.texts, self.t, self.terms, self.evars = texts, t, terms, evars
        parts = []
        words = [x for x in terms if not x.startswith("<")]
        for x in terms:
            if x.startswith("<"):
                if words and rng.random() < 0.3:
                    words.append(x)
                else:
                    parts.append("ql:contains-entity %s ." % x)
        if words and (len(words) == 1 or rng.random() < 0.7):
            parts.append('ql:contains-word "%s" .' % " ".join(words))
        else:
            parts += ['ql:contains-word "%s" .' % w for w in words]
        self.parts = parts
        self.order = rng.random()

    def vars(self):
        return {self.t, "SCORE(%s)" % self.t, "TEXT(%s)" % self.t} | \
            set(self.evars)

    def render(self, g):
        p = self.parts + ["ql:contains-entity %s ." % v for v in self.evars]
        k = int(self.order * len(p))
        return " ".join(self.t + " " + x for x in p[k:] + p[:k])

    def rename(self, r):
        self.t, self.evars = r(self.t), [r(v) for v in self.evars]

    def rows_by_key(self):
        """tuple of entities -> list of matching records."""
        keys = defaultdict(list)
        for r in self.texts.all_matching(self.terms):
            for key in product(sorted(self.texts.records[r][1]),
                               repeat=len(self.evars)):
                keys[key].append(r)
        return keys

    def relation(self):
        out = []
        for key, rs in self.rows_by_key().items():
            for r in rs:
                d = dict(zip(self.evars, key))
                x = self.texts.text[r]
                d[self.t] = d["TEXT(%s)" % self.t] = x
                d["SCORE(%s)" % self.t] = str(len(rs))
                out.append(d)
        return out

    def join(self, g, rows):
        return S.bag_join(rows, self.relation())
