"""Random RDF data with awkward terms, in several serialisations."""
import unicodedata

XSD = "http://www.w3.org/2001/XMLSchema#"
PIECES = ["alpha", "Alpha", "beta", "b", "", " ", "  ", "é", "e\u0301", "ß",
          "日本", "😀", "x.y", ".", ";", ",", "#", "@", "@en", "^^", "<", ">",
          "<a>", "'", "%20", "{}", "|", "_:b", "?x", "*", "0", "00012",
          "12.5", "-3", "T00:00", "a b c", "ÄÖÜ", "\u00a0", "zzz"]
AWKWARD = ["\n", "\t", "\r", '"', "\\", '""', "'''", "\\n", "\\\\", "\b",
           '"@en', "\\u0041", '"\n"']
LANGS = ["en", "de", "fr", "en-GB", "zh-Hant", "x"]
SPACES = ["http://ex.org/", "http://ex.org/a/", "http://ex.org/a/b#",
          "http://www.wikidata.org/entity/Q", "http://www.wikidata.org/prop/",
          "urn:x:", "", "h", "http://xn--mller-kva.de/ä/"]
LOCAL = ["a", "b", "A", "ab", "aB", "a.b", "a-b", "a_b", "a/b", "1", "01",
         "10", "2", "ä", "日本", "%C3%A4", "x#y", "x?y=z&w", "e\u0301",
         "QLever", "x:y"]


def nfc(s):
    return unicodedata.normalize("NFC", s)


class Lit:
    def __init__(self, content, suffix=""):
        self.content, self.suffix = content, suffix

    def key(self):
        return '"%s"%s' % (self.content, self.suffix)


class RdfData:
    """triples: list of (s, p, o); terms are strings (IRIs, blank nodes) or
    Lit."""

    def __init__(self, rng, n=None, awkward=True, blank=True, langs=True,
                 values=True, distinct_values=True):
        self.rng = rng
        self.awkward, self.langs, self.values = awkward, langs, values
        n = n or rng.choice([1, 5, 40, 150, 400])
        ne = max(2, n // rng.choice([2, 5, 10]))
        spaces = rng.sample(SPACES, rng.randint(1, 4))
        self.ents = list({self.iri(spaces) for _ in range(ne)})
        if blank and rng.random() < 0.5:
            self.ents += ["_:b%d" % i for i in range(rng.randint(1, 5))]
        self.preds = list({self.iri(spaces[:1])
                           for _ in range(rng.choice([1, 2, 6, 15]))})
        self.lits = [self.literal() for _ in range(max(1, n // 4))]
        self.triples = []
        for _ in range(n):
            o = rng.choice(self.ents) if rng.random() < 0.4 else \
                rng.choice(self.lits)
            self.triples.append((rng.choice(self.ents),
                                 rng.choice(self.preds), o))
        if rng.random() < 0.5:
            # Every statement may be given several times.
            self.triples += rng.choices(self.triples, k=n // 3)
        rng.shuffle(self.triples)

    def iri(self, spaces):
        rng = self.rng
        s = rng.choice(spaces) + rng.choice(LOCAL)
        if rng.random() < 0.6:
            s += str(rng.randint(0, 60))
        if rng.random() < 0.02:
            s += "/" + "long" * rng.randint(50, 400)
        return "<%s>" % s

    def literal(self):
        rng = self.rng
        r = rng.random()
        if self.values and r < 0.25:
            k = rng.choice(["int", "integer", "float", "double", "decimal",
                            "date", "dateTime"])
            if k in ("int", "integer"):
                return Lit(str(rng.choice([rng.randint(-20, 20), rng.randint(
                    -10**9, 10**9)])), "^^<%s%s>" % (XSD, k))
            if k in ("float", "double", "decimal"):
                return Lit(rng.choice(["%.2f", "%.4f", "%.1f"]) % rng.uniform(
                    -1000, 1000), "^^<%s%s>" % (XSD, k))
            d = "%04d-%02d-%02d" % (rng.randint(1, 2500), rng.randint(1, 12),
                                    rng.randint(1, 28))
            if k == "dateTime":
                d += "T%02d:%02d:%02d" % (rng.randint(0, 23), rng.randint(
                    0, 59), rng.randint(0, 59))
            return Lit(d, "^^<%s%s>" % (XSD, k))
        pieces = PIECES + (AWKWARD * 2 if self.awkward else [])
        c = "".join(rng.choice(pieces) for _ in range(rng.choice([0, 1, 1, 2,
                                                                  3, 6])))
        if rng.random() < 0.05:
            c += rng.choice(["lang ", "x", "é"]) * rng.choice([300, 1020, 1025,
                                                              3000])
        if r < 0.55 and self.langs:
            return Lit(c, "@" + rng.choice(LANGS))
        if r < 0.65:
            return Lit(c, "^^<%s>" % rng.choice(["http://ex.org/dt", "dt",
                                                 XSD + "string"]))
        return Lit(c)

    # -------------------------------------------------------- what is shown
    @staticmethod
    def shown(t):
        return nfc(t.key() if isinstance(t, Lit) else t)

    def graph(self):
        return {tuple(self.shown(x) for x in t) for t in self.triples}

    # -------------------------------------------------------- serialisations
    @staticmethod
    def escape(c):
        return c.replace("\\", "\\\\").replace('"', '\\"').replace(
            "\n", "\\n").replace("\r", "\\r").replace("\t", "\\t").replace(
            "\b", "\\b")

    def term(self, t):
        if isinstance(t, Lit):
            return '"%s"%s' % (self.escape(t.content), t.suffix)
        return t

    def turtle(self):
        return "".join("%s %s %s .\n" % tuple(map(self.term, t))
                       for t in self.triples)

    nt = turtle

    def tsv(self):
        return "".join("%s\t%s\t%s\t.\n" % tuple(map(self.term, t))
                       for t in self.triples)
