"""Random Turtle documents together with the triples they stand for."""
from .rdf import XSD

TYPE = "<http://www.w3.org/1999/02/22-rdf-syntax-ns#type>"
PREFIXES = ["", "ex", "a", "ab", "b", "true", "truth", "false", "p1", "x-y",
            "A", "P", "prefix", "base", "u_v", "e1", "E5"]
UNI_PREFIXES = ["é", "日本", "p.q", "a.b"]
SPACES = ["http://ex.org/", "http://ex.org/a/b#", "urn:x:", "h", "", "e/a",
          "http://www.wikidata.org/entity/Q"]
LOCALS = ["a", "b", "ab", "A1", "a1", "true", "a.b", "a..b", "1", "12", "0a",
          "a-b", "a_b", "_x", "a:b", ":", "", "x.y.z", "%41", "a%20b"]
UNI_LOCALS = ["ä", "日本", "é.b", "ß1", "Å"]
ESC_LOCALS = ["a/b", "a~b", "x(y)", "q?x=1", "a.", "-a", "a#b", "!", "a,b",
              "a;b", "it's", "a*b", "%", "@en", "a=b"]
BODIES = ["", "a", "abc", " ", "a b", "x.", ".", " . ", ";", "#no comment",
          "<a>", "@en", "^^", "[ ]", "_:b", "ex:a", "\\", '"', "'", '""',
          "''", "\n", "\r", "\t", "\b", "\f", "é", "日本", "😀", "\\n",
          '"@en', "a\\", "\u0007", "1.5", "'''", '"""', " .\n<a> <b> ", "{}"]
LANGS = ["en", "de", "en-GB", "zh-Hant-TW", "x-y1", "DE"]
NUMBERS = ["0", "1", "-1", "+5", "007", "12345678901234567890", "1.5", "-.5",
           ".5", "+0.0", "10.25", "1e5", "1E-5", "-1.5e+10", "1.e3", ".5e1",
           "5e0"]
COMMENTS = ["# comment\n", "#\n", "# . ; , <a> \"\n", "#'''\n", '#"""\n',
            "# @prefix ex: <wrong> .\n", "## x #\n", "# é [\n"]


class Doc:
    """relaxed: only what the relaxed mode promises to understand."""

    def __init__(self, rng, n, relaxed):
        self.rng, self.relaxed = rng, relaxed
        self.parts, self.triples = [], []
        self.prefixes = {}
        self.anon = 0
        self.density = rng.choice([0, 0.02, 0.1])
        self.crlf = rng.random() < 0.15
        self.tight = rng.random() < 0.3
        self.nl = rng.random() < 0.5
        while len(self.triples) < n:
            self.statement()
            self.ws()
        self.text = "".join(self.parts)
        if self.crlf:
            self.text = self.text.replace("\n", "\r\n")

    def put(self, s):
        if s:
            self.parts.append(s)

    def ws(self, need=False):
        """Blank space or a comment; nothing at all when allowed."""
        rng = self.rng
        if rng.random() < self.density:
            self.put(rng.choice(["\n", "\t", "  ", " \t ", "\n\n", "\r\n",
                                 " " + rng.choice(COMMENTS)]))
        elif need or not self.tight:
            self.put(" ")

    # ------------------------------------------------------------ statements
    def statement(self):
        rng = self.rng
        if not self.prefixes or rng.random() < 0.08:
            return self.directive()
        r = rng.random()
        if r < 0.1:
            node = self.new_anon()
            self.put("[")
            self.ws()
            self.pol(node, 2)
            self.ws()
            self.put("]")
            if rng.random() < 0.7:
                self.ws()
                self.pol(node, 2)
        else:
            if r < 0.17:
                node = self.new_anon()
                self.put(rng.choice(["[]", "[ ]", "[\n]"]))
                self.ws()
                # Lets the node be recognised.
                self.put("<id> <n%d>" % self.anon)
                self.triples.append((node, "<id>", "<n%d>" % self.anon))
                self.put(" ; ")
            else:
                node = self.node(subject=True)
                self.ws(True)
            self.pol(node, 2)
        self.end()

    def end(self):
        closed = self.last_closed()
        self.ws()
        self.put(".")
        # After a name, the dot must not look like a part of it.
        self.put("\n" if self.nl else self.rng.choice(["", " ", "\n"])
                 if self.tight and closed else " ")

    def directive(self):
        rng = self.rng
        if rng.random() < 0.12:
            if rng.random() < 0.5:
                self.put("@base")
                self.ws(True)
                self.put("<http://base.org/>")
                self.ws()
                self.put(".")
            else:
                self.put("BASE")
                self.ws(True)
                self.put("<http://base.org/>")
            self.put("\n")
            return
        names = PREFIXES + ([] if self.relaxed else UNI_PREFIXES)
        name, space = rng.choice(names), rng.choice(SPACES)
        turtle = rng.random() < 0.7
        self.put("@prefix" if turtle else "PREFIX")
        self.ws(True)
        self.put(name + ":")
        self.ws(True)
        self.put("<%s>" % self.escape_iri(space))
        if turtle:
            self.ws()
            self.put(".")
        self.put(rng.choice(["\n", " "]))
        self.prefixes[name] = space

    def pol(self, subject, depth):
        rng = self.rng
        n = rng.choice([1, 1, 1, 2, 3])
        for i in range(n):
            if i:
                self.ws(not self.last_closed())
                self.put(";")
                while rng.random() < 0.1:
                    self.ws()
                    self.put(";")
                self.ws()
            if rng.random() < 0.15:
                p = TYPE
                self.put("a")
                self.ws(True)
            else:
                p = self.iri()
                self.ws(True)
            for j in range(rng.choice([1, 1, 1, 2, 3])):
                if j:
                    self.ws()
                    self.put(",")
                    self.ws()
                self.object(subject, p, depth)
        if rng.random() < 0.08:
            self.ws()
            self.put(";")
            while rng.random() < 0.2:
                self.ws()
                self.put(";")

    def last_closed(self):
        return self.parts[-1][-1:] in ">\"])"

    # ----------------------------------------------------------------- terms
    def new_anon(self):
        self.anon += 1
        return "\0%d" % self.anon

    def object(self, s, p, depth):
        rng = self.rng
        r = rng.random()
        if r < 0.07 and depth:
            node = self.new_anon()
            self.triples.append((s, p, node))
            self.put("[")
            self.ws()
            self.put("<id> <n%d>" % self.anon)
            self.triples.append((node, "<id>", "<n%d>" % self.anon))
            self.ws()
            self.put(";")
            self.ws()
            self.pol(node, depth - 1)
            self.ws()
            self.put("]")
            return
        if r < 0.1:
            node = self.new_anon()
            self.put(rng.choice(["[]", "[ ]", "[\t\n]"]))
            self.triples.append((s, p, node))
            return
        if r < 0.55:
            o = self.literal()
        else:
            o = self.node()
        self.triples.append((s, p, o))

    def node(self, subject=False):
        rng = self.rng
        if rng.random() < 0.12:
            b = "_:" + rng.choice(["b", "b1", "B", "x.y", "0", "_", "a-b",
                                   "1.2.x"])
            self.put(b)
            return b
        return self.iri()

    def iri(self):
        rng = self.rng
        if rng.random() < 0.4 or not self.prefixes:
            s = rng.choice(SPACES) + rng.choice(
                LOCALS[:9] + ([] if self.relaxed else UNI_LOCALS)) + (
                str(rng.randint(0, 30)) if rng.random() < 0.5 else "")
            self.put("<%s>" % self.escape_iri(s))
            return "<%s>" % s
        name = rng.choice(sorted(self.prefixes))
        r = rng.random()
        if r < 0.2 and not self.relaxed:
            local = rng.choice(ESC_LOCALS)
            shown = "".join("\\" + c if not (c.isalnum() or c in "_.-"
                                            and i not in (0, len(local) - 1))
                            or c in "._-" and rng.random() < 0.2 else c
                            for i, c in enumerate(local))
        else:
            local = shown = rng.choice(
                LOCALS if self.relaxed or r < 0.8 else UNI_LOCALS)
        self.put(name + ":" + shown)
        return "<%s%s>" % (self.prefixes[name], local)

    def escape_iri(self, s):
        if self.rng.random() > 0.1:
            return s
        return "".join(self.uchar(c) if self.rng.random() < 0.2 else c
                       for c in s)

    def uchar(self, c):
        n = ord(c)
        if n > 0xffff or self.rng.random() < 0.4:
            return "\\U" + self.rng.choice(["%08X", "%08x"]) % n
        return "\\u" + self.rng.choice(["%04X", "%04x"]) % n

    def literal(self):
        rng = self.rng
        r = rng.random()
        if r < 0.2:
            t = rng.choice(NUMBERS)
            self.put(t)
            self.put(" ")
            return t
        if r < 0.28:
            t = rng.choice(["true", "false"])
            self.put(t + rng.choice([" ", ""]))
            return t
        body = "".join(rng.choice(BODIES) for _ in range(rng.choice(
            [0, 1, 1, 2, 4, 9])))
        q = rng.choice(['"', '"', '"', "'", '"""', "'''"])
        self.put(q + self.body(body, q) + q)
        r = rng.random()
        if r < 0.3:
            t = "@" + rng.choice(LANGS)
            self.put(t)
            self.put(" ")
            return '"%s"%s' % (body, t)
        if r < 0.5:
            self.put("^^")
            if rng.random() < 0.3:
                self.put("<%sstring>" % XSD)
                return '"%s"^^<%sstring>' % (body, XSD)
            return '"%s"^^%s' % (body, self.iri())
        return '"%s"' % body

    def body(self, s, q):
        rng = self.rng
        out = []
        named = {"\t": "\\t", "\n": "\\n", "\r": "\\r", "\b": "\\b",
                 "\f": "\\f", '"': '\\"', "'": "\\'", "\\": "\\\\"}
        long = len(q) == 3
        # With CRLF line ends a raw line end would not be the same text.
        for i, c in enumerate(s):
            must = c == "\\" or c == q[0] and (
                not long or i + 1 == len(s) or s[i - 1:i] == c or
                s[i + 1:i + 2] == c) or \
                c in "\n\r" and (not long or self.crlf)
            if c in named and (must or rng.random() < 0.4):
                out.append(named[c] if rng.random() < 0.8 else self.uchar(c))
            elif rng.random() < 0.04:
                out.append(self.uchar(c))
            else:
                out.append(c)
        return "".join(out)


def match(want, got):
    """Compares triples up to the names of anonymous nodes (in `want`: the
    terms starting with \\0; in `got`: those that are not in `want`)."""
    known = {x for t in want for x in t}

    def key(t, m):
        return tuple(m.get(x, x) for x in t)
    # Colour refinement on the unknown nodes.
    wa = {x for t in want for x in t if x.startswith("\0")}
    ga = {x for t in got for x in t
          if x.startswith("QLever-Anon-Node") or x.startswith("_:Q")
          or x not in known and "non" in x[:14] and x[0] not in '<"'}
    cw, cg = {x: "\0" for x in wa}, {x: "\0" for x in ga}
    for _ in range(4):
        def refine(ts, c):
            sig = {x: [] for x in c}
            for t in ts:
                k = key(t, c)
                for i, x in enumerate(t):
                    if x in sig:
                        sig[x].append((i,) + k)
            return {x: "\0" + str(hash(tuple(sorted(s))))
                    for x, s in sig.items()}
        cw, cg = refine(want, cw), refine(got, cg)
    a = sorted(key(t, cw) for t in want)
    b = sorted(key(t, cg) for t in got)
    if a == b:
        return None
    from collections import Counter
    miss = list((Counter(a) - Counter(b)).elements())
    extra = list((Counter(b) - Counter(a)).elements())
    return "%d triples instead of %d; missing %s; not expected %s" % (
        len(b), len(a), miss[:2], extra[:2])
