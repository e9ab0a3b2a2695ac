"""Any request gets an answer and leaves the server as it was."""
import os
import re
import string
import urllib.parse

from . import env
from .gen import KB, QueryGen, TooBig
from .session import Session, rng_for, run_jobs
from .text import Texts

TOKENS = ["SELECT", "DISTINCT", "WHERE", "{", "}", "(", ")", ".", ";", ",",
          "FILTER", "OPTIONAL", "UNION", "MINUS", "VALUES", "BIND", "AS",
          "GROUP", "BY", "HAVING", "ORDER", "ASC", "DESC", "LIMIT", "OFFSET",
          "TEXTLIMIT", "PREFIX", "?x", "?", "<", ">", "=", "!=", "<=", ">=",
          "<a>", '"', '"a"', '"a"@en', "@", "^^", "COUNT", "SUM", "AVG",
          "MIN", "MAX", "SAMPLE", "GROUP_CONCAT", "SEPARATOR", "regex",
          "REGEX", "lang", "langMatches", "prefix", "TEXT(?x)", "SCORE(?x)",
          "ql:contains-word", "ql:contains-entity", "ql:has-predicate",
          "*", "+", "^", "/", "|", "*99999999999999999999", "+3", "*2",
          "99999999999999999999", "-1", "1e400", "0x10", "0", "1.5.2", "#",
          "#c\n", "\n", "\t", "\\", "\\u00e9", "'", "'''", '"""', "a:b",
          ":", "_:b", "[]", "[", "]", "&&", "||", "!", "$x", "\x00", "\x7f",
          "é", "\U0001f600", "REDUCED", "FROM", "GRAPH", "SERVICE",
          "ASK", "CONSTRUCT", "*/", "(*)", "COUNT(*)", "UNDEF", "true", "a"]
PARAMS = ["query", "cmd", "send", "timeout", "pinresult", "pinsubtrees",
          "action", "foo", "", "QUERY", "Cmd"]
VALUES = ["", "0", "-1", "1", "true", "abc", "99999999999999999999", "1e309",
          "nan", "0.000001", "stats", "cachestats", "clearcache",
          "csv_export", "tsv_export", "%", "%4", "%zz", "%00", "%ff%fe",
          "%E4", "+", "=", "%26", "\xff"]


def split(text):
    return re.findall(r'<[^<>\s]*>|"[^"]*"|\?\w+|\w+|\s+|.', text, re.S)


def damage(rng, text, other):
    """A query with one to four random changes."""
    toks = split(text)
    for _ in range(rng.choice([1, 1, 1, 2, 2, 4])):
        i = rng.randrange(len(toks) + 1)
        r = rng.random()
        if r < 0.25 and toks:
            del toks[i:i + rng.choice([1, 1, 1, 2, 5])]
        elif r < 0.6:
            toks.insert(i, " " + rng.choice(TOKENS) + " ")
        elif r < 0.75 and i < len(toks):
            toks[i] = " " + rng.choice(TOKENS) + " "
        elif r < 0.85 and len(toks) > 1:
            j = rng.randrange(len(toks))
            i = min(i, len(toks) - 1)
            toks[i], toks[j] = toks[j], toks[i]
        elif r < 0.9:
            toks = toks[:i]
        elif r < 0.94:
            o = split(other)
            toks = toks[:i] + o[rng.randrange(len(o) + 1):]
        elif r < 0.97 and toks:
            i = min(i, len(toks) - 1)
            k = rng.randrange(len(toks[i]) + 1)
            c = rng.choice(string.printable)
            toks[i] = toks[i][:k] + c + toks[i][k + rng.choice([0, 1]):]
        else:
            toks.insert(i, rng.choice(["{", "(", "[", "((", "a" * 3000,
                                       "?" + "v" * 500]) *
                        rng.choice([2, 20, 300]))
    return "".join(toks)


def distort(rng, text):
    """A query that mostly is still well-formed, but means something else."""
    toks = split(text)
    for _ in range(rng.choice([1, 1, 2, 3])):
        vs = sorted({t for t in toks if t[0] == "?" and len(t) > 1})
        words = sorted({t for t in toks if t[0] in '<"' and len(t) > 1})
        at = [i for i, t in enumerate(toks) if t in vs]
        r = rng.random()
        if r < 0.35 and len(vs) > 1:
            toks[rng.choice(at)] = rng.choice(vs)
        elif r < 0.5 and vs:
            a, b = rng.choice(vs), rng.choice(vs + ["?neu"])
            toks = [b if t == a else t for t in toks]
        elif r < 0.6 and vs and words:
            toks[rng.choice(at)] = rng.choice(words)
        elif r < 0.7 and vs and words:
            i = [k for k, t in enumerate(toks) if t in words]
            toks[rng.choice(i)] = rng.choice(words + vs)
        elif r < 0.8:
            # A triple or clause twice.
            cl = "".join(toks).split(" . ")
            i = rng.randrange(len(cl))
            j = rng.randrange(len(cl))
            cl.insert(j, cl[i])
            toks = split(" . ".join(cl))
        elif r < 0.9:
            cl = "".join(toks).split(" . ")
            i = rng.randrange(len(cl))
            if rng.random() < 0.5:
                del cl[i]
            else:
                rng.shuffle(cl[1:-1])
            toks = split(" . ".join(cl))
        else:
            i = rng.randrange(len(toks))
            if toks[i].isdigit():
                toks[i] = str(rng.choice([0, 1, 7, 10 ** 9, 2 ** 64]))
            elif toks[i] in ("ASC", "DESC"):
                toks[i] = rng.choice(["ASC", "DESC"])
            elif toks[i].upper() in ("COUNT", "MIN", "MAX", "AVG", "SUM"):
                toks[i] = rng.choice(["COUNT", "MIN", "AVG", "SAMPLE"])
        if not toks:
            break
    return "".join(toks)


def request(rng, query):
    """(bytes of a request that is damaged in some way, half close)."""
    q = urllib.parse.quote_plus(query)
    r = rng.random()
    close = True
    if r < 0.3:
        ps = []
        for _ in range(rng.randint(0, 4)):
            ps.append("%s%s%s" % (rng.choice(PARAMS), rng.choice(
                ["=", "=", "=", "=", "", "=="]), rng.choice(VALUES)))
        if rng.random() < 0.6:
            ps.insert(rng.randint(0, len(ps)), "query=" + q)
        line = "GET %s%s HTTP/1.1" % (rng.choice(["/?", "/?", "/?", "/?&",
                                                  "?", "/", "/x?"]),
                                      rng.choice(["&", "&", "&", "&&"])
                                      .join(ps))
        if rng.random() < 0.3:
            close = "\xff" in line
        return (line + "\r\nHost: x\r\n\r\n").encode("latin-1",
                                                     "replace"), close
    if r < 0.5:
        return ("GET %s HTTP/1.1\r\n\r\n" % rng.choice(
            ["/", "/index.html", "/style.css", "/script.js", "/secret.txt",
             "/../secret.txt", "/k.meta-data.json", "//etc/hostname",
             "/index.html?x=1", "/%2e%2e/secret.txt", "/index.html%00",
             "/" + "a" * 5000, "/../" * 40 + "etc/hostname"])).encode(), False
    base = ("GET /?query=%s HTTP/1.1\r\nHost: x\r\n\r\n" % q).encode()
    if r < 0.6:
        return rng.choice(
            [b"", b"\r\n", b"\r\n\r\n", b"GET", b"GET HTTP", b"GET  HTTP/1.1"
             b"\r\n\r\n", b"HTTP GET /\r\n\r\n", b"POST / HTTP/1.1\r\n\r\n",
             b"GETHTTP/1.1\r\n\r\n", b"GET / HTTP/1.1\r\n", b"\x00" * 50,
             b"GET /?HTTP\r\n\r\n", b"GET /?query= HTTP/1.1\r\n\r\n",
             b"GET ?query=x HTTP/1.1\r\n\r\n", b"HTTPGET ?\r\n\r\n",
             b"OPTIONS * HTTP/1.1\r\n\r\n", b"GET /?= HTTP/1.1\r\n\r\n",
             b"x" * 100000 + b"\r\n\r\n", b"GET /?query=\xff\xfe HTTP/1.1"
             b"\r\n\r\n", b"GET /?\xc3=1&query=x HTTP/1.1\r\n\r\n"]), True
    b = bytearray(base)
    for _ in range(rng.choice([1, 2, 5])):
        i = rng.randrange(len(b))
        k = rng.random()
        if k < 0.5:
            b[i] = rng.randrange(256)
        elif k < 0.8:
            del b[i:i + rng.choice([1, 3, 20])]
        else:
            b[i:i] = bytes(rng.randrange(256) for _ in range(3))
        if not b:
            break
    if rng.random() < 0.2:
        b = b[:rng.randrange(len(b) + 1)]
    return bytes(b), True


class Robust:
    def __init__(self, ss, kb, probes):
        self.ss, self.kb, self.probes = ss, kb, probes

    def probe(self, rng):
        """A good query still gets its answer."""
        q, names, rows = rng.choice(self.probes)
        self.ss.check(q, names, rows, self.kb.graph)
        text = q.render(self.kb.graph)
        vs = re.findall(r"\?\w+", text)
        if "LIMIT" in text or "SAMPLE" in text or \
                "CONCAT" in text or not vs:
            return
        # Words of the protocol may appear in a query.
        new = rng.choice(["?HTTP", "?GET", "?GET_HTTP", "?HTTPGET"])
        a = self.ss.ask(text)
        b = self.ss.ask(re.sub(r"\?%s\b" % vs[0][1:], new, text))
        if a is None or b is None:
            return
        self.ss.out.events["renamed"] += 1
        if a["status"] != b["status"] or \
                sorted(map(str, a.get("res", []))) != \
                sorted(map(str, b.get("res", []))):
            self.ss.fail("renamed", "with %s as variable: %s" %
                         (new, str(b)[:300]), text)

    def send_query(self, text, **params):
        ss = self.ss
        j = ss.ask(text, **params)
        if j is None:
            return
        st = j.get("status")
        ss.out.case("%s|%s" % (ss.label, text))
        ss.out.events["answer:%s" % st] += 1
        if st not in ("OK", "ERROR"):
            ss.fail("no-status", "answer %s" % str(j)[:300], text)
        elif st == "ERROR" and not isinstance(j.get("exception"), str):
            ss.fail("no-message", "answer %s" % str(j)[:300], text)
        elif "ASSERT" in str(j.get("exception")):
            ss.out.events["internal_assertion"] += 1

    def send_raw(self, data, close):
        ss = self.ss
        ss.history.append(("raw", {"bytes": data.decode("latin-1"),
                                   "close": close}))
        try:
            resp = ss.srv.raw(data, timeout=30, half_close=close)
        except env.socket.timeout:
            # Without the end of a request the server rightly waits.
            if close or data.endswith(b"\r\n\r\n"):
                ss.restart()
                try:
                    ss.srv.raw(data, timeout=90, half_close=close)
                except env.socket.timeout:
                    ss.fail("raw:hang", "no answer to %r" % data[:300])
                    ss.recover()
                except OSError:
                    pass
            return
        except OSError:
            resp = b""
        ss.out.case("%s|%r" % (ss.label, data))
        if not resp:
            try:
                ss.srv.get({"cmd": "stats"})
            except env.ServerFault:
                pass
        if not ss.srv.alive():
            e = env.ServerDied(ss.srv, ss.srv.log())
            ss.fail("raw:" + e.key, "%r: %s" % (data[:300],
                                                e.logtext[-800:]))
            ss.recover()
            return
        if SECRET.encode() in resp:
            ss.fail("file-leak", "a private file was sent for %r" % data[:99])
        m = re.match(rb"HTTP/1\.1 (\d{3}) ", resp)
        ss.out.events["raw:%s" % (m.group(1).decode() if m else
                                  "closed")] += 1
        if m and m.group(1) == b"200":
            head, _, body = resp.partition(b"\r\n\r\n")
            n = re.search(rb"(?i)content-length: *(\d+)", head)
            if not n or int(n.group(1)) != len(body):
                ss.fail("raw:bad-length", "%r -> %r" % (data[:200], head))
        elif not m and data.endswith(b"\r\n\r\n") and \
                data.startswith(b"GET /?"):
            ss.fail("raw:no-answer", "%r -> %r" % (data[:300], resp[:100]))


SECRET = "xyzzy-private-contents"


def canary(ss):
    """Listed finding: the parsers recurse without a limit."""
    ss.index("<a> <p> <b> .\n")
    ss.serve()
    ss.out.case("canary deep nesting")
    try:
        ss.srv.query("SELECT ?x WHERE " + "{" * 20000)
    except env.ServerFault as e:
        ss.fail("canary:deep-nesting", "%s" % e)


def q16(ctx):
    bins = ctx.qlever()
    jobs = []
    feats = [["multi", "filter", "regex", "optional", "union", "minus",
              "values", "bind", "sub", "order", "limit", "distinct"],
             ["group", "having", "multi", "filter", "order"],
             ["path", "pathheavy", "multi", "filter"],
             ["haspred", "multi", "trick", "filter"],
             ["text", "multi", "filter", "order"]]
    for m, f in enumerate(feats):
        for i in range(ctx.n(8)):
            jobs.append(((ctx.seed, "Q16", m, i), f, 450))

    jobs.append(((ctx.seed, "Q16", "canary"), None, 1))

    def work(out, job):
        seed, f, n = job
        rng = rng_for(*seed)
        ss = Session(out, bins, "seed " + " ".join(map(str, seed)))
        try:
            if f is None:
                return canary(ss)
            kb = KB(rng, langs="haspred" not in f)
            text = "text" in f
            if text:
                kb.texts = tx = Texts(rng, kb)
                ss.index(kb.turtle(), words=tx.words, docs=tx.docs)
            else:
                ss.index(kb.turtle())
            for name in ("secret.txt", "style.css"):
                with open(os.path.join(ss.d, name), "w") as fh:
                    fh.write(SECRET if name[0] == "s" and name[1] == "e"
                             else "body {}\n" * 50)
            gen = QueryGen(rng, kb, f)
            qs, probes = [], []
            for _ in range(14):
                try:
                    q, names, rows = gen.query()
                except TooBig:
                    continue
                t = q.render(kb.graph)
                qs.append(t)
                if t.isascii():
                    probes.append((q, names, rows))
            if not probes:
                return
            extra = {"LC_ALL": "C"} if rng.random() < 0.3 else None
            ss.serve(args=["-t"] if text else [], extra_env=extra)
            ro = Robust(ss, kb, probes)
            for k in range(n):
                r = rng.random()
                base = rng.choice(qs)
                if r < 0.6:
                    bad = damage(rng, base, rng.choice(qs)) \
                        if rng.random() < 0.5 else distort(rng, base)
                    params = {}
                    if rng.random() < 0.1:
                        params["send"] = rng.choice(VALUES[:9])
                    if rng.random() < 0.1:
                        params["limit"] = rng.choice(VALUES[:10])
                    ro.send_query(bad, **params)
                elif r < 0.95:
                    ro.send_raw(*request(rng, base if rng.random() < 0.7 else
                                         damage(rng, base, base)))
                else:
                    ro.probe(rng)
            ro.probe(rng)
        finally:
            ss.close()

    run_jobs(ctx.rep, work, jobs)
    total = sum(j[2] for j in jobs)
    return {"min_evals": total // 2, "min_distinct": total // 4}
