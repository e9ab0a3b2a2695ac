"""Q20: the command-line programs agree with the data and with the server.

SparqlEngineMain answers generated queries from a file and interactively, its
answers are compared with the reference evaluator.  TurtleParserMain converts
a data set between its formats and tokenizers, the triples must be those of
the data and an index built from the converted file must answer like them.
CreatePatternsMain adds patterns to an index that was built without them,
afterwards the server must answer predicate queries about it."""
import os
import re

from . import env
from .gen import KB, QueryGen, TooBig
from .q_index import canon_graph, predicates
from .session import Session, compare, rng_for, run_jobs
from . import sparql as S

RICH = ["multi", "filter", "lang", "regex", "group", "having", "order",
        "limit", "distinct", "optional", "nested", "union", "minus", "values",
        "bind"]
LOG = re.compile(r"^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\s+- [A-Z]+:")


class Tools(Session):
    """A session that also runs the command-line programs."""

    def tool(self, name, args, stdin=None, timeout=60):
        """Returns the output of a program that must end normally."""
        for k in (1, 3):
            rc, out = env.run([self.bins[name]] + args, self.d,
                              timeout=k * timeout, stdin=stdin)
            if rc is not None:
                break
        self.out.events["run:" + name] += 1
        if rc != 0:
            key = "hang" if rc is None else (
                env.sanitizer_key(out) or "rc%d" % rc)
            self.fail("%s:%s" % (name, key), "%s %s ended with %s: %s" % (
                name, " ".join(args), rc, out[-700:]))
            return None
        return out

    def answers(self, texts, interactive):
        """Blocks of output of the query program, one for each query it
        answered, and what came after the last one."""
        base = os.path.join(self.d, self.name)
        if interactive:
            out = self.tool("SparqlEngineMain", ["-i", base, "-I"],
                            ("".join(t + "\n\n" for t in texts) +
                             "\n").encode())
        else:
            path = os.path.join(self.d, "queries")
            with open(path, "w") as f:
                f.write("".join(t + "\n" for t in texts))
            out = self.tool("SparqlEngineMain", ["-i", base, "-q", path])
        if out is None:
            return None
        parts = re.split(r"\nDone\. Time: [^\n]*\n", out)
        blocks = []
        for k, p in enumerate(parts[:-1]):
            i = p.rfind("Execution Tree: ")
            i = p.find("\n}ms\n", i)
            lines = [s for s in p[i + 5:].split("\n")[:-1]
                     if not LOG.match(s)] if i >= 0 else None
            m = re.match(r"\nNumber of matches \(no limit\): (\d+)\n",
                         parts[k + 1])
            blocks.append((lines, int(m[1]) if m else None))
        return blocks, parts[-1]

    def ask_tool(self, cases, graph, interactive):
        """cases: generated queries with the expected answers."""
        todo = list(cases)
        while todo:
            texts = [" ".join(q.render(graph).split("\n"))
                     for q, _, _ in todo]
            r = self.answers(texts, interactive)
            if r is None:
                return
            blocks, rest = r
            for (q, names, rows), text, (lines, size) in zip(todo, texts,
                                                            blocks):
                if lines is None or size is None:
                    self.out.inconclusive.append("no answer found in the "
                                                 "output for " + text)
                    continue
                self.out.case(self.label + "|tool|" + text, bool(rows))
                self.out.events["interactive" if interactive
                                else "from_file"] += 1
                got = [[c or None for c in s.split("\t")] for s in lines]
                want = [tuple(c or None for c in row) for row in rows]
                m = compare(q, names, want, {"res": got, "selected": names,
                                             "resultsize": size})
                self.out.events["rows_compared"] += len(got)
                if m:
                    self.fail("wrong-answer:SparqlEngineMain", m, text)
            if len(blocks) >= len(todo):
                return
            text = texts[len(blocks)]
            # The program ends with the first query that cannot be answered.
            if "prefer cyclic queries" in rest:
                self.out.events["declined_cycle"] += 1
            else:
                self.fail("refused:SparqlEngineMain", rest[-400:], text)
            todo = todo[len(blocks) + 1:]

    def convert(self, fmt, path, engine, via_stdin):
        """Lines that the parser program writes for a file."""
        args = ["--file-format", fmt, "-r", engine]
        out = os.path.join(self.d, "converted.nt")
        data = None
        if via_stdin:
            with open(path, "rb") as f:
                data = f.read()
        else:
            args += ["-i", path]
        if self.tool("TurtleParserMain", args + ["-o", out], data) is None:
            return None
        with open(out, encoding="utf-8", errors="replace") as f:
            return f.read().split("\n")[:-1]


def generate(rng, kb, feats, n, out):
    gen = QueryGen(rng, kb, feats)
    cases = []
    for _ in range(n):
        try:
            cases.append(gen.query())
        except TooBig:
            out.events["too_big"] += 1
    return cases


def q20(ctx):
    bins = ctx.build("asan", ["IndexBuilderMain", "ServerMain",
                              "SparqlEngineMain", "TurtleParserMain",
                              "CreatePatternsMain"]).programs()
    ctx.rep.note("built asan")
    jobs = []
    for kind, n in (("engine", 26), ("convert", 18), ("patterns", 14)):
        for i in range(ctx.n(n)):
            jobs.append((kind, (ctx.seed, "Q20", kind, i)))

    def work(out, job):
        kind, seed = job
        rng = rng_for(*seed)
        langs = kind != "patterns" or rng.random() < 0.5
        kb = KB(rng, langs=langs)
        ss = Tools(out, bins, "seed " + " ".join(map(str, seed)))
        try:
            if kind == "engine":
                ss.index(kb.turtle())
                ss.ask_tool(generate(rng, kb, RICH, 40, out), kb.graph, False)
                ss.ask_tool(generate(rng, kb, ["multi", "path", "filter",
                                               "optional", "order", "limit"],
                                     25, out), kb.graph, True)
            elif kind == "patterns":
                ss.index(kb.turtle(), args=["--no-patterns"])
                if ss.tool("CreatePatternsMain",
                           ["-i", os.path.join(ss.d, ss.name)]) is None:
                    return
                ss.serve()
                predicates(ss, canon_graph(kb.list))
                if langs:
                    return
                for q, names, rows in generate(
                        rng, kb, ["haspred", "multi", "trick", "filter",
                                  "optional"], 40, out):
                    ss.check(q, names, rows, kb.graph)
            else:
                path = os.path.join(ss.d, "data.ttl")
                with open(path, "w") as f:
                    f.write(kb.turtle())
                want = sorted("%s %s %s ." % t for t in kb.list)
                lines = None
                for fmt in ("ttl", "mmap", "nt"):
                    for engine in ("re2", "ctre"):
                        for via_stdin in (False, True):
                            if fmt == "mmap" and via_stdin:
                                continue
                            got = ss.convert(fmt, path, engine, via_stdin)
                            if got is None:
                                return
                            out.case("%s|%s %s %d" % (
                                ss.label, fmt, engine, via_stdin), bool(want))
                            out.events["triples_compared"] += len(got)
                            m = S.same_bag([(x,) for x in want],
                                           [(x,) for x in got])
                            if m:
                                ss.fail("wrong-triples:%s" % fmt, m)
                                return
                            lines = got
                ss.index("\n".join(lines) + "\n", fmt="nt")
                ss.serve()
                for q, names, rows in generate(rng, kb, RICH, 25, out):
                    ss.check(q, names, rows, kb.graph)
        finally:
            ss.close()

    run_jobs(ctx.rep, work, jobs)
    total = 65 * ctx.n(26) * 8 // 10
    return {"min_evals": total, "min_distinct": total // 2}
