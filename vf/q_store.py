"""Containers and codecs of the index behave like their simple models."""
from .build import BuildError
from .harness import run_kinds

KINDS = [("mmap", 60, 200), ("buffered", 200, 80), ("simple8b", 30, 300),
         ("table", 150, 300), ("strings", 12, 60), ("prefixes", 60, 60),
         ("treequeue", 800, 100), ("heapqueue", 800, 100),
         ("cache", 500, 300)]


def q17(ctx):
    fl = ctx.build("asan", [], ["h_store"])
    try:
        binary = fl.harness_bin("h_store")
    except BuildError as e:
        ctx.rep.note(str(e)[:2000])
        return {"min_evals": 0, "min_distinct": 0}
    ctx.rep.note("built asan")
    n = run_kinds(ctx, "Q17", binary, KINDS, 32, 120)
    return {"min_evals": n, "min_distinct": n}
