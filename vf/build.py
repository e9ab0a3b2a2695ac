"""Builds the programs under test from /repo's current working tree.

One "flavour" is one set of compiler flags (e.g. AddressSanitizer).  All
sources below /repo/src except the *Main.cpp programs are compiled into one
list of objects, which every program or harness is linked against.  Small
sources are compiled together in one translation unit to save time; when that
does not compile (for example because two of them define the same helper),
they are compiled one by one.
"""
import concurrent.futures
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
import threading
import time

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD_ROOT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))

CHEAP_UB = ("bounds,shift,signed-integer-overflow,integer-divide-by-zero,"
            "bool,return,unreachable,vla-bound")
COMMON = [
    "-std=gnu++20", "-fopenmp", "-w", "-DNDEBUG", "-DLOGLEVEL=3",
    "-D_GLIBCXX_ASSERTIONS", "-DQLEVER_VERIF", "-include", "cstdint",
    "-include", "utility",
    "--param", "ggc-min-expand=500", "--param", "ggc-min-heapsize=1000000",
]
FLAVOURS = {
    "asan": ["-O0", "-fno-omit-frame-pointer",
             "-fsanitize=address," + CHEAP_UB],
    "tsan": ["-O0", "-fno-omit-frame-pointer", "-fsanitize=thread"],
    "plain": ["-O1"],
}
LINK = {
    "asan": ["-fsanitize=address,undefined"],
    "tsan": ["-fsanitize=thread"],
    "plain": [],
}
LIBS = ["-lstxxl", "-lre2", "-licuuc", "-licui18n",
        "-labsl_hash", "-labsl_city", "-labsl_low_level_hash",
        "-labsl_raw_hash_set", "-labsl_hashtablez_sampler",
        "-labsl_exponential_biased", "-labsl_synchronization",
        "-labsl_throw_delegate", "-labsl_bad_variant_access",
        "-labsl_bad_optional_access", "-labsl_base",
        "-labsl_raw_logging_internal", "-labsl_strings", "-labsl_time",
        "-lbz2", "-latomic", "-lpthread"]

# Groups of sources (below src/) that are compiled together, with a rough cost
# in seconds (used only to start the expensive ones first).
GROUPS = [
    (40, ["index/Index.cpp"]),
    (24, ["engine/TransitivePath.cpp"]),
    (23, ["engine/Filter.cpp"]),
    (23, ["engine/Join.cpp"]),
    (20, ["engine/Operation.cpp", "engine/QueryExecutionTree.cpp",
          "engine/IndexScan.cpp", "engine/Sort.cpp", "engine/OrderBy.cpp",
          "engine/Distinct.cpp", "engine/Values.cpp",
          "engine/TextOperationWithFilter.cpp",
          "engine/TextOperationWithoutFilter.cpp",
          "engine/TwoColumnJoin.cpp", "engine/HasPredicateScan.cpp",
          "engine/CountAvailablePredicates.cpp", "engine/Minus.cpp",
          "engine/ResultTable.cpp", "engine/QueryPlanningCostFactors.cpp"]),
    (16, ["engine/OptionalJoin.cpp"]),
    (15, ["engine/QueryPlanner.cpp"]),
    (14, ["engine/Union.cpp", "engine/MultiColumnJoin.cpp"]),
    (13, ["engine/GroupBy.cpp"]),
    (13, ["index/Index.Text.cpp", "index/FTSAlgorithms.cpp"]),
    (12, ["engine/Bind.cpp", "engine/Server.cpp"]),
    (11, ["parser/TurtleParser.cpp", "parser/Tokenizer.cpp",
          "parser/NTriplesParser.cpp", "parser/TsvParser.cpp",
          "parser/ContextFileParser.cpp", "parser/RdfEscaping.cpp"]),
    (9, ["parser/SparqlParser.cpp", "parser/ParsedQuery.cpp",
         "parser/PropertyPathParser.cpp"]),
    (7, ["index/Vocabulary.cpp", "index/ExternalVocabulary.cpp",
         "index/MetaDataTypes.cpp", "index/TextMetaData.cpp",
         "index/DocsDB.cpp", "index/PrefixHeuristic.cpp"]),
]


class BuildError(Exception):
    pass


def _jobs():
    try:
        n = len(os.sched_getaffinity(0))
    except AttributeError:
        n = os.cpu_count() or 4
    try:
        with open("/proc/meminfo") as f:
            for line in f:
                if line.startswith("MemAvailable"):
                    gb = int(line.split()[1]) / 1e6
                    n = min(n, max(1, int(gb / 1.5)))
    except OSError:
        pass
    return max(1, n)


def _write_if_changed(path, text):
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


class Builder:
    """Compiles objects on demand; several flavours can share one pool."""

    def __init__(self, log=None):
        self.pool = concurrent.futures.ThreadPoolExecutor(_jobs())
        self.log = log or (lambda s: None)
        self.lock = threading.Lock()
        self.env = dict(os.environ, LC_ALL="C.UTF-8")
        for v in ("CFLAGS", "CXXFLAGS", "CPPFLAGS", "LDFLAGS"):
            self.env.pop(v, None)
        self.env["CCACHE_DIR"] = os.path.join(BUILD_ROOT, "ccache")
        self.env["CCACHE_MAXSIZE"] = "4G"
        self.cc = (["ccache"] if shutil.which("ccache") and
                   os.environ.get("VERIF_NO_CCACHE") is None else [])
        os.makedirs(BUILD_ROOT, exist_ok=True)
        inc = os.path.join(BUILD_ROOT, "include", "absl", "base")
        os.makedirs(inc, exist_ok=True)
        with open("/usr/include/absl/base/options.h") as f:
            opts = f.read().replace("ABSL_OPTION_USE_STD_STRING_VIEW 0",
                                    "ABSL_OPTION_USE_STD_STRING_VIEW 1")
        _write_if_changed(os.path.join(inc, "options.h"), opts)
        self.includes = ["-I" + os.path.join(BUILD_ROOT, "include"),
                         "-I" + os.path.join(REPO, "third_party/json"),
                         "-I" + os.path.join(REPO, "third_party/ctre/include")]

    def _compile(self, flavour, src, obj, extra=()):
        cmd = (self.cc + ["g++"] + COMMON + FLAVOURS[flavour] + self.includes +
               list(extra) + ["-c", src, "-o", obj])
        r = subprocess.run(cmd, env=self.env, cwd=BUILD_ROOT,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace")
        return r.returncode, r.stdout

    def _compile_group(self, flavour, d, name, files):
        if len(files) > 1:
            unity = os.path.join(d, name + ".unity.cpp")
            _write_if_changed(unity, "".join(
                '#include "%s"\n' % os.path.join(REPO, "src", f)
                for f in files))
            obj = os.path.join(d, name + ".o")
            rc, _ = self._compile(flavour, unity, obj)
            if rc == 0:
                return [obj]
        objs = []
        for f in files:
            obj = os.path.join(d, f.replace("/", "_") + ".o")
            rc, out = self._compile(flavour, os.path.join(REPO, "src", f), obj)
            if rc != 0:
                raise BuildError("cannot compile %s:\n%s" % (f, out[-3000:]))
            objs.append(obj)
        return objs

    def start(self, flavour, programs=(), harnesses=(), lib=True):
        """Starts compilation; returns a Flavour to wait on.

        Without lib, only the harnesses are compiled and linked."""
        return Flavour(self, flavour, programs, harnesses, lib)


class Flavour:
    def __init__(self, b, flavour, programs, harnesses, lib=True):
        self.b, self.flavour = b, flavour
        self.t0 = time.time()
        self.dir = os.path.join(BUILD_ROOT, flavour)
        os.makedirs(self.dir, exist_ok=True)
        present = set()
        for cm in glob.glob(os.path.join(REPO, "src/**/CMakeLists.txt"),
                            recursive=True):
            with open(cm) as f:
                for name in re.findall(r"[\w./+-]+\.cpp", f.read()):
                    path = os.path.normpath(
                        os.path.join(os.path.dirname(cm), name))
                    rel = os.path.relpath(path, os.path.join(REPO, "src"))
                    if rel.endswith("Main.cpp") or "MetaDataConverter" in rel:
                        continue
                    if os.path.exists(path):
                        present.add(rel)
        if not lib:
            present = set()
        jobs = []
        for cost, files in GROUPS:
            files = [f for f in files if f in present]
            if files:
                jobs.append((cost, files))
                present -= set(files)
        jobs += [(5, [f]) for f in sorted(present)]
        for p in programs:
            jobs.append((6, ["::" + p]))
        for h in harnesses:
            jobs.append((16, ["##" + h]))
        jobs.sort(key=lambda x: -x[0])
        self.lib, self.main, self.harness = [], {}, {}
        for _, files in jobs:
            f = files[0]
            if f.startswith("::"):
                self.main[f[2:]] = b.pool.submit(self._main_obj, f[2:])
            elif f.startswith("##"):
                self.harness[f[2:]] = b.pool.submit(self._harness_obj, f[2:])
            else:
                name = "u_" + hashlib.sha1(
                    " ".join(files).encode()).hexdigest()[:10]
                self.lib.append(b.pool.submit(
                    b._compile_group, flavour, self.dir, name, files))

    def _main_obj(self, p):
        cands = glob.glob(os.path.join(REPO, "src/**/%s.cpp" % p),
                          recursive=True)
        if not cands:
            raise BuildError("no source for " + p)
        obj = os.path.join(self.dir, p + ".o")
        rc, out = self.b._compile(self.flavour, cands[0], obj)
        if rc != 0:
            raise BuildError("cannot compile %s:\n%s" % (p, out[-3000:]))
        return obj

    def _harness_obj(self, h):
        obj = os.path.join(self.dir, "h_" + h + ".o")
        rc, out = self.b._compile(
            self.flavour, os.path.join(VERIF, "harness", h + ".cpp"), obj,
            ["-I" + os.path.join(REPO, "src"), "-fno-access-control"])
        if rc != 0:
            raise BuildError("cannot compile harness %s:\n%s"
                             % (h, out[-3000:]))
        return obj

    def _link(self, obj, name, with_lib=True):
        out = os.path.join(self.dir, name)
        objs = []
        if with_lib:
            for f in self.lib:
                objs += f.result()
        cmd = (["g++", "-fopenmp", "-rdynamic"] + LINK[self.flavour] + [obj] +
               objs + ["-o", out] + LIBS)
        r = subprocess.run(cmd, env=self.b.env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True,
                           errors="replace")
        if r.returncode != 0:
            raise BuildError("cannot link %s:\n%s" % (name, r.stdout[-3000:]))
        return out

    def program(self, p):
        return self._link(self.main[p].result(), p)

    def programs(self):
        for f in self.lib:
            f.result()
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            return dict(zip(self.main, ex.map(self.program, self.main)))

    def harness_bin(self, h, with_lib=True):
        return self._link(self.harness[h].result(), h, with_lib)


if __name__ == "__main__":
    t = time.time()
    b = Builder()
    fl = b.start(sys.argv[1], sys.argv[2:])
    try:
        print(fl.programs(), round(time.time() - t, 1), "s")
    except BuildError as e:
        print(e)
        sys.exit(2)
