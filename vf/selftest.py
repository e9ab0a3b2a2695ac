#!/usr/bin/env python3
"""Set-up command: checks that the machinery and the toolchain are usable."""
import os
import shutil
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import build, gen, session, sparql  # noqa: E402,F401
from vf.props import CHECKS  # noqa: E402

PROBE = r"""
#include <vector>
#include <cstdio>
int main(int argc, char**) {
  std::vector<int> v(3 + argc);
  int* p = new int[2];
  int r = p[1 + argc] + v[0];
  std::printf("%d\n", r);
}
"""


def main():
    d = tempfile.mkdtemp(prefix="verif-setup-", dir="/tmp")
    try:
        src = os.path.join(d, "p.cpp")
        with open(src, "w") as f:
            f.write(PROBE)
        exe = os.path.join(d, "p")
        subprocess.run(["g++", "-std=gnu++20", "-g", src, "-o", exe] +
                       ["-fsanitize=address,undefined"], check=True)
        r = subprocess.run([exe], capture_output=True, text=True)
        if "AddressSanitizer" not in r.stderr:
            print("AddressSanitizer does not report errors here")
            return 1
    finally:
        shutil.rmtree(d)
    # The reference model and the generators agree with themselves.
    n = 0
    for i in range(5):
        rng = session.rng_for(1, "selftest", i)
        kb = gen.KB(rng)
        g = gen.QueryGen(rng, kb, ["multi", "optional", "union", "filter"])
        for _ in range(20):
            try:
                q, names, rows = g.query()
            except gen.TooBig:
                continue
            assert q.render(kb.graph)
            assert all(len(r) == len(names) for r in rows)
            n += 1
    print("setup ok: %d checks, %d model queries" % (len(CHECKS), n))
    return 0 if n > 50 else 1


if __name__ == "__main__":
    sys.exit(main())
