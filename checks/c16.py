"""The Python implementation."""
import os
import sys

from lib import vp
from checks import common


def check(c):
    cmd = [sys.executable, "-B", os.path.join(vp.VERIF, "lib/pydrive.py"), os.path.join(vp.REPO, "python/baokeshed.py")]
    cy = common.Cycle(c.rng)
    outs = (32, 0, 64, 1, 65, 31, 128, 33, 63, 200, 96, 129)

    def one(size, i, **kw):
        e = common.one(cy, size)
        e.update(n=outs[i % len(outs)], type=("bytes", "bytearray")[i % 2], ktype=("bytes", "bytearray")[i // 2 % 2])
        e.update(kw)
        return e

    lens = list(range(0, 200)) + list(range(200, 4300)) + common.boundary_lengths(range(1, 9))
    lens += common.boundary_lengths(range(9, c.pick(20, 70)), (-1, 0, 1))
    lens += [n * 2048 + 64 * k + d for n in range(2, c.pick(12, 40)) for k in range(32) for d in (-1, 0, 1)]
    lens += [c.rng.randrange(1 << c.rng.randrange(8, 17)) for _ in range(c.pick(150, 1500))]
    ev = [one(n, i) for i, n in enumerate(lens)]
    # Every output length; every mode with every key; contents with structure.
    ev += [one(j, i, n=m) for j in (0, 70, 2049) for i, m in enumerate(list(range(0, 200)) + [511, 512, 513, 1000, 4096])]
    ev += [one(j, j, n=m) for j, m in ((3, 16384), (2049, 16385), (100, 65536 + 70), (2048, 40000)) + c.pick((), ((5, 300000), (7, (1 << 20) + 1)))]
    for mode in common.MODES:
        for key in common.KEYS:
            for j in (0, 1, 64, 2048, 2049, 5000):
                ev.append(one(j, j, mode=mode, key=key if mode != "hash" else ""))
    for _ in range(c.pick(120, 1200)):
        segs = [[c.rng.choice([0, 1, 2, 3]), c.rng.choice([1, 63, 64, 65, 2047, 2048, 2049, 4096])]
                for _ in range(c.rng.randrange(1, 5))]
        ev.append(one(0, c.rng.randrange(99), segs=segs))
    for nc in c.pick([130, 257, 300], [130, 255, 256, 257, 300, 511, 513, 1025]):
        ev.append(one(0, nc, segs=[[3, nc * 2048 + nc % 7]]))
    sc = common.group("py", [""], ev, 8, impl="py")
    c.judge("Python functions", "ApiTrace", c.run(cmd, sc))
