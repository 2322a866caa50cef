"""Domain separation."""
import json
import os
import sys

from lib import vp
from checks import common, models


def generate(c, sizes):
    path = os.path.join(c.work, "sizes.json")
    with open(path, "w") as f:
        f.write(json.dumps({"sizes": sizes}) + "\n")
    r = c.generate("SeparationGen", "SeparationGen", cfg_text="SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", env={"SIZES": path}, workers=1,
                   what="for messages of some sizes: the triples an adversary makes of the chaining values in their trees, and near misses")
    return [p["calls"] for p in r]


def check(c):
    models.separation(c)
    sizes = c.pick([0, 1, 64, 65, 128, 2048, 2049, 4096, 4097, 6200, 8192, 10300],
                   [0, 1, 31, 32, 33, 63, 64, 65, 127, 128, 129, 1024, 2047, 2048, 2049, 2112, 2113, 4095, 4096, 4097, 6144, 6200, 8192,
                    10300, 14336, 16384, 16385, 17000])
    pools = generate(c, sizes)
    a, b = vp.rust_driver("A"), vp.rust_driver("B")
    py = [sys.executable, "-B", os.path.join(vp.VERIF, "lib/pydrive.py"), os.path.join(vp.REPO, "python/baokeshed.py")]

    def scenarios(prefix, impl, plats, every=1, **kw):
        out = []
        for i, pool in enumerate(pools[::every]):
            ev = [dict(e, **kw) for e in sorted(pool, key=lambda e: json.dumps(e, sort_keys=True))]
            c.rng.shuffle(ev)
            for e in ev:
                e["cut"] = c.rng.choice([0, 1, 64, 65, 2048, 2049, 3000])
            out.append({"id": f"{prefix}-{i}", "impl": impl, "plat": plats[i % len(plats)], "ev": ev})
        return out

    plats = common.platforms(a)
    runs = [("Rust one-shot functions", a, scenarios("one", "rust", plats)),
            ("Rust hasher", b, scenarios("hasher", "rust", plats, how="hasher", n=32)),
            ("reference implementation", a, scenarios("ref", "ref", [""])),
            ("Python implementation", py, scenarios("py", "py", [""], every=c.pick(3, 1)))]
    levels = vp.c_back_ends()
    for level in levels if c.thorough else [levels[-1]]:
        runs.append((f"C hasher, {level}", vp.c_library(level).cmd(), scenarios(f"c-{level}", "c", [""], n=32)))
    for name, drv, sc in runs:
        traces = c.run(drv, sc)
        c.judge(f"{name}: no two the same", "SeparationTrace", traces, cfg="SeparationTrace.cfg")
        if not c.violations:
            c.judge(f"{name}: as specified", "ApiTrace", traces)
