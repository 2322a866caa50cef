"""On every processor: the extensions there are, and no others. The code is
interpreted on processors with more and more of them; the interpreter knows
which instructions each has."""
from concurrent.futures import ThreadPoolExecutor

from lib import vp
from checks import common, models
from checks.c20 import messages

CHUNK = 2048
PROCESSORS = [("x86_64", "", "no extensions"), ("x86_64", "+ssse3", "SSSE3"), ("x86_64", "+sse4.1", "SSE4.1"),
              ("x86_64", "+sse4.2,+popcnt", "SSE4.2"), ("x86_64", "+avx", "AVX"),
              ("x86_64", "+avx,+fma,+f16c,+bmi1,+bmi2", "AVX, FMA and BMI"), ("x86_64", "+avx2", "AVX2"),
              ("x86_64", "+avx512f,+avx512vl,+avx512bw,+avx512dq", "AVX-512"),
              ("i686", "", "no extensions, 32 bits"), ("i686", "+sse4.1", "SSE4.1, 32 bits"), ("i686", "+avx", "AVX, 32 bits"),
              ("i686", "+avx2", "AVX2, 32 bits")]


def batches(c, cy):
    """Every number of inputs that may be hashed together, in one call and
    incrementally; parents come in smaller numbers."""
    out = []
    for n in list(range(2, 19)) + c.pick([], [23, 24, 31, 33]):
        mode, key = cy.mode()
        kind = cy.kind()
        size = n * CHUNK + c.rng.choice([0, 0, 1, 100])
        if n % 2 or c.thorough:
            out.append([{"op": "one", "mode": mode, "key": key, "segs": [[kind, size]], "n": 32}])
        if not n % 2 or c.thorough:
            out.append([{"op": "new", "h": 1, "mode": mode, "key": key},
                        {"op": "upd", "h": 1, "k": kind, "n": size, "al": 0, "how": "update"}, {"op": "clone", "h": 1, "h2": 2},
                        {"op": "fin", "h": 2, "n": 32}, {"op": "xof", "h": 1, "o": 1}, {"op": "read", "o": 1, "n": 2}])
    return out


def check(c):
    models.processors(c)
    machines = PROCESSORS if c.thorough else PROCESSORS[:8]
    with ThreadPoolExecutor(vp.CORES) as ex:
        # (The standard library once for each target, then the rest.)
        builds = [ex.submit(vp.port_rust, m[0] + "-unknown-linux-gnu", "-Zmiri-disable-stacked-borrows", m[1]) for m in machines]
        builds = [b.result() for b in builds]
    for (_, _, name), (cmd, hooks) in zip(machines, builds):
        if not cmd:
            c.assumptions.append(f"the code cannot be interpreted for a processor with {name}: {hooks[:300]}")
            continue
        cy = common.Cycle(c.rng)
        lens = [0, 1, 64, 65, 2047, 2048, 2049, 3000] + c.pick([], list(range(60, 70)) + [c.rng.randrange(30000) for _ in range(40)])
        sc = common.history_scenarios("msg", messages(c, cy, lens, "rust"), [""]) + common.history_scenarios("batch", batches(c, cy), [""])
        c.rng.shuffle(sc)
        c.judge(f"processor with {name}", "ApiTrace", c.run(cmd, sc, timeout=700))
