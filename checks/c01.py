"""One-shot hashing."""
from lib import vp
from checks import common, models
from checks.common import one, group


def events(c, cy, lens):
    return [one(cy, n) for n in lens]


def check(c):
    models.self_check(c)
    models.recursive(c)
    a = vp.rust_driver("A")
    b = vp.rust_driver("B")
    cy = common.Cycle(c.rng)
    plats = common.platforms(a)
    sc = []
    # Every length up to a little over two chunks (thorough: nine).
    sc += group("dense", plats, events(c, cy, range(0, c.pick(4300, 9 * 2048 + 70))), 60)
    # Around every chunk boundary of larger messages.
    chunks = list(range(2, c.pick(70, 300)))
    sc += group("edges", plats, events(c, cy, common.boundary_lengths(chunks, (-1, 0, 1) if not c.thorough else (-64, -1, 0, 1, 65))), 12)
    # Around every block boundary of some more chunks.
    grid = [n * 2048 + 64 * k + d for n in range(2, c.pick(19, 70)) for k in range(32) for d in (-1, 0, 1)]
    for j, p in enumerate(plats):
        sc += group("blocks", [p], events(c, cy, grid), 12)
    # Anything.
    lens = [c.rng.randrange(1 << c.rng.choice([14, 16, 18, 20])) for _ in range(c.pick(200, 3000))]
    sc += group("random", plats, events(c, cy, lens), 4)
    # Contents that look like structure: repeated chunks, zeros, mixed pieces.
    mixed = []
    for _ in range(c.pick(200, 3000)):
        segs = [[c.rng.choice([0, 1, 2, 3]), c.rng.choice([1, 63, 64, 65, 2047, 2048, 2049, 4096, 16384, 30000])]
                for _ in range(c.rng.randrange(1, 5))]
        mixed.append(one(cy, 0, segs=segs))
    sc += group("mixed", plats, mixed, 20)
    # The same through the extensible forms.
    xof = []
    for n in [0, 1, 64, 65, 2048, 2049, 4096, 4097, 16384, 16385, 40000, 65536, 70001]:
        for i in range(3):
            e = one(cy, n)
            e.update(op="onexof", o=1)
            e.pop("n")
            xof.append([e, {"op": "read", "o": 1, "n": 3}])
    for p in plats:
        for i, ev in enumerate(xof):
            sc.append({"id": f"xof-{p}-{i}", "impl": "rust", "plat": p, "ev": ev})
    c.judge("one-shot, overflow checks and debug assertions on", "ApiTrace", c.run(a, sc))
    c.judge("long messages", "ApiTrace", c.run(b, group("long", common.platforms(b), common.long_ones(c, cy, c.pick(17, 19), c.pick(10, 100)), 8)))
    # Optimised, with threads.
    lens = common.boundary_lengths(list(range(1, 40, 3)) + [63, 64, 65, 127, 128, 129], (-1, 0, 1, 700))
    sc = group("release", common.platforms(b), events(c, cy, lens), 8)
    c.judge("one-shot, release build with threads", "ApiTrace", c.run(b, sc))
