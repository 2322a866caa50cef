"""Extensible output."""
from lib import vp
from lib.vp import limbs
from checks import common, models

U64 = 1 << 64
# Positions just before the counter carries from one word, or one bit, to the
# next, and before its limit. A read leaves a position that is still below 2^64.
POSITIONS = sorted({max(0, (1 << k) - 64 * d) for k in range(6, 64) for d in (1, 2)} | {0, 64, 128}
                   | {(h << 32) - 64 for h in (1, 2, 3, 0x7fffffff, 0x80000000, 0xffffffff)}
                   | {U64 - 64 * d for d in (2, 3, 4)})
LENGTHS = [0, 1, 63, 64, 65, 2047, 2048, 2049, 4096, 4097, 10000, 16384, 16385, 40961]


def start(cy, n, o, hasher):
    """An output at position zero, one-shot or from a hasher."""
    mode, key = cy.mode()
    if hasher:
        return [{"op": "new", "h": 1, "mode": mode, "key": key},
                {"op": "upd", "h": 1, "k": cy.kind(), "n": n, "al": 0, "how": "update"},
                {"op": "xof", "h": 1, "o": o}, {"op": "fin", "h": 1, "n": 32}]
    return [{"op": "onexof", "mode": mode, "key": key, "segs": [[cy.kind(), n]], "al": cy.align(), "o": o}]


def piecewise(c, cy):
    """The same stream read in different pieces, with clones left behind."""
    out = []
    for n in LENGTHS:
        for hasher in (False, True):
            ev = start(cy, n, 1, hasher)
            ev += [{"op": "cloneo", "o": 1, "o2": 2}, {"op": "cloneo", "o": 1, "o2": 3}, {"op": "tohash", "o": 1}]
            ev += [{"op": "read", "o": 1, "n": k} for k in (1, 1, 2, 1, 3)]
            ev += [{"op": "cloneo", "o": 1, "o2": 4}, {"op": "read", "o": 2, "n": 8}, {"op": "read", "o": 4, "n": 2},
                   {"op": "read", "o": 1, "n": 1}, {"op": "tohash", "o": 1}, {"op": "tohash", "o": 2},
                   {"op": "read", "o": 3, "n": 1}, {"op": "tohash", "o": 3}, {"op": "read", "o": 2, "n": 1},
                   {"op": "read", "o": 4, "n": 5}]
            out.append(ev)
    return out


def positions(c, cy, last):
    out = []
    for i, pos in enumerate(POSITIONS + [64 * c.rng.getrandbits(c.rng.randrange(1, 58)) for _ in range(c.pick(60, 2000))]
                            + [c.rng.getrandbits(64) % (U64 - 4096) for _ in range(c.pick(20, 500))]):
        ev = start(cy, LENGTHS[i % len(LENGTHS)], 1, i % 3 == 0)
        ev += [{"op": "cloneo", "o": 1, "o2": 2}, {"op": "seek", "o": 1, "pos": limbs(pos)},
               {"op": "cloneo", "o": 1, "o2": 3}, {"op": "tohash", "o": 1}]
        reads = min(3, (U64 - 1 - pos) // 64)
        if reads:
            ev += [{"op": "read", "o": 1, "n": reads}, {"op": "read", "o": 3, "n": 1}, {"op": "tohash", "o": 3}]
        ev += [{"op": "tohash", "o": 1}, {"op": "read", "o": 2, "n": 2}]
        if last:
            # The very last block: what it leads to is nobody's business.
            # (Only an output that has not been read is moved.)
            ev += start(cy, LENGTHS[i % len(LENGTHS)], 4, i % 3 == 1)
            ev += [{"op": "seek", "o": 4, "pos": limbs(U64 - 64)}, {"op": "tohash", "o": 4}]
        out.append(ev)
    return out


def fits(c, d, plat):
    """Do the hook and reading lead to the same position?"""
    real, hooked = [], []
    for n in (0, 100, 2048, 5000):
        for hasher in (False, True):
            for k in (1, 2, 5):
                ev = start(common.Cycle(c.rng), n, 1, hasher)
                more = [{"op": "tohash", "o": 1}, {"op": "read", "o": 1, "n": 2}]
                real.append(ev + [{"op": "read", "o": 1, "n": k}] + more)
                hooked.append(ev + [{"op": "seek", "o": 1, "pos": limbs(64 * k)}] + more)
    real, hooked = (c.run(d, common.history_scenarios("fits", x, [plat])) for x in (real, hooked))
    return c.hook_fits("the positions of an output beyond what was read", real, hooked)


def long_reads(c, cy):
    out = []
    for n in (0, 100, 5000):
        ev = start(cy, n, 1, False)
        ev += [{"op": "read", "o": 1, "n": k} for k in (1, 1000, 30, 1, c.pick(500, 20000))]
        out.append(ev)
    return out


def check(c):
    models.xof(c)
    cy = common.Cycle(c.rng)
    for config, name in (("A", "checked"), ("B", "release with threads")):
        d = vp.rust_driver(config)
        plats = common.platforms(d)
        sc = []
        seek = d.hooks and fits(c, d, plats[0])
        for p in plats:
            sc += common.history_scenarios(f"pieces-{p}", piecewise(c, cy), [p])
            sc += common.history_scenarios(f"long-{p}", long_reads(c, cy), [p])
            if seek:
                sc += common.history_scenarios(f"pos-{p}", positions(c, cy, True), [p])
        c.judge(f"extensible output, {name}", "ApiTrace", c.run(d, sc))
    if not d.hooks:
        c.assumptions.append("built without hooks: positions beyond what was read are not covered")
    d = vp.rust_driver("A")
    rnd = common.random_histories(c, "ApiGen", c.pick(300, 5000), 40, c.pick(20000, 100000))
    c.judge("random histories", "ApiTrace", c.run(d, common.history_scenarios("random", rnd, plats)))
