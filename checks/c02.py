"""Incremental hashing."""
from lib import vp
from checks import common, models


def small_splits(c, cy):
    """All ways to cut short messages, as sequences of one hasher."""
    ev = []
    sizes = (0, 1, 63, 64, 65)
    for a in sizes:
        for b in sizes:
            for d in sizes:
                mode, key = cy.mode()
                ev.append([{"op": "new", "h": 1, "mode": mode, "key": key}] +
                          [{"op": "upd", "h": 1, "k": 2, "n": n, "al": 0, "how": "update"} for n in (a, b, d)] +
                          [{"op": "fin", "h": 1, "n": 32}])
    return ev


def steady(c, cy):
    """Messages in equal pieces, some of them very short."""
    out = []
    for step, total in [(1, 4200), (3, 5000), (63, 9000), (64, 9000), (65, 9000), (127, 20000), (1000, 40000), (2047, 70000),
                        (2048, 80000), (2049, 90000), (4096, 100000), (6144, 140000), (8192, 200000), (16384, 300000),
                        (18432, 300000), (32768, 500000), (32769, 500000)]:
        mode, key = cy.mode()
        ev = [{"op": "new", "h": 1, "mode": mode, "key": key}]
        n = 0
        for i in range(total // step):
            ev.append({"op": "upd", "h": 1, "k": 3, "n": step, "al": 0, "how": "update"})
            n += step
            if i < 3 or i % max(1, (total // step) // 6) == 0:
                ev.append({"op": "fin", "h": 1, "n": 32})
        ev.append({"op": "fin", "h": 1, "n": 32})
        out.append(ev)
    return out


def check(c):
    models.incremental(c)
    a = vp.rust_driver("A")
    b = vp.rust_driver("B")
    plats = common.platforms(a)
    cy = common.Cycle(c.rng)
    hists = common.shape_histories(c, c.pick(6, 12))
    far = common.shape_histories(c, c.pick(18, 40), [2048, 2049, 4095], 3)
    sc = common.shape_scenarios(c, "shape", hists, plats)
    # Longer messages: only the end result.
    keep = far if c.thorough else far[::2]
    sc += common.shape_scenarios(c, "far", keep, plats[-1:] if not c.thorough else plats, fin_each=False)
    for p in plats:
        sc += [{"id": f"short-{p}-{i}", "impl": "rust", "plat": p, "ev": sum(part, [])}
               for i, part in enumerate([x[j:j + 25] for x in [small_splits(c, cy)] for j in range(0, 125, 25)])]
        sc += [{"id": f"steady-{p}-{i}", "impl": "rust", "plat": p, "ev": ev} for i, ev in enumerate(steady(c, cy))]
    sc += common.history_scenarios("pairs", common.pieces(cy), plats)
    c.judge("histories from the model", "ApiTrace", c.run(a, sc))
    rnd = common.random_histories(c, "ApiGen", c.pick(300, 4000), 26, c.pick(150000, 400000))
    c.judge("random histories", "ApiTrace", c.run(a, common.history_scenarios("random", rnd, plats)))
    c.judge("random histories, release build", "ApiTrace",
            c.run(b, common.history_scenarios("release", rnd[::3], common.platforms(b))))
    c.judge("long messages", "ApiTrace",
            c.run(b, common.history_scenarios("long", common.long_histories(c, c.pick(17, 19), c.pick(10, 100), common.HOWS),
                                              common.platforms(b))))
