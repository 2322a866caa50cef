"""Finalizing and cloning."""
from lib import vp
from checks import common, models


def after_finalize(c, cy):
    """At every kind of position: finalize twice, both ways, go on, and
    compare with a hasher that was never finalized; the same for clones."""
    out = []
    points = [0, 1, 63, 64, 65, 1984, 2047, 2048, 2049, 2112, 4095, 4096, 4097, 6144, 8191, 8192, 8193, 10240, 14336, 16384, 16385, 32768, 34816]
    more = [0, 1, 64, 2047, 2048, 2049, 4096, 16384]
    for i, x in enumerate(points):
        for j, y in enumerate(more):
            mode, key = cy.mode()
            k, k2 = cy.kind(), cy.kind()
            up = lambda h, n, kk=k: {"op": "upd", "h": h, "k": kk, "n": n, "al": 0, "how": "update"}
            fin = lambda h: {"op": "fin", "h": h, "n": 32}
            ev = [{"op": "new", "h": 1, "mode": mode, "key": key}, up(1, x), fin(1), fin(1),
                  {"op": "xof", "h": 1, "o": 1}, {"op": "clone", "h": 1, "h2": 2}, {"op": "clone", "h": 1, "h2": 3},
                  up(1, y), fin(2), fin(1), up(2, y, k2), up(3, y), fin(1), fin(2), fin(3),
                  {"op": "read", "o": 1, "n": 1},
                  {"op": "clone", "h": 2, "h2": 1}, up(1, 1), fin(2), fin(1), {"op": "tohash", "o": 1}]
            out.append(ev)
    return out


def every_length(cy):
    """The same for every length up to a little more than a chunk."""
    out = []
    for n in range(0, 2120):
        mode, key = cy.mode()
        up = lambda h, n: {"op": "upd", "h": h, "k": cy.kind(), "n": n, "al": 0, "how": "update"}
        fin = lambda h: {"op": "fin", "h": h, "n": 32}
        if n % 10 == 0:
            out.append([])
        out[-1] += [{"op": "new", "h": 1, "mode": mode, "key": key}, up(1, n), {"op": "clone", "h": 1, "h2": 2}, fin(1), fin(2),
                    {"op": "xof", "h": 2, "o": 1}, up(2, (1, 64, 2048 - n % 2048, 3000)[n % 4]), fin(1), fin(2),
                    {"op": "clone", "h": 2, "h2": 3}, up(1, 100), fin(3), fin(1), {"op": "read", "o": 1, "n": 2}]
    return out


def check(c):
    models.incremental(c)
    a = vp.rust_driver("A")
    b = vp.rust_driver("B")
    plats = common.platforms(a)
    cy = common.Cycle(c.rng)
    sc = []
    for p in plats:
        sc += common.history_scenarios(f"points-{p}", after_finalize(c, cy), [p])
    sc += common.history_scenarios("every", every_length(cy), plats)
    c.judge("finalize and clone at every kind of position", "ApiTrace", c.run(a, sc))
    for depth, count, total in c.pick([(16, 400, 40000), (40, 250, 200000)],
                                      [(16, 4000, 40000), (40, 3000, 200000), (120, 500, 400000)]):
        rnd = common.random_histories(c, f"ApiGen {depth}", count, depth, total)
        c.judge(f"random histories of {depth} calls", "ApiTrace",
                c.run(a, common.history_scenarios(f"random{depth}", rnd, plats)))
        c.judge(f"random histories of {depth} calls, release build", "ApiTrace",
                c.run(b, common.history_scenarios(f"release{depth}", rnd[::2], common.platforms(b))))
