"""The reference implementation."""
from lib import vp
from checks import common, models


def out_lengths(c, cy):
    """Every output length up to several blocks."""
    out = []
    for n in (0, 1, 64, 65, 2047, 2048, 2049, 4096, 6000, 8192):
        mode, key = cy.mode()
        ev = [{"op": "new", "h": 1, "mode": mode, "key": key},
              {"op": "upd", "h": 1, "k": cy.kind(), "n": n, "al": 0, "how": "update"}]
        ev += [{"op": "fin", "h": 1, "n": m} for m in list(range(0, 260)) + [1000, 1023, 1024, 4095, 4096, 5000] + ([16384, 16385, 65536, 65537 + 64, 200000] if n in (1, 2049) else [])]
        out.append(ev)
    return out


def check(c):
    models.ref_incremental(c)
    d = vp.rust_driver("A")
    cy = common.Cycle(c.rng)
    hists = common.shape_histories(c, c.pick(6, 12))
    far = common.shape_histories(c, c.pick(18, 40), [2048, 2049, 4095], 3)
    sc = common.shape_scenarios(c, "shape", hists, [""], impl="ref", hows=("update",))
    sc += common.shape_scenarios(c, "far", far if c.thorough else far[::2], [""], impl="ref", hows=("update",), fin_each=False)
    sc += common.history_scenarios("out", out_lengths(c, cy), [""], impl="ref")
    sc += common.history_scenarios("pieces", common.pieces(cy, ("update",)), [""], impl="ref")
    # Whole messages of every length around block and chunk boundaries.
    lens = list(range(0, 4300)) if c.thorough else list(range(0, 260)) + common.boundary_lengths(range(1, 5))
    lens += common.boundary_lengths(range(5, c.pick(34, 130)), (-1, 0, 1)) + [c.rng.randrange(1 << 17) for _ in range(c.pick(30, 300))]
    lens += [n * 2048 + 64 * k + d for n in range(1, 6) for k in range(32) for d in (-1, 0, 1)]
    part = []
    for n in lens:
        mode, key = cy.mode()
        part += [{"op": "new", "h": 1, "mode": mode, "key": key},
                 {"op": "upd", "h": 1, "k": cy.kind(), "n": n, "al": 0, "how": "update"},
                 {"op": "fin", "h": 1, "n": (32, 64, 65, 33, 1)[len(part) % 5]}]
    sc += [{"id": f"whole-{i // 60}", "impl": "ref", "plat": "", "ev": part[i:i + 60]} for i in range(0, len(part), 60)]
    c.judge("reference implementation, overflow checks on", "ApiTrace", c.run(d, sc))
    rnd = common.random_histories(c, "ApiGen for ref", c.pick(200, 3000), 30, c.pick(60000, 200000), allow="ref")
    c.judge("random histories", "ApiTrace", c.run(d, common.history_scenarios("random", rnd, [""], impl="ref")))
    c.judge("random histories, release build", "ApiTrace",
            c.run(vp.rust_driver("B"), common.history_scenarios("release", rnd[::2], [""], impl="ref")))
    c.judge("long messages", "ApiTrace",
            c.run(d, common.history_scenarios("long", common.long_histories(c, c.pick(17, 19), c.pick(10, 60)), [""], impl="ref")))
