"""The C hasher."""
from lib import vp
from checks import common, models

# Build configurations: the back end dispatched to, and how it is compiled.
def configs(c):
    out = [(b, {}) for b in vp.c_back_ends()]
    out.append((vp.c_back_ends()[-1], {"extra": ("-mpopcnt",), "tag": "-popcnt"}))
    out.append(("portable", {"opt": ("-O0",), "tag": "-O0"}))
    if c.thorough:
        out += [(b, {"opt": ("-O0",), "tag": "-O0"}) for b in vp.c_back_ends()[1:]]
        out += [(b, {"cc": "clang", "tag": "-clang"}) for b in vp.c_back_ends()]
    return [(vp.c_library(level, **kw), level + kw.get("tag", "")) for level, kw in out] + list(common.neon(c, c.thorough))


def sprinkle(c, scenarios):
    for sc in scenarios:
        for e in sc["ev"]:
            if e["op"] == "fin":
                e["oal"] = c.rng.choice([0, 0, 1, 2, 7])
            elif e["op"] == "new":
                e["kal"] = c.rng.choice([0, 1, 2, 4])
    return scenarios


def check(c):
    models.incremental(c)
    hists = common.shape_histories(c, c.pick(6, 12))
    far = common.shape_histories(c, c.pick(18, 40), [2048, 2049, 4095], 3)
    rnd = common.random_histories(c, "ApiGen for C", c.pick(60, 1000), 30, c.pick(150000, 400000), allow="c")
    for i, (lib, name) in enumerate(configs(c)):
        sc = common.shape_scenarios(c, f"shape-{name}", hists, [""], impl="c", hows=("update",))
        part = far if c.thorough else far[i % 3::3]
        sc += common.shape_scenarios(c, f"far-{name}", part, [""], impl="c", hows=("update",), fin_each=False)
        lens = range(0, 2120) if c.thorough else range(i % 4, 2120, 4)
        sc += common.history_scenarios(f"pieces-{name}", common.pieces(common.Cycle(c.rng), ("update",), lens), [""], impl="c")
        sc += common.history_scenarios(f"random-{name}", rnd, [""], impl="c")
        c.judge(f"C hasher, {name}", "ApiTrace", c.run(lib.cmd(), sprinkle(c, sc)))
        long = common.long_histories(c, c.pick(13, 19), c.pick(2, 40))
        c.judge(f"C hasher, {name}, long messages", "ApiTrace",
                c.run(lib.cmd(), common.history_scenarios(f"long-{name}", long[i % 4::c.pick(4, 1)], [""], impl="c")))
    # Through the bindings.
    d = vp.rust_driver("C")
    sc = common.shape_scenarios(c, "binding", hists[::3], [""], impl="c", hows=("update",))
    sc += common.history_scenarios("binding-random", rnd, [""], impl="c")
    sc += common.history_scenarios("binding-long", common.long_histories(c, c.pick(16, 18), c.pick(5, 40)), [""], impl="c")
    c.judge("C hasher through the Rust bindings", "ApiTrace", c.run(d, sc))
