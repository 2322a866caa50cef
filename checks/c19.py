"""Memory: every buffer next to inaccessible pages, what is only read
read-only, canaries around what is written; and instrumented builds."""
import subprocess

from lib import vp
from checks import backends as be, common, models
from checks.c05 import back_ends


def many(c, b, w, lanes, times):
    ev = []
    for n in list(range(0, 2 * lanes + lanes // 2 + 3)) + [31, 32, 33, 64, 65]:
        for blocks in (1, 2, 3, 32) if n <= lanes + 1 else (1, 2):
            for i in range(times):
                e = be.many_event(c.rng, b, w, n, blocks)
                e.update(fence=1 + (n + blocks + i) % 2, ro=True, oal=c.rng.choice([0, 0, 1, 2, 10, 33]),
                         spare=c.rng.choice([0, 0, 0, 1, 31, 512]))
                ev.append(e)
    return ev


def compressions(c, b, w, count, ops):
    ev = be.compress_events(c.rng, b, w, count, ops=ops)
    for i, e in enumerate(ev):
        e.update(ro=True, al=(0, 1)[i % 2], oal=(0, 1, 9)[i % 3])
    return ev


def library(c, prefix, plats, count):
    """Messages of every kind of length, at either end."""
    cy = common.Cycle(c.rng)
    lens = list(range(0, 140)) + common.boundary_lengths(range(1, 18), (-65, -64, -1, 0, 1, 63))
    lens += [c.rng.randrange(1 << c.rng.randrange(8, 17)) for _ in range(count)]
    ev = [common.one(cy, n, al=i % 2, ro=True) for i, n in enumerate(lens)]
    return common.group(prefix, plats, ev, 8)


def guarded(sc):
    for s in sc:
        for i, e in enumerate(s["ev"]):
            if e["op"] in ("upd", "one", "fin", "new"):
                e.update(ro=True, al=i % 2 if e["op"] != "fin" else 0, oal=(0, 1, 18)[i % 3])
    return sc


def check(c):
    models.hash_many(c)
    models.recursive(c)
    # The Rust code, in pieces and as a whole.
    plain = [("A", None), ("D", vp.SANITIZED)] + ([("B", None)] if c.thorough else [])
    hists = common.shape_histories(c, c.pick(6, 16))
    random = common.random_histories(c, "random histories", c.pick(40, 400), 20, 40000, "all")
    ref = common.random_histories(c, "random histories of the reference implementation", c.pick(30, 300), 20, 40000, "ref")
    for config, env in plain:
        drv = vp.rust_driver(config)
        tests = []
        for b in back_ends():
            tests += many(c, b, 32, {"portable": 1, "sse41": 4, "avx2": 8}[b], c.pick(2, 10))
            if b != "avx2":
                tests += compressions(c, b, 32, c.pick(100, 2000), ("compress", "cxof"))
        tests += many(c, "portable64", 64, 1, c.pick(1, 5)) + compressions(c, "portable64", 64, 100, ("compress", "cxof"))
        name = {"A": "guard pages", "B": "guard pages, release build", "D": "guard pages and AddressSanitizer"}[config]
        c.judge(f"Rust back ends, {name}", "BackEndTrace", c.run(drv, be.chunked(f"mem{config}", tests), env=env))
        sc = library(c, f"lib{config}", common.platforms(drv), c.pick(60, 600))
        sc += guarded(common.shape_scenarios(c, f"hist{config}", hists, common.platforms(drv)[-1:] + common.platforms(drv)[:1]))
        sc += guarded(common.history_scenarios(f"random{config}", random, common.platforms(drv)))
        sc += guarded(common.shape_scenarios(c, f"ref{config}", hists[::3], [""], impl="ref"))
        sc += guarded(common.history_scenarios(f"refrandom{config}", ref, [""], impl="ref"))
        c.judge(f"Rust library, {name}", "ApiTrace", c.run(drv, sc, env=env))
    # The C code.
    top = vp.c_back_ends()[-1]
    asan = subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
    builds = [("guard pages", dict(), None),
              ("guard pages and AddressSanitizer", dict(opt=("-O1",), extra=("-fsanitize=address,bounds", "-fno-sanitize-recover=all",
                                                                              "-fno-omit-frame-pointer"), tag="-asan"),
               dict(vp.SANITIZED, LD_PRELOAD=asan))]
    for name, kw, env in builds:
        lib = vp.c_library(top, **kw)
        tests = []
        for b in vp.c_back_ends():
            for w in (32, 64):
                lanes = {"portable": 1, "sse41": 4, "avx2": 8, "avx512": 16}[b]
                tests += many(c, b, w, lanes if w == 32 else max(1, lanes // 2), c.pick(1, 6))
            for w in (32, 64):
                if b in (("portable", "sse41", "avx512") if w == 32 else ("portable", "avx2", "avx512")):
                    tests += compressions(c, b, w, c.pick(60, 2000), ("compress",))
        c.judge(f"C back ends, {name}", "BackEndTrace", c.run(lib.cmd(), be.chunked("cmem", tests), env=env))
        if not env:
            for lib, arm in common.neon(c, c.thorough):
                tests = [e for w in (32, 64) for e in many(c, "neon", w, 4 if w == 32 else 2, c.pick(1, 6))]
                c.judge(f"C back ends as for ARM, {arm}", "BackEndTrace", c.run(lib.cmd(), be.chunked("cmem" + arm, tests)))
                sc = guarded(common.shape_scenarios(c, "c-" + arm, hists, [""], impl="c", hows=("update",)))
                c.judge(f"C hasher as for ARM, {arm}", "ApiTrace", c.run(lib.cmd(), sc))
        for level in vp.c_back_ends() if c.thorough or not env else [top]:
            lib = vp.c_library(level, **dict(kw, tag=kw.get("tag", "") + "-mem"))
            sc = guarded(common.shape_scenarios(c, f"c-{level}", hists, [""], impl="c", hows=("update",)))
            c.judge(f"C hasher, {level}, {name}", "ApiTrace", c.run(lib.cmd(), sc, env=env))
