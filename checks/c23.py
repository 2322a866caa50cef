"""Work in proportion to what is hashed, in little room."""
from concurrent.futures import ThreadPoolExecutor

from lib import vp
from checks import cli, common, models

CHUNK = 2048


def series(name, rule, op, sizes, n=1):
    return {"id": name, "ev": [{"op": op, "n": n, "len": x, "s": 0, "rule": rule} for x in sizes]}


def split(name, op, size, pieces):
    ev = [{"op": op, "n": 1 << 20, "len": CHUNK, "s": 0, "rule": "split"}]
    return {"id": name, "ev": ev + [{"op": op, "n": p, "len": size, "s": 0, "rule": "split"} for p in pieces]}


def around(c, chunks):
    return [CHUNK * x for x in chunks]


def watched(c, optimised, c_code):
    """What to count the instructions of."""
    large = optimised
    lens = around(c, [1, 16, 64, 256, 1023] + ([4096] if c.thorough and large else [])) if large else around(c, [1, 5, 16, 40])
    ends = around(c, [1, 2, 3, 7, 8, 15, 16, 17, 64, 255, 256, 1000, 1023, 1024, 4095, 4096]) if large else around(c, [1, 2, 3, 16, 31, 64])
    every = around(c, [1, 4, 16] if large else [1, 2, 5])
    out = []
    for p in [2048, 16384, 100000, c.rng.randrange(100, 40000)]:
        out.append(series(f"pieces-{p}", "proportional", 50, lens, p))
    # (Small pieces of short messages: to be quick also when it is not in proportion.)
    for p in [1, 63, 64, 65, c.rng.randrange(2, 64)]:
        out.append(series(f"pieces-{p}", "proportional", 50, every, p))
    out.append(split("split", 50, every[-1], [1 << 20, 1, 2, 3, 31, 63, 64, 65, 128, 1000]))
    out.append(split("split-large", 50, lens[-1], [1 << 20, 2048, 2049, 4096, 16384, 20000]))
    for op in ((60, 61) if c_code else (60, 61, 62, 63, 65, 66)):
        out.append(series(f"after-{op}", "levels", op, ends))
    if not c_code:
        for p in (1, 100, 10000):
            out.append(series(f"reference-{p}", "proportional", 51, every, p))
        out.append(split("reference-split", 51, every[-1], [1 << 20, 1, 2, 31, 64, 65, 1000]))
        out += [series(f"copy-{p}", "proportional", 52, [CHUNK * x for x in (16, 64, 256)] if large else [CHUNK * x for x in (4, 16)], p)
                for p in (700, 5000, 1 << 20)]
        out.append(series("once", "proportional", 53, lens))
        out.append(series("output", "proportional", 54, lens))
    return out


def roomy(c, c_code, optimised):
    lens = around(c, [16, 64, 1000, 16383])
    out = []
    for op, p in [(50, 100), (50, 16384), (50, 100000), (60, 0), (61, 0)] + ([] if c_code else [(51, 10000), (52, 5000), (53, 0), (54, 0), (62, 0), (65, 0)]):
        out.append(series(f"room-{op}-{p}", "room", op, lens if optimised or op != 51 else lens[:3], p))
    return out


def heaviest(scenarios):
    return sorted(scenarios, key=lambda s: -sum(e["len"] for e in s["ev"]))


def tool(c):
    """Invocations with little memory, few descriptors, or few addresses."""
    cy = common.Cycle(c.rng)
    out = []
    little = {"data": 48 << 20}
    chunks = c.pick(100000, 500000)
    std = lambda kind, **m: {"content": {"segs": [[0, 0, chunks], [3, 777]]}, "make": dict(kind=kind, **m)}
    out.append(cli.start(cli.mode_opts(c, 1), [], std("pipe", sizes=[1 << 20]), limits=little))
    out.append(cli.start(cli.mode_opts(c, 2), [cli.dash()], std("file"), limits=little))
    out.append(cli.start(cli.mode_opts(c, 3), [cli.sparse("big", chunks, 777)], limits=little))
    f = cli.sparse("pipe", chunks, 777)
    f["make"] = {"kind": "fifo", "sizes": [1 << 20]}
    out.append(cli.start(cli.mode_opts(c, 4), [f], limits=little))
    for n in c.pick(["30000000"], ["30000000", "400000000"]):
        out.append(cli.start(cli.mode_opts(c, 5) + [["length", n]], [cli.regular(cy, "f", 100)], limits=little, patience=300))
    out.append(cli.start(cli.mode_opts(c, 6), [cli.regular(cy, f"f{i}", 10 + i) for i in range(200)], limits={"nofile": 24}))
    out.append(cli.start(cli.mode_opts(c, 7), [cli.sparse("big", 1 << 15, 5)] * 24, limits={"as": 1 << 30}))
    return out


def check(c):
    models.work(c)
    with ThreadPoolExecutor(4) as ex:
        rust = [ex.submit(vp.leak_rust, profile) for profile in ("dev", "release")]
        tool_dir = ex.submit(vp.walk_tool).result()
        rust = [x.result() for x in rust]
    env = {"VALGRIND_LIB": tool_dir}
    for profile, (cmd, hooks) in zip(("unoptimised", "optimised"), rust):
        names = ["detected"]
        if hooks:
            names = ["portable"] + (["sse41"] if vp.HAS_SSE41 else []) + (["avx2"] if vp.HAS_AVX2 else [])
        for name in names:
            sc = heaviest(watched(c, profile == "optimised", False))
            c.judge(f"instructions, Rust, {profile}, {name}", "WorkTrace", c.run(cmd + [name], sc, env=env, timeout=700))
            c.judge(f"room, Rust, {profile}, {name}", "WorkTrace", c.run(cmd + [name, "room"], heaviest(roomy(c, False, profile == "optimised")), timeout=700))
    levels = vp.c_back_ends()
    with ThreadPoolExecutor(4) as ex:
        jobs = [(opt, level, ex.submit(vp.leak_c, level, "gcc", opt)) for opt in ("-O2", "-O0") for level in levels
                if (opt, level) != ("-O0", "avx512")]
    for opt, level, job in jobs:
        cmd = job.result() + [level]
        # (AVX-512 is stepped through, which is slow.)
        c.judge(f"instructions, C, {opt}, {level}", "WorkTrace",
                c.run(cmd, heaviest(watched(c, opt == "-O2" and level != "avx512", True)), env=env, timeout=700))
        c.judge(f"room, C, {opt}, {level}", "WorkTrace", c.run(cmd + ["room"], heaviest(roomy(c, True, opt == "-O2")), timeout=700))
    cli.judge(c, "the tool, within limits", vp.cli_tool(), tool(c))
