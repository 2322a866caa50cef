"""What is secret does not show in the course of an execution."""
from concurrent.futures import ThreadPoolExecutor

from lib import vp
from checks import models

CHUNK = 2048


def pairs(rng, more):
    """Values to compare: equal ones, and such that differ in one bit, one byte,
    from a byte on, up to a byte, or everywhere."""
    out = []
    for v in (bytes(32), b"\xff" * 32, bytes(range(32)), rng.randbytes(32), rng.randbytes(32)):
        out.append((v, v))
    for i in range(32):
        for bit in rng.sample(range(8), more):
            v = bytearray(rng.choice([bytes(32), rng.randbytes(32)]))
            w = bytearray(v)
            w[i] ^= 1 << bit
            out.append((bytes(v), bytes(w)))
        v = rng.randbytes(32)
        other = bytes(255 - x for x in v)
        out.append((v, v[:i] + other[i:]))
        out.append((v, other[:i + 1] + v[i + 1:]))
    out += [(bytes(32), b"\xff" * 32), (rng.randbytes(32), rng.randbytes(32))]
    rng.shuffle(out)
    return out


def secrets(rng, size, n):
    """Keys and messages: random ones, and such that code could take shortcuts
    for."""
    block = rng.randbytes(64)
    chunk = rng.randbytes(CHUNK)
    zeros = bytearray(rng.randbytes(size))
    for at in range(0, size, 256):
        zeros[at:at + 64] = bytes(len(zeros[at:at + 64]))
    data = [bytes(size), b"\xff" * size, (block * (size // 64 + 1))[:size], (chunk * (size // CHUNK + 1))[:size], bytes(zeros),
            bytes(max(0, size - 1)) + b"\x01" * min(size, 1), b"\x80" * min(size, 1) + bytes(max(0, size - 1)), bytes(range(256)) * (size // 256 + 1)]
    data = [x[:size] for x in data]
    keys = [bytes(32), b"\xff" * 32, bytes(31) + b"\x01"]
    seen, out = set(), []
    while len(out) < n:
        d = data.pop(0) if data else rng.randbytes(size)
        k = keys.pop(0) if keys else rng.randbytes(32)
        if d not in seen or (size == 0):
            seen.add(d)
            out.append((k, d))
    return out


def comparisons(c, more):
    ps = pairs(c.rng, more)
    return [{"id": f"compare-{op}", "secrets": [],
             "ev": [{"op": op, "n": 0, "len": 0, "s": 0, "key": a.hex(), "other": b.hex()} for a, b in ps]} for op in (1, 2, 3, 4)]


def hashing(c, name, ops, lens, n, reads):
    out = []
    for op in ops:
        for size in lens:
            plain = op in (10, 13, 16, 19)
            ss = secrets(c.rng, size, n) if size > 1 else [(c.rng.randbytes(32), c.rng.randbytes(size)) for _ in range(n)]
            if plain:
                # Their keys do not matter.
                ss = list({d: (k, d) for k, d in ss}.values())
            blocks = reads(op)
            ev = [{"op": op, "n": blocks, "len": size, "s": i} for i in range(len(ss))]
            ev.append(dict(ev[0]))
            out.append({"id": f"{name}-{op}-{size}", "secrets": [[k.hex(), d.hex()] for k, d in ss], "ev": ev})
    return out


def shards(scenarios):
    """The most work first, so that it is spread over the processors."""
    return sorted(scenarios, key=lambda s: -sum(e["len"] for e in s["ev"]))


def check(c):
    models.leak(c)
    with ThreadPoolExecutor(4) as ex:
        rust = [ex.submit(vp.leak_rust, profile) for profile in ("dev", "release")]
        tool = ex.submit(vp.walk_tool).result()
        rust = [x.result() for x in rust]
    env = {"VALGRIND_LIB": tool}
    reads = lambda op: c.rng.choice([1, 2, 5]) if op in (13, 14, 15) else c.rng.choice([0, 0, 1, 3]) if 16 <= op <= 21 else 0
    for profile, (cmd, hooks) in zip(("unoptimised", "optimised"), rust):
        names = ["detected"]
        if hooks:
            names = ["portable"] + (["sse41"] if vp.HAS_SSE41 else []) + (["avx2"] if vp.HAS_AVX2 else [])
        for k, name in enumerate(names):
            small = [0, 1, 64, 65, 127, 128, 1000, 2047, 2048, 2049, 4096]
            large = [5 * CHUNK + 1, 8 * CHUNK, 17 * CHUNK + 100]
            if profile == "optimised":
                lens, n = small + large + c.pick([], [3, 63, 191, 3 * CHUNK, 4 * CHUNK, 16 * CHUNK - 1, 31 * CHUNK, 60000]), c.pick(12, 40)
            else:
                lens, n = c.pick([0, 1, 65, 1000, 2048, 2 * CHUNK + 1], small + large), c.pick(8, 16)
            ops = list(range(10, 22)) if k == 0 else list(range(10, 19))
            sc = comparisons(c, c.pick(2, 8)) if k == 0 else []
            sc += hashing(c, "hash", ops, lens, n, reads)
            if k == 0:
                sc += hashing(c, "wide", [40], [128, 640, 4096, 5 * 4096], n, reads)
            c.judge(f"Rust, {profile}, {name}", "LeakTrace", c.run(cmd + [name], shards(sc), env=env, timeout=700))
    builds = [("gcc", "-O2"), ("gcc", "-O0")] + c.pick([], [("clang", "-O1"), ("clang", "-O3"), ("gcc", "-O3"), ("clang", "-O0")])
    levels = vp.c_back_ends()
    with ThreadPoolExecutor(4) as ex:
        jobs = [(cc, opt, level, ex.submit(vp.leak_c, level, cc, opt)) for cc, opt in builds for level in levels
                if (opt, level) != ("-O0", "avx512")]
    for cc, opt, level, job in jobs:
        lens = [0, 1, 64, 65, 1000, 2048, 2049] + c.pick([], [4096, 9 * CHUNK + 1])
        if opt != "-O0":
            lens += [4096, 5 * CHUNK + 1, 8 * CHUNK, 17 * CHUNK + 100] + c.pick([], [33 * CHUNK, 16 * CHUNK - 1])
        n = c.pick(8, 24)
        if level == "avx512":
            # Stepped through, which is slow.
            lens = [0, 1, 65, 1000, 2049, 9 * CHUNK + 1, 17 * CHUNK + 100]
            n = c.pick(5, 12)
        sc = hashing(c, "c", [16, 17, 18], lens, n, lambda op: (0, 1, 1 << 20)[op % 3]) + hashing(c, "c64", [40], [128, 640, 128 * 9, 4096, 4096 * 9], n, lambda op: 0)
        c.judge(f"C, {cc} {opt}, {level}", "LeakTrace", c.run(job.result() + [level], shards(sc), env=env, timeout=700))
