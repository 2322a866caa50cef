"""Sizes up to 2^64 bytes."""
import json
import subprocess

from lib import vp
from checks import common, models

CHUNK = 2048
LIMIT = 1 << 64


def counts(c):
    """Numbers of chunks that a hasher may have behind it: with two subtrees up
    to as many as there can be, and such that the counters that follow carry
    into the high word in every lane of a batch."""
    out = set()
    for k in range(1, 53):
        for d in (1, 2, 3, 5, -1, -2, -3, -5, -9, -17):
            out.add((1 << k) + d)
    for h in (1, 2, 3, 5, 1 << 16, (1 << 31) - 1, 1 << 31, (1 << 32) - 1):
        for j in range(-1, 18):
            out.add((h << 21) - j)
    for d in range(1, 20):
        out.add((1 << 53) - d)
    for _ in range(c.pick(30, 400)):
        out.add(c.rng.getrandbits(c.rng.randrange(3, 54)))
        x = 0
        while bin(x).count("1") < c.rng.randrange(2, 52):
            x |= 1 << c.rng.randrange(53)
        out.add(x)
    return sorted(x for x in out if 0 < x < 1 << 53 and bin(x).count("1") >= 2)


SIZES = [1, 2047, 2048, 2049, 2 * 2048, 3 * 2048 + 5, 8 * 2048, 8 * 2048 + 1, 16 * 2048, 16 * 2048 + 7, 17 * 2048 + 100]


def walks(c, cy, cs, fin_empty=True):
    """Histories from each of the counts: a few updates, with the result after
    every one of them."""
    out = []
    for i, n in enumerate(cs):
        mode, key = cy.mode()
        cvs = [bytes(c.rng.getrandbits(8) for _ in range(32)).hex() for _ in range(bin(n).count("1"))]
        ev = [{"op": "new", "h": 1, "mode": mode, "key": key}, {"op": "ff", "h": 1, "n": vp.limbs(n), "cvs": cvs}]
        if fin_empty and i % 3 == 0:
            ev.append({"op": "fin", "h": 1, "n": 32})
        at = n * CHUNK
        for _ in range(c.rng.randrange(1, 4)):
            size = c.rng.choice(SIZES)
            room = LIMIT - 1 - at
            if size > room:
                size = room if room < 40000 else 1
            if size == 0:
                break
            at += size
            ev.append({"op": "upd", "h": 1, "k": cy.kind(), "n": size, "al": 0, "how": "update"})
            cy.i += 1
            ev.append({"op": "fin", "h": 1, "n": 32})
        # The end of all messages: one byte less than 2^64, and whole chunks
        # up to the last.
        if LIMIT - at < 40 * CHUNK:
            if i % 2 and LIMIT - CHUNK > at:
                ev += [{"op": "upd", "h": 1, "k": 3, "n": LIMIT - CHUNK - at, "al": 0, "how": "update"}, {"op": "fin", "h": 1, "n": 32}]
                at = LIMIT - CHUNK
            if LIMIT - 1 > at:
                ev += [{"op": "upd", "h": 1, "k": 2, "n": LIMIT - 1 - at, "al": 0, "how": "update"}, {"op": "fin", "h": 1, "n": 32}]
        out.append(ev)
    return out


def short_walks(c, hooked, fin_empty=True, counts=(3, 5, 6, 7, 10, 12, 21, 31), mores=(0, 1, 2048, 2049, 9 * 2048 + 5)):
    """The same states by way of the hook, and by hashing."""
    out = []
    for i, n in enumerate(counts):
        cvs = [bytes(c.rng.getrandbits(8) for _ in range(32)).hex() for _ in range(bin(n).count("1"))]
        for more in mores:
            if not more and not fin_empty:
                continue
            ev = [{"op": "new", "h": 1, "mode": "hash", "key": ""}]
            ev.append({"op": "ff", "h": 1, "n": vp.limbs(n), "cvs": cvs} if hooked else
                      {"op": "upd", "h": 1, "k": 3, "n": n * CHUNK, "al": 0, "how": "update"})
            if more:
                ev.append({"op": "upd", "h": 1, "k": 3, "n": more, "al": 0, "how": "update"})
            out.append(ev + [{"op": "fin", "h": 1, "n": 32}])
    return out


def fits(c, name, driver, plat, impl):
    real, hooked = (c.run(driver, grouped("fits", short_walks(c, h, impl != "ref_ff"), plat, impl)) for h in (False, True))
    return c.hook_fits(name, real, hooked)


def grouped(prefix, histories, plat, impl, size=6):
    return [{"id": f"{prefix}-{i // size}", "impl": impl, "plat": plat,
             "ev": [e for h in histories[i:i + size] for e in h]} for i in range(0, len(histories), size)]


G4 = 1 << 21        # chunks in 4 GiB


def long_one(mode, key, *segs):
    return {"op": "one", "mode": mode, "key": key, "segs": [list(s) for s in segs], "al": 0, "n": 32}


def long_updates(mode, key, *parts):
    ev = [{"op": "new", "h": 1, "mode": mode, "key": key}]
    for i, (k, n, nc) in enumerate(parts):
        ev.append({"op": "upd", "h": 1, "k": k, "n": n, "nc": nc, "al": 0, "how": common.HOWS[(i + len(mode)) % 5]})
    return ev + [{"op": "fin", "h": 1, "n": 32}]


def long_messages(c):
    """Messages of more than 4 GiB, whole and in parts."""
    key = common.KEYS[2]
    hk = ("hash", ""), ("keyed", key), ("derive", key)
    a, b, d = hk
    one = [long_one(*a, (0, 1, G4), (3, 3 * CHUNK)), long_one(*b, (0, 0, G4 - 1), (2, 5000))]
    if c.thorough:
        one += [long_one(*a, (0, 0, G4)), long_one(*a, (0, 2047, G4 - 1)), long_one(*d, (0, 1, 2 * G4 + 5), (4, 100000)),
                long_one(*a, (0, 5, 3 * G4 - 2), (4, 9000)), long_one(*b, (0, 5, G4 + G4 // 2), (4, 9000))]
    upd = [long_updates(*a, (0, 5, 3), (0, 3, G4), (3, 7 * CHUNK, 0), (2, 100, 0))]
    if c.thorough:
        upd += [long_updates(*b, (0, 0, 2 * G4), (3, 7, 0)), long_updates(*d, (0, 1, 0), (0, 0, G4), (0, 2047, 0), (3, 1, 0)),
                long_updates(*a, (0, 0, G4 + 1), (0, 0, G4), (0, 9, G4 // 2))]
    return one, upd


def check(c):
    models.self_check(c)
    models.ladder(c)
    models.incremental(c)
    cy = common.Cycle(c.rng)
    a, b = vp.rust_driver("A"), vp.rust_driver("B")
    can = json.loads(subprocess.run([a.path, "--can"], stdout=subprocess.PIPE, text=True).stdout)
    cs = counts(c)
    plats = common.platforms(a)

    sc = []
    if can["ff"] and fits(c, "the Rust hasher far into a message", a, plats[0], "rust"):
        for i, p in enumerate(plats):
            sc += grouped(f"far-{p}", walks(c, cy, cs if c.thorough else cs[i::2] + cs[-20:]), p, "rust")
        c.judge("Rust hasher moved forward, overflow checks on", "ApiTrace", c.run(a, sc))
        c.judge("Rust hasher moved forward, release build", "ApiTrace",
                c.run(b, grouped("far-release", walks(c, cy, cs[::c.pick(4, 1)]), "", "rust")))
    elif not can["ff"]:
        c.assumptions.append("the hooks do not fit this tree: large positions of the Rust hasher are only reached by long messages")
    if can["ref_ff"] and fits(c, "the reference hasher far into a message", a, "", "ref_ff"):
        # It keeps a whole chunk until the next byte: an empty rest is no
        # state it can be in.
        c.judge("reference hasher moved forward, overflow checks on", "ApiTrace",
                c.run(a, grouped("far-ref", walks(c, cy, cs[::c.pick(3, 1)] + cs[-20:], fin_empty=False), "", "ref_ff")))
    for i, level in enumerate(vp.c_back_ends()):
        lib = vp.c_library(level)
        if lib.fast_forward and fits(c, "the C hasher far into a message", lib.cmd(), "", "c"):
            part = cs if c.thorough else cs[i::3] + cs[-20:]
            c.judge(f"C hasher moved forward, {level}", "ApiTrace",
                    c.run(lib.cmd(), grouped(f"far-{level}", walks(c, cy, part), "", "c")))

    one, upd = long_messages(c)
    sc = []
    for p in (plats if c.thorough else plats[-1:]):
        sc += [{"id": f"long-{p}-{i}", "impl": "rust", "plat": p, "ev": [e]} for i, e in enumerate(one)]
        sc += [{"id": f"long-upd-{p}-{i}", "impl": "rust", "plat": p, "ev": ev} for i, ev in enumerate(upd)]
    traces = c.run(b, sc, timeout=600, shards=c.pick(3, 4))
    sc = [{"id": f"long-one-thread-{i}", "impl": "rust", "plat": plats[-1], "ev": [e]} for i, e in enumerate(one[:c.pick(1, 9)])]
    sc += [{"id": f"long-ref-{i}", "impl": "ref", "plat": "", "ev": ev} for i, ev in enumerate(upd[:c.pick(1, 9)])]
    traces += c.run(a, sc, timeout=600)
    for level in (vp.c_back_ends() if c.thorough else vp.c_back_ends()[-2:]):
        lib = vp.c_library(level)
        traces += c.run(lib.cmd(), [{"id": f"long-{level}-{i}", "impl": "c", "plat": "", "ev": ev} for i, ev in enumerate(upd)],
                        timeout=600)
    c.judge("messages of more than 4 GiB", "ApiTrace", traces, workers=2)
