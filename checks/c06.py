"""C back ends."""
from lib import vp
from checks import backends as be, common

LANES = {"portable": [1], "sse41": [4], "avx2": [8, 4], "avx512": [16, 8, 4], "neon": [4]}
# The back ends with a compression of their own.
COMPRESS = ("portable", "sse41", "avx512")


def events(c, w, back_ends):
    bl = 64 if w == 32 else 128
    ev = []
    for b in back_ends:
        if b in (COMPRESS if w == 32 else ("portable", "avx2", "avx512")):
            ev += be.compress_events(c.rng, b, w, c.pick(5000, 100000), ops=("compress",))
        top = LANES[b][0] if w == 32 else LANES[b][0] // 2 or 1
        for n in range(0, 3 * top + 3):
            for blocks in (1, 2, 3, 5, 32) if n <= 2 * top + 1 else (1, 2):
                for _ in range(c.pick(5, 40)):
                    ev.append(be.many_event(c.rng, b, w, n, blocks))
        for n in [31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2049]:
            for blocks in (1, 2, 32):
                for _ in range(c.pick(1, 10)):
                    ev.append(be.many_event(c.rng, b, w, n, blocks))
        for n in sorted({1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, top + 1}):
            for blocks in list(range(1, 34)) + [63, 64, 65, 100]:
                ev.append(be.many_event(c.rng, b, w, n, blocks))
        for n in (1, top, top + 1):
            for blocks in (128, 255, 256, 257, 300):
                ev.append(be.many_event(c.rng, b, w, n, blocks))
        # The uses made of it, with the carry into the high counter word in
        # every lane.
        for lane in range(0, 2 * top + 1):
            for hi in (1, 2, 0x80000000, 0xffffffff):
                step = 32 * bl
                ev.append(be.many_event(c.rng, b, w, 2 * top + 1, 2, (hi << 32) - step * lane, step,
                                        [c.rng.choice([0, 16, 32]), 1, 2]))
        for n in range(0, 18):
            ev.append(be.many_event(c.rng, b, w, n, 1, 0, 0, [4 + c.rng.choice([0, 16, 32]), 0, 0]))
    for e in ev:
        e["oal"] = c.rng.choice([0, 0, 0, 2, 10, 33])
    return ev


def judge(c, w, prefix):
    ev = events(c, w, vp.c_back_ends())
    for name, kw in [("as released", {}), ("unoptimised", {"opt": ("-O0",), "tag": "-O0"})]:
        lib = vp.c_library(vp.c_back_ends()[-1], **kw)
        part = ev if not kw else ev[::c.pick(3, 1)]
        c.judge(f"C back ends, {name}", "BackEndTrace", c.run(lib.cmd(), be.chunked(prefix, part)),
                what=", ".join(vp.c_back_ends()))
    for lib, name in common.neon(c):
        ev = events(c, w, ("portable", "neon") if name == "neon" else ("neon",))
        c.judge(f"C back ends as for ARM, {name}", "BackEndTrace", c.run(lib.cmd(), be.chunked(prefix + name, ev if name == "neon" else ev[::3])))


def check(c):
    judge(c, 32, "c")
