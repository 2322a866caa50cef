"""Rust back ends."""
from lib import vp
from checks import backends as be


def back_ends():
    return ["portable"] + (["sse41"] if vp.HAS_SSE41 else []) + (["avx2"] if vp.HAS_AVX2 else [])


def check(c):
    drv = vp.rust_driver("A")
    ev = []
    for b in back_ends():
        if b != "avx2":
            ev += be.compress_events(c.rng, b, 32, c.pick(6000, 100000))
        lanes = {"portable": 1, "sse41": 4, "avx2": 8}[b]
        # Every number of inputs around the lane counts, every block count.
        for n in range(0, 4 * lanes + 4):
            for blocks in (1, 2, 3, 4, 6, 8, 12, 16, 32, 64):
                for _ in range(c.pick(8, 60) if n <= 2 * lanes + 1 else c.pick(4, 20)):
                    ev.append(be.many_event(c.rng, b, 32, n, blocks))
        for n in [31, 32, 33, 47, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2049]:
            for blocks in (1, 2, 32):
                for _ in range(c.pick(2, 12)):
                    ev.append(be.many_event(c.rng, b, 32, n, blocks))
        for n in (1, lanes, lanes + 1):
            for blocks in (128, 256):
                ev.append(be.many_event(c.rng, b, 32, n, blocks))
        # The uses the library makes of it: chunks and parents, with the carry
        # into the high counter word in every lane.
        for lane in range(0, 2 * lanes + 1):
            for hi in (1, 2, 0x80000000, 0xffffffff):
                off = (hi << 32) - 2048 * lane
                ev.append(be.many_event(c.rng, b, 32, 2 * lanes + 1, 2, off, 2048, [c.rng.choice([0, 16, 32]), 1, 2]))
        for n in range(0, 17):
            ev.append(be.many_event(c.rng, b, 32, n, 1, 0, 0, [4 + c.rng.choice([0, 16, 32]), 0, 0]))
    c.judge("back ends", "BackEndTrace", c.run(drv, be.chunked("rust", ev)))
