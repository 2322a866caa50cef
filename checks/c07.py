"""The 64-bit variants."""
from lib import vp
from checks import backends as be
from checks.c06 import judge


def check(c):
    judge(c, 64, "c64")
    ev = be.compress_events(c.rng, "portable64", 64, c.pick(6000, 100000))
    for n in list(range(0, 10)) + [16, 33, 65, 129, 257, 1025]:
        for blocks in (1, 2, 3, 4, 6, 8, 16, 32, 64):
            for _ in range(c.pick(6, 40) if n < 40 else 1):
                ev.append(be.many_event(c.rng, "portable64", 64, n, blocks))
    for lane in range(0, 4):
        for hi in (1, 2, 0x80000000, 0xffffffff):
            ev.append(be.many_event(c.rng, "portable64", 64, 4, 2, (hi << 32) - 4096 * lane, 4096,
                                    [c.rng.choice([0, 16, 32]), 1, 2]))
    c.judge("Rust portable64", "BackEndTrace", c.run(vp.rust_driver("A"), be.chunked("rust64", ev)))
