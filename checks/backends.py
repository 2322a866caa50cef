"""Arguments for compress, compress_xof and hash_many."""
from lib.vp import limbs

U64 = 1 << 64
EDGE = [0, 1, 64, 2048, (1 << 31) - 2048, (1 << 31), (1 << 32) - 1, (1 << 32), (1 << 32) + 1,
        (1 << 33) - 2048, (1 << 48), (1 << 63) - 64, (1 << 63), U64 - 2048, U64 - 1]
DELTAS = [0, 1, 64, 2048, 4096, (1 << 31), (1 << 32) - 1, (1 << 32), (1 << 32) + 2048]
FLAGS = [0, 1, 2, 4, 8, 16, 32, 3, 10, 11, 12, 255, 128, 64]


def hexes(rng, n):
    style = rng.random()
    if style < 0.08:
        return "00" * n
    if style < 0.16:
        return "ff" * n
    if style < 0.24:
        return bytes(1 << (i % 8) for i in range(n)).hex()
    return rng.getrandbits(8 * n).to_bytes(n, "little").hex()


def offset(rng):
    x = rng.random()
    if x < 0.5:
        return rng.choice(EDGE)
    if x < 0.7:
        return rng.getrandbits(64)
    if x < 0.9:
        # Near a carry out of the low word.
        return (rng.getrandbits(rng.choice([1, 8, 20, 32])) << 32) + (1 << 32) - rng.choice([1, 64, 2048, 4096, 6144, 14336, 16384, 30720, 32768]) & (U64 - 1)
    return rng.getrandbits(rng.choice([11, 16, 31, 32, 33, 48]))


def compress_events(rng, back_end, w, count, ops=("compress", "cxof")):
    bl = 64 if w == 32 else 128
    out = []
    # Every block length and flag bit on its own, then at random.
    for i in range(count):
        op = ops[i % len(ops)]
        blen = i % (bl + 1) if i < bl + 1 else (rng.choice([0, 1, bl - 1, bl]) if rng.random() < .5 else rng.randrange(256))
        f = FLAGS[i % len(FLAGS)] if i < 3 * len(FLAGS) else rng.randrange(256)
        out.append({"op": op, "be": back_end, "w": w, "cv": hexes(rng, 32), "block": hexes(rng, bl),
                    "blen": blen, "off": limbs(offset(rng)), "f": f, "al": rng.choice([0, 0, 1, 2, 3, 5, 9, 17, 33])})
    return out


def many_event(rng, back_end, w, nin, blocks, off=None, delta=None, flags=None):
    bl = 64 if w == 32 else 128
    if off is None:
        off = offset(rng)
    if delta is None:
        delta = rng.choice(DELTAS)
    # Counters stay below 2^64, as they do for every message there is.
    if delta and off + (nin + 16) * delta >= U64:
        off = max(0, U64 - 1 - (nin + 16) * delta) if rng.random() < .7 else rng.getrandbits(20)
        if off + (nin + 16) * delta >= U64:
            delta = 2048
            off = rng.getrandbits(40)
    if flags is None:
        flags = [rng.choice(FLAGS) if rng.random() < .7 else rng.randrange(256) for _ in range(3)]
        if rng.random() < .5:
            flags = [rng.choice([0, 16, 32]), 1, 2]
    e = {"op": "many", "be": back_end, "w": w, "cv": hexes(rng, 32), "nin": nin, "bytes": blocks * bl,
            "k": rng.choice([1, 2, 3, 4, 5, 77]), "off": limbs(off), "delta": limbs(delta),
            "f": flags[0], "fs": flags[1], "fe": flags[2], "gap": rng.choice([0, 0, 1, 64, 13]),
            "al": rng.choice([0, 0, 1, 2, 4, 9, 33]), "spare": rng.choice([0, 0, 1, 32, 512]),
            "order": rng.choice([0, 0, 1, 2])}
    if nin <= 40 and blocks * bl <= 4096 and rng.random() < .2:
        e["fence"] = rng.choice([1, 2])
    return e


def chunked(prefix, events, size=40):
    return [{"id": f"{prefix}-{i // size}", "impl": "rust", "plat": "", "ev": events[i:i + size]}
            for i in range(0, len(events), size)]
