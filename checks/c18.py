"""Hash values, and what Debug tells."""
from lib import vp
from checks import common, models


def pairs(c):
    """Pairs of values: equal, and different in ways that a comparison might
    lose: a single bit; equal differences in two places, which cancel when
    added up or combined by exclusive or; differences that add up to 256."""
    rng = c.rng
    rnd = lambda: bytearray(rng.getrandbits(8) for _ in range(32))
    out = []
    for bit in range(256):
        a = rnd()
        b = bytearray(a)
        b[bit // 8] ^= 1 << (bit % 8)
        out.append((a, b))
    for i in range(32):
        for j in range(i + 1, 32):
            a = rnd()
            b = bytearray(a)
            d = rng.choice([0x80, 1, 0xff, rng.randrange(1, 256)])
            b[i] ^= d
            b[j] ^= d
            out.append((a, b))
            a, b = rnd(), bytearray()
            b = bytearray(a)
            b[i], b[j] = a[j], a[i]
            out.append((a, b))
    for k in range(0, 6):
        n, d = 1 << k, 256 >> k
        for start in range(0, 32, n):
            a = bytearray(32) if start % 2 else rnd()
            b = bytearray(a)
            for i in range(start, start + n):
                b[i] ^= d % 256 or 255
            out.append((a, b))
            b2 = bytearray(a)
            for i in range(start, start + n):
                b2[i] = (b2[i] + (d % 256 or 255)) % 256
            out.append((a, b2))
    for _ in range(c.pick(200, 5000)):
        a = rnd()
        out.append((a, bytearray(a)))
        b = bytearray(a)
        for _ in range(rng.randrange(1, 33)):
            b[rng.randrange(32)] = rng.getrandbits(8)
        out.append((a, b))
        out.append((a, bytearray(reversed(a))))
    for v in (bytearray(32), bytearray(b"\xff" * 32), bytearray(range(32)), bytearray(range(224, 256))):
        out += [(v, bytearray(v)), (v, rnd()), (v, bytearray(32)), (bytearray(32), v)]
    return out


def debugging(c, cy, form):
    """Debug text of hashers and outputs in all kinds of states. A form is the
    same in all of them."""
    ev = []
    some = form > 1 and not c.thorough
    for mode in common.MODES:
        for key in common.KEYS[form % 2::2] if some else common.KEYS:
            for n in (0, 3, 64, 2049, 4096) if some else (0, 1, 3, 32, 64, 65, 2047, 2048, 2049, 4096, 10000):
                ev.append({"op": "new", "h": 1, "mode": mode, "key": "" if mode == "hash" else key})
                ev.append({"op": "debug", "h": 1, "type": "hasher"})
                ev.append({"op": "upd", "h": 1, "k": cy.kind(), "n": n, "al": 0, "how": "update"})
                cy.i += 1
                ev.append({"op": "debug", "h": 1, "type": "hasher"})
                ev.append({"op": "xof", "h": 1, "o": 1})
                ev.append({"op": "debug", "o": 1, "type": "output"})
                ev.append({"op": "read", "o": 1, "n": 1 + n % 3})
                ev.append({"op": "debug", "o": 1, "type": "output"})
                ev.append({"op": "fin", "h": 1, "n": 32})
                ev.append({"op": "debug", "h": 1, "type": "hasher"})
    return [dict(e, type=f"{e['type']} {form}", form=form) if e["op"] == "debug" else e for e in ev]


def check(c):
    models.hash_value(c)
    ps = pairs(c)
    for config in "AB":
        d = vp.rust_driver(config)
        sc = []
        for i in range(0, len(ps), 50):
            ev = []
            for a, b in ps[i:i + 50]:
                ev += [{"op": "hval", "v": 1, "bytes": a.hex()}, {"op": "hval", "v": 2, "bytes": b.hex()},
                       {"op": "hshow", "v": 1}, {"op": "heq", "v": 1, "w": 2}, {"op": "heq", "v": 2, "w": 1},
                       {"op": "heq", "v": 1, "w": 1}]
            sc.append({"id": f"pairs-{config}-{i // 50}", "plat": "", "ev": ev})
        # Every byte value in every position.
        for i in range(0, 256, 32):
            ev = []
            for x in range(i, i + 32):
                ev += [{"op": "hval", "v": 1, "bytes": bytes((x + j * 7) & 255 for j in range(32)).hex()}, {"op": "hshow", "v": 1}]
            sc.append({"id": f"bytes-{config}-{i}", "plat": "", "ev": ev})
        c.judge(f"hash values, {config}", "HashValueTrace", c.run(d, sc))
        cy = common.Cycle(c.rng)
        sc = [{"id": f"debug-{config}-{p}-{i}", "plat": p, "impl": "rust", "ev": ev}
              for p in common.platforms(d) for i in range(12) for ev in [debugging(c, cy, i)]]
        c.judge(f"Debug text, {config}", "ApiTrace", c.run(d, sc))
