"""The same digests on other machines: big-endian, and with 32-bit addresses.
The Rust code is interpreted, the C code translated."""
from concurrent.futures import ThreadPoolExecutor

from lib import vp
from lib.vp import limbs
from checks import backends as be, common, models
from checks.c04 import POSITIONS, U64
from checks.c10 import counts, walks, short_walks, grouped

CHUNK = 2048
RUST = [("s390x-unknown-linux-gnu", "big-endian, 64-bit addresses"),
        ("powerpc-unknown-linux-gnu", "big-endian, 32-bit addresses"),
        ("i686-unknown-linux-gnu", "little-endian, 32-bit addresses")]
LENGTHS = [0, 1, 2, 3, 4, 5, 7, 8, 31, 32, 33, 63, 64, 65, 127, 128, 129, 191, 1000, 1984, 1985, 2047, 2048, 2049, 2050, 2111, 2112,
           2113, 3000, 4095, 4096, 4097, 6144, 6145, 8193, 12289]


def messages(c, cy, lens, impl):
    """Whole and in parts, and the output of each."""
    out = []
    for i, n in enumerate(lens):
        mode, key = cy.mode()
        kind = cy.kind()
        up = lambda k: {"op": "upd", "h": 1, "k": kind, "n": k, "al": 0, "how": "update"}
        cut = c.rng.choice([0, 1, 63, 64, 65, 2047, 2048, 2049, n // 2, n]) if n else 0
        ev = [{"op": "new", "h": 1, "mode": mode, "key": key}, up(min(cut, n))]
        if impl == "rust" and i % 3 == 0:
            ev += [{"op": "clone", "h": 1, "h2": 2}, {"op": "fin", "h": 2, "n": 32}]
        ev += [up(n - min(cut, n)), {"op": "fin", "h": 1, "n": 32 if impl != "ref" else (32, 0, 1, 31, 64, 65, 100, 130)[i % 8]}]
        if impl == "rust":
            ev += [{"op": "xof", "h": 1, "o": 1}, {"op": "read", "o": 1, "n": 1 + i % 3}, {"op": "tohash", "o": 1}]
            ev.append({"op": "one", "mode": mode, "key": key, "segs": [[kind, n]], "n": 32})
        out.append(ev)
    return out


def outputs(c, cy):
    """Positions of outputs."""
    out = []
    for i, pos in enumerate(POSITIONS + [64 * c.rng.getrandbits(c.rng.randrange(1, 58)) for _ in range(c.pick(20, 300))]):
        mode, key = cy.mode()
        ev = [{"op": "new", "h": 1, "mode": mode, "key": key},
              {"op": "upd", "h": 1, "k": cy.kind(), "n": (0, 3, 64, 100)[i % 4] if i % 20 else 2049, "al": 0, "how": "update"},
              {"op": "xof", "h": 1, "o": 1}, {"op": "seek", "o": 1, "pos": limbs(pos)}, {"op": "tohash", "o": 1}]
        reads = min(2, (U64 - 1 - pos) // 64)
        if reads:
            ev += [{"op": "read", "o": 1, "n": reads}, {"op": "cloneo", "o": 1, "o2": 2}, {"op": "tohash", "o": 2}]
        cy.i += 1
        out.append(ev)
    return out


def primitives(c, impl, n, times):
    ev = []
    for w in (32, 64):
        ev += be.compress_events(c.rng, "portable" if w == 32 else "portable64", w, n, ops=("compress", "cxof") if impl == "rust" else ("compress",))
        bl = 64 if w == 32 else 128
        for nin in list(range(0, 6)) + [9, 17]:
            for blocks in (1, 2, 3):
                for _ in range(times):
                    ev.append(be.many_event(c.rng, "portable", w, nin, blocks))
        for hi in (1, 2, 0x80000000, 0xffffffff):
            for lane in (0, 1, 2, 4):
                ev.append(be.many_event(c.rng, "portable", w, 4, 1, (hi << 32) - 32 * bl * lane, 32 * bl, [c.rng.choice([0, 16, 32]), 1, 2]))
    return be.chunked("prim-" + impl, ev, 25)


def small(walk):
    """Without what takes long to interpret."""
    out = []
    for ev in walk:
        out.append([dict(e, n=min(e["n"], 3 * CHUNK + e["n"] % 7)) if e["op"] == "upd" else e for e in ev])
    return out


def judge(c, cmd, name, hooks, impls, thin):
    cy = common.Cycle(c.rng)
    sc, prim = [], []
    cs = counts(c)
    for impl in impls:
        lens = LENGTHS + [c.rng.randrange(6000) for _ in range(c.pick(2, 60))]
        lens = lens if thin and impl != "ref" else lens[::2] if thin else list(range(0, 300)) + lens * 3 + common.boundary_lengths(range(1, 40))
        sc += common.history_scenarios(f"msg-{impl}", messages(c, cy, lens, impl), [""], impl=impl)
        if hooks and far_fits(c, cmd, name, impl):
            part = cs[c.rng.randrange(6)::c.pick(18, 2)] + cs[-4:] if thin else cs
            part = small(walks(c, cy, part, fin_empty=impl != "ref")) if thin else walks(c, cy, part, fin_empty=impl != "ref")
            sc += grouped(f"far-{impl}", part, "", impl, 4)
        if impl == "rust":
            if hooks and seek_fits(c, cmd, name):
                sc += grouped("out", outputs(c, cy), "", impl, 6)
        if impl != "ref":
            prim += primitives(c, impl, c.pick(40, 1000) if thin else 2000, c.pick(1, 5) if thin else 5)
    if not thin:
        sc += common.shape_scenarios(c, "shape", common.shape_histories(c, c.pick(6, 12)), [""], impl=impls[0], hows=("update",))
    c.rng.shuffle(sc)
    c.judge(f"{name}: messages", "ApiTrace", c.run(cmd, sc, timeout=700))
    c.judge(f"{name}: compressions", "BackEndTrace", c.run(cmd, prim, timeout=700))


def aligned(c):
    """On a machine that loads words from suitable addresses only. (Here one that
    is like that is made of this one: every access is looked at.)"""
    lib = vp.c_library("portable", opt=("-O1",), extra=("-fsanitize=alignment", "-fsanitize-undefined-trap-on-error"), tag="-aligned")
    ev = []
    for w in (32, 64):
        ev += be.compress_events(c.rng, "portable", w, c.pick(200, 2000), ops=("compress",))
        for nin in list(range(0, 6)) + [17]:
            for blocks in (1, 2, 3):
                ev += [be.many_event(c.rng, "portable", w, nin, blocks) for _ in range(c.pick(4, 20))]
    c.judge("C code, aligned words only: compressions", "BackEndTrace", c.run(lib.cmd(), be.chunked("aligned", ev)))
    sc = common.shape_scenarios(c, "aligned", common.shape_histories(c, c.pick(6, 12)), [""], impl="c", hows=("update",))
    for s in sc:
        for e in s["ev"]:
            if e["op"] in ("upd", "new", "fin"):
                e.update(al=c.rng.choice((0, 1, 2, 3, 4, 7, 8, 9)))
    c.judge("C code, aligned words only: messages", "ApiTrace", c.run(lib.cmd(), sc))


def far_fits(c, cmd, name, impl):
    """Whether the hook does what it is for."""
    real, hooked = (c.run(cmd, grouped("fits", short_walks(c, h, impl != "ref", (3, 5), (0, 1, 2049)), "", impl, 2)) for h in (False, True))
    return c.hook_fits(f"{name}: the {impl} hasher far into a message", real, hooked)


def seek_fits(c, cmd, name):
    real, hooked = [], []
    for n in (0, 100, 2049):
        for k in (1, 2, 5):
            ev = [{"op": "new", "h": 1, "mode": "hash", "key": ""}, {"op": "upd", "h": 1, "k": 2, "n": n, "al": 0, "how": "update"},
                  {"op": "xof", "h": 1, "o": 1}]
            more = [{"op": "tohash", "o": 1}, {"op": "read", "o": 1, "n": 2}]
            real.append(ev + [{"op": "read", "o": 1, "n": k}] + more)
            hooked.append(ev + [{"op": "seek", "o": 1, "pos": limbs(64 * k)}] + more)
    real, hooked = (c.run(cmd, common.history_scenarios("fits", x, [""])) for x in (real, hooked))
    return c.hook_fits(f"{name}: the positions of an output beyond what was read", real, hooked)


def check(c):
    models.machines(c)
    aligned(c)
    machines = RUST[:c.pick(2, 3)]
    with ThreadPoolExecutor(3) as ex:
        builds = list(ex.map(lambda x: vp.port_rust(x[0]), machines))
    for (target, name), (cmd, hooks) in zip(machines, builds):
        if not cmd:
            c.assumptions.append(f"the Rust code cannot be interpreted for {target}: {hooks[:300]}")
            continue
        judge(c, cmd, "Rust code, " + name, hooks, ("rust", "ref"), True)
    for build, name in ((vp.port_wasm, "little-endian, 32-bit addresses"), (vp.port_big_endian, "big-endian, 64-bit addresses")):
        cmd, hooks = build()
        if not cmd:
            c.assumptions.append(f"the C code cannot be translated for a machine that is {name}: {hooks[:300]}")
            continue
        judge(c, cmd, "C code, " + name, hooks, ("c",), False)
