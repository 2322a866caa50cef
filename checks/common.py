"""Scenarios for the hashing API."""
import itertools

from lib import vp

KEYS = ["00" * 32, "ff" * 32, bytes(range(32)).hex(), "80" + "00" * 30 + "fe",
        bytes((i * 37 + 11) & 255 for i in range(32)).hex()]
MODES = ["hash", "keyed", "derive"]
CHUNK = 2048


def platforms(drv):
    """Back ends the library can use, by the name that forces them; "" is what
    it detects itself."""
    if not drv.hooks:
        return [""]
    return ["portable"] + (["sse41"] if vp.HAS_SSE41 else []) + (["avx2"] if vp.HAS_AVX2 else [])


class Cycle:
    """Modes, keys, kinds and alignments, in turn, in periods prime to each
    other."""

    def __init__(self, rng):
        self.i = rng.randrange(1000)

    def mode(self):
        self.i += 1
        m = MODES[self.i % 3]
        return m, ("" if m == "hash" else KEYS[(self.i // 3) % 5])

    def kind(self):
        return (2, 3, 1, 4, 5, 6, 7)[self.i % 7]

    def align(self):
        return (0, 1, 0, 2, 4, 0, 8, 9, 17, 0, 33, 40, 5)[self.i % 13]


def one(cy, n, **kw):
    mode, key = cy.mode()
    e = {"op": "one", "mode": mode, "key": key, "segs": [[cy.kind(), n]], "al": cy.align(), "n": 32}
    e.update(kw)
    return e


def group(prefix, plats, events, size, impl="rust", **kw):
    """Independent events, `size` to a scenario, on every back end."""
    out = []
    for p in plats:
        for i in range(0, len(events), size):
            out.append(dict({"id": f"{prefix}-{p or 'auto'}-{i // size}", "impl": impl, "plat": p,
                             "ev": events[i:i + size]}, **kw))
    return out


def boundary_lengths(chunks, deltas=(-65, -64, -63, -1, 0, 1, 63, 64, 65, 1000)):
    return sorted({max(0, c * CHUNK + d) for c in chunks for d in deltas})


# -- histories generated from the specification

SHAPE_OFFSETS = [2048, 2049, 2111, 2112, 2113, 3000, 4031, 4032, 4033, 4095]


def shape_histories(c, chunks, offsets=SHAPE_OFFSETS, ups=3):
    """Update sizes that lead through every pair of control states of the
    incremental hasher (IncShape) up to a number of chunks."""
    from checks.models import cfg
    r = c.generate(f"IncShape {chunks}", "IncShape",
                   cfg_text=cfg(dict(BlockLen=64, ChunkLen=CHUNK, MaxChunks=chunks,
                                     Offsets="{" + ", ".join(map(str, offsets)) + "}", Ups=ups),
                                invariants=["WellFormed", "Emit"], extra="VIEW View\n"), workers=1,
                   what=f"one history for every pair of control states connected by an update, "
                        f"messages up to {chunks} chunks")
    return [p["h"] for p in r]


# How input reaches a Rust hasher: update, or its implementation of Write.
HOWS = ("update", "write", "write_all", "copy", "vectored")


def shape_scenarios(c, prefix, hists, plats, impl="rust", hows=HOWS, fin_each=True):
    """Histories as scenarios: several independent hashers to a scenario."""
    cy = Cycle(c.rng)
    out = []
    for p in plats:
        for i in range(0, len(hists), 8):
            ev = []
            for j, h in enumerate(hists[i:i + 8]):
                mode, key = cy.mode()
                ev.append({"op": "new", "h": j, "mode": mode, "key": key})
                for n in h:
                    ev.append({"op": "upd", "h": j, "k": cy.kind(), "n": n, "al": cy.align(), "how": hows[len(ev) % len(hows)]})
                    cy.i += 1
                    if fin_each:
                        ev.append({"op": "fin", "h": j, "n": 32})
                if not fin_each:
                    ev.append({"op": "fin", "h": j, "n": 32})
            out.append({"id": f"{prefix}-{p or 'auto'}-{i // 8}", "impl": impl, "plat": p, "ev": ev})
    return out


def random_histories(c, name, count, depth, max_total, allow="all"):
    """Random behaviours of Api."""
    r = c.generate(name, "ApiGen", "ApiGen.cfg", workers=1,
                   env={"MAXTOTAL": str(max_total), "DEPTH": str(depth), "ALLOW": allow},
                   args=["-simulate", f"num={count}", "-depth", str(depth + 2), "-seed", str(c.seed * 7919 + depth)],
                   what=f"random call sequences of {depth} calls over three hashers and three outputs")
    return [p["ev"] for p in r]


def history_scenarios(prefix, hists, plats, impl="rust", **kw):
    return [dict({"id": f"{prefix}-{i}", "impl": impl, "plat": plats[i % len(plats)], "ev": ev}, **kw)
            for i, ev in enumerate(hists)]


def pieces(cy, hows=HOWS, lens=range(0, 2120)):
    """Every length of a first piece up to a little more than a chunk; ten to a
    scenario."""
    out = []
    for i, n in enumerate(lens):
        mode, key = cy.mode()
        rest = [1, 64 - n % 64, 65 - n % 64, 2048 - n % 2048, 2049 - n % 2048, 2047 - n % 2048, 2048, 4096 - n % 2048, 6144 - n % 2048, 9000]
        up = lambda k: {"op": "upd", "h": 1, "k": cy.kind(), "n": k, "al": cy.align(), "how": hows[(i + i // 10) % len(hows)]}
        fin = {"op": "fin", "h": 1, "n": 32}
        if i % 10 == 0:
            out.append([])
        out[-1] += [{"op": "new", "h": 1, "mode": mode, "key": key}, up(n), fin, up(rest[i % 10]), fin,
                    up(rest[(i // 10) % 10]), fin]
    return out


def long_histories(c, top, count, hows=("update",)):
    """Messages of around 2^8 to 2^top chunks, zeros for the most part: in one
    piece, in two, and with short pieces before, between and behind."""
    cy = Cycle(c.rng)
    out = []
    sizes = [(1 << k) + d for k in range(8, top + 1) for d in (-1, 0, 1, 3)]
    sizes += [c.rng.randrange(200, 1 << c.rng.randrange(9, top + 1)) for _ in range(count)]
    for i, nc in enumerate(sizes):
        mode, key = cy.mode()
        up = lambda k, n, nc=0: {"op": "upd", "h": 1, "k": k, "n": n, "nc": nc, "al": 0, "how": hows[(i + len(ev)) % len(hows)]}
        fin = {"op": "fin", "h": 1, "n": 32}
        ev = [{"op": "new", "h": 1, "mode": mode, "key": key}]
        shape = i % 5
        if shape == 0:
            ev += [up(0, 0, nc), fin]
        elif shape == 1:
            ev += [up(0, 1, nc), fin, up(3, 4096), fin]
        elif shape == 2:
            a = c.rng.randrange(1, nc)
            ev += [up(0, 0, a), up(0, 2047, nc - a), fin, up(2, 1), up(2, 1), fin]
        elif shape == 3:
            ev += [up(0, 7), up(0, 0, nc), up(0, 2041), fin, up(3, 70), fin]
        else:
            a = c.rng.randrange(1, nc)
            ev += [up(0, 2048), up(0, 0, a), fin, up(0, 100, nc - a), up(4, 5000), fin]
        out.append(ev)
    return out


def long_ones(c, cy, top, count):
    """One-shot calls on such messages."""
    out = []
    sizes = [(1 << k) + d for k in range(8, top + 1) for d in (-1, 0, 1)]
    sizes += [c.rng.randrange(200, 1 << c.rng.randrange(9, top + 1)) for _ in range(count)]
    for i, nc in enumerate(sizes):
        mode, key = cy.mode()
        segs = [[0, (0, 1, 2047)[i % 3], nc]] + ([[3, c.rng.choice([1, 100, 2048, 3 * 2048 + 1])]] if i % 2 else [])
        out.append({"op": "one", "mode": mode, "key": key, "segs": segs, "al": 0, "n": 32})
    return out


def neon(c, unoptimised=True):
    """Builds of the C code as for ARM."""
    for opt, name in [("-O2", "neon")] + ([("-O0", "neon-O0")] if unoptimised else []):
        lib, why = vp.neon_library(opt, name[4:])
        if lib:
            yield lib, name
        else:
            c.assumptions.append("the code for ARM cannot be run here: " + why[:300])
