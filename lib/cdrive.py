#!/usr/bin/env python3
"""Drives the C implementation; the same protocol as harness/src/main.rs.

usage: cdrive.py HELPERS LIBRARY IN OUT

Every buffer passed ends right before an inaccessible page, or begins right
behind one; what surrounds an output is filled with a canary and compared
afterwards ("stray" in the record)."""
import ctypes
import json
import mmap
import sys

PAGE = 4096
libc = ctypes.CDLL(None, use_errno=True)
libc.mmap.restype = ctypes.c_void_p
libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]

help_, lib = ctypes.CDLL(sys.argv[1]), ctypes.CDLL(sys.argv[2])
help_.vp_fill.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_uint, ctypes.c_uint64, ctypes.c_uint32]
help_.vp_all.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_uint]
CANARY = 0xA5
IV = [0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19]
IV_BYTES = b"".join(x.to_bytes(4, "little") for x in IV)
FLAG = {"hash": 0, "keyed": 16, "derive": 32}


class Region:
    """size bytes between two inaccessible pages."""

    def __init__(self, size):
        size = (size + PAGE - 1) // PAGE * PAGE
        p = libc.mmap(None, size + 2 * PAGE, 0, mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS | 0x4000, -1, 0)
        if p in (None, ctypes.c_void_p(-1).value):
            sys.exit(3)
        libc.mprotect(p + PAGE, size, mmap.PROT_READ | mmap.PROT_WRITE)
        self.base, self.size = p + PAGE, size

    def place(self, n, al=0):
        if n + al > self.size:
            sys.exit(3)
        return self.base + self.size - n if al == 0 else self.base + al - 1

    def put(self, data, al=0):
        p = self.place(len(data), al)
        ctypes.memmove(p, data, len(data))
        return p


    def lock(self, on):
        libc.mprotect(self.base, self.size, mmap.PROT_READ | (0 if on else mmap.PROT_WRITE))


class OutRegion(Region):
    def take(self, n, al=0, near=4096):
        self.p, self.n = self.place(n, al), n
        self.lo = max(self.base, self.p - near)
        self.hi = min(self.base + self.size, self.p + n + near)
        ctypes.memset(self.lo, CANARY, self.hi - self.lo)
        return self.p

    def stray(self):
        return not (help_.vp_all(self.lo, self.p - self.lo, CANARY)
                    and help_.vp_all(self.p + self.n, self.hi - self.p - self.n, CANARY))

    def bytes(self, n=None):
        return ctypes.string_at(self.p, self.n if n is None else n)


FENCES = []
INPUT, KEY, CVS, DELTAS = Region(64 << 20), Region(PAGE), Region(PAGE), Region(PAGE)
OUT, STATE = OutRegion(1 << 20), OutRegion(1 << 16)
POINTERS = Region(1 << 17)

try:
    SIZE = lib.vp_sizeof_hasher()
except AttributeError:
    SIZE = 8192       # unknown: more than it can be


def lock(e, on):
    """Make everything but the outputs read-only during a call."""
    if "ro" in e:
        for r in [INPUT, KEY, CVS, DELTAS, POINTERS] + FENCES:
            r.lock(on)


def u64(v):
    return sum(x << (16 * i) for i, x in enumerate(v))


class Hasher:
    def __init__(self, data=None, pos=(0, 0)):
        self.data, self.pos = data, pos


def with_state(h, f):
    """Call f on the hasher's bytes, in a place where it cannot reach beyond."""
    p = STATE.take(SIZE)
    if h.data is not None:
        ctypes.memmove(p, h.data, SIZE)
    f(p)
    h.data = STATE.bytes()
    return STATE.stray()


def advance(pos, n):
    t = pos[1] + n
    return (pos[0] + t // 2048, t % 2048)


def many(e):
    wide = e["w"] == 64
    name = f"baokeshed64_hash_many_{e['be']}" if wide else f"hash_many_{e['be']}"
    bl = 128 if wide else 64
    n, size, gap, al = e["nin"], e["bytes"], e.get("gap", 0), e.get("al", 0)
    fence = e.get("fence", 0)         # every input next to inaccessible pages
    p = INPUT.place(n * (size + gap), al)
    ptrs = []
    for i in range(n):
        # (In memory the inputs can be in another order than they are given.)
        order = e.get("order", 0)
        slot = i if order == 0 else n - 1 - i if order == 1 else i // 2 if i % 2 == 0 else n - 1 - i // 2
        at = p + slot * (size + gap) + gap
        if fence:
            while len(FENCES) <= i:
                FENCES.append(Region(8192))
            at = FENCES[i].place(size, fence - 1)
        # Input i is chunk i of the content, which need not be a chunk long.
        fill_chunk(at, size, e["k"], i)
        ptrs.append(at)
    POINTERS_p = POINTERS.put(b"".join(x.to_bytes(8, "little") for x in ptrs))
    key = KEY.put(bytes.fromhex(e["cv"]), (e.get("al", 0) // 8) * 8 + 1 if al else 0)
    delta = u64(e["delta"])
    # As many deltas as the interface of this back end asks for, and no more.
    degree = {"portable": 1, "sse41": 2 if wide else 4, "avx2": 4 if wide else 8,
              "avx512": 8 if wide else 16, "neon": 16}[e["be"]]
    deltas = DELTAS.put(b"".join((delta * i % (1 << 64)).to_bytes(8, "little") for i in range(degree + 1)))
    spare = e.get("spare", 0)
    out = OUT.take(n * 32 + spare, e.get("oal", 0))
    ctypes.memset(out, CANARY, n * 32 + spare)
    f = getattr(lib, name)
    f.restype = None
    f.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_size_t, ctypes.c_void_p, ctypes.c_uint64, ctypes.c_void_p,
                  ctypes.c_uint8, ctypes.c_uint8, ctypes.c_uint8, ctypes.c_void_p]
    lock(e, True)
    f(POINTERS_p, n, size // bl, key, u64(e["off"]), deltas, e["f"], e["fs"], e["fe"], out)
    lock(e, False)
    got = OUT.bytes()
    e["out"], e["tail"] = got[:n * 32].hex(), got[n * 32:].hex()
    if OUT.stray():
        e["stray"] = True


CHUNKS = {}


def fill_chunk(at, size, kind, a):
    """size bytes by the formula for chunk a, with no carry into the next."""
    key = (size, kind, a)
    if key not in CHUNKS:
        buf = bytearray(size)
        for b in range(size):
            if kind == 0:
                x = 0
            elif kind == 1:
                x = 255
            else:
                c = a % 65536
                sq = (b + c + kind) % 251
                x = (b * 31 + (b // 8) * 17 + c * 101 + (c // 64) * 7 + kind * 59 + sq * sq) & 255
            buf[b] = x
        CHUNKS[key] = bytes(buf)
    ctypes.memmove(at, CHUNKS[key], size)


def compress(e):
    wide = e["w"] == 64
    f = getattr(lib, f"baokeshed64_compress_{e['be']}" if wide else f"compress_{e['be']}")
    f.restype = None
    f.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_uint8, ctypes.c_uint64, ctypes.c_uint8]
    state = OUT.take(32, e.get("oal", 0))
    ctypes.memmove(state, bytes.fromhex(e["cv"]), 32)
    block = INPUT.put(bytes.fromhex(e["block"]), e.get("al", 0))
    lock(e, True)
    f(state, block, e["blen"], u64(e["off"]), e["f"])
    lock(e, False)
    e["out"] = OUT.bytes().hex()
    if OUT.stray():
        e["stray"] = True


def step(world, e):
    op = e["op"]
    if op == "new":
        h = Hasher()
        lib.hasher_init.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_uint8]
        key = IV_BYTES if e["mode"] == "hash" else bytes.fromhex(e["key"])
        k = KEY.put(key, e.get("kal", 0))
        bad = with_state(h, lambda p: lib.hasher_init(p, k, FLAG[e["mode"]]))
        world[e["h"]] = h
    elif op == "upd":
        h = world[e["h"]]
        n = e["n"] + 2048 * e.get("nc", 0)
        if e["k"] == 0 and n > INPUT.size:
            p = Region(n).place(n)      # zeros, which take no memory
        else:
            p = INPUT.place(n, e.get("al", 0))
            help_.vp_fill(p, n, e["k"], *h.pos)
        lib.hasher_update.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_size_t]
        lock(e, True)
        bad = with_state(h, lambda s: lib.hasher_update(s, p, n))
        lock(e, False)
        h.pos = advance(h.pos, n)
        e["ret"] = e["n"]
    elif op == "fin":
        h = world[e["h"]]
        lib.hasher_finalize.argtypes = [ctypes.c_void_p, ctypes.c_void_p]
        out = OUT.take(32, e.get("oal", 0))
        bad = with_state(h, lambda s: lib.hasher_finalize(s, out)) or OUT.stray()
        e["out"] = OUT.bytes().hex()
    elif op == "lit":
        data = bytes.fromhex(e["data"])
        cut = min(e.get("cut", 0), len(data))
        h = Hasher()
        k = KEY.put(IV_BYTES if e["mode"] == "hash" else bytes.fromhex(e["key"]))
        lib.hasher_init.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_uint8]
        lib.hasher_update.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_size_t]
        lib.hasher_finalize.argtypes = [ctypes.c_void_p, ctypes.c_void_p]
        out = OUT.take(32)
        bad = with_state(h, lambda p: lib.hasher_init(p, k, FLAG[e["mode"]]))
        for part in (data[:cut], data[cut:]):
            p = INPUT.put(part)
            bad = with_state(h, lambda s: lib.hasher_update(s, p, len(part))) or bad
        bad = with_state(h, lambda s: lib.hasher_finalize(s, out)) or OUT.stray() or bad
        e["out"] = OUT.bytes().hex()
    elif op == "clone":
        h = world[e["h"]]
        world[e["h2"]] = Hasher(h.data, h.pos)
        bad = False
    elif op == "ff":
        h = world[e["h"]]
        cvs = CVS.put(bytes.fromhex("".join(e["cvs"])))
        lib.vp_fast_forward.argtypes = [ctypes.c_void_p, ctypes.c_uint64, ctypes.c_void_p, ctypes.c_size_t]
        bad = with_state(h, lambda s: lib.vp_fast_forward(s, u64(e["n"]), cvs, len(e["cvs"])))
    elif op == "many":
        return many(e)
    elif op == "compress":
        return compress(e)
    else:
        print("unknown call", op, file=sys.stderr)
        sys.exit(3)
    if bad:
        e["stray"] = True


def main():
    with open(sys.argv[3]) as src, open(sys.argv[4], "a") as dst:
        for line in src:
            sc = json.loads(line)
            world = {}
            for e in sc["ev"]:
                step(world, e)
            dst.write(json.dumps(sc) + "\n")
            dst.flush()


main()
