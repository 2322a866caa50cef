#!/usr/bin/env python3
"""Runs scenarios on a machine that is interpreted or translated; the protocol
of harness/src/main.rs, for its simplest calls.

usage: portdrive.py HELPERS COMMAND... IN OUT

COMMAND is started with the name of a file of commands and that of a file for
the results (see harness/port/src/main.rs)."""
import ctypes
import json
import os
import subprocess
import sys

help_ = ctypes.CDLL(sys.argv[1])
help_.vp_fill.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_uint, ctypes.c_uint64, ctypes.c_uint32]
command, src, dst = sys.argv[2:-2], sys.argv[-2], sys.argv[-1]
MODE = {"hash": 0, "keyed": 1, "derive": 2}


def num(n, size):
    return n.to_bytes(size, "little")


def u64(v):
    return sum(x << (16 * i) for i, x in enumerate(v))


def fill(n, kind, pos):
    buf = ctypes.create_string_buffer(max(n, 1))
    help_.vp_fill(buf, n, kind, *pos)
    return buf.raw[:n]


def advance(pos, n):
    t = pos[1] + n
    return (pos[0] + t // 2048, t % 2048)


def key(e):
    return bytes.fromhex(e.get("key") or "00" * 32)


def encode(sc):
    """The commands of a scenario, and how many bytes each call answers with."""
    out, sizes, where = [], [], {}
    for e in sc["ev"]:
        op, size = e["op"], None
        if op == "new":
            where[e["h"]] = (0, 0)
            out.append(num(1, 1) + bytes([e["h"], 1 if sc["impl"] == "ref" else 0, MODE[e["mode"]]]) + key(e))
        elif op == "upd":
            out.append(num(2, 1) + bytes([e["h"]]) + num(e["n"], 4) + fill(e["n"], e["k"], where[e["h"]]))
            where[e["h"]] = advance(where[e["h"]], e["n"])
            e["ret"] = e["n"]
        elif op == "fin":
            out.append(num(3, 1) + bytes([e["h"]]) + num(e["n"], 4))
            size = e["n"]
        elif op == "one":
            data, pos = b"", (0, 0)
            for kind, n in e["segs"]:
                data += fill(n, kind, pos)
                pos = advance(pos, n)
            out.append(num(4, 1) + bytes([MODE[e["mode"]]]) + key(e) + num(len(data), 4) + data)
            size = 32
        elif op == "xof":
            out.append(num(5, 1) + bytes([e["h"], e["o"]]))
        elif op == "read":
            out.append(num(6, 1) + bytes([e["o"]]) + num(e["n"], 4))
            size = 64 * e["n"]
        elif op == "tohash":
            out.append(num(7, 1) + bytes([e["o"]]))
            size = 32
        elif op == "seek":
            out.append(num(8, 1) + bytes([e["o"]]) + num(u64(e["pos"]), 8))
        elif op == "clone":
            out.append(num(9, 1) + bytes([e["h"], e["h2"]]))
            where[e["h2"]] = where[e["h"]]
        elif op == "ff":
            out.append(num(10, 1) + bytes([e["h"]]) + num(u64(e["n"]), 8) + bytes([len(e["cvs"])]) +
                       b"".join(bytes.fromhex(x) for x in e["cvs"]))
        elif op == "cloneo":
            out.append(num(11, 1) + bytes([e["o"], e["o2"]]))
        elif op == "many":
            # Input i is chunk i of the content, which need not be a chunk long.
            data = []
            for i in range(e["nin"]):
                data.append(b"".join(chunk_bytes(e["k"], i, e["bytes"])))
            out.append(num(13, 1) + bytes([e["w"]]) + bytes.fromhex(e["cv"]) + num(e["nin"], 4) + num(e["bytes"], 4) +
                       num(u64(e["off"]), 8) + num(u64(e["delta"]), 8) + bytes([e["f"], e["fs"], e["fe"]]) + b"".join(data))
            e["spare"], e["tail"] = 0, ""
            size = 32 * e["nin"]
        elif op in ("compress", "cxof"):
            out.append(num(14, 1) + bytes([e["w"], op == "cxof"]) + bytes.fromhex(e["cv"]) + bytes([e["blen"]]) +
                       num(u64(e["off"]), 8) + bytes([e["f"]]) + bytes.fromhex(e["block"]))
            size = 32 if op == "compress" else (64 if e["w"] == 32 else 128)
        else:
            print("no such call", op, file=sys.stderr)
            sys.exit(3)
        sizes.append(size)
    return b"".join(out) + num(12, 1), sizes


def chunk_bytes(kind, a, size):
    for b in range(size):
        if kind == 0:
            x = 0
        elif kind == 1:
            x = 255
        else:
            sq = (b + a + kind) % 251
            x = (b * 31 + (b // 8) * 17 + a * 101 + (a // 64) * 7 + kind * 59 + sq * sq) & 255
        yield bytes([x])


def run(scenarios, f):
    """Runs scenarios and writes down what came out of those that ended; gives
    their number and what was said when the next one did not."""
    encoded = [encode(sc) for sc in scenarios]
    with open(src + ".cmd", "wb") as g:
        g.write(b"".join(x for x, _ in encoded) + num(0, 1))
    results = src + ".res"
    open(results, "wb").close()
    r = subprocess.run(command + [src + ".cmd", results], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    with open(results, "rb") as g:
        data = g.read()
    os.remove(src + ".cmd")
    os.remove(results)
    at = 0
    for i, (sc, (_, sizes)) in enumerate(zip(scenarios, encoded)):
        total = sum(x or 0 for x in sizes)
        if data[at + total:at + total + 1] != b"\xee":
            return i, r.stderr or b"nothing"
        for e, size in zip(sc["ev"], sizes):
            if size is not None:
                e["out"] = data[at:at + size].hex()
                at += size
        at += 1
        f.write(json.dumps(sc) + "\n")
        f.flush()
    return len(scenarios), b""


def main():
    with open(src) as f:
        scenarios = [json.loads(x) for x in f]
    with open(dst, "a") as f:
        while scenarios:
            n, said = run(scenarios, f)
            scenarios = scenarios[n:]
            if not scenarios:
                break
            # Alone, too?
            n, again = run(scenarios[:1], f)
            if n == 0 and b"unsupported operation" in again:
                # The interpreter does not know what it is asked for here.
                f.write(json.dumps(dict(scenarios[0], ev=[])) + "\n")
            elif n == 0:
                sys.stderr.buffer.write(again[-3000:])
                sys.exit(134)
            else:
                with open(os.path.join(os.path.dirname(sys.argv[1]), "odd"), "ab") as g:
                    g.write(said + b"\n")
            scenarios = scenarios[1:]


main()
