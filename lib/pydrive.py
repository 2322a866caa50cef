#!/usr/bin/env python3
"""Drives the Python implementation; the same protocol as harness/src/main.rs.

usage: pydrive.py MODULE IN OUT"""
import ctypes
import importlib.util
import json
import sys

sys.dont_write_bytecode = True
sys.setrecursionlimit(10000)
spec = importlib.util.spec_from_file_location("baokeshed_under_test", sys.argv[1])
impl = importlib.util.module_from_spec(spec)
spec.loader.exec_module(impl)

CHUNKS = {}


def chunk(kind, a):
    if kind == 0:
        return bytes(2048)
    if kind == 1:
        return b"\xff" * 2048
    if (kind, a) not in CHUNKS:
        c = a % 65536
        CHUNKS[kind, a] = bytes((b * 31 + (b // 8) * 17 + c * 101 + (c // 64) * 7 + kind * 59
                                 + ((b + c + kind) % 251) ** 2) & 255 for b in range(2048))
    return CHUNKS[kind, a]


def content(segs):
    out = bytearray()
    for kind, n in segs:
        end = len(out) + n
        while len(out) < end:
            a, b = divmod(len(out), 2048)
            out += chunk(kind, a)[b:b + end - len(out)]
    return out


TYPES = {"bytes": bytes, "bytearray": bytearray}


def step(e):
    data = TYPES[e.get("type", "bytes")](bytes.fromhex(e["data"]) if e["op"] == "lit" else content(e["segs"]))
    key = TYPES[e.get("ktype", "bytes")](bytes.fromhex(e["key"]))
    before = (bytes(data), bytes(key))
    if e["mode"] == "hash":
        out = impl.hash(data, e["n"])
    elif e["mode"] == "keyed":
        out = impl.keyed_hash(key, data, e["n"])
    else:
        out = impl.derive_key(key, data, e["n"])
    e["out"] = bytes(out).hex()
    if (bytes(data), bytes(key)) != before:
        e["stray"] = True


with open(sys.argv[2]) as src, open(sys.argv[3], "a") as dst:
    for line in src:
        sc = json.loads(line)
        for i, e in enumerate(sc["ev"]):
            try:
                step(e)
            except Exception as x:
                e["panic"] = repr(x)
                sc["ev"] = sc["ev"][:i + 1]
                break
        dst.write(json.dumps(sc) + "\n")
        dst.flush()
