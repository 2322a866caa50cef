#!/usr/bin/env python3
"""Watches operations on secrets take their course: every instruction that is
executed, and every place in memory that is read or written.

usage: leakdrive.py [--no-valgrind] PROGRAM PLATFORM [room] IN OUT

The events of a scenario: op (see harness/leak), n, len, and s, the number of the
secrets, or those themselves for a comparison, key and other; the course of the operation and its result are added: steps, the number
of instructions, accesses, that of accesses to memory, walk, a sum over all of
them, and out. VALGRIND_LIB says where harness/walk is. For room, nothing is
watched, but the room taken on heap and stack written down."""
import json
import os
import struct
import subprocess
import sys

args = sys.argv[1:]
itself = args[0] == "--no-valgrind"  # the program watches itself
program, platform, *room, src, dst = args[1:] if itself else args


def main():
    with open(src) as f:
        scenarios = [json.loads(x) for x in f]

    def record(sc, e):
        if e["op"] >= 50:
            return struct.pack("<III", e["op"], e["len"], e["n"]) + bytes(64)
        key, data = sc["secrets"][e["s"]] if e["op"] >= 10 else (e["key"], "")
        data = bytes.fromhex(data)
        return struct.pack("<III", e["op"], len(data), e["n"]) + bytes.fromhex(key) + bytes.fromhex(e.get("other", "00" * 32)) + data

    events = [(sc, e) for sc in scenarios for e in sc["ev"]]
    # Once for every kind beforehand: what is done once only, is done then.
    # (Of what is measured only, and may be long, the shortest of every kind.)
    first = {}
    for sc, e in sorted(events, key=lambda x: x[1]["len"]):
        first.setdefault((e["op"], e["n"], e["len"]) if e["op"] < 50 else e["op"], (sc, e))
    first = list(first.values())
    with open(src + ".rec", "wb") as f:
        f.write(b"".join(record(*x) for x in first + events))
    p = subprocess.run(([] if room or itself else ["valgrind", "--tool=walk", "-q"]) + [program, platform, src + ".rec", src + ".res"] + room,
                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    if p.returncode != 0:
        sys.stderr.buffer.write(p.stderr[-3000:])
        sys.exit(3 if p.returncode in (1, 3) else 134)
    with open(src + ".res", "rb") as f:
        results = f.read()
    os.remove(src + ".rec")
    os.remove(src + ".res")
    if len(results) != 104 * (len(first) + len(events)):
        sys.stderr.write(f"{len(results)} bytes of results for {len(first) + len(events)} operations")
        sys.exit(3)
    for i, (_, e) in enumerate(events, len(first)):
        out = results[104 * i:104 * i + 104]
        if e["op"] < 10:
            e["is"] = out[0] == 1
        else:
            e["out"] = out[:64].hex()
        steps, accesses, walk, e["heap"], e["stack"] = struct.unpack("<QQQQQ", out[64:])
        if room:
            continue
        if e["op"] >= 50:
            e["steps"] = steps
            continue
        if not steps:
            sys.stderr.write("nothing was watched")
            sys.exit(3)
        e["steps"], e["accesses"], e["walk"] = str(steps), str(accesses), f"{walk:016x}"
    with open(dst, "w") as f:
        for sc in scenarios:
            f.write(json.dumps(sc) + "\n")


main()
