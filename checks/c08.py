"""Multithreading."""
import json

from lib import vp
from checks import common, models


def distinct(c, name, traces, size=12):
    """The recorded calls of one-shot functions, each different record once:
    what the specification says of a call does not depend on the others."""
    seen, out = {}, []
    for t in traces:
        for e in t["ev"]:
            if e["op"] == "crash":
                out.append(t)
                continue
            slim = {k: v for k, v in e.items() if k != "al"}
            key = json.dumps(slim, sort_keys=True)
            if key not in seen:
                seen[key] = slim
    ev = sorted(seen.values(), key=lambda e: e["op"])
    c.log(f"{name}: {sum(len(t['ev']) for t in traces)} calls, {len(ev)} different records")
    c.parts.append({"part": name, "kind": "calls recorded", "calls": sum(len(t["ev"]) for t in traces),
                    "distinct_records": len(ev)})
    return out + [{"id": f"{name}-{i}", "ev": ev[i::max(1, len(ev) // size)]} for i in range(max(1, len(ev) // size))]


LENGTHS = [0, 1, 2048, 2049, 4096, 4097, 6145, 8192, 8193, 12288, 16384, 16385, 18433, 24577, 32768, 32769, 34817,
           49152, 65536, 65537, 100000, 131073, 262144, 262145, 500000, 1 << 20, (1 << 20) + 1]


def pools(c, cy, plats):
    """Calls under thread pools of every size, with repetitions."""
    calls = []
    for n in LENGTHS + [c.rng.randrange(1 << c.rng.randrange(12, 20)) for _ in range(c.pick(15, 80))]:
        calls.append(common.one(cy, n, al=0))
    sc = []
    for p in plats:
        for pool in (1, 2, 3, 4, 5, 7, 8, 12, 16, 31):
            for rep in range(c.pick(4, 40)):
                c.rng.shuffle(calls)
                sc.append({"id": f"pool-{p}-{pool}-{rep}", "impl": "rust", "plat": p, "pool": pool,
                           "ev": [dict(e) for e in calls]})
    return sc


def callers(c, cy, plats):
    """Threads that hash at the same time: the same input and different ones."""
    sc = []
    for p in plats:
        for pool in (0, 1, 2, 4, 8):
            for rep in range(c.pick(3, 30)):
                same = common.one(cy, c.rng.choice(LENGTHS), al=0)
                lists = []
                for i in range(c.rng.choice([2, 3, 8, 16])):
                    mine = [dict(same) for _ in range(3)]
                    mine += [common.one(cy, c.rng.choice(LENGTHS[:20]), al=0) for _ in range(5)]
                    c.rng.shuffle(mine)
                    lists.append(mine)
                sc.append({"id": f"callers-{p}-{pool}-{rep}", "impl": "rust", "plat": p, "pool": pool, "ev": [], "threads": lists})
    return sc


def tasks(c, cy, plats):
    """Callers that are threads with one pool together, or tasks of a pool."""
    sc = []
    for p in plats:
        for share in ("pool", "tasks"):
            for pool in (1, 2, 3, 5, 8, 16):
                for rep in range(c.pick(2, 20)):
                    pre, lists = [], []
                    for h in range(3):
                        mode, key = cy.mode()
                        pre += [{"op": "new", "h": h, "mode": mode, "key": key},
                                {"op": "upd", "h": h, "k": cy.kind(), "n": c.rng.choice(LENGTHS[:20]), "al": 0, "how": "update"}]
                    for i in range(c.rng.choice([3, 8, 20])):
                        mine = [common.one(cy, c.rng.choice(LENGTHS[:24]), al=0) for _ in range(4)]
                        mine += [{"op": "upd", "h": i % 3, "k": cy.kind(), "n": c.rng.choice(LENGTHS[:20]), "al": 0, "how": "update"},
                                 {"op": "fin", "h": i % 3, "n": 32}]
                        lists.append(mine)
                    sc.append({"id": f"{share}-{p}-{pool}-{rep}", "impl": "rust", "plat": p, "pool": pool, "share": share,
                               "ev": pre, "threads": lists})
    return sc


def repeated(c, cy):
    """Short calls over and over in many threads at once: different ones in
    each, or the same."""
    sc = []
    for rep in range(c.pick(10, 200)):
        lists = []
        for i in range(c.rng.choice([4, 8, 8, 12])):
            mine = []
            for _ in range(3):
                mine.append(dict(common.one(cy, c.rng.choice([0, 1, 32, 64, 65, 100, 2048, 2049] + LENGTHS[4:10] * (rep % 2)), al=0),
                                 times=c.pick(4000, 20000)))
            mode, key = cy.mode()
            mine += [{"op": "new", "h": 1, "mode": mode, "key": key, "times": 500},
                     {"op": "upd", "h": 1, "k": cy.kind(), "n": c.rng.choice([0, 1, 100, 4096, 6145, 20000]), "al": 0, "how": "update"},
                     {"op": "fin", "h": 1, "n": 32, "times": 4000}, {"op": "clone", "h": 1, "h2": 2, "times": 500},
                     {"op": "fin", "h": 2, "n": 32}, {"op": "xof", "h": 1, "o": 1, "times": 500}, {"op": "read", "o": 1, "n": 2}]
            # Everybody at the same thing for a while, and not.
            if rep % 3:
                c.rng.shuffle(lists)
            lists.append(mine)
        sc.append({"id": f"repeated-{rep}", "impl": "rust", "pool": 0, "ev": [], "threads": lists})
    return sc


def hops(c, cy, plats):
    """Hashers and outputs that go from thread to thread with every call."""
    sc = []
    for p in plats:
        for n in (1, 2, 3, 7):
            for rep in range(c.pick(3, 30)):
                ev = []
                for h in range(2):
                    mode, key = cy.mode()
                    ev.append({"op": "new", "h": h, "mode": mode, "key": key})
                for _ in range(14):
                    h = c.rng.randrange(2)
                    ev.append({"op": "upd", "h": h, "k": cy.kind(), "al": 0, "how": "update",
                               "n": c.rng.choice(LENGTHS[:20] + [1, 63, 64, 65, 2047])})
                    if not c.rng.randrange(3):
                        ev += [{"op": "fin", "h": h, "n": 32}, {"op": "xof", "h": h, "o": h}, {"op": "read", "o": h, "n": 2},
                               {"op": "read", "o": h, "n": 1}]
                ev += [{"op": "fin", "h": h, "n": 32} for h in range(2)]
                sc.append({"id": f"hop-{p}-{n}-{rep}", "impl": "rust", "plat": p, "hop": n, "ev": ev})
    return sc


def beginnings(c, b, cy):
    """The very first calls of a process, in several threads at once."""
    def one(i):
        lists = []
        for t in range(c.rng.choice([4, 8, 16])):
            mode, key = cy.mode()
            n = c.rng.choice(LENGTHS[:16])
            how = t % 3 if i % 2 else i % 3
            lists.append([common.one(cy, n, al=0)] if how else
                         [{"op": "new", "h": 1, "mode": mode, "key": key},
                          {"op": "upd", "h": 1, "k": cy.kind(), "n": n, "al": 0, "how": "update"}, {"op": "fin", "h": 1, "n": 32}])
        return {"id": f"first-{i}", "impl": "rust", "pool": 0, "ev": [], "threads": lists}
    sc = [one(i) for i in range(c.pick(64, 1000))]
    return [t for k in range(0, len(sc), 16) for t in c.run(b, sc[k:k + 16], shards=16)]


def shared(c, cy, plats):
    """Clones of one hasher and of one output, used by several threads."""
    sc = []
    for p in plats:
        for pool in (0, 3):
            for rep in range(c.pick(6, 60)):
                mode, key = cy.mode()
                pre = [{"op": "new", "h": 1, "mode": mode, "key": key},
                       {"op": "upd", "h": 1, "k": cy.kind(), "n": c.rng.choice(LENGTHS[:20]), "al": 0, "how": "update"},
                       {"op": "xof", "h": 1, "o": 1}]
                lists = []
                for i in range(c.rng.choice([2, 5, 9])):
                    mine = []
                    for _ in range(4):
                        mine += [{"op": "upd", "h": 1, "k": c.rng.randrange(8), "n": c.rng.choice(LENGTHS[:19]), "al": 0, "how": "update"},
                                 {"op": "fin", "h": 1, "n": 32}, {"op": "read", "o": 1, "n": c.rng.randrange(1, 4)},
                                 {"op": "xof", "h": 1, "o": 2}, {"op": "read", "o": 2, "n": 1}]
                    lists.append(mine)
                sc.append({"id": f"shared-{p}-{pool}-{rep}", "impl": "rust", "plat": p, "pool": pool, "ev": pre, "threads": lists})
    return sc


def check(c):
    models.recursive(c)
    b = vp.rust_driver("B")
    cy = common.Cycle(c.rng)
    plats = common.platforms(b)
    # One process after the other, so that the pools have the machine.
    c.judge("thread pools of every size", "ApiTrace",
            distinct(c, "pools", c.run(b, pools(c, cy, plats), shards=2)))
    calls = common.long_ones(c, cy, c.pick(15, 18), c.pick(10, 100))
    c.judge("long messages", "ApiTrace", distinct(c, "long", c.run(b, [
        {"id": f"long-{p}-{pool}-{i}", "impl": "rust", "plat": p, "pool": pool, "ev": [dict(e) for e in calls[i::4]]}
        for p in plats for pool in (2, 3, 8, 24) for i in range(4)], shards=2)))
    c.judge("callers at the same time", "ApiTrace",
            distinct(c, "callers", c.run(b, callers(c, cy, plats), shards=2)))
    c.judge("clones used by several threads", "ApiTrace", c.run(b, shared(c, cy, plats), shards=2))
    c.judge("callers that share a pool or are tasks of it", "ApiTrace", c.run(b, tasks(c, cy, plats), shards=2))
    c.judge("short calls over and over", "ApiTrace", c.run(b, repeated(c, cy), shards=1))
    c.judge("hashers that go from thread to thread", "ApiTrace", c.run(b, hops(c, cy, plats), shards=2))
    c.judge("first calls of a process", "ApiTrace", beginnings(c, b, cy))
