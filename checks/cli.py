"""Invocations of the command-line tool."""
import os

from lib import vp
from checks import common

NON_UTF8 = "an argument that is not UTF-8 makes the tool panic before it has hashed anything (exit status 101, no output)"
DASHED_NAMES = ["-x", "--length=3", "--key=" + "00" * 32, "--", "-", "--foo", "-\t", "--key"]
FAILING = ["missing", "dir", "notdir", "loop", "dangling", "socket", "mem", "toolong"]
GOOD_NAMES = ["a", "file.bin", "with space", "ünïcode-ж", "UPPER", ".hidden", "sub/dir/x", "a=b", "1234", "a  b",
              "é" * 20, "trailing ", "./-", "./--length=3", "ffffffff", "q'uote\"s", "back\\slash", "x" * 200, "📦"]


def segs(cy, n, kind=None):
    return {"segs": [[cy.kind() if kind is None else kind, n % 2048, n // 2048]]}


def limited(n):
    return {"segs": [[0, n % 2048, n // 2048]]}


def regular(cy, name, n, link=False):
    return {"name": name, "shown": name, "content": segs(cy, n), "make": {"kind": "link" if link else "file"}}


def sparse(name, chunks, tail, kind=3):
    """Zeros, and something at the end."""
    return {"name": name, "shown": name, "content": {"segs": [[0, 0, chunks], [kind, tail]]}, "make": {"kind": "file"}}


def fifo(cy, name, n, sizes, pause=0):
    return {"name": name, "shown": name, "content": segs(cy, n), "make": {"kind": "fifo", "sizes": sizes, "pause": pause}}


def special(name):
    """Something that is there anyway."""
    with open(name, "rb") as f:
        return {"name": name, "shown": name, "content": {"hex": f.read().hex()}, "make": {"kind": "there"}}


def failing(kind, name):
    if kind == "mem":
        return {"name": "/proc/self/mem", "shown": "/proc/self/mem", "content": {"broken": True}, "make": {"kind": "there"}}
    if kind == "notdir":
        name = "plain/x"
    if kind == "toolong":
        return {"name": name + "x" * 300, "shown": name + "x" * 300, "content": {"broken": True}, "make": {"kind": "missing"}}
    return {"name": name, "shown": name, "content": {"broken": True}, "make": {"kind": kind}}


def dash():
    return {"name": "-", "shown": "-", "content": {"segs": []}, "make": {"kind": "there"}}


def stdin(cy, n, kind="pipe", **kw):
    return {"content": segs(cy, n), "make": dict({"kind": kind}, **kw)}


def no_stdin(kind="null"):
    return {"content": {"segs": []} if kind == "null" else {"broken": True}, "make": {"kind": kind}}


def start(opts=(), inputs=(), std=None, **kw):
    s = std or no_stdin()
    return dict({"op": "start", "opts": [list(o) for o in opts], "inputs": list(inputs),
                 "stdin": dict(s["content"], **{k: v for k, v in s.items()})}, **kw)


def key(c, i):
    k = (common.KEYS + ["".join(c.rng.choice("0123456789abcdef") for _ in range(64))])[i % 6]
    return [k, k.upper(), "".join(x.upper() if c.rng.random() < .5 else x for x in k)][i // 6 % 3]


def mode_opts(c, i):
    return [[], [["key", key(c, i // 3)]], [["derive-key", key(c, i // 3)]]][i % 3]


BAD_LENGTHS = ["x", "", "-1", "1x", "1.5", "0x10", "1e3", "18446744073709551616", "99999999999999999999999", " 5", "5 ", "٣", "--key", "1_000"]
BAD_WORDS = ["--foo", "--foo=1", "-x", "--key", "--length", "--derive-key", "--keys=" + "00" * 32, "--Key=" + "00" * 32, "-k\t" + "00" * 32,
             "--derive=" + "00" * 32 + "\t--derive=" + "11" * 32, "--check", "--length 5", "--key=" + "00" * 32 + "\n", "--derive-key=" + "1f" * 32 + "\n\n", "--key " + "00" * 32, "--key " + "00" * 32 + "=",
             "--foo\n", "-x\n", "-k " + "00" * 32, "--length=5\n", "---", "--=", "--\n"]


def bad_key(c, i):
    k = common.KEYS[i % 5]
    r = c.rng
    j = r.randrange(64)
    return [
        k[:-1], k[:-2], k + "0", k + "00", "", "0", "00", k[:32], k + k, k[:62] + "zz",
        k[:j] + "g" + k[j + 1:], k[:j] + " " + k[j + 1:], " " + k, k + " ", "0x" + k, "0x" + k[2:], k[:j] + ":" + k[j + 1:],
        k[:63] + "\n", k + "\n", k[:j] + "é" + k[j + 1:], k[:62] + "é", "x" * 64, "x" * 32, k[:j] + "G" + k[j + 1:],
        k[:j] + "/" + k[j + 1:], k[:j] + "@" + k[j + 1:], k[:j] + "`" + k[j + 1:], "+" + k[1:], "-" + k[1:], k[:j] + k[j + 1:],
        k[:-2] + "..", k[:j] + "ａ" + k[j + 1:], "é" * 32, "key", k * 4, k[:j] + "_" + k[j + 1:],
    ]


def judge(c, name, cmd, starts, what=""):
    sc = [{"id": f"{name}-{i}", "ev": [e]} for i, e in enumerate(starts)]
    c.judge(name, "CliTrace", c.run(cmd, sc, timeout=800), known=known, what=what)


def known(trace, mismatch):
    """The listed finding, and nothing else: some argument is not UTF-8, the
    tool ends with status 101 and has printed nothing."""
    ev = trace["ev"]
    end = ev[-1]
    if any(f.get("latin1") for f in ev[0]["inputs"]) and len(ev) == 2 and end["op"] == "end" and end["rc"] == 101 \
            and mismatch["event"] == 2:
        return NON_UTF8
    return None
