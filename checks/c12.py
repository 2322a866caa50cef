"""One input: every size, kind, mode and length."""
from lib import vp
from checks import cli, common, models

SIZES = [0, 1, 63, 64, 65, 1000, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 16383, 16384, 16385, 30000, 65535, 65536,
         65537, 131073, 300000]
LENGTHS = ["0", "1", "2", "31", "32", "33", "63", "64", "65", "100", "127", "128", "129", "1000", "4096", "100000"]
HUGE = ["9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709551615", "4294967296", "4611686018427387904"]


def starts(c):
    cy = common.Cycle(c.rng)
    out = []
    i = 0

    def add(inputs, std=None, length=None, **kw):
        nonlocal i
        opts = cli.mode_opts(c, i) + ([["length", length]] if length else [])
        if i % 2:
            opts.reverse()
        i += 1
        out.append(cli.start(opts, inputs, std, apart=i % 3 == 0, places=[i % 2, i // 2 % 2], **kw))

    for j, n in enumerate(SIZES + [c.rng.randrange(1 << 18) for _ in range(c.pick(6, 60))]):
        for k in range(3):
            add([cli.regular(cy, cli.GOOD_NAMES[(j + k) % len(cli.GOOD_NAMES)], n, link=(j + k) % 5 == 0)])
            sizes = [[65536], [1], [1000, 1, 64], [16384], [2048, 2047, 2049], [4096]][(j + k) % 6]
            if sizes == [1] and n > 5000:
                sizes = [1] * 50 + [16385]
            pause = 0.001 if k == 1 and j % 3 == 0 else 0
            add([cli.fifo(cy, "pipe", n, sizes, pause)])
            add([[], [cli.dash()]][k % 2], cli.stdin(cy, n, "pipe", sizes=sizes, pause=pause))
            add([[], [cli.dash()]][k % 2], cli.stdin(cy, n, "socket" if k == 2 else "file", sizes=sizes))
    # Standard input of which somebody has read a part.
    for j, before in enumerate([1, 64, 100, 2048, 4096, 5000, 65536, 70001]):
        for k, n in enumerate([0, 1, 2049, 16385, 70000]):
            add([[], [cli.dash()]][(j + k) % 2], cli.stdin(cy, n, "file", before=before))
    for n in LENGTHS:
        for k in range(3):
            add([cli.regular(cy, "f", c.rng.choice([0, 5, 3000]))], length=n)
            add([[], [cli.dash()]][k % 2], cli.stdin(cy, c.rng.choice([0, 7, 5000])), length=n)
    for n in HUGE:
        add([cli.regular(cy, "f", 100)], length=n, cut=40000)
        add([], cli.stdin(cy, 10), length=n, cut=40000)
    for n in c.pick(["600000", "70000001"], ["600000", "70000001", "123456789", "1073741824", "2147483652", "3000000001"]):
        add([cli.regular(cy, "f", 100)], length=n, patience=700)
    for name in ["/dev/null", "/proc/version", "/proc/cpuinfo", "/proc/filesystems", "/proc/self/comm"]:
        f = cli.special(name)
        if name == "/proc/self/comm":
            f["content"] = {"hex": b"baokeshed\n".hex()}
        if name != "/proc/cpuinfo":             # (the frequencies in it change)
            add([f])
    add([dict(cli.regular(cy, "/dev/stdin", 1), content=cli.segs(cy, 0), make={"kind": "there"})], cli.no_stdin())
    std = cli.stdin(cy, 70000, sizes=[3000])
    add([{"name": "/dev/stdin", "shown": "/dev/stdin", "content": std["content"], "make": {"kind": "there"}}], std)
    add([], cli.no_stdin())
    add([], cli.no_stdin("dir"))
    add([cli.dash()], cli.no_stdin("dir"))
    for n in (0, 100, 5000):
        add([[], [cli.dash()]][n % 3 % 2], {"content": {"broken": True}, "made": cli.segs(cy, n), "make": {"kind": "terminal"}})
    for k, kind in enumerate(cli.FAILING):
        add([cli.failing(kind, "bad")])
    # Larger than memory is likely to be mapped or read at once, and than 32 bits.
    for chunks in c.pick([40000], [40000, 600000, (1 << 21) + 3]):
        add([cli.sparse("big", chunks, 777)])
        add([], {"content": {"segs": [[0, 0, chunks], [3, 777]]}, "make": {"kind": "pipe", "sizes": [1 << 20]}})
    if not c.thorough:
        add([cli.sparse("big", (1 << 21) + 3, 777)], patience=200)
    # Not UTF-8: a listed finding.
    add([dict(cli.regular(cy, "caf\xe9", 100), latin1=True)])
    return out


def check(c):
    models.self_check(c)
    found = starts(c)
    cli.judge(c, "one input", vp.cli_tool(), found)
    small = [e for e in found if not any(s for f in e["inputs"] + [e["stdin"]] for s in f["content"].get("segs", []) if len(s) > 2 and s[2] > 1000)
             and not any(n == "length" and len(v) > 6 and "cut" not in e for n, v in e["opts"])]
    cli.judge(c, "one input, debug build", vp.cli_tool("debug"), small[:: c.pick(6, 1)])
