"""Keys and arguments, well-formed and not."""
from lib import vp
from checks import cli, common, models


def check(c):
    models.cli(c)
    cy = common.Cycle(c.rng)
    starts = []
    i = 0

    def add(opts, inputs=None, std=None, **kw):
        nonlocal i
        i += 1
        if inputs is None:
            inputs = [[cli.regular(cy, "f", 10)], [], [cli.regular(cy, "f", 3000), cli.failing("missing", "gone")], [cli.dash()]][i % 4]
        starts.append(cli.start(opts, inputs, std or cli.stdin(cy, 50), places=kw.pop("places", [i % 3, i % 2]), **kw))

    # Every malformed key, as a key of each kind.
    tries = len(["x"] * 36)
    for r in range(c.pick(2, 20)):
        keys = cli.bad_key(c, r)
        for k in keys:
            for kind in ("key", "derive-key"):
                if k.startswith("-"):
                    add([[kind, k]])
                else:
                    add([[kind, k]], apart=len(starts) % 2 == 0)
    # Every length, and a wrong digit at every position.
    for n in list(range(0, 64)) + list(range(65, c.pick(70, 140))) + [128, 1000]:
        add([[("key", "derive-key")[n % 2], ("0123456789abcdef" * 70)[:n]]])
    for n in range(64):
        k = common.KEYS[n % 5]
        add([[("key", "derive-key")[n % 2], k[:n] + "gGxz/:@`{ é"[n % 11] + k[n + 1:]]])
    # Every character that is not a digit, at some position; every one that is.
    for ch in range(1, 128):
        k = list("7" * 64)
        k[ch * 5 % 64] = chr(ch)
        add([[("key", "derive-key")[ch % 2], "".join(k)]])
    # Well-formed keys.
    for n in range(c.pick(40, 300)):
        add(cli.mode_opts(c, n), apart=n % 2 == 0)
    # Combinations that are not understood.
    good = common.KEYS[2]
    for a in (good, good.upper(), common.KEYS[3], "zz"):
        for b in (good, common.KEYS[1], "", "0"):
            for n in range(3):
                add([["key", a], ["derive-key", b]], apart=n == 1 and b != "")
                add([["derive-key", a], ["key", b]], apart=n == 1 and b != "")
            add([["key", a], ["key", b]])
            add([["derive-key", a], ["derive-key", b]])
    for w in cli.BAD_WORDS:
        # (An option without its value is one only at the end.)
        last = w in ("--key", "--length", "--derive-key")
        for o in ([], [["key", good]], [["length", "5"]], [["derive-key", good], ["length", "9"]]):
            if not any(w.startswith("--" + n[0]) for n in o) or last:
                n = [[], [cli.regular(cy, "f", 10)], [cli.regular(cy, "f", 10), cli.regular(cy, "g", 0)]][i % 3]
                add(o + [["other", w]], inputs=n, places=[99] if last else [i % 3, i % 2])
    for n in cli.BAD_LENGTHS:
        for o in ([], [["key", good]], [["derive-key", good]]):
            if n != "":                     # (the empty length is not specified)
                add(o + [["length", n]])
                add([["length", n]] + o)
    add([["length", "5"], ["length", "5"]])
    # Help and the version, on their own and with something else.
    for n in ("help", "version"):
        for std in (cli.stdin(cy, 50), cli.no_stdin(), cli.no_stdin("dir")):
            add([[n, ""]], inputs=[], std=std)
        for o in ([["key", good]], [["derive-key", good]], [["length", "5"]], [["key", "zz"]], [[n, ""]], [["help", ""]], [["version", ""]]):
            for ins in ([], [cli.regular(cy, "f", 10)], [cli.dash()]):
                add([[n, ""]] + o, inputs=ins)
                add(o + [[n, ""]], inputs=ins)
        add([[n, ""]], inputs=[cli.dash()])
        add([[n, ""]], inputs=[cli.failing("missing", "gone")])
    add([["length", "5"], ["length", "6"], ["key", good]])
    # The same from the model.
    cases = models.cli_cases(c)
    c.rng.shuffle(cases)
    from checks.c13 import Concrete
    k = Concrete(c)
    for x in cases[:c.pick(1200, len(cases))]:
        opts = []
        for j, (n, v) in enumerate(x["opts"]):
            if n == "other":
                v = [w for w in cli.BAD_WORDS if w not in ("--key", "--length", "--derive-key")][(i + j) % (len(cli.BAD_WORDS) - 3)]
            elif n in ("help", "version"):
                v = ""
            elif n == "length":
                v = "5" if v == "5" else [b for b in cli.BAD_LENGTHS if b][(i + j) % (len(cli.BAD_LENGTHS) - 1)]
            else:
                bad = cli.bad_key(c, i + j)
                v = cli.key(c, i) if v == "good" else bad[i % len(bad)]
            opts.append([n, v])
        add(opts, inputs=k.inputs(x["inputs"]), std=k.stdin(x["stdin"]))
    cli.judge(c, "options", vp.cli_tool(), starts)
