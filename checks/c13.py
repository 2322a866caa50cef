"""Lists of inputs."""
import itertools

from lib import vp
from checks import cli, common, models


class Concrete:
    """The abstract inputs of CliModel, as real ones of many kinds."""

    def __init__(self, c):
        self.c, self.cy, self.i = c, common.Cycle(c.rng), 0

    def inputs(self, names):
        self.i += 1
        known = {}
        for j, n in enumerate(sorted(set(names))):
            i = self.i + j
            if n == "a":
                size = [1, 100, 2048, 2049, 5000, 16385, 70000][i % 7]
                name = cli.GOOD_NAMES[i % len(cli.GOOD_NAMES)]
                # A pipe can be read only once.
                known[n] = cli.fifo(self.cy, "pipe", size, [4096]) if i % 5 == 0 and names.count(n) == 1 \
                    else cli.regular(self.cy, name, size)
            elif n == "b":
                known[n] = dict(cli.regular(self.cy, f"empty {i % 9}", 0)) if i % 4 else \
                    {"name": "/dev/null", "shown": "/dev/null", "content": {"segs": []}, "make": {"kind": "there"}}
            elif n == "gone":
                known[n] = cli.failing(cli.FAILING[i % len(cli.FAILING)], ["gone", "not here", "ünfindbar", "gone-" * 9][i // 8 % 4])
            else:
                known[n] = cli.dash()
        return [known[n] for n in names]

    def stdin(self, s):
        self.i += 1
        if s == "broken":
            return cli.no_stdin("dir")
        if s == "":
            return cli.no_stdin() if self.i % 2 else cli.stdin(self.cy, 0)
        return cli.stdin(self.cy, [1, 64, 3000, 20000][self.i % 4], ["pipe", "file", "socket"][self.i % 3], sizes=[[65536], [100]][self.i % 2],
                         before=self.i % 5 * 1000)


def check(c):
    models.cli(c)
    cases = models.cli_cases(c)
    cases = [x for x in cases if not any(o in (["key", "bad"], ["derive-key", "bad"], ["length", "x"]) or o[0] in ("other", "help", "version") for o in x["opts"])
             and len({o[0] for o in x["opts"]}) == len(x["opts"]) and not {"key", "derive-key"} <= {o[0] for o in x["opts"]}]
    k = Concrete(c)
    starts = []
    for i, x in enumerate(cases):
        for _ in range(c.pick(1, 3)):
            opts = [[n, {"good": cli.key(c, i)}.get(v, ["5", "0", "64", "200"][i % 4])] for n, v in x["opts"]]
            starts.append(cli.start(opts, k.inputs(x["inputs"]), k.stdin(x["stdin"]), apart=i % 2 == 0,
                                    places=[(i * 7 + j) % (len(x["inputs"]) + 1) for j in range(2)]))
    # Longer lists, with repeats.
    cy = common.Cycle(c.rng)
    for i in range(c.pick(40, 400)):
        pool = [cli.regular(cy, n, c.rng.choice([0, 1, 2048, 9999])) for n in c.rng.sample(cli.GOOD_NAMES, 5)]
        pool += [cli.failing(kind, kind + "-x") for kind in c.rng.sample(cli.FAILING, 3)] + [cli.dash()]
        inputs = [c.rng.choice(pool) for _ in range(c.rng.choice([3, 5, 8, 13, 40]))]
        opts = cli.mode_opts(c, i) + [[], [["length", "33"]]][i % 2]
        starts.append(cli.start(opts, inputs, k.stdin(c.rng.choice(["S", "", "broken"])), places=[c.rng.randrange(9)]))
    # Names that begin with a dash, behind a double dash.
    for i, name in enumerate(cli.DASHED_NAMES):
        f = cli.dash() if name == "-" else cli.regular(cy, name, [0, 9, 4096][i % 3])
        for before in ([], [cli.regular(cy, "a", 77)], [cli.dash(), cli.failing("missing", "gone")]):
            for after in ([], [cli.failing("missing", "-gone")], [cli.regular(cy, "b", 2049)]):
                starts.append(cli.start(cli.mode_opts(c, i), before + [f] + after, k.stdin("S"), places=[0], ddash=len(before)))
    # Only "-" itself is standard input, not another name of something called "-".
    for i, name in enumerate(["-/", "-/.", "-//", "./-/", "-/./", "-/.."]):
        for kind in ["dir", "missing"]:
            if (kind, name) == ("dir", "-/.."):
                continue
            f = cli.failing(kind, name)
            for before in ([], [cli.dash()], [cli.regular(cy, "a", 77), cli.failing("missing", "gone")]):
                for after in ([], [cli.dash()], [cli.regular(cy, "b", 2049)]):
                    starts.append(cli.start(cli.mode_opts(c, i), before + [f] + after, k.stdin("S"), ddash=len(before)))
    cli.judge(c, "lists of inputs", vp.cli_tool(), starts)
    # Hundreds of inputs; every one of them failing; not UTF-8.
    many = [cli.regular(cy, f"f{i}", i) for i in range(300)]
    bad = [cli.failing(cli.FAILING[i % len(cli.FAILING)], f"bad{i}") for i in range(50)]
    more = [cli.start([], many), cli.start([], bad), cli.start([], bad + [cli.dash()] + many[:20], k.stdin("S")),
            cli.start([], [dict(cli.regular(cy, "caf\xe9", 100), latin1=True), many[3]]),
            cli.start([], [many[3], dict(cli.regular(cy, "\xff", 0), latin1=True)])]
    cli.judge(c, "long lists", vp.cli_tool(), more)
