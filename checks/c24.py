"""Standard outputs that take only so much."""
from lib import vp
from checks import cli, common, models


def check(c):
    models.delivery(c)
    cy = common.Cycle(c.rng)

    def std(n):
        return cli.stdin(cy, n, ["pipe", "file", "socket"][n % 3])
    f, g, h = (cli.regular(cy, n, k) for n, k in (("a", 10), ("b c", 5000), ("ünïcode", 20000)))
    key = [["key", common.KEYS[2]]]
    runs = [                                # and how long their outputs are
        (cli.start([["length", "0"]], [f]), 1),
        (cli.start([["length", "2"]], [], std(100)), 5),
        (cli.start([], [f]), 65),
        (cli.start(key, [], std(3001)), 65),
        (cli.start([["length", "600"]], [g]), 1201),
        (cli.start([["length", "5000"]], [h]), 10001),
        (cli.start([["length", "5000"]], [cli.dash()], std(20)), 10001),
        (cli.start([], [f, g, h]), 3 * 67 + 1 + 3 + 9),
        (cli.start([], [cli.failing("missing", "gone"), f, cli.failing("dir", "folder"), g]), 230),
        (cli.start([["derive-key", common.KEYS[3]], ["length", "3"]], [f, cli.dash()] * 10, std(50)), 180),
        (cli.start([], [cli.failing("missing", "gone")]), 60),
        (cli.start([["length", "33000"]], [f, g]), 132009),
        (cli.start([], [f, g, h] * 40), 8520),
    ]
    starts, deliveries = [], []
    for start, size in runs:
        starts.append(start)
        near = {0, 1, 2, 3, size - 2, size - 1, size, size + 1, 2 * size}
        near |= {k + d for k in (63, 64, 65, 66, 67, 128, 1024, 2048, 4096, 8192, 65536) for d in (-1, 0, 1)}
        near |= {c.rng.randrange(size + 1) for _ in range(c.pick(12, 80))}
        if size < 300:
            near |= set(range(size + 2)) if not c.rng.randrange(3) or c.thorough else set()
        for k in sorted(x for x in near if 0 <= x <= 2 * size):
            deliveries.append(dict(start, op="deliver", sink="file", room=k))
        for k in sorted(near)[::c.pick(4, 1)]:
            if k <= size + 1:
                deliveries.append(dict(start, op="deliver", sink="pipe", room=k))
        for sink in ("full", "gone", "socket", "nonblocking"):
            deliveries += [dict(start, op="deliver", sink=sink)] * c.pick(1, 5)
    cli.judge(c, "outputs that take everything", vp.cli_tool(), starts)
    sc = [{"id": f"{e['sink']}-{i}", "ev": [e]} for i, e in enumerate(deliveries)]
    c.judge("outputs that do not", "DeliveryTrace", c.run(vp.cli_tool(), sc, timeout=800))
