"""copy_wide."""
from lib import vp
from checks import models


def scripts(c, name, reader, writer, simulate=0):
    args = ["-simulate", f"num={simulate}", "-depth", str(reader + writer + 4), "-seed", str(c.seed * 613 + reader)] if simulate else []
    return c.generate(name, "CopyGen", cfg_text="SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", workers=1, args=args,
                      env={"READER": str(reader), "WRITER": str(writer), "RANDOM": "yes" if simulate else "no"},
                      what=f"{'random' if simulate else 'all'} behaviours of a reader and a writer in up to {reader} and {writer} calls")


def check(c):
    models.copy_wide(c)
    found = scripts(c, "CopyGen, exhaustive", 2, 2)
    found += scripts(c, "CopyGen, exhaustive, longer reader", 3, 1) + scripts(c, "CopyGen, exhaustive, longer writer", 1, 3)
    if c.thorough:
        found += scripts(c, "CopyGen, exhaustive, both longer", 3, 2)
    found += scripts(c, "CopyGen, random", 10, 12, c.pick(300, 3000)) + scripts(c, "CopyGen, random", 12, 40, c.pick(150, 1000))
    sc = [{"id": f"copy-{i}", "plat": "", "ev": [{"op": "copy", "k": 2 + i % 5, "reader": s["reader"], "writer": s["writer"]}]}
          for i, s in enumerate(found)]
    def script(reader, writer, **kw):
        sc.append({"id": f"script-{len(sc)}", "plat": "",
                   "ev": [dict({"op": "copy", "k": 2 + len(sc) % 5, "reader": reader, "writer": writer}, **kw)]})
    data = lambda *ns: [["data", n] for n in ns]
    # Every kind of error, with and without a message, of the system's too.
    codes = [1, 2] + list(range(3, 26)) + [100 + k for k in range(1, 26) if k != 17] + [200 + k for k in (1, 2, 5, 9, 11, 12, 22, 28, 32, 104, 110)]
    for k in codes:
        script([["err", k]], [])
        script(data(5, 20000) + [["err", k]] + data(10), [])
        script(data(5, 20000, 7), data(5, 1) + [["err", k]])
        script(data(30000), data(9) + [["err", k], ["err", 9]])
        script(data(9) + [["err", 0], ["err", k], ["err", 8]], [["err", 0]])
    # Every kind of interruption, and many of them.
    for k in (0, 100, 204):
        for n in (1, 2, 3, 10, 50, 128, 300, 1100):
            script([["err", k]] * n + data(3000, 18000), [])
            script(data(3000, 18000), [["err", k]] * n)
            script((data(100) + [["err", k]] * (n % 7 + 1)) * 9, (data(30) + [["err", k]] * 2) * 9)
            script(data(3000) + [["err", k]] * n, data(10) + [["err", k]] * n)
    # Many pieces, all sizes of them; a writer that takes a byte at a time.
    script(data(*[1] * 3000), [])
    script(data(*range(1, 200)), data(*[1] * 3000))
    script(data(*[16384] * 9, 1, *[16383] * 5), data(*[16000] * 30))
    script(data(65536, 300000), data(*[7001] * 60))
    script(data(17000), data(*[1] * 17000))
    for n in (1, 2, 511, 512, 513, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 1 << 20):
        script(data(n), [])
        script(data(n, n), data(1, n))
        script(data(n) + [["err", 5]], [])
    # More than 2^32 bytes.
    c.judge("copy_wide, beyond 2^32 bytes", "CopyTrace", c.run(vp.rust_driver("B"), [
        {"id": f"long-{n}", "plat": "", "ev": [{"op": "copy", "units": n}]} for n in ((1 << 19) - 1, (1 << 19) + 3, (1 << 20) - 4, (1 << 20) + 7) + c.pick((), (3 << 20, (1 << 22) + 1))]))
    for config in "AB":
        c.judge(f"copy_wide, {config}", "CopyTrace", c.run(vp.rust_driver(config), sc if config == "A" or c.thorough else sc[::4] + sc[len(found):]))
