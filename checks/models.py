"""The specifications that are model-checked on their own, with the constants
of each tier."""


def cfg(consts, spec="Spec", invariants=(), properties=(), deadlock=False, extra=""):
    text = f"SPECIFICATION {spec}\nCONSTANTS\n"
    for k, v in consts.items():
        text += f"  {k} {v}\n" if str(v).startswith("<-") else f"  {k} = {v}\n"
    if not consts:
        text = text.replace("CONSTANTS\n", "")
    if invariants:
        text += "INVARIANTS " + " ".join(invariants) + "\n"
    for p in properties:
        text += f"PROPERTY {p}\n"
    if not deadlock:
        text += "CHECK_DEADLOCK FALSE\n"
    return text + extra


def self_check(c):
    c.model("SelfCheck", "SelfCheck", "SelfCheck.cfg", xss="512m",
            what="round functions against RFC 7693; Java evaluations against TLA+ definitions")


def incremental(c):
    for block, chunk, total, upd, lanes in c.pick(
            [(2, 6, 95, 40, 4), (2, 4, 63, 21, 2)],
            [(2, 6, 190, 100, 4), (3, 6, 95, 95, 8), (2, 4, 127, 40, 2), (1, 3, 95, 60, 16), (4, 12, 200, 60, 1)]):
        depth = ((total + chunk - 1) // chunk).bit_length()
        c.model(f"Incremental {block}/{chunk}", "Incremental",
                cfg_text=cfg(dict(BlockLen=block, ChunkLen=chunk, MaxTotal=total, MaxUpdate=upd, Lanes=lanes, MaxDepth=depth),
                             invariants="CanFinalize Correct MergedBehindPartial StackBound Bounded Position ShapeWellFormed".split(),
                             properties=["RefinesShape"]),
                what=f"every split of every message up to {total} bytes into updates of up to {upd} bytes, "
                     f"{chunk}-byte chunks of {block}-byte blocks, {lanes} lanes")


def ref_incremental(c):
    for block, chunk, total, upd in c.pick([(2, 6, 95, 40), (2, 4, 63, 21)], [(2, 6, 190, 100), (3, 6, 120, 120), (1, 3, 95, 60)]):
        depth = ((total + chunk - 1) // chunk).bit_length()
        c.model(f"RefIncremental {block}/{chunk}", "RefIncremental",
                cfg_text=cfg(dict(BlockLen=block, ChunkLen=chunk, MaxTotal=total, MaxUpdate=upd, MaxDepth=depth),
                             invariants="Correct StackBound Bounded Position Canonical".split()),
                what=f"every split of every message up to {total} bytes")


def recursive(c):
    for degree, chunks in c.pick([(1, 9), (2, 14), (4, 24), (8, 36)], [(1, 17), (2, 24), (4, 48), (8, 66)]):
        c.model(f"Recursive degree {degree}", "Recursive",
                cfg_text=cfg(dict(BlockLen=1, ChunkLen=1, Degree=degree, MaxDegree=8, MaxChunks=chunks),
                             invariants="Correct Returns Disjoint SameSplit".split(),
                             properties=["Terminates"], deadlock=True),
                what=f"messages of 2 to {chunks} chunks, SIMD degree {degree}, every order of the halves")


def ladder(c):
    c.model("Ladder", "Ladder",
            cfg_text=cfg(dict(BlockLen=1, ChunkLen=2, MaxChunks=c.pick(20, 70)), invariants=["Agree"]),
            what="LadderRoot = Root for every message and every prefix")


def xof(c):
    for word, block, readers in c.pick([(4, 1, 2), (4, 2, 3)], [(6, 1, 2), (4, 1, 3), (8, 2, 3)]):
        c.model(f"Xof {word}/{block}", "Xof",
                cfg_text=cfg(dict(Word=word, BlockBytes=block, Readers="{" + ", ".join(f"r{i}" for i in range(readers)) + "}",
                                  **{f"r{i}": f"r{i}" for i in range(readers)}),
                             invariants="Consecutive NoRepeat Position Words".split(), properties=["Independent"]),
                what=f"{readers} readers, counters of two words of {word} values, blocks of {block}")


def machines(c):
    def text(native, narrow, chunks):
        return cfg(dict(MaxChunks=chunks, Native="{" + ", ".join(f'"{x}"' for x in native) + "}", Narrow=narrow), invariants=["SameEverywhere"])
    for chunks in c.pick([7], [12]):
        c.model(f"Machines, {chunks} chunks", "Machines", cfg_text=text((), "FALSE", chunks), deadlock=False,
                what=f"messages of up to {chunks} chunks in any pieces on machines of both byte orders, with addresses that reach all of it or not")
    for native, narrow in [(("key",), "FALSE"), (("block",), "FALSE"), (("out",), "FALSE"), (("block", "out"), "FALSE"),
                           (("key", "block", "out"), "FALSE"), ((), "TRUE")]:
        c.model_fails("Machines " + "+".join(native or ("narrow",)), "Machines", text(native, narrow, 5), deadlock=False,
                      what="words moved as the machine has them: " + ", ".join(native) if native else "positions as wide as addresses")


def processors(c):
    def text(tests, uses, invariants=("OnlyWhatIsThere", "Widest")):
        return cfg(dict(Tests="<- " + tests, Uses="<- " + uses, MaxInputs=c.pick(18, 40)), invariants=invariants)
    c.model("Processors", "Processors", cfg_text=text("CodeTests", "CodeUses"),
            what="every processor, hashers and calls in any order, any number of inputs together")
    for tests, uses in [("TestsAvx", "CodeUses"), ("TestsSsse3", "CodeUses"), ("CodeTests", "UsesSse42"), ("CodeTests", "UsesWide"), ("CodeTests", "UsesHere")]:
        c.model_fails(f"Processors {tests} {uses}", "Processors", text(tests, uses, ["OnlyWhatIsThere"]),
                      what="a test of another extension, or a part made of another one: " + (tests if tests != "CodeTests" else uses))


def hash_value(c):
    for length, alphabet in c.pick([(2, 4), (3, 2)], [(2, 8), (3, 4), (4, 3)]):
        c.model(f"HashValue {length} of {alphabet}", "HashValue",
                cfg_text=cfg(dict(Length=length, Alphabet="{" + ", ".join(map(str, range(alphabet))) + "}", Handles="{1, 2}"),
                             invariants=["DecidesEquality", "ShownApart"]),
                what=f"all pairs of values of {length} bytes below {alphabet}")


def separation(c):
    runs = [(2, 4, "chunks"), (4, 5, "keys")] + c.pick([], [(2, 5, "chunks"), (6, 6, "keys"), (4, 6, "keys")])
    for chunk, length, attack in runs:
        def consts(dropped):
            return cfg(dict(ChunkLen=chunk, MaxLen=length, Attack=f'"{attack}"', Dropped=dropped),
                       invariants=["NotInner", "OwnStream"], extra="VIEW View\n")
        c.model(f"Separation {chunk}/{length}, {attack}", "Separation", cfg_text=consts("{}"),
                what=f"all pairs of messages of up to {length} symbols, bytes or chaining values of an adversary's choice, "
                     f"under all modes and keys")
        if (chunk, length) in ((2, 4), (4, 5)):
            # The same without some of the flags has to fail.
            needed = ["{8}", "{1, 2, 4}", "{16}", "{32}"] if attack == "chunks" else ["{1}", "{2, 4}", "{8}", "{16}", "{32}"]
            for dropped in needed if c.thorough else needed[:2]:
                c.model_fails(f"Separation {attack} without flags {dropped}", "Separation", cfg_text=consts(dropped),
                              what="the adversary makes use of the missing flags")


def copy_wide(c):
    for buf, size, intr in c.pick([(3, 7, 2)], [(3, 9, 3), (5, 9, 2), (1, 5, 3)]):
        c.model(f"CopyWide buffer {buf}", "CopyWide",
                cfg_text=cfg(dict(Buf=buf, MaxBytes=size, MaxIntr=intr, RErrs="{1, 7}", WErrs="{2, 9}"),
                             invariants="InOrder Complete Honest NotStuck".split(), properties=["Ends"]),
                what=f"every reader of up to {size} bytes and every writer, with up to {intr} interruptions")


def cli(c):
    inputs, opts = c.pick((3, 1), (3, 2))
    c.model("Cli", "CliModel", cfg_text=cfg(dict(MaxInputs=inputs, MaxOpts=opts, Emit="FALSE"),
                                            invariants="OneLineEach OnItsOwn StdinOnce KeyedOrNothing".split(), properties=["Ends"]),
            what=f"every invocation with up to {inputs} inputs and {opts} options (not both at their most)")


def cli_cases(c):
    return c.generate("CliModel", "CliModel", workers=1,
                      cfg_text=cfg(dict(MaxInputs=3, MaxOpts=2, Emit="TRUE"), spec="Cases"),
                      what="every invocation with up to 3 inputs and one option or 2 inputs and two options")


def hash_many(c):
    def consts(degrees, n, carry="TRUE", greedy="FALSE"):
        return cfg(dict(Degrees="<- " + degrees, MaxInputs=n, MaxBlocks=2, BlockWords=16, OutWords=8, Word=32,
                        Offsets="{0, 1, 30, 31, 32, 200, 500}", Deltas="{0, 1, 7}", Carry=carry, Greedy=greedy),
                   invariants="InBounds Complete Right".split(), properties=["Ends"])
    for degrees, n in c.pick([("L841", 19), ("L16841", 33)],
                             [("L1", 9), ("L41", 22), ("L21", 13), ("L841", 43), ("L421", 22), ("L16841", 67)]):
        c.model(f"HashMany {degrees}", "HashMany", cfg_text=consts(degrees, n),
                what=f"up to {n} inputs of up to 2 blocks, counters with carries in every lane")
    c.model_fails("HashMany without a carry", "HashMany", cfg_text=consts("L841", 9, carry="FALSE"), what="counters wrong")
    c.model_fails("HashMany with a batch too many", "HashMany", cfg_text=consts("L41", 9, greedy="TRUE"), what="out of bounds")


def leak(c):
    def consts(program, length, alphabet):
        return cfg(dict(Program=f'"{program}"', Length=length, Alphabet="{" + ", ".join(map(str, range(alphabet))) + "}"),
                   invariants=["NothingLearnt", "Decides"], properties=["Ends"])
    for length, alphabet in c.pick([(2, 2), (3, 2)], [(2, 3), (3, 2), (4, 2)]):
        for program in ("fold", "chain"):
            c.model(f"Leak {program} {length} of {alphabet}", "Leak", cfg_text=consts(program, length, alphabet),
                    what=f"all pairs of secrets of {length} symbols out of {alphabet}, two runs side by side")
    for program in ("early", "halves", "skip", "table"):
        c.model_fails(f"Leak {program}", "Leak", cfg_text=consts(program, 2, 2), what="a shortcut or a table shows something of the secrets")


def work(c):
    def consts(way, chunk, blocks, calls):
        return cfg(dict(Way=f'"{way}"', ChunkBlocks=chunk, MaxBlocks=blocks, Pieces="{0, 1, 2, 3, 5, 8, 13, 21}", MaxCalls=calls),
                   invariants=["InProportion", "EachCall", "Room"])
    for chunk, blocks, calls in c.pick([(2, 40, 12), (4, 80, 10)], [(2, 200, 24), (4, 300, 20), (8, 300, 16)]):
        c.model(f"Work {blocks} blocks in chunks of {chunk}", "Work", cfg_text=consts("code", chunk, blocks, calls),
                what=f"up to {calls} calls with any of eight sizes of pieces")
    for way in ("eager", "again", "keep"):
        c.model_fails(f"Work {way}", "Work", cfg_text=consts(way, 4, 80, 10), what="more work or more room than there has to be")


def delivery(c):
    def run(way):
        return cfg(dict(Totals="{%s}" % ", ".join(map(str, range(c.pick(6, 9)))), Capacity=3, Way=f'"{way}"'),
                   invariants=["SuccessMeansTaken", "FailureMeansFull", "Beginning"], properties=["Ends"])
    c.model("Delivery", "Delivery", cfg_text=run("code"), what="every output of a few bytes, with lines in all places, and every room")
    for way in ("ignore", "drop", "leave", "short"):
        c.model_fails("Delivery " + way, "Delivery", cfg_text=run(way))
