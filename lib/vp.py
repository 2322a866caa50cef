"""What every check needs: building, running the drivers, running TLC, and
reporting."""

import fcntl
import hashlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import struct
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla"
JARS = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
CORES = max(1, min(8, os.cpu_count() or 1))


class CheckError(Exception):
    """The check could not do its work; says nothing about the property."""


def cpu_flags():
    with open("/proc/cpuinfo") as f:
        for line in f:
            if line.startswith("flags"):
                return set(line.split(":")[1].split())
    return set()


CPU = cpu_flags()
HAS_SSE41 = "sse4_1" in CPU
HAS_AVX2 = "avx2" in CPU
HAS_AVX512 = {"avx512f", "avx512vl"} <= CPU


def sh(cmd, cwd=None, env=None, timeout=600, what=None):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        raise CheckError(f"{what or cmd}: exit {r.returncode}\n{r.stdout[-4000:]}")
    return r.stdout


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, f".{name}.lock")

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


# --------------------------------------------------------------------------
# Builds

def java_classes():
    """The TLC operator overrides."""
    with Lock("java"):
        out = os.path.join(BUILD, "java")
        src = os.path.join(VERIF, "java/bk/Ov.java")
        cls = os.path.join(out, "bk/Ov.class")
        if not os.path.exists(cls) or os.path.getmtime(cls) < os.path.getmtime(src):
            sh(["javac", "-cp", JARS, "-d", out, src], what="javac")
        return out


CONFIGS = {
    # name: (profile, features, hooks)
    "A": ("checked", [], True),
    "B": ("release", ["threads"], True),
    "C": ("checked", ["c_avx2"], True),
    # Instrumented by the compiler of the nightly toolchain.
    "D": ("checked", [], True),
}
SANITIZED = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:disable_coredump=1:allocator_may_return_null=1",
             "UBSAN_OPTIONS": "abort_on_error=1"}


class Driver:
    def __init__(self, path, hooks, features):
        self.path, self.hooks, self.features = path, hooks, features


def rust_driver(config):
    """Build the Rust driver in a configuration. If the hooks do not fit the
    working tree any more, it is built without them."""
    profile, features, want_hooks = CONFIGS[config]
    features = list(features)
    if config == "C" and HAS_AVX512:
        features = ["c_avx512"] + features
    with Lock("cargo-" + config):
        errors = []
        for hooks in ([True, False] if want_hooks else [False]):
            target = os.path.join(BUILD, f"cargo-{config}" + ("" if hooks else "-plain"))
            feats = features + (["hooks"] if hooks else [])
            env = {"CARGO_TARGET_DIR": target, "CARGO_NET_OFFLINE": "true",
                   "RUSTFLAGS": "--cfg baokeshed_verif" if hooks else ""}
            cmd = ["cargo", "build", "--offline", "--quiet", "--profile", profile]
            bin_dir = os.path.join(target, profile)
            if config == "D":
                cmd = ["cargo", "+nightly"] + cmd[1:] + ["--target", "x86_64-unknown-linux-gnu"]
                env["RUSTFLAGS"] += " -Zsanitizer=address"
                bin_dir = os.path.join(target, "x86_64-unknown-linux-gnu", profile)
            if feats:
                cmd += ["--features", ",".join(feats)]
            try:
                sh(cmd, cwd=os.path.join(VERIF, "harness"), env=env, what="cargo build (driver)")
                return Driver(os.path.join(bin_dir, "drive"), hooks, feats)
            except CheckError as e:
                errors.append(str(e))
        raise CheckError("\n".join(errors))


C_LEVELS = {"portable": [], "sse41": ["SSE41"], "avx2": ["SSE41", "AVX2"], "avx512": ["SSE41", "AVX2", "AVX512"]}
C_FLAGS = {"portable": [], "sse41": ["-msse4.1"], "avx2": ["-mavx2"], "avx512": ["-mavx512f", "-mavx512vl"]}


def c_back_ends():
    return ["portable"] + (["sse41"] if HAS_SSE41 else []) + (["avx2"] if HAS_AVX2 else []) \
        + (["avx512"] if HAS_AVX512 else [])


class CLib:
    """A build of the C code as a shared library."""

    def __init__(self, helpers, path, fast_forward):
        self.helpers, self.path, self.fast_forward = helpers, path, fast_forward

    def cmd(self):
        return [sys.executable, os.path.join(VERIF, "lib/cdrive.py"), self.helpers, self.path]


def c_library(level, opt=("-O3",), extra=(), cc="gcc", tag=""):
    """The hasher dispatching to a back end, and every back end up to it, for
    both word sizes."""
    name = f"c-{level}{tag}"
    with Lock(name):
        out = os.path.join(BUILD, name)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        base = [cc, "-std=c11", "-fPIC", "-g", "-D_GNU_SOURCE", "-w", *opt, *extra]
        objs, jobs = [], []
        for lv in ["portable"] + [x.lower() for x in C_LEVELS[level]]:
            for src in (f"c/baokeshed_{lv}.c", f"c64/baokeshed64_{lv}.c"):
                obj = os.path.join(out, os.path.basename(src) + ".o")
                jobs.append(base + C_FLAGS[lv] + ["-c", os.path.join(REPO, src), "-o", obj])
                objs.append(obj)
        helpers = os.path.join(out, "help.so")
        jobs.append(["gcc", "-O2", "-fPIC", "-shared", os.path.join(VERIF, "harness/c/help.c"), "-o", helpers])
        with ThreadPoolExecutor(CORES) as ex:
            list(ex.map(lambda j: sh(j, what="C compiler"), jobs))
        defines = [f"-DBAOKESHED_USE_{x}=1" for x in C_LEVELS[level]]
        main = os.path.join(out, "main.o")
        wrapper = os.path.join(VERIF, "harness/c/hasher.c")
        errors = []
        for src, more, ff in [(wrapper, [], True), (wrapper, ["-DVP_NO_FAST_FORWARD"], False),
                              (os.path.join(REPO, "c/baokeshed.c"), [], False)]:
            try:
                sh(base + defines + more + ["-I", REPO, "-c", src, "-o", main], what="C compiler")
                lib = os.path.join(out, "lib.so")
                sh([cc, "-shared", *opt, *extra, main, *objs, "-o", lib], what="C linker")
                return CLib(helpers, lib, ff)
            except CheckError as e:
                errors.append(str(e))
        raise CheckError("\n".join(errors))


def neon_library(opt="-O2", tag=""):
    """The C code as it is built for AArch64 with NEON, for this machine: compiled
    for AArch64 to LLVM's intermediate representation, which for this code has
    nothing of AArch64 in it but the names of the target, and from there to
    machine code for this one. None, and why, if that cannot be done."""
    name = "c-neon" + tag
    with Lock(name):
        out = os.path.join(BUILD, name)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(os.path.join(out, "inc/gnu"))
        # glibc's headers ask which of its variants are there.
        open(os.path.join(out, "inc/gnu/stubs.h"), "w").close()
        helpers = os.path.join(out, "help.so")
        sh(["gcc", "-O2", "-fPIC", "-shared", os.path.join(VERIF, "harness/c/help.c"), "-o", helpers], what="C compiler")
        wrapper = os.path.join(VERIF, "harness/c/hasher.c")
        errors = []
        for main, more, ff in [(wrapper, [], True), (wrapper, ["-DVP_NO_FAST_FORWARD"], False),
                               (os.path.join(REPO, "c/baokeshed.c"), [], False)]:
            try:
                objs = []
                for src in [main] + [os.path.join(REPO, f) for f in ("c/baokeshed_portable.c", "c/baokeshed_neon.c",
                                                                   "c64/baokeshed64_portable.c", "c64/baokeshed64_neon.c")]:
                    base = os.path.join(out, os.path.basename(src))
                    sh([CLANG, "--target=aarch64-linux-gnu", "-std=c11", opt, "-S", "-emit-llvm", "-fPIC", "-w", "-D_GNU_SOURCE",
                        "-DBAOKESHED_USE_NEON=1", *more, "-I", os.path.join(out, "inc"), "-I", REPO,
                        "-isystem", "/usr/include/x86_64-linux-gnu", src, "-o", base + ".ll"], what="clang for AArch64")
                    with open(base + ".ll") as f:
                        text = f.read()
                    if "llvm.aarch64" in text or " asm " in text:
                        raise CheckError("instructions of AArch64 without a general counterpart in " + src)
                    text = re.sub(r' "(target-cpu|target-features|tune-cpu)"="[^"]*"', "", text)
                    with open(base + ".ll", "w") as f:
                        f.write(text)
                    sh([CLANG, "--target=x86_64-linux-gnu", opt, "-fPIC", "-w", "-x", "ir", "-c", base + ".ll", "-o", base + ".o"],
                       what="clang for this machine")
                    objs.append(base + ".o")
                lib = os.path.join(out, "lib.so")
                sh([CLANG, "-shared", *objs, "-o", lib], what="C linker")
                return CLib(helpers, lib, ff), ""
            except CheckError as e:
                errors.append(str(e))
        return None, errors[0]


CLANG = "/usr/bin/clang"
PORT_C = [("harness/c/port.c", VERIF), ("c/baokeshed_portable.c", REPO), ("c64/baokeshed64_portable.c", REPO)]


def _port_dir(name):
    """A build directory, with what glibc's headers lack for other machines."""
    out = os.path.join(BUILD, name)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(os.path.join(out, "inc/gnu"))
    open(os.path.join(out, "inc/gnu/stubs.h"), "w").close()
    helpers = os.path.join(out, "help.so")
    sh(["gcc", "-O2", "-fPIC", "-shared", os.path.join(VERIF, "harness/c/help.c"), "-o", helpers], what="C compiler")
    return out, [sys.executable, os.path.join(VERIF, "lib/portdrive.py"), helpers]


def _port_try(out, wrap, cmd):
    """Whether a driver starts at all."""
    with open(os.path.join(out, "none"), "wb") as f:
        f.write(b"\0")
    sh(cmd + [os.path.join(out, "none"), os.path.join(out, "none.out")], what="a driver for another machine")
    return wrap + cmd


def _port_c(out, extra, src):
    return [CLANG, "-std=c11", "-w", "-D_GNU_SOURCE", *extra, "-I", os.path.join(out, "inc"), "-I", REPO,
            "-isystem", "/usr/include/x86_64-linux-gnu", "-isystem", "/usr/include", src]


def port_wasm():
    """The C code for WebAssembly, where addresses have 32 bits. A command and
    whether it can be moved to large positions, or None and why not."""
    out, wrap = _port_dir("port-wasm")
    errors = []
    for more, ff in [([], True), (["-DVP_NO_FAST_FORWARD"], False)]:
        try:
            objs = []
            for src, base in PORT_C:
                obj = os.path.join(out, os.path.basename(src) + ".o")
                own = ["-DVP_OWN_HEADERS", "-fno-builtin", *more] if base == VERIF else []
                sh(_port_c(out, ["--target=wasm32", "-O2", "-c", *own], os.path.join(base, src)) + ["-o", obj], what="clang for wasm32")
                objs.append(obj)
            wasm = os.path.join(out, "port.wasm")
            sh(["/usr/bin/wasm-ld", "--no-entry", "--export=port_main", "-z", "stack-size=1048576", "--allow-undefined", *objs, "-o", wasm],
               what="wasm-ld")
            return _port_try(out, wrap, ["node", os.path.join(VERIF, "harness/c/port.js"), wasm]), ff
        except (CheckError, OSError) as e:
            errors.append(str(e))
    return None, errors[0]


def _swap_bytes(text):
    """LLVM code for a big-endian machine, for one that is not: bytes are swapped
    wherever a number of several bytes goes to memory or comes from it."""
    def swapped(value, bits):
        return int.from_bytes((int(value) % (1 << bits)).to_bytes(bits // 8, "little"), "big")

    out, wide = [], {"i16": 16, "i32": 32, "i64": 64}
    for line in text.splitlines():
        if line.startswith(("target datalayout", "target triple")):
            continue
        m = re.match(r"(\s*)(%[\w.]+) = load (volatile )?(\S+), (.*)$", line)
        if m and m[4] in wide:
            out.append(f"{m[1]}%be.{m[2][1:]} = load {m[3] or ''}{m[4]}, {m[5]}")
            out.append(f"{m[1]}{m[2]} = call {m[4]} @llvm.bswap.{m[4]}({m[4]} %be.{m[2][1:]})")
            continue
        m2 = re.match(r"(\s*)store (volatile )?(\S+) (\S+), (.*)$", line)
        if m2 and m2[3] in wide:
            tmp = f"%be.s{len(out)}"
            out.append(f"{m2[1]}{tmp} = call {m2[3]} @llvm.bswap.{m2[3]}({m2[3]} {m2[4]})")
            out.append(f"{m2[1]}store {m2[2] or ''}{m2[3]} {tmp}, {m2[5]}")
            continue
        for x in (m and m[4], m2 and m2[3]):
            if x and x not in ("i1", "i8", "ptr"):
                raise CheckError("no way to swap the bytes of " + line)
        if re.match(r"@\S+ = ", line) and not re.search(r"= external ", line):
            line = re.sub(r"\b(i16|i32|i64) (-?\d+)", lambda k: f"{k[1]} {swapped(k[2], wide[k[1]])}", line)
        if "bitcast" in line or " asm " in line or "atomicrmw" in line:
            raise CheckError("no way to swap the bytes of " + line)
        line = re.sub(r' "(target-cpu|target-features|tune-cpu)"="[^"]*"', "", line)
        out.append(line)
    have = set(re.findall(r"^declare \S+ @llvm\.bswap\.(i\d+)", "\n".join(out), re.M))
    return "\n".join(out + [f"declare {x} @llvm.bswap.{x}({x})" for x in wide if x not in have]) + "\n"


def port_big_endian():
    """The C code for a big-endian machine."""
    out, wrap = _port_dir("port-be")
    errors = []
    for more, ff in [([], True), (["-DVP_NO_FAST_FORWARD"], False)]:
        try:
            objs = []
            for src, base in PORT_C:
                path = os.path.join(out, os.path.basename(src))
                own = ["-DVP_FILES", *more] if base == VERIF else []
                sh(_port_c(out, ["--target=aarch64_be-linux-gnu", "-march=armv8-a+nosimd", "-O1", "-fno-vectorize", "-fno-slp-vectorize",
                                 "-S", "-emit-llvm", *own], os.path.join(base, src)) + ["-o", path + ".ll"], what="clang for big-endian")
                with open(path + ".ll") as f:
                    text = _swap_bytes(f.read())
                with open(path + ".ll", "w") as f:
                    f.write(text)
                sh([CLANG, "--target=x86_64-linux-gnu", "-O2", "-w", "-x", "ir", "-c", path + ".ll", "-o", path + ".o"],
                   what="clang for this machine")
                objs.append(path + ".o")
            exe = os.path.join(out, "port")
            sh([CLANG, *objs, "-o", exe], what="C linker")
            return _port_try(out, wrap, [exe]), ff
        except (CheckError, OSError) as e:
            errors.append(str(e))
    return None, errors[0]


def port_rust(target, flags="", features=""):
    """The Rust code on another machine, or on this one with other extensions,
    interpreted."""
    out, wrap = _port_dir("port-" + target + features.replace(",", ""))
    errors = []
    base = {"CARGO_TARGET_DIR": os.path.join(out, "target"), "CARGO_NET_OFFLINE": "true",
            "MIRI_SYSROOT": os.path.join(BUILD, "miri-" + target)}
    try:
        with Lock("miri-" + target):
            sh(["cargo", "+nightly", "miri", "setup", "--target", target], env=base, what="the standard library for " + target)
    except CheckError as e:
        return None, str(e)
    for hooks in (True, False):
        env = dict(base, MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks " + (flags or "-Zmiri-disable-stacked-borrows -Zmiri-disable-validation"),
                   # (Inlined, it takes less time to interpret.)
                   RUSTFLAGS=("--cfg baokeshed_verif " if hooks else "") + (f"-C target-feature={features} " if features else "") + "-Zmir-opt-level=3 -Zinline-mir=yes "
                   "-Zinline-mir-threshold=5000 -Zinline-mir-hint-threshold=5000")
        wrapper = os.path.join(out, "run.sh")
        with open(wrapper, "w") as f:
            f.write("#!/bin/sh\n" + "".join(f"export {k}='{v}'\n" for k, v in env.items()) +
                    f"cd {VERIF}/harness/port && exec cargo +nightly miri run --quiet --offline --target {target}" +
                    (" --features hooks" if hooks else "") + ' -- "$@"\n')
        os.chmod(wrapper, 0o755)
        try:
            return _port_try(out, wrap, [wrapper]), hooks
        except (CheckError, OSError) as e:
            errors.append(str(e))
    return None, errors[0]


def walk_tool():
    """The tool that watches executions, for Valgrind; its directory."""
    with Lock("walk"):
        out, libs, here = os.path.join(BUILD, "walk"), "/usr/lib/x86_64-linux-gnu/valgrind", "/usr/libexec/valgrind"
        tool = os.path.join(out, "walk-amd64-linux")
        src = os.path.join(VERIF, "harness/walk/walk.c")
        if not os.path.exists(tool) or os.path.getmtime(tool) < os.path.getmtime(src):
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            for name in ("vgpreload_core-amd64-linux.so", "default.supp"):
                os.symlink(os.path.join(here, name), os.path.join(out, name))
            sh(["gcc", "-m64", "-O2", "-std=gnu99", "-fno-stack-protector", "-fno-strict-aliasing", "-fno-builtin", "-fno-pie", "-no-pie",
                "-DVGA_amd64=1", "-DVGO_linux=1", "-DVGP_amd64_linux=1", "-DVGPV_amd64_linux_vanilla=1", "-I/usr/include/valgrind",
                "-c", src, "-o", tool + ".o"], what="C compiler (tool for Valgrind)")
            sh(["gcc", "-m64", "-static", "-nodefaultlibs", "-nostartfiles", "-no-pie", "-u", "_start", "-Wl,-Ttext-segment=0x58000000",
                "-Wl,--build-id=none", tool + ".o"] + [os.path.join(libs, f"lib{x}-amd64-linux.a") for x in ("coregrind", "vex", "gcc-sup")] +
               ["-lgcc", "-o", tool], what="C linker (tool for Valgrind)")
        return out


LEAK = [sys.executable, os.path.join(VERIF, "lib/leakdrive.py")]


def leak_rust(profile):
    """The operations that are watched, and whether a back end can be chosen."""
    with Lock("leak-" + profile):
        errors = []
        for hooks in (True, False):
            target = os.path.join(BUILD, "leak-" + profile + ("" if hooks else "-plain"))
            try:
                sh(["cargo", "build", "--offline", "--quiet", "--profile", profile] + (["--features", "hooks"] if hooks else []),
                   cwd=os.path.join(VERIF, "harness/leak"),
                   env={"CARGO_TARGET_DIR": target, "CARGO_NET_OFFLINE": "true", "RUSTFLAGS": "--cfg baokeshed_verif" if hooks else ""},
                   what="cargo build (watched operations)")
                return LEAK + [os.path.join(target, "debug" if profile == "dev" else profile, "leak")], hooks
            except CheckError as e:
                errors.append(str(e))
        raise CheckError("\n".join(errors))


def leak_c(level, cc, opt):
    """The same for the C code."""
    out = os.path.join(BUILD, f"leak-c-{level}-{cc}{opt}")
    with Lock(os.path.basename(out)):
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        base = [cc, "-std=c11", "-w", opt, "-D_GNU_SOURCE", "-fno-builtin-memcmp"]
        objs = []
        for lv in ["portable"] + [x.lower() for x in C_LEVELS[level]]:
            for src in (f"c/baokeshed_{lv}.c", f"c64/baokeshed64_{lv}.c"):
                objs.append(os.path.join(out, os.path.basename(src) + ".o"))
                sh(base + C_FLAGS[lv] + ["-c", os.path.join(REPO, src), "-o", objs[-1]], what="C compiler")
        exe = os.path.join(out, "leak")
        step = []
        if level == "avx512":
            # Valgrind does not know its instructions: the program steps itself.
            step = ["-static", f'-DSTEP="{exe}.table"']
        sh(base + step + [f"-DBAOKESHED_USE_{x}=1" for x in C_LEVELS[level]] + [f"-DLEVEL={level}", "-I", REPO,
           "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc", "-pthread", os.path.join(VERIF, "harness/c/leak.c"), *objs, "-o", exe], what="C compiler")
        if step:
            address_registers(exe, exe + ".table")
        return LEAK + ["--no-valgrind"] * bool(step) + [exe]


def address_registers(exe, table):
    """Writes down which registers every instruction of a program makes addresses
    of, by where they are in a ucontext."""
    order = "r8 r9 r10 r11 r12 r13 r14 r15 rdi rsi rbp rbx rdx rax rcx rsp".split()
    number = {}
    for i, r in enumerate(order):
        number["%" + r] = number["%" + r.replace("r", "e", 1) if not r[1:].isdigit() else "%" + r + "d"] = i + 1
    at = {}
    for line in sh(["objdump", "-d", "--no-show-raw-insn", exe], what="objdump").splitlines():
        m = re.match(r"\s+([0-9a-f]+):\s+(.*)", line)
        if not m:
            continue
        used = []
        if not re.search(r"\b(lea[lqw]?|nop[lw]?|prefetch\w*)\b", m[2]):
            for operand in re.findall(r"\(([^)]*)\)", m[2]):
                used += [number[r] for r in operand.split(",") if r in number]
        at[int(m[1], 16)] = used[:4]
    first = min(at)
    entries = bytearray(4 * (max(at) - first + 1))
    for a, used in at.items():
        entries[4 * (a - first):4 * (a - first) + len(used)] = bytes(used)
    with open(table, "wb") as f:
        f.write(struct.pack("<QQ", first, len(entries) // 4) + entries)


def cli_tool(profile="release"):
    """The command-line tool."""
    with Lock("cli"):
        target = os.path.join(BUILD, "cli")
        sh(["cargo", "build", "--offline", "--quiet"] + (["--release"] if profile == "release" else []),
           cwd=os.path.join(REPO, "baokeshed_bin"),
           env={"CARGO_TARGET_DIR": target, "CARGO_NET_OFFLINE": "true", "RUSTFLAGS": ""}, what="cargo build (tool)")
        helpers = os.path.join(target, "help.so")
        sh(["gcc", "-O2", "-fPIC", "-shared", os.path.join(VERIF, "harness/c/help.c"), "-o", helpers], what="C compiler")
        return [sys.executable, os.path.join(VERIF, "lib/clidrive.py"), helpers,
                os.path.join(target, profile if profile == "release" else "debug", "baokeshed")]


# --------------------------------------------------------------------------
# Running scenarios

def _run_shard(args):
    cmd, env, scenarios, workdir, idx, timeout = args
    src = os.path.join(workdir, f"in{idx}.json")
    dst = os.path.join(workdir, f"out{idx}.json")
    pending = list(scenarios)
    open(dst, "w").close()
    crashes = 0
    done_lines = 0
    while pending:
        with open(src, "w") as f:
            for s in pending:
                f.write(json.dumps(s) + "\n")
        p = subprocess.Popen(cmd + [src, dst], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                             env=dict(os.environ, **env), start_new_session=True)
        try:
            _, err = p.communicate(timeout=timeout)
            code = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            err, code = b"", "timeout"
        if code == 0:
            break
        if code == 3 or (isinstance(code, int) and code > 0 and code not in (134, 101)):
            raise CheckError(f"driver failed ({code}): {err.decode(errors='replace')[-2000:]}")
        # The scenario after the last one written brought the process down.
        with open(dst, "rb") as f:
            data = f.read()
        keep = data.rfind(b"\n") + 1
        lines = data[:keep].splitlines()
        ids = {json.loads(x)["id"].split("/")[0] for x in lines[done_lines:]}
        n = 0
        while n < len(pending) and pending[n]["id"].split("/")[0] in ids:
            n += 1
        if n == len(pending):
            raise CheckError(f"driver ended with {code} after its last scenario")
        bad = dict(pending[n])
        bad.pop("threads", None)
        bad["script"] = bad.get("ev")
        bad["ev"] = [{"op": "crash", "crash": str(code)}]
        with open(dst, "wb") as f:
            f.write(data[:keep] + json.dumps(bad).encode() + b"\n")
        done_lines = len(lines) + 1
        pending = pending[n + 1:]
        crashes += 1
        if crashes > 3:
            break
    return dst


def run_driver(cmd, scenarios, workdir, env=None, timeout=240, shards=None):
    """Run scenarios through a driver, several processes at a time; returns the
    recorded traces in the order of the scenarios."""
    shards = max(1, min(shards or CORES, len(scenarios)))
    parts = [scenarios[i::shards] for i in range(shards)]
    jobs = [(cmd, env or {}, part, workdir, i, timeout) for i, part in enumerate(parts)]
    with ThreadPoolExecutor(shards) as ex:
        outs = list(ex.map(_run_shard, jobs))
    traces = []
    for path in outs:
        with open(path) as f:
            traces += [json.loads(x) for x in f]
        os.remove(path)
    return traces


# --------------------------------------------------------------------------
# TLC

def _errors(out):
    """The part of TLC's output that says what went wrong."""
    lines = [x[:400] for x in out.splitlines()
             if not x.startswith(("Parsing file", "Semantic processing", "Linting of", '"{'))]
    first = next((i for i, x in enumerate(lines) if "rror" in x), max(0, len(lines) - 40))
    return "\n".join(lines[max(0, first - 3):first + 40])


class TlcResult:
    def __init__(self, out, code):
        self.out, self.code = out, code
        short = "\n".join(x for x in out.splitlines() if len(x) < 500)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", short)
        self.generated, self.distinct = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        m = re.findall(r"The number of states generated: ([\d,]+)", short)
        if m and not self.generated:
            self.generated = int(m[-1].replace(",", ""))
        self.ok = code == 0 and "Model checking completed. No error" in out
        self.deadlock = "Deadlock reached" in out
        self.prints = []
        for line in out.splitlines():
            if line.startswith('"{') and line.endswith('}"'):
                try:
                    self.prints.append(json.loads(json.loads(line)))
                except ValueError:
                    pass


def tlc(module, cfg=None, env=None, workers=None, args=(), timeout=800, xss="64m", heap="8g",
        deadlock=True, cfg_text=None, workdir=None):
    classes = java_classes()
    with tempfile.TemporaryDirectory(dir=workdir) as meta:
        if cfg_text is not None:
            cfg = os.path.join(meta, "model.cfg")
            with open(cfg, "w") as f:
                f.write(cfg_text)
        cmd = ["java", f"-Xss{xss}", f"-Xmx{heap}", "-XX:+UseParallelGC", f"-Djava.io.tmpdir={meta}",
               "-Dtlc2.overrides.TLCOverrides=bk.Ov:tlc2.overrides.TLCOverrides",
               "-cp", f"{classes}:{JARS}", "tlc2.TLC", "-noGenerateSpecTE", "-nowarning",
               "-workers", str(workers or CORES), "-metadir", meta,
               "-config", cfg or module + ".cfg"]
        if not deadlock:
            cmd.append("-deadlock")
        cmd += list(args) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError(f"TLC ran out of its {timeout} s on {module}")
        return TlcResult(r.stdout, r.returncode)


# --------------------------------------------------------------------------
# A check

class Check:
    def __init__(self, prop, level="model_checking", technique=None):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.thorough = self.tier == "thorough"
        self.rng = random.Random(f"{prop}/{self.seed}")
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.parts = []          # what was covered, part by part
        self.samples = []
        self.violations = []
        self.known = []
        self.assumptions = []
        self.events = 0
        self.work = tempfile.mkdtemp(prefix=f"vp-{prop}-")

    def log(self, text):
        print(f"[{time.time() - self.t0:6.1f}s] {text}", flush=True)

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- model checking proper: properties of the specification itself

    def model(self, name, module, cfg=None, cfg_text=None, what="", **kw):
        r = tlc(module, cfg, cfg_text=cfg_text, workdir=self.work, **kw)
        if not r.ok:
            raise CheckError(f"the specification {module} does not check:\n{_errors(r.out)}")
        self.states += r.distinct
        self.transitions += r.generated
        self.parts.append({"part": name, "kind": "specification model-checked", "module": module,
                           "what": what, "distinct_states": r.distinct, "states_generated": r.generated})
        self.log(f"model {name}: {r.distinct} distinct states")
        return r

    def model_fails(self, name, module, cfg_text, what="", **kw):
        """A weakened specification, which has to fail: a test of the properties
        that are checked on it."""
        r = tlc(module, cfg_text=cfg_text, workdir=self.work, **kw)
        if r.ok or not re.search("is violated|Assert evaluated to FALSE|Temporal properties were violated|Deadlock reached", r.out):
            raise CheckError(f"{name}: the weakened specification {module} does not fail:\n{_errors(r.out)}")
        self.parts.append({"part": name, "kind": "weakened specification, found to fail", "module": module, "what": what})
        self.log(f"model {name}: fails, as it has to")

    def generate(self, name, module, cfg=None, what="", **kw):
        """Behaviours of the specification, printed by TLC as JSON."""
        r = tlc(module, cfg, workdir=self.work, **kw)
        if r.code != 0 and not (kw.get("args") and "-simulate" in kw["args"]):
            raise CheckError(f"generating from {module} failed:\n{_errors(r.out)}")
        if not r.prints:
            raise CheckError(f"{module} generated nothing:\n{_errors(r.out)}")
        self.states += r.distinct
        self.transitions += r.generated
        self.parts.append({"part": name, "kind": "behaviours generated from the specification",
                           "module": module, "what": what, "behaviours": len(r.prints),
                           "distinct_states": r.distinct})
        self.log(f"generated {name}: {len(r.prints)} behaviours")
        return r.prints

    # -- conformance

    def run(self, driver, scenarios, env=None, timeout=240, shards=None):
        cmd = [driver.path] if isinstance(driver, Driver) else driver
        return run_driver(cmd, scenarios, self.work, env, timeout, shards)

    def judge(self, name, module, traces, cfg=None, what="", workers=None, env=None, known=None):
        """Check recorded traces against a trace specification. known(trace,
        mismatch) names a listed finding that a mismatch is an instance of."""
        if not traces:
            return
        path = os.path.join(self.work, f"traces-{len(self.parts)}.json")
        left = list(traces)
        # Longest first spreads the work evenly.
        found = 0
        states = 0
        while left:
            with open(path, "w") as f:
                for tr in left:
                    slim = {k: v for k, v in tr.items() if k in ("id", "ev", "cfg")}
                    f.write(json.dumps(slim) + "\n")
            e = {"TRACES": path}
            e.update(env or {})
            r = tlc(module, cfg or "Trace.cfg", env=e, workdir=self.work, workers=workers)
            states += r.distinct
            if r.ok:
                break
            bad = [p for p in r.prints if "mismatch" in p]
            if not bad and not r.deadlock:
                raise CheckError(f"TLC failed on {module}:\n{_errors(r.out)}")
            if not bad:
                raise CheckError(f"{module} rejects a trace without saying why:\n{_errors(r.out)}")
            ids = {p["mismatch"]: p for p in bad}
            for i, m in ids.items():
                tr = next(t for t in left if t["id"] == i)
                finding = known(tr, m) if known else None
                if finding:
                    self.known_finding(finding)
                else:
                    self.violation(tr, m, module)
                    found += 1
            left = [t for t in left if t["id"] not in ids]
            if found:
                break
        os.remove(path)
        self.states += states
        self.transitions += states
        self.traces += len(traces)
        self.events += sum(len(t["ev"]) for t in traces)
        if len(self.samples) < 12:
            self.samples.append(_shorten(traces[self.rng.randrange(len(traces))]))
        self.parts.append({"part": name, "kind": "recorded traces checked against the specification",
                           "module": module, "what": what, "traces": len(traces),
                           "events": sum(len(t["ev"]) for t in traces), "distinct_states": states,
                           "rejected": found})
        self.log(f"judged {name}: {len(traces)} traces, {sum(len(t['ev']) for t in traces)} events, "
                 f"{found} rejected")

    def rejects(self, module, traces, cfg=None):
        """Whether a trace specification rejects any of some traces; nothing is
        reported."""
        path = os.path.join(self.work, "probe.json")
        with open(path, "w") as f:
            for tr in traces:
                f.write(json.dumps(slim(tr)) + "\n")
        r = tlc(module, cfg or "Trace.cfg", env={"TRACES": path}, workdir=self.work)
        os.remove(path)
        if not r.ok and not any("mismatch" in p for p in r.prints):
            raise CheckError(f"TLC failed on {module}:\n{_errors(r.out)}")
        return not r.ok

    def hook_fits(self, name, real, hooked):
        """A hook puts the code into a state that it could have come to by
        itself. On a tree that keeps its state in another way it may not; where
        both ways are open, they have to lead to the same. If only what the
        hook leads to is rejected, then it is the hook that is wrong."""
        if not self.rejects("ApiTrace", hooked) or self.rejects("ApiTrace", real):
            return True
        self.assumptions.append(f"the hook does not fit this tree: {name} is not covered")
        self.log(f"the hook does not fit this tree: {name} is left out")
        return False

    def violation(self, trace, mismatch, module):
        os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
        blob = json.dumps({"property": self.prop, "module": module, "mismatch": mismatch,
                           "trace": trace}, indent=1)
        name = f"{self.prop}-{hashlib.sha256(blob.encode()).hexdigest()[:12]}.json"
        path = os.path.join(BUILD, "replay", name)
        with open(path, "w") as f:
            f.write(blob + "\n")
        self.violations.append(path)
        print("  rejected:", json.dumps(_shorten(mismatch))[:1500], flush=True)

    def known_finding(self, what):
        if what not in self.known:
            self.known.append(what)
            print(f"KNOWN-FINDING: property={self.prop} {what}", flush=True)

    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "events_validated": self.events,
               "samples": self.samples or ["none"], "parts": self.parts}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", f".{self.prop}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        os.replace(tmp, os.path.join(VERIF, "evidence", f"{self.prop}.json"))
        for path in self.violations[:5]:
            print(f"VIOLATION property={self.prop} replay={path}", flush=True)
        self.log(f"{self.prop}: {'VIOLATED' if self.violations else 'held on everything explored'} "
                 f"({self.traces} traces, {self.states} states)")
        return 1 if self.violations else 0

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)


def _shorten(x, limit=400):
    if isinstance(x, str):
        return x if len(x) <= limit else x[:limit // 2] + f"...({len(x)})..." + x[-limit // 4:]
    if isinstance(x, list):
        y = [_shorten(v, limit) for v in x[:16]]
        return y + [f"... {len(x)} in all"] if len(x) > 16 else y
    if isinstance(x, dict):
        return {k: _shorten(v, limit) for k, v in x.items()}
    return x


def slim(trace):
    return {k: v for k, v in trace.items() if k in ("id", "ev")}


def limbs(x):
    return [(x >> (16 * i)) & 0xFFFF for i in range(4)]
