#!/usr/bin/env python3
"""Runs the command-line tool and records what came out.

usage: clidrive.py HELPERS TOOL IN OUT

Every invocation runs in a scratch directory of its own, which holds the files
its inputs name."""
import ctypes
import fcntl
import json
import os
import pty
import resource
import selectors
import shutil
import signal
import socket
import subprocess
import sys
import tempfile
import threading
import time
import tty

help_ = ctypes.CDLL(sys.argv[1])
help_.vp_fill.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_uint, ctypes.c_uint64, ctypes.c_uint32]
TOOL = sys.argv[2]
LONG = 1 << 20          # lines beyond this are not recorded whole
HEAD = 4096             # hex digits of them that are
PATIENCE = 100


def pieces(content, step=1 << 22):
    """The bytes of a content, in pieces; None stands for that many zeros."""
    if "hex" in content:
        yield bytes.fromhex(content["hex"])
        return
    a, b = 0, 0
    for seg in content["segs"]:
        kind, n = seg[0], seg[1] + 2048 * (seg[2] if len(seg) == 3 else 0)
        while n > 0:
            k = min(n, step if kind else 1 << 40)
            if kind == 0:
                yield k
            else:
                buf = ctypes.create_string_buffer(k)
                help_.vp_fill(buf, k, kind, a, b)
                yield buf.raw
            a, b = a + (b + k) // 2048, (b + k) % 2048
            n -= k


def write_file(path, content):
    with open(path, "wb") as f:
        for p in pieces(content):
            if isinstance(p, int):
                f.seek(p, os.SEEK_CUR)
            else:
                f.write(p)
        f.truncate(f.tell())


def feed(fd, content, sizes, pause, stop):
    """Write a content to a pipe in pieces of the sizes given, in turn."""
    i = 0
    zeros = bytes(1 << 20)
    try:
        for p in pieces(content):
            left = p if isinstance(p, int) else len(p)
            at = 0
            while left and not stop.is_set():
                k = min(left, sizes[i % len(sizes)], len(zeros))
                data = zeros[:k] if isinstance(p, int) else p[at:at + k]
                while data:
                    data = data[os.write(fd, data):]
                at, left, i = at + k, left - k, i + 1
                if pause and i < 40:
                    time.sleep(pause)
    except OSError:
        pass
    finally:
        os.close(fd)


def feed_fifo(path, content, sizes, pause, stop):
    while not stop.is_set():
        try:
            fd = os.open(path, os.O_WRONLY | os.O_NONBLOCK)
        except OSError:
            time.sleep(0.001)
            continue
        os.set_blocking(fd, True)
        feed(fd, content, sizes, pause, stop)
        return


class World:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vp-cli-")
        self.stop = threading.Event()
        self.threads, self.open, self.made = [], [], set()

    def thread(self, f, *a):
        t = threading.Thread(target=f, args=a, daemon=True)
        t.start()
        self.threads.append(t)

    def make(self, f):
        """Put what an input names in place."""
        m = f.get("make")
        name = f["name"]
        if m["kind"] == "there" or name in self.made:
            return
        self.made.add(name)
        path = os.path.join(self.dir, name)
        kind = m["kind"]
        if kind not in ("missing", "notdir") and os.path.dirname(name):
            os.makedirs(os.path.dirname(path), exist_ok=True)
        if kind == "file":
            write_file(path, f["content"])
        elif kind == "link":
            write_file(path + ".target", f["content"])
            os.symlink(os.path.basename(path) + ".target", path)
        elif kind == "fifo":
            os.mkfifo(path)
            self.thread(feed_fifo, path, f["content"], m.get("sizes", [65536]), m.get("pause", 0), self.stop)
        elif kind == "dir":
            os.makedirs(path, exist_ok=True)
        elif kind == "notdir":          # a file where a directory would have to be
            write_file(os.path.join(self.dir, "plain"), {"segs": [[2, 5]]})
        elif kind == "loop":
            os.symlink(os.path.basename(path), path)
        elif kind == "dangling":
            os.symlink("nowhere", path)
        elif kind == "socket":
            s = socket.socket(socket.AF_UNIX)
            s.bind(path)
            self.open.append(s)
        elif kind != "missing":
            sys.exit(3)

    def stdin(self, f):
        m = f.get("make", {"kind": "null"})
        kind = m["kind"]
        if kind == "null":
            return os.open("/dev/null", os.O_RDONLY)
        if kind == "file":
            # A file whoever opened it may have read some of already.
            path = os.path.join(self.dir, ".stdin")
            before = m.get("before", 0)
            write_file(path, f["content"] if not before else {"hex": (b"\xa5" * before).hex()})
            if before:
                write_file(path + "-", f["content"])
                with open(path + "-", "rb") as src, open(path, "ab") as dst:
                    shutil.copyfileobj(src, dst)
            fd = os.open(path, os.O_RDONLY)
            os.lseek(fd, before, os.SEEK_SET)
            return fd
        if kind == "dir":
            return os.open(self.dir, os.O_RDONLY)
        r, w = os.pipe()
        if kind == "pipe":
            self.thread(feed, w, f["content"], m.get("sizes", [65536]), m.get("pause", 0), self.stop)
            return r
        os.close(r), os.close(w)
        if kind == "socket":
            a, b = socket.socketpair()
            self.thread(feed, b.detach(), f["content"], m.get("sizes", [65536]), m.get("pause", 0), self.stop)
            return a.detach()
        if kind == "terminal":          # reads fail as soon as the other side is gone and its data read
            master, slave = pty.openpty()
            tty.setraw(slave)
            self.thread(feed, slave, f.get("made", f["content"]), [500], 0, self.stop)
            return master
        sys.exit(3)

    def close(self):
        self.stop.set()
        for t in self.threads:
            t.join(10)
        for s in self.open:
            s.close()
        shutil.rmtree(self.dir, ignore_errors=True)


def limiting(limits):
    """What the tool may have little of: data, addresses, descriptors."""
    def limit():
        for name, n in limits.items():
            resource.setrlimit(getattr(resource, "RLIMIT_" + name.upper()), (n, n))
    return limit


class Lines:
    """Standard output, split into lines; long ones are kept in part."""

    def __init__(self):
        self.events = []
        self.start()

    def start(self):
        self.head, self.n, self.tail = b"", 0, b""

    def add(self, data):
        while data:
            cut = data.find(b"\n")
            part = data if cut < 0 else data[:cut]
            if self.n + len(part) <= LONG:
                self.head += part
            else:
                self.tail = (self.tail + part)[-3 * HEAD:]
            self.n += len(part)
            if cut < 0:
                return
            data = data[cut + 1:]
            self.end()

    def end(self):
        if self.n <= LONG:
            self.events.append({"op": "line", "text": self.head.decode(errors="replace")})
        else:
            # The tail begins at a multiple of 64 bytes of the digest.
            at = self.n - min(len(self.tail), 3 * HEAD)
            at += -at % 128
            self.events.append({"op": "line", "text": self.head[:HEAD].decode(errors="replace"), "at": limbs(at // 2),
                                "tail": self.tail[-(self.n - at):].decode(errors="replace") if at < self.n else ""})
        self.start()


def limbs(x):
    return [(x >> (16 * i)) & 0xFFFF for i in range(4)]


def prepared(world, e):
    """The command line, with the files it names made."""
    for f in e["inputs"]:
        world.make(f)
    args = []
    places = e.get("places", [0])
    words = [[] for _ in range(len(e["inputs"]) + 1)]
    for i, (name, value) in enumerate(e["opts"]):
        where = min(places[i % len(places)], len(e["inputs"]))
        if name == "other":
            words[where] += value.split("\t")
        elif name in ("help", "version"):
            words[where].append("--" + name)
        elif e.get("apart"):
            words[where] += ["--" + name, value]
        else:
            words[where].append(f"--{name}={value}")
    for i, f in enumerate(e["inputs"]):
        args += words[i]
        if e.get("ddash") == i:         # what follows is an input in any case
            args.append("--")
        # (Names that are not UTF-8 are Latin-1.)
        args.append(f["name"].encode("latin-1") if f.get("latin1") else f["name"])
    return args + words[-1]


def invoke(e):
    world = World()
    try:
        args = prepared(world, e)
        fd = world.stdin(e["stdin"])
        p = subprocess.Popen([TOOL] + args, stdin=fd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             cwd=world.dir, start_new_session=True,
                             preexec_fn=limiting(e.get("limits", {})))
        os.close(fd)
        lines = Lines()
        sel = selectors.DefaultSelector()
        sel.register(p.stdout, selectors.EVENT_READ, "out")
        sel.register(p.stderr, selectors.EVENT_READ, "err")
        err = b""
        deadline = time.time() + e.get("patience", PATIENCE)
        hung = cut = False
        while sel.get_map() and not cut:
            ready = sel.select(max(0, deadline - time.time()))
            if not ready:
                hung = True
                break
            for key, _ in ready:
                data = os.read(key.fd, 1 << 20)
                if not data:
                    sel.unregister(key.fileobj)
                elif key.data == "err":
                    err = (err + data)[-2000:]
                else:
                    lines.add(data)
                    cut = "cut" in e and lines.n >= e["cut"]
        if hung or cut:
            os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        p.stdout.close(), p.stderr.close()
        events = lines.events
        if cut:
            events.append({"op": "line", "text": lines.head[:e["cut"] & ~1].decode(errors="replace"), "cut": True})
        elif hung:
            events.append({"op": "hung"})
        else:
            if lines.n:
                lines.end()
                events[-1]["unfinished"] = True
            events.append({"op": "end", "success": p.returncode == 0, "rc": p.returncode})
        e["stderr"] = err.decode(errors="replace")[-300:]
        return [e] + events
    finally:
        world.close()


CAPACITY = 4096         # of a pipe, at the least


def deliver(e):
    """Runs the tool twice: with a standard output that takes everything, and with
    one that takes some and then no more."""
    sink, k = e["sink"], e.get("room", 0)
    for i in range(2):
        world = World()
        try:
            args = prepared(world, e)
            fd = world.stdin(e["stdin"])
            path, r = os.path.join(world.dir, ".out"), None

            def limit():
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                if sink == "file" and i:
                    resource.setrlimit(resource.RLIMIT_FSIZE, (k, k))
            if sink == "file" or not i:
                w = os.open(path, os.O_WRONLY | os.O_CREAT, 0o600)
            elif sink == "full":
                w = os.open("/dev/full", os.O_WRONLY)
            else:
                if sink == "socket":
                    a, b = socket.socketpair()
                    r, w = a.detach(), b.detach()
                else:
                    r, w = os.pipe()
                    if fcntl.fcntl(w, fcntl.F_SETPIPE_SZ, CAPACITY) != CAPACITY:
                        sys.exit(3)
                if sink == "nonblocking":
                    os.set_blocking(w, False)
                elif sink in ("gone", "socket"):
                    os.close(r)
                    r = None
            p = subprocess.Popen([TOOL] + args, stdin=fd, stdout=w, stderr=subprocess.PIPE, cwd=world.dir, start_new_session=True,
                                 preexec_fn=limit)
            os.close(w), os.close(fd)
            text = b""
            if i and sink == "pipe":
                while len(text) < k:
                    data = os.read(r, k - len(text))
                    if not data:
                        break
                    text += data
                os.close(r)
            try:
                err = p.communicate(timeout=PATIENCE)[1]
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.communicate()
                e["hung"] = True
                return [e]
            if sink == "file" or not i:
                with open(path, "rb") as f:
                    text = f.read()
            elif sink == "nonblocking":
                while True:
                    data = os.read(r, 65536)
                    if not data:
                        break
                    text += data
                os.close(r)
            # (A character is a byte here.)
            e[["all", "some"][i]] = {"text": text.decode("latin-1"), "success": p.returncode == 0, "rc": p.returncode}
            e["stderr"] = err.decode(errors="replace")[-300:]
        finally:
            world.close()
    e["capacity"] = CAPACITY if sink in ("pipe", "nonblocking") else 0
    return [e]


with open(sys.argv[3]) as src, open(sys.argv[4], "a") as dst:
    for line in src:
        sc = json.loads(line)
        sc["ev"] = (deliver if sc["ev"][0]["op"] == "deliver" else invoke)(sc["ev"][0])
        dst.write(json.dumps(sc) + "\n")
        dst.flush()
