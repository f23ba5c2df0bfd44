"""Driver for capturing streams (C21).  Stream 1 is the process's own standard output,
redirected to a scratch file; stream 2 is another file."""
import os
import re
import shutil
import subprocess
import sys
import tempfile

import drv

import fv3gfs.util as util

PIECE = re.compile(rb"<(\d+):(\d+):([bt])>")
# what pieces are made of: for raw writes any bytes, for text streams any ASCII characters
ANY = bytes(range(256)) + b"\r\n\r\r\n\n\0\0\xff\xfe" + bytes(range(255, -1, -1))
TEXT = b"x \r\n\n\r\t\0\x1b[0m%s{}\\" + bytes(range(32, 127)) + b"\n\n"


class Leave(Exception):
    pass


class LeaveAtOnce(BaseException):
    pass


LEAVING = [Leave, KeyboardInterrupt, LeaveAtOnce, SystemExit, OSError]


def body(n, size, kind):
    base = ANY if kind == b"b" else TEXT
    start = (n * 37) % len(base)
    return (base[start:] + base * (size // len(base) + 1))[:size]


def piece(n, size, kind):
    return b"<%d:%d:%s>" % (n, size, kind) + body(n, size, kind)


def pieces(data):
    out, at = [], 0
    while at < len(data):
        m = PIECE.match(data, at)
        if not m:
            return out + [-1]
        n, size = int(m.group(1)), int(m.group(2))
        if data[m.end() : m.end() + size] != body(n, size, m.group(3)):
            return out + [-1]
        out.append(n)
        at = m.end() + size
    return out


def descriptors():
    out = set()
    for d in os.listdir("/proc/self/fd"):
        try:
            out.add((d, os.readlink("/proc/self/fd/" + d)))
        except OSError:
            pass
    return out


def write(stream, how, data, first):
    fd = stream.fileno()
    if how == "fork" or (how == "exec" and not first):
        pid = os.fork()
        if pid == 0:
            while data:
                data = data[os.write(fd, data) :]
            os._exit(0)
        os.waitpid(pid, 0)
    elif how == "exec":
        # inherits the standard output
        subprocess.run(["/bin/cat"], input=data, check=True)
    elif how == "fd":
        while data:
            data = data[os.write(fd, data) :]
    elif how == "print" and "b" not in stream.mode:
        print(data.decode(), end="", file=stream, flush=True)
    else:
        stream.write(data if "b" in stream.mode else data.decode())
        stream.flush()


def handle(sc):
    folder = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
    paths = [os.path.join(folder, "1"), os.path.join(folder, "2")]
    temp = os.path.join(folder, "t")
    os.mkdir(temp)
    tempfile.tempdir = os.environ["TMPDIR"] = temp
    saved = os.dup(1)
    f = os.open(paths[0], os.O_WRONLY | os.O_CREAT | (os.O_APPEND if sc["no"] % 2 else 0))
    os.dup2(f, 1)
    os.close(f)
    mode = {"append": "a", "plain": "w", "binary": "wb"}[sc["kind"]]
    streams = [sys.stdout, open(paths[1], mode)]
    cms, obs, results = [], [], []
    before = descriptors()
    try:
        for n, op in enumerate(sc["ops"], 1):
            r = {"error": False, "captured": [], "passed": False, "leaked": 0}
            s = streams[op["stream"] - 1]
            try:
                if op["op"] == "write":
                    write(s, op["how"], piece(n, op["size"], b"b" if op["how"] in ("fd", "fork", "exec") else b"t"), op["stream"] == 1)
                elif op["op"] == "enter":
                    cm = util.capture_stream(s)
                    cms.append((cm, cm.__enter__()))
                else:
                    cm, out = cms.pop(op["k"] - 1)
                    if op["exc"]:
                        leave = LEAVING[n % len(LEAVING)]
                        mine = leave()
                        try:
                            try:
                                raise mine
                            except leave as e:
                                if not cm.__exit__(leave, e, e.__traceback__):
                                    raise
                        except leave as e:
                            r["passed"] = e is mine
                    else:
                        cm.__exit__(None, None, None)
                    got = out.getvalue()
                    r["captured"] = pieces(got)
                    results.append((out, got))
            except Exception as e:
                r["error"] = True
                r["what"] = repr(e)
            r["orig"] = [pieces(open(p, "rb").read()) for p in paths]
            r["leaked"] = len(descriptors() ^ before) + len(os.listdir(temp)) if not cms else 0
            r["earlier"] = all(o.getvalue() == g for o, g in results)
            obs.append(r)
    finally:
        while cms:
            cms.pop()[0].__exit__(None, None, None)
        streams[1].close()
        os.dup2(saved, 1)
        os.close(saved)
        shutil.rmtree(folder)
    return {"obs": obs}


if __name__ == "__main__":
    drv.main(handle, limit=60)
