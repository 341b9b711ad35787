"""Pristine process that imports the library once and forks one child per
simulated execution, so that no execution sees what another left behind."""

import ctypes
import importlib
import os
import pickle
import struct
import sys


def no_aslr():
    """Addresses are an input too: make them repeatable where permitted."""
    if os.environ.get("SIM_NOASLR"):
        return
    os.environ["SIM_NOASLR"] = "1"
    try:
        libc = ctypes.CDLL(None, use_errno=True)
        if libc.personality(0x0040000) == -1:
            return
    except Exception:
        return
    os.execv(sys.executable, [sys.executable] + sys.orig_argv[1:])


def read_exact(fd, n):
    out = b""
    while len(out) < n:
        b = os.read(fd, n - len(out))
        if not b:
            raise EOFError
        out += b
    return out


def send(fd, obj):
    b = pickle.dumps(obj, 4)
    b = struct.pack("<I", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def recv(fd):
    n, = struct.unpack("<I", read_exact(fd, 4))
    return pickle.loads(read_exact(fd, n))


def main():
    no_aslr()
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent-sim-cache"
    sys.path.insert(0, "/repo/src")
    inp, out = 0, 3
    os.dup2(1, out)
    os.dup2(2, 1)               # anything printed goes to stderr
    from . import core
    core.patch()
    import threading
    import _thread
    _thread.stack_size(64 << 20)
    err = None
    try:
        from . import build
        L = build.lib()
        for m in (L.r, L.seq, L.sl, L.lexer, L.prim, L.layout):
            if not m.__file__.startswith("/repo/src/reparsec"):
                raise ImportError("wrong library: " + m.__file__)
        core.patch_id()
        core.instrument()
        from . import world    # noqa: F401
        from . import props    # noqa: F401
    except BaseException as e:
        import traceback
        err = "".join(traceback.format_exception(e))
    if threading.active_count() != 1 and err is None:
        err = "the library started threads at import"
    import gc
    gc.collect()
    gc.freeze()
    gc.disable()
    send(out, {"hello": True, "error": err})
    if err:
        return 1
    while True:
        try:
            b = os.read(inp, 1)
        except OSError:
            return 0
        if not b:
            return 0
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                fn, args = recv(inp)
                mod, name = fn.rsplit(".", 1)
                f = getattr(importlib.import_module(mod), name)
                try:
                    r = ("ok", f(*args))
                except BaseException as e:
                    import traceback
                    r = ("err", "".join(traceback.format_exception(e)))
                send(out, r)
            except BaseException:
                code = 3
            finally:
                os._exit(code)
        _, st = os.waitpid(pid, 0)
        if st:
            # the child died before it answered
            try:
                send(out, ("died", st))
            except OSError:
                return 0


if __name__ == "__main__":
    sys.exit(main())
