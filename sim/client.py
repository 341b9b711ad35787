"""Runs functions in fresh forks of a zygote."""

import os
import select
import signal
import subprocess
import sys

from .zygote import recv, send

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class RunError(Exception):
    """The harness (not the library) failed."""


class Hang(RunError):
    pass


class Died(RunError):
    pass


class Client:
    def __init__(self, hashseed=0, timeout=60):
        self.hashseed = hashseed
        self.timeout = timeout
        self.proc = None
        self.calls = 0
        self.log = None

    def start(self):
        env = dict(os.environ)
        env["PYTHONHASHSEED"] = str(self.hashseed)
        env.pop("SIM_NOASLR", None)
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        env.pop("PYTHONPATH", None)
        flags = []
        if self.hashseed >= 1000:
            # a replica on a machine that is set up differently
            flags = ["-O"]
            env.update(TZ="Asia/Kathmandu", LC_ALL="C", HOME="/nonexistent",
                       COLUMNS="40", NO_COLOR="1", PYTHONUTF8="0")
        self.proc = subprocess.Popen(
            [sys.executable, "-s", *flags, "-m", "sim.zygote"], cwd=ROOT,
            env=env,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=self.log, bufsize=0, start_new_session=True)
        hello = self._recv()
        if hello.get("error"):
            raise RunError("library does not load:\n" + hello["error"])

    def _recv(self):
        fd = self.proc.stdout.fileno()
        r, _, _ = select.select([fd], [], [], self.timeout)
        if not r:
            self.kill()
            raise Hang("no answer within %d s" % self.timeout)
        try:
            return recv(fd)
        except EOFError:
            self.kill()
            raise Died("process ended without an answer")

    def call(self, fn, *args):
        if self.proc is None:
            self.start()
        self.calls += 1
        fd = self.proc.stdin.fileno()
        os.write(fd, b"x")
        send(fd, (fn, args))
        r = self._recv()
        if r[0] == "ok":
            return r[1]
        if r[0] == "died":
            self.kill()
            raise Died("child status %d" % r[1])
        raise RunError(r[1])

    def kill(self):
        if self.proc is not None:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except OSError:
                pass
            self.proc.wait()
            self.proc.stdin.close()
            self.proc.stdout.close()
            self.proc = None

    close = kill
