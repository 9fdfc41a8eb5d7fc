import atexit
import os
import signal
import subprocess
import threading
import time


LIVE = set()


def _kill_all():
    for j in list(LIVE):
        j.kill()


atexit.register(_kill_all)


class Job:
    """A child process with its output captured, killed (with its group) at its time limit."""

    def __init__(self, cmd, timeout, env=None, cwd=None, **kw):
        self.cmd, self.limit = cmd, timeout
        self.timed_out = False
        self.t0 = time.time()
        self.p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, env=env, cwd=cwd,
                                  start_new_session=True, **kw)
        self.out, self.err = b"", b""
        LIVE.add(self)
        self.t = threading.Thread(target=self._read, daemon=True)
        self.t.start()

    def _read(self):
        self.out, self.err = self.p.communicate()
        LIVE.discard(self)

    def wait(self):
        self.t.join(max(0.1, self.limit - (time.time() - self.t0)))
        if self.t.is_alive():
            self.timed_out = True
            self.kill()
            self.t.join(20)
        self.wall = time.time() - self.t0
        return self

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass

    @property
    def rc(self):
        return self.p.returncode

    @property
    def stdout(self):
        return self.out.decode("utf-8", "replace")

    @property
    def stderr(self):
        return self.err.decode("utf-8", "replace")


def run(cmd, timeout, **kw):
    return Job(cmd, timeout, **kw).wait()


def pool(cmds, width, timeout, **kw):
    """Runs the commands, at most `width` at once; returns the finished jobs in the same order."""
    i = 0
    todo = list(cmds)
    lock = threading.Lock()
    results = [None] * len(todo)

    def worker():
        nonlocal i
        while True:
            with lock:
                if i >= len(todo):
                    return
                k = i
                i += 1
            results[k] = run(todo[k], timeout, **kw)

    ts = [threading.Thread(target=worker) for _ in range(min(width, len(todo)))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return results
