"""Runs tasks in forked children of this (clean) process: no task can disturb another, a task
that dies or hangs is an outcome like any other, and results come back in task order."""
import os
import pickle
import select
import signal
import struct
import time
import traceback


class Died:
    """The outcome of a task whose process did not return a result."""

    def __init__(self, how):
        self.how = how

    def __repr__(self):
        return f"Died({self.how})"

    def __eq__(self, other):
        return isinstance(other, Died) and other.how == self.how


class HarnessError(RuntimeError):
    pass


def _child(fn, task, wfd, stderr_fd):
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    try:
        if stderr_fd is not None:
            os.dup2(stderr_fd, 2)
            os.dup2(stderr_fd, 1)
        try:
            data = pickle.dumps(("ok", fn(task)))
        except BaseException:
            data = pickle.dumps(("exc", traceback.format_exc()))
        data = struct.pack("<Q", len(data)) + data
        while data:
            n = os.write(wfd, data)
            data = data[n:]
    finally:
        os._exit(0)


_devnull = None


def _null():
    global _devnull
    if _devnull is None:
        _devnull = os.open("/dev/null", os.O_WRONLY)
    return _devnull


def pmap(fn, tasks, nproc=None, timeout=300, quiet=True):
    """[fn(t) for t in tasks], each in a forked child; Died(...) where the child died."""
    nproc = nproc or int(os.environ.get("VERIF_JOBS", "8"))
    tasks = list(tasks)
    results = [None] * len(tasks)
    running = {}
    nxt = 0
    while nxt < len(tasks) or running:
        while nxt < len(tasks) and len(running) < nproc:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                for fd in list(running):
                    os.close(fd)
                _child(fn, tasks[nxt], w, _null() if quiet else None)
            os.close(w)
            running[r] = [nxt, pid, bytearray(), time.time() + timeout]
            nxt += 1
        ready, _, _ = select.select(list(running), [], [], 1.0)
        for fd in ready:
            idx, pid, buf, _ = running[fd]
            chunk = os.read(fd, 1 << 16)
            if chunk:
                buf += chunk
                continue
            _finish(fd, running, results)
        now = time.time()
        for fd in list(running):
            if now > running[fd][3]:
                idx, pid, buf, _ = running[fd]
                _kill(pid)
                os.waitpid(pid, 0)
                os.close(fd)
                del running[fd]
                results[idx] = Died("timeout")
    return results


def _kill(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass


def _finish(fd, running, results):
    idx, pid, buf, _ = running.pop(fd)
    os.close(fd)
    _, status = os.waitpid(pid, 0)
    results[idx] = _decode(buf, status)


def _decode(buf, status):
    if len(buf) >= 8 and len(buf) - 8 == struct.unpack("<Q", bytes(buf[:8]))[0]:
        kind, val = pickle.loads(bytes(buf[8:]))
        if kind == "exc":
            raise HarnessError(val)
        return val
    if os.WIFSIGNALED(status):
        return Died(signal.Signals(os.WTERMSIG(status)).name)
    return Died(f"exit {os.WEXITSTATUS(status)}")


def fork_call(fn, *args, timeout=300):
    """fn(*args) in a forked child of the current process (which keeps its state)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        _child(lambda a: fn(*a), args, w, None)
    os.close(w)
    buf = bytearray()
    end = time.time() + timeout
    while True:
        left = end - time.time()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            _kill(pid)
            os.waitpid(pid, 0)
            os.close(r)
            return Died("timeout")
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        buf += chunk
    os.close(r)
    _, status = os.waitpid(pid, 0)
    return _decode(buf, status)
