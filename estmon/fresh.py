"""Runs a function in a process where the code under test has never run anything.

The reference executions of the differential properties are made there: state which the
library would keep between systems (caches, shared defaults, ...) is then absent from
the reference, whatever ran before in the worker.
"""
import os
import pickle
import signal
import struct

from estmon.core import Inconclusive

_zygote = None


def _read(fd, n):
    out = b""
    while len(out) < n:
        part = os.read(fd, min(n - len(out), 1 << 20))
        if not part:
            raise EOFError
        out += part
    return out


def _get(fd):
    (n,) = struct.unpack("<Q", _read(fd, 8))
    return pickle.loads(_read(fd, n))


def _put(fd, obj):
    data = pickle.dumps(obj, protocol=pickle.HIGHEST_PROTOCOL)
    data = struct.pack("<Q", len(data)) + data
    view = memoryview(data)
    while view:
        view = view[os.write(fd, view):]


def _child(w, task):
    """In a fresh process: run the task, send its result."""
    from estmon import core

    func, args = task
    try:
        answer = ("ok", func(*args))
    except core.Violation as v:
        answer = ("violation", (v.key, v.msg))
    except BaseException as e:  # noqa: told to the parent
        import traceback

        kind = "library" if core._in_estrade(e.__traceback__) else "harness"
        answer = (kind, (type(e).__name__, traceback.format_exc(limit=-6)))
    _put(w, answer)


def _serve(r, w):
    while True:
        try:
            task = _get(r)
        except EOFError:
            os._exit(0)
        pid = os.fork()
        if not pid:
            try:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(200)
                _child(w, task)
            finally:
                os._exit(0)
        _, status = os.waitpid(pid, 0)
        if status:
            _put(w, ("harness", ("died", f"the reference process ended with status {status}")))


def start():
    """To be called before the code under test ran anything in this process."""
    global _zygote
    if _zygote and _zygote[2] == os.getpid():
        return
    from estmon.world import lib

    lib()  # imported, not run
    a, b = os.pipe()
    c, d = os.pipe()
    pid = os.fork()
    if not pid:
        os.close(b)
        os.close(c)
        # the zygote and its children keep no timer of the worker
        for s in (signal.SIGALRM, signal.SIGVTALRM):
            signal.signal(s, signal.SIG_DFL)
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        try:
            _serve(a, d)
        finally:
            os._exit(0)
    os.close(a)
    os.close(d)
    _zygote = (b, c, os.getpid())


def call(func, *args):
    """func(*args) in a fresh process; func is a module level function, results are pickled."""
    start()
    from estmon.core import LibraryError, Violation

    try:
        _put(_zygote[0], (func, args))
        kind, answer = _get(_zygote[1])
    except (EOFError, OSError) as e:
        raise Inconclusive(f"the reference process is gone: {e}")
    if kind == "ok":
        return answer
    if kind == "violation":
        raise Violation(*answer)
    if kind == "library":
        raise LibraryError(*answer)
    raise Inconclusive(answer[1])
